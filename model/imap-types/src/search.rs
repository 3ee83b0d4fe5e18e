use crate::{core::AString, core::Vec1, sequence::SequenceSet};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum SearchKey<'a> {
    And(Vec1<SearchKey<'a>>),
    SequenceSet(SequenceSet),
    All,
    Answered,
    Bcc(AString<'a>),
    Deleted,
    Seen,
    Unseen,
    Uid(SequenceSet),
    Subject(AString<'a>),
}
impl<'a> ToBoundedStatic for SearchKey<'a> {
    type Static = SearchKey<'static>;
    fn to_static(&self) -> SearchKey<'static> {
        self.clone().into_static()
    }
}
impl<'a> IntoBoundedStatic for SearchKey<'a> {
    type Static = SearchKey<'static>;
    fn into_static(self) -> SearchKey<'static> {
        match self {
            Self::And(v) => SearchKey::And(Vec1::unvalidated(
                v.into_inner().into_iter().map(|k| k.into_static()).collect(),
            )),
            Self::SequenceSet(s) => SearchKey::SequenceSet(s),
            Self::All => SearchKey::All,
            Self::Answered => SearchKey::Answered,
            Self::Bcc(a) => SearchKey::Bcc(a.into_static()),
            Self::Deleted => SearchKey::Deleted,
            Self::Seen => SearchKey::Seen,
            Self::Unseen => SearchKey::Unseen,
            Self::Uid(s) => SearchKey::Uid(s),
            Self::Subject(a) => SearchKey::Subject(a.into_static()),
        }
    }
}
