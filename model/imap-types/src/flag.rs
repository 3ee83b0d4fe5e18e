use crate::core::Atom;
use bounded_static::ToStatic;
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum Flag<'a> {
    Answered,
    Deleted,
    Draft,
    Flagged,
    Seen,
    Extension(FlagExtension<'a>),
    Keyword(Atom<'a>),
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub struct FlagExtension<'a>(pub(crate) Atom<'a>);
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum FlagFetch<'a> {
    Flag(Flag<'a>),
    Recent,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum FlagPerm<'a> {
    Flag(Flag<'a>),
    Asterisk,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum FlagNameAttribute<'a> {
    Noinferiors,
    Noselect,
    Marked,
    Unmarked,
    Extension(Atom<'a>),
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum StoreType {
    Replace,
    Add,
    Remove,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum StoreResponse {
    Answer,
    Silent,
}
