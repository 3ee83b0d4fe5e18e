pub mod idle {
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
    pub struct IdleDone;
}
pub mod binary {
    use crate::core::Literal;
    use bounded_static::ToStatic;
    use std::borrow::Cow;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
    pub enum LiteralOrLiteral8<'a> {
        Literal(Literal<'a>),
        Literal8(Literal8<'a>),
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
    pub struct Literal8<'a> {
        pub data: Cow<'a, [u8]>,
        pub mode: crate::core::LiteralMode,
    }
}
pub mod compress {
    use bounded_static::ToStatic;
    #[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    #[non_exhaustive]
    pub enum CompressionAlgorithm {
        Deflate,
    }
}
pub mod enable {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    #[non_exhaustive]
    pub enum CapabilityEnable<'a> {
        Utf8(Utf8Kind),
        CondStore,
        Metadata,
        MetadataServer,
        Other(Atom<'a>),
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    pub enum Utf8Kind {
        Accept,
        Only,
    }
}
pub mod quota {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    #[non_exhaustive]
    pub enum Resource<'a> {
        Storage,
        Message,
        Mailbox,
        AnnotationStorage,
        Other(Atom<'a>),
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    pub struct QuotaGet<'a> {
        pub resource: Resource<'a>,
        pub usage: u64,
        pub limit: u64,
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    pub struct QuotaSet<'a> {
        pub resource: Resource<'a>,
        pub limit: u64,
    }
}
pub mod sort {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    #[non_exhaustive]
    pub enum SortAlgorithm<'a> {
        Display,
        Other(Atom<'a>),
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    pub struct SortCriterion {
        pub reverse: bool,
        pub key: SortKey,
    }
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    pub enum SortKey {
        Arrival,
        Cc,
        Date,
        From,
        Size,
        Subject,
        To,
    }
}
pub mod thread {
    use crate::core::Atom;
    use bounded_static::ToStatic;
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
    #[non_exhaustive]
    pub enum ThreadingAlgorithm<'a> {
        OrderedSubject,
        References,
        Other(Atom<'a>),
    }
}
pub mod uidplus {
    #[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord)]
    pub struct UidSet(pub Vec<(u32, u32)>);
    bounded!(UidSet);
}
