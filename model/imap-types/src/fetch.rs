use crate::{body::BodyStructure, core::NString, datetime::DateTime, envelope::Envelope, flag::FlagFetch};
use bounded_static::ToStatic;
use std::num::NonZeroU32;
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum Macro {
    All,
    Fast,
    Full,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum MacroOrMessageDataItemNames<'a> {
    Macro(Macro),
    MessageDataItemNames(Vec<MessageDataItemName<'a>>),
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
#[non_exhaustive]
pub enum MessageDataItemName<'a> {
    Body,
    BodyStructure,
    Envelope,
    Flags,
    InternalDate,
    Rfc822,
    Rfc822Header,
    Rfc822Size,
    Rfc822Text,
    Uid,
    BodyExt { section: Option<NString<'a>>, peek: bool },
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
#[non_exhaustive]
pub enum MessageDataItem<'a> {
    Body(BodyStructure<'a>),
    BodyExt { section: Option<NString<'a>>, origin: Option<u32>, data: NString<'a> },
    BodyStructure(BodyStructure<'a>),
    Envelope(Envelope<'a>),
    Flags(Vec<FlagFetch<'a>>),
    InternalDate(DateTime),
    Rfc822(NString<'a>),
    Rfc822Header(NString<'a>),
    Rfc822Size(u32),
    Rfc822Text(NString<'a>),
    Uid(NonZeroU32),
}
