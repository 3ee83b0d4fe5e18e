use crate::{core::AString, error::ValidationError};
use bounded_static::ToStatic;
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum Mailbox<'a> {
    Inbox,
    Other(MailboxOther<'a>),
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub struct MailboxOther<'a>(pub AString<'a>);
impl<'a> From<AString<'a>> for Mailbox<'a> {
    fn from(s: AString<'a>) -> Self {
        if s.as_ref().eq_ignore_ascii_case(b"inbox") {
            Mailbox::Inbox
        } else {
            Mailbox::Other(MailboxOther(s))
        }
    }
}
impl<'a> TryFrom<&'a str> for Mailbox<'a> {
    type Error = ValidationError;
    fn try_from(s: &'a str) -> Result<Self, ValidationError> {
        Ok(AString::try_from(s)?.into())
    }
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum ListMailbox<'a> {
    Token(crate::core::Atom<'a>),
    String(crate::core::IString<'a>),
}
