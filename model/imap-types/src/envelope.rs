use crate::core::NString;
use bounded_static::ToStatic;
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Envelope<'a> {
    pub date: NString<'a>,
    pub subject: NString<'a>,
    pub from: Vec<Address<'a>>,
    pub sender: Vec<Address<'a>>,
    pub reply_to: Vec<Address<'a>>,
    pub to: Vec<Address<'a>>,
    pub cc: Vec<Address<'a>>,
    pub bcc: Vec<Address<'a>>,
    pub in_reply_to: NString<'a>,
    pub message_id: NString<'a>,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Address<'a> {
    pub name: NString<'a>,
    pub adl: NString<'a>,
    pub mailbox: NString<'a>,
    pub host: NString<'a>,
}
