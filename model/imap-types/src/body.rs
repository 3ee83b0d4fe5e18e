use crate::core::{IString, NString};
use bounded_static::ToStatic;
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct BasicFields<'a> {
    pub parameter_list: Vec<(IString<'a>, IString<'a>)>,
    pub id: NString<'a>,
    pub description: NString<'a>,
    pub size: u32,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum BodyStructure<'a> {
    Single { body: BasicFields<'a> },
    Multi { bodies: Vec<BodyStructure<'a>>, subtype: IString<'a> },
}
