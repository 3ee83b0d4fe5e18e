use std::fmt::{Debug, Display, Formatter};
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ValidationError {
    kind: ValidationErrorKind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ValidationErrorKind {
    Empty,
    NotEnough { min: usize },
    InvalidByteAt { byte: u8, at: usize },
    Invalid,
}
impl ValidationError {
    pub fn new(kind: ValidationErrorKind) -> Self {
        Self { kind }
    }
    pub fn kind(&self) -> ValidationErrorKind {
        self.kind
    }
}
impl Display for ValidationError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Validation failed: {:?}", self.kind)
    }
}
impl std::error::Error for ValidationError {}
