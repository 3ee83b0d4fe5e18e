//! Handling of secret values: `Debug` never prints the value.
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use std::fmt::{Debug, Formatter};

#[derive(Clone, Eq, Hash, PartialEq)]
pub struct Secret<T>(T);

impl<T> Secret<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn declassify(&self) -> &T {
        &self.0
    }
    pub fn expose_secret(&self) -> &T {
        &self.0
    }
}
impl<T> From<T> for Secret<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}
impl<T> Debug for Secret<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "/* REDACTED */")
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Secret<T> {
    type Static = Secret<T::Static>;
    fn to_static(&self) -> Self::Static {
        Secret(self.0.to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Secret<T> {
    type Static = Secret<T::Static>;
    fn into_static(self) -> Self::Static {
        Secret(self.0.into_static())
    }
}
