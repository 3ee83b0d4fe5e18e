use crate::{
    error::{ValidationError, ValidationErrorKind},
    utils::indicators::{is_astring_char, is_atom_char, is_text_char},
};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};
use std::{
    borrow::Cow,
    fmt::{Display, Formatter},
    ops::Deref,
    vec::IntoIter,
};

fn bad() -> ValidationError {
    ValidationError::new(ValidationErrorKind::Invalid)
}

macro_rules! str_type {
    ($(#[$m:meta])* $name:ident, $check:expr) => {
        $(#[$m])*
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, ToStatic)]
        pub struct $name<'a>(pub(crate) Cow<'a, str>);
        impl<'a> $name<'a> {
            pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
                let f: fn(&[u8]) -> bool = $check;
                if f(value.as_ref()) { Ok(()) } else { Err(bad()) }
            }
            pub fn inner(&self) -> &str { self.0.as_ref() }
            pub fn into_inner(self) -> Cow<'a, str> { self.0 }
            pub fn unvalidated<C: Into<Cow<'a, str>>>(inner: C) -> Self { Self(inner.into()) }
        }
        impl<'a> TryFrom<&'a [u8]> for $name<'a> {
            type Error = ValidationError;
            fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> {
                Self::validate(v)?;
                Ok(Self(Cow::Borrowed(std::str::from_utf8(v).map_err(|_| bad())?)))
            }
        }
        impl<'a> TryFrom<Vec<u8>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(v: Vec<u8>) -> Result<Self, ValidationError> {
                Self::validate(&v)?;
                Ok(Self(Cow::Owned(String::from_utf8(v).map_err(|_| bad())?)))
            }
        }
        impl<'a> TryFrom<&'a str> for $name<'a> {
            type Error = ValidationError;
            fn try_from(v: &'a str) -> Result<Self, ValidationError> {
                Self::validate(v)?;
                Ok(Self(Cow::Borrowed(v)))
            }
        }
        impl<'a> TryFrom<String> for $name<'a> {
            type Error = ValidationError;
            fn try_from(v: String) -> Result<Self, ValidationError> {
                Self::validate(&v)?;
                Ok(Self(Cow::Owned(v)))
            }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $name<'a> {
            type Error = ValidationError;
            fn try_from(v: Cow<'a, str>) -> Result<Self, ValidationError> {
                Self::validate(v.as_bytes())?;
                Ok(Self(v))
            }
        }
        impl<'a> AsRef<str> for $name<'a> {
            fn as_ref(&self) -> &str { self.0.as_ref() }
        }
        impl<'a> Display for $name<'a> {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
        }
    };
}
str_type!(Atom, |b| !b.is_empty() && b.iter().all(|b| is_atom_char(*b)));
str_type!(AtomExt, |b| !b.is_empty() && b.iter().all(|b| is_astring_char(*b)));
str_type!(Tag, |b| !b.is_empty() && b.iter().all(|b| is_astring_char(*b) && *b != b'+'));
str_type!(Text, |b| !b.is_empty() && b.iter().all(|b| is_text_char(*b)));
str_type!(Quoted, |b| b.iter().all(|b| is_text_char(*b)));

impl<'a> From<AtomExt<'a>> for Atom<'a> {
    fn from(v: AtomExt<'a>) -> Self {
        Atom(v.0)
    }
}

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum LiteralMode {
    Sync,
    NonSync,
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub struct Literal<'a> {
    pub(crate) data: Cow<'a, [u8]>,
    pub(crate) mode: LiteralMode,
}
impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        if value.as_ref().contains(&0) {
            Err(bad())
        } else {
            Ok(())
        }
    }
    pub fn data(&self) -> &[u8] {
        &self.data
    }
    pub fn mode(&self) -> LiteralMode {
        self.mode
    }
    pub fn set_mode(&mut self, mode: LiteralMode) {
        self.mode = mode
    }
    pub fn into_data(self) -> Cow<'a, [u8]> {
        self.data
    }
    pub fn into_sync(mut self) -> Self {
        self.mode = LiteralMode::Sync;
        self
    }
    pub fn into_non_sync(mut self) -> Self {
        self.mode = LiteralMode::NonSync;
        self
    }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self { data: data.into(), mode: LiteralMode::Sync }
    }
    pub fn unvalidated_non_sync<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self { data: data.into(), mode: LiteralMode::NonSync }
    }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> {
        Self::validate(v)?;
        Ok(Self { data: Cow::Borrowed(v), mode: LiteralMode::Sync })
    }
}
impl<'a> TryFrom<Vec<u8>> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: Vec<u8>) -> Result<Self, ValidationError> {
        Self::validate(&v)?;
        Ok(Self { data: Cow::Owned(v), mode: LiteralMode::Sync })
    }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, ValidationError> {
        Self::try_from(v.as_bytes())
    }
}
impl<'a> TryFrom<String> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, ValidationError> {
        Self::try_from(v.into_bytes())
    }
}
impl<'a> AsRef<[u8]> for Literal<'a> {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum IString<'a> {
    Literal(Literal<'a>),
    Quoted(Quoted<'a>),
}
impl<'a> IString<'a> {
    pub fn into_inner(self) -> Cow<'a, [u8]> {
        match self {
            Self::Literal(l) => l.into_data(),
            Self::Quoted(Quoted(Cow::Owned(s))) => Cow::Owned(s.into_bytes()),
            Self::Quoted(Quoted(Cow::Borrowed(s))) => Cow::Borrowed(s.as_bytes()),
        }
    }
}
impl<'a> TryFrom<&'a [u8]> for IString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> {
        if let Ok(q) = Quoted::try_from(v) {
            return Ok(IString::Quoted(q));
        }
        Ok(IString::Literal(Literal::try_from(v)?))
    }
}
impl<'a> TryFrom<&'a str> for IString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, ValidationError> {
        Self::try_from(v.as_bytes())
    }
}
impl<'a> TryFrom<String> for IString<'a> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, ValidationError> {
        match Quoted::try_from(v.clone()) {
            Ok(q) => Ok(IString::Quoted(q)),
            Err(_) => Ok(IString::Literal(Literal::try_from(v)?)),
        }
    }
}
impl<'a> From<Literal<'a>> for IString<'a> {
    fn from(l: Literal<'a>) -> Self {
        Self::Literal(l)
    }
}
impl<'a> From<Quoted<'a>> for IString<'a> {
    fn from(q: Quoted<'a>) -> Self {
        Self::Quoted(q)
    }
}
impl<'a> AsRef<[u8]> for IString<'a> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Literal(l) => l.as_ref(),
            Self::Quoted(q) => q.0.as_bytes(),
        }
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl<'a> NString<'a> {
    pub const NIL: Self = Self(None);
    pub fn into_option(self) -> Option<Cow<'a, [u8]>> {
        self.0.map(|i| i.into_inner())
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum AString<'a> {
    Atom(AtomExt<'a>),
    String(IString<'a>),
}
impl<'a> TryFrom<&'a [u8]> for AString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> {
        if let Ok(a) = AtomExt::try_from(v) {
            return Ok(AString::Atom(a));
        }
        Ok(AString::String(IString::try_from(v)?))
    }
}
impl<'a> TryFrom<&'a str> for AString<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, ValidationError> {
        Self::try_from(v.as_bytes())
    }
}
impl<'a> TryFrom<String> for AString<'a> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, ValidationError> {
        match AtomExt::try_from(v.clone()) {
            Ok(a) => Ok(AString::Atom(a)),
            Err(_) => Ok(AString::String(IString::try_from(v)?)),
        }
    }
}
impl<'a> From<Literal<'a>> for AString<'a> {
    fn from(l: Literal<'a>) -> Self {
        Self::String(l.into())
    }
}
impl<'a> From<AtomExt<'a>> for AString<'a> {
    fn from(l: AtomExt<'a>) -> Self {
        Self::Atom(l)
    }
}
impl<'a> AsRef<[u8]> for AString<'a> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Atom(a) => a.0.as_bytes(),
            Self::String(s) => s.as_ref(),
        }
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub enum Charset<'a> {
    Atom(Atom<'a>),
    Quoted(Quoted<'a>),
}
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, PartialOrd, Ord, ToStatic)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn inner(&self) -> char {
        self.0
    }
    pub fn unvalidated(inner: char) -> Self {
        Self(inner)
    }
}

macro_rules! vec_min {
    ($name:ident, $min:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $name<T>(pub(crate) Vec<T>);
        impl<T> $name<T> {
            pub fn validate(value: &[T]) -> Result<(), ValidationError> {
                if value.len() < $min {
                    return Err(ValidationError::new(ValidationErrorKind::NotEnough { min: $min }));
                }
                Ok(())
            }
            pub fn unvalidated(inner: Vec<T>) -> Self {
                Self(inner)
            }
            pub fn into_inner(self) -> Vec<T> {
                self.0
            }
        }
        impl<T> TryFrom<Vec<T>> for $name<T> {
            type Error = ValidationError;
            fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> {
                Self::validate(&inner)?;
                Ok(Self(inner))
            }
        }
        impl<T> IntoIterator for $name<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                self.0.into_iter()
            }
        }
        impl<T> AsRef<[T]> for $name<T> {
            fn as_ref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T> Deref for $name<T> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T: ToBoundedStatic> ToBoundedStatic for $name<T> {
            type Static = $name<T::Static>;
            fn to_static(&self) -> Self::Static {
                $name(self.0.to_static())
            }
        }
        impl<T: IntoBoundedStatic> IntoBoundedStatic for $name<T> {
            type Static = $name<T::Static>;
            fn into_static(self) -> Self::Static {
                $name(self.0.into_static())
            }
        }
    };
}
vec_min!(Vec1, 1);
vec_min!(Vec2, 2);
impl<T> From<T> for Vec1<T> {
    fn from(value: T) -> Self {
        Vec1(vec![value])
    }
}
impl<T> From<(T, T)> for Vec2<T> {
    fn from((a, b): (T, T)) -> Self {
        Vec2(vec![a, b])
    }
}
