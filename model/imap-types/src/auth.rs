use crate::{core::Atom, error::ValidationError, secret::Secret};
use bounded_static::ToStatic;
use std::{
    borrow::Cow,
    fmt::{Display, Formatter},
    str::FromStr,
};

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd, ToStatic)]
#[non_exhaustive]
pub enum AuthMechanism<'a> {
    Plain,
    Login,
    OAuthBearer,
    XOAuth2,
    ScramSha1,
    ScramSha1Plus,
    ScramSha256,
    ScramSha256Plus,
    ScramSha3_512,
    ScramSha3_512Plus,
    Other(AuthMechanismOther<'a>),
}
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd, ToStatic)]
pub struct AuthMechanismOther<'a>(pub(crate) Atom<'a>);

impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref().to_ascii_uppercase().as_ref() {
            "PLAIN" => Self::Plain,
            "LOGIN" => Self::Login,
            "OAUTHBEARER" => Self::OAuthBearer,
            "XOAUTH2" => Self::XOAuth2,
            "SCRAM-SHA-1" => Self::ScramSha1,
            "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
            "SCRAM-SHA-256" => Self::ScramSha256,
            "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
            "SCRAM-SHA3-512" => Self::ScramSha3_512,
            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
            _ => Self::Other(AuthMechanismOther(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(v: &'a str) -> Result<Self, ValidationError> {
        Ok(Atom::try_from(v)?.into())
    }
}
impl<'a> TryFrom<String> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(v: String) -> Result<Self, ValidationError> {
        Ok(Atom::try_from(v)?.into())
    }
}
impl<'a> AsRef<str> for AuthMechanism<'a> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Plain => "PLAIN",
            Self::Login => "LOGIN",
            Self::OAuthBearer => "OAUTHBEARER",
            Self::XOAuth2 => "XOAUTH2",
            Self::ScramSha1 => "SCRAM-SHA-1",
            Self::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
            Self::ScramSha256 => "SCRAM-SHA-256",
            Self::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
            Self::ScramSha3_512 => "SCRAM-SHA3-512",
            Self::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
            Self::Other(o) => o.0.as_ref(),
        }
    }
}
impl FromStr for AuthMechanism<'static> {
    type Err = ValidationError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        AuthMechanism::try_from(s.to_string())
    }
}
impl<'a> Display for AuthMechanism<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_ref())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AuthenticateData<'a> {
    Continue(Secret<Cow<'a, [u8]>>),
    Cancel,
}
impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self::Continue(Secret::new(data.into()))
    }
}
