use crate::{
    parse::{P, E},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use bounded_static::{IntoBoundedStatic, ToStatic};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};

pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;
    fn decode_static<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        let (remaining, value) = self.decode(input).map_err(IntoBoundedStatic::into_static)?;
        Ok((remaining, value.into_static()))
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum GreetingDecodeError {
    Incomplete,
    Failed,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandDecodeError<'a> {
    Incomplete,
    LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode },
    Failed,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum AuthenticateDataDecodeError {
    Incomplete,
    Failed,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum ResponseDecodeError {
    Incomplete,
    LiteralFound { length: u32 },
    Failed,
}
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum IdleDoneDecodeError {
    Incomplete,
    Failed,
}

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
        let mut p = P::new(input);
        match p.greeting() {
            Ok(m) => Ok((p.rest, m)),
            Err(E::Incomplete) => Err(GreetingDecodeError::Incomplete),
            Err(_) => Err(GreetingDecodeError::Failed),
        }
    }
}
impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
        let mut p = P::new(input);
        match p.command() {
            Ok(m) => Ok((p.rest, m)),
            Err(E::Incomplete) => Err(CommandDecodeError::Incomplete),
            Err(E::Literal(length, mode)) => {
                let tag = P::new(input).tag().map_err(|_| CommandDecodeError::Failed)?;
                Err(CommandDecodeError::LiteralFound { tag, length, mode })
            }
            Err(E::Failed) => Err(CommandDecodeError::Failed),
        }
    }
}
impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
        let mut p = P::new(input);
        match p.response() {
            Ok(m) => Ok((p.rest, m)),
            Err(E::Incomplete) => Err(ResponseDecodeError::Incomplete),
            Err(E::Literal(length, _)) => Err(ResponseDecodeError::LiteralFound { length }),
            Err(E::Failed) => Err(ResponseDecodeError::Failed),
        }
    }
}
impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
        let mut p = P::new(input);
        match p.authenticate_data() {
            Ok(m) => Ok((p.rest, m)),
            Err(E::Incomplete) => Err(AuthenticateDataDecodeError::Incomplete),
            Err(_) => Err(AuthenticateDataDecodeError::Failed),
        }
    }
}
impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
        let mut p = P::new(input);
        match p.idle_done() {
            Ok(m) => Ok((p.rest, m)),
            Err(E::Incomplete) => Err(IdleDoneDecodeError::Incomplete),
            Err(_) => Err(IdleDoneDecodeError::Failed),
        }
    }
}
