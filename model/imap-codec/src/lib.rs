//! Model of `imap-codec` 2.0.0-alpha.1 (rev 6aa651f): the public encode/decode API with a
//! small but executable grammar. The real crate is a git dependency that cannot be fetched
//! offline; see DESIGN.md ("Model crates").
#![allow(clippy::all)]
pub mod decode;
pub mod encode;
mod parse;

pub use imap_types;

macro_rules! codec {
    ($($n:ident),*) => {$(
        #[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
        #[non_exhaustive]
        pub struct $n {}
        impl $n { pub fn new() -> Self { Self {} } }
    )*};
}
codec!(GreetingCodec, CommandCodec, AuthenticateDataCodec, ResponseCodec, IdleDoneCodec);
