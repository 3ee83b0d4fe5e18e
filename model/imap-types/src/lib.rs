//! Model of `imap-types` 2.0.0-alpha.1 (rev 6aa651f): the public types and the
//! constructors/accessors, with enough behaviour to be executable. The real crate is
//! a git dependency that cannot be fetched offline; see DESIGN.md ("Model crates").
#![allow(clippy::all, dead_code)]

macro_rules! bounded {
    ($t:ty) => {
        impl bounded_static::ToBoundedStatic for $t {
            type Static = $t;
            fn to_static(&self) -> $t {
                self.clone()
            }
        }
        impl bounded_static::IntoBoundedStatic for $t {
            type Static = $t;
            fn into_static(self) -> $t {
                self
            }
        }
    };
}

pub mod auth;
pub mod body;
pub mod command;
pub mod core;
pub mod datetime;
pub mod envelope;
pub mod error;
pub mod extensions;
pub mod fetch;
pub mod flag;
pub mod mailbox;
pub mod response;
pub mod search;
pub mod secret;
pub mod sequence;
pub mod state;
pub mod status;
pub mod utils;

pub use bounded_static;
pub use bounded_static::{IntoBoundedStatic, ToBoundedStatic};

pub trait ToStatic {}
