//! Witnesses for the types of imap-next: each function compiles exactly if what its name says is so.
#![allow(dead_code, unused)]
use imap_next::{
    client::{self, Client, CommandHandle},
    server::{self, ResponseHandle, Server},
    stream::{self, Stream},
    types::CommandAuthenticate,
    Interrupt, Io, State,
};
use std::{fmt::Debug, hash::Hash};

fn send<T: Send + 'static>() {}
fn sync<T: Sync + 'static>() {}
fn is_send<T: Send>(t: T) {}

fn client_can_be_moved_between_threads() {
    send::<Client>();
    sync::<Client>();
}
fn server_can_be_moved_between_threads() {
    send::<Server>();
    sync::<Server>();
}
fn stream_can_be_moved_between_threads() {
    send::<Stream>();
    sync::<Stream>();
}
fn options_can_be_moved_between_threads() {
    send::<client::Options>();
    sync::<client::Options>();
    send::<server::Options>();
    sync::<server::Options>();
}
fn events_can_be_moved_between_threads() {
    send::<client::Event>();
    sync::<client::Event>();
    send::<server::Event>();
    sync::<server::Event>();
    send::<CommandAuthenticate>();
    sync::<CommandAuthenticate>();
    send::<Io>();
    sync::<Io>();
}
fn errors_can_be_moved_between_threads<E: Send + Sync + 'static>() {
    send::<client::Error>();
    sync::<client::Error>();
    send::<server::Error>();
    sync::<server::Error>();
    send::<Interrupt<E>>();
    sync::<Interrupt<E>>();
    send::<stream::Error<E>>();
    sync::<stream::Error<E>>();
}
fn handles_can_be_moved_between_threads() {
    send::<CommandHandle>();
    sync::<CommandHandle>();
    send::<ResponseHandle>();
    sync::<ResponseHandle>();
}
fn pending_next_can_be_moved_between_threads<S>(stream: &mut Stream, state: S)
where
    S: State + Send,
    S::Event: Send,
    S::Error: Send,
{
    is_send(stream.next(state));
}
fn pending_next_with_client_can_be_moved_between_threads(stream: &mut Stream, client: &mut Client) {
    is_send(stream.next(client));
}
fn pending_next_with_server_can_be_moved_between_threads(stream: &mut Stream, server: &mut Server) {
    is_send(stream.next(server));
}
fn pending_flush_can_be_moved_between_threads(stream: &mut Stream) {
    is_send(stream.flush());
}
fn handles_can_be_keys() {
    fn key<T: Copy + Eq + Hash + Debug>() {}
    key::<CommandHandle>();
    key::<ResponseHandle>();
}

/// `T::absent(&...)` is ambiguous, and does not compile, if `T` implements the trait.
macro_rules! absent {
    ($t:ty: $b:path) => {{
        trait Absent<A> {
            fn absent() {}
        }
        impl<T: ?Sized> Absent<()> for T {}
        struct Present;
        impl<T: ?Sized + $b> Absent<Present> for T {}
        let _ = <$t as Absent<_>>::absent;
    }};
}
fn client_cannot_be_duplicated() {
    absent!(Client: Clone);
}
fn server_cannot_be_duplicated() {
    absent!(Server: Clone);
}
fn stream_cannot_be_duplicated() {
    absent!(Stream: Clone);
}
fn command_handle_cannot_be_made_up() {
    absent!(CommandHandle: Default);
    absent!(CommandHandle: From<u64>);
    absent!(CommandHandle: From<(u64, u64)>);
    absent!(CommandHandle: From<ResponseHandle>);
    absent!(CommandHandle: std::str::FromStr);
}
fn response_handle_cannot_be_made_up() {
    absent!(ResponseHandle: Default);
    absent!(ResponseHandle: From<u64>);
    absent!(ResponseHandle: From<(u64, u64)>);
    absent!(ResponseHandle: From<CommandHandle>);
    absent!(ResponseHandle: std::str::FromStr);
}
fn handles_of_client_and_server_cannot_be_mixed() {
    absent!(CommandHandle: PartialEq<ResponseHandle>);
    absent!(ResponseHandle: PartialEq<CommandHandle>);
}
