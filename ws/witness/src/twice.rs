//! Must not compile: one stream is used by two operations at the same time.
use imap_next::{client::Client, stream::Stream};

fn two_operations_at_once_do_not_compile(stream: &mut Stream, a: &mut Client, b: &mut Client) {
    let x = stream.next(a);
    let y = stream.next(b);
    drop((x, y));
}

fn main() {
    let _ = two_operations_at_once_do_not_compile;
}
