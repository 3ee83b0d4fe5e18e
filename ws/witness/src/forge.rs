//! Must not compile: a handle is made without enqueueing anything.
use imap_next::{client::CommandHandle, handle::HandleGeneratorGenerator};

fn making_up_handles_does_not_compile() -> CommandHandle {
    HandleGeneratorGenerator::new().generate().generate()
}

fn main() {
    let _ = making_up_handles_does_not_compile;
}
