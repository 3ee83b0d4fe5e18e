//! Model of `argh`.
pub use argh_derive::FromArgs;
pub trait FromArgs: Sized {
    fn __from(args: &[String]) -> Self;
}
pub fn from_env<T: FromArgs>() -> T {
    let args: Vec<String> = std::env::args().collect();
    T::__from(&args)
}
pub fn __option(args: &[String], flag: &str) -> Option<String> {
    let i = args.iter().position(|a| a == flag)?;
    args.get(i + 1).cloned()
}
