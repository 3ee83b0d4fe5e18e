//! Model of `tracing`: every recorded field becomes a call of `__debug`/`__display`/`__value`,
//! behind an opaque `__enabled` guard, so that the data flowing into logs stays visible in MIR.
pub use tracing_attributes::instrument;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level {
    Trace,
    Debug,
    Info,
    Warn,
    Error,
}
#[inline(never)]
pub fn __enabled(level: Level) -> bool {
    std::env::var_os("MODEL_TRACING").is_some() && level as u8 > 0
        || std::env::var_os("MODEL_TRACE").is_some()
}
#[inline(never)]
pub fn __debug<T: std::fmt::Debug + ?Sized>(level: Level, name: &str, v: &T) {
    eprintln!("[{:?}] {}={:?}", level, name, v)
}
#[inline(never)]
pub fn __display<T: std::fmt::Display + ?Sized>(level: Level, name: &str, v: &T) {
    eprintln!("[{:?}] {}={}", level, name, v)
}
#[inline(never)]
pub fn __value<T: std::fmt::Debug + ?Sized>(level: Level, name: &str, v: &T) {
    eprintln!("[{:?}] {}={:?}", level, name, v)
}
#[inline(never)]
pub fn __message(level: Level, v: std::fmt::Arguments<'_>) {
    eprintln!("[{:?}] {}", level, v)
}

#[doc(hidden)]
#[macro_export]
macro_rules! __fields {
    ($l:expr;) => {};
    ($l:expr; , $($r:tt)*) => { $crate::__fields!($l; $($r)*) };
    ($l:expr; target: $t:expr, $($r:tt)*) => { $crate::__fields!($l; $($r)*) };
    ($l:expr; $m:literal $($r:tt)*) => { $crate::__message($l, ::core::format_args!($m $($r)*)) };
    ($l:expr; ? $($n:ident).+ , $($r:tt)*) => { $crate::__debug($l, stringify!($($n).+), &$($n).+); $crate::__fields!($l; $($r)*) };
    ($l:expr; ? $($n:ident).+) => { $crate::__debug($l, stringify!($($n).+), &$($n).+); };
    ($l:expr; % $($n:ident).+ , $($r:tt)*) => { $crate::__display($l, stringify!($($n).+), &$($n).+); $crate::__fields!($l; $($r)*) };
    ($l:expr; % $($n:ident).+) => { $crate::__display($l, stringify!($($n).+), &$($n).+); };
    ($l:expr; $($n:ident).+ = ? $e:expr , $($r:tt)*) => { $crate::__debug($l, stringify!($($n).+), &$e); $crate::__fields!($l; $($r)*) };
    ($l:expr; $($n:ident).+ = ? $e:expr) => { $crate::__debug($l, stringify!($($n).+), &$e); };
    ($l:expr; $($n:ident).+ = % $e:expr , $($r:tt)*) => { $crate::__display($l, stringify!($($n).+), &$e); $crate::__fields!($l; $($r)*) };
    ($l:expr; $($n:ident).+ = % $e:expr) => { $crate::__display($l, stringify!($($n).+), &$e); };
    ($l:expr; $($n:ident).+ = $e:expr , $($r:tt)*) => { $crate::__value($l, stringify!($($n).+), &$e); $crate::__fields!($l; $($r)*) };
    ($l:expr; $($n:ident).+ = $e:expr) => { $crate::__value($l, stringify!($($n).+), &$e); };
    ($l:expr; $($n:ident).+ , $($r:tt)*) => { $crate::__value($l, stringify!($($n).+), &$($n).+); $crate::__fields!($l; $($r)*) };
    ($l:expr; $($n:ident).+) => { $crate::__value($l, stringify!($($n).+), &$($n).+); };
}
#[macro_export]
macro_rules! event {
    ($l:expr, $($r:tt)*) => { if $crate::__enabled($l) { $crate::__fields!($l; $($r)*); } };
}
#[macro_export]
macro_rules! trace { ($($r:tt)*) => { $crate::event!($crate::Level::Trace, $($r)*) }; }
#[macro_export]
macro_rules! debug { ($($r:tt)*) => { $crate::event!($crate::Level::Debug, $($r)*) }; }
#[macro_export]
macro_rules! info { ($($r:tt)*) => { $crate::event!($crate::Level::Info, $($r)*) }; }
#[macro_export]
macro_rules! warn { ($($r:tt)*) => { $crate::event!($crate::Level::Warn, $($r)*) }; }
#[macro_export]
macro_rules! error { ($($r:tt)*) => { $crate::event!($crate::Level::Error, $($r)*) }; }

#[derive(Clone, Debug)]
pub struct Span;
impl Span {
    pub fn current() -> Self {
        Span
    }
}
#[macro_export]
macro_rules! span { ($($r:tt)*) => { $crate::Span }; }
#[macro_export]
macro_rules! info_span { ($($r:tt)*) => { $crate::Span }; }

pub trait Instrument: Sized {
    fn in_current_span(self) -> Self {
        self
    }
    fn instrument(self, _span: Span) -> Self {
        self
    }
}
impl<T: Sized> Instrument for T {}
