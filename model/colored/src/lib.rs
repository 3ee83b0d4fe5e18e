//! Model of `colored`: identity colouring.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl std::fmt::Display for ColoredString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
macro_rules! colors { ($($c:ident),*) => {
    pub trait Colorize {
        $(fn $c(self) -> ColoredString where Self: Sized;)*
    }
    impl Colorize for &str { $(fn $c(self) -> ColoredString { ColoredString(self.to_string()) })* }
    impl Colorize for ColoredString { $(fn $c(self) -> ColoredString { self })* }
} }
colors!(red, green, blue, yellow, magenta, cyan, white, black, bold, dimmed, normal, purple,
        bright_red, bright_green, bright_blue, bright_yellow, underline, italic);
