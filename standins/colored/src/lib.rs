//! Stand-in for `colored`: never colours (as the real crate does when stdout is no terminal).
use std::fmt;
use std::ops::Deref;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        <String as fmt::Display>::fmt(&self.0, f)
    }
}
impl Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString(s.to_string())
    }
}
macro_rules! styles {
    ($($n:ident)*) => {
        pub trait Colorize {
            $(fn $n(self) -> ColoredString where Self: Sized;)*
        }
        impl Colorize for &str {
            $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })*
        }
        impl Colorize for ColoredString {
            $(fn $n(self) -> ColoredString { self })*
        }
    };
}
styles!(black red green yellow blue magenta purple cyan white bright_black bright_red bright_green
    bright_yellow bright_blue bright_magenta bright_cyan bright_white on_black on_red on_green on_yellow
    on_blue on_magenta on_cyan on_white clear normal bold dimmed italic underline blink reversed
    hidden strikethrough);
