#[macro_export]
macro_rules! bail {
    ($e:expr) => {
        return Err(::std::convert::From::from($e))
    };
    ($fmt:literal, $($arg:tt)+) => {
        return Err(::std::convert::From::from(format!($fmt, $($arg)+)))
    };
}
