//! Stand-in for `tonic`: the request, response and status types, and an in-process
//! "transport" that serves nothing.
pub use tonic_macros::async_trait;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}

#[derive(Clone, Debug)]
pub struct Status {
    code: Code,
    message: String,
}
macro_rules! ctor {
    ($($f:ident $c:ident),*) => { $(pub fn $f(m: impl Into<String>) -> Self { Status::new(Code::$c, m) })* };
}
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Status { code, message: message.into() }
    }
    ctor!(cancelled Cancelled, unknown Unknown, invalid_argument InvalidArgument, deadline_exceeded DeadlineExceeded,
        not_found NotFound, already_exists AlreadyExists, permission_denied PermissionDenied,
        resource_exhausted ResourceExhausted, failed_precondition FailedPrecondition, aborted Aborted,
        out_of_range OutOfRange, unimplemented Unimplemented, internal Internal, unavailable Unavailable,
        data_loss DataLoss, unauthenticated Unauthenticated);
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

#[derive(Clone, Debug, Default)]
pub struct Request<T> {
    message: T,
}
impl<T> Request<T> {
    pub fn new(message: T) -> Self {
        Request { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
}
#[derive(Clone, Debug, Default)]
pub struct Response<T> {
    message: T,
}
impl<T> Response<T> {
    pub fn new(message: T) -> Self {
        Response { message }
    }
    pub fn into_inner(self) -> T {
        self.message
    }
    pub fn get_ref(&self) -> &T {
        &self.message
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.message
    }
}
impl<T> From<T> for Response<T> {
    fn from(t: T) -> Self {
        Response::new(t)
    }
}

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => {
        include!(concat!(env!("OUT_DIR"), concat!("/", $package, ".rs")));
    };
}

pub mod transport {
    use std::fmt;
    use std::net::SocketAddr;
    use std::time::Duration;
    #[derive(Debug)]
    pub struct Error;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "transport error")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Default)]
    pub struct Server;
    pub struct Router<S>(#[allow(dead_code)] S);
    impl Server {
        pub fn builder() -> Self {
            Server
        }
        pub fn http2_keepalive_interval(self, _: Option<Duration>) -> Self {
            self
        }
        pub fn http2_keepalive_timeout(self, _: Option<Duration>) -> Self {
            self
        }
        pub fn tcp_keepalive(self, _: Option<Duration>) -> Self {
            self
        }
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn add_service<S>(&mut self, s: S) -> Router<S> {
            Router(s)
        }
    }
    impl<S> Router<S> {
        pub async fn serve(self, _: SocketAddr) -> Result<(), Error> {
            Ok(())
        }
    }
}
