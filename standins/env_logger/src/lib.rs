//! Stand-in for `env_logger`: accepts a configuration and writes records to stderr when
//! RUST_LOG is set.
use log::{Log, Metadata, Record, SetLoggerError};
use std::io::{self, Write};
use std::sync::Mutex;

pub mod fmt {
    use std::io::{self, Write};
    #[derive(Default)]
    pub struct Formatter {
        pub(crate) buf: Vec<u8>,
    }
    impl Write for Formatter {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.buf.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
use fmt::Formatter;

#[derive(Default)]
pub struct Env;
type Format = Box<dyn Fn(&mut Formatter, &Record) -> io::Result<()> + Sync + Send>;
#[derive(Default)]
pub struct Builder {
    format: Option<Format>,
}
struct Logger {
    level: log::LevelFilter,
    format: Option<Format>,
    lock: Mutex<()>,
}
impl Log for Logger {
    fn enabled(&self, m: &Metadata) -> bool {
        m.level() <= self.level
    }
    fn log(&self, r: &Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        let mut f = Formatter::default();
        match &self.format {
            Some(g) => {
                let _ = g(&mut f, r);
            }
            None => {
                let _ = writeln!(f, "[{}] {}", r.level(), r.args());
            }
        }
        let _g = self.lock.lock();
        let _ = io::stderr().write_all(&f.buf);
    }
    fn flush(&self) {}
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_env(_: impl Into<Env>) -> Self {
        Self::default()
    }
    pub fn format<F>(&mut self, f: F) -> &mut Self
    where
        F: Fn(&mut Formatter, &Record) -> io::Result<()> + Sync + Send + 'static,
    {
        self.format = Some(Box::new(f));
        self
    }
    pub fn try_init(&mut self) -> Result<(), SetLoggerError> {
        let level = std::env::var("RUST_LOG")
            .ok()
            .and_then(|l| l.parse().ok())
            .unwrap_or(log::LevelFilter::Off);
        log::set_max_level(level);
        log::set_boxed_logger(Box::new(Logger { level, format: self.format.take(), lock: Mutex::new(()) }))
    }
}
