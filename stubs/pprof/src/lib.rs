//! Signature-only stand-in for the profiler (never runs in a check).
pub mod protos {
    pub trait Message {
        fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<(), Error>;
    }
    pub struct Profile;
    impl Message for Profile {
        fn write_to_vec(&self, _: &mut Vec<u8>) -> Result<(), Error> {
            Err(Error)
        }
    }
    pub use super::Error;
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("unsupported")
    }
}
#[derive(Default)]
pub struct ProfilerGuardBuilder;
impl ProfilerGuardBuilder {
    pub fn frequency(self, _: i32) -> Self {
        self
    }
    pub fn blocklist<T: AsRef<str>>(self, _: &[T]) -> Self {
        self
    }
    pub fn build(self) -> Result<ProfilerGuard, Error> {
        Err(Error)
    }
}
pub struct ProfilerGuard;
impl ProfilerGuard {
    pub fn report(&self) -> ReportBuilder {
        ReportBuilder
    }
}
pub struct ReportBuilder;
impl ReportBuilder {
    pub fn build(self) -> Result<Report, Error> {
        Err(Error)
    }
}
pub struct Report;
impl Report {
    pub fn pprof(&self) -> Result<protos::Profile, Error> {
        Err(Error)
    }
    pub fn flamegraph<W>(&self, _: W) -> Result<(), Error> {
        Err(Error)
    }
}
