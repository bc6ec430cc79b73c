//! the status type only
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code { Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated }
#[derive(Debug, Clone)]
pub struct Status { code: Code, message: String, details: Vec<u8> }
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self { Status { code, message: message.into(), details: vec![] } }
    pub fn unknown(m: impl Into<String>) -> Self { Self::new(Code::Unknown, m) }
    pub fn internal(m: impl Into<String>) -> Self { Self::new(Code::Internal, m) }
    pub fn code(&self) -> Code { self.code }
    pub fn message(&self) -> &str { &self.message }
    pub fn details(&self) -> &[u8] { &self.details }
    pub fn set_details(&mut self, d: Vec<u8>) { self.details = d }
}
impl std::fmt::Display for Status { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.message) } }
impl std::error::Error for Status {}
