//! The error type of the real crate; the client is not staged.
#![allow(warnings)]
pub mod limiter { #[path = "/repo/meta/src/limiter/limiter_kind.rs"] pub mod limiter_kind; }
#[path = "/repo/meta/src/error.rs"] pub mod error;
pub mod model;
extern crate self as replication;
extern crate self as heed;
extern crate self as warp;
pub mod errors {
    #[derive(Debug)]
    pub struct ReplicationError;
    impl std::fmt::Display for ReplicationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("replication") } }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("heed") } }
pub mod reject { pub trait Reject {} }
