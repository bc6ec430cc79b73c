//! The index engine of earlier releases (radixdb), read only when a directory of such a release is opened: left out.
use std::path::Path;
use super::{IndexResult, IndexStorageSnafu};
pub struct IndexEngine;
impl IndexEngine {
    pub fn new(_: impl AsRef<Path>) -> IndexResult<Self> { Err(IndexStorageSnafu { msg: "not modelled".to_string() }.build()) }
    pub fn copy_to_engine2(&self, _: &super::engine2::IndexEngine2) -> IndexResult<u64> { Ok(0) }
}
