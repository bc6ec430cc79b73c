//! Staged from /repo/common/protos: the flatbuffers tables and the code on them; the gRPC parts are left out.
#![allow(warnings)]
#[path = "/repo/common/protos/src/generated/flatbuffers_generated/models.rs"]
mod models_gen;
pub use models_gen::models;
pub mod kv_service { include!(concat!(env!("OUT_DIR"), "/kv_items.rs")); }
pub mod models_helper { include!(concat!(env!("OUT_DIR"), "/helper_items.rs")); }
include!(concat!(env!("OUT_DIR"), "/lib_items.rs"));
