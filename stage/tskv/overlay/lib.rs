//! Staged from /repo/tskv: everything but the query side and the raft log.
#![recursion_limit = "256"]
#![allow(warnings)]
use std::sync::Arc;
use memory_pool::MemoryPool;
use meta::model::MetaRef;
use metrics::metric_register::MetricsRegister;
use models::meta_data::{NodeId, VnodeId};
use serde::{Deserialize, Serialize};
use tokio::runtime::Runtime;
use tokio::sync::mpsc::Sender;
use tsfamily::version::{Version, VersionEdit};
pub use crate::error::{TskvError, TskvResult};
pub use crate::kv_option::Options;
use crate::compaction::CompactTask;
pub mod byte_utils;
pub mod compaction;
pub mod database;
pub mod error;
pub mod file_system;
pub mod file_utils;
pub mod index;
pub mod kv_option;
pub mod mem_cache;
pub mod reader;
pub mod record_file;
pub mod schema;
pub mod tsfamily;
pub mod tsm;
pub mod version_set;
pub mod vnode_store;
pub type ColumnFileId = u64;
pub type LevelId = u32;
#[derive(PartialEq, Eq, Hash)]
pub struct UpdateSetValue<K, V> {
    pub key: K,
    pub value: Option<V>,
}
#[derive(Clone)]
pub struct TsKvContext {
    pub meta: MetaRef,
    pub runtime: Arc<Runtime>,
    pub options: Arc<Options>,
    pub metrics: Arc<MetricsRegister>,
    pub memory_pool: Arc<dyn MemoryPool>,
    pub compact_task_sender: Sender<CompactTask>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct VnodeSnapshot {
    pub node_id: NodeId,
    pub vnode_id: VnodeId,
    pub last_seq_no: u64,
    pub create_time: String,
    pub version_edit: VersionEdit,
    #[serde(skip_serializing, skip_deserializing)]
    pub version: Option<Arc<Version>>,
    #[serde(skip_serializing, skip_deserializing)]
    pub active_time: i64,
}
/// What a reader asks of the engine.
#[async_trait::async_trait]
pub trait Engine: Send + Sync {
    async fn get_series_key(&self, tenant: &str, database: &str, table: &str, vnode_id: VnodeId, series_id: &[models::SeriesId]) -> TskvResult<Vec<models::SeriesKey>>;
    async fn get_db_version(&self, tenant: &str, db: &str, vnode_id: VnodeId) -> TskvResult<Option<Arc<tsfamily::super_version::SuperVersion>>>;
    async fn get_series_id_by_filter(&self, tenant: &str, database: &str, table: &str, vnode_id: VnodeId, filter: &models::predicate::domain::ColumnDomains<String>) -> TskvResult<Vec<models::SeriesId>>;
}
pub type EngineRef = Arc<dyn Engine>;
