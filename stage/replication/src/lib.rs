//! The counters the storage engine reports to the raft layer; nothing else of it is staged.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize, Default)]
pub struct EngineMetrics {
    pub last_applied_id: u64,
    pub flushed_apply_id: u64,
    pub snapshot_apply_id: u64,
    pub write_apply_duration: u64,
    pub write_build_group_duration: u64,
    pub write_put_points_duration: u64,
}
pub const APPLY_TYPE_WAL: u32 = 1;
pub const APPLY_TYPE_WRITE: u32 = 2;
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize, PartialEq, Eq, Default)]
pub struct ApplyContext {
    pub index: u64,
    pub apply_type: u32,
    pub raft_id: u64,
}
