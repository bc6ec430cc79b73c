//! Staged from /repo/common/models: every module that does not need the query engine itself.
#![allow(warnings)]
use std::sync::Arc;
pub use errors::{ModelError, ModelResult};
use parking_lot::RwLock;
pub use series_info::SeriesKey;
pub use tag::Tag;
pub use value_type::{PhysicalDType, ValueType};
#[path = "/repo/common/models/src/arrow_array.rs"] pub mod arrow_array;
/// Streams put together: here one after the other.
pub mod arrow { pub mod stream {
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use arrow_array::RecordBatch;
    use futures::{Stream, StreamExt};
    pub type BoxStream<T> = Pin<Box<dyn Stream<Item = T> + Send>>;
    pub struct ParallelMergeStream<E>(std::collections::VecDeque<BoxStream<Result<RecordBatch, E>>>);
    impl<E> ParallelMergeStream<E> {
        pub fn new(_: Option<std::sync::Arc<tokio::runtime::Runtime>>, streams: Vec<BoxStream<Result<RecordBatch, E>>>) -> Self { ParallelMergeStream(streams.into()) }
    }
    impl<E> Stream for ParallelMergeStream<E> {
        type Item = Result<RecordBatch, E>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            while let Some(s) = self.0.front_mut() {
                match s.poll_next_unpin(cx) { Poll::Ready(None) => { self.0.pop_front(); } r => return r }
            }
            Poll::Ready(None)
        }
    }
} }
pub mod datafusion { #[path = "/repo/common/models/src/datafusion/limit_record_batch.rs"] pub mod limit_record_batch; }
#[path = "/repo/common/models/src/auth/mod.rs"] pub mod auth;
#[path = "/repo/common/models/src/codec.rs"] pub mod codec;
#[path = "/repo/common/models/src/column_data.rs"] pub mod column_data;
#[path = "/repo/common/models/src/column_data_ref.rs"] pub mod column_data_ref;
#[path = "/repo/common/models/src/duration.rs"] pub mod duration;
#[path = "/repo/common/models/src/errors.rs"] pub mod errors;
#[path = "/repo/common/models/src/field_value.rs"] pub mod field_value;
#[path = "/repo/common/models/src/gis/mod.rs"] pub mod gis;
#[path = "/repo/common/models/src/meta_data.rs"] pub mod meta_data;
#[path = "/repo/common/models/src/mutable_batch.rs"] pub mod mutable_batch;
#[path = "/repo/common/models/src/node_info.rs"] pub mod node_info;
#[path = "/repo/common/models/src/object_reference.rs"] pub mod object_reference;
#[path = "/repo/common/models/src/oid.rs"] pub mod oid;
#[path = "/repo/common/models/src/predicate/mod.rs"] pub mod predicate;
#[cfg(feature = "ipc")] #[path = "/repo/common/models/src/record_batch.rs"] pub mod record_batch;
#[path = "/repo/common/models/src/series_info.rs"] mod series_info;
#[path = "/repo/common/models/src/snappy.rs"] pub mod snappy;
#[path = "/repo/common/models/src/tag.rs"] pub mod tag;
#[path = "/repo/common/models/src/utils.rs"] pub mod utils;
#[path = "/repo/common/models/src/value_type.rs"] mod value_type;
pub mod schema {
    #[path = "/repo/common/models/src/schema/database_schema.rs"] pub mod database_schema;
    #[path = "/repo/common/models/src/schema/query_info.rs"] pub mod query_info;
    #[path = "/repo/common/models/src/schema/resource_info.rs"] pub mod resource_info;
    #[path = "/repo/common/models/src/schema/stream_table_schema.rs"] pub mod stream_table_schema;
    #[path = "/repo/common/models/src/schema/table_schema.rs"] pub mod table_schema;
    #[path = "/repo/common/models/src/schema/tenant.rs"] pub mod tenant;
    #[path = "/repo/common/models/src/schema/tskv_table_schema.rs"] pub mod tskv_table_schema;
    pub mod external_table_schema {
        use serde::{Deserialize, Serialize};
        #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
        pub struct ExternalTableSchema {
            pub tenant: String, pub db: String, pub name: String, pub file_compression_type: String, pub file_type: String, pub location: String,
            pub target_partitions: usize, pub table_partition_cols: Vec<(String, arrow_schema::DataType)>, pub has_header: bool, pub delimiter: u8,
            pub schema: arrow_schema::Schema,
        }
    }
    include!(concat!(env!("OUT_DIR"), "/schema_consts.rs"));
}
pub type ShardId = u64;
pub type CatalogId = u64;
pub type SchemaVersion = u64;
pub type SeriesId = u32;
pub type TableId = u64;
pub type ColumnId = u32;
pub type TagKey = Vec<u8>;
pub type TagValue = Vec<u8>;
pub type FieldId = u64;
pub type FieldName = Vec<u8>;
pub type Timestamp = i64;
pub type RwLockRef<T> = Arc<RwLock<T>>;
