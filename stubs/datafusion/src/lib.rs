//! Stand-in for the fork of datafusion that cannot be fetched here: only the arrow schema types.
pub mod arrow {
    pub mod datatypes {
        pub use arrow_schema::*;
    }
}
