//! Stand-in for the fork's protobuf crate: scalar values and a physical expression without content.
pub mod protobuf {
    use datafusion::error::DataFusionError;
    use datafusion::physical_expr::PhysicalExpr;
    use datafusion::scalar::ScalarValue as S;
    use std::sync::Arc;
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct ScalarValue {
        #[prost(uint32, tag = "1")] pub kind: u32,
        #[prost(int64, optional, tag = "2")] pub int: Option<i64>,
        #[prost(string, optional, tag = "3")] pub text: Option<String>,
    }
    impl TryFrom<&S> for ScalarValue {
        type Error = DataFusionError;
        fn try_from(v: &S) -> Result<Self, DataFusionError> {
            Ok(match v {
                S::Boolean(v) => ScalarValue { kind: 1, int: v.map(|v| v as i64), text: None },
                S::Int64(v) => ScalarValue { kind: 2, int: *v, text: None },
                S::UInt64(v) => ScalarValue { kind: 3, int: v.map(|v| v as i64), text: None },
                S::Float64(v) => ScalarValue { kind: 4, int: v.map(|v| v.to_bits() as i64), text: None },
                S::Utf8(v) => ScalarValue { kind: 5, int: None, text: v.clone() },
                S::TimestampNanosecond(v, tz) => ScalarValue { kind: 6, int: *v, text: tz.as_ref().map(|t| t.to_string()) },
                _ => return Err(DataFusionError::NotImplemented(String::new())),
            })
        }
    }
    impl TryFrom<&ScalarValue> for S {
        type Error = DataFusionError;
        fn try_from(v: &ScalarValue) -> Result<Self, DataFusionError> {
            Ok(match v.kind {
                1 => S::Boolean(v.int.map(|v| v != 0)),
                2 => S::Int64(v.int),
                3 => S::UInt64(v.int.map(|v| v as u64)),
                4 => S::Float64(v.int.map(|v| f64::from_bits(v as u64))),
                5 => S::Utf8(v.text.clone()),
                6 => S::TimestampNanosecond(v.int, v.text.as_ref().map(|t| t.as_str().into())),
                _ => return Err(DataFusionError::NotImplemented(String::new())),
            })
        }
    }
    pub mod physical_expr_node {
        #[derive(Clone, PartialEq, prost::Oneof)]
        pub enum ExprType { #[prost(uint32, tag = "1")] Opaque(u32) }
    }
    #[derive(Clone, PartialEq, prost::Message)]
    pub struct PhysicalExprNode { #[prost(oneof = "physical_expr_node::ExprType", tags = "1")] pub expr_type: Option<physical_expr_node::ExprType> }
    impl TryFrom<Arc<dyn PhysicalExpr>> for PhysicalExprNode {
        type Error = DataFusionError;
        fn try_from(_: Arc<dyn PhysicalExpr>) -> Result<Self, DataFusionError> { Err(DataFusionError::NotImplemented(String::new())) }
    }
}
pub mod physical_plan { pub mod from_proto {
    use std::sync::Arc;
    pub fn parse_physical_expr(_: &crate::protobuf::PhysicalExprNode, _: &dyn datafusion::execution::FunctionRegistry, _: &datafusion::arrow::datatypes::Schema) -> Result<Arc<dyn datafusion::physical_expr::PhysicalExpr>, datafusion::error::DataFusionError> {
        Err(datafusion::error::DataFusionError::NotImplemented(String::new()))
    }
} }
