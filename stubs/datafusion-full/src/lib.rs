//! Stand-in for the fork of datafusion that cannot be fetched here: the arrow crates, scalar values, columns,
//! expressions and the tree visitor, written after datafusion 27.
/// The paths of the `arrow` crate over its component crates.
pub mod arrow {
    pub mod array { pub use arrow_array::*; pub use arrow_array::builder::*; pub use arrow_array::cast::*; pub use arrow_array::array::*; pub use arrow_data::ArrayData; pub use arrow_data::ArrayDataBuilder; }
    pub mod buffer { pub use arrow_buffer::buffer::*; }
    pub mod datatypes { pub use arrow_array::types::*; pub use arrow_array::{ArrowNativeTypeOp, ArrowNumericType, ArrowPrimitiveType}; pub use arrow_buffer::{i256, ArrowNativeType, ToByteSlice}; pub use arrow_schema::*; }
    pub mod error { pub type Result<T, E = arrow_schema::ArrowError> = std::result::Result<T, E>; pub use arrow_schema::ArrowError; }
    pub mod record_batch { pub use arrow_array::{RecordBatch, RecordBatchOptions, RecordBatchReader}; }
    #[cfg(feature = "ipc")]
    pub use arrow_ipc as ipc;
    #[cfg(feature = "compute")]
    pub mod compute { pub use arrow_select::*; pub use arrow_ord::sort::*; pub use arrow_cast::cast; pub mod kernels { pub use arrow_ord::{sort, comparison}; pub use arrow_select::{filter, take, concat}; } }
}
pub mod scalar;
pub mod error {
    use std::fmt;
    pub type Result<T> = std::result::Result<T, DataFusionError>;
    pub type GenericError = Box<dyn std::error::Error + Send + Sync>;
    #[derive(Debug)]
    pub enum DataFusionError {
        ArrowError(super::arrow::error::ArrowError),
        NotImplemented(String),
        Internal(String),
        Plan(String),
        Execution(String),
        External(GenericError),
        ResourcesExhausted(String),
    }
    impl fmt::Display for DataFusionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("datafusion error") } }
    impl std::error::Error for DataFusionError {}
    impl From<super::arrow::error::ArrowError> for DataFusionError { fn from(e: super::arrow::error::ArrowError) -> Self { DataFusionError::ArrowError(e) } }
}
pub mod common {
    pub mod cast {
        use arrow_array::{Array, ArrayRef, BooleanArray};
        pub fn as_boolean_array(a: &dyn Array) -> super::Result<&BooleanArray> {
            a.as_any().downcast_ref::<BooleanArray>().ok_or_else(|| super::DataFusionError::Internal(String::new()))
        }
        #[allow(dead_code)] fn _used(_: ArrayRef) {}
    }
    pub use super::error::{DataFusionError, Result};
    use super::arrow::datatypes::{DataType, Field};
    use std::collections::HashMap;
    use std::fmt;
    use std::sync::Arc;
    pub use super::scalar::ScalarValue;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Column { pub relation: Option<String>, pub name: String }
    impl Column {
        pub fn new(relation: Option<String>, name: impl Into<String>) -> Self { Column { relation, name: name.into() } }
        pub fn from_name(name: impl Into<String>) -> Self { Column { relation: None, name: name.into() } }
    }
    impl fmt::Display for Column { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.name) } }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct DFField { pub qualifier: Option<String>, pub field: Arc<Field> }
    impl DFField {
        pub fn from_qualified(q: &str, f: Field) -> Self { DFField { qualifier: Some(q.to_string()), field: Arc::new(f) } }
        pub fn name(&self) -> &String { self.field.name() }
        pub fn data_type(&self) -> &DataType { self.field.data_type() }
        pub fn field(&self) -> &Arc<Field> { &self.field }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct DFSchema { fields: Vec<DFField>, metadata: HashMap<String, String> }
    pub type DFSchemaRef = Arc<DFSchema>;
    impl DFSchema {
        pub fn new_with_metadata(fields: Vec<DFField>, metadata: HashMap<String, String>) -> Result<Self> { Ok(DFSchema { fields, metadata }) }
        pub fn empty() -> Self { DFSchema { fields: vec![], metadata: HashMap::new() } }
        pub fn fields(&self) -> &Vec<DFField> { &self.fields }
        pub fn metadata(&self) -> &HashMap<String, String> { &self.metadata }
    }
    pub mod tree_node {
        use super::Result;
        #[derive(Debug)]
        pub enum VisitRecursion { Continue, Skip, Stop }
        pub trait TreeNodeVisitor: Sized {
            type N;
            fn pre_visit(&mut self, node: &Self::N) -> Result<VisitRecursion>;
            fn post_visit(&mut self, _node: &Self::N) -> Result<VisitRecursion> { Ok(VisitRecursion::Continue) }
        }
        pub trait TreeNodeRewriter: Sized { type N; fn mutate(&mut self, n: Self::N) -> Result<Self::N>; }
        pub trait TreeNode: Sized {
            fn map_children<F: FnMut(Self) -> Result<Self>>(self, _: F) -> Result<Self> { Ok(self) }
            fn rewrite<R: TreeNodeRewriter<N = Self>>(self, r: &mut R) -> Result<Self> { let n = self.map_children(|c| c.rewrite(r))?; r.mutate(n) }
            fn children(&self) -> Vec<&Self>;
            fn visit<V: TreeNodeVisitor<N = Self>>(&self, v: &mut V) -> Result<VisitRecursion> {
                match v.pre_visit(self)? {
                    VisitRecursion::Continue => {}
                    VisitRecursion::Skip => return Ok(VisitRecursion::Continue),
                    VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
                }
                for c in self.children() {
                    match c.visit(v)? {
                        VisitRecursion::Continue => {}
                        VisitRecursion::Skip => break,
                        VisitRecursion::Stop => return Ok(VisitRecursion::Stop),
                    }
                }
                v.post_visit(self)
            }
        }
    }
}
pub mod logical_expr {
    pub struct AggregateUDF;
    pub struct ScalarUDF;
    pub struct WindowUDF;
    // what the repository's own unit tests build their expressions with
    pub use expr_fn::binary_expr;
    pub mod expr_fn {
        use super::*;
        pub trait Lit { fn scalar(self) -> ScalarValue; }
        impl Lit for i32 { fn scalar(self) -> ScalarValue { ScalarValue::Int32(Some(self)) } }
        impl Lit for i64 { fn scalar(self) -> ScalarValue { ScalarValue::Int64(Some(self)) } }
        impl Lit for f64 { fn scalar(self) -> ScalarValue { ScalarValue::Float64(Some(self)) } }
        impl Lit for bool { fn scalar(self) -> ScalarValue { ScalarValue::Boolean(Some(self)) } }
        impl Lit for &str { fn scalar(self) -> ScalarValue { ScalarValue::Utf8(Some(self.to_string())) } }
        pub fn lit(v: impl Lit) -> Expr { Expr::Literal(v.scalar()) }
        pub fn col(n: &str) -> Expr { Expr::Column(Column::from_name(n)) }
        pub fn binary_expr(left: Expr, op: Operator, right: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr { left: Box::new(left), op, right: Box::new(right) }) }
        pub fn and(left: Expr, right: Expr) -> Expr { binary_expr(left, Operator::And, right) }
        pub fn or(left: Expr, right: Expr) -> Expr { binary_expr(left, Operator::Or, right) }
        pub fn in_list(expr: Expr, list: Vec<Expr>, negated: bool) -> Expr { Expr::InList(InList { expr: Box::new(expr), list, negated }) }
        pub fn random() -> Expr { Expr::ScalarFunction(ScalarFunction { name: "random".to_string(), args: vec![] }) }
    }
    impl Like { pub fn new(negated: bool, expr: Box<Expr>, pattern: Box<Expr>, _: Option<char>) -> Self { Like { negated, expr, pattern } } }
    use super::common::tree_node::TreeNode;
    use super::common::Column;
    use super::scalar::ScalarValue;
    use super::arrow::datatypes::DataType;
    use std::fmt;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom, RegexMatch, BitwiseAnd, StringConcat }
    impl fmt::Display for Operator { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    #[derive(Debug, Clone, PartialEq)]
    pub struct BinaryExpr { pub left: Box<Expr>, pub op: Operator, pub right: Box<Expr> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Cast { pub expr: Box<Expr>, pub data_type: DataType }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Like { pub negated: bool, pub expr: Box<Expr>, pub pattern: Box<Expr> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Between { pub expr: Box<Expr>, pub negated: bool, pub low: Box<Expr>, pub high: Box<Expr> }
    #[derive(Debug, Clone, PartialEq)]
    pub struct InList { pub expr: Box<Expr>, pub list: Vec<Expr>, pub negated: bool }
    #[derive(Debug, Clone, PartialEq)]
    pub struct ScalarFunction { pub name: String, pub args: Vec<Expr> }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Expr {
        Column(Column), Literal(ScalarValue), BinaryExpr(BinaryExpr), Cast(Cast), TryCast(Cast), Like(Like), ILike(Like), SimilarTo(Like),
        Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>), IsUnknown(Box<Expr>),
        IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>), Negative(Box<Expr>), Between(Between), InList(InList), ScalarFunction(ScalarFunction),
    }
    impl fmt::Display for Expr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("expr") } }
    impl TreeNode for Expr {
        fn children(&self) -> Vec<&Expr> {
            match self {
                Expr::Column(_) | Expr::Literal(_) => vec![],
                Expr::BinaryExpr(b) => vec![&b.left, &b.right],
                Expr::Cast(c) | Expr::TryCast(c) => vec![&c.expr],
                Expr::Like(l) | Expr::ILike(l) | Expr::SimilarTo(l) => vec![&l.expr, &l.pattern],
                Expr::Not(e) | Expr::IsNotNull(e) | Expr::IsNull(e) | Expr::IsTrue(e) | Expr::IsFalse(e) | Expr::IsUnknown(e)
                | Expr::IsNotTrue(e) | Expr::IsNotFalse(e) | Expr::IsNotUnknown(e) | Expr::Negative(e) => vec![e],
                Expr::Between(b) => vec![&b.expr, &b.low, &b.high],
                Expr::InList(l) => std::iter::once(&*l.expr).chain(l.list.iter()).collect(),
                Expr::ScalarFunction(s) => s.args.iter().collect(),
            }
        }
    }
}
pub mod physical_expr {
    use super::arrow::{array::{ArrayRef, Array}, record_batch::RecordBatch};
    pub enum ColumnarValue { Array(ArrayRef) }
    impl ColumnarValue { pub fn into_array(self, _: usize) -> ArrayRef { let ColumnarValue::Array(a) = self; a } }
    pub trait PhysicalExpr: std::fmt::Debug + std::fmt::Display + Send + Sync {
        fn as_any(&self) -> &dyn std::any::Any;
        fn evaluate(&self, _: &RecordBatch) -> super::common::Result<ColumnarValue> { Err(super::error::DataFusionError::NotImplemented(String::new())) }
    }
    pub mod execution_props { #[derive(Default)] pub struct ExecutionProps; impl ExecutionProps { pub fn new() -> Self { ExecutionProps } } }
    pub fn create_physical_expr(_: &super::logical_expr::Expr, _: &super::common::DFSchema, _: &super::arrow::datatypes::Schema, _: &execution_props::ExecutionProps) -> super::common::Result<std::sync::Arc<dyn PhysicalExpr>> {
        Err(super::error::DataFusionError::NotImplemented(String::new()))
    }
}
pub mod parquet { pub mod data_type {
    pub trait AsBytes { fn as_bytes(&self) -> &[u8]; }
    macro_rules! plain { ($($t:ty),*) => { $(impl AsBytes for $t {
        fn as_bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self as *const $t as *const u8, std::mem::size_of::<$t>()) } }
    })* } }
    plain!(u8, u32, u64, i32, i64, f32, f64);
    impl AsBytes for [u8] { fn as_bytes(&self) -> &[u8] { self } }
    impl AsBytes for str { fn as_bytes(&self) -> &[u8] { (self as &str).as_bytes() } }
} }
pub mod physical_optimizer { pub mod pruning {
    use super::super::{common::{Column, Result}, arrow::{array::{ArrayRef, Int64Array, Array}, datatypes::SchemaRef}, logical_expr::Operator, physical_expr::PhysicalExpr, physical_plan::expressions, scalar::ScalarValue};
    use std::sync::Arc;
    pub trait PruningStatistics {
        fn min_values(&self, c: &Column) -> Option<ArrayRef>;
        fn max_values(&self, c: &Column) -> Option<ArrayRef>;
        fn num_containers(&self) -> usize;
        fn null_counts(&self, c: &Column) -> Option<ArrayRef>;
    }
    /// A comparison of an integer column with a literal prunes by least and greatest value; nothing else does.
    pub struct PruningPredicate(Arc<dyn PhysicalExpr>);
    impl PruningPredicate {
        pub fn try_new(e: Arc<dyn PhysicalExpr>, _: SchemaRef) -> Result<Self> { Ok(PruningPredicate(e)) }
        pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> {
            let all = vec![true; s.num_containers()];
            let Some(b) = self.0.as_any().downcast_ref::<expressions::BinaryExpr>() else { return Ok(all) };
            let (Some(c), Some(l)) = (b.left().as_any().downcast_ref::<expressions::Column>(), b.right().as_any().downcast_ref::<expressions::Literal>()) else { return Ok(all) };
            let ScalarValue::Int64(Some(v)) = l.value() else { return Ok(all) };
            let c = Column::from_name(c.name());
            let (Some(lo), Some(hi)) = (s.min_values(&c), s.max_values(&c)) else { return Ok(all) };
            let (Some(lo), Some(hi)) = (lo.as_any().downcast_ref::<Int64Array>(), hi.as_any().downcast_ref::<Int64Array>()) else { return Ok(all) };
            Ok((0..all.len()).map(|i| {
                if lo.is_null(i) || hi.is_null(i) { return true }
                match b.op() {
                    Operator::Eq => lo.value(i) <= *v && *v <= hi.value(i),
                    Operator::Lt => lo.value(i) < *v,
                    Operator::Gt => hi.value(i) > *v,
                    _ => true,
                }
            }).collect())
        }
    }
} }
pub mod execution {
    pub trait FunctionRegistry {
        fn udfs(&self) -> std::collections::HashSet<String>;
        fn udf(&self, name: &str) -> super::error::Result<std::sync::Arc<super::logical_expr::ScalarUDF>>;
        fn udaf(&self, name: &str) -> super::error::Result<std::sync::Arc<super::logical_expr::AggregateUDF>>;
        fn udwf(&self, name: &str) -> super::error::Result<std::sync::Arc<super::logical_expr::WindowUDF>>;
    }
pub mod memory_pool {
    pub use super::super::common::Result;
    pub trait MemoryPool: Send + Sync + std::fmt::Debug {
        fn register(&self, _: &MemoryConsumer) {}
        fn unregister(&self, _: &MemoryConsumer) {}
        fn grow(&self, r: &MemoryReservation, n: usize);
        fn shrink(&self, r: &MemoryReservation, n: usize);
        fn try_grow(&self, r: &MemoryReservation, n: usize) -> Result<()>;
        fn reserved(&self) -> usize;
    }
    #[derive(Debug)]
    pub struct MemoryConsumer { name: String, can_spill: bool }
    impl MemoryConsumer {
        pub fn new(name: impl Into<String>) -> Self { MemoryConsumer { name: name.into(), can_spill: false } }
        pub fn name(&self) -> &str { &self.name }
        pub fn can_spill(&self) -> bool { self.can_spill }
        pub fn register(self, pool: &std::sync::Arc<dyn MemoryPool>) -> MemoryReservation { pool.register(&self); MemoryReservation { consumer: self, size: 0, pool: pool.clone() } }
    }
    #[derive(Debug)]
    pub struct MemoryReservation { consumer: MemoryConsumer, size: usize, pool: std::sync::Arc<dyn MemoryPool> }
    impl MemoryReservation {
        pub fn consumer(&self) -> &MemoryConsumer { &self.consumer }
        pub fn size(&self) -> usize { self.size }
        pub fn grow(&mut self, n: usize) { self.pool.grow(self, n); self.size += n }
        pub fn try_grow(&mut self, n: usize) -> Result<()> { self.pool.try_grow(self, n)?; self.size += n; Ok(()) }
        pub fn shrink(&mut self, n: usize) { let s = self.size.checked_sub(n).unwrap(); self.pool.shrink(self, n); self.size = s }
        pub fn free(&mut self) -> usize { let n = self.size; if n > 0 { self.shrink(n) } n }
    }
    impl Drop for MemoryReservation { fn drop(&mut self) { self.free(); self.pool.unregister(&self.consumer) } }
} }
pub mod physical_plan {
    pub use super::physical_expr::PhysicalExpr;
    /// Columns, literals and the operators =, <, >, AND, OR over integers and truth values.
    pub mod expressions {
        use super::super::{arrow::{array::{Array, ArrayRef, BooleanArray, Int64Array, TimestampNanosecondArray}, record_batch::RecordBatch}, common::Result, error::DataFusionError, logical_expr::Operator, physical_expr::{ColumnarValue, PhysicalExpr}, scalar::ScalarValue};
        use std::{fmt, sync::Arc};
        #[derive(Debug)] pub struct Column { name: String, index: usize }
        impl Column { pub fn new(n: &str, index: usize) -> Self { Column { name: n.to_string(), index } } pub fn name(&self) -> &str { &self.name } pub fn index(&self) -> usize { self.index } }
        #[derive(Debug)] pub struct Literal { value: ScalarValue }
        impl Literal { pub fn new(value: ScalarValue) -> Self { Literal { value } } pub fn value(&self) -> &ScalarValue { &self.value } }
        #[derive(Debug)] pub struct BinaryExpr { left: Arc<dyn PhysicalExpr>, op: Operator, right: Arc<dyn PhysicalExpr> }
        impl BinaryExpr {
            pub fn new(left: Arc<dyn PhysicalExpr>, op: Operator, right: Arc<dyn PhysicalExpr>) -> Self { BinaryExpr { left, op, right } }
            pub fn left(&self) -> &Arc<dyn PhysicalExpr> { &self.left } pub fn right(&self) -> &Arc<dyn PhysicalExpr> { &self.right } pub fn op(&self) -> &Operator { &self.op }
        }
        impl fmt::Display for Column { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.name) } }
        impl fmt::Display for Literal { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("literal") } }
        impl fmt::Display for BinaryExpr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("expr") } }
        impl PhysicalExpr for Column {
            fn as_any(&self) -> &dyn std::any::Any { self }
            fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
                if self.index >= b.num_columns() { return Err(DataFusionError::Internal(String::new())) }
                Ok(ColumnarValue::Array(b.column(self.index).clone()))
            }
        }
        impl PhysicalExpr for Literal {
            fn as_any(&self) -> &dyn std::any::Any { self }
            fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
                let n = b.num_rows();
                Ok(ColumnarValue::Array(match &self.value {
                    ScalarValue::Int64(v) => Arc::new(Int64Array::from(vec![*v; n])),
                    ScalarValue::Boolean(v) => Arc::new(BooleanArray::from(vec![*v; n])),
                    _ => return Err(DataFusionError::NotImplemented(String::new())),
                }))
            }
        }
        fn ints(a: &ArrayRef) -> Option<Vec<Option<i64>>> {
            if let Some(a) = a.as_any().downcast_ref::<Int64Array>() { return Some((0..a.len()).map(|i| a.is_valid(i).then(|| a.value(i))).collect()) }
            a.as_any().downcast_ref::<TimestampNanosecondArray>().map(|a| (0..a.len()).map(|i| a.is_valid(i).then(|| a.value(i))).collect())
        }
        fn bools(a: &ArrayRef) -> Option<Vec<Option<bool>>> { a.as_any().downcast_ref::<BooleanArray>().map(|a| (0..a.len()).map(|i| a.is_valid(i).then(|| a.value(i))).collect()) }
        impl PhysicalExpr for BinaryExpr {
            fn as_any(&self) -> &dyn std::any::Any { self }
            fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
                let (l, r) = (self.left.evaluate(b)?.into_array(b.num_rows()), self.right.evaluate(b)?.into_array(b.num_rows()));
                let no = || DataFusionError::NotImplemented(String::new());
                let v: Vec<Option<bool>> = match self.op {
                    Operator::And | Operator::Or => {
                        let decisive = self.op == Operator::Or;
                        bools(&l).ok_or_else(no)?.into_iter().zip(bools(&r).ok_or_else(no)?).map(|(x, y)| {
                            if x == Some(decisive) || y == Some(decisive) { Some(decisive) } else if x.is_none() || y.is_none() { None } else { Some(!decisive) }
                        }).collect()
                    }
                    Operator::Eq | Operator::Lt | Operator::Gt => {
                        ints(&l).ok_or_else(no)?.into_iter().zip(ints(&r).ok_or_else(no)?).map(|(x, y)| match (x, y) {
                            (Some(x), Some(y)) => Some(match self.op { Operator::Eq => x == y, Operator::Lt => x < y, _ => x > y }),
                            _ => None,
                        }).collect()
                    }
                    _ => return Err(no()),
                };
                Ok(ColumnarValue::Array(Arc::new(BooleanArray::from(v))))
            }
        }
        impl super::super::common::tree_node::TreeNode for Arc<dyn PhysicalExpr> {
            fn children(&self) -> Vec<&Self> { match self.as_any().downcast_ref::<BinaryExpr>() { Some(b) => vec![&b.left, &b.right], None => vec![] } }
            fn map_children<F: FnMut(Self) -> Result<Self>>(self, mut f: F) -> Result<Self> {
                match self.as_any().downcast_ref::<BinaryExpr>() {
                    Some(b) => Ok(Arc::new(BinaryExpr::new(f(b.left.clone())?, b.op, f(b.right.clone())?))),
                    None => Ok(self),
                }
            }
        }
    }
    pub mod metrics {
        #[derive(Debug, Clone, Default)] pub struct ExecutionPlanMetricsSet;
        impl ExecutionPlanMetricsSet { pub fn new() -> Self { ExecutionPlanMetricsSet } pub fn clone_inner(&self) -> MetricsSet { MetricsSet } }
        #[derive(Debug, Clone, Default)] pub struct MetricsSet;
        impl MetricsSet {
            pub fn iter(&self) -> std::slice::Iter<'_, Metric> { [].iter() }
            pub fn aggregate_by_name(&self) -> Self { MetricsSet } pub fn sorted_for_display(self) -> Self { self } pub fn timestamps_removed(self) -> Self { self }
        }
        pub struct Metric(MetricValue);
        impl Metric { pub fn value(&self) -> &MetricValue { &self.0 } }
        pub struct Stamp;
        impl Stamp { pub fn value(&self) -> Option<Moment> { None } }
        #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Debug, Default)] pub struct Moment;
        impl std::fmt::Display for Moment { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        impl std::fmt::Display for MetricsSet { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        pub enum MetricValue { StartTimestamp(Stamp), EndTimestamp(Stamp), Other }
        impl MetricValue { pub fn name(&self) -> &str { "" } }
        impl std::fmt::Display for MetricValue { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        #[derive(Debug, Clone, Default)] pub struct Gauge;
        impl Gauge { pub fn set(&self, _: usize) {} pub fn add(&self, _: usize) {} pub fn value(&self) -> usize { 0 } }
        #[derive(Debug, Clone, Default)] pub struct Time;
        pub struct ScopedTimerGuard;
        impl ScopedTimerGuard { pub fn done(self) {} pub fn stop(&mut self) {} pub fn restart(&mut self) {} }
        impl Time { pub fn new() -> Self { Time } pub fn timer(&self) -> ScopedTimerGuard { ScopedTimerGuard } pub fn value(&self) -> usize { 0 } pub fn done(&self) {} }
        #[derive(Debug, Clone, Default)] pub struct Count;
        impl Count { pub fn new() -> Self { Count } pub fn add(&self, _: usize) {} pub fn value(&self) -> usize { 0 } }
        pub struct MetricBuilder;
        impl MetricBuilder {
            pub fn new(_: &ExecutionPlanMetricsSet) -> Self { MetricBuilder }
            pub fn subset_time(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Time { Time }
            pub fn gauge(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Gauge { Gauge }
            pub fn counter(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Count { Count }
        }
        #[derive(Debug, Clone, Default)] pub struct BaselineMetrics(Time, Count);
        impl BaselineMetrics {
            pub fn new(_: &ExecutionPlanMetricsSet, _: usize) -> Self { Self::default() }
            pub fn elapsed_compute(&self) -> &Time { &self.0 }
            pub fn output_rows(&self) -> &Count { &self.1 }
            pub fn done(&self) {}
            pub fn record_output(&self, _: usize) {}
        }
        pub trait RecordOutput { fn record_output(self, m: &BaselineMetrics) -> Self; }
        impl RecordOutput for &super::super::arrow::record_batch::RecordBatch { fn record_output(self, _: &BaselineMetrics) -> Self { self } }
    }
    pub mod sorts { pub mod cursor {
        use arrow_array::{types::ArrowPrimitiveType, ArrowNativeTypeOp, PrimitiveArray};
        use arrow_buffer::ScalarBuffer;
        use std::cmp::Ordering;
        pub trait Cursor: Ord { fn is_finished(&self) -> bool; fn advance(&mut self) -> usize; }
        pub trait FieldValues {
            type Value: ?Sized;
            fn len(&self) -> usize;
            fn compare(a: &Self::Value, b: &Self::Value) -> Ordering;
            fn value(&self, i: usize) -> &Self::Value;
        }
        pub trait FieldArray: arrow_array::Array + 'static { type Values: FieldValues; fn values(&self) -> Self::Values; }
        #[derive(Debug)] pub struct PrimitiveValues<T: ArrowNativeTypeOp>(ScalarBuffer<T>);
        impl<T: ArrowNativeTypeOp> FieldValues for PrimitiveValues<T> {
            type Value = T;
            fn len(&self) -> usize { self.0.len() }
            fn compare(a: &T, b: &T) -> Ordering { T::compare(*a, *b) }
            fn value(&self, i: usize) -> &T { &self.0[i] }
        }
        impl<T: ArrowPrimitiveType> FieldArray for PrimitiveArray<T> {
            type Values = PrimitiveValues<T::Native>;
            fn values(&self) -> Self::Values { PrimitiveValues(self.values().clone()) }
        }
    } }
}
pub mod prelude { pub use super::common::Column; pub use super::logical_expr::Expr; pub use super::logical_expr::expr_fn::*; }
pub mod sql {
    use std::borrow::Cow;
    use std::fmt;
    pub enum TableReference<'a> { Bare { table: Cow<'a, str> }, Partial { schema: Cow<'a, str>, table: Cow<'a, str> }, Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> } }
    impl<'a> fmt::Display for TableReference<'a> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Self::Bare { table } => write!(f, "{table}"),
                Self::Partial { schema, table } => write!(f, "{schema}.{table}"),
                Self::Full { catalog, schema, table } => write!(f, "{catalog}.{schema}.{table}"),
            }
        }
    }
}
