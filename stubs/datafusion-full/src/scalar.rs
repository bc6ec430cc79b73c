//! Scalar values, after datafusion 27: equality and hash by value (floats by bits), order only within a variant.
use super::error::DataFusionError;
use crate::arrow::datatypes::{DataType, Field, IntervalUnit, TimeUnit};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
#[derive(Clone, Debug)]
pub enum ScalarValue {
    Null,
    Boolean(Option<bool>),
    Float32(Option<f32>), Float64(Option<f64>),
    Decimal128(Option<i128>, u8, i8),
    Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>),
    UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>),
    Utf8(Option<String>), LargeUtf8(Option<String>),
    Binary(Option<Vec<u8>>), FixedSizeBinary(i32, Option<Vec<u8>>), LargeBinary(Option<Vec<u8>>),
    List(Option<Vec<ScalarValue>>, Arc<Field>),
    Date32(Option<i32>), Date64(Option<i64>),
    Time32Second(Option<i32>), Time32Millisecond(Option<i32>), Time64Microsecond(Option<i64>), Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Option<Arc<str>>), TimestampMillisecond(Option<i64>, Option<Arc<str>>),
    TimestampMicrosecond(Option<i64>, Option<Arc<str>>), TimestampNanosecond(Option<i64>, Option<Arc<str>>),
    IntervalYearMonth(Option<i32>), IntervalDayTime(Option<i64>), IntervalMonthDayNano(Option<i128>),
    Struct(Option<Vec<ScalarValue>>, crate::arrow::datatypes::Fields),
    Dictionary(Box<DataType>, Box<ScalarValue>),
}
use ScalarValue::*;
impl PartialEq for ScalarValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (Boolean(a), Boolean(b)) => a == b,
            (Float32(a), Float32(b)) => a.map(f32::to_bits) == b.map(f32::to_bits),
            (Float64(a), Float64(b)) => a.map(f64::to_bits) == b.map(f64::to_bits),
            (Int8(a), Int8(b)) => a == b,
            (Int16(a), Int16(b)) => a == b,
            (Int32(a), Int32(b)) | (Date32(a), Date32(b)) => a == b,
            (Int64(a), Int64(b)) | (Date64(a), Date64(b)) => a == b,
            (UInt8(a), UInt8(b)) => a == b,
            (UInt16(a), UInt16(b)) => a == b,
            (UInt32(a), UInt32(b)) => a == b,
            (UInt64(a), UInt64(b)) => a == b,
            (Utf8(a), Utf8(b)) | (LargeUtf8(a), LargeUtf8(b)) => a == b,
            (Binary(a), Binary(b)) | (LargeBinary(a), LargeBinary(b)) => a == b,
            (TimestampSecond(a, _), TimestampSecond(b, _)) | (TimestampMillisecond(a, _), TimestampMillisecond(b, _))
            | (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _)) | (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a == b,
            _ => false,
        }
    }
}
impl Eq for ScalarValue {}
impl PartialOrd for ScalarValue {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self, o) {
            (Null, Null) => Some(Ordering::Equal),
            (Boolean(a), Boolean(b)) => a.partial_cmp(b),
            (Float32(a), Float32(b)) => match (a, b) { (Some(a), Some(b)) => Some(a.total_cmp(b)), _ => a.partial_cmp(b) },
            (Float64(a), Float64(b)) => match (a, b) { (Some(a), Some(b)) => Some(a.total_cmp(b)), _ => a.partial_cmp(b) },
            (Int8(a), Int8(b)) => a.partial_cmp(b),
            (Int16(a), Int16(b)) => a.partial_cmp(b),
            (Int32(a), Int32(b)) | (Date32(a), Date32(b)) => a.partial_cmp(b),
            (Int64(a), Int64(b)) | (Date64(a), Date64(b)) => a.partial_cmp(b),
            (UInt8(a), UInt8(b)) => a.partial_cmp(b),
            (UInt16(a), UInt16(b)) => a.partial_cmp(b),
            (UInt32(a), UInt32(b)) => a.partial_cmp(b),
            (UInt64(a), UInt64(b)) => a.partial_cmp(b),
            (Utf8(a), Utf8(b)) | (LargeUtf8(a), LargeUtf8(b)) => a.partial_cmp(b),
            (Binary(a), Binary(b)) | (LargeBinary(a), LargeBinary(b)) => a.partial_cmp(b),
            (TimestampSecond(a, _), TimestampSecond(b, _)) | (TimestampMillisecond(a, _), TimestampMillisecond(b, _))
            | (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _)) | (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a.partial_cmp(b),
            _ => None,
        }
    }
}
impl Hash for ScalarValue {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Boolean(v) => v.hash(h),
            Float32(v) => v.map(f32::to_bits).hash(h),
            Float64(v) => v.map(f64::to_bits).hash(h),
            Int8(v) => v.hash(h),
            Int16(v) => v.hash(h),
            Int32(v) | Date32(v) => v.hash(h),
            Int64(v) | Date64(v) => v.hash(h),
            UInt8(v) => v.hash(h),
            UInt16(v) => v.hash(h),
            UInt32(v) => v.hash(h),
            UInt64(v) => v.hash(h),
            Utf8(v) | LargeUtf8(v) => v.hash(h),
            Binary(v) | LargeBinary(v) => v.hash(h),
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => v.hash(h),
            _ => 0.hash(h),
        }
    }
}
impl fmt::Display for ScalarValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("scalar") } }
impl ScalarValue {
    pub fn get_datatype(&self) -> DataType {
        match self {
            Null => DataType::Null,
            Boolean(_) => DataType::Boolean,
            Float32(_) => DataType::Float32, Float64(_) => DataType::Float64,
            Decimal128(_, p, s) => DataType::Decimal128(*p, *s),
            Int8(_) => DataType::Int8, Int16(_) => DataType::Int16, Int32(_) => DataType::Int32, Int64(_) => DataType::Int64,
            UInt8(_) => DataType::UInt8, UInt16(_) => DataType::UInt16, UInt32(_) => DataType::UInt32, UInt64(_) => DataType::UInt64,
            Utf8(_) => DataType::Utf8, LargeUtf8(_) => DataType::LargeUtf8,
            Binary(_) => DataType::Binary, FixedSizeBinary(n, _) => DataType::FixedSizeBinary(*n), LargeBinary(_) => DataType::LargeBinary,
            List(_, f) => DataType::List(f.clone()),
            Date32(_) => DataType::Date32, Date64(_) => DataType::Date64,
            Time32Second(_) => DataType::Time32(TimeUnit::Second), Time32Millisecond(_) => DataType::Time32(TimeUnit::Millisecond),
            Time64Microsecond(_) => DataType::Time64(TimeUnit::Microsecond), Time64Nanosecond(_) => DataType::Time64(TimeUnit::Nanosecond),
            TimestampSecond(_, t) => DataType::Timestamp(TimeUnit::Second, t.clone()),
            TimestampMillisecond(_, t) => DataType::Timestamp(TimeUnit::Millisecond, t.clone()),
            TimestampMicrosecond(_, t) => DataType::Timestamp(TimeUnit::Microsecond, t.clone()),
            TimestampNanosecond(_, t) => DataType::Timestamp(TimeUnit::Nanosecond, t.clone()),
            IntervalYearMonth(_) => DataType::Interval(IntervalUnit::YearMonth),
            IntervalDayTime(_) => DataType::Interval(IntervalUnit::DayTime),
            IntervalMonthDayNano(_) => DataType::Interval(IntervalUnit::MonthDayNano),
            Struct(_, f) => DataType::Struct(f.clone()),
            Dictionary(k, v) => DataType::Dictionary(k.clone(), Box::new(v.get_datatype())),
        }
    }
    pub fn is_null(&self) -> bool {
        match self {
            Null => true,
            Boolean(v) => v.is_none(),
            Float32(v) => v.is_none(), Float64(v) => v.is_none(),
            Decimal128(v, _, _) => v.is_none(),
            Int8(v) => v.is_none(), Int16(v) => v.is_none(),
            Int32(v) | Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.is_none(),
            Int64(v) | Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | TimestampSecond(v, _) | TimestampMillisecond(v, _)
            | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) | IntervalDayTime(v) => v.is_none(),
            UInt8(v) => v.is_none(), UInt16(v) => v.is_none(), UInt32(v) => v.is_none(), UInt64(v) => v.is_none(),
            Utf8(v) | LargeUtf8(v) => v.is_none(),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.is_none(),
            List(v, _) => v.is_none(),
            IntervalMonthDayNano(v) => v.is_none(),
            Struct(v, _) => v.is_none(),
            Dictionary(_, v) => v.is_null(),
        }
    }
}
impl TryFrom<ScalarValue> for i64 {
    type Error = DataFusionError;
    fn try_from(v: ScalarValue) -> Result<i64, DataFusionError> {
        match v {
            Int64(Some(v)) | Date64(Some(v)) | Time64Microsecond(Some(v)) | Time64Nanosecond(Some(v)) | TimestampSecond(Some(v), _)
            | TimestampMillisecond(Some(v), _) | TimestampMicrosecond(Some(v), _) | TimestampNanosecond(Some(v), _) | IntervalDayTime(Some(v)) => Ok(v),
            _ => Err(DataFusionError::Internal("cannot convert to i64".to_string())),
        }
    }
}

impl From<Option<bool>> for ScalarValue { fn from(v: Option<bool>) -> Self { ScalarValue::Boolean(v) } }
impl From<Option<f64>> for ScalarValue { fn from(v: Option<f64>) -> Self { ScalarValue::Float64(v) } }
impl From<Option<i64>> for ScalarValue { fn from(v: Option<i64>) -> Self { ScalarValue::Int64(v) } }
impl From<Option<u64>> for ScalarValue { fn from(v: Option<u64>) -> Self { ScalarValue::UInt64(v) } }
impl From<Option<&str>> for ScalarValue { fn from(v: Option<&str>) -> Self { ScalarValue::Utf8(v.map(|v| v.to_string())) } }
impl TryFrom<DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: DataType) -> Result<Self, DataFusionError> {
        Ok(match t {
            DataType::Boolean => ScalarValue::Boolean(None),
            DataType::Float64 => ScalarValue::Float64(None),
            DataType::Int64 => ScalarValue::Int64(None),
            DataType::UInt64 => ScalarValue::UInt64(None),
            DataType::Utf8 => ScalarValue::Utf8(None),
            DataType::Timestamp(_, tz) => ScalarValue::TimestampNanosecond(None, tz),
            _ => return Err(DataFusionError::NotImplemented(String::new())),
        })
    }
}
impl ScalarValue {
    /// Of integers only.
    pub fn iter_to_array(v: impl IntoIterator<Item = ScalarValue>) -> Result<arrow_array::ArrayRef, DataFusionError> {
        let v: Option<Vec<Option<i64>>> = v.into_iter().map(|v| match v { ScalarValue::Int64(v) => Some(v), _ => None }).collect();
        match v { Some(v) => Ok(std::sync::Arc::new(arrow_array::Int64Array::from(v))), None => Err(DataFusionError::NotImplemented(String::new())) }
    }
}
