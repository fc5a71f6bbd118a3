use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use arrow::array::*;
use arrow::datatypes::*;

use crate::error::{DataFusionError, Result};

#[derive(Clone)]
pub enum ScalarValue {
    Null,
    Boolean(Option<bool>),
    Float32(Option<f32>),
    Float64(Option<f64>),
    Decimal128(Option<i128>, u8, i8),
    Int8(Option<i8>),
    Int16(Option<i16>),
    Int32(Option<i32>),
    Int64(Option<i64>),
    UInt8(Option<u8>),
    UInt16(Option<u16>),
    UInt32(Option<u32>),
    UInt64(Option<u64>),
    Utf8(Option<String>),
    LargeUtf8(Option<String>),
    Binary(Option<Vec<u8>>),
    FixedSizeBinary(i32, Option<Vec<u8>>),
    LargeBinary(Option<Vec<u8>>),
    List(Option<Vec<ScalarValue>>, FieldRef),
    Date32(Option<i32>),
    Date64(Option<i64>),
    Time32Second(Option<i32>),
    Time32Millisecond(Option<i32>),
    Time64Microsecond(Option<i64>),
    Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Option<Arc<str>>),
    TimestampMillisecond(Option<i64>, Option<Arc<str>>),
    TimestampMicrosecond(Option<i64>, Option<Arc<str>>),
    TimestampNanosecond(Option<i64>, Option<Arc<str>>),
    IntervalYearMonth(Option<i32>),
    IntervalDayTime(Option<i64>),
    IntervalMonthDayNano(Option<i128>),
    Struct(Option<Vec<ScalarValue>>, Fields),
    Dictionary(Box<DataType>, Box<ScalarValue>),
}
use ScalarValue::*;

macro_rules! same {
    ($a:expr, $b:expr, $f:ident, $other:expr; $($v:ident),*) => {
        match ($a, $b) { $( ($v(x), $v(y)) => x.$f(y), )* _ => $other }
    };
}

impl PartialEq for ScalarValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (Float32(a), Float32(b)) => match (a, b) { (Some(a), Some(b)) => a.to_bits() == b.to_bits(), _ => a.is_none() == b.is_none() },
            (Float64(a), Float64(b)) => match (a, b) { (Some(a), Some(b)) => a.to_bits() == b.to_bits(), _ => a.is_none() == b.is_none() },
            (Decimal128(a, p, s), Decimal128(b, q, t)) => a == b && p == q && s == t,
            (FixedSizeBinary(_, a), FixedSizeBinary(_, b)) => a == b,
            (List(a, x), List(b, y)) => a == b && x == y,
            (TimestampSecond(a, _), TimestampSecond(b, _)) => a == b,
            (TimestampMillisecond(a, _), TimestampMillisecond(b, _)) => a == b,
            (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _)) => a == b,
            (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a == b,
            (Struct(a, x), Struct(b, y)) => a == b && x == y,
            (Dictionary(a, x), Dictionary(b, y)) => a == b && x == y,
            (a, b) => same!(a, b, eq, false; Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Utf8, LargeUtf8,
                Binary, LargeBinary, Date32, Date64, Time32Second, Time32Millisecond, Time64Microsecond, Time64Nanosecond,
                IntervalYearMonth, IntervalDayTime, IntervalMonthDayNano),
        }
    }
}
impl Eq for ScalarValue {}

impl PartialOrd for ScalarValue {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self, o) {
            (Null, Null) => Some(Ordering::Equal),
            (Float32(a), Float32(b)) => match (a, b) { (Some(a), Some(b)) => Some(a.total_cmp(b)), _ => a.partial_cmp(b) },
            (Float64(a), Float64(b)) => match (a, b) { (Some(a), Some(b)) => Some(a.total_cmp(b)), _ => a.partial_cmp(b) },
            (Decimal128(a, p, s), Decimal128(b, q, t)) => if p == q && s == t { a.partial_cmp(b) } else { None },
            (FixedSizeBinary(_, a), FixedSizeBinary(_, b)) => a.partial_cmp(b),
            (List(a, x), List(b, y)) => if x == y { a.partial_cmp(b) } else { None },
            (TimestampSecond(a, _), TimestampSecond(b, _)) => a.partial_cmp(b),
            (TimestampMillisecond(a, _), TimestampMillisecond(b, _)) => a.partial_cmp(b),
            (TimestampMicrosecond(a, _), TimestampMicrosecond(b, _)) => a.partial_cmp(b),
            (TimestampNanosecond(a, _), TimestampNanosecond(b, _)) => a.partial_cmp(b),
            (Struct(a, x), Struct(b, y)) => if x == y { a.partial_cmp(b) } else { None },
            (Dictionary(a, x), Dictionary(b, y)) => if a == b { x.partial_cmp(y) } else { None },
            (a, b) => same!(a, b, partial_cmp, None; Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Utf8, LargeUtf8,
                Binary, LargeBinary, Date32, Date64, Time32Second, Time32Millisecond, Time64Microsecond, Time64Nanosecond,
                IntervalYearMonth, IntervalDayTime, IntervalMonthDayNano),
        }
    }
}

impl Hash for ScalarValue {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Null => 1.hash(h),
            Float32(v) => v.map(f32::to_bits).hash(h),
            Float64(v) => v.map(f64::to_bits).hash(h),
            Decimal128(v, p, s) => { v.hash(h); p.hash(h); s.hash(h) }
            FixedSizeBinary(_, v) => v.hash(h),
            List(v, t) => { v.hash(h); t.hash(h) }
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => v.hash(h),
            Struct(v, t) => { v.hash(h); t.hash(h) }
            Dictionary(k, v) => { k.hash(h); v.hash(h) }
            Boolean(v) => v.hash(h),
            Int8(v) => v.hash(h),
            Int16(v) => v.hash(h),
            Int32(v) | Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.hash(h),
            Int64(v) | Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.hash(h),
            UInt8(v) => v.hash(h),
            UInt16(v) => v.hash(h),
            UInt32(v) => v.hash(h),
            UInt64(v) => v.hash(h),
            Utf8(v) | LargeUtf8(v) => v.hash(h),
            Binary(v) | LargeBinary(v) => v.hash(h),
            IntervalMonthDayNano(v) => v.hash(h),
        }
    }
}

macro_rules! prim_arms {
    ($m:ident) => {
        $m! {
            Boolean => Boolean, BooleanArray;
            Float32 => Float32, Float32Array;
            Float64 => Float64, Float64Array;
            Int8 => Int8, Int8Array;
            Int16 => Int16, Int16Array;
            Int32 => Int32, Int32Array;
            Int64 => Int64, Int64Array;
            UInt8 => UInt8, UInt8Array;
            UInt16 => UInt16, UInt16Array;
            UInt32 => UInt32, UInt32Array;
            UInt64 => UInt64, UInt64Array;
            Date32 => Date32, Date32Array;
            Date64 => Date64, Date64Array;
        }
    };
}

impl ScalarValue {
    pub fn get_datatype(&self) -> DataType {
        match self {
            Null => DataType::Null,
            Boolean(_) => DataType::Boolean,
            Float32(_) => DataType::Float32,
            Float64(_) => DataType::Float64,
            Decimal128(_, p, s) => DataType::Decimal128(*p, *s),
            Int8(_) => DataType::Int8,
            Int16(_) => DataType::Int16,
            Int32(_) => DataType::Int32,
            Int64(_) => DataType::Int64,
            UInt8(_) => DataType::UInt8,
            UInt16(_) => DataType::UInt16,
            UInt32(_) => DataType::UInt32,
            UInt64(_) => DataType::UInt64,
            Utf8(_) => DataType::Utf8,
            LargeUtf8(_) => DataType::LargeUtf8,
            Binary(_) => DataType::Binary,
            FixedSizeBinary(n, _) => DataType::FixedSizeBinary(*n),
            LargeBinary(_) => DataType::LargeBinary,
            List(_, f) => DataType::List(f.clone()),
            Date32(_) => DataType::Date32,
            Date64(_) => DataType::Date64,
            Time32Second(_) => DataType::Time32(TimeUnit::Second),
            Time32Millisecond(_) => DataType::Time32(TimeUnit::Millisecond),
            Time64Microsecond(_) => DataType::Time64(TimeUnit::Microsecond),
            Time64Nanosecond(_) => DataType::Time64(TimeUnit::Nanosecond),
            TimestampSecond(_, z) => DataType::Timestamp(TimeUnit::Second, z.clone()),
            TimestampMillisecond(_, z) => DataType::Timestamp(TimeUnit::Millisecond, z.clone()),
            TimestampMicrosecond(_, z) => DataType::Timestamp(TimeUnit::Microsecond, z.clone()),
            TimestampNanosecond(_, z) => DataType::Timestamp(TimeUnit::Nanosecond, z.clone()),
            IntervalYearMonth(_) => DataType::Interval(IntervalUnit::YearMonth),
            IntervalDayTime(_) => DataType::Interval(IntervalUnit::DayTime),
            IntervalMonthDayNano(_) => DataType::Interval(IntervalUnit::MonthDayNano),
            Struct(_, f) => DataType::Struct(f.clone()),
            Dictionary(k, v) => DataType::Dictionary(k.clone(), Box::new(v.get_datatype())),
        }
    }

    pub fn is_null(&self) -> bool {
        match self {
            Null => true,
            Dictionary(_, v) => v.is_null(),
            Boolean(v) => v.is_none(),
            Float32(v) => v.is_none(),
            Float64(v) => v.is_none(),
            Decimal128(v, _, _) => v.is_none(),
            Int8(v) => v.is_none(),
            Int16(v) => v.is_none(),
            Int32(v) | Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => v.is_none(),
            Int64(v) | Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => v.is_none(),
            UInt8(v) => v.is_none(),
            UInt16(v) => v.is_none(),
            UInt32(v) => v.is_none(),
            UInt64(v) => v.is_none(),
            Utf8(v) | LargeUtf8(v) => v.is_none(),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => v.is_none(),
            List(v, _) => v.is_none(),
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => v.is_none(),
            IntervalMonthDayNano(v) => v.is_none(),
            Struct(v, _) => v.is_none(),
        }
    }

    pub fn to_array(&self) -> ArrayRef {
        self.to_array_of_size(1)
    }

    pub fn to_array_of_size(&self, n: usize) -> ArrayRef {
        Self::iter_to_array(std::iter::repeat(self.clone()).take(n.max(1))).unwrap().slice(0, n)
    }

    pub fn iter_to_array(scalars: impl IntoIterator<Item = ScalarValue>) -> Result<ArrayRef> {
        let all: Vec<ScalarValue> = scalars.into_iter().collect();
        let ty = all.iter().find(|v| !matches!(v, Null)).or(all.first())
            .ok_or_else(|| DataFusionError::Internal("Empty iterator passed to ScalarValue::iter_to_array".into()))?
            .get_datatype();
        macro_rules! build {
            ($arr:ty, $v:ident) => {{
                let mut out = Vec::with_capacity(all.len());
                for s in all {
                    match s {
                        $v(x) => out.push(x),
                        Null => out.push(None),
                        o => return Err(DataFusionError::Internal(format!("Inconsistent types in ScalarValue::iter_to_array. Expected {ty:?}, got {o:?}"))),
                    }
                }
                Arc::new(out.into_iter().collect::<$arr>()) as ArrayRef
            }};
        }
        macro_rules! build_ts {
            ($arr:ty, $v:ident, $tz:expr) => {{
                let mut out = Vec::with_capacity(all.len());
                for s in all {
                    match s {
                        $v(x, _) => out.push(x),
                        Null => out.push(None),
                        o => return Err(DataFusionError::Internal(format!("Inconsistent types in ScalarValue::iter_to_array. Expected {ty:?}, got {o:?}"))),
                    }
                }
                Arc::new(<$arr>::from(out).with_timezone_opt($tz.clone())) as ArrayRef
            }};
        }
        Ok(match &ty {
            DataType::Null => Arc::new(NullArray::new(all.len())),
            DataType::Boolean => build!(BooleanArray, Boolean),
            DataType::Float32 => build!(Float32Array, Float32),
            DataType::Float64 => build!(Float64Array, Float64),
            DataType::Int8 => build!(Int8Array, Int8),
            DataType::Int16 => build!(Int16Array, Int16),
            DataType::Int32 => build!(Int32Array, Int32),
            DataType::Int64 => build!(Int64Array, Int64),
            DataType::UInt8 => build!(UInt8Array, UInt8),
            DataType::UInt16 => build!(UInt16Array, UInt16),
            DataType::UInt32 => build!(UInt32Array, UInt32),
            DataType::UInt64 => build!(UInt64Array, UInt64),
            DataType::Date32 => build!(Date32Array, Date32),
            DataType::Date64 => build!(Date64Array, Date64),
            DataType::Utf8 => build!(StringArray, Utf8),
            DataType::LargeUtf8 => build!(LargeStringArray, LargeUtf8),
            DataType::Binary => build!(BinaryArray, Binary),
            DataType::LargeBinary => build!(LargeBinaryArray, LargeBinary),
            DataType::Timestamp(TimeUnit::Second, z) => build_ts!(TimestampSecondArray, TimestampSecond, z),
            DataType::Timestamp(TimeUnit::Millisecond, z) => build_ts!(TimestampMillisecondArray, TimestampMillisecond, z),
            DataType::Timestamp(TimeUnit::Microsecond, z) => build_ts!(TimestampMicrosecondArray, TimestampMicrosecond, z),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => build_ts!(TimestampNanosecondArray, TimestampNanosecond, z),
            t => return Err(DataFusionError::NotImplemented(format!("scalar array of {t:?}"))),
        })
    }

    pub fn try_from_array(array: &dyn Array, i: usize) -> Result<Self> {
        if array.is_null(i) && !matches!(array.data_type(), DataType::Null) {
            return Self::try_from(array.data_type());
        }
        macro_rules! prims {
            ($($v:ident => $dt:ident, $arr:ty;)*) => {
                match array.data_type() {
                    $( DataType::$dt => return Ok($v(Some(array.as_any().downcast_ref::<$arr>().unwrap().value(i)))), )*
                    _ => {}
                }
            };
        }
        prim_arms!(prims);
        let any = array.as_any();
        Ok(match array.data_type() {
            DataType::Null => Null,
            DataType::Utf8 => Utf8(Some(any.downcast_ref::<StringArray>().unwrap().value(i).to_string())),
            DataType::LargeUtf8 => LargeUtf8(Some(any.downcast_ref::<LargeStringArray>().unwrap().value(i).to_string())),
            DataType::Binary => Binary(Some(any.downcast_ref::<BinaryArray>().unwrap().value(i).to_vec())),
            DataType::Timestamp(TimeUnit::Second, z) => TimestampSecond(Some(any.downcast_ref::<TimestampSecondArray>().unwrap().value(i)), z.clone()),
            DataType::Timestamp(TimeUnit::Millisecond, z) => TimestampMillisecond(Some(any.downcast_ref::<TimestampMillisecondArray>().unwrap().value(i)), z.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, z) => TimestampMicrosecond(Some(any.downcast_ref::<TimestampMicrosecondArray>().unwrap().value(i)), z.clone()),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => TimestampNanosecond(Some(any.downcast_ref::<TimestampNanosecondArray>().unwrap().value(i)), z.clone()),
            t => return Err(DataFusionError::NotImplemented(format!("scalar of {t:?}"))),
        })
    }

    pub fn try_new_null(t: &DataType) -> Result<Self> {
        Self::try_from(t)
    }

    /// numeric view used by casts in the stand-in evaluator
    pub fn cast_to(&self, t: &DataType) -> Result<Self> {
        let a = arrow::compute::cast(&self.to_array(), t)?;
        Self::try_from_array(&a, 0)
    }
}

impl TryFrom<&DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: &DataType) -> Result<Self> {
        macro_rules! prims {
            ($($v:ident => $dt:ident, $arr:ty;)*) => {
                match t { $( DataType::$dt => return Ok($v(None)), )* _ => {} }
            };
        }
        prim_arms!(prims);
        Ok(match t {
            DataType::Null => Null,
            DataType::Utf8 => Utf8(None),
            DataType::LargeUtf8 => LargeUtf8(None),
            DataType::Binary => Binary(None),
            DataType::LargeBinary => LargeBinary(None),
            DataType::Decimal128(p, s) => Decimal128(None, *p, *s),
            DataType::Timestamp(TimeUnit::Second, z) => TimestampSecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Millisecond, z) => TimestampMillisecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, z) => TimestampMicrosecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => TimestampNanosecond(None, z.clone()),
            t => return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from data_type \"{t:?}\""))),
        })
    }
}
impl TryFrom<DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(t: DataType) -> Result<Self> {
        Self::try_from(&t)
    }
}

macro_rules! froms {
    ($($t:ty => $v:ident),*) => { $(
        impl From<$t> for ScalarValue { fn from(x: $t) -> Self { $v(Some(x)) } }
        impl From<Option<$t>> for ScalarValue { fn from(x: Option<$t>) -> Self { $v(x) } }
    )* };
}
froms!(bool => Boolean, f32 => Float32, f64 => Float64, i8 => Int8, i16 => Int16, i32 => Int32, i64 => Int64,
       u8 => UInt8, u16 => UInt16, u32 => UInt32, u64 => UInt64);
impl From<&str> for ScalarValue {
    fn from(x: &str) -> Self {
        Utf8(Some(x.to_string()))
    }
}
impl From<Option<&str>> for ScalarValue {
    fn from(x: Option<&str>) -> Self {
        Utf8(x.map(|s| s.to_string()))
    }
}
impl From<String> for ScalarValue {
    fn from(x: String) -> Self {
        Utf8(Some(x))
    }
}

macro_rules! tries {
    ($($t:ty => $($p:pat => $x:expr),+);* $(;)?) => { $(
        impl TryFrom<ScalarValue> for $t {
            type Error = DataFusionError;
            fn try_from(v: ScalarValue) -> Result<Self> {
                match v {
                    $( $p => Ok($x), )+
                    v => Err(DataFusionError::Internal(format!("Cannot convert {v:?} to {}", stringify!($t)))),
                }
            }
        }
    )* };
}
tries! {
    bool => Boolean(Some(x)) => x;
    f32 => Float32(Some(x)) => x;
    f64 => Float64(Some(x)) => x;
    i8 => Int8(Some(x)) => x;
    i16 => Int16(Some(x)) => x;
    i32 => Int32(Some(x)) | Date32(Some(x)) | Time32Second(Some(x)) | Time32Millisecond(Some(x)) => x;
    i64 => Int64(Some(x)) | Date64(Some(x)) | Time64Microsecond(Some(x)) | Time64Nanosecond(Some(x)) => x,
           TimestampSecond(Some(x), _) | TimestampMillisecond(Some(x), _) | TimestampMicrosecond(Some(x), _) | TimestampNanosecond(Some(x), _) => x;
    u8 => UInt8(Some(x)) => x;
    u16 => UInt16(Some(x)) => x;
    u32 => UInt32(Some(x)) => x;
    u64 => UInt64(Some(x)) => x;
}

impl fmt::Display for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        macro_rules! o {
            ($x:expr) => {
                match $x {
                    Some(v) => write!(f, "{v}"),
                    None => write!(f, "NULL"),
                }
            };
        }
        match self {
            Null => write!(f, "NULL"),
            Boolean(v) => o!(v),
            Float32(v) => o!(v),
            Float64(v) => o!(v),
            Decimal128(v, p, s) => write!(f, "{v:?},{p},{s}"),
            Int8(v) => o!(v),
            Int16(v) => o!(v),
            Int32(v) | Date32(v) | Time32Second(v) | Time32Millisecond(v) | IntervalYearMonth(v) => o!(v),
            Int64(v) | Date64(v) | Time64Microsecond(v) | Time64Nanosecond(v) | IntervalDayTime(v) => o!(v),
            UInt8(v) => o!(v),
            UInt16(v) => o!(v),
            UInt32(v) => o!(v),
            UInt64(v) => o!(v),
            Utf8(v) | LargeUtf8(v) => o!(v),
            TimestampSecond(v, _) | TimestampMillisecond(v, _) | TimestampMicrosecond(v, _) | TimestampNanosecond(v, _) => o!(v),
            IntervalMonthDayNano(v) => o!(v),
            Binary(v) | LargeBinary(v) | FixedSizeBinary(_, v) => match v {
                Some(v) => write!(f, "{}", v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")),
                None => write!(f, "NULL"),
            },
            List(v, _) | Struct(v, _) => write!(f, "{v:?}"),
            Dictionary(_, v) => write!(f, "{v}"),
        }
    }
}
impl fmt::Debug for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Utf8(Some(v)) => write!(f, "Utf8(\"{v}\")"),
            LargeUtf8(Some(v)) => write!(f, "LargeUtf8(\"{v}\")"),
            Null => write!(f, "NULL"),
            v => write!(f, "{:?}({v})", v.get_datatype()),
        }
    }
}
