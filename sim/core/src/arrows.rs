//! From the reference model's values to Arrow arrays, without code of the system under test.

use std::sync::Arc;

use arrow_array::types::*;
use arrow_array::*;
use arrow_buffer::NullBuffer;
use arrow_schema::{DataType, Field, Fields, TimeUnit as ArrowUnit};
use vortex_datetime_dtype::TimeUnit;
use vortex_dtype::half::f16;
use vortex_dtype::PType;

use crate::val::{Dt, Ty, Val};
use crate::world::pick;


/// An Arrow type that holds values of the given type, one of those there are.
pub fn some_type(dt: &Dt) -> DataType {
    match &dt.ty {
        Ty::Null => DataType::Null,
        Ty::Bool => DataType::Boolean,
        Ty::Prim(p) => match p {
            PType::U8 => DataType::UInt8,
            PType::U16 => DataType::UInt16,
            PType::U32 => DataType::UInt32,
            PType::U64 => DataType::UInt64,
            PType::I8 => DataType::Int8,
            PType::I16 => DataType::Int16,
            PType::I32 => DataType::Int32,
            PType::I64 => DataType::Int64,
            PType::F16 => DataType::Float16,
            PType::F32 => DataType::Float32,
            PType::F64 => DataType::Float64,
        },
        Ty::Utf8 => pick(&[DataType::Utf8, DataType::LargeUtf8, DataType::Utf8View]).clone(),
        Ty::Binary => pick(&[DataType::Binary, DataType::LargeBinary, DataType::BinaryView]).clone(),
        Ty::Struct(fs) => DataType::Struct(
            fs.iter().map(|(n, d)| Field::new(n, some_type(d), d.nullable || d.ty == Ty::Null)).collect::<Fields>(),
        ),
        Ty::Date(TimeUnit::D) => DataType::Date32,
        Ty::Date(_) => DataType::Date64,
        Ty::Time(u @ (TimeUnit::S | TimeUnit::Ms)) => DataType::Time32(unit(*u)),
        Ty::Time(u) => DataType::Time64(unit(*u)),
        Ty::Timestamp(u, tz) => DataType::Timestamp(unit(*u), tz.as_ref().map(|s| s.as_str().into())),
    }
}

fn unit(u: TimeUnit) -> ArrowUnit {
    match u {
        TimeUnit::S => ArrowUnit::Second,
        TimeUnit::Ms => ArrowUnit::Millisecond,
        TimeUnit::Us => ArrowUnit::Microsecond,
        _ => ArrowUnit::Nanosecond,
    }
}

fn prim<T: ArrowPrimitiveType>(vals: &[Val], f: impl Fn(&Val) -> T::Native) -> PrimitiveArray<T> {
    PrimitiveArray::<T>::from_iter(vals.iter().map(|v| if v.is_null() { None } else { Some(f(v)) }))
}

fn int(v: &Val) -> i128 {
    match v {
        Val::Int(i) => *i,
        _ => unreachable!("an integer"),
    }
}

fn bytes(v: &Val) -> Option<&[u8]> {
    match v {
        Val::Bytes(b) => Some(b),
        _ => None,
    }
}

fn text(v: &Val) -> Option<&str> {
    bytes(v).map(|b| std::str::from_utf8(b).expect("text"))
}

/// What lies under a null in a column that is not nullable itself.
fn hidden(dt: &DataType) -> Val {
    match dt {
        DataType::Boolean => Val::Bool(true),
        DataType::Float16 => Val::F16(0x4200),
        DataType::Float32 => Val::F32(3f32.to_bits()),
        DataType::Float64 => Val::F64(3f64.to_bits()),
        DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View | DataType::Binary | DataType::LargeBinary | DataType::BinaryView => {
            Val::Bytes(b"hidden".to_vec())
        }
        DataType::Struct(fs) => Val::Struct(fs.iter().map(|f| hidden(f.data_type())).collect()),
        _ => Val::Int(3),
    }
}

/// An Arrow array of the given type.
pub fn to_arrow(dt: &DataType, vals: &[Val]) -> ArrayRef {
    match dt {
        DataType::Null => Arc::new(NullArray::new(vals.len())),
        DataType::Boolean => Arc::new(BooleanArray::from_iter(vals.iter().map(|v| match v {
            Val::Bool(b) => Some(*b),
            _ => None,
        }))),
        DataType::Int8 => Arc::new(prim::<Int8Type>(vals, |v| int(v) as i8)),
        DataType::Int16 => Arc::new(prim::<Int16Type>(vals, |v| int(v) as i16)),
        DataType::Int32 => Arc::new(prim::<Int32Type>(vals, |v| int(v) as i32)),
        DataType::Int64 => Arc::new(prim::<Int64Type>(vals, |v| int(v) as i64)),
        DataType::UInt8 => Arc::new(prim::<UInt8Type>(vals, |v| int(v) as u8)),
        DataType::UInt16 => Arc::new(prim::<UInt16Type>(vals, |v| int(v) as u16)),
        DataType::UInt32 => Arc::new(prim::<UInt32Type>(vals, |v| int(v) as u32)),
        DataType::UInt64 => Arc::new(prim::<UInt64Type>(vals, |v| int(v) as u64)),
        DataType::Float16 => Arc::new(prim::<Float16Type>(vals, |v| match v {
            Val::F16(b) => f16::from_bits(*b),
            _ => unreachable!(),
        })),
        DataType::Float32 => Arc::new(prim::<Float32Type>(vals, |v| match v {
            Val::F32(b) => f32::from_bits(*b),
            _ => unreachable!(),
        })),
        DataType::Float64 => Arc::new(prim::<Float64Type>(vals, |v| match v {
            Val::F64(b) => f64::from_bits(*b),
            _ => unreachable!(),
        })),
        DataType::Utf8 => Arc::new(StringArray::from_iter(vals.iter().map(text))),
        DataType::LargeUtf8 => Arc::new(LargeStringArray::from_iter(vals.iter().map(text))),
        DataType::Utf8View => Arc::new(StringViewArray::from_iter(vals.iter().map(text))),
        DataType::Binary => Arc::new(BinaryArray::from_iter(vals.iter().map(bytes))),
        DataType::LargeBinary => Arc::new(LargeBinaryArray::from_iter(vals.iter().map(bytes))),
        DataType::BinaryView => Arc::new(BinaryViewArray::from_iter(vals.iter().map(bytes))),
        DataType::Date32 => Arc::new(prim::<Date32Type>(vals, |v| int(v) as i32)),
        DataType::Date64 => Arc::new(prim::<Date64Type>(vals, |v| int(v) as i64)),
        DataType::Time32(ArrowUnit::Second) => Arc::new(prim::<Time32SecondType>(vals, |v| int(v) as i32)),
        DataType::Time32(_) => Arc::new(prim::<Time32MillisecondType>(vals, |v| int(v) as i32)),
        DataType::Time64(ArrowUnit::Microsecond) => Arc::new(prim::<Time64MicrosecondType>(vals, |v| int(v) as i64)),
        DataType::Time64(_) => Arc::new(prim::<Time64NanosecondType>(vals, |v| int(v) as i64)),
        DataType::Timestamp(u, tz) => match u {
            ArrowUnit::Second => Arc::new(prim::<TimestampSecondType>(vals, |v| int(v) as i64).with_timezone_opt(tz.clone())),
            ArrowUnit::Millisecond => {
                Arc::new(prim::<TimestampMillisecondType>(vals, |v| int(v) as i64).with_timezone_opt(tz.clone()))
            }
            ArrowUnit::Microsecond => {
                Arc::new(prim::<TimestampMicrosecondType>(vals, |v| int(v) as i64).with_timezone_opt(tz.clone()))
            }
            ArrowUnit::Nanosecond => {
                Arc::new(prim::<TimestampNanosecondType>(vals, |v| int(v) as i64).with_timezone_opt(tz.clone()))
            }
        },
        DataType::Struct(fs) => {
            let cols = fs
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let c: Vec<Val> = vals
                        .iter()
                        .map(|v| match v {
                            Val::Struct(x) => x[i].clone(),
                            _ if f.is_nullable() => Val::Null,
                            _ => hidden(f.data_type()),
                        })
                        .collect();
                    to_arrow(f.data_type(), &c)
                })
                .collect();
            let nulls = vals.iter().any(Val::is_null).then(|| NullBuffer::from_iter(vals.iter().map(|v| !v.is_null())));
            if fs.is_empty() {
                return Arc::new(StructArray::new_empty_fields(vals.len(), nulls));
            }
            Arc::new(StructArray::new(fs.clone(), cols, nulls))
        }
        other => panic!("no reference values of type {other}"),
    }
}
