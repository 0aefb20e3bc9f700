//! Between the reference model's values and Arrow arrays, without code of the system under test.


use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::*;
use arrow_schema::{DataType, SchemaRef, TimeUnit};
pub use vsim::arrows::to_arrow;
use vsim::gen::Table;
use vsim::val::Val;

/// The table as one record batch.
pub fn reference_batch(t: &Table, schema: &SchemaRef) -> RecordBatch {
    let cols = schema.fields().iter().zip(&t.data).map(|(f, c)| to_arrow(f.data_type(), c)).collect();
    RecordBatch::try_new_with_options(
        schema.clone(),
        cols,
        &RecordBatchOptions::new().with_row_count(Some(t.rows)),
    )
    .expect("reference batch")
}

fn from_prim<T: ArrowPrimitiveType>(a: &dyn Array, f: impl Fn(T::Native) -> Val) -> Vec<Val> {
    a.as_primitive::<T>().iter().map(|v| v.map(&f).unwrap_or(Val::Null)).collect()
}

pub fn from_arrow(a: &dyn Array) -> Vec<Val> {
    let text = |v: Option<&str>| v.map(|s| Val::Bytes(s.as_bytes().to_vec())).unwrap_or(Val::Null);
    let bin = |v: Option<&[u8]>| v.map(|s| Val::Bytes(s.to_vec())).unwrap_or(Val::Null);
    macro_rules! ints {
        ($t:ty) => {
            from_prim::<$t>(a, |v| Val::Int(v as i128))
        };
    }
    match a.data_type() {
        DataType::Null => vec![Val::Null; a.len()],
        DataType::Boolean => a.as_boolean().iter().map(|v| v.map(Val::Bool).unwrap_or(Val::Null)).collect(),
        DataType::Int8 => ints!(Int8Type),
        DataType::Int16 => ints!(Int16Type),
        DataType::Int32 => ints!(Int32Type),
        DataType::Int64 => ints!(Int64Type),
        DataType::UInt8 => ints!(UInt8Type),
        DataType::UInt16 => ints!(UInt16Type),
        DataType::UInt32 => ints!(UInt32Type),
        DataType::UInt64 => ints!(UInt64Type),
        DataType::Float16 => from_prim::<Float16Type>(a, |v| Val::F16(v.to_bits())),
        DataType::Float32 => from_prim::<Float32Type>(a, |v| Val::F32(v.to_bits())),
        DataType::Float64 => from_prim::<Float64Type>(a, |v| Val::F64(v.to_bits())),
        DataType::Utf8 => a.as_string::<i32>().iter().map(text).collect(),
        DataType::LargeUtf8 => a.as_string::<i64>().iter().map(text).collect(),
        DataType::Utf8View => a.as_string_view().iter().map(text).collect(),
        DataType::Binary => a.as_binary::<i32>().iter().map(bin).collect(),
        DataType::LargeBinary => a.as_binary::<i64>().iter().map(bin).collect(),
        DataType::BinaryView => a.as_binary_view().iter().map(bin).collect(),
        DataType::Date32 => ints!(Date32Type),
        DataType::Date64 => ints!(Date64Type),
        DataType::Time32(TimeUnit::Second) => ints!(Time32SecondType),
        DataType::Time32(_) => ints!(Time32MillisecondType),
        DataType::Time64(TimeUnit::Microsecond) => ints!(Time64MicrosecondType),
        DataType::Time64(_) => ints!(Time64NanosecondType),
        DataType::Timestamp(u, _) => match u {
            TimeUnit::Second => ints!(TimestampSecondType),
            TimeUnit::Millisecond => ints!(TimestampMillisecondType),
            TimeUnit::Microsecond => ints!(TimestampMicrosecondType),
            TimeUnit::Nanosecond => ints!(TimestampNanosecondType),
        },
        DataType::Struct(_) => {
            let s = a.as_struct();
            let cols: Vec<Vec<Val>> = s.columns().iter().map(|c| from_arrow(c.as_ref())).collect();
            (0..s.len())
                .map(|i| {
                    if s.is_null(i) {
                        Val::Null
                    } else {
                        Val::Struct(cols.iter().map(|c| c[i].clone()).collect())
                    }
                })
                .collect()
        }
        other => panic!("no reference values of type {other}"),
    }
}

/// Result rows of record batches.
pub fn rows(batches: &[RecordBatch]) -> Vec<Vec<Val>> {
    let mut out = Vec::new();
    for b in batches {
        let cols: Vec<Vec<Val>> = b.columns().iter().map(|c| from_arrow(c.as_ref())).collect();
        for i in 0..b.num_rows() {
            out.push(cols.iter().map(|c| c[i].clone()).collect());
        }
    }
    out
}

pub fn show_row(r: &[Val]) -> String {
    format!("({})", r.iter().map(Val::show).collect::<Vec<_>>().join(", "))
}
