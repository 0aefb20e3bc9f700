//! The reference model's values: plain Rust data, no code of the system under test.
//! Plus the two bridges: `build` (values -> array, in many physical forms) and
//! `decode` (array -> values).

use vortex::arrow::FromArrowArray;
use vortex::array::{
    BoolArray, ChunkedArray, ConstantArray, NullArray, PrimitiveArray, SparseArray, StructArray,
    TemporalArray, VarBinArray, VarBinViewArray,
};
use vortex::compute::slice;
use vortex::compute::unary::scalar_at;
use vortex::validity::{ArrayValidity, Validity};
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_buffer::Buffer;
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::half::f16;
use vortex_dtype::{DType, ExtDType, FieldNames, Nullability, PType, StructDType};
use vortex_error::{vortex_err, VortexResult};
use vortex_scalar::{PValue, Scalar, ScalarValue};

use crate::world::{gen, gen_bool, gen_range, pick, probe};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    /// bit patterns, so that NaN payloads and -0.0 count
    F16(u16),
    F32(u32),
    F64(u64),
    Bytes(Vec<u8>),
    Struct(Vec<Val>),
}

impl Val {
    pub fn is_null(&self) -> bool {
        matches!(self, Val::Null)
    }
    pub fn show(&self) -> String {
        match self {
            Val::Null => "null".into(),
            Val::Bool(b) => b.to_string(),
            Val::Int(i) => i.to_string(),
            Val::F16(b) => format!("{}h", f16::from_bits(*b)),
            Val::F32(b) => format!("{}f", f32::from_bits(*b)),
            Val::F64(b) => format!("{}", f64::from_bits(*b)),
            Val::Bytes(b) => format!("{:?}", String::from_utf8_lossy(b)),
            Val::Struct(v) => format!(
                "{{{}}}",
                v.iter().map(Val::show).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Null,
    Bool,
    Prim(PType),
    Utf8,
    Binary,
    Struct(Vec<(String, Dt)>),
    Date(TimeUnit),
    Time(TimeUnit),
    Timestamp(TimeUnit, Option<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dt {
    pub ty: Ty,
    pub nullable: bool,
}

impl Dt {
    pub fn new(ty: Ty, nullable: bool) -> Self {
        Self { ty, nullable }
    }

    fn n(&self) -> Nullability {
        if self.nullable {
            Nullability::Nullable
        } else {
            Nullability::NonNullable
        }
    }

    pub fn dtype(&self) -> DType {
        match &self.ty {
            Ty::Null => DType::Null,
            Ty::Bool => DType::Bool(self.n()),
            Ty::Prim(p) => DType::Primitive(*p, self.n()),
            Ty::Utf8 => DType::Utf8(self.n()),
            Ty::Binary => DType::Binary(self.n()),
            Ty::Struct(fs) => match struct_dtype(fs) {
                DType::Struct(s, _) => DType::Struct(s, self.n()),
                d => d,
            },
            Ty::Date(u) => DType::Extension(
                ExtDType::new(DATE_ID.clone(), Some(TemporalMetadata::Date(*u).into())),
                self.n(),
            ),
            Ty::Time(u) => DType::Extension(
                ExtDType::new(TIME_ID.clone(), Some(TemporalMetadata::Time(*u).into())),
                self.n(),
            ),
            Ty::Timestamp(u, tz) => DType::Extension(
                ExtDType::new(
                    TIMESTAMP_ID.clone(),
                    Some(TemporalMetadata::Timestamp(*u, tz.clone()).into()),
                ),
                self.n(),
            ),
        }
    }

    /// The primitive type that carries this type's values, if there is one.
    pub fn storage(&self) -> Option<PType> {
        match &self.ty {
            Ty::Prim(p) => Some(*p),
            Ty::Date(TimeUnit::D) => Some(PType::I32),
            Ty::Date(_) => Some(PType::I64),
            Ty::Time(TimeUnit::S | TimeUnit::Ms) => Some(PType::I32),
            Ty::Time(_) => Some(PType::I64),
            Ty::Timestamp(..) => Some(PType::I64),
            _ => None,
        }
    }

    pub fn is_ext(&self) -> bool {
        matches!(self.ty, Ty::Date(_) | Ty::Time(_) | Ty::Timestamp(..))
    }

    pub fn show(&self) -> String {
        let s = match &self.ty {
            Ty::Null => "null".to_string(),
            Ty::Bool => "bool".into(),
            Ty::Prim(p) => p.to_string(),
            Ty::Utf8 => "utf8".into(),
            Ty::Binary => "binary".into(),
            Ty::Struct(fs) => format!(
                "{{{}}}",
                fs.iter()
                    .map(|(n, d)| format!("{n}:{}", d.show()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            Ty::Date(u) => format!("date[{u}]"),
            Ty::Time(u) => format!("time[{u}]"),
            Ty::Timestamp(u, tz) => format!("ts[{u},{}]", tz.clone().unwrap_or_default()),
        };
        if self.nullable && self.ty != Ty::Null {
            format!("{s}?")
        } else {
            s
        }
    }
}

pub fn struct_dtype(fs: &[(String, Dt)]) -> DType {
    let names: FieldNames = fs
        .iter()
        .map(|(n, _)| n.as_str().into())
        .collect::<Vec<_>>()
        .into();
    DType::Struct(
        StructDType::new(names, fs.iter().map(|(_, d)| d.dtype()).collect()),
        Nullability::NonNullable,
    )
}

pub fn int_bounds(p: PType) -> (i128, i128) {
    match p {
        PType::U8 => (0, u8::MAX as i128),
        PType::U16 => (0, u16::MAX as i128),
        PType::U32 => (0, u32::MAX as i128),
        PType::U64 => (0, u64::MAX as i128),
        PType::I8 => (i8::MIN as i128, i8::MAX as i128),
        PType::I16 => (i16::MIN as i128, i16::MAX as i128),
        PType::I32 => (i32::MIN as i128, i32::MAX as i128),
        PType::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => (0, 0),
    }
}

pub fn is_float(p: PType) -> bool {
    matches!(p, PType::F16 | PType::F32 | PType::F64)
}

// ------------------------------------------------------------------ physical forms

/// How an array is laid out physically. Drawn at random; the value 0 is the plainest form.
#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    Plain,
    VarBinNarrow,
    VarBinView,
    Constant,
    Sparse,
    Sliced,
    Arrow,
    Received,
    Chunked,
    Compressed,
    Encoded,
    ByteBool,
    RunEndBool,
    Dict,
    RunEnd,
}

fn ints<T: TryFrom<i128> + Default>(vals: &[Val], fill: &dyn Fn() -> i128) -> Vec<T> {
    vals.iter()
        .map(|v| match v {
            Val::Int(i) => T::try_from(*i).ok().expect("in range"),
            _ => T::try_from(fill()).ok().unwrap_or_default(),
        })
        .collect()
}

/// Primitive array; null slots hold arbitrary garbage, as they may.
pub fn build_prim(p: PType, vals: &[Val], validity: Validity) -> Array {
    let garbage = gen(4);
    let (lo, hi) = int_bounds(p);
    let first = vals.iter().find_map(|v| match v {
        Val::Int(i) => Some(*i),
        _ => None,
    });
    let fill = || match garbage {
        0 => 0i128,
        1 => first.unwrap_or(1),
        2 => {
            if gen(2) == 0 {
                lo
            } else {
                hi
            }
        }
        _ => lo + (gen(0) as i128).rem_euclid(hi - lo + 1),
    };
    let a = match p {
        PType::U8 => PrimitiveArray::from_vec::<u8>(ints(vals, &fill), validity),
        PType::U16 => PrimitiveArray::from_vec::<u16>(ints(vals, &fill), validity),
        PType::U32 => PrimitiveArray::from_vec::<u32>(ints(vals, &fill), validity),
        PType::U64 => PrimitiveArray::from_vec::<u64>(ints(vals, &fill), validity),
        PType::I8 => PrimitiveArray::from_vec::<i8>(ints(vals, &fill), validity),
        PType::I16 => PrimitiveArray::from_vec::<i16>(ints(vals, &fill), validity),
        PType::I32 => PrimitiveArray::from_vec::<i32>(ints(vals, &fill), validity),
        PType::I64 => PrimitiveArray::from_vec::<i64>(ints(vals, &fill), validity),
        PType::F16 => PrimitiveArray::from_vec::<f16>(
            vals.iter()
                .map(|v| match v {
                    Val::F16(b) => f16::from_bits(*b),
                    _ => f16::from_bits(if garbage == 0 { 0 } else { gen(0) as u16 }),
                })
                .collect(),
            validity,
        ),
        PType::F32 => PrimitiveArray::from_vec::<f32>(
            vals.iter()
                .map(|v| match v {
                    Val::F32(b) => f32::from_bits(*b),
                    _ => f32::from_bits(if garbage == 0 { 0 } else { gen(0) as u32 }),
                })
                .collect(),
            validity,
        ),
        PType::F64 => PrimitiveArray::from_vec::<f64>(
            vals.iter()
                .map(|v| match v {
                    Val::F64(b) => f64::from_bits(*b),
                    _ => f64::from_bits(if garbage == 0 { 0 } else { gen(0) }),
                })
                .collect(),
            validity,
        ),
    };
    a.into_array()
}

/// A validity for these values, in one of the forms that may describe it.
pub fn build_validity(nullable: bool, vals: &[Val]) -> Validity {
    if !nullable {
        return Validity::NonNullable;
    }
    let nulls = vals.iter().filter(|v| v.is_null()).count();
    if nulls == 0 && gen(2) == 0 {
        return Validity::AllValid;
    }
    if nulls == vals.len() && gen(2) == 0 {
        return Validity::AllInvalid;
    }
    let bits: Vec<bool> = vals.iter().map(|v| !v.is_null()).collect();
    Validity::Array(build_bools(&bits))
}

/// Non-nullable boolean array in some physical form.
fn build_bools(bits: &[bool]) -> Array {
    match gen(6) {
        0..=2 => BoolArray::from_vec(bits.to_vec(), Validity::NonNullable).into_array(),
        3 => {
            // bit-unaligned slice
            let pad = gen_range(1, 9) as usize;
            let mut b = vec![true; pad];
            b.extend_from_slice(bits);
            b.extend(vec![true; pad]);
            let a = BoolArray::from_vec(b, Validity::NonNullable).into_array();
            slice(&a, pad, pad + bits.len()).expect("slice of bool array")
        }
        4 if !bits.is_empty() => {
            let cut = gen_range(0, bits.len() as u64) as usize;
            let l = BoolArray::from_vec(bits[..cut].to_vec(), Validity::NonNullable).into_array();
            let r = BoolArray::from_vec(bits[cut..].to_vec(), Validity::NonNullable).into_array();
            ChunkedArray::try_new(vec![l, r], DType::Bool(Nullability::NonNullable))
                .expect("chunked bools")
                .into_array()
        }
        5 if !bits.is_empty() => {
            let b = BoolArray::from_vec(bits.to_vec(), Validity::NonNullable);
            runend_bool(&b).unwrap_or_else(|| b.into_array())
        }
        _ => BoolArray::from_vec(bits.to_vec(), Validity::NonNullable).into_array(),
    }
}

fn runend_bool(b: &BoolArray) -> Option<Array> {
    let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(b);
    vortex_runend_bool::RunEndBoolArray::try_new(ends.into_array(), start, b.validity())
        .ok()
        .map(|a| a.into_array())
}

pub fn scalar_value(dt: &Dt, v: &Val) -> ScalarValue {
    match v {
        Val::Null => ScalarValue::Null,
        Val::Bool(b) => ScalarValue::Bool(*b),
        Val::Int(i) => ScalarValue::Primitive(match dt.storage().expect("int storage") {
            PType::U8 => PValue::U8(*i as u8),
            PType::U16 => PValue::U16(*i as u16),
            PType::U32 => PValue::U32(*i as u32),
            PType::U64 => PValue::U64(*i as u64),
            PType::I8 => PValue::I8(*i as i8),
            PType::I16 => PValue::I16(*i as i16),
            PType::I32 => PValue::I32(*i as i32),
            PType::I64 => PValue::I64(*i as i64),
            _ => unreachable!(),
        }),
        Val::F16(b) => ScalarValue::Primitive(PValue::F16(f16::from_bits(*b))),
        Val::F32(b) => ScalarValue::Primitive(PValue::F32(f32::from_bits(*b))),
        Val::F64(b) => ScalarValue::Primitive(PValue::F64(f64::from_bits(*b))),
        Val::Bytes(b) => match dt.ty {
            Ty::Utf8 => ScalarValue::BufferString(
                vortex_buffer::BufferString::try_from(Buffer::from(b.clone())).expect("utf8"),
            ),
            _ => ScalarValue::Buffer(Buffer::from(b.clone())),
        },
        Val::Struct(_) => unreachable!("struct scalars are not built"),
    }
}

pub fn scalar(dt: &Dt, v: &Val) -> Scalar {
    Scalar::new(dt.dtype(), scalar_value(dt, v))
}

fn opt_bytes(v: &Val) -> Option<Vec<u8>> {
    match v {
        Val::Bytes(b) => Some(b.clone()),
        _ => None,
    }
}

/// Plainest form of a column.
pub fn build_plain(dt: &Dt, vals: &[Val]) -> Array {
    match &dt.ty {
        Ty::Null => NullArray::new(vals.len()).into_array(),
        Ty::Bool => {
            let g = gen(2) == 1;
            BoolArray::from_vec(
                vals.iter()
                    .map(|v| match v {
                        Val::Bool(b) => *b,
                        _ => g,
                    })
                    .collect(),
                build_validity(dt.nullable, vals),
            )
            .into_array()
        }
        Ty::Prim(p) => build_prim(*p, vals, build_validity(dt.nullable, vals)),
        Ty::Utf8 | Ty::Binary => {
            if gen(2) == 0 {
                if dt.nullable {
                    VarBinArray::from_iter(vals.iter().map(opt_bytes), dt.dtype()).into_array()
                } else {
                    VarBinArray::from_iter_nonnull(
                        vals.iter().map(|v| opt_bytes(v).unwrap_or_default()),
                        dt.dtype(),
                    )
                    .into_array()
                }
            } else {
                build_view(dt, vals)
            }
        }
        Ty::Struct(fs) => {
            let cols: Vec<Array> = fs
                .iter()
                .enumerate()
                .map(|(i, (_, d))| {
                    let c: Vec<Val> = vals
                        .iter()
                        .map(|v| match v {
                            Val::Struct(x) => x[i].clone(),
                            // whatever lies under a null
                            _ => crate::gen::more_like(d, &[], 1).remove(0),
                        })
                        .collect();
                    build_plain(d, &c)
                })
                .collect();
            StructArray::try_new(
                fs.iter()
                    .map(|(n, _)| n.as_str().into())
                    .collect::<Vec<_>>()
                    .into(),
                cols,
                vals.len(),
                build_validity(dt.nullable, vals),
            )
            .expect("struct")
            .into_array()
        }
        Ty::Date(u) => TemporalArray::new_date(storage_array(dt, vals), *u).into(),
        Ty::Time(u) => TemporalArray::new_time(storage_array(dt, vals), *u).into(),
        Ty::Timestamp(u, tz) => {
            TemporalArray::new_timestamp(storage_array(dt, vals), *u, tz.clone()).into()
        }
    }
}

fn storage_array(dt: &Dt, vals: &[Val]) -> Array {
    build_prim(
        dt.storage().expect("storage"),
        vals,
        build_validity(dt.nullable, vals),
    )
}

fn build_view(dt: &Dt, vals: &[Val]) -> Array {
    let utf8 = dt.ty == Ty::Utf8;
    if dt.nullable {
        let it = vals.iter().map(opt_bytes);
        if utf8 {
            VarBinViewArray::from_iter_nullable_str(
                it.map(|o| o.map(|b| String::from_utf8(b).expect("utf8"))),
            )
            .into_array()
        } else {
            VarBinViewArray::from_iter_nullable_bin(it).into_array()
        }
    } else {
        let it = vals.iter().map(|v| opt_bytes(v).unwrap_or_default());
        if utf8 {
            VarBinViewArray::from_iter_str(it.map(|b| String::from_utf8(b).expect("utf8")))
                .into_array()
        } else {
            VarBinViewArray::from_iter_bin(it).into_array()
        }
    }
}

/// VarBin with a chosen offset type and data that does not start at zero.
fn build_varbin_narrow(dt: &Dt, vals: &[Val]) -> Option<Array> {
    let total: usize = vals
        .iter()
        .map(|v| if let Val::Bytes(b) = v { b.len() } else { 0 })
        .sum();
    let lead = gen(5) as usize;
    let types = [PType::I32, PType::U32, PType::I64, PType::U64, PType::U16, PType::U8];
    let mut p = *pick(&types);
    if (total + lead) as i128 > int_bounds(p).1 {
        p = PType::I32;
    }
    let mut data = vec![b'#'; lead];
    let mut offs = vec![Val::Int(lead as i128)];
    for v in vals {
        if let Val::Bytes(b) = v {
            data.extend_from_slice(b);
        }
        offs.push(Val::Int(data.len() as i128));
    }
    let offsets = build_prim(p, &offs, Validity::NonNullable);
    let bytes = PrimitiveArray::from_vec::<u8>(data, Validity::NonNullable).into_array();
    VarBinArray::try_new(offsets, bytes, dt.dtype(), build_validity(dt.nullable, vals))
        .ok()
        .map(|a| a.into_array())
}

/// Draws a physical form for a column and builds it. `depth` bounds recursion.
pub fn build(dt: &Dt, vals: &[Val], depth: u32) -> Array {
    let a = build_inner(dt, vals, depth);
    if a.len() != vals.len() || a.dtype() != &dt.dtype() {
        return build_plain(dt, vals);
    }
    a
}

fn build_inner(dt: &Dt, vals: &[Val], depth: u32) -> Array {
    let leaf = !matches!(dt.ty, Ty::Null | Ty::Struct(_));
    let n = vals.len();
    let mut forms = vec![Form::Plain, Form::Plain];
    if depth > 0 {
        forms.push(Form::Sliced);
        forms.push(Form::Chunked);
        forms.push(Form::Arrow);
        forms.push(Form::Received);
        if leaf && n > 0 {
            forms.push(Form::Compressed);
            forms.push(Form::Compressed);
            forms.push(Form::Encoded);
            forms.push(Form::Encoded);
            if !dt.is_ext() {
                // only the sparse arrays the format itself makes: null fill over a numeric column
                if dt.nullable && matches!(dt.ty, Ty::Prim(_)) && vals.iter().any(Val::is_null) {
                    forms.push(Form::Sparse);
                }
                if vals.iter().all(|v| v == &vals[0]) {
                    forms.push(Form::Constant);
                    forms.push(Form::Constant);
                }
            }
        }
        match dt.ty {
            Ty::Bool if n > 0 => {
                forms.push(Form::ByteBool);
                forms.push(Form::RunEndBool);
            }
            Ty::Utf8 | Ty::Binary => {
                forms.push(Form::VarBinNarrow);
                forms.push(Form::VarBinView);
                if n > 0 {
                    forms.push(Form::Dict);
                }
            }
            Ty::Prim(p) if n > 0 => {
                forms.push(Form::Dict);
                if !is_float(p) {
                    forms.push(Form::RunEnd);
                }
            }
            _ => {}
        }
    }
    let form = pick(&forms).clone();
    match form {
        Form::Plain => build_plain(dt, vals),
        Form::VarBinView => build_view(dt, vals),
        Form::VarBinNarrow => {
            build_varbin_narrow(dt, vals).unwrap_or_else(|| build_plain(dt, vals))
        }
        Form::Constant => {
            let dtv = if vals[0].is_null() {
                Scalar::null(dt.dtype())
            } else {
                scalar(dt, &vals[0])
            };
            ConstantArray::new(dtv, n).into_array()
        }
        Form::Sparse => build_sparse(dt, vals),
        Form::Arrow => from_arrow_array(dt, vals),
        Form::Received => {
            let a = build_inner(dt, vals, depth - 1);
            received(&a).unwrap_or(a)
        }
        Form::Sliced => {
            let pre = gen(9) as usize;
            let post = gen(9) as usize;
            let mut v = crate::gen::more_like(dt, vals, pre);
            v.extend_from_slice(vals);
            v.extend(crate::gen::more_like(dt, vals, post));
            let a = build_inner(dt, &v, depth - 1);
            slice(&a, pre, pre + n).expect("slice of a generated array")
        }
        Form::Chunked if n == 0 && leaf && !dt.is_ext() && gen_bool(1, 3) => {
            probe("column_without_chunks");
            ChunkedArray::try_new(vec![], dt.dtype()).expect("chunked").into_array()
        }
        Form::Chunked => {
            let k = gen_range(1, 4) as usize;
            let mut cuts: Vec<usize> = (0..k).map(|_| gen(n as u64 + 1) as usize).collect();
            cuts.push(0);
            cuts.push(n);
            cuts.sort_unstable();
            let chunks: Vec<Array> = cuts
                .windows(2)
                .map(|w| build_inner(dt, &vals[w[0]..w[1]], depth - 1))
                .collect();
            ChunkedArray::try_new(chunks, dt.dtype())
                .expect("chunked")
                .into_array()
        }
        Form::Compressed => {
            let a = build_plain(dt, vals);
            crate::comp::compress_some(&a).unwrap_or(a)
        }
        Form::Encoded => {
            let a = build_plain(dt, vals);
            crate::comp::encode_some(&a).unwrap_or(a)
        }
        Form::ByteBool => {
            let bits: Vec<bool> = vals.iter().map(|v| matches!(v, Val::Bool(true))).collect();
            vortex_bytebool::ByteBoolArray::try_from_vec(bits, build_validity(dt.nullable, vals))
                .expect("bytebool")
                .into_array()
        }
        Form::RunEndBool => {
            if vals.iter().any(|v| v.is_null()) {
                return build_plain(dt, vals);
            }
            let a = build_plain(dt, vals);
            match a.clone().into_bool().ok().and_then(|b| runend_bool(&b)) {
                Some(r) if r.dtype() == a.dtype() => r,
                _ => a,
            }
        }
        Form::Dict => build_dict(dt, vals),
        Form::RunEnd => {
            let p = dt.storage().expect("prim");
            let prim = build_prim(p, vals, build_validity(dt.nullable, vals));
            match prim
                .clone()
                .into_primitive()
                .and_then(vortex_runend::RunEndArray::encode_sim)
            {
                Ok(a) => a,
                Err(_) => prim,
            }
        }
    }
}

/// As it arrives in messages from elsewhere: the array is a view of what was received.
fn received(a: &Array) -> Option<Array> {
    use futures::TryStreamExt;
    use vortex_serde::stream_reader::StreamArrayReader;
    use vortex_serde::stream_writer::StreamArrayWriter;
    let bytes = at_once(StreamArrayWriter::new(Vec::new()).write_array(a.clone()))?.ok()?.into_inner();
    let chunks: Vec<Array> = at_once(async move {
        let r = StreamArrayReader::try_new(std::io::Cursor::new(Buffer::from(bytes)), crate::props::streams::ctx()).await?;
        r.load_dtype().await?.into_array_stream().try_collect().await
    })?
    .ok()?;
    probe("column_received");
    match chunks.len() {
        1 => chunks.into_iter().next(),
        _ => Some(ChunkedArray::try_new(chunks, a.dtype().clone()).ok()?.into_array()),
    }
}

/// What a future that never has to wait returns.
fn at_once<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    let waker = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&waker);
    (0..1000).find_map(|_| match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(t) => Some(t),
        std::task::Poll::Pending => None,
    })
}

/// As imported from Arrow, whose array may itself be a slice.
fn from_arrow_array(dt: &Dt, vals: &[Val]) -> Array {
    let ty = crate::arrows::some_type(dt);
    let pre = if gen_bool(1, 2) { gen(9) as usize } else { 0 };
    let post = if pre > 0 { gen(9) as usize } else { 0 };
    let mut v = crate::gen::more_like(dt, vals, pre);
    v.extend_from_slice(vals);
    v.extend(crate::gen::more_like(dt, vals, post));
    let a = crate::arrows::to_arrow(&ty, &v).slice(pre, vals.len());
    probe("column_from_arrow");
    Array::from_arrow(a, dt.nullable || dt.ty == Ty::Null)
}

trait RunEndSim {
    fn encode_sim(p: PrimitiveArray) -> VortexResult<Array>;
}
impl RunEndSim for vortex_runend::RunEndArray {
    fn encode_sim(p: PrimitiveArray) -> VortexResult<Array> {
        Ok(Self::encode(p.into_array())?.into_array())
    }
}

fn build_dict(dt: &Dt, vals: &[Val]) -> Array {
    // values in first-seen order; a null gets its own dictionary entry
    // a nullable dictionary's entry 0 is the null
    let mut dict: Vec<Val> = if dt.nullable { vec![Val::Null] } else { vec![] };
    let codes: Vec<Val> = vals
        .iter()
        .map(|v| {
            let k = match dict.iter().position(|d| d == v) {
                Some(k) => k,
                None => {
                    dict.push(v.clone());
                    dict.len() - 1
                }
            };
            Val::Int(k as i128)
        })
        .collect();
    let p = if dict.len() <= 255 { *pick(&[PType::U8, PType::U16, PType::U32, PType::U64]) } else { PType::U32 };
    let c = build_prim(p, &codes, Validity::NonNullable);
    let values = build_plain(dt, &dict);
    match vortex_dict::DictArray::try_new(c, values) {
        Ok(a) if a.dtype() == &dt.dtype() => a.into_array(),
        _ => build_plain(dt, vals),
    }
}

fn build_sparse(dt: &Dt, vals: &[Val]) -> Array {
    let mut idx = Vec::new();
    let mut patch = Vec::new();
    for (i, v) in vals.iter().enumerate() {
        if !v.is_null() {
            idx.push(i as u64);
            patch.push(v.clone());
        }
    }
    let indices = PrimitiveArray::from_vec::<u64>(idx, Validity::NonNullable).into_array();
    let Some(p) = dt.storage() else {
        return build_plain(dt, vals);
    };
    let values = build_prim(p, &patch, Validity::AllValid);
    match SparseArray::try_new(indices, values, vals.len(), ScalarValue::Null) {
        Ok(a) if a.dtype() == &dt.dtype() => a.into_array(),
        _ => build_plain(dt, vals),
    }
}

// ------------------------------------------------------------------ decoding

/// Checked read-back of any array into model values, through its canonical form.
pub fn decode(a: &Array) -> VortexResult<Vec<Val>> {
    decode_canonical(a.clone().into_canonical()?)
}

fn decode_canonical(c: Canonical) -> VortexResult<Vec<Val>> {
    match c {
        Canonical::Null(n) => Ok(vec![Val::Null; n.len()]),
        Canonical::Bool(b) => {
            let mask = validity_bits(&b.logical_validity().to_null_buffer()?, b.len());
            let buf = b.boolean_buffer();
            Ok((0..b.len())
                .map(|i| {
                    if mask[i] {
                        Val::Bool(buf.value(i))
                    } else {
                        Val::Null
                    }
                })
                .collect())
        }
        Canonical::Primitive(p) => {
            let mask = validity_bits(&p.logical_validity().to_null_buffer()?, p.len());
            macro_rules! go {
                ($t:ty, $f:expr) => {
                    p.maybe_null_slice::<$t>()
                        .iter()
                        .zip(mask.iter())
                        .map(|(v, ok)| if *ok { $f(*v) } else { Val::Null })
                        .collect()
                };
            }
            let out: Vec<Val> = match p.ptype() {
                PType::U8 => go!(u8, |v| Val::Int(v as i128)),
                PType::U16 => go!(u16, |v| Val::Int(v as i128)),
                PType::U32 => go!(u32, |v| Val::Int(v as i128)),
                PType::U64 => go!(u64, |v| Val::Int(v as i128)),
                PType::I8 => go!(i8, |v| Val::Int(v as i128)),
                PType::I16 => go!(i16, |v| Val::Int(v as i128)),
                PType::I32 => go!(i32, |v| Val::Int(v as i128)),
                PType::I64 => go!(i64, |v| Val::Int(v as i128)),
                PType::F16 => go!(f16, |v: f16| Val::F16(v.to_bits())),
                PType::F32 => go!(f32, |v: f32| Val::F32(v.to_bits())),
                PType::F64 => go!(f64, |v: f64| Val::F64(v.to_bits())),
            };
            if out.len() != p.len() {
                return Err(vortex_err!(
                    "primitive buffer holds {} values, array says {}",
                    out.len(),
                    p.len()
                ));
            }
            Ok(out)
        }
        Canonical::Struct(s) => {
            let n = s.len();
            let mut cols = Vec::new();
            for i in 0..s.nfields() {
                let c = s
                    .field(i)
                    .ok_or_else(|| vortex_err!("struct field {} missing", i))?;
                let d = decode(&c)?;
                if d.len() != n {
                    return Err(vortex_err!(
                        "struct field {} has {} rows, struct has {}",
                        i,
                        d.len(),
                        n
                    ));
                }
                cols.push(d);
            }
            let mask = validity_bits(&s.logical_validity().to_null_buffer()?, n);
            Ok((0..n)
                .map(|r| if mask[r] { Val::Struct(cols.iter().map(|c| c[r].clone()).collect()) } else { Val::Null })
                .collect())
        }
        Canonical::VarBinView(v) => {
            let mask = validity_bits(&v.logical_validity().to_null_buffer()?, v.len());
            (0..v.len())
                .map(|i| {
                    if mask[i] {
                        let b = v.bytes_at(i)?;
                        if matches!(v.dtype(), DType::Utf8(_)) && std::str::from_utf8(&b).is_err() {
                            return Err(vortex_err!("invalid UTF-8 in a utf8 array"));
                        }
                        Ok(Val::Bytes(b))
                    } else {
                        Ok(Val::Null)
                    }
                })
                .collect()
        }
        Canonical::Extension(e) => decode(&e.storage()),
    }
}

fn validity_bits(nb: &Option<arrow_buffer::NullBuffer>, len: usize) -> Vec<bool> {
    match nb {
        None => vec![true; len],
        Some(b) => {
            assert_eq!(b.len(), len, "validity length differs from array length");
            (0..len).map(|i| b.is_valid(i)).collect()
        }
    }
}

/// One value through the scalar path, which most encodings implement separately.
pub fn decode_at(a: &Array, i: usize) -> VortexResult<Val> {
    let s = scalar_at(a, i)?;
    from_scalar(&s)
}

/// Reads a scalar the way a user does: through the accessors of its own type.
pub fn from_scalar(s: &Scalar) -> VortexResult<Val> {
    if s.is_null() {
        return Ok(Val::Null);
    }
    Ok(match s.dtype() {
        DType::Primitive(PType::F16, _) => Val::F16(f16::try_from(s)?.to_bits()),
        DType::Primitive(PType::F32, _) => Val::F32(f32::try_from(s)?.to_bits()),
        DType::Primitive(PType::F64, _) => Val::F64(f64::try_from(s)?.to_bits()),
        DType::Struct(st, _) => match s.value() {
            ScalarValue::List(l) => Val::Struct(
                l.iter()
                    .zip(st.dtypes().iter())
                    .map(|(v, d)| from_scalar(&Scalar::new(d.clone(), v.clone())))
                    .collect::<VortexResult<_>>()?,
            ),
            v => from_scalar_value(v)?,
        },
        _ => from_scalar_value(s.value())?,
    })
}

pub fn from_scalar_value(v: &ScalarValue) -> VortexResult<Val> {
    Ok(match v {
        ScalarValue::Null => Val::Null,
        ScalarValue::Bool(b) => Val::Bool(*b),
        ScalarValue::Primitive(p) => match p {
            PValue::U8(v) => Val::Int(*v as i128),
            PValue::U16(v) => Val::Int(*v as i128),
            PValue::U32(v) => Val::Int(*v as i128),
            PValue::U64(v) => Val::Int(*v as i128),
            PValue::I8(v) => Val::Int(*v as i128),
            PValue::I16(v) => Val::Int(*v as i128),
            PValue::I32(v) => Val::Int(*v as i128),
            PValue::I64(v) => Val::Int(*v as i128),
            PValue::F16(v) => Val::F16(v.to_bits()),
            PValue::F32(v) => Val::F32(v.to_bits()),
            PValue::F64(v) => Val::F64(v.to_bits()),
        },
        ScalarValue::Buffer(b) => Val::Bytes(b.as_slice().to_vec()),
        ScalarValue::BufferString(b) => Val::Bytes(b.as_bytes().to_vec()),
        ScalarValue::List(l) => {
            Val::Struct(l.iter().map(from_scalar_value).collect::<VortexResult<_>>()?)
        }
    })
}

pub fn show_vals(v: &[Val], max: usize) -> String {
    let mut s: Vec<String> = v.iter().take(max).map(Val::show).collect();
    if v.len() > max {
        s.push(format!("... ({} in all)", v.len()));
    }
    s.join(", ")
}
