//! Arrays as values: operations mean what they mean on plain rows, and change nothing that exists.

use std::cmp::Ordering;
use std::sync::{Arc, Mutex};

use arrow_array::ArrayRef;
use vortex::accessor::ArrayAccessor;
use vortex::array::{BoolArray, ChunkedArray, ConstantArray, StructArray, VarBinArray};
use vortex::arrow::FromArrowArray;
use vortex::compute::unary::{fill_forward, scalar_at, subtract_scalar, try_cast};
use vortex::compute::{
    and, compare, filter, or, search_sorted, search_sorted_many, search_sorted_u64, search_sorted_u64_many, slice, take, Operator, SearchResult, SearchSortedSide,
};
use vortex::stream::ArrayStreamExt;
use vortex::elementwise::{BinaryFn, UnaryFn};
use vortex::validity::Validity;
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_dtype::field::Field;
use vortex_dtype::half::f16;
use vortex_dtype::{DType, PType};
use vortex_error::VortexError;
use vortex_scalar::Scalar;

use super::compress::through_stream;
use super::stats::{ieee, is_nan, total, TYPES};
use crate::comp::gen_compressor;
use crate::file::{first_diff, set_sample};
use crate::gen::{gen_col, gen_dt, gen_rows, more_like};
use crate::runner::{v, Prop, Res, V};
use crate::threads::{run_threads, yield_here, End};
use crate::val::{build, build_prim, decode, decode_at, int_bounds, is_float, scalar, Dt, Ty, Val};
use crate::world::{self, gen, gen_bool, gen_range, pick, probe, Tapes};

/// An array somebody holds, with the rows it has had since it was made.
#[derive(Clone)]
struct Slot {
    name: String,
    dt: Dt,
    array: Array,
    vals: Arc<Vec<Val>>,
}

/// What the threads share besides the arrays.
#[derive(Default)]
struct Book {
    /// arrays one thread lets others have
    board: Vec<Slot>,
    /// kept by the Arrow world
    arrows: Vec<(ArrayRef, Slot)>,
    log: Vec<String>,
    first: Option<V>,
    ops: u64,
    derived: u64,
    compared: u64,
    wrote: u64,
}

fn holds(what: &str, s: &Slot) -> Res {
    let a = &s.array;
    if a.dtype() != &s.dt.dtype() {
        return v("wrong-type", format!("{what} {} is of {} and not of {}", s.name, a.dtype(), s.dt.dtype()));
    }
    if a.len() != s.vals.len() {
        return v("wrong-length", format!("{what} {} has {} rows and not {}", s.name, a.len(), s.vals.len()));
    }
    match decode(a) {
        Ok(got) if got == *s.vals => Ok(()),
        Ok(got) => v("wrong-rows", format!("{what} {} ({}): {}", s.name, a.encoding().id(), first_diff(&got, &s.vals))),
        Err(e) => v("operation-failed", format!("{what} {} ({}) cannot be decoded: {e}", s.name, a.encoding().id())),
    }
}

/// The same, row by row, through the accessors of single rows.
fn holds_at(what: &str, s: &Slot, i: usize) -> Res {
    match scalar_at(&s.array, i) {
        Ok(x) if x.dtype() != s.array.dtype() => {
            return v("wrong-type", format!("{what} {} ({}): row {i} is of {} and not of {}", s.name, s.array.encoding().id(), x.dtype(), s.array.dtype()))
        }
        _ => {}
    }
    match decode_at(&s.array, i) {
        Ok(x) if x == s.vals[i] => {}
        Ok(x) => {
            return v(
                "wrong-scalar",
                format!("{what} {} ({}): row {i} is {} and not {}", s.name, s.array.encoding().id(), x.show(), s.vals[i].show()),
            )
        }
        Err(e) => return v("operation-failed", format!("{what} {}: row {i}: {e}", s.name)),
    }
    let valid = s.array.with_dyn(|a| a.is_valid(i));
    if valid == s.vals[i].is_null() {
        return v("wrong-validity", format!("{what} {} ({}): row {i} is {} and valid is {valid}", s.name, s.array.encoding().id(), s.vals[i].show()));
    }
    Ok(())
}

fn cmp_ok(a: &Val, b: &Val, op: Operator) -> (bool, bool) {
    let by = |o: Option<Ordering>| match op {
        Operator::Eq => o == Some(Ordering::Equal),
        Operator::NotEq => o != Some(Ordering::Equal),
        Operator::Gt => o == Some(Ordering::Greater),
        Operator::Gte => matches!(o, Some(Ordering::Greater | Ordering::Equal)),
        Operator::Lt => o == Some(Ordering::Less),
        Operator::Lte => matches!(o, Some(Ordering::Less | Ordering::Equal)),
    };
    (by(total(a, b)), by(ieee(a, b)))
}

fn num_of(x: &Val) -> Option<f64> {
    match x {
        Val::F32(b) => Some(f32::from_bits(*b) as f64),
        Val::F64(b) => Some(f64::from_bits(*b)),
        _ => None,
    }
}

/// The value in another numeric type, if that type has it (floats rounded or cut, as usual).
fn cast_val(x: &Val, to: PType) -> Option<Val> {
    let (lo, hi) = int_bounds(to);
    match (x, to) {
        (Val::Null, _) => Some(Val::Null),
        (Val::Int(i), PType::F32) => Some(Val::F32((*i as f32).to_bits())),
        (Val::Int(i), PType::F64) => Some(Val::F64((*i as f64).to_bits())),
        (Val::Int(i), _) => (lo..=hi).contains(i).then_some(Val::Int(*i)),
        (_, PType::F32) => num_of(x).map(|f| Val::F32((f as f32).to_bits())),
        (_, PType::F64) => num_of(x).map(|f| Val::F64(f.to_bits())),
        _ => {
            let f = num_of(x)?.trunc();
            (f.is_finite() && f >= lo as f64 && f <= hi as f64 && (lo..=hi).contains(&(f as i128))).then_some(Val::Int(f as i128))
        }
    }
}

fn minus(x: &Val, y: &Val, p: PType) -> Val {
    match (x, y) {
        (Val::Int(a), Val::Int(b)) => {
            let (lo, hi) = int_bounds(p);
            let span = hi - lo + 1;
            Val::Int((a - b - lo).rem_euclid(span) + lo)
        }
        (Val::F16(a), Val::F16(b)) => Val::F16((f16::from_bits(*a) - f16::from_bits(*b)).to_bits()),
        (Val::F32(a), Val::F32(b)) => Val::F32((f32::from_bits(*a) - f32::from_bits(*b)).to_bits()),
        (Val::F64(a), Val::F64(b)) => Val::F64((f64::from_bits(*a) - f64::from_bits(*b)).to_bits()),
        _ => Val::Null,
    }
}

fn ordered(dt: &Dt) -> bool {
    matches!(dt.ty, Ty::Bool | Ty::Prim(_) | Ty::Utf8 | Ty::Binary)
}

fn same_values(p: &Val, q: &Val) -> bool {
    p == q || (is_nan(p) && is_nan(q) && std::mem::discriminant(p) == std::mem::discriminant(q))
}

struct Worker<'a> {
    me: usize,
    slots: Vec<Slot>,
    book: &'a Mutex<Book>,
    made: usize,
}

enum Step {
    Nothing(String),
    Made(Slot),
}

impl Worker<'_> {
    fn name(&mut self) -> String {
        self.made += 1;
        format!("{}.{}", self.me, self.made)
    }

    fn say(&self, s: String) {
        crate::ev!("{s}");
        self.book.lock().unwrap().log.push(format!("thread {}: {s}", self.me));
    }

    fn some_like(&self, dt: &Dt) -> Vec<usize> {
        (0..self.slots.len()).filter(|i| self.slots[*i].dt == *dt).collect()
    }

    fn index(&self, n: usize) -> (Array, Vec<usize>) {
        let m = gen(2 * n as u64 + 2).min(40) as usize;
        let mut idx: Vec<usize> = match gen(3) {
            0 => {
                let (lo, step) = (gen(n as u64) as usize, gen(4) as usize);
                (0..m).map(|i| (lo + i * step) % n).collect()
            }
            _ => (0..m).map(|_| gen(n as u64) as usize).collect(),
        };
        if gen_bool(1, 2) {
            idx.sort_unstable();
        }
        let at: Vec<Val> = idx.iter().map(|i| Val::Int(*i as i128)).collect();
        let top = idx.iter().max().copied().unwrap_or(0) as i128;
        let p = *pick(&[PType::U64, PType::U32, PType::U8, PType::I64, PType::U16, PType::I32, PType::I8, PType::I16]);
        let p = if top > int_bounds(p).1 { PType::U64 } else { p };
        let ia = match gen(3) {
            0 => build(&Dt::new(Ty::Prim(p), false), &at, 2),
            _ => build_prim(p, &at, Validity::NonNullable),
        };
        (ia, idx)
    }

    fn step(&mut self) -> Result<Step, V> {
        let k = gen(self.slots.len() as u64) as usize;
        let s = self.slots[k].clone();
        let (a, vals, n) = (&s.array, &s.vals, s.vals.len());
        let enc = a.encoding().id();
        let fail = |op: &str, e: VortexError| -> Result<Step, V> { v("operation-failed", format!("{op} of {} ({enc}, {}): {e}", s.name, s.dt.show())) };
        let nothing = |x: &str| -> Result<Step, V> { Ok(Step::Nothing(x.into())) };
        let name = self.name();
        let made = |dt: Dt, array: Array, vals: Vec<Val>, how: String| -> Result<Step, V> {
            Ok(Step::Made(Slot { name: format!("#{name} = {how}"), dt, array, vals: Arc::new(vals) }))
        };
        match gen(30) {
            // what is said of which rows there are
            26 | 27 => {
                let valid: Vec<bool> = vals.iter().map(|x| !x.is_null()).collect();
                let l = a.with_dyn(|x| x.logical_validity());
                let all = valid.iter().all(|x| *x);
                let none = !valid.iter().any(|x| *x);
                if l.len() != n || l.is_empty() != (n == 0) {
                    return v("wrong-length", format!("{} ({enc}) has the validity of {} rows", s.name, l.len()));
                }
                if (l.all_valid() && !all) || (l.all_invalid() && !none) {
                    return v("wrong-validity", format!("{} ({enc}): {l:?} of {}", s.name, crate::val::show_vals(vals, 20)));
                }
                let buf = match l.to_null_buffer() {
                    Ok(b) => b.map(|b| b.iter().collect::<Vec<bool>>()).unwrap_or(vec![true; n]),
                    Err(e) => return fail("null buffer", e),
                };
                let arr = match l.clone().into_array().into_bool() {
                    Ok(b) => b.boolean_buffer().iter().collect::<Vec<bool>>(),
                    Err(e) => return fail("validity", e),
                };
                let val = l.into_validity();
                let one: Vec<bool> = (0..n).map(|i| val.is_valid(i) && !val.is_null(i)).collect();
                for (what, got) in [("null buffer", buf), ("validity array", arr), ("validity", one)] {
                    if got != valid {
                        return v("wrong-validity", format!("{} ({enc}): the {what} is {got:?} of {}", s.name, crate::val::show_vals(vals, 20)));
                    }
                }
                nothing(&format!("looked at the nulls of {}", short(&s.name)))
            }
            // chunk after chunk
            28 => {
                let Ok(c) = ChunkedArray::try_from(a.clone()) else { return nothing("no chunks") };
                let (r, how) = match gen(2) {
                    0 => (c.array_iterator().collect::<Result<Vec<_>, _>>().and_then(|x| ChunkedArray::try_new(x, c.dtype().clone())), "iterated"),
                    _ => match crate::exec::block_on(c.array_stream().collect_chunked()) {
                        Ok(r) => (r, "collected"),
                        Err(e) => return v("stuck", format!("collecting {}: {e:?}", s.name)),
                    },
                };
                match r {
                    Ok(r) if r.nchunks() == c.nchunks() => made(s.dt.clone(), r.into_array(), vals.to_vec(), format!("{} {how}", short(&s.name))),
                    Ok(r) => v("wrong-length", format!("{} {how} has {} chunks and not {}", s.name, r.nchunks(), c.nchunks())),
                    Err(e) => fail(how, e),
                }
            }
            // to look at it does nothing
            29 => {
                let shown = format!("{} {:?} {}", a, a, a.tree_display()).len();
                let size = a.nbytes();
                nothing(&format!("showed {} in {} characters, {} bytes", short(&s.name), shown > 0, size > 0))
            }
            // the other ways to read: batches, and iterators over all rows
            22 => {
                let how = match read_batches(&s) {
                    Some(r) => {
                        r?;
                        "in batches"
                    }
                    None => {
                        read_rows(&s)?;
                        "row after row"
                    }
                };
                nothing(&format!("read {} {how}", short(&s.name)))
            }
            // functions of one and of two numbers
            23 | 24 => {
                let Ty::Prim(p) = s.dt.ty else { return nothing("no function") };
                if p == PType::F16 {
                    return nothing("no function");
                }
                let like: Vec<usize> =
                    (0..self.slots.len()).filter(|i| self.slots[*i].dt.ty == s.dt.ty && self.slots[*i].vals.len() == n).collect();
                let other = self.slots[*pick(&like)].clone();
                let pa = match a.clone().into_primitive() {
                    Ok(p) => p,
                    Err(e) => return fail("decode", e),
                };
                // the second as it is, if it can be iterated
                let rhs = if iterable(&other.array) { other.array.clone() } else {
                    match other.array.clone().into_primitive() {
                        Ok(p) => p.into_array(),
                        Err(e) => return fail("decode", e),
                    }
                };
                let one = gen_bool(1, 2);
                macro_rules! apply {
                    ($t:ty) => {
                        if one {
                            pa.unary::<$t, $t, _>(|x| !x)
                        } else {
                            pa.binary::<$t, $t, $t, _>(rhs.clone(), |x, y| x.wrapping_sub(y))
                        }
                    };
                }
                let r = match p {
                    PType::U8 => apply!(u8),
                    PType::U16 => apply!(u16),
                    PType::U32 => apply!(u32),
                    PType::U64 => apply!(u64),
                    PType::I8 => apply!(i8),
                    PType::I16 => apply!(i16),
                    PType::I32 => apply!(i32),
                    PType::F32 if one => pa.unary::<f32, f32, _>(|x| -x),
                    PType::F32 => pa.binary::<f32, f32, f32, _>(rhs.clone(), |x, y| x - y),
                    PType::F64 if one => pa.unary::<f64, f64, _>(|x| -x),
                    PType::F64 => pa.binary::<f64, f64, f64, _>(rhs.clone(), |x, y| x - y),
                    _ => apply!(i64),
                };
                let (lo, hi) = int_bounds(p);
                let not = |x: &Val| match x {
                    Val::F32(b) => Val::F32((-f32::from_bits(*b)).to_bits()),
                    Val::F64(b) => Val::F64((-f64::from_bits(*b)).to_bits()),
                    Val::Int(i) if lo == 0 => Val::Int(hi - i),
                    Val::Int(i) => Val::Int(-i - 1),
                    _ => Val::Null,
                };
                let w: Vec<Val> = if one {
                    vals.iter().map(not).collect()
                } else {
                    vals.iter().zip(other.vals.iter()).map(|(x, y)| minus(x, y, p)).collect()
                };
                let how = if one {
                    format!("not {} ({enc})", short(&s.name))
                } else {
                    format!("{} ({enc}) minus {} ({})", short(&s.name), short(&other.name), rhs.encoding().id())
                };
                match r {
                    Ok(x) => {
                        let d = Dt::new(s.dt.ty.clone(), x.dtype().is_nullable());
                        if is_float(p) {
                            return self.judge_floats(x, d, w, how);
                        }
                        made(d, x, w, how)
                    }
                    Err(e) => v("operation-failed", format!("{how}: {e}")),
                }
            }
            25 => {
                if s.dt.ty != Ty::Bool {
                    return nothing("no truth");
                }
                let r = match a.with_dyn(|x| x.as_bool_array().map(|x| x.true_count())) {
                    Some(t) => t,
                    None => return nothing("no truth"),
                };
                let t = vals.iter().filter(|x| **x == Val::Bool(true)).count();
                if r != t {
                    return v("wrong-count", format!("{} ({enc}): {r} rows are true and not {t}", s.name));
                }
                nothing(&format!("counted {}", short(&s.name)))
            }
            0 | 1 => {
                let lo = gen(n as u64 + 1) as usize;
                let hi = lo + gen((n - lo) as u64 + 1) as usize;
                match slice(a, lo, hi) {
                    Ok(x) => made(s.dt.clone(), x, vals[lo..hi].to_vec(), format!("{}[{lo}..{hi}]", short(&s.name))),
                    Err(e) => fail("slice", e),
                }
            }
            2 if n > 0 => {
                let (ia, idx) = self.index(n);
                match take(a, &ia) {
                    Ok(x) => made(s.dt.clone(), x, idx.iter().map(|i| vals[*i].clone()).collect(), format!("take {} {idx:?} ({})", short(&s.name), ia.encoding().id())),
                    Err(e) => fail("take", e),
                }
            }
            3 if n > 0 => {
                let den = gen_range(2, 5);
                let p = gen(0);
                let keep: Vec<bool> = (0..n).map(|i| crate::tape::mix(p, i as u64) % den == 0).collect();
                let m: Vec<Val> = keep.iter().map(|k| Val::Bool(*k)).collect();
                let mask = match gen(3) {
                    0 => build(&Dt::new(Ty::Bool, false), &m, 2),
                    _ => BoolArray::from_vec(keep.clone(), Validity::NonNullable).into_array(),
                };
                match filter(a, &mask) {
                    Ok(x) => made(
                        s.dt.clone(),
                        x,
                        vals.iter().zip(&keep).filter(|p| *p.1).map(|p| p.0.clone()).collect(),
                        format!("filter {} by {}", short(&s.name), mask.encoding().id()),
                    ),
                    Err(e) => fail("filter", e),
                }
            }
            // compare with a value or with another array
            4 | 5 if ordered(&s.dt) || s.dt.is_ext() => {
                let op = *pick(&[Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte]);
                let like: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].dt.ty == s.dt.ty).collect();
                let other = if n > 0 && gen_bool(1, 2) {
                    let c = vals[gen(n as u64) as usize].clone();
                    let other = Dt::new(s.dt.ty.clone(), s.dt.nullable);
                    let sc = if c.is_null() { Scalar::null(other.dtype()) } else { scalar(&other, &c) };
                    Slot { name: format!("#constant {}", c.show()), dt: other, array: ConstantArray::new(sc, n).into_array(), vals: Arc::new(vec![c; n]) }
                } else {
                    self.slots[*pick(&like)].clone()
                };
                let m = n.min(other.vals.len());
                let (Ok(x), Ok(y)) = (slice(a, 0, m), slice(&other.array, 0, m)) else { return nothing("nothing to compare") };
                let (x, y, xv, yv) = if gen_bool(1, 4) { (y, x, &other.vals, vals) } else { (x, y, vals, &other.vals) };
                let how = format!("{} {op} {} ({}, {} of {})", short(&s.name), short(&other.name), x.encoding().id(), y.encoding().id(), s.dt.show());
                let r = match compare(&x, &y, op) {
                    Ok(r) => r,
                    Err(e) if ordered(&s.dt) => return v("operation-failed", format!("{how}: {e}")),
                    Err(_) => return nothing("these do not compare"),
                };
                self.book.lock().unwrap().compared += 1;
                self.judge_bools(r, m, how, |i| {
                    if xv[i].is_null() || yv[i].is_null() {
                        return vec![Val::Null];
                    }
                    let (t, f) = cmp_ok(&xv[i], &yv[i], op);
                    vec![Val::Bool(t), Val::Bool(f)]
                })
            }
            6 if s.dt.ty == Ty::Bool => {
                let like: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].dt.ty == Ty::Bool).collect();
                let other = if n > 0 && gen_bool(1, 4) {
                    let c = vals[gen(n as u64) as usize].clone();
                    let sc = if c.is_null() { Scalar::null(s.dt.dtype()) } else { scalar(&s.dt, &c) };
                    Slot { name: format!("#constant {}", c.show()), dt: s.dt.clone(), array: ConstantArray::new(sc, n).into_array(), vals: Arc::new(vec![c; n]) }
                } else {
                    self.slots[*pick(&like)].clone()
                };
                let m = n.min(other.vals.len());
                let (Ok(x), Ok(y)) = (slice(a, 0, m), slice(&other.array, 0, m)) else { return nothing("nothing to combine") };
                let (x, y) = if gen_bool(1, 4) { (y, x) } else { (x, y) };
                let all = gen_bool(1, 2);
                let how = format!("{} {} {} ({}, {})", short(&s.name), if all { "and" } else { "or" }, short(&other.name), x.encoding().id(), y.encoding().id());
                let r = match if all { and(&x, &y) } else { or(&x, &y) } {
                    Ok(r) => r,
                    Err(e) => return v("operation-failed", format!("{how}: {e}")),
                };
                let (p, q) = (vals.clone(), other.vals.clone());
                // with a null on one side the other may settle it or not
                self.judge_bools(r, m, how, |i| match (&p[i], &q[i]) {
                    (Val::Bool(x), Val::Bool(y)) => vec![Val::Bool(if all { *x && *y } else { *x || *y })],
                    (Val::Bool(x), _) | (_, Val::Bool(x)) if *x != all => vec![Val::Null, Val::Bool(*x)],
                    _ => vec![Val::Null],
                })
            }
            7 => {
                let Ty::Prim(from) = s.dt.ty else { return nothing("no cast") };
                if from == PType::F16 {
                    return nothing("no cast");
                }
                let to = *pick(&[
                    PType::I64, PType::U64, PType::F64, PType::I32, PType::U32, PType::U8, PType::I8, PType::U16, PType::I16, PType::F32,
                ]);
                let nullable = if gen_bool(1, 4) { !s.dt.nullable } else { s.dt.nullable };
                let dt = Dt::new(Ty::Prim(to), nullable);
                match try_cast(a, &dt.dtype()) {
                    Ok(x) => {
                        let want: Option<Vec<Val>> =
                            vals.iter().map(|x| cast_val(x, to).filter(|x| nullable || !x.is_null())).collect();
                        let how = format!("{} ({enc}) as {}", short(&s.name), dt.show());
                        match want {
                            Some(w) if is_float(to) => self.judge_floats(x, dt, w, how),
                            Some(w) => made(dt, x, w, how),
                            None => v("wrong-rows", format!("{how}: not every value can be")),
                        }
                    }
                    Err(_) => nothing("this does not cast"),
                }
            }
            8 => match fill_forward(a) {
                Ok(x) => {
                    if !s.dt.nullable {
                        return made(s.dt.clone(), x, vals.to_vec(), format!("fill {}", short(&s.name)));
                    }
                    let mut last = match &s.dt.ty {
                        Ty::Bool => Val::Bool(false),
                        Ty::Prim(PType::F16) => Val::F16(0),
                        Ty::Prim(PType::F32) => Val::F32(0),
                        Ty::Prim(PType::F64) => Val::F64(0),
                        Ty::Prim(_) => Val::Int(0),
                        _ => return nothing("filled"),
                    };
                    let w = vals
                        .iter()
                        .map(|x| {
                            if !x.is_null() {
                                last = x.clone();
                            }
                            last.clone()
                        })
                        .collect();
                    made(s.dt.clone(), x, w, format!("fill {} ({enc})", short(&s.name)))
                }
                Err(_) => nothing("this does not fill"),
            },
            9 => {
                let Ty::Prim(p) = s.dt.ty else { return nothing("no subtraction") };
                let some: Vec<&Val> = vals.iter().filter(|x| !x.is_null()).collect();
                if some.is_empty() {
                    return nothing("nothing to subtract");
                }
                let y = match gen(3) {
                    0 if !is_float(p) => Val::Int(gen(3) as i128),
                    _ => (*pick(&some)).clone(),
                };
                let how = format!("{} - {} ({enc} of {})", short(&s.name), y.show(), s.dt.show());
                match subtract_scalar(a, &scalar(&s.dt, &y)) {
                    Ok(x) => {
                        let w = vals.iter().map(|x| minus(x, &y, p)).collect::<Vec<_>>();
                        if is_float(p) {
                            return self.judge_floats(x, s.dt.clone(), w, how);
                        }
                        made(s.dt.clone(), x, w, how)
                    }
                    Err(e) => v("operation-failed", format!("{how}: {e}")),
                }
            }
            10 if n > 0 && ordered(&s.dt) && s.dt.ty != Ty::Bool => {
                // in order by every order there is, nulls last
                let m = vals.iter().filter(|x| !x.is_null()).count();
                if m == 0 || vals[..m].iter().any(|x| x.is_null() || is_nan(x)) {
                    return nothing("not in order");
                }
                let (vals, whole) = (&vals[..m], vals);
                let sorted = vals.windows(2).all(|w| {
                    matches!(total(&w[0], &w[1]), Some(Ordering::Less | Ordering::Equal))
                        && matches!(ieee(&w[0], &w[1]), Some(Ordering::Less | Ordering::Equal))
                });
                if !sorted {
                    return nothing("not in order");
                }
                let x = match (&vals[gen(m as u64) as usize], &s.dt.ty) {
                    (Val::Int(i), Ty::Prim(p)) => {
                        let (lo, hi) = int_bounds(*p);
                        Val::Int((i + *pick(&[0i128, 1, -1, 1000, -1000])).clamp(lo, hi))
                    }
                    (x, _) => x.clone(),
                };
                let side = *pick(&[SearchSortedSide::Left, SearchSortedSide::Right]);
                let below = vals.iter().filter(|y| total(y, &x) == Some(Ordering::Less)).count();
                let upto = vals.iter().filter(|y| total(y, &x) != Some(Ordering::Greater)).count();
                // zeros of both signs may or may not be the same
                let below2 = vals.iter().filter(|y| ieee(y, &x) == Some(Ordering::Less)).count();
                let upto2 = vals.iter().filter(|y| ieee(y, &x) != Some(Ordering::Greater)).count();
                let want = |b: usize, u: usize| match side {
                    _ if b == u => SearchResult::NotFound(b),
                    SearchSortedSide::Left => SearchResult::Found(b),
                    SearchSortedSide::Right => SearchResult::Found(u),
                };
                let sc = scalar(&s.dt, &x);
                let u = if let Val::Int(i) = x { u64::try_from(i).ok() } else { None };
                let got = if let (Some(u), true) = (u.filter(|_| matches!(s.dt.ty, Ty::Prim(PType::U64))), gen_bool(1, 3)) {
                    match gen(2) {
                        0 => search_sorted_u64(a, u, side),
                        _ => search_sorted_u64_many(a, &[u, u], &[side, side]).map(|r| r[r.len() - 1]),
                    }
                } else if gen_bool(1, 3) {
                    search_sorted_many(a, &[sc.clone(), sc], &[side, side]).map(|r| r[r.len() - 1])
                } else {
                    search_sorted(a, sc, side)
                };
                match got {
                    Ok(g) if g == want(below, upto) || g == want(below2, upto2) => nothing(&format!("searched {} for {}", short(&s.name), x.show())),
                    Ok(g) => v(
                        "wrong-place",
                        format!(
                            "searching {} ({enc} of {}, {n} rows) for {} from the {side}: {g} and not {}; rows {}",
                            short(&s.name), s.dt.show(), x.show(), want(below, upto), crate::val::show_vals(whole, 20)
                        ),
                    ),
                    Err(e) => fail("search", e),
                }
            }
            11 => match a.clone().into_canonical() {
                Ok(c) => made(s.dt.clone(), c.into(), vals.to_vec(), format!("{} decoded", short(&s.name))),
                Err(e) => fail("decode", e),
            },
            12 => {
                let r = match a.clone().into_canonical().and_then(|c| c.into_arrow()) {
                    Ok(r) => r,
                    Err(e) => return fail("export to Arrow", e),
                };
                let x = Array::from_arrow(r.clone(), s.dt.nullable || s.dt.ty == Ty::Null);
                self.book.lock().unwrap().arrows.push((r, s.clone()));
                made(s.dt.clone(), x, vals.to_vec(), format!("{} ({enc}) by way of Arrow", short(&s.name)))
            }
            13 => {
                let (c, d) = gen_compressor();
                match c.compress(a, None) {
                    Ok(x) => made(s.dt.clone(), x.into_array(), vals.to_vec(), format!("{} compressed with {d}", short(&s.name))),
                    Err(e) => fail("compress", e),
                }
            }
            14 => {
                let x = through_stream(a)?;
                made(s.dt.clone(), x, vals.to_vec(), format!("{} streamed", short(&s.name)))
            }
            15 => {
                let like = self.some_like(&s.dt);
                let ks: Vec<usize> = (0..gen_range(1, 3)).map(|_| *pick(&like)).collect();
                let total: usize = ks.iter().map(|k| self.slots[*k].vals.len()).sum();
                if total > 3000 {
                    return nothing("too many rows");
                }
                match ChunkedArray::try_new(ks.iter().map(|k| self.slots[*k].array.clone()).collect(), s.dt.dtype()) {
                    Ok(c) => {
                        let c = match gen(3) {
                            0 => match c.rechunk(*pick(&[1usize, 64, 1 << 24]), 1 + gen(n as u64 + 2) as usize) {
                                Ok(c) => c,
                                Err(e) => return fail("rechunk", e),
                            },
                            _ => c,
                        };
                        let w = ks.iter().flat_map(|k| self.slots[*k].vals.iter().cloned()).collect();
                        let names: Vec<_> = ks.iter().map(|k| short(&self.slots[*k].name)).collect();
                        made(s.dt.clone(), c.into_array(), w, format!("chunks {names:?}"))
                    }
                    Err(e) => fail("chunk", e),
                }
            }
            16 => {
                let like: Vec<usize> =
                    (0..self.slots.len()).filter(|i| self.slots[*i].vals.len() == n && !matches!(self.slots[*i].dt.ty, Ty::Struct(_) | Ty::Null)).collect();
                if like.is_empty() {
                    return nothing("nothing to put together");
                }
                let ks: Vec<usize> = (0..gen_range(1, 3)).map(|_| *pick(&like)).collect();
                let fs: Vec<(String, Dt)> = ks.iter().enumerate().map(|(i, k)| (format!("c{i}"), self.slots[*k].dt.clone())).collect();
                let st = StructArray::try_new(
                    fs.iter().map(|f| f.0.as_str().into()).collect::<Vec<Arc<str>>>().into(),
                    ks.iter().map(|k| self.slots[*k].array.clone()).collect(),
                    n,
                    Validity::NonNullable,
                );
                let st = match st {
                    Ok(st) => st,
                    Err(e) => return fail("struct", e),
                };
                let w = (0..n).map(|r| Val::Struct(ks.iter().map(|k| self.slots[*k].vals[r].clone()).collect())).collect();
                let names: Vec<_> = ks.iter().map(|k| short(&self.slots[*k].name)).collect();
                made(Dt::new(Ty::Struct(fs), false), st.into_array(), w, format!("struct {names:?}"))
            }
            17 => {
                let Ty::Struct(fs) = &s.dt.ty else { return nothing("no struct") };
                if fs.is_empty() || vals.iter().any(Val::is_null) || s.dt.nullable {
                    return nothing("no plain struct");
                }
                let st = match a.clone().into_struct() {
                    Ok(st) => st,
                    Err(e) => return fail("as struct", e),
                };
                let i = gen(fs.len() as u64) as usize;
                let of = |r: &Val, i: usize| match r {
                    Val::Struct(x) => x[i].clone(),
                    _ => Val::Null,
                };
                if gen_bool(1, 2) {
                    let f = if gen_bool(1, 2) { st.field(i) } else { st.field_by_name(&fs[i].0) };
                    let Some(f) = f else { return v("wrong-type", format!("{} has no field {i}", s.name)) };
                    return made(fs[i].1.clone(), f, vals.iter().map(|r| of(r, i)).collect(), format!("field {i} of {}", short(&s.name)));
                }
                let j = gen(fs.len() as u64) as usize;
                if i == j {
                    return nothing("no projection");
                }
                let by = if gen_bool(1, 2) { vec![Field::Index(i), Field::Index(j)] } else { vec![Field::from(fs[i].0.as_str()), Field::from(fs[j].0.as_str())] };
                match st.project(&by) {
                    Ok(p) => made(
                        Dt::new(Ty::Struct(vec![fs[i].clone(), fs[j].clone()]), false),
                        p.into_array(),
                        vals.iter().map(|r| Val::Struct(vec![of(r, i), of(r, j)])).collect(),
                        format!("fields {i}, {j} of {}", short(&s.name)),
                    ),
                    Err(e) => fail("project", e),
                }
            }
            // whoever takes the values out may write into them
            18 => {
                let Ty::Prim(p) = s.dt.ty else {
                    if let Some(b) = self.taken(k, &s).into_buffer() {
                        if let Ok(mut b) = b.into_vec::<u8>() {
                            b.iter_mut().for_each(|x| *x = !*x);
                            self.book.lock().unwrap().wrote += 1;
                        }
                    }
                    return nothing(&format!("wrote into what was in {}", short(&s.name)));
                };
                let a = self.taken(k, &s);
                drop(s.array);
                let pa = match a.into_primitive() {
                    Ok(p) => p,
                    Err(e) => return v("operation-failed", format!("decoding {}: {e}", s.name)),
                };
                macro_rules! scribble {
                    ($t:ty, $x:expr) => {{
                        let mut w = pa.into_maybe_null_slice::<$t>();
                        w.iter_mut().for_each(|x| *x = $x);
                    }};
                }
                match p {
                    PType::U8 => scribble!(u8, 0xA5),
                    PType::U16 => scribble!(u16, 0xA5A5),
                    PType::U32 => scribble!(u32, 0xA5A5_A5A5),
                    PType::U64 => scribble!(u64, 0xA5A5_A5A5_A5A5_A5A5),
                    PType::I8 => scribble!(i8, -91),
                    PType::I16 => scribble!(i16, -23131),
                    PType::I32 => scribble!(i32, -1515870811),
                    PType::I64 => scribble!(i64, -1515870811),
                    PType::F16 => scribble!(f16, f16::from_bits(0xA5A5)),
                    PType::F32 => scribble!(f32, -77.5),
                    PType::F64 => scribble!(f64, -77.5),
                }
                self.book.lock().unwrap().wrote += 1;
                nothing(&format!("wrote over what was in {}", short(&s.name)))
            }
            19 => {
                let Ty::Prim(p) = s.dt.ty else { return nothing("no patches") };
                let some: Vec<Val> = vals.iter().filter(|x| !x.is_null()).cloned().collect();
                if n == 0 || some.is_empty() {
                    return nothing("no patches");
                }
                let mut at: Vec<usize> = (0..gen(6)).map(|_| gen(n as u64) as usize).collect();
                at.sort_unstable();
                at.dedup();
                let with: Vec<Val> = at.iter().map(|_| pick(&some).clone()).collect();
                let mut w = vals.to_vec();
                for (i, x) in at.iter().zip(&with) {
                    if !w[*i].is_null() {
                        w[*i] = x.clone();
                    }
                }
                let a = self.taken(k, &s);
                let pos: Vec<u64> = at.iter().map(|i| *i as u64).collect();
                let pa = match a.into_primitive() {
                    Ok(p) => p,
                    Err(e) => return v("operation-failed", format!("decoding {}: {e}", s.name)),
                };
                macro_rules! patch {
                    ($t:ty, $f:expr) => {
                        pa.patch::<u64, $t>(&pos, &with.iter().map($f).collect::<Vec<$t>>())
                    };
                }
                let int = |x: &Val| if let Val::Int(i) = x { *i } else { 0 };
                let r = match p {
                    PType::U8 => patch!(u8, |x| int(x) as u8),
                    PType::U16 => patch!(u16, |x| int(x) as u16),
                    PType::U32 => patch!(u32, |x| int(x) as u32),
                    PType::U64 => patch!(u64, |x| int(x) as u64),
                    PType::I8 => patch!(i8, |x| int(x) as i8),
                    PType::I16 => patch!(i16, |x| int(x) as i16),
                    PType::I32 => patch!(i32, |x| int(x) as i32),
                    PType::I64 => patch!(i64, |x| int(x) as i64),
                    PType::F32 => patch!(f32, |x| if let Val::F32(b) = x { f32::from_bits(*b) } else { 0.0 }),
                    PType::F64 => patch!(f64, |x| if let Val::F64(b) = x { f64::from_bits(*b) } else { 0.0 }),
                    PType::F16 => return nothing("no patches"),
                };
                match r {
                    Ok(x) => made(s.dt.clone(), x.into_array(), w, format!("{} with other rows at {at:?}", short(&s.name))),
                    Err(e) => v("operation-failed", format!("patching {}: {e}", s.name)),
                }
            }
            20 => {
                if gen_bool(1, 2) || self.slots.len() < 2 {
                    self.book.lock().unwrap().board.push(s.clone());
                    return nothing(&format!("let others have {}", short(&s.name)));
                }
                self.slots.swap_remove(k);
                nothing(&format!("let go of {}", short(&s.name)))
            }
            _ => {
                let got = {
                    let b = self.book.lock().unwrap();
                    let n = b.board.len();
                    (n > 0).then(|| b.board[gen(n as u64) as usize].clone())
                };
                match got {
                    Some(x) => {
                        holds("what another thread made,", &x)?;
                        let n = short(&x.name).to_string();
                        self.slots.push(x);
                        nothing(&format!("took over {n}"))
                    }
                    None => nothing("nothing there"),
                }
            }
        }
    }

    /// The array, no longer held by this thread if there are others.
    fn taken(&mut self, k: usize, s: &Slot) -> Array {
        if self.slots.len() > 1 && gen_bool(1, 2) {
            self.slots.swap_remove(k).array
        } else {
            s.array.clone()
        }
    }

    /// Truth values, each one of those allowed.
    fn judge_bools(&mut self, r: Array, n: usize, how: String, want: impl Fn(usize) -> Vec<Val>) -> Result<Step, V> {
        let DType::Bool(nullability) = r.dtype() else {
            return v("wrong-type", format!("{how} is of {}", r.dtype()));
        };
        let nullable = *nullability == vortex_dtype::Nullability::Nullable;
        let got = match decode(&r) {
            Ok(g) => g,
            Err(e) => return v("operation-failed", format!("{how} cannot be decoded: {e}")),
        };
        if got.len() != n || r.len() != n {
            return v("wrong-length", format!("{how} has {} rows and not {n}", r.len()));
        }
        for (i, g) in got.iter().enumerate() {
            let w = want(i);
            if !w.contains(g) {
                return v("wrong-rows", format!("{how}: row {i} is {} and not {}", g.show(), w[0].show()));
            }
        }
        if !nullable && got.iter().any(Val::is_null) {
            return v("wrong-type", format!("{how} has nulls and is of {}", r.dtype()));
        }
        Ok(Step::Made(Slot { name: format!("#{}.{} = {how}", self.me, self.made), dt: Dt::new(Ty::Bool, nullable), array: r, vals: Arc::new(got) }))
    }

    /// Numbers, where one NaN is as good as another.
    fn judge_floats(&mut self, r: Array, dt: Dt, want: Vec<Val>, how: String) -> Result<Step, V> {
        let got = match decode(&r) {
            Ok(g) => g,
            Err(e) => return v("operation-failed", format!("{how} cannot be decoded: {e}")),
        };
        if got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same_values(g, w)) {
            let name = format!("#{}.{} = {how}", self.me, self.made);
            return Ok(Step::Made(Slot { name, dt, array: r, vals: Arc::new(got) }));
        }
        v("wrong-rows", format!("{how}: {}", first_diff(&got, &want)))
    }

    fn work(&mut self, steps: u64) -> Res {
        for _ in 0..steps {
            if self.slots.is_empty() {
                return Ok(());
            }
            match self.step()? {
                Step::Nothing(s) => self.say(s),
                Step::Made(s) => {
                    self.say(format!("{} ({} of {}, {} rows)", s.name, s.array.encoding().id(), s.dt.show(), s.vals.len()));
                    holds("", &s)?;
                    for _ in 0..2 {
                        if !s.vals.is_empty() {
                            holds_at("", &s, gen(s.vals.len() as u64) as usize)?;
                        }
                    }
                    if s.vals.len() <= 3000 {
                        self.book.lock().unwrap().derived += 1;
                        self.slots.push(s);
                    }
                }
            }
            self.book.lock().unwrap().ops += 1;
            if !self.slots.is_empty() {
                // nothing that was there has changed
                let k = gen(self.slots.len() as u64) as usize;
                holds("still", &self.slots[k])?;
            }
            yield_here();
        }
        for s in &self.slots {
            holds("in the end", s)?;
        }
        Ok(())
    }
}

macro_rules! with_batches {
    ($s:expr, $iter:ident, $f:expr) => {{
        let it = $s.array.with_dyn(|a| a.as_primitive_array().and_then(|p| p.$iter()))?;
        let mut got = Vec::new();
        for b in it {
            got.extend(b.into_iter().map(|x| x.map($f).unwrap_or(Val::Null)));
        }
        Some(if got == *$s.vals {
            Ok(())
        } else {
            v("wrong-rows", format!("{} ({}) read in batches: {}", $s.name, $s.array.encoding().id(), first_diff(&got, &$s.vals)))
        })
    }};
}

fn iterable(a: &Array) -> bool {
    let DType::Primitive(p, _) = a.dtype() else { return false };
    a.with_dyn(|a| {
        let Some(a) = a.as_primitive_array() else { return false };
        match p {
            PType::U8 => a.u8_iter().is_some(),
            PType::U16 => a.u16_iter().is_some(),
            PType::U32 => a.u32_iter().is_some(),
            PType::U64 => a.u64_iter().is_some(),
            PType::I8 => a.i8_iter().is_some(),
            PType::I16 => a.i16_iter().is_some(),
            PType::I32 => a.i32_iter().is_some(),
            PType::I64 => a.i64_iter().is_some(),
            PType::F32 => a.f32_iter().is_some(),
            PType::F64 => a.f64_iter().is_some(),
            PType::F16 => false,
        }
    })
}

/// Numbers through the vectorized iterator, if the encoding has one.
fn read_batches(s: &Slot) -> Option<Res> {
    let Ty::Prim(p) = s.dt.ty else { return None };
    match p {
        PType::U8 => with_batches!(s, u8_iter, |x| Val::Int(x as i128)),
        PType::U16 => with_batches!(s, u16_iter, |x| Val::Int(x as i128)),
        PType::U32 => with_batches!(s, u32_iter, |x| Val::Int(x as i128)),
        PType::U64 => with_batches!(s, u64_iter, |x| Val::Int(x as i128)),
        PType::I8 => with_batches!(s, i8_iter, |x| Val::Int(x as i128)),
        PType::I16 => with_batches!(s, i16_iter, |x| Val::Int(x as i128)),
        PType::I32 => with_batches!(s, i32_iter, |x| Val::Int(x as i128)),
        PType::I64 => with_batches!(s, i64_iter, |x| Val::Int(x as i128)),
        PType::F32 => with_batches!(s, f32_iter, |x| Val::F32(x.to_bits())),
        PType::F64 => with_batches!(s, f64_iter, |x| Val::F64(x.to_bits())),
        PType::F16 => None,
    }
}

/// Through the accessors of the decoded encodings.
fn read_rows(s: &Slot) -> Res {
    let bytes = |it: &mut dyn Iterator<Item = Option<&[u8]>>| -> Vec<Val> {
        it.map(|x| x.map(|b| Val::Bytes(b.to_vec())).unwrap_or(Val::Null)).collect()
    };
    let got = match &s.dt.ty {
        Ty::Utf8 | Ty::Binary => match VarBinArray::try_from(s.array.clone()) {
            Ok(a) => ArrayAccessor::<[u8]>::with_iterator(&a, bytes),
            Err(_) => s.array.clone().into_varbinview().and_then(|a| ArrayAccessor::<[u8]>::with_iterator(&a, bytes)),
        },
        Ty::Bool => s.array.clone().into_bool().and_then(|a| {
            ArrayAccessor::<bool>::with_iterator(&a, |it| it.map(|x| x.map(|b| Val::Bool(*b)).unwrap_or(Val::Null)).collect())
        }),
        Ty::Prim(PType::I64) => s.array.clone().into_primitive().and_then(|a| {
            ArrayAccessor::<i64>::with_iterator(&a, |it| it.map(|x| x.map(|b| Val::Int(*b as i128)).unwrap_or(Val::Null)).collect())
        }),
        _ => return Ok(()),
    };
    match got {
        Ok(g) if g == *s.vals => Ok(()),
        Ok(g) => v("wrong-rows", format!("{} ({}) read row after row: {}", s.name, s.array.encoding().id(), first_diff(&g, &s.vals))),
        Err(e) => v("operation-failed", format!("reading {} row after row: {e}", s.name)),
    }
}

fn short(name: &str) -> &str {
    name.split(" = ").next().unwrap_or(name)
}

fn t03() -> Res {
    world::swarm();
    let n = gen_range(1, 4) as usize;
    let dt = gen_dt(TYPES);
    let rows = if gen_bool(1, 10) { gen_rows(2500) } else { gen_rows(200) };
    let mut pop: Vec<Slot> = Vec::new();
    for i in 0..n {
        // several of one type, so that they can be combined; some in order
        let d = match gen(4) {
            0 => gen_dt(TYPES),
            1 => Dt::new(dt.ty.clone(), !dt.nullable || matches!(dt.ty, Ty::Null)),
            _ => dt.clone(),
        };
        let r = if gen_bool(3, 4) { rows } else { gen_rows(200) };
        let mut vals = match pop.first() {
            Some(p) if p.dt == d && gen_bool(1, 2) => more_like(&d, &p.vals, r),
            _ => gen_col(&d, r),
        };
        if ordered(&d) && gen_bool(1, 3) {
            vals.sort_by(|a, b| total(a, b).unwrap_or(b.is_null().cmp(&a.is_null())));
        }
        let depth = gen(3) as u32;
        let array = build(&d, &vals, depth);
        pop.push(Slot { name: format!("#{i}"), dt: d, array, vals: Arc::new(vals) });
    }
    for s in &pop {
        holds("at first", s)?;
    }
    let threads = gen_range(1, 3) as usize;
    let keep = gen_bool(1, 2);
    let desc = format!(
        "{}; {threads} threads",
        pop.iter().map(|p| format!("{} ({} of {}, {} rows)", p.name, p.array.encoding().id(), p.dt.show(), p.vals.len())).collect::<Vec<_>>().join(", ")
    );
    crate::ev!("{desc}");
    set_sample(desc.clone());
    let plans: Vec<(u64, Vec<u64>)> = (0..threads).map(|_| (gen_range(1, 12), (0..220).map(|_| gen(0)).collect())).collect();
    let book = Arc::new(Mutex::new(Book::default()));
    let digests = Arc::new(Mutex::new(vec![0u64; threads]));
    let jobs: Vec<Box<dyn FnOnce() + Send>> = plans
        .into_iter()
        .enumerate()
        .map(|(me, (steps, tape))| {
            let (book, slots, digests) = (book.clone(), pop.clone(), digests.clone());
            Box::new(move || {
                // a world of its own for what this thread decides
                world::install(Tapes::replay([tape, vec![], vec![]]), false);
                let r = Worker { me, slots, book: &book, made: 0 }.work(steps);
                let w = world::uninstall();
                digests.lock().unwrap()[me] = w.digest;
                if let Err(e) = r {
                    book.lock().unwrap().first.get_or_insert(e);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let kept = if keep { pop } else { drop(pop); vec![] };
    let end = run_threads(jobs, gen_bool(1, 2));
    let history = || {
        let b = book.lock().unwrap();
        format!("{desc}; {}", b.log.join("; "))
    };
    match end {
        End::Finished => {}
        End::Deadlock(d) => return v("deadlock", format!("{d}; {}", history())),
        End::Stuck(d) => return v("stuck", format!("{d}; {}", history())),
        End::Panicked(loc, msg) => {
            return v(format!("panic@{}", crate::runner::strip_line(&loc)), format!("panicked at {loc}: {msg}; after {}", history()))
        }
    }
    for d in digests.lock().unwrap().iter() {
        crate::ev!("thread did {d:016x}");
    }
    let after = |e: V| V { class: e.class, detail: format!("{} after {}", e.detail, history()) };
    let first = book.lock().unwrap().first.take();
    if let Some(e) = first {
        return Err(after(e));
    }
    let (board, arrows) = {
        let mut b = book.lock().unwrap();
        (std::mem::take(&mut b.board), std::mem::take(&mut b.arrows))
    };
    for s in kept.iter().chain(&board) {
        holds("when all is done,", s).map_err(after)?;
        for i in 0..s.vals.len().min(3) {
            holds_at("when all is done,", s, i).map_err(after)?;
        }
    }
    for (r, s) in arrows {
        let array = Array::from_arrow(r, s.dt.nullable || s.dt.ty == Ty::Null);
        holds("what Arrow was given of", &Slot { array, ..s }).map_err(after)?;
    }
    let b = book.lock().unwrap();
    world::probe_n("operations", b.ops);
    world::probe_n("arrays_derived", b.derived);
    world::probe_n("comparisons", b.compared);
    world::probe_n("values_overwritten", b.wrote);
    if b.derived > 0 {
        probe("nontrivial");
    }
    Ok(())
}

pub const T03: Prop = Prop {
    id: "T03",
    run: t03,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1500,
    level: "simulated",
    rule: "one run lets 1-3 real threads apply drawn histories of operations (slices, takes, filters, comparisons, logic, casts, subtraction, filling, searches, decoding, Arrow exports, compression, transfers, chunking, structs, patches, overwriting of values taken out, letting go and passing on) to arrays that share buffers, judges every result against plain rows, and that nothing else changed; non-trivial if an array was derived; distinct by event digest (which includes the schedule)",
    real: &["vortex-array compute kernels and encodings of all crates, buffers and their reuse, Arrow conversion, sampling compressor, stream writer and reader"],
    stub: &["thread scheduler (simulator), byte transport (simulator)", "random source of the sampler and of hash maps (simulator)"],
    assumptions: &[
        "threads interleave between operations and at lock operations; safe Rust leaves no other communication",
        "floats may follow IEEE or total order; and/or with a null on one side may be settled by the other or be null",
        "casts, comparisons of extension types and forward filling may be declined; what they return must be right",
    ],
};
