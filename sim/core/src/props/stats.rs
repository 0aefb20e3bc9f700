//! Statistics: whatever an array says about itself is true of its values.

use std::cmp::Ordering;

use bytes::Bytes;
use futures::TryStreamExt;
use vortex::array::{BoolArray, ChunkedArray, ConstantArray, StructArray};
use vortex::compute::unary::{fill_forward, scalar_at, try_cast};
use vortex::compute::{and, compare, filter, or, slice, take, Operator};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::validity::Validity;
use vortex::variants::StructArrayTrait;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;
use vortex_serde::layouts::{LayoutReaderBuilder, LayoutWriter};

use super::compress::through_stream;
use crate::comp::gen_compressor;
use crate::exec::block_on;
use crate::file::{deserializer, set_sample, stalled};
use crate::gen::{gen_col, gen_dt, gen_rows, more_like, TyOpts};
use crate::io::{SimSink, SimStore, SinkMode};
use crate::runner::{v, Prop, Res, V};
use crate::val::{build, build_prim, decode, from_scalar, show_vals, Dt, Ty, Val};
use crate::world::{self, gen, gen_bool, gen_range, pick, probe};

pub const STATS: [Stat; 10] = [
    Stat::Min,
    Stat::Max,
    Stat::NullCount,
    Stat::TrueCount,
    Stat::IsConstant,
    Stat::IsSorted,
    Stat::IsStrictSorted,
    Stat::RunCount,
    Stat::BitWidthFreq,
    Stat::TrailingZeroFreq,
];

/// The total order of the values (floats by sign, then magnitude, NaN outermost).
pub(super) fn total(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::Bool(x), Val::Bool(y)) => Some(x.cmp(y)),
        (Val::Int(x), Val::Int(y)) => Some(x.cmp(y)),
        (Val::Bytes(x), Val::Bytes(y)) => Some(x.cmp(y)),
        (Val::F16(x), Val::F16(y)) => {
            Some(vortex_dtype::half::f16::from_bits(*x).total_cmp(&vortex_dtype::half::f16::from_bits(*y)))
        }
        (Val::F32(x), Val::F32(y)) => Some(f32::from_bits(*x).total_cmp(&f32::from_bits(*y))),
        (Val::F64(x), Val::F64(y)) => Some(f64::from_bits(*x).total_cmp(&f64::from_bits(*y))),
        _ => None,
    }
}

pub(super) fn ieee(a: &Val, b: &Val) -> Option<Ordering> {
    match (a, b) {
        (Val::F16(x), Val::F16(y)) => {
            vortex_dtype::half::f16::from_bits(*x).partial_cmp(&vortex_dtype::half::f16::from_bits(*y))
        }
        (Val::F32(x), Val::F32(y)) => f32::from_bits(*x).partial_cmp(&f32::from_bits(*y)),
        (Val::F64(x), Val::F64(y)) => f64::from_bits(*x).partial_cmp(&f64::from_bits(*y)),
        _ => total(a, b),
    }
}

pub(super) fn is_nan(v: &Val) -> bool {
    ieee(v, v).is_none()
}

/// Whether `got` is an extreme of the values, in either order of floats.
fn extreme(got: &Val, some: &[&Val], want: Ordering) -> bool {
    let best = |f: fn(&Val, &Val) -> Option<Ordering>, xs: &[&Val]| -> bool {
        xs.iter().any(|x| *x == got || f(x, got) == Some(Ordering::Equal))
            && xs.iter().all(|x| matches!(f(got, x), Some(o) if o == want || o == Ordering::Equal))
    };
    // which of several NaNs is not a matter of order to a user
    if is_nan(got) {
        return some.iter().any(|x| is_nan(x));
    }
    let numbers: Vec<&Val> = some.iter().copied().filter(|x| !is_nan(x)).collect();
    best(total, some) || (!numbers.is_empty() && best(ieee, &numbers))
}

fn num(v: &Val) -> Option<i128> {
    match v {
        Val::Int(i) => Some(*i),
        _ => None,
    }
}

/// Every statistic the array offers right now, against its values.
pub fn judge(what: &str, a: &Array, vals: &[Val]) -> Res {
    let set = a.statistics();
    let offers: Vec<(Stat, Scalar)> = STATS.iter().filter_map(|s| set.get(*s).map(|sc| (*s, sc))).collect();
    judge_claims(what, a, vals, &offers)
}

fn show_scalar(s: &Scalar) -> String {
    // lists (of frequencies) have no value in the reference model
    from_scalar(s).map(|v| v.show()).unwrap_or_else(|_| format!("{:?}", s.value()))
}

/// Claims about the array, against its values.
pub fn judge_claims(what: &str, a: &Array, vals: &[Val], claims: &[(Stat, Scalar)]) -> Res {
    let some: Vec<&Val> = vals.iter().filter(|x| !x.is_null()).collect();
    let nulls = vals.len() - some.len();
    for (s, sc) in claims {
        let s = *s;
        let bad = |why: String| -> Res {
            v(
                format!("false-{}", s.to_string().replace('_', "-")),
                format!("{what} ({} of {}, {} rows): {s} is said to be {}, {why}; rows: {}", a.encoding().id(), a.dtype(), vals.len(), show_scalar(sc), show_vals(vals, 12)),
            )
        };
        probe("stats-judged");
        match s {
            Stat::Min | Stat::Max => {
                if matches!(a.dtype(), DType::Struct(..) | DType::Null) {
                    continue;
                }
                let got = match from_scalar(sc) {
                    Ok(x) => x,
                    Err(e) => return bad(format!("which cannot be read: {e}")),
                };
                if got.is_null() {
                    if !some.is_empty() {
                        return bad("though there are values".into());
                    }
                    continue;
                }
                if some.is_empty() {
                    return bad("of no values".into());
                }
                let want = if s == Stat::Min { Ordering::Less } else { Ordering::Greater };
                if !extreme(&got, &some, want) {
                    return bad("which is not it".into());
                }
            }
            Stat::NullCount => {
                if from_scalar(sc).ok().as_ref().and_then(num) != Some(nulls as i128) {
                    return bad(format!("there are {nulls}"));
                }
            }
            Stat::TrueCount => {
                if !matches!(a.dtype(), DType::Bool(_)) {
                    continue;
                }
                let t = some.iter().filter(|x| ***x == Val::Bool(true)).count();
                if from_scalar(sc).ok().as_ref().and_then(num) != Some(t as i128) {
                    return bad(format!("there are {t}"));
                }
            }
            Stat::IsConstant => {
                let Ok(Val::Bool(said)) = from_scalar(sc) else { return bad("not a truth value".into()) };
                let is = some.is_empty() || (nulls == 0 && some.iter().all(|x| *x == some[0]));
                if said && !is {
                    return bad("and it is not".into());
                }
                if !said && is && nulls == 0 && !vals.is_empty() && !is_nan(some[0]) {
                    return bad("and it is".into());
                }
            }
            Stat::IsSorted | Stat::IsStrictSorted => {
                if matches!(a.dtype(), DType::Struct(..) | DType::Null) {
                    continue;
                }
                let Ok(Val::Bool(said)) = from_scalar(sc) else { return bad("not a truth value".into()) };
                let strict = s == Stat::IsStrictSorted;
                let ok = |f: fn(&Val, &Val) -> Option<Ordering>| {
                    some.windows(2).all(|w| match f(w[0], w[1]) {
                        None => true,
                        Some(Ordering::Less) => true,
                        Some(Ordering::Equal) => !strict,
                        Some(Ordering::Greater) => false,
                    })
                };
                let (t, i) = (ok(total), ok(ieee));
                if said && !t && !i {
                    return bad("and it is not".into());
                }
                if !said && t && i && nulls == 0 && !vals.is_empty() {
                    return bad("and it is".into());
                }
            }
            // how many runs or bits: estimates for the compressor
            Stat::RunCount | Stat::BitWidthFreq | Stat::TrailingZeroFreq => {}
        }
    }
    Ok(())
}

/// The array itself against the reference, and every array inside it against its own values.
pub(super) fn judge_all(what: &str, a: &Array, vals: &[Val]) -> Res {
    judge(what, a, vals)?;
    for (i, c) in a.depth_first_traversal().enumerate().skip(1) {
        if STATS.iter().all(|s| c.statistics().get(*s).is_none()) {
            continue;
        }
        let Ok(own) = decode(&c) else { continue };
        if own.len() == c.len() {
            judge(&format!("{what}, part {i}"), &c, &own)?;
        }
    }
    Ok(())
}

/// Writes the array as a column of a file and reads it back.
fn through_file(a: &Array) -> Result<Array, V> {
    let st = StructArray::try_new(["x".into()].into(), vec![a.clone()], a.len(), Validity::NonNullable)
        .expect("struct")
        .into_array();
    let sink = SimSink::new(SinkMode::Direct);
    let state = sink.state.clone();
    let w = block_on(async { LayoutWriter::new(sink).write_array_columns(st).await?.finalize().await });
    match w {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return v("unwritable", format!("cannot be written: {e}")),
        Err(s) => return stalled(s),
    }
    let bytes = Bytes::from(state.lock().unwrap().durable.clone());
    let mut b = LayoutReaderBuilder::new(SimStore::new(bytes), deserializer());
    if gen_bool(1, 2) {
        b = b.with_batch_size(1 + gen(a.len() as u64 + 2) as usize);
    }
    let out = block_on(async { b.build().await?.try_collect::<Vec<Array>>().await });
    match out {
        Ok(Ok(bs)) => {
            let mut cols = Vec::new();
            for b in bs {
                let s = match b.into_struct() {
                    Ok(s) => s,
                    Err(e) => return v("unreadable", e.to_string()),
                };
                match s.field(0) {
                    Some(c) => cols.push(c),
                    None => return v("unreadable", "no column"),
                }
            }
            Ok(ChunkedArray::try_new(cols, a.dtype().clone()).expect("chunks").into_array())
        }
        Ok(Err(e)) => v("unreadable", format!("cannot be read back: {e}")),
        Err(s) => stalled(s),
    }
}

pub(super) const TYPES: TyOpts = TyOpts { f16: true, nested: true, ext: true, null: true, binary: true, null_structs: true };

/// Something computed of an array, if the array can have it computed.
fn compute_of(dt: &Dt, a: &Array, vals: &[Val]) -> Option<(Array, &'static str)> {
    let n = vals.len();
    match gen(4) {
        0 => fill_forward(a).ok().map(|x| (x, "fill forward")),
        1 => {
            let wider = match &dt.ty {
                Ty::Prim(p) if p.is_unsigned_int() => DType::Primitive(PType::U64, a.dtype().nullability()),
                Ty::Prim(p) if p.is_signed_int() => DType::Primitive(PType::I64, a.dtype().nullability()),
                _ => a.dtype().clone(),
            };
            try_cast(a, &if gen_bool(1, 2) { wider.as_nullable() } else { wider }).ok().map(|x| (x, "cast of"))
        }
        _ if n > 0 && matches!(dt.ty, Ty::Prim(_) | Ty::Utf8 | Ty::Binary) => {
            let half = |i: usize, op| {
                let c = scalar_at(a, i).ok()?;
                compare(a, ConstantArray::new(c, n), op).ok()
            };
            let ops = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];
            let x = half(gen(n as u64) as usize, *pick(&ops))?;
            if gen_bool(1, 2) {
                return Some((x, "comparison of"));
            }
            let y = half(gen(n as u64) as usize, *pick(&ops))?;
            if gen_bool(1, 2) { and(x, y) } else { or(x, y) }.ok().map(|x| (x, "two comparisons of"))
        }
        _ => None,
    }
}

fn t02() -> Res {
    world::swarm();
    let dt = gen_dt(TYPES);
    let mut pop: Vec<(Array, Vec<Val>, String)> = Vec::new();
    for i in 0..gen_range(1, 3) as usize {
        let rows = gen_rows(300);
        let vals = if i > 0 && gen_bool(1, 2) { more_like(&dt, &pop[0].1, rows) } else { gen_col(&dt, rows) };
        let depth = gen(3) as u32;
        let a = build(&dt, &vals, depth);
        pop.push((a, vals, format!("#{i}")));
    }
    let steps = gen_range(2, 10);
    let mut log = vec![format!("{}: rows {:?}", dt.show(), pop.iter().map(|p| p.1.len()).collect::<Vec<_>>())];
    for _ in 0..steps {
        let k = gen(pop.len() as u64) as usize;
        let (a, vals, name) = pop[k].clone();
        let n = vals.len();
        let id = pop.len();
        let mut made: Option<(Array, Vec<Val>, String)> = None;
        let fail = |op: &str, e: vortex_error::VortexError| -> Res { v("operation-failed", format!("{op} of {name}: {e}")) };
        let op = gen(13);
        match op {
            0..=3 => {
                let s = *pick(&STATS);
                let got = a.statistics().compute(s);
                log.push(format!("{s} of {name} -> {}", got.map(|x| show_scalar(&x)).unwrap_or("unknown".into())));
            }
            4 => {
                let lo = gen(n as u64 + 1) as usize;
                let hi = lo + gen((n - lo) as u64 + 1) as usize;
                match slice(&a, lo, hi) {
                    Ok(x) => made = Some((x, vals[lo..hi].to_vec(), format!("#{id} = {name}[{lo}..{hi}]"))),
                    Err(e) => return fail("slice", e),
                }
            }
            5 if n > 0 => {
                let m = gen(2 * n as u64 + 2).min(60) as usize;
                let mut idx: Vec<usize> = (0..m).map(|_| gen(n as u64) as usize).collect();
                if gen_bool(1, 2) {
                    idx.sort_unstable();
                }
                let at: Vec<Val> = idx.iter().map(|i| Val::Int(*i as i128)).collect();
                let ia = match gen(3) {
                    0 => build(&Dt::new(Ty::Prim(PType::U64), false), &at, 2),
                    _ => build_prim(PType::U64, &at, Validity::NonNullable),
                };
                match take(&a, &ia) {
                    Ok(x) => made = Some((x, idx.iter().map(|i| vals[*i].clone()).collect(), format!("#{id} = take {name} {idx:?}"))),
                    Err(e) => return fail("take", e),
                }
            }
            6 if n > 0 => {
                let den = gen_range(2, 5);
                let keep: Vec<bool> = (0..n).map(|_| gen(den) == 0).collect();
                let mask = match gen(3) {
                    0 => {
                        let vals: Vec<Val> = keep.iter().map(|k| Val::Bool(*k)).collect();
                        build(&Dt::new(Ty::Bool, false), &vals, 2)
                    }
                    _ => BoolArray::from_vec(keep.clone(), Validity::NonNullable).into_array(),
                };
                match filter(a.clone(), mask) {
                    Ok(x) => {
                        made = Some((
                            x,
                            vals.iter().zip(&keep).filter(|p| *p.1).map(|p| p.0.clone()).collect(),
                            format!("#{id} = filter {name}"),
                        ))
                    }
                    Err(e) => return fail("filter", e),
                }
            }
            7 => {
                let m = gen_range(1, 4) as usize;
                let ks: Vec<usize> = (0..m).map(|_| gen(pop.len() as u64) as usize).collect();
                let c = ChunkedArray::try_new(ks.iter().map(|k| pop[*k].0.clone()).collect(), dt.dtype());
                match c {
                    Ok(c) => {
                        made = Some((
                            c.into_array(),
                            ks.iter().flat_map(|k| pop[*k].1.clone()).collect(),
                            format!("#{id} = chunks {ks:?}"),
                        ))
                    }
                    Err(e) => return fail("chunk", e),
                }
            }
            8 => {
                let (c, d) = gen_compressor();
                match c.compress(&a, None) {
                    Ok(x) => made = Some((x.into_array(), vals, format!("#{id} = compress {name} with {d}"))),
                    Err(e) => return fail("compress", e),
                }
            }
            9 => match gen(3) {
                0 => made = Some((through_stream(&a)?, vals, format!("#{id} = {name} streamed"))),
                1 if n > 0 => made = Some((through_file(&a)?, vals, format!("#{id} = {name} from a file"))),
                _ => match a.clone().into_canonical() {
                    Ok(c) => made = Some((c.into(), vals, format!("#{id} = {name} decoded"))),
                    Err(e) => return fail("decode", e),
                },
            },
            10 => {
                if let Ok(c) = ChunkedArray::try_from(&a) {
                    let bytes = *pick(&[1usize, 64, 1000, 1 << 24]);
                    let rows = 1 + gen(n as u64 + 2) as usize;
                    match c.rechunk(bytes, rows) {
                        Ok(x) => made = Some((x.into_array(), vals, format!("#{id} = rechunk {name} to {bytes} bytes, {rows} rows"))),
                        Err(e) => return fail("rechunk", e),
                    }
                }
            }
            11 | 12 => {
                // what is computed of it: only its statistics are judged, against its own values
                if let Some((x, how)) = compute_of(&dt, &a, &vals) {
                    log.push(format!("{how} {name}"));
                    if gen_bool(1, 2) {
                        for s in STATS {
                            x.statistics().compute(s);
                        }
                    }
                    if let Ok(own) = decode(&x) {
                        judge_all(&format!("{how} {name}"), &x, &own)
                            .map_err(|e| V { class: e.class, detail: format!("{} after {}", e.detail, log.join("; ")) })?;
                    }
                }
            }
            _ => {}
        }
        if let Some(m) = made {
            log.push(m.2.clone());
            if m.0.dtype() != &dt.dtype() || m.0.len() != m.1.len() {
                return v(
                    "operation-shape",
                    format!("{} gives {} rows of {} ({}) for {} of {} after {}", m.2, m.0.len(), m.0.dtype(), m.0.encoding().id(), m.1.len(), dt.show(), log.join("; ")),
                );
            }
            if m.1.len() <= 2000 {
                pop.push((m.0, m.1, format!("#{id}")));
            }
        }
        crate::ev!("{}", log.last().map(String::as_str).unwrap_or(""));
        set_sample(log.join("; "));
        for (a, vals, name) in &pop {
            judge_all(name, a, vals).map_err(|e| V { class: e.class, detail: format!("{} after {}", e.detail, log.join("; ")) })?;
        }
    }
    if pop.len() > 1 {
        probe("nontrivial");
    }
    // what can be computed of everything in the end
    for (a, vals, name) in &pop {
        for s in STATS {
            a.statistics().compute(s);
        }
        judge_all(name, a, vals).map_err(|e| V { class: e.class, detail: format!("{} after {}", e.detail, log.join("; ")) })?;
    }
    Ok(())
}

pub const T02: Prop = Prop {
    id: "T02",
    run: t02,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1500,
    level: "simulated",
    rule: "one run applies a drawn history of slices, takes, filters, chunkings, compressions, transfers and statistic queries to a few arrays and judges every available statistic of every array and of the arrays inside it after each step; non-trivial if some array was derived; distinct by event digest",
    real: &["vortex-array statistics of all encodings, sampling compressor, stream and file writers and readers"],
    stub: &["random source of the sampler and of hash maps (simulator)", "storage and byte transport (simulator)"],
    assumptions: &[
        "sortedness is judged over the non-null values; floats may follow IEEE or total order",
        "run counts, bit-width and trailing-zero frequencies are estimates and are not judged",
    ],
};

