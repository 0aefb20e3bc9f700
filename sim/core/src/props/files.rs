//! Properties of the file format: writer, footer, scan.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use bytes::Bytes;
use vortex::array::{ChunkedArray, PrimitiveArray, StructArray};
use vortex::validity::Validity;
use vortex::variants::StructArrayTrait;
use vortex::{Array, IntoArray};
use vortex_flatbuffers::footer as fbf;

use crate::exec::{block_on, run, Task};
use crate::file::*;
use crate::gen::{gen_rows, Table, TyOpts, ALL_TYPES};
use crate::io::{ByteSink, SimSink, SimStore, SinkMode, WriteFault, READ_FAULTS};
use crate::pred::{gen_pred, Pred, PredOpts};
use crate::runner::{v, Prop, Res, V};
use crate::val::{build_validity, decode, Dt, Ty, Val};
use vortex_dtype::PType;
use vortex_serde::io::TokioAdapter;

use crate::world::{self, choose, fault, gen, gen_bool, gen_range, pick, probe, probe_n, Stream};

const REAL: &[&str] = &[
    "vortex-serde layouts writer and reader (all of it)",
    "vortex-serde message writer/reader",
    "vortex-array, encodings, sampling compressor, vortex-expr",
];
const STUB: &[&str] = &[
    "storage device (VortexReadAt/VortexWrite implemented by the simulator)",
    "async executor and clock (simulator)",
];

/// Writes the plan through a simulated sink without faults.
pub(super) fn written(plan: &Plan) -> Result<Bytes, V> {
    match block_on(write_plan(SimSink::new(SinkMode::Direct), plan)) {
        Ok(Ok(s)) => Ok(Bytes::from(s.state.lock().unwrap().durable.clone())),
        Ok(Err(e)) => v("write-failed", format!("writing a valid table failed: {e}")),
        Err(s) => stalled(s),
    }
}

fn scan_now(store: &SimStore, t: &Table, spec: &ScanSpec) -> Result<ScanOut, V> {
    let size = store.data.len() as u64;
    match block_on(scan(store.clone(), size, t, spec, None)) {
        Ok(o) => Ok(o),
        Err(s) => stalled(s),
    }
}

/// The same scan through other storage, and as Arrow record batches.
fn other_ways(store: &SimStore, t: &Table, spec: &ScanSpec) -> Res {
    let note = |how: &str, r: Res| r.map_err(|e| V { class: e.class, detail: format!("read through {how}: {}", e.detail) });
    match gen(8) {
        0 => {
            let (how, out) = scan_other_storage(store, t, spec)?;
            if out.end != End::Dropped {
                note(&how, check_complete(t, spec, &out))?;
            }
        }
        1 => {
            probe("record-batches");
            let out = scan_record_batches(store.clone(), t, spec)?;
            note("Arrow record batches", check_complete(t, spec, &out))?;
        }
        2 => {
            probe("read_all");
            let out = scan_read_all(store.clone(), t, spec)?;
            note("read_all", check_complete(t, spec, &out))?;
        }
        _ => {}
    }
    Ok(())
}

fn full(t: &Table) -> ScanSpec {
    ScanSpec { proj: None, pred: None, batch: gen_batch_size(t.rows), give_size: gen_bool(1, 2) }
}

const PREDS: PredOpts = PredOpts { by_index: true, null_literals: true, depth: 3 };

fn maybe_pred(t: &Table, num: u64, den: u64) -> Option<Pred> {
    if gen_bool(num, den) {
        gen_pred(t, PREDS)
    } else {
        None
    }
}

pub(super) fn any_spec(t: &Table) -> ScanSpec {
    ScanSpec {
        proj: if gen_bool(1, 2) { Some(gen_proj(t)) } else { None },
        pred: maybe_pred(t, 1, 2),
        batch: gen_batch_size(t.rows),
        give_size: gen_bool(1, 2),
    }
}

fn nontrivial(t: &Table, store: &SimStore) {
    if t.rows > 0 && store.reads() > 2 {
        probe("nontrivial");
    }
}

// ------------------------------------------------------------------ F01

/// Tables of a nullable row type come back; batches of another type are refused.
fn f01_misfits() -> Res {
    let t = Table::generate(gen_rows(60).max(1), 3, ALL_TYPES);
    let mut plan = plan_write(&t, 1, 4);
    if gen(3) == 0 {
        // a further call with batches of another type
        let other = Table::generate(gen_rows(20), 3, ALL_TYPES);
        if table_dtype(&other) == plan.dtype {
            return Ok(());
        }
        probe("another-dtype");
        let a = crate::file::struct_batch(&other, 0, other.rows, 1);
        set_sample(format!("{} then {}", t.show(), other.show()));
        plan.steps.push(crate::file::Step::Columns(a));
        return match block_on(write_plan(SimSink::new(SinkMode::Direct), &plan)) {
            Ok(Ok(_)) => v("mixed-dtypes", format!("a file took the rows of {} and then those of {}", t.show(), other.show())),
            Ok(Err(_)) => Ok(()),
            Err(s) => stalled(s),
        };
    }
    // Rows of a nullable struct type, none of them null: the documentation says that files do not
    // keep nulls of rows.
    let rows: Vec<Val> = (0..t.rows).map(|r| t.row(r)).collect();
    let mut from = 0;
    let dtype = plan.dtype.as_nullable();
    let of = |a: &Array, from: &mut usize| -> Result<Array, V> {
        let st = StructArray::try_from(a).map_err(|e| V { class: "not-struct".into(), detail: e.to_string() })?;
        let validity = build_validity(true, &rows[*from..*from + st.len()]);
        *from += st.len();
        let cols: Vec<Array> = st.children().collect();
        Ok(StructArray::try_new(st.names().clone(), cols, st.len(), validity).expect("as many rows").into_array())
    };
    for s in plan.steps.iter_mut() {
        match s {
            crate::file::Step::Stream(parts) => {
                for p in parts.iter_mut() {
                    *p = of(p, &mut from)?;
                }
            }
            crate::file::Step::Columns(a) => {
                *a = match ChunkedArray::try_from(&*a) {
                    Ok(c) => {
                        let parts: Vec<Array> = c.chunks().map(|p| of(&p, &mut from)).collect::<Result<_, _>>()?;
                        ChunkedArray::try_new(parts, dtype.clone()).expect("chunks").into_array()
                    }
                    Err(_) => of(a, &mut from)?,
                }
            }
        }
    }
    plan.dtype = dtype;
    set_sample(format!("nullable rows of {}; {}", t.show(), plan.desc));
    probe("nullable-rows");
    let data = match block_on(write_plan(SimSink::new(SinkMode::Direct), &plan)) {
        Ok(Ok(s)) => Bytes::from(s.state.lock().unwrap().durable.clone()),
        Ok(Err(e)) => return v("write-failed", format!("writing rows of which none is null failed: {e}")),
        Err(s) => return stalled(s),
    };
    let out = scan_now(&SimStore::new(data), &t, &full(&t))?;
    let mut got = Vec::new();
    for b in &out.batches {
        got.extend(decode(b).map_err(|e| V { class: "undecodable".into(), detail: e.to_string() })?);
    }
    if out.end != End::Done || got != rows {
        let at = got.iter().zip(&rows).position(|(a, b)| a != b);
        return v("nullable-rows", format!("{} rows were written; read {} rows, {:?}; first difference at {at:?}", t.rows, got.len(), out.end));
    }
    Ok(())
}

/// A file written a row at a time, of more chunks than two bytes can count.
fn f01_crowd() -> Res {
    let n = 65_536 + gen_range(1, 300) as usize;
    let from = gen(1 << 20);
    let cols = vec![("n".to_string(), Dt::new(Ty::Prim(PType::U64), false))];
    let t = Table { cols, data: vec![(0..n as i128).map(|i| Val::Int(i + from as i128)).collect()], rows: n };
    let rows: Vec<Array> = (0..n as u64)
        .map(|i| {
            let a = PrimitiveArray::from_vec(vec![i + from], Validity::NonNullable).into_array();
            StructArray::from_fields(&[("n", a)]).expect("one column").into_array()
        })
        .collect();
    let plan = Plan { dtype: table_dtype(&t), steps: vec![Step::Stream(rows)], desc: "a row at a time".into() };
    let spec = ScanSpec { batch: Some(200 + gen(2000) as usize), ..full(&t) };
    probe("more_chunks_than_two_bytes");
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let bytes = write_ready(Vec::new(), &plan)?;
    let size = bytes.len() as u64;
    let out = match block_on(scan(bytes, size, &t, &spec, None)) {
        Ok(o) => o,
        Err(s) => return stalled(s),
    };
    check_complete(&t, &spec, &out)
}

fn f01() -> Res {
    world::swarm();
    if gen_bool(1, 8192) {
        return f01_crowd();
    }
    if gen_bool(1, 24) {
        return f01_misfits();
    }
    let t = if gen_bool(1, 96) {
        probe("wide");
        Table::wide(ALL_TYPES)
    } else {
        Table::generate(gen_rows(4000), 5, ALL_TYPES)
    };
    let plan = plan_write(&t, 2, 5);
    let spec = full(&t);
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let store = SimStore::new(written(&plan)?);
    let out = scan_now(&store, &t, &spec)?;
    nontrivial(&t, &store);
    check_complete(&t, &spec, &out)?;
    other_ways(&store, &t, &spec)
}

pub const F01: Prop = Prop {
    id: "F01",
    run: f01,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1500,
    level: "simulated",
    rule: "one run writes one generated table through one drawn chunking/encoding plan and scans it back under one drawn I/O schedule; non-trivial if it has rows and needed more than two reads; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};

// ------------------------------------------------------------------ F02

fn f02() -> Res {
    world::swarm();
    let t = if gen_bool(1, 96) {
        probe("wide");
        Table::wide(ALL_TYPES)
    } else {
        Table::generate(gen_rows(1500), 8, ALL_TYPES)
    };
    let plan = plan_write(&t, 1, 4);
    let spec = ScanSpec {
        proj: Some(gen_proj(&t)),
        pred: maybe_pred(&t, 1, 4),
        batch: gen_batch_size(t.rows),
        give_size: gen_bool(1, 2),
    };
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let store = SimStore::new(written(&plan)?);
    let out = scan_now(&store, &t, &spec)?;
    nontrivial(&t, &store);
    check_complete(&t, &spec, &out)?;
    other_ways(&store, &t, &spec)
}

pub const F02: Prop = Prop {
    id: "F02",
    run: f02,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run writes a table and scans it with one drawn projection (names and positions mixed, any order) under one I/O schedule; non-trivial if it has rows and needed more than two reads; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["a projection names each column at most once (the statement's own domain)"],
};

// ------------------------------------------------------------------ F03

fn f03() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(2500), 5, TyOpts { nested: gen_bool(1, 3), ..ALL_TYPES });
    let plan = plan_write(&t, 2, 5);
    let Some(p) = gen_pred(&t, PREDS) else { return Ok(()) };
    let spec = ScanSpec {
        proj: if gen_bool(1, 2) { Some(gen_proj(&t)) } else { None },
        pred: Some(p),
        batch: gen_batch_size(t.rows),
        give_size: gen_bool(1, 2),
    };
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let store = SimStore::new(written(&plan)?);
    let out = scan_now(&store, &t, &spec)?;
    let sel = spec.rows(&t).len();
    if sel > 0 && sel < t.rows {
        probe("nontrivial");
    }
    check_complete(&t, &spec, &out)
}

pub const F03: Prop = Prop {
    id: "F03",
    run: f03,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1500,
    level: "simulated",
    rule: "one run writes a table and scans it with one drawn predicate (and maybe a projection) under one I/O schedule; non-trivial if the predicate selects some but not all rows; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["a comparison of floats follows either of the two customary orders (IEEE, or Arrow's total order), so rows on whose result the two disagree may be delivered or not"],
};

// ------------------------------------------------------------------ F04

fn f04() -> Res {
    world::swarm();
    let rows = if gen_bool(1, 200) { 65_536 + gen(20_000) as usize } else { gen_rows(1200) };
    let big = rows > 10_000;
    let t = Table::generate(rows, if big { 2 } else { 5 }, ALL_TYPES);
    let plan = plan_write(&t, if big { 1 } else { 2 }, 8);
    let spec = ScanSpec {
        proj: if gen_bool(1, 4) { Some(gen_proj(&t)) } else { None },
        pred: maybe_pred(&t, 1, 4),
        batch: if big {
            if gen_bool(1, 3) {
                Some(1000 + gen(70_000) as usize)
            } else {
                None
            }
        } else {
            gen_batch_size(t.rows)
        },
        give_size: gen_bool(1, 2),
    };
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let store = SimStore::new(written(&plan)?);
    let out = scan_now(&store, &t, &spec)?;
    let n = spec.batch_size();
    let lens: Vec<usize> = out.batches.iter().map(|b| b.len()).collect();
    if out.end == End::Done {
        for (i, b) in out.batches.iter().enumerate() {
            let st = match vortex::array::StructArray::try_from(b.clone()) {
                Ok(s) => s,
                Err(e) => return v("not-struct", format!("batch {i} is no struct array: {e}")),
            };
            for (c, f) in st.children().enumerate() {
                if f.len() != b.len() {
                    return v("unaligned", format!("column {c} of batch {i} has {} rows, the batch {}", f.len(), b.len()));
                }
            }
            if lens[i] > n {
                return v("oversized-batch", format!("{}: batch {i} of {lens:?} has more than {n} rows", spec.show(&t)));
            }
            if spec.pred.is_none() && lens[i] != n && i + 1 != lens.len() {
                return v("undersized-batch", format!("{}: batch {i} of {lens:?} should have {n} rows", spec.show(&t)));
            }
            if lens[i] == 0 && spec.pred.is_none() {
                return v("empty-batch", format!("{}: batch {i} of {lens:?} is empty", spec.show(&t)));
            }
        }
    }
    if lens.len() > 1 {
        probe("nontrivial");
    }
    check_complete(&t, &spec, &out)
}

pub const F04: Prop = Prop {
    id: "F04",
    run: f04,
    quick: 50_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run scans one table (up to 8 batches written, columns chunked independently) at one batch size; non-trivial if the scan yields more than one batch; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};

// ------------------------------------------------------------------ F05

/// Judges a scan during which storage may have failed.
pub(super) fn judge_faulty(t: &Table, spec: &ScanSpec, out: &ScanOut, fired: u64) -> Res {
    match &out.end {
        End::Done if fired > 0 => {
            return v("error-swallowed", format!("{}: a read failed and the scan ended as if complete", spec.show(t)));
        }
        End::Done | End::Dropped | End::Runaway => check_complete(t, spec, out),
        End::OpenErr(e) | End::Err(e) if fired == 0 => {
            v("spurious-error", format!("no read failed and yet: {}\n  in {}\n{e}", first_line(e), spec.show(t)))
        }
        End::OpenErr(_) => Ok(()),
        End::Err(e) => {
            if let Some(a) = &out.after {
                return v("continues-after-error", format!("after the error ({}) the scan goes on with {a}", first_line(e)));
            }
            check_prefix(t, spec, out)
        }
    }
}

pub(super) fn first_line(e: &str) -> &str {
    e.lines().next().unwrap_or("")
}

fn f05() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(1200), 4, ALL_TYPES);
    let plan = plan_write(&t, 1, 5);
    let spec = any_spec(&t);
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let bytes = written(&plan)?;
    // how many reads it takes when nothing fails
    let dry = SimStore::new(bytes.clone());
    let out = scan_now(&dry, &t, &spec)?;
    check_complete(&t, &spec, &out)?;
    let n = dry.reads();
    let store = SimStore::new(bytes);
    if choose(Stream::Fault, 6) == 5 {
        store.state.lock().unwrap().dead_from = Some(choose(Stream::Fault, n));
    } else {
        for _ in 0..1 + choose(Stream::Fault, 3) {
            let f = READ_FAULTS[choose(Stream::Fault, 5) as usize];
            store.plan(choose(Stream::Fault, n), f);
        }
    }
    let out = match choose(Stream::Fault, 8) {
        6 => scan_record_batches(store.clone(), &t, &spec)?,
        7 => scan_read_all(store.clone(), &t, &spec)?,
        _ => scan_now(&store, &t, &spec)?,
    };
    let fired = store.fired();
    if fired > 0 {
        probe("nontrivial");
        if !out.batches.is_empty() {
            probe("error_after_some_batches");
        }
    }
    judge_faulty(&t, &spec, &out, fired)?;
    store.clear_faults();
    let out = scan_now(&store, &t, &spec)?;
    match check_complete(&t, &spec, &out) {
        Err(e) => v(format!("after-recovery-{}", e.class), e.detail),
        ok => ok,
    }
}

pub const F05: Prop = Prop {
    id: "F05",
    run: f05,
    quick: 40_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run scans a file fault-free to learn its reads, then with one to three failing reads or a device that dies, then after recovery; non-trivial if a fault fired; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["a failing read reports an error (silent corruption is outside the property: the format has no checksums)"],
};

// ------------------------------------------------------------------ F06

fn f06() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
    let plan = plan_write(&t, 1, 4);
    let spec = ScanSpec { proj: None, pred: None, batch: gen_batch_size(t.rows), give_size: gen_bool(1, 2) };
    set_sample(format!("{}; {}", t.show(), plan.desc));
    let sink = SimSink::new(SinkMode::Direct);
    let (bytes, sizes) = match block_on(write_plan(sink, &plan)) {
        Ok(Ok(s)) => {
            let s = s.state.lock().unwrap();
            (s.durable.clone(), s.write_sizes.clone())
        }
        Ok(Err(e)) => return v("write-failed", format!("writing a valid table failed: {e}")),
        Err(s) => return stalled(s),
    };
    let n = bytes.len();
    for _ in 0..1 + gen(12) {
        // where the crash hits
        let at = match choose(Stream::Fault, 6) {
            0 => n - 1 - choose(Stream::Fault, n.min(64) as u64) as usize,
            1 => choose(Stream::Fault, n.min(80) as u64) as usize,
            2 => {
                // between two write calls
                let k = choose(Stream::Fault, sizes.len() as u64) as usize;
                sizes[..k].iter().sum::<usize>()
            }
            3 => {
                // inside one of the last few write calls
                let k = sizes.len() - 1 - choose(Stream::Fault, sizes.len().min(8) as u64) as usize;
                let b = sizes[..k].iter().sum::<usize>();
                b + choose(Stream::Fault, sizes[k].max(1) as u64) as usize
            }
            4 => n - 1 - choose(Stream::Fault, n.min(600) as u64) as usize,
            _ => choose(Stream::Fault, n as u64) as usize,
        }
        .min(n - 1);
        let mut left = bytes[..at].to_vec();
        if choose(Stream::Fault, 4) == 3 {
            // the file's length was recorded, its tail never was
            let len = at + 1 + choose(Stream::Fault, (n - at) as u64) as usize;
            left.resize(len.min(n), 0);
            if left == bytes {
                continue;
            }
            fault("lost_tail_write");
        } else {
            fault("truncated");
        }
        world::event(format_args!("crash at {at} of {n}, {} bytes survive", left.len()));
        let len = left.len();
        let store = SimStore::new(Bytes::from(left));
        let out = scan_now(&store, &t, &spec)?;
        if let Some((p, l)) = store.state.lock().unwrap().out_of_bounds {
            return v("read-past-end", format!("{len} of {n} bytes survive; opening reads {l} bytes at {p}"));
        }
        match out.end {
            End::OpenErr(_) => {}
            e => {
                return v(
                    "opened",
                    format!("{len} of {n} bytes survive (crash at {at}), and the file opens: {e:?} with {} batches", out.batches.len()),
                )
            }
        }
        probe("nontrivial");
    }
    // and the whole file does open
    let store = SimStore::new(Bytes::from(bytes));
    let out = scan_now(&store, &t, &spec)?;
    check_complete(&t, &spec, &out)
}

pub const F06: Prop = Prop {
    id: "F06",
    run: f06,
    quick: 40_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run writes a file and opens up to twelve crash survivors of it (cut between or inside the writer's writes, at the ends, anywhere; or the right length with a lost tail), then the whole; non-trivial if it opened a survivor; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[
        "writes become durable in order: survivors are prefixes, possibly followed by zeros (holes in the middle are undetectable without checksums)",
        "no column value contains the image of a complete file ending exactly at the crash point",
    ],
};

// ------------------------------------------------------------------ F07

fn f07() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
    let plan = plan_write(&t, 1, 4);
    let mode = *pick(&[SinkMode::Buffered, SinkMode::Background, SinkMode::Direct]);
    // the bytes of the file and how many writes it takes
    let dry = SimSink::new(SinkMode::Direct);
    let (bytes, writes) = match block_on(write_plan(dry, &plan)) {
        Ok(Ok(s)) => {
            let s = s.state.lock().unwrap();
            (s.accepted.clone(), s.writes)
        }
        Ok(Err(e)) => return v("write-failed", format!("writing a valid table failed: {e}")),
        Err(s) => return stalled(s),
    };
    if choose(Stream::Sched, 12) == 11 {
        return f07_native(&t, &plan, &bytes);
    }
    let near_end = |n: u64| if choose(Stream::Fault, 3) == 0 { n - 1 - choose(Stream::Fault, n.min(4)) } else { choose(Stream::Fault, n) };
    let sink = SimSink::new(mode);
    let sink = match choose(Stream::Fault, 5) {
        0 => sink,
        1 => sink.with_fault(WriteFault::FailWrite(near_end(writes))),
        2 => sink.with_fault(WriteFault::Full(near_end(bytes.len() as u64))),
        3 => sink.with_fault(WriteFault::FailFlush(0)),
        _ => sink.with_fault(WriteFault::LateWrite(near_end(writes))),
    };
    // how the writer reaches the sink: directly, or through the adapter for byte streams
    let via = choose(Stream::Sched, 3);
    let (frag, pend) = match choose(Stream::Sched, 4) {
        0 => (0, 8),
        1 if bytes.len() < 20_000 => (1, 0),
        1 => (2, 0),
        2 => (2, 4),
        _ => (2, 0),
    };
    set_sample(format!(
        "{}; {}; sink {mode:?}{}, fault {:?}",
        t.show(),
        plan.desc,
        if via > 0 { " behind a byte stream" } else { "" },
        sink.state.lock().unwrap().fault
    ));
    let state = sink.state.clone();
    let res = if via == 0 {
        block_on(write_plan(sink, &plan)).map(|r| r.map(drop))
    } else {
        probe("byte-stream");
        block_on(write_plan(TokioAdapter(ByteSink { sink, frag, pend }), &plan)).map(|r| r.map(drop))
    };
    let res = match res {
        Ok(r) => r,
        Err(s) => return stalled(s),
    };
    let (fired, durable, accepted, what) = {
        let s = state.lock().unwrap();
        (s.fired, s.durable.clone(), s.accepted.clone(), s.fault)
    };
    if fired > 0 || mode != SinkMode::Direct {
        probe("nontrivial");
    }
    match res {
        Err(e) => {
            if fired == 0 {
                return v("spurious-error", format!("no write failed and yet: {e}"));
            }
            Ok(())
        }
        Ok(()) => {
            if fired > 0 {
                return v("error-swallowed", format!("{what:?} on a {mode:?} sink, and finishing the file reports success"));
            }
            if accepted != bytes {
                return v("wrong-bytes", format!("the sink accepted {} bytes that are not the file's {}", accepted.len(), bytes.len()));
            }
            if durable != bytes {
                return v(
                    "not-flushed",
                    format!("finishing the file on a {mode:?} sink reports success with {} of {} bytes flushed", durable.len(), bytes.len()),
                );
            }
            let spec = full(&t);
            let out = scan_now(&SimStore::new(Bytes::from(durable)), &t, &spec)?;
            check_complete(&t, &spec, &out)
        }
    }
}

/// The sinks the repository brings along: vectors, cursors, files of the operating system.
fn f07_native(t: &Table, plan: &Plan, bytes: &[u8]) -> Res {
    let room = match choose(Stream::Fault, 3) {
        0 => None,
        1 => Some(bytes.len()),
        _ => Some(choose(Stream::Fault, bytes.len() as u64) as usize),
    };
    let (what, res, held) = write_native(plan, room);
    set_sample(format!("{}; {}; {what} with room for {room:?} of {} bytes", t.show(), plan.desc, bytes.len()));
    probe("native-sink");
    let full_disk = room.is_some_and(|n| n < bytes.len());
    if full_disk {
        world::fault("no room");
        probe("nontrivial");
    }
    match res {
        Err(_) if full_disk => Ok(()),
        Err(e) => v("spurious-error", format!("{what} had room and yet: {e}")),
        Ok(()) if full_disk => v("error-swallowed", format!("{what} has no room for the file, and finishing it reports success")),
        Ok(()) if held != bytes => v(
            "not-flushed",
            format!("finishing the file on {what} reports success, and it holds {} bytes, not the {} of the file", held.len(), bytes.len()),
        ),
        Ok(()) => Ok(()),
    }
}

pub const F07: Prop = Prop {
    id: "F07",
    run: f07,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run writes one file to a direct, buffering or background sink with at most one write, flush, late or disk-full fault; non-trivial if a fault fired or the sink buffers; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["a sink makes bytes durable at the latest when flush succeeds, and reports an earlier failure at the next call"],
};

// ------------------------------------------------------------------ F08

/// Polls the inner future; gives up (dropping whatever is in flight) after so many polls.
struct Abandon<F> {
    inner: Option<Pin<Box<F>>>,
    left: Option<u64>,
}

impl<F: Future> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(n) = self.left {
            if n == 0 {
                self.inner = None;
                return Poll::Ready(None);
            }
            self.left = Some(n - 1);
        }
        let f = self.inner.as_mut().expect("not polled after it finished");
        match f.as_mut().poll(cx) {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending => Poll::Pending,
        }
    }
}

/// A table that looks like this one, of the same columns and as many rows, with its rows in
/// another order or some of them again in place of others.
fn lookalike(t: &Table) -> Table {
    let mut o = t.clone();
    if t.rows == 0 {
        return o;
    }
    let by = gen(t.rows as u64) as usize;
    let from: Vec<usize> = match gen(3) {
        0 => (0..t.rows).rev().collect(),
        1 => (0..t.rows).map(|r| (r + by) % t.rows).collect(),
        _ => (0..t.rows).map(|_| gen(t.rows as u64) as usize).collect(),
    };
    for (c, d) in o.data.iter_mut().enumerate() {
        *d = from.iter().map(|r| t.data[c][*r].clone()).collect();
    }
    o
}

fn f08() -> Res {
    world::swarm();
    // One file most often; else a second one, of the same columns or of others, scanned by the
    // same reader configuration at the same time.
    let mut tables = vec![Table::generate(gen_rows(800), 4, ALL_TYPES)];
    match gen(6) {
        4 => tables.push(lookalike(&tables[0])),
        5 => tables.push(Table::generate(gen_rows(300), 4, ALL_TYPES)),
        _ => {}
    }
    let mut files = Vec::new();
    for t in &tables {
        let plan = plan_write(t, 1, 5);
        let store = SimStore::new(written(&plan)?);
        let size = store.data.len() as u64;
        files.push((store, size, plan.desc));
    }
    let n = gen_range(2, 5) as usize;
    let of: Vec<usize> = (0..n).map(|i| if tables.len() == 1 { 0 } else { (i + gen(2) as usize) % 2 }).collect();
    let mut specs: Vec<ScanSpec> = of.iter().map(|f| any_spec(&tables[*f])).collect();
    if gen_bool(1, 4) {
        // the same scan several times over
        for i in 1..n {
            if tables[of[i]].cols == tables[of[0]].cols {
                specs[i] = specs[0].clone();
            }
        }
    }
    set_sample(format!(
        "{}; {} scans: {}",
        tables.iter().zip(&files).map(|(t, f)| format!("{}; {}", t.show(), f.2)).collect::<Vec<_>>().join(" || "),
        n,
        specs.iter().zip(&of).map(|(s, f)| format!("file {f}: {}", s.show(&tables[*f]))).collect::<Vec<_>>().join(" | ")
    ));
    if choose(Stream::Fault, 2) == 1 {
        for _ in 0..1 + choose(Stream::Fault, 3) {
            let f = READ_FAULTS[choose(Stream::Fault, 5) as usize];
            files[0].0.plan(choose(Stream::Fault, 40), f);
        }
    }
    let how: Vec<(Option<usize>, Option<u64>)> = (0..n)
        .map(|_| match choose(Stream::Fault, 6) {
            4 => (Some(choose(Stream::Fault, 4) as usize), None),
            5 => (None, Some(1 + choose(Stream::Fault, 12))),
            _ => (None, None),
        })
        .collect();
    let mut outs: Vec<Option<ScanOut>> = vec![None; n];
    {
        let tasks: Vec<Option<Task<'_>>> = outs
            .iter_mut()
            .enumerate()
            .map(|(i, slot)| {
                let (st, size) = (files[of[i]].0.tagged(i as u64), files[of[i]].1);
                let (t, spec, (drop_after, polls)) = (&tables[of[i]], &specs[i], how[i]);
                let f: Task<'_> = Box::pin(async move {
                    let sc = Abandon { inner: Some(Box::pin(scan(st, size, t, spec, drop_after))), left: polls };
                    *slot = sc.await;
                    if slot.is_none() {
                        fault("scan_cancelled");
                    }
                });
                Some(f)
            })
            .collect();
        if let Err(s) = run(tasks) {
            return stalled(s);
        }
    }
    let mut done = 0;
    for (i, o) in outs.iter().enumerate() {
        if let Some(o) = o {
            done += 1;
            let t = &tables[of[i]];
            if o.end == End::Dropped {
                fault("scan_dropped");
                check_prefix(t, &specs[i], o)?;
            } else {
                judge_faulty(t, &specs[i], o, files[of[i]].0.fired_by(i as u64))?;
            }
        }
    }
    if done > 0 && (tables.len() > 1 || files[0].0.state.lock().unwrap().max_inflight > 1) {
        probe("nontrivial");
    }
    if tables.len() > 1 {
        probe("two_files");
    }
    Ok(())
}

pub const F08: Prop = Prop {
    id: "F08",
    run: f08,
    quick: 40_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run interleaves two to five scans of one file over one storage handle, or of two files, all through one deserializer, some cancelled mid-poll, dropped mid-stream or hit by read errors; non-trivial if reads overlapped and a scan finished; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};

// ------------------------------------------------------------------ F09

fn collect(l: fbf::Layout<'_>, out: &mut Vec<(u64, u64)>) {
    if let Some(b) = l.buffers() {
        for i in 0..b.len() {
            let r = b.get(i);
            out.push((r.begin(), r.end()));
        }
    }
    if let Some(c) = l.children() {
        for i in 0..c.len() {
            collect(c.get(i), out);
        }
    }
}

/// Where the schema starts, and the byte ranges of every column, read from the footer itself.
fn column_ranges(file: &[u8]) -> Result<(u64, Vec<Vec<(u64, u64)>>), String> {
    let n = file.len();
    let ps = flatbuffers::root::<fbf::Postscript>(&file[n - 8 - 32..n - 8]).map_err(|e| e.to_string())?;
    let f = flatbuffers::root::<fbf::Footer>(&file[ps.footer_offset() as usize + 4..n - 8 - 32]).map_err(|e| e.to_string())?;
    let root = f.layout().ok_or("no layout")?;
    let c = root.children().ok_or("no columns")?;
    let ranges = (0..c.len())
        .map(|i| {
            let mut v = Vec::new();
            collect(c.get(i), &mut v);
            v
        })
        .collect();
    Ok((ps.schema_offset(), ranges))
}

fn f09() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(1200), 6, ALL_TYPES);
    let plan = plan_write(&t, 1, 6);
    let spec = any_spec(&t);
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, spec.show(&t)));
    let bytes = written(&plan)?;
    let (schema_at, ranges) = match column_ranges(&bytes) {
        Ok(r) => r,
        Err(e) => return v("unreadable-footer", e),
    };
    let mut used = spec.columns(&t);
    if let Some(p) = &spec.pred {
        p.columns(&mut used);
        if p.by_index() {
            // positions in the whole file: the reader may look at all of it
            used = (0..t.cols.len()).collect();
        }
    }
    used.sort();
    used.dedup();
    let store = SimStore::new(bytes);
    let size = store.data.len() as u64;
    let out = scan_now(&store, &t, &spec)?;
    let reads = store.state.lock().unwrap().reads.clone();
    if let Some((p, l)) = store.state.lock().unwrap().out_of_bounds {
        return v("read-past-end", format!("read of {l} bytes at {p} in a file of {size}"));
    }
    check_complete(&t, &spec, &out)?;
    if used.is_empty() {
        // Only the number of rows is wanted: any one column tells it.
        let first = reads.iter().skip(1).map(|(p, _)| *p).find(|p| *p < schema_at);
        used.extend(ranges.iter().position(|c| c.iter().any(|(b, e)| first.is_some_and(|p| *b <= p && p < *e))));
    }
    let mut allowed: Vec<(u64, u64)> = used.iter().filter_map(|c| ranges.get(*c)).flatten().copied().collect();
    let pieces = allowed.len();
    allowed.sort();
    let mut merged: Vec<(u64, u64)> = Vec::new();
    for (b, e) in allowed {
        match merged.last_mut() {
            Some(l) if b <= l.1 => l.1 = l.1.max(e),
            _ => merged.push((b, e)),
        }
    }
    let mut it = reads.iter().peekable();
    match it.next() {
        Some((p, l)) if p + *l as u64 == size => {
            // What the first read left out of schema and footer may be fetched, once.
            if let Some((q, m)) = it.peek() {
                if *q >= schema_at && q + *m as u64 == *p {
                    probe("footer_in_two_reads");
                    it.next();
                }
            }
        }
        r => return v("no-tail-read", format!("the first read of a file of {size} bytes is {r:?}")),
    }
    let mut rest: Vec<(u64, u64)> = Vec::new();
    for (p, l) in it {
        let (b, e) = (*p, *p + *l as u64);
        if !merged.iter().any(|m| m.0 <= b && e <= m.1) {
            return v(
                "unneeded-read",
                format!("{} reads bytes {b}..{e}, outside of the columns it needs ({used:?}): {merged:?}", spec.show(&t)),
            );
        }
        rest.push((b, e));
    }
    if rest.len() > pieces {
        return v("too-many-reads", format!("{} reads for {pieces} chunks", rest.len()));
    }
    rest.sort();
    for w in rest.windows(2) {
        if w[1].0 < w[0].1 {
            return v("read-twice", format!("{} reads {}..{} and {}..{}", spec.show(&t), w[0].0, w[0].1, w[1].0, w[1].1));
        }
    }
    probe_n("data_reads", rest.len() as u64);
    if rest.len() > 1 && used.len() < t.cols.len() {
        probe("nontrivial");
    }
    Ok(())
}

pub const F09: Prop = Prop {
    id: "F09",
    run: f09,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run records every read of one scan and compares it with the byte ranges the footer gives for the needed columns; non-trivial if it needed several data reads and could leave a column out; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["the footer's own layout tree says which bytes belong to which column"],
};
