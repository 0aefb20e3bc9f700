//! Properties of queries over stored files and in-memory tables.

use std::sync::Arc;

use arrow_schema::{DataType, SchemaRef};
use datafusion::datasource::MemTable;
use datafusion::datasource::TableProvider;
use datafusion::prelude::SessionContext;
use datafusion_common::stats::Precision;
use datafusion_common::ScalarValue;
use datafusion_execution::object_store::ObjectStoreUrl;
use futures::future::{select, Either};
use url::Url;
use vortex::array::ChunkedArray;
use vortex::arrow::infer_schema;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_datafusion::memory::{VortexMemTable, VortexMemTableOptions};
use vortex_datafusion::persistent::config::{VortexFile, VortexTableOptions};
use vortex_datafusion::persistent::provider::VortexFileTableProvider;
use vortex_datafusion::SessionContextExt;
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vsim::comp::compress_some;
use vsim::exec::{block_on, run, with_tokio, Task};
use vsim::file::{plan_write, set_sample, stalled, struct_batch, table_dtype, write_bytes};
use vsim::gen::{gen_rows, gen_splits, Table, ALL_TYPES};
use vsim::objstore::{GetFault, SimObjects};
use vsim::pred::odd_float;
use vsim::runner::{v, Prop, Res, V};
use vsim::val::{Ty, Val};
use vsim::world::{self, choose, gen, gen_bool, gen_range, pick, probe, Stream};

use crate::query::{compare, gen_query, Answer, Kind, Query, A};
use crate::rows::{from_arrow, reference_batch};
use crate::session::{engine_session, plain_session, session};

pub static PROPS: &[Prop] = &[D01, D02, D03];

fn schema_of(t: &Table) -> Result<SchemaRef, V> {
    match infer_schema(&table_dtype(t)) {
        Ok(s) => Ok(Arc::new(s)),
        Err(e) => v("no-schema", e.to_string()),
    }
}

fn types_of(s: &SchemaRef) -> Vec<DataType> {
    s.fields().iter().map(|f| f.data_type().clone()).collect()
}

/// Runs a query to its end. None: given up on (only with a deadline).
async fn ask(ctx: &SessionContext, q: &Query, t: &Table, types: &[DataType], whole: bool) -> Result<Answer, String> {
    let df = q.plan(ctx, t, types, whole).await.map_err(|e| format!("planning: {e}"))?;
    let schema: SchemaRef = Arc::new(df.schema().as_arrow().clone());
    match df.collect().await {
        Ok(b) => {
            vsim::ev!("answered in batches of {:?}: {}", b.iter().map(|b| b.num_rows()).collect::<Vec<_>>(), q.show(t));
            Ok((schema, b))
        }
        Err(e) => {
            vsim::ev!("refused: {}", q.show(t));
            Err(e.to_string())
        }
    }
}

/// The answers over the reference rows; None where the query engine itself refuses the query.
fn reference(t: &Table, schema: &SchemaRef, qs: &[Query]) -> Result<Vec<Option<Answer>>, V> {
    let ctx = plain_session();
    let types = types_of(schema);
    let mem = || Arc::new(MemTable::try_new(schema.clone(), vec![vec![reference_batch(t, schema)]]).expect("reference table"));
    ctx.register_table("t", mem()).expect("register");
    ctx.register_table("u", mem()).expect("register");
    let mut out = Vec::new();
    for q in qs {
        let r = block_on(ask(&ctx, q, t, &types, true)).or_else(stalled)?;
        match r {
            Ok(a) => out.push(Some(a)),
            Err(e) => {
                probe("engine_refuses");
                vsim::ev!("the engine refuses: {}", e.lines().next().unwrap_or(""));
                out.push(None)
            }
        }
    }
    Ok(out)
}

fn one_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(300).collect()
}

/// Runs the queries side by side; each may be given a deadline (in simulated time).
fn ask_all(
    ctxs: &[&SessionContext],
    qs: &[Query],
    deadlines: &[Option<u64>],
    t: &Table,
    types: &[DataType],
) -> Result<Vec<Option<Result<Answer, String>>>, V> {
    let mut outs: Vec<Option<Result<Answer, String>>> = vec![None; qs.len()];
    {
        let tasks: Vec<Option<Task<'_>>> = outs
            .iter_mut()
            .zip(qs)
            .enumerate()
            .map(|(i, (o, q))| {
                let ctx = ctxs[i % ctxs.len()];
                let d = deadlines.get(i).copied().flatten();
                Some(Box::pin(async move {
                    match d {
                        None => *o = Some(ask(ctx, q, t, types, false).await),
                        Some(us) => {
                            let a = Box::pin(ask(ctx, q, t, types, false));
                            match select(a, world::delay(us)).await {
                                Either::Left((r, _)) => *o = Some(r),
                                Either::Right(_) => probe("query_given_up"),
                            }
                        }
                    }
                }) as Task<'_>)
            })
            .collect();
        run(tasks).or_else(stalled)?;
    }
    Ok(outs)
}

/// Whether the engine refuses the query over its own in-memory table, planned as for a drawn session.
fn engine_refuses(t: &Table, q: &Query) -> Result<bool, V> {
    let schema = schema_of(t)?;
    let types = types_of(&schema);
    for parts in [1, 2, 4] {
        let ctx = engine_session(parts);
        let batch = reference_batch(t, &schema);
        let mid = t.rows / 2;
        let halves = vec![batch.slice(0, mid), batch.slice(mid, t.rows - mid)];
        for name in ["t", "u"] {
            let mem = MemTable::try_new(schema.clone(), vec![halves.clone()]).expect("reference table");
            ctx.register_table(name, Arc::new(mem)).expect("register");
        }
        if block_on(ask(&ctx, q, t, &types, true)).or_else(stalled)?.is_err() {
            probe("engine_refuses");
            return Ok(true);
        }
    }
    Ok(false)
}

fn judge(q: &Query, t: &Table, got: &Option<Result<Answer, String>>, want: &Option<Answer>, faults: bool) -> Res {
    let (Some(got), Some(want)) = (got, want) else { return Ok(()) };
    match got {
        Err(_) if faults => Ok(()),
        Err(e) if e.contains("SanityCheckPlan") && engine_refuses(t, q)? => Ok(()),
        Err(e) => v("query-fails", format!("{}: {}", q.show(t), one_line(e))),
        Ok(a) => compare(q, a, want).map_err(|e| V { class: e.class, detail: format!("{}: {}", q.show(t), e.detail) }),
    }
}

fn sub_table(t: &Table, r0: usize, r1: usize) -> Table {
    Table { cols: t.cols.clone(), data: t.data.iter().map(|c| c[r0..r1].to_vec()).collect(), rows: r1 - r0 }
}

// ------------------------------------------------------------------ D01

fn d01() -> Res {
    with_tokio(d01_run)
}

fn d01_run() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
    let schema = schema_of(&t)?;
    let types = types_of(&schema);
    let nq = *pick(&[1usize, 1, 2, 3]);
    let qs: Vec<Query> = (0..nq).map(|_| gen_query(&t)).collect();
    let store = SimObjects::new(true);
    let mut files = Vec::new();
    let mut r = 0;
    let mut splits = gen_splits(t.rows, 4);
    if t.rows == 0 && gen_bool(1, 4) {
        splits.clear();
    }
    for (i, n) in splits.iter().enumerate() {
        let part = sub_table(&t, r, r + n);
        r += n;
        let bytes = write_bytes(&plan_write(&part, 1, 3))?;
        let path = format!("data/part{i}.vtx");
        files.push(VortexFile::new(path.clone(), bytes.len() as u64));
        store.state.lock().unwrap().objects.insert(path, bytes.into());
    }
    let (ctx, desc) = session(t.rows);
    set_sample(format!(
        "{}; files {splits:?}; {desc}; {}",
        t.show(),
        qs.iter().map(|q| q.show(&t)).collect::<Vec<_>>().join(" || ")
    ));
    let url = "sim://store/";
    ctx.register_object_store(&Url::parse(url).expect("url"), store.arc());
    let osu = ObjectStoreUrl::parse(url).expect("url");
    for name in ["t", "u"] {
        let opts = VortexTableOptions::new(schema.clone(), files.clone(), ALL_COMPRESSORS_CONTEXT.clone());
        if gen_bool(1, 2) {
            ctx.register_disk_vortex_opts(name, osu.clone(), opts).expect("register");
        } else {
            let p = VortexFileTableProvider::try_new(osu.clone(), opts).expect("provider");
            ctx.register_table(name, Arc::new(p)).expect("register");
        }
    }
    let want = reference(&t, &schema, &qs)?;
    let before = store.state.lock().unwrap().gets;
    let none = vec![None; nq];
    for (q, (g, w)) in qs.iter().zip(ask_all(&[&ctx], &qs, &none, &t, &types)?.iter().zip(&want)) {
        judge(q, &t, g, w, false)?;
    }
    let (gets, oob) = {
        let s = store.state.lock().unwrap();
        (s.gets - before, s.out_of_bounds.clone())
    };
    if let Some(r) = oob {
        return v("out-of-bounds", format!("the reader asks for bytes {r:?}"));
    }
    if gets > 2 && t.rows > 0 {
        probe("nontrivial");
    }
    if gets == 0 || gen_bool(1, 3) {
        return Ok(());
    }
    // again, with failing requests and impatient clients
    {
        let mut s = store.state.lock().unwrap();
        let base = s.gets;
        let n = choose(Stream::Fault, 4);
        if n == 3 {
            s.dead_from = Some(base + choose(Stream::Fault, gets));
        }
        for _ in 0..n.min(2) {
            let k = base + choose(Stream::Fault, gets);
            let f = match choose(Stream::Fault, 7) {
                0 => GetFault::Error,
                1 => GetFault::Timeout,
                2 => GetFault::NotFound,
                3 => GetFault::Denied,
                4 | 5 => GetFault::Short(choose(Stream::Fault, 200) as usize),
                _ => GetFault::Long(choose(Stream::Fault, 64) as usize),
            };
            s.get_faults.insert(k, f);
        }
    }
    let max = world::with(|w| w.max_delay) + 1;
    let deadlines: Vec<Option<u64>> = (0..nq)
        .map(|_| (choose(Stream::Fault, 4) == 0).then(|| choose(Stream::Fault, max * 10)))
        .collect();
    let outs = ask_all(&[&ctx], &qs, &deadlines, &t, &types)?;
    let fired = store.fired();
    for (q, (g, w)) in qs.iter().zip(outs.iter().zip(&want)) {
        judge(q, &t, g, w, fired > 0).map_err(|e| V { class: format!("faulty-{}", e.class), detail: e.detail })?;
    }
    // and once the store is well again
    store.clear_faults();
    for (q, (g, w)) in qs.iter().zip(ask_all(&[&ctx], &qs, &none, &t, &types)?.iter().zip(&want)) {
        judge(q, &t, g, w, false).map_err(|e| V { class: format!("after-recovery-{}", e.class), detail: e.detail })?;
    }
    Ok(())
}

pub const D01: Prop = Prop {
    id: "D01",
    run: d01,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run spreads one table over up to four files in the simulated object store and asks one to three queries side by side (without faults, then with failing, short, oversized and late responses and clients that give up, then again after recovery); non-trivial if the queries took more than two requests over a non-empty table; distinct by event digest",
    real: &["vortex-datafusion persistent tables, vortex-expr conversion", "vortex-serde object-store reader, layout reader and writer", "vortex-array, encodings", "DataFusion"],
    stub: &["object store (simulator)", "async executor and clock (simulator; DataFusion's tasks on a tokio runtime the simulator steps)"],
    assumptions: &[
        "DataFusion over its own in-memory table of the reference rows gives the right answer",
        "columns with NaN or zero floats are not compared or ordered by (the two customary float orders differ)",
        "a response of the right length holds the right bytes; files do not change while read",
    ],
};

// ------------------------------------------------------------------ D02

/// The table as one array: whole, chunked, or columns chunked their own way.
fn in_memory(t: &Table) -> (Array, String) {
    let splits = if t.rows == 0 && gen_bool(1, 4) { vec![] } else { gen_splits(t.rows, 5) };
    let mut r = 0;
    let mut chunks = Vec::new();
    let squeeze = gen_bool(1, 3);
    for n in &splits {
        let mut a = struct_batch(t, r, r + n, 1);
        if squeeze {
            if let Some(x) = compress_some(&a) {
                if x.dtype() == a.dtype() && vortex::array::StructArray::try_from(&x).is_ok() {
                    a = x;
                }
            }
        }
        r += n;
        chunks.push(a);
    }
    if chunks.len() == 1 && gen_bool(1, 2) {
        return (chunks.remove(0), "one struct".into());
    }
    (ChunkedArray::try_new(chunks, table_dtype(t)).expect("chunks").into_array(), format!("chunks {splits:?}"))
}

fn d02() -> Res {
    with_tokio(d02_run)
}

fn d02_run() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
    let schema = schema_of(&t)?;
    let types = types_of(&schema);
    let nq = *pick(&[1usize, 1, 2]);
    let qs: Vec<Query> = (0..nq).map(|_| gen_query(&t)).collect();
    let (array, how) = in_memory(&t);
    let mut ctxs = Vec::new();
    let mut descs = Vec::new();
    for pushdown in [true, false] {
        let (ctx, desc) = session(t.rows);
        for name in ["t", "u"] {
            ctx.register_mem_vortex_opts(name, array.clone(), VortexMemTableOptions::default().with_pushdown(pushdown)).expect("register");
        }
        descs.push(desc);
        ctxs.push(ctx);
    }
    set_sample(format!(
        "{}; {how}; {descs:?}; {}",
        t.show(),
        qs.iter().map(|q| q.show(&t)).collect::<Vec<_>>().join(" || ")
    ));
    let want = reference(&t, &schema, &qs)?;
    // every query with and without pushdown, all side by side
    let both: Vec<Query> = qs.iter().flat_map(|q| [q.clone(), q.clone()]).collect();
    let max = world::with(|w| w.max_delay) + 1;
    let deadlines: Vec<Option<u64>> = both
        .iter()
        .map(|_| (choose(Stream::Fault, 12) == 0).then(|| choose(Stream::Fault, max * 4)))
        .collect();
    let outs = ask_all(&[&ctxs[0], &ctxs[1]], &both, &deadlines, &t, &types)?;
    if t.rows > 1 && qs.iter().any(|q| !q.filter.is_empty()) {
        probe("nontrivial");
    }
    for (i, (q, g)) in both.iter().zip(&outs).enumerate() {
        let how = if i % 2 == 0 { "with-pushdown" } else { "without-pushdown" };
        judge(q, &t, g, &want[i / 2], false).map_err(|e| V { class: format!("{how}-{}", e.class), detail: e.detail })?;
    }
    Ok(())
}

pub const D02: Prop = Prop {
    id: "D02",
    run: d02,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run asks one or two queries over one in-memory table in a drawn physical form, each with and without pushdown, all side by side, their scans delayed as drawn and some given up on; non-trivial if a query has a condition and the table more than one row; distinct by event digest",
    real: &["vortex-datafusion in-memory tables and operators, vortex-expr conversion", "vortex-array, encodings", "DataFusion"],
    stub: &["async executor and clock (simulator; DataFusion's tasks on a tokio runtime the simulator steps)"],
    assumptions: &[
        "DataFusion over its own in-memory table of the reference rows gives the right answer",
        "columns with NaN or zero floats are not compared or ordered by (the two customary float orders differ)",
    ],
};

// ------------------------------------------------------------------ D03

const STATS: [Stat; 10] = [
    Stat::Min,
    Stat::Max,
    Stat::NullCount,
    Stat::IsSorted,
    Stat::IsStrictSorted,
    Stat::IsConstant,
    Stat::TrueCount,
    Stat::RunCount,
    Stat::BitWidthFreq,
    Stat::TrailingZeroFreq,
];

/// Computes statistics here and there, as earlier users of the array would have.
fn history(a: &Array) {
    let compute = |x: &Array| {
        if gen_bool(1, 3) {
            let _ = x.statistics().compute(*pick(&STATS));
        }
        if gen_bool(1, 3) {
            let _ = x.statistics().compute(*pick(&STATS[..3]));
        }
    };
    let fields = |x: &Array| {
        x.with_dyn(|s| {
            if let Some(s) = s.as_struct_array() {
                for i in 0..s.nfields() {
                    if let Some(f) = s.field(i) {
                        compute(&f);
                        if let Ok(c) = ChunkedArray::try_from(&f) {
                            for k in c.chunks() {
                                compute(&k);
                            }
                            if gen_bool(1, 3) {
                                compute(&f);
                            }
                        }
                    }
                }
            }
        })
    };
    for _ in 0..gen(3) {
        compute(a);
        if let Ok(c) = ChunkedArray::try_from(a) {
            for k in c.chunks() {
                fields(&k);
            }
        }
        fields(a);
    }
}

/// A column chunked its own way inside one struct, as a file reader may hand it over.
fn columnar(t: &Table) -> (Array, String) {
    let cols: Vec<Array> = t
        .cols
        .iter()
        .zip(&t.data)
        .map(|((_, dt), c)| {
            let mut r = 0;
            let parts: Vec<Array> = gen_splits(t.rows, 4)
                .into_iter()
                .map(|n| {
                    let a = vsim::val::build(dt, &c[r..r + n], 1);
                    r += n;
                    a
                })
                .collect();
            ChunkedArray::try_new(parts, dt.dtype()).expect("chunks").into_array()
        })
        .collect();
    let a = vortex::array::StructArray::try_new(
        t.cols.iter().map(|(n, _)| n.as_str().into()).collect::<Vec<_>>().into(),
        cols,
        t.rows,
        vortex::validity::Validity::NonNullable,
    )
    .expect("columns have the table's length")
    .into_array();
    (a, "chunked columns".into())
}

fn less(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Bool(x), Val::Bool(y)) => x < y,
        (Val::Int(x), Val::Int(y)) => x < y,
        (Val::Bytes(x), Val::Bytes(y)) => x < y,
        (Val::F16(x), Val::F16(y)) => {
            vortex_dtype::half::f16::from_bits(*x) < vortex_dtype::half::f16::from_bits(*y)
        }
        (Val::F32(x), Val::F32(y)) => f32::from_bits(*x) < f32::from_bits(*y),
        (Val::F64(x), Val::F64(y)) => f64::from_bits(*x) < f64::from_bits(*y),
        _ => false,
    }
}

fn judge_extreme(what: &str, name: &str, col: &[Val], dt: &DataType, claim: &ScalarValue, max: bool) -> Res {
    let vals: Vec<&Val> = col.iter().filter(|x| !x.is_null()).collect();
    if claim.is_null() {
        if !vals.is_empty() {
            return v(format!("wrong-{what}"), format!("{name}: exactly null although there are {} values", vals.len()));
        }
        return Ok(());
    }
    if claim.data_type() != *dt {
        return v(format!("wrong-{what}-type"), format!("{name}: a claim of type {} for a column of type {dt}", claim.data_type()));
    }
    if vals.is_empty() {
        return v(format!("wrong-{what}"), format!("{name}: exactly {claim} although there are no values"));
    }
    if vals.iter().any(|x| odd_float(x)) {
        return Ok(());
    }
    let got = from_arrow(claim.to_array().expect("array of a scalar").as_ref()).remove(0);
    let best = vals
        .iter()
        .fold(vals[0], |a, b| if less(a, b) == max { b } else { a });
    let best = vals.iter().fold(best, |a, b| {
        let better = if max { less(a, b) } else { less(b, a) };
        if better { b } else { a }
    });
    if got != *best {
        return v(format!("wrong-{what}"), format!("{name}: exactly {} instead of {}", got.show(), best.show()));
    }
    Ok(())
}

fn d03() -> Res {
    with_tokio(d03_run)
}

fn d03_run() -> Res {
    world::swarm();
    let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
    let schema = schema_of(&t)?;
    let types = types_of(&schema);
    let (array, how) = if gen_bool(1, 3) { columnar(&t) } else { in_memory(&t) };
    set_sample(format!("{}; {how}", t.show()));
    let rounds = gen_range(1, 3);
    for round in 0..rounds {
        history(&array);
        let table = VortexMemTable::new(array.clone(), VortexMemTableOptions::default().with_pushdown(gen_bool(1, 2)));
        let (ctx, _) = session(t.rows);
        let mut proj: Vec<usize> = (0..t.cols.len()).collect();
        for i in 0..proj.len() {
            proj.swap(i, gen(t.cols.len() as u64) as usize);
        }
        proj.truncate(gen_range(0, t.cols.len() as u64) as usize);
        let arg = if proj.len() == t.cols.len() && gen_bool(1, 2) { None } else { Some(&proj) };
        let cols = arg.cloned().unwrap_or((0..t.cols.len()).collect());
        let state = ctx.state();
        let plan = match block_on(table.scan(&state, arg, &[], None)).or_else(stalled)? {
            Ok(p) => p,
            Err(e) => return v("scan-fails", one_line(&e.to_string())),
        };
        let st = match plan.statistics() {
            Ok(s) => s,
            Err(e) => return v("statistics-fail", one_line(&e.to_string())),
        };
        if let Precision::Exact(n) = st.num_rows {
            if n != t.rows {
                return v("wrong-row-count", format!("exactly {n} rows instead of {}", t.rows));
            }
        }
        if st.column_statistics.len() != cols.len() {
            return v("wrong-column-count", format!("statistics of {} columns for {}", st.column_statistics.len(), cols.len()));
        }
        for (c, s) in cols.iter().zip(&st.column_statistics) {
            let (name, col) = (&t.cols[*c].0, &t.data[*c]);
            let nulls = col.iter().filter(|x| x.is_null()).count();
            if let Precision::Exact(n) = s.null_count {
                probe("exact_null_count");
                if n != nulls {
                    return v("wrong-null-count", format!("{name}: exactly {n} nulls instead of {nulls}"));
                }
            }
            if let Precision::Exact(m) = &s.max_value {
                probe("exact_max");
                judge_extreme("max", name, col, &types[*c], m, true)?;
            }
            if let Precision::Exact(m) = &s.min_value {
                probe("exact_min");
                judge_extreme("min", name, col, &types[*c], m, false)?;
            }
        }
        // queries that statistics alone can answer
        for name in ["t", "u"] {
            ctx.register_table(name, Arc::new(table.clone())).expect("register");
        }
        let ok: Vec<usize> = (0..t.cols.len())
            .filter(|c| !matches!(t.cols[*c].1.ty, Ty::Null | Ty::Struct(_)) && !t.data[*c].iter().any(odd_float))
            .collect();
        let aggs: Vec<A> = (0..gen_range(1, 3))
            .map(|_| match gen(4) {
                0 => A::Rows,
                _ if ok.is_empty() => A::Rows,
                1 => A::Count(*pick(&ok)),
                2 => A::Min(*pick(&ok)),
                _ => A::Max(*pick(&ok)),
            })
            .collect();
        let qs = vec![Query { filter: vec![], kind: Kind::Agg { aggs, group: None }, late_filter: false }, gen_query(&t)];
        let want = reference(&t, &schema, &qs)?;
        let outs = ask_all(&[&ctx], &qs, &[None, None], &t, &types)?;
        for (q, (g, w)) in qs.iter().zip(outs.iter().zip(&want)) {
            judge(q, &t, g, w, false)?;
        }
        if round > 0 && t.rows > 1 {
            probe("nontrivial");
        }
    }
    Ok(())
}

pub const D03: Prop = Prop {
    id: "D03",
    run: d03,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run computes drawn statistics of drawn parts of one in-memory table, asks the table for its exact statistics, then asks queries that statistics can answer, up to three times over; non-trivial if the table was asked again after queries and further statistics; distinct by event digest",
    real: &["vortex-datafusion statistics, vortex-scalar conversion", "vortex-array statistics", "encodings", "DataFusion's statistics-based planning"],
    stub: &["async executor and clock (simulator)"],
    assumptions: &[
        "extremes of columns with NaN or zero floats are not judged (the two customary float orders differ)",
        "total_byte_size is an estimate and is not judged",
    ],
};
