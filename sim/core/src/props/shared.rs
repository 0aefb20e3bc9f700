//! Arrays shared between threads.

use std::sync::{Arc, Mutex};

use vortex::array::{ChunkedArray, StructArray};
use vortex::compute::{slice, take};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};
use vortex_dtype::PType;
use vortex_scalar::Scalar;

use super::stats::{judge_all, judge_claims, STATS, TYPES};
use crate::file::set_sample;
use crate::gen::{gen_col, gen_dt, gen_rows, more_like};
use crate::runner::{v, Prop, Res, V};
use crate::threads::{run_threads, yield_here, End};
use crate::val::{build, build_prim, decode, Val};
use crate::world::{self, gen, gen_bool, gen_range, pick, probe};

#[derive(Clone)]
enum Op {
    Get(Stat),
    Compute(Stat),
    /// a copy of everything known
    Copy,
    /// pass on what is known to be true
    Set(Stat, Scalar),
    Slice(usize, usize),
    Take(Vec<usize>, Array),
    Decode,
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Get(s) => format!("get {s}"),
            Op::Compute(s) => format!("compute {s}"),
            Op::Copy => "copy".into(),
            Op::Set(s, _) => format!("set {s}"),
            Op::Slice(a, b) => format!("slice {a}..{b}"),
            Op::Take(i, _) => format!("take {i:?}"),
            Op::Decode => "decode".into(),
        }
    }
}

/// What a thread saw.
struct Seen {
    thread: usize,
    /// when the operation began and ended, in operations of all threads
    began: u64,
    ended: u64,
    array: usize,
    what: &'static str,
    stat: Stat,
    value: Option<Scalar>,
}

/// An array a thread made itself.
struct Made {
    name: String,
    array: Array,
    vals: Vec<Val>,
}

#[derive(Default)]
struct Book {
    clock: u64,
    seen: Vec<Seen>,
    made: Vec<Made>,
    errors: Vec<String>,
}

fn t01() -> Res {
    world::swarm();
    let dt = gen_dt(TYPES);
    let rows = gen_rows(200);
    let vals = gen_col(&dt, rows);
    // arrays with their values; containers share their parts with the others
    let mut pop: Vec<(Array, Vec<Val>, String)> = vec![(build(&dt, &vals, 2), vals, "#0".into())];
    for _ in 0..gen(4) {
        let i = pop.len();
        let k = gen(pop.len() as u64) as usize;
        let (a, vals) = (pop[k].0.clone(), pop[k].1.clone());
        let same = pop.iter().enumerate().filter(|(_, p)| p.0.dtype() == &dt.dtype()).map(|(i, _)| i).collect::<Vec<_>>();
        match gen(5) {
            0 => {
                let n = gen_rows(200);
                let w = more_like(&dt, &pop[0].1, n);
                pop.push((build(&dt, &w, 2), w, format!("#{i}")));
            }
            1 | 2 => {
                let ks: Vec<usize> = (0..gen_range(1, 3)).map(|_| same[gen(same.len() as u64) as usize]).collect();
                let c = ChunkedArray::try_new(ks.iter().map(|k| pop[*k].0.clone()).collect(), dt.dtype()).expect("chunks");
                let w = ks.iter().flat_map(|k| pop[*k].1.clone()).collect();
                pop.push((c.into_array(), w, format!("#{i} = chunks {ks:?}")));
            }
            3 => {
                let st = StructArray::try_new(["x".into(), "y".into()].into(), vec![a.clone(), a.clone()], vals.len(), Validity::NonNullable);
                if let Ok(st) = st {
                    let w = vals.iter().map(|x| Val::Struct(vec![x.clone(), x.clone()])).collect();
                    pop.push((st.into_array(), w, format!("#{i} = struct of #{k}")));
                }
            }
            _ => {
                let lo = gen(vals.len() as u64 + 1) as usize;
                let hi = lo + gen((vals.len() - lo) as u64 + 1) as usize;
                if let Ok(x) = slice(&a, lo, hi) {
                    pop.push((x, vals[lo..hi].to_vec(), format!("#{i} = #{k}[{lo}..{hi}]")));
                }
            }
        }
    }
    // parts are shared too
    let mut parts = Vec::new();
    for (i, (a, _, _)) in pop.iter().enumerate() {
        for (j, c) in a.depth_first_traversal().enumerate().skip(1) {
            if parts.len() < 6 {
                if let Ok(w) = decode(&c) {
                    parts.push((c, w, format!("part {j} of #{i}")));
                }
            }
        }
    }
    pop.extend(parts);
    for (a, vals, name) in &pop {
        judge_all(name, a, vals)?;
    }
    let threads = gen_range(2, 4) as usize;
    let few = gen_bool(1, 2);
    let favourite = *pick(&STATS);
    let scripts: Vec<Vec<(usize, Op)>> = (0..threads)
        .map(|_| {
            (0..gen_range(1, 8))
                .map(|_| {
                    let k = if few { 0 } else { gen(pop.len() as u64) as usize };
                    let stat = if few && gen_bool(1, 2) { favourite } else { *pick(&STATS) };
                    let n = pop[k].1.len();
                    let op = match gen(10) {
                        0..=3 => Op::Compute(stat),
                        4 | 5 => Op::Get(stat),
                        6 => Op::Copy,
                        7 => {
                            let nulls = pop[k].1.iter().filter(|x| x.is_null()).count() as u64;
                            Op::Set(Stat::NullCount, nulls.into())
                        }
                        8 if n > 0 => match gen(2) {
                            0 => {
                                let lo = gen(n as u64 + 1) as usize;
                                Op::Slice(lo, lo + gen((n - lo) as u64 + 1) as usize)
                            }
                            _ => {
                                let idx: Vec<usize> = (0..gen(20)).map(|_| gen(n as u64) as usize).collect();
                                let ia = build_prim(PType::U64, &idx.iter().map(|i| Val::Int(*i as i128)).collect::<Vec<_>>(), Validity::NonNullable);
                                Op::Take(idx, ia)
                            }
                        },
                        _ => Op::Decode,
                    };
                    (k, op)
                })
                .collect()
        })
        .collect();
    let desc = format!(
        "{} of {}; {}",
        pop.iter().map(|p| format!("{} ({}, {} rows)", p.2, p.0.encoding().id(), p.1.len())).collect::<Vec<_>>().join(", "),
        dt.show(),
        scripts
            .iter()
            .enumerate()
            .map(|(i, s)| format!("thread {i}: {}", s.iter().map(|(k, o)| format!("{} of {k}", o.show())).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join("; ")
    );
    set_sample(desc.clone());
    let book = Arc::new(Mutex::new(Book::default()));
    let jobs: Vec<Box<dyn FnOnce() + Send>> = scripts
        .into_iter()
        .enumerate()
        .map(|(t, script)| {
            let book = book.clone();
            let pop = pop.clone();
            Box::new(move || worker(t, script, &pop, &book)) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let prefer_writers = gen_bool(1, 2);
    match run_threads(jobs, prefer_writers) {
        End::Finished => {}
        End::Deadlock(d) => return v("deadlock", format!("{d}; {desc}")),
        End::Stuck(d) => return v("stuck", format!("{d}; {desc}")),
        End::Panicked(loc, msg) => {
            return v(format!("panic@{}", crate::runner::strip_line(&loc)), format!("panicked at {loc}: {msg}; {desc}"))
        }
    }
    let book = Arc::try_unwrap(book).ok().expect("threads are gone").into_inner().expect("book");
    if let Some(e) = book.errors.first() {
        return v("operation-failed", format!("{e}; {desc}"));
    }
    if book.seen.iter().filter(|s| s.value.is_some()).map(|s| s.thread).max() > Some(0) {
        probe("nontrivial");
    }
    for s in &book.seen {
        let (a, vals, name) = &pop[s.array];
        if let Some(x) = &s.value {
            probe("observations");
            judge_claims(&format!("{name} as thread {} sees it by {}", s.thread, s.what), a, vals, &[(s.stat, x.clone())])
                .map_err(|e| V { class: e.class, detail: format!("{} in {desc}", e.detail) })?;
        } else if matches!(a, Array::View(_)) {
            // a view of received bytes has no place to keep what is computed
        } else if let Some(before) =
            book.seen.iter().find(|b| b.array == s.array && b.stat == s.stat && b.value.is_some() && b.ended < s.began)
        {
            return v(
                "statistic-lost",
                format!("{} of {name}: thread {} had it by {}, later thread {} misses it by {}; {desc}", s.stat, before.thread, before.what, s.thread, s.what),
            );
        }
    }
    for m in &book.made {
        judge_all(&m.name, &m.array, &m.vals).map_err(|e| V { class: e.class, detail: format!("{} in {desc}", e.detail) })?;
        match decode(&m.array) {
            Ok(w) if w == m.vals => {}
            Ok(_) => return v("wrong-rows", format!("{} has other values; {desc}", m.name)),
            Err(e) => return v("operation-failed", format!("{}: {e}; {desc}", m.name)),
        }
    }
    // afterwards, alone: what was seen is still there, and everything is true
    for (k, (a, vals, name)) in pop.iter().enumerate() {
        judge_all(name, a, vals).map_err(|e| V { class: e.class, detail: format!("{} after {desc}", e.detail) })?;
        for s in &book.seen {
            if s.array == k && s.value.is_some() && !matches!(a, Array::View(_)) && a.statistics().get(s.stat).is_none() {
                return v("statistic-lost", format!("{} of {name}: thread {} had it by {}, in the end it is gone; {desc}", s.stat, s.thread, s.what));
            }
        }
    }
    Ok(())
}

fn worker(me: usize, script: Vec<(usize, Op)>, pop: &[(Array, Vec<Val>, String)], book: &Mutex<Book>) {
    for (k, op) in script {
        let (a, vals, name) = &pop[k];
        let began = {
            let mut b = book.lock().unwrap();
            b.clock += 1;
            b.clock
        };
        let mut saw: Vec<(&'static str, Stat, Option<Scalar>)> = Vec::new();
        let mut made = None;
        let mut error = None;
        match op {
            Op::Get(s) => saw.push(("get", s, a.statistics().get(s))),
            Op::Compute(s) => saw.push(("compute", s, a.statistics().compute(s))),
            Op::Copy => {
                let set = a.statistics().to_set();
                saw.extend(STATS.iter().map(|s| ("to_set", *s, set.get(*s).cloned())));
            }
            Op::Set(s, x) => {
                a.statistics().set(s, x.clone());
                saw.push(("set", s, Some(x)));
            }
            Op::Slice(lo, hi) => match slice(a, lo, hi) {
                Ok(x) => made = Some((format!("{name}[{lo}..{hi}] by thread {me}"), x, vals[lo..hi].to_vec())),
                Err(e) => error = Some(format!("slice of {name}: {e}")),
            },
            Op::Take(idx, ia) => {
                match take(a, &ia) {
                    Ok(x) => made = Some((format!("take {name} {idx:?} by thread {me}"), x, idx.iter().map(|i| vals[*i].clone()).collect())),
                    Err(e) => error = Some(format!("take of {name}: {e}")),
                }
            }
            Op::Decode => match a.clone().into_canonical() {
                Ok(c) => made = Some((format!("{name} decoded by thread {me}"), c.into(), vals.clone())),
                Err(e) => error = Some(format!("decoding {name}: {e}")),
            },
        }
        {
            let mut b = book.lock().unwrap();
            b.clock += 1;
            let ended = b.clock;
            for (what, stat, value) in saw {
                b.seen.push(Seen { thread: me, began, ended, array: k, what, stat, value });
            }
            if let Some((name, array, vals)) = made {
                b.made.push(Made { name, array, vals });
            }
            b.errors.extend(error);
        }
        yield_here();
    }
}

pub const T01: Prop = Prop {
    id: "T01",
    run: t01,
    quick: 60_000,
    quick_secs: 25,
    thorough: 2_000_000,
    thorough_secs: 1500,
    level: "simulated",
    rule: "one run lets 2-4 real threads work through drawn scripts of statistic queries, copies, updates and derivations on arrays they share, one thread at a time, switching at every lock operation as the schedule says; non-trivial if a thread other than the first saw a statistic; distinct by event digest (which includes the schedule)",
    real: &["vortex-array ArrayData statistics cache, statistics of all encodings, slice, take, canonicalisation, std RwLock"],
    stub: &["thread scheduler (simulator; the lock is std's behind the cfg(vortex_sim) wrapper)"],
    assumptions: &[
        "threads interleave at lock operations and between operations; safe Rust leaves no other communication",
        "run counts, bit-width and trailing-zero frequencies are estimates and are not judged",
    ],
};
