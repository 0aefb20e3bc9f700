//! Properties of object-store storage: uploads and ranged reads.

use std::io;
use std::sync::{Arc, Mutex};

use bytes::{Bytes, BytesMut};
use object_store::path::Path;
use object_store::{ObjectStore, WriteMultipart};
use vortex_buffer::io_buf::IoBuf;
use vortex_serde::io::{ObjectStoreExt, ObjectStoreReadAt, ObjectStoreWriter, VortexRead, VortexReadAt, VortexWrite};

use super::files::{any_spec, first_line, judge_faulty, written};
use super::streams::{check_same, gen_items, gen_style, receive, show_items, write_items, written_items, Item};
use crate::ev;
use crate::exec::{block_on, run, with_tokio, Task};
use crate::file::*;
use crate::gen::{gen_rows, Table, ALL_TYPES};
use crate::objstore::{GetFault, PutFault, SimObjects};
use crate::runner::{v, Prop, Res, V};
use crate::world::{self, choose, fault, gen, gen_bool, gen_range, latency, pick, probe, Stream};

const STUB: &[&str] = &["object store (ObjectStore/MultipartUpload implemented by the simulator)", "async executor and clock (simulator; spawned tasks on a tokio runtime the simulator steps)"];

// ------------------------------------------------------------------ O01

/// Remembers what was handed over.
struct Tee<W> {
    inner: W,
    log: Arc<Mutex<Vec<u8>>>,
}

impl<W: VortexWrite> VortexWrite for Tee<W> {
    async fn write_all<B: IoBuf>(&mut self, buffer: B) -> io::Result<B> {
        latency().await;
        self.log.lock().unwrap().extend_from_slice(buffer.as_slice());
        self.inner.write_all(buffer).await
    }
    async fn flush(&mut self) -> io::Result<()> {
        self.inner.flush().await
    }
    async fn shutdown(&mut self) -> io::Result<()> {
        self.inner.shutdown().await
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Write(usize),
    Flush,
}

enum Src {
    Raw(Vec<Op>),
    File(Plan),
    Items(Vec<Item>),
}

#[derive(Default)]
struct Upload {
    /// an error was reported before the shutdown
    early: Option<String>,
    shutdown: Option<Result<(), String>>,
    dropped: bool,
    /// the old object changed before the shutdown
    visible: bool,
    late: Option<&'static str>,
}

fn filler(at: usize, n: usize) -> Vec<u8> {
    (at..at + n).map(|i| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes()[7]).collect()
}

async fn upload<W: VortexWrite>(
    w: W,
    src: &Src,
    store: &SimObjects,
    log: Arc<Mutex<Vec<u8>>>,
    insist: bool,
    drop_at: Option<usize>,
) -> Upload {
    let mut u = Upload::default();
    let old = store.get_now(OBJ);
    let changed = || store.get_now(OBJ) != old;
    let mut w = Tee { inner: w, log };
    match src {
        Src::Raw(ops) => {
            let mut at = 0;
            for (i, op) in ops.iter().enumerate() {
                if drop_at == Some(i) {
                    u.dropped = true;
                    return u;
                }
                let r = match op {
                    Op::Write(n) => {
                        at += n;
                        w.write_all(filler(at - n, *n)).await.map(|_| ())
                    }
                    Op::Flush => w.flush().await,
                };
                u.visible |= changed();
                if let Err(e) = r {
                    ev!("{op:?} failed");
                    u.early.get_or_insert(e.to_string());
                    if !insist {
                        return u;
                    }
                }
            }
        }
        Src::File(plan) => match write_plan(&mut w, plan).await {
            Ok(_) => {}
            Err(e) => {
                u.early = Some(e.to_string());
                if !insist {
                    return u;
                }
            }
        },
        Src::Items(items) => match write_items(&mut w, items).await {
            Ok(_) => {}
            Err(e) => {
                u.early = Some(e.to_string());
                if !insist {
                    return u;
                }
            }
        },
    }
    u.visible |= changed();
    if drop_at.is_some() {
        u.dropped = true;
        return u;
    }
    let r = w.shutdown().await;
    ev!("shutdown {}", if r.is_ok() { "succeeded" } else { "failed" });
    u.shutdown = Some(r.map_err(|e| e.to_string()));
    if gen_bool(1, 4) {
        // It is over: nothing more can be written, and nothing is.
        if w.inner.write_all(vec![1u8, 2, 3]).await.is_ok() {
            u.late = Some("write");
        } else if w.inner.flush().await.is_ok() {
            u.late = Some("flush");
        } else if w.inner.shutdown().await.is_ok() {
            u.late = Some("shutdown");
        }
    }
    u
}

const OBJ: &str = "dir/object.vtx";

fn o01() -> Res {
    with_tokio(o01_run)
}

fn o01_run() -> Res {
    world::swarm();
    let big = gen_bool(1, 400);
    let mut table = None;
    let mut desc;
    let src = match gen(6) {
        0 if !big => {
            let t = Table::generate(gen_rows(600), 4, ALL_TYPES);
            let p = plan_write(&t, 1, 4);
            desc = format!("a file: {}; {}", t.show(), p.desc);
            table = Some(t);
            Src::File(p)
        }
        1 if !big => {
            let items = gen_items(400, 4);
            desc = format!("a stream: {}", show_items(&items));
            Src::Items(items)
        }
        _ if big => {
            let m = 10 << 20;
            let ops = match gen(4) {
                0 => vec![Op::Write(m)],
                1 => vec![Op::Write(m + 1 + gen(1000) as usize)],
                2 => vec![Op::Write(m - 1), Op::Flush, Op::Write(2)],
                _ => vec![Op::Write(gen(m as u64) as usize), Op::Write(m), Op::Write(gen(m as u64) as usize)],
            };
            desc = format!("{ops:?}");
            Src::Raw(ops)
        }
        _ => {
            let max = *pick(&[10u64, 1, 100, 3000]);
            let ops: Vec<Op> = (0..gen_range(0, 12))
                .map(|_| if gen_bool(1, 5) { Op::Flush } else { Op::Write(gen(max + 1) as usize) })
                .collect();
            desc = format!("{ops:?}");
            Src::Raw(ops)
        }
    };
    let chunk = match &src {
        _ if big => 10 << 20,
        Src::Raw(ops) => {
            let total: usize = ops.iter().map(|o| if let Op::Write(n) = o { *n } else { 0 }).sum();
            (*pick(&[64usize, 1, 2, 7, 100, 1000, 4096])).max(total / 200)
        }
        _ => *pick(&[1000usize, 64, 200, 4096, 1 << 20]),
    };
    let default_parts = big || gen_bool(1, 5);
    desc = format!("parts of {}; {desc}", if default_parts { "default size".to_string() } else { chunk.to_string() });
    set_sample(desc.clone());
    let mut store = SimObjects::new(gen_bool(1, 2));
    if gen_bool(1, 2) {
        store = store.with(OBJ, Bytes::from_static(b"what was there before"));
    }
    let old = store.get_now(OBJ);
    let insist = gen_bool(1, 2);
    let n_ops = if let Src::Raw(o) = &src { o.len() } else { 1 };
    let mut drop_at = None;
    {
        let mut s = store.state.lock().unwrap();
        match choose(Stream::Fault, 8) {
            7 => drop_at = Some(choose(Stream::Fault, n_ops as u64 + 1) as usize),
            6 => s.put_faults.push(PutFault::Complete),
            5 if default_parts => s.put_faults.push(PutFault::Start),
            3..=5 => {
                let parts = *pick(&[3u64, 1, 10, 60]);
                for _ in 0..1 + choose(Stream::Fault, 3) {
                    s.put_faults.push(PutFault::Part(choose(Stream::Fault, parts)));
                }
            }
            _ => {}
        }
    }
    if drop_at.is_some() {
        fault("writer_dropped");
    }
    let log = Arc::new(Mutex::new(Vec::new()));
    let dynstore = store.arc();
    let path = Path::from(OBJ);
    let u = block_on(async {
        if default_parts {
            match dynstore.vortex_writer(&path).await {
                Ok(w) => Some(upload(w, &src, &store, log.clone(), insist, drop_at).await),
                Err(_) => None,
            }
        } else {
            let up = dynstore.put_multipart(&path).await.expect("starts");
            let w = ObjectStoreWriter::new(WriteMultipart::new_with_chunk_size(up, chunk));
            Some(upload(w, &src, &store, log.clone(), insist, drop_at).await)
        }
    })
    .or_else(stalled)?;
    // whatever still goes on in the background
    for _ in 0..4 {
        block_on(world::delay(world::with(|w| w.max_delay) * 2 + 1)).or_else(stalled)?;
    }
    let now = store.get_now(OBJ);
    let (fired, parts) = {
        let s = store.state.lock().unwrap();
        (s.fired, s.parts)
    };
    if parts > 1 {
        probe("nontrivial");
    }
    if store.state.lock().unwrap().max_inflight > 1 {
        probe("parts_in_flight_together");
    }
    let Some(u) = u else {
        if fired == 0 {
            return v("spurious-error", format!("{desc}: the upload could not be started though nothing failed"));
        }
        return if now != old { v("published-without-upload", desc) } else { Ok(()) };
    };
    if u.visible {
        return v("visible-early", format!("{desc}: the object appeared before the upload was completed"));
    }
    if let Some(what) = u.late {
        return v("continues-after-end", format!("{desc}: a {what} after the shutdown succeeded"));
    }
    let log = log.lock().unwrap().clone();
    match &u.shutdown {
        Some(Ok(())) => {
            if now.as_deref() != Some(&log[..]) {
                return v(
                    "published-incomplete",
                    format!(
                        "{desc}: shutdown succeeded{} but the object {} of the {} bytes written",
                        if u.early.is_some() { " after an error" } else { "" },
                        match &now {
                            None => "does not exist instead".to_string(),
                            Some(n) if old.as_ref() == Some(n) => "is still the old one instead".to_string(),
                            Some(n) => format!(
                                "holds {} bytes, equal up to {},",
                                n.len(),
                                n.iter().zip(&log).take_while(|(a, b)| a == b).count()
                            ),
                        },
                        log.len()
                    ),
                );
            }
            if fired > 0 && u.early.is_none() {
                return v("error-swallowed", format!("{desc}: a request failed and nobody was told"));
            }
        }
        _ => {
            if fired == 0 && !u.dropped {
                let e = match &u.shutdown {
                    Some(Err(e)) => e.clone(),
                    _ => u.early.clone().unwrap_or_default(),
                };
                return v("spurious-error", format!("{desc}: no request failed and yet: {}", first_line(&e)));
            }
            if now != old {
                return v(
                    "published-after-error",
                    format!("{desc}: the upload {} and an object of {} bytes appeared", if u.dropped { "was abandoned" } else { "failed" }, now.map(|n| n.len()).unwrap_or(0)),
                );
            }
            return Ok(());
        }
    }
    if let (Some(t), true) = (table, u.early.is_none()) {
        probe("file_read_back");
        let spec = ScanSpec { give_size: gen_bool(1, 2), ..Default::default() };
        let size = log.len() as u64;
        let out = block_on(scan(ObjectStoreReadAt::new(dynstore, path), size, &t, &spec, None)).or_else(stalled)?;
        check_complete(&t, &spec, &out)?;
    }
    Ok(())
}

pub const O01: Prop = Prop {
    id: "O01",
    run: o01,
    quick: 100_000,
    quick_secs: 25,
    thorough: 5_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run uploads one sequence of writes and flushes, one layout file or one stream through one multipart upload whose parts complete in a drawn order and may fail; non-trivial if the upload has more than one part; distinct by event digest",
    real: &["vortex-serde object-store writer, layout writer, stream writer", "object_store WriteMultipart", "tokio JoinSet"],
    stub: STUB,
    assumptions: &["an upload becomes visible when it is completed, at once and as a whole (what object stores promise)"],
};

// ------------------------------------------------------------------ O02

fn plan_get_faults(store: &SimObjects, gets: u64, heads: u64) {
    let mut s = store.state.lock().unwrap();
    let f = || match choose(Stream::Fault, 8) {
        0 => GetFault::Error,
        1 => GetFault::Timeout,
        2 => GetFault::NotFound,
        3 => GetFault::Denied,
        4 | 5 => GetFault::Short(choose(Stream::Fault, 200) as usize),
        _ => GetFault::Long(choose(Stream::Fault, 64) as usize),
    };
    match choose(Stream::Fault, 8) {
        0 | 1 => {}
        2 => s.dead_from = Some(choose(Stream::Fault, gets.max(1))),
        3 if heads > 0 => {
            let k = choose(Stream::Fault, heads);
            let f = [GetFault::Error, GetFault::Timeout, GetFault::NotFound, GetFault::Denied][choose(Stream::Fault, 4) as usize];
            s.head_faults.insert(k, f);
        }
        _ => {
            for _ in 0..1 + choose(Stream::Fault, 2) {
                let k = choose(Stream::Fault, gets.max(1));
                let f = f();
                s.get_faults.insert(k, f);
            }
        }
    }
}

fn o02() -> Res {
    with_tokio(o02_run)
}

fn o02_run() -> Res {
    world::swarm();
    match gen(8) {
        0 => o02_ranges(),
        1 => o02_stream(),
        _ => o02_files(),
    }
}

/// Scans of a file, one or two at a time.
fn o02_files() -> Res {
    let t = Table::generate(gen_rows(1000), 4, ALL_TYPES);
    let plan = plan_write(&t, 1, 5);
    let bytes = written(&plan)?;
    let size = bytes.len() as u64;
    let k = if gen_bool(1, 4) { 2 } else { 1 };
    let specs: Vec<ScanSpec> = (0..k).map(|_| any_spec(&t)).collect();
    set_sample(format!("{}; {}; {}", t.show(), plan.desc, specs.iter().map(|s| s.show(&t)).collect::<Vec<_>>().join(" with ")));
    let path = Path::from(OBJ);
    let go = |stores: &[SimObjects]| -> Result<Vec<ScanOut>, V> {
        let mut outs: Vec<Option<ScanOut>> = vec![None; specs.len()];
        {
            let tasks: Vec<Option<Task<'_>>> = outs
                .iter_mut()
                .zip(&specs)
                .zip(stores)
                .map(|((o, s), st)| {
                    let rd = ObjectStoreReadAt::new(st.arc(), path.clone());
                    let t = &t;
                    Some(Box::pin(async move {
                        *o = Some(scan(rd, size, t, s, None).await);
                    }) as Task<'_>)
                })
                .collect();
            run(tasks).or_else(stalled)?;
        }
        Ok(outs.into_iter().map(|o| o.expect("finished")).collect())
    };
    let fresh = || SimObjects::new(true).with(OBJ, bytes.clone());
    let dry: Vec<SimObjects> = specs.iter().map(|_| fresh()).collect();
    for (o, s) in go(&dry)?.iter().zip(&specs) {
        check_complete(&t, s, o)?;
    }
    let stores: Vec<SimObjects> = specs.iter().map(|_| fresh()).collect();
    for (d, s) in dry.iter().zip(&stores) {
        let (g, h, oob) = {
            let d = d.state.lock().unwrap();
            (d.gets, d.heads, d.out_of_bounds.clone())
        };
        if let Some(r) = oob {
            return v("out-of-bounds", format!("the reader asks for bytes {r:?} of {size}"));
        }
        plan_get_faults(s, g, h);
    }
    let outs = go(&stores)?;
    for ((o, s), st) in outs.iter().zip(&specs).zip(&stores) {
        let (fired, gets) = {
            let x = st.state.lock().unwrap();
            (x.fired, x.gets)
        };
        if gets > 2 && t.rows > 0 {
            probe("nontrivial");
        }
        judge_faulty(&t, s, o, fired)?;
        st.clear_faults();
    }
    for (o, s) in go(&stores)?.iter().zip(&specs) {
        check_complete(&t, s, o).map_err(|e| V { class: format!("after-recovery-{}", e.class), detail: e.detail })?;
    }
    Ok(())
}

/// Single ranges, several at a time.
fn o02_ranges() -> Res {
    let n = *pick(&[100usize, 1, 2, 1000, 5000]);
    let data = Bytes::from(filler(3, n));
    let store = SimObjects::new(true).with(OBJ, data.clone());
    let k = gen_range(1, 6);
    let asks: Vec<(usize, usize, bool)> = (0..k)
        .map(|_| {
            let a = gen(n as u64 + 1) as usize;
            // sometimes beyond the end
            let b = if gen_bool(1, 8) { n + 1 + gen(10) as usize } else { a + gen((n - a) as u64 + 1) as usize };
            (a, b, gen_bool(1, 2))
        })
        .collect();
    set_sample(format!("ranges {asks:?} of {n} bytes"));
    plan_get_faults(&store, k, 1);
    let path = Path::from(OBJ);
    let mut outs: Vec<Option<(io::Result<Vec<u8>>, u64)>> = (0..k).map(|_| None).collect();
    let dynstore = store.arc();
    let mut size = None;
    {
        let mut tasks: Vec<Option<Task<'_>>> = outs
            .iter_mut()
            .zip(&asks)
            .map(|(o, (a, b, whole))| {
                let (dynstore, path, store) = (&dynstore, &path, &store);
                Some(Box::pin(async move {
                    let before = store.fired();
                    let r = if *whole {
                        let mut buf = BytesMut::zeroed(b - a);
                        buf.fill(0xAA);
                        dynstore.vortex_reader(path).read_at_into(*a as u64, buf).await.map(|b| b.to_vec())
                    } else {
                        match dynstore.vortex_read(path, *a..*b).await {
                            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e.to_string())),
                            Ok(mut r) => {
                                // in two pieces
                                let m = (b - a) / 2;
                                match r.read_into(BytesMut::zeroed(m)).await {
                                    Err(e) => Err(e),
                                    Ok(x) => r.read_into(BytesMut::zeroed(b - a - m)).await.map(|y| [x.to_vec(), y.to_vec()].concat()),
                                }
                            }
                        }
                    };
                    *o = Some((r, store.fired() - before));
                }) as Task<'_>)
            })
            .collect();
        if gen_bool(1, 2) {
            let (dynstore, path, size) = (&dynstore, &path, &mut size);
            tasks.push(Some(Box::pin(async move {
                *size = Some(dynstore.vortex_reader(path).size().await);
            })));
        }
        run(tasks).or_else(stalled)?;
    }
    if k > 1 {
        probe("nontrivial");
    }
    let fired = store.fired();
    let mut errors = 0;
    for ((a, b, whole), o) in asks.iter().zip(outs) {
        let (r, during) = o.expect("finished");
        let how = if *whole { "read_at_into" } else { "vortex_read" };
        match r {
            Ok(x) if *b > n => return v("invented-bytes", format!("{how} of {a}..{b} of {n} bytes succeeds with {} bytes", x.len())),
            Ok(x) if x[..] != data[*a..*b] => return v("wrong-bytes", format!("{how} of {a}..{b}: got {} bytes that are not those stored", x.len())),
            Ok(_) => {}
            Err(e) => {
                errors += 1;
                if *b > n {
                    continue;
                }
                if during == 0 {
                    return v("spurious-error", format!("{how} of {a}..{b} of {n}: {e}"));
                }
            }
        }
    }
    match size {
        Some(Ok(s)) if s != n as u64 => return v("wrong-size", format!("size is {s} instead of {n}")),
        Some(Err(e)) if fired == 0 => return v("spurious-error", format!("size: {e}")),
        Some(Err(_)) => errors += 1,
        _ => {}
    }
    if errors < fired {
        return v("error-swallowed", format!("{fired} requests failed, {errors} errors were reported"));
    }
    Ok(())
}

/// A stream of arrays kept in an object.
fn o02_stream() -> Res {
    let items = gen_items(400, 4);
    let bytes = Bytes::from(written_items(&items)?.into_inner());
    let n = bytes.len();
    let pad = gen(50) as usize;
    let mut all = vec![7u8; pad];
    all.extend_from_slice(&bytes);
    all.extend_from_slice(&[9; 20]);
    set_sample(format!("{} at {pad}", show_items(&items)));
    let store = SimObjects::new(true).with(OBJ, Bytes::from(all));
    let style = gen_style(&items);
    let has_array = items.iter().any(|i| matches!(i, Item::Arr(_)));
    plan_get_faults(&store, 1, 0);
    let path = Path::from(OBJ);
    let dynstore = store.arc();
    let r = block_on(async {
        match dynstore.vortex_read(&path, pad..pad + n).await {
            Err(e) => Err(e.to_string()),
            Ok(r) => Ok(receive(r, has_array, style).await),
        }
    })
    .or_else(stalled)?;
    let fired = store.fired();
    match r {
        Err(_) if fired > 0 => Ok(()),
        Err(e) => v("spurious-error", e),
        Ok(g) if fired == 0 => {
            probe("nontrivial");
            check_same(&items, style, &g)
        }
        Ok(_) => v("error-swallowed", "the response had the wrong length and the stream was opened all the same"),
    }
}

pub const O02: Prop = Prop {
    id: "O02",
    run: o02,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run scans a file in the simulated object store (without and then with failing, short, oversized and late responses, then again after recovery), or reads drawn ranges concurrently, or reads a stream from a range; non-trivial if it took more than two requests (several ranges; a whole stream); distinct by event digest",
    real: &["vortex-serde object-store reader, layout reader, stream reader", "vortex-array, encodings, vortex-expr"],
    stub: STUB,
    assumptions: &["a response of the right length holds the right bytes", "the object does not change while it is read"],
};
