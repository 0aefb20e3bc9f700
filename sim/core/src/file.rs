//! Writing tables to simulated sinks, scanning them from simulated stores, and what to expect.

use std::cell::RefCell;
use std::io::Cursor;
use std::sync::Arc;

use futures::stream::{self, StreamExt};
use vortex::array::{ChunkedArray, StructArray};
use vortex::stream::ArrayStreamAdapter;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::DType;
use vortex_error::{VortexError, VortexResult};
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_serde::io::{VortexReadAt, VortexWrite};
use crate::io::SimStore;
use vortex_serde::layouts::{VortexRecordBatchReader, 
    LayoutBatchStream, LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection,
    RowFilter, INITIAL_READ_SIZE,
};
use vortex_serde::layouts::sim::INITIAL_READ;

use crate::comp::gen_compressor;
use crate::ev;
use crate::gen::{gen_splits, Table};
use crate::pred::Pred;
use crate::runner::{v, Res, V};
use crate::val::{build, decode, decode_at, show_vals, struct_dtype, Val};
use crate::world::{self, gen, gen_bool, gen_range, latency, pick, probe};

// ------------------------------------------------------------------ writing

#[derive(Clone)]
pub enum Step {
    Columns(Array),
    Stream(Vec<Array>),
}

#[derive(Clone)]
pub struct Plan {
    pub dtype: DType,
    pub steps: Vec<Step>,
    pub desc: String,
}

/// Rows r0..r1 of the table as one struct array in a drawn physical form.
pub fn struct_batch(t: &Table, r0: usize, r1: usize, depth: u32) -> Array {
    let cols: Vec<Array> = t
        .cols
        .iter()
        .zip(&t.data)
        .map(|((_, dt), c)| build(dt, &c[r0..r1], depth))
        .collect();
    StructArray::try_new(
        t.cols.iter().map(|(n, _)| n.as_str().into()).collect::<Vec<_>>().into(),
        cols,
        r1 - r0,
        Validity::NonNullable,
    )
    .expect("columns have the table's length")
    .into_array()
}

/// Development aid: when set, the physical form of every written array is printed.
pub static TREE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn show_tree(a: &Array) {
    if TREE.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("{}", a.tree_display());
    }
}

pub fn table_dtype(t: &Table) -> DType {
    struct_dtype(&t.cols)
}

/// Draws how the table is handed to the writer.
pub fn plan_write(t: &Table, depth: u32, max_batches: u64) -> Plan {
    let dtype = table_dtype(t);
    let splits = if t.rows == 0 && gen_bool(1, 4) {
        vec![]
    } else if t.cols.len() < 9 && gen_bool(1, 64) {
        // Crumbs: more chunks than a byte can count.
        probe("crumbs");
        gen_splits(t.rows, 200 + gen(500))
    } else {
        gen_splits(t.rows, max_batches)
    };
    let mut desc = if splits.len() > 40 {
        format!("{} batches, {} of them empty", splits.len(), splits.iter().filter(|n| **n == 0).count())
    } else {
        format!("batches {splits:?}")
    };
    let compressor = if splits.len() < 40 && gen_bool(1, 3) { Some(gen_compressor()) } else { None };
    let mut r = 0;
    let mut prev: Option<Array> = None;
    let mut batches = Vec::new();
    for n in &splits {
        let mut a = struct_batch(t, r, r + n, depth);
        if let Some((c, d)) = &compressor {
            if let Ok(x) = c.compress(&a, None) {
                let x = x.into_array();
                if StructArray::try_from(&x).is_ok() && x.dtype() == &dtype {
                    probe("compressed_batch");
                    a = x;
                    if prev.is_none() {
                        desc = format!("{desc} compressed with {d}");
                    }
                }
            }
        }
        show_tree(&a);
        prev = Some(a.clone());
        batches.push(a);
        r += n;
    }
    let mut steps = Vec::new();
    match gen(3) {
        0 => {
            desc.push_str(" one call, chunked");
            steps.push(Step::Columns(
                ChunkedArray::try_new(batches, dtype.clone()).expect("chunks").into_array(),
            ));
        }
        1 => {
            desc.push_str(" streamed");
            steps.push(Step::Stream(batches));
        }
        _ => {
            // several calls, each with some of the batches
            let mut it = batches.into_iter().peekable();
            if it.peek().is_none() {
                steps.push(Step::Stream(vec![]));
            }
            while it.peek().is_some() {
                let k = gen_range(1, 3) as usize;
                let part: Vec<Array> = it.by_ref().take(k).collect();
                if part.len() == 1 && gen_bool(1, 2) {
                    steps.push(Step::Columns(part.into_iter().next().expect("one")));
                } else if gen_bool(1, 2) {
                    steps.push(Step::Columns(
                        ChunkedArray::try_new(part, dtype.clone()).expect("chunks").into_array(),
                    ));
                } else {
                    steps.push(Step::Stream(part));
                }
            }
            desc.push_str(&format!(" in {} calls", steps.len()));
        }
    }
    Plan { dtype, steps, desc }
}

pub async fn write_plan<W: VortexWrite>(sink: W, plan: &Plan) -> VortexResult<W> {
    let mut w = LayoutWriter::new(sink);
    for s in &plan.steps {
        w = match s {
            Step::Columns(a) => w.write_array_columns(a.clone()).await?,
            Step::Stream(parts) => {
                let st = stream::iter(parts.clone())
                    .then(|a| async move {
                        latency().await;
                        Ok::<Array, VortexError>(a)
                    })
                    .boxed_local();
                w.write_array_columns_stream(ArrayStreamAdapter::new(plan.dtype.clone(), st))
                    .await?
            }
        };
    }
    w.finalize().await
}

/// Writes with the sink as the only thing that may take its time.
pub async fn write_plain<W: VortexWrite>(sink: W, plan: &Plan) -> VortexResult<W> {
    let mut w = LayoutWriter::new(sink);
    for s in &plan.steps {
        w = match s {
            Step::Columns(a) => w.write_array_columns(a.clone()).await?,
            Step::Stream(parts) => {
                let st = stream::iter(parts.iter().cloned().map(Ok::<Array, VortexError>)).boxed_local();
                w.write_array_columns_stream(ArrayStreamAdapter::new(plan.dtype.clone(), st)).await?
            }
        };
    }
    w.finalize().await
}

/// Writes without faults or delays to an ever-ready sink.
pub fn write_ready(sink: Vec<u8>, plan: &Plan) -> Result<Vec<u8>, V> {
    match crate::exec::block_on(write_plain(sink, plan)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => v("write-failed", format!("writing a valid table failed: {e}")),
        Err(s) => v("write-stalled", format!("{s:?}")),
    }
}

/// An anonymous file of the operating system that cannot grow past `room` bytes, if that is given:
/// writing on fails as it does on a full disk.
pub fn os_file(room: Option<u64>) -> Option<std::fs::File> {
    let fd = unsafe { libc::memfd_create(c"vsim".as_ptr(), libc::MFD_CLOEXEC | libc::MFD_ALLOW_SEALING) };
    if fd < 0 {
        return None;
    }
    let f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
    if let Some(n) = room {
        f.set_len(n).ok()?;
        if unsafe { libc::fcntl(fd, libc::F_ADD_SEALS, libc::F_SEAL_GROW) } < 0 {
            return None;
        }
    }
    Some(f)
}

/// Writes through the repository's own sinks: `(description, outcome, bytes the sink holds)`.
/// With `room`, the sink holds no more bytes than that.
pub fn write_native(plan: &Plan, room: Option<usize>) -> (&'static str, VortexResult<()>, Vec<u8>) {
    let ready = |r: Result<VortexResult<()>, crate::exec::Stall>| r.unwrap_or_else(|s| panic!("writing to memory stalled: {s:?}"));
    match gen(3) {
        0 => {
            if let Some(n) = room {
                let mut w = Cursor::new(vec![0u8; n].into_boxed_slice());
                let r = ready(crate::exec::block_on(write_plain(&mut w, plan)).map(|r| r.map(drop)));
                let at = w.position() as usize;
                ("a cursor over a slice", r, w.into_inner()[..at].to_vec())
            } else {
                let mut w = Cursor::new(Vec::new());
                let r = ready(crate::exec::block_on(write_plain(&mut w, plan)).map(|r| r.map(drop)));
                ("a cursor", r, w.into_inner())
            }
        }
        1 if room.is_none() => {
            let mut w = Vec::new();
            let r = ready(crate::exec::block_on(write_plain(&mut w, plan)).map(|r| r.map(drop)));
            ("a vector", r, w)
        }
        _ => {
            probe("os-file");
            let Some(f) = os_file(room.map(|n| n as u64)) else {
                let w = crate::exec::block_on(write_plain(Vec::new(), plan)).unwrap_or_else(|s| panic!("stalled: {s:?}"));
                return match w {
                    Ok(b) => ("a vector", Ok(()), b),
                    Err(e) => ("a vector", Err(e), vec![]),
                };
            };
            let other = f.try_clone().expect("duplicate of a memory file");
            let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
            // the sink is looked at while it is still open: closing may do what finishing did not
            let (r, held) = rt.block_on(async {
                let r = write_plain(tokio::fs::File::from_std(f), plan).await;
                let n = other.metadata().expect("memory file").len() as usize;
                let mut b = vec![0u8; n];
                std::os::unix::fs::FileExt::read_exact_at(&other, &mut b, 0).expect("memory file");
                (r.map(drop), b)
            });
            ("an operating system file", r, held)
        }
    }
}

/// Writes without faults to an ever-ready sink.
pub fn write_bytes(plan: &Plan) -> Result<Vec<u8>, V> {
    match crate::exec::block_on(write_plan(Vec::<u8>::new(), plan)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => v("write-failed", format!("writing a valid table failed: {e}")),
        Err(s) => v("write-stalled", format!("{s:?}")),
    }
}

// ------------------------------------------------------------------ scanning

thread_local! {
    static DESERIALIZER: RefCell<Option<LayoutDeserializer>> = const { RefCell::new(None) };
}

/// One deserializer serves every scan of a run, as a session's does, so that
/// whatever it comes to share between scans and files is shared here too.
pub fn deserializer() -> LayoutDeserializer {
    DESERIALIZER.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                LayoutDeserializer::new(ALL_COMPRESSORS_CONTEXT.clone(), Arc::new(LayoutContext::default()))
            })
            .clone()
    })
}

/// A new run starts without the deserializer of the one before.
pub fn forget_deserializer() {
    DESERIALIZER.with(|d| d.borrow_mut().take());
    INITIAL_READ.with(|c| c.set(INITIAL_READ_SIZE));
}

/// The first read of a file fetches all of a small file, its end, or not even all of its footer,
/// as that of a huge one.
pub fn gen_initial_read(size: u64) {
    let n = match gen(8) {
        5 => 40 + gen(300) as usize,
        6 => 40 + gen(4000) as usize,
        7 => 40 + gen(size.max(1)) as usize,
        _ => INITIAL_READ_SIZE,
    };
    if n < INITIAL_READ_SIZE && (n as u64) < size {
        probe("small_first_read");
    }
    INITIAL_READ.with(|c| c.set(n));
}

#[derive(Clone, Debug, Default)]
pub struct ScanSpec {
    /// column and whether it is asked for by name
    pub proj: Option<Vec<(usize, bool)>>,
    pub pred: Option<Pred>,
    pub batch: Option<usize>,
    pub give_size: bool,
}

impl ScanSpec {
    pub fn show(&self, t: &Table) -> String {
        format!(
            "scan(columns={}, filter={}, batch_size={})",
            match &self.proj {
                None => "all".into(),
                Some(p) => p
                    .iter()
                    .map(|(c, n)| if *n { format!("${}", t.cols[*c].0) } else { format!("[{c}]") })
                    .collect::<Vec<_>>()
                    .join(","),
            },
            self.pred.as_ref().map(|p| p.show(t)).unwrap_or("none".into()),
            self.batch.map(|b| b.to_string()).unwrap_or("default".into())
        )
    }

    pub fn columns(&self, t: &Table) -> Vec<usize> {
        match &self.proj {
            None => (0..t.cols.len()).collect(),
            Some(p) => p.iter().map(|x| x.0).collect(),
        }
    }

    pub fn dtype(&self, t: &Table) -> DType {
        let c = self.columns(t);
        struct_dtype(&c.iter().map(|i| t.cols[*i].clone()).collect::<Vec<_>>())
    }

    /// The rows the scan may deliver, in order, each with whether it must.
    pub fn rows(&self, t: &Table) -> Vec<(usize, bool)> {
        match &self.pred {
            None => (0..t.rows).map(|r| (r, true)).collect(),
            Some(p) => p.select(t),
        }
    }

    pub fn batch_size(&self) -> usize {
        self.batch.unwrap_or(65536)
    }
}

/// A projection of distinct columns.
pub fn gen_proj(t: &Table) -> Vec<(usize, bool)> {
    if gen_bool(1, 12) {
        // Only the number of rows is asked for.
        return vec![];
    }
    let mut left: Vec<usize> = (0..t.cols.len()).collect();
    let k = gen_range(1, left.len() as u64);
    let style = gen(3);
    (0..k)
        .map(|_| {
            let i = gen(left.len() as u64) as usize;
            let c = left.remove(i);
            (c, match style {
                0 => true,
                1 => false,
                _ => gen(2) == 0,
            })
        })
        .collect()
}

pub fn gen_batch_size(rows: usize) -> Option<usize> {
    match gen(6) {
        0 => None,
        1 => Some(1 + gen(rows as u64 + 2) as usize),
        2 => Some(*pick(&[7usize, 1, 2, 3])).map(|b| b.max(rows / 400)),
        3 => Some(64),
        4 => Some(rows.max(1)),
        _ => Some(10 + gen(100) as usize),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// the scan ended normally
    Done,
    /// opening the file failed
    OpenErr(String),
    /// the scan reported an error
    Err(String),
    /// the consumer dropped it
    Dropped,
    /// more batches than the file could hold
    Runaway,
}

#[derive(Clone, Debug)]
pub struct ScanOut {
    pub schema: Option<DType>,
    pub batches: Vec<Array>,
    pub end: End,
    /// what further polls after the end returned, if it was not the end again
    pub after: Option<String>,
}

pub fn builder<R: VortexReadAt>(store: R, size: u64, t: &Table, s: &ScanSpec) -> LayoutReaderBuilder<R> {
    gen_initial_read(size);
    let mut b = LayoutReaderBuilder::new(store, deserializer());
    if let Some(p) = &s.proj {
        let fields: Vec<Field> = p
            .iter()
            .map(|(c, by_name)| {
                if *by_name {
                    Field::Name(t.cols[*c].0.clone())
                } else {
                    Field::Index(*c)
                }
            })
            .collect();
        b = b.with_projection(Projection::Flat(fields));
    }
    if let Some(p) = &s.pred {
        b = b.with_row_filter(RowFilter::new(p.expr(t)));
    }
    if let Some(n) = s.batch {
        b = b.with_batch_size(n);
    }
    if s.give_size {
        b = b.with_size(size);
    }
    b
}

/// Opens and drains a scan; `drop_after` makes the consumer walk away after that many batches.
pub async fn scan<R: VortexReadAt + Unpin + Send + 'static>(
    store: R,
    size: u64,
    t: &Table,
    s: &ScanSpec,
    drop_after: Option<usize>,
) -> ScanOut {
    let mut out = ScanOut { schema: None, batches: vec![], end: End::Done, after: None };
    let mut st: LayoutBatchStream<R> = match builder(store, size, t, s).build().await {
        Ok(st) => st,
        Err(e) => {
            ev!("open failed");
            out.end = End::OpenErr(e.to_string());
            return out;
        }
    };
    out.schema = Some(st.schema().into());
    let cap = t.rows + 16;
    loop {
        if drop_after == Some(out.batches.len()) {
            ev!("dropped");
            out.end = End::Dropped;
            return out;
        }
        match st.next().await {
            None => {
                ev!("end");
                out.end = End::Done;
                break;
            }
            Some(Ok(a)) => {
                ev!("batch of {}", a.len());
                out.batches.push(a);
                if out.batches.len() > cap {
                    out.end = End::Runaway;
                    return out;
                }
                if gen_bool(0, 1) {
                    latency().await;
                }
            }
            Some(Err(e)) => {
                ev!("scan error");
                out.end = End::Err(e.to_string());
                break;
            }
        }
    }
    // A finished stream stays finished.
    for _ in 0..3 {
        match st.next().await {
            None => {}
            Some(Ok(a)) => {
                out.after = Some(format!("a batch of {} rows", a.len()));
                break;
            }
            Some(Err(e)) => {
                out.after = Some(format!("an error: {e}"));
                break;
            }
        }
    }
    out
}

/// The simulator's executor as the runtime of a record batch reader.
struct SimRuntime;

impl vortex_serde::layouts::AsyncRuntime for SimRuntime {
    fn block_on<F: std::future::Future>(&self, fut: F) -> F::Output {
        crate::exec::block_on(fut).unwrap_or_else(|s| panic!("the record batch reader stalled: {s:?}"))
    }
}

/// Collects a scan into one array, as `read_all` does.
pub fn scan_read_all(store: SimStore, t: &Table, s: &ScanSpec) -> Result<ScanOut, V> {
    let size = store.data.len() as u64;
    let mut out = ScanOut { schema: None, batches: vec![], end: End::Done, after: None };
    let r = crate::exec::block_on(async {
        let st = match builder(store, size, t, s).build().await {
            Ok(st) => st,
            Err(e) => {
                out.end = End::OpenErr(e.to_string());
                return;
            }
        };
        out.schema = Some(st.schema().into());
        match st.read_all().await {
            Ok(a) => match ChunkedArray::try_from(a.clone()) {
                Ok(c) if a.len() == c.chunks().map(|b| b.len()).sum::<usize>() => out.batches.extend(c.chunks()),
                _ => out.batches.push(a),
            },
            Err(e) => out.end = End::Err(e.to_string()),
        }
    });
    match r {
        Ok(()) => Ok(out),
        Err(s) => stalled(s),
    }
}

/// Drains a scan through the synchronous Arrow interface; batches come back converted from Arrow.
pub fn scan_record_batches(store: SimStore, t: &Table, s: &ScanSpec) -> Result<ScanOut, V> {
    let size = store.data.len() as u64;
    let mut out = ScanOut { schema: None, batches: vec![], end: End::Done, after: None };
    let st = match crate::exec::block_on(builder(store, size, t, s).build()) {
        Ok(Ok(st)) => st,
        Ok(Err(e)) => {
            out.end = End::OpenErr(e.to_string());
            return Ok(out);
        }
        Err(s) => return stalled(s),
    };
    out.schema = Some(st.schema().into());
    let rt = SimRuntime;
    let mut rd = match VortexRecordBatchReader::new(st, &rt) {
        Ok(r) => r,
        Err(e) => {
            out.end = End::OpenErr(e.to_string());
            return Ok(out);
        }
    };
    let schema = arrow_array::RecordBatchReader::schema(&rd);
    for b in rd.by_ref() {
        match b {
            Ok(b) => {
                if b.schema() != schema {
                    return v("wrong-arrow-schema", format!("a record batch has schema {:?}, the reader {schema:?}", b.schema()));
                }
                match Array::try_from(b) {
                    Ok(a) => out.batches.push(a),
                    Err(e) => return v("unreadable-batch", format!("a record batch cannot be read back: {e}")),
                }
            }
            Err(e) => {
                out.end = End::Err(e.to_string());
                break;
            }
        }
        if out.batches.len() > t.rows + 16 {
            out.end = End::Runaway;
            return Ok(out);
        }
    }
    if rd.next().is_some() {
        out.after = Some("another record batch".into());
    }
    Ok(out)
}

/// The same bytes behind other storage the code comes with. Which one is drawn.
pub fn scan_other_storage(store: &SimStore, t: &Table, s: &ScanSpec) -> Result<(String, ScanOut), V> {
    use vortex_buffer::Buffer;
    use vortex_serde::io::offset::OffsetReadAt;
    let bytes = store.data.clone();
    let size = bytes.len() as u64;
    let done = |r: Result<ScanOut, crate::exec::Stall>| r.or_else(stalled);
    Ok(match gen(6) {
        0 => ("a byte vector".into(), done(crate::exec::block_on(scan(bytes.to_vec(), size, t, s, None)))?),
        1 => ("a buffer".into(), done(crate::exec::block_on(scan(Buffer::from(bytes), size, t, s, None)))?),
        2 => ("a shared handle".into(), done(crate::exec::block_on(scan(Arc::new(store.clone()), size, t, s, None)))?),
        3 | 4 => {
            let k = 1 + gen(300) as usize;
            let mut b = vec![0x5a; k];
            b.extend_from_slice(&bytes);
            let inner = SimStore::new(bytes::Bytes::from(b));
            ("an offset view".into(), done(crate::exec::block_on(scan(OffsetReadAt::new(inner, k as u64), size, t, s, None)))?)
        }
        _ => {
            // an anonymous file of the operating system: no name, gone when closed
            probe("os-file");
            let fd = unsafe { libc::memfd_create(c"vsim".as_ptr(), libc::MFD_CLOEXEC) };
            if fd < 0 {
                return Ok(("nothing".into(), ScanOut { schema: None, batches: vec![], end: End::Dropped, after: None }));
            }
            let f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            std::os::unix::fs::FileExt::write_all_at(&f, &bytes, 0).expect("memory file");
            let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
            let out = rt.block_on(scan(tokio::fs::File::from_std(f), size, t, s, None));
            ("an operating system file".into(), out)
        }
    })
}

// ------------------------------------------------------------------ judging

/// Decodes the delivered batches into rows; checks every batch's type on the way.
pub fn rows_of(out: &ScanOut, want: &DType) -> Result<Vec<Val>, V> {
    let mut rows = Vec::new();
    for (i, b) in out.batches.iter().enumerate() {
        if b.dtype() != want {
            return v("wrong-type", format!("batch {i} has type {}, expected {want}", b.dtype()));
        }
        let d = match decode(b) {
            Ok(d) => d,
            Err(e) => return v("unreadable-batch", format!("batch {i} cannot be decoded: {e}")),
        };
        if d.len() != b.len() {
            return v("unaligned", format!("batch {i} says {} rows and decodes to {}", b.len(), d.len()));
        }
        rows.extend(d);
    }
    Ok(rows)
}

pub fn first_diff(got: &[Val], want: &[Val]) -> String {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return format!("row {i} is {} but should be {}", g.show(), w.show());
        }
    }
    format!("{} rows instead of {}", got.len(), want.len())
}

/// The complete answer, and nothing else.
/// Which column differs first, by type.
fn first_diff_col(t: &Table, cols: &[usize], got: &[Val], want: &[Val]) -> String {
    if got.len() != want.len() {
        return "row count".into();
    }
    for (g, w) in got.iter().zip(want) {
        if let (Val::Struct(g), Val::Struct(w)) = (g, w) {
            for (i, (x, y)) in g.iter().zip(w).enumerate() {
                if x != y {
                    let kind = match (x.is_null(), y.is_null()) {
                        (true, false) => "lost value",
                        (false, true) => "lost null",
                        _ => "changed value",
                    };
                    return format!("column {}: {kind}:", cols.get(i).map(|c| t.cols[*c].1.show()).unwrap_or_default());
                }
            }
        }
    }
    "shape".into()
}

pub fn check_complete(t: &Table, s: &ScanSpec, out: &ScanOut) -> Res {
    match &out.end {
        End::Done => {}
        End::OpenErr(e) => return v("open-failed", format!("opening a complete file failed: {e}")),
        End::Err(e) => return v("scan-failed", format!("without any fault: {}\n  in {}\n{e}", e.lines().next().unwrap_or(""), s.show(t))),
        End::Dropped => return check_prefix(t, s, out),
        End::Runaway => return v("endless", "the scan yields more batches than the file can hold"),
    }
    if let Some(a) = &out.after {
        return v("not-fused", format!("the finished scan went on with {a}"));
    }
    let dt = s.dtype(t);
    if out.schema.as_ref() != Some(&dt) {
        return v("wrong-schema", format!("schema is {:?}, expected {dt}", out.schema.as_ref().map(|d| d.to_string())));
    }
    let got = rows_of(out, &dt)?;
    let cols = s.columns(t);
    let rows = s.rows(t);
    let want = t.rows_of(&cols, &rows.iter().map(|r| r.0).collect::<Vec<_>>());
    if rows.iter().all(|r| r.1) {
        if got == want {
            return spot_check(out, &want);
        }
    } else if matches_some(&got, &want, &rows, true) {
        probe("float-orders");
        return Ok(());
    }
    v(
        "wrong-rows",
        format!(
            "{} {}: {} (got {} rows, expected {}); first rows got: {}",
            first_diff_col(t, &cols, &got, &want),
            s.show(t),
            first_diff(&got, &want),
            got.len(),
            want.len(),
            show_vals(&got, 3)
        ),
    )
}

/// Whether `got` is `want` (or a prefix of it, unless `whole`) with some of the optional rows left
/// out.
fn matches_some(got: &[Val], want: &[Val], rows: &[(usize, bool)], whole: bool) -> bool {
    // at[p]: the rows so far can end just before want[p]
    let mut at = vec![0usize];
    for g in got {
        let mut next = Vec::new();
        let mut done = 0; // everything before this was tried from an earlier position
        for p in at {
            if p < done {
                continue;
            }
            let mut q = p;
            while q < want.len() {
                if want[q] == *g {
                    next.push(q + 1);
                }
                q += 1;
                if rows[q - 1].1 {
                    break;
                }
            }
            done = q;
        }
        if next.is_empty() {
            return false;
        }
        at = next;
    }
    !whole || at.iter().any(|p| rows[*p..].iter().all(|r| !r.1))
}

/// A few values again through the scalar path.
fn spot_check(out: &ScanOut, want: &[Val]) -> Res {
    let mut r = 0;
    for b in &out.batches {
        let n = b.len();
        if n > 0 {
            let st = StructArray::try_from(b.clone()).map_err(|e| V { class: "not-struct".into(), detail: e.to_string() })?;
            let i = gen(n as u64) as usize;
            for (c, f) in st.children().enumerate() {
                let Val::Struct(w) = &want[r + i] else { unreachable!() };
                if matches!(w[c], Val::Struct(_)) {
                    continue;
                }
                match decode_at(&f, i) {
                    Ok(x) if x == w[c] => {}
                    Ok(x) => return v("wrong-scalar", format!("value {} of column {c} reads as {} but should be {}", r + i, x.show(), w[c].show())),
                    Err(e) => return v("wrong-scalar", format!("value {} of column {c} cannot be read: {e}", r + i)),
                }
            }
        }
        r += n;
    }
    Ok(())
}

/// What was delivered is an exact prefix of the right answer.
pub fn check_prefix(t: &Table, s: &ScanSpec, out: &ScanOut) -> Res {
    let dt = s.dtype(t);
    let got = rows_of(out, &dt)?;
    let cols = s.columns(t);
    let rows = s.rows(t);
    let want = t.rows_of(&cols, &rows.iter().map(|r| r.0).collect::<Vec<_>>());
    if matches_some(&got, &want, &rows, false) {
        return Ok(());
    }
    v(
        "not-a-prefix",
        format!("{}: delivered {} rows that are no prefix of the right answer: {}", s.show(t), got.len(), first_diff(&got, &want)),
    )
}

pub fn stalled<T>(e: crate::exec::Stall) -> Result<T, V> {
    v("stalled", format!("no progress is possible: {e:?} after {} steps", world::with(|w| w.steps)))
}

pub fn set_sample(s: String) {
    world::with(|w| w.sample = s);
}
