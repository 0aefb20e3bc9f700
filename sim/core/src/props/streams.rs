//! Properties of the streaming format: message writer and reader, take over streams, offsets.

use std::io::Cursor;
use std::sync::Arc;

use bytes::{Bytes, BytesMut};
use futures::stream::{self, StreamExt};
use vortex::array::{ChunkedArray, PrimitiveArray};
use vortex::stream::{ArrayStream, ArrayStreamAdapter, ArrayStreamExt};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, Context, IntoArray};
use vortex_buffer::Buffer;
use vortex_dtype::{DType, PType};
use vortex_error::{VortexError, VortexResult};
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_serde::io::offset::OffsetReadAt;
use vortex_serde::io::{FuturesAdapter, TokioAdapter, VortexRead, VortexWrite};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::{ByteRange, StreamArrayWriter};
use vortex_serde::DTypeReader;

use crate::comp::gen_compressor;
use crate::ev;
use crate::exec::{block_on, run, Task};
use crate::file::{first_diff, set_sample, show_tree, stalled};
use crate::gen::{gen_col, gen_dt, gen_rows, gen_splits, ALL_TYPES};
use crate::io::{Cut, Pipe, SimStore, READ_FAULTS};
use crate::runner::{v, Prop, Res, V};
use crate::val::{build, build_prim, decode, int_bounds, Dt, Ty, Val};
use crate::world::{self, choose, fault, gen, gen_bool, gen_range, latency, pick, probe, probe_n, Stream};

const REAL: &[&str] = &[
    "vortex-serde stream writer, stream reader, message reader/writer, chunked reader, io adapters",
    "vortex-array (streams, take, slice, statistics), encodings, sampling compressor",
];
const STUB: &[&str] = &[
    "byte transport and storage device (simulator)",
    "async executor and clock (simulator)",
];

pub fn ctx() -> Arc<Context> {
    ALL_COMPRESSORS_CONTEXT.clone()
}

// ------------------------------------------------------------------ what is sent

#[derive(Clone)]
pub(super) enum How {
    /// write_array of a chunked array
    Chunked,
    /// write_array of the only chunk
    Single,
    /// write_array_stream of a source that takes its time
    Stream,
}

#[derive(Clone)]
pub(super) struct Arr {
    dt: Dt,
    dtype: DType,
    chunks: Vec<Array>,
    rows: Vec<usize>,
    vals: Vec<Val>,
    how: How,
    desc: String,
}

#[derive(Clone)]
pub(super) enum Item {
    Arr(Arr),
    Page(Vec<u8>),
}

fn gen_arr(max_rows: u64, max_chunks: u64, depth: u32) -> Arr {
    let dt = if gen_bool(1, 4) {
        let k = gen_range(1, 4) as usize;
        Dt::new(
            Ty::Struct((0..k).map(|i| (format!("f{i}"), gen_dt(ALL_TYPES))).collect()),
            false,
        )
    } else {
        gen_dt(ALL_TYPES)
    };
    let n = gen_rows(max_rows);
    let vals = gen_col(&dt, n);
    let rows = if n == 0 && gen_bool(1, 4) { vec![] } else { gen_splits(n, max_chunks) };
    let dtype = dt.dtype();
    let compressor = if gen_bool(1, 4) { Some(gen_compressor().0) } else { None };
    let mut chunks = Vec::new();
    let mut r = 0;
    for k in &rows {
        let mut a = build(&dt, &vals[r..r + k], depth);
        if let Some(c) = &compressor {
            if let Ok(x) = c.compress(&a, None) {
                probe("compressed_chunk");
                a = x.into_array();
            }
        }
        show_tree(&a);
        chunks.push(a);
        r += k;
    }
    let how = match gen(3) {
        0 => How::Chunked,
        1 if chunks.len() == 1 => How::Single,
        _ => How::Stream,
    };
    let desc = format!(
        "{} {}",
        dt.show(),
        match how {
            How::Chunked => format!("chunked {rows:?}"),
            How::Single => format!("single array of {n}"),
            How::Stream => format!("stream {rows:?}"),
        }
    );
    Arr { dt, dtype, chunks, rows, vals, how, desc }
}

fn gen_page() -> Item {
    let n = *pick(&[10u64, 0, 1, 63, 64, 65, 128, 1000, 4000]) as usize;
    let b = gen(256) as u8;
    Item::Page((0..n).map(|i| b.wrapping_add((i * 7) as u8)).collect())
}

fn gen_pages(max: u64) -> Vec<Item> {
    let k = if gen_bool(1, 3) { gen(max + 1) } else { 0 };
    (0..k).map(|_| gen_page()).collect()
}

pub(super) fn show_items(items: &[Item]) -> String {
    items
        .iter()
        .map(|i| match i {
            Item::Arr(a) => a.desc.clone(),
            Item::Page(p) => format!("page[{}]", p.len()),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

pub(super) async fn write_items<W: VortexWrite>(sink: W, items: &[Item]) -> VortexResult<StreamArrayWriter<W>> {
    let mut w = StreamArrayWriter::new(sink);
    for it in items {
        w = match it {
            Item::Page(p) => w.write_page(Buffer::from(p.clone())).await?,
            Item::Arr(a) => match a.how {
                How::Chunked => {
                    w.write_array(ChunkedArray::try_new(a.chunks.clone(), a.dtype.clone())?.into_array())
                        .await?
                }
                How::Single => w.write_array(a.chunks[0].clone()).await?,
                How::Stream => {
                    let st = stream::iter(a.chunks.clone())
                        .then(|a| async move {
                            latency().await;
                            Ok::<Array, VortexError>(a)
                        })
                        .boxed_local();
                    w.write_array_stream(ArrayStreamAdapter::new(a.dtype.clone(), st)).await?
                }
            },
        };
    }
    Ok(w)
}

pub(super) fn written_items(items: &[Item]) -> Result<StreamArrayWriter<Vec<u8>>, V> {
    match block_on(write_items(Vec::<u8>::new(), items)) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => v("write-failed", format!("writing a valid stream failed: {e}")),
        Err(s) => stalled(s),
    }
}

// ------------------------------------------------------------------ receiving

#[derive(Default)]
pub(super) struct Got {
    dtype: Option<DType>,
    chunks: Vec<Array>,
    before: Vec<Vec<u8>>,
    after: Vec<Vec<u8>>,
    err: Option<String>,
    /// something was yielded after the error
    late: Option<String>,
    ended: bool,
}

#[derive(Clone, Copy)]
pub(super) struct RecvStyle {
    /// consume with into_array_stream (no pages afterwards)
    consume: bool,
    /// leave the array stream after so many chunks and open it again
    reopen: Option<usize>,
    page_stream: bool,
    /// read pages first
    pages_before: usize,
    /// keep asking after an error
    insist: bool,
}

/// Drains pages until the reader says there are none.
async fn pages<R: VortexRead>(r: &mut StreamArrayReader<R>, by_stream: bool, out: &mut Vec<Vec<u8>>) -> VortexResult<()> {
    if by_stream {
        let st = r.page_stream().await;
        futures::pin_mut!(st);
        while let Some(p) = st.next().await {
            out.push(p?.as_slice().to_vec());
        }
    } else {
        while let Some(p) = r.next_page().await? {
            out.push(p.as_slice().to_vec());
        }
    }
    Ok(())
}

pub(super) async fn receive<R: VortexRead>(read: R, has_array: bool, s: RecvStyle) -> Got {
    let mut g = Got::default();
    if let Err(e) = recv(read, has_array, s, &mut g).await {
        g.err = Some(e.to_string());
    } else {
        g.ended = true;
    }
    g
}

async fn recv<R: VortexRead>(read: R, has_array: bool, s: RecvStyle, g: &mut Got) -> VortexResult<()> {
    let mut r = StreamArrayReader::try_new(read, ctx()).await?;
    if s.pages_before > 0 || !has_array {
        pages(&mut r, s.page_stream, &mut g.before).await?;
    }
    if !has_array {
        return Ok(());
    }
    r = r.load_dtype().await?;
    let mut reopen = s.reopen;
    if s.consume {
        let st = r.into_array_stream();
        g.dtype = Some(st.dtype().clone());
        futures::pin_mut!(st);
        while let Some(a) = st.next().await {
            match a {
                Ok(a) => {
                    ev!("recv {}", a.len());
                    g.chunks.push(a);
                }
                Err(e) => {
                    if s.insist {
                        for _ in 0..2 {
                            if let Some(Ok(a)) = st.next().await {
                                g.late = Some(format!("array of {} rows", a.len()));
                            }
                        }
                    }
                    return Err(e);
                }
            }
        }
        if st.next().await.is_some() {
            g.late = Some("stream went on after its end".into());
        }
        return Ok(());
    }
    loop {
        let mut n = 0;
        let mut again = false;
        let st = r.array_stream();
        g.dtype = Some(st.dtype().clone());
        let mut failed = None;
        {
            futures::pin_mut!(st);
            while let Some(a) = st.next().await {
                match a {
                    Ok(a) => {
                        ev!("recv {}", a.len());
                        g.chunks.push(a);
                    }
                    Err(e) => {
                        failed = Some(e);
                        break;
                    }
                }
                n += 1;
                if reopen == Some(n) {
                    reopen = None;
                    again = true;
                    break;
                }
            }
        }
        if let Some(e) = failed {
            if s.insist {
                // a receiver that tries once more
                {
                    let st = r.array_stream();
                    futures::pin_mut!(st);
                    if let Some(Ok(a)) = st.next().await {
                        g.late = Some(format!("array of {} rows", a.len()));
                    }
                }
                if let Ok(Some(p)) = r.next_page().await {
                    g.late = Some(format!("page of {} bytes", p.len()));
                }
            }
            return Err(e);
        }
        if !again {
            break;
        }
        probe("reopened");
    }
    pages(&mut r, s.page_stream, &mut g.after).await?;
    // the end stays the end
    if r.next_page().await?.is_some() {
        g.late = Some("a page after the last one".into());
    }
    Ok(())
}

fn rows(chunks: &[Array], want: &DType) -> Result<Vec<Val>, V> {
    let mut out = Vec::new();
    for (i, c) in chunks.iter().enumerate() {
        if c.dtype() != want {
            return v("wrong-type", format!("array {i} has type {}, sent {want}", c.dtype()));
        }
        if c.is_empty() && ChunkedArray::try_from(c).is_ok_and(|c| c.nchunks() == 0) {
            // nothing there; and without a chunk an extension type does not know its storage
            continue;
        }
        let d = match decode(c) {
            Ok(d) => d,
            Err(e) => return v("unreadable-array", format!("received array {i} cannot be decoded: {e}")),
        };
        if d.len() != c.len() {
            return v("unaligned", format!("array {i} says {} rows and decodes to {}", c.len(), d.len()));
        }
        out.extend(d);
    }
    Ok(out)
}

/// The items as the receiver should see them: pages, the array if any, pages.
fn parts(items: &[Item]) -> (Vec<Vec<u8>>, Option<&Arr>, Vec<Vec<u8>>) {
    let mut before = Vec::new();
    let mut after = Vec::new();
    let mut arr = None;
    for i in items {
        match i {
            Item::Arr(a) => arr = Some(a),
            Item::Page(p) => {
                if arr.is_none() {
                    before.push(p.clone())
                } else {
                    after.push(p.clone())
                }
            }
        }
    }
    (before, arr, after)
}

pub(super) fn check_same(items: &[Item], s: RecvStyle, g: &Got) -> Res {
    let (before, arr, after) = parts(items);
    if let Some(e) = &g.err {
        return v("receive-failed", format!("receiving a complete stream failed: {e}"));
    }
    if let Some(l) = &g.late {
        return v("no-end", l.clone());
    }
    if g.before != before {
        return v("wrong-page", format!("{} pages before the array, sent {}", g.before.len(), before.len()));
    }
    if let Some(a) = arr {
        let got = rows(&g.chunks, &a.dtype)?;
        if g.dtype.as_ref() != Some(&a.dtype) {
            return v("wrong-type", format!("schema {:?}, sent {}", g.dtype, a.dtype));
        }
        if got != a.vals {
            return v("wrong-rows", format!("{}: {}", a.dt.show(), first_diff(&got, &a.vals)));
        }
        let lens: Vec<usize> = g.chunks.iter().map(|c| c.len()).collect();
        if !matches!(a.how, How::Single) && lens != a.rows {
            return v("wrong-chunks", format!("received arrays of {lens:?} rows, sent {:?}", a.rows));
        }
        if !s.consume && g.after != after {
            return v("wrong-page", format!("{} pages after the array, sent {}", g.after.len(), after.len()));
        }
    }
    Ok(())
}

pub(super) fn gen_style(items: &[Item]) -> RecvStyle {
    let (b, _, a) = parts(items);
    RecvStyle {
        consume: a.is_empty() && gen_bool(1, 2),
        reopen: if gen_bool(1, 4) { Some(1 + gen(3) as usize) } else { None },
        page_stream: gen_bool(1, 2),
        pages_before: b.len(),
        insist: gen_bool(1, 2),
    }
}

pub(super) fn gen_items(max_rows: u64, max_chunks: u64) -> Vec<Item> {
    let mut items = gen_pages(2);
    if !gen_bool(1, 12) {
        items.push(Item::Arr(gen_arr(max_rows, max_chunks, 2)));
        items.extend(gen_pages(3));
    } else if gen_bool(1, 6) {
        items.clear();
    } else {
        items.push(gen_page());
    }
    items
}

// ------------------------------------------------------------------ S01

fn s01() -> Res {
    world::swarm();
    let items = gen_items(1200, 6);
    let style = gen_style(&items);
    let has = parts(&items).1.is_some();
    set_sample(show_items(&items));
    if choose(Stream::Sched, 16) == 15 {
        return s01_native(&items, style, has);
    }
    let cap = *pick(&[1usize << 16, 1, 7, 64, 1000]);
    // single bytes only through streams small enough for it
    let big: usize = items
        .iter()
        .map(|i| match i {
            Item::Arr(a) => a.chunks.iter().map(|c| c.nbytes()).sum::<usize>() + 1000 * (a.chunks.len() + 1),
            Item::Page(p) => p.len() + 200,
        })
        .sum();
    let (cap, frag) = if big > 20_000 {
        (cap.max(1000), *pick(&[0u64, 2]))
    } else {
        (cap, choose(Stream::Sched, 3))
    };
    let pipe = Pipe::new(cap, Cut::None, frag, choose(Stream::Sched, 20));
    let mut wrote: Option<VortexResult<()>> = None;
    let mut got: Option<Got> = None;
    {
        let (w, g) = (&mut wrote, &mut got);
        let items = &items;
        let (wp, rp) = (pipe.clone(), pipe.clone());
        let fut = gen_bool(1, 2);
        let writer: Task<'_> = Box::pin(async move {
            let r = async {
                let w = write_items(TokioAdapter(wp), items).await?;
                let mut io = w.into_inner();
                io.flush().await?;
                io.shutdown().await?;
                Ok(())
            }
            .await;
            *w = Some(r);
        });
        let reader: Task<'_> = Box::pin(async move {
            let rp2 = rp.clone();
            *g = Some(if fut {
                receive(FuturesAdapter(rp), has, style).await
            } else {
                receive(TokioAdapter(rp), has, style).await
            });
            rp2.unblock_writer();
        });
        if let Err(s) = run(vec![Some(writer), Some(reader)]) {
            return stalled(s);
        }
    }
    let g = got.expect("receiver finished");
    check_same(&items, style, &g)?;
    if let Some(Err(e)) = wrote {
        return v("write-failed", format!("sending a valid stream failed: {e}"));
    }
    if g.chunks.len() + g.before.len() + g.after.len() > 1 {
        probe("nontrivial");
    }
    Ok(())
}

/// Received from the sources the repository brings along: memory and files of the operating system.
fn s01_native(items: &[Item], style: RecvStyle, has: bool) -> Res {
    probe("native-source");
    let bytes = written_items(items)?.into_inner();
    let got = match gen(3) {
        0 => block_on(receive(BytesMut::from(&bytes[..]), has, style)),
        1 => block_on(receive(Cursor::new(bytes), has, style)),
        _ => {
            let Some(f) = crate::file::os_file(None) else { return Ok(()) };
            probe("os-file");
            std::os::unix::fs::FileExt::write_all_at(&f, &bytes, 0).expect("memory file");
            let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
            Ok(rt.block_on(receive(tokio::fs::File::from_std(f), has, style)))
        }
    };
    match got {
        Ok(g) => check_same(items, style, &g),
        Err(s) => stalled(s),
    }
}

pub const S01: Prop = Prop {
    id: "S01",
    run: s01,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run sends pages and one array through a bounded pipe while a second task receives; the schedule decides who runs, how bytes are split and when the transport is not ready; non-trivial if more than one message with data arrived; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["the transport delivers bytes in order, as a connection or a file does"],
};

// ------------------------------------------------------------------ S02

/// Where each message ends, read from the bytes by an independent walk over the framing.
fn message_ends(b: &[u8]) -> Result<Vec<usize>, String> {
    use vortex_flatbuffers::message as fb;
    let mut ends = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let len = u32::from_le_bytes(b[p..p + 4].try_into().map_err(|_| "short prefix")?) as usize;
        p += 4;
        let m = flatbuffers::root::<fb::Message>(&b[p..p + len]).map_err(|e| e.to_string())?;
        p += len;
        if let Some(x) = m.header_as_batch() {
            p += x.buffer_size() as usize;
        } else if let Some(x) = m.header_as_page() {
            p += x.buffer_size() as usize + x.padding() as usize;
        }
        ends.push(p);
    }
    Ok(ends)
}

fn s02() -> Res {
    world::swarm();
    let items = gen_items(400, 5);
    let style = gen_style(&items);
    let (before, arr, after) = parts(&items);
    let has = arr.is_some();
    let bytes = written_items(&items)?.into_inner();
    let ends = match message_ends(&bytes) {
        Ok(e) => e,
        Err(e) => return v("bad-framing", e),
    };
    // where it breaks: anywhere, or close to a message boundary
    let n = bytes.len() as u64;
    let at = match choose(Stream::Fault, 3) {
        0 => choose(Stream::Fault, n + 1),
        _ => {
            let mut marks: Vec<u64> = vec![0];
            marks.extend(ends.iter().map(|e| *e as u64));
            let m = marks[choose(Stream::Fault, marks.len() as u64) as usize];
            let d = choose(Stream::Fault, 12);
            if choose(Stream::Fault, 2) == 0 {
                (m + d).min(n)
            } else {
                m.saturating_sub(d)
            }
        }
    };
    let reset = choose(Stream::Fault, 2) == 1;
    let transport = choose(Stream::Fault, 4);
    set_sample(format!(
        "{}; {n} bytes, messages end at {ends:?}; {} after {at} bytes",
        show_items(&items),
        if reset && transport < 2 { "reset" } else { "end" }
    ));
    let frag = if n > 20_000 { *pick(&[0u64, 2]) } else { choose(Stream::Sched, 3) };
    let cut = if reset { Cut::Reset(at) } else { Cut::Eof(at) };
    let mut is_reset = reset;
    let g = match transport {
        0 => {
            let p = Pipe::full(&bytes, cut, frag, choose(Stream::Sched, 20));
            block_on(receive(TokioAdapter(p), has, style))
        }
        1 => {
            let p = Pipe::full(&bytes, cut, frag, choose(Stream::Sched, 20));
            block_on(receive(FuturesAdapter(p), has, style))
        }
        2 => {
            is_reset = false;
            fault("stream_cut");
            block_on(receive(BytesMut::from(&bytes[..at as usize]), has, style))
        }
        _ => {
            is_reset = false;
            fault("stream_cut");
            let st = SimStore::new(Bytes::from(bytes[..at as usize].to_vec()));
            block_on(receive(Cursor::new(st), has, style))
        }
    };
    let g = match g {
        Ok(g) => g,
        Err(s) => return stalled(s),
    };
    if let Some(l) = &g.late {
        return v("yield-after-error", format!("{l} after {:?}", g.err));
    }
    // what may have arrived: messages that end at or before the cut
    let mut budget = ends.iter().filter(|e| **e as u64 <= at).count();
    let mut take = |want: usize, got: usize, what: &str| -> Res {
        let can = want.min(budget);
        if got > can {
            return v("too-much", format!("{got} {what} received, only {can} complete"));
        }
        budget -= can;
        Ok(())
    };
    take(before.len(), g.before.len(), "pages")?;
    if g.before[..] != before[..g.before.len()] {
        return v("wrong-page", "a page before the array differs");
    }
    if let Some(a) = arr {
        take(1, 0, "schema")?;
        let got = rows(&g.chunks, &a.dtype)?;
        if got.len() > a.vals.len() || got != a.vals[..got.len()] {
            return v("wrong-rows", first_diff(&got, &a.vals));
        }
        if !matches!(a.how, How::Single) {
            take(a.rows.len(), g.chunks.len(), "arrays")?;
            let lens: Vec<usize> = g.chunks.iter().map(|c| c.len()).collect();
            if lens[..] != a.rows[..lens.len()] {
                return v("wrong-chunks", format!("received arrays of {lens:?} rows, sent {:?}", a.rows));
            }
            take(after.len(), g.after.len(), "pages")?;
        }
        if g.after[..] != after[..g.after.len().min(after.len())] {
            return v("wrong-page", "a page after the array differs");
        }
    }
    let at_boundary = at == 0 || ends.iter().any(|e| *e as u64 == at);
    let stopped_early = style.consume && at as usize == bytes.len() && !is_reset;
    let _ = stopped_early;
    if g.ended {
        if !at_boundary {
            return v(
                "cut-unnoticed",
                format!("the stream was cut after {at} bytes, inside a message, and the receiver saw a clean end ({} arrays)", g.chunks.len()),
            );
        }
        if is_reset {
            return v("error-swallowed", format!("the transport failed after {at} bytes and the receiver saw a clean end"));
        }
    }
    if at > 0 && (at as usize) < bytes.len() {
        probe("nontrivial");
    }
    if !at_boundary {
        probe("cut_inside_message");
    }
    probe_n("complete_messages", g.chunks.len() as u64);
    Ok(())
}

pub const S02: Prop = Prop {
    id: "S02",
    run: s02,
    quick: 100_000,
    quick_secs: 25,
    thorough: 4_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run receives one stream whose transport ends or is reset after a drawn number of bytes; non-trivial if the cut lies strictly inside the stream; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &["bytes that do arrive are unchanged (the format has no checksums)"],
};

// ------------------------------------------------------------------ S03

fn gen_indices(n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let mut out = Vec::new();
    match gen(5) {
        0 => {
            // a few
            for _ in 0..gen_range(1, 6) {
                out.push(gen(n as u64) as usize);
            }
        }
        1 => out = (0..n).collect(),
        2 => {
            let a = gen(n as u64) as usize;
            let b = (a + 1 + gen(40) as usize).min(n);
            out = (a..b).collect();
        }
        3 => {
            let k = gen_range(1, 12) as usize;
            let s = gen(k as u64) as usize;
            out = (0..n).skip(s).step_by(k).collect();
        }
        _ => {
            let den = gen_range(2, 40);
            out = (0..n).filter(|_| gen_bool(1, den)).collect();
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

fn index_array(idx: &[usize], rows: usize) -> (Array, String) {
    let fits: Vec<PType> = [
        PType::U64,
        PType::U32,
        PType::U16,
        PType::U8,
        PType::I64,
        PType::I32,
        PType::I16,
        PType::I8,
    ]
    .into_iter()
    .filter(|p| idx.iter().all(|i| (*i as i128) <= int_bounds(*p).1))
    .collect();
    let p = *pick(&fits);
    let vals: Vec<Val> = idx.iter().map(|i| Val::Int(*i as i128)).collect();
    let _ = rows;
    let (a, how) = match gen(4) {
        0 | 1 => (build_prim(p, &vals, Validity::NonNullable), "plain"),
        2 => (build(&Dt::new(Ty::Prim(p), gen_bool(1, 4)), &vals, 1), "encoded"),
        _ => {
            let a = build_prim(p, &vals, Validity::NonNullable);
            match gen_compressor().0.compress(&a, None) {
                Ok(c) => (c.into_array(), "compressed"),
                Err(_) => (a, "plain"),
            }
        }
    };
    show_tree(&a);
    (a, format!("{} {p} {how} indices {:?}", idx.len(), &idx[..idx.len().min(12)]))
}

async fn take_stream<R: VortexRead>(read: R, indices: Array, consume: bool) -> VortexResult<(DType, Vec<Array>)> {
    let mut r = StreamArrayReader::try_new(read, ctx()).await?.load_dtype().await?;
    let mut out = Vec::new();
    if consume {
        let st = r.into_array_stream().take_rows(indices)?;
        let d = st.dtype().clone();
        futures::pin_mut!(st);
        while let Some(a) = st.next().await {
            out.push(a?);
        }
        Ok((d, out))
    } else {
        let st = r.array_stream().take_rows(indices)?;
        let d = st.dtype().clone();
        futures::pin_mut!(st);
        while let Some(a) = st.next().await {
            out.push(a?);
        }
        Ok((d, out))
    }
}

fn offsets_array(o: &[u64]) -> Array {
    let vals: Vec<Val> = o.iter().map(|i| Val::Int(*i as i128)).collect();
    match gen(4) {
        0 => build(&Dt::new(Ty::Prim(PType::U64), false), &vals, 1),
        1 => {
            let a = build_prim(PType::U64, &vals, Validity::NonNullable);
            match gen_compressor().0.compress(&a, None) {
                Ok(c) => c.into_array(),
                Err(_) => a,
            }
        }
        _ => PrimitiveArray::from(o.to_vec()).into_array(),
    }
}

/// Lists of indices some of which name no row: no other row is handed out for them.
fn s03_misfits(a: &Arr, by_stream: bool) -> Res {
    let n = a.vals.len();
    let mut idx: Vec<Val> = gen_indices(n).iter().map(|i| Val::Int(*i as i128)).collect();
    let signed = gen_bool(1, 2);
    let past = (n as u64 + *pick(&[0u64, 0, 1, 2, 1000, 1 << 20])) as i128;
    let (what, nullable) = match gen(if signed { 3 } else { 2 }) {
        0 => {
            idx.push(Val::Int(past));
            ("an index past the end", false)
        }
        1 => {
            let at = gen(idx.len() as u64 + 1) as usize;
            idx.insert(at, Val::Null);
            ("a null", true)
        }
        _ => {
            idx.insert(0, Val::Int(-1 - gen(3) as i128));
            ("a negative index", false)
        }
    };
    let pt = if signed { *pick(&[PType::I64, PType::I32]) } else { *pick(&[PType::U64, PType::U32]) };
    let ia = build(&Dt::new(Ty::Prim(pt), nullable), &idx, 1);
    let mut items = vec![Item::Arr(a.clone())];
    if !by_stream {
        items.extend(gen_pages(1));
    }
    probe("misfit-indices");
    set_sample(format!("{}; {} {pt} indices with {what}, {}", show_items(&items), idx.len(), if by_stream { "streamed" } else { "random access" }));
    let w = written_items(&items)?;
    let layout = w.array_layouts()[0].clone();
    let bytes = w.into_inner();
    let out = if by_stream {
        let p = Pipe::full(&bytes, Cut::None, 0, choose(Stream::Sched, 20));
        block_on(take_stream(TokioAdapter(p), ia, gen_bool(1, 2)))
    } else {
        let bo = offsets_array(&layout.chunks.byte_offsets);
        let ro = offsets_array(&layout.chunks.row_offsets);
        let mut r = match ChunkedArrayReader::try_new(SimStore::new(Bytes::from(bytes)), ctx(), Arc::new(a.dtype.clone()), bo, ro) {
            Ok(r) => r,
            Err(e) => return v("open-failed", e.to_string()),
        };
        block_on(async { r.take_rows(&ia).await.map(|t| (t.dtype().clone(), vec![t])) })
    };
    match out {
        Err(s) => stalled(s),
        Ok(Err(_)) => Ok(()),
        // a stream ends where it ends: the indices past it name nothing
        Ok(Ok((_, chunks))) if by_stream && what == "an index past the end" => {
            idx.pop();
            let want: Vec<Val> = idx.iter().map(|i| if let Val::Int(i) = i { a.vals[*i as usize].clone() } else { Val::Null }).collect();
            let got = rows(&chunks, &a.dtype)?;
            if got != want {
                return v("wrong-rows:misfit", format!("{}: {what}: {}", a.dt.show(), first_diff(&got, &want)));
            }
            Ok(())
        }
        Ok(Ok((_, chunks))) => v(
            "misfit-taken",
            format!("{what} among the indices, and {} rows were taken", chunks.iter().map(|c| c.len()).sum::<usize>()),
        ),
    }
}

fn s03() -> Res {
    world::swarm();
    let a = gen_arr(1500, 8, 2);
    let n = a.vals.len();
    let mut idx = gen_indices(n);
    let mut items = gen_pages(2);
    let by_stream = gen_bool(1, 2);
    if by_stream && gen_bool(1, 4) {
        // a stream gives a row as often as it is asked for
        probe("repeated-indices");
        let times = gen_range(2, 4) as usize;
        let den = gen_range(1, 4);
        idx = idx.into_iter().flat_map(|i| vec![i; if gen_bool(1, den) { times } else { 1 }]).collect();
    }
    let (ia, idesc) = index_array(&idx, n);
    let want: Vec<Val> = idx.iter().map(|i| a.vals[*i].clone()).collect();
    if by_stream {
        items.clear();
    }
    if gen_bool(1, 12) {
        return s03_misfits(&a, by_stream);
    }
    items.push(Item::Arr(a.clone()));
    items.extend(gen_pages(1));
    set_sample(format!(
        "{}; {} {idesc}",
        show_items(&items),
        if by_stream { "streamed" } else { "random access" }
    ));
    let w = written_items(&items)?;
    let layout = w.array_layouts()[0].clone();
    let bytes = w.into_inner();
    let judge = |dtype: &DType, chunks: &[Array]| -> Res {
        if dtype != &a.dtype {
            return v("wrong-type", format!("taken stream of type {dtype}, sent {}", a.dtype));
        }
        let got = rows(chunks, &a.dtype)?;
        if got != want {
            return v(
                format!("wrong-rows:{}", if by_stream { "stream" } else { "chunks" }),
                format!("{}: {}", a.dt.show(), first_diff(&got, &want)),
            );
        }
        Ok(())
    };
    if by_stream {
        let frag = if bytes.len() > 20_000 { *pick(&[0u64, 2]) } else { choose(Stream::Sched, 3) };
        let cut = if choose(Stream::Fault, 4) == 3 {
            Cut::Reset(choose(Stream::Fault, bytes.len() as u64))
        } else {
            Cut::None
        };
        let p = Pipe::full(&bytes, cut, frag, choose(Stream::Sched, 20));
        let p2 = p.clone();
        match block_on(take_stream(TokioAdapter(p), ia, gen_bool(1, 2))) {
            Err(s) => return stalled(s),
            Ok(Ok((d, chunks))) => judge(&d, &chunks)?,
            Ok(Err(e)) => {
                if !p2.cut_fired() {
                    return v("take-failed", format!("taking in-range rows failed: {e}"));
                }
            }
        }
        if idx.len() > 1 {
            probe("nontrivial");
        }
        return Ok(());
    }
    // random access to the stored bytes, possibly at an offset inside a bigger object
    let shift = if gen_bool(1, 3) { gen(200) } else { 0 };
    let mut data = vec![0xAAu8; shift as usize];
    data.extend_from_slice(&bytes);
    let store = SimStore::new(Bytes::from(data));
    if choose(Stream::Fault, 3) == 2 {
        let f = READ_FAULTS[choose(Stream::Fault, 5) as usize];
        store.plan(choose(Stream::Fault, 8), f);
    }
    let bo = offsets_array(&layout.chunks.byte_offsets);
    let ro = offsets_array(&layout.chunks.row_offsets);
    let mk = || {
        ChunkedArrayReader::try_new(
            OffsetReadAt::new(store.clone(), shift),
            ctx(),
            Arc::new(a.dtype.clone()),
            bo.clone(),
            ro.clone(),
        )
    };
    let mut reader = match mk() {
        Ok(r) => r,
        Err(e) => return v("open-failed", e.to_string()),
    };
    let mut tries = 0;
    loop {
        let fired0 = store.fired();
        match block_on(reader.take_rows(&ia)) {
            Err(s) => return stalled(s),
            Ok(Ok(out)) => {
                if store.fired() > fired0 {
                    return v("error-swallowed", "a read failed and take_rows reports success");
                }
                judge(&out.dtype().clone(), &[out])?;
                break;
            }
            Ok(Err(e)) => {
                if store.fired() == fired0 {
                    return v("take-failed", format!("taking in-range rows failed: {e}"));
                }
                // the same reader answers once the device recovers
                store.clear_faults();
                tries += 1;
                if tries > 2 {
                    return v("no-recovery", format!("still failing after the device recovered: {e}"));
                }
            }
        }
    }
    let state = store.state.lock().unwrap();
    if let Some((p, l)) = state.out_of_bounds {
        return v("read-past-end", format!("read of {l} bytes at {p}"));
    }
    if state.max_inflight > 1 {
        probe("nontrivial");
    }
    Ok(())
}

pub const S03: Prop = Prop {
    id: "S03",
    run: s03,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run takes one strictly increasing index list from a stream, or from stored bytes through chunk offsets with concurrent reads that complete in drawn order and may fail; non-trivial if reads overlapped or several rows came from the stream; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};

// ------------------------------------------------------------------ S04

fn slice_range(bytes: &[u8], r: ByteRange) -> Result<Vec<u8>, V> {
    if r.begin > r.end || r.end > bytes.len() as u64 {
        return v("bad-range", format!("range {r} of {} bytes", bytes.len()));
    }
    Ok(bytes[r.begin as usize..r.end as usize].to_vec())
}

fn s04() -> Res {
    world::swarm();
    let mut items: Vec<Item> = Vec::new();
    for _ in 0..gen_range(1, 5) {
        items.push(if gen_bool(1, 4) { gen_page() } else { Item::Arr(gen_arr(300, 5, 2)) });
    }
    set_sample(show_items(&items));
    // the sending side over a slow, fragmenting connection; a second task stores what arrives
    let pipe = Pipe::new(*pick(&[1usize << 16, 900, 64]), Cut::None, *pick(&[0u64, 2]), choose(Stream::Sched, 12));
    let mut sent: Option<VortexResult<StreamArrayWriter<TokioAdapter<Pipe>>>> = None;
    let mut bytes: Vec<u8> = Vec::new();
    {
        let (slot, store) = (&mut sent, &mut bytes);
        let items = &items;
        let (wp, mut rp) = (pipe.clone(), pipe.clone());
        let writer: Task<'_> = Box::pin(async move {
            let close = wp.clone();
            *slot = Some(write_items(TokioAdapter(wp), items).await);
            close.close();
        });
        let reader: Task<'_> = Box::pin(async move {
            use tokio::io::AsyncReadExt;
            let _ = rp.read_to_end(store).await;
        });
        if let Err(s) = run(vec![Some(writer), Some(reader)]) {
            return stalled(s);
        }
    }
    let w = match sent.expect("writer finished") {
        Ok(w) => w,
        Err(e) => return v("write-failed", format!("writing a valid stream failed: {e}")),
    };
    let arrs: Vec<&Arr> = items.iter().filter_map(|i| if let Item::Arr(a) = i { Some(a) } else { None }).collect();
    let pgs: Vec<&Vec<u8>> = items.iter().filter_map(|i| if let Item::Page(p) = i { Some(p) } else { None }).collect();
    if w.array_layouts().len() != arrs.len() || w.page_ranges().len() != pgs.len() {
        return v(
            "wrong-count",
            format!("{} arrays and {} pages recorded, {} and {} written", w.array_layouts().len(), w.page_ranges().len(), arrs.len(), pgs.len()),
        );
    }
    let store = SimStore::new(Bytes::from(bytes.clone()));
    let mut ranges: Vec<(u64, u64)> = Vec::new();
    for (k, (r, p)) in w.page_ranges().iter().zip(&pgs).enumerate() {
        let part = slice_range(&bytes, *r)?;
        ranges.push((r.begin, r.end));
        let got = match block_on(async {
            let mut rd = StreamArrayReader::try_new(BytesMut::from(&part[..]), ctx()).await?;
            let a = rd.next_page().await?;
            let b = rd.next_page().await?;
            Ok::<_, VortexError>((a, b))
        }) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return v("page-unreadable", format!("page {k} from its own bytes: {e}")),
            Err(s) => return stalled(s),
        };
        match got {
            (Some(a), None) if a.as_slice() == &p[..] => {}
            (a, b) => {
                return v(
                    "wrong-page",
                    format!("page {k} of {} bytes comes back as {:?} then {:?}", p.len(), a.map(|a| a.len()), b.map(|b| b.len())),
                )
            }
        }
    }
    let mut chunks_read = 0;
    for (k, (l, a)) in w.array_layouts().iter().zip(&arrs).enumerate() {
        let part = slice_range(&bytes, l.dtype)?;
        ranges.push((l.dtype.begin, l.dtype.end));
        let d = match block_on(async { DTypeReader::new(BytesMut::from(&part[..])).await?.read_dtype().await }) {
            Ok(Ok(d)) => d,
            Ok(Err(e)) => return v("dtype-unreadable", format!("schema {k} from its own bytes: {e}")),
            Err(s) => return stalled(s),
        };
        if d != a.dtype {
            return v("wrong-type", format!("schema {k} is {d}, written {}", a.dtype));
        }
        let (bo, ro) = (&l.chunks.byte_offsets, &l.chunks.row_offsets);
        if bo.len() != ro.len() || bo.is_empty() || ro[0] != 0 {
            return v("bad-offsets", format!("array {k}: byte offsets {bo:?}, row offsets {ro:?}"));
        }
        if !matches!(a.how, How::Single) {
            let mut want = vec![0u64];
            for n in &a.rows {
                want.push(want[want.len() - 1] + *n as u64);
            }
            if &want != ro {
                return v("bad-row-offsets", format!("array {k}: {ro:?}, written {want:?}"));
            }
        }
        if ro.last() != Some(&(a.vals.len() as u64)) {
            return v("bad-row-offsets", format!("array {k}: {ro:?} for {} rows", a.vals.len()));
        }
        for c in 0..bo.len() - 1 {
            if ro[c] > ro[c + 1] {
                return v("bad-row-offsets", format!("array {k}: {ro:?}"));
            }
            let part = slice_range(&bytes, ByteRange { begin: bo[c], end: bo[c + 1] })?;
            ranges.push((bo[c], bo[c + 1]));
            let got = match block_on(async {
                let rd = StreamArrayReader::try_new(BytesMut::from(&part[..]), ctx())
                    .await?
                    .with_dtype(Arc::new(a.dtype.clone()));
                let st = rd.into_array_stream();
                futures::pin_mut!(st);
                let mut out = Vec::new();
                while let Some(x) = st.next().await {
                    out.push(x?);
                }
                Ok::<_, VortexError>(out)
            }) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return v("chunk-unreadable", format!("array {k} chunk {c} from its own bytes: {e}")),
                Err(s) => return stalled(s),
            };
            if got.len() != 1 {
                return v("wrong-chunk", format!("array {k} chunk {c}: its bytes hold {} arrays", got.len()));
            }
            let vals = rows(&got, &a.dtype)?;
            let want = &a.vals[ro[c] as usize..ro[c + 1] as usize];
            if vals != want {
                return v("wrong-chunk", format!("array {k} chunk {c}: {}", first_diff(&vals, want)));
            }
            chunks_read += 1;
        }
        // reading on from the first chunk, as the chunked reader does
        let mut rd = match ChunkedArrayReader::try_new(
            store.clone(),
            ctx(),
            Arc::new(a.dtype.clone()),
            PrimitiveArray::from(bo.clone()).into_array(),
            PrimitiveArray::from(ro.clone()).into_array(),
        ) {
            Ok(r) => r,
            Err(e) => return v("open-failed", e.to_string()),
        };
        if bo.len() > 1 {
            let got = match block_on(async {
                let st = rd.array_stream().await;
                futures::pin_mut!(st);
                let mut out = Vec::new();
                while let Some(x) = st.next().await {
                    out.push(x?);
                }
                Ok::<_, VortexError>(out)
            }) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return v("stream-unreadable", format!("array {k} from its first offset: {e}")),
                Err(s) => return stalled(s),
            };
            let vals = rows(&got, &a.dtype)?;
            if vals != a.vals {
                return v("wrong-rows", format!("array {k} from its first offset: {}", first_diff(&vals, &a.vals)));
            }
        }
    }
    ranges.sort();
    let mut at = 0;
    for (b, e) in &ranges {
        if *b != at {
            return v("gap", format!("recorded ranges {ranges:?} leave or repeat bytes at {at}"));
        }
        at = *e;
    }
    if at != bytes.len() as u64 {
        return v("gap", format!("recorded ranges end at {at} of {} bytes", bytes.len()));
    }
    if chunks_read > 1 {
        probe("nontrivial");
    }
    Ok(())
}

pub const S04: Prop = Prop {
    id: "S04",
    run: s04,
    quick: 50_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1200,
    level: "simulated",
    rule: "one run writes several arrays and pages over a slow connection and reads every recorded range back alone; non-trivial if more than one chunk was read back; distinct by event digest",
    real: REAL,
    stub: STUB,
    assumptions: &[],
};
