//! Simulated devices behind the code's own I/O seams (VortexReadAt, VortexRead, VortexWrite,
//! tokio/futures AsyncRead+AsyncWrite).

use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use bytes::{Bytes, BytesMut};
use vortex_buffer::io_buf::IoBuf;
use vortex_serde::io::{VortexReadAt, VortexWrite};

use crate::ev;
use crate::world::{self, choose, fault, latency, probe, Stream};

// ---------------------------------------------------------------- random access storage

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReadFault {
    /// an I/O error
    Error,
    /// the device says the data ends early
    Eof,
    /// the request times out after a long delay
    Timeout,
    /// interrupted / transient error kind
    Interrupted,
    /// permission lost
    Denied,
}

pub const READ_FAULTS: [ReadFault; 5] = [
    ReadFault::Error,
    ReadFault::Eof,
    ReadFault::Timeout,
    ReadFault::Interrupted,
    ReadFault::Denied,
];

pub const FAULT_MARK: &str = "simulated device fault";

impl ReadFault {
    pub fn name(self) -> &'static str {
        match self {
            ReadFault::Error => "read_error",
            ReadFault::Eof => "read_eof",
            ReadFault::Timeout => "read_timeout",
            ReadFault::Interrupted => "read_interrupted",
            ReadFault::Denied => "read_denied",
        }
    }
    pub fn error(self) -> io::Error {
        let k = match self {
            ReadFault::Error => io::ErrorKind::Other,
            ReadFault::Eof => io::ErrorKind::UnexpectedEof,
            ReadFault::Timeout => io::ErrorKind::TimedOut,
            ReadFault::Interrupted => io::ErrorKind::Interrupted,
            ReadFault::Denied => io::ErrorKind::PermissionDenied,
        };
        io::Error::new(k, FAULT_MARK)
    }
}

#[derive(Default)]
pub struct StoreState {
    pub reads: Vec<(u64, usize)>,
    pub n: u64,
    pub faults: BTreeMap<u64, ReadFault>,
    /// every read from this index on fails
    pub dead_from: Option<u64>,
    pub fired: u64,
    /// faults that hit each handle (by tag)
    pub fired_by: BTreeMap<u64, u64>,
    pub inflight: u64,
    pub max_inflight: u64,
    pub out_of_bounds: Option<(u64, usize)>,
    pub completions: Vec<u64>,
}

#[derive(Clone)]
pub struct SimStore {
    pub data: Bytes,
    pub state: Arc<Mutex<StoreState>>,
    pub tag: u64,
}

impl SimStore {
    pub fn new(data: Bytes) -> Self {
        Self {
            data,
            state: Arc::new(Mutex::new(StoreState::default())),
            tag: 0,
        }
    }
    pub fn reads(&self) -> u64 {
        self.state.lock().unwrap().n
    }
    pub fn fired(&self) -> u64 {
        self.state.lock().unwrap().fired
    }
    pub fn tagged(&self, tag: u64) -> Self {
        Self { tag, ..self.clone() }
    }
    pub fn fired_by(&self, tag: u64) -> u64 {
        self.state.lock().unwrap().fired_by.get(&tag).copied().unwrap_or(0)
    }
    pub fn plan(&self, at: u64, f: ReadFault) {
        self.state.lock().unwrap().faults.insert(at, f);
    }
    pub fn clear_faults(&self) {
        let mut s = self.state.lock().unwrap();
        s.faults.clear();
        s.dead_from = None;
    }
}

struct Inflight(Arc<Mutex<StoreState>>);
impl Drop for Inflight {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.lock() {
            s.inflight -= 1;
        }
    }
}

impl VortexReadAt for SimStore {
    async fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> io::Result<BytesMut> {
        let len = buffer.len();
        let (idx, f) = {
            let mut s = self.state.lock().unwrap();
            let idx = s.n;
            s.n += 1;
            s.reads.push((pos, len));
            s.inflight += 1;
            s.max_inflight = s.max_inflight.max(s.inflight);
            let dead = s.dead_from.map(|d| idx >= d).unwrap_or(false);
            let f = s
                .faults
                .get(&idx)
                .copied()
                .or(if dead { Some(ReadFault::Error) } else { None });
            (idx, f)
        };
        let _guard = Inflight(self.state.clone());
        ev!("read#{idx} store{} pos={pos} len={len}", self.tag);
        // The buffer's old contents must never be taken for data.
        for b in buffer.iter_mut() {
            *b = 0xAA;
        }
        latency().await;
        if let Some(f) = f {
            if f == ReadFault::Timeout {
                world::delay(world::with(|w| w.max_delay) * 3 + 1).await;
            }
            {
                let mut s = self.state.lock().unwrap();
                s.fired += 1;
                *s.fired_by.entry(self.tag).or_insert(0) += 1;
            }
            fault(f.name());
            return Err(f.error());
        }
        let end = (pos as usize).checked_add(len);
        match end {
            Some(end) if end <= self.data.len() => {
                buffer.copy_from_slice(&self.data[pos as usize..end]);
            }
            _ => {
                self.state.lock().unwrap().out_of_bounds = Some((pos, len));
                return Err(io::Error::new(
                    io::ErrorKind::UnexpectedEof,
                    "read past the end of the simulated file",
                ));
            }
        }
        {
            let mut s = self.state.lock().unwrap();
            if s.completions.last().map(|l| *l > idx).unwrap_or(false) {
                probe("reads_completed_out_of_order");
            }
            s.completions.push(idx);
        }
        ev!("read#{idx} done");
        Ok(buffer)
    }

    async fn size(&self) -> io::Result<u64> {
        Ok(self.data.len() as u64)
    }
}

// ---------------------------------------------------------------- write sink

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkMode {
    /// every accepted byte is durable at once
    Direct,
    /// writes land in a buffer; only flush/shutdown makes them durable and reports their errors
    Buffered,
    /// writes complete in the background; an error surfaces at the next operation
    Background,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteFault {
    /// the n-th write is rejected
    FailWrite(u64),
    /// the device holds only this many bytes
    Full(u64),
    /// the n-th flush (or the first shutdown) fails
    FailFlush(u64),
    /// a write is accepted but lost; the error is known only at the next write or flush
    LateWrite(u64),
}

#[derive(Default)]
pub struct SinkState {
    /// bytes handed over, in order
    pub accepted: Vec<u8>,
    /// bytes that survive a crash or drop
    pub durable: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub write_sizes: Vec<usize>,
    pub pending_error: Option<io::ErrorKind>,
    pub reported: u64,
    pub fired: u64,
    pub fault: Option<WriteFault>,
    pub dirty: bool,
    pub shut: bool,
    /// set once any byte has been lost
    pub lost: bool,
}

#[derive(Clone)]
pub struct SimSink {
    pub mode: SinkMode,
    pub state: Arc<Mutex<SinkState>>,
}

impl SimSink {
    pub fn new(mode: SinkMode) -> Self {
        Self {
            mode,
            state: Arc::new(Mutex::new(SinkState::default())),
        }
    }
    pub fn with_fault(self, f: WriteFault) -> Self {
        self.state.lock().unwrap().fault = Some(f);
        self
    }

    fn put(&self, b: &[u8]) -> io::Result<()> {
        let mut s = self.state.lock().unwrap();
        if let Some(k) = s.pending_error.take() {
            s.reported += 1;
            return Err(io::Error::new(k, FAULT_MARK));
        }
        let i = s.writes;
        s.writes += 1;
        s.write_sizes.push(b.len());
        match s.fault {
            Some(WriteFault::FailWrite(n)) if n == i => {
                s.fired += 1;
                s.lost = true;
                drop(s);
                fault("write_error");
                // A failed write may still have stored some of its bytes.
                let keep = choose(Stream::Fault, b.len() as u64 + 1) as usize;
                let mut s = self.state.lock().unwrap();
                s.accepted.extend_from_slice(&b[..keep]);
                s.reported += 1;
                return Err(io::Error::new(io::ErrorKind::Other, FAULT_MARK));
            }
            Some(WriteFault::LateWrite(n)) if n == i => {
                s.fired += 1;
                s.lost = true;
                s.pending_error = Some(io::ErrorKind::Other);
                drop(s);
                fault("late_write_error");
                return Ok(());
            }
            Some(WriteFault::Full(cap)) if s.accepted.len() as u64 + b.len() as u64 > cap => {
                let room = (cap as usize).saturating_sub(s.accepted.len());
                let part = b[..room.min(b.len())].to_vec();
                s.accepted.extend_from_slice(&part);
                if s.mode_direct(self.mode) {
                    s.durable.extend_from_slice(&part);
                }
                s.fired += 1;
                s.lost = true;
                if self.mode == SinkMode::Background {
                    s.pending_error = Some(io::ErrorKind::Other);
                    drop(s);
                    fault("disk_full_late");
                    return Ok(());
                }
                s.reported += 1;
                drop(s);
                fault("disk_full");
                return Err(io::Error::new(io::ErrorKind::Other, "No space left on device (simulated)"));
            }
            _ => {}
        }
        s.accepted.extend_from_slice(b);
        s.dirty = true;
        if self.mode == SinkMode::Direct {
            s.durable.extend_from_slice(b);
            s.dirty = false;
        }
        Ok(())
    }

    fn sync(&self) -> io::Result<()> {
        let mut s = self.state.lock().unwrap();
        if let Some(k) = s.pending_error.take() {
            s.reported += 1;
            return Err(io::Error::new(k, FAULT_MARK));
        }
        let i = s.flushes;
        s.flushes += 1;
        if let Some(WriteFault::FailFlush(n)) = s.fault {
            if n == i {
                s.fired += 1;
                s.reported += 1;
                s.lost = true;
                drop(s);
                fault("flush_error");
                return Err(io::Error::new(io::ErrorKind::Other, FAULT_MARK));
            }
        }
        s.durable = s.accepted.clone();
        s.dirty = false;
        Ok(())
    }
}

impl SinkState {
    fn mode_direct(&self, m: SinkMode) -> bool {
        m == SinkMode::Direct
    }
}

impl VortexWrite for SimSink {
    async fn write_all<B: IoBuf>(&mut self, buffer: B) -> io::Result<B> {
        latency().await;
        ev!("write {} bytes", buffer.as_slice().len());
        self.put(buffer.as_slice())?;
        if self.mode == SinkMode::Background && choose(Stream::Sched, 3) == 0 {
            // the background writer catches up
            let mut s = self.state.lock().unwrap();
            if s.pending_error.is_none() && !s.lost {
                s.durable = s.accepted.clone();
            }
        }
        Ok(buffer)
    }

    async fn flush(&mut self) -> io::Result<()> {
        latency().await;
        ev!("flush");
        self.sync()
    }

    async fn shutdown(&mut self) -> io::Result<()> {
        latency().await;
        ev!("shutdown");
        self.sync()?;
        self.state.lock().unwrap().shut = true;
        Ok(())
    }
}

/// A [SimSink] behind a byte-stream interface: takes what it likes of each write, when it likes.
pub struct ByteSink {
    pub sink: SimSink,
    /// 0 = takes everything, 1 = a few bytes at a time, 2 = mixed
    pub frag: u64,
    /// how often (of 64) it is not ready
    pub pend: u64,
}

impl ByteSink {
    fn not_ready(&self, cx: &mut Context<'_>) -> bool {
        let no = self.pend > 0 && choose(Stream::Sched, 64) >= 64 - self.pend.min(60);
        if no {
            fault("write_not_ready");
            cx.waker().wake_by_ref();
        }
        no
    }
}

impl tokio::io::AsyncWrite for ByteSink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.not_ready(cx) {
            return Poll::Pending;
        }
        let n = match self.frag {
            0 => buf.len(),
            1 => buf.len().min(1 + choose(Stream::Sched, 7) as usize),
            _ => match choose(Stream::Sched, 3) {
                0 => buf.len(),
                1 => buf.len().min(1 + choose(Stream::Sched, 7) as usize),
                _ => buf.len().min(1 + choose(Stream::Sched, buf.len().max(1) as u64) as usize),
            },
        };
        if n < buf.len() {
            fault("partial_write");
        }
        ev!("write {n} of {} bytes", buf.len());
        Poll::Ready(self.sink.put(&buf[..n]).map(|()| n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.not_ready(cx) {
            return Poll::Pending;
        }
        ev!("flush");
        Poll::Ready(self.sink.sync())
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.not_ready(cx) {
            return Poll::Pending;
        }
        Poll::Ready(self.sink.sync())
    }
}

// ---------------------------------------------------------------- byte pipe

/// How the pipe ends for the reader.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cut {
    None,
    /// clean end of file after this many bytes
    Eof(u64),
    /// connection reset after this many bytes
    Reset(u64),
}

struct PipeState {
    buf: VecDeque<u8>,
    cap: usize,
    closed: bool,
    delivered: u64,
    reader: Option<Waker>,
    writer: Option<Waker>,
    cut: Cut,
    cut_fired: bool,
    /// bias of the fragmentation: 0 = whatever is there, 1 = mostly single bytes, 2 = mixed
    frag: u64,
    pend: u64,
    eofs: u64,
}

#[derive(Clone)]
pub struct Pipe(Arc<Mutex<PipeState>>);

impl Pipe {
    pub fn new(cap: usize, cut: Cut, frag: u64, pend: u64) -> Self {
        Pipe(Arc::new(Mutex::new(PipeState {
            buf: VecDeque::new(),
            cap: cap.max(1),
            closed: false,
            delivered: 0,
            reader: None,
            writer: None,
            cut,
            cut_fired: false,
            frag,
            pend,
            eofs: 0,
        })))
    }

    /// A pipe already holding all the bytes.
    pub fn full(data: &[u8], cut: Cut, frag: u64, pend: u64) -> Self {
        let p = Self::new(usize::MAX / 2, cut, frag, pend);
        {
            let mut s = p.0.lock().unwrap();
            s.buf.extend(data.iter());
            s.closed = true;
        }
        p
    }

    pub fn close(&self) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.closed = true;
            s.reader.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    pub fn cut_fired(&self) -> bool {
        self.0.lock().unwrap().cut_fired
    }

    pub fn delivered(&self) -> u64 {
        self.0.lock().unwrap().delivered
    }

    /// Wakes a writer blocked on a pipe whose reader went away.
    pub fn unblock_writer(&self) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.cap = usize::MAX / 2;
            s.writer.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    fn poll_read_n(&self, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if dst.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.pend > 0 && choose(Stream::Sched, 64) >= 64 - s.pend.min(60) {
            // not ready after all: comes back later
            probe("pipe_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let limit = match s.cut {
            Cut::None => u64::MAX,
            Cut::Eof(n) | Cut::Reset(n) => n,
        };
        if s.delivered >= limit {
            if !s.cut_fired {
                s.cut_fired = true;
                match s.cut {
                    Cut::Eof(_) => fault("stream_cut"),
                    _ => fault("stream_reset"),
                }
            }
            return match s.cut {
                Cut::Reset(_) => Poll::Ready(Err(io::Error::new(
                    io::ErrorKind::ConnectionReset,
                    FAULT_MARK,
                ))),
                _ => {
                    s.eofs += 1;
                    Poll::Ready(Ok(0))
                }
            };
        }
        if s.buf.is_empty() {
            if s.closed {
                s.eofs += 1;
                return Poll::Ready(Ok(0));
            }
            s.reader = Some(cx.waker().clone());
            if let Some(w) = s.writer.take() {
                drop(s);
                w.wake();
            }
            return Poll::Pending;
        }
        let avail = dst
            .len()
            .min(s.buf.len())
            .min((limit - s.delivered).min(usize::MAX as u64) as usize);
        let n = match s.frag {
            0 => avail,
            1 => 1 + choose(Stream::Sched, avail.min(3) as u64) as usize,
            _ => {
                if choose(Stream::Sched, 3) == 0 {
                    avail
                } else {
                    1 + choose(Stream::Sched, avail as u64) as usize
                }
            }
        }
        .min(avail);
        if n < dst.len() {
            probe("short_pipe_read");
        }
        for b in dst.iter_mut().take(n) {
            *b = s.buf.pop_front().expect("available");
        }
        s.delivered += n as u64;
        let w = s.writer.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }

    fn poll_write_n(&self, cx: &mut Context<'_>, src: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if src.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.pend > 0 && choose(Stream::Sched, 64) >= 64 - s.pend.min(60) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let room = s.cap.saturating_sub(s.buf.len());
        if room == 0 {
            s.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let avail = src.len().min(room);
        let n = match s.frag {
            0 => avail,
            1 => 1 + choose(Stream::Sched, avail.min(3) as u64) as usize,
            _ => 1 + choose(Stream::Sched, avail as u64) as usize,
        }
        .min(avail);
        s.buf.extend(src[..n].iter());
        let w = s.reader.take();
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
}

impl tokio::io::AsyncRead for Pipe {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let n = buf.remaining();
        let mut tmp = vec![0u8; n];
        match self.poll_read_n(cx, &mut tmp) {
            Poll::Ready(Ok(k)) => {
                buf.put_slice(&tmp[..k]);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl futures::io::AsyncRead for Pipe {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        self.poll_read_n(cx, buf)
    }
}

impl tokio::io::AsyncWrite for Pipe {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.poll_write_n(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.close();
        Poll::Ready(Ok(()))
    }
}
