//! The simulated world of one run: tapes, simulated clock, event queue, event log, counters.
//! One world per OS thread (a run owns its thread), reached through `with`.

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use crate::tape::{hash_str, mix, Tape};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Stream {
    Gen = 0,
    Sched = 1,
    Fault = 2,
}

#[derive(Clone)]
pub struct Tapes(pub [Tape; 3]);

impl Tapes {
    pub fn generate(seed: u64) -> Self {
        Tapes([
            Tape::generate(mix(seed, 1)),
            Tape::generate(mix(seed, 2)),
            Tape::generate(mix(seed, 3)),
        ])
    }
    pub fn replay(d: [Vec<u64>; 3]) -> Self {
        let [a, b, c] = d;
        Tapes([Tape::replay(a), Tape::replay(b), Tape::replay(c)])
    }
    pub fn data(&self) -> [Vec<u64>; 3] {
        [
            self.0[0].data[..self.0[0].used().min(self.0[0].data.len())].to_vec(),
            self.0[1].data[..self.0[1].used().min(self.0[1].data.len())].to_vec(),
            self.0[2].data[..self.0[2].used().min(self.0[2].data.len())].to_vec(),
        ]
    }
}

struct Timer {
    fired: bool,
    waker: Option<Waker>,
}

pub struct World {
    pub tapes: Tapes,
    pub now: u64,
    seq: u64,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    timers: HashMap<u64, Timer>,
    pub digest: u64,
    pub events: u64,
    /// hash of scheduling-relevant events only (which task, which completion), used to count
    /// distinct interleavings
    pub sched_sig: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    /// largest delay (in simulated microseconds) an I/O operation may take; swarm-varied
    pub max_delay: u64,
    /// probability (in 1/64) that an operation is delayed at all; swarm-varied
    pub delay_rate: u64,
    pub spurious_rate: u64,
    pub sample: String,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn install(tapes: Tapes, verbose: bool) {
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            tapes,
            now: 0,
            seq: 0,
            queue: BinaryHeap::new(),
            timers: HashMap::new(),
            digest: 0x1234_5678,
            events: 0,
            sched_sig: 0,
            verbose,
            log: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            steps: 0,
            max_delay: 100,
            delay_rate: 32,
            spurious_rate: 0,
            sample: String::new(),
        })
    });
}

pub fn uninstall() -> World {
    WORLD.with(|w| w.borrow_mut().take().expect("world installed"))
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulated world on this thread")))
}

pub fn choose(s: Stream, n: u64) -> u64 {
    with(|w| w.tapes.0[s as usize].choose(n))
}

/// true with probability num/den; the tape value 0 means false.
pub fn chance(s: Stream, num: u64, den: u64) -> bool {
    let v = choose(s, den);
    v >= den.saturating_sub(num)
}

pub fn gen(n: u64) -> u64 {
    choose(Stream::Gen, n)
}
pub fn gen_range(lo: u64, hi: u64) -> u64 {
    lo + choose(Stream::Gen, hi - lo + 1)
}
pub fn gen_bool(num: u64, den: u64) -> bool {
    chance(Stream::Gen, num, den)
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[gen(xs.len() as u64) as usize]
}

pub fn event(args: std::fmt::Arguments<'_>) {
    let s = std::fmt::format(args);
    with(|w| {
        w.events += 1;
        w.digest = mix(w.digest, hash_str(&s));
        if w.verbose && w.log.len() < 5000 {
            let line = format!("[{} t={}us] {}", w.events, w.now, s);
            w.log.push(line);
        }
    });
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::world::event(format_args!($($a)*)) };
}

pub fn fault(kind: &'static str) {
    with(|w| *w.faults.entry(kind).or_insert(0) += 1);
    event(format_args!("FAULT {kind}"));
}

pub fn probe(kind: &'static str) {
    with(|w| *w.probes.entry(kind).or_insert(0) += 1);
}

pub fn probe_n(kind: &'static str, n: u64) {
    with(|w| *w.probes.entry(kind).or_insert(0) += n);
}

pub fn now() -> u64 {
    with(|w| w.now)
}

/// A simulated delay. The future is Send; it must only be polled on the run's thread.
pub struct Delay {
    id: u64,
}

pub fn delay(us: u64) -> Delay {
    with(|w| {
        w.seq += 1;
        let id = w.seq;
        let at = w.now + us;
        w.queue.push(Reverse((at, id)));
        w.timers.insert(
            id,
            Timer {
                fired: false,
                waker: None,
            },
        );
        Delay { id }
    })
}

impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        with(|w| match w.timers.get_mut(&self.id) {
            Some(t) if t.fired => Poll::Ready(()),
            Some(t) => {
                t.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            None => Poll::Ready(()),
        })
    }
}

impl Drop for Delay {
    fn drop(&mut self) {
        WORLD.with(|w| {
            if let Ok(mut g) = w.try_borrow_mut() {
                if let Some(w) = g.as_mut() {
                    w.timers.remove(&self.id);
                }
            }
        });
    }
}

/// Latency of one I/O operation, as decided by the scheduling tape.
pub async fn latency() {
    let d = with(|w| {
        let rate = w.delay_rate;
        let max = w.max_delay.max(1);
        let t = &mut w.tapes.0[Stream::Sched as usize];
        if t.choose(64) >= 64 - rate.min(64) {
            1 + t.choose(max)
        } else {
            0
        }
    });
    if d > 0 {
        delay(d).await;
    }
}

pub fn has_events() -> bool {
    with(|w| {
        while let Some(Reverse((_, id))) = w.queue.peek() {
            if w.timers.contains_key(id) {
                return true;
            }
            w.queue.pop();
        }
        false
    })
}

/// Fire the next due event, advancing the clock to it.
pub fn fire_next() -> bool {
    let waker = with(|w| {
        while let Some(Reverse((at, id))) = w.queue.pop() {
            if let Some(t) = w.timers.get_mut(&id) {
                t.fired = true;
                if at > w.now {
                    w.now = at;
                }
                w.sched_sig = mix(w.sched_sig, id.wrapping_mul(2) + 1);
                return Some(t.waker.take());
            }
        }
        None
    });
    match waker {
        None => false,
        Some(wk) => {
            if let Some(wk) = wk {
                wk.wake();
            }
            true
        }
    }
}

/// Swarm-vary the scheduling knobs of a run (drawn from the generation tape).
pub fn swarm() {
    let max_delay = *pick(&[0u64, 3, 100, 10_000]);
    let delay_rate = *pick(&[0u64, 8, 32, 60, 64]);
    let spurious = *pick(&[0u64, 0, 4, 16]);
    with(|w| {
        w.max_delay = max_delay;
        w.delay_rate = delay_rate;
        w.spurious_rate = spurious;
    });
}
