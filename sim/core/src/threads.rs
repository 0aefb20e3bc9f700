//! Real threads under the simulator's schedule: one runs at a time, and every operation on an
//! instrumented lock is a point where the scheduling tape decides who goes on. The controller keeps
//! its own account of who holds what, so a thread is let through only when it will not block.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, Once};
use std::time::Duration;

use vortex::sim::{install_lock_hook, LockEvent};

use crate::ev;
use crate::runner;
use crate::tape::mix;
use crate::world::{self, Stream};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State {
    /// about to go on
    Ready,
    /// about to take a lock
    Want(bool, usize),
    /// has tried to take a lock and waits for it
    Waiting(bool, usize),
    Running,
    Done,
}

#[derive(Default)]
struct Held {
    readers: BTreeMap<usize, u64>,
    writer: Option<usize>,
}

struct Inner {
    states: Vec<State>,
    held: BTreeMap<usize, Held>,
    /// locks by order of appearance (addresses vary between executions)
    names: BTreeMap<usize, usize>,
    panics: Vec<(usize, String, String)>,
    lock_ops: u64,
    contended: u64,
}

struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static WORKER: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

impl Shared {
    /// Hands control back and waits to be let on.
    fn pause(&self, me: usize, s: State) {
        let mut g = self.m.lock().unwrap();
        g.states[me] = s;
        self.cv.notify_all();
        while g.states[me] != State::Running {
            g = self.cv.wait(g).unwrap();
        }
    }
}

fn hook(e: LockEvent, lock: usize) {
    let w = WORKER.with(|w| w.try_borrow().ok().and_then(|w| w.clone()));
    let Some((sh, me)) = w else { return };
    sh.m.lock().unwrap().lock_ops += 1;
    match e {
        LockEvent::WantRead => sh.pause(me, State::Want(false, lock)),
        LockEvent::WantWrite => sh.pause(me, State::Want(true, lock)),
        LockEvent::TryRead | LockEvent::TryWrite => sh.pause(me, State::Ready),
        LockEvent::GotRead => {
            let mut g = sh.m.lock().unwrap();
            *g.held.entry(lock).or_default().readers.entry(me).or_insert(0) += 1;
        }
        LockEvent::GotWrite => sh.m.lock().unwrap().held.entry(lock).or_default().writer = Some(me),
        LockEvent::ReleasedRead => {
            {
                let mut g = sh.m.lock().unwrap();
                if let Some(h) = g.held.get_mut(&lock) {
                    if let Some(n) = h.readers.get_mut(&me) {
                        *n -= 1;
                        if *n == 0 {
                            h.readers.remove(&me);
                        }
                    }
                    if h.readers.is_empty() && h.writer.is_none() {
                        g.held.remove(&lock);
                    }
                }
            }
            sh.pause(me, State::Ready)
        }
        LockEvent::ReleasedWrite => {
            {
                let mut g = sh.m.lock().unwrap();
                if let Some(h) = g.held.get_mut(&lock) {
                    h.writer = None;
                    if h.readers.is_empty() {
                        g.held.remove(&lock);
                    }
                }
            }
            sh.pause(me, State::Ready)
        }
    }
}

/// A point in a thread's own code where others may go first.
pub fn yield_here() {
    let w = WORKER.with(|w| w.borrow().clone());
    if let Some((sh, me)) = w {
        sh.pause(me, State::Ready);
    }
}

pub enum End {
    Finished,
    /// every thread that is left waits for another
    Deadlock(String),
    /// a thread does not come back
    Stuck(String),
    Panicked(String, String),
}

fn show(g: &mut Inner, lock: usize) -> String {
    let n = g.names.len();
    let name = *g.names.entry(lock).or_insert(n);
    format!("lock {name}")
}

/// Runs the threads to their end under the schedule. `prefer_writers`: a waiting writer keeps new
/// readers out, as the standard library's lock does on Linux.
pub fn run_threads(jobs: Vec<Box<dyn FnOnce() + Send>>, prefer_writers: bool) -> End {
    static INSTALL: Once = Once::new();
    INSTALL.call_once(|| install_lock_hook(hook));
    let n = jobs.len();
    let sh = Arc::new(Shared {
        m: Mutex::new(Inner {
            states: vec![State::Running; n],
            held: BTreeMap::new(),
            names: BTreeMap::new(),
            panics: vec![],
            lock_ops: 0,
            contended: 0,
        }),
        cv: Condvar::new(),
    });
    let mut handles = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        let sh = sh.clone();
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .name(format!("worker{i}"))
            .spawn(move || {
                runner::adopt_thread(0x7EAD + i as u64);
                WORKER.with(|w| *w.borrow_mut() = Some((sh.clone(), i)));
                sh.pause(i, State::Ready);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                let p = runner::take_panic();
                WORKER.with(|w| *w.borrow_mut() = None);
                let mut g = sh.m.lock().unwrap();
                if r.is_err() {
                    let (loc, msg) = p.unwrap_or_default();
                    g.panics.push((i, loc, msg));
                }
                g.states[i] = State::Done;
                sh.cv.notify_all();
            })
            .expect("spawn");
        handles.push(h);
    }
    let mut last = usize::MAX;
    let end = loop {
        let mut g = sh.m.lock().unwrap();
        let mut waited = Duration::ZERO;
        while g.states.contains(&State::Running) {
            let (g2, t) = sh.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = g2;
            if t.timed_out() {
                waited += Duration::from_millis(500);
                if waited > Duration::from_secs(20) {
                    break;
                }
            }
        }
        if let Some(i) = g.states.iter().position(|s| *s == State::Running) {
            // computing for that long, or blocked on something that is not instrumented
            break End::Stuck(format!("thread {i} does not come back; states {:?}", g.states));
        }
        if let Some((i, loc, msg)) = g.panics.pop() {
            break End::Panicked(loc, format!("thread {i}: {msg}"));
        }
        if g.states.iter().all(|s| *s == State::Done) {
            break End::Finished;
        }
        let free = |g: &Inner, me: usize, write: bool, lock: usize| -> bool {
            let waiting_writer = prefer_writers
                && !write
                && g.states
                    .iter()
                    .enumerate()
                    .any(|(j, s)| j != me && matches!(s, State::Waiting(true, l) if *l == lock));
            match g.held.get(&lock) {
                None => !waiting_writer,
                Some(h) => h.writer.is_none() && (!write || h.readers.is_empty()) && !waiting_writer,
            }
        };
        let cand: Vec<usize> = (0..n)
            .filter(|i| match g.states[*i] {
                State::Ready | State::Want(..) => true,
                State::Waiting(w, l) => free(&g, *i, w, l),
                _ => false,
            })
            .collect();
        if cand.is_empty() {
            let mut d = Vec::new();
            for i in 0..n {
                if let State::Waiting(w, l) = g.states[i] {
                    let name = show(&mut g, l);
                    let h = g.held.get(&l);
                    d.push(format!(
                        "thread {i} waits to {} {name} (held by {:?} reading, {:?} writing)",
                        if w { "write" } else { "read" },
                        h.map(|h| h.readers.keys().copied().collect::<Vec<_>>()).unwrap_or_default(),
                        h.and_then(|h| h.writer)
                    ));
                }
            }
            break End::Deadlock(d.join("; "));
        }
        // stay with the same thread for a while, or switch: both are legal
        let k = if cand.contains(&last) && world::chance(Stream::Sched, 1, 3) {
            last
        } else {
            cand[world::choose(Stream::Sched, cand.len() as u64) as usize]
        };
        if last != k {
            world::probe("thread_switches");
        }
        last = k;
        world::with(|w| {
            w.steps += 1;
            w.sched_sig = mix(w.sched_sig, k as u64 * 2);
        });
        match g.states[k] {
            State::Want(w, l) | State::Waiting(w, l) => {
                if free(&g, k, w, l) {
                    let h = g.held.entry(l).or_default();
                    if w {
                        h.writer = Some(k);
                    } else {
                        *h.readers.entry(k).or_insert(0) += 1;
                    }
                    g.states[k] = State::Running;
                    ev!("thread {k} takes a lock to {}", if w { "write" } else { "read" });
                    sh.cv.notify_all();
                } else {
                    g.contended += 1;
                    g.states[k] = State::Waiting(w, l);
                    ev!("thread {k} has to wait for a lock");
                }
            }
            State::Ready => {
                g.states[k] = State::Running;
                ev!("thread {k} goes on");
                sh.cv.notify_all();
            }
            _ => {}
        }
    };
    {
        let g = sh.m.lock().unwrap();
        world::probe_n("lock_operations", g.lock_ops);
        world::probe_n("contended_locks", g.contended);
    }
    if let End::Finished = end {
        for h in handles {
            let _ = h.join();
        }
    }
    // otherwise the threads that are left stay parked; the process ends soon
    end
}
