//! Deterministic single-threaded executor: the scheduling tape decides which ready task is polled
//! next, when simulated time advances, and when a task is polled without having been woken.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::tape::mix;
use crate::world::{self, Stream};

struct TaskWaker {
    id: usize,
    ready: Arc<Mutex<BTreeSet<usize>>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.ready.lock().unwrap().insert(self.id);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.ready.lock().unwrap().insert(self.id);
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stall {
    /// No task can run, no event is pending, and some task has not finished.
    Deadlock,
    /// The step budget ran out.
    Budget,
}

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

/// Runs `f` with a tokio runtime at hand for code that spawns tasks. The runtime is single
/// threaded, has no clock or I/O driver of its own, and runs only when the simulator lets it: its
/// tasks wait for the simulator's timers like everything else.
pub fn with_tokio<T>(f: impl FnOnce() -> T) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    let handle = rt.handle().clone();
    RT.with(|r| *r.borrow_mut() = Some(rt));
    struct Gone;
    impl Drop for Gone {
        fn drop(&mut self) {
            let rt = RT.with(|r| r.borrow_mut().take());
            drop(rt);
        }
    }
    let _gone = Gone;
    let _guard = handle.enter();
    f()
}

/// Lets spawned tasks run for a bit.
fn pump(rounds: u64) {
    RT.with(|r| {
        if let Some(rt) = r.borrow().as_ref() {
            rt.block_on(async {
                for _ in 0..rounds {
                    tokio::task::yield_now().await;
                }
            });
        }
    })
}

fn has_tokio() -> bool {
    RT.with(|r| r.borrow().is_some())
}

pub const STEP_BUDGET: u64 = 200_000;

/// Runs all tasks to completion under the seeded schedule.
pub fn run<'a>(mut tasks: Vec<Option<Task<'a>>>) -> Result<(), Stall> {
    let ready = Arc::new(Mutex::new((0..tasks.len()).collect::<BTreeSet<_>>()));
    let wakers: Vec<Waker> = (0..tasks.len())
        .map(|id| {
            Waker::from(Arc::new(TaskWaker {
                id,
                ready: ready.clone(),
            }))
        })
        .collect();
    let mut live = tasks.iter().filter(|t| t.is_some()).count();
    let start = world::with(|w| w.steps);
    let tokio = has_tokio();
    while live > 0 {
        let steps = world::with(|w| {
            w.steps += 1;
            w.steps
        });
        if steps - start > STEP_BUDGET {
            return Err(Stall::Budget);
        }
        if tokio && world::chance(Stream::Sched, 1, 3) {
            pump(1);
        }
        let woken = |tasks: &[Option<Task<'a>>]| -> Vec<usize> {
            ready.lock().unwrap().iter().copied().filter(|i| tasks[*i].is_some()).collect()
        };
        let mut cand = woken(&tasks);
        if tokio {
            let mut left = 64;
            while left > 0 && cand.is_empty() && !world::has_events() {
                pump(64);
                cand = woken(&tasks);
                left -= 1;
            }
        }
        let events = world::has_events();
        if cand.is_empty() && !events {
            return Err(Stall::Deadlock);
        }
        let spurious = world::with(|w| w.spurious_rate);
        if spurious > 0 && world::chance(Stream::Sched, spurious, 64) {
            // A legal but unusual thing: poll a task nobody woke.
            let all: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some()).collect();
            let k = all[world::choose(Stream::Sched, all.len() as u64) as usize];
            if !cand.contains(&k) {
                world::probe("spurious_poll");
            }
            cand = vec![k];
        } else if cand.is_empty() || (events && world::chance(Stream::Sched, 1, 4)) {
            world::fire_next();
            continue;
        }
        let k = if cand.len() == 1 {
            cand[0]
        } else {
            cand[world::choose(Stream::Sched, cand.len() as u64) as usize]
        };
        ready.lock().unwrap().remove(&k);
        world::with(|w| w.sched_sig = mix(w.sched_sig, k as u64 * 2));
        let mut cx = Context::from_waker(&wakers[k]);
        if let Poll::Ready(()) = tasks[k].as_mut().unwrap().as_mut().poll(&mut cx) {
            tasks[k] = None;
            live -= 1;
        }
    }
    Ok(())
}

/// Runs one future to completion.
pub fn block_on<T>(fut: impl Future<Output = T>) -> Result<T, Stall> {
    let mut out = None;
    {
        let slot = &mut out;
        let t: Task<'_> = Box::pin(async move {
            *slot = Some(fut.await);
        });
        run(vec![Some(t)])?;
    }
    Ok(out.expect("finished task has a result"))
}
