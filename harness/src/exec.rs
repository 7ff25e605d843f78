//! Small executors and future wrappers.

use std::future::Future;
use std::pin::{Pin, pin};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::{Acquire, Relaxed, Release}};
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;
use std::time::Duration;

use crate::util::Rng;

pub static PENDINGS: AtomicU64 = AtomicU64::new(0);
pub static WAKES: AtomicU64 = AtomicU64::new(0);

struct TaskWaker {
    ready: AtomicBool,
    thread: Thread,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        WAKES.fetch_add(1, Relaxed);
        self.ready.store(true, Release);
        self.thread.unpark();
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Arc::new(TaskWaker { ready: AtomicBool::new(true), thread: std::thread::current() });
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        if w.ready.swap(false, Acquire) {
            if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                return r;
            }
            PENDINGS.fetch_add(1, Relaxed);
        } else {
            std::thread::park();
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Runs tasks in random order on the current thread.
///
/// If `alone` is `true`, nobody else can wake a task: returns the numbers of the tasks that are
/// unfinished when none is ready.
pub fn run_tasks(tasks: Vec<Task<'_>>, rng: &mut Rng, alone: bool) -> Vec<usize> {
    let mut slots: Vec<Option<(Task<'_>, Arc<TaskWaker>)>> = tasks
        .into_iter()
        .map(|t| {
            Some((
                t,
                Arc::new(TaskWaker {
                    ready: AtomicBool::new(true),
                    thread: std::thread::current(),
                }),
            ))
        })
        .collect();
    let mut left = slots.len();
    let mut ready: Vec<usize> = Vec::new();
    while left != 0 {
        ready.clear();
        for (i, s) in slots.iter().enumerate() {
            if let Some((_, w)) = s {
                if w.ready.load(Acquire) {
                    ready.push(i);
                }
            }
        }
        if ready.is_empty() {
            if alone {
                return slots
                    .iter()
                    .enumerate()
                    .filter(|(_, s)| s.is_some())
                    .map(|(i, _)| i)
                    .collect();
            }
            if cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::thread::park_timeout(Duration::from_millis(50));
            }
            continue;
        }
        let i = *rng.pick(&ready);
        let done = {
            let (t, w) = slots[i].as_mut().unwrap();
            w.ready.store(false, Relaxed);
            let waker = Waker::from(w.clone());
            let mut cx = Context::from_waker(&waker);
            t.as_mut().poll(&mut cx).is_ready()
        };
        if done {
            slots[i] = None;
            left -= 1;
        } else {
            PENDINGS.fetch_add(1, Relaxed);
        }
    }
    Vec::new()
}

/// Gives others a chance.
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await;
}

/// How a cancelled future goes.
#[derive(Clone, Copy, Debug)]
pub enum Drops {
    /// Right after it returned pending.
    AtOnce,
    /// When it has been woken, instead of polling it.
    OnWake,
    /// After other tasks ran for a while, woken or not.
    Later(u32),
}

struct Flag(AtomicBool, Waker);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Release);
        self.1.wake_by_ref();
    }
}

/// Futures dropped while pending, and those among them that had been woken.
pub static DROPPED: AtomicU64 = AtomicU64::new(0);
pub static DROPPED_WOKEN: AtomicU64 = AtomicU64::new(0);

/// Drops the future after it has been pending more than `polls` times.
pub async fn cancel_after<F: Future>(f: F, polls: u32, how: Drops) -> Option<F::Output> {
    let mut slot = Some(Box::pin(f));
    let mut left = polls;
    let mut dropping: Option<u32> = None;
    let mut flag: Option<Arc<Flag>> = None;
    std::future::poll_fn(move |cx| {
        let woken = flag.as_ref().is_some_and(|f| f.0.load(Acquire));
        let mut give_up = |slot: &mut Option<_>, woken: bool| {
            DROPPED.fetch_add(1, Relaxed);
            DROPPED_WOKEN.fetch_add(u64::from(woken), Relaxed);
            *slot = None;
            Poll::Ready(None)
        };
        if let Some(n) = dropping.as_mut() {
            if *n == 0 {
                return give_up(&mut slot, woken);
            }
            *n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let Some(p) = slot.as_mut() else { return Poll::Ready(None) };
        let fl = Arc::new(Flag(AtomicBool::new(false), cx.waker().clone()));
        let w = Waker::from(fl.clone());
        flag = Some(fl.clone());
        match p.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => {
                slot = None;
                Poll::Ready(Some(r))
            }
            Poll::Pending => {
                if left > 0 {
                    left -= 1;
                    return Poll::Pending;
                }
                match how {
                    Drops::AtOnce => give_up(&mut slot, fl.0.load(Acquire)),
                    Drops::OnWake => {
                        dropping = Some(0);
                        Poll::Pending
                    }
                    Drops::Later(n) => {
                        dropping = Some(n);
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                }
            }
        }
    })
    .await
}
