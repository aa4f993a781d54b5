//! Interleavings across threads as inputs: every task runs on an OS thread of its own, but only the one holding the
//! baton runs. The baton moves at yield points (operations of the task, callbacks into the harness: wakers, the inner
//! service, tracing events and span lookups inside the library) as a generated list of choices says. A task that is
//! blocked in a lock held by a preempted one gives the baton back after a while (real concurrency, never a verdict).
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Wake, Waker};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Runnable,
    Blocked,
    Done,
}
struct In {
    cur: usize,
    st: Vec<T>,
    woken: Vec<bool>,
    choices: VecDeque<u8>,
    progress: u64,
    over: bool,
    switches: u32,
    points: u32,
    takeovers: u32,
}
pub struct Sched {
    m: Mutex<In>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// Runs the tasks to the end, or until none of them can run any more; returns (preemptions, yield points).
pub fn run<'a>(choices: &[u8], tasks: Vec<Box<dyn FnOnce() + Send + 'a>>) -> (u32, u32, u32) {
    let n = tasks.len();
    let s = Arc::new(Sched {
        m: Mutex::new(In {
            cur: 0,
            st: vec![T::Runnable; n],
            woken: vec![false; n],
            choices: choices.iter().copied().collect(),
            progress: 0,
            over: false,
            switches: 0,
            points: 0,
            takeovers: 0,
        }),
        cv: Condvar::new(),
    });
    std::thread::scope(|sc| {
        for (i, t) in tasks.into_iter().enumerate() {
            let s = s.clone();
            sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                s.wait_turn(s.m.lock().unwrap(), i);
                t();
                ME.with(|m| *m.borrow_mut() = None);
                let mut g = s.m.lock().unwrap();
                g.progress += 1;
                g.st[i] = T::Done;
                if g.cur == i {
                    s.pass(&mut g, 0);
                }
            });
        }
    });
    let g = s.m.lock().unwrap();
    (g.switches, g.points, g.takeovers)
}

impl Sched {
    /// Hands the baton to some runnable task.
    fn pass(&self, g: &mut In, pick: u8) {
        let r: Vec<usize> = (0..g.st.len()).filter(|&i| g.st[i] == T::Runnable).collect();
        if r.is_empty() {
            // everything is blocked or done
            g.over = true;
        } else {
            g.cur = r[pick as usize % r.len()];
        }
        self.cv.notify_all();
    }
    fn wait_turn(&self, mut g: MutexGuard<'_, In>, me: usize) {
        let mut seen = g.progress;
        loop {
            if g.over || (g.cur == me && g.st[me] == T::Runnable) {
                return;
            }
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(25)).unwrap();
            g = h;
            if t.timed_out() {
                if g.progress == seen && g.st[me] == T::Runnable && !g.over {
                    // the holder does not move: it may wait for something this task holds
                    g.cur = me;
                    g.takeovers += 1;
                    self.cv.notify_all();
                    return;
                }
                seen = g.progress;
            }
        }
    }
}

/// A point where another task may run.
pub fn yield_point() {
    let Some((s, me)) = ME.with(|m| m.try_borrow().ok().and_then(|m| m.clone())) else { return };
    let mut g = s.m.lock().unwrap();
    g.progress += 1;
    g.points += 1;
    if g.over {
        return;
    }
    let c = g.choices.pop_front().unwrap_or(0);
    if c == 0 && g.cur == me {
        return;
    }
    if g.cur == me {
        let others: Vec<usize> = (0..g.st.len()).filter(|&i| i != me && g.st[i] == T::Runnable).collect();
        if others.is_empty() {
            return;
        }
        g.switches += 1;
        g.cur = others[(c as usize - 1) % others.len()];
        s.cv.notify_all();
    }
    s.wait_turn(g, me);
}

/// Blocks the task until its waker is called; false once no task can run any more.
pub fn block() -> bool {
    let (s, me) = ME.with(|m| m.borrow().clone()).expect("a scheduled task");
    let mut g = s.m.lock().unwrap();
    g.progress += 1;
    if g.over {
        return false;
    }
    if !g.woken[me] {
        g.st[me] = T::Blocked;
        if g.cur == me {
            let c = g.choices.pop_front().unwrap_or(0);
            s.pass(&mut g, c);
        }
        s.wait_turn(g, me);
        g = s.m.lock().unwrap();
        if g.over {
            return false;
        }
    }
    g.woken[me] = false;
    true
}
/// The waker of the calling task.
pub fn waker() -> Waker {
    let (s, me) = ME.with(|m| m.borrow().clone()).expect("a scheduled task");
    let mut g = s.m.lock().unwrap();
    g.woken[me] = false;
    drop(g);
    Waker::from(Arc::new(W(s, me)))
}
struct W(Arc<Sched>, usize);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        {
            let mut g = self.0.m.lock().unwrap();
            g.woken[self.1] = true;
            if g.st[self.1] == T::Blocked {
                g.st[self.1] = T::Runnable;
            }
        }
        yield_point();
    }
}

// ---- tracing: the library's own events as yield points, and spans ----

thread_local! {
    static HOOK: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    static SPANS: RefCell<Spans> = const { RefCell::new(Spans { meta: vec![], stack: vec![] }) };
}
struct Spans {
    meta: Vec<&'static tracing::Metadata<'static>>,
    stack: Vec<u64>,
}
struct Sub;
impl tracing::Subscriber for Sub {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        match HOOK.with(|h| h.get()) {
            0 => false,
            1 => true,
            _ => m.is_span(),
        }
    }
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        SPANS.with(|s| {
            let mut s = s.borrow_mut();
            s.meta.push(a.metadata());
            tracing::span::Id::from_u64(s.meta.len() as u64)
        })
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        if HOOK.with(|h| h.get()) == 1 {
            yield_point()
        }
    }
    fn enter(&self, id: &tracing::span::Id) {
        SPANS.with(|s| s.borrow_mut().stack.push(id.into_u64()))
    }
    fn exit(&self, id: &tracing::span::Id) {
        SPANS.with(|s| {
            let mut s = s.borrow_mut();
            if let Some(i) = s.stack.iter().rposition(|x| *x == id.into_u64()) {
                s.stack.remove(i);
            }
        })
    }
    fn current_span(&self) -> tracing_core_current::Current {
        match HOOK.with(|h| h.get()) {
            1 => yield_point(),
            2 => {
                return SPANS.with(|s| {
                    let s = s.borrow();
                    match s.stack.last() {
                        Some(i) => tracing_core_current::Current::new(tracing::span::Id::from_u64(*i), s.meta[*i as usize - 1]),
                        None => tracing_core_current::Current::none(),
                    }
                })
            }
            _ => {}
        }
        tracing_core_current::Current::none()
    }
}
use tracing_core::span as tracing_core_current;

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Sub);
    });
}
/// The library's tracing events and span lookups on this thread become yield points.
pub fn events_yield<T>(f: impl FnOnce() -> T) -> T {
    install();
    HOOK.with(|h| h.set(1));
    let r = f();
    HOOK.with(|h| h.set(0));
    r
}
/// Spans on this thread are tracked; `current()` tells the innermost entered one.
pub fn spans<T>(f: impl FnOnce() -> T) -> T {
    install();
    SPANS.with(|s| {
        let mut s = s.borrow_mut();
        s.meta.clear();
        s.stack.clear();
    });
    HOOK.with(|h| h.set(2));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(0));
        }
    }
    let _off = Off;
    f()
}
pub fn current() -> Option<u64> {
    SPANS.with(|s| s.borrow().stack.last().copied())
}
pub fn depth() -> usize {
    SPANS.with(|s| s.borrow().stack.len())
}
