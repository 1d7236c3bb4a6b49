//! What the harness controls: the executor, scheduling choices and preemption points.
use std::cell::{RefCell, UnsafeCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Shared single-threaded state that claims to be `Send`: harnesses are single-threaded programs.
pub struct Shared<T>(Rc<RefCell<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> std::fmt::Debug for Shared<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("..")
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(Rc::new(RefCell::new(t)))
    }
    pub fn get(&self) -> std::cell::RefMut<'_, T> {
        self.0.borrow_mut()
    }
    pub fn same(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}

pub(crate) struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub(crate) const fn new(t: T) -> Self {
        Global(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

struct Flag {
    woken: AtomicBool,
    wakes: AtomicUsize,
}
impl Task {
    fn ready(&self) -> bool {
        self.fut.is_some() && self.flag.as_ref().is_some_and(|f| f.woken.load(Ordering::Relaxed))
    }
    fn finish(&mut self) -> Option<BoxFut> {
        self.done = true;
        self.flag = None;
        self.fut.take()
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed);
        self.wakes.fetch_add(1, Ordering::Relaxed);
    }
}

static CHANNELS: AtomicUsize = AtomicUsize::new(0);
/// In every channel, so that they can be counted.
pub struct Live(());
impl Live {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        CHANNELS.fetch_add(1, Ordering::Relaxed);
        Live(())
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        CHANNELS.fetch_sub(1, Ordering::Relaxed);
    }
}
/// Channels of which some end is alive.
pub fn channels() -> usize {
    CHANNELS.load(Ordering::Relaxed)
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;
struct Task {
    flag: Option<Arc<Flag>>,
    fut: Option<BoxFut>,
    done: bool,
}

struct World {
    tasks: Vec<Task>,
    polls: usize,
    sched_choice: usize,
    last: usize,
    coop: usize,
    hook: Option<Box<dyn FnMut()>>,
    hook_budget: usize,
    contention: usize,
    /// a thread of `threads` is running
    threaded: bool,
    switches: usize,
    locks: usize,
}

static WORLD: Global<World> = Global::new(World {
    tasks: Vec::new(),
    polls: 0,
    sched_choice: 0,
    last: 0,
    coop: 0,
    hook: None,
    hook_budget: 0,
    contention: 0,
    threaded: false,
    switches: 0,
    locks: 0,
});

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TaskId(pub usize);

/// Add a task; it is woken at once.
pub fn task(fut: impl Future<Output = ()> + 'static) -> TaskId {
    let w = WORLD.get();
    w.tasks.push(Task {
        flag: Some(Arc::new(Flag {
            woken: AtomicBool::new(true),
            wakes: AtomicUsize::new(1),
        })),
        fut: Some(Box::pin(fut)),
        done: false,
    });
    TaskId(w.tasks.len() - 1)
}

pub fn done(t: TaskId) -> bool {
    WORLD.get().tasks[t.0].done
}
/// Number of tasks ever spawned.
pub fn tasks() -> usize {
    WORLD.get().tasks.len()
}
/// Number of tasks that have not completed.
pub fn live_tasks() -> usize {
    WORLD.get().tasks.iter().filter(|t| !t.done).count()
}
pub fn woken(t: TaskId) -> bool {
    let t = &WORLD.get().tasks[t.0];
    !t.done && t.flag.as_ref().is_some_and(|f| f.woken.load(Ordering::Relaxed))
}
/// Room for `n` tasks, so that spawning does not change what `nd::heap` reports.
pub fn room_for_tasks(n: usize) {
    WORLD.get().tasks.reserve(n);
}
/// Drop the future of a task, as a runtime does on abort or shutdown.
pub fn kill(t: TaskId) {
    let f = WORLD.get().tasks[t.0].finish();
    drop(f);
}
pub fn polls() -> usize {
    WORLD.get().polls
}
/// The first `n` times more than one task could run, which one does is a symbolic choice.
pub fn schedule_choices(n: usize) {
    WORLD.get().sched_choice = n;
}
/// Up to `n` times, a tokio resource may report Pending although it is ready, waking the task
/// (tokio's cooperative budget).
pub fn coop_choices(n: usize) {
    WORLD.get().coop = n;
}
pub(crate) fn coop(cx: &mut Context<'_>) -> bool {
    let w = WORLD.get();
    if w.coop > 0 && nd::bool("coop budget exhausted") {
        w.coop -= 1;
        cx.waker().wake_by_ref();
        return true;
    }
    false
}

/// Run `hook` at up to `n` synchronisation operations of the code under test, at each of them a
/// symbolic choice: another thread that gets in exactly there.
pub fn preempt_with(n: usize, hook: impl FnMut() + 'static) {
    let w = WORLD.get();
    w.hook_budget = n;
    w.hook = Some(Box::new(hook));
}
pub fn no_preempt() {
    let w = WORLD.get();
    w.hook_budget = 0;
    w.hook = None;
}
/// A synchronisation operation of the code under test.
pub fn preempt() {
    let w = WORLD.get();
    if w.threaded && w.switches > 0 && w.locks == 0 && nd::bool("another thread runs here") {
        w.switches -= 1;
        nd::co_yield();
    }
    let w = WORLD.get();
    if w.hook_budget == 0 || w.locks > 0 || w.hook.is_none() {
        return;
    }
    if nd::bool("preempt here") {
        w.hook_budget -= 1;
        let mut h = w.hook.take().unwrap();
        h();
        let w = WORLD.get();
        if w.hook.is_none() {
            w.hook = Some(h);
        }
    }
}
/// Run these on threads of their own, which take turns: up to `n` times a thread is stopped at a
/// synchronisation operation, a symbolic choice, and another one goes on from where it was.
pub fn threads(n: usize, bodies: Vec<Box<dyn FnOnce()>>) {
    extern "C" fn start(f: *mut u8) {
        let f = unsafe { Box::from_raw(f as *mut Box<dyn FnOnce()>) };
        f()
    }
    let ids: Vec<u64> = bodies.into_iter().map(|b| nd::co_new(start, Box::into_raw(Box::new(b)) as *mut u8)).collect();
    WORLD.get().switches = n;
    let mut last = usize::MAX;
    loop {
        let mut open: Vec<usize> = (0..ids.len()).filter(|&i| !nd::co_done(ids[i])).collect();
        if open.len() > 1 {
            open.retain(|&i| i != last);
        }
        if open.is_empty() {
            break;
        }
        last = open[nd::pick(0, open.len() - 1, "which thread runs")];
        WORLD.get().threaded = true;
        nd::co_resume(ids[last]);
        WORLD.get().threaded = false;
    }
    WORLD.get().switches = 0;
}
/// Another thread holds the lock that is tried, at most twice in a run.
pub fn contended() -> bool {
    let w = WORLD.get();
    if w.contention < 2 && nd::bool("contended") {
        w.contention += 1;
        return true;
    }
    false
}
pub fn lock_taken() {
    WORLD.get().locks += 1;
}
pub fn lock_released() {
    WORLD.get().locks -= 1;
}

fn poll_task(i: usize) {
    let w = WORLD.get();
    w.polls += 1;
    let (Some(flag), Some(mut fut)) = (w.tasks[i].flag.clone(), w.tasks[i].fut.take()) else {
        return;
    };
    flag.woken.store(false, Ordering::Relaxed);
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    match fut.as_mut().poll(&mut cx) {
        Poll::Ready(()) => {
            drop(fut);
            WORLD.get().tasks[i].finish();
        }
        Poll::Pending => {
            let t = &mut WORLD.get().tasks[i];
            if t.done {
                drop(fut);
            } else {
                t.fut = Some(fut);
            }
        }
    }
}

/// Poll one woken task once, taking turns.
pub fn step() -> bool {
    let w = WORLD.get();
    let ready: Vec<usize> = (0..w.tasks.len())
        .filter(|&i| w.tasks[i].ready())
        .collect();
    if ready.is_empty() {
        return false;
    }
    let i = if ready.len() > 1 && w.sched_choice > 0 {
        w.sched_choice -= 1;
        nd::pick(0, ready.len() - 1, "next task")
    } else {
        ready.iter().position(|&t| t > w.last).unwrap_or(0)
    };
    w.last = ready[i];
    poll_task(ready[i]);
    true
}

/// Poll woken tasks until none is. False: still busy after `max` polls.
/// Timers fire only then; periodic ones a few times per call.
#[must_use]
pub fn run(max: usize) -> bool {
    let mut ticks = 8;
    for _ in 0..max {
        if !step() {
            if ticks == 0 || !crate::time::advance() {
                crate::time::quiet();
                return true;
            }
            ticks -= 1;
        }
    }
    let w = WORLD.get();
    !w.tasks.iter().any(|t| t.ready())
}

/// Poll a future of the harness once with a waker that records wakes.
pub struct Probe {
    flag: RefCell<Arc<Flag>>,
}
impl Default for Probe {
    fn default() -> Self {
        Self::new()
    }
}
fn flag() -> Arc<Flag> {
    Arc::new(Flag {
        woken: AtomicBool::new(false),
        wakes: AtomicUsize::new(0),
    })
}
/// Each poll comes with a waker of its own, as if the future had moved to another task: only the
/// latest one has to be woken.
impl Probe {
    pub fn new() -> Self {
        Probe { flag: RefCell::new(flag()) }
    }
    pub fn waker(&self) -> Waker {
        Waker::from(self.flag.borrow().clone())
    }
    /// Has the waker fired since the last poll?
    pub fn woken(&self) -> bool {
        self.flag.borrow().woken.load(Ordering::Relaxed)
    }
    pub fn poll<F: Future + ?Sized>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        self.with(|cx| f.poll(cx))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        self.flag.replace(flag());
        let w = self.waker();
        f(&mut Context::from_waker(&w))
    }
}

/// Drive a future that must complete without external events.
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let p = Probe::new();
    for _ in 0..64 {
        if let Poll::Ready(r) = p.poll(f.as_mut()) {
            return Some(r);
        }
        if !p.woken() {
            return None;
        }
    }
    None
}
