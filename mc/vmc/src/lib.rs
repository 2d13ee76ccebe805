//! vmc: a stateless model checker for async Rust programs.
//!
//! One execution runs on one fresh OS thread; every task is a coroutine that polls its future, so that scheduling points
//! can be taken inside a poll (before lock, channel, semaphore operations, ...). Time is virtual. Every source of
//! nondeterminism is a numbered choice; an execution is determined by its list of choices, and the explorer enumerates
//! the lists (all environment choices, scheduling deviations up to a bound).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub mod explore;
pub mod os;

pub type Tid = usize;
pub type BoxFuture = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Why {
    /// The poll returned Pending (or the task is done)
    Pending,
    /// Preempted in the middle of a poll
    Preempt,
    /// Waiting for a lock in the middle of a poll
    SyncWait,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Blocked,
    Queued,
    Running,
    SyncWait,
    Done,
}

struct Task {
    co: Option<Coroutine<(), Why, (), DefaultStack>>,
    st: St,
    /// Was it preempted mid-poll (so a wake must be remembered, not lost)?
    midpoll: bool,
    woken: bool,
    aborted: bool,
    name: String,
    yielder: *const Yielder<(), Why>,
    /// Tasks that belong to the scenario are not preempted
    quiet: bool,
    group: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub chosen: u8,
    pub n: u8,
    pub sched: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// panic | assert | hang | livelock | nondet
    pub kind: String,
    /// A stable key that identifies what failed (without the schedule)
    pub key: String,
    pub msg: String,
}

#[derive(Clone)]
pub struct RunCfg {
    pub prefix: Vec<u8>,
    /// Rolling hash expected before the last choice of the prefix (None: do not check)
    pub expect_hash: Option<u64>,
    pub seed: u64,
    pub max_steps: u64,
    pub trace: bool,
    pub trace_all: bool,
}

#[derive(Default)]
pub struct RunOut {
    pub choices: Vec<Choice>,
    /// Rolling hash before each choice
    pub hashes: Vec<u64>,
    pub failure: Option<Failure>,
    pub steps: u64,
    pub tasks: usize,
    pub log: Vec<String>,
    pub cover: Vec<&'static str>,
    pub outcome: u64,
    /// Cases that the scenario enumerated by itself
    pub cases: u64,
    pub end_time: Duration,
    pub labels: Vec<(String, u8)>,
}

struct Exec {
    cfg: RunCfg,
    tasks: Vec<Task>,
    ready: VecDeque<Tid>,
    low: VecDeque<Tid>,
    settle: VecDeque<(u64, Waker)>,
    timers: BTreeMap<(Duration, u64), Waker>,
    seq: u64,
    now: Duration,
    /// Steps taken when time last passed
    moved: u64,
    current: Option<Tid>,
    exploring: bool,
    teardown: bool,
    driver_done: bool,
    allow_panics: bool,
    panics: Vec<String>,
    hash: u64,
    out: RunOut,
    deadline: Option<Duration>,
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn ex() -> Option<&'static mut Exec> {
    let p = EXEC.with(Cell::get);
    // One thread, and no reference is held across a yield or a call into user code.
    unsafe { p.as_mut() }
}

/// Whether an execution is active on this thread
pub fn active() -> bool {
    !EXEC.with(Cell::get).is_null()
}

static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());
const STACK_SIZE: usize = 512 * 1024;

fn get_stack() -> DefaultStack {
    if let Some(s) = STACKS.lock().unwrap().pop() {
        return s;
    }
    DefaultStack::new(STACK_SIZE).expect("stack")
}

struct TaskWaker(Tid);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        wake_task(self.0);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        wake_task(self.0);
    }
}

fn wake_task(tid: Tid) {
    let Some(e) = ex() else { return };
    let Some(t) = e.tasks.get_mut(tid) else { return };
    match t.st {
        St::Done => {}
        St::Blocked => {
            t.st = St::Queued;
            e.ready.push_back(tid);
        }
        St::Queued => {
            if t.midpoll {
                t.woken = true;
            }
        }
        St::Running | St::SyncWait => t.woken = true,
    }
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x
}

impl Exec {
    fn pick(&mut self, n: usize, sched: bool, label: impl FnOnce() -> String) -> usize {
        debug_assert!(n >= 2 && n < 250);
        let idx = self.out.choices.len();
        if idx + 1 == self.cfg.prefix.len() {
            if let Some(h) = self.cfg.expect_hash {
                if h != self.hash && self.out.failure.is_none() {
                    self.out.failure = Some(Failure {
                        kind: "nondet".into(),
                        key: "nondet".into(),
                        msg: format!("replay diverged before choice {idx}"),
                    });
                }
            }
        }
        let mut c = if idx < self.cfg.prefix.len() { self.cfg.prefix[idx] as usize } else { 0 };
        if c >= n {
            if self.out.failure.is_none() {
                self.out.failure = Some(Failure {
                    kind: "nondet".into(),
                    key: "nondet".into(),
                    msg: format!("replay diverged at choice {idx}: {c} of {n}"),
                });
            }
            c = 0;
        }
        self.out.hashes.push(self.hash);
        self.hash = mix(self.hash, (n as u64) << 16 | (c as u64) << 8 | sched as u64);
        self.hash = mix(self.hash, self.current.unwrap_or(999) as u64);
        self.out.choices.push(Choice { chosen: c as u8, n: n as u8, sched });
        if self.cfg.trace && self.out.log.len() < LOG_MAX {
            let l = label();
            if !sched || c != 0 || self.cfg.trace_all {
                let line = format!("[{:>9.3}s] choice #{idx} {l} -> {c}/{n}", self.now.as_secs_f64());
                self.out.log.push(line.clone());
                self.out.labels.push((l, c as u8));
            }
        }
        c
    }
}

fn yield_now_as(why: Why) {
    let y = {
        let e = ex().expect("no execution");
        let cur = e.current.expect("not in a task");
        e.tasks[cur].yielder
    };
    unsafe { (*y).suspend(why) };
}

/// A scheduling point in the middle of a poll.
pub fn preempt(kind: &'static str) {
    let Some(e) = ex() else { return };
    let Some(cur) = e.current else { return };
    if !e.exploring || e.teardown || e.out.failure.is_some() || e.tasks[cur].quiet || e.ready.is_empty() {
        return;
    }
    if std::thread::panicking() {
        return;
    }
    let name = if e.cfg.trace { e.tasks[cur].name.clone() } else { String::new() };
    let c = e.pick(3, true, || format!("preempt t{cur} {name} before {kind}"));
    match c {
        0 => return,
        1 => e.ready.push_back(cur),
        _ => e.low.push_back(cur),
    }
    e.tasks[cur].st = St::Queued;
    e.tasks[cur].midpoll = true;
    yield_now_as(Why::Preempt);
}

/// Blocks the current task inside its poll until `unpark_sync`.
pub fn park_sync() {
    yield_now_as(Why::SyncWait);
}

pub fn unpark_sync(tid: Tid) {
    let Some(e) = ex() else { return };
    if let Some(t) = e.tasks.get_mut(tid) {
        if t.st == St::SyncWait {
            t.st = St::Queued;
            e.ready.push_back(tid);
        }
    }
}

pub fn current() -> Option<Tid> {
    ex().and_then(|e| e.current)
}

pub fn in_teardown() -> bool {
    ex().is_none_or(|e| e.teardown)
}

/// An environment choice: all `n` answers are explored.
pub fn choose(n: usize, label: &str) -> usize {
    let e = ex().expect("no execution");
    if n <= 1 {
        return 0;
    }
    if n >= 250 {
        let hi = choose(n.div_ceil(128), label);
        return hi * 128 + choose((n - hi * 128).min(128), label);
    }
    let c = e.pick(n, false, || label.to_string());
    e.hash = mix(e.hash, 77);
    c
}

/// A choice that costs one deviation unless 0 is taken (e.g. a fault).
pub fn choose_costly(n: usize, label: &str) -> usize {
    let e = ex().expect("no execution");
    if n <= 1 || !e.exploring {
        return 0;
    }
    e.pick(n, true, || label.to_string())
}

pub fn explore(on: bool) {
    if let Some(e) = ex() {
        e.exploring = on;
    }
}
pub fn exploring() -> bool {
    ex().is_some_and(|e| e.exploring)
}

pub fn allow_panics(on: bool) {
    if let Some(e) = ex() {
        e.allow_panics = on;
    }
}
pub fn take_panics() -> Vec<String> {
    ex().map(|e| std::mem::take(&mut e.panics)).unwrap_or_default()
}

pub fn note(msg: impl FnOnce() -> String) {
    if let Some(e) = ex() {
        if e.cfg.trace && e.out.log.len() < LOG_MAX {
            let now = e.now;
            let m = msg();
            e.out.log.push(format!("[{:>9.3}s] {m}", now.as_secs_f64()));
        }
    }
}
pub fn tracing_on() -> bool {
    ex().is_some_and(|e| e.cfg.trace)
}

/// Counts executions in which the label was reached
pub fn cover(label: &'static str) {
    if let Some(e) = ex() {
        if !e.out.cover.contains(&label) {
            e.out.cover.push(label);
        }
    }
}

/// Mixes a value into the outcome fingerprint of the execution
pub fn outcome(v: u64) {
    if let Some(e) = ex() {
        e.out.outcome = mix(e.out.outcome, v);
    }
}

/// Counts cases that a scenario enumerates inside of one execution
pub fn cases(n: u64) {
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if let Some(e) = ex() {
        e.out.cases += n;
    }
}

pub fn failed() -> bool {
    ex().is_some_and(|e| e.out.failure.is_some())
}

/// Records a violation and stops the execution.
pub fn fail(key: &str, msg: impl Into<String>) {
    fail_kind("assert", key, msg);
}

pub fn fail_kind(kind: &str, key: &str, msg: impl Into<String>) {
    let Some(e) = ex() else { return };
    if e.teardown {
        return;
    }
    if e.out.failure.is_none() {
        let msg = msg.into();
        if e.cfg.trace {
            let line = format!("[{:>9.3}s] FAIL {key}: {msg}", e.now.as_secs_f64());
            e.out.log.push(line);
        }
        e.out.failure = Some(Failure { kind: kind.into(), key: key.into(), msg });
    }
    if let Some(cur) = e.current {
        if !std::thread::panicking() {
            e.tasks[cur].st = St::Queued;
            e.tasks[cur].midpoll = true;
            yield_now_as(Why::Preempt);
        }
    }
}

pub fn now() -> Duration {
    ex().map(|e| e.now).unwrap_or_default()
}

/// The execution fails ("hang") if virtual time passes this point before the scenario ends.
pub fn deadline(at: Option<Duration>) {
    if let Some(e) = ex() {
        e.deadline = at;
    }
}

/// Spawns a task.
pub fn spawn(name: String, fut: BoxFuture) -> Tid {
    let e = ex().expect("spawn outside of an execution");
    let tid = e.tasks.len();
    let waker = Waker::from(Arc::new(TaskWaker(tid)));
    let quiet = e.current.is_some_and(|_| false);
    let mut fut = Some(fut);
    let co = Coroutine::with_stack(get_stack(), move |y: &Yielder<(), Why>, ()| {
        ex().unwrap().tasks[tid].yielder = y;
        let mut cx = Context::from_waker(&waker);
        loop {
            {
                let t = &mut ex().unwrap().tasks[tid];
                t.woken = false;
                if t.aborted {
                    break;
                }
            }
            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Ready(())) => break,
                Ok(Poll::Pending) => y.suspend(Why::Pending),
                Err(p) => {
                    record_panic(&p, tid);
                    break;
                }
            }
        }
        let f = fut.take();
        if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(f))) {
            record_panic(&p, tid);
        }
    });
    e.tasks.push(Task {
        co: Some(co),
        st: St::Queued,
        midpoll: false,
        woken: false,
        aborted: false,
        name,
        yielder: std::ptr::null(),
        quiet,
        group: e.current.map_or(0, |c| e.tasks[c].group),
    });
    e.ready.push_back(tid);
    tid
}

/// Marks the current task (scenario code) as never preempted in the middle of a poll.
pub fn set_quiet(on: bool) {
    if let Some(e) = ex() {
        if let Some(c) = e.current {
            e.tasks[c].quiet = on;
        }
    }
}

/// The group (simulated process) of the current task; spawned tasks inherit it.
pub fn group() -> u32 {
    ex().and_then(|e| e.current.map(|c| e.tasks[c].group)).unwrap_or(0)
}
pub fn set_group(g: u32) {
    if let Some(e) = ex() {
        if let Some(c) = e.current {
            e.tasks[c].group = g;
        }
    }
}
/// The process of a group dies: all its tasks are dropped when they are next scheduled.
pub fn kill_group(g: u32) {
    let Some(e) = ex() else { return };
    for tid in 0..e.tasks.len() {
        if e.tasks[tid].group == g {
            abort(tid);
        }
    }
}
/// Number of unfinished tasks of a group
pub fn group_tasks(g: u32) -> usize {
    ex().map_or(0, |e| e.tasks.iter().filter(|t| t.st != St::Done && t.group == g).count())
}

pub fn panic_message() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Called with the payload of a caught panic of a task.
pub fn record_panic(p: &Box<dyn std::any::Any + Send>, tid: Tid) {
    let _ = p;
    let m = panic_message();
    let Some(e) = ex() else { return };
    let name = e.tasks[tid].name.clone();
    if e.teardown {
        return;
    }
    e.panics.push(format!("{name}: {m}"));
    if e.cfg.trace {
        let line = format!("[{:>9.3}s] PANIC in {name}: {m}", e.now.as_secs_f64());
        e.out.log.push(line);
    }
    if !e.allow_panics && e.out.failure.is_none() {
        e.out.failure =
            Some(Failure { kind: "panic".into(), key: "panic".into(), msg: format!("task {name} panicked: {m}") });
    }
}

/// Aborts a task: its future is dropped when it is next scheduled (tokio's semantics).
pub fn abort(tid: Tid) {
    let Some(e) = ex() else { return };
    if let Some(t) = e.tasks.get_mut(tid) {
        if t.st != St::Done && !t.aborted {
            t.aborted = true;
            wake_task(tid);
        }
    }
}

pub fn is_done(tid: Tid) -> bool {
    ex().is_none_or(|e| e.tasks[tid].st == St::Done)
}

/// Number of tasks that are not finished
pub fn live_tasks() -> usize {
    ex().map_or(0, |e| e.tasks.iter().filter(|t| t.st != St::Done).count())
}
pub fn live_task_names() -> Vec<String> {
    ex().map_or(vec![], |e| e.tasks.iter().filter(|t| t.st != St::Done).map(|t| t.name.clone()).collect())
}

pub fn add_timer(at: Duration, w: &Waker) -> u64 {
    let e = ex().expect("timer outside of an execution");
    e.seq += 1;
    e.timers.insert((at, e.seq), w.clone());
    e.seq
}
pub fn del_timer(at: Duration, seq: u64) {
    if let Some(e) = ex() {
        e.timers.remove(&(at, seq));
    }
}

/// Resolves when nothing else can run without time passing.
pub struct Settle(Option<u64>);
pub fn settle() -> Settle {
    Settle(None)
}
impl Future for Settle {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let e = ex().unwrap();
        match self.0 {
            None => {
                e.seq += 1;
                let id = e.seq;
                e.settle.push_back((id, cx.waker().clone()));
                self.0 = Some(id);
                Poll::Pending
            }
            Some(id) => {
                if e.settle.iter().any(|(i, _)| *i == id) {
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            }
        }
    }
}

/// Virtual sleep
pub struct Sleep {
    pub at: Duration,
    reg: Option<u64>,
}
pub fn sleep_until(at: Duration) -> Sleep {
    Sleep { at, reg: None }
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(now().checked_add(d).unwrap_or(Duration::MAX))
}
impl Sleep {
    pub fn reset(&mut self, at: Duration) {
        if let Some(r) = self.reg.take() {
            del_timer(self.at, r);
        }
        self.at = at;
    }
    pub fn elapsed(&self) -> bool {
        now() >= self.at
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.at {
            if let Some(r) = self.reg.take() {
                del_timer(self.at, r);
            }
            return Poll::Ready(());
        }
        if let Some(r) = self.reg.take() {
            del_timer(self.at, r);
        }
        let r = add_timer(self.at, cx.waker());
        self.reg = Some(r);
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(r) = self.reg.take() {
            del_timer(self.at, r);
        }
    }
}

fn install_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if active() {
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let p = info.payload();
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into());
                LAST_PANIC.with(|l| *l.borrow_mut() = format!("{m} at {loc}"));
                if std::env::var_os("VMC_BT").is_some() {
                    eprintln!("{m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
                }
            } else {
                old(info);
            }
        }));
    });
}

/// Grows with every step and case: what the watchdog looks at
pub(crate) static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
const LOG_MAX: usize = 300_000;
/// Steps in a row during which time does not pass, after which an execution counts as endless
const STILL: u64 = 4_000_000;

fn step(tid: Tid) {
    let mut co = {
        let e = ex().unwrap();
        e.current = Some(tid);
        let t = &mut e.tasks[tid];
        t.st = St::Running;
        t.midpoll = false;
        e.out.steps += 1;
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        match t.co.take() {
            Some(c) => c,
            None => {
                t.st = St::Done;
                e.current = None;
                return;
            }
        }
    };
    let r = co.resume(());
    let e = ex().unwrap();
    e.current = None;
    match r {
        CoroutineResult::Return(()) => {
            e.tasks[tid].st = St::Done;
            STACKS.lock().unwrap().push(co.into_stack());
        }
        CoroutineResult::Yield(why) => {
            let t = &mut e.tasks[tid];
            t.co = Some(co);
            match why {
                Why::Pending => {
                    if t.woken || t.aborted {
                        t.woken = false;
                        t.st = St::Queued;
                        e.ready.push_back(tid);
                    } else {
                        t.st = St::Blocked;
                    }
                }
                // already queued by preempt()
                Why::Preempt => {}
                Why::SyncWait => t.st = St::SyncWait,
            }
        }
    }
}

fn schedule() {
    loop {
        let e = ex().unwrap();
        if e.out.failure.is_some() || e.driver_done {
            return;
        }
        if e.out.steps >= e.cfg.max_steps || e.out.steps - e.moved > STILL {
            let names: Vec<_> = e.ready.iter().map(|t| e.tasks[*t].name.clone()).collect();
            e.out.failure = Some(Failure {
                kind: "livelock".into(),
                key: "livelock".into(),
                msg: format!("no end after {} steps; runnable: {names:?}", e.out.steps),
            });
            return;
        }
        if e.ready.is_empty() {
            if let Some(t) = e.low.pop_front() {
                e.ready.push_back(t);
                continue;
            }
            if let Some((_, w)) = e.settle.pop_front() {
                w.wake();
                continue;
            }
            if let Some((&(at, _), _)) = e.timers.iter().next() {
                if at > e.now {
                    e.moved = e.out.steps;
                }
                e.now = at.max(e.now);
                if e.deadline.is_some_and(|d| at > d) {
                    e.out.failure = Some(Failure {
                        kind: "hang".into(),
                        key: "hang".into(),
                        msg: format!("the scenario did not end by its deadline ({:?})", e.deadline.unwrap()),
                    });
                    return;
                }
                let mut ws = vec![];
                while let Some((&(t, s), _)) = e.timers.iter().next() {
                    if t > at {
                        break;
                    }
                    ws.push(e.timers.remove(&(t, s)).unwrap());
                }
                for w in ws {
                    w.wake();
                }
                continue;
            }
            let stuck: Vec<_> = e
                .tasks
                .iter()
                .filter(|t| t.st != St::Done)
                .map(|t| format!("{}{}", t.name, if t.st == St::SyncWait { " (waiting for a lock)" } else { "" }))
                .collect();
            e.out.failure = Some(Failure {
                kind: "hang".into(),
                key: "hang".into(),
                msg: format!("nothing can run, and the scenario is not over: {stuck:?}"),
            });
            return;
        }
        if e.exploring {
            let mut left = e.ready.len() - 1;
            while left > 0 && e.ready.len() > 1 {
                let front = e.ready[0];
                let name = if e.cfg.trace { e.tasks[front].name.clone() } else { String::new() };
                let c = e.pick(3, true, || format!("run t{front} {name}"));
                match c {
                    0 => break,
                    1 => e.ready.rotate_left(1),
                    _ => {
                        e.ready.pop_front();
                        e.low.push_back(front);
                    }
                }
                left -= 1;
            }
            if e.out.failure.is_some() {
                return;
            }
        }
        let t = e.ready.pop_front().unwrap();
        step(t);
    }
}

fn teardown() {
    {
        let e = ex().unwrap();
        e.teardown = true;
        e.exploring = false;
    }
    let mut budget = 20_000;
    let mut round = 0;
    loop {
        let n = ex().unwrap().tasks.len();
        let mut live = 0;
        for tid in 0..n {
            let e = ex().unwrap();
            let t = &mut e.tasks[tid];
            if t.st == St::Done {
                continue;
            }
            t.aborted = true;
            live += 1;
            budget -= 1;
            step(tid);
        }
        round += 1;
        if live == 0 && ex().unwrap().tasks.len() == n {
            break;
        }
        if budget <= 0 || round > 200 {
            // a deadlock: leave the stacks behind
            for t in ex().unwrap().tasks.iter_mut() {
                if let Some(co) = t.co.take() {
                    std::mem::forget(co);
                }
            }
            break;
        }
    }
}

/// Runs one execution on a fresh thread.
pub fn run<F>(cfg: RunCfg, scenario: F) -> RunOut
where
    F: FnOnce() -> BoxFuture + Send + 'static,
{
    install_hook();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut exec = Box::new(Exec {
                cfg,
                tasks: vec![],
                ready: VecDeque::new(),
                low: VecDeque::new(),
                settle: VecDeque::new(),
                timers: BTreeMap::new(),
                seq: 0,
                now: Duration::ZERO,
                moved: 0,
                current: None,
                exploring: false,
                teardown: false,
                driver_done: false,
                allow_panics: false,
                panics: vec![],
                hash: 0,
                out: RunOut::default(),
                deadline: Some(Duration::from_secs(100_000)),
            });
            os::begin(exec.cfg.seed);
            EXEC.with(|c| c.set(&mut *exec));
            spawn(
                "driver".into(),
                Box::pin(async move {
                    set_quiet(true);
                    scenario().await;
                    if let Some(e) = ex() {
                        e.driver_done = true;
                    }
                }),
            );
            schedule();
            {
                let e = ex().unwrap();
                e.out.end_time = e.now;
                e.out.tasks = e.tasks.len();
            }
            teardown();
            EXEC.with(|c| c.set(std::ptr::null_mut()));
            os::end();
            let out = std::mem::take(&mut exec.out);
            // the wakers of tasks that were left behind may still be around: they do nothing without an execution
            drop(exec);
            out
        })
        .expect("thread")
        .join()
        .expect("execution thread")
}
