//! Real discovery clients on threads of their own, stopped at every command they send to their storage: the driver of an
//! execution decides which of them goes on, and what becomes of the command.
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

use cdn_proto::connection::UserPublicKey;
use cdn_proto::discovery::embedded::Embedded;
use cdn_proto::discovery::redis::Redis;
use cdn_proto::discovery::{BrokerIdentifier, DiscoveryClient};

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Heartbeat(u64, Duration),
    Least,
    Others,
    Issue(BrokerIdentifier, Duration, Vec<u8>),
    Validate(BrokerIdentifier, u64),
    SetWhitelist(Vec<Vec<u8>>),
    CheckWhitelist(Vec<u8>),
    /// As Issue, with this randomness
    IssueWith([u8; 32], BrokerIdentifier, Duration, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Done,
    Broker(BrokerIdentifier),
    Brokers(Vec<BrokerIdentifier>),
    Permit(u64),
    Key(Option<Vec<u8>>),
    Bool(bool),
    Err(String),
    Panic(String),
}

/// What becomes of a storage command
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Go,
    /// It fails, and has no effect
    Fail,
    /// The process dies before it
    Crash,
    /// The connection is lost before it (Redis)
    Lost,
    /// It is carried out, and the connection is lost then (Redis)
    LostAfter,
    /// A lock was not released in time (SQLite)
    GiveUp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum At {
    Idle,
    Running,
    /// Before a command
    Gate(String),
    /// Waiting for another process's lock
    Locked,
    Done(Res),
}

struct Node {
    at: At,
    verdict: Option<Verdict>,
    crashed: bool,
    gated: bool,
    passed: u64,
}
struct Gate {
    nodes: Vec<Node>,
    current: usize,
    epoch: u64,
}
static G: Mutex<Gate> = Mutex::new(Gate { nodes: vec![], current: 0, epoch: 0 });
static CV: Condvar = Condvar::new();

fn lock() -> MutexGuard<'static, Gate> {
    G.lock().unwrap_or_else(|p| p.into_inner())
}

/// Called by a storage thread before a command of the process that is running
pub fn at_gate(label: impl FnOnce() -> String, locked: bool) -> Verdict {
    let mut g = lock();
    let n = g.current;
    let epoch = g.epoch;
    if n >= g.nodes.len() {
        return Verdict::Go;
    }
    if g.nodes[n].crashed {
        return Verdict::Crash;
    }
    g.nodes[n].passed += 1;
    if !g.nodes[n].gated {
        return Verdict::Go;
    }
    g.nodes[n].at = if locked { At::Locked } else { At::Gate(label()) };
    CV.notify_all();
    loop {
        if g.epoch != epoch {
            return Verdict::Crash;
        }
        if let Some(v) = g.nodes[n].verdict.take() {
            if v == Verdict::Crash {
                g.nodes[n].crashed = true;
            }
            return v;
        }
        g = CV.wait(g).unwrap_or_else(|p| p.into_inner());
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Embedded,
    Redis,
}
enum Client {
    E(Embedded),
    R(Redis),
}

async fn carry_out<D: DiscoveryClient>(d: &mut D, c: Call) -> Res {
    fn err<T>(r: Result<T, cdn_proto::error::Error>, f: impl FnOnce(T) -> Res) -> Res {
        r.map_or_else(|e| Res::Err(e.to_string()), f)
    }
    let key = |k: Vec<u8>| UserPublicKey::from(k);
    match c {
        Call::Heartbeat(n, e) => err(d.perform_heartbeat(n, e).await, |()| Res::Done),
        Call::Least => err(d.get_with_least_connections().await, Res::Broker),
        Call::Others => err(d.get_other_brokers().await, |s| {
            let mut v: Vec<_> = s.into_iter().collect();
            v.sort();
            Res::Brokers(v)
        }),
        Call::Issue(b, e, k) => err(d.issue_permit(&b, e, k).await, Res::Permit),
        Call::IssueWith(r, b, e, k) => {
            vmc::os::prime(r);
            err(d.issue_permit(&b, e, k).await, Res::Permit)
        }
        Call::Validate(b, p) => err(d.validate_permit(&b, p).await, Res::Key),
        Call::SetWhitelist(v) => err(d.set_whitelist(v.into_iter().map(key).collect()).await, |()| Res::Done),
        Call::CheckWhitelist(k) => err(d.check_whitelist(&key(k)).await, Res::Bool),
    }
}

/// The processes of an execution
pub struct Nodes {
    tx: Vec<Sender<Call>>,
    threads: Vec<std::thread::JoinHandle<()>>,
    path: String,
    pub kind: Kind,
    seed: u64,
}

fn text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

impl Nodes {
    pub fn new(kind: Kind, seed: u64) -> Self {
        static RUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let run = RUN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let path = match kind {
            Kind::Embedded => format!("{}/{run}.db", scratch()),
            Kind::Redis => crate::redis::start(),
        };
        let mut g = lock();
        g.epoch += 1;
        g.nodes = vec![];
        Self { tx: vec![], threads: vec![], path, kind, seed }
    }

    /// Starts a process that makes a client; up to its first command if it is gated
    pub fn add(&mut self, id: Option<BrokerIdentifier>, gated: bool) -> At {
        let i = self.tx.len();
        {
            let mut g = lock();
            g.nodes.push(Node { at: At::Running, verdict: None, crashed: false, gated, passed: 0 });
            g.current = i;
        }
        let (tx, rx) = channel::<Call>();
        let (path, kind, seed) = (self.path.clone(), self.kind, self.seed);
        let t = std::thread::Builder::new()
            .name(format!("node {i}"))
            .spawn(move || {
                vmc::os::fix_rng(Some(seed * 1000 + i as u64 + 1));
                let rt = rtokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
                let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    rt.block_on(async {
                        match kind {
                            Kind::Embedded => Embedded::new(path, id).await.map(Client::E),
                            Kind::Redis => Redis::new(path, id).await.map(Client::R),
                        }
                    })
                }));
                let (mut client, res) = match made {
                    Ok(Ok(c)) => (Some(c), Res::Done),
                    Ok(Err(e)) => (None, Res::Err(e.to_string())),
                    Err(p) => (None, Res::Panic(text(p))),
                };
                let done = |r: Res| {
                    // what the client left to do
                    rt.block_on(async {
                        for _ in 0..20 {
                            rtokio::task::yield_now().await;
                        }
                    });
                    lock().nodes[i].at = At::Done(r);
                    CV.notify_all();
                };
                done(res);
                while let Ok(c) = rx.recv() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        rt.block_on(async {
                            match client.as_mut() {
                                Some(Client::E(d)) => carry_out(d, c).await,
                                Some(Client::R(d)) => carry_out(d, c).await,
                                None => Res::Err("there is no client".into()),
                            }
                        })
                    }));
                    done(r.unwrap_or_else(|p| Res::Panic(text(p))));
                }
                // the handle and what it spawned end with the runtime
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _e = rt.enter();
                    drop(client);
                }));
            })
            .expect("thread");
        self.tx.push(tx);
        self.threads.push(t);
        self.wait(i)
    }

    /// Waits until the process stops at a command or has ended its call
    fn wait(&self, n: usize) -> At {
        let mut g = lock();
        while g.nodes[n].at == At::Running {
            g = CV.wait(g).unwrap_or_else(|p| p.into_inner());
        }
        g.nodes[n].at.clone()
    }
    pub fn at(&self, n: usize) -> At {
        lock().nodes[n].at.clone()
    }
    pub fn threads(&self) -> usize {
        self.tx.len()
    }
    /// How many commands a process has sent
    pub fn passed(&self, n: usize) -> u64 {
        lock().nodes[n].passed
    }

    /// Starts a call, up to its first command
    pub fn start(&self, n: usize, c: Call) -> At {
        {
            let mut g = lock();
            g.current = n;
            g.nodes[n].at = At::Running;
            g.nodes[n].gated = true;
            g.nodes[n].crashed = false;
        }
        self.tx[n].send(c).expect("node");
        self.wait(n)
    }
    /// Lets it go on
    pub fn go(&self, n: usize, v: Verdict) -> At {
        {
            let mut g = lock();
            g.current = n;
            g.nodes[n].at = At::Running;
            g.nodes[n].verdict = Some(v);
            CV.notify_all();
        }
        self.wait(n)
    }
    /// A whole call with nothing in between
    pub fn call(&self, n: usize, c: Call) -> Res {
        vmc::note(|| format!("node {n}: {c:?}"));
        {
            let mut g = lock();
            g.current = n;
            g.nodes[n].at = At::Running;
            g.nodes[n].gated = false;
            g.nodes[n].crashed = false;
        }
        self.tx[n].send(c).expect("node");
        let At::Done(r) = self.wait(n) else { panic!("not done") };
        vmc::note(|| format!("        {r:?}"));
        r
    }
}

impl Drop for Nodes {
    fn drop(&mut self) {
        {
            let mut g = lock();
            g.epoch += 1;
            g.current = usize::MAX;
            for n in &mut g.nodes {
                n.gated = false;
                n.crashed = true;
            }
            CV.notify_all();
        }
        self.tx.clear();
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
        match self.kind {
            Kind::Embedded => {
                for end in ["", "-journal", "-wal", "-shm"] {
                    let _ = std::fs::remove_file(format!("{}{end}", self.path));
                }
            }
            Kind::Redis => crate::redis::stop(),
        }
    }
}

/// A directory of this process
pub fn scratch() -> &'static str {
    static DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    DIR.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir().display().to_string() };
        let d = format!("{base}/vmc-store-{}", std::process::id());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        // what processes that were killed left behind
        for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if let Some(pid) = name.strip_prefix("vmc-store-") {
                if !std::path::Path::new(&format!("/proc/{pid}")).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        d
    })
}
pub fn clean() {
    let _ = std::fs::remove_dir_all(scratch());
}

// -------------------------------------------------------------------------------------------------------------- SQLite

extern "C" {
    fn __real_sqlite3_step(s: *mut c_void) -> c_int;
    fn __real_sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *mut c_void, a: *mut c_void, e: *mut c_void) -> c_int;
    fn sqlite3_busy_handler(db: *mut c_void, f: extern "C" fn(*mut c_void, c_int) -> c_int, a: *mut c_void) -> c_int;
    fn sqlite3_stmt_busy(s: *mut c_void) -> c_int;
    fn sqlite3_db_handle(s: *mut c_void) -> *mut c_void;
    fn sqlite3_prepare_v2(db: *mut c_void, q: *const c_char, n: c_int, s: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
    fn sqlite3_sql(s: *mut c_void) -> *const c_char;
}
/// Leaves the connection with an error
unsafe fn error(db: *mut c_void) -> c_int {
    let mut s = std::ptr::null_mut();
    sqlite3_prepare_v2(db, c"INJECTED".as_ptr(), -1, &mut s, std::ptr::null_mut())
}

unsafe fn sql(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    let s = CStr::from_ptr(p).to_string_lossy();
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

thread_local! {
    /// The engine calls itself
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn inside<R>(f: impl FnOnce() -> R) -> R {
    let old = INSIDE.replace(true);
    let r = f();
    INSIDE.set(old);
    r
}
/// Statements that are not stopped at: they change nothing, or the engine makes them
fn silent(q: &str) -> bool {
    let first = q.split(' ').next().unwrap_or("").to_ascii_uppercase();
    q.is_empty() || matches!(first.trim_end_matches(';'), "PRAGMA" | "BEGIN" | "ROLLBACK") || q.starts_with("SELECT*FROM\"")
}

/// # Safety
/// As sqlite3_step
#[no_mangle]
pub unsafe extern "C" fn __wrap_sqlite3_step(s: *mut c_void) -> c_int {
    if !INSIDE.get() && sqlite3_stmt_busy(s) == 0 {
        let q = sql(sqlite3_sql(s));
        if !silent(&q) && at_gate(|| q, false) != Verdict::Go {
            return error(sqlite3_db_handle(s));
        }
    }
    inside(|| __real_sqlite3_step(s))
}

/// # Safety
/// As sqlite3_exec
#[no_mangle]
pub unsafe extern "C" fn __wrap_sqlite3_exec(
    db: *mut c_void,
    q: *const c_char,
    cb: *mut c_void,
    a: *mut c_void,
    e: *mut c_void,
) -> c_int {
    if !INSIDE.get() {
        let s = sql(q);
        if !silent(&s) && at_gate(|| s, false) != Verdict::Go {
            return error(db);
        }
    }
    inside(|| __real_sqlite3_exec(db, q, cb, a, e))
}

extern "C" fn busy(_: *mut c_void, n: c_int) -> c_int {
    // a statement of another process that has ended is about to be reset
    if n < 10 {
        std::thread::sleep(Duration::from_micros(100));
        return 1;
    }
    (at_gate(String::new, true) == Verdict::Go) as c_int
}

/// # Safety
/// As sqlite3_busy_timeout
#[no_mangle]
pub unsafe extern "C" fn __wrap_sqlite3_busy_timeout(db: *mut c_void, ms: c_int) -> c_int {
    if ms <= 0 {
        return 0;
    }
    sqlite3_busy_handler(db, busy, std::ptr::null_mut())
}
