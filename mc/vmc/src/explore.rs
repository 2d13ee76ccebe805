//! The explorer: a coordinator and worker processes that enumerate executions by their choice lists.

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Arc;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::{run, BoxFuture, Failure, RunCfg, RunOut};

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    /// Deviation bound (quick, thorough)
    pub bound: (u32, u32),
    /// Seeds of hash maps and randomness (quick, thorough)
    pub seeds: (u64, u64),
    pub max_steps: u64,
    pub f: Arc<dyn Fn() -> BoxFuture + Send + Sync>,
}

impl Scenario {
    pub fn new<F, Fut>(name: impl Into<String>, bound: (u32, u32), f: F) -> Self
    where
        F: Fn() -> Fut + Send + Sync + 'static,
        Fut: std::future::Future<Output = ()> + 'static,
    {
        Self {
            name: name.into(),
            bound,
            seeds: (1, 2),
            max_steps: 60_000,
            f: Arc::new(move || Box::pin(f())),
        }
    }
    pub fn seeds(mut self, quick: u64, thorough: u64) -> Self {
        self.seeds = (quick, thorough);
        self
    }
    pub fn steps(mut self, n: u64) -> Self {
        self.max_steps = n;
        self
    }
}

fn hex(p: &[u8]) -> String {
    // choices are small: run-length encode the zeros
    let mut s = String::new();
    let mut i = 0;
    while i < p.len() {
        if p[i] == 0 {
            let mut n = 0;
            while i < p.len() && p[i] == 0 {
                n += 1;
                i += 1;
            }
            s.push_str(&format!("z{n}."));
        } else {
            s.push_str(&format!("{}.", p[i]));
            i += 1;
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let mut p = vec![];
    if s == "-" {
        return p;
    }
    for part in s.split('.') {
        if part.is_empty() {
            continue;
        }
        if let Some(n) = part.strip_prefix('z') {
            p.resize(p.len() + n.parse::<usize>().unwrap_or(0), 0);
        } else {
            p.push(part.parse().unwrap_or(0));
        }
    }
    p
}

pub fn run_one(s: &Scenario, seed: u64, prefix: Vec<u8>, expect_hash: Option<u64>, trace: bool) -> RunOut {
    let f = s.f.clone();
    let cfg = RunCfg { prefix, expect_hash, seed, max_steps: s.max_steps, trace, trace_all: std::env::var_os("VMC_ALL").is_some() };
    run(cfg, move || f())
}

fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// Real time without a step or case, and of a single execution, after which the latter counts as hanging in native code
const STALL_MS: u64 = 12_000;
const EXEC_LIMIT_MS: u64 = 90_000;
/// Longer than the cap, to see whether an execution that crashed or hung does so again
const CONFIRM: Duration = Duration::from_secs(45);

pub fn worker_main(reg: &[Scenario], state_file: &str) {
    let state = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(state_file).expect("state");
    static STARTED: AtomicU64 = AtomicU64::new(u64::MAX);
    std::thread::spawn(|| {
        let (mut last, mut seen) = (0, u64::MAX);
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let (s, p) = (STARTED.load(Ordering::SeqCst), crate::PROGRESS.load(Ordering::Relaxed));
            if s == u64::MAX {
                continue;
            }
            if p != seen || last < s {
                (last, seen) = (now_ms(), p);
            }
            if now_ms() - last > STALL_MS || now_ms().saturating_sub(s) > EXEC_LIMIT_MS {
                println!("H");
                std::process::exit(3);
            }
        }
    });
    let mut warm: HashSet<usize> = HashSet::new();
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let out = std::io::stdout();
    while let Some(Ok(line)) = lines.next() {
        let f: Vec<&str> = line.split(' ').collect();
        if f[0] != "J" {
            break;
        }
        let (scn, seed, level, bound, ms, k): (usize, u64, u32, u32, u64, usize) = (
            f[1].parse().unwrap(),
            f[2].parse().unwrap(),
            f[3].parse().unwrap(),
            f[4].parse().unwrap(),
            f[5].parse().unwrap(),
            f[6].parse().unwrap(),
        );
        let s = &reg[scn];
        // what is initialised once per process (and draws hash seeds) is so before anything counts
        if warm.insert(scn) {
            let _ = state.write_at(format!("{scn} {seed} \n").as_bytes(), 0);
            STARTED.store(now_ms(), Ordering::SeqCst);
            let _ = run_one(s, seed, vec![], None, false);
            STARTED.store(u64::MAX, Ordering::SeqCst);
        }
        // R: run it and explore its free alternatives; X: expand its deviations (it has been run)
        let mut stack: Vec<(bool, Option<u64>, Vec<u8>)> = vec![];
        for _ in 0..k {
            let l = lines.next().unwrap().unwrap();
            let f: Vec<&str> = l.split(' ').collect();
            stack.push((f[0] == "X", f[1].parse().ok(), unhex(f[2])));
        }
        let mut later: Vec<(Option<u64>, Vec<u8>)> = vec![];
        let start = Instant::now();
        let (mut execs, mut steps, mut points, mut maxlen, mut cases) = (0u64, 0u64, 0u64, 0usize, 0u64);
        let mut cover: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut viols: Vec<String> = vec![];
        let mut seen: HashMap<String, u32> = HashMap::new();
        let mut nondet = 0;
        while let Some((expand, h, prefix)) = stack.pop() {
            let enc = format!("{scn} {seed} {}\n", hex(&prefix));
            let _ = state.write_at(enc.as_bytes(), 0);
            STARTED.store(now_ms(), Ordering::SeqCst);
            let o = run_one(s, seed, prefix.clone(), h, false);
            STARTED.store(u64::MAX, Ordering::SeqCst);
            if let Some(f) = &o.failure {
                if f.kind == "nondet" {
                    nondet += 1;
                    viols.push(format!(
                        "V\t{scn}\t{seed}\t{}\t{}\t{}\t{}",
                        f.kind,
                        f.key,
                        json!(f.msg),
                        hex(&prefix)
                    ));
                    continue;
                }
            }
            let full: Vec<u8> = o.choices.iter().map(|c| c.chosen).collect();
            if !expand {
                execs += 1;
                steps += o.steps;
                cases += o.cases;
                points += (o.choices.len() - prefix.len().saturating_sub(1).min(o.choices.len())) as u64;
                maxlen = maxlen.max(o.choices.len());
                for c in &o.cover {
                    *cover.entry(c).or_default() += 1;
                }
                outcomes.insert(o.outcome);
                if let Some(f) = &o.failure {
                    let n = seen.entry(f.key.clone()).or_default();
                    *n += 1;
                    if *n <= 2 {
                        viols.push(format!(
                            "V\t{scn}\t{seed}\t{}\t{}\t{}\t{}",
                            f.kind,
                            f.key,
                            json!(f.msg),
                            hex(&trim(&full))
                        ));
                    }
                }
                if level < bound && o.choices[prefix.len().min(o.choices.len())..].iter().any(|c| c.sched) {
                    later.push((h, prefix.clone()));
                }
            }
            for i in (prefix.len()..o.choices.len()).rev() {
                let c = &o.choices[i];
                if c.sched != expand {
                    continue;
                }
                for alt in (1..c.n).rev() {
                    let mut p = full[..i].to_vec();
                    p.push(alt);
                    stack.push((false, Some(o.hashes[i]), p));
                }
            }
            if start.elapsed().as_millis() as u64 >= ms {
                break;
            }
        }
        // The hash that a prefix expects is the one before its last choice
        let mut w = String::new();
        for v in &viols {
            w.push_str(v);
            w.push('\n');
        }
        for (k, n) in &seen {
            w.push_str(&format!("K\t{scn}\t{k}\t{n}\n"));
        }
        for (l, n) in &cover {
            w.push_str(&format!("C\t{l}\t{n}\n"));
        }
        for oc in &outcomes {
            w.push_str(&format!("O\t{oc}\n"));
        }
        w.push_str(&format!("D\t{execs}\t{steps}\t{points}\t{maxlen}\t{nondet}\t{cases}\t{}\n", stack.len() + later.len()));
        for (x, h, p) in &stack {
            let x = if *x { 'X' } else { 'R' };
            w.push_str(&format!("{x} {} {}\n", h.map_or("-".into(), |h| h.to_string()), hex(p)));
        }
        for (h, p) in &later {
            w.push_str(&format!("L {} {}\n", h.map_or("-".into(), |h| h.to_string()), hex(p)));
        }
        let mut o = out.lock();
        o.write_all(w.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}

fn trim(p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub struct Found {
    pub scn: usize,
    pub seed: u64,
    pub prefix: Vec<u8>,
    pub failure: Failure,
}

#[derive(Default)]
pub struct ScnStats {
    pub execs: u64,
    pub steps: u64,
    pub points: u64,
    pub maxlen: usize,
    pub complete: bool,
    /// Everything with at most so many deviations was explored
    pub level_done: Option<u32>,
    pub nondet: u64,
    pub cases: u64,
    pub outcomes: HashSet<u64>,
    pub cover: BTreeMap<String, u64>,
    pub fails: BTreeMap<String, u64>,
    pub bound: u32,
    pub seeds: u64,
}

pub struct Report {
    pub stats: Vec<ScnStats>,
    pub found: Vec<Found>,
    pub secs: f64,
}

struct Worker {
    child: Child,
    state_file: String,
    job: Option<(usize, u64)>,
}

enum Msg {
    Done(usize, Vec<String>),
    Eof(usize),
}

fn spawn_worker(i: usize, gen: usize, args: &[String], tx: &std::sync::mpsc::Sender<Msg>) -> Worker {
    let dir = std::env::temp_dir();
    let state_file = format!("{}/vmc-{}-{i}-{gen}", dir.display(), std::process::id());
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    if gen > 0 {
        // what made the last one end may do so while it warms up, too
        cmd.env("VMC_COLD", "1");
    }
    let mut child = cmd
        .arg("worker")
        .arg(&state_file)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        loop {
            let mut lines = vec![];
            loop {
                let mut l = String::new();
                match r.read_line(&mut l) {
                    Ok(0) | Err(_) => {
                        let _ = tx.send(Msg::Eof(i));
                        return;
                    }
                    Ok(_) => {}
                }
                let l = l.trim_end_matches('\n').to_string();
                if l == "H" {
                    let _ = tx.send(Msg::Eof(i));
                    return;
                }
                let done = l.starts_with("D\t");
                let k = if done { l.rsplit('\t').next().unwrap().parse().unwrap_or(0) } else { 0 };
                lines.push(l);
                if done {
                    for _ in 0..k {
                        let mut l = String::new();
                        if !matches!(r.read_line(&mut l), Ok(n) if n > 0) {
                            let _ = tx.send(Msg::Eof(i));
                            return;
                        }
                        lines.push(l.trim_end_matches('\n').to_string());
                    }
                    break;
                }
            }
            if tx.send(Msg::Done(i, lines)).is_err() {
                return;
            }
        }
    });
    Worker { child, state_file, job: None }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.state_file);
    }
}

/// Explores all scenarios. `known` says whether a failure is listed.
pub fn explore(
    reg: &[Scenario],
    thorough: bool,
    workers: usize,
    cap: Duration,
    args: &[String],
    known: &dyn Fn(&str, &Failure) -> bool,
) -> Report {
    let start = Instant::now();
    let mut stats: Vec<ScnStats> = reg.iter().map(|_| ScnStats::default()).collect();
    let mut queue: VecDeque<(usize, u64, String)> = VecDeque::new();
    for (i, s) in reg.iter().enumerate().rev() {
        stats[i].bound = if thorough { s.bound.1 } else { s.bound.0 };
        stats[i].seeds = if thorough { s.seeds.1 } else { s.seeds.0 };
        for seed in (0..stats[i].seeds).rev() {
            queue.push_back((i, seed, "R - -".into()));
        }
    }
    let (tx, rx) = channel();
    let mut gen = 0;
    let mut ws: Vec<Worker> = (0..workers).map(|i| spawn_worker(i, 0, args, &tx)).collect();
    let mut next: VecDeque<(usize, u64, String)> = VecDeque::new();
    let mut level = 0u32;
    let mut found: Vec<Found> = vec![];
    let mut stop = false;
    let mut crashes: HashMap<String, u32> = HashMap::new();
    loop {
        // hand out work
        if !stop {
            for w in ws.iter_mut() {
                if w.job.is_some() || queue.is_empty() {
                    continue;
                }
                let (scn, seed, _) = *queue.back().map(|(a, b, c)| (a, b, c)).map(|(a, b, c)| (*a, *b, c.clone())).as_ref().unwrap();
                let share = (queue.len() / workers).clamp(1, 256);
                let mut batch = vec![];
                while batch.len() < share {
                    match queue.back() {
                        Some((a, b, _)) if *a == scn && *b == seed => batch.push(queue.pop_back().unwrap().2),
                        _ => break,
                    }
                }
                let ms = if start.elapsed().as_millis() < 500 { 20 } else { 150 };
                let mut m = format!("J {scn} {seed} {level} {} {ms} {}\n", stats[scn].bound, batch.len());
                for b in &batch {
                    m.push_str(b);
                    m.push('\n');
                }
                w.job = Some((scn, seed));
                let _ = w.child.stdin.as_mut().unwrap().write_all(m.as_bytes());
                let _ = w.child.stdin.as_mut().unwrap().flush();
            }
        }
        if ws.iter().all(|w| w.job.is_none()) {
            if stop || next.is_empty() {
                break;
            }
            level += 1;
            queue = std::mem::take(&mut next).into_iter().map(|(a, b, c)| (a, b, format!("X{}", &c[1..]))).collect();
            continue;
        }
        let msg = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(m) => m,
            Err(RecvTimeoutError::Timeout) => {
                if start.elapsed() > cap + if crashes.is_empty() { Duration::ZERO } else { CONFIRM } {
                    break;
                }
                continue;
            }
            Err(_) => break,
        };
        match msg {
            Msg::Done(i, lines) => {
                let Some((scn, seed)) = ws[i].job.take() else { continue };
                let st = &mut stats[scn];
                let mut rest = false;
                for l in lines {
                    if rest {
                        if l.starts_with('L') {
                            next.push_back((scn, seed, l));
                        } else {
                            queue.push_back((scn, seed, l));
                        }
                        continue;
                    }
                    let f: Vec<&str> = l.split('\t').collect();
                    match f[0] {
                        "V" => {
                            let failure = Failure {
                                kind: f[3].into(),
                                key: f[4].into(),
                                msg: serde_json::from_str(f[5]).unwrap_or_default(),
                            };
                            let listed = known(&reg[scn].name, &failure) || failure.kind == "nondet";
                            let dup = found.iter().any(|x| x.scn == scn && x.failure.key == failure.key);
                            if !dup {
                                found.push(Found { scn, seed, prefix: unhex(f[6]), failure });
                            }
                            if !listed {
                                stop = true;
                            }
                        }
                        "K" => *st.fails.entry(f[2].into()).or_default() += f[3].parse::<u64>().unwrap_or(0),
                        "C" => *st.cover.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                        "O" => {
                            if st.outcomes.len() < 100_000 {
                                st.outcomes.insert(f[1].parse().unwrap_or(0));
                            }
                        }
                        "D" => {
                            st.execs += f[1].parse::<u64>().unwrap_or(0);
                            st.steps += f[2].parse::<u64>().unwrap_or(0);
                            st.points += f[3].parse::<u64>().unwrap_or(0);
                            st.maxlen = st.maxlen.max(f[4].parse().unwrap_or(0));
                            st.nondet += f[5].parse::<u64>().unwrap_or(0);
                            st.cases += f[6].parse::<u64>().unwrap_or(0);
                            rest = true;
                        }
                        _ => {}
                    }
                }
            }
            Msg::Eof(i) => {
                // A crash or a native hang: the state file names the execution
                if let Some((scn, seed)) = ws[i].job.take() {
                    let mut s = String::new();
                    let _ = std::fs::File::open(&ws[i].state_file).and_then(|mut f| f.read_to_string(&mut s));
                    let line = s.lines().next().unwrap_or("").to_string();
                    let prefix = line.split(' ').nth(2).map(unhex).unwrap_or_default();
                    let n = crashes.entry(line).or_default();
                    *n += 1;
                    if *n >= 2 || stop {
                        found.push(Found {
                            scn,
                            seed,
                            prefix,
                            failure: Failure {
                                kind: "crash".into(),
                                key: "crash".into(),
                                msg: "the process died or did not finish this execution (abort, endless loop or memory)"
                                    .into(),
                            },
                        });
                        stop = true;
                    } else {
                        // once more, alone
                        let h = hex(&prefix);
                        queue.push_back((scn, seed, format!("R - {h}")));
                    }
                }
                gen += 1;
                ws[i] = spawn_worker(i, gen, args, &tx);
            }
        }
        if stop && !found.is_empty() {
            break;
        }
        if start.elapsed() > cap + if crashes.is_empty() { Duration::ZERO } else { CONFIRM } {
            break;
        }
    }
    let unfinished: HashSet<usize> =
        queue.iter().map(|q| q.0).chain(ws.iter().filter_map(|w| w.job.map(|j| j.0))).collect();
    let later: HashSet<usize> = next.iter().map(|q| q.0).collect();
    for (i, st) in stats.iter_mut().enumerate() {
        st.complete = !unfinished.contains(&i) && !later.contains(&i) && st.nondet == 0;
        st.level_done = if st.complete {
            Some(st.bound)
        } else if unfinished.contains(&i) {
            level.checked_sub(1)
        } else {
            Some(level)
        };
    }
    drop(ws);
    Report { stats, found, secs: start.elapsed().as_secs_f64() }
}

pub fn replay_value(property: &str, s: &Scenario, f: &Found, log: &[String]) -> Value {
    json!({
        "property": property,
        "scenario": s.name,
        "seed": f.seed,
        "choices": f.prefix,
        "kind": f.failure.kind,
        "key": f.failure.key,
        "message": f.failure.msg,
        "log": log,
    })
}

/// Removes deviations one at a time as long as the same failure remains (in process; do not use it for crashes).
pub fn shrink(s: &Scenario, f: &mut Found, limit: Duration) {
    let start = Instant::now();
    let mut changed = true;
    while changed && start.elapsed() < limit {
        changed = false;
        for i in 0..f.prefix.len() {
            if f.prefix[i] == 0 || start.elapsed() > limit {
                continue;
            }
            let mut p = f.prefix.clone();
            p[i] = 0;
            let o = run_one(s, f.seed, trim(&p), None, false);
            if o.failure.as_ref().is_some_and(|x| x.key == f.failure.key) {
                f.prefix = trim(&o.choices.iter().map(|c| c.chosen).collect::<Vec<_>>());
                f.failure = o.failure.unwrap();
                changed = true;
                break;
            }
        }
    }
}
