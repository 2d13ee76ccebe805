//! D*: the discovery backends, as real clients of a real SQLite database and of our own Redis server.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering;
use std::time::Duration;

use cdn_proto::discovery::BrokerIdentifier;
use vmc::explore::Scenario;

use crate::gate::*;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "D01" => d01(thorough, v),
        "D02" => d02(thorough, v),
        "D03" => d03(thorough, v),
        "D04" => d04(thorough, v),
        _ => {}
    }
}

/// Endpoints that share prefixes
const ENDPOINTS: [(&str, &str); 3] = [("host:1", "host:2"), ("host:1", "host:21"), ("host:11", "host:2")];
fn broker(b: usize) -> BrokerIdentifier {
    let Some((x, y)) = ENDPOINTS.get(b) else {
        let (x, y) = (format!("Host-{}.Example:{b}", b % 5), format!("[fd00::{b}]:{}", b * 10));
        return BrokerIdentifier { public_advertise_endpoint: x, private_advertise_endpoint: y };
    };
    let (x, y) = (*x, *y);
    BrokerIdentifier { public_advertise_endpoint: x.into(), private_advertise_endpoint: y.into() }
}
/// Keys that share prefixes, with bytes that text would not survive
fn key(k: usize) -> Vec<u8> {
    match k {
        0 => vec![0, 255, 254],
        1 => vec![0, 255, 254, 0],
        2 => vec![0, 255],
        3 => b"it's; DROP TABLE whitelist;--\r\n*".to_vec(),
        4 => vec![],
        5 => vec![7; 600],
        _ => (k as u32).to_be_bytes().to_vec(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// A heartbeat: broker, connections, seconds it is valid for
    Beat(usize, u64, u64),
    /// A permit: broker, key, seconds
    Issue(usize, usize, u64),
    /// Redeem the permit that was issued n-th at a broker
    Redeem(usize, usize),
    /// Redeem a number that was never issued
    Bogus(usize, u64),
    /// Redeem the number that was issued n-th, with bits changed
    Near(usize, usize, u64),
    Set(&'static [usize]),
    /// Milliseconds pass
    Tick(u64),
    /// The queries
    Others(usize),
    Least,
    Check(usize),
    /// A process starts
    Join,
}
use Op::*;

const MARSHAL: usize = 999;
fn at(o: Op) -> usize {
    match o {
        Beat(b, ..) | Redeem(b, _) | Bogus(b, _) | Near(b, ..) | Others(b) => b,
        _ => MARSHAL,
    }
}

#[derive(Clone, Debug)]
struct Permit {
    broker: usize,
    key: usize,
    until: i64,
    used: bool,
    number: Option<u64>,
}
/// What a discovery service is
#[derive(Clone, Debug, Default)]
struct Spec {
    now: i64,
    brokers: BTreeMap<usize, (u64, i64)>,
    permits: Vec<Permit>,
    whitelist: Option<BTreeSet<usize>>,
}
const S: i64 = 1_000_000_000;
impl Spec {
    fn live(&self) -> Vec<usize> {
        self.brokers.iter().filter(|(_, (_, t))| *t >= self.now).map(|(b, _)| *b).collect()
    }
    fn load(&self, b: usize) -> u64 {
        self.brokers[&b].0 + self.permits.iter().filter(|p| p.broker == b && !p.used && p.until >= self.now).count() as u64
    }
    /// Whether the call can have had this result, and its effect
    fn admits(&mut self, o: Op, r: &Res, issued: &[(usize, u64)]) -> bool {
        match (o, r) {
            (Tick(ms), _) => {
                self.now += ms as i64 * 1_000_000;
                true
            }
            (Beat(b, n, e), Res::Done) => {
                self.brokers.insert(b, (n, self.now + e as i64 * S));
                true
            }
            (Issue(broker, key, e), Res::Permit(n)) => {
                // never one that is outstanding, nor one that reads as a status
                let fresh = !self.permits.iter().any(|p| p.number == Some(*n) && p.broker == broker && !p.used);
                self.permits.push(Permit { broker, key, until: self.now + e as i64 * S, used: false, number: Some(*n) });
                fresh && *n > 1
            }
            (Redeem(b, i), Res::Key(k)) => {
                let n = issued[i].1;
                let now = self.now;
                let p = self.permits.iter_mut().find(|p| p.number == Some(n) && p.broker == b && !p.used && p.until >= now);
                match (p, k) {
                    (Some(p), Some(k)) if key(p.key) == *k => {
                        p.used = true;
                        true
                    }
                    (None, None) => true,
                    _ => false,
                }
            }
            (Bogus(..) | Near(..), Res::Key(None)) => true,
            // it may not even be a number that the backend issues
            (Bogus(..) | Near(..), Res::Err(_)) => true,
            (Set(l), Res::Done) => {
                self.whitelist = Some(l.iter().copied().collect());
                true
            }
            (Others(b), Res::Brokers(v)) => {
                let mut w: Vec<_> = self.live().into_iter().filter(|x| *x != b).map(broker).collect();
                w.sort();
                *v == w
            }
            (Least, Res::Broker(x)) => {
                let live = self.live();
                let min = live.iter().map(|b| self.load(*b)).min();
                live.iter().any(|b| broker(*b) == *x && Some(self.load(*b)) == min)
            }
            (Least, Res::Err(_)) => self.live().is_empty(),
            (Check(k), Res::Bool(x)) => *x == self.whitelist.as_ref().is_none_or(|w| w.contains(&k)),
            (Join, Res::Done) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
struct Done {
    op: Op,
    res: Res,
    from: u32,
    to: u32,
    /// It was made to fail: it may have had its effect or not
    faulted: bool,
}

/// Is there an order of the calls that explains their results?
fn explained(h: &[Done], issued: &[(usize, u64)]) -> bool {
    fn go(h: &[Done], left: &mut Vec<usize>, s: &Spec, issued: &[(usize, u64)]) -> bool {
        if left.is_empty() {
            return true;
        }
        let first_end = left.iter().map(|i| h[*i].to).min().unwrap();
        for n in 0..left.len() {
            let i = left[n];
            if h[i].from > first_end {
                continue;
            }
            left.remove(n);
            let d = &h[i];
            let mut ok = false;
            if d.faulted {
                // no effect, or its effect
                ok = go(h, left, s, issued);
                if !ok {
                    let mut t = s.clone();
                    let now = t.now;
                    match d.op {
                        Beat(b, n, e) => drop(t.brokers.insert(b, (n, now + e as i64 * S))),
                        Issue(broker, key, e) => {
                            t.permits.push(Permit { broker, key, until: now + e as i64 * S, used: false, number: None })
                        }
                        Redeem(b, i) => {
                            if let Some(p) = t.permits.iter_mut().find(|p| p.number == Some(issued[i].1) && p.broker == b) {
                                p.used = true;
                            }
                        }
                        Set(l) => t.whitelist = Some(l.iter().copied().collect()),
                        _ => {}
                    }
                    ok = go(h, left, &t, issued);
                }
            } else {
                let mut t = s.clone();
                if t.admits(d.op, &d.res, issued) {
                    ok = go(h, left, &t, issued);
                }
            }
            left.insert(n, i);
            if ok {
                return true;
            }
        }
        false
    }
    go(h, &mut (0..h.len()).collect(), &Spec::default(), issued)
}

/// The virtual wall clock of all threads
struct Clock;
impl Clock {
    fn start() -> Self {
        vmc::os::GLOBAL_REALTIME.store(vmc::os::EPOCH as i64 * S + S / 4, Ordering::SeqCst);
        Self
    }
}
impl Drop for Clock {
    fn drop(&mut self) {
        vmc::os::GLOBAL_REALTIME.store(0, Ordering::SeqCst);
    }
}

struct World {
    nodes: Nodes,
    /// Node of each broker, and of the marshal
    place: BTreeMap<usize, usize>,
    history: Vec<Done>,
    issued: Vec<(usize, u64)>,
    time: u32,
    _clock: Clock,
}
type Verdictless = Result<(), (&'static str, String)>;

impl World {
    fn new(kind: Kind, seed: u64) -> Self {
        let _clock = Clock::start();
        Self { nodes: Nodes::new(kind, seed), place: BTreeMap::new(), history: vec![], issued: vec![], time: 0, _clock }
    }
    fn node(&mut self, p: usize) -> usize {
        if let Some(n) = self.place.get(&p) {
            return *n;
        }
        let id = (p != MARSHAL).then(|| broker(p));
        let r = self.nodes.add(id, false);
        assert!(r == At::Done(Res::Done), "cannot start: {r:?}");
        let n = self.nodes.threads();
        self.place.insert(p, n - 1);
        n - 1
    }
    fn call_of(&self, o: Op) -> Call {
        let secs = Duration::from_secs;
        match o {
            Beat(_, n, e) => Call::Heartbeat(n, secs(e)),
            Issue(b, k, e) => Call::Issue(broker(b), secs(e), key(k)),
            Redeem(b, i) => Call::Validate(broker(b), self.issued[i].1),
            Bogus(b, n) => Call::Validate(broker(b), n),
            Near(b, i, x) => Call::Validate(broker(b), self.issued[i].1 ^ x),
            Set(l) => Call::SetWhitelist(l.iter().map(|k| key(*k)).collect()),
            Others(_) => Call::Others,
            Least => Call::Least,
            Check(k) => Call::CheckWhitelist(key(k)),
            Tick(_) | Join => unreachable!(),
        }
    }
    fn tick(ms: u64) {
        vmc::os::GLOBAL_REALTIME.fetch_add(ms as i64 * 1_000_000, Ordering::SeqCst);
    }
    fn note(&mut self, op: Op, res: &Res) {
        if let (Issue(b, ..), Res::Permit(n)) = (op, res) {
            self.issued.push((b, *n));
        }
    }
    /// A whole call
    fn call(&mut self, op: Op) -> Res {
        let from = self.time;
        self.time += 1;
        let res = match op {
            Tick(ms) => {
                Self::tick(ms);
                vmc::note(|| format!("{ms} ms pass"));
                Res::Done
            }
            Join => {
                // another process, and the broker's own after a restart
                let r = self.nodes.add(None, false);
                match r {
                    At::Done(r) => r,
                    r => Res::Err(format!("{r:?}")),
                }
            }
            _ => {
                let n = self.node(at(op));
                let c = self.call_of(op);
                self.nodes.call(n, c)
            }
        };
        self.note(op, &res);
        self.history.push(Done { op, res: res.clone(), from, to: self.time, faulted: false });
        self.time += 1;
        res
    }
    fn check(&self) -> Verdictless {
        if let Some(u) = crate::redis::UNKNOWN.lock().unwrap().take() {
            eprintln!("the Redis server of the harness does not know: {u}");
            std::process::exit(4);
        }
        for d in &self.history {
            if let Res::Panic(m) = &d.res {
                return Err(("panic", format!("{:?}: {m}", d.op)));
            }
        }
        if explained(&self.history, &self.issued) {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for d in &self.history {
                let r = match &d.res {
                    Res::Permit(_) => "permit".into(),
                    Res::Err(_) => "error".into(),
                    r => format!("{r:?}"),
                };
                (format!("{:?}", d.op), r).hash(&mut h);
            }
            vmc::outcome(h.finish());
            return Ok(());
        }
        let h: Vec<String> = self
            .history
            .iter()
            .map(|d| format!("{}-{} {:?} -> {:?}{}", d.from, d.to, d.op, d.res, if d.faulted { " (made to fail)" } else { "" }))
            .collect();
        let last = self.history.last().unwrap();
        let name = match last.op {
            Beat(..) => "heartbeat",
            Issue(..) => "issue",
            Redeem(..) | Bogus(..) | Near(..) => "redeem",
            Set(_) => "set",
            Others(_) => "others",
            Least => "least",
            Check(_) => "check",
            Tick(_) | Join => "join",
        };
        Err((name, format!("{:?}: nothing explains: {}", self.nodes.kind, h.join("; "))))
    }
}

fn done(r: Verdictless) {
    if let Err((k, m)) = r {
        vmc::fail(k, m);
    }
}

const KINDS: [Kind; 2] = [Kind::Embedded, Kind::Redis];
fn tag(k: Kind) -> &'static str {
    match k {
        Kind::Embedded => "embedded",
        Kind::Redis => "redis",
    }
}

/// Every sequence of calls; after each the queries are made
fn sequence(kind: Kind, alphabet: &'static [Op], depth: usize, queries: &'static [Op]) {
    sequence_then(kind, alphabet, depth, queries, false);
}
fn sequence_then(kind: Kind, alphabet: &'static [Op], depth: usize, queries: &'static [Op], either: bool) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        for _ in 0..depth {
            let can: Vec<Op> =
                alphabet.iter().copied().filter(|o| !matches!(o, Redeem(_, i) | Near(_, i, _) if *i >= w.issued.len())).collect();
            let o = pick("call", &can);
            w.call(o);
            for q in queries {
                w.call(*q);
            }
            w.check()?;
        }
        // what is left
        let own = either && !w.issued.is_empty() && vmc::choose(2, "first") == 1;
        for i in 0..w.issued.len() {
            let (o, b) = (1 - w.issued[i].0.min(1), w.issued[i].0);
            for b in if own { [b, o, b] } else { [o, b, b] } {
                w.call(Redeem(b, i));
            }
        }
        w.check()?;
        vmc::cases(w.history.len() as u64);
        Ok(())
    };
    let r = run();
    done(r);
    vmc::cover(if kind == Kind::Redis { "redis" } else { "embedded" });
}

/// Calls of different processes at the same time, in every order of their storage commands, with failures
fn together(kind: Kind, before: &'static [&'static [Op]], sets: &[&'static [Op]], after: &'static [Op], faults: bool) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let pre = pick("before", before);
        for o in pre {
            w.call(*o);
        }
        w.check()?;
        let set = pick("calls", sets);
        // each call has a process of its own
        let mut running: Vec<(usize, Op, u32, bool, bool)> = vec![];
        let mut ticks = vec![];
        let start = w.time;
        w.time += 1;
        for o in set {
            if let Tick(_) = o {
                ticks.push(*o);
                continue;
            }
            let n = if *o == Join {
                let a = w.nodes.add(None, true);
                vmc::note(|| format!("{o:?}: {a:?}"));
                w.nodes.threads() - 1
            } else {
                // a broker and a marshal may make several calls at a time
                let p = at(*o);
                let id = (p != MARSHAL).then(|| broker(p));
                let r = w.nodes.add(id, false);
                assert!(r == At::Done(Res::Done), "cannot start: {r:?}");
                let n = w.nodes.threads() - 1;
                let c = w.call_of(*o);
                let a = w.nodes.start(n, c);
                vmc::note(|| format!("node {n}: {o:?}: {a:?}"));
                n
            };
            running.push((n, *o, start, false, false));
        }
        let verdicts: &[Verdict] = match (faults, kind) {
            (false, _) => &[Verdict::Go],
            (true, Kind::Embedded) => &[Verdict::Go, Verdict::Fail, Verdict::Crash],
            (true, Kind::Redis) => &[Verdict::Go, Verdict::Fail, Verdict::Lost, Verdict::LostAfter, Verdict::Crash],
        };
        loop {
            // (process, faulted, waits for a lock that nobody has released since)
            let mut ended = vec![];
            running.retain(|(n, o, from, faulted, _)| match w.nodes.at(*n) {
                At::Done(r) => {
                    ended.push((*o, r, *from, *faulted));
                    false
                }
                _ => true,
            });
            for (op, res, from, faulted) in ended {
                w.note(op, &res);
                let to = w.time;
                w.time += 1;
                w.history.push(Done { op, res, from, to, faulted });
                for r in &mut running {
                    r.4 = false;
                }
            }
            if running.is_empty() {
                break;
            }
            let can: Vec<usize> = (0..running.len()).filter(|i| !running[*i].4).collect();
            if can.is_empty() {
                // everybody waits for somebody
                let r = &mut running[0];
                r.3 = true;
                let n = r.0;
                let a = w.nodes.go(n, Verdict::GiveUp);
                vmc::note(|| format!("node {n} gives up: {a:?}"));
                for r in &mut running {
                    r.4 = false;
                }
                continue;
            }
            let c = vmc::choose(can.len() + usize::from(!ticks.is_empty()), "next");
            if c == can.len() {
                let t = ticks.pop().unwrap();
                w.call(t);
                continue;
            }
            let i = can[c];
            let n = running[i].0;
            let locked = w.nodes.at(n) == At::Locked;
            let v = if locked { Verdict::Go } else { verdicts[vmc::choose_costly(verdicts.len(), "command")] };
            let was = w.nodes.at(n);
            let a = w.nodes.go(n, v);
            vmc::note(|| format!("node {n}: {v:?} {was:?} => {a:?}"));
            running[i].3 |= v != Verdict::Go;
            if a == At::Locked {
                running[i].4 = true;
                vmc::cover("lock");
            }
            // what releases a lock (so does the end of a call)
            let commit = matches!(&was, At::Gate(l) if ["COMMIT", "END", "ROLLBACK", "RELEASE"].iter().any(|c| l.starts_with(c)));
            if commit || v != Verdict::Go {
                for (j, r) in running.iter_mut().enumerate() {
                    r.4 &= j == i;
                }
            }
        }
        if w.history.iter().any(|d| d.faulted) {
            vmc::cover("fault");
        }
        for t in ticks {
            w.call(t);
        }
        // who is asked afterwards was there before
        for o in after {
            if !matches!(o, Redeem(_, i) | Near(_, i, _) if *i >= w.issued.len()) {
                w.call(*o);
            }
        }
        w.check()?;
        vmc::cover("together");
        vmc::cases(w.history.len() as u64);
        Ok(())
    };
    vmc::explore(true);
    let r = run();
    done(r);
}

fn both(v: &mut Vec<Scenario>, name: &str, bound: (u32, u32), f: impl Fn(Kind) + Clone + Send + Sync + 'static) {
    for k in KINDS {
        let f = f.clone();
        v.push(Scenario::new(format!("{}: {name}", tag(k)), bound, move || {
            let f = f.clone();
            async move { f(k) }
        }));
    }
}

fn d01(thorough: bool, v: &mut Vec<Scenario>) {
    const A: [Op; 11] = [
        Issue(0, 0, 10),
        Issue(0, 1, 20),
        Issue(1, 1, 20),
        Redeem(0, 0),
        Redeem(1, 0),
        Redeem(0, 1),
        Redeem(1, 1),
        Bogus(0, 77),
        Bogus(1, 1 << 40),
        Tick(7_000),
        Join,
    ];
    let n = if thorough { 6 } else { 4 };
    both(v, "sequences", (0, 0), move |k| sequence(k, &A, n, &[]));
    // just before the time, and just after
    const E: [Op; 6] = [Issue(0, 0, 10), Redeem(0, 0), Redeem(1, 0), Bogus(0, 77), Tick(9_700), Tick(400)];
    both(v, "edge", (0, 0), move |k| sequence_then(k, &E, n, &[], true));
    both(v, "cycles", (0, 0), move |k| permit_cycles(k, if thorough { 1500 } else { 150 }));
    both(v, "randomness", (0, 0), unlucky);
    both(v, "near", (0, 0), near);
    both(v, "spread", (0, 0), |k| spread(k, 3000));
    both(v, "many", (0, 0), move |k| many_permits(k, if thorough { 400 } else { 120 }));
    const BEFORE: [&[Op]; 2] = [&[Issue(0, 0, 10)], &[Issue(0, 0, 10), Issue(1, 1, 20)]];
    const SETS: [&[Op]; 8] = [
        &[Redeem(0, 0), Redeem(0, 0)],
        &[Redeem(0, 0), Redeem(1, 0)],
        &[Redeem(0, 0), Issue(0, 1, 20)],
        &[Issue(0, 1, 20), Issue(0, 0, 20)],
        &[Redeem(0, 0), Tick(7_000), Tick(7_000)],
        &[Issue(0, 1, 10), Tick(7_000), Tick(7_000)],
        &[Redeem(0, 0), Bogus(0, 5)],
        &[Redeem(0, 0), Join],
    ];
    const AFTER: [Op; 9] = [
        Redeem(1, 0),
        Redeem(0, 0),
        Redeem(0, 0),
        Redeem(0, 1),
        Redeem(1, 1),
        Redeem(1, 1),
        Redeem(1, 2),
        Redeem(0, 2),
        Redeem(0, 2),
    ];
    both(v, "two at a time", (1, 2), |k| together(k, &BEFORE, &SETS, &AFTER, true));
    const SETS3: [&[Op]; 3] = [
        &[Redeem(0, 0), Redeem(0, 0), Redeem(0, 0)],
        &[Redeem(0, 0), Redeem(1, 0), Issue(0, 1, 20)],
        &[Redeem(0, 0), Redeem(0, 0), Tick(7_000), Tick(7_000)],
    ];
    let s = thorough;
    both(v, "three at a time", (0, 1), move |k| together(k, &BEFORE[..1], &SETS3, &AFTER, s));
}

/// Randomness that the permits 0, 1 and 1 are made of (32-bit permits)
const SPECIAL: [(u64, u8); 3] = [(86312016, 2), (186351300, 1), (359570322, 0)];
/// Permits never read as a status, and are told apart, whatever is drawn
fn unlucky(kind: Kind) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let n = w.node(MARSHAL);
        let k = vmc::choose(SPECIAL.len() + 64, "randomness");
        let mut draw = [0u8; 32];
        if let Some((a, b)) = SPECIAL.get(k) {
            draw[..8].copy_from_slice(&a.to_le_bytes());
            draw[8] = *b;
        } else {
            draw[31] = k as u8;
        }
        for i in 0..2 {
            let r = w.nodes.call(n, Call::IssueWith(draw, broker(0), Duration::from_secs(20), key(i)));
            let op = Issue(0, i, 20);
            match r {
                Res::Permit(_) => {}
                // that it is taken may be noticed
                Res::Err(_) if i == 1 => continue,
                r => return Err(("issue", format!("{r:?}"))),
            }
            w.note(op, &r);
            let t = w.time;
            w.time += 2;
            w.history.push(Done { op, res: r, from: t, to: t + 1, faulted: false });
            if kind == Kind::Redis {
                // 64 random bits are told apart
                break;
            }
        }
        for i in 0..w.issued.len() {
            w.call(Redeem(1, i));
            w.call(Redeem(0, i));
        }
        w.check()
    };
    done(run());
    vmc::cover("drawn");
}

fn d02(thorough: bool, v: &mut Vec<Scenario>) {
    const A: [Op; 8] = [
        Beat(0, 1, 10),
        Beat(1, 1, 10),
        Beat(2, 1, 10),
        Beat(0, 2, 20),
        Beat(1, 2, 20),
        Tick(7_000),
        Join,
        Issue(0, 0, 10),
    ];
    const Q: [Op; 4] = [Others(0), Others(1), Others(2), Others(MARSHAL)];
    let n = if thorough { 6 } else { 4 };
    both(v, "sequences", (0, 0), move |k| sequence(k, &A, n, &Q));
    const E: [Op; 5] = [Beat(0, 1, 10), Beat(1, 1, 10), Tick(9_700), Tick(400), Issue(0, 0, 10)];
    both(v, "edge", (0, 0), move |k| sequence(k, &E, n, &Q));
    both(v, "cycles", (0, 0), move |k| beat_cycles(k, if thorough { 1500 } else { 150 }));
    both(v, "many", (0, 0), move |k| many_brokers(k, if thorough { 100 } else { 30 }));
    const BEFORE: [&[Op]; 4] = [&[], &[Beat(0, 1, 10)], &[Beat(1, 1, 10), Beat(2, 2, 20)], &[Beat(0, 1, 10), Tick(7_000), Beat(1, 1, 10)]];
    const SETS: [&[Op]; 7] = [
        &[Beat(0, 2, 10), Others(1)],
        &[Beat(0, 2, 10), Beat(1, 2, 10)],
        &[Beat(0, 2, 10), Others(1), Tick(7_000)],
        &[Beat(0, 2, 10), Tick(7_000), Tick(7_000)],
        &[Beat(0, 2, 10), Join],
        &[Others(0), Others(1), Tick(7_000)],
        &[Join, Join],
    ];
    both(v, "two at a time", (1, 2), |k| together(k, &BEFORE, &SETS, &Q, true));
    const SETS3: [&[Op]; 3] = [
        &[Beat(0, 2, 10), Beat(1, 2, 10), Others(2)],
        &[Beat(0, 2, 10), Others(1), Others(2), Tick(7_000)],
        &[Beat(0, 2, 10), Join, Others(1)],
    ];
    let s = thorough;
    both(v, "three at a time", (0, 1), move |k| together(k, &BEFORE[..2], &SETS3, &Q, s));
}

fn d03(thorough: bool, v: &mut Vec<Scenario>) {
    const A: [Op; 12] = [
        Beat(0, 0, 10),
        Beat(0, 1, 20),
        Beat(0, 2, 20),
        Beat(1, 0, 20),
        Beat(1, 1, 10),
        Beat(1, 2, 20),
        Issue(0, 0, 10),
        Issue(0, 0, 30),
        Issue(1, 1, 30),
        Redeem(0, 0),
        Redeem(1, 0),
        Tick(7_000),
    ];
    let n = if thorough { 5 } else { 3 };
    both(v, "sequences", (0, 0), move |k| sequence(k, &A, n, &[Least]));
    const B: [Op; 9] = [
        Beat(0, 1, 20),
        Beat(1, 1, 20),
        Beat(2, 1, 20),
        Beat(2, 0, 10),
        Issue(0, 0, 30),
        Issue(1, 1, 30),
        Issue(2, 2, 10),
        Redeem(2, 0),
        Tick(7_000),
    ];
    const E: [Op; 6] = [Beat(0, 0, 10), Beat(1, 2, 20), Issue(0, 0, 10), Redeem(0, 0), Tick(9_700), Tick(400)];
    both(v, "edge", (0, 0), move |k| sequence(k, &E, if thorough { 6 } else { 4 }, &[Least]));
    both(v, "cycles", (0, 0), move |k| load_cycles(k, if thorough { 1500 } else { 150 }));
    both(v, "three brokers", (0, 0), move |k| three(k, &B, n));
    both(v, "while it changes", (0, 0), changing);
    const C: [Op; 7] = [
        Issue(0, 0, 10),
        Issue(1, 1, 10),
        Issue(1, 2, 30),
        Redeem(1, 0),
        Redeem(1, 1),
        Tick(7_000),
        Beat(1, 0, 60),
    ];
    both(v, "expiring permits", (0, 0), move |k| expiring(k, &C, if thorough { 6 } else { 5 }));
    both(v, "large loads", (0, 0), large_loads);
    const SIZES: [usize; 6] = [99, 127, 255, 256, 257, 600];
    const MORE: [usize; 7] = [999, 1023, 1024, 1025, 2048, 4096, 5000];
    both(v, "many outstanding", (0, 0), |k| many_outstanding(k, &SIZES));
    if thorough {
        both(v, "very many outstanding", (0, 0), |k| many_outstanding(k, &MORE));
    }
    both(v, "many", (0, 0), move |k| balance(k, if thorough { 60 } else { 25 }));
}

/// Three brokers that are there
fn three(kind: Kind, alphabet: &'static [Op], depth: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        for b in 0..3 {
            w.call(Beat(b, 1, 20));
        }
        for _ in 0..depth {
            let can: Vec<Op> =
                alphabet.iter().copied().filter(|o| !matches!(o, Redeem(_, i) | Near(_, i, _) if *i >= w.issued.len())).collect();
            w.call(pick("call", &can));
            w.call(Least);
            w.check()?;
        }
        vmc::cases(w.history.len() as u64);
        Ok(())
    };
    done(run());
}

/// The choice is made while something changes: it is right for some moment of each broker
fn changing(kind: Kind) {
    let run = || -> Verdictless {
        const BEFORE: [&[Op]; 5] = [
            &[Beat(0, 1, 10), Beat(1, 1, 20)],
            &[Beat(0, 0, 10), Beat(1, 3, 20), Issue(0, 0, 10)],
            &[Beat(0, 2, 20), Beat(1, 0, 20), Issue(1, 0, 10)],
            &[Beat(0, 2, 10), Beat(1, 2, 10), Beat(2, 2, 20)],
            &[Beat(0, 1, 10), Beat(1, 1, 10)],
        ];
        const CHANGES: [&[Op]; 7] = [
            &[Tick(12_000)],
            &[Tick(22_000)],
            &[Beat(0, 5, 20)],
            &[Beat(1, 0, 20)],
            &[Issue(0, 1, 30)],
            &[Redeem(1, 0)],
            &[Redeem(0, 0), Tick(12_000)],
        ];
        let mut w = World::new(kind, 1);
        let before = pick("before", &BEFORE);
        let changes = pick("change", &CHANGES);
        for o in before {
            w.call(*o);
        }
        w.check()?;
        let spec = |h: &[Done], issued: &[(usize, u64)]| {
            let mut s = Spec::default();
            for d in h {
                s.admits(d.op, &d.res, issued);
            }
            s
        };
        let mut states = vec![spec(&w.history, &w.issued)];
        let m = w.node(MARSHAL);
        let c = w.call_of(Least);
        let mut a = w.nodes.start(m, c);
        // the changes happen before any of its commands
        let mut left: Vec<Op> = changes.to_vec();
        left.retain(|o| !matches!(o, Redeem(_, i) | Near(_, i, _) if *i >= w.issued.len()));
        left.reverse();
        let mut steps = 0;
        while let At::Gate(_) = a {
            while !left.is_empty() && vmc::choose(2, "now") == 1 {
                let o = left.pop().unwrap();
                if at(o) == MARSHAL && !matches!(o, Tick(_)) {
                    // another marshal
                    let r = w.nodes.add(None, false);
                    assert!(r == At::Done(Res::Done));
                    let c = w.call_of(o);
                    let n = w.nodes.threads() - 1;
                    let res = w.nodes.call(n, c);
                    w.note(o, &res);
                    let t = w.time;
                    w.time += 2;
                    w.history.push(Done { op: o, res, from: t, to: t + 1, faulted: false });
                } else {
                    w.call(o);
                }
                states.push(spec(&w.history, &w.issued));
            }
            a = w.nodes.go(m, Verdict::Go);
            steps += 1;
            if steps > 100 {
                return Err(("endless", "it goes on and on".into()));
            }
        }
        w.check()?;
        let At::Done(r) = a else { return Err(("stuck", format!("{a:?}"))) };
        let always: Vec<usize> =
            (0..3).filter(|b| states.iter().all(|s| s.live().contains(b))).collect();
        let ctx = format!("{kind:?} {before:?} {changes:?} -> {r:?}");
        match r {
            Res::Broker(x) => {
                let Some(b) = (0..3).find(|b| broker(*b) == x) else { return Err(("unknown broker", ctx)) };
                let lowest = states.iter().filter(|s| s.live().contains(&b)).map(|s| s.load(b)).min();
                let Some(lowest) = lowest else { return Err(("dead broker", ctx)) };
                for c in always {
                    let highest = states.iter().map(|s| s.load(c)).max().unwrap();
                    if lowest > highest {
                        return Err(("not the least", ctx));
                    }
                }
            }
            Res::Err(_) if always.is_empty() => {}
            _ => return Err(("failed", ctx)),
        }
        vmc::cover(if states.len() > 1 { "changed" } else { "unchanged" });
        Ok(())
    };
    done(run());
}

/// Permits whose expiry makes the difference
fn expiring(kind: Kind, alphabet: &'static [Op], depth: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        w.call(Beat(0, 2, 60));
        w.call(Beat(1, 1, 60));
        for _ in 0..depth {
            let can: Vec<Op> = alphabet
                .iter()
                .copied()
                .filter(|o| !matches!(o, Redeem(_, i) | Near(_, i, _) if *i >= w.issued.len()))
                .collect();
            w.call(pick("call", &can));
            w.call(Least);
            w.check()?;
        }
        vmc::cases(w.history.len() as u64);
        Ok(())
    };
    done(run());
    vmc::cover("expiring");
}

/// Numbers that look like one that was issued
fn near(kind: Kind) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let x = pick("bits", &[1u64 << 32, 1 << 63, 0xffff_ffff_0000_0000, 1, 1 << 31, 1 << 16, 0xff00, 1 << 40]);
        let b = vmc::choose(2, "broker");
        w.call(Issue(b, 0, 20));
        w.call(Issue(1 - b, 1, 20));
        for o in [Near(b, 0, x), Near(1 - b, 0, x), Redeem(1 - b, 0), Redeem(b, 0), Near(b, 0, x), Near(b, 1, x), Redeem(b, 0), Redeem(1 - b, 1)] {
            w.call(o);
        }
        w.check()
    };
    done(run());
    vmc::cover("near");
}

fn many_permits(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let stride = pick("order", &[1usize, 7, 0]);
        for i in 0..n {
            w.call(Issue(i % 5, i % 11, if i % 3 == 0 { 10 } else { 30 }));
        }
        w.call(Tick(3_000));
        for i in 0..n {
            let i = if stride == 0 { n - 1 - i } else { i * stride % n };
            // at another broker, and twice at the right one
            w.call(Redeem((i + 1) % 5, i));
            w.call(Redeem(i % 5, i));
            if i % 4 == 0 {
                w.call(Redeem(i % 5, i));
            }
            if i == n / 2 {
                w.call(Tick(9_000));
            }
        }
        w.check()
    };
    done(run());
    vmc::cover("many");
}

/// So many permits that numbers from a small range would meet
fn spread(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let mut seen = BTreeSet::new();
        for i in 0..n {
            let node = w.node(MARSHAL);
            match w.nodes.call(node, Call::Issue(broker(i % 2), Duration::from_secs(3600), key(i))) {
                Res::Permit(p) if seen.insert(p) && p > 1 => {}
                r => return Err(("issue", format!("permit {i} is {r:?}, as one before"))),
            }
        }
        Ok(())
    };
    done(run());
    vmc::cover("spread");
}

fn many_brokers(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let order = pick("order", &[1usize, 7]);
        for i in 0..n {
            let b = i * order % n;
            w.call(Beat(b, b as u64, [10, 20, 40][b % 3]));
        }
        for round in 0..5 {
            for b in [0, 1, n / 2, n - 1, MARSHAL] {
                w.call(Others(b));
            }
            w.call(Tick(7_000));
            w.check()?;
            if round == 2 {
                for b in 0..n {
                    if b % 4 == 0 {
                        w.call(Beat(b, 1, 10));
                    }
                }
            }
        }
        Ok(())
    };
    done(run());
    vmc::cover("many");
}

/// Users are sent to where the load is least, one after the other
fn balance(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let spread = pick("loads", &[0u64, 3, 1000]);
        for b in 0..n {
            w.call(Beat(b, (b as u64 * 7 % 5) * spread, if b % 6 == 5 { 10 } else { 60 }));
        }
        for i in 0..2 * n {
            let Res::Broker(x) = w.call(Least) else { break };
            let Some(b) = (0..n).find(|b| broker(*b) == x) else { break };
            w.call(Issue(b, i % 9, if i % 5 == 0 { 5 } else { 40 }));
            if i % 4 == 3 && w.issued.len() > 2 {
                let k = i / 2;
                let at = w.issued[k].0;
                w.call(Redeem(at, k));
            }
            if i % 10 == 9 {
                w.call(Tick(2_500));
            }
            if i % 16 == 15 {
                w.call(Beat(i % n, i as u64 % 3, 60));
            }
        }
        w.check()
    };
    done(run());
    vmc::cover("many");
}

/// Numbers of connections around the limits of number types
fn large_loads(kind: Kind) {
    let run = || -> Verdictless {
        const N: [u64; 12] = [
            0,
            1,
            127,
            128,
            255,
            256,
            32_768,
            65_535,
            65_536,
            (1 << 31) - 1,
            1 << 31,
            (1 << 32) - 1,
        ];
        let mut w = World::new(kind, 1);
        let (x, y) = (pick("one", &N), pick("other", &N));
        let permits = pick("permits", &[0, 1, 3]);
        w.call(Beat(0, x, 60));
        w.call(Beat(1, y, 60));
        for i in 0..permits {
            w.call(Issue(i % 2, i, 30));
        }
        w.call(Least);
        w.check()
    };
    done(run());
    vmc::cover("large loads");
}

impl World {
    /// A whole call, with the one result it can have
    fn must(&mut self, kind: &'static str, c: Call, p: usize, want: impl Fn(&Res) -> bool) -> Result<Res, (&'static str, String)> {
        let n = self.node(p);
        let what = format!("{c:?}");
        match self.nodes.call(n, c) {
            r if want(&r) => Ok(r),
            r => Err((kind, format!("{:?}, round {}: {what} -> {r:?}", self.nodes.kind, self.time))),
        }
    }
}

/// Rounds that do not repeat
fn uneven(i: usize) -> usize {
    (i * i / 3 + i / 7) % 3
}

/// Permits that come and go, for long
fn permit_cycles(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let secs = Duration::from_secs;
        // how long they are valid, and how much later they are presented
        let (late, used) = pick("way", &[(10_100u64, true), (10_100, false), (11_900, true), (9_900, true)]);
        for i in 0..n {
            w.time = i as u32;
            let (b, k) = (i % 3, key(i % 9));
            for x in 0..uneven(i) {
                w.must("redeem", Call::Validate(broker(x), 77), x, |r| *r == Res::Key(None))?;
            }
            let r = w.must("issue", Call::Issue(broker(b), secs(10), k.clone()), MARSHAL, |r| matches!(r, Res::Permit(_)))?;
            let Res::Permit(p) = r else { unreachable!() };
            if used {
                let r = w.must("issue", Call::Issue(broker(b), secs(10), k.clone()), MARSHAL, |r| matches!(r, Res::Permit(_)))?;
                let Res::Permit(q) = r else { unreachable!() };
                w.must("redeem", Call::Validate(broker(b), q), b, |r| *r == Res::Key(Some(k.clone())))?;
                w.must("redeem", Call::Validate(broker(b), q), b, |r| *r == Res::Key(None))?;
            }
            World::tick(late);
            let want = (late < 10_000).then(|| k.clone());
            w.must("redeem", Call::Validate(broker(b), p), b, |r| *r == Res::Key(want.clone()))?;
            w.must("redeem", Call::Validate(broker(b), p), b, |r| *r == Res::Key(None))?;
        }
        vmc::cases(n as u64);
        Ok(())
    };
    done(run());
    vmc::cover("cycles");
}

/// Brokers that come, stay and go, for long
fn beat_cycles(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let secs = Duration::from_secs;
        let names = |l: &[usize]| {
            let mut v: Vec<_> = l.iter().map(|b| broker(*b)).collect();
            v.sort();
            Res::Brokers(v)
        };
        let late = pick("later", &[10_100u64, 11_900]);
        for i in 0..n {
            w.time = i as u32;
            for x in 0..uneven(i) {
                w.must("others", Call::Others, x, |r| matches!(r, Res::Brokers(v) if v.len() <= 1))?;
            }
            // one that stays, and one that misses its time
            w.must("heartbeat", Call::Heartbeat(i as u64, secs(30)), 0, |r| *r == Res::Done)?;
            w.must("heartbeat", Call::Heartbeat(1, secs(10)), 1, |r| *r == Res::Done)?;
            w.must("others", Call::Others, 0, |r| *r == names(&[1]))?;
            w.must("others", Call::Others, 2, |r| *r == names(&[0, 1]))?;
            World::tick(late);
            w.must("others", Call::Others, 0, |r| *r == names(&[]))?;
            w.must("others", Call::Others, 2, |r| *r == names(&[0]))?;
            w.must("others", Call::Others, 1, |r| *r == names(&[0]))?;
        }
        vmc::cases(n as u64);
        Ok(())
    };
    done(run());
    vmc::cover("cycles");
}

/// The loads change, for long
fn load_cycles(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let secs = Duration::from_secs;
        let late = pick("later", &[10_100u64, 11_900]);
        for i in 0..n {
            w.time = i as u32;
            let (a, b) = (i % 2, 1 - i % 2);
            for _ in 0..uneven(i) {
                w.must("least", Call::Least, MARSHAL, |r| matches!(r, Res::Err(_)))?;
            }
            let best = |x: usize| move |r: &Res| *r == Res::Broker(broker(x));
            w.must("heartbeat", Call::Heartbeat(2, secs(30)), a, |r| *r == Res::Done)?;
            w.must("heartbeat", Call::Heartbeat(3, secs(30)), b, |r| *r == Res::Done)?;
            w.must("least", Call::Least, MARSHAL, best(a))?;
            let mut last = 0;
            for _ in 0..2 {
                let r = w.must("issue", Call::Issue(broker(a), secs(10), key(0)), MARSHAL, |r| matches!(r, Res::Permit(_)))?;
                let Res::Permit(p) = r else { unreachable!() };
                last = p;
            }
            w.must("least", Call::Least, MARSHAL, best(b))?;
            if i % 3 == 0 {
                for _ in 0..2 {
                    w.must("issue", Call::Issue(broker(b), secs(30), key(1)), MARSHAL, |r| matches!(r, Res::Permit(_)))?;
                }
                w.must("least", Call::Least, MARSHAL, best(a))?;
                w.must("redeem", Call::Validate(broker(a), last), a, |r| *r == Res::Key(Some(key(0))))?;
                w.must("heartbeat", Call::Heartbeat(9, secs(5)), b, |r| *r == Res::Done)?;
            }
            // the permits of the first expire
            World::tick(late);
            w.must("least", Call::Least, MARSHAL, best(a))?;
            World::tick(60_000);
            w.must("least", Call::Least, MARSHAL, |r| matches!(r, Res::Err(_)))?;
        }
        vmc::cases(n as u64);
        Ok(())
    };
    done(run());
    vmc::cover("cycles");
}

/// The list changes, for long
fn list_cycles(kind: Kind, n: usize) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let gap = pick("later", &[0u64, 400, 70_000]);
        for i in 0..n {
            w.time = i as u32;
            let on = |k: usize| (i >> k) & 1 == 1 || k == 3;
            let list = (0..4).filter(|k| on(*k)).map(key).collect();
            w.must("set", Call::SetWhitelist(list), MARSHAL, |r| *r == Res::Done)?;
            for at in [MARSHAL, 0] {
                for k in 0..5 {
                    w.must("check", Call::CheckWhitelist(key(k)), at, |r| *r == Res::Bool(on(k) && k < 4))?;
                }
                for k in 0..uneven(i) {
                    w.must("check", Call::CheckWhitelist(key(k)), at, |r| *r == Res::Bool(on(k)))?;
                }
            }
            World::tick(gap);
        }
        vmc::cases(n as u64);
        Ok(())
    };
    done(run());
    vmc::cover("cycles");
}

/// Many outstanding permits
fn many_outstanding(kind: Kind, sizes: &'static [usize]) {
    let run = || -> Verdictless {
        let n = pick("permits", sizes);
        let mut w = World::new(kind, 1);
        for i in 0..n {
            let node = w.node(MARSHAL);
            match w.nodes.call(node, Call::Issue(broker(0), Duration::from_secs(3600), key(i))) {
                Res::Permit(_) => {}
                r => return Err(("issue", format!("permit {i}: {r:?}"))),
            }
        }
        w.call(Beat(0, 2, 60));
        for (other, best) in [(0, 1), (1, 1), (n as u64 + 1, 1), (n as u64 + 3, 0)] {
            w.call(Beat(1, other, 60));
            let node = w.node(MARSHAL);
            match w.nodes.call(node, Call::Least) {
                Res::Broker(b) if b == broker(best) => {}
                r => return Err(("not the least", format!("2 connections and {n} permits, or {other} connections: {r:?}"))),
            }
        }
        Ok(())
    };
    done(run());
    vmc::cover("many outstanding");
}

static LONG: [[usize; 3000]; 2] = {
    let mut a = [[0; 3000]; 2];
    let mut i = 0;
    while i < 3000 {
        a[0][i] = 1000 + i;
        a[1][i] = 2000 + 2 * i;
        i += 1;
    }
    a
};
fn long_list(kind: Kind) {
    let run = || -> Verdictless {
        let mut w = World::new(kind, 1);
        let first = vmc::choose(2, "first");
        for k in [first, 1 - first, first] {
            w.call(Set(&LONG[k]));
            for c in [0, 999, 1000, 1001, 2000, 2001, 2500, 3998, 3999, 4000, 4001, 7998, 7999] {
                w.call(Check(c));
            }
            w.check()?;
        }
        w.call(Set(&[4]));
        for c in [0, 4, 5, 1000, 3998] {
            w.call(Check(c));
        }
        w.call(Set(&[5, 0]));
        for c in [0, 4, 5, 1, 2] {
            w.call(Check(c));
        }
        w.check()
    };
    done(run());
    vmc::cover("long list");
}

const MANY: [usize; 400] = {
    let mut a = [0; 400];
    let mut i = 0;
    while i < 400 {
        a[i] = 1000 + i;
        i += 1;
    }
    a
};

const LATER: [usize; 400] = {
    let mut a = [0; 400];
    let mut i = 0;
    while i < 400 {
        a[i] = 1200 + i;
        i += 1;
    }
    a
};

fn d04(thorough: bool, v: &mut Vec<Scenario>) {
    const A: [Op; 9] = [
        Set(&[0]),
        Set(&[1]),
        Set(&[0, 1]),
        Set(&[1, 2]),
        Set(&[0, 0, 3]),
        Set(&MANY),
        Set(&[]),
        Join,
        Beat(0, 1, 10),
    ];
    both(v, "long list", (0, 0), long_list);
    both(v, "cycles", (0, 0), move |k| list_cycles(k, if thorough { 1500 } else { 150 }));
    const Q: [Op; 7] = [Check(4), Check(0), Check(1), Check(2), Check(3), Check(1000), Check(1399)];
    let n = if thorough { 5 } else { 3 };
    both(v, "sequences", (0, 0), move |k| sequence(k, &A, n, &Q));
    const BEFORE: [&[Op]; 3] = [&[], &[Set(&[0, 1])], &[Set(&[1]), Set(&[0, 1])]];
    const SETS: [&[Op]; 9] = [
        &[Set(&[1, 2])],
        &[Set(&[1, 2]), Check(0)],
        &[Set(&[1, 2]), Check(1)],
        &[Set(&[1, 2]), Check(2)],
        &[Set(&[1, 2]), Check(3)],
        &[Set(&[1, 2]), Set(&[1, 3])],
        &[Set(&[1, 2]), Join],
        &[Set(&[]), Check(0)],
        &[Set(&[1, 1]), Check(1)],
    ];
    const AFTER: [Op; 4] = [Check(0), Check(1), Check(2), Check(3)];
    both(v, "two at a time", (1, 2), |k| together(k, &BEFORE, &SETS, &AFTER, true));
    const SETS3: [&[Op]; 4] = [
        &[Set(&[1, 2]), Check(0), Check(2)],
        &[Set(&[1, 2]), Set(&[1, 3]), Check(1)],
        &[Set(&[1, 2]), Set(&[1, 3]), Check(0)],
        &[Set(&[1, 2]), Check(1), Join],
    ];
    const LONG_BEFORE: [&[Op]; 1] = [&[Set(&MANY)]];
    const LONG_SETS: [&[Op]; 5] = [
        &[Set(&LATER), Check(1100)],
        &[Set(&LATER), Check(1300)],
        &[Set(&LATER), Check(1500)],
        &[Set(&LATER), Check(9)],
        &[Set(&LATER), Join],
    ];
    const LONG_AFTER: [Op; 6] = [Check(1000), Check(1199), Check(1200), Check(1399), Check(1400), Check(1599)];
    const LONG_ALONE: [&[Op]; 1] = [&[Set(&LATER)]];
    both(v, "long lists", (1, 1), |k| {
        // (SQLite runs a command for each key)
        let sets = if k == Kind::Redis { &LONG_SETS[..] } else { &LONG_ALONE };
        together(k, &LONG_BEFORE, sets, &LONG_AFTER, true);
    });
    let s = thorough;
    both(v, "three at a time", (0, 1), move |k| together(k, &BEFORE[..2], &SETS3, &AFTER, s));
}
