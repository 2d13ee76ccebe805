//! M07, M08, M09: the mesh, eviction, and the end of a broker.
use cdn_proto::message::Message;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tokio::net::{sim, Conn};
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::pk;
use crate::disc::{events, set_fault, store, Fault, Op};
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "M07" => m07(thorough, v),
        "M08" => m08(thorough, v),
        "M09" => m09(thorough, v),
        _ => {}
    }
}

async fn quiesce() {
    vmc::settle().await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
}

// ------------------------------------------------------------------------------------------------------------- M07

/// One link per pair, opened by the smaller, and every broker reaches the users of every other
pub async fn meshed(brokers: &[u16], ctx: &str) {
    for a in brokers {
        for b in brokers.iter().filter(|b| *b > a) {
            let l = links(*a, *b);
            ensure!(!l.is_empty(), "not linked", "brokers {a} and {b}: {ctx}");
            ensure!(l.len() < 2, "several links", "brokers {a} and {b} have {} links: {ctx}", l.len());
            ensure!(l.iter().all(|l| l.0 == *a), "initiator", "broker {b} opened the link to {a}: {ctx}");
        }
    }
    let mut us = vec![];
    for b in brokers {
        us.push(login(*b, 50 + u64::from(*b), &[0]).await);
    }
    exchange().await;
    for i in 0..us.len() {
        for j in 0..us.len() {
            let k = us[j].key;
            us[i].direct(k, &[1, i as u8]);
        }
        us[i].broadcast(&[0], &[2, i as u8]);
        quiesce().await;
        for (j, u) in us.iter_mut().enumerate() {
            let mut got: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
            got.sort();
            let want = vec![vec![1, i as u8], vec![2, i as u8]];
            ensure!(got == want, "not reached", "from broker {} to {}: {got:?}, {ctx}", brokers[i], brokers[j]);
        }
    }
    for u in &mut us {
        ensure!(!u.closed(), "ended", "user {}: {ctx}", u.key);
        u.close();
    }
    vmc::settle().await;
}
fn dials() -> usize {
    (1..9).map(|b| sim::conns_to(priv_port(b)).len()).sum()
}

/// Any order and any distance in time
async fn starts(n: u16) {
    vmc::deadline(Some(S(900)));
    let mut left: Vec<u16> = (1..=n).collect();
    let mut nodes = vec![];
    let mut ctx = String::from("started");
    while !left.is_empty() {
        vmc::explore(true);
        let b = left.remove(vmc::choose(left.len(), "next"));
        let gap = if left.is_empty() { 0 } else { pick("gap", &[0, 4_000, 10_000, 11_000]) };
        vmc::explore(false);
        ctx += &format!(" {b} +{gap} ms");
        nodes.push(start_broker(b).await);
        vmc::sleep(MS(gap)).await;
    }
    vmc::sleep(MS(20_500)).await;
    vmc::settle().await;
    meshed(&(1..=n).collect::<Vec<_>>(), &ctx).await;
    // Nobody dials any more
    let d = dials();
    vmc::sleep(S(31)).await;
    vmc::settle().await;
    ensure!(dials() == d, "dials again", "{} times: {ctx}", dials() - d);
    for x in &nodes {
        ensure!(x.running(), "stopped", "broker {}: {ctx}", x.n);
    }
    vmc::cover("meshed");
}

/// All start at the same moment, in every order of execution
async fn together(n: u16) {
    vmc::deadline(Some(S(900)));
    let mut nodes = vec![];
    for b in 1..=n {
        nodes.push(start_broker(b).await);
    }
    vmc::sleep(MS(9_999)).await;
    vmc::settle().await;
    vmc::explore(true);
    vmc::sleep(MS(1)).await;
    tokio::task::yield_now().await;
    vmc::settle().await;
    vmc::explore(false);
    vmc::sleep(MS(20_500)).await;
    vmc::settle().await;
    meshed(&(1..=n).collect::<Vec<_>>(), "together").await;
    vmc::cover("together");
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Loss {
    Nothing,
    /// The links of the pair fail
    Link(u16, u16),
    /// The process dies and is back at once
    Restart(u16),
    /// It is back after so many seconds
    Away(u16, u64),
    /// The other side's connections fail, and come back only later
    Unreachable(u16, u64),
}

async fn losses(n: u16, all: &'static [Loss], depth: usize) {
    vmc::deadline(Some(S(3600)));
    store(|s| s.latency = MS(5));
    let mut nodes: Vec<Option<Node>> = vec![];
    for b in 1..=n {
        nodes.push(Some(start_broker(b).await));
    }
    vmc::sleep(MS(20_500)).await;
    vmc::settle().await;
    let mut ctx = String::new();
    for _ in 0..depth {
        vmc::explore(true);
        let loss = pick("loss", all);
        let op = pick("op", &[None, Some(Op::Others), Some(Op::Heartbeat)]);
        let (mut fault, mut node, mut secs) = (Fault::Fail, 0, 0);
        if op.is_some() {
            fault = pick("fault", &[Fault::Fail, Fault::Stall, Fault::FailAfter]);
            node = vmc::choose(2, "everybody, 1") as u16;
            secs = pick("for", &[12, 75]);
        }
        vmc::explore(false);
        ctx += &format!("{loss:?} {op:?} {fault:?} node {node} for {secs} s; ");
        let name = if node == 0 { String::new() } else { ident(node).to_string() };
        if let Some(op) = op {
            set_fault(&name, op, Some(fault));
        }
        let start = vmc::now();
        let n0 = events(Op::Others).len();
        match loss {
            Loss::Nothing => {}
            Loss::Link(a, b) => {
                for (_, c) in links(a, b) {
                    c.cut();
                }
            }
            Loss::Restart(b) | Loss::Away(b, _) => {
                if let Some(x) = nodes[usize::from(b) - 1].take() {
                    x.kill().await;
                }
                if let Loss::Away(_, s) = loss {
                    vmc::sleep(S(s)).await;
                }
                nodes[usize::from(b) - 1] = Some(start_broker(b).await);
            }
            Loss::Unreachable(b, s) => {
                sim::blackhole(priv_port(b), true);
                for a in 1..=n {
                    for (_, c) in links(a, b) {
                        c.cut();
                    }
                }
                vmc::sleep(S(s)).await;
                sim::blackhole(priv_port(b), false);
            }
        }
        if op.is_some() {
            let gone = vmc::now() - start;
            vmc::sleep(S(secs).saturating_sub(gone)).await;
            if let Some(op) = op {
                set_fault(&name, op, None);
            }
        }
        // Discovery is asked at the pace of the heartbeat, also when it fails
        let asked = events(Op::Others).len() - n0;
        let may = (usize::from(n)) * ((vmc::now() - start).as_secs() as usize / 5 + 3);
        ensure!(asked <= may, "hammered", "discovery is asked {asked} times: {ctx}");
        vmc::sleep(MS(36_000)).await;
        vmc::settle().await;
        meshed(&(1..=n).collect::<Vec<_>>(), &ctx).await;
    }
    for x in nodes.iter().flatten() {
        ensure!(x.running(), "stopped", "broker {}: {ctx}", x.n);
    }
    vmc::cover("restored");
}

/// The first attempts fail somewhere in the middle of the handshake, or of the first exchange
async fn interrupted(step: u64) {
    vmc::deadline(Some(S(900)));
    vmc::explore(true);
    let first = 1 + vmc::choose(2, "first") as u16;
    let busy = vmc::choose(2, "with users") == 1;
    let times = 1 + vmc::choose(2, "once, twice");
    let dir = vmc::choose(2, "direction");
    let how = vmc::choose(3, "cut, cut later, delayed");
    let k = step * vmc::choose((480 / step) as usize, "after so many bytes") as u64;
    vmc::explore(false);
    let hit: Rc<RefCell<Vec<Arc<Conn>>>> = Rc::default();
    let hit2 = hit.clone();
    sim::on_conn(move |c| {
        let mut h = hit2.borrow_mut();
        if c.server.port() == priv_port(2) && h.len() < times {
            c.with(dir, |x| x.allow = Some(k));
            h.push(c.clone());
        }
    });
    let one = start_broker(first).await;
    let mut u = vec![];
    if busy {
        for k in 0..3 {
            u.push(login(first, 60 + k, &[0, 1]).await);
        }
    }
    vmc::sleep(MS(4_000)).await;
    let two = start_broker(3 - first).await;
    let mut healed = 0;
    for _ in 0..80 {
        vmc::sleep(MS(500)).await;
        vmc::settle().await;
        let h = hit.borrow().clone();
        for c in h.iter().skip(healed) {
            healed += 1;
            match how {
                0 => c.cut(),
                1 => {
                    vmc::sleep(MS(3_000)).await;
                    c.cut();
                }
                _ => {
                    vmc::sleep(MS(6_000)).await;
                    c.with(dir, |x| x.allow = None);
                }
            }
        }
    }
    let ctx = format!("the first {times} attempts ({how}) after {k} bytes of direction {dir}, {first} first, busy {busy}");
    ensure!(one.running() && two.running(), "stopped", "{ctx}");
    ensure!(u.iter_mut().all(|u| !u.closed()), "users", "{ctx}");
    meshed(&[1, 2], &ctx).await;
    vmc::cover("after failed attempts");
}

/// A broker that discovery lists but that is gone does not hinder the others
async fn ghosts() {
    vmc::deadline(Some(S(900)));
    vmc::explore(true);
    let how = vmc::choose(3, "ghost refuses, swallows, says nothing");
    let order = vmc::choose(2, "order");
    vmc::explore(false);
    // Broker 7 is not there, and 8 (or even 8 to 30)
    let most = pick("many", &[8, 30]);
    for g in 8..=most {
        let l = crate::peer::Server::bind(priv_port(g)).await;
        match how {
            0 => drop(l),
            1 => sim::blackhole(priv_port(g), true),
            _ => std::mem::forget(l),
        }
    }
    for g in 7..=most {
        store(|s| s.brokers.insert(ident(g), (0, S(100_000))));
    }
    let mut nodes = vec![];
    for b in if order == 0 { [1, 2] } else { [2, 1] } {
        nodes.push(start_broker(b).await);
        vmc::sleep(MS(500)).await;
    }
    vmc::sleep(MS(20_500)).await;
    vmc::settle().await;
    meshed(&[1, 2], &format!("ghost {how}")).await;
    // and they stay registered and meshed
    for _ in 0..13 {
        vmc::sleep(S(7)).await;
        let now = vmc::now();
        for b in [1, 2] {
            let r = store(|s| s.brokers.get(&ident(b)).map(|x| x.1));
            ensure!(r.is_some_and(|at| at > now), "not registered", "broker {b} with {} ghosts ({how}): {r:?} at {now:?}", most - 6);
        }
    }
    meshed(&[1, 2], &format!("ghost {how}, later")).await;
    vmc::cover("despite ghosts");
}

fn m07(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("starts, 2", (0, 0), || async { starts(2).await }).steps(80_000));
    v.push(Scenario::new("starts, 3", (0, 0), || async { starts(3).await }).steps(80_000));
    if thorough {
        v.push(Scenario::new("starts, 4", (0, 0), || async { starts(4).await }).steps(200_000));
    }
    v.push(Scenario::new("together, 2", (2, 3), || async { together(2).await }).steps(80_000));
    v.push(Scenario::new("together, 3", (1, 2), || async { together(3).await }).steps(80_000));
    const TWO: &[Loss] = &[
        Loss::Nothing,
        Loss::Link(1, 2),
        Loss::Restart(1),
        Loss::Restart(2),
        Loss::Away(1, 20),
        Loss::Away(2, 20),
        Loss::Away(2, 70),
        Loss::Unreachable(2, 25),
    ];
    const THREE: &[Loss] = &[Loss::Link(1, 3), Loss::Restart(2), Loss::Away(1, 20), Loss::Unreachable(3, 25)];
    let d = if thorough { 2 } else { 1 };
    v.push(Scenario::new("losses, 2", (0, 0), move || async move { losses(2, TWO, d).await }).steps(400_000));
    v.push(Scenario::new("losses, 3", (0, 0), move || async move { losses(3, THREE, d).await }).steps(400_000));
    let step = if thorough { 1 } else { 12 };
    v.push(Scenario::new("interrupted", (0, 0), move || async move { interrupted(step).await }).steps(80_000));
    v.push(Scenario::new("ghosts", (0, 0), || async { ghosts().await }).steps(80_000));
}

// ------------------------------------------------------------------------------------------------------------- M08

fn whitelist(keys: &[u64]) {
    store(|s| s.whitelist = Some(keys.iter().map(|k| pk(*k).into()).collect()));
}

/// Changes of the list at any moment, and failures of discovery
async fn eviction(depth: usize) {
    vmc::deadline(Some(S(3600)));
    let _m = mesh(1).await;
    let keys = [1u64, 2, 3];
    let mut us: Vec<User> = vec![];
    for k in keys {
        us.push(login(1, k, &[0]).await);
    }
    // How long each user has been off the list while discovery answered
    let mut off: Vec<std::time::Duration> = vec![S(0); 3];
    let mut listed = [true; 3];
    let mut gone = [false; 3];
    let mut down: Option<Fault> = None;
    let mut ctx = String::new();
    let mut acts = 0;
    while acts < depth + 2 {
        vmc::explore(true);
        let act = if acts < depth { vmc::choose(6, "list, list, list, fail, stall, up") } else { 5 };
        let at = if acts < depth { pick("after", &[1u64, 30, 59, 60, 70]) } else { 70 };
        vmc::explore(false);
        acts += 1;
        match act {
            0..=2 => {
                // {1,2,3}, {2,3}, {3}
                listed = [act < 1, act < 2, true];
                let l: Vec<u64> = keys.iter().zip(listed).filter(|x| x.1).map(|x| *x.0).collect();
                whitelist(&l);
                ctx += &format!("list {l:?} ");
            }
            3 | 4 => {
                let f = if act == 3 { Fault::Fail } else { Fault::Stall };
                down = Some(f);
                set_fault("", Op::CheckWhitelist, down);
                ctx += &format!("{f:?} ");
            }
            _ => {
                down = None;
                set_fault("", Op::CheckWhitelist, None);
                ctx += "up ";
            }
        }
        ctx += &format!("{at} s ");
        for _ in 0..at {
            vmc::sleep(S(1)).await;
            vmc::settle().await;
            for i in 0..3 {
                let closed = us[i].closed();
                if closed && !gone[i] {
                    ensure!(!listed[i], "evicted", "user {} is on the list: {ctx}", i + 1);
                    ensure!(down.is_none(), "evicted", "user {} while discovery is down: {ctx}", i + 1);
                    gone[i] = true;
                }
                if listed[i] || down.is_some() {
                    off[i] = S(0);
                } else {
                    off[i] += S(1);
                    ensure!(closed || off[i] <= S(68), "still there", "user {} after {:?}: {ctx}", i + 1, off[i]);
                }
            }
        }
    }
    // Those that are gone neither get nor send anything
    let mut v = login(1, 3, &[0]).await;
    for i in 0..2 {
        us[i].take();
        v.direct(keys[i], b"d");
        v.broadcast(&[0], b"b");
        quiesce().await;
        let got = us[i].take().len();
        ensure!(got == if gone[i] { 0 } else { 2 }, "served", "user {} gets {got} messages: {ctx}", i + 1);
        v.take();
        us[i].direct(3, b"up");
        quiesce().await;
        let got = v.take().len();
        ensure!(got == usize::from(!gone[i]), "heard", "{got} messages of user {} arrive: {ctx}", i + 1);
    }
    vmc::outcome(u64::from(gone[0]) * 2 + u64::from(gone[1]));
    vmc::cover(if gone[0] || gone[1] { "evicted" } else { "nobody" });
}

/// Users come, go and come again while the check is made
async fn checking() {
    vmc::deadline(Some(S(900)));
    let _m = mesh(1).await;
    let mut a = login(1, 1, &[0]).await;
    let mut b = login(1, 2, &[0]).await;
    let mut c = login(1, 3, &[0]).await;
    whitelist(&[2, 3]);
    let now = vmc::now().as_millis() as u64;
    vmc::sleep(MS(60_000 - now % 60_000)).await;
    let n = permit(1, 2);
    let mut p = Peer::connect(pub_port(1)).await.expect("connect");
    vmc::explore(true);
    let what = vmc::choose(5, "a talks, b leaves, b logs in again, nothing, a sends a broadcast");
    tokio::task::yield_now().await;
    match what {
        0 => a.direct(3, b"x"),
        1 => b.close(),
        2 => {
            p.send(&auth_permit(n));
            p.send(&Message::Subscribe(vec![0]));
        }
        4 => a.broadcast(&[0], b"x"),
        _ => {}
    }
    vmc::settle().await;
    vmc::explore(false);
    quiesce().await;
    ensure!(a.closed(), "still there", "after the check ({what})");
    ensure!(!c.closed(), "evicted", "user 3 ({what})");
    if what == 2 {
        p.pump();
        ensure!(!p.closed() && !p.eof, "evicted", "the new session of user 2");
    } else if what != 1 {
        ensure!(!b.closed(), "evicted", "user 2 ({what})");
    }
    c.take();
    c.direct(1, b"d");
    a.direct(3, b"u");
    quiesce().await;
    ensure!(c.take().is_empty(), "heard", "after the eviction");
    vmc::cover("checked");
}

/// Discovery answers slowly, and for some users not at all: the others are evicted all the same
async fn undetermined(n: u64) {
    vmc::deadline(Some(S(3600)));
    let _m = mesh(1).await;
    let mut us: Vec<User> = vec![];
    for k in 1..=n {
        us.push(login(1, k, &[0]).await);
    }
    vmc::explore(true);
    let unknown = vmc::choose(1 << n, "undetermined") as u64;
    let fault = pick("how", &[Fault::Fail, Fault::Stall]);
    let latency = pick("latency", &[0u64, 3]);
    let listed = pick("listed", &[0u64, 0b10101, 0b01010]);
    vmc::explore(false);
    let off = |i: u64| listed >> i & 1 == 0;
    let lost = |i: u64| unknown >> i & 1 == 1;
    store(|s| {
        s.unknown = (0..n).filter(|i| lost(*i)).map(|i| (pk(i + 1).into(), fault)).collect();
        s.latency = S(latency);
    });
    whitelist(&(0..n).filter(|i| !off(*i)).map(|i| i + 1).collect::<Vec<_>>());
    let round = 60 + n * 5 + 8;
    let ctx = format!("undetermined {unknown:b} ({fault:?}), answers after {latency} s, listed {listed:b}");
    for phase in 0..2 {
        for _ in 0..round {
            vmc::sleep(S(1)).await;
            vmc::settle().await;
            for i in 0..n {
                let may = off(i) && (phase == 1 || !lost(i));
                ensure!(may || !us[i as usize].closed(), "evicted", "user {}: {ctx}", i + 1);
            }
        }
        for i in 0..n {
            let must = off(i) && (phase == 1 || !lost(i));
            ensure!(!must || us[i as usize].closed(), "still there", "user {} after {round} s: {ctx}", i + 1);
        }
        store(|s| s.unknown.clear());
    }
    vmc::cover("undetermined");
}

fn m08(thorough: bool, v: &mut Vec<Scenario>) {
    let d = if thorough { 4 } else { 3 };
    v.push(Scenario::new(format!("eviction, {d} changes"), (0, 0), move || async move { eviction(d).await }).steps(80_000));
    let n = if thorough { 6 } else { 5 };
    v.push(Scenario::new("undetermined", (0, 0), move || async move { undetermined(n).await }).steps(200_000));
    v.push(Scenario::new("checking", (2, 3), || async { checking().await }));
}

// ------------------------------------------------------------------------------------------------------------- M09

#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Users,
    Brokers,
    Heartbeat,
    Others,
    Whitelist,
}

/// An essential part ends
async fn essential(part: Part) {
    vmc::deadline(Some(S(900)));
    vmc::allow_panics(true);
    let mut m = mesh(2).await;
    let mut u = login(1, 1, &[0]).await;
    vmc::explore(true);
    let busy = vmc::choose(3, "idle, a user connects, a user talks");
    let mut p = None;
    match busy {
        1 => p = Peer::connect(pub_port(1)).await,
        2 => u.direct(1, b"x"),
        _ => {}
    }
    match part {
        Part::Users => sim::accept_error(pub_port(1)),
        Part::Brokers => sim::accept_error(priv_port(1)),
        Part::Heartbeat => set_fault(&ident(1).to_string(), Op::Heartbeat, Some(Fault::Panic)),
        Part::Others => set_fault(&ident(1).to_string(), Op::Others, Some(Fault::Panic)),
        Part::Whitelist => set_fault(&ident(1).to_string(), Op::CheckWhitelist, Some(Fault::Panic)),
    }
    vmc::settle().await;
    vmc::explore(false);
    let _ = p;
    let stopped = until(S(if part == Part::Whitelist { 62 } else { 11 }), || !m[0].running()).await;
    ensure!(stopped, "limping", "{part:?} has ended and the broker runs on");
    let n0 = m.remove(0);
    let r = n0.h.await;
    // (where the part ends with a panic, that may be what ends the broker)
    let panics = !matches!(part, Part::Users | Part::Brokers);
    ensure!(matches!(r, Ok(Err(_))) || panics && r.is_err(), "result", "{part:?}: {r:?}");
    vmc::settle().await;
    ensure!(!sim::listening(pub_port(1)), "listening", "{part:?}: for users");
    ensure!(!sim::listening(priv_port(1)), "listening", "{part:?}: for brokers");
    // It no longer registers
    let beats = |n: u16| events(Op::Heartbeat).iter().filter(|e| e.node == ident(n).to_string()).count();
    let (b1, b2) = (beats(1), beats(2));
    set_fault(&ident(1).to_string(), Op::Heartbeat, None);
    vmc::sleep(S(61)).await;
    vmc::settle().await;
    ensure!(beats(1) == b1, "registers", "{part:?}: after the end");
    ensure!(beats(2) > b2 && m[0].running(), "other", "{part:?}: broker 2");
    vmc::take_panics();
    vmc::cover("stopped");
}

/// Nothing that happens to single connections or to discovery ends a broker
async fn robust(depth: usize) {
    vmc::deadline(Some(S(3600)));
    store(|s| s.latency = MS(5));
    let m = mesh(2).await;
    let mut ctx = String::new();
    let mut keep = vec![];
    for _ in 0..depth {
        vmc::explore(true);
        let act = vmc::choose(12, "act");
        vmc::explore(false);
        ctx += &format!("{act} ");
        match act {
            0 | 1 => {
                let op = pick_fault(act);
                set_fault("", op.0, Some(op.1));
            }
            2 => {
                for op in [Op::Heartbeat, Op::Others, Op::Validate, Op::CheckWhitelist] {
                    set_fault("", op, Some(Fault::Stall));
                }
            }
            3 => {
                let mut p = Peer::connect(pub_port(1)).await.expect("connect");
                p.send_frame(&[0xff; 9]);
                keep.push(p);
            }
            4 => {
                let mut p = Peer::connect(priv_port(1)).await.expect("connect");
                p.send_bytes(&[0xff; 9]);
                keep.push(p);
            }
            5 => keep.push(Peer::connect(pub_port(1)).await.expect("connect")),
            6 => keep.push(Peer::connect(priv_port(1)).await.expect("connect")),
            7 => {
                for (_, c) in links(1, 2) {
                    c.cut();
                }
            }
            8 => {
                let p = Peer::connect(pub_port(1)).await.expect("connect");
                p.conn.cut();
            }
            9 => {
                let mut p = Peer::connect(pub_port(1)).await.expect("connect");
                p.send(&auth_permit(permit(1, 1)));
                p.send(&Message::TopicSync(vec![9]));
                keep.push(p);
            }
            10 => {
                if let Some(mut f) = fake_in(1, "127.0.0.1:1500/127.0.0.1:2500").await {
                    f.send(&Message::UserSync(vec![1, 2, 3]));
                    keep.push(f.p);
                }
            }
            _ => {
                for op in [Op::Heartbeat, Op::Others, Op::Validate, Op::CheckWhitelist] {
                    set_fault("", op, None);
                }
            }
        }
        vmc::sleep(S(13)).await;
        vmc::settle().await;
        for n in &m {
            ensure!(n.running(), "ended", "broker {}: {ctx}", n.n);
        }
    }
    for op in [Op::Heartbeat, Op::Others, Op::Validate, Op::CheckWhitelist] {
        set_fault("", op, None);
    }
    vmc::sleep(S(62)).await;
    vmc::settle().await;
    for n in &m {
        ensure!(n.running(), "ended", "broker {}: {ctx}", n.n);
    }
    meshed(&[1, 2], &ctx).await;
    vmc::cover("runs on");
}
fn pick_fault(act: usize) -> (Op, Fault) {
    if act == 0 {
        (Op::Heartbeat, Fault::Fail)
    } else {
        (Op::Others, Fault::Fail)
    }
}

fn m09(thorough: bool, v: &mut Vec<Scenario>) {
    for p in [Part::Users, Part::Brokers, Part::Heartbeat, Part::Others, Part::Whitelist] {
        v.push(Scenario::new(format!("{p:?} ends"), (1, 2), move || async move { essential(p).await }));
    }
    let d = if thorough { 5 } else { 3 };
    v.push(Scenario::new(format!("robust, {d} events"), (0, 0), move || async move { robust(d).await }).steps(200_000));
}
