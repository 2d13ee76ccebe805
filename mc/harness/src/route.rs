//! R*: routing.
use std::collections::{BTreeMap, BTreeSet};

use anyhow::anyhow;
use cdn_proto::def::HookResult;
use cdn_proto::message::Message;
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{HOOK, HOOK_LOG, VALID_TOPICS};
use crate::ensure;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "R01" => r01(thorough, v),
        "R02" => r02(thorough, v),
        "R03" => r03(thorough, v),
        "R04" => r04(thorough, v),
        "R05" => r05(thorough, v),
        "R06" => r06(thorough, v),
        _ => {}
    }
}

/// Waits until everything has been delivered
async fn quiesce() {
    vmc::settle().await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
}

// ------------------------------------------------------------------------------------------------------------- R01

/// Every user sends a direct message to every user (itself and an absent one included)
async fn all_pairs(users: &mut [User], tag: u8, sizes: &[usize]) {
    let keys: Vec<u64> = users.iter().map(|u| u.key).collect();
    let at: Vec<u16> = users.iter().map(|u| u.b).collect();
    for i in 0..users.len() {
        for (j, to) in keys.iter().copied().chain([77]).enumerate() {
            for n in sizes {
                let m = body(tag.wrapping_add((i * 16 + j) as u8), *n);
                users[i].direct(to, &m);
                quiesce().await;
                for (k, u) in users.iter_mut().enumerate() {
                    let got = u.take();
                    let want = if keys[k] == to { vec![direct(to, &m)] } else { vec![] };
                    ensure!(
                        got == want,
                        if keys[k] != to { "misrouted" } else if got.is_empty() { "lost" } else if got.len() > 1 { "duplicated" } else { "changed" },
                        "user {} at broker {} sent {} bytes to user {to}; user {} at broker {} received {} messages",
                        keys[i], at[i], n, keys[k], at[k], got.len()
                    );
                }
                vmc::cases(1);
            }
        }
    }
    for u in users.iter_mut() {
        ensure!(!u.closed(), "closed", "the session of user {} at broker {} ended", u.key, u.b);
    }
}

/// Users at any brokers, connected before or after the brokers are linked
async fn placements(brokers: u16, users: u64, sizes: &'static [usize]) {
    vmc::deadline(Some(S(600)));
    vmc::explore(true);
    let early = vmc::choose(2, "users connect first") == 1;
    let place: Vec<u16> = (0..users).map(|i| 1 + vmc::choose(brokers as usize, if i == 0 { "first at" } else { "next at" }) as u16).collect();
    vmc::explore(false);
    let mut us = vec![];
    let _m;
    if early {
        let mut v = vec![];
        for i in 1..=brokers {
            v.push(start_broker(i).await);
        }
        for (i, b) in place.iter().enumerate() {
            us.push(login(*b, i as u64 + 1, &[0, 1]).await);
        }
        exchange().await;
        _m = v;
    } else {
        _m = mesh(brokers).await;
        for (i, b) in place.iter().enumerate() {
            us.push(login(*b, i as u64 + 1, &[0, 1]).await);
        }
        vmc::settle().await;
    }
    all_pairs(&mut us, 1, sizes).await;
    vmc::cover("all pairs");
}

/// Messages in flight at the same time, under all schedules: each arrives exactly once
async fn crossing(brokers: u16) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    let mut us = vec![];
    for (i, b) in [1u16, brokers, 1].iter().enumerate() {
        us.push(login(*b, i as u64 + 1, &[]).await);
    }
    vmc::settle().await;
    vmc::explore(true);
    let sends: &[(usize, u64)] = &[(0, 2), (1, 1), (2, 2), (0, 3), (1, 2), (2, 1)];
    let mut want: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    for (n, (from, to)) in sends.iter().enumerate() {
        let m = vec![n as u8; n];
        us[*from].direct(*to, &m);
        want.entry(*to).or_default().push(m);
        if n == 2 {
            tokio::task::yield_now().await;
        }
    }
    quiesce().await;
    for u in &mut us {
        let mut got: Vec<_> = u.take().iter().map(payload).collect();
        let order = got.clone();
        got.sort();
        let mut w = want.remove(&u.key).unwrap_or_default();
        w.sort();
        ensure!(got == w, "exactly once", "user {} received {order:?}", u.key);
        vmc::outcome(order.iter().fold(u.key, |a, m| a * 31 + m.len() as u64));
    }
    vmc::cover("crossed");
}

/// Connects, disconnects and reconnects before settling; then everybody is reachable where it is
async fn after_history(brokers: u16, depth: usize) {
    vmc::deadline(Some(S(2000)));
    let _m = mesh(brokers).await;
    vmc::explore(true);
    let mut at: Vec<Option<User>> = vec![None, None];
    for _ in 0..depth {
        // the user goes to a broker, or leaves; it is settled after each step (moves without are M03's)
        let k = vmc::choose(2, "user");
        let to = vmc::choose(brokers as usize + 1, "to");
        vmc::explore(false);
        if let Some(mut u) = at[k].take() {
            u.close();
            exchange().await;
        }
        if to > 0 {
            at[k] = Some(login(to as u16, k as u64 + 1, &[]).await);
        }
        exchange().await;
        vmc::explore(true);
    }
    vmc::explore(false);
    let mut us = vec![];
    for u in at.into_iter().flatten() {
        us.push(u);
    }
    let mut watcher = vec![];
    for b in 1..=brokers {
        watcher.push(login(b, 50 + u64::from(b), &[]).await);
    }
    us.extend(watcher);
    exchange().await;
    all_pairs(&mut us, 5, &[3]).await;
    for k in [1, 2] {
        if us.iter().all(|u| u.key != k) {
            for i in 0..us.len() {
                us[i].direct(k, &[1]);
                quiesce().await;
                for u in &mut us {
                    ensure!(u.take().is_empty(), "misrouted", "a message to the absent user {k} arrived at user {}", u.key);
                }
            }
        }
    }
    vmc::cover("history");
}

fn r01(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("placements one", (0, 1), || async { placements(1, 3, &[0, 1, 5000]).await }));
    v.push(Scenario::new("placements two", (0, 1), || async { placements(2, 3, &[0, 1, 5000]).await }));
    v.push(Scenario::new("placements three", (0, 0), || async { placements(3, 4, &[2]).await }));
    v.push(Scenario::new("crossing one", (1, 2), || async { crossing(1).await }));
    v.push(Scenario::new("crossing two", (2, 3), || async { crossing(2).await }));
    let d = if thorough { 4 } else { 2 };
    v.push(Scenario::new("history two", (0, 0), move || async move { after_history(2, d + 1).await }));
    v.push(Scenario::new("history three", (0, 0), move || async move { after_history(3, d).await }));
}

// ------------------------------------------------------------------------------------------------------------- R02

const SUBS: [&[u8]; 4] = [&[], &[0], &[1, 0], &[1]];
const LISTS: [&[u8]; 8] = [&[0], &[1], &[0, 1], &[0, 0], &[0, 1, 0, 1], &[9, 0], &[1, 9, 1, 77, 9], &[2, 130]];

fn interested(subs: &BTreeSet<u8>, list: &[u8]) -> bool {
    list.iter().any(|t| VALID_TOPICS.contains(t) && subs.contains(t))
}

async fn probe(us: &mut [User], subs: &[BTreeSet<u8>], senders: &[usize], lists: &[&[u8]]) {
    for (n, s) in senders.iter().enumerate() {
        for (i, list) in lists.iter().enumerate() {
            let m = body((n * 8 + i) as u8, 5 + i);
            us[*s].broadcast(list, &m);
            quiesce().await;
            for (k, u) in us.iter_mut().enumerate() {
                let got = u.take();
                let want = if interested(&subs[k], list) { vec![broadcast(list, &m)] } else { vec![] };
                ensure!(
                    got == want,
                    if want.is_empty() { "not subscribed" } else if got.is_empty() { "lost" } else if got.len() > 1 { "duplicated" } else { "changed" },
                    "sender {s}, topics {list:?}: user {k} at broker {} subscribed to {:?} received {}",
                    u.b, subs[k], got.len()
                );
            }
            vmc::cases(1);
        }
    }
    for u in us.iter_mut() {
        ensure!(!u.closed(), "closed", "the session of user {} ended", u.key);
    }
}

/// Every placement and subscription of the users, every topic list
async fn patterns(brokers: u16, users: u64, how: &[&str], all_senders: bool) {
    vmc::deadline(Some(S(3000)));
    vmc::explore(true);
    let how = pick("subscribed", how);
    let mut cfg = vec![];
    for i in 0..users {
        // the brokers are interchangeable up to the order of their names
        let b = 1 + vmc::choose(if i == 0 && brokers == 1 { 1 } else { brokers as usize }, "at") as u16;
        let s = pick("topics", &SUBS);
        cfg.push((b, s));
    }
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = vec![];
    for (i, (b, s)) in cfg.iter().enumerate() {
        let mut u = login(*b, i as u64 + 1, if how == "at login" { s } else { &[] }).await;
        if how == "later" && !s.is_empty() {
            u.subscribe(s);
        }
        us.push(u);
    }
    exchange().await;
    let subs: Vec<BTreeSet<u8>> = cfg.iter().map(|(_, s)| s.iter().copied().collect()).collect();
    let senders: Vec<usize> = if all_senders { (0..us.len()).collect() } else { vec![0] };
    probe(&mut us, &subs, &senders, &LISTS).await;
    vmc::cover("probed");
}

/// Broadcasts in flight at the same time, under all schedules
async fn concurrent_broadcasts(brokers: u16) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    let cfg: [(u16, &[u8]); 4] = [(1, &[0]), (brokers, &[0, 1]), (1, &[1]), (brokers.min(2), &[])];
    let mut us = vec![];
    for (i, (b, s)) in cfg.iter().enumerate() {
        us.push(login(*b, i as u64 + 1, s).await);
    }
    exchange().await;
    vmc::explore(true);
    let sends: [(usize, &[u8]); 4] = [(0, &[0, 1]), (1, &[1]), (2, &[0, 0]), (3, &[1, 9])];
    for (n, (from, t)) in sends.iter().enumerate() {
        us[*from].broadcast(t, &[n as u8; 4]);
        if n == 1 {
            tokio::task::yield_now().await;
        }
    }
    quiesce().await;
    for (k, u) in us.iter_mut().enumerate() {
        let mut got: Vec<_> = u.take().iter().map(|m| payload(m)[0]).collect();
        let order = got.clone();
        got.sort_unstable();
        let s: BTreeSet<u8> = cfg[k].1.iter().copied().collect();
        let want: Vec<u8> = (0..4u8).filter(|n| interested(&s, sends[*n as usize].1)).collect();
        ensure!(got == want, "exactly once", "user {k} received {order:?}, not {want:?}");
        vmc::outcome(order.iter().fold(k as u64, |a, m| a * 7 + *m as u64 + 1));
    }
    vmc::cover("concurrent");
}

/// Changing subscriptions while broadcasts are under way affects nobody else's delivery
async fn changing(brokers: u16) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    let mut a = login(1, 1, &[0]).await;
    let mut b = login(brokers, 2, &[0]).await;
    let mut c = login(brokers, 3, &[0, 1]).await;
    exchange().await;
    vmc::explore(true);
    let what = vmc::choose(4, "change");
    for n in 0..3u8 {
        a.broadcast(&[0], &[n]);
        if n == 1 {
            match what {
                0 => c.unsubscribe(&[0]),
                1 => c.unsubscribe(&[1]),
                2 => c.subscribe(&[0, 2]),
                _ => c.close(),
            }
        }
        tokio::task::yield_now().await;
    }
    quiesce().await;
    for u in [&mut a, &mut b] {
        let got: Vec<_> = u.take().iter().map(payload).collect();
        ensure!(got == vec![vec![0], vec![1], vec![2]], "others", "user {} received {got:?}", u.key);
    }
    if what == 1 || what == 2 {
        let got: Vec<_> = c.take().iter().map(payload).collect();
        ensure!(got == vec![vec![0], vec![1], vec![2]], "unrelated change", "user 3 received {got:?}");
    }
    // and it is settled afterwards
    vmc::explore(false);
    exchange().await;
    a.broadcast(&[0], &[9]);
    quiesce().await;
    let n = c.take().iter().filter(|m| payload(m) == [9]).count();
    ensure!(n == usize::from(what == 1 || what == 2), "settled", "after change {what} user 3 received {n}");
}

fn r02(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("patterns one", (0, 0), || async { patterns(1, 3, &["at login", "later"], true).await }));
    v.push(Scenario::new("patterns two", (0, 0), || async { patterns(2, 3, &["at login", "later"], true).await }));
    if thorough {
        v.push(Scenario::new("patterns three", (0, 0), || async { patterns(3, 3, &["at login", "later"], true).await }));
        v.push(Scenario::new("patterns two, four users", (0, 0), || async { patterns(2, 4, &["at login"], false).await }));
    } else {
        v.push(Scenario::new("patterns three", (0, 0), || async { patterns(3, 3, &["later"], false).await }));
    }
    v.push(Scenario::new("concurrent one", (1, 2), || async { concurrent_broadcasts(1).await }).seeds(2, 4));
    v.push(Scenario::new("concurrent two", (1, 2), || async { concurrent_broadcasts(2).await }).seeds(2, 4));
    v.push(Scenario::new("concurrent three", (1, 1), || async { concurrent_broadcasts(3).await }).seeds(2, 4));
    v.push(Scenario::new("changing one", (1, 2), || async { changing(1).await }));
    v.push(Scenario::new("changing two", (1, 2), || async { changing(2).await }));
}

// ------------------------------------------------------------------------------------------------------------- R03

/// A mix of direct messages and broadcasts from one or two senders arrives in order
async fn order(brokers: u16, len: usize, two: bool, segs: &[usize]) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    vmc::explore(true);
    let place = vmc::choose(brokers as usize, "recipient at") as u16 + 1;
    let mix: Vec<usize> = (0..len).map(|_| vmc::choose(2, "direct, broadcast")).collect();
    let seg = pick("segment", segs);
    vmc::explore(false);
    let mut a = login(1, 1, &[]).await;
    let mut c = login(brokers, 3, &[0]).await;
    let mut b = login(place, 2, &[0]).await;
    exchange().await;
    for k in sim::conns() {
        for d in 0..2 {
            k.with(d, |h| h.segment = seg);
        }
    }
    vmc::explore(true);
    let mut n_b = 0;
    for (i, k) in mix.iter().enumerate() {
        // messages of different sizes, the big ones first
        let size = if i % 2 == 0 { 40 } else { 1 };
        let mut m = vec![i as u8; size];
        m[0] = i as u8;
        if *k == 0 {
            a.direct(2, &m);
        } else {
            a.broadcast(&[0], &m);
            n_b += 1;
        }
        if two {
            c.direct(2, &[100 + i as u8]);
        }
        if i == 1 {
            tokio::task::yield_now().await;
        }
    }
    quiesce().await;
    let got: Vec<u8> = b.take().iter().map(|m| payload(m)[0]).collect();
    let from_a: Vec<u8> = got.iter().copied().filter(|m| *m < 100).collect();
    let from_c: Vec<u8> = got.iter().copied().filter(|m| *m >= 100).collect();
    ensure!(from_a == (0..len as u8).collect::<Vec<_>>(), "order", "{mix:?}, recipient at {place}: received {got:?}");
    if two {
        ensure!(from_c == (100..100 + len as u8).collect::<Vec<_>>(), "order", "second sender: {got:?}");
    }
    let gc: Vec<u8> = c.take().iter().map(|m| payload(m)[0]).collect();
    ensure!(gc.len() == n_b && gc.windows(2).all(|w| w[0] < w[1]), "order", "the other subscriber: {gc:?}");
    vmc::outcome(got.iter().fold(0, |a, m| a * 3 + u64::from(*m >= 100)));
    vmc::cover("in order");
}

/// Many messages through small buffers
async fn backlog(brokers: u16) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    let mut a = login(1, 1, &[]).await;
    let mut b = login(brokers, 2, &[0]).await;
    exchange().await;
    for k in sim::conns() {
        for d in 0..2 {
            k.with(d, |h| h.cap = 300);
        }
    }
    vmc::explore(true);
    let mut want = vec![];
    for i in 0..12u8 {
        let m = vec![i; 1 + 37 * (i as usize % 5)];
        if i % 3 == 0 {
            a.broadcast(&[0, 1], &m);
        } else {
            a.direct(2, &m);
        }
        want.push(m);
        if i % 4 == 3 {
            vmc::settle().await;
            a.p.flush();
        }
    }
    let mut got = vec![];
    for _ in 0..200 {
        a.p.flush();
        vmc::settle().await;
        got.extend(b.take().iter().map(payload));
        if got.len() >= want.len() {
            break;
        }
    }
    ensure!(got == want, "order", "received {} of {}: {:?}", got.len(), want.len(), got.iter().map(|m| m[0]).collect::<Vec<_>>());
    vmc::cover("in order");
}

fn r03(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("order one", (1, 2), || async { order(1, 4, false, &[0]).await }));
    v.push(Scenario::new("order two", (1, 2), || async { order(2, 4, false, &[0, 13]).await }));
    v.push(Scenario::new("order two senders", (1, 2), || async { order(2, 3, true, &[0]).await }));
    if thorough {
        v.push(Scenario::new("order three", (1, 2), || async { order(3, 3, true, &[0]).await }));
    }
    v.push(Scenario::new("order deep", (2, 3), || async { order(1, 2, true, &[0]).await }));
    v.push(Scenario::new("backlog one", (1, 2), || async { backlog(1).await }));
    v.push(Scenario::new("backlog two", (1, 2), || async { backlog(2).await }));
}

// ------------------------------------------------------------------------------------------------------------- R04

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    Sub(&'static [u8]),
    Unsub(&'static [u8]),
    Bc(&'static [u8]),
    Reconnect(&'static [u8]),
}
const REQS: [Req; 14] = [
    Req::Sub(&[0]),
    Req::Sub(&[1, 0, 1]),
    Req::Unsub(&[0]),
    Req::Unsub(&[2, 1]),
    Req::Sub(&[9, 2]),
    Req::Unsub(&[77, 0, 0]),
    Req::Sub(&[130]),
    Req::Reconnect(&[1]),
    Req::Reconnect(&[9, 0, 9]),
    Req::Reconnect(&[]),
    Req::Sub(&[]),
    Req::Unsub(&[9]),
    Req::Bc(&[9, 77]),
    Req::Bc(&[2]),
];

/// Every history of requests by two users; a third one at the same or another broker broadcasts to each topic
async fn histories(brokers: u16, depth: usize, users: usize, each: bool, reqs: &'static [Req]) {
    vmc::deadline(Some(S(3000)));
    let _m = mesh(brokers).await;
    let mut prober = login(brokers, 50, &[]).await;
    vmc::explore(true);
    let first = pick("opening", &[&[][..], &[0], &[9, 1, 1]]);
    let valid = |l: &[u8]| l.iter().copied().filter(|t| VALID_TOPICS.contains(t)).collect::<BTreeSet<u8>>();
    let mut us = vec![];
    let mut subs: Vec<Option<BTreeSet<u8>>> = vec![];
    for k in 0..users {
        us.push(login(1, k as u64 + 1, first).await);
        subs.push(Some(valid(first)));
    }
    let mut hist = vec![];
    for step in 0..depth {
        let k = vmc::choose(users, "user");
        let r = pick("request", reqs);
        hist.push((k, r));
        let ends = |l: &[u8]| valid(l).is_empty();
        match r {
            Req::Reconnect(l) => {
                us[k].close();
                quiesce().await;
                us[k] = login(1, k as u64 + 1, l).await;
                subs[k] = Some(valid(l));
            }
            _ if subs[k].is_none() => {}
            Req::Sub(l) => {
                us[k].subscribe(l);
                if ends(l) {
                    subs[k] = None;
                } else {
                    subs[k].as_mut().unwrap().extend(valid(l));
                }
            }
            Req::Unsub(l) => {
                us[k].unsubscribe(l);
                if ends(l) {
                    subs[k] = None;
                } else {
                    for t in valid(l) {
                        subs[k].as_mut().unwrap().remove(&t);
                    }
                }
            }
            Req::Bc(l) => {
                us[k].broadcast(l, &[1]);
                if ends(l) {
                    subs[k] = None;
                }
            }
        }
        vmc::settle().await;
        for u in &mut us {
            u.take();
        }
        if each || step + 1 == depth {
            if brokers > 1 {
                exchange().await;
            }
            for (k, u) in us.iter_mut().enumerate() {
                ensure!(u.closed() == subs[k].is_none(), "session", "{hist:?} after opening with {first:?}: session of user {k} closed: {}", u.closed());
            }
            for t in VALID_TOPICS {
                prober.broadcast(&[t], &[t, step as u8]);
                quiesce().await;
                for (k, u) in us.iter_mut().enumerate() {
                    let got = u.take().iter().filter(|m| payload(m) == [t, step as u8]).count();
                    let want = usize::from(subs[k].as_ref().is_some_and(|s| s.contains(&t)));
                    ensure!(got == want, "subscription", "{hist:?} after opening with {first:?}: user {k} received {got} broadcasts to topic {t}, not {want}");
                }
                ensure!(prober.take().is_empty(), "not subscribed", "the broadcaster received something");
                vmc::cases(1);
            }
        }
    }
    vmc::cover("history");
}

/// Requests of one session take effect in order even when they arrive together, under all schedules
async fn pipelined() {
    vmc::deadline(Some(S(300)));
    let _m = mesh(1).await;
    let mut p = login(1, 50, &[]).await;
    let mut u = login(1, 1, &[1]).await;
    let mut w = login(1, 2, &[0, 1]).await;
    vmc::explore(true);
    let seqs: &[&[Req]] = &[
        &[Req::Sub(&[0]), Req::Unsub(&[0]), Req::Sub(&[0, 2])],
        &[Req::Unsub(&[1]), Req::Sub(&[1]), Req::Unsub(&[1, 0])],
        &[Req::Sub(&[0]), Req::Unsub(&[1]), Req::Unsub(&[2])],
    ];
    let s = pick("sequence", seqs);
    let mut want: BTreeSet<u8> = [1].into();
    for r in s {
        match r {
            Req::Sub(l) => {
                u.subscribe(l);
                want.extend(l.iter());
            }
            Req::Unsub(l) => {
                u.unsubscribe(l);
                l.iter().for_each(|t| {
                    want.remove(t);
                });
            }
            _ => {}
        }
    }
    p.broadcast(&[1], &[200]);
    w.unsubscribe(&[1]);
    quiesce().await;
    u.take();
    w.take();
    for t in [0u8, 1, 2] {
        p.broadcast(&[t], &[t]);
        quiesce().await;
        let got = u.take().len();
        ensure!(got == usize::from(want.contains(&t)), "subscription", "{s:?}: {got} for topic {t}");
        let got = w.take().len();
        ensure!(got == usize::from(t == 0), "other session", "{got} for topic {t}");
    }
}

fn r04(thorough: bool, v: &mut Vec<Scenario>) {
    let d = usize::from(thorough);
    v.push(Scenario::new("histories one user", (0, 0), move || async move { histories(1, 3 + d, 1, true, &REQS).await }));
    v.push(Scenario::new("histories two users", (0, 0), move || async move { histories(1, 2 + d, 2, true, &REQS).await }));
    v.push(Scenario::new("histories two users, long", (0, 0), move || async move { histories(1, 4 + d, 2, true, &REQS[..3]).await }));
    v.push(Scenario::new("histories two brokers", (0, 0), move || async move { histories(2, 2 + d, 1, true, &REQS).await }));
    v.push(Scenario::new("histories two brokers, two users", (0, 0), move || async move { histories(2, 3 + d, 2, true, &REQS[..4]).await }));
    v.push(Scenario::new("pipelined", (2, 3), || async { pipelined().await }));
}

// ------------------------------------------------------------------------------------------------------------- R05

/// Verdict by content: the payload of a message (or the last topic of a request) says what the hook does
fn verdict(_broker: bool, _id: u64, m: &mut Message) -> anyhow::Result<HookResult> {
    let v = match m {
        Message::Direct(d) => d.message.first().copied(),
        Message::Broadcast(b) => b.message.first().copied(),
        Message::Subscribe(t) | Message::Unsubscribe(t) => match t.last() {
            Some(2) => Some(1),
            Some(130) => Some(2),
            _ => Some(0),
        },
        _ => None,
    };
    match v {
        Some(1) => Ok(HookResult::SkipMessage),
        Some(2) => Err(anyhow!("no")),
        _ => Ok(HookResult::ProcessMessage),
    }
}

/// Sequences of messages of two users with every verdict; the effects are exactly those of the processed ones
async fn user_hooks(depth: usize, users: usize) {
    vmc::deadline(Some(S(300)));
    HOOK_LOG.with(|l| l.borrow_mut().clear());
    HOOK.with(|h| *h.borrow_mut() = Some(verdict));
    let _m = mesh(1).await;
    let mut us = vec![];
    for k in 0..users {
        us.push(login(1, k as u64 + 1, &[0]).await);
    }
    let mut sink = login(1, 50, &[1]).await;
    vmc::explore(true);
    let mut open = vec![true; users];
    let mut subs: Vec<BTreeSet<u8>> = vec![[0].into(); users];
    let mut shown: Vec<Vec<Message>> = vec![vec![]; users];
    for i in 0..depth {
        let k = vmc::choose(users, "user");
        let kind = vmc::choose(3, "kind");
        let verdict = vmc::choose(3, "verdict") as u8;
        let m = match kind {
            0 => direct(50, &[verdict, i as u8]),
            1 => broadcast(&[1], &[verdict, i as u8]),
            _ => Message::Subscribe(vec![1, [0, 2, 130][verdict as usize]]),
        };
        us[k].send(&m);
        vmc::settle().await;
        let got = sink.take();
        if open[k] {
            shown[k].push(m.clone());
        }
        let runs = open[k] && verdict == 0;
        if open[k] && verdict == 2 {
            open[k] = false;
        }
        if kind < 2 {
            ensure!(got.len() == usize::from(runs), "effect", "verdict {verdict} of an open={} session: {} messages came through", open[k], got.len());
            if runs {
                ensure!(got[0] == m, "effect", "the message was changed");
            }
        } else if runs {
            subs[k].insert(1);
        }
        for (j, u) in us.iter_mut().enumerate() {
            ensure!(u.closed() == !open[j], "session", "user {j} closed: {} after verdict {verdict} for user {k}", u.closed());
            let n = u.take().len();
            let want = usize::from(open[j] && runs && kind == 1 && subs[j].contains(&1));
            ensure!(n == want, "others", "user {j} received {n}");
        }
    }
    // what was skipped has had no effect on the subscriptions
    sink.broadcast(&[1], &[0, 99]);
    sink.broadcast(&[2], &[0, 98]);
    vmc::settle().await;
    for (j, u) in us.iter_mut().enumerate() {
        let n = u.take().len();
        ensure!(n == usize::from(open[j] && subs[j].contains(&1)), "skipped request", "user {j} received {n}");
    }
    // each connection has its own hook, which sees its messages once and in order
    let logs = HOOK_LOG.with(|l| l.borrow().clone());
    let mut by: BTreeMap<u64, Vec<(u64, Message)>> = BTreeMap::new();
    for (broker, id, calls, m) in logs {
        ensure!(!broker, "wrong hook", "the broker hook was called for a user");
        by.entry(id).or_default().push((calls, m));
    }
    for (k, s) in shown.iter().enumerate() {
        if s.is_empty() {
            continue;
        }
        let n = by.values().filter(|l| l.iter().map(|x| &x.1).eq(s.iter())).count();
        ensure!(n >= 1, "shown", "user {k}'s messages were not shown once and in order to one hook: {by:?}");
    }
    for (id, l) in &by {
        ensure!(l.iter().enumerate().all(|(i, x)| x.0 == i as u64), "shared state", "hook {id:x} was called by others: {l:?}");
    }
    HOOK.with(|h| *h.borrow_mut() = None);
    vmc::cover("hooks");
}

/// Identifiers of peers: the same for the same user at any connection, different for different users
async fn identifiers() {
    vmc::deadline(Some(S(300)));
    HOOK_LOG.with(|l| l.borrow_mut().clear());
    HOOK.with(|h| *h.borrow_mut() = Some(|_, _, _| Ok(HookResult::ProcessMessage)));
    let _m = mesh(2).await;
    vmc::explore(true);
    let mut ids = vec![];
    for (b, k) in [(1u16, 1u64), (1, 2), (2, 1), (1, 1), (2, 2)] {
        let mut u = login(b, k, &[0]).await;
        HOOK_LOG.with(|l| l.borrow_mut().clear());
        u.direct(99, &[1]);
        u.direct(99, &[2]);
        vmc::settle().await;
        let l: Vec<_> = HOOK_LOG.with(|l| l.borrow().iter().filter(|x| !x.0).map(|x| (x.1, x.2)).collect());
        ensure!(l.len() == 2 && l[0].0 == l[1].0, "shown", "{l:?}");
        ensure!(l[0].1 == 0 && l[1].1 == 1, "shared state", "{l:?}");
        ids.push((k, l[0].0));
        u.close();
        exchange().await;
    }
    for a in &ids {
        for b in &ids {
            ensure!((a.0 == b.0) == (a.1 == b.1), "identifier", "{ids:?}");
        }
    }
    HOOK.with(|h| *h.borrow_mut() = None);
}

/// The hook for brokers sees what a peer broker sends, and its error ends that link only
async fn broker_hooks(depth: usize) {
    vmc::deadline(Some(S(300)));
    HOOK_LOG.with(|l| l.borrow_mut().clear());
    HOOK.with(|h| *h.borrow_mut() = Some(verdict));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    let mut fakes = vec![];
    for id in ["127.0.0.1:1/127.0.0.1:2", "127.0.0.1:1/127.0.0.1:4"] {
        match fake_in(1, id).await {
            Some(f) => fakes.push(f),
            None => vmc::fail("setup", "the broker does not accept the peer"),
        }
    }
    vmc::settle().await;
    HOOK_LOG.with(|l| l.borrow_mut().clear());
    vmc::explore(true);
    let mut open = [true; 2];
    let mut shown: Vec<Vec<Message>> = vec![vec![]; 2];
    for i in 0..depth {
        let k = vmc::choose(2, "broker");
        let kind = vmc::choose(2, "kind");
        let verdict = vmc::choose(3, "verdict") as u8;
        let m = if kind == 0 { direct(1, &[verdict, i as u8]) } else { broadcast(&[0], &[verdict, i as u8]) };
        fakes[k].send(&m);
        vmc::settle().await;
        if open[k] {
            shown[k].push(m.clone());
        }
        let runs = open[k] && verdict == 0;
        if open[k] && verdict == 2 {
            open[k] = false;
        }
        let got = u.take();
        ensure!(got.len() == usize::from(runs), "effect", "verdict {verdict}: {} messages came through", got.len());
        for (j, f) in fakes.iter_mut().enumerate() {
            ensure!(f.closed() == !open[j], "link", "link {j} closed: {} after verdict {verdict} for link {k}", f.closed());
        }
        ensure!(!u.closed(), "user", "the user's session ended");
    }
    let logs = HOOK_LOG.with(|l| l.borrow().clone());
    let mut by: BTreeMap<u64, Vec<Message>> = BTreeMap::new();
    for (broker, id, _, m) in logs {
        ensure!(broker, "wrong hook", "the user hook was called for a broker");
        by.entry(id).or_default().push(m);
    }
    for (k, s) in shown.iter().enumerate() {
        ensure!(s.is_empty() || by.values().any(|l| l == s), "shown", "broker {k}: {by:?}");
    }
    HOOK.with(|h| *h.borrow_mut() = None);
    vmc::cover("broker hooks");
}

fn r05(thorough: bool, v: &mut Vec<Scenario>) {
    let d = usize::from(thorough);
    v.push(Scenario::new("user hooks", (0, 0), move || async move { user_hooks(3 + d, 1).await }));
    v.push(Scenario::new("user hooks two users", (0, 0), move || async move { user_hooks(3, 2).await }));
    v.push(Scenario::new("user hooks schedules", (1, 1), move || async move { user_hooks(2, 2).await }));
    v.push(Scenario::new("identifiers", (0, 1), || async { identifiers().await }).seeds(2, 4));
    v.push(Scenario::new("broker hooks", (0, 0), move || async move { broker_hooks(3 + d).await }));
}

// ------------------------------------------------------------------------------------------------------------- R06

/// A user sends what only nodes may send: its session ends, and nothing else happens anywhere
async fn foreign(brokers: u16) {
    vmc::deadline(Some(S(600)));
    let _m = mesh(brokers).await;
    // genuine synchronisation messages to replay: what broker 1 tells a peer about user 8, who is with it
    let mut bait = login(1, 8, &[2]).await;
    let mut f = fake_in(1, "127.0.0.1:9991/127.0.0.1:9992").await.expect("peer");
    vmc::sleep(S(11)).await;
    vmc::settle().await;
    let seen = f.take();
    let us: Vec<_> = seen.iter().filter(|m| matches!(m, Message::UserSync(_))).cloned().collect();
    let ts: Vec<_> = seen.iter().filter(|m| matches!(m, Message::TopicSync(_))).cloned().collect();
    ensure!(!us.is_empty() && !ts.is_empty(), "setup", "no synchronisation seen: {seen:?}");
    let at = brokers;
    // user 8 has moved to the last broker: the replayed information is outdated or foreign there
    bait.close();
    exchange().await;
    let mut a = login(1, 1, &[0]).await;
    let mut b = login(at, 2, &[0, 1]).await;
    let mut bait = login(at, 8, &[]).await;
    exchange().await;
    f.take();
    vmc::explore(true);
    let attacker_at = vmc::choose(brokers as usize, "attacker at") as u16 + 1;
    let (u0, t0) = (us.last().unwrap().clone(), ts.last().unwrap().clone());
    let bad: Vec<Vec<u8>> = vec![
        u0.serialize().unwrap(),
        t0.serialize().unwrap(),
        Message::UserSync(vec![1, 2, 3]).serialize().unwrap(),
        Message::TopicSync(vec![]).serialize().unwrap(),
        auth_key(3, cdn_proto::crypto::signature::Namespace::UserMarshalAuth, wall()).serialize().unwrap(),
        auth_key(CLUSTER, cdn_proto::crypto::signature::Namespace::BrokerBrokerAuth, wall()).serialize().unwrap(),
        auth_permit(5).serialize().unwrap(),
        auth_response(1, "127.0.0.1:5/127.0.0.1:6").serialize().unwrap(),
        vec![],
        vec![0; 8],
        vec![255; 40],
    ];
    let m = pick("message", &bad);
    let mut x = login(attacker_at, 3, &[0]).await;
    exchange().await;
    f.take();
    x.p.send_frame(&m);
    // what follows in the same breath must not count either
    let follow = vmc::choose(2, "followed by a message") == 1;
    if follow {
        x.direct(1, &[66]);
    }
    quiesce().await;
    ensure!(x.closed(), "still open", "the session survives");
    for u in [&mut a, &mut b, &mut bait] {
        let got = u.take();
        ensure!(got.is_empty(), "effect", "user {} received {got:?}", u.key);
        ensure!(!u.closed(), "effect", "the session of user {} ended", u.key);
    }
    let fg = f.take();
    ensure!(!fg.iter().any(|k| k.serialize().ok().as_deref() == Some(&m[..])), "forwarded", "it was forwarded to a peer broker");
    vmc::explore(false);
    exchange().await;
    // the locations and interests are as before
    for (i, from_b) in [false, true].iter().enumerate() {
        for to in [1u64, 2, 8] {
            let s = if *from_b { &mut b } else { &mut a };
            s.direct(to, &[i as u8, to as u8]);
            quiesce().await;
            for u in [&mut a, &mut b, &mut bait] {
                let got = u.take().len();
                ensure!(got == usize::from(u.key == to), "location", "a message to user {to}: user {} received {got}", u.key);
            }
        }
        for t in [0u8, 1, 2] {
            let s = if *from_b { &mut b } else { &mut a };
            s.broadcast(&[t], &[t]);
            quiesce().await;
            let got = [a.take().len(), b.take().len(), bait.take().len()];
            let want = [usize::from(t == 0), usize::from(t < 2), 0];
            ensure!(got == want, "interest", "topic {t}: {got:?}");
        }
    }
    vmc::cover("rejected");
}

/// What a broker receives from a peer goes to its own users only
async fn one_hop() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(2).await;
    let mut l = login(1, 1, &[0]).await;
    let mut r = login(2, 2, &[0, 1]).await;
    exchange().await;
    let mut f = fake_in(1, "127.0.0.1:9991/127.0.0.1:9992").await.expect("peer");
    let mut f2 = fake_in(1, "127.0.0.1:9993/127.0.0.1:9994").await.expect("peer");
    exchange().await;
    f.take();
    f2.take();
    vmc::explore(true);
    let k = vmc::choose(6, "message");
    let m = match k {
        0 => direct(1, &[1]),
        1 => direct(2, &[1]),
        2 => direct(77, &[1]),
        3 => broadcast(&[0], &[1]),
        4 => broadcast(&[1], &[1]),
        _ => broadcast(&[0, 0, 1], &[1]),
    };
    f.send(&m);
    quiesce().await;
    let (gl, gr) = (l.take(), r.take());
    ensure!(gl.len() == usize::from([0, 3, 5].contains(&k)), "local", "message {k}: the local user received {}", gl.len());
    ensure!(gr.is_empty(), "passed on", "message {k} was passed on to another broker's user");
    let back = f.take().into_iter().chain(f2.take()).filter(|x| !payload(x).is_empty()).count();
    ensure!(back == 0, "passed on", "message {k} was passed on to another broker");
    ensure!(!f.closed(), "link", "the link ended");
    vmc::cover("one hop");
}

fn r06(_thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("foreign one", (0, 1), || async { foreign(1).await }));
    v.push(Scenario::new("foreign two", (1, 2), || async { foreign(2).await }));
    v.push(Scenario::new("foreign three", (0, 1), || async { foreign(3).await }));
    v.push(Scenario::new("one hop", (1, 2), || async { one_hop().await }));
}
