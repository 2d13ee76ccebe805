//! Large configurations: many peers, many messages, large messages, long lists. Each is enumerated over a
//! few shapes rather than over schedules; they reach what only shows beyond a size.
use std::collections::{BTreeMap, BTreeSet};

use anyhow::anyhow;
use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{Listener as _, Protocol};
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::def::HookResult;
use cdn_proto::message::Message;
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{Memory, Tcp, TcpTls, HOOK, HOOK_LOG, VALID_TOPICS, WIRE};
use crate::disc::store;
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    let mut one = |name: &str, s: Scenario| {
        let _ = name;
        v.push(s.steps(20_000_000));
    };
    macro_rules! sc {
        ($name:expr, $f:expr) => {
            one($name, Scenario::new($name, (0, 0), move || async move { $f.await }))
        };
    }
    let n = if thorough { 3 } else { 1 };
    match id {
        "R01" => {
            sc!("crowd", direct_crowd(140 * n));
            sc!("large", direct_large());
            sc!("very long", very_long(false, 66_000 * (n * n * 2 - n) as usize));
            sc!("identical", identical(80 * n as usize, false));
        }
        "R02" => {
            sc!("crowd", broadcast_crowd(140 * n));
            sc!("lists", long_lists());
            sc!("very long", very_long(true, 66_000 * (n * n * 2 - n) as usize));
            sc!("identical", identical(80 * n as usize, true));
        }
        "R03" => {
            sc!("long", long_order(300 * n as usize));
        }
        "R04" => {
            sc!("long", long_requests(200 * n as usize));
            sc!("lists", listed_requests());
        }
        "R05" => sc!("long", long_hooks(200 * n as usize)),
        "M02" => sc!("crowd", moving_crowd(270 * n)),
        "M03" => sc!("crowd", placed_crowd(400 * n)),
        "M04" => sc!("crowd", topic_crowd(270 * n)),
        "M05" => sc!("crowd", ending_crowd(300 * n)),
        "M06" => sc!("deaf crowd", deaf_crowd(3000 * n as usize)),
        "M08" => sc!("crowd", evicted_crowd(300 * n)),
        "A04" => sc!("large crowd", stalled_crowd(300 * n as usize)),
        "T01" => {
            sc!("very long tcp", very_long_stream::<Tcp>(66_000 * (n * n * 2 - n) as usize));
            sc!("very long memory", very_long_stream::<Memory>(66_000 * (n * n * 2 - n) as usize));
            sc!("very long tls", very_long_stream::<TcpTls>(66_000));
            sc!("long tcp", long_stream::<Tcp>(1000 * n as usize));
            sc!("long memory", long_stream::<Memory>(1000 * n as usize));
            sc!("long tls", long_stream::<TcpTls>(300 * n as usize));
            sc!("sizes tcp", size_stream::<Tcp>());
            sc!("sizes memory", size_stream::<Memory>());
            sc!("sizes tls", size_stream::<TcpTls>());
        }
        "T03" => {
            sc!("long tcp", soft_long::<Tcp>(200 * n as usize));
            sc!("long memory", soft_long::<Memory>(200 * n as usize));
            sc!("long tls", soft_long::<TcpTls>(200 * n as usize));
        }
        "T06" => {
            sc!("crowd tcp", pairing_crowd::<Tcp>(300 * n as usize));
            sc!("crowd memory", pairing_crowd::<Memory>(300 * n as usize));
            sc!("crowd tls", pairing_crowd::<TcpTls>(100));
        }
        _ => {}
    }
}

/// Lets everything arrive
async fn drain(us: &mut [User]) {
    let mut quiet = 0;
    let mut last = 0;
    while quiet < 4 {
        for u in us.iter_mut() {
            u.pump();
        }
        vmc::settle().await;
        let now: usize = us.iter_mut().map(|u| u.got.len() + u.p.partial().len()).sum();
        if now == last && us.iter_mut().all(|u| u.p.flush() || u.p.eof || !u.p.is_open()) {
            quiet += 1;
            vmc::sleep(MS(5)).await;
        } else {
            quiet = 0;
        }
        last = now;
    }
}
async fn users(n: u64, brokers: u16, topics: impl Fn(u64) -> Vec<u8>) -> Vec<User> {
    let mut us = vec![];
    for i in 0..n {
        us.push(login(1 + (i % u64::from(brokers)) as u16, i + 1, &topics(i)).await);
    }
    exchange().await;
    us
}
/// What each user got, as (what it is, payload), sorted
fn got(u: &mut User) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
    v.sort();
    v
}
fn all_open(us: &mut [User], ctx: &str) {
    for u in us.iter_mut() {
        ensure!(!u.closed(), "ended", "the session of user {} at broker {}: {ctx}", u.key, u.b);
    }
}
fn short(v: &[Vec<u8>]) -> String {
    let l: Vec<String> = v.iter().take(6).map(|m| format!("{:?}({})", &m[..m.len().min(6)], m.len())).collect();
    format!("{} messages, {}", v.len(), l.join(" "))
}

// ------------------------------------------------------------------------------------------------------------- R01

/// Many users, all of them sending at the same time
async fn direct_crowd(n: u64) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2, 3]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(n, brokers, |_| vec![]).await;
    for round in 0..4u64 {
        let mut want: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
        for i in 0..n {
            for k in 0..5 {
                let to = 1 + (i * 7 + k * k * 3 + round) % n;
                let m = [&[i as u8, k as u8, round as u8][..], &body(k as u8, [0, 1, 60, 1200, 9000][k as usize])].concat();
                us[i as usize].direct(to, &m);
                want.entry(to).or_default().push(m);
            }
            // and to somebody who is not there
            us[i as usize].direct(5000 + i, &[1]);
        }
        drain(&mut us).await;
        for u in &mut us {
            let mut w = want.remove(&u.key).unwrap_or_default();
            w.sort();
            let g = got(u);
            ensure!(g == w, "exactly once", "user {} of {n} in round {round}: {} instead of {}", u.key, short(&g), short(&w));
        }
        vmc::cases(n * 5);
    }
    all_open(&mut us, "crowd");
    vmc::cover("crowd");
}

const LARGE: [usize; 12] =
    [4095, 4096, 4097, 65_535, 65_536, 65_537, 70_000, 131_072, 200_000, 1 << 20, (1 << 20) + 1, 2_500_000];
/// Messages of every size
async fn direct_large() {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    let kind = vmc::choose(2, "direct, broadcast");
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(2, brokers, |i| if i == 1 { vec![0] } else { vec![] }).await;
    for n in LARGE {
        let m = body(n as u8, n);
        if kind == 0 {
            us[0].direct(2, &m);
        } else {
            us[0].broadcast(&[0], &m);
        }
        drain(&mut us).await;
        let g = got(&mut us[1]);
        ensure!(g == vec![m], "large", "{n} bytes: {}", short(&g));
        ensure!(us[0].take().is_empty(), "misrouted", "{n} bytes");
        vmc::cases(1);
    }
    all_open(&mut us, "large");
    vmc::cover("large");
}

/// The same message again and again is that many messages
async fn identical(n: usize, broad: bool) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    let at_once = vmc::choose(2, "one by one, at once") == 1;
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(3, brokers, |i| if i > 0 { vec![0, 1] } else { vec![0] }).await;
    for _ in 0..n {
        for s in [0, 2] {
            if broad {
                us[s].broadcast(&[0, 1], b"same");
            } else {
                us[s].direct(2, b"same");
            }
            if !at_once {
                vmc::settle().await;
            }
        }
    }
    drain(&mut us).await;
    for i in 0..3 {
        let g = us[i].take().len();
        let w = if broad || i == 1 { 2 * n } else { 0 };
        ensure!(g == w, "identical", "user {i} gets {g} instead of {w} of {n} identical messages of two users");
    }
    all_open(&mut us, "identical");
    vmc::cover("identical");
}

// ------------------------------------------------------------------------------------------------------------- R02

fn wants(subs: &[u8], list: &[u8]) -> bool {
    list.iter().any(|t| VALID_TOPICS.contains(t) && subs.contains(t))
}
fn some_topics(i: u64) -> Vec<u8> {
    VALID_TOPICS.iter().enumerate().filter(|(k, _)| (i / 3) >> k & 1 == 1).map(|x| *x.1).collect()
}
async fn broadcast_crowd(n: u64) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2, 4]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(n, brokers, some_topics).await;
    const LISTS: [&[u8]; 6] = [&[0], &[1, 2], &[130], &[2, 1, 0, 130, 0], &[7, 1, 7], &[130, 2]];
    for round in 0..3usize {
        let mut sent: Vec<(&[u8], Vec<u8>)> = vec![];
        for i in 0..n as usize {
            let l = LISTS[(i + round) % LISTS.len()];
            let m = [&[i as u8, round as u8][..], &body(i as u8, [0, 300, 9000][(i + round) % 3])].concat();
            us[i].broadcast(l, &m);
            sent.push((l, m));
        }
        drain(&mut us).await;
        for (i, u) in us.iter_mut().enumerate() {
            let subs = some_topics(i as u64);
            let mut w: Vec<Vec<u8>> = sent.iter().filter(|(l, _)| wants(&subs, l)).map(|x| x.1.clone()).collect();
            w.sort();
            let g = got(u);
            ensure!(g == w, "exactly once", "user {i} with {subs:?} of {n} in round {round}: {} instead of {}", short(&g), short(&w));
        }
        vmc::cases(n);
    }
    all_open(&mut us, "crowd");
    vmc::cover("crowd");
}
/// Long topic lists: repeated, unsorted, with valid topics anywhere
async fn long_lists() {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(10, brokers, |i| some_topics(3 * i)).await;
    let unknown: Vec<u8> = (0..=255u8).filter(|t| !VALID_TOPICS.contains(t)).collect();
    let all: Vec<u8> = (0..=255).collect();
    let rev: Vec<u8> = (0..=255).rev().collect();
    let lists: Vec<Vec<u8>> = vec![
        vec![0; 300],
        vec![2; 5000],
        all.clone(),
        rev.clone(),
        [&unknown[..], &[1]].concat(),
        [&[1][..], &unknown].concat(),
        [&unknown[..], &unknown, &[130], &unknown].concat(),
        [all, rev].concat(),
        (0..600).map(|i| [9, 0, 8, 1][i % 4]).collect(),
        (0..64).map(|i| [2, 1][i % 2]).collect(),
        (0..65).map(|i| [130, 3, 2][i % 3]).collect(),
    ];
    for (n, l) in lists.iter().enumerate() {
        for s in 0..2 {
            let m = [n as u8, s as u8];
            us[s].broadcast(l, &m);
            drain(&mut us).await;
            for (i, u) in us.iter_mut().enumerate() {
                let g = got(u);
                let w = usize::from(wants(&some_topics(3 * i as u64), l));
                ensure!(g.len() == w, "long list", "list {n} of {} topics: user {i} gets {}", l.len(), g.len());
            }
            vmc::cases(1);
        }
    }
    all_open(&mut us, "long lists");
    // as requests: subscriptions to long lists of valid topics, with repeats
    for u in &mut us {
        u.subscribe(&(0..500).map(|i| [1, 0][i % 2]).collect::<Vec<u8>>());
    }
    drain(&mut us).await;
    us[0].unsubscribe(&[1; 400]);
    drain(&mut us).await;
    exchange().await;
    us[1].broadcast(&[1], b"1");
    us[1].broadcast(&[0], b"0");
    drain(&mut us).await;
    for (i, u) in us.iter_mut().enumerate() {
        let g = got(u);
        let w = if i == 0 { vec![b"0".to_vec()] } else { vec![b"0".to_vec(), b"1".to_vec()] };
        ensure!(g == w, "long request", "user {i} gets {g:?}");
    }
    all_open(&mut us, "long requests");
    vmc::cover("lists");
}

// ------------------------------------------------------------------------------------------------------------- R03

/// Long streams of messages of very different sizes
async fn long_order(n: usize) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    let sizes: &[usize] = pick("sizes", &[&[200_000usize, 1, 70_000, 2, 3][..], &[1, 0, 5], &[9000, 1, 4096, 0, 40, 66_000]]);
    let one_by_one = vmc::choose(2, "at once, one by one") == 1;
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(2, brokers, |_| vec![0]).await;
    let n = if sizes[0] > 100_000 { n / 4 } else { n };
    for i in 0..n {
        let m = [&(i as u32).to_be_bytes()[..], &body(i as u8, sizes[i % sizes.len()])].concat();
        // in stretches and alternating
        if (i / 7 + i / 11) % 2 == 0 {
            us[0].direct(2, &m);
        } else {
            us[0].broadcast(&[0], &m);
        }
        if one_by_one {
            vmc::settle().await;
        }
        if i % 16 == 0 {
            us[1].pump();
        }
    }
    drain(&mut us).await;
    let g: Vec<u32> = us[1].take().iter().map(|m| u32::from_be_bytes(payload(m)[..4].try_into().unwrap())).collect();
    let w: Vec<u32> = (0..n as u32).collect();
    let at = g.iter().zip(&w).position(|(a, b)| a != b);
    ensure!(g == w, "order", "{} of {n} messages, the first out of order at {at:?}: {:?}", g.len(), at.map(|a| &g[a..(a + 5).min(g.len())]));
    let own: Vec<u32> = us[0].take().iter().map(|m| u32::from_be_bytes(payload(m)[..4].try_into().unwrap())).collect();
    ensure!(own.is_sorted(), "order", "the sender's own copies are out of order");
    all_open(&mut us, "long");
    vmc::cover("long");
}

/// More messages over the same sessions than sixteen bits count
async fn very_long(broad: bool, n: usize) {
    vmc::deadline(Some(S(72_000)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(2, brokers, |i| vec![i as u8]).await;
    let mut next = 0;
    for i in 0..n as u32 {
        let m = i.to_be_bytes();
        if broad {
            us[0].broadcast(&[1], &m);
        } else {
            us[0].direct(2, &m);
        }
        if i % 400 == 399 || i as usize == n - 1 {
            for _ in 0..2000 {
                vmc::settle().await;
                us[0].pump();
                for m in us[1].take() {
                    ensure!(payload(&m) == u32::to_be_bytes(next), "order", "instead of message {next} arrives {:?}", payload(&m));
                    next += 1;
                }
                if next == i + 1 {
                    break;
                }
                vmc::sleep(MS(1)).await;
            }
            ensure!(next == i + 1, "lost", "message {next} of {n} has not arrived two seconds after it was sent");
        }
    }
    all_open(&mut us, "very long");
    vmc::cover("very long");
}

// ------------------------------------------------------------------------------------------------------------- R04

/// A long history of requests
/// Long lists at opening, in requests and in broadcasts, with valid topics anywhere
async fn listed_requests() {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let len = pick("length", &[60usize, 64, 65, 130, 257, 600, 1030, 5000, 70_000]);
    let fill = pick("others", &[&[9u8][..], &[1], &[9, 1, 200, 77]]);
    let at = vmc::choose(3, "where the one that counts is");
    vmc::explore(false);
    let list = |t: u8| {
        let mut l: Vec<u8> = (0..len).map(|i| fill[i % fill.len()]).collect();
        l.insert([0, len / 2, len][at], t);
        l
    };
    let mut wants = BTreeSet::from([130u8]);
    if fill.contains(&1) {
        wants.insert(1);
    }
    let _m = mesh(1).await;
    let mut us = vec![login(1, 1, &[]).await, login(1, 2, &list(130)).await];
    for round in 0..4 {
        match round {
            1 => {
                us[1].subscribe(&list(2));
                wants.insert(2);
                wants.extend(fill.iter().filter(|t| **t == 1));
            }
            2 => {
                us[1].unsubscribe(&list(130));
                wants.remove(&130);
                wants.retain(|t| !fill.contains(t));
            }
            3 => {
                us[1].unsubscribe(&list(2));
                wants.remove(&2);
            }
            _ => {}
        }
        drain(&mut us).await;
        for t in VALID_TOPICS {
            us[0].broadcast(&[t], &[round]);
            drain(&mut us).await;
            let g = got(&mut us[1]).len();
            ensure!(g == usize::from(wants.contains(&t)), "long list", "round {round}, topic {t}: {g}, wanted {wants:?}");
        }
        ensure!(!us[1].closed(), "ended", "round {round}");
    }
    vmc::cases(16);
    vmc::cover("lists");
}

async fn long_requests(n: usize) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    let stride = pick("pattern", &[7usize, 11, 13]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = users(4, brokers, |_| vec![]).await;
    let mut subs: Vec<BTreeSet<u8>> = vec![BTreeSet::new(); 3];
    let reqs: [(bool, &[u8]); 9] = [
        (true, &[0]),
        (true, &[1, 0]),
        (false, &[0]),
        (true, &[130, 2, 130]),
        (false, &[1, 2]),
        (true, &[2]),
        (false, &[130]),
        (true, &[0, 1, 2, 130]),
        (false, &[2, 0, 0]),
    ];
    let mut x = stride;
    for i in 0..n {
        x = x * 31 + stride;
        let k = x / 8 % 3;
        let (on, l) = reqs[x / 32 % reqs.len()];
        if on {
            us[k].subscribe(l);
            subs[k].extend(l);
        } else {
            us[k].unsubscribe(l);
            subs[k].retain(|t| !l.contains(t));
        }
        x %= 1 << 40;
        if i % 8 != 7 {
            continue;
        }
        drain(&mut us).await;
        if brokers > 1 {
            exchange().await;
        }
        for t in VALID_TOPICS {
            us[3].broadcast(&[t], &[t]);
        }
        drain(&mut us).await;
        for (k, s) in subs.iter().enumerate() {
            let g: Vec<u8> = us[k].take().iter().map(|m| payload(m)[0]).collect();
            let w: Vec<u8> = s.iter().copied().collect();
            ensure!(g == w, "subscriptions", "user {k} after {} requests: {g:?} instead of {w:?}", i + 1);
        }
        vmc::cases(1);
    }
    all_open(&mut us, "long");
    vmc::cover("long");
}

// ------------------------------------------------------------------------------------------------------------- R05

fn by_first(_b: bool, _id: u64, m: &mut Message) -> anyhow::Result<HookResult> {
    match payload(m).first() {
        Some(1) => Ok(HookResult::SkipMessage),
        Some(2) => Err(anyhow!("no")),
        _ => Ok(HookResult::ProcessMessage),
    }
}
async fn long_hooks(n: usize) {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let skip = pick("skip every", &[2usize, 3, 50]);
    let at_once = vmc::choose(2, "one by one, at once") == 1;
    vmc::explore(false);
    HOOK_LOG.with(|l| l.borrow_mut().clear());
    HOOK.with(|h| *h.borrow_mut() = Some(by_first));
    let _m = mesh(1).await;
    let mut us = users(6, 1, |_| vec![0]).await;
    let mut shown: Vec<Vec<Message>> = vec![vec![]; 5];
    let mut want = vec![];
    for i in 0..n {
        let k = i % 5;
        let v = u8::from(i % skip == 0);
        let m = [&[v][..], &(i as u32).to_be_bytes(), &body(0, [0, 5, 5000][i % 3])].concat();
        let m = direct(6, &m);
        us[k].send(&m);
        shown[k].push(m.clone());
        if v == 0 {
            want.push(payload(&m));
        }
        if !at_once {
            vmc::settle().await;
        }
    }
    drain(&mut us).await;
    want.sort();
    let g = got(&mut us[5]);
    ensure!(g == want, "effect", "{} instead of {}", short(&g), short(&want));
    all_open(&mut us, "hooks");
    // the one that it refuses is the only one that ends
    us[2].direct(6, &[2]);
    us[2].direct(6, &[0]);
    shown[2].push(direct(6, &[2]));
    drain(&mut us).await;
    for k in 0..6 {
        ensure!(us[k].closed() == (k == 2), "session", "user {k} after the hook has refused a message of user 2");
    }
    ensure!(us[5].take().is_empty(), "effect", "of a refused message");
    let mut by: BTreeMap<u64, Vec<(u64, Message)>> = BTreeMap::new();
    for (_, id, calls, m) in HOOK_LOG.with(|l| l.borrow().clone()) {
        by.entry(id).or_default().push((calls, m));
    }
    for (k, s) in shown.iter().enumerate() {
        let ok = by.values().any(|l| l.iter().map(|x| &x.1).eq(s.iter()) && l.iter().enumerate().all(|(i, x)| x.0 == i as u64));
        ensure!(ok, "shown", "the {} messages of user {k} were not shown once, in order, to a hook of its own", s.len());
    }
    HOOK.with(|h| *h.borrow_mut() = None);
    vmc::cover("hooks");
}

// --------------------------------------------------------------------------------------------------------------- M

/// Sends a direct message from a probe at every broker to every key; each arrives where it should
async fn reach(probes: &mut [User], us: &mut BTreeMap<u64, User>, absent: &[u64], ctx: &str) {
    for p in probes.iter_mut() {
        p.take();
        for k in us.keys() {
            p.direct(*k, &k.to_be_bytes());
        }
        for k in absent {
            p.direct(*k, &k.to_be_bytes());
        }
        let mut quiet = 0;
        while quiet < 3 {
            vmc::settle().await;
            p.pump();
            for u in us.values_mut() {
                u.pump();
            }
            quiet += 1;
            if !p.p.flush() {
                quiet = 0;
            }
        }
        for (k, u) in us.iter_mut() {
            let g: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
            ensure!(g == vec![k.to_be_bytes().to_vec()], "not found", "user {k} at broker {} from broker {}: {} messages: {ctx}", u.b, p.b, g.len());
        }
        vmc::cases(us.len() as u64);
    }
}
async fn probes(n: u16) -> Vec<User> {
    let mut v = vec![];
    for b in 1..=n {
        v.push(login(b, 9000 + u64::from(b), &[]).await);
    }
    v
}

async fn placed_crowd(n: u64) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let late = vmc::choose(2, "users first") == 0;
    vmc::explore(false);
    let mut nodes = vec![];
    if late {
        nodes = mesh(3).await;
    } else {
        for b in 1..=3 {
            nodes.push(start_broker(b).await);
        }
    }
    let mut us = BTreeMap::new();
    for k in 1..=n {
        us.insert(k, login(1 + (k % 3) as u16, k, &[]).await);
    }
    let mut ps = probes(3).await;
    exchange().await;
    reach(&mut ps, &mut us, &[], "all connected").await;
    // a third leaves, a third moves
    let mut gone = vec![];
    for k in 1..=n {
        match k / 3 % 3 {
            0 => {
                us.remove(&k);
                gone.push(k);
            }
            1 => {
                let old = us[&k].b;
                us.insert(k, login(1 + old % 3, k, &[]).await);
            }
            _ => {}
        }
    }
    vmc::settle().await;
    exchange().await;
    reach(&mut ps, &mut us, &gone, "after changes").await;
    // a broker restarts; its users come to another one
    let at3: Vec<u64> = us.iter().filter(|(_, u)| u.b == 3).map(|x| *x.0).collect();
    nodes.remove(2).kill().await;
    for k in &at3 {
        us.remove(k);
    }
    ps.pop();
    for k in at3.iter().take(at3.len() / 2) {
        us.insert(*k, login(1, *k, &[]).await);
    }
    exchange().await;
    reach(&mut ps, &mut us, &[], "after a broker has gone").await;
    nodes.push(start_broker(3).await);
    exchange().await;
    exchange().await;
    ps.push(login(3, 9003, &[]).await);
    for k in at3.iter().skip(at3.len() / 2) {
        us.insert(*k, login(3, *k, &[]).await);
    }
    exchange().await;
    reach(&mut ps, &mut us, &gone, "after a broker has returned").await;
    for u in us.values_mut() {
        ensure!(!u.closed(), "ended", "user {}", u.key);
    }
    vmc::cover("crowd");
}

/// Users move at the same time, several times, with subscriptions
async fn moving_crowd(n: u64) {
    vmc::deadline(Some(S(7200)));
    let _m = mesh(3).await;
    let mut us = BTreeMap::new();
    for k in 1..=n {
        us.insert(k, login(1 + (k % 3) as u16, k, &some_topics(k)).await);
    }
    let mut ps = probes(3).await;
    exchange().await;
    for round in 0..4 {
        let mut old = vec![];
        for k in 1..=n {
            if (k + round) % 4 != 0 {
                let b = us[&k].b;
                let new = login(1 + (b + (k % 2) as u16) % 3, k, &some_topics(k)).await;
                if let Some(o) = us.insert(k, new) {
                    old.push(o);
                }
            }
        }
        exchange().await;
        for o in &mut old {
            ensure!(o.closed(), "old session", "user {} is still connected to broker {} in round {round}", o.key, o.b);
        }
        for u in us.values_mut() {
            ensure!(!u.closed(), "new session", "of user {} at broker {} ended in round {round}", u.key, u.b);
        }
        reach(&mut ps, &mut us, &[], "moved").await;
        for t in VALID_TOPICS {
            ps[(t % 3) as usize].broadcast(&[t], &[t]);
            vmc::settle().await;
            for (k, u) in us.iter_mut() {
                let g = u.take().len();
                let w = usize::from(some_topics(*k).contains(&t));
                ensure!(g == w, "topics", "user {k} gets {g} of topic {t} in round {round}");
            }
        }
    }
    vmc::cover("crowd");
}

async fn topic_crowd(n: u64) {
    vmc::deadline(Some(S(7200)));
    let _m = mesh(3).await;
    let mut us: Vec<Option<User>> = vec![];
    let mut subs = vec![];
    for i in 0..n {
        us.push(Some(login(1 + (i % 3) as u16, i + 1, &some_topics(i)).await));
        subs.push(some_topics(i));
    }
    let mut ps = probes(3).await;
    exchange().await;
    for round in 0..5u64 {
        for p in 0..3 {
            for t in VALID_TOPICS {
                crate::def::WIRE.with(|x| *x.borrow_mut() = Some(vec![]));
                ps[p].broadcast(&[t], &[t, round as u8]);
                vmc::settle().await;
                vmc::settle().await;
                let l = crate::def::WIRE.with(|x| x.borrow_mut().take()).unwrap_or_default();
                for b in 1..=3u16 {
                    let n = l.iter().filter(|(g, from_broker, m)| *g == u32::from(b) && *from_broker && !payload(m).is_empty()).count();
                    let want = usize::from(b as usize != p + 1 && us.iter().zip(&subs).any(|(u, s)| u.as_ref().is_some_and(|u| u.b == b) && s.contains(&t)));
                    ensure!(n == want, "forwarded", "topic {t} from broker {} to broker {b} in round {round}: {n} times instead of {want}", p + 1);
                }
                for (i, u) in us.iter_mut().enumerate() {
                    if let Some(u) = u {
                        let g = u.take().len();
                        ensure!(g == usize::from(subs[i].contains(&t)), "delivered", "user {i} gets {g} of topic {t} in round {round}");
                    }
                }
            }
        }
        // subscriptions change, users leave; in the end broker 2 has nobody interested in anything but 1
        for i in 0..n {
            let b = us[i as usize].as_ref().map(|u| u.b);
            match (round, b) {
                (0, Some(_)) if i % 2 == 0 => {
                    if let Some(u) = &mut us[i as usize] {
                        u.unsubscribe(&[0, 130]);
                        subs[i as usize].retain(|t| *t != 0 && *t != 130);
                    }
                }
                (1, Some(2)) => {
                    if let Some(u) = &mut us[i as usize] {
                        u.unsubscribe(&VALID_TOPICS);
                        subs[i as usize].clear();
                        if i == 1 {
                            u.subscribe(&[1]);
                            subs[1] = vec![1];
                        }
                    }
                }
                (2, Some(3)) => us[i as usize] = None,
                (3, None) if i % 5 == 0 => {
                    us[i as usize] = Some(login(3, i + 1, &[2]).await);
                    subs[i as usize] = vec![2];
                }
                _ => {}
            }
        }
        vmc::settle().await;
        exchange().await;
    }
    vmc::cover("crowd");
}

/// All it has to send has arrived
async fn sent(w: &mut User) {
    let mut quiet = 0;
    while quiet < 3 {
        quiet = if w.p.flush() { quiet + 1 } else { 0 };
        vmc::settle().await;
    }
}

async fn ending_crowd(n: u64) {
    vmc::deadline(Some(S(7200)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(2).await;
    let mut us: BTreeMap<u64, User> = BTreeMap::new();
    for k in 1..=n {
        us.insert(k, login(1, k, &[(k % 3) as u8]).await);
    }
    let mut w = login(2, 8000, &[]).await;
    let reported = |b: u16| store(|s| s.brokers.get(&ident(b)).map_or(999, |x| x.0));
    exchange().await;
    ensure!(gauge("num_users_connected") - g0 == n as i64 + 1, "metric", "{n} users are {}", gauge("num_users_connected") - g0 - 1);
    ensure!(reported(1) == n, "load", "{n} users are reported as {}", reported(1));
    let mut elsewhere = BTreeMap::new();
    let mut replaced = vec![];
    for k in 1..=n {
        match k % 6 {
            0 => drop(us.remove(&k)),
            1 => us.remove(&k).unwrap().p.conn.cut(),
            2 => us.get_mut(&k).unwrap().send(&Message::TopicSync(vec![])),
            _ => {}
        }
    }
    // All of those have gone between two exchanges
    vmc::settle().await;
    exchange().await;
    WIRE.with(|x| *x.borrow_mut() = Some(vec![]));
    for k in (1..=n).filter(|k| k % 6 < 3) {
        w.direct(k, b"gone");
    }
    sent(&mut w).await;
    let l = WIRE.with(|x| x.borrow_mut().take()).unwrap_or_default();
    let c = l.iter().filter(|(g, b, m)| *g == 1 && *b && payload(m) == b"gone").count();
    ensure!(c == 0, "location left", "messages to {c} users that have gone are sent to broker 1");
    for k in 1..=n {
        match k % 6 {
            3 => {
                // it takes another topic instead
                let new = login(1, k, &[((k + 1) % 3) as u8]).await;
                replaced.extend(us.insert(k, new));
            }
            4 => {
                elsewhere.insert(k, login(2, k, &[]).await);
            }
            _ => {}
        }
    }
    vmc::settle().await;
    exchange().await;
    us.retain(|k, _| k % 6 == 3 || k % 6 == 5);
    let left = us.len() as u64;
    let here = elsewhere.len() as u64 + 1;
    ensure!(gauge("num_users_connected") - g0 == (left + here) as i64, "metric", "{} users are {}", left + here, gauge("num_users_connected") - g0);
    ensure!(reported(1) == left, "load", "{left} users are reported as {}", reported(1));
    ensure!(reported(2) == here, "load", "{here} users are reported as {}", reported(2));
    for t in 0..3u8 {
        w.broadcast(&[t], &[t]);
        vmc::settle().await;
        vmc::settle().await;
        for (k, u) in &mut us {
            let g = u.take().len();
            let mine = if k % 6 == 3 { (k + 1) % 3 } else { k % 3 } as u8;
            ensure!(g == usize::from(mine == t), "topics", "user {k} with topic {mine} gets {g} of topic {t}");
        }
    }
    for u in &mut replaced {
        ensure!(u.closed() && u.take().is_empty(), "replaced", "user {}", u.key);
    }
    for k in 1..=n {
        w.direct(k, b"x");
    }
    sent(&mut w).await;
    for (k, u) in us.iter_mut().chain(elsewhere.iter_mut()) {
        let g = u.take().len();
        ensure!(g == 1 && !u.closed(), "left", "user {k} at broker {} gets {g} messages", u.b);
    }
    vmc::cover("crowd");
}

/// Peers that do not read are sent very many messages
async fn deaf_crowd(n: usize) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let broad = vmc::choose(2, "direct, broadcast") == 1;
    let pool = pick("memory", &[None, Some(4_000_000)]);
    vmc::explore(false);
    let _m = start_broker_with::<Tcp, Tcp>(1, pool).await;
    let mut a = login(1, 1, &[]).await;
    let mut b = login(1, 2, &[1]).await;
    sim::set_default_cap(2048);
    let mut deaf = vec![];
    for k in 0..3u64 {
        deaf.push(login(1, 10 + k, &[0]).await);
    }
    exchange().await;
    let per = n / 10;
    for i in 0..n {
        if broad {
            a.broadcast(&[0, 1], &[i as u8; 20]);
        } else {
            a.direct(10 + (i % 3) as u64, &[i as u8; 20]);
        }
        if i % per != per - 1 {
            continue;
        }
        a.direct(2, b"prompt");
        let t = vmc::now();
        let mut got = 0;
        for _ in 0..400 {
            vmc::settle().await;
            a.pump();
            got += b.take().iter().filter(|m| payload(m) == b"prompt").count();
            if got > 0 {
                break;
            }
            vmc::sleep(MS(1)).await;
        }
        ensure!(got == 1, "delayed", "after {} messages to peers that do not read, one to another is not there after {:?}", i + 1, vmc::now() - t);
    }
    ensure!(!a.closed() && !b.closed(), "others ended", "");
    vmc::sleep(S(11)).await;
    for u in &mut deaf {
        ensure!(u.p.conn.closed(1) || u.closed(), "not cut off", "user {}", u.key);
    }
    a.direct(2, b"after");
    vmc::settle().await;
    ensure!(b.take().iter().any(|m| payload(m) == b"after"), "others", "after the deaf ones have gone");
    vmc::cover("deaf");
}

async fn evicted_crowd(n: u64) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let stay = pick("stay", &[0u64, 1, 2, 59]);
    vmc::explore(false);
    let _m = mesh(1).await;
    let mut us = users(n, 1, |_| vec![0]).await;
    let ok = |k: u64| k % 60 < stay;
    store(|s| s.whitelist = Some((1..=n).filter(|k| ok(*k)).chain([9000]).map(|k| crate::def::pk(k).into()).collect()));
    vmc::sleep(S(68)).await;
    vmc::settle().await;
    for u in &mut us {
        let c = u.closed();
        ensure!(c != ok(u.key), if c { "evicted" } else { "still there" }, "user {} of {n}, of whom {stay} of 60 stay", u.key);
    }
    let mut v = login(1, 9000, &[]).await;
    v.broadcast(&[0], b"x");
    vmc::settle().await;
    for u in &mut us {
        let g = u.take().len();
        ensure!(g == usize::from(ok(u.key)), "served", "user {} gets {g}", u.key);
    }
    // the rest stays
    vmc::sleep(S(130)).await;
    vmc::settle().await;
    for u in &mut us {
        ensure!(u.closed() != ok(u.key), "later", "user {}", u.key);
    }
    vmc::cover("crowd");
}

/// A great many stalled peers
async fn stalled_crowd(n: usize) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let how = vmc::choose(3, "silent, partial, after the first message");
    let door = pick("door", &[MARSHAL, pub_port(1), priv_port(1)]);
    vmc::explore(false);
    let _b = mesh(1).await;
    let _m = start_marshal().await;
    let mut u = login(1, 7, &[]).await;
    let mut ps = vec![];
    for i in 0..n as u64 {
        let mut p = Peer::connect(door).await.expect("connect");
        let m = match door {
            MARSHAL => auth_key(1, Namespace::UserMarshalAuth, wall()),
            d if d == pub_port(1) => auth_permit(permit(1, 100 + i)),
            _ => auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()),
        };
        let b = crate::peer::frame(&m.serialize().unwrap());
        match how {
            0 => {}
            1 => p.send_bytes(&b[..11]),
            _ if door == MARSHAL => p.send_bytes(&b[..b.len() - 1]),
            _ => p.send_bytes(&b),
        }
        ps.push(p);
    }
    vmc::settle().await;
    let ctx = format!("{n} stalled at {door}, in the way {how}");
    let mut h = Peer::connect(MARSHAL).await.expect("connect");
    h.send(&auth_key(20, Namespace::UserMarshalAuth, wall()));
    let mut granted = 0;
    until(MS(300), || {
        for m in h.recv() {
            if let Message::AuthenticateResponse(r) = m {
                granted = r.permit;
            }
        }
        granted > 1
    })
    .await;
    ensure!(granted > 1, "others", "no permit: {ctx}");
    let t = vmc::now();
    let x = present(1, granted, 20, &[]).await;
    ensure!(x.is_some(), "others", "the user is not admitted: {ctx}");
    let Some(mut x) = x else { return };
    ensure!(vmc::now() - t < MS(300), "delayed", "{ctx}");
    let f = fake_in(1, "127.0.0.1:8000/127.0.0.1:8100").await;
    ensure!(f.is_some(), "others", "no other broker is admitted: {ctx}");
    u.direct(20, b"hello");
    vmc::settle().await;
    ensure!(x.take().len() == 1, "others", "a message is not delivered: {ctx}");
    vmc::sleep(MS(5_500)).await;
    vmc::settle().await;
    for (i, p) in ps.iter_mut().enumerate() {
        p.pump();
        ensure!(p.closed(), "not cut off", "peer {i}: {ctx}");
    }
    ensure!(!u.closed() && !x.closed(), "others", "a session ended: {ctx}");
    vmc::cover("crowd");
}

// --------------------------------------------------------------------------------------------------------------- T

async fn transfer<P: Protocol>(m: Vec<Vec<u8>>, pool: Option<usize>, cap: usize, seg: usize) {
    let lim = || Limiter::new(None, pool);
    let p = pair::<P>(lim(), lim()).await;
    if let Some(c) = &p.conn {
        for d in 0..2 {
            c.with(d, |h| {
                h.cap = cap;
                h.segment = seg;
            });
        }
    }
    for (from, to, way) in [(&p.a, &p.b, "forward"), (&p.b, &p.a, "backward")] {
        let l = log();
        let (l2, to, k) = (l.clone(), to.clone(), m.len());
        let r = tokio::spawn(async move {
            for _ in 0..k {
                match to.recv_message_raw().await {
                    Ok(x) => push(&l2, x.to_vec()),
                    Err(_) => break,
                }
            }
        });
        let (from, m2) = (from.clone(), m.clone());
        let s = tokio::spawn(async move {
            for x in m2 {
                if from.send_message_raw(raw(&x)).await.is_err() {
                    return false;
                }
            }
            true
        });
        let sent = timeout(S(600), s).await;
        ensure!(matches!(sent, Some(Ok(true))), "send", "{way}");
        let _ = timeout(S(600), r).await;
        let got = get(&l);
        let at = got.iter().zip(&m).position(|(a, b)| a != b);
        ensure!(at.is_none(), way, "message {at:?} of {} is changed", m.len());
        ensure!(got.len() == m.len(), way, "{} of {} messages arrive", got.len(), m.len());
        vmc::cases(m.len() as u64);
    }
    vmc::cover("transferred");
}
async fn long_stream<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let pool = pick("channel size", &[None, Some(1), Some(50)]);
    let sizes: &[usize] = pick("sizes", &[&[1usize][..], &[0, 3, 200, 1], &[8191, 8192, 8193, 4, 0], &[0]]);
    vmc::explore(false);
    let m = (0..n).map(|i| body((i * 7) as u8, sizes[i % sizes.len()])).collect();
    transfer::<P>(m, pool, 4096, 0).await;
}
/// More messages than sixteen bits count
async fn very_long_stream<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(72_000)));
    let m = (0..n as u32).map(|i| i.to_be_bytes().to_vec()).collect();
    transfer::<P>(m, Some(50), 4096, 0).await;
}
async fn size_stream<P: Protocol>() {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let pool = pick("channel size", &[None, Some(1)]);
    let (cap, seg) = pick("buffer and segment", &[(1 << 16, 0), (1 << 16, 1460), (1000, 0), (1 << 22, 0)]);
    let small = vmc::choose(2, "small, large") == 0;
    vmc::explore(false);
    let m = if small {
        (0..9u32).flat_map(|k| [-1i64, 0, 1].map(|d| ((256i64 << k) + d) as usize)).enumerate().map(|(i, n)| body(i as u8, n)).collect()
    } else {
        LARGE.iter().enumerate().map(|(i, n)| body(i as u8, *n)).collect()
    };
    transfer::<P>(m, pool, cap, seg).await;
}

/// Many messages, several soft closes at the same time, and then the connection is dropped
async fn soft_long<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(7200)));
    vmc::explore(true);
    let pool = pick("channel size", &[None, Some(1), Some(20)]);
    let closes = pick("soft closes", &[1usize, 2, 5]);
    let size = pick("size", &[1usize, 700]);
    let cap = pick("buffer", &[50usize, 1 << 16]);
    vmc::explore(false);
    let lim = || Limiter::new(None, pool);
    let p = pair::<P>(lim(), lim()).await;
    if let Some(c) = &p.conn {
        c.with(0, |h| h.cap = cap);
    }
    let n = if cap < 100 { n / 4 } else { n };
    let m: Vec<_> = (0..n).map(|i| body(i as u8, size)).collect();
    let l = log();
    let (l2, b) = (l.clone(), p.b);
    let h = tokio::spawn(async move {
        while let Ok(x) = b.recv_message_raw().await {
            push(&l2, x.to_vec());
        }
    });
    let a = p.a;
    let (a2, m2) = (a.clone(), m.clone());
    let s = tokio::spawn(async move {
        for x in &m2 {
            a2.send_message_raw(raw(x)).await.expect("send");
        }
    });
    let _ = s.await;
    let hs: Vec<_> = (0..closes)
        .map(|_| {
            let a = a.clone();
            tokio::spawn(async move { a.soft_close().await.is_ok() })
        })
        .collect();
    drop(a);
    for h in hs {
        let r = timeout(S(60), h).await;
        ensure!(matches!(r, Some(Ok(true))), "failed", "{r:?} of {closes} soft closes");
    }
    ensure!(timeout(S(60), h).await.is_some(), "no end", "the peer does not see the end");
    let got = get(&l);
    ensure!(got == m, "lost", "{} of {n} messages arrive before the end, {closes} soft closes", got.len());
    vmc::cover("acknowledged");
}

/// Many connects and accepts at the same time
async fn pairing_crowd<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(600)));
    vmc::explore(true);
    let late = vmc::choose(2, "accepts, connects first") == 1;
    let reverse = vmc::choose(2, "finalized in order, in reverse") == 1;
    vmc::explore(false);
    let ep = endpoint::<P>(7000);
    let l = std::sync::Arc::new(bind::<P>(&ep).await);
    let res: Log<(bool, u16, u16)> = log();
    let two = |b: &[u8]| u16::from_be_bytes([b[0], b[1]]);
    let accept = |l: std::sync::Arc<P::Listener>, res: Log<(bool, u16, u16)>| {
        tokio::spawn(async move {
            let mut all = vec![];
            for _ in 0..n {
                all.push(l.accept().await.expect("accept"));
                if !reverse {
                    let u = all.pop().unwrap();
                    let (res, j) = (res.clone(), n as u16 - all.len() as u16);
                    let _ = j;
                    tokio::spawn(async move { serve(u, res).await });
                }
            }
            while let Some(u) = all.pop() {
                let res = res.clone();
                tokio::spawn(async move { serve(u, res).await });
            }
        })
    };
    async fn serve<U: cdn_proto::connection::protocols::UnfinalizedConnection>(
        u: U,
        res: Log<(bool, u16, u16)>,
    ) {
        let c = u.finalize(none()).await.expect("finalize");
        let r = c.recv_message_raw().await.expect("receive");
        let i = u16::from_be_bytes([r[0], r[1]]);
        c.send_message_raw(raw(&(i + 1000).to_be_bytes())).await.expect("send");
        push(&res, (false, i, i + 1000));
        // and again, later
        let r = c.recv_message_raw().await.expect("receive");
        push(&res, (false, i, u16::from_be_bytes([r[0], r[1]])));
        tokio::time::sleep(S(5)).await;
    }
    if !late {
        accept(l.clone(), res.clone());
        vmc::settle().await;
    }
    for i in 0..n as u16 {
        let (ep, res) = (ep.clone(), res.clone());
        tokio::spawn(async move {
            let c = P::connect(&ep, true, none()).await.expect("connect");
            c.send_message_raw(raw(&i.to_be_bytes())).await.expect("send");
            let r = c.recv_message_raw().await.expect("receive");
            push(&res, (true, i, two(&r)));
            c.send_message_raw(raw(&(i + 2000).to_be_bytes())).await.expect("send");
            let _ = c.recv_message_raw().await;
        });
    }
    vmc::settle().await;
    if late {
        accept(l.clone(), res.clone());
    }
    let ok = until(S(3), || res.lock().unwrap().len() == 3 * n).await;
    let mut g = get(&res);
    ensure!(ok, "incomplete", "{} of {} exchanges", g.len(), 3 * n);
    g.sort_unstable();
    let mut w: Vec<(bool, u16, u16)> =
        (0..n as u16).flat_map(|i| [(true, i, i + 1000), (false, i, i + 1000), (false, i, i + 2000)]).collect();
    w.sort_unstable();
    ensure!(g == w, "crossed", "{g:?}");
    vmc::cover("paired");
}
