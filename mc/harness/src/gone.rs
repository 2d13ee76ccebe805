//! M05, M06: departed users leave nothing behind; one peer's trouble is nobody else's.
use std::collections::BTreeMap;

use cdn_proto::message::Message;
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{pk, WIRE};
use crate::disc::store;
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "M05" => m05(thorough, v),
        "M06" => m06(thorough, v),
        _ => {}
    }
}

async fn quiesce() {
    vmc::settle().await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
}

fn whitelist(keys: &[u64]) {
    store(|s| s.whitelist = Some(keys.iter().map(|k| pk(*k).into()).collect()));
}

/// The load a broker has last reported
fn reported(b: u16) -> u64 {
    store(|s| s.brokers.get(&ident(b)).map_or(999, |x| x.0))
}

// ------------------------------------------------------------------------------------------------------------- M05

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Close,
    Reset,
    /// A message that ends the session
    Bad,
    /// Bytes that are no message
    Garbage,
    /// A frame that is too big
    Oversized,
    /// It subscribes to a topic that does not exist
    BadTopic,
    /// It is taken off the whitelist
    Evicted,
    /// It logs in again, and that session ends
    Replaced,
    /// It logs in at the other broker
    Moved,
    /// It has gone and a message for it arrives
    SentTo,
}
const ENDS: [End; 10] = [
    End::Close,
    End::Reset,
    End::Bad,
    End::Garbage,
    End::Oversized,
    End::BadTopic,
    End::Evicted,
    End::Replaced,
    End::Moved,
    End::SentTo,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Late {
    Nothing,
    Subscribe,
    Unsubscribe,
    Addressed,
    Broadcast,
    /// Its subscriptions were made later
    Resubscribed,
}
const LATES: [Late; 6] =
    [Late::Nothing, Late::Subscribe, Late::Unsubscribe, Late::Addressed, Late::Broadcast, Late::Resubscribed];

/// What broker 1 processes from brokers while a user of broker 2 acts
async fn crossing(w: &mut User, m: &Message) -> usize {
    WIRE.with(|x| *x.borrow_mut() = Some(vec![]));
    w.send(m);
    vmc::settle().await;
    vmc::settle().await;
    let l = WIRE.with(|x| x.borrow_mut().take()).unwrap_or_default();
    l.iter().filter(|(g, b, x)| *g == 1 && *b && x == m).count()
}

async fn ending() {
    vmc::deadline(Some(S(900)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(2).await;
    let mut v = login(1, 9, &[]).await;
    let mut w = login(2, 8, &[]).await;
    let mut u = login(1, 1, &[0]).await;
    vmc::sleep(S(21)).await;
    vmc::settle().await;
    vmc::explore(true);
    let end = pick("end", &ENDS);
    let late = pick("meanwhile", &LATES);
    vmc::explore(false);
    let ctx = format!("{end:?}, {late:?}");
    if end == End::Evicted {
        whitelist(&[9, 8]);
        // Until the check that finds it (the mesh took 10.5 s, and 21 s have passed)
        let now = vmc::now().as_millis() as u64;
        vmc::sleep(MS(60_000 - now % 60_000)).await;
    }
    let mut again = None;
    vmc::explore(true);
    match late {
        Late::Nothing => {}
        Late::Subscribe => u.subscribe(&[2]),
        Late::Unsubscribe => u.unsubscribe(&[0]),
        Late::Addressed => v.direct(1, b"late"),
        Late::Broadcast => w.broadcast(&[0], b"late"),
        Late::Resubscribed => {
            u.unsubscribe(&[0]);
            u.subscribe(&[0, 1]);
        }
    }
    match end {
        End::Close => u.close(),
        End::Reset => u.p.conn.cut(),
        End::Bad => u.send(&Message::UserSync(vec![])),
        End::Garbage => u.p.send_frame(&[0xff; 40]),
        End::Oversized => u.p.send_bytes(&[0xff; 8]),
        End::BadTopic => u.subscribe(&[130]),
        End::Evicted => {}
        End::Replaced => {
            vmc::explore(false);
            let mut n = login(1, 1, &[1]).await;
            vmc::explore(true);
            n.close();
            again = Some(n);
        }
        End::Moved => {
            vmc::explore(false);
            again = Some(login(2, 1, &[1]).await);
            vmc::explore(true);
        }
        End::SentTo => {
            u.p.conn.cut();
            v.direct(1, b"late");
            v.direct(1, b"later");
        }
    }
    vmc::settle().await;
    vmc::explore(false);
    quiesce().await;
    if end == End::BadTopic && !u.closed() {
        // Whether an unknown topic ends a session is not for this property
        u.close();
        quiesce().await;
    }
    if end == End::Moved {
        vmc::sleep(S(11)).await;
    }
    ensure!(u.closed() || !u.p.is_open(), "not ended", "{ctx}");
    let moved = i64::from(end == End::Moved);
    let n = gauge("num_users_connected") - g0;
    ensure!(n == 2 + moved, "metric", "{ctx}: {n} users instead of {}", 2 + moved);
    exchange().await;
    let n = gauge("num_users_connected") - g0;
    ensure!(n == 2 + moved, "metric", "{ctx}: {n} users instead of {}, later", 2 + moved);
    ensure!(reported(1) == 1, "load", "{ctx}: broker 1 reports {} users", reported(1));
    ensure!(reported(2) == 1 + moved as u64, "load", "{ctx}: broker 2 reports {} users", reported(2));
    for t in 0..3 {
        let n = crossing(&mut w, &broadcast(&[t], &[t])).await;
        ensure!(n == 0, "subscription left", "{ctx}: a broadcast to topic {t} is sent to broker 1");
    }
    let n = crossing(&mut w, &direct(1, b"lost")).await;
    ensure!(n == 0, "location left", "{ctx}: a direct message to it is sent to broker 1");
    if let (End::Moved, Some(n)) = (end, again.as_mut()) {
        let got: Vec<_> = n.take().into_iter().filter(|m| payload(m) == b"lost").collect();
        ensure!(got.len() == 1, "not moved", "{ctx}: {got:?}");
        n.close();
        quiesce().await;
    }
    // It comes back
    store(|s| s.whitelist = None);
    v.take();
    let mut n = login(1, 1, &[1]).await;
    exchange().await;
    for t in 0..3 {
        w.broadcast(&[t], &[t]);
        v.broadcast(&[t], &[t, 9]);
        quiesce().await;
        let mut got: Vec<Vec<u8>> = n.take().iter().map(payload).collect();
        got.sort();
        let want = if t == 1 { vec![vec![t], vec![t, 9]] } else { vec![] };
        ensure!(got == want, "topics", "{ctx}: back with topic 1, it gets {got:?} of topic {t}");
    }
    w.direct(1, b"x");
    v.direct(1, b"y");
    quiesce().await;
    ensure!(n.take().len() == 2, "not back", "{ctx}");
    let n = gauge("num_users_connected") - g0;
    ensure!(n == 3, "metric", "{ctx}: {n} users instead of 3, at the end");
    exchange().await;
    ensure!(reported(1) == 2, "load", "{ctx}: broker 1 reports {} users, at the end", reported(1));
    vmc::cover("ended");
}

/// Until a heartbeat has been made
async fn heartbeat() {
    vmc::sleep(MS(10_100)).await;
    vmc::settle().await;
}

/// Users come and go in any order; what is reported follows
async fn counts(depth: usize) {
    vmc::deadline(Some(S(900)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(1).await;
    let mut live: BTreeMap<u64, User> = BTreeMap::new();
    for i in 0..depth {
        vmc::explore(true);
        let what = vmc::choose(7, "act");
        let key = 1 + vmc::choose(2, "key") as u64;
        vmc::explore(false);
        match what {
            0 | 1 => {
                live.insert(key, login(1, key, &[0]).await);
            }
            2 => drop(live.remove(&key)),
            3 => {
                if let Some(u) = live.remove(&key) {
                    u.p.conn.cut();
                }
            }
            4 => {
                if let Some(mut u) = live.remove(&key) {
                    u.send(&Message::TopicSync(vec![]));
                }
            }
            5 => {
                if let Some(u) = live.get_mut(&key) {
                    u.unsubscribe(&[0]);
                }
            }
            _ => {
                whitelist(&[3 - key]);
                vmc::sleep(S(61)).await;
                live.remove(&key);
                store(|s| s.whitelist = None);
            }
        }
        vmc::settle().await;
        if what == 1 || what == 5 {
            heartbeat().await;
            ensure!(reported(1) == live.len() as u64, "load", "{} instead of {}", reported(1), live.len());
        }
        let n = gauge("num_users_connected") - g0;
        ensure!(n == live.len() as i64, "metric", "{n} users instead of {} after {i} acts", live.len());
    }
    for (k, u) in &mut live {
        ensure!(!u.closed(), "ended", "session of {k}");
    }
    heartbeat().await;
    ensure!(reported(1) == live.len() as u64, "load", "{} instead of {}", reported(1), live.len());
    vmc::outcome(live.len() as u64);
    vmc::cover("counted");
}

/// A user comes back, here or there, with what it asks for and nothing else
async fn back(thorough: bool) {
    vmc::deadline(Some(S(900)));
    let _m = mesh(2).await;
    let mut v = login(1, 9, &[]).await;
    let mut w = login(2, 8, &[]).await;
    const T: [&[u8]; 4] = [&[], &[0], &[0, 1], &[1]];
    vmc::explore(true);
    let first = pick("first at", &[1u16, 2]);
    let had = pick("first topics", &T[..3]);
    let later = pick("later", &[Late::Nothing, Late::Subscribe, Late::Unsubscribe]);
    let end = pick("end", if thorough { &[Some(End::Close), Some(End::Reset), Some(End::Bad), None] } else { &[Some(End::Close), None] });
    let known = pick("exchange", &[false, true]);
    let then = pick("then at", &[1u16, 2]);
    let has = pick("then topics", if thorough { &T } else { &[&[], &[1]] });
    vmc::explore(false);
    let ctx = format!("at {first} with {had:?}, {later:?}, {end:?}, {known}, at {then} with {has:?}");
    let mut u = login(first, 1, had).await;
    match later {
        Late::Subscribe => u.subscribe(&[2]),
        Late::Unsubscribe if !had.is_empty() => u.unsubscribe(&[0]),
        _ => {}
    }
    vmc::settle().await;
    if known || (end.is_none() && first != then) {
        exchange().await;
    }
    match end {
        Some(End::Close) => u.close(),
        Some(End::Reset) => u.p.conn.cut(),
        Some(_) => u.send(&Message::UserSync(vec![])),
        None => {}
    }
    vmc::settle().await;
    let mut n = login(then, 1, has).await;
    quiesce().await;
    n.subscribe(&[1]);
    n.unsubscribe(&[1]);
    if has.contains(&1) {
        n.subscribe(&[1]);
    }
    exchange().await;
    ensure!(u.closed() || !u.p.is_open(), "not ended", "{ctx}");
    ensure!(!n.closed(), "not there", "{ctx}");
    n.take();
    for t in 0..3 {
        let over = crossing(&mut w, &broadcast(&[t], &[t])).await;
        let want = usize::from(then == 1 && has.contains(&t));
        ensure!(over == want, "forwarded", "{ctx}: a broadcast to topic {t} is sent to broker 1 {over} times");
        v.broadcast(&[t], &[t, 9]);
        quiesce().await;
        let mut got: Vec<Vec<u8>> = n.take().iter().map(payload).collect();
        got.sort();
        let want = if has.contains(&t) { vec![vec![t], vec![t, 9]] } else { vec![] };
        ensure!(got == want, "topics", "{ctx}: it gets {got:?} of topic {t}");
    }
    ensure!(u.take().iter().all(|m| payload(m).len() > 2), "old session served", "{ctx}");
    vmc::cover("back");
}

fn m05(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("back", (0, 1), move || async move { back(thorough).await }).steps(80_000));
    v.push(Scenario::new("ending", (2, 3), || async { ending().await }).steps(80_000));
    let d = if thorough { 5 } else { 4 };
    v.push(Scenario::new(format!("counts, {d} acts"), (0, 0), move || async move { counts(d).await }).steps(80_000));
}

// ------------------------------------------------------------------------------------------------------------- M06

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    Close,
    Reset,
    /// The machine is gone: nothing comes back any more
    Vanish,
    /// The rest of a frame never comes
    HalfFrame,
    Garbage,
    Oversized,
    /// It sends a lot, to everybody
    Flood,
    /// It reads nothing, and a lot is sent to it
    Deaf,
    /// It both floods and does not read
    DeafFlood,
    /// Messages that make no sense from it
    Nonsense,
}
const TROUBLES: [Trouble; 11] = [
    Trouble::None,
    Trouble::Close,
    Trouble::Reset,
    Trouble::Vanish,
    Trouble::HalfFrame,
    Trouble::Garbage,
    Trouble::Oversized,
    Trouble::Flood,
    Trouble::Deaf,
    Trouble::DeafFlood,
    Trouble::Nonsense,
];

enum Bad {
    User(User),
    Broker(Fake),
    /// A connection to the users' (brokers') port that has not authenticated
    Stranger(Peer),
}
impl Bad {
    fn p(&mut self) -> &mut Peer {
        match self {
            Bad::User(u) => &mut u.p,
            Bad::Broker(f) => &mut f.p,
            Bad::Stranger(p) => p,
        }
    }
}

/// One peer is in trouble; the others exchange messages all the while
async fn trouble(kind: u8, pool: Option<usize>) {
    vmc::deadline(Some(S(900)));
    let ex = vmc::exploring();
    vmc::explore(false);
    let g0 = gauge("num_users_connected");
    let mut nodes = vec![];
    for i in 1..=2 {
        nodes.push(start_broker_with::<crate::def::Tcp, crate::def::Tcp>(i, pool).await);
    }
    vmc::sleep(MS(10_500)).await;
    vmc::settle().await;
    ensure!(link(1, 2).is_some(), "setup", "not linked");
    let mut a = login(1, 11, &[0]).await;
    let mut b = login(1, 12, &[0]).await;
    let mut c = login(2, 13, &[0]).await;
    sim::set_default_cap(2048);
    let mut bad = match kind {
        0 => Bad::User(login(1, 1, &[0]).await),
        1 => match fake_in(1, "127.0.0.1:1500/127.0.0.1:2500").await {
            Some(f) => Bad::Broker(f),
            None => return vmc::fail("setup", "no link".to_string()),
        },
        2 => Bad::Stranger(Peer::connect(pub_port(1)).await.expect("connect")),
        _ => Bad::Stranger(Peer::connect(priv_port(1)).await.expect("connect")),
    };
    if let Bad::Broker(f) = &mut bad {
        // It claims a user (and serves nobody)
        f.take();
    }
    vmc::sleep(S(21)).await;
    vmc::settle().await;
    vmc::explore(ex);
    vmc::explore(true);
    let what = pick("trouble", &TROUBLES);
    let deaf = matches!(what, Trouble::Deaf | Trouble::DeafFlood | Trouble::Vanish);
    match what {
        Trouble::None | Trouble::Deaf => {}
        Trouble::Close => bad.p().close(),
        Trouble::Reset => bad.p().conn.cut(),
        Trouble::Vanish => bad.p().conn.vanish(),
        Trouble::HalfFrame => bad.p().send_bytes(&[0, 0, 0, 90, 1, 2, 3]),
        Trouble::Garbage => bad.p().send_frame(&[0xff; 64]),
        Trouble::Oversized => bad.p().send_bytes(&[0xff; 64]),
        Trouble::Flood | Trouble::DeafFlood => {
            for i in 0..20u8 {
                bad.p().send(&direct(11, &[b'f', i]));
                bad.p().send(&broadcast(&[0], &[b'f', i, 0]));
                bad.p().send(&direct(1, &[b'f'; 900]));
            }
        }
        Trouble::Nonsense => {
            bad.p().send(&auth_permit(7));
            bad.p().send(&Message::TopicSync(vec![1, 2, 3]));
        }
    }
    let mut sent = 0u8;
    let mut ended = None;
    let rounds = 14;
    for round in 0..rounds {
        // Everybody to everybody, and something for the one in trouble
        sent += 1;
        a.direct(12, &[sent, 1]);
        c.direct(12, &[sent, 2]);
        b.broadcast(&[0], &[sent, 3]);
        if kind == 0 {
            for _ in 0..3 {
                a.direct(1, &[b'z'; 900]);
            }
            c.direct(1, &[b'z'; 900]);
        }
        let start = vmc::now();
        let mut need: Vec<(usize, [u8; 2])> = vec![(1, [sent, 1]), (1, [sent, 2]), (0, [sent, 3]), (1, [sent, 3]), (2, [sent, 3])];
        let limit = if pool.is_some() { 20_000 } else { 200 };
        loop {
            vmc::settle().await;
            for (i, u) in [&mut a, &mut b, &mut c].into_iter().enumerate() {
                for m in u.take() {
                    let p = payload(&m);
                    if p.first() == Some(&b'f') || p.first() == Some(&b'z') {
                        continue;
                    }
                    let at = need.iter().position(|n| n.0 == i && n.1[..] == p[..]);
                    ensure!(at.is_some(), "unexpected", "{what:?}: user {i} gets {p:?} in round {round}");
                    if let Some(k) = at {
                        need.remove(k);
                    }
                }
            }
            if !deaf {
                let p = bad.p();
                if p.is_open() {
                    p.pump();
                }
            } else {
                bad.p().flush();
            }
            if need.is_empty() || vmc::now() - start > MS(limit) {
                break;
            }
            vmc::sleep(MS(20)).await;
        }
        ensure!(need.is_empty(), "delayed", "{what:?}: {need:?} missing after {limit} ms in round {round}");
        for (i, u) in [&mut a, &mut b, &mut c].into_iter().enumerate() {
            ensure!(!u.closed(), "others ended", "{what:?}: user {i} in round {round}");
        }
        ensure!(link(1, 2).is_some(), "others ended", "{what:?}: the link in round {round}");
        if round == 0 {
            vmc::explore(false);
        }
        if ended.is_none() && bad.p().closed() {
            ended = Some(round);
        }
        vmc::sleep(S(1)).await;
    }
    // It is cut off when it does not read
    if deaf && kind == 0 {
        ensure!(ended.is_some(), "not cut off", "{what:?}: still connected after {rounds} s");
        let n = gauge("num_users_connected") - g0;
        ensure!(n == 3, "metric", "{what:?}: {n} users are counted after {rounds} s instead of 3");
    }
    if what == Trouble::None && kind < 2 {
        ensure!(ended.is_none(), "ended", "kind {kind}: without a reason");
    }
    for n in &nodes {
        ensure!(n.running(), "stopped", "{what:?}: broker {}", n.n);
    }
    vmc::outcome(ended.map_or(0, |e| e + 1) as u64);
    vmc::cover(if ended.is_some() { "cut off" } else { "stays" });
}

/// One of several recipients of a broadcast is lost just when it is sent; all the others get it
async fn one_lost(broker: bool) {
    vmc::deadline(Some(S(900)));
    let ex = vmc::exploring();
    vmc::explore(false);
    let _m = mesh(if broker { 4 } else { 1 }).await;
    let mut all = vec![];
    for i in 0..3u16 {
        all.push(login(if broker { i + 2 } else { 1 }, 1 + u64::from(i), &[0]).await);
    }
    let mut near = login(1, 8, &[0]).await;
    let mut from = login(1, 9, &[]).await;
    vmc::sleep(S(21)).await;
    vmc::settle().await;
    vmc::explore(ex);
    vmc::explore(true);
    let who = vmc::choose(3, "lost");
    let how = pick("how", &["reset", "closed", "no longer read", "nonsense"]);
    let first = vmc::choose(2, "sent first") == 1;
    let stuck = how == "no longer read";
    let conn = if broker {
        link(1, who as u16 + 2).expect("linked")
    } else {
        all[who].p.conn.clone()
    };
    // What the lost one reads and writes
    let inbound = match broker {
        true => usize::from(links(1, who as u16 + 2)[0].0 != 1),
        false => 1,
    };
    if stuck {
        // It is cut off after 5 s
        vmc::explore(false);
        conn.with(inbound, |h| h.cap = 0);
        conn.hold(inbound, true);
        from.broadcast(&[0], b"before");
        vmc::settle().await;
        vmc::sleep(MS(4_999)).await;
        vmc::settle().await;
        for u in &mut all {
            u.take();
        }
        near.take();
        vmc::explore(true);
        vmc::sleep(MS(1)).await;
    }
    if first {
        from.broadcast(&[0], &[1]);
    }
    match how {
        "reset" => conn.cut(),
        "closed" if !broker => all[who].close(),
        "closed" => conn.with(1 - inbound, |h| h.fin = true),
        "nonsense" if !broker => all[who].send(&Message::UserSync(vec![])),
        "nonsense" => conn.with(inbound, |h| h.reader_gone = true),
        _ => {}
    }
    if !first {
        from.broadcast(&[0], &[1]);
    }
    for i in 2..6 {
        tokio::task::yield_now().await;
        from.broadcast(&[0], &[i]);
    }
    vmc::settle().await;
    vmc::explore(false);
    quiesce().await;
    let want: Vec<Vec<u8>> = (1..6).map(|i| vec![i]).collect();
    for (i, u) in all.iter_mut().chain([&mut near]).enumerate().filter(|x| x.0 != who) {
        let got: Vec<_> = u.take().iter().map(payload).collect();
        ensure!(got == want, "others miss", "recipient {who} {how}: recipient {i} gets {got:?}");
        ensure!(!u.closed(), "others ended", "recipient {who} {how}: recipient {i}");
    }
    ensure!(!from.closed(), "others ended", "recipient {who} {how}: the sender");
    vmc::cover(how);
}

fn m06(_thorough: bool, v: &mut Vec<Scenario>) {
    for (broker, name) in [(false, "one of several users lost"), (true, "one of several brokers lost")] {
        v.push(Scenario::new(name, (1, 2), move || one_lost(broker)).seeds(2, 4).steps(60_000));
    }
    for (k, name) in ["user", "broker", "stranger to users", "stranger to brokers"].iter().enumerate() {
        v.push(
            Scenario::new(format!("a {name} in trouble"), (1, 2), move || async move { trouble(k as u8, None).await })
                .steps(120_000),
        );
    }
    v.push(Scenario::new("a user in trouble, limited memory", (0, 1), || async { trouble(0, Some(60_000)).await }).steps(120_000));
}
