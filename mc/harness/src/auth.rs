//! A*: admission of users and brokers.
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::{AuthenticateWithKey, Message};
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{pk, sign};
use crate::disc::{set_fault, store, Fault, Op, Permit};
use crate::ensure;
use crate::peer::{Peer, Server};
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "A01" => a01(thorough, v),
        "A02" => a02(thorough, v),
        "A03" => a03(thorough, v),
        "A04" => a04(thorough, v),
        _ => {}
    }
}

#[derive(Debug, PartialEq)]
enum Answer {
    Granted(u64, String),
    Refused,
    /// Closed without a word
    Closed,
    /// Nothing yet
    Open,
    Other,
}

/// What a node has answered so far
fn answer(p: &mut Peer) -> Answer {
    let m = p.recv();
    let closed = p.closed() || p.eof;
    match &m[..] {
        [] if closed => Answer::Closed,
        [] => Answer::Open,
        [Message::AuthenticateResponse(r)] if r.permit == 0 => Answer::Refused,
        [Message::AuthenticateResponse(r)] => Answer::Granted(r.permit, r.context.clone()),
        _ => Answer::Other,
    }
}

// ------------------------------------------------------------------------------------------------------------- A01

#[derive(Clone, Copy, Debug)]
enum Offset {
    Rel(i64),
    Abs(u64),
}
const OFFSETS: [Offset; 15] = [
    Offset::Rel(0),
    Offset::Rel(-1),
    Offset::Rel(-5),
    Offset::Rel(-6),
    Offset::Rel(-7),
    Offset::Rel(-60),
    Offset::Rel(-1_000_000),
    Offset::Rel(1),
    Offset::Rel(5),
    Offset::Rel(6),
    Offset::Rel(100),
    Offset::Abs(0),
    Offset::Abs(u64::MAX),
    Offset::Abs(1 << 63),
    Offset::Abs(u64::MAX - 5),
];
fn at(o: Offset) -> u64 {
    match o {
        Offset::Rel(d) => wall().wrapping_add_signed(d),
        Offset::Abs(t) => t,
    }
}
/// Some(true): must be fresh enough, Some(false): must not, None: either (slightly in the future)
fn fresh(t: u64) -> Option<bool> {
    let now = wall();
    if t <= now {
        Some(now - t <= 5)
    } else if t - now <= 5 {
        None
    } else {
        Some(false)
    }
}

/// How a signature is bad
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tamper {
    No,
    OtherTime,
    Flipped,
    Truncated,
    Empty,
}
const TAMPERS: [Tamper; 5] = [Tamper::No, Tamper::OtherTime, Tamper::Flipped, Tamper::Truncated, Tamper::Empty];

fn key_message(claim: &[u8], signer: u64, ns: Namespace, t: u64, tamper: Tamper) -> Message {
    let signed = if tamper == Tamper::OtherTime { t.wrapping_add(1) } else { t };
    let mut signature = sign(signer, ns, &signed.to_le_bytes());
    match tamper {
        Tamper::Flipped => {
            let n = signature.len();
            signature[n - 1] ^= 1;
        }
        Tamper::Truncated => {
            signature.pop();
        }
        Tamper::Empty => signature.clear(),
        _ => {}
    }
    Message::AuthenticateWithKey(AuthenticateWithKey { public_key: claim.to_vec(), timestamp: t, signature })
}

fn claims() -> Vec<(&'static str, Vec<u8>)> {
    let mut cut = pk(1);
    cut.pop();
    let mut other = pk(1);
    other[0] ^= 0x40;
    let mut long = pk(1);
    long.push(0);
    let mut twice = pk(1);
    twice.extend(pk(2));
    vec![("key 1", pk(1)), ("key 2", pk(2)), ("cut", cut), ("garbage", other), ("empty", vec![]), ("more", long), ("twice", twice)]
}
/// The key that a claim encodes: another encoding of a key is no other key
fn canonical(claim: &[u8]) -> Vec<u8> {
    if claim.starts_with(&pk(1)) {
        pk(1)
    } else {
        claim.to_vec()
    }
}

fn permits() -> Vec<(u64, Permit)> {
    store(|s| s.permits.iter().map(|(k, p)| (*k, p.clone())).collect())
}

/// Presents an opening to the marshal; true if a permit was granted, which is then checked
async fn open(m: &Message, what: &dyn Fn() -> String) -> Option<bool> {
    let before = permits();
    let mut p = Peer::connect(MARSHAL).await?;
    p.send(m);
    vmc::settle().await;
    let a = answer(&mut p);
    vmc::settle().await;
    ensure!(p.closed(), "left open", "{}: the connection is not closed", what());
    let after = permits();
    let new: Vec<_> = after.iter().filter(|(k, _)| before.iter().all(|b| b.0 != *k)).collect();
    vmc::cases(1);
    match a {
        Answer::Granted(n, ctx) => {
            ensure!(new.len() == 1 && new[0].0 == n && n > 1, "permit", "{}: granted {n}, but the new permits are {new:?}", what());
            let Message::AuthenticateWithKey(k) = m else {
                vmc::fail("wrong grant", what());
                return Some(true);
            };
            let q = &new[0].1;
            ensure!(q.key == canonical(&k.public_key), "wrong key", "{}: the permit is for {:?}", what(), q.key);
            ensure!(q.broker.public_advertise_endpoint == ctx, "wrong broker", "{}: told {ctx}, permit at {}", what(), q.broker);
            ensure!(q.expires == vmc::now() + S(30), "expiry", "{}: the permit expires at {:?}", what(), q.expires);
            Some(true)
        }
        Answer::Refused => {
            ensure!(new.is_empty(), "permit despite refusal", "{}: {new:?}", what());
            Some(false)
        }
        a => {
            vmc::fail("no answer", format!("{}: {a:?}", what()));
            Some(false)
        }
    }
}

/// All openings with a key against one marshal
async fn openings(offsets: &'static [Offset]) {
    vmc::deadline(Some(S(300)));
    vmc::explore(true);
    let wl = vmc::choose(4, "whitelist");
    let brokers = vmc::choose(3, "brokers") as u16;
    let claim = pick("claim", &claims());
    let signer = pick("signer", &[1u64, 2, CLUSTER]);
    vmc::explore(false);
    let mut nodes = vec![];
    for b in 1..=brokers {
        nodes.push(start_broker(b).await);
    }
    let _m = start_marshal().await;
    vmc::sleep(S(11)).await;
    let listed: Option<Vec<u64>> = match wl {
        0 => None,
        1 => Some(vec![1]),
        2 => Some(vec![2, 1]),
        _ => Some(vec![7, 2]),
    };
    store(|s| s.whitelist = listed.as_ref().map(|l| l.iter().map(|k| pk(*k).into()).collect()));
    for ns in [Namespace::UserMarshalAuth, Namespace::BrokerBrokerAuth] {
        for o in offsets {
            for tamper in TAMPERS {
                let t = at(*o);
                let user_ns = matches!(ns, Namespace::UserMarshalAuth);
                let m = key_message(&claim.1, signer, if user_ns { Namespace::UserMarshalAuth } else { Namespace::BrokerBrokerAuth }, t, tamper);
                let what = || {
                    format!("claim {}, signed by {signer}, for users {user_ns}, {o:?}, {tamper:?}, whitelist {listed:?}, {brokers} brokers", claim.0)
                };
                let granted = open(&m, &what).await;
                let Some(granted) = granted else {
                    vmc::fail("not serving", what());
                    return;
                };
                let key = canonical(&claim.1);
                let proven = key == pk(signer) && user_ns && tamper == Tamper::No;
                let allowed = listed.as_ref().is_none_or(|l| l.contains(&signer));
                let rest = proven && allowed && brokers > 0;
                match fresh(t) {
                    // Another encoding of a key may be refused
                    Some(f) if key != claim.1 => ensure!(!granted || (rest && f), "wrong grant", "{}", what()),
                    Some(f) => {
                        ensure!(granted == (rest && f), if granted { "wrong grant" } else { "wrong refusal" }, "{}", what());
                    }
                    None => ensure!(!granted || rest, "wrong grant", "{}", what()),
                }
                if granted {
                    vmc::cover("granted");
                } else {
                    vmc::cover("refused");
                }
            }
        }
    }
    // it still serves others
    if brokers > 0 && listed.as_ref().is_none_or(|l| l.contains(&2)) {
        let m = auth_key(2, Namespace::UserMarshalAuth, wall());
        ensure!(open(&m, &|| "afterwards".into()).await == Some(true), "not serving", "an honest user is refused afterwards");
    }
}

/// Anything but a key as the first message
async fn other_messages() {
    vmc::deadline(Some(S(300)));
    let _b = start_broker(1).await;
    let _m = start_marshal().await;
    vmc::sleep(S(1)).await;
    vmc::explore(true);
    let then_key = vmc::choose(2, "then a valid key") == 1;
    for (i, m) in [
        auth_permit(0),
        auth_permit(7),
        auth_response(1, "x"),
        auth_response(0, ""),
        direct(1, &[1]),
        broadcast(&[0], &[1]),
        Message::Subscribe(vec![]),
        Message::Unsubscribe(vec![0]),
        Message::UserSync(vec![1]),
        Message::TopicSync(vec![]),
    ]
    .iter()
    .enumerate()
    {
        let mut p = Peer::connect(MARSHAL).await.expect("connect");
        p.send(m);
        if then_key {
            p.send(&auth_key(1, Namespace::UserMarshalAuth, wall()));
        }
        vmc::settle().await;
        ensure!(answer(&mut p) == Answer::Refused, "no refusal", "message {i}");
        ensure!(p.closed(), "left open", "message {i}");
        ensure!(permits().is_empty(), "permit despite refusal", "message {i}");
        vmc::cases(1);
    }
    // what cannot be decoded ends the connection, perhaps without an answer
    for (i, f) in [vec![], vec![0; 8], vec![255; 64], vec![1, 2, 3]].iter().enumerate() {
        let mut p = Peer::connect(MARSHAL).await.expect("connect");
        p.send_frame(f);
        if then_key {
            p.send(&auth_key(1, Namespace::UserMarshalAuth, wall()));
        }
        vmc::settle().await;
        ensure!(matches!(answer(&mut p), Answer::Refused | Answer::Closed), "wrong grant", "bytes {i}");
        ensure!(p.closed(), "left open", "bytes {i}");
        ensure!(permits().is_empty(), "permit despite refusal", "bytes {i}");
        vmc::cases(1);
    }
    let m = auth_key(2, Namespace::UserMarshalAuth, wall());
    ensure!(open(&m, &|| "afterwards".into()).await == Some(true), "not serving", "an honest user is refused afterwards");
}

/// The discovery service fails at a step
async fn marshal_faults() {
    vmc::deadline(Some(S(300)));
    let _b = start_broker(1).await;
    let _m = start_marshal().await;
    vmc::sleep(S(1)).await;
    vmc::explore(true);
    let op = pick("step", &[Op::CheckWhitelist, Op::Least, Op::Issue]);
    let fault = pick("fault", &[Fault::Fail, Fault::Stall]);
    let listed = vmc::choose(2, "whitelisted") == 1;
    store(|s| s.whitelist = Some(if listed { vec![pk(1).into()] } else { vec![pk(5).into()] }));
    set_fault("marshal", op, Some(fault));
    let mut p = Peer::connect(MARSHAL).await.expect("connect");
    p.send(&auth_key(1, Namespace::UserMarshalAuth, wall()));
    vmc::settle().await;
    let t = vmc::now();
    let reaches = op == Op::CheckWhitelist || listed;
    if fault == Fault::Fail || !reaches {
        ensure!(answer(&mut p) == Answer::Refused, "no refusal", "{op:?} {fault:?}");
    }
    ensure!(until(S(5), || p.closed()).await, "left open", "{op:?} {fault:?}: still open after five seconds");
    ensure!(vmc::now() - t <= S(5), "left open", "{op:?} {fault:?}");
    ensure!(!matches!(answer(&mut p), Answer::Granted(..)), "wrong grant", "{op:?} {fault:?}");
    ensure!(permits().is_empty(), "permit despite refusal", "{op:?} {fault:?}");
    set_fault("marshal", op, None);
    store(|s| s.whitelist = None);
    let m = auth_key(2, Namespace::UserMarshalAuth, wall());
    ensure!(open(&m, &|| "afterwards".into()).await == Some(true), "not serving", "an honest user is refused afterwards");
}

/// Several users at the same time, under all schedules
async fn concurrent_openings() {
    vmc::deadline(Some(S(300)));
    let _b = mesh(2).await;
    let _m = start_marshal().await;
    store(|s| s.whitelist = Some(vec![pk(1).into(), pk(2).into()]));
    vmc::sleep(MS(500)).await;
    vmc::explore(true);
    let latency = vmc::choose(2, "discovery latency") == 1;
    if latency {
        store(|s| s.latency = MS(20));
    }
    let keys = [1u64, 2, 3, 1];
    let mut ps = vec![];
    for k in keys {
        let mut p = Peer::connect(MARSHAL).await.expect("connect");
        if k != 3 || vmc::choose(2, "bad key") == 0 {
            p.send(&auth_key(k, Namespace::UserMarshalAuth, wall()));
        } else {
            p.send(&key_message(&pk(1), 3, Namespace::UserMarshalAuth, wall(), Tamper::No));
        }
        ps.push((k, p));
    }
    vmc::settle().await;
    vmc::sleep(MS(200)).await;
    vmc::settle().await;
    let all = permits();
    let mut seen = vec![];
    for (k, p) in &mut ps {
        match answer(p) {
            Answer::Granted(n, ctx) => {
                ensure!(*k != 3, "wrong grant", "to the third");
                ensure!(!seen.contains(&n), "permit twice", "{n}");
                seen.push(n);
                let q = all.iter().find(|q| q.0 == n).map(|q| q.1.clone());
                ensure!(
                    q.is_some_and(|q| q.key == pk(*k) && q.broker.public_advertise_endpoint == ctx),
                    "wrong key", "user {k} has permit {n} of {all:?}"
                );
            }
            Answer::Refused => ensure!(*k == 3, "wrong refusal", "user {k}"),
            a => vmc::fail("no answer", format!("user {k}: {a:?}")),
        }
    }
    ensure!(all.len() == 3, "permit despite refusal", "{all:?}");
    vmc::cover("concurrent");
}

/// The message is signed, held back, and arrives later
async fn held_back() {
    vmc::deadline(Some(S(300)));
    let _b = start_broker(1).await;
    let _m = start_marshal().await;
    vmc::explore(true);
    let before = vmc::choose(8, "before connecting") as u64;
    let after = vmc::choose(6, "after connecting") as u64;
    let m = auth_key(1, Namespace::UserMarshalAuth, wall());
    vmc::sleep(S(before)).await;
    let mut p = Peer::connect(MARSHAL).await.expect("connect");
    vmc::settle().await;
    let after = after * 1000 - if after == 5 { 100 } else { 0 };
    vmc::sleep(MS(after)).await;
    p.send(&m);
    vmc::settle().await;
    // whole seconds are what a timestamp can tell
    let age = (before * 1000 + after) / 1000;
    match answer(&mut p) {
        Answer::Granted(..) => ensure!(age <= 5, "wrong grant", "accepted at an age of {age}"),
        a => ensure!(age > 5, "wrong refusal", "{a:?} at an age of {age}"),
    }
    ensure!(permits().len() == usize::from(age <= 5), "permit despite refusal", "age {age}");
}

fn a01(thorough: bool, v: &mut Vec<Scenario>) {
    let off: &'static [Offset] = &OFFSETS;
    v.push(Scenario::new("openings", (0, 0), move || async move { openings(off).await }));
    v.push(Scenario::new("other messages", (1, 2), || async { other_messages().await }));
    v.push(Scenario::new("discovery faults", (1, 2), || async { marshal_faults().await }));
    v.push(Scenario::new("held back", (0, 1), || async { held_back().await }));
    v.push(Scenario::new("concurrent", (2, 3), || async { concurrent_openings().await }).seeds(1, if thorough { 2 } else { 1 }));
}

// ------------------------------------------------------------------------------------------------------------- A02

/// Histories of issuing, waiting and presenting at two brokers
async fn presentations(depth: usize) {
    vmc::deadline(Some(S(2000)));
    let _m = mesh(2).await;
    let mut w = [login(1, 50, &[]).await, login(2, 51, &[]).await];
    exchange().await;
    vmc::explore(true);
    let mut issued: Vec<(u64, u16, u64, std::time::Duration)> = vec![];
    let mut hist = vec![];
    let mut live: Vec<User> = vec![];
    for _ in 0..depth {
        let k = vmc::choose(3, "issue, present, wait");
        match k {
            0 => {
                let b = 1 + vmc::choose(2, "for broker") as u16;
                let key = 1 + vmc::choose(2, "for key") as u64;
                let n = permit(b, key);
                issued.push((n, b, key, vmc::now() + S(30)));
                hist.push(format!("issue {n} for {key} at {b}"));
            }
            1 => {
                let b = 1 + vmc::choose(2, "at broker") as u16;
                let i = vmc::choose(issued.len() + 1, "which");
                let n = issued.get(i).map_or_else(|| pick("other permit", &[0u64, 1, 999_999]), |p| p.0);
                hist.push(format!("present {n} at {b}"));
                let good = issued.iter().position(|p| p.0 == n && p.1 == b && p.3 > vmc::now());
                let before = permits();
                let users = gauge("num_users_connected");
                let u = present(b, n, 0, &[0]).await;
                match (u, good) {
                    (Some(u), Some(g)) => {
                        let key = issued.remove(g).2;
                        let mut u = User { key, ..u };
                        ensure!(!permits().iter().any(|p| p.0 == n), "not used up", "{hist:?}");
                        // it acts as the key of the permit, and receives what is for it
                        w[b as usize - 1].direct(key, &[7, key as u8]);
                        vmc::settle().await;
                        let got = u.take();
                        ensure!(got.iter().map(payload).collect::<Vec<_>>() == [vec![7, key as u8]], "wrong identity", "{hist:?}: {got:?}");
                        for o in live.iter_mut() {
                            let got = o.take();
                            ensure!(got.is_empty(), "wrong identity", "{hist:?}: another session received {got:?}");
                        }
                        live.retain(|o| !(o.key == key && o.b == b));
                        live.push(u);
                        vmc::cover("admitted");
                    }
                    (None, None) => {
                        ensure!(permits().len() == before.len(), "consumed", "{hist:?}: a permit was used up");
                        ensure!(gauge("num_users_connected") == users, "trace", "{hist:?}: a user was registered");
                        // no trace: messages for either key go to whoever was there
                        for key in [1u64, 2] {
                            w[b as usize - 1].direct(key, &[9]);
                            vmc::settle().await;
                            for o in live.iter_mut() {
                                let got = o.take().len();
                                if o.b == b {
                                    ensure!(got == usize::from(o.key == key), "trace", "{hist:?}: user {} received {got}", o.key);
                                }
                                ensure!(!o.closed() || live_elsewhere(o), "trace", "{hist:?}: the session of user {} ended", o.key);
                            }
                        }
                        vmc::cover("refused");
                    }
                    (u, _) => vmc::fail(
                        if u.is_some() { "wrong admission" } else { "wrong refusal" },
                        format!("{hist:?}"),
                    ),
                }
            }
            _ => {
                let d = pick("seconds", &[15u64, 29, 30]);
                hist.push(format!("wait {d}"));
                vmc::sleep(S(d)).await;
                vmc::settle().await;
                // a user that is at both brokers is kept at one of them only
                live.retain_mut(|o| !o.closed());
            }
        }
    }
}
/// The user may have a newer session at the other broker, which ends this one
fn live_elsewhere(_u: &User) -> bool {
    true
}

/// Openings other than with a permit and a list of topics: refused, and without a trace
async fn other_openings() {
    vmc::deadline(Some(S(300)));
    let _m = mesh(1).await;
    let mut w = login(1, 50, &[]).await;
    let users = gauge("num_users_connected");
    vmc::explore(true);
    let n = permit(1, 1);
    let firsts: Vec<Message> = vec![
        auth_permit(n),
        auth_permit(0),
        auth_permit(1),
        auth_permit(u64::MAX),
        auth_key(1, Namespace::UserMarshalAuth, wall()),
        auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()),
        auth_response(1, ""),
        auth_response(n, ""),
        direct(50, &[1]),
        broadcast(&[0], &[1]),
        Message::Subscribe(vec![0]),
        Message::Unsubscribe(vec![0]),
        Message::UserSync(vec![]),
        Message::TopicSync(vec![]),
    ];
    let i = vmc::choose(firsts.len(), "first message");
    let mut p = Peer::connect(pub_port(1)).await.expect("connect");
    p.send(&firsts[i]);
    let pipelined = vmc::choose(2, "second message at once") == 1;
    if !pipelined {
        vmc::settle().await;
    }
    let mut got = vec![];
    if !pipelined {
        got.extend(p.recv());
    }
    let seconds: Vec<Option<Message>> = vec![
        Some(Message::Subscribe(vec![0])),
        None,
        Some(auth_permit(n)),
        Some(direct(50, &[1])),
        Some(broadcast(&[0], &[1])),
        Some(Message::Unsubscribe(vec![0])),
        Some(auth_key(1, Namespace::UserMarshalAuth, wall())),
        Some(Message::UserSync(vec![])),
    ];
    let j = vmc::choose(seconds.len(), "second message");
    match &seconds[j] {
        Some(m) => p.send(m),
        None => p.close(),
    }
    vmc::settle().await;
    got.extend(p.recv());
    let good = i == 0 && j == 0;
    if good {
        ensure!(matches!(&got[..], [Message::AuthenticateResponse(r)] if r.permit == 1), "wrong refusal", "{got:?}");
        ensure!(!p.closed(), "wrong refusal", "closed");
    } else {
        if p.is_open() || i != 0 {
            let refused = got.iter().any(|m| matches!(m, Message::AuthenticateResponse(r) if r.permit == 0));
            ensure!(refused || !p.is_open(), "no refusal", "first {i}, second {j}: {got:?}");
        }
        if i != 0 {
            ensure!(!got.iter().any(|m| matches!(m, Message::AuthenticateResponse(r) if r.permit != 0)), "wrong admission", "{got:?}");
            ensure!(permits().len() == 1, "consumed", "first {i}, second {j}");
        }
        ensure!(until(S(5), || p.closed()).await, "left open", "first {i}, second {j}");
    }
    ensure!(gauge("num_users_connected") == users + i64::from(good), "trace", "first {i}, second {j}: {} users", gauge("num_users_connected") - users);
    let got = w.take();
    ensure!(got.is_empty(), "effect", "first {i}, second {j}: {got:?}");
    w.direct(1, &[3]);
    w.broadcast(&[0], &[4]);
    vmc::settle().await;
    let got = p.recv();
    ensure!(got.len() == 2 * usize::from(good), "trace", "first {i}, second {j}: {got:?}");
    ensure!(!w.closed(), "effect", "the other session ended");
    vmc::cover("opened");
}

/// The same permit presented over several connections at the same time
async fn twice_at_once(brokers: u16) {
    vmc::deadline(Some(S(300)));
    let _m = mesh(brokers).await;
    let users = gauge("num_users_connected");
    vmc::explore(true);
    if vmc::choose(2, "discovery latency") == 1 {
        store(|s| s.latency = MS(20));
    }
    let n = permit(1, 1);
    let mut ps = vec![];
    for b in [1, brokers, 1] {
        let mut p = Peer::connect(pub_port(b)).await.expect("connect");
        p.send(&auth_permit(n));
        p.send(&Message::Subscribe(vec![0]));
        ps.push(p);
    }
    vmc::settle().await;
    vmc::sleep(MS(100)).await;
    vmc::settle().await;
    let mut yes = 0;
    for (i, p) in ps.iter_mut().enumerate() {
        match answer(p) {
            Answer::Granted(1, _) => {
                ensure!(!p.closed(), "wrong refusal", "admitted, but closed");
                yes += 1;
            }
            Answer::Refused => ensure!(p.closed(), "left open", "{i}"),
            a => vmc::fail("no answer", format!("{i}: {a:?}")),
        }
    }
    ensure!(yes == 1, "admissions", "{yes} were admitted");
    ensure!(gauge("num_users_connected") == users + 1, "trace", "{}", gauge("num_users_connected") - users);
    vmc::cover("presented");
}

/// The discovery service fails while a permit is checked
async fn broker_faults() {
    vmc::deadline(Some(S(300)));
    let _m = mesh(1).await;
    let users = gauge("num_users_connected");
    vmc::explore(true);
    let fault = pick("fault", &[Fault::Fail, Fault::Stall, Fault::FailAfter]);
    set_fault("", Op::Validate, Some(fault));
    let n = permit(1, 1);
    let mut p = Peer::connect(pub_port(1)).await.expect("connect");
    p.send(&auth_permit(n));
    p.send(&Message::Subscribe(vec![0]));
    vmc::settle().await;
    if fault != Fault::Stall {
        ensure!(answer(&mut p) == Answer::Refused, "no refusal", "{fault:?}");
    }
    let t = vmc::now();
    ensure!(until(S(5), || p.closed()).await && vmc::now() - t <= S(5), "left open", "{fault:?}");
    ensure!(gauge("num_users_connected") == users, "trace", "{fault:?}");
    ensure!((permits().len() == 1) == (fault != Fault::FailAfter), "consumed", "{fault:?}");
    set_fault("", Op::Validate, None);
    let n = permit(1, 2);
    ensure!(present(1, n, 2, &[0]).await.is_some(), "not serving", "after {fault:?}");
}

fn a02(thorough: bool, v: &mut Vec<Scenario>) {
    let d = usize::from(thorough);
    v.push(Scenario::new("presentations", (0, 0), move || async move { presentations(4 + d).await }));
    v.push(Scenario::new("other openings", (1, 2), || async { other_openings().await }));
    v.push(Scenario::new("twice at once", (2, 3), || async { twice_at_once(1).await }));
    v.push(Scenario::new("twice at once, two brokers", (1, 2), || async { twice_at_once(2).await }));
    v.push(Scenario::new("discovery faults", (1, 2), || async { broker_faults().await }));
}

// ------------------------------------------------------------------------------------------------------------- A03

const FAKE: &str = "127.0.0.1:9991/127.0.0.1:9992";

/// A node that talks to a broker's private port or is dialled by it. Checks that it is not treated as a broker (or that
/// it is); `u` is a user of the broker.
async fn treated(p: &mut Peer, u: &mut User, admitted: bool, mut seen: Vec<Message>, what: &dyn Fn() -> String) {
    // nothing that it sends is routed
    if p.is_open() {
        p.send(&direct(u.key, &[5]));
        p.send(&broadcast(&[0], &[6]));
    }
    vmc::settle().await;
    let got: Vec<_> = u.take().iter().map(payload).collect();
    ensure!(got == if admitted { vec![vec![5u8], vec![6]] } else { vec![] }, "routed", "{}: the user received {got:?}", what());
    // it is told nothing
    u.broadcast(&[0], &[7]);
    exchange().await;
    u.take();
    seen.extend(p.recv());
    let got = seen;
    if admitted {
        ensure!(got.iter().any(|m| matches!(m, Message::UserSync(_))), "no synchronisation", "{}: {got:?}", what());
        ensure!(!p.closed(), "closed", "{}", what());
        vmc::cover("admitted");
    } else {
        let secret = got.iter().any(|m| !matches!(m, Message::AuthenticateResponse(_) | Message::AuthenticateWithKey(_)));
        ensure!(!secret, "told", "{}: {got:?}", what());
        ensure!(p.closed(), "left open", "{}", what());
        vmc::cover("rejected");
    }
    ensure!(!u.closed(), "effect", "the session of the user ended");
}

/// The ways to prove, or fail to prove, possession of the cluster key
#[derive(Clone, Debug)]
struct Proof {
    claim: u64,
    signer: u64,
    users: bool,
    offset: i64,
    tamper: Tamper,
}
fn proofs() -> Vec<Proof> {
    let ok = Proof { claim: CLUSTER, signer: CLUSTER, users: false, offset: 0, tamper: Tamper::No };
    let mut v = vec![ok.clone()];
    for offset in [-1, -5, -6, -7, -1000, 1, 5, 6, 7, 1000, -1_750_000_000, i64::MAX] {
        v.push(Proof { offset, ..ok.clone() });
    }
    for tamper in &TAMPERS[1..] {
        v.push(Proof { tamper: *tamper, ..ok.clone() });
    }
    v.push(Proof { users: true, ..ok.clone() });
    v.push(Proof { claim: 1, signer: 1, ..ok.clone() });
    v.push(Proof { claim: CLUSTER, signer: 1, ..ok.clone() });
    v.push(Proof { claim: 1, signer: CLUSTER, ..ok.clone() });
    v.push(Proof { claim: 0, signer: CLUSTER, ..ok });
    v
}
impl Proof {
    fn message(&self) -> Message {
        let t = wall().wrapping_add_signed(self.offset);
        let claim = if self.claim == 0 { vec![1, 2, 3] } else { pk(self.claim) };
        let ns = if self.users { Namespace::UserMarshalAuth } else { Namespace::BrokerBrokerAuth };
        key_message(&claim, self.signer, ns, t, self.tamper)
    }
    /// None: may go either way
    fn good(&self) -> Option<bool> {
        let rest = self.claim == CLUSTER && self.signer == CLUSTER && !self.users && self.tamper == Tamper::No;
        match fresh(wall().wrapping_add_signed(self.offset)) {
            Some(f) => Some(f && rest),
            None if !rest => Some(false),
            None => None,
        }
    }
}
/// The ways to answer the broker's own proof
fn replies() -> Vec<(bool, Message)> {
    vec![
        (true, auth_response(1, FAKE)),
        (false, auth_response(0, FAKE)),
        (false, auth_response(0, "no")),
        (false, auth_response(2, FAKE)),
        (false, auth_response(u64::MAX, FAKE)),
        (false, auth_response(1, "")),
        (false, auth_response(1, "127.0.0.1:5")),
        (false, Message::Subscribe(vec![0])),
        (false, direct(1, &[1])),
        (false, broadcast(&[0], &[1])),
        (false, Message::UserSync(vec![])),
        (false, auth_permit(1)),
    ]
}

fn own_proof(m: &[Message]) -> bool {
    matches!(m, [Message::AuthenticateWithKey(k)] if k.public_key == pk(CLUSTER)
        && wall().abs_diff(k.timestamp) <= 1
        && k.signature == sign(CLUSTER, Namespace::BrokerBrokerAuth, &k.timestamp.to_le_bytes()))
}

/// Nodes that connect to a broker
async fn inbound(pipelined: bool) {
    vmc::deadline(Some(S(600)));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    vmc::explore(true);
    let proof = pick("proof", &proofs());
    let (accepts, reply) = pick("reply", &replies());
    let mut p = Peer::connect(priv_port(1)).await.expect("connect");
    let what = || format!("{proof:?}, then {reply:?}");
    p.send(&proof.message());
    if pipelined {
        p.send(&reply);
        vmc::settle().await;
        let m = p.recv();
        let accepted = matches!(m.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
        if let Some(g) = proof.good() {
            ensure!(accepted == g, if g { "wrong refusal" } else { "wrong admission" }, "{}", what());
        }
        treated(&mut p, &mut u, accepted && accepts, m, &what).await;
        return;
    }
    vmc::settle().await;
    let m = p.recv();
    let (accepted, rest) = match m.first() {
        Some(Message::AuthenticateResponse(r)) => (r.permit == 1, &m[1..]),
        _ => {
            vmc::fail("no answer", format!("{}: {m:?}", what()));
            return;
        }
    };
    if let Some(g) = proof.good() {
        ensure!(accepted == g, if g { "wrong refusal" } else { "wrong admission" }, "{}", what());
    }
    if accepted {
        let Some(Message::AuthenticateResponse(r)) = m.first() else { return };
        ensure!(r.context == ident(1).to_string(), "identity", "{}", r.context);
        ensure!(own_proof(rest), "own proof", "{}: {rest:?}", what());
    } else {
        ensure!(rest.is_empty(), "told", "{}: {rest:?}", what());
        ensure!(p.closed(), "left open", "{}", what());
    }
    p.send(&reply);
    treated(&mut p, &mut u, accepted && accepts, vec![], &what).await;
}

/// Messages that are not proofs, to the private port
async fn inbound_other() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    vmc::explore(true);
    let n = permit(1, 2);
    let firsts = [
        auth_permit(n),
        auth_permit(1),
        auth_response(1, FAKE),
        direct(1, &[1]),
        broadcast(&[0], &[1]),
        Message::Subscribe(vec![0]),
        Message::UserSync(vec![]),
        Message::TopicSync(vec![]),
    ];
    let i = vmc::choose(firsts.len() + 3, "first");
    let mut p = Peer::connect(priv_port(1)).await.expect("connect");
    match firsts.get(i) {
        Some(m) => p.send(m),
        None => p.send_frame(&[vec![], vec![0; 8], vec![255; 24]][i - firsts.len()]),
    }
    if vmc::choose(2, "then the proof") == 1 {
        p.send(&auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()));
        p.send(&auth_response(1, FAKE));
    }
    vmc::settle().await;
    let a = answer(&mut p);
    ensure!(a == Answer::Refused || (a == Answer::Closed && i >= firsts.len()), "no refusal", "message {i}: {a:?}");
    treated(&mut p, &mut u, false, vec![], &|| format!("message {i}")).await;
}

/// Nodes that a broker connects to, as discovery names them
async fn outbound() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    let s = Server::bind(9992).await;
    store(|st| st.brokers.insert(FAKE.to_string().try_into().unwrap(), (0, S(10_000))));
    vmc::explore(true);
    let proof = pick("proof", &proofs());
    let (accepts, reply) = pick("reply", &replies());
    let at_once = vmc::choose(2, "proof before the reply's effect") == 1;
    vmc::explore(false);
    let mut p = s.accept_wait().await;
    vmc::explore(true);
    // further attempts are not of interest
    store(|st| st.brokers.remove(&FAKE.to_string().try_into().unwrap()));
    vmc::settle().await;
    let m = p.recv();
    ensure!(own_proof(&m), "own proof", "{m:?}");
    let what = || format!("reply {reply:?}, proof {proof:?}");
    p.send(&reply);
    if !at_once {
        vmc::settle().await;
        let m = p.recv();
        ensure!(m.is_empty(), "told", "{}: {m:?}", what());
        ensure!(p.closed() != accepts, "left open", "{}", what());
    }
    p.send(&proof.message());
    vmc::settle().await;
    let m = p.recv();
    let mut ok = false;
    if accepts {
        match m.first() {
            Some(Message::AuthenticateResponse(r)) => {
                ok = r.permit == 1;
                if ok {
                    ensure!(r.context == ident(1).to_string(), "identity", "{}", r.context);
                }
            }
            _ => vmc::fail("no answer", format!("{}: {m:?}", what())),
        }
        if let Some(g) = proof.good() {
            ensure!(ok == g, if g { "wrong refusal" } else { "wrong admission" }, "{}", what());
        }
        // the rest of m is synchronisation
        if ok {
            ensure!(m.iter().any(|m| matches!(m, Message::UserSync(_))), "no synchronisation", "{m:?}");
            u.take();
            p.send(&direct(1, &[5]));
            vmc::settle().await;
            let got = u.take().len();
            ensure!(got == 1, "not routed", "{got}");
            vmc::cover("admitted");
            return;
        }
    } else {
        ensure!(m.is_empty(), "told", "{}: {m:?}", what());
    }
    treated(&mut p, &mut u, false, vec![], &what).await;
}

/// A recorded proof is of no use later
async fn recorded() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(2).await;
    let mut u = login(1, 1, &[0]).await;
    // a node that the broker dials records what the broker proves with
    let s = Server::bind(9992).await;
    store(|st| st.brokers.insert(FAKE.to_string().try_into().unwrap(), (0, S(10_000))));
    let mut f = s.accept_wait().await;
    store(|st| st.brokers.remove(&FAKE.to_string().try_into().unwrap()));
    vmc::settle().await;
    let m = f.recv();
    ensure!(own_proof(&m), "setup", "{m:?}");
    f.close();
    vmc::explore(true);
    let wait = pick("seconds", &[6u64, 7, 20, 100]);
    vmc::sleep(S(wait)).await;
    u.take();
    let mut p = Peer::connect(priv_port(1)).await.expect("connect");
    p.send(&m[0]);
    vmc::settle().await;
    ensure!(answer(&mut p) == Answer::Refused, "wrong admission", "after {wait} s");
    p.send(&auth_response(1, FAKE));
    treated(&mut p, &mut u, false, vec![], &|| format!("replayed after {wait} s")).await;
}

/// A node without the key returns the broker's own proof to it
async fn reflected() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    let s = Server::bind(9992).await;
    store(|st| st.brokers.insert(FAKE.to_string().try_into().unwrap(), (0, S(10_000))));
    let mut f = s.accept_wait().await;
    store(|st| st.brokers.remove(&FAKE.to_string().try_into().unwrap()));
    vmc::settle().await;
    let m = f.recv();
    ensure!(own_proof(&m), "setup", "{m:?}");
    f.send(&auth_response(1, FAKE));
    f.send(&m[0]);
    vmc::settle().await;
    let got = f.recv();
    let told = got.iter().any(|m| matches!(m, Message::UserSync(_)));
    f.send(&direct(1, &[5]));
    vmc::settle().await;
    ensure!(!told && u.take().is_empty(), "reflected", "the node is treated as a broker");
}

/// Several nodes at the same time
async fn concurrent_brokers() {
    vmc::deadline(Some(S(600)));
    let _m = mesh(1).await;
    let mut u = login(1, 1, &[0]).await;
    vmc::explore(true);
    let mut ps = vec![];
    for i in 0..3u64 {
        let mut p = Peer::connect(priv_port(1)).await.expect("connect");
        let k = if i == 1 { 1 } else { CLUSTER };
        p.send(&auth_key(k, Namespace::BrokerBrokerAuth, wall()));
        p.send(&auth_response(1, &format!("127.0.0.1:{}/127.0.0.1:{}", 8000 + i, 8100 + i)));
        ps.push(p);
    }
    vmc::settle().await;
    for (i, p) in ps.iter_mut().enumerate() {
        let m = p.recv();
        let ok = matches!(m.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
        ensure!(ok == (i != 1), "wrong admission", "{i}: {m:?}");
        ensure!(p.closed() == (i == 1), "left open", "{i}");
        p.send(&direct(1, &[i as u8]));
    }
    vmc::settle().await;
    let mut got: Vec<_> = u.take().iter().map(|m| payload(m)[0]).collect();
    got.sort_unstable();
    ensure!(got == [0, 2], "routed", "{got:?}");
    vmc::cover("concurrent");
}

fn a03(_thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("inbound", (1, 2), || async { inbound(false).await }));
    v.push(Scenario::new("inbound, all at once", (1, 2), || async { inbound(true).await }));
    v.push(Scenario::new("inbound, other messages", (1, 2), || async { inbound_other().await }));
    v.push(Scenario::new("outbound", (1, 2), || async { outbound().await }));
    v.push(Scenario::new("recorded", (0, 0), || async { recorded().await }));
    v.push(Scenario::new("concurrent", (1, 2), || async { concurrent_brokers().await }));
    v.push(Scenario::new("reflected", (0, 0), || async { reflected().await }));
}

// ------------------------------------------------------------------------------------------------------------- A04

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stall {
    /// Nothing is sent
    Silent,
    /// Half of the length
    HalfLength,
    /// A part of the first message
    Partial,
    /// A byte per second
    Drip,
    /// The first step is done, then silence
    AfterFirst,
    /// The first step is done, and the answer is not read
    NotReading,
    /// Half of the message of the second step
    PartialSecond,
    /// The second step, a byte per second
    DripSecond,
}
const STALLS: [Stall; 8] = [
    Stall::Silent,
    Stall::HalfLength,
    Stall::Partial,
    Stall::Drip,
    Stall::AfterFirst,
    Stall::NotReading,
    Stall::PartialSecond,
    Stall::DripSecond,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Door {
    Marshal,
    User,
    Broker,
    /// The broker dials the node
    Dialled,
}

/// A peer that stalls somewhere is cut off in time, and nothing is kept
async fn stalls(door: Door) {
    vmc::deadline(Some(S(600)));
    let _b = mesh(1).await;
    let _m = start_marshal().await;
    vmc::sleep(S(1)).await;
    let mut u = login(1, 9, &[0]).await;
    let s = Server::bind(9992).await;
    if door == Door::Dialled {
        store(|st| st.brokers.insert(FAKE.to_string().try_into().unwrap(), (0, S(10_000))));
    }
    vmc::explore(true);
    let stall = pick("stall", &STALLS);
    if door == Door::Marshal && matches!(stall, Stall::AfterFirst | Stall::PartialSecond | Stall::DripSecond) {
        return;
    }
    vmc::explore(false);
    let tasks0 = vmc::live_tasks();
    let users = gauge("num_users_connected");
    let brokers = gauge("num_brokers_connected");
    let port = match door {
        Door::Marshal => MARSHAL,
        Door::User => pub_port(1),
        _ => priv_port(1),
    };
    let mut p = if door == Door::Dialled {
        let p = s.accept_wait().await;
        store(|st| st.brokers.remove(&FAKE.to_string().try_into().unwrap()));
        p
    } else {
        Peer::connect(port).await.expect("connect")
    };
    let t0 = vmc::now();
    vmc::explore(true);
    if stall == Stall::NotReading {
        // the node cannot write to this peer
        p.conn.with(usize::from(door != Door::Dialled), |h| h.cap = 3);
    }
    let n = permit(1, 1);
    let (first, second) = match door {
        Door::Marshal => (auth_key(1, Namespace::UserMarshalAuth, wall()), auth_permit(1)),
        Door::User => (auth_permit(n), Message::Subscribe(vec![0])),
        Door::Broker => (auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()), auth_response(1, FAKE)),
        Door::Dialled => (auth_response(1, FAKE), auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall())),
    };
    let bytes = |m: &Message| crate::peer::frame(&m.serialize().unwrap());
    let (f, g) = (bytes(&first), bytes(&second));
    match stall {
        Stall::Silent => {}
        Stall::HalfLength => p.send_bytes(&f[..2]),
        Stall::Partial => p.send_bytes(&f[..9]),
        Stall::Drip => p.send_bytes(&f[..1]),
        Stall::AfterFirst | Stall::NotReading => p.send_bytes(&f),
        Stall::PartialSecond => {
            p.send_bytes(&f);
            p.send_bytes(&g[..9]);
        }
        Stall::DripSecond => {
            p.send_bytes(&f);
            p.send_bytes(&g[..1]);
        }
    }
    vmc::settle().await;
    // others are served at once meanwhile
    for round in 0..2u64 {
        let mut h = Peer::connect(MARSHAL).await.expect("connect");
        h.send(&auth_key(20 + round, Namespace::UserMarshalAuth, wall()));
        vmc::settle().await;
        match answer(&mut h) {
            Answer::Granted(n, _) => {
                let x = present(1, n, 20 + round, &[1]).await;
                match x {
                    Some(mut x) => {
                        x.direct(9, &[round as u8]);
                        vmc::settle().await;
                        ensure!(u.take().len() == 1, "others", "{stall:?}: a message is not delivered meanwhile");
                        x.close();
                    }
                    None => vmc::fail("others", format!("{stall:?}: another user is not admitted meanwhile")),
                }
            }
            a => vmc::fail("others", format!("{stall:?}: the marshal answers {a:?} to another user")),
        }
        let f = fake_in(1, &format!("127.0.0.1:{}/127.0.0.1:{}", 8000 + round, 8100 + round)).await;
        ensure!(f.is_some(), "others", "{stall:?}: another broker is not admitted meanwhile");
        if round == 0 {
            vmc::sleep(MS(1500)).await;
        }
    }
    let (mut i, mut j) = (1, 1);
    let limit = t0 + S(5) + MS(100);
    loop {
        vmc::settle().await;
        if p.conn.closed(usize::from(door != Door::Dialled)) || p.closed() {
            break;
        }
        ensure!(vmc::now() < limit, "not cut off", "{stall:?}: still open after {:?}", vmc::now() - t0);
        if vmc::now() >= limit {
            return;
        }
        if stall == Stall::Drip && (vmc::now() - t0).as_millis() >= 1000 * i as u128 {
            p.send_bytes(&f[i..=i]);
            i += 1;
        }
        if stall == Stall::DripSecond && (vmc::now() - t0).as_millis() >= 1000 * j as u128 {
            p.send_bytes(&g[j..=j]);
            j += 1;
        }
        vmc::sleep(MS(100)).await;
    }
    if stall != Stall::NotReading {
        let early = vmc::now() - t0 < S(4);
        ensure!(!early, "cut off early", "{stall:?}: after {:?}", vmc::now() - t0);
    }
    // nothing of it remains
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    let (nu, nb) = (gauge("num_users_connected") - users, gauge("num_brokers_connected") - brokers);
    ensure!(nu == 0 && nb == 0, "state", "{stall:?}: {nu} users, {nb} brokers");
    let left = vmc::live_tasks();
    ensure!(left <= tasks0, "tasks", "{stall:?}: {left} tasks, not {tasks0}: {:?}", vmc::live_task_names());
    u.direct(1, &[1]);
    vmc::settle().await;
    ensure!(!u.closed(), "others", "the other session ended");
    vmc::cover("cut off");
}

/// Many stalled peers at every door; then an honest user and broker come
async fn crowd(n: u16) {
    vmc::deadline(Some(S(600)));
    let _b = mesh(1).await;
    let _m = start_marshal().await;
    vmc::sleep(S(1)).await;
    vmc::explore(true);
    let how = pick("stall", &[Stall::Silent, Stall::Partial, Stall::AfterFirst]);
    let latency = vmc::choose(2, "discovery latency") == 1;
    if latency {
        store(|s| s.latency = MS(50));
    }
    let mut ps = vec![];
    for i in 0..n {
        for port in [MARSHAL, pub_port(1), priv_port(1)] {
            let mut p = Peer::connect(port).await.expect("connect");
            let m = match port {
                MARSHAL => auth_key(1, Namespace::UserMarshalAuth, wall()),
                p if p == pub_port(1) => auth_permit(permit(1, 100 + u64::from(i))),
                _ => auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()),
            };
            let b = crate::peer::frame(&m.serialize().unwrap());
            match how {
                Stall::Silent => {}
                Stall::Partial => p.send_bytes(&b[..11]),
                _ => p.send_bytes(&b),
            }
            ps.push(p);
        }
    }
    let t = vmc::now();
    let mut h = Peer::connect(MARSHAL).await.expect("connect");
    h.send(&auth_key(20, Namespace::UserMarshalAuth, wall()));
    let mut a = Answer::Open;
    until(S(1), || {
        a = answer(&mut h);
        a != Answer::Open
    })
    .await;
    let Answer::Granted(pn, _) = a else {
        vmc::fail("others", format!("{how:?}: the marshal answers {a:?}"));
        return;
    };
    let mut x = Peer::connect(pub_port(1)).await.expect("connect");
    x.send(&auth_permit(pn));
    x.send(&Message::Subscribe(vec![0]));
    let mut a = Answer::Open;
    until(S(1), || {
        a = answer(&mut x);
        a != Answer::Open
    })
    .await;
    ensure!(a == Answer::Granted(1, String::new()), "others", "{how:?}: the broker answers {a:?} to the user");
    let took = vmc::now() - t;
    ensure!(took <= MS(if latency { 500 } else { 100 }), "delayed", "{how:?}: {took:?}");
    let f = fake_in(1, "127.0.0.1:8000/127.0.0.1:8100").await;
    ensure!(f.is_some(), "others", "{how:?}: the broker does not admit another broker");
    x.send(&direct(20, &[3]));
    vmc::settle().await;
    ensure!(x.recv().len() == 1, "others", "{how:?}: a message is not delivered");
    vmc::sleep(S(6)).await;
    vmc::settle().await;
    for (i, p) in ps.iter_mut().enumerate() {
        ensure!(p.closed(), "not cut off", "{how:?}: peer {i}");
    }
    ensure!(!x.closed(), "others", "the session ended");
    vmc::cover("crowd");
}

/// Peers that go away in the middle
async fn leavers() {
    vmc::deadline(Some(S(600)));
    let _b = mesh(1).await;
    let _m = start_marshal().await;
    vmc::sleep(S(1)).await;
    let mut u = login(1, 9, &[0]).await;
    let users = gauge("num_users_connected");
    let tasks0 = vmc::live_tasks();
    vmc::explore(true);
    let port = pick("door", &[MARSHAL, pub_port(1), priv_port(1)]);
    let m = match port {
        MARSHAL => auth_key(1, Namespace::UserMarshalAuth, wall()),
        p if p == pub_port(1) => auth_permit(permit(1, 1)),
        _ => auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()),
    };
    let b = crate::peer::frame(&m.serialize().unwrap());
    let upto = pick("bytes sent", &[0, 3, 4, 10, b.len()]);
    let how = vmc::choose(3, "close, reset, vanish");
    let mut p = Peer::connect(port).await.expect("connect");
    p.send_bytes(&b[..upto]);
    if vmc::choose(2, "seen first") == 1 {
        vmc::settle().await;
    }
    match how {
        0 => p.close(),
        1 => p.conn.cut(),
        _ => p.conn.vanish(),
    }
    vmc::settle().await;
    let n = permit(1, 2);
    let x = present(1, n, 2, &[0]).await;
    ensure!(x.is_some(), "others", "another user is not admitted");
    drop(x);
    vmc::sleep(S(6)).await;
    vmc::settle().await;
    ensure!(gauge("num_users_connected") == users, "state", "{} users", gauge("num_users_connected") - users);
    let left = vmc::live_tasks();
    ensure!(left <= tasks0, "tasks", "{left} tasks, not {tasks0}: {:?}", vmc::live_task_names());
    u.direct(9, &[1]);
    vmc::settle().await;
    ensure!(u.take().len() == 1, "others", "not served");
    ensure!(sim::listening(MARSHAL) && sim::listening(pub_port(1)) && sim::listening(priv_port(1)), "stopped", "a listener has stopped");
    vmc::cover("left");
}

/// Peers that stall in the encrypted transport's own handshake
async fn stalled_tls() {
    vmc::deadline(Some(S(600)));
    let _b = start_broker_with::<crate::def::Tcp, crate::def::TcpTls>(1, None).await;
    let _m = start_marshal_with::<crate::def::TcpTls>(None).await;
    vmc::sleep(S(1)).await;
    let tasks0 = vmc::live_tasks();
    vmc::explore(true);
    let door = pick("door", &[MARSHAL, pub_port(1)]);
    let sent: &[u8] = pick("sent", &[&[][..], &[22][..], &[22, 3, 1, 1, 0, 1, 0, 0, 252, 3][..]]);
    let n = 1 + vmc::choose(2, "peers");
    let t0 = vmc::now();
    let mut ps = vec![];
    for _ in 0..n {
        let mut p = Peer::connect(door).await.expect("connect");
        p.send_bytes(sent);
        ps.push(p);
    }
    if vmc::choose(2, "seen first") == 1 {
        vmc::settle().await;
    }
    use cdn_proto::connection::auth::user::UserAuth;
    use cdn_proto::connection::protocols::Protocol;
    type C = crate::def::Cd<crate::def::TcpTls>;
    let h = tokio::spawn(async move {
        let m = crate::def::TcpTls::connect(&format!("127.0.0.1:{MARSHAL}"), true, none()).await.map_err(|e| e.to_string())?;
        let (ep, permit) =
            UserAuth::<C>::authenticate_with_marshal(&m, &crate::def::keypair(5)).await.map_err(|e| e.to_string())?;
        let b = crate::def::TcpTls::connect(&ep, true, none()).await.map_err(|e| e.to_string())?;
        UserAuth::<C>::authenticate_with_broker(&b, permit, [0].into()).await.map_err(|e| e.to_string())?;
        vmc::sleep(MS(10)).await;
        b.send_message(direct(5, b"x")).await.map_err(|e| e.to_string())?;
        let m = b.recv_message().await.map_err(|e| e.to_string())?;
        Ok::<_, String>((b, m))
    });
    let r = timeout(MS(100), h).await;
    let _session = match r {
        Some(Ok(Ok((b, m)))) => {
            ensure!(m == direct(5, b"x"), "others", "{m:?} arrives");
            Some(b)
        }
        Some(Ok(Err(e))) => {
            vmc::fail("others", format!("another user is not admitted: {e}"));
            None
        }
        _ => {
            vmc::fail("delayed", "another user is not admitted meanwhile".to_string());
            None
        }
    };
    vmc::explore(false);
    vmc::sleep((t0 + S(5) + MS(200)).saturating_sub(vmc::now())).await;
    vmc::settle().await;
    for p in &mut ps {
        ensure!(p.closed(), "not cut off", "after {:?}", vmc::now() - t0);
    }
    drop(_session);
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    let left = vmc::live_tasks();
    ensure!(left <= tasks0, "tasks", "{left} tasks, not {tasks0}: {:?}", vmc::live_task_names());
    vmc::cover("tls");
}

fn a04(_thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("stalled tls", (1, 2), || async { stalled_tls().await }));
    for d in [Door::Marshal, Door::User, Door::Broker, Door::Dialled] {
        v.push(Scenario::new(format!("stalls {d:?}"), (1, 2), move || async move { stalls(d).await }));
    }
    v.push(Scenario::new("crowd", (1, 2), || async { crowd(3).await }));
    v.push(Scenario::new("leavers", (1, 2), || async { leavers().await }));
}

