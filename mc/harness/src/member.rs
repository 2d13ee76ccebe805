//! M*: membership (sessions, moves, convergence, mesh, eviction).
use cdn_proto::message::Message;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "M01" => m01(thorough, v),
        _ => {}
    }
}

async fn quiesce() {
    vmc::settle().await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
}

// ------------------------------------------------------------------------------------------------------------- M01

#[derive(Clone, Copy, Debug, PartialEq)]
enum Old {
    /// Nothing happens to the older connection
    Idle,
    Close,
    Reset,
    /// It sends a message that ends a session
    Bad,
    /// It sends an ordinary message
    Message,
    /// It subscribes to another topic
    Subscribe,
    /// Another user sends to the key
    Addressed,
    /// It has gone, and another user sends to the key
    ResetAddressed,
    CloseAddressed,
}
const OLDS: [Old; 9] = [
    Old::Idle,
    Old::Close,
    Old::Reset,
    Old::Bad,
    Old::Message,
    Old::Subscribe,
    Old::Addressed,
    Old::ResetAddressed,
    Old::CloseAddressed,
];

fn old_event(old: Old, u: &mut User, other: &mut User) {
    match old {
        Old::Idle => {}
        Old::Close => u.close(),
        Old::Reset => u.p.conn.cut(),
        Old::Bad => u.send(&Message::UserSync(vec![])),
        Old::Message => u.direct(9, b"old"),
        Old::Subscribe => u.subscribe(&[2]),
        Old::Addressed => other.direct(1, b"late"),
        Old::ResetAddressed => {
            u.p.conn.cut();
            other.direct(1, b"late");
        }
        Old::CloseAddressed => {
            u.close();
            other.direct(1, b"late");
        }
    }
}

/// The session is open and receives what it should, once; the other sessions of its key are closed
async fn alone(new: &mut User, topics: &[u8], other: &mut User, users: i64, when: &str) {
    ensure!(!new.closed(), "new session ended", "{when}");
    new.take();
    other.take();
    other.direct(new.key, b"d");
    quiesce().await;
    let got = new.take();
    ensure!(got == vec![direct(new.key, b"d")], "not served", "{when}: a direct message gives {got:?}");
    for t in [0, 1, 2] {
        other.broadcast(&[t], &[t]);
        quiesce().await;
        let got = new.take();
        let want = if topics.contains(&t) { vec![broadcast(&[t], &[t])] } else { vec![] };
        ensure!(got == want, "subscriptions", "{when}: a broadcast to topic {t} gives {got:?}");
    }
    new.direct(other.key, b"up");
    quiesce().await;
    let up = other.take().iter().filter(|m| payload(m) == b"up").count();
    ensure!(up == 1, "not heard", "{when}: {up} copies of a message of the new session arrive");
    let n = gauge("num_users_connected");
    ensure!(n == users, "count", "{when}: {n} users are counted, not {users}");
}

/// A key is admitted again while something happens to its older connection
async fn readmitted(window: bool) {
    vmc::deadline(Some(S(600)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(1).await;
    let mut other = login(1, 9, &[]).await;
    let mut old = login(1, 1, &[0]).await;
    let n = permit(1, 1);
    let mut p = Peer::connect(pub_port(1)).await.expect("connect");
    vmc::explore(true);
    let what = pick("old", &OLDS);
    // 0: before the new session is presented, 1: while, 2: just after
    let when = vmc::choose(3, "when");
    if when == 0 {
        old_event(what, &mut old, &mut other);
        if window {
            tokio::task::yield_now().await;
        }
    }
    p.send(&auth_permit(n));
    if when == 1 {
        vmc::explore(false);
        vmc::settle().await;
        vmc::explore(true);
        old_event(what, &mut old, &mut other);
    }
    p.send(&Message::Subscribe(vec![1]));
    if when == 2 {
        if window {
            tokio::task::yield_now().await;
        }
        old_event(what, &mut old, &mut other);
    }
    quiesce().await;
    vmc::explore(false);
    let a = p.recv();
    let ok = matches!(a.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
    ensure!(ok, "not admitted", "{what:?}: {a:?}");
    let mut new = User { p, key: 1, b: 1, got: vec![] };
    ensure!(old.closed() || !old.p.is_open(), "old session open", "{what:?} {when}");
    alone(&mut new, &[1], &mut other, g0 + 2, &format!("{what:?} {when}")).await;
    ensure!(old.take().is_empty() || what == Old::Addressed, "old session served", "{what:?} {when}");
    // and later too
    vmc::sleep(S(21)).await;
    alone(&mut new, &[1], &mut other, g0 + 2, &format!("{what:?} {when}, later")).await;
    vmc::cover("handed over");
}

/// What the sessions subscribe to makes no difference to which of them remains
async fn subscribed_to() {
    vmc::deadline(Some(S(600)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(1).await;
    let mut other = login(1, 9, &[]).await;
    const T: [&[u8]; 5] = [&[], &[0], &[1], &[0, 1], &[0, 1, 2]];
    vmc::explore(true);
    let (first, second) = (pick("first", &T), pick("second", &T));
    let later = pick("later", &T[..2]);
    let what = pick("old", &[Old::Idle, Old::Message, Old::Subscribe, Old::Reset]);
    vmc::explore(false);
    let mut old = login(1, 1, first).await;
    if !later.is_empty() {
        old.subscribe(later);
        vmc::settle().await;
    }
    old_event(what, &mut old, &mut other);
    let mut new = login(1, 1, second).await;
    quiesce().await;
    ensure!(old.closed() || !old.p.is_open(), "old session open", "{first:?} {second:?} {what:?}");
    alone(&mut new, second, &mut other, g0 + 2, &format!("{first:?} {second:?} {what:?}")).await;
    vmc::cover("subscribed to");
}

/// Several sessions of a key are admitted at once
async fn at_once(n: usize) {
    vmc::deadline(Some(S(600)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(1).await;
    let mut other = login(1, 9, &[]).await;
    let mut ps = vec![];
    for i in 0..n {
        let mut p = Peer::connect(pub_port(1)).await.expect("connect");
        p.send(&auth_permit(permit(1, 1)));
        p.send(&Message::Subscribe(vec![i as u8]));
        ps.push(p);
    }
    vmc::explore(true);
    quiesce().await;
    vmc::explore(false);
    let mut us: Vec<(u8, User)> = vec![];
    for (i, mut p) in ps.into_iter().enumerate() {
        let a = p.recv();
        let ok = matches!(a.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
        // A session that was replaced at once may not get its answer
        ensure!(ok || p.closed() || p.eof, "not admitted", "session {i}: {a:?}");
        us.push((i as u8, User { p, key: 1, b: 1, got: vec![] }));
    }
    us.retain_mut(|u| !u.1.closed());
    ensure!(us.len() == 1, "sessions", "{} of {n} sessions are open", us.len());
    if let Some((i, mut u)) = us.pop() {
        vmc::outcome(u64::from(i));
        alone(&mut u, &[i], &mut other, g0 + 2, "at once").await;
    }
    vmc::cover("one remains");
}

/// A key is admitted again and again, and its connections end in any order
async fn chain(depth: usize) {
    vmc::deadline(Some(S(600)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(1).await;
    let mut other = login(1, 9, &[]).await;
    vmc::explore(true);
    let mut us: Vec<User> = vec![];
    let mut topics = vec![];
    let mut ended = false;
    for i in 0..depth {
        let op = vmc::choose(4, "login, end the newest, end an older one, login without topics");
        vmc::explore(false);
        match op {
            0 | 3 => {
                topics = if op == 0 { vec![(i % 3) as u8] } else { vec![] };
                us.push(login(1, 1, &topics).await);
                ended = false;
            }
            1 => {
                if let Some(u) = us.last_mut() {
                    u.close();
                    ended = true;
                }
            }
            _ => {
                let n = us.len();
                if n > 1 {
                    us[n - 2].p.conn.cut();
                }
            }
        }
        vmc::settle().await;
        vmc::explore(true);
    }
    vmc::explore(false);
    quiesce().await;
    let n = us.len();
    for (i, u) in us.iter_mut().enumerate() {
        if i + 1 < n {
            ensure!(u.closed(), "old session open", "session {i} of {n}");
        }
    }
    match us.last_mut() {
        Some(u) if !ended => alone(u, &topics, &mut other, g0 + 2, "after a chain").await,
        _ => {
            let c = gauge("num_users_connected") - g0;
            ensure!(c == 1, "count", "{c} users are counted, not 1");
        }
    }
    vmc::cover("chain");
}

fn m01(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("readmitted", (1, 2), || async { readmitted(false).await }));
    v.push(Scenario::new("readmitted, window", (1, 2), || async { readmitted(true).await }));
    v.push(Scenario::new("topics", (0, 1), || async { subscribed_to().await }));
    for n in [2, 3] {
        v.push(Scenario::new(format!("{n} at once"), (2, 3), move || async move { at_once(n).await }));
    }
    let d = if thorough { 7 } else { 5 };
    v.push(Scenario::new("chain", (0, 0), move || async move { chain(d).await }));
}
