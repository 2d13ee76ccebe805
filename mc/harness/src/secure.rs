//! Sessions as they are in production: users over TLS, brokers over TCP among themselves (R01, R03, M01, M05, M06).
use std::sync::Arc;

use cdn_proto::connection::auth::user::UserAuth;
use cdn_proto::connection::protocols::{Connection, Protocol};
use cdn_proto::message::Message;
use tokio::net::{sim, Conn};
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{Cd, Tcp, TcpTls};
use crate::ensure;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "R01" => v.push(Scenario::new("encrypted, addressed", (0, 1), || async { routed(false).await }).steps(400_000)),
        "R02" => v.push(Scenario::new("encrypted, broadcast", (0, 1), || async { routed(true).await }).steps(400_000)),
        "R03" => v.push(Scenario::new("encrypted", (0, 1), move || async move { ordered(if thorough { 120 } else { 40 }).await }).steps(400_000)),
        "M01" => v.push(Scenario::new("encrypted", (1, 2), || async { again().await }).steps(400_000)),
        "M05" => v.push(Scenario::new("encrypted", (1, 2), || async { ending().await }).steps(400_000)),
        "M06" => v.push(Scenario::new("encrypted", (0, 1), || async { trouble().await }).steps(2_000_000)),
        _ => {}
    }
}

/// A session; it ends when this goes
struct Secure {
    key: u64,
    conn: Connection,
    sim: Arc<Conn>,
    got: Log<Message>,
    /// Receives until the session ends
    h: tokio::task::JoinHandle<()>,
}
impl Secure {
    fn take(&self) -> Vec<Message> {
        std::mem::take(&mut *self.got.lock().unwrap())
    }
    async fn send(&self, m: Message) {
        if self.conn.send_message(m).await.is_err() {
            vmc::fail("ended", format!("user {} cannot send", self.key));
        }
    }
    fn ended(&self) -> bool {
        self.h.is_finished()
    }
}

impl Drop for Secure {
    fn drop(&mut self) {
        self.h.abort();
    }
}

async fn try_login(b: u16, key: u64, topics: &[u8]) -> Option<Secure> {
    let n = permit(b, key);
    let conn = TcpTls::connect(&format!("127.0.0.1:{}", pub_port(b)), true, none()).await.ok()?;
    let sim = sim::last_to(pub_port(b))?;
    UserAuth::<Cd<TcpTls>>::authenticate_with_broker(&conn, n, topics.iter().copied().collect()).await.ok()?;
    let got = log();
    let (c2, g2) = (conn.clone(), got.clone());
    let h = tokio::spawn(async move {
        while let Ok(m) = c2.recv_message().await {
            push(&g2, m);
        }
    });
    Some(Secure { key, conn, sim, got, h })
}
async fn login(b: u16, key: u64, topics: &[u8]) -> Secure {
    let s = try_login(b, key, topics).await;
    vmc::settle().await;
    ensure!(s.is_some(), "login", "user {key} is not admitted at broker {b}");
    s.unwrap()
}

async fn brokers(n: u16) -> Vec<Node> {
    let mut v = vec![];
    for b in 1..=n {
        v.push(start_broker_with::<Tcp, TcpTls>(b, None).await);
    }
    vmc::sleep(S(21)).await;
    vmc::settle().await;
    if n == 2 {
        ensure!(link(1, 2).is_some(), "setup", "the brokers are not linked");
    }
    v
}

/// Messages of all sizes between users of one and of two brokers
async fn routed(broad: bool) {
    vmc::deadline(Some(S(600)));
    let n = pick("brokers", &[1u16, 2]);
    let _b = brokers(n).await;
    let us = [login(1, 1, &[0, 1]).await, login(1, 2, &[1]).await, login(n, 3, &[0]).await];
    exchange().await;
    let size = pick("size", &[0usize, 1, 40, 16_383, 16_400, 70_000, 300_000]);
    let from = vmc::choose(3, "from");
    let to = vmc::choose(3, "to");
    let cap = pick("buffer", &[1usize << 20, 700]);
    for u in &us {
        u.sim.with(0, |h| h.cap = cap);
        u.sim.with(1, |h| h.cap = cap);
    }
    vmc::explore(true);
    let (topics, m): (&[u8], _) = if broad {
        let t: &[u8] = [&[0u8][..], &[1], &[0, 1]][to];
        (t, broadcast(t, &body(3, size)))
    } else {
        (&[], direct(us[to].key, &body(3, size)))
    };
    us[from].send(m.clone()).await;
    us[from].send(m.clone()).await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
    for (i, u) in us.iter().enumerate() {
        let wants: &[u8] = [&[0u8, 1][..], &[1], &[0]][i];
        let k = if broad { wants.iter().any(|t| topics.contains(t)) } else { i == to };
        let got = u.take();
        ensure!(got.len() == if k { 2 } else { 0 }, "deliveries", "{} of 2 messages of {size} bytes to user {}, from {from} to {to}", got.len(), u.key);
        ensure!(got.iter().all(|x| *x == m), "altered", "a message of {size} bytes");
        ensure!(!u.ended(), "ended", "the session of user {}", u.key);
    }
    vmc::cover("delivered");
}

/// A long sequence of mixed sizes, over a transport that is slow now and then
async fn ordered(n: usize) {
    vmc::deadline(Some(S(600)));
    let k = pick("brokers", &[1u16, 2]);
    let _b = brokers(k).await;
    let a = login(1, 1, &[]).await;
    let c = login(k, 2, &[0]).await;
    exchange().await;
    let broad = vmc::choose(2, "direct, broadcast") == 1;
    let cap = pick("buffer", &[1usize << 20, 900, 17]);
    a.sim.with(0, |h| h.cap = cap);
    c.sim.with(1, |h| h.cap = cap);
    let pause = pick("pauses", &[0u64, 1, 4000]);
    vmc::explore(true);
    const SIZES: [usize; 6] = [0, 2000, 1, 30, 17_000, 3];
    let size = |i: usize| 2 + SIZES[i % 6];
    for i in 0..n {
        let b = body(i as u8, size(i));
        a.send(if broad { broadcast(&[0], &b) } else { direct(2, &b) }).await;
        if pause > 0 && i % 13 == 12 {
            c.sim.hold(1, true);
            vmc::sleep(MS(pause)).await;
            c.sim.hold(1, false);
            vmc::sleep(MS(1)).await;
            vmc::settle().await;
        }
    }
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    let got = c.take();
    ensure!(got.len() == n && !c.ended(), "lost", "{} of {n}", got.len());
    for (i, m) in got.iter().enumerate() {
        ensure!(payload(m) == body(i as u8, size(i)), "order", "message {i} is another");
    }
    vmc::cover("in order");
}

/// A second session of a user replaces the first
async fn again() {
    vmc::deadline(Some(S(600)));
    let n = pick("brokers", &[1u16, 2]);
    let _b = brokers(n).await;
    let users0 = gauge("num_users_connected");
    let other = login(1, 2, &[]).await;
    let first = login(1, 1, &[0]).await;
    let dir = pick("first", &["healthy", "reads nothing", "silent"]);
    match dir {
        "reads nothing" => {
            first.sim.with(1, |h| h.cap = 10);
            first.sim.hold(1, true);
        }
        "silent" => first.sim.vanish(),
        _ => {}
    }
    exchange().await;
    vmc::explore(true);
    let traffic = vmc::choose(2, "traffic") == 1;
    if traffic {
        other.send(direct(1, b"meanwhile")).await;
    }
    let second = login(n, 1, &[1]).await;
    vmc::settle().await;
    vmc::explore(false);
    ensure!(dir != "healthy" || first.ended(), "both", "the earlier session goes on");
    exchange().await;
    second.take();
    other.send(direct(1, b"direct")).await;
    other.send(broadcast(&[0], b"old topic")).await;
    other.send(broadcast(&[1], b"topic")).await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
    let got: Vec<_> = second.take().iter().map(payload).collect();
    ensure!(got == [&b"direct"[..], b"topic"], "session", "the new session gets {got:?}");
    ensure!(gauge("num_users_connected") == users0 + 2, "count", "{} users", gauge("num_users_connected") - users0);
    vmc::cover("replaced");
}

/// Nothing of a session remains, however it ends
async fn ending() {
    vmc::deadline(Some(S(600)));
    let _b = brokers(1).await;
    let users0 = gauge("num_users_connected");
    let a = login(1, 1, &[]).await;
    let tasks0 = vmc::group_tasks(1);
    let u = login(1, 2, &[0]).await;
    let how = pick("ends by", &["leaving", "reset", "a tampered byte", "half a record", "silence"]);
    let busy = vmc::choose(2, "messages on their way") == 1;
    vmc::explore(true);
    if busy {
        a.send(direct(2, b"x")).await;
        a.send(broadcast(&[0], b"y")).await;
    }
    match how {
        "leaving" => drop(u),
        "reset" => u.sim.cut(),
        "a tampered byte" => {
            u.sim.with(0, |h| h.flip = Some((h.written + 9, 1)));
            u.send(direct(1, b"tampered")).await;
            vmc::settle().await;
            ensure!(!a.take().iter().any(|m| payload(m) != b"y"), "accepted", "what was tampered with is delivered");
        }
        "half a record" => {
            u.sim.with(0, |h| h.cap = 10);
            u.sim.hold(0, true);
            let _ = u.conn.send_message(direct(1, b"half")).await;
            vmc::settle().await;
            u.sim.cut();
        }
        _ => {
            u.sim.with(1, |h| h.cap = 10);
            u.sim.vanish();
            a.send(direct(2, b"x")).await;
        }
    }
    vmc::settle().await;
    if how == "silence" {
        vmc::sleep(S(6)).await;
    }
    vmc::settle().await;
    vmc::explore(false);
    ensure!(gauge("num_users_connected") == users0 + 1, "count", "{} users after {how}", gauge("num_users_connected") - users0);
    ensure!(vmc::group_tasks(1) <= tasks0, "tasks", "{} tasks, not {tasks0}, after {how}", vmc::group_tasks(1));
    let u = login(1, 2, &[1]).await;
    a.send(broadcast(&[0], b"old")).await;
    a.send(broadcast(&[1], b"new")).await;
    a.send(direct(2, b"direct")).await;
    vmc::settle().await;
    let got: Vec<_> = u.take().iter().map(payload).collect();
    ensure!(got == [&b"new"[..], b"direct"] && !a.ended(), "remains", "after {how} and a new login: {got:?}");
    vmc::cover("ended");
}

/// One user in trouble, and traffic to it and another
async fn trouble() {
    vmc::deadline(Some(S(600)));
    let n = pick("brokers", &[1u16, 2]);
    let _b = brokers(n).await;
    let users0 = gauge("num_users_connected");
    let a = login(1, 1, &[]).await;
    let c = login(n, 2, &[0]).await;
    let mut bad = Some(login(n, 3, &[0]).await);
    exchange().await;
    let what = pick("trouble", &["reads nothing", "silent", "reset", "leaves", "tampers", "floods"]);
    let sim = bad.as_ref().unwrap().sim.clone();
    let broad = vmc::choose(2, "direct, broadcast") == 1;
    let size = pick("size", &[20usize, 3000]);
    vmc::explore(true);
    if what == "reads nothing" || what == "silent" {
        sim.with(1, |h| h.cap = 2000);
        sim.hold(1, true);
    }
    match what {
        "silent" => sim.vanish(),
        "reset" => sim.cut(),
        "leaves" => bad = None,
        "tampers" => {
            sim.with(0, |h| h.flip = Some((h.written + 7, 128)));
            bad.as_ref().unwrap().send(direct(1, b"t")).await;
        }
        "floods" => {
            for _ in 0..300 {
                bad.as_ref().unwrap().send(direct(77, &body(1, size))).await;
            }
        }
        _ => {}
    }
    let k = 60;
    for i in 0..k {
        let b = body(i, size);
        if broad {
            a.send(broadcast(&[0], &b)).await;
        } else {
            a.send(direct(3, &b)).await;
            a.send(direct(2, &b)).await;
        }
    }
    let t0 = vmc::now();
    vmc::sleep(MS(100)).await;
    vmc::settle().await;
    let got: Vec<_> = c.take().iter().map(payload).collect();
    let want: Vec<_> = (0..k).map(|i| body(i, size)).collect();
    ensure!(got == want, "others", "{} of {k} messages have reached another user {:?} after one in trouble ({what})", got.len(), vmc::now() - t0);
    ensure!(!a.ended() && !c.ended(), "others", "another user's session has ended ({what})");
    vmc::sleep(S(6)).await;
    vmc::settle().await;
    let stays = what == "floods";
    let left = gauge("num_users_connected") - users0;
    ensure!(left == if stays { 3 } else { 2 }, "cut off", "{left} users are connected six seconds after: {what}");
    a.send(direct(2, b"after")).await;
    vmc::settle().await;
    ensure!(c.take().len() == 1, "others", "afterwards ({what})");
    drop(bad);
    vmc::cover("unaffected");
}
