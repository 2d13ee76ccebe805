//! K*: the client.
use std::collections::BTreeSet;
use std::time::Duration;

use cdn_client::Client;
use cdn_proto::connection::protocols::Protocol;
use cdn_proto::message::Message;
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{Cd, Tcp, TcpTls};
use crate::ensure;
use crate::front::*;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "K01" => k01(thorough, v),
        "K02" => k02(thorough, v),
        "K03" => k03(thorough, v),
        "K04" => k04(thorough, v),
        "K05" => k05(thorough, v),
        _ => {}
    }
}

fn odd() {
    front(|f| {
        let mut o = f.odd.clone();
        for s in &f.sessions {
            o = o.or(s.odd.clone());
        }
        ensure!(o.is_none(), "protocol", "{o:?}");
    });
}

// ------------------------------------------------------------------------------------------------------------- K01

#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    Receive,
    Send,
    Ensure,
    Both,
}
const USES: [Use; 4] = [Use::Receive, Use::Send, Use::Ensure, Use::Both];

/// Starts tasks that use a client again and again
fn use_client(c: &Cl, u: Use, l: &Calls, received: &Log<Message>) {
    if matches!(u, Use::Receive | Use::Both) {
        let (c, l, rx) = (c.clone(), l.clone(), received.clone());
        let _ = go(async move {
            loop {
                match call(&l, "receive", c.receive_message()).await {
                    Ok(m) => push(&rx, m),
                    Err(_) => vmc::sleep(MS(1)).await,
                }
            }
        });
    }
    if matches!(u, Use::Send | Use::Both) {
        let (c, l) = (c.clone(), l.clone());
        let _ = go(async move {
            for i in 0u64.. {
                let _ = call(&l, "send", c.send_message(direct(9, &i.to_be_bytes()))).await;
                vmc::sleep(MS(50)).await;
            }
        });
    }
    if u == Use::Ensure {
        let (c, l) = (c.clone(), l.clone());
        let _ = go(async move {
            while call(&l, "ensure", c.ensure_initialized()).await.is_ok() {
                // notices a loss
                let _ = call(&l, "send", c.send_message(direct(9, b"x"))).await;
                vmc::sleep(MS(50)).await;
            }
        });
    }
}

/// What the attempts must look like: each failed one is followed by another 2 seconds after its end
fn timeline(faults: &[F], start: Duration) -> Vec<Duration> {
    let mut t = start;
    let mut v = vec![t];
    for f in faults {
        let (d, ok) = f.lasts();
        if ok {
            break;
        }
        t += d + S(2);
        v.push(t);
    }
    v
}
fn near(a: Duration, b: Duration, tolerance: Duration) -> bool {
    a.max(b) - a.min(b) <= tolerance
}
fn check_timeline(faults: &[F], start: Duration, from: usize, slack: Duration, ctx: &str) {
    let got: Vec<Duration> = attempts()[from..].iter().map(|a| a.0).collect();
    let want = timeline(faults, start);
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| near(*g, *w, slack));
    ensure!(ok, "attempts", "attempts at {got:?}, expected at {want:?}: {ctx}");
}
/// Sending while there is no session returns at once
fn prompt(l: &Calls, ctx: &str) {
    for c in get(l) {
        let stuck = c.to.is_none() && vmc::now() > c.from;
        if c.what == "send" {
            ensure!(c.to == Some(c.from) || (!stuck && c.to.is_none()), "send blocks", "{c:?}: {ctx}");
        }
    }
}

/// Every sequence of faults, then a session, then a loss and more faults
async fn retries(first: usize, then: usize, alphabet: &'static [F]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let u = pick("use", &USES);
    let one: Vec<F> = (0..first).map(|_| pick("fault", alphabet)).collect();
    let loss = pick("loss", &LOSSES);
    let two: Vec<F> = (0..then).map(|_| pick("fault", alphabet)).collect();
    let ctx = format!("{u:?} {one:?} {loss:?} {two:?}");
    plan(&one);
    let l = log();
    let rx = log();
    use_client(&c, u, &l, &rx);
    let t = timeline(&one, vmc::now());
    let up = *t.last().unwrap() + one.get(t.len() - 1).map_or(MS(0), |f| f.lasts().0);
    vmc::sleep(up - vmc::now() + MS(200)).await;
    vmc::settle().await;
    check_timeline(&one, t[0], 0, MS(0), &ctx);
    ensure!(open_sessions().len() == 1 && sessions() == 1, "no session", "{} sessions: {ctx}", sessions());
    prompt(&l, &ctx);
    works(u, &rx, &ctx).await;
    // and again after a loss
    let n = attempts().len();
    let k = front(|f| f.sessions.len());
    plan(&two);
    lose(open_sessions()[0], loss);
    let t0 = vmc::now();
    vmc::settle().await;
    if matches!(u, Use::Send | Use::Ensure) && loss == Loss::Garbage {
        // it cannot be noticed
        vmc::sleep(S(1)).await;
        prompt(&l, &ctx);
        vmc::cover("unnoticed");
        return;
    }
    let t = timeline(&two, t0);
    let up = *t.last().unwrap() + two.get(t.len() - 1).map_or(MS(0), |f| f.lasts().0);
    vmc::sleep(up - vmc::now() + MS(500)).await;
    vmc::settle().await;
    check_timeline(&two, t0, n, MS(200), &ctx);
    let new = front(|f| f.sessions[k..].iter().filter(|s| s.ok).count());
    ensure!(open_sessions().len() == 1 && new == 1, "no new session", "{new} sessions, {:?} open: {ctx}", open_sessions());
    prompt(&l, &ctx);
    works(u, &rx, &ctx).await;
    odd();
    vmc::cover("reconnected");
}

/// The session carries messages in both directions
async fn works(u: Use, rx: &Log<Message>, ctx: &str) {
    let i = *open_sessions().last().unwrap();
    if matches!(u, Use::Receive | Use::Both) {
        let n = get(rx).len();
        server_send(i, &direct(KEY, b"hello"));
        vmc::settle().await;
        let got = get(rx)[n..].to_vec();
        ensure!(got == vec![direct(KEY, b"hello")], "not received", "{got:?}: {ctx}");
    }
    if u != Use::Receive {
        let n = front(|f| f.sessions[i].got.len());
        vmc::sleep(MS(100)).await;
        vmc::settle().await;
        ensure!(front(|f| f.sessions[i].got.len()) > n, "not sent", "{ctx}");
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Receive,
    Send,
    Subscribe,
    Unsubscribe,
    Ensure,
    SoftClose,
}
fn op(c: &Cl, o: Op, l: &Calls) {
    let (c, l) = (c.clone(), l.clone());
    let _ = go(async move {
        match o {
            Op::Receive => drop(call(&l, "receive", c.receive_message()).await),
            Op::Send => drop(call(&l, "send", c.send_message(direct(9, b"x"))).await),
            Op::Subscribe => drop(call(&l, "subscribe", c.subscribe(vec![2])).await),
            Op::Unsubscribe => drop(call(&l, "unsubscribe", c.unsubscribe(vec![1])).await),
            Op::Ensure => drop(call(&l, "ensure", c.ensure_initialized()).await),
            Op::SoftClose => drop(call(&l, "soft close", c.soft_close()).await),
        }
    });
}

/// Calls overlap with a loss and the reconnection
async fn overlapping(sets: &'static [&'static [Op]], losses: &'static [Loss], plans: &'static [&'static [F]]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let (l, rx) = (log(), log());
    let h = go({
        let c = c.clone();
        async move { c.ensure_initialized().await }
    });
    let _ = h.await;
    vmc::settle().await;
    ensure!(open_sessions() == vec![0], "setup", "no session");
    let set = pick("calls", sets);
    let loss = pick("loss", losses);
    let p = pick("plan", plans);
    let ctx = format!("{set:?} {loss:?} {p:?}");
    plan(p);
    // whether the client had time to notice
    let noticed = vmc::choose(2, "noticed") == 1;
    lose(0, loss);
    if noticed {
        vmc::settle().await;
    }
    vmc::explore(true);
    for o in set {
        op(&c, *o, &l);
    }
    vmc::settle().await;
    vmc::explore(false);
    // Nothing blocks for longer than an attempt, apart from waiting for a session
    use_client(&c, Use::Both, &l, &rx);
    let t0 = vmc::now();
    let up = timeline(p, t0).last().copied().unwrap() + S(1);
    vmc::sleep(up - t0).await;
    vmc::settle().await;
    let now = vmc::now();
    for x in get(&l) {
        let sending = matches!(x.what, "send" | "soft close");
        ensure!(!sending || x.to == Some(x.from) || x.from == now, "blocks", "{x:?}: {ctx}");
        let waiting = matches!(x.what, "receive" | "ensure");
        ensure!(x.to.is_some() || waiting || x.from == now, "stuck", "{x:?}: {ctx}");
        ensure!(x.what != "ensure" || x.to.is_some(), "stuck", "{x:?}: {ctx}");
    }
    ensure!(open_sessions().len() == 1, "no session", "{:?} are open: {ctx}", open_sessions());
    ensure!(sessions() == 2, "sessions", "{} sessions after one loss: {ctx}", sessions());
    ensure!(attempts().len() == 2 + p.iter().filter(|f| !f.lasts().1).count(), "attempts", "{:?}: {ctx}", attempts());
    // everything is received, by one of the receivers
    let i = open_sessions()[0];
    for n in 0..5u8 {
        server_send(i, &direct(KEY, &[n]));
        vmc::settle().await;
        vmc::sleep(MS(1)).await;
        vmc::settle().await;
    }
    let n = get(&l).iter().filter(|x| x.what == "receive" && x.ok).count();
    ensure!(n == 5, "not received", "{n} of 5 messages arrive: {ctx}");
    for x in &get(&l)[..set.len()] {
        ensure!(x.to.is_some(), "left behind", "{x:?}: {ctx}");
    }
    // the later calls work
    let n = get(&l).len();
    op(&c, Op::Subscribe, &l);
    op(&c, Op::Send, &l);
    vmc::settle().await;
    for x in &get(&l)[n..] {
        ensure!(x.ok || x.to.is_none() && x.what == "receive", "fails", "{x:?}: {ctx}");
    }
    odd();
    vmc::cover("overlapped");
}

/// The broker stops reading; it may also close its sending side
async fn stuck(sets: &'static [&'static [Op]]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let (l, rx) = (log(), log());
    let h = go({
        let c = c.clone();
        async move { c.ensure_initialized().await }
    });
    let _ = h.await;
    vmc::settle().await;
    let set = pick("calls", sets);
    let close = vmc::choose(2, "closes") == 1;
    let room = pick("room", &[0, 20, 200]);
    let ctx = format!("{set:?} closes {close} room {room}");
    let conn = front(|f| f.sessions[0].conn.clone());
    conn.with(0, |h| {
        h.hold = true;
        h.cap = room;
    });
    vmc::explore(true);
    for o in set {
        op(&c, *o, &l);
    }
    vmc::settle().await;
    if close {
        conn.with(1, |h| h.fin = true);
    }
    for _ in 0..3 {
        op(&c, Op::Send, &l);
    }
    vmc::settle().await;
    vmc::explore(false);
    use_client(&c, Use::Both, &l, &rx);
    vmc::sleep(S(40)).await;
    vmc::settle().await;
    let now = vmc::now();
    for x in get(&l) {
        let took = x.to.unwrap_or(now) - x.from;
        ensure!(took <= S(25) || matches!(x.what, "receive" | "ensure"), "stuck", "{x:?}: {ctx}");
    }
    let open = open_sessions();
    ensure!(open.len() == 1, "no session", "{open:?} are open: {ctx}");
    ensure!(open != vec![0], "stuck", "still at the broker that does not read: {ctx}");
    ensure!(sessions() == 2, "sessions", "{} sessions: {ctx}", sessions());
    works(Use::Send, &rx, &ctx).await;
    odd();
    vmc::cover("left a stuck broker");
}

/// Fails for a long time, then works: the pauses stay the same
async fn persistent(n: usize) {
    vmc::deadline(Some(S(20_000)));
    open_front().await;
    let c = client(&[1]);
    let u = pick("use", &USES);
    let kind = vmc::choose(FAULTS.len() + 1, "fault");
    let one: Vec<F> = (0..n).map(|i| if kind < FAULTS.len() { FAULTS[kind] } else { FAULTS[i * 7 % FAULTS.len()] }).collect();
    let ctx = format!("{u:?} {n} times {:?}", if kind < FAULTS.len() { &one[..1] } else { &one[..] });
    plan(&one);
    let (l, rx) = (log(), log());
    use_client(&c, u, &l, &rx);
    let t = timeline(&one, vmc::now());
    let up = *t.last().unwrap();
    vmc::sleep(up - vmc::now() + MS(200)).await;
    vmc::settle().await;
    check_timeline(&one, t[0], 0, MS(0), &ctx);
    ensure!(open_sessions().len() == 1 && sessions() == 1, "no session", "{} sessions: {ctx}", sessions());
    prompt(&l, &ctx);
    works(u, &rx, &ctx).await;
    odd();
    vmc::cover("connected after a long time");
}

/// Many calls at once, loss after loss
async fn call_crowd(rounds: usize, crowd: usize) {
    const MIX: [Op; 6] = [Op::Receive, Op::Send, Op::Ensure, Op::Subscribe, Op::Unsubscribe, Op::Send];
    vmc::deadline(Some(S(2_000)));
    open_front().await;
    let c = client(&[1]);
    ready(&c).await;
    let first = pick("loss", &LOSSES);
    let fault = pick("plan", &[&[][..], &[F::MRefuse], &[F::BPermit(0), F::BClose]]);
    let noticed = vmc::choose(2, "noticed") == 1;
    let ctx = format!("{first:?} {fault:?} noticed {noticed}");
    let l = log();
    let start = LOSSES.iter().position(|x| *x == first).unwrap();
    for r in 0..rounds {
        plan(fault);
        let (before, tried) = (sessions(), attempts().len());
        let from = get(&l).len();
        let t0 = vmc::now();
        lose(open_sessions()[0], LOSSES[(start + r) % 3]);
        if noticed {
            vmc::settle().await;
        }
        for i in 0..crowd {
            op(&c, MIX[(i + r) % MIX.len()], &l);
        }
        vmc::settle().await;
        // A session needs someone who asks for it
        op(&c, Op::Ensure, &l);
        vmc::settle().await;
        let up = timeline(fault, t0).last().copied().unwrap();
        vmc::sleep(up - t0 + MS(100)).await;
        vmc::settle().await;
        let pending = |l: &Calls| get(l).iter().filter(|x| x.to.is_none()).cloned().collect::<Vec<_>>();
        for x in pending(&l) {
            ensure!(x.what == "receive", "stuck", "{x:?} in round {r}: {ctx}");
        }
        for x in &get(&l)[from..] {
            ensure!(x.what != "send" || x.to == Some(x.from), "blocks", "{x:?} in round {r}: {ctx}");
        }
        ensure!(open_sessions().len() == 1, "no session", "{:?} are open in round {r}: {ctx}", open_sessions());
        ensure!(sessions() == before + 1, "sessions", "{} new sessions in round {r}: {ctx}", sessions() - before);
        ensure!(attempts().len() == tried + 1 + fault.len(), "attempts", "{} in round {r}: {ctx}", attempts().len() - tried);
        // Those who still wait receive
        let n = pending(&l).len();
        let i = open_sessions()[0];
        for k in 0..n {
            server_send(i, &direct(KEY, &[k as u8]));
        }
        vmc::settle().await;
        ensure!(pending(&l).is_empty(), "not received", "{:?} in round {r}: {ctx}", pending(&l));
    }
    odd();
    vmc::cover("reconnected again and again");
}

fn k01(thorough: bool, v: &mut Vec<Scenario>) {
    let n = if thorough { 200 } else { 40 };
    v.push(Scenario::new("persistent", (0, 0), move || async move { persistent(8 * n).await }).steps(20_000_000));
    v.push(Scenario::new("crowd", (0, 0), move || async move { call_crowd(n / 4, n).await }).steps(20_000_000));
    v.push(Scenario::new("retries", (0, 0), || async { retries(1, 1, &FAULTS).await }));
    let n = if thorough { 3 } else { 2 };
    v.push(Scenario::new("more retries", (0, 0), move || async move { retries(n, 0, &FAULTS).await }));
    const SLOW: [F; 10] = [
        F::MSlow(9_900),
        F::MSlow(10_100),
        F::BSlow(9_900),
        F::BSlow(10_100),
        F::Slow(4_900),
        F::Slow(5_100),
        F::MSlow(4_000),
        F::BStall,
        F::BHole,
        F::MRefuse,
    ];
    v.push(Scenario::new("slow", (0, 0), move || async move { retries(n - 1, 1, &SLOW).await }));
    const STUCK: [&[Op]; 5] = [&[], &[Op::Receive], &[Op::Subscribe], &[Op::Receive, Op::Subscribe], &[Op::Ensure, Op::SoftClose]];
    v.push(Scenario::new("stuck", (1, 3), || async { stuck(&STUCK).await }));
    const SETS: [&[Op]; 10] = [
        &[Op::Receive, Op::Receive],
        &[Op::Send, Op::Send],
        &[Op::Receive, Op::Send],
        &[Op::Send, Op::Subscribe],
        &[Op::Receive, Op::Subscribe],
        &[Op::Unsubscribe, Op::Subscribe],
        &[Op::Receive, Op::Ensure],
        &[Op::Ensure, Op::Subscribe],
        &[Op::SoftClose, Op::Receive],
        &[Op::SoftClose, Op::Send],
    ];
    v.push(Scenario::new("two calls overlap with a loss", (1, 3), || async {
        overlapping(&SETS, &LOSSES, &[&[], &[F::MStall], &[F::MRefuse]]).await
    }));
    const SETS3: [&[Op]; 6] = [
        &[Op::Receive, Op::Send, Op::Send],
        &[Op::Receive, Op::Receive, Op::Send],
        &[Op::Receive, Op::Subscribe, Op::Send],
        &[Op::Subscribe, Op::Unsubscribe, Op::Receive],
        &[Op::Receive, Op::Ensure, Op::Send],
        &[Op::Send, Op::Subscribe, Op::Ensure],
    ];
    v.push(Scenario::new("three calls overlap with a loss", (2, 3), || async {
        overlapping(&SETS3, &[Loss::Cut], &[&[], &[F::BStall]]).await
    }));
}

// ------------------------------------------------------------------------------------------------------------- K02

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Sub(&'static [u8]),
    Unsub(&'static [u8]),
    Lose(Loss),
    /// Waits until the client is connected
    Wait,
    /// The marshal is down for the next attempt
    Down,
}
/// What the client is subscribed to, given the results of its calls
fn apply(t: &mut BTreeSet<u8>, s: Step, ok: bool) {
    if ok {
        match s {
            Step::Sub(x) => t.extend(x.iter().copied()),
            Step::Unsub(x) => t.retain(|y| !x.contains(y)),
            _ => {}
        }
    }
}
async fn ready(c: &Cl) {
    let c = c.clone();
    let _ = go(async move { c.ensure_initialized().await }).await;
    vmc::settle().await;
}
async fn step(c: &Cl, s: Step) -> bool {
    let c = c.clone();
    match s {
        Step::Sub(t) => go(async move { c.subscribe(t.to_vec()).await.is_ok() }).await.unwrap(),
        Step::Unsub(t) => go(async move { c.unsubscribe(t.to_vec()).await.is_ok() }).await.unwrap(),
        Step::Lose(l) => {
            if let Some(i) = open_sessions().pop() {
                lose(i, l);
            }
            true
        }
        Step::Wait => {
            ready(&c).await;
            true
        }
        Step::Down => {
            plan(&[F::MRefuse]);
            true
        }
    }
}
/// Connected and idle: the broker knows the topics that it should
async fn restored(c: &Cl, want: &BTreeSet<u8>, ctx: &str) {
    vmc::settle().await;
    // notices a loss
    for _ in 0..3 {
        let c = c.clone();
        let _ = go(async move { c.send_message(direct(9, b"x")).await }).await;
        vmc::settle().await;
    }
    ready(c).await;
    vmc::sleep(MS(50)).await;
    vmc::settle().await;
    let open = open_sessions();
    ensure!(open.len() == 1, "not connected", "{open:?} are open: {ctx}");
    let got = topics();
    ensure!(got == *want, "topics", "the broker knows {got:?}, not {want:?}: {ctx}");
}

/// Every history of calls and losses
async fn topic_history(depth: usize, steps: &'static [Step]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let initial: &[u8] = pick("initial", &[&[][..], &[0, 1]]);
    let c = client(initial);
    let mut want: BTreeSet<u8> = initial.iter().copied().collect();
    ready(&c).await;
    let mut ctx = format!("{initial:?}");
    for _ in 0..depth {
        let s = pick("step", steps);
        let ok = step(&c, s).await;
        ctx += &format!(" {s:?} {ok}");
        apply(&mut want, s, ok);
    }
    restored(&c, &want, &ctx).await;
    // and over one more reconnection
    lose(open_sessions()[0], Loss::Cut);
    restored(&c, &want, &ctx).await;
    odd();
    vmc::cover("restored");
}

/// Calls overlap with each other, a loss and the reconnection
async fn topics_overlap(sets: &'static [&'static [Step]]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[0, 1]);
    ready(&c).await;
    let set = pick("calls", sets);
    // 0: not at all, 1: before, 2: after the calls began, 3: the client knows, 4: a reconnection has begun
    let loss = vmc::choose(6, "loss");
    let ctx = format!("{set:?} loss {loss}");
    if matches!(loss, 1 | 3 | 4 | 5) {
        if loss > 3 {
            plan(&[if loss == 4 { F::BSlow(3_000) } else { F::MSlow(3_000) }]);
        }
        lose(0, Loss::Cut);
    }
    let l = log();
    if loss >= 3 {
        vmc::settle().await;
        op(&c, Op::Receive, &l);
        vmc::settle().await;
    }
    vmc::explore(true);
    if loss >= 3 {
        op(&c, Op::Send, &l);
    } else {
        op(&c, Op::Receive, &l);
    }
    let results: Log<(usize, bool)> = log();
    for (i, s) in set.iter().copied().enumerate() {
        let (c, r) = (c.clone(), results.clone());
        let _ = go(async move {
            let ok = match s {
                Step::Sub(t) => c.subscribe(t.to_vec()).await.is_ok(),
                Step::Unsub(t) => c.unsubscribe(t.to_vec()).await.is_ok(),
                _ => true,
            };
            push(&r, (i, ok));
        });
    }
    if loss == 2 {
        tokio::task::yield_now().await;
        lose(0, Loss::Cut);
    }
    if loss > 3 {
        vmc::sleep(S(2)).await;
        vmc::settle().await;
        vmc::sleep(S(1)).await;
    }
    vmc::settle().await;
    vmc::explore(false);
    vmc::sleep(S(15)).await;
    vmc::settle().await;
    // any order of the calls explains the outcome
    let done = get(&results);
    ensure!(done.len() == set.len(), "stuck", "{done:?}: {ctx}");
    let mut wants = BTreeSet::new();
    let orders: &[&[usize]] = &[&[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]];
    for o in orders {
        let mut t = BTreeSet::from([0, 1]);
        for i in o.iter().filter(|i| **i < set.len()) {
            apply(&mut t, set[*i], done.iter().any(|d| d.0 == *i && d.1));
        }
        wants.insert(t);
    }
    vmc::outcome(done.iter().map(|d| (d.0 as u64 * 2 + u64::from(d.1)) * 7).sum());
    // once when nothing more happens, and once after another loss
    vmc::settle().await;
    for round in 0..2 {
        for _ in 0..3 {
            let c = c.clone();
            let _ = go(async move { c.send_message(direct(9, b"x")).await }).await;
            vmc::settle().await;
        }
        ready(&c).await;
        vmc::sleep(MS(50)).await;
        vmc::settle().await;
        let got = topics();
        ensure!(open_sessions().len() == 1, "not connected", "{ctx}");
        ensure!(wants.contains(&got), "topics", "round {round}: the broker knows {got:?}, after {done:?} it should be in {wants:?}: {ctx}");
        wants = BTreeSet::from([got]);
        lose(open_sessions()[0], Loss::Cut);
    }
    odd();
    vmc::cover("overlapped");
}

/// Many topics over many losses
async fn long_history(rounds: usize) {
    vmc::deadline(Some(S(20_000)));
    open_front().await;
    let initial = vmc::choose(3, "initial");
    let first: Vec<u8> = match initial {
        0 => vec![],
        1 => (0..=255).collect(),
        _ => (0..=255).step_by(3).collect(),
    };
    let stride = pick("stride", &[1usize, 7, 85]);
    let width = pick("width", &[1usize, 40, 256]);
    let repeat = vmc::choose(2, "repeated") == 1;
    let how = pick("loss", &[Loss::Cut, Loss::Close]);
    let ctx = format!("initial {initial} stride {stride} width {width} repeated {repeat} {how:?}");
    let c = client(&first);
    let mut want: BTreeSet<u8> = first.into_iter().collect();
    ready(&c).await;
    let mut x = 0usize;
    for r in 0..rounds {
        for k in 0..3 {
            let mut t: Vec<u8> = (0..width).map(|i| ((x + i) % 256) as u8).collect();
            x += stride;
            if repeat {
                t.extend(t.clone());
                t.reverse();
            }
            let add = (r + k) % 3 != 0;
            let (c2, t2) = (c.clone(), t.clone());
            let ok = go(async move { if add { c2.subscribe(t2).await } else { c2.unsubscribe(t2).await }.is_ok() }).await.unwrap();
            if !ok {
                continue;
            }
            if add {
                want.extend(t);
            } else {
                want.retain(|y| !t.contains(y));
            }
        }
        // also right after a loss, when the calls fail or succeed
        if r % 2 == 1 {
            restored(&c, &want, &format!("round {r}: {ctx}")).await;
        }
        if let Some(i) = open_sessions().pop() {
            lose(i, how);
        }
        if r % 4 == 0 {
            vmc::settle().await;
        }
    }
    restored(&c, &want, &ctx).await;
    odd();
    vmc::cover("many topics restored");
}

fn k02(thorough: bool, v: &mut Vec<Scenario>) {
    let n = if thorough { 100 } else { 24 };
    v.push(Scenario::new("long", (0, 0), move || async move { long_history(n).await }).steps(20_000_000));
    const STEPS: [Step; 10] = [
        Step::Sub(&[1]),
        Step::Sub(&[2, 130]),
        Step::Sub(&[1, 1, 2]),
        Step::Unsub(&[1]),
        Step::Unsub(&[2, 0]),
        Step::Unsub(&[0, 1, 2, 130]),
        Step::Lose(Loss::Cut),
        Step::Lose(Loss::Close),
        Step::Wait,
        Step::Down,
    ];
    let d = if thorough { 6 } else { 4 };
    v.push(Scenario::new("history", (0, 0), move || async move { topic_history(d, &STEPS).await }));
    const TWO: [&[Step]; 7] = [
        &[Step::Sub(&[2])],
        &[Step::Unsub(&[1])],
        &[Step::Sub(&[2]), Step::Unsub(&[2])],
        &[Step::Sub(&[2]), Step::Sub(&[2, 130])],
        &[Step::Unsub(&[1]), Step::Sub(&[1])],
        &[Step::Unsub(&[1]), Step::Unsub(&[0, 1])],
        &[Step::Sub(&[2]), Step::Unsub(&[1])],
    ];
    v.push(Scenario::new("overlap", (2, 2), || async { topics_overlap(&TWO).await }));
    const THREE: [&[Step]; 3] = [
        &[Step::Sub(&[2]), Step::Unsub(&[2]), Step::Sub(&[2])],
        &[Step::Unsub(&[1]), Step::Sub(&[1, 2]), Step::Unsub(&[2])],
        &[Step::Sub(&[2]), Step::Sub(&[130]), Step::Unsub(&[0])],
    ];
    v.push(Scenario::new("three overlap", (1, 2), || async { topics_overlap(&THREE).await }));
}

// ------------------------------------------------------------------------------------------------------------- K03

fn dials() -> usize {
    sim::dials().iter().filter(|d| d.group == CLIENT).count()
}
fn dialing() -> usize {
    sim::dials().iter().filter(|d| d.group == CLIENT && d.end.is_none()).count()
}
fn open_conns() -> usize {
    [MARSHAL, pub_port(1)].iter().flat_map(|p| sim::conns_to(*p)).filter(|c| c.from == CLIENT && !c.closed(0)).count()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    /// No call has been made yet
    Fresh,
    /// During an attempt
    Attempt(F, u64),
    Connected,
    /// Connected; the broker does not read
    Full,
    /// The session is lost and the client has not noticed
    Unnoticed(Loss),
    /// The session is lost and no reconnection has begun
    Noticed,
    /// During a reconnection
    Again(F, u64),
}

/// Brings a client into a state
async fn bring(c: &Cl, at: At) {
    match at {
        At::Fresh => {}
        At::Attempt(f, ms) => {
            plan(&[f]);
            op(c, Op::Send, &log());
            vmc::settle().await;
            vmc::sleep(MS(ms)).await;
        }
        _ => {
            ready(c).await;
            match at {
                At::Full => {
                    let conn = front(|f| f.sessions[0].conn.clone());
                    conn.with(0, |h| {
                        h.hold = true;
                        h.cap = 0;
                    });
                    for _ in 0..2 {
                        op(c, Op::Send, &log());
                        vmc::settle().await;
                    }
                }
                At::Unnoticed(l) => lose(0, l),
                At::Noticed | At::Again(..) => {
                    lose(0, Loss::Cut);
                    vmc::settle().await;
                    op(c, Op::Receive, &log());
                    vmc::settle().await;
                    if let At::Again(f, ms) = at {
                        plan(&[f]);
                        op(c, Op::Send, &log());
                        vmc::settle().await;
                        vmc::sleep(MS(ms)).await;
                    }
                }
                _ => {}
            }
        }
    }
    vmc::settle().await;
}

/// What holds from the moment a close has completed
async fn closed(c: &Cl, before: usize, ctx: &str) {
    ensure!(dials() == before, "connects after close", "{} more attempts: {ctx}", dials() - before);
    ensure!(dialing() == 0, "still connecting", "{ctx}");
    ensure!(open_conns() == 0, "connection open", "{} connections: {ctx}", open_conns());
    ensure!(vmc::group_tasks(CLIENT) == 0, "still running", "{:?}: {ctx}", vmc::live_task_names());
    // Every call fails at once
    let l = log();
    for o in [Op::Send, Op::Receive, Op::Ensure, Op::Subscribe, Op::Unsubscribe, Op::SoftClose] {
        op(c, o, &l);
        vmc::settle().await;
    }
    let again = c.clone();
    for t in [vec![], vec![1]] {
        let (c, l) = (c.clone(), l.clone());
        let _ = go(async move {
            let _ = call(&l, "subscribe again", c.subscribe(t.clone())).await;
            let _ = call(&l, "broadcast", c.send_broadcast_message(t, vec![1])).await;
            let _ = call(&l, "direct", c.send_direct_message(&c.keypair.public_key, vec![1])).await;
        });
        vmc::settle().await;
    }
    for x in get(&l) {
        ensure!(!x.ok, "succeeds after close", "{}: {ctx}", x.what);
        ensure!(x.to == Some(x.from), "blocks after close", "{x:?}: {ctx}");
    }
    let h = go(async move { again.close().await });
    vmc::settle().await;
    ensure!(h.is_finished(), "second close blocks", "{ctx}");
    ensure!(c.is_closed(), "not closed", "{ctx}");
    vmc::sleep(S(30)).await;
    vmc::settle().await;
    ensure!(dials() == before, "connects after close", "{} more attempts: {ctx}", dials() - before);
    ensure!(open_conns() == 0, "connection open", "{} connections: {ctx}", open_conns());
    for x in get(&l) {
        ensure!(x.to.is_some(), "blocks after close", "{x:?}: {ctx}");
    }
}

/// Closing in every state, while other calls are in progress
async fn closing(states: &'static [At], sets: &'static [&'static [Op]], second: bool) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let at = pick("state", states);
    let set = pick("calls", sets);
    // whether the calls begin before, together with or after the close
    let order = vmc::choose(3, "order");
    let ctx = format!("{at:?} {set:?} {order}");
    bring(&c, at).await;
    let l = log();
    if order == 0 {
        for o in set {
            op(&c, *o, &l);
        }
        vmc::settle().await;
    }
    let t0 = vmc::now();
    let at_close: Log<(usize, std::time::Duration)> = log();
    vmc::explore(true);
    if order == 1 {
        for o in set {
            op(&c, *o, &l);
        }
    }
    for _ in 0..=usize::from(second) {
        let (c, l) = (c.clone(), at_close.clone());
        let _ = go(async move {
            c.close().await;
            push(&l, (dials(), vmc::now()));
        });
    }
    if order == 2 {
        for o in set {
            op(&c, *o, &l);
        }
    }
    vmc::settle().await;
    vmc::explore(false);
    vmc::sleep(MS(2_000)).await;
    vmc::settle().await;
    let done = get(&at_close);
    ensure!(done.len() == 1 + usize::from(second), "close blocks", "{ctx}");
    ensure!(done.iter().all(|d| d.1 <= t0 + S(2)), "close blocks", "{done:?}: {ctx}");
    // The calls that were in progress have ended
    for x in get(&l) {
        ensure!(x.to.is_some(), "blocks after close", "{x:?}: {ctx}");
        let t = done[0].1;
        ensure!(x.to.is_some_and(|x| x <= t), "ends late", "{x:?}, closed at {t:?}: {ctx}");
    }
    closed(&c, done[0].0, &ctx).await;
    odd();
    vmc::cover("closed");
}

fn k03(_thorough: bool, v: &mut Vec<Scenario>) {
    const STATES: [At; 15] = [
        At::Fresh,
        At::Attempt(F::MSlow(3_000), 1_000),
        At::Attempt(F::BSlow(3_000), 1_000),
        At::Attempt(F::MHole, 1_000),
        At::Attempt(F::MRefuse, 1_000),
        At::Attempt(F::BStall, 11_000),
        At::Connected,
        At::Full,
        At::Unnoticed(Loss::Cut),
        At::Unnoticed(Loss::Close),
        At::Unnoticed(Loss::Garbage),
        At::Noticed,
        At::Again(F::MSlow(3_000), 1_000),
        At::Again(F::BSlow(3_000), 1_000),
        At::Again(F::BRefuse, 1_000),
    ];
    const ONE: [&[Op]; 7] =
        [&[], &[Op::Send], &[Op::Receive], &[Op::Ensure], &[Op::Subscribe], &[Op::Unsubscribe], &[Op::SoftClose]];
    v.push(Scenario::new("close", (2, 3), || async { closing(&STATES, &ONE, false).await }));
    v.push(Scenario::new("close twice", (1, 3), || async { closing(&STATES, &ONE, true).await }));
    const TWO: [&[Op]; 7] = [
        &[Op::Send, Op::Receive],
        &[Op::Receive, Op::Receive],
        &[Op::Ensure, Op::Send],
        &[Op::Ensure, Op::Ensure],
        &[Op::Subscribe, Op::Receive],
        &[Op::Subscribe, Op::Unsubscribe],
        &[Op::SoftClose, Op::Receive],
    ];
    v.push(Scenario::new("close during two calls", (2, 3), || async { closing(&STATES, &TWO, false).await }));
    const THREE: [&[Op]; 3] = [
        &[Op::Send, Op::Receive, Op::Subscribe],
        &[Op::Ensure, Op::Receive, Op::Send],
        &[Op::SoftClose, Op::Receive, Op::Ensure],
    ];
    v.push(Scenario::new("close during three calls", (1, 2), || async { closing(&STATES, &THREE, false).await }));
    const CROWD: [&[Op]; 3] = [
        &[Op::Receive; 20],
        &[Op::Ensure; 20],
        &[
            Op::Send,
            Op::Receive,
            Op::Ensure,
            Op::Subscribe,
            Op::Unsubscribe,
            Op::SoftClose,
            Op::Send,
            Op::Receive,
            Op::Ensure,
            Op::Subscribe,
            Op::Unsubscribe,
            Op::SoftClose,
            Op::Send,
            Op::Receive,
            Op::Ensure,
            Op::Subscribe,
            Op::Unsubscribe,
            Op::SoftClose,
            Op::Send,
            Op::Receive,
        ],
    ];
    v.push(Scenario::new("close during many calls", (0, 1), || async { closing(&STATES, &CROWD, true).await }));
}

// ------------------------------------------------------------------------------------------------------------- K04

/// Waiters, faults of the first attempts, and a close
async fn waiting(n: usize, faults: usize, alphabet: &'static [F]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let one: Vec<F> = (0..faults).map(|_| pick("fault", alphabet)).collect();
    // when it is closed: never, before the waiters, and so long after
    let close = pick("close", &[None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2_500)), Some(Some(6_000)), Some(Some(13_000))]);
    // whether something else has started the connection
    let started = vmc::choose(2, "started") == 1;
    let ctx = format!("{one:?} close {close:?} started {started}");
    plan(&one);
    if close == Some(None) {
        let c = c.clone();
        let _ = go(async move { c.close().await }).await;
    }
    if started {
        op(&c, Op::Send, &log());
        vmc::settle().await;
    }
    let t0 = vmc::now();
    let t = timeline(&one, t0);
    let up = *t.last().unwrap() + one.get(t.len() - 1).map_or(MS(0), |f| f.lasts().0);
    let l = log();
    let sent = log();
    vmc::explore(true);
    for _ in 0..n {
        let (c, l, sent) = (c.clone(), l.clone(), sent.clone());
        let _ = go(async move {
            if call(&l, "ensure", c.ensure_initialized()).await.is_ok() {
                let open = open_sessions().len();
                let closed = c.is_closed();
                let r = call(&l, "send", c.send_message(direct(9, b"x"))).await;
                push(&sent, (open, closed, r.is_ok(), vmc::now()));
            }
        });
    }
    let closer = async {
        if let Some(Some(ms)) = close {
            if ms > 0 {
                vmc::explore(false);
                vmc::sleep(MS(ms)).await;
                vmc::explore(true);
            }
            let c = c.clone();
            let _ = go(async move { c.close().await }).await;
        }
    };
    closer.await;
    let tc = vmc::now();
    vmc::settle().await;
    vmc::explore(close.is_none() && faults == 0);
    vmc::sleep(S(40).max(up + S(1))).await;
    vmc::settle().await;
    let calls: Vec<Call> = get(&l).into_iter().filter(|c| c.what == "ensure").collect();
    let mut oks = 0;
    for x in &calls {
        let Some(to) = x.to else {
            vmc::fail("hangs", format!("{x:?}: {ctx}"));
            continue;
        };
        oks += usize::from(x.ok);
        match close {
            None => {
                ensure!(x.ok, "error", "{x:?}: {ctx}");
                ensure!(to == up, "returns at another time", "{x:?}, there is a session from {up:?}: {ctx}");
            }
            Some(None) => ensure!(!x.ok && to == t0, "success after close", "{x:?}: {ctx}"),
            Some(Some(_)) => {
                ensure!(to <= tc, "ends late", "{x:?}, closed at {tc:?}: {ctx}");
                ensure!(!x.ok || to >= up, "early", "{x:?}, there is a session from {up:?}: {ctx}");
                ensure!(x.ok || to == tc, "error", "{x:?}, closed at {tc:?}: {ctx}");
            }
        }
    }
    ensure!(calls.len() == n, "setup", "{calls:?}");
    for (open, closed, ok, at) in get(&sent) {
        if close.is_none() || at < tc {
            ensure!(open == 1, "no session", "success with {open} sessions: {ctx}");
            ensure!(ok && !closed, "not usable", "sending fails right after: {ctx}");
        }
        // while closing: there was a session at least
        ensure!(sessions() == 1, "no session", "success without a session: {ctx}");
    }
    if close.is_none() {
        let got = front(|f| f.sessions.last().map_or(0, |s| s.got.len()));
        ensure!(got >= n, "not delivered", "{got} messages: {ctx}");
    }
    odd();
    vmc::outcome(oks as u64);
    vmc::cover(match (oks, close.is_some()) {
        (0, _) => "closed",
        (_, true) => "ready before it was closed",
        _ => "ready",
    });
}

/// The session is lost; waiting begins when a call has reported it, and while others report it too
async fn waiting_after_loss(sets: &'static [&'static [Op]], plans: &'static [&'static [F]]) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    ready(&c).await;
    let set = pick("calls", sets);
    let p = pick("plan", plans);
    let loss = pick("loss", &[Loss::Cut, Loss::Garbage]);
    let ctx = format!("{set:?} {p:?} {loss:?}");
    plan(p);
    lose(0, loss);
    vmc::settle().await;
    let t = timeline(p, vmc::now());
    let up = *t.last().unwrap();
    let l = log();
    let sent = log();
    vmc::explore(true);
    {
        let (c, l, sent) = (c.clone(), l.clone(), sent.clone());
        let _ = go(async move {
            let r = call(&l, "receive", c.receive_message()).await;
            if r.is_err() && call(&l, "ensure", c.ensure_initialized()).await.is_ok() {
                let open = open_sessions();
                let r = call(&l, "send", c.send_message(direct(9, b"x"))).await;
                push(&sent, (open, r.is_ok()));
            }
        });
    }
    for o in set {
        op(&c, *o, &l);
    }
    vmc::settle().await;
    vmc::explore(false);
    vmc::sleep(up + S(30) - vmc::now()).await;
    vmc::settle().await;
    for x in get(&l) {
        ensure!(x.to.is_some() || x.what == "receive", "hangs", "{x:?}: {ctx}");
    }
    for (open, ok) in get(&sent) {
        if !(ok && open.contains(&1)) && set.iter().any(|o| *o != Op::Ensure) {
            // Another call is just about to drop the lost session, which counts until then
            vmc::cover("not yet dropped");
            continue;
        }
        ensure!(open.contains(&1), "no session", "success with the sessions {open:?}: {ctx}");
        ensure!(ok, "not usable", "sending fails right after: {ctx}");
        vmc::cover("ready again");
    }
    odd();
}

fn k04(thorough: bool, v: &mut Vec<Scenario>) {
    const A: [F; 12] = [
        F::Good,
        F::MRefuse,
        F::MHole,
        F::MStall,
        F::MPermit(0),
        F::MGarbage,
        F::BRefuse,
        F::BStall,
        F::BPermit(0),
        F::BClose,
        F::MSlow(3_000),
        F::Slow(3_000),
    ];
    for n in [1, 2] {
        v.push(Scenario::new(format!("{n} waiting"), (2, 4), move || async move { waiting(n, 0, &A).await }));
        v.push(Scenario::new(format!("{n} waiting, faults"), (2, 3), move || async move { waiting(n, 1, &A).await }));
    }
    let n = if thorough { 3 } else { 2 };
    v.push(Scenario::new("many faults", (0, 0), move || async move { waiting(1, n, &A).await }));
    v.push(Scenario::new("3 waiting", (2, 3), || async { waiting(3, 0, &A).await }));
    v.push(Scenario::new("many waiting", (0, 1), || async { waiting(30, 1, &A).await }));
    v.push(Scenario::new("long", (0, 0), || async { waiting(3, 30, &[F::MRefuse]).await }));
    const SETS: [&[Op]; 7] =
        [&[], &[Op::Receive], &[Op::Send], &[Op::Ensure], &[Op::Send, Op::Receive], &[Op::Subscribe], &[Op::Receive, Op::Ensure]];
    v.push(Scenario::new("after a loss", (1, 3), || async {
        waiting_after_loss(&SETS, &[&[], &[F::MRefuse], &[F::BSlow(1_000)]]).await
    }));
}

// ------------------------------------------------------------------------------------------------------------- K05

/// A real client in its own process, with a task that receives everything
struct Real<P: Protocol> {
    c: Client<Cd<P>>,
    key: u64,
    group: u32,
    rx: Log<Message>,
    n: u8,
}
fn real<P: Protocol>(i: u64, topics: &[u8]) -> Real<P> {
    let group = CLIENT + i as u32;
    let c = client_over::<P>(i, topics);
    let rx = log();
    let (c2, rx2) = (c.clone(), rx.clone());
    let _ = go_in(group, async move {
        loop {
            match c2.receive_message().await {
                Ok(m) => push(&rx2, m),
                Err(_) => {
                    if c2.is_closed() {
                        break;
                    }
                    vmc::sleep(MS(1)).await;
                }
            }
        }
    });
    Real { c, key: i, group, rx, n: 0 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tx {
    /// From, to (client numbers)
    Direct(usize, usize),
    Broadcast(usize, &'static [u8]),
}
impl<P: Protocol> Real<P> {
    fn run<T: Send + 'static>(&self, f: impl std::future::Future<Output = T> + Send + 'static) -> tokio::task::JoinHandle<T> {
        go_in(self.group, f)
    }
    /// The messages that arrived since
    fn take(&self) -> Vec<Message> {
        std::mem::take(&mut *self.rx.lock().unwrap())
    }
    /// The newest connection of the client to a broker, and the broker
    fn at(&self) -> Option<(u16, std::sync::Arc<tokio::net::Conn>)> {
        (1..9)
            .flat_map(|b| sim::conns_to(pub_port(b)).into_iter().map(move |c| (b, c)))
            .filter(|(_, c)| c.from == self.group && !c.ended(0) && !c.ended(1))
            .max_by_key(|(_, c)| c.id)
    }
}
/// A marshal, brokers, and clients that are all connected and known everywhere
async fn system<P: Protocol>(brokers: u16, topics: &[&[u8]]) -> (Vec<Node>, Node, Vec<Real<P>>) {
    let nodes = mesh_over::<P>(brokers).await;
    let m = start_marshal_with::<P>(None).await;
    let mut v = vec![];
    for (i, t) in topics.iter().enumerate() {
        let r = real(i as u64 + 1, t);
        let c = r.c.clone();
        let ok = timeout(S(5), r.run(async move { c.ensure_initialized().await.is_ok() })).await;
        ensure!(matches!(ok, Some(Ok(true))), "setup", "client {} does not connect", i + 1);
        v.push(r);
        // lets the brokers report their new load
        vmc::sleep(S(10)).await;
    }
    exchange().await;
    let used: BTreeSet<u16> = v.iter().filter_map(|r| r.at().map(|a| a.0)).collect();
    ensure!(used.len() == usize::from(brokers).min(topics.len()), "setup", "clients are at the brokers {used:?}");
    (nodes, m, v)
}
/// Sends a burst of messages; returns what each client should receive, by sender, if every call succeeded
fn burst<P: Protocol>(v: &mut [Real<P>], txs: &[Tx], topics: &[BTreeSet<u8>], ok: &Log<(u8, bool)>) -> Vec<Vec<Vec<Message>>> {
    let n = v.len();
    let mut want = vec![vec![vec![]; n]; n];
    let mut plans: Vec<Vec<(u8, Tx)>> = vec![vec![]; n];
    for t in txs {
        let from = match t {
            Tx::Direct(f, _) | Tx::Broadcast(f, _) => *f,
        };
        let tag = (from as u8) * 64 + v[from].n;
        v[from].n += 1;
        plans[from].push((tag, *t));
        match t {
            Tx::Direct(_, to) => want[*to][from].push(direct(v[*to].key, &[tag, 7])),
            Tx::Broadcast(_, ts) => {
                for to in 0..n {
                    if ts.iter().any(|t| topics[to].contains(t)) {
                        want[to][from].push(broadcast(ts, &[tag, 8]));
                    }
                }
            }
        }
    }
    for (f, p) in plans.into_iter().enumerate() {
        if p.is_empty() {
            continue;
        }
        let (c, ok) = (v[f].c.clone(), ok.clone());
        let keys: Vec<u64> = v.iter().map(|r| r.key).collect();
        let _ = v[f].run(async move {
            for (tag, t) in p {
                let r = match t {
                    Tx::Direct(_, to) => {
                        let k = crate::def::keypair(keys[to]).public_key;
                        c.send_direct_message(&k, vec![tag, 7]).await
                    }
                    Tx::Broadcast(_, ts) => c.send_broadcast_message(ts.to_vec(), vec![tag, 8]).await,
                };
                push(&ok, (tag, r.is_ok()));
            }
        });
    }
    want
}
fn sender(m: &Message) -> usize {
    payload(m).first().map_or(0, |t| usize::from(t / 64))
}
/// Everything exactly once and in order per sender
fn exactly<P: Protocol>(v: &[Real<P>], want: &[Vec<Vec<Message>>], ctx: &str) {
    for (i, r) in v.iter().enumerate() {
        let got = r.take();
        for (f, w) in want[i].iter().enumerate() {
            let g: Vec<Message> = got.iter().filter(|m| sender(m) == f).cloned().collect();
            ensure!(g == *w, "messages", "client {i} receives {g:?} from {f}, not {w:?}: {ctx}");
        }
    }
}
/// Each at most once and in order per sender, nothing else
fn at_most<P: Protocol>(v: &[Real<P>], want: &[Vec<Vec<Message>>], ctx: &str) {
    for (i, r) in v.iter().enumerate() {
        let got = r.take();
        for (f, w) in want[i].iter().enumerate() {
            let mut w = w.iter();
            for g in got.iter().filter(|m| sender(m) == f) {
                ensure!(w.any(|x| x == g), "duplicate or disorder", "client {i} receives {got:?}: {ctx}");
            }
        }
    }
}

const BURSTS: [&[Tx]; 5] = [
    &[Tx::Direct(0, 1), Tx::Direct(0, 1), Tx::Direct(1, 0)],
    &[Tx::Broadcast(0, &[0]), Tx::Direct(0, 1), Tx::Broadcast(0, &[0, 1])],
    &[Tx::Broadcast(0, &[1]), Tx::Broadcast(1, &[1]), Tx::Broadcast(2, &[0])],
    &[Tx::Direct(2, 2), Tx::Direct(2, 0), Tx::Direct(0, 2), Tx::Broadcast(1, &[0])],
    &[Tx::Broadcast(1, &[2]), Tx::Direct(1, 1), Tx::Broadcast(1, &[130, 9, 0])],
];

async fn end_to_end<P: Protocol>(brokers: u16) {
    vmc::deadline(Some(S(600)));
    let tops: [&[u8]; 3] = [&[0], &[0, 1], &[1]];
    let (_n, _m, mut v) = system::<P>(brokers, &tops).await;
    let sets: Vec<BTreeSet<u8>> = tops.iter().map(|t| t.iter().copied().collect()).collect();
    let b = pick("burst", &BURSTS);
    let ctx = format!("{brokers} brokers {b:?}");
    let ok = log();
    vmc::explore(true);
    let want = burst(&mut v, b, &sets, &ok);
    vmc::settle().await;
    vmc::explore(false);
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    let r = get(&ok);
    ensure!(r.len() == b.len() && r.iter().all(|r| r.1), "send fails", "{r:?}: {ctx}");
    exactly(&v, &want, &ctx);
    vmc::cover("delivered");
}

/// Subscriptions through the calls, with real brokers: redundant ones are harmless
async fn subscribing<P: Protocol>(depth: usize) {
    const CALLS: [Step; 7] = [
        Step::Sub(&[0]),
        Step::Sub(&[0, 2]),
        Step::Sub(&[]),
        Step::Unsub(&[0]),
        Step::Unsub(&[1, 2]),
        Step::Unsub(&[]),
        Step::Sub(&[130, 130]),
    ];
    vmc::deadline(Some(S(900)));
    let (_n, _m, mut v) = system::<P>(2, &[&[0], &[1]]).await;
    let mut sets = vec![BTreeSet::from([0]), BTreeSet::from([1])];
    let conn = v[0].at().expect("session").1;
    let mut ctx = String::new();
    for _ in 0..depth {
        let s = pick("call", &CALLS);
        let c = v[0].c.clone();
        let ok = v[0]
            .run(async move {
                match s {
                    Step::Sub(t) => c.subscribe(t.to_vec()).await.is_ok(),
                    Step::Unsub(t) => c.unsubscribe(t.to_vec()).await.is_ok(),
                    _ => true,
                }
            })
            .await;
        ctx += &format!(" {s:?}");
        ensure!(matches!(ok, Ok(true)), "call fails", "{ctx}");
        apply(&mut sets[0], s, true);
        vmc::settle().await;
    }
    exchange().await;
    let ok = log();
    let b = [Tx::Broadcast(1, &[0]), Tx::Broadcast(1, &[1]), Tx::Broadcast(0, &[2]), Tx::Broadcast(1, &[130]), Tx::Direct(1, 0)];
    let want = burst(&mut v, &b, &sets, &ok);
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    ensure!(v[0].at().is_some_and(|a| a.1.id == conn.id), "session lost", "{ctx}");
    exactly(&v, &want, &ctx);
    vmc::cover("subscribed");
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mishap {
    Cut(usize),
    /// The broker of this client dies; it is restarted much later
    Broker(usize),
    /// The marshal restarts, and the client loses its session
    Marshal(usize),
    /// Two clients lose their sessions at once
    Both,
    /// The other brokers' links break
    Link,
    /// Bytes to this client change on the way
    Garbled(usize),
}
/// A loss at any moment of a burst; afterwards everything works again
async fn end_to_end_loss<P: Protocol>(brokers: u16, mishaps: &'static [Mishap]) {
    vmc::deadline(Some(S(900)));
    let tops: [&[u8]; 2] = [&[0], &[0, 1]];
    let (mut nodes, marshal, mut v) = system::<P>(brokers, &tops).await;
    let mut marshal = Some(marshal);
    let sets: Vec<BTreeSet<u8>> = tops.iter().map(|t| t.iter().copied().collect()).collect();
    let m = pick("mishap", mishaps);
    let b: &[Tx] = pick("burst", &[
        &[Tx::Direct(0, 1), Tx::Direct(0, 1), Tx::Direct(0, 1), Tx::Direct(0, 1)][..],
        &[Tx::Broadcast(0, &[0]), Tx::Direct(1, 0), Tx::Broadcast(0, &[0]), Tx::Direct(1, 0)],
    ]);
    let when = vmc::choose(3, "when");
    let ctx = format!("{brokers} brokers {m:?} {when} {b:?}");
    let ok = log();
    vmc::explore(true);
    let mut want = vec![];
    if when > 0 {
        want = burst(&mut v, b, &sets, &ok);
        if when == 1 {
            tokio::task::yield_now().await;
        } else {
            vmc::settle().await;
        }
    }
    let mut dead = None;
    match m {
        Mishap::Cut(i) => v[i].at().unwrap().1.cut(),
        Mishap::Both => {
            for r in &v {
                r.at().unwrap().1.cut();
            }
        }
        Mishap::Broker(i) => {
            let at = v[i].at().unwrap().0;
            let k = nodes.iter().position(|n| n.n == at).unwrap();
            vmc::kill_group(u32::from(at));
            dead = Some(nodes.remove(k));
        }
        Mishap::Marshal(i) => {
            vmc::kill_group(u32::from(MARSHAL));
            marshal = None;
            v[i].at().unwrap().1.cut();
        }
        Mishap::Garbled(i) => {
            let c = v[i].at().unwrap().1;
            for d in 0..2 {
                c.with(d, |h| h.flip = Some((h.written + 9, 1)));
            }
            // something has to pass for it to be noticed
            let (c, key) = (v[i].c.clone(), crate::def::keypair(v[i].key).public_key);
            let _ = v[i].run(async move { c.send_direct_message(&key, vec![255]).await });
        }
        Mishap::Link => {
            for (_, c) in links(1, 2) {
                c.cut();
            }
        }
    }
    if when == 0 {
        want = burst(&mut v, b, &sets, &ok);
    }
    vmc::settle().await;
    vmc::explore(false);
    if marshal.is_none() {
        vmc::sleep(S(5)).await;
        marshal = Some(start_marshal_with::<P>(None).await);
    }
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    at_most(&v, &want, &ctx);
    // longer than the discovery remembers a dead broker
    vmc::sleep(S(90)).await;
    vmc::settle().await;
    for (i, r) in v.iter().enumerate() {
        ensure!(r.at().is_some(), "no session", "client {i}: {ctx}");
    }
    ensure!(get(&ok).len() == b.len(), "send blocks", "{ctx}");
    at_most(&v, &[vec![vec![], vec![]], vec![vec![], vec![]]], &ctx);
    let ok = log();
    let want = burst(&mut v, b, &sets, &ok);
    vmc::sleep(S(1)).await;
    vmc::settle().await;
    let r = get(&ok);
    ensure!(r.iter().all(|r| r.1), "send fails", "{r:?}: {ctx}");
    exactly(&v, &want, &ctx);
    drop((dead, marshal));
    vmc::cover("recovered");
}

/// A dishonest marshal or broker: calls fail, nothing is taken for a session, and the client goes on trying
async fn dishonest(n: usize) {
    vmc::deadline(Some(S(600)));
    open_front().await;
    let c = client(&[1]);
    let one: Vec<F> = (0..n).map(|_| pick("fault", &FAULTS)).collect();
    let ctx = format!("{one:?}");
    plan(&one);
    let t = timeline(&one, vmc::now());
    let up = *t.last().unwrap();
    let mut k = 0u64;
    while vmc::now() < up {
        let l = log();
        let (c2, l2) = (c.clone(), l.clone());
        let _ = go(async move {
            let _ = call(&l2, "send", c2.send_message(direct(9, b"x"))).await;
        });
        vmc::settle().await;
        // unless the session has just begun
        let up = !open_sessions().is_empty();
        ensure!(up || get(&l).iter().all(|x| !x.ok && x.to.is_some()), "accepted", "{:?}: {ctx}", get(&l));
        ensure!(!up || vmc::now() >= t[t.len() - 1], "accepted", "a session at {:?}: {ctx}", vmc::now());
        vmc::sleep(MS(500)).await;
        k += 1;
    }
    vmc::sleep(MS(10)).await;
    vmc::settle().await;
    ensure!(open_sessions().len() == 1 && sessions() == 1, "no session", "{ctx}");
    check_timeline(&one, t[0], 0, MS(0), &ctx);
    odd();
    vmc::outcome(k);
    vmc::cover("only the admitted session is used");
}

/// Long conversations with messages of many sizes
async fn conversation<P: Protocol>(brokers: u16, n: usize) {
    vmc::deadline(Some(S(900)));
    let tops: [&[u8]; 3] = [&[0], &[0, 1], &[1]];
    let (_n, _m, v) = system::<P>(brokers, &tops).await;
    let scale = pick("size", &[1usize, 40, 2_000]);
    let ctx = format!("{brokers} brokers, size {scale}");
    // message k of client f
    let plan = move |f: usize, k: usize| -> (Tx, usize) {
        let x = k * 5 + f * 3;
        let len = 3 + (x * x % 150) * scale;
        let tx = match x % 4 {
            0 => Tx::Broadcast(f, &[0]),
            1 => Tx::Broadcast(f, &[1, 0]),
            _ => Tx::Direct(f, x / 4 % 3),
        };
        (tx, len)
    };
    let body = |f: usize, k: usize, len: usize| {
        let mut b = vec![f as u8, (k >> 8) as u8, k as u8];
        b.extend((3..len).map(|i| (i * 31 + k) as u8));
        b
    };
    let mut want = vec![vec![vec![]; 3]; 3];
    for f in 0..3 {
        for k in 0..n {
            let (tx, len) = plan(f, k);
            for (to, t) in tops.iter().enumerate() {
                match tx {
                    Tx::Direct(_, x) if x == to => want[to][f].push(direct(v[to].key, &body(f, k, len))),
                    Tx::Broadcast(_, ts) if t.iter().any(|t| ts.contains(t)) => want[to][f].push(broadcast(ts, &body(f, k, len))),
                    _ => {}
                }
            }
        }
    }
    let ok: Log<bool> = log();
    for f in 0..3 {
        let (c, ok) = (v[f].c.clone(), ok.clone());
        let _ = v[f].run(async move {
            for k in 0..n {
                let (tx, len) = plan(f, k);
                let r = match tx {
                    Tx::Direct(_, to) => {
                        let key = crate::def::keypair(to as u64 + 1).public_key;
                        c.send_direct_message(&key, body(f, k, len)).await
                    }
                    Tx::Broadcast(_, ts) => c.send_broadcast_message(ts.to_vec(), body(f, k, len)).await,
                };
                push(&ok, r.is_ok());
            }
        });
    }
    for _ in 0..100 {
        vmc::sleep(MS(100)).await;
        vmc::settle().await;
    }
    let sent = get(&ok);
    ensure!(sent.len() == 3 * n && sent.iter().all(|r| *r), "send fails", "{} of {}: {ctx}", sent.iter().filter(|r| **r).count(), 3 * n);
    for (i, r) in v.iter().enumerate() {
        let got = r.take();
        for f in 0..3 {
            let g: Vec<&Message> = got.iter().filter(|m| payload(m).first() == Some(&(f as u8))).collect();
            let w = &want[i][f];
            let differ = (0..g.len().max(w.len())).find(|k| g.get(*k).copied() != w.get(*k));
            ensure!(differ.is_none(), "messages", "client {i} receives {} of {} from {f}; message {differ:?} differs: {ctx}", g.len(), w.len());
        }
    }
    vmc::cover("conversed");
}

fn k05(thorough: bool, v: &mut Vec<Scenario>) {
    let n = if thorough { 600 } else { 120 };
    for b in [1, 2] {
        v.push(Scenario::new(format!("conversation, {b} brokers"), (0, 0), move || async move { conversation::<Tcp>(b, n).await }).steps(20_000_000));
    }
    v.push(Scenario::new("one broker", (2, 3), || async { end_to_end::<Tcp>(1).await }));
    v.push(Scenario::new("two brokers", (1, 3), || async { end_to_end::<Tcp>(2).await }));
    let d = if thorough { 4 } else { 2 };
    v.push(Scenario::new("subscribing", (0, 0), move || async move { subscribing::<Tcp>(d).await }));
    v.push(Scenario::new("loss, one broker", (1, 2), || async {
        end_to_end_loss::<Tcp>(1, &[Mishap::Cut(0), Mishap::Cut(1), Mishap::Both, Mishap::Marshal(1)]).await
    }));
    v.push(Scenario::new("loss, two brokers", (1, 2), || async {
        end_to_end_loss::<Tcp>(2, &[Mishap::Cut(0), Mishap::Cut(1), Mishap::Both, Mishap::Broker(0), Mishap::Broker(1), Mishap::Link, Mishap::Marshal(0)]).await
    }));
    // as in production: clients over TLS
    for b in [1, 2] {
        v.push(Scenario::new(format!("encrypted conversation, {b} brokers"), (0, 0), move || async move { conversation::<TcpTls>(b, n).await }).steps(20_000_000));
    }
    v.push(Scenario::new("encrypted", (0, 1), || async { end_to_end::<TcpTls>(2).await }).steps(400_000));
    v.push(Scenario::new("encrypted, loss", (0, 1), || async {
        end_to_end_loss::<TcpTls>(2, &[Mishap::Cut(0), Mishap::Both, Mishap::Broker(1), Mishap::Garbled(0), Mishap::Garbled(1), Mishap::Marshal(0)]).await
    }).steps(400_000));
    v.push(Scenario::new("dishonest", (0, 0), move || async move { dishonest(d).await }));
}
