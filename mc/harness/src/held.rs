//! T04 in a whole broker: what it has taken in and not yet passed on stays within its pool, whichever way it
//! came and goes, and a pool that was full is of use again once the recipients read on or are gone.
use cdn_proto::message::Message;
use tokio::net::sim;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::Tcp;
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    if id == "T04" {
        v.push(Scenario::new("broker", (0, u32::from(thorough)), held).steps(2_000_000));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    User,
    Broker,
    Both,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    /// Direct messages to one user, or to two in turns
    One,
    Turns,
    /// Broadcasts to two users, one of which reads
    Topic,
    /// Direct messages to a user of a linked broker, broadcasts to it
    Away,
    AwayTopic,
    /// Nobody
    Unknown,
    Nobody,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Then {
    Read,
    Close,
    Cut,
    Wait,
}

const BODY: usize = 10_000;
/// What a buffer between the socket and the reader may hold, for each source
const SLACK: u64 = 12_000;

fn up(p: &Peer) -> (u64, u64) {
    p.conn.with(0, |h| (h.written, h.read))
}
fn down(p: &Peer) -> u64 {
    p.conn.with(1, |h| h.written)
}

async fn held() {
    vmc::deadline(Some(S(3600)));
    vmc::explore(true);
    let pool = pick("pool", &[10_200usize, 35_000]);
    let from = pick("from", &[From::User, From::Broker, From::Both]);
    let to = pick("to", &[To::One, To::Turns, To::Topic, To::Away, To::AwayTopic, To::Unknown, To::Nobody]);
    let then = pick("then", &[Then::Read, Then::Close, Then::Cut, Then::Wait]);
    vmc::explore(false);
    // what comes from a broker goes to no other
    if from != From::User && matches!(to, To::Away | To::AwayTopic) {
        return;
    }
    let _n = start_broker_with::<Tcp, Tcp>(1, Some(pool)).await;
    let mut user = login(1, 1, &[]).await;
    let mut ok = login(1, 2, &[1]).await;
    let Some(mut peer) = fake_in(1, "x:1/x:1").await else {
        return vmc::fail("link", "a broker is not admitted");
    };
    // Somebody who knows where user 20 is, and wants topic 2
    sim::set_default_cap(2048);
    let mut stalled = vec![];
    for k in 10..12 {
        stalled.push(login(1, k, &[0]).await);
    }
    let _n2 = start_broker_with::<Tcp, Tcp>(2, None).await;
    let mut far = login(2, 20, &[2]).await;
    vmc::sleep(S(25)).await;
    vmc::settle().await;
    let Some(l) = link(1, 2) else {
        return vmc::fail("link", "the brokers are not linked");
    };
    let (init, _) = links(1, 2).pop().expect("link");
    let out = usize::from(init != 1);
    let away = matches!(to, To::Away | To::AwayTopic);
    if away {
        l.with(out, |h| {
            h.hold = true;
            h.cap = 2048;
        });
    }
    // A few messages, all different
    let n = 12u8;
    let message = |i: u8| {
        let b = body(i, BODY);
        match to {
            To::One => direct(10, &b),
            To::Turns => direct(10 + u64::from(i % 2), &b),
            To::Topic => broadcast(&[0, 1], &b),
            To::Away => direct(20, &b),
            To::AwayTopic => broadcast(&[2], &b),
            To::Unknown => direct(77, &b),
            To::Nobody => broadcast(&[130], &b),
        }
    };
    let base_up = [up(&user.p).1, up(&peer.p).1];
    let base_down = [down(&stalled[0].p), down(&stalled[1].p), l.with(out, |h| h.written)];
    vmc::explore(true);
    for p in [&user.p, &peer.p] {
        p.conn.with(0, |h| h.cap = 1 << 20);
    }
    for i in 0..n {
        let m = message(i);
        match from {
            From::User => user.send(&m),
            From::Broker => peer.send(&m),
            From::Both if i % 2 == 0 => user.send(&m),
            From::Both => peer.send(&m),
        }
    }
    let each = (message(0).serialize().expect("serialize").len() + 4) as u64;
    // What was taken in and is not passed on
    let within = |user: &Peer, peer: &Peer, stalled: &[User], when: &str| {
        let taken: u64 = [user, peer].iter().zip(base_up).map(|(p, b)| up(p).1 - b).sum();
        let written = [down(&stalled[0].p) - base_down[0], down(&stalled[1].p) - base_down[1], l.with(out, |h| h.written) - base_down[2]];
        // A message counts until its last byte has been passed on
        let whole = |w: u64| w / each * each;
        let passed = match to {
            To::One => whole(written[0]),
            To::Turns => whole(written[0]) + whole(written[1]),
            To::Topic => whole(written[0].min(written[1])),
            To::Away | To::AwayTopic => whole(written[2]),
            To::Unknown | To::Nobody => taken,
        };
        let kept = taken.saturating_sub(passed);
        ensure!(
            kept <= pool as u64 + 4 * u64::from(n) + SLACK,
            "pool",
            "{kept} bytes are kept with a pool of {pool}, {when}: {from:?} to {to:?}"
        );
        kept
    };
    let mut most = 0;
    for i in 0..4 {
        vmc::settle().await;
        vmc::explore(false);
        let gone = if away { l.ended(0) || l.ended(1) } else { stalled.iter().any(|u| u.p.conn.ended(1)) };
        if !gone {
            most = most.max(within(&user.p, &peer.p, &stalled, &format!("nobody reads for {i} s")));
        }
        ok.pump();
        vmc::sleep(S(1)).await;
    }
    let blocked = !matches!(to, To::Unknown | To::Nobody);
    if blocked {
        ensure!(most + each > pool as u64, "unused", "only {most} bytes are kept with a pool of {pool}: {from:?} to {to:?}");
    }
    match then {
        Then::Read if away => l.hold(out, false),
        Then::Close | Then::Cut if away => l.cut(),
        Then::Close => stalled.iter_mut().for_each(User::close),
        Then::Cut => stalled.iter().for_each(|u| u.p.conn.cut()),
        _ => {}
    }
    let mut taken = vec![];
    for _ in 0..120 {
        vmc::settle().await;
        if then == Then::Read && !away {
            for u in &mut stalled {
                u.pump();
            }
        }
        ok.pump();
        far.pump();
        vmc::sleep(MS(100)).await;
        taken = [&user.p, &peer.p].iter().map(|p| up(p)).collect();
    }
    if then == Then::Wait || away {
        // Until the stalled ones are cut off, and for the links to form again
        vmc::sleep(S(25)).await;
        vmc::settle().await;
        ok.pump();
        far.pump();
        taken = [&user.p, &peer.p].iter().map(|p| up(p)).collect();
    }
    for (w, r) in taken {
        ensure!(w == r, "stuck", "{} bytes wait to be read: {from:?} to {to:?} then {then:?}, pool {pool}", w - r);
    }
    // All of it is there for whoever read on
    if then == Then::Read {
        let check = |u: &mut User, it: &mut dyn Iterator<Item = u8>| {
            let mut got: Vec<u8> = u.take().iter().filter(|m| matches!(m, Message::Direct(_) | Message::Broadcast(_))).map(|m| payload(m)[0]).collect();
            let mut want: Vec<u8> = it.map(|i| body(i, BODY)[0]).collect();
            if from == From::Both {
                got.sort_unstable();
                want.sort_unstable();
            }
            ensure!(got == want, "lost", "user {}: {got:?} instead of {want:?}: {from:?} to {to:?}, pool {pool}", u.key);
        };
        match to {
            To::One => check(&mut stalled[0], &mut (0..n)),
            To::Turns => {
                check(&mut stalled[0], &mut (0..n).filter(|i| i % 2 == 0));
                check(&mut stalled[1], &mut (0..n).filter(|i| i % 2 == 1));
            }
            To::Topic => stalled.iter_mut().for_each(|u| check(u, &mut (0..n))),
            To::Away | To::AwayTopic => check(&mut far, &mut (0..n)),
            _ => {}
        }
        vmc::cover("read on");
    }
    if to == To::Topic && then != Then::Wait {
        ensure!(ok.take().len() == usize::from(n), "lost", "the one that reads");
    }
    // The pool is as good as new
    for round in 0..3u8 {
        user.direct(2, &vec![round; pool - 250]);
        for _ in 0..20 {
            vmc::settle().await;
            ok.pump();
        }
        let got = ok.take();
        ensure!(
            got.iter().filter(|m| payload(m).len() == pool - 250).count() == 1,
            "leak",
            "a message as large as the pool does not get through: {from:?} to {to:?} then {then:?}, pool {pool}"
        );
    }
    vmc::cover(if blocked { "full" } else { "passing" });
    vmc::outcome(most / 1000);
}
