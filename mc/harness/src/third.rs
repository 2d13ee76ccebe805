//! M03, M04: trouble with one broker while changes are sent to all of them; the others have to learn of the changes.
use cdn_proto::message::Message;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::ensure;
use crate::peer::Peer;
use crate::place::Base;
use crate::util::*;

pub fn register(id: &str, v: &mut Vec<Scenario>) {
    let topics = match id {
        "M03" => false,
        "M04" => true,
        _ => return,
    };
    for stagger in [true, false] {
        let name = if stagger { "third lost" } else { "third lost, at once" };
        v.push(Scenario::new(name, (2, 3), move || lost(topics, stagger)).seeds(1, 4).steps(60_000));
    }
    v.push(Scenario::new("third stuck", (0, 0), move || stuck(topics)).seeds(8, 16).steps(60_000));
}

fn subs(topics: bool) -> &'static [u8] {
    if topics {
        &[1]
    } else {
        &[]
    }
}

/// Every change has arrived at the brokers named
async fn known(base: &mut Base, users: &mut [User], at: &[usize], topics: bool, when: &str) {
    for b in at {
        if topics {
            base.probes[*b - 1].broadcast(&[1], b"t");
        }
        for u in users.iter() {
            base.probes[*b - 1].direct(u.key, b"d");
        }
        vmc::settle().await;
        vmc::settle().await;
        for u in users.iter_mut() {
            let g: Vec<_> = u.take().iter().map(payload).collect();
            let n = |x: &[u8]| g.iter().filter(|y| *y == x).count();
            ensure!(n(b"d") == 1, "not found", "{when}: user {} from broker {b}: {}", u.key, base.log);
            ensure!(!topics || n(b"t") == 1, "interest not known", "{when}: user {} from broker {b}: {}", u.key, base.log);
            ensure!(!u.closed(), "ended", "{when}: user {}", u.key);
        }
    }
}

/// The link to one of them fails just when changes are sent
async fn lost(topics: bool, stagger: bool) {
    let mut base = Base::start(3, stagger).await;
    vmc::explore(true);
    let who = pick("lost", &[2u16, 3]);
    let during = vmc::choose(2, "the user comes at the same moment") == 1;
    vmc::explore(false);
    base.log = format!("broker {who} lost ");
    let mut u = vec![];
    if !during {
        u.push(login(1, 1, subs(topics)).await);
    }
    base.before_exchange().await;
    let p = if during { Peer::connect(pub_port(1)).await } else { None };
    vmc::sleep(MS(1)).await;
    vmc::explore(true);
    base.unlink(1, who);
    if let Some(mut p) = p {
        p.send(&auth_permit(permit(1, 1)));
        p.send(&Message::Subscribe(subs(topics).to_vec()));
        u.push(User { p, key: 1, b: 1, got: vec![] });
    }
    tokio::task::yield_now().await;
    vmc::settle().await;
    vmc::explore(false);
    for u in &mut u {
        u.take();
    }
    let other = usize::from(5 - who);
    if !during {
        vmc::sleep(MS(500)).await;
        known(&mut base, &mut u, &[other], topics, "at once").await;
    }
    vmc::sleep(S(11)).await;
    vmc::settle().await;
    known(&mut base, &mut u, &[other], topics, "with the next exchange").await;
    base.calm().await;
    known(&mut base, &mut u, &[1, 2, 3], topics, "at the end").await;
    vmc::cover("lost");
}

/// One of them stops reading
async fn stuck(topics: bool) {
    let mut base = Base::start(3, true).await;
    vmc::explore(true);
    let who = pick("stuck", &[2u16, 3]);
    let room = pick("room", &[0usize, 3, 40]);
    let rounds = 1 + vmc::choose(3, "rounds before");
    vmc::explore(false);
    base.log = format!("broker {who} stuck, room {room}, rounds {rounds} ");
    let other = usize::from(5 - who);
    for (init, c) in links(1, who) {
        c.with(usize::from(init != 1), |h| h.cap = room);
    }
    base.hold(1, who);
    let mut u = vec![];
    for k in 1..=rounds as u64 + 1 {
        u.push(login(1, k, if k % 2 == 1 { subs(topics) } else { &[1, 2][..usize::from(topics) * 2] }).await);
        base.before_exchange().await;
        vmc::sleep(MS(500)).await;
        known(&mut base, &mut u, &[other], topics, "with the next exchange").await;
    }
    base.calm().await;
    known(&mut base, &mut u, &[1, 2, 3], topics, "at the end").await;
    vmc::cover("stuck");
}
