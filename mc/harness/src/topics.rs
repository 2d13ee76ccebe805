//! M04: which topics the peers want; histories of subscriptions, departures, exchanges, delays and link losses.
use std::collections::BTreeSet;

use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::Message;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::WIRE;
use crate::disc::store;
use crate::ensure;
use crate::peer::Peer;
use crate::place::Base;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    if id == "M04" {
        m04(thorough, v);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// A user subscribes to the topics of a mask
    Sub(usize, u8),
    Unsub(usize, u8),
    /// A user comes with the topics of a mask, perhaps again
    Join(usize, u8),
    Leave(usize),
    Tick,
    Round,
    Hold(u16, u16),
    Unlink(u16, u16),
    Restart(u16),
    /// A restart of which the others are not told
    Lost(u16),
}
use Act::*;

fn topics(mask: u8) -> Vec<u8> {
    (0..3).filter(|t| mask & (1 << t) != 0).collect()
}

struct Topics {
    base: Base,
    /// The broker of each user
    at: Vec<u16>,
    users: Vec<Option<User>>,
    wants: Vec<BTreeSet<u8>>,
}

impl Topics {
    async fn start(n: u16, at: &[u16], stagger: bool) -> Self {
        let base = Base::start(n, stagger).await;
        let mut t = Self { base, at: at.to_vec(), users: vec![], wants: vec![BTreeSet::new(); at.len()] };
        for (i, b) in at.iter().enumerate() {
            t.users.push(Some(login(*b, i as u64 + 1, &[]).await));
        }
        t
    }
    fn can(&mut self, a: Act) -> bool {
        match a {
            Sub(u, _) | Unsub(u, _) | Leave(u) => self.users[u].as_mut().is_some_and(|u| !u.closed()),
            Tick | Round => !self.base.log.is_empty(),
            Unlink(a, b) => link(a, b).is_some(),
            _ => true,
        }
    }
    /// Starts what needs no waiting
    fn begin(&mut self, a: Act) {
        match a {
            Sub(u, m) => {
                if let Some(x) = self.users[u].as_mut() {
                    x.subscribe(&topics(m));
                    self.wants[u].extend(topics(m));
                }
            }
            Unsub(u, m) => {
                if let Some(x) = self.users[u].as_mut() {
                    x.unsubscribe(&topics(m));
                    self.wants[u].retain(|t| !topics(m).contains(t));
                }
            }
            Leave(u) => {
                if let Some(mut x) = self.users[u].take() {
                    x.close();
                }
                self.wants[u].clear();
            }
            Unlink(a, b) => self.base.unlink(a, b),
            _ => {}
        }
    }
    async fn act(&mut self, a: Act) {
        let ex = vmc::exploring();
        vmc::explore(false);
        self.base.log += &format!("{a:?} ");
        match a {
            Join(u, m) => {
                self.users[u] = Some(login(self.at[u], u as u64 + 1, &topics(m)).await);
                self.wants[u] = topics(m).into_iter().collect();
            }
            Tick => self.base.tick().await,
            Round => vmc::sleep(MS(10_500)).await,
            Hold(a, b) => {
                self.base.hold(a, b);
            }
            Restart(b) | Lost(b) => {
                if a == Restart(b) {
                    self.base.restart(b).await;
                } else {
                    self.base.lose(b).await;
                }
                for u in 0..self.at.len() {
                    if self.at[u] == b {
                        self.users[u] = None;
                        self.wants[u].clear();
                    }
                }
            }
            a => self.begin(a),
        }
        vmc::settle().await;
        vmc::explore(ex);
    }
    async fn check(&mut self) {
        vmc::explore(false);
        self.base.calm().await;
        let log = self.base.log.clone();
        for u in self.users.iter_mut().flatten() {
            ensure!(!u.closed(), "bystander ended", "user {}: {log}", u.key);
            u.take();
        }
        let mut mask = 0u64;
        for b in 1..=self.base.n {
            for t in 0..3u8 {
                WIRE.with(|w| *w.borrow_mut() = Some(vec![]));
                let p = &mut self.base.probes[usize::from(b) - 1];
                ensure!(!p.closed(), "bystander ended", "probe {b}: {log}");
                p.broadcast(&[t], &[t, b as u8]);
                vmc::settle().await;
                vmc::settle().await;
                let wire = WIRE.with(|w| w.borrow_mut().take()).unwrap_or_default();
                for peer in 1..=self.base.n {
                    if peer == b {
                        continue;
                    }
                    let wanted = (0..self.at.len()).any(|u| self.at[u] == peer && self.wants[u].contains(&t));
                    let n = wire.iter().filter(|(g, br, m)| {
                        *g == u32::from(peer) && *br && matches!(m, Message::Broadcast(_))
                    });
                    let n = n.count();
                    ensure!(
                        n == usize::from(wanted),
                        if wanted { "not forwarded" } else { "forwarded" },
                        "topic {t} from broker {b} to {peer}: {n} times, wanted: {wanted}; {log}"
                    );
                }
                for u in 0..self.at.len() {
                    if let Some(x) = self.users[u].as_mut() {
                        let got = x.take();
                        let n = usize::from(self.wants[u].contains(&t));
                        ensure!(
                            got == vec![broadcast(&[t], &[t, b as u8]); n],
                            "delivery",
                            "topic {t} from broker {b} to user {u}: {got:?} instead of {n}; {log}"
                        );
                        mask = mask << 1 | n as u64;
                    }
                }
            }
        }
        vmc::outcome(mask);
        vmc::cover(if mask == 0 { "nothing wanted" } else { "something wanted" });
    }
}

fn family(v: &mut Vec<Scenario>, name: &str, at: &'static [u16], depth: usize, acts: Vec<Act>) {
    let n = 2.max(at.iter().copied().max().unwrap_or(2));
    v.push(
        Scenario::new(format!("{name}, {depth} acts"), (0, 0), move || {
            let acts = acts.clone();
            async move {
                let mut c = Topics::start(n, at, true).await;
                for _ in 0..depth {
                    let can: Vec<Act> = acts.iter().copied().filter(|a| c.can(*a)).collect();
                    vmc::explore(true);
                    let a = can[vmc::choose(can.len(), "act")];
                    vmc::explore(false);
                    c.act(a).await;
                }
                c.check().await;
            }
        })
        .steps(80_000),
    );
}

/// Changes at the same moment as the exchange
fn races(v: &mut Vec<Scenario>, bound: (u32, u32), name: &str, stagger: bool) {
    v.push(
        Scenario::new(format!("races, {name}"), bound, move || async move {
            let mut c = Topics::start(2, &[1, 1, 2], stagger).await;
            vmc::explore(true);
            let before = pick("before", &[None, Some(Sub(0, 1)), Some(Sub(1, 1))]);
            let settled = vmc::choose(2, "exchanged") == 0;
            let what = pick("while", &[Sub(0, 1), Unsub(0, 1), Leave(0), Join(0, 2), Unlink(1, 2)]);
            let again = pick("and", &[None, Some(Sub(0, 1)), Some(Unsub(0, 1)), Some(Leave(0)), Some(Sub(2, 1))]);
            vmc::explore(false);
            if let Some(a) = before {
                c.act(a).await;
                if settled {
                    c.act(Round).await;
                }
            }
            c.base.log += "while exchanging ";
            c.base.before_exchange().await;
            let mut p = Peer::connect(pub_port(1)).await.expect("connect");
            vmc::sleep(MS(1)).await;
            vmc::explore(true);
            let mut joined = false;
            for a in [Some(what), again].into_iter().flatten() {
                c.base.log += &format!("{a:?} ");
                if let Join(_, m) = a {
                    p.send(&auth_permit(permit(1, 1)));
                    p.send(&Message::Subscribe(topics(m)));
                    joined = true;
                    c.wants[0] = topics(m).into_iter().collect();
                    // What the older session does now is of no consequence
                    c.users[0] = None;
                } else {
                    c.begin(a);
                }
                tokio::task::yield_now().await;
            }
            vmc::settle().await;
            vmc::explore(false);
            if joined {
                let a = p.recv();
                let ok = matches!(a.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
                ensure!(ok, "login", "{a:?}");
                if again == Some(Leave(0)) {
                    c.wants[0].clear();
                    p.close();
                } else {
                    c.users[0] = Some(User { p, key: 1, b: 1, got: vec![] });
                }
            }
            c.check().await;
        })
        .steps(80_000),
    );
}

/// A link forms while topics are wanted, and change, on both sides
fn forming(v: &mut Vec<Scenario>, bound: (u32, u32), stagger: bool) {
    let name = if stagger { "forming" } else { "forming, at once" };
    v.push(
        Scenario::new(name, bound, move || async move {
            let mut c = Topics::start(2, &[1, 2], stagger).await;
            vmc::explore(true);
            let before = pick("before", &[Sub(0, 1), Sub(1, 1)]);
            let settled = vmc::choose(2, "exchanged") == 0;
            let what = pick("while", &[None, Some(Sub(0, 2)), Some(Sub(1, 2)), Some(Unsub(0, 1)), Some(Unsub(1, 1))]);
            vmc::explore(false);
            c.act(before).await;
            if settled {
                c.act(Round).await;
            }
            c.base.before_exchange().await;
            c.act(Unlink(1, 2)).await;
            c.base.log += "while forming ";
            vmc::sleep(MS(1)).await;
            vmc::explore(true);
            tokio::task::yield_now().await;
            if let Some(a) = what {
                c.base.log += &format!("{a:?} ");
                c.begin(a);
            }
            vmc::settle().await;
            vmc::explore(false);
            c.check().await;
        })
        .steps(80_000),
    );
}

/// What arrives over the earlier link of a broker just when it links again says nothing about its topics any more
async fn earlier_link() {
    const DONOR: u16 = 5;
    vmc::deadline(Some(S(600)));
    let n = start_broker(DONOR).await;
    let mut u = login(DONOR, 1, &[0]).await;
    let mut f = fake_in(DONOR, &ident(1).to_string()).await.expect("in");
    // topic 0: wanted, not, wanted, each with a higher version
    let mut said = vec![];
    for i in 0..3 {
        match i {
            1 => u.send(&Message::Unsubscribe(vec![0])),
            2 => u.send(&Message::Subscribe(vec![0])),
            _ => {}
        }
        exchange().await;
        said.extend(f.take().into_iter().rfind(|m| matches!(m, Message::TopicSync(_))));
    }
    ensure!(said.len() == 3, "setup", "{} synchronisations", said.len());
    n.kill().await;
    store(|s| s.brokers.clear());
    let _b = start_broker(2).await;
    let mut u = login(2, 2, &[]).await;
    let id = ident(1).to_string();
    let mut old = fake_in(2, &id).await.expect("in");
    let (before, late, new) = (
        pick("before", &[None, Some(0usize), Some(1)]),
        pick("late", &[0usize, 1, 2]),
        pick("new", &[None, Some(0usize), Some(1)]),
    );
    if let Some(k) = before {
        old.p.send(&said[k]);
        vmc::settle().await;
    }
    let mut p = Peer::connect(priv_port(2)).await.expect("connect");
    p.send(&auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()));
    vmc::settle().await;
    ensure!(p.recv().iter().any(|m| matches!(m, Message::AuthenticateWithKey(_))), "setup", "no answer");
    vmc::explore(true);
    let order = pick("order", &["after", "before"]);
    if order == "before" {
        old.p.send(&said[late]);
    }
    p.send(&auth_response(1, &id));
    if order == "after" {
        old.p.send(&said[late]);
    }
    vmc::settle().await;
    vmc::explore(false);
    if let Some(k) = new {
        p.send(&said[k]);
    }
    vmc::settle().await;
    p.recv();
    u.broadcast(&[0], &[9]);
    vmc::settle().await;
    let got = p.recv().iter().any(|m| matches!(m, Message::Broadcast(b) if b.message == [9]));
    let want = new == Some(0);
    ensure!(got == want, if want { "lost" } else { "unwanted" },
        "what its earlier link said last counts for the topics of a broker that has linked again (before {before:?}, late {late}, new {new:?})");
    vmc::cover("linked again");
}

fn m04(thorough: bool, v: &mut Vec<Scenario>) {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    family(v, "one topic", &[1, 1], d(5, 6), vec![
        Sub(0, 1), Unsub(0, 1), Sub(1, 1), Unsub(1, 1), Leave(0), Join(0, 1), Tick,
    ]);
    family(v, "topics", &[1, 2], d(4, 5), vec![
        Sub(0, 1), Sub(0, 3), Unsub(0, 1), Unsub(0, 3), Leave(0), Join(0, 2), Sub(1, 1), Tick,
    ]);
    family(v, "delays", &[1], d(5, 7), vec![Sub(0, 1), Unsub(0, 1), Tick, Hold(1, 2), Hold(2, 1), Unlink(1, 2)]);
    family(v, "link loss", &[1, 2], d(5, 6), vec![Sub(0, 1), Unsub(0, 1), Sub(1, 1), Leave(1), Tick, Unlink(1, 2)]);
    family(v, "restarts", &[1, 2], d(4, 6), vec![Sub(0, 1), Unsub(0, 1), Join(0, 1), Join(1, 1), Tick, Restart(1), Restart(2)]);
    family(v, "lost links", &[1, 2], d(4, 6), vec![Sub(0, 1), Sub(1, 1), Join(0, 1), Join(1, 1), Tick, Lost(1), Lost(2)]);
    family(v, "three brokers", &[1, 2, 3], d(4, 5), vec![
        Sub(0, 1), Unsub(0, 1), Sub(1, 1), Sub(2, 1), Leave(2), Tick, Unlink(1, 3), Hold(1, 2),
    ]);
    races(v, (1, 2), "staggered", true);
    races(v, (1, 2), "at once", false);
    forming(v, (1, 2), true);
    forming(v, (1, 2), false);
    v.push(Scenario::new("earlier link", (1, 2), || async { earlier_link().await }));
}
