//! M02, M03: where users are; histories of logins, departures, exchanges, delays and link losses.
use std::sync::Arc;

use cdn_proto::message::Message;
use tokio::net::Conn;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "M02" => m02(thorough, v),
        "M03" => m03(thorough, v),
        _ => {}
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// The user opens a session at a broker, whatever it had before
    Login(u16),
    /// The user ends its newest session
    Close,
    /// The user ends all its sessions
    CloseAll,
    /// Time passes until (about) one more broker has sent its changes
    Tick,
    /// Everybody has sent its changes
    Round,
    /// Delivery from one broker to another stops, or goes on
    Hold(u16, u16),
    /// The link between two brokers fails; they find out
    Unlink(u16, u16),
    /// A broker crashes and is started again
    Restart(u16),
    /// The same, and the others are not told that the old links are gone
    Lost(u16),
    /// A user at a broker sends a message to the user
    Send(u16),
}
use Act::*;

/// Linked brokers with a user at each
pub struct Base {
    pub n: u16,
    pub nodes: Vec<Option<Node>>,
    pub probes: Vec<User>,
    pub held: Vec<(u16, u16)>,
    /// Links of which one end does not know that they are gone
    pub ghosts: Vec<Arc<Conn>>,
    pub log: String,
}
impl Base {
    /// Brokers that send their changes at evenly spaced moments, or all at the same
    pub async fn start(n: u16, stagger: bool) -> Self {
        vmc::deadline(Some(S(3600)));
        let ex = vmc::exploring();
        vmc::explore(false);
        let mut nodes = vec![];
        for i in 1..=n {
            nodes.push(Some(start_broker(i).await));
            if stagger {
                vmc::sleep(MS(10_000 / u64::from(n))).await;
            }
        }
        vmc::sleep(MS(20_500)).await;
        vmc::settle().await;
        let mut probes = vec![];
        for i in 1..=n {
            probes.push(login(i, 100 + u64::from(i), &[]).await);
        }
        let c = Self { n, nodes, probes, held: vec![], ghosts: vec![], log: String::new() };
        c.linked("setup");
        vmc::sleep(MS(21_000)).await;
        vmc::settle().await;
        vmc::explore(ex);
        c
    }
    pub fn linked(&self, when: &str) {
        for a in 1..=self.n {
            for b in a + 1..=self.n {
                ensure!(link(a, b).is_some(), "not linked", "{when}: brokers {a} and {b} ({})", self.log);
            }
        }
    }
    pub async fn tick(&self) {
        vmc::sleep(MS(10_000 / u64::from(self.n))).await;
    }
    /// Until 1 ms before the next moment at which broker 1 sends its changes
    pub async fn before_exchange(&self) {
        let now = vmc::now().as_millis() as u64;
        vmc::sleep(MS(9_999 - now % 10_000)).await;
        vmc::settle().await;
    }
    /// True if now held
    pub fn hold(&mut self, a: u16, b: u16) -> bool {
        let on = !self.held.contains(&(a, b));
        hold(a, b, on);
        if on {
            self.held.push((a, b));
        } else {
            self.held.retain(|h| *h != (a, b));
        }
        on
    }
    pub fn unlink(&self, a: u16, b: u16) {
        for (_, c) in links(a, b) {
            c.cut();
        }
    }
    /// The process dies and is started again
    pub async fn restart(&mut self, b: u16) {
        if let Some(n) = self.nodes[usize::from(b) - 1].take() {
            n.kill().await;
        }
        vmc::settle().await;
        self.nodes[usize::from(b) - 1] = Some(start_broker(b).await);
        let p = login(b, 100 + u64::from(b), &[]).await;
        self.probes[usize::from(b) - 1] = p;
    }
    /// The process dies and is started again, and the others do not notice until the next calm
    pub async fn lose(&mut self, b: u16) {
        for other in (1..=self.n).filter(|o| *o != b) {
            for (_, c) in links(b, other) {
                c.vanish();
                self.ghosts.push(c);
            }
        }
        self.restart(b).await;
    }
    /// Nothing is in the way any more, and everything has been exchanged
    pub async fn calm(&mut self) {
        for (a, b) in std::mem::take(&mut self.held) {
            hold(a, b, false);
        }
        for c in self.ghosts.drain(..) {
            c.cut();
        }
        vmc::sleep(S(45)).await;
        vmc::settle().await;
        self.linked("at the end");
    }
}

pub struct Cluster {
    base: Base,
    pub sessions: Vec<User>,
    /// The newest session was opened when all earlier ones had ended, or were known to everybody
    clean: bool,
    /// Ticks since the last change of the user's sessions while nothing was in the way
    calm: u32,
    /// Messages sent along the way
    sent: u8,
    alone: bool,
}

impl Cluster {
    pub async fn new(n: u16) -> Self {
        Self::start(n, true).await
    }
    pub async fn start(n: u16, stagger: bool) -> Self {
        Self { base: Base::start(n, stagger).await, sessions: vec![], clean: true, calm: 9, sent: 0, alone: false }
    }
    fn newest_open(&mut self) -> bool {
        self.sessions.last_mut().is_some_and(|u| u.p.is_open() && !u.closed())
    }
    fn calm(&self) -> bool {
        self.calm > u32::from(self.base.n) && self.base.held.is_empty()
    }
    /// Nobody else is there until the end
    async fn alone(mut self) -> Self {
        for p in &mut self.base.probes {
            p.close();
        }
        vmc::settle().await;
        self.alone = true;
        self
    }
    pub async fn act(&mut self, a: Act) {
        let ex = vmc::exploring();
        vmc::explore(false);
        self.base.log += &format!("{a:?} ");
        match a {
            Login(b) => {
                let all_ended = self.sessions.iter_mut().all(|u| !u.p.is_open() || u.closed());
                let calm = self.calm();
                self.clean = all_ended || calm || self.sessions.last().is_some_and(|u| u.b == b) && self.clean;
                self.calm = 0;
                let u = login(b, 1, &[]).await;
                self.sessions.push(u);
            }
            Close => {
                if self.newest_open() {
                    self.calm = 0;
                }
                if let Some(u) = self.sessions.last_mut() {
                    u.close();
                }
            }
            CloseAll => {
                self.calm = 0;
                for u in &mut self.sessions {
                    u.close();
                }
            }
            Tick => {
                self.base.tick().await;
                self.calm += 1;
            }
            Round => {
                vmc::sleep(MS(10_500)).await;
                self.calm += 9;
            }
            Hold(a, b) => {
                if !self.base.hold(a, b) {
                    self.calm = 0;
                }
            }
            Unlink(a, b) => {
                self.base.unlink(a, b);
                self.calm = 0;
            }
            Restart(b) => {
                self.base.restart(b).await;
                self.calm = 0;
            }
            Lost(b) => {
                self.base.lose(b).await;
                self.calm = 0;
            }
            Send(b) => {
                self.sent += 1;
                let m = [0x80 + self.sent];
                self.base.probes[usize::from(b) - 1].direct(1, &m);
            }
        }
        vmc::settle().await;
        vmc::explore(ex);
    }
    /// What holds when everything has been exchanged
    pub async fn check(&mut self, newest: bool) {
        vmc::explore(false);
        self.base.calm().await;
        let log = self.base.log.clone();
        if self.alone {
            for i in 1..=self.base.n {
                self.base.probes[usize::from(i) - 1] = login(i, 100 + u64::from(i), &[]).await;
            }
            vmc::sleep(S(21)).await;
            vmc::settle().await;
        }
        let open: Vec<usize> =
            (0..self.sessions.len()).filter(|i| self.sessions[*i].p.is_open() && !self.sessions[*i].closed()).collect();
        ensure!(open.len() <= 1, "sessions", "{} sessions are open: {log}", open.len());
        if newest && self.clean {
            if let Some(u) = self.sessions.last_mut() {
                let ended = u.closed();
                // (we have not ended it ourselves)
                ensure!(!u.p.is_open() || !ended, "newest ended", "{log}");
            }
        }
        let mut got = vec![];
        for u in &mut self.sessions {
            got.extend(u.take());
        }
        for i in 1..=self.sent {
            let n = got.iter().filter(|m| payload(m) == [0x80 + i]).count();
            ensure!(n <= 1, "duplicate", "message {i} arrives {n} times: {log}");
        }
        for i in 0..self.base.probes.len() {
            ensure!(!self.base.probes[i].closed(), "bystander ended", "probe {}: {log}", i + 1);
            self.base.probes[i].direct(1, &[i as u8]);
            vmc::settle().await;
            vmc::settle().await;
            for k in 0..self.sessions.len() {
                let got = self.sessions[k].take();
                let want = if open.contains(&k) { vec![direct(1, &[i as u8])] } else { vec![] };
                let b = self.sessions[k].b;
                ensure!(
                    got == want,
                    if want.is_empty() { "delivered elsewhere" } else { "not found" },
                    "from broker {} to session {k} at broker {b}: {got:?}, {log}",
                    i + 1
                );
            }
        }
        // The session is heard too
        if let Some(k) = open.first() {
            for i in 0..self.base.probes.len() {
                self.base.probes[i].take();
                self.sessions[*k].direct(101 + i as u64, b"up");
                vmc::settle().await;
                vmc::settle().await;
                let got = self.base.probes[i].take();
                ensure!(got.len() == 1, "not heard", "at broker {}: {} messages, {log}", i + 1, got.len());
            }
        }
        vmc::cover(if open.is_empty() { "nowhere" } else { "somewhere" });
        vmc::outcome(open.first().map_or(99, |k| u64::from(self.sessions[*k].b)));
    }
    pub async fn history(&mut self, depth: usize, acts: &[Act], newest: bool) {
        for _ in 0..depth {
            let can: Vec<Act> = {
                let open = self.newest_open();
                let any = self.sessions.iter_mut().any(|u| u.p.is_open() && !u.closed());
                acts.iter()
                    .copied()
                    .filter(|a| match a {
                        Close => open,
                        CloseAll => any,
                        Tick | Round => !self.base.log.is_empty(),
                        Unlink(a, b) => link(*a, *b).is_some(),
                        _ => true,
                    })
                    .collect()
            };
            vmc::explore(true);
            let a = can[vmc::choose(can.len(), "act")];
            vmc::explore(false);
            self.act(a).await;
        }
        self.check(newest).await;
    }
}

fn family(v: &mut Vec<Scenario>, name: &str, n: u16, depth: usize, newest: bool, acts: Vec<Act>) {
    let alone = name.contains("alone");
    v.push(
        Scenario::new(format!("{name}, {depth} acts"), (0, 0), move || {
            let acts = acts.clone();
            async move {
                let mut c = Cluster::new(n).await;
                if alone {
                    c = c.alone().await;
                }
                c.history(depth, &acts, newest).await;
            }
        })
        .steps(60_000),
    );
}

/// Brokers exchange at the same moment as the user comes, goes or moves, in every order of execution
fn races(v: &mut Vec<Scenario>, bound: (u32, u32), name: &str, stagger: bool) {
    v.push(
        Scenario::new(format!("races, {name}"), bound, move || async move {
            let mut c = Cluster::start(2, stagger).await;
            vmc::explore(true);
            let before = pick("before", &[None, Some(Login(1)), Some(Login(2))]);
            let what = pick("while", &[Login(1), Login(2), Close, Unlink(1, 2)]);
            let again = pick("and", &[None, Some(Login(1)), Some(Login(2)), Some(Close)]);
            vmc::explore(false);
            if let Some(a) = before {
                c.act(a).await;
            }
            c.base.log += "while exchanging ";
            c.base.before_exchange().await;
            let mut begun = vec![];
            for a in [Some(what), again].into_iter().flatten() {
                let p = match a {
                    Login(b) => Peer::connect(pub_port(b)).await,
                    _ => None,
                };
                begun.push((a, p));
            }
            vmc::sleep(MS(1)).await;
            vmc::explore(true);
            let mut new = vec![];
            for (a, p) in begun {
                c.base.log += &format!("{a:?} ");
                match (a, p) {
                    (Login(b), Some(mut p)) => {
                        p.send(&auth_permit(permit(b, 1)));
                        p.send(&Message::Subscribe(vec![]));
                        new.push(User { p, key: 1, b, got: vec![] });
                    }
                    (Close, _) => {
                        if let Some(u) = c.sessions.last_mut() {
                            u.close();
                        }
                    }
                    (Unlink(a, b), _) => {
                        for (_, c) in links(a, b) {
                            c.cut();
                        }
                    }
                    _ => {}
                }
                tokio::task::yield_now().await;
            }
            vmc::settle().await;
            vmc::explore(false);
            for mut u in new {
                let ok = matches!(u.take().first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
                ensure!(ok || u.closed(), "login", "{}", c.base.log);
                c.sessions.push(u);
            }
            c.check(false).await;
        })
        .steps(60_000),
    );
}

/// A link forms while users are, come and go on both sides
fn forming(v: &mut Vec<Scenario>, bound: (u32, u32), stagger: bool) {
    let name = if stagger { "forming" } else { "forming, at once" };
    v.push(
        Scenario::new(name, bound, move || async move {
            let mut c = Cluster::start(2, stagger).await;
            vmc::explore(true);
            let before = pick("before", &[None, Some(Login(1)), Some(Login(2))]);
            let settled = vmc::choose(2, "exchanged") == 0;
            let what = pick("while", &[None, Some(Login(1)), Some(Login(2)), Some(Close)]);
            vmc::explore(false);
            if let Some(a) = before {
                c.act(a).await;
                if settled {
                    c.act(Round).await;
                }
            }
            c.base.before_exchange().await;
            c.act(Unlink(1, 2)).await;
            c.base.log += "while forming ";
            let p = match what {
                Some(Login(b)) => Peer::connect(pub_port(b)).await.map(|p| (b, p)),
                _ => None,
            };
            vmc::sleep(MS(1)).await;
            vmc::explore(true);
            tokio::task::yield_now().await;
            c.base.log += &format!("{what:?} ");
            let new = p.map(|(b, mut p)| {
                p.send(&auth_permit(permit(b, 1)));
                p.send(&Message::Subscribe(vec![]));
                User { p, key: 1, b, got: vec![] }
            });
            if let (Some(Close), Some(u)) = (what, c.sessions.last_mut()) {
                u.close();
            }
            vmc::settle().await;
            vmc::explore(false);
            if let Some(mut u) = new {
                let ok = matches!(u.take().first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
                ensure!(ok || u.closed(), "login", "{}", c.base.log);
                c.sessions.push(u);
            }
            c.check(false).await;
        })
        .steps(60_000),
    );
}

fn m03(thorough: bool, v: &mut Vec<Scenario>) {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let (l1, l2, l3) = (Login(1), Login(2), Login(3));
    family(v, "two brokers", 2, d(7, 8), false, vec![l1, l2, Close, Tick]);
    family(v, "two brokers, delays", 2, d(5, 7), false, vec![l1, l2, Close, Tick, Hold(1, 2), Hold(2, 1)]);
    family(v, "two brokers, link loss", 2, d(6, 7), false, vec![l1, l2, Close, Tick, Unlink(1, 2)]);
    family(v, "two brokers, restarts", 2, d(5, 6), false, vec![l1, l2, Close, Tick, Restart(1), Restart(2)]);
    family(v, "two brokers, alone", 2, d(5, 6), false, vec![l1, l2, Close, Tick, Unlink(1, 2)]);
    family(v, "two brokers, lost links", 2, d(5, 6), false, vec![l1, l2, Close, Tick, Lost(1), Lost(2)]);
    family(v, "three brokers", 3, d(5, 7), false, vec![l1, l2, l3, Close, Tick]);
    let holds = [Hold(1, 3), Hold(3, 1), Hold(2, 3), Hold(1, 2)];
    family(v, "three brokers, delays", 3, d(4, 5), false, [&[l1, l2, l3, Close, Tick][..], &holds].concat());
    let loss = [Unlink(1, 3), Unlink(1, 2), Restart(2)];
    family(v, "three brokers, losses", 3, d(4, 5), false, [&[l1, l2, l3, Close, Tick][..], &loss].concat());
    races(v, (1, 2), "staggered", true);
    races(v, (1, 2), "at once", false);
    forming(v, (1, 2), true);
    forming(v, (1, 2), false);
}

fn m02(thorough: bool, v: &mut Vec<Scenario>) {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let (l1, l2, l3) = (Login(1), Login(2), Login(3));
    family(v, "moves after a round", 2, d(7, 8), true, vec![l1, l2, Close, Round]);
    family(v, "moves", 2, d(7, 8), true, vec![l1, l2, CloseAll, Tick]);
    family(v, "alone", 2, d(7, 8), true, vec![l1, l2, CloseAll, Tick]);
    family(v, "moves and messages", 2, d(6, 7), true, vec![l1, l2, CloseAll, Tick, Send(1), Send(2)]);
    family(v, "moves, three brokers", 3, d(5, 6), true, vec![l1, l2, l3, CloseAll, Tick, Round]);
}
