//! W02: hostile bytes from any kind of peer at any point of its life, against running brokers, marshals and clients.
use std::collections::BTreeSet;

use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::Message;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::codec::{example, EDGE};
use crate::def::{pk, VALID_TOPICS};
use crate::disc::store;
use crate::front::*;
use crate::peer::{frame, Peer, Server};
use crate::util::*;
use crate::{alloc, ensure};

const EVIL: u64 = 66;
const GHOST: u16 = 7;
/// A user that hostile synchronisation messages talk about
const K: u64 = 0x5151_0000_0000_0051;

/// Which peer sends the bytes, and when
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    /// A user's session
    User,
    /// A user that has presented its permit, instead of the topics
    UserTopics,
    /// Instead of a permit
    UserFirst,
    /// A broker's session
    Broker,
    /// A broker in the second step of its handshake
    BrokerSecond,
    BrokerFirst,
    /// A broker that was dialled, in the two steps of its handshake and in its session
    DialledFirst,
    DialledSecond,
    Dialled,
    Marshal,
}
const USERS: [At; 3] = [At::User, At::UserTopics, At::UserFirst];
const BROKERS: [At; 3] = [At::Broker, At::BrokerSecond, At::BrokerFirst];
const DIALLED: [At; 3] = [At::DialledFirst, At::DialledSecond, At::Dialled];

/// Raw bytes to send, and the frame in them if there is a whole one
#[derive(Clone)]
struct Shot {
    raw: Vec<u8>,
    body: Option<Vec<u8>>,
}
impl Shot {
    /// The size of a message that the protocol allows and that is only begun
    fn announced(&self) -> usize {
        let n = self.raw.first_chunk().map_or(0, |n| u32::from_be_bytes(*n) as usize);
        if n <= u32::MAX as usize / 8 {
            n
        } else {
            0
        }
    }
}
fn shot(b: Vec<u8>) -> Shot {
    Shot { raw: frame(&b), body: Some(b) }
}
fn raw_shot(b: &[u8]) -> Shot {
    Shot { raw: b.to_vec(), body: None }
}

fn values(thorough: bool, old: u8) -> Vec<u8> {
    if thorough {
        (0..=255).collect()
    } else {
        let mut v: Vec<u8> = EDGE.to_vec();
        v.extend([old ^ 1, old.wrapping_add(1), old ^ 0x80]);
        v
    }
}
/// Truncations, changed bytes and changed words of a message
fn mutants(b: &[u8], thorough: bool) -> Vec<Shot> {
    let mut v: Vec<Shot> = (0..b.len()).map(|n| shot(b[..n].to_vec())).collect();
    for i in 0..b.len() {
        for x in values(thorough, b[i]) {
            let mut y = b.to_vec();
            y[i] = x;
            v.push(shot(y));
        }
    }
    v
}
fn shapes() -> Vec<Shot> {
    let mut m: Vec<Message> = (0..9).map(example).collect();
    m.extend([
        Message::Subscribe(vec![]),
        Message::Subscribe(vec![77]),
        Message::Subscribe(body(3, 70_000)),
        Message::Unsubscribe(vec![]),
        Message::Unsubscribe(vec![77]),
        Message::Unsubscribe(body(3, 70_000)),
        broadcast(&[], b"x"),
        broadcast(&[77], b"x"),
        broadcast(&vec![0; 70_000], b"x"),
        broadcast(&(0..=255).collect::<Vec<_>>(), b"y"),
        direct(12345, &[]),
        Message::Direct(cdn_proto::message::Direct { recipient: vec![], message: vec![] }),
        Message::Direct(cdn_proto::message::Direct { recipient: body(9, 70_000), message: body(1, 70_000) }),
        Message::UserSync(vec![]),
        Message::TopicSync(vec![]),
        Message::UserSync(body(1, 70_000)),
        Message::TopicSync(vec![0; 70_000]),
        auth_permit(0),
        auth_permit(1),
        auth_permit(u64::MAX),
        auth_response(0, ""),
        auth_response(1, ""),
        auth_response(1, "127.0.0.1:1"),
        auth_response(1, "/"),
        auth_response(1, "a/b/c"),
        auth_response(u64::MAX, &"x".repeat(70_000)),
        auth_key(EVIL, Namespace::UserMarshalAuth, 0),
        auth_key(EVIL, Namespace::UserMarshalAuth, u64::MAX),
        auth_key(CLUSTER, Namespace::BrokerBrokerAuth, 0),
        auth_key(CLUSTER, Namespace::BrokerBrokerAuth, u64::MAX),
        Message::AuthenticateWithKey(cdn_proto::message::AuthenticateWithKey { public_key: vec![], timestamp: 0, signature: vec![] }),
        Message::AuthenticateWithKey(cdn_proto::message::AuthenticateWithKey {
            public_key: pk(EVIL),
            timestamp: wall(),
            signature: body(1, 70_000),
        }),
    ]);
    let mut v: Vec<Shot> = m.iter().map(|m| shot(m.serialize().unwrap())).collect();
    // Length prefixes
    for n in [0u32, 1, 7, 8, 0x0001_0000, u32::MAX / 8 + 1, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
        let mut b = n.to_be_bytes().to_vec();
        v.push(raw_shot(&b));
        b.extend([0; 40]);
        v.push(raw_shot(&b));
    }
    for n in 1..4 {
        v.push(raw_shot(&vec![0; n]));
        v.push(raw_shot(&vec![0xff; n]));
    }
    v.push(raw_shot(b"GET / HTTP/1.1\r\n\r\n"));
    v.push(raw_shot(&[0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3]));
    v
}

struct World {
    nodes: Vec<Node>,
    a: User,
    b: User,
    evil: Option<User>,
    fake: Option<Fake>,
    server: Option<Server>,
    n: u64,
}
impl World {
    async fn new(at: At) -> Self {
        let mut nodes = mesh(2).await;
        if at == At::Marshal {
            nodes.push(start_marshal().await);
        }
        let a = login(1, 1, &[0]).await;
        let b = login(2, 2, &[0, 1]).await;
        let mut server = None;
        if DIALLED.contains(&at) {
            server = Some(Server::bind(priv_port(GHOST)).await);
            store(|s| s.brokers.insert(ident(GHOST), (0, S(1_000_000))));
        }
        vmc::sleep(S(21)).await;
        vmc::settle().await;
        let mut w = Self { nodes, a, b, evil: None, fake: None, server, n: 0 };
        w.a.take();
        w.b.take();
        w
    }
    /// Broker 1's next attempt to reach the scripted broker
    async fn dialled(&mut self) -> Peer {
        let s = self.server.as_ref().unwrap();
        // Only broker 1's are used
        let mut other = vec![];
        for _ in 0..60 {
            while let Some(mut p) = s.accept() {
                p.pump();
                if p.conn.from == 1 && !p.closed() {
                    return p;
                }
                other.push(p);
            }
            vmc::sleep(S(1)).await;
            vmc::settle().await;
        }
        vmc::fail("not dialled", "broker 1 no longer tries to connect to a listed broker");
        std::future::pending::<()>().await;
        unreachable!()
    }
    /// The payloads that a shot may deliver to A and to B
    fn expected(at: At, s: &Shot) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let none = (vec![], vec![]);
        let Some(Ok(Message::Broadcast(b))) = s.body.as_ref().map(|b| Message::deserialize(b)) else { return none };
        let t: BTreeSet<u8> = b.topics.iter().copied().filter(|t| VALID_TOPICS.contains(t)).collect();
        let to = |mine: &[u8]| if mine.iter().any(|x| t.contains(x)) { vec![b.message.clone()] } else { vec![] };
        match at {
            At::User => (to(&[0]), to(&[0, 1])),
            At::Broker | At::Dialled => (to(&[0]), vec![]),
            _ => none,
        }
    }
    async fn fire(&mut self, at: At, s: &Shot) {
        vmc::cases(1);
        let ctx = || format!("{at:?}: {:?}", &s.raw[..s.raw.len().min(300)]);
        let permits = store(|x| x.permits.len());
        let mut guest = None;
        match at {
            At::User => {
                if self.evil.as_mut().is_none_or(User::closed) {
                    self.evil = Some(login(1, EVIL, &[1]).await);
                }
            }
            At::Broker => {
                if self.fake.as_mut().is_none_or(Fake::closed) {
                    self.fake = fake_in(1, &ident(GHOST).to_string()).await;
                    ensure!(self.fake.is_some(), "broker refused", "{}", ctx());
                }
            }
            At::UserFirst => guest = Peer::connect(pub_port(1)).await,
            At::UserTopics => {
                guest = Peer::connect(pub_port(1)).await;
                let n = permit(1, EVIL);
                guest.as_mut().unwrap().send(&auth_permit(n));
                vmc::settle().await;
            }
            At::BrokerFirst => guest = Peer::connect(priv_port(1)).await,
            At::BrokerSecond => {
                guest = Peer::connect(priv_port(1)).await;
                guest.as_mut().unwrap().send(&auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()));
                vmc::settle().await;
            }
            At::Marshal => guest = Peer::connect(MARSHAL).await,
            At::DialledFirst => guest = Some(self.dialled().await),
            At::DialledSecond => {
                let mut p = self.dialled().await;
                p.send(&auth_response(1, &ident(GHOST).to_string()));
                vmc::settle().await;
                guest = Some(p);
            }
            At::Dialled => {
                if self.fake.as_mut().is_none_or(Fake::closed) {
                    let mut p = self.dialled().await;
                    p.send(&auth_response(1, &ident(GHOST).to_string()));
                    vmc::settle().await;
                    p.send(&auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()));
                    vmc::settle().await;
                    self.fake = Some(Fake { p, id: ident(GHOST).to_string(), got: vec![] });
                }
            }
        }
        alloc::reset();
        let p = match at {
            At::User => &mut self.evil.as_mut().unwrap().p,
            At::Broker | At::Dialled => &mut self.fake.as_mut().unwrap().p,
            _ => guest.as_mut().expect("connects"),
        };
        p.send_bytes(&s.raw);
        for _ in 0..20 {
            vmc::settle().await;
            if p.flush() || p.eof {
                break;
            }
        }
        vmc::settle().await;
        let peak = alloc::peak();
        ensure!(peak <= 3_000_000 + 64 * s.raw.len() + s.announced(), "memory", "{peak} bytes are set aside: {}", ctx());
        p.frames();
        if s.body.is_none() && p.is_open() {
            // No answer is due
            p.close();
            vmc::settle().await;
            self.evil = self.evil.take().filter(|x| x.p.is_open());
            self.fake = self.fake.take().filter(|x| x.p.is_open());
        }
        drop(guest);
        vmc::settle().await;
        let (ea, eb) = Self::expected(at, s);
        for (who, u, e) in [("A", &mut self.a, ea), ("B", &mut self.b, eb)] {
            // What is bigger than the socket's buffer takes several rounds
            for _ in 0..8 {
                u.pump();
                if s.raw.len() < 60_000 {
                    break;
                }
                vmc::settle().await;
            }
            let got: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
            ensure!(got == e, "reached", "{who} gets {got:?}, not {e:?}: {}", ctx());
            ensure!(!u.closed(), "victim", "{who} is cut off: {}", ctx());
        }
        for n in &self.nodes {
            ensure!(n.running(), "stopped", "node {} stops: {}", n.n, ctx());
        }
        ensure!(link(1, 2).is_some(), "victim", "the link of the brokers is lost: {}", ctx());
        ensure!(store(|x| x.permits.len()) <= permits + 1, "permit", "{}", ctx());
        if at == At::Marshal {
            ensure!(store(|x| x.permits.len()) == permits, "permit", "{}", ctx());
        }
    }
    /// Everything still works for everybody else
    async fn alive(&mut self, ctx: &str) {
        self.n += 1;
        let n = self.n as u8;
        self.a.direct(2, &[1, n]);
        self.b.direct(1, &[2, n]);
        vmc::settle().await;
        self.a.broadcast(&[0], &[3, n]);
        vmc::settle().await;
        vmc::settle().await;
        let ga: Vec<_> = self.a.take().iter().map(payload).collect();
        let gb: Vec<_> = self.b.take().iter().map(payload).collect();
        ensure!(ga == [vec![2, n], vec![3, n]], "service", "A gets {ga:?} after {ctx}");
        ensure!(gb == [vec![1, n], vec![3, n]], "service", "B gets {gb:?} after {ctx}");
    }
    /// Users are admitted at both brokers and reached from everywhere
    async fn newcomers(&mut self, keys: [u64; 2], ctx: &str) {
        let mut c = login(1, keys[0], &[2]).await;
        let mut d = login(2, keys[1], &[2]).await;
        vmc::sleep(S(21)).await;
        vmc::settle().await;
        for (i, k) in keys.iter().enumerate() {
            self.a.direct(*k, &[10 + i as u8]);
            self.b.direct(*k, &[20 + i as u8]);
        }
        vmc::settle().await;
        vmc::settle().await;
        for (i, u) in [&mut c, &mut d].into_iter().enumerate() {
            let mut g: Vec<_> = u.take().iter().map(payload).collect();
            g.sort();
            ensure!(g == [vec![10 + i as u8], vec![20 + i as u8]], "service", "user {:#x} gets {g:?} after {ctx}", u.key);
            ensure!(!u.closed(), "service", "user {:#x} is cut off after {ctx}", u.key);
        }
        self.a.broadcast(&[2], &[30]);
        vmc::settle().await;
        vmc::settle().await;
        for u in [&mut c, &mut d] {
            let g: Vec<_> = u.take().iter().map(payload).collect();
            ensure!(g == [vec![30]], "service", "user {:#x} gets {g:?} of a broadcast after {ctx}", u.key);
        }
        self.a.take();
        self.b.take();
        c.close();
        d.close();
        vmc::settle().await;
    }
}

/// One chunk of a list, as the explorer chooses
fn chunk(v: Vec<Shot>, n: usize) -> Vec<Shot> {
    let c = v.len().div_ceil(n);
    // At most 256 alternatives per choice
    let hi = if c > 256 { vmc::choose(c.div_ceil(256), "part") } else { 0 };
    let i = hi * 256 + vmc::choose(256.min(c - hi * 256), "chunk");
    v.into_iter().skip(i * n).take(n).collect()
}

async fn bytes(ats: &'static [At], n: usize, thorough: bool) {
    vmc::deadline(Some(S(100_000)));
    vmc::explore(true);
    let at = pick("who", ats);
    let k = vmc::choose(10, "message");
    let list = if k == 9 { shapes() } else { mutants(&example(k).serialize().unwrap(), thorough) };
    let list = chunk(list, n);
    vmc::explore(false);
    let mut w = World::new(at).await;
    for s in &list {
        w.fire(at, s).await;
    }
    let ctx = format!("{at:?}, variants of message {k}");
    w.alive(&ctx).await;
    w.newcomers([0x33, 0x44], &ctx).await;
    w.alive(&ctx).await;
    vmc::cover("unaffected");
}

/// The synchronisation messages that a broker with a user sends
async fn syncs() -> (Vec<u8>, Vec<u8>) {
    let n = start_broker(GHOST).await;
    let _u = login(GHOST, K, &[0]).await;
    let mut f = fake_in(GHOST, &ident(1).to_string()).await.expect("in");
    let (mut us, mut ts) = (vec![], vec![]);
    for m in f.take() {
        match m {
            Message::UserSync(b) => us = b,
            Message::TopicSync(b) => ts = b,
            _ => {}
        }
    }
    ensure!(!us.is_empty() && !ts.is_empty(), "setup", "no synchronisation");
    n.kill().await;
    store(|s| {
        s.brokers.clear();
        s.permits.clear();
    });
    (us, ts)
}
const WORDS: [u64; 6] = [u64::MAX, 0, 1 << 63, i64::MAX as u64, 0xffff_ffff, 0x7fff_ffff_0000_0001];
fn sync_mutants(b: &[u8], thorough: bool) -> Vec<Vec<u8>> {
    let mut v = vec![b.to_vec()];
    for i in 0..b.len().saturating_sub(7) {
        if i % 4 == 0 || thorough {
            for w in WORDS {
                let mut y = b.to_vec();
                y[i..i + 8].copy_from_slice(&w.to_le_bytes());
                v.push(y);
            }
        }
    }
    for i in (0..b.len().saturating_sub(3)).step_by(4) {
        for w in [u32::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0x0100_0000, 0] {
            let mut y = b.to_vec();
            y[i..i + 4].copy_from_slice(&w.to_le_bytes());
            v.push(y);
        }
    }
    v.extend((0..b.len()).map(|n| b[..n].to_vec()));
    for i in 0..b.len() {
        for x in values(thorough, b[i]) {
            let mut y = b.to_vec();
            y[i] = x;
            v.push(y);
        }
    }
    for n in [1usize, 8, 40, 4096] {
        let mut y = b.to_vec();
        y.resize(b.len() + n, 0xff);
        v.push(y.clone());
        y.rotate_right(n);
        v.push(y);
    }
    v
}
/// Hostile synchronisation messages of a broker about a user and topics
async fn hostile_sync(user: bool, n: usize, thorough: bool) {
    vmc::deadline(Some(S(100_000)));
    let (us, ts) = syncs().await;
    let base = if user { us } else { ts };
    let list = sync_mutants(&base, thorough)
        .into_iter()
        .map(|b| shot((if user { Message::UserSync(b) } else { Message::TopicSync(b) }).serialize().unwrap()))
        .collect();
    vmc::explore(true);
    let list = chunk(list, n);
    vmc::explore(false);
    let mut w = World::new(At::Broker).await;
    for s in &list {
        w.fire(At::Broker, s).await;
    }
    let ctx = format!("{:?}", list.iter().map(|s| s.body.clone().unwrap()).collect::<Vec<_>>());
    w.alive(&ctx).await;
    // The user of whom they told; then the topics
    w.newcomers([K, 0x44], &ctx).await;
    w.newcomers([0x33, K], &ctx).await;
    w.alive(&ctx).await;
    vmc::cover("unaffected by synchronisation");
}

/// Hostile bytes arrive while others exchange messages
async fn meanwhile(at: At) {
    vmc::deadline(Some(S(1000)));
    vmc::explore(false);
    let bad = [
        shot(vec![0xff; 24]),
        shot(vec![]),
        shot(example(7).serialize().unwrap()),
        shot(example(8).serialize().unwrap()),
        shot(auth_permit(5).serialize().unwrap()),
        raw_shot(&[0xff; 8]),
        raw_shot(&[0, 0]),
    ];
    let mut w = World::new(at).await;
    let (mut u, mut f) = (None, None);
    if at == At::User {
        u = Some(login(1, EVIL, &[1]).await);
    } else {
        f = fake_in(1, &ident(GHOST).to_string()).await;
    }
    vmc::explore(true);
    let s = pick("bytes", &bad);
    let close = vmc::choose(2, "then closes") == 1;
    w.a.direct(2, b"1");
    w.b.direct(1, b"2");
    let p = match (&mut u, &mut f) {
        (Some(u), _) => &mut u.p,
        (_, Some(f)) => &mut f.p,
        _ => unreachable!(),
    };
    p.send_bytes(&s.raw);
    if close {
        p.close();
    }
    w.a.broadcast(&[0], b"3");
    vmc::settle().await;
    vmc::settle().await;
    let ctx = format!("{at:?}: {:?}", s.raw);
    let mut ga: Vec<_> = w.a.take().iter().map(payload).collect();
    let gb: Vec<_> = w.b.take().iter().map(payload).collect();
    ga.sort();
    ensure!(ga == [b"2", b"3"], "service", "A gets {ga:?}: {ctx}");
    ensure!(gb == [b"1", b"3"], "service", "B gets {gb:?}: {ctx}");
    vmc::explore(false);
    w.alive(&ctx).await;
    vmc::cover("unaffected meanwhile");
}

/// A marshal or a broker sends hostile bytes to a client
async fn to_client(n: usize, thorough: bool) {
    vmc::deadline(Some(S(100_000)));
    vmc::explore(true);
    let at = vmc::choose(3, "marshal, broker, session");
    let k = vmc::choose(11, "message");
    let list = match k {
        10 => mutants(&auth_response(1001, &ident(1).public_advertise_endpoint).serialize().unwrap(), thorough),
        9 => shapes(),
        k => mutants(&example(k).serialize().unwrap(), thorough),
    };
    let list = chunk(list, n);
    vmc::explore(false);
    open_front().await;
    let c = client(&[0]);
    for s in &list {
        let m = s.body.as_ref().map(|b| Message::deserialize(b));
        // What would be an acceptable answer
        if let Some(Ok(Message::AuthenticateResponse(r))) = &m {
            if (at == 0 && r.permit > 1) || (at == 1 && r.permit == 1) {
                continue;
            }
        }
        vmc::cases(1);
        let ctx = || format!("{at} {:?}", &s.raw[..s.raw.len().min(300)]);
        if at < 2 {
            // Loses the session, if any, and meets the bytes when it reconnects
            front(|f| {
                f.raw = s.raw.clone();
            });
            plan(&[if at == 0 { F::MRaw } else { F::BRaw }]);
            if let Some(i) = open_sessions().pop() {
                lose(i, Loss::Cut);
                vmc::settle().await;
            }
        } else {
            let c2 = c.clone();
            let h = go(async move { c2.ensure_initialized().await.is_ok() });
            ensure!(timeout(S(60), h).await.is_some_and(|r| r.unwrap_or(false)), "client", "is not initialised before {}", ctx());
            let Some(i) = open_sessions().pop() else {
                vmc::fail("client", format!("has no session before {}", ctx()));
                return;
            };
            server_raw(i, &s.raw);
            vmc::settle().await;
            if s.body.is_none() {
                lose(i, Loss::Close);
            }
        }
        alloc::reset();
        // Receive what there is: bytes that are no message are an error; the client stays usable
        let c2 = c.clone();
        let h = go(async move {
            for _ in 0..3 {
                let _ = timeout(S(8), c2.receive_message()).await;
            }
        });
        ensure!(timeout(S(60), h).await.is_some_and(|r| r.is_ok()), "client", "hangs or panics: {}", ctx());
        let peak = alloc::peak();
        ensure!(peak <= 3_000_000 + 64 * s.raw.len() + s.announced(), "memory", "{peak} bytes are set aside: {}", ctx());
        let c2 = c.clone();
        let h = go(async move {
            for _ in 0..5 {
                if c2.ensure_initialized().await.is_ok() && c2.send_direct_message(&crate::def::keypair(9).public_key, b"hello".to_vec()).await.is_ok() {
                    return true;
                }
                vmc::sleep(S(1)).await;
            }
            false
        });
        ensure!(timeout(S(90), h).await.is_some_and(|r| r.unwrap_or(false)), "client", "is not usable after {}", ctx());
        vmc::settle().await;
        let o = front(|f| f.odd.clone().or_else(|| f.sessions.iter().find_map(|s| s.odd.clone())));
        ensure!(o.is_none(), "odd", "{o:?} after {}", ctx());
        let Some(i) = open_sessions().pop() else {
            vmc::fail("client", format!("has no session after {}", ctx()));
            return;
        };
        server_send(i, &direct(KEY, b"answer"));
        let c2 = c.clone();
        let h = go(async move { c2.receive_message().await.ok() });
        let got = timeout(S(20), h).await.and_then(|r| r.ok()).flatten();
        ensure!(got.as_ref().map(payload) == Some(b"answer".to_vec()), "client", "receives {got:?} after {}", ctx());
    }
    vmc::cover("client unaffected");
}

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    if id != "W02" {
        return;
    }
    const M: u64 = 20_000_000;
    v.push(Scenario::new("from users", (0, 0), move || bytes(&USERS, 32, thorough)).steps(M));
    v.push(Scenario::new("from brokers", (0, 0), move || bytes(&BROKERS, 32, thorough)).steps(M));
    v.push(Scenario::new("from brokers dialled", (0, 0), move || bytes(&DIALLED, 32, thorough)).steps(M));
    v.push(Scenario::new("to a marshal", (0, 0), move || bytes(&[At::Marshal], 32, thorough)).steps(M));
    v.push(Scenario::new("user synchronisation", (0, 0), move || hostile_sync(true, 1, thorough)).steps(M));
    v.push(Scenario::new("topic synchronisation", (0, 0), move || hostile_sync(false, 1, thorough)).steps(M));
    v.push(Scenario::new("to a client", (0, 0), move || to_client(16, thorough)).steps(M));
    v.push(Scenario::new("meanwhile, user", (1, 2), || meanwhile(At::User)));
    v.push(Scenario::new("meanwhile, broker", (1, 2), || meanwhile(At::Broker)));
}
