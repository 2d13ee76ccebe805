//! Brokers, marshals, and scripted users and brokers on the simulated network.
use std::sync::Arc;

use cdn_broker::{Broker, Config as BrokerConfig};
use cdn_marshal::{Config as MarshalConfig, Marshal};
use cdn_proto::connection::protocols::Protocol;
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::discovery::BrokerIdentifier;
use cdn_proto::message::{
    AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message,
};
use tokio::net::{sim, Conn};
use tokio::task::JoinHandle;

use crate::def::{keypair, pk, sign, Hook, Rd, Tcp};
use crate::disc::{store, Permit};
use crate::ensure;
use crate::peer::Peer;
use crate::util::*;

/// The key of the brokers
pub const CLUSTER: u64 = 900;
pub const MARSHAL: u16 = 3000;
pub fn pub_port(b: u16) -> u16 {
    1000 + b
}
pub fn priv_port(b: u16) -> u16 {
    2000 + b
}
pub fn ident(b: u16) -> BrokerIdentifier {
    BrokerIdentifier {
        public_advertise_endpoint: format!("127.0.0.1:{}", pub_port(b)),
        private_advertise_endpoint: format!("127.0.0.1:{}", priv_port(b)),
    }
}
/// Seconds since the epoch as the nodes see them
pub fn wall() -> u64 {
    vmc::os::EPOCH + vmc::now().as_secs()
}

pub struct Node {
    pub n: u16,
    pub h: JoinHandle<cdn_proto::error::Result<()>>,
}
impl Node {
    /// The process dies
    pub async fn kill(self) {
        vmc::kill_group(u32::from(self.n));
        vmc::settle().await;
    }
    pub fn running(&self) -> bool {
        !self.h.is_finished()
    }
}

pub async fn start_broker_with<B: Protocol, U: Protocol>(n: u16, pool: Option<usize>) -> Node {
    let g = vmc::group();
    vmc::set_group(u32::from(n));
    let h = tokio::spawn(async move {
        let broker = Broker::<Rd<B, U>>::new(BrokerConfig {
            public_advertise_endpoint: ident(n).public_advertise_endpoint,
            public_bind_endpoint: ident(n).public_advertise_endpoint,
            private_advertise_endpoint: ident(n).private_advertise_endpoint,
            private_bind_endpoint: ident(n).private_advertise_endpoint,
            metrics_bind_endpoint: None,
            discovery_endpoint: String::new(),
            keypair: keypair(CLUSTER),
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: pool,
            user_message_hook: Hook::new(false),
            broker_message_hook: Hook::new(true),
        })
        .await?;
        broker.start().await
    });
    vmc::set_group(g);
    vmc::settle().await;
    Node { n, h }
}
pub async fn start_broker(n: u16) -> Node {
    start_broker_with::<Tcp, Tcp>(n, None).await
}

pub async fn start_marshal_with<U: Protocol>(pool: Option<usize>) -> Node {
    let g = vmc::group();
    vmc::set_group(u32::from(MARSHAL));
    let h = tokio::spawn(async move {
        let m = Marshal::<Rd<Tcp, U>>::new(MarshalConfig {
            bind_endpoint: format!("127.0.0.1:{MARSHAL}"),
            discovery_endpoint: String::new(),
            ca_cert_path: None,
            ca_key_path: None,
            metrics_bind_endpoint: None,
            global_memory_pool_size: pool,
        })
        .await?;
        m.start().await
    });
    vmc::set_group(g);
    vmc::settle().await;
    Node { n: MARSHAL, h }
}
pub async fn start_marshal() -> Node {
    start_marshal_with::<Tcp>(None).await
}

/// Starts brokers 1..=n and waits until they have found each other; no exploration meanwhile
pub async fn mesh(n: u16) -> Vec<Node> {
    mesh_over::<Tcp>(n).await
}
pub async fn mesh_over<U: Protocol>(n: u16) -> Vec<Node> {
    let ex = vmc::exploring();
    vmc::explore(false);
    let mut v = vec![];
    for i in 1..=n {
        v.push(start_broker_with::<Tcp, U>(i, None).await);
    }
    if n > 1 {
        vmc::sleep(MS(10_500)).await;
        vmc::settle().await;
        for a in 1..=n {
            for b in a + 1..=n {
                ensure!(link(a, b).is_some(), "setup", "brokers {a} and {b} are not connected");
            }
        }
    }
    vmc::explore(ex);
    v
}

/// The open connections between two brokers, with the initiator
pub fn links(a: u16, b: u16) -> Vec<(u16, Arc<Conn>)> {
    let mut v = vec![];
    for (x, y) in [(a, b), (b, a)] {
        for c in sim::conns_to(priv_port(y)) {
            if c.from == u32::from(x) && !c.ended(0) && !c.ended(1) {
                v.push((x, c));
            }
        }
    }
    v
}
pub fn link(a: u16, b: u16) -> Option<Arc<Conn>> {
    links(a, b).pop().map(|l| l.1)
}
/// Stops or resumes delivery from one broker to another
pub fn hold(from: u16, to: u16, on: bool) {
    for (init, c) in links(from, to) {
        c.hold(usize::from(init != from), on);
    }
}

/// A permit that exists in the discovery store
pub fn permit(b: u16, key: u64) -> u64 {
    store(|s| {
        s.next_permit += 1;
        let n = s.next_permit;
        s.permits.insert(n, Permit { broker: ident(b), expires: vmc::now() + S(30), key: pk(key) });
        n
    })
}

pub fn auth_key(key: u64, ns: Namespace, timestamp: u64) -> Message {
    Message::AuthenticateWithKey(AuthenticateWithKey {
        public_key: pk(key),
        timestamp,
        signature: sign(key, ns, &timestamp.to_le_bytes()),
    })
}
pub fn auth_permit(permit: u64) -> Message {
    Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })
}
pub fn auth_response(permit: u64, context: &str) -> Message {
    Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.into() })
}
pub fn direct(to: u64, m: &[u8]) -> Message {
    Message::Direct(Direct { recipient: pk(to), message: m.to_vec() })
}
pub fn broadcast(topics: &[u8], m: &[u8]) -> Message {
    Message::Broadcast(Broadcast { topics: topics.to_vec(), message: m.to_vec() })
}

/// A scripted user session
pub struct User {
    pub p: Peer,
    pub key: u64,
    pub b: u16,
    /// Everything received since it was admitted
    pub got: Vec<Message>,
}
impl User {
    pub fn take(&mut self) -> Vec<Message> {
        self.pump();
        std::mem::take(&mut self.got)
    }
    pub fn pump(&mut self) {
        let m = self.p.recv();
        self.got.extend(m);
    }
    pub fn send(&mut self, m: &Message) {
        self.p.send(m);
    }
    pub fn direct(&mut self, to: u64, m: &[u8]) {
        self.p.send(&direct(to, m));
    }
    pub fn broadcast(&mut self, topics: &[u8], m: &[u8]) {
        self.p.send(&broadcast(topics, m));
    }
    pub fn subscribe(&mut self, t: &[u8]) {
        self.p.send(&Message::Subscribe(t.to_vec()));
    }
    pub fn unsubscribe(&mut self, t: &[u8]) {
        self.p.send(&Message::Unsubscribe(t.to_vec()));
    }
    /// The broker has closed this session
    pub fn closed(&mut self) -> bool {
        self.pump();
        self.p.closed() || self.p.eof
    }
    pub fn close(&mut self) {
        self.p.close();
    }
}

/// Presents a permit and subscribes; None if refused or closed
pub async fn present(b: u16, permit: u64, key: u64, topics: &[u8]) -> Option<User> {
    let mut p = Peer::connect(pub_port(b)).await?;
    p.send(&auth_permit(permit));
    for _ in 0..3 {
        vmc::settle().await;
        match p.recv().first() {
            Some(Message::AuthenticateResponse(r)) if r.permit == 1 => {
                p.send(&Message::Subscribe(topics.to_vec()));
                vmc::settle().await;
                return Some(User { p, key, b, got: vec![] });
            }
            Some(_) => return None,
            None => {
                let latency = store(|s| s.latency);
                if !latency.is_zero() {
                    vmc::sleep(latency).await;
                }
            }
        }
    }
    None
}
/// Opens a session of a user at a broker, which must succeed
pub async fn login(b: u16, key: u64, topics: &[u8]) -> User {
    match present(b, permit(b, key), key, topics).await {
        Some(u) => u,
        None => {
            vmc::fail("login", format!("user {key} is not admitted at broker {b}"));
            std::future::pending::<()>().await;
            unreachable!()
        }
    }
}

/// A scripted broker that is linked to a real one
pub struct Fake {
    pub p: Peer,
    pub id: String,
    pub got: Vec<Message>,
}
impl Fake {
    pub fn take(&mut self) -> Vec<Message> {
        let m = self.p.recv();
        self.got.extend(m);
        std::mem::take(&mut self.got)
    }
    pub fn send(&mut self, m: &Message) {
        self.p.send(m);
    }
    pub fn closed(&mut self) -> bool {
        self.p.pump();
        self.p.closed() || self.p.eof
    }
}
/// Connects to a real broker and authenticates as the broker with an identity
pub async fn fake_in(b: u16, id: &str) -> Option<Fake> {
    let mut p = Peer::connect(priv_port(b)).await?;
    p.send(&auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall()));
    let mut got = vec![];
    for _ in 0..4 {
        vmc::settle().await;
        for m in p.recv() {
            if matches!(m, Message::AuthenticateWithKey(_)) {
                p.send(&auth_response(1, id));
                vmc::settle().await;
                let mut f = Fake { p, id: id.into(), got };
                f.got = f.p.recv();
                return Some(f);
            }
            got.push(m);
        }
    }
    None
}

pub fn gauge(name: &str) -> i64 {
    prometheus::gather()
        .iter()
        .find(|f| f.get_name() == name)
        .and_then(|f| f.get_metric().first().map(|m| m.get_gauge().get_value() as i64))
        .unwrap_or(0)
}

/// Waits until the periodic exchanges and heartbeats have run a few times
pub async fn exchange() {
    vmc::sleep(S(21)).await;
    vmc::settle().await;
}

/// What a message carries
pub fn payload(m: &Message) -> Vec<u8> {
    match m {
        Message::Direct(d) => d.message.clone(),
        Message::Broadcast(b) => b.message.clone(),
        _ => vec![],
    }
}

