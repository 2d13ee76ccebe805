//! A scripted marshal and broker for real clients, and helpers to drive clients.
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Waker};
use std::time::Duration;

use cdn_client::{Client, Config};
use cdn_proto::connection::protocols::Protocol;
use cdn_proto::message::Message;
use tokio::io::{AsyncReadExt, AsyncWrite};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{sim, Conn, TcpListener, TcpStream};
use tokio::task::JoinHandle;

use crate::cluster::*;
use crate::def::{keypair, pk, Cd, Tcp};
use crate::peer::frame;
use crate::util::*;

pub type Cl = Client<Cd<Tcp>>;
/// The simulated process of a client
pub const CLIENT: u32 = 500;
pub const KEY: u64 = 5;

pub fn client_of(key: u64, topics: &[u8]) -> Cl {
    client_over::<Tcp>(key, topics)
}
pub fn client_over<P: Protocol>(key: u64, topics: &[u8]) -> Client<Cd<P>> {
    Client::new(Config {
        endpoint: format!("127.0.0.1:{MARSHAL}"),
        use_local_authority: true,
        keypair: keypair(key),
        subscribed_topics: topics.to_vec(),
    })
}
pub fn client(topics: &[u8]) -> Cl {
    client_of(KEY, topics)
}
/// Runs something in the client's process, as a task that can be preempted
pub fn go_in<F>(group: u32, f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let g = vmc::group();
    vmc::set_group(group);
    let h = tokio::spawn(f);
    vmc::set_group(g);
    h
}
pub fn go<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    go_in(CLIENT, f)
}

/// What the marshal and the broker do with an attempt
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Good,
    /// At the marshal
    MRefuse,
    MHole,
    MClose,
    MStall,
    MCut,
    /// Answers with this as the permit
    MPermit(u64),
    MWrong,
    MGarbage,
    MEndpoint,
    /// Sends `Front::raw`
    MRaw,
    /// Answers after so many milliseconds
    MSlow(u64),
    /// At the broker
    BRefuse,
    BHole,
    BClose,
    BStall,
    BCut,
    BPermit(u64),
    BWrong,
    BGarbage,
    BRaw,
    BSlow(u64),
    /// Both slow
    Slow(u64),
}
pub const FAULTS: [F; 19] = [
    F::MRefuse,
    F::MHole,
    F::MClose,
    F::MStall,
    F::MCut,
    F::MPermit(0),
    F::MPermit(1),
    F::MWrong,
    F::MGarbage,
    F::MEndpoint,
    F::BRefuse,
    F::BHole,
    F::BClose,
    F::BStall,
    F::BCut,
    F::BPermit(0),
    F::BPermit(2),
    F::BWrong,
    F::BGarbage,
];
impl F {
    /// How long an attempt lasts, and whether it succeeds
    pub fn lasts(self) -> (Duration, bool) {
        match self {
            F::Good => (MS(0), true),
            F::MSlow(n) | F::BSlow(n) => (MS(n.min(10_000)), n < 10_000),
            F::Slow(n) => (MS((2 * n).min(10_000)), 2 * n < 10_000),
            // The transport gives up after 5 seconds
            F::MHole | F::BHole => (S(5), false),
            F::MStall | F::BStall => (S(10), false),
            _ => (MS(0), false),
        }
    }
}

pub struct Sess {
    pub at: Duration,
    pub conn: Arc<Conn>,
    /// The broker has admitted it
    pub ok: bool,
    /// It has presented its topics
    pub ready: bool,
    pub topics: BTreeSet<u8>,
    pub got: Vec<Message>,
    out: Option<OwnedWriteHalf>,
    task: Option<vmc::Tid>,
    /// Something that no client should send
    pub odd: Option<String>,
}
#[derive(Default)]
pub struct Front {
    pub plan: VecDeque<F>,
    cur: Option<F>,
    /// Start and plan of each attempt
    pub attempts: Vec<(Duration, F)>,
    pub sessions: Vec<Sess>,
    permit: u64,
    /// What `MRaw` and `BRaw` send
    pub raw: Vec<u8>,
    pub odd: Option<String>,
}
thread_local! {
    static FRONT: RefCell<Front> = RefCell::new(Front { permit: (1 << 33) + 1000, ..Front::default() });
}
pub fn front<R>(f: impl FnOnce(&mut Front) -> R) -> R {
    FRONT.with(|x| f(&mut x.borrow_mut()))
}
pub fn attempts() -> Vec<(Duration, F)> {
    front(|f| f.attempts.clone())
}
/// The sessions that are admitted and open at both ends
pub fn open_sessions() -> Vec<usize> {
    front(|f| (0..f.sessions.len()).filter(|i| f.sessions[*i].ok && !f.sessions[*i].conn.ended(0) && !f.sessions[*i].conn.ended(1)).collect())
}
pub fn sessions() -> usize {
    front(|f| f.sessions.iter().filter(|s| s.ok).count())
}
/// The topics of the newest session
pub fn topics() -> BTreeSet<u8> {
    front(|f| f.sessions.last().map(|s| s.topics.clone()).unwrap_or_default())
}
pub fn plan(p: &[F]) {
    front(|f| f.plan = p.iter().copied().collect());
}
pub fn server_send(i: usize, m: &Message) {
    let b = frame(&m.serialize().unwrap());
    front(|f| {
        if let Some(w) = f.sessions[i].out.as_mut() {
            let mut cx = Context::from_waker(Waker::noop());
            let _ = Pin::new(w).poll_write(&mut cx, &b);
        }
    });
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    Cut,
    /// The broker closes its end
    Close,
    /// The broker sends something that is not a message
    Garbage,
}
pub const LOSSES: [Loss; 3] = [Loss::Cut, Loss::Close, Loss::Garbage];
pub fn lose(i: usize, how: Loss) {
    match how {
        Loss::Cut => front(|f| f.sessions[i].conn.clone()).cut(),
        Loss::Close => {
            let (w, t) = front(|f| (f.sessions[i].out.take(), f.sessions[i].task.take()));
            drop(w);
            if let Some(t) = t {
                vmc::abort(t);
            }
        }
        Loss::Garbage => front(|f| {
            if let Some(w) = f.sessions[i].out.as_mut() {
                let mut cx = Context::from_waker(Waker::noop());
                let _ = Pin::new(w).poll_write(&mut cx, &frame(&[0xff; 16]));
            }
        }),
    }
}

async fn read(r: &mut OwnedReadHalf) -> Option<Vec<u8>> {
    let n = r.read_u32().await.ok()?;
    let mut v = vec![0; n as usize];
    r.read_exact(&mut v).await.ok()?;
    Some(v)
}
async fn read_message(r: &mut OwnedReadHalf) -> Option<Message> {
    Message::deserialize(&read(r).await?).ok()
}
fn write(w: &mut OwnedWriteHalf, b: &[u8]) {
    let mut cx = Context::from_waker(Waker::noop());
    let _ = Pin::new(w).poll_write(&mut cx, &frame(b));
}
fn write_raw(w: &mut OwnedWriteHalf, b: &[u8]) {
    let mut cx = Context::from_waker(Waker::noop());
    let _ = Pin::new(w).poll_write(&mut cx, b);
}
pub fn server_raw(i: usize, b: &[u8]) {
    front(|f| {
        if let Some(w) = f.sessions[i].out.as_mut() {
            write_raw(w, b);
        }
    });
}
fn odd(m: String) {
    front(|f| {
        f.odd.get_or_insert(m);
    });
}

async fn at_marshal(s: TcpStream, f: F) {
    vmc::set_quiet(true);
    let conn = s.sim_conn();
    let (mut r, mut w) = s.into_split();
    if f == F::MClose {
        return;
    }
    let m = read_message(&mut r).await;
    match &m {
        Some(Message::AuthenticateWithKey(k)) if k.public_key == pk(KEY) => {}
        None => return,
        _ => odd(format!("to the marshal: {m:?}")),
    }
    let n = front(|f| {
        f.permit += 1;
        f.permit
    });
    let ep = ident(1).public_advertise_endpoint;
    match f {
        F::MStall => {}
        F::MCut => conn.cut(),
        F::MPermit(p) => write(&mut w, &auth_response(p, &ep).serialize().unwrap()),
        F::MWrong => write(&mut w, &Message::Subscribe(vec![0]).serialize().unwrap()),
        F::MGarbage => write(&mut w, &[0xfe; 24]),
        F::MRaw => write_raw(&mut w, &front(|f| f.raw.clone())),
        F::MEndpoint => write(&mut w, &auth_response(n, "nowhere").serialize().unwrap()),
        _ => {
            if let F::MSlow(d) | F::Slow(d) = f {
                vmc::sleep(MS(d)).await;
            }
            write(&mut w, &auth_response(n, &ep).serialize().unwrap());
        }
    }
    // until the client leaves
    while read(&mut r).await.is_some() {}
}

async fn at_broker(s: TcpStream, f: F) {
    vmc::set_quiet(true);
    let conn = s.sim_conn();
    let (mut r, w) = s.into_split();
    if f == F::BClose {
        return;
    }
    let i = front(|x| {
        x.sessions.push(Sess {
            at: vmc::now(),
            conn: conn.clone(),
            ok: false,
            ready: false,
            topics: BTreeSet::new(),
            got: vec![],
            out: Some(w),
            task: vmc::current(),
            odd: None,
        });
        x.sessions.len() - 1
    });
    let m = read_message(&mut r).await;
    let want = front(|x| x.permit);
    match &m {
        Some(Message::AuthenticateWithPermit(p)) if p.permit == want => {}
        None => return,
        _ => odd(format!("to the broker: {m:?}")),
    }
    let put = |b: &[u8]| {
        front(|x| {
            if let Some(w) = x.sessions[i].out.as_mut() {
                write(w, b);
            }
        })
    };
    let mut ok = false;
    match f {
        F::BStall => {}
        F::BCut => conn.cut(),
        F::BPermit(p) => put(&auth_response(p, "no").serialize().unwrap()),
        F::BWrong => put(&Message::Subscribe(vec![0]).serialize().unwrap()),
        F::BGarbage => put(&[0xfe; 24]),
        F::BRaw => server_raw(i, &front(|f| f.raw.clone())),
        _ => {
            if let F::BSlow(d) | F::Slow(d) = f {
                vmc::sleep(MS(d)).await;
            }
            put(&auth_response(1, "").serialize().unwrap());
            ok = true;
        }
    }
    front(|x| x.sessions[i].ok = ok && !x.sessions[i].conn.ended(0));
    let mut first = true;
    while let Some(b) = read(&mut r).await {
        let m = Message::deserialize(&b);
        front(|x| {
            let s = &mut x.sessions[i];
            match m {
                Ok(Message::Subscribe(t)) => {
                    s.topics.extend(t);
                    s.ready = true;
                }
                Ok(Message::Unsubscribe(t)) => s.topics.retain(|x| !t.contains(x)),
                Ok(m) => s.got.push(m),
                Err(_) => s.odd = Some(format!("not a message: {b:?}")),
            }
            if first && !s.ready {
                s.odd = Some("no topics first".into());
            }
            if !ok {
                s.odd = Some(format!("sent on a session that was not admitted: {b:?}"));
            }
        });
        first = false;
    }
    front(|x| x.sessions[i].out = None);
}

/// Starts the scripted marshal and broker
pub async fn open_front() {
    sim::on_dial(|port| {
        if port == MARSHAL {
            front(|f| {
                let p = f.plan.pop_front().unwrap_or(F::Good);
                f.cur = Some(p);
                f.attempts.push((vmc::now(), p));
            });
        }
        let f = front(|f| f.cur).unwrap_or(F::Good);
        match (port == MARSHAL, f) {
            (true, F::MRefuse) | (false, F::BRefuse) => sim::Dial::Refuse,
            (true, F::MHole) | (false, F::BHole) => sim::Dial::Hole,
            _ => sim::Dial::Ok,
        }
    });
    for port in [MARSHAL, pub_port(1)] {
        let l = TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], port))).await.expect("bind");
        let _ = tokio::task::spawn_local(async move {
            vmc::set_quiet(true);
            loop {
                let (s, _) = l.accept().await.expect("accept");
                let f = front(|f| f.cur).unwrap_or(F::Good);
                if port == MARSHAL {
                    let _ = tokio::task::spawn_local(at_marshal(s, f));
                } else {
                    let _ = tokio::task::spawn_local(at_broker(s, f));
                }
            }
        });
    }
    vmc::settle().await;
}

/// A call of a client: what, from, to (while it has not returned: None), whether it succeeded
#[derive(Clone, Debug)]
pub struct Call {
    pub what: &'static str,
    pub from: Duration,
    pub to: Option<Duration>,
    pub ok: bool,
}
pub type Calls = Log<Call>;

pub async fn call<T>(l: &Calls, what: &'static str, f: impl Future<Output = cdn_proto::error::Result<T>>) -> cdn_proto::error::Result<T> {
    let i = {
        let mut l = l.lock().unwrap();
        l.push(Call { what, from: vmc::now(), to: None, ok: false });
        l.len() - 1
    };
    vmc::note(|| format!("call {what}"));
    let r = f.await;
    vmc::note(|| format!("{what} -> {}", r.as_ref().err().map_or("ok".to_string(), |e| e.to_string())));
    let mut l = l.lock().unwrap();
    l[i].to = Some(vmc::now());
    l[i].ok = r.is_ok();
    r
}
