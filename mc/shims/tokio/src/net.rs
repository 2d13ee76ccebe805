//! A simulated TCP: byte streams with bounded buffers, FIN and reset, under the control of the scenario.

use std::collections::{HashMap, VecDeque};
use std::io::{self, Error, ErrorKind};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, ToSocketAddrs};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub use std::net::ToSocketAddrs as StdToSocketAddrs;

/// One direction of a connection
pub struct Half {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    /// The writer sent FIN
    pub fin: bool,
    /// The connection was reset
    pub reset: bool,
    /// The reading side is gone: what is written is lost, and then writes fail
    pub reader_gone: bool,
    lost_one: bool,
    /// Nothing is delivered while set
    pub hold: bool,
    /// At most so many bytes are delivered at a time (0: no limit); the list is consumed first
    pub segment: usize,
    pub segments: VecDeque<usize>,
    /// Deliver only this many bytes in total, then behave as held
    pub allow: Option<u64>,
    pub written: u64,
    pub read: u64,
    /// A copy of everything written, if enabled
    pub tap: Option<Vec<u8>>,
    /// The byte at this position is changed on its way
    pub flip: Option<(u64, u8)>,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

impl Half {
    fn new() -> Self {
        Self {
            buf: VecDeque::new(),
            cap: sim::default_cap(),
            fin: false,
            reset: false,
            reader_gone: false,
            lost_one: false,
            hold: false,
            segment: 0,
            segments: VecDeque::new(),
            allow: None,
            written: 0,
            read: 0,
            tap: None,
            flip: None,
            rw: None,
            ww: None,
        }
    }
    fn wake(&mut self) -> [Option<Waker>; 2] {
        [self.rw.take(), self.ww.take()]
    }
}

pub struct Conn {
    pub id: usize,
    /// The group (simulated process) that connected
    pub from: u32,
    pub client: SocketAddr,
    pub server: SocketAddr,
    /// [client -> server, server -> client]
    halves: [Mutex<Half>; 2],
    closed: [Mutex<bool>; 2],
}

impl Conn {
    /// Direction 0 is client -> server
    pub fn with<R>(&self, dir: usize, f: impl FnOnce(&mut Half) -> R) -> R {
        let (r, ws) = {
            let mut h = self.halves[dir].lock().unwrap();
            let r = f(&mut h);
            (r, h.wake())
        };
        for w in ws.into_iter().flatten() {
            w.wake();
        }
        r
    }
    /// The connection breaks: both ends get errors
    pub fn cut(&self) {
        for d in 0..2 {
            self.with(d, |h| {
                h.reset = true;
                h.buf.clear();
            });
        }
    }
    /// The peer is gone silently: nothing is delivered any more
    pub fn vanish(&self) {
        for d in 0..2 {
            self.with(d, |h| h.hold = true);
        }
    }
    pub fn hold(&self, dir: usize, on: bool) {
        self.with(dir, |h| h.hold = on);
    }
    /// Whether an end (0: client, 1: server) has closed its socket
    pub fn closed(&self, side: usize) -> bool {
        *self.closed[side].lock().unwrap()
    }
    /// Whether the end has at least shut down its writing side, closed, or was reset
    pub fn ended(&self, side: usize) -> bool {
        let h = self.halves[side].lock().unwrap();
        h.fin || h.reset || self.closed(side)
    }
}

struct Side {
    conn: Arc<Conn>,
    side: usize,
}
impl Drop for Side {
    fn drop(&mut self) {
        *self.conn.closed[self.side].lock().unwrap() = true;
        self.conn.with(self.side, |h| h.fin = true);
        self.conn.with(1 - self.side, |h| {
            h.reader_gone = true;
            h.buf.clear();
        });
    }
}
impl Side {
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        vmc::preempt("net read");
        let (r, w) = {
            let mut h = self.conn.halves[1 - self.side].lock().unwrap();
            if h.reset {
                return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
            }
            if buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            let allowed = h.allow.map_or(u64::MAX, |a| a.saturating_sub(h.read));
            if h.hold || (allowed == 0 && (!h.buf.is_empty() || h.fin)) {
                h.rw = Some(cx.waker().clone());
                return Poll::Pending;
            }
            if !h.buf.is_empty() {
                let mut n = buf.remaining().min(h.buf.len()).min(usize::try_from(allowed).unwrap_or(usize::MAX));
                if let Some(s) = h.segments.front().copied() {
                    n = n.min(s.max(1));
                    if n == s.max(1) {
                        h.segments.pop_front();
                    } else {
                        h.segments[0] = s - n;
                    }
                } else if h.segment > 0 {
                    n = n.min(h.segment);
                }
                let (a, b) = h.buf.as_slices();
                if n <= a.len() {
                    buf.put_slice(&a[..n]);
                } else {
                    buf.put_slice(a);
                    buf.put_slice(&b[..n - a.len()]);
                }
                h.buf.drain(..n);
                h.read += n as u64;
                (Poll::Ready(Ok(())), h.ww.take())
            } else if h.fin {
                (Poll::Ready(Ok(())), None)
            } else {
                h.rw = Some(cx.waker().clone());
                (Poll::Pending, None)
            }
        };
        if let Some(w) = w {
            w.wake();
        }
        r
    }
    fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        vmc::preempt("net write");
        let (r, w) = {
            let mut h = self.conn.halves[self.side].lock().unwrap();
            if h.reset {
                return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
            }
            if h.fin {
                return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
            }
            if h.reader_gone {
                // the first write provokes the reset, the next one sees it
                if h.lost_one {
                    return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
                }
                h.lost_one = true;
                return Poll::Ready(Ok(data.len()));
            }
            if data.is_empty() {
                return Poll::Ready(Ok(0));
            }
            let room = h.cap.saturating_sub(h.buf.len());
            if room == 0 {
                h.ww = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let n = room.min(data.len());
            h.buf.extend(&data[..n]);
            if let Some((at, mask)) = h.flip {
                if at >= h.written && at < h.written + n as u64 {
                    let i = h.buf.len() - n + (at - h.written) as usize;
                    h.buf[i] ^= mask;
                }
            }
            if let Some(t) = &mut h.tap {
                t.extend_from_slice(&data[..n]);
            }
            h.written += n as u64;
            (Poll::Ready(Ok(n)), h.rw.take())
        };
        if let Some(w) = w {
            w.wake();
        }
        r
    }
    fn shutdown(&self) {
        self.conn.with(self.side, |h| h.fin = true);
    }
}

macro_rules! addrs {
    () => {
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(if self.0.side == 0 { self.0.conn.client } else { self.0.conn.server })
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(if self.0.side == 0 { self.0.conn.server } else { self.0.conn.client })
        }
    };
}

pub struct TcpStream(Arc<Side>);
impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
        let addr = addr.to_socket_addrs()?.next().ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        sim::connect(addr).await
    }
    addrs!();
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (tcp::OwnedReadHalf(self.0.clone()), tcp::OwnedWriteHalf(self.0))
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(&*self), tcp::WriteHalf(&*self))
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn sim_conn(&self) -> Arc<Conn> {
        self.0.conn.clone()
    }
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({})", self.0.conn.id)
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.poll_read(cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        self.0.poll_write(cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.shutdown();
        Poll::Ready(Ok(()))
    }
}

pub mod tcp {
    use super::*;

    #[derive(Debug)]
    pub struct ReuniteError;

    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0 .0.poll_read(cx, buf)
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
            self.0 .0.poll_write(cx, data)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0 .0.shutdown();
            Poll::Ready(Ok(()))
        }
    }
    macro_rules! debug {
        ($n:ident) => {
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "{}({})", stringify!($n), self.0.conn.id)
                }
            }
        };
    }
    debug!(OwnedReadHalf);
    debug!(OwnedWriteHalf);
    pub struct OwnedReadHalf(pub(super) Arc<Side>);
    pub struct OwnedWriteHalf(pub(super) Arc<Side>);
    impl OwnedReadHalf {
        addrs!();
    }
    impl OwnedWriteHalf {
        addrs!();
        pub fn forget(self) {
            std::mem::forget(self);
        }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.poll_read(cx, buf)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
            self.0.poll_write(cx, data)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0.shutdown();
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            self.0.shutdown();
        }
    }
}

pub struct TcpSocket(());
impl TcpSocket {
    pub fn new_v4() -> io::Result<Self> {
        Ok(Self(()))
    }
    pub fn new_v6() -> io::Result<Self> {
        Ok(Self(()))
    }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, _: SocketAddr) -> io::Result<()> {
        Ok(())
    }
    pub async fn connect(self, addr: SocketAddr) -> io::Result<TcpStream> {
        sim::connect(addr).await
    }
}

struct ListenState {
    queue: VecDeque<io::Result<TcpStream>>,
    wakers: Vec<Waker>,
    open: bool,
}
pub struct TcpListener {
    addr: SocketAddr,
    st: Arc<Mutex<ListenState>>,
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
        let addr = addr.to_socket_addrs()?.next().ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        vmc::preempt("bind");
        sim::NET.with(|n| {
            let mut n = n.borrow_mut();
            let mut addr = addr;
            if addr.port() == 0 {
                n.next_port = n.next_port.checked_add(1).unwrap_or(40_001);
                addr.set_port(n.next_port);
            }
            let key = sim::key(addr);
            if n.listeners.get(&key).is_some_and(|l| l.lock().unwrap().open) {
                return Err(ErrorKind::AddrInUse.into());
            }
            let st = Arc::new(Mutex::new(ListenState { queue: VecDeque::new(), wakers: vec![], open: true }));
            n.listeners.insert(key, st.clone());
            Ok(Self { addr, st })
        })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        vmc::preempt("accept");
        let mut s = self.st.lock().unwrap();
        match s.queue.pop_front() {
            Some(Ok(t)) => {
                let a = t.0.conn.client;
                Poll::Ready(Ok((t, a)))
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let q = {
            let mut s = self.st.lock().unwrap();
            s.open = false;
            std::mem::take(&mut s.queue)
        };
        for t in q.into_iter().flatten() {
            t.0.conn.cut();
        }
    }
}

/// The scenario's control over the network
pub mod sim {
    use super::*;
    use std::cell::RefCell;

    pub(super) struct Net {
        pub(super) listeners: HashMap<u16, Arc<Mutex<ListenState>>>,
        pub(super) conns: Vec<Arc<Conn>>,
        pub(super) next_port: u16,
        pub(super) cap: usize,
        pub(super) blackhole: Vec<u16>,
        pub(super) refuse: Vec<u16>,
        pub(super) delay: HashMap<u16, Duration>,
        pub(super) attempts: HashMap<u16, u64>,
        pub(super) dials: Vec<DialLog>,
    }

    /// What becomes of a connection attempt
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Dial {
        Ok,
        Refuse,
        /// It never completes
        Hole,
        /// It completes after a while
        After(Duration),
    }
    #[derive(Clone, Debug)]
    pub struct DialLog {
        pub port: u16,
        pub group: u32,
        pub start: Duration,
        /// When it completed, failed or was given up
        pub end: Option<Duration>,
    }
    type Dialer = Box<dyn FnMut(u16) -> Dial>;
    thread_local! {
        static DIALER: RefCell<Option<Dialer>> = const { RefCell::new(None) };
    }
    /// Decides on every connection attempt from now on (in addition to the settings per port)
    pub fn on_dial(f: impl FnMut(u16) -> Dial + 'static) {
        DIALER.with(|d| *d.borrow_mut() = Some(Box::new(f)));
    }
    type OnConn = Box<dyn FnMut(&Arc<Conn>)>;
    thread_local! {
        static ON_CONN: RefCell<Option<OnConn>> = const { RefCell::new(None) };
    }
    /// Is shown every connection that is established from now on, before anything is sent
    pub fn on_conn(f: impl FnMut(&Arc<Conn>) + 'static) {
        ON_CONN.with(|d| *d.borrow_mut() = Some(Box::new(f)));
    }
    pub fn dials() -> Vec<DialLog> {
        NET.with(|n| n.borrow().dials.clone())
    }
    struct Dialing(usize);
    impl Drop for Dialing {
        fn drop(&mut self) {
            if !vmc::in_teardown() {
                let _ = NET.try_with(|n| n.borrow_mut().dials[self.0].end = Some(vmc::now()));
            }
        }
    }
    thread_local! {
        pub(super) static NET: RefCell<Net> = RefCell::new(Net {
            listeners: HashMap::new(),
            conns: vec![],
            next_port: 40_000,
            cap: 64 * 1024,
            blackhole: vec![],
            refuse: vec![],
            delay: HashMap::new(),
            attempts: HashMap::new(),
            dials: vec![],
        });
    }

    /// Listeners are told apart by their port only
    pub(super) fn key(a: SocketAddr) -> u16 {
        a.port()
    }
    pub(super) fn default_cap() -> usize {
        NET.with(|n| n.borrow().cap)
    }
    /// Buffer size of the directions of connections made from now on
    pub fn set_default_cap(cap: usize) {
        NET.with(|n| n.borrow_mut().cap = cap);
    }
    pub fn conns() -> Vec<Arc<Conn>> {
        NET.with(|n| n.borrow().conns.clone())
    }
    /// Connections to a server port, oldest first
    pub fn conns_to(port: u16) -> Vec<Arc<Conn>> {
        conns().into_iter().filter(|c| c.server.port() == port).collect()
    }
    pub fn last_to(port: u16) -> Option<Arc<Conn>> {
        conns_to(port).pop()
    }
    pub fn attempts(port: u16) -> u64 {
        NET.with(|n| n.borrow().attempts.get(&port).copied().unwrap_or(0))
    }
    pub fn listening(port: u16) -> bool {
        NET.with(|n| n.borrow().listeners.get(&port).is_some_and(|l| l.lock().unwrap().open))
    }
    /// Connection attempts to the port never complete
    pub fn blackhole(port: u16, on: bool) {
        NET.with(|n| {
            let mut n = n.borrow_mut();
            n.blackhole.retain(|p| *p != port);
            if on {
                n.blackhole.push(port);
            }
        });
    }
    pub fn refuse(port: u16, on: bool) {
        NET.with(|n| {
            let mut n = n.borrow_mut();
            n.refuse.retain(|p| *p != port);
            if on {
                n.refuse.push(port);
            }
        });
    }
    pub fn connect_delay(port: u16, d: Duration) {
        NET.with(|n| {
            n.borrow_mut().delay.insert(port, d);
        });
    }
    /// The next accept at the port fails
    pub fn accept_error(port: u16) {
        let w = NET.with(|n| {
            let n = n.borrow();
            let Some(l) = n.listeners.get(&port) else { return vec![] };
            let mut l = l.lock().unwrap();
            l.queue.push_back(Err(Error::other("accept failed")));
            std::mem::take(&mut l.wakers)
        });
        for w in w {
            w.wake();
        }
    }

    pub async fn connect(addr: SocketAddr) -> io::Result<TcpStream> {
        vmc::preempt("connect");
        let port = key(addr);
        let _dialing = NET.with(|n| {
            let mut n = n.borrow_mut();
            n.dials.push(DialLog { port, group: vmc::group(), start: vmc::now(), end: None });
            Dialing(n.dials.len() - 1)
        });
        match DIALER.with(|d| d.borrow_mut().as_mut().map_or(Dial::Ok, |d| d(port))) {
            Dial::Ok => {}
            Dial::Refuse => return Err(ErrorKind::ConnectionRefused.into()),
            Dial::Hole => std::future::pending::<()>().await,
            Dial::After(d) => vmc::sleep(d).await,
        }
        let (hole, delay) = NET.with(|n| {
            let mut n = n.borrow_mut();
            *n.attempts.entry(port).or_default() += 1;
            (n.blackhole.contains(&port), n.delay.get(&port).copied())
        });
        if hole {
            std::future::pending::<()>().await;
        }
        if let Some(d) = delay {
            vmc::sleep(d).await;
        }
        let (stream, w) = NET.with(|n| -> io::Result<_> {
            let (client, id, l) = {
                let mut n = n.borrow_mut();
                if n.refuse.contains(&port) {
                    return Err(ErrorKind::ConnectionRefused.into());
                }
                let Some(l) = n.listeners.get(&port).cloned() else {
                    return Err(ErrorKind::ConnectionRefused.into());
                };
                if !l.lock().unwrap().open {
                    return Err(ErrorKind::ConnectionRefused.into());
                }
                n.next_port = n.next_port.checked_add(1).unwrap_or(40_001);
                (SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::LOCALHOST, n.next_port)), n.conns.len(), l)
            };
            let conn = Arc::new(Conn {
                id,
                from: vmc::group(),
                client,
                server: addr,
                halves: [Mutex::new(Half::new()), Mutex::new(Half::new())],
                closed: [Mutex::new(false), Mutex::new(false)],
            });
            n.borrow_mut().conns.push(conn.clone());
            ON_CONN.with(|f| {
                if let Some(f) = f.borrow_mut().as_mut() {
                    f(&conn);
                }
            });
            let c = TcpStream(Arc::new(Side { conn: conn.clone(), side: 0 }));
            let s = TcpStream(Arc::new(Side { conn, side: 1 }));
            let mut l = l.lock().unwrap();
            l.queue.push_back(Ok(s));
            let w = std::mem::take(&mut l.wakers);
            Ok((c, w))
        })?;
        for w in w {
            w.wake();
        }
        Ok(stream)
    }
}
