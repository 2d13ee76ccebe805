//! Scripted network peers: raw endpoints on the simulated network, driven by the scenario.
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use cdn_proto::message::Message;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::net::{sim, Conn, TcpListener, TcpStream};

pub fn frame(payload: &[u8]) -> Vec<u8> {
    let mut v = (payload.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(payload);
    v
}

pub struct Peer {
    s: Option<TcpStream>,
    pub conn: Arc<Conn>,
    /// 0: we connected, 1: we accepted
    side: usize,
    rbuf: Vec<u8>,
    /// The other end closed its sending direction or reset the connection
    pub eof: bool,
    /// Bytes that did not fit yet
    wbuf: Vec<u8>,
}

impl Peer {
    pub fn new(s: TcpStream, side: usize) -> Self {
        let conn = s.sim_conn();
        Self { s: Some(s), conn, side, rbuf: vec![], eof: false, wbuf: vec![] }
    }
    /// Connects to a port (None: refused). Completes at once.
    pub async fn connect(port: u16) -> Option<Self> {
        let addr = std::net::SocketAddr::from(([127, 0, 0, 1], port));
        sim::connect(addr).await.ok().map(|s| Self::new(s, 0))
    }
    pub fn send_bytes(&mut self, b: &[u8]) {
        self.wbuf.extend_from_slice(b);
        self.flush();
    }
    /// Writes what fits; true if nothing is left
    pub fn flush(&mut self) -> bool {
        let mut cx = Context::from_waker(Waker::noop());
        while !self.wbuf.is_empty() {
            let Some(s) = self.s.as_mut() else { return false };
            match Pin::new(s).poll_write(&mut cx, &self.wbuf) {
                Poll::Ready(Ok(n)) if n > 0 => {
                    self.wbuf.drain(..n);
                }
                Poll::Pending => return false,
                _ => {
                    self.wbuf.clear();
                    self.eof = true;
                    return false;
                }
            }
        }
        true
    }
    pub fn send_frame(&mut self, payload: &[u8]) {
        self.send_bytes(&frame(payload));
    }
    pub fn send(&mut self, m: &Message) {
        let b = m.serialize().expect("serialize");
        self.send_frame(&b);
    }
    /// Reads everything that is there without waiting
    pub fn pump(&mut self) {
        let mut cx = Context::from_waker(Waker::noop());
        let mut tmp = vec![0; 65536];
        while !self.eof {
            let Some(s) = self.s.as_mut() else { return };
            let mut rb = ReadBuf::new(&mut tmp);
            match Pin::new(s).poll_read(&mut cx, &mut rb) {
                Poll::Ready(Ok(())) => {
                    let f = rb.filled();
                    if f.is_empty() {
                        self.eof = true;
                    }
                    self.rbuf.extend_from_slice(f);
                }
                Poll::Ready(Err(_)) => self.eof = true,
                Poll::Pending => break,
            }
        }
        self.flush();
    }
    /// All complete frames received so far
    pub fn frames(&mut self) -> Vec<Vec<u8>> {
        self.pump();
        let mut v = vec![];
        loop {
            if self.rbuf.len() < 4 {
                break;
            }
            let n = u32::from_be_bytes(self.rbuf[..4].try_into().unwrap()) as usize;
            if self.rbuf.len() < 4 + n {
                break;
            }
            v.push(self.rbuf[4..4 + n].to_vec());
            self.rbuf.drain(..4 + n);
        }
        v
    }
    pub fn recv(&mut self) -> Vec<Message> {
        self.frames().iter().filter_map(|f| Message::deserialize(f).ok()).collect()
    }
    /// Bytes of an incomplete frame
    pub fn partial(&mut self) -> &[u8] {
        self.pump();
        &self.rbuf
    }
    /// Whether the other end closed or reset the connection
    pub fn closed(&mut self) -> bool {
        self.conn.closed(1 - self.side) || self.conn.with(0, |h| h.reset)
    }
    /// Closes our end
    pub fn close(&mut self) {
        self.s = None;
    }
    pub fn is_open(&self) -> bool {
        self.s.is_some()
    }
}

pub struct Server {
    l: TcpListener,
}
impl Server {
    pub async fn bind(port: u16) -> Self {
        let addr = std::net::SocketAddr::from(([127, 0, 0, 1], port));
        Self { l: TcpListener::bind(addr).await.expect("bind") }
    }
    /// The next waiting connection, if any
    pub fn accept(&self) -> Option<Peer> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.l.poll_accept(&mut cx) {
            Poll::Ready(Ok((s, _))) => Some(Peer::new(s, 1)),
            _ => None,
        }
    }
    pub async fn accept_stream(&self) -> TcpStream {
        self.l.accept().await.expect("accept").0
    }
    pub async fn accept_wait(&self) -> Peer {
        Peer::new(self.l.accept().await.expect("accept").0, 1)
    }
}
