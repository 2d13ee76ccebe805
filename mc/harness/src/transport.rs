//! T*: the connection layer.
use std::sync::Arc;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{Connection, Listener, Protocol, UnfinalizedConnection};
use vmc::explore::Scenario;

use crate::def::{Memory, Tcp, TcpTls};
use crate::ensure;
use crate::peer::{frame, Peer, Server};
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "T01" => t01(thorough, v),
        "T02" => t02(thorough, v),
        "T03" => t03(thorough, v),
        "T04" => t04(thorough, v),
        "T05" => t05(thorough, v),
        "T06" => t06(thorough, v),
        "T07" => t07(thorough, v),
        _ => {}
    }
}

/// Receives everything until the connection fails
fn collect(c: &Connection) -> (Log<Vec<u8>>, tokio::task::JoinHandle<()>) {
    let l = log();
    let (l2, c) = (l.clone(), c.clone());
    let h = tokio::spawn(async move {
        while let Ok(m) = c.recv_message_raw().await {
            push(&l2, m.to_vec());
        }
    });
    (l, h)
}

fn check_prefix(got: &[Vec<u8>], sent: &[Vec<u8>], complete: bool, key: &str) {
    for (i, g) in got.iter().enumerate() {
        match sent.get(i) {
            None => vmc::fail(key, format!("received {} messages, {} were sent", got.len(), sent.len())),
            Some(s) if s != g => vmc::fail(
                key,
                format!("message {i} arrived as {} bytes {:?}.., sent {} bytes {:?}..", g.len(), &g[..g.len().min(8)], s.len(), &s[..s.len().min(8)]),
            ),
            _ => {}
        }
    }
    if complete && got.len() != sent.len() {
        vmc::fail(key, format!("received {} of {} messages", got.len(), sent.len()));
    }
}

fn bodies(sizes: &[usize]) -> Vec<Vec<u8>> {
    sizes.iter().enumerate().map(|(i, n)| body(i as u8 + 1, *n)).collect()
}

/// Both directions of a healthy connection
async fn both_ways<P: Protocol>(sizes: &[&[usize]], caps: &[usize], pools: &[Option<usize>], segs: &[usize]) {
    vmc::deadline(Some(S(60)));
    let sizes = pick("sizes", sizes);
    let pool = pick("channel size", pools);
    let lim = || Limiter::new(None, pool);
    let p = pair::<P>(lim(), lim()).await;
    if let Some(c) = &p.conn {
        let cap = pick("buffer", caps);
        let seg = pick("segment", segs);
        for d in 0..2 {
            c.with(d, |h| {
                h.cap = cap;
                h.segment = seg;
            });
        }
    }
    let m = bodies(sizes);
    let m2: Vec<_> = m.iter().rev().cloned().collect();
    vmc::explore(true);
    let (la, ha) = collect(&p.a);
    let (lb, hb) = collect(&p.b);
    let mut hs = vec![];
    for (c, m) in [(p.a.clone(), m.clone()), (p.b.clone(), m2.clone())] {
        hs.push(tokio::spawn(async move {
            for x in m {
                c.send_message_raw(raw(&x)).await.expect("send");
            }
        }));
    }
    for h in hs {
        let _ = h.await;
    }
    // every message must arrive without anything else happening
    let (n, n2) = (m.len(), m2.len());
    until(S(4), || lb.lock().unwrap().len() >= n && la.lock().unwrap().len() >= n2).await;
    vmc::explore(false);
    check_prefix(&get(&lb), &m, true, "forward");
    check_prefix(&get(&la), &m2, true, "backward");
    vmc::cover("all messages arrived");
    ha.abort();
    drop(p.a);
    let _ = timeout(S(30), hb).await;
    check_prefix(&get(&lb), &m, true, "forward at end");
}

/// The same message again and again, with and without pauses, is delivered as often as it was sent
async fn identical<P: Protocol>() {
    vmc::deadline(Some(S(40_000)));
    let pool = pick("channel size", &[None, Some(1)]);
    let n = pick("length", &[0usize, 1, 30]);
    let pause = pick("pause", &[0u64, 1, 4000]);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let m: Vec<Vec<u8>> = [1u8, 1, 1, 2, 1, 1, 2, 2].iter().map(|k| body(*k, n)).collect();
    vmc::explore(true);
    let (la, _ha) = collect(&p.a);
    let (lb, _hb) = collect(&p.b);
    for x in &m {
        p.a.send_message_raw(raw(x)).await.expect("send");
        p.b.send_message_raw(raw(x)).await.expect("send");
        if pause > 0 {
            vmc::settle().await;
            vmc::sleep(S(pause)).await;
        }
    }
    until(S(4), || la.lock().unwrap().len() >= m.len() && lb.lock().unwrap().len() >= m.len()).await;
    vmc::settle().await;
    vmc::explore(false);
    check_prefix(&get(&la), &m, true, "forward");
    check_prefix(&get(&lb), &m, true, "backward");
    vmc::cover("all messages arrived");
}

/// A raw peer delivers a byte stream that ends, resets or stalls anywhere
async fn inbound(sizes: &[usize], how: &[&str], step: usize) {
    vmc::deadline(Some(S(20_000)));
    let m = bodies(sizes);
    let stream: Vec<u8> = m.iter().flat_map(|b| frame(b)).collect();
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    let mut peer = Peer::connect(7000).await.unwrap();
    let c = l.accept().await.unwrap().finalize(none()).await.unwrap();
    vmc::settle().await;
    vmc::explore(true);
    let how = pick("ending", how);
    let cut = step * vmc::choose(stream.len() / step + 1, "cut");
    let (lg, h) = collect(&c);
    peer.send_bytes(&stream[..cut]);
    let mut whole = 0;
    let mut at = 0;
    let mut boundary = true;
    for b in &m {
        if at + 4 + b.len() > cut {
            break;
        }
        whole += 1;
        at += 4 + b.len();
    }
    // between messages, or not even the length has arrived
    if cut >= at + 4 {
        boundary = false;
    }
    match how {
        "fin" => {
            peer.close();
            let _ = timeout(S(30), h).await;
            check_prefix(&get(&lg), &m, false, "prefix");
            ensure!(get(&lg).len() == whole, "lost", "{} of {whole} complete messages arrived before the end", get(&lg).len());
            vmc::cover("ended");
        }
        "reset" => {
            peer.conn.cut();
            let _ = timeout(S(30), h).await;
            check_prefix(&get(&lg), &m, false, "prefix");
        }
        "junk" => {
            // after a stall that is too long the stream must not be resynchronised
            let stall = if boundary { pick("stall", &[6u64, 35, 70, 700, 7300]) } else { 6 };
            vmc::sleep(S(stall)).await;
            peer.send_bytes(&stream[cut..]);
            vmc::sleep(S(6)).await;
            check_prefix(&get(&lg), &m, boundary, "prefix");
            ensure!(get(&lg).len() == if boundary { m.len() } else { whole }, "stall", "{} messages, {whole} were complete before the stall", get(&lg).len());
        }
        _ => {
            vmc::settle().await;
            vmc::sleep(MS(4800)).await;
            peer.send_bytes(&stream[cut..]);
            vmc::settle().await;
            check_prefix(&get(&lg), &m, true, "short stall");
            vmc::cover("short stall survived");
        }
    }
}

/// What a connection writes is the framing of a prefix of what was submitted, also when the reader stalls or leaves
async fn outbound(sizes: &[usize], pools: &[Option<usize>]) {
    vmc::deadline(Some(S(100)));
    let m = bodies(sizes);
    let stream: Vec<u8> = m.iter().flat_map(|b| frame(b)).collect();
    let srv = Server::bind(7000).await;
    let pool = pick("channel size", pools);
    let c = Tcp::connect("127.0.0.1:7000", true, Limiter::new(None, pool)).await.unwrap();
    let mut peer = srv.accept_wait().await;
    vmc::settle().await;
    vmc::explore(true);
    let cap = pick("buffer", &[1usize, 3, 8, 4096]);
    peer.conn.with(0, |h| {
        h.cap = cap;
        h.tap = Some(vec![]);
    });
    let stall = pick("stall", &[0u64, 4900, 5100]);
    let end = pick("end", &["keep", "drop", "reset"]);
    let c2 = c.clone();
    let m2 = m.clone();
    let n_ok = log();
    let n2 = n_ok.clone();
    let h = tokio::spawn(async move {
        for x in m2 {
            if c2.send_message_raw(raw(&x)).await.is_err() {
                break;
            }
            push(&n2, ());
        }
    });
    vmc::settle().await;
    vmc::sleep(MS(stall)).await;
    match end {
        "drop" => {
            h.abort();
            drop(c);
        }
        "reset" => peer.conn.cut(),
        _ => {
            // keep reading
            for _ in 0..400 {
                peer.pump();
                vmc::settle().await;
            }
        }
    }
    vmc::sleep(S(12)).await;
    let tap = peer.conn.with(0, |h| h.tap.clone().unwrap());
    ensure!(stream.starts_with(&tap), "wire", "the bytes on the wire are not a prefix of the framed messages (at {})", tap.iter().zip(&stream).take_while(|(a, b)| a == b).count());
    if end == "keep" && stall <= 4900 {
        ensure!(tap == stream, "wire incomplete", "{} of {} bytes were written", tap.len(), stream.len());
        vmc::cover("everything written");
    }
    vmc::outcome(tap.len() as u64);
}

/// Several tasks send on clones of one connection
async fn senders<P: Protocol>(pools: &[Option<usize>]) {
    vmc::deadline(Some(S(60)));
    let pool = pick("channel size", pools);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    if let Some(c) = &p.conn {
        let cap = pick("buffer", &[5usize, 4096]);
        c.with(0, |h| h.cap = cap);
    }
    vmc::explore(true);
    let (l, _h) = collect(&p.b);
    let mut hs = vec![];
    for t in 0..2u8 {
        let c = p.a.clone();
        hs.push(tokio::spawn(async move {
            for i in 0..3u8 {
                c.send_message_raw(raw(&[t, i, t, i])).await.expect("send");
            }
        }));
    }
    for h in hs {
        let _ = h.await;
    }
    until(S(4), || l.lock().unwrap().len() >= 6).await;
    let got = get(&l);
    ensure!(got.len() == 6, "count", "{} of 6 messages arrived: {got:?}", got.len());
    for t in 0..2u8 {
        let mine: Vec<_> = got.iter().filter(|m| m.first() == Some(&t)).cloned().collect();
        let want: Vec<_> = (0..3u8).map(|i| vec![t, i, t, i]).collect();
        ensure!(mine == want, "order", "sender {t}: {mine:?}");
    }
    vmc::outcome(got.iter().fold(0, |a, m| a * 2 + m[0] as u64));
}

/// Two receivers share the connection, one of them gives up waiting now and then
async fn receivers(pools: &[Option<usize>]) {
    vmc::deadline(Some(S(60)));
    let pool = pick("channel size", pools);
    let p = pair::<Tcp>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    vmc::explore(true);
    let l: Log<(u8, Vec<u8>)> = log();
    let mut hs = vec![];
    for t in 0..2u8 {
        let (c, l) = (p.b.clone(), l.clone());
        hs.push(tokio::spawn(async move {
            loop {
                let r = if t == 0 {
                    match timeout(MS(10), c.recv_message_raw()).await {
                        None => continue,
                        Some(r) => r,
                    }
                } else {
                    c.recv_message_raw().await
                };
                match r {
                    Ok(m) => push(&l, (t, m.to_vec())),
                    Err(_) => break,
                }
            }
        }));
    }
    for i in 0..4u8 {
        p.a.send_message_raw(raw(&[i; 3])).await.expect("send");
        if i == 1 {
            vmc::sleep(MS(10)).await;
        }
    }
    until(S(4), || l.lock().unwrap().len() >= 4).await;
    let got = get(&l);
    let mut all: Vec<_> = got.iter().map(|g| g.1.clone()).collect();
    all.sort();
    ensure!(all == (0..4u8).map(|i| vec![i; 3]).collect::<Vec<_>>(), "lost or repeated", "{got:?}");
    for t in 0..2 {
        let mine: Vec<_> = got.iter().filter(|g| g.0 == t).map(|g| g.1.clone()).collect();
        ensure!(mine.windows(2).all(|w| w[0] < w[1]), "order", "receiver {t}: {mine:?}");
    }
    vmc::outcome(got.iter().fold(0, |a, m| a * 2 + m.0 as u64));
}

/// The sending side goes away at any point
async fn sender_gone<P: Protocol>() {
    vmc::deadline(Some(S(60)));
    let pool = pick("channel size", &[None, Some(1)]);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let m = bodies(&[2, 9, 0, 3]);
    if let Some(c) = &p.conn {
        let cap = pick("buffer", &[3usize, 4096]);
        c.with(0, |h| h.cap = cap);
    }
    vmc::explore(true);
    let (l, h) = collect(&p.b);
    let k = vmc::choose(m.len() + 1, "sent before");
    let (a, m2) = (p.a, m.clone());
    let s = tokio::spawn(async move {
        for x in &m2[..k] {
            let _ = a.send_message_raw(raw(x)).await;
        }
        drop(a);
    });
    let _ = s.await;
    let ended = timeout(S(30), h).await.is_some();
    ensure!(ended, "no end", "the receiver did not notice the end");
    check_prefix(&get(&l), &m[..k], false, "prefix");
    vmc::outcome(get(&l).len() as u64);
}

fn t01(_thorough: bool, v: &mut Vec<Scenario>) {
    let sizes: &'static [&'static [usize]] = &[&[0], &[1, 0, 2], &[5, 300, 1], &[0, 0, 40]];
    let pools: &'static [Option<usize>] = &[None, Some(1), Some(2)];
    v.push(Scenario::new("tcp both ways", (1, 2), move || async move { both_ways::<Tcp>(sizes, &[64, 1 << 16], pools, &[0, 3]).await }));
    v.push(Scenario::new("tcp both ways deep", (2, 3), || async { both_ways::<Tcp>(&[&[1, 0, 2]], &[64], &[Some(1)], &[0]).await }));
    v.push(Scenario::new("tcp tiny buffers", (1, 2), move || async move { both_ways::<Tcp>(&[&[1, 0, 2], &[0, 0, 40]], &[1, 5], pools, &[0, 1, 7]).await }));
    v.push(Scenario::new("tcp small buffers", (0, 1), move || async move { both_ways::<Tcp>(sizes, &[1, 5], pools, &[0, 1, 7]).await }));
    v.push(Scenario::new("tcp large", (1,1), || async {
        both_ways::<Tcp>(&[&[70_000, 3, 200_000]], &[4096, 65_536], &[None, Some(1)], &[0, 1000]).await
    }));
    v.push(Scenario::new("memory both ways", (2, 3), move || async move { both_ways::<Memory>(sizes, &[], pools, &[]).await }));
    v.push(Scenario::new("memory large", (1, 2), || async { both_ways::<Memory>(&[&[9000, 3, 20_000]], &[], &[None, Some(1)], &[]).await }));
    v.push(Scenario::new("tls both ways", (1, 2), || async {
        both_ways::<TcpTls>(&[&[1, 0, 2], &[5, 300, 1]], &[50, 4096], &[None, Some(1)], &[0, 11]).await
    }));
    v.push(Scenario::new("tls large", (0, 1), || async { both_ways::<TcpTls>(&[&[20_000, 1]], &[50, 4096], &[None, Some(1)], &[0, 11]).await }));
    v.push(Scenario::new("identical tcp", (0, 1), || async { identical::<Tcp>().await }));
    v.push(Scenario::new("identical memory", (0, 1), || async { identical::<Memory>().await }));
    v.push(Scenario::new("identical tls", (0, 1), || async { identical::<TcpTls>().await }));
    v.push(Scenario::new("inbound end", (1, 2), || async { inbound(&[2, 0, 9], &["fin", "reset", "short"], 1).await }));
    v.push(Scenario::new("inbound stall", (1, 2), || async { inbound(&[3, 0, 8], &["junk"], 1).await }));
    v.push(Scenario::new("outbound", (1, 2), || async { outbound(&[2, 0, 20], &[None, Some(1)]).await }));
    v.push(Scenario::new("senders tcp", (2, 3), || async { senders::<Tcp>(&[None, Some(1)]).await }));
    v.push(Scenario::new("senders memory", (2, 3), || async { senders::<Memory>(&[None, Some(1)]).await }));
    v.push(Scenario::new("receivers", (2, 3), || async { receivers(&[None, Some(1)]).await }));
    v.push(Scenario::new("sender gone tcp", (2, 3), || async { sender_gone::<Tcp>().await }));
    v.push(Scenario::new("sender gone memory", (2, 3), || async { sender_gone::<Memory>().await }));
    v.push(Scenario::new("sender gone tls", (1, 2), || async { sender_gone::<TcpTls>().await }));
}

// ------------------------------------------------------------------------------------------------------------- T02

/// A listening real connection and the raw peer that connected to it
async fn accept_raw(lim: Limiter) -> (Connection, Peer) {
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    let peer = Peer::connect(7000).await.unwrap();
    let c = l.accept().await.unwrap().finalize(lim).await.unwrap();
    vmc::settle().await;
    (c, peer)
}

const MAX: u32 = cdn_proto::MAX_MESSAGE_SIZE;

async fn oversize() {
    vmc::deadline(Some(S(60)));
    let pool = pick("pool", &[None, Some(100usize)]);
    let lim = Limiter::new(pool, None);
    let before = vmc::choose(3, "messages before");
    let n = pick("announced", &[MAX + 1, MAX + 2, MAX + 1000, 0x2000_0000, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]);
    let with = pick("payload", &[0usize, 1, 5000]);
    let (c, mut peer) = accept_raw(lim.clone()).await;
    vmc::explore(true);
    crate::alloc::reset();
    let (l, h) = collect(&c);
    for i in 0..before {
        peer.send_frame(&body(i as u8, 20));
    }
    peer.send_bytes(&n.to_be_bytes());
    peer.send_bytes(&vec![7; with]);
    vmc::settle().await;
    ensure!(l.lock().unwrap().len() == before, "before", "{} of {before} earlier messages arrived", l.lock().unwrap().len());
    ensure!(h.is_finished(), "not cut", "a frame of {n} bytes does not end the connection at once");
    ensure!(crate::alloc::largest() < 200_000, "memory", "{} bytes were allocated", crate::alloc::largest());
    if let Some(p) = pool {
        let r = timeout(MS(1), lim.allocate_message_bytes(p as u32)).await;
        ensure!(r.is_some(), "pool", "the pool is still taken");
    }
    vmc::cover("cut off");
}

async fn largest_allowed() {
    vmc::deadline(Some(S(60)));
    let n = pick("announced", &[MAX, MAX - 1, 100_000_000, 70_000]);
    let (c, mut peer) = accept_raw(none()).await;
    vmc::explore(true);
    let (l, h) = collect(&c);
    peer.send_bytes(&n.to_be_bytes());
    peer.send_bytes(&[1, 2, 3]);
    vmc::sleep(MS(4500)).await;
    ensure!(!h.is_finished(), "rejected", "a frame of {n} bytes is not accepted");
    vmc::sleep(MS(600)).await;
    ensure!(h.is_finished(), "stall", "the connection survives a stall of more than five seconds");
    ensure!(l.lock().unwrap().is_empty(), "partial", "a partial message was delivered");
}

/// A peer stops in the middle of a message body
async fn stalled_sender() {
    vmc::deadline(Some(S(4000)));
    let pool = pick("pool", &[None, Some(100usize)]);
    let lim = Limiter::new(pool, None);
    let (c, mut peer) = accept_raw(lim.clone()).await;
    vmc::explore(true);
    let before = vmc::choose(2, "messages before");
    let k = vmc::choose(12, "bytes of the body");
    let (l, h) = collect(&c);
    for i in 0..before {
        peer.send_frame(&body(i as u8, 20));
        vmc::sleep(S(100)).await;
    }
    let f = frame(&body(9, 12));
    peer.send_bytes(&f[..4]);
    vmc::settle().await;
    peer.send_bytes(&f[4..4 + k]);
    vmc::sleep(MS(4900)).await;
    ensure!(!h.is_finished(), "too early", "cut off before five seconds");
    vmc::sleep(MS(200)).await;
    ensure!(h.is_finished(), "not cut", "still alive after five seconds");
    ensure!(l.lock().unwrap().len() == before, "partial", "{} messages", l.lock().unwrap().len());
    if let Some(p) = pool {
        let r = timeout(MS(1), lim.allocate_message_bytes(p as u32)).await;
        ensure!(r.is_some(), "pool", "the pool is still taken");
    }
    vmc::cover("cut off");
}

/// A peer that sends, or reads, a message byte by byte, never stopping for long
async fn trickle() {
    vmc::deadline(Some(S(4000)));
    let sending = pick("the peer", &[true, false]);
    let n = pick("size", &[12usize, 70_000, 300_000]);
    let per = pick("at a time", &[1usize, 4096, 9000]);
    let (c, mut peer) = accept_raw(none()).await;
    let (l, h) = collect(&c);
    let m = body(9, n);
    // Anything below a second is not slow enough
    let step = MS(900);
    let pieces = n.div_ceil(per);
    let mut gone = false;
    vmc::explore(true);
    let t0 = vmc::now();
    if sending {
        peer.send_bytes(&frame(&m)[..4]);
        vmc::settle().await;
        for p in m.chunks(per) {
            if h.is_finished() {
                break;
            }
            peer.send_bytes(p);
            vmc::sleep(step).await;
        }
    } else {
        peer.conn.with(1, |x| {
            x.cap = per;
            x.allow = Some(0);
        });
        for i in 1..=pieces + 6 {
            if c.send_message_raw(raw(&m)).await.is_err() {
                gone = true;
                break;
            }
            peer.conn.with(1, |x| x.allow = Some((i * per) as u64));
            peer.pump();
            vmc::sleep(step).await;
        }
    }
    let took = vmc::now() - t0;
    let slow = step * pieces as u32 > S(6);
    vmc::settle().await;
    gone |= h.is_finished();
    if slow {
        ensure!(gone, "not cut", "a message of {n} bytes, {per} at a time, {sending}");
        // (the length and the contents are written one after the other)
        ensure!(took < if sending { MS(6000) } else { MS(11000) }, "late", "a message of {n} bytes, {per} at a time, {sending}: cut off after {took:?}");
        ensure!(l.lock().unwrap().is_empty(), "partial", "a message was delivered");
        vmc::cover("cut off");
    } else {
        vmc::cover("in time");
    }
}

/// A peer that stops reading
async fn stalled_reader() {
    vmc::deadline(Some(S(4000)));
    let pool = pick("channel size", &[None, Some(1usize)]);
    let cap = pick("buffer", &[1usize, 4, 7, 30]);
    let srv = Server::bind(7000).await;
    let c = Tcp::connect("127.0.0.1:7000", true, Limiter::new(None, pool)).await.unwrap();
    let mut peer = srv.accept_wait().await;
    peer.conn.with(0, |h| h.cap = cap);
    vmc::settle().await;
    vmc::explore(true);
    let resume = pick("reads again after", &[u64::MAX, 4800]);
    let c2 = c.clone();
    let lost_at = log();
    let l2 = lost_at.clone();
    let h = tokio::spawn(async move {
        loop {
            if c2.send_message_raw(raw(&body(1, 60))).await.is_err() {
                push(&l2, vmc::now());
                break;
            }
            tokio::time::sleep(MS(50)).await;
        }
    });
    if resume == u64::MAX {
        vmc::sleep(MS(5300)).await;
        ensure!(h.is_finished(), "not cut", "sends still succeed more than five seconds after the peer stopped reading");
        vmc::cover("cut off");
    } else {
        vmc::sleep(MS(resume)).await;
        let mut n = 0;
        for _ in 0..200 {
            n += peer.frames().len();
            vmc::settle().await;
        }
        ensure!(n > 0 && !h.is_finished(), "too early", "the connection was given up although the peer read again in time");
        h.abort();
    }
}

/// A peer that stops reading at any point, over an encrypted connection (which has buffers of its own)
async fn stalled_tls() {
    vmc::deadline(Some(S(4000)));
    let pool = pick("channel size", &[None, Some(1usize)]);
    let server = pick("stalled", &["server", "client"]) == "client";
    let room = pick("buffer", &[0usize, 1, 40, 70_000]);
    let size = pick("size", &[0usize, 1, 60, 16_380, 65_535, 70_000, 200_000]);
    let before = vmc::choose(2, "after a message") == 1;
    let resume = pick("reads again after", &[u64::MAX, 4800]);
    let p = pair::<TcpTls>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let conn = p.conn.clone().unwrap();
    let (from, to, dir) = if server { (&p.b, &p.a, 1) } else { (&p.a, &p.b, 0) };
    let (l, h) = collect(to);
    if before {
        from.send_message_raw(raw(&[7])).await.expect("send");
        vmc::settle().await;
        ensure!(get(&l).len() == 1, "setup", "not received");
    }
    conn.with(dir, |x| x.cap = room);
    conn.hold(dir, true);
    vmc::explore(true);
    let f = from.clone();
    let lost_at = log();
    let l2 = lost_at.clone();
    let s = tokio::spawn(async move {
        let mut n = 0usize;
        // Fill what is in between, and go on
        loop {
            if f.send_message_raw(raw(&body(n as u8, size))).await.is_err() {
                push(&l2, vmc::now());
                break;
            }
            n += 1;
            if n * (size + 25) > room + 140_000 || n > 6000 {
                tokio::time::sleep(MS(50)).await;
            }
        }
        n
    });
    if resume == u64::MAX {
        vmc::sleep(MS(5300)).await;
        vmc::settle().await;
        ensure!(s.is_finished(), "not cut", "messages of {size} bytes: sends still succeed more than five seconds after the peer stopped reading");
        let r = timeout(MS(1), from.recv_message_raw()).await;
        ensure!(matches!(r, Some(Err(_))), "not cut", "messages of {size} bytes: still receiving from a peer that has not read for more than five seconds");
        vmc::cover("cut off");
        return;
    }
    vmc::sleep(MS(resume)).await;
    conn.with(dir, |x| x.cap = 1 << 20);
    conn.hold(dir, false);
    vmc::settle().await;
    vmc::sleep(S(30)).await;
    vmc::settle().await;
    ensure!(!s.is_finished() && !h.is_finished(), "too early", "messages of {size} bytes: given up although the peer read again in time");
    ensure!(get(&l).len() > 10, "too early", "{} messages", get(&l).len());
    s.abort();
    vmc::cover("reads again");
}

/// What a peer sends over an encrypted connection: too long, too slow, bit by bit, and after a pause
async fn frames_tls() {
    use tokio::io::AsyncWriteExt;
    vmc::deadline(Some(S(20_000)));
    let pool = pick("pool", &[None, Some(100usize)]);
    let before = vmc::choose(2, "messages before");
    let what = pick("frame", &["oversize", "stalled", "trickle", "pieces"]);
    let lim = Limiter::new(pool, None);
    let l = bind::<TcpTls>("127.0.0.1:7000").await;
    let h = tokio::spawn(async {
        let roots = cdn_proto::crypto::tls::generate_root_certificate_store(true).expect("roots");
        let cfg = rustls::ClientConfig::builder().with_root_certificates(roots).with_no_client_auth();
        let s = tokio::net::TcpStream::connect("127.0.0.1:7000").await.expect("connect");
        let name = rustls::pki_types::ServerName::try_from("espresso").expect("name");
        tokio_rustls::TlsConnector::from(Arc::new(cfg)).connect(name, s).await.expect("handshake")
    });
    let c = l.accept().await.unwrap().finalize(lim.clone()).await.expect("finalize");
    let mut s = h.await.unwrap();
    let (got, h) = collect(&c);
    macro_rules! put {
        ($b:expr) => {{
            let _ = s.write_all($b).await;
            let _ = s.flush().await;
            vmc::settle().await;
        }};
    }
    vmc::explore(true);
    for i in 0..before {
        put!(&frame(&body(i as u8, 20)));
        vmc::sleep(S(4000)).await;
        ensure!(!h.is_finished() && get(&got).len() == i + 1, "idle", "an idle connection ended");
    }
    let f = frame(&body(9, 12));
    match what {
        "oversize" => {
            let n = pick("announced", &[MAX + 1, 0x4000_0000, 0x8000_0000, 0xffff_ffff]);
            crate::alloc::reset();
            put!(&n.to_be_bytes());
            put!(&[7; 100]);
            ensure!(h.is_finished(), "not cut", "a frame of {n} bytes does not end the connection at once");
            ensure!(crate::alloc::largest() < 200_000, "memory", "{} bytes were allocated", crate::alloc::largest());
        }
        "stalled" => {
            let k = vmc::choose(12, "bytes of the body");
            put!(&f[..4 + k]);
            vmc::sleep(MS(4900)).await;
            ensure!(!h.is_finished(), "too early", "cut off before five seconds");
            vmc::sleep(MS(200)).await;
            ensure!(h.is_finished(), "not cut", "still alive after five seconds");
        }
        "trickle" => {
            put!(&f[..4]);
            for i in 0..7 {
                put!(&f[4 + i..5 + i]);
                vmc::sleep(MS(900)).await;
            }
            ensure!(h.is_finished(), "not cut", "still alive after {:?}", MS(6300));
        }
        _ => {
            let gap = pick("pause", &[1u64, 400]);
            let n = pick("at a time", &[1usize, 3, 5]);
            for p in f.chunks(n) {
                put!(p);
                vmc::sleep(MS(gap)).await;
            }
            put!(&f);
            vmc::sleep(S(10)).await;
            ensure!(!h.is_finished(), "too early", "a message in pieces ends the connection");
            ensure!(get(&got).len() == before + 2 && get(&got)[before..].iter().all(|m| *m == f[4..]), "content", "{:?}", get(&got));
        }
    }
    if h.is_finished() {
        ensure!(get(&got).len() == before, "partial", "{} of {before} messages", get(&got).len());
        vmc::cover("cut off");
    }
    drop(got);
    if let Some(p) = pool {
        let r = timeout(MS(1), lim.allocate_message_bytes(p as u32)).await;
        ensure!(r.is_some(), "pool", "the pool is still taken");
    }
}

/// A peer whose owner does not take what arrives; its buffers fill up and nothing is read any more
async fn unread<P: Protocol>() {
    vmc::deadline(Some(S(4000)));
    let size = pick("size", &[3000usize, 70_000, 300_000]);
    let resume = pick("reads again after", &[u64::MAX, 4800]);
    let pool = pick("channel size", &[None, Some(1usize)]);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, Some(1))).await;
    if let Some(c) = &p.conn {
        c.with(0, |h| h.cap = 10_000);
    }
    vmc::explore(true);
    let a = p.a.clone();
    let s = tokio::spawn(async move {
        let mut n = 0usize;
        while a.send_message_raw(raw(&body(n as u8, size))).await.is_ok() {
            n += 1;
            tokio::time::sleep(MS(10)).await;
        }
    });
    if resume == u64::MAX {
        vmc::sleep(MS(10_700)).await;
        vmc::settle().await;
        ensure!(s.is_finished(), "not cut", "messages of {size} bytes: sends still succeed to a peer that does not read");
        let r = timeout(MS(1), p.a.recv_message_raw()).await;
        ensure!(matches!(r, Some(Err(_))), "not cut", "messages of {size} bytes: still receiving from it");
        vmc::cover("cut off");
        return;
    }
    vmc::sleep(MS(resume)).await;
    let (l, h) = collect(&p.b);
    vmc::sleep(S(2)).await;
    vmc::settle().await;
    ensure!(!s.is_finished() && !h.is_finished(), "too early", "messages of {size} bytes: given up although the peer read again in time");
    let got = get(&l);
    ensure!(got.len() > 20 && got.iter().enumerate().all(|(i, m)| *m == body(i as u8, size)), "content", "{} messages", got.len());
    s.abort();
    vmc::cover("reads again");
}

/// Idle connections stay
async fn idle<P: Protocol>() {
    vmc::deadline(Some(S(40_000)));
    let p = pair::<P>(none(), none()).await;
    vmc::explore(true);
    let (la, _ha) = collect(&p.a);
    let (lb, _hb) = collect(&p.b);
    let gaps = [pick("gap", &[4u64, 6, 61, 3601]), pick("gap", &[4u64, 6, 61, 3601]), 11_000];
    for (i, g) in gaps.into_iter().enumerate() {
        vmc::sleep(S(g)).await;
        p.a.send_message_raw(raw(&[i as u8])).await.expect("send");
        vmc::sleep(S(g)).await;
        p.b.send_message_raw(raw(&[i as u8])).await.expect("send");
        vmc::settle().await;
        ensure!(get(&lb).len() == i + 1 && get(&la).len() == i + 1, "idle", "an idle connection ended");
    }
}

fn t02(_thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("oversize", (2, 3), || async { oversize().await }));
    v.push(Scenario::new("largest", (1, 2), || async { largest_allowed().await }));
    v.push(Scenario::new("stalled sender", (2, 3), || async { stalled_sender().await }));
    v.push(Scenario::new("trickle", (1, 2), || async { trickle().await }));
    v.push(Scenario::new("stalled reader", (1, 2), || async { stalled_reader().await }));
    v.push(Scenario::new("stalled reader, tls", (0, 1), || async { stalled_tls().await }).steps(400_000));
    v.push(Scenario::new("frames, tls", (1, 2), || async { frames_tls().await }));
    v.push(Scenario::new("unread tcp", (0, 1), || async { unread::<Tcp>().await }).steps(2_000_000));
    v.push(Scenario::new("unread memory", (0, 1), || async { unread::<Memory>().await }).steps(2_000_000));
    v.push(Scenario::new("unread tls", (0, 1), || async { unread::<TcpTls>().await }).steps(2_000_000));
    v.push(Scenario::new("idle", (1, 2), || async { idle::<Tcp>().await }));
    v.push(Scenario::new("idle memory", (1, 2), || async { idle::<Memory>().await }));
    v.push(Scenario::new("idle tls", (0, 1), || async { idle::<TcpTls>().await }));
}

// ------------------------------------------------------------------------------------------------------------- T03

/// Soft close on a healthy connection whose peer keeps reading; the connection is dropped right after
async fn soft<P: Protocol>(sizes: &[&[usize]]) {
    vmc::deadline(Some(S(60)));
    let pool = pick("channel size", &[None, Some(1)]);
    let sizes = pick("sizes", sizes);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let m = bodies(sizes);
    if let Some(c) = &p.conn {
        let cap = pick("buffer", &[3usize, 4096]);
        c.with(0, |h| h.cap = cap);
    }
    vmc::explore(true);
    let (l, h) = collect(&p.b);
    let other = vmc::choose(2, "another sender");
    let a = p.a;
    let (a2, m2) = (a.clone(), m.clone());
    let k = if other == 1 { m.len() / 2 } else { m.len() };
    let s = tokio::spawn(async move {
        for x in &m2[..k] {
            a2.send_message_raw(raw(x)).await.expect("send");
        }
    });
    if other == 1 {
        let (a2, m2) = (a.clone(), m.clone());
        let s2 = tokio::spawn(async move {
            for x in &m2[k..] {
                a2.send_message_raw(raw(x)).await.expect("send");
            }
        });
        let _ = s2.await;
    }
    let _ = s.await;
    let r = timeout(S(30), a.soft_close()).await;
    ensure!(r.is_some(), "hang", "soft close does not return");
    ensure!(matches!(r, Some(Ok(()))), "failed", "soft close failed on a healthy connection: {r:?}");
    drop(a);
    let ended = timeout(S(30), h).await.is_some();
    ensure!(ended, "no end", "the peer did not see the end");
    let mut got = get(&l);
    let mut want = m;
    if other == 1 {
        got.sort();
        want.sort();
    }
    ensure!(got == want, "lost", "{} of {} messages arrived before the end", got.len(), want.len());
    vmc::cover("acknowledged");
}

/// Soft close while the connection fails
async fn soft_failing() {
    vmc::deadline(Some(S(100)));
    let pool = pick("channel size", &[None, Some(1), Some(3)]);
    let srv = Server::bind(7000).await;
    let c = Tcp::connect("127.0.0.1:7000", true, Limiter::new(None, pool)).await.unwrap();
    let mut peer = srv.accept_wait().await;
    let cap = pick("buffer", &[6usize, 4096]);
    peer.conn.with(0, |h| {
        h.cap = cap;
        h.tap = Some(vec![]);
    });
    vmc::settle().await;
    let fault = pick("fault", &["stops reading", "reset", "gone"]);
    let m = bodies(&[4, 8, 1]);
    let stream: Vec<u8> = m.iter().flat_map(|b| frame(b)).collect();
    vmc::explore(true);
    let early = vmc::choose(2, "fault first");
    let apply = |peer: &mut Peer| match fault {
        "reset" => peer.conn.cut(),
        "gone" => peer.close(),
        _ => {}
    };
    if early == 1 {
        apply(&mut peer);
    }
    let res = log();
    let (c2, r2) = (c.clone(), res.clone());
    let h = tokio::spawn(async move {
        let mut sent = 0;
        for x in m {
            if c2.send_message_raw(raw(&x)).await.is_err() {
                break;
            }
            sent += 1;
        }
        let r = c2.soft_close().await;
        push(&r2, (sent, r.is_ok()));
    });
    vmc::settle().await;
    if early == 0 {
        apply(&mut peer);
    }
    let done = timeout(S(40), h).await.is_some();
    ensure!(done, "hang", "soft close does not return although the peer {fault}");
    let (sent, ok) = get(&res)[0];
    let tap = peer.conn.with(0, |h| h.tap.clone().unwrap());
    if ok {
        // the bytes may be lost later by the fault, but they were all handed over
        let gone = peer.conn.with(0, |h| h.reset || h.reader_gone);
        ensure!(sent == 3 && (tap == stream || gone), "false success", "success, but only {} of {} bytes were handed over ({sent} messages accepted)", tap.len(), stream.len());
        vmc::cover("success");
    } else {
        vmc::cover("error");
    }
    // and a second one fails or succeeds, but returns
    let r = timeout(S(40), c.soft_close()).await;
    ensure!(r.is_some(), "hang", "a second soft close does not return");
    if fault == "stops reading" && cap == 6 {
        ensure!(!ok && matches!(r, Some(Err(_))), "false success", "soft close succeeds on a connection that cannot send");
    }
}

/// The same over an encrypted connection, where messages wait for the peer in the flush
async fn soft_failing_tls() {
    vmc::deadline(Some(S(200)));
    let pool = pick("channel size", &[None, Some(1usize), Some(3)]);
    let server = pick("closing", &["client", "server"]) == "server";
    let room = pick("buffer", &[1usize, 40, 30_000]);
    let fault = pick("fault", &["reset", "stops reading", "end", "gone", "reads again"]);
    let after = pick("at", &[0u64, 1000, 4900]);
    let p = pair::<TcpTls>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let conn = p.conn.clone().unwrap();
    let (from, to, dir) = if server { (p.b, p.a, 1) } else { (p.a, p.b, 0) };
    conn.with(dir, |x| x.cap = room);
    conn.hold(dir, true);
    vmc::explore(true);
    let size = pick("size", &[60usize, 20_000]);
    let count = pick("messages", &[1u8, 3]);
    let m: Vec<_> = (0..count).map(|i| body(i, size)).collect();
    let (f, m2) = (from.clone(), m.clone());
    let h = tokio::spawn(async move {
        for x in m2 {
            if f.send_message_raw(raw(&x)).await.is_err() {
                return false;
            }
        }
        f.soft_close().await.is_ok()
    });
    vmc::sleep(MS(after)).await;
    vmc::settle().await;
    let fits = conn.with(dir, |x| x.cap) > count as usize * (size + 30);
    if fits {
        let r = timeout(S(1), h).await;
        ensure!(matches!(r, Some(Ok(true))), "failed", "soft close fails or hangs although everything was handed over");
        return;
    }
    ensure!(!h.is_finished(), "false success", "soft close returns before everything was handed over");
    let mut to = Some(to);
    match fault {
        "reset" => conn.with(dir, |x| x.reset = true),
        "gone" => conn.cut(),
        "end" => drop(to.take()),
        "reads again" => {
            conn.with(dir, |x| x.cap = 1 << 20);
            conn.hold(dir, false);
        }
        _ => {}
    }
    let r = timeout(S(40), h).await;
    ensure!(r.is_some(), "hang", "soft close does not return although the peer: {fault}");
    let ok = matches!(r, Some(Ok(true)));
    if fault == "reads again" {
        ensure!(ok, "failed", "soft close fails although the peer reads again in time");
        drop(from);
        let to = to.unwrap();
        for x in &m {
            let r = timeout(S(5), to.recv_message_raw()).await;
            ensure!(matches!(&r, Some(Ok(b)) if b[..] == x[..]), "lost", "a message sent before the soft close is lost");
        }
        vmc::cover("success");
    } else if fault == "end" {
        // what follows the end of the peer may still be handed over
        let r = timeout(S(40), from.soft_close()).await;
        ensure!(r.is_some(), "hang", "a second soft close does not return");
        vmc::cover("ended");
    } else {
        ensure!(!ok, "false success", "soft close succeeds on a connection that cannot send (the peer: {fault})");
        let r = timeout(S(40), from.soft_close()).await;
        ensure!(matches!(r, Some(Err(_))), "false success", "a second soft close: {r:?}");
        vmc::cover("error");
    }
}

fn t03(_thorough: bool, v: &mut Vec<Scenario>) {
    let sizes: &'static [&'static [usize]] = &[&[], &[1], &[0, 5, 2], &[9, 1, 1, 7]];
    v.push(Scenario::new("soft close tcp", (2, 2), move || async move { soft::<Tcp>(sizes).await }));
    v.push(Scenario::new("soft close memory", (2, 3), move || async move { soft::<Memory>(sizes).await }));
    v.push(Scenario::new("soft close tls", (1, 1), move || async move { soft::<TcpTls>(sizes).await }));
    v.push(Scenario::new("soft close failing", (2, 3), || async { soft_failing().await }));
    v.push(Scenario::new("soft close failing, tls", (1, 2), || async { soft_failing_tls().await }));
}

// ------------------------------------------------------------------------------------------------------------- T04

const KB: usize = 1024;

/// Two connections share a pool; messages are released in every order
async fn pool_history(steps: usize) {
    vmc::deadline(Some(S(2000)));
    let pool = 100 * KB;
    let chan = pick("channel size", &[None, Some(1)]);
    let lim = Limiter::new(Some(pool), chan);
    let sizes: &[usize] = pick("sizes", &[&[60 * KB, 50 * KB][..], &[100 * KB, 10 * KB], &[30 * KB, 40 * KB]]);
    tokio::net::sim::set_default_cap(4096);
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    let mut peers = vec![];
    let mut conns = vec![];
    for _ in 0..2 {
        peers.push(Some(Peer::connect(7000).await.unwrap()));
        conns.push(Some(l.accept().await.unwrap().finalize(lim.clone()).await.unwrap()));
    }
    vmc::settle().await;
    let mut queue: Vec<Vec<Vec<u8>>> = (0..2).map(|i| (0..3).map(|k| body(i * 3 + k, sizes[(i as usize + k as usize) % 2])).collect()).collect();
    let all = queue.clone();
    let mut got = [0usize; 2];
    for (i, q) in queue.iter_mut().enumerate() {
        for b in q.drain(..) {
            peers[i].as_mut().unwrap().send_frame(&b);
        }
    }
    crate::alloc::reset();
    vmc::explore(true);
    let mut held: Vec<(usize, cdn_proto::connection::Bytes)> = vec![];
    for _ in 0..steps {
        // deliver whatever is possible
        for _ in 0..400 {
            let mut progress = false;
            for p in peers.iter_mut().flatten() {
                let before = p.conn.with(0, |h| h.written);
                p.flush();
                progress |= p.conn.with(0, |h| h.written) != before;
            }
            vmc::settle().await;
            if !progress {
                break;
            }
        }
        let peak = crate::alloc::peak();
        ensure!(peak <= pool + 40 * KB, "exceeded", "{peak} bytes live, the pool is {pool}");
        match vmc::choose(5, "step") {
            k @ (0 | 1) => {
                if let Some(c) = &conns[k] {
                    if let Some(r) = timeout(MS(1), c.recv_message_raw()).await {
                        let Ok(b) = r else { vmc::fail("lost", "the connection failed"); return };
                        ensure!(*b == all[k][got[k]], "content", "message {} of connection {k} is wrong", got[k]);
                        got[k] += 1;
                        held.push((k, b));
                        let sum: usize = held.iter().map(|h| h.1.len()).sum();
                        ensure!(sum <= pool, "exceeded", "{sum} bytes are held, the pool is {pool}");
                        vmc::cover("received");
                    }
                }
            }
            2 => {
                if !held.is_empty() {
                    held.remove(0);
                    vmc::cover("released");
                }
            }
            3 => {
                // clones keep the reservation
                if let Some(h) = held.first() {
                    let c = h.clone();
                    held.remove(0);
                    held.push(c);
                }
            }
            _ => {
                // a connection ends
                if conns[0].is_some() {
                    conns[0] = None;
                    if let Some(p) = &peers[0] {
                        p.conn.cut();
                    }
                    peers[0] = None;
                }
            }
        }
    }
    // everything else is delivered once things are released
    held.clear();
    for k in [1, 0] {
        let Some(c) = conns[k].clone() else { continue };
        while got[k] < 3 {
            for p in peers.iter_mut().flatten() {
                p.flush();
            }
            vmc::settle().await;
            let other = conns[1 - k].clone();
            // the other connection's messages are taken and dropped, too
            if let Some(o) = &other {
                if let Some(Ok(_)) = timeout(MS(1), o.recv_message_raw()).await {
                    got[1 - k] += 1;
                }
            }
            match timeout(MS(1), c.recv_message_raw()).await {
                Some(Ok(b)) => {
                    ensure!(*b == all[k][got[k]], "content", "message {} of connection {k} is wrong", got[k]);
                    got[k] += 1;
                }
                Some(Err(_)) => {
                    vmc::fail("lost", "the connection failed");
                }
                None => {
                    let stuck = peers.iter_mut().flatten().all(|p| {
                        let w = p.conn.with(0, |h| h.written);
                        p.flush();
                        w == p.conn.with(0, |h| h.written) && p.conn.with(0, |h| h.buf.is_empty())
                    });
                    ensure!(!stuck && vmc::now() < S(500), "stuck", "a reader waits although everything was released");
                }
            }
        }
    }
    vmc::cover("drained");
    conns.clear();
    vmc::settle().await;
    let r = timeout(MS(10), lim.allocate_message_bytes(pool as u32)).await;
    ensure!(r.is_some(), "leak", "the pool is not whole after everything was released");
}

/// A connection ends in every phase: the reservation comes back and a waiting reader proceeds
async fn pool_phases() {
    vmc::deadline(Some(S(100)));
    let pool = 100usize;
    let chan = pick("channel size", &[None, Some(1)]);
    let lim = Limiter::new(Some(pool), chan);
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    let mut pa = Peer::connect(7000).await.unwrap();
    let a = l.accept().await.unwrap().finalize(lim.clone()).await.unwrap();
    let mut pb = Peer::connect(7000).await.unwrap();
    let b = l.accept().await.unwrap().finalize(lim.clone()).await.unwrap();
    vmc::settle().await;
    vmc::explore(true);
    let phase = pick("phase", &["queued", "held", "mid message", "waiting"]);
    let end = pick("end", &["drop", "reset", "close", "stall"]);
    let mut keep = None;
    let first = frame(&body(1, 80));
    match phase {
        "queued" => pa.send_bytes(&first),
        "held" => {
            pa.send_bytes(&first);
            keep = timeout(S(1), a.recv_message_raw()).await.and_then(Result::ok);
            ensure!(keep.is_some(), "lost", "no message");
        }
        "mid message" => pa.send_bytes(&first[..30]),
        _ => {
            pa.send_bytes(&first);
            pa.send_frame(&body(2, 80));
        }
    }
    vmc::settle().await;
    // this one has to wait
    pb.send_frame(&body(3, 50));
    let (lg, _h) = collect(&b);
    vmc::settle().await;
    ensure!(get(&lg).is_empty(), "exceeded", "a message was received beyond the pool");
    match end {
        "drop" => drop(a),
        "reset" => {
            pa.conn.cut();
            vmc::settle().await;
            while let Some(Ok(_)) = timeout(MS(1), a.recv_message_raw()).await {}
            drop(a);
        }
        "close" => {
            pa.close();
            vmc::settle().await;
            while let Some(Ok(_)) = timeout(MS(1), a.recv_message_raw()).await {}
        }
        _ => {
            vmc::sleep(MS(5200)).await;
            while let Some(Ok(_)) = timeout(MS(1), a.recv_message_raw()).await {}
        }
    }
    vmc::settle().await;
    if keep.is_some() {
        ensure!(get(&lg).is_empty(), "exceeded", "a message was received beyond the pool");
        drop(keep);
    }
    vmc::settle().await;
    vmc::sleep(MS(10)).await;
    ensure!(get(&lg).len() == 1, "stuck", "the other connection still waits ({phase}, {end})");
    drop((b, pa, pb));
    vmc::sleep(MS(10)).await;
    vmc::cover("returned");
}

/// Everything read from a dropped connection is returned whatever the receiving side does at that moment
async fn pool_drop() {
    vmc::deadline(Some(S(100)));
    let pool = 100usize;
    let chan = pick("channel size", &[None, Some(1)]);
    let lim = Limiter::new(Some(pool), chan);
    let p = pair::<Memory>(none(), lim.clone()).await;
    vmc::explore(true);
    let a = p.a;
    let s = tokio::spawn(async move {
        for i in 0..5u8 {
            let _ = a.send_message_raw(raw(&body(i, 40))).await;
        }
    });
    let b = p.b;
    let r = tokio::spawn(async move {
        for _ in 0..2 {
            let _ = b.recv_message_raw().await;
        }
        drop(b);
    });
    let _ = r.await;
    let _ = s.await;
    vmc::settle().await;
    let r = timeout(MS(10), lim.allocate_message_bytes(pool as u32)).await;
    ensure!(r.is_some(), "leak", "the pool is not whole after the connection was dropped");
}

/// Every byte counts: small messages in small pools
async fn pool_tiny(sizes: &'static [usize]) {
    vmc::deadline(Some(S(100)));
    vmc::explore(true);
    let pool = pick("pool", &[1usize, 2, 3, 5, 8, 13]);
    let mut want = [0; 4];
    for (i, w) in want.iter_mut().enumerate() {
        *w = pick(&format!("size {i}"), sizes).min(pool);
    }
    vmc::explore(false);
    let lim = Limiter::new(Some(pool), None);
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    let mut peers = vec![];
    let mut logs = vec![];
    let mut tasks = vec![];
    for _ in 0..want.len() {
        peers.push(Peer::connect(7000).await.unwrap());
        let c = l.accept().await.unwrap().finalize(lim.clone()).await.unwrap();
        let got = log();
        let got2 = got.clone();
        logs.push(got);
        // keeps what it gets until it is taken from the log
        tasks.push(tokio::spawn(async move {
            while let Ok(m) = c.recv_message_raw().await {
                push(&got2, Some(m));
            }
        }));
    }
    let mut free = pool;
    let mut waiting = false;
    for i in 0..want.len() {
        peers[i].send_frame(&body(i as u8, want[i]));
        vmc::settle().await;
        let got = get(&logs[i]).len() == 1;
        ensure!(!got || want[i] <= free, "exceeded", "{want:?} in a pool of {pool}: message {i} was received");
        ensure!(got || waiting || want[i] > free, "stuck", "{want:?} in a pool of {pool}: message {i} was not received");
        if got {
            free -= want[i];
        } else {
            waiting = true;
        }
    }
    // everything proceeds once everything before it has been released
    let mut seen = [false; 4];
    for _ in 0..want.len() {
        let mut held = 0;
        for i in 0..want.len() {
            if !get(&logs[i]).is_empty() {
                held += want[i];
            }
        }
        ensure!(held <= pool, "exceeded", "{want:?} in a pool of {pool}: {held} bytes are held");
        for i in 0..want.len() {
            if let Some(m) = logs[i].lock().unwrap().drain(..).next() {
                ensure!(!seen[i] && m.is_some_and(|m| m[..] == body(i as u8, want[i])[..]), "content", "message {i}");
                seen[i] = true;
            }
        }
        vmc::settle().await;
    }
    ensure!(seen == [true; 4], "stuck", "{want:?} in a pool of {pool}: received {seen:?} after everything was released");
    vmc::cover("tiny");
}

fn t04(thorough: bool, v: &mut Vec<Scenario>) {
    let n = if thorough { 8 } else { 6 };
    v.push(Scenario::new("pool history", (0, 0), move || async move { pool_history(n).await }));
    v.push(Scenario::new("pool schedules", (1, 1), move || async move { pool_history(2).await }));
    let tiny: &'static [usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 13] } else { &[0, 1, 2, 3, 5, 7] };
    v.push(Scenario::new("pool tiny", (0, 0), move || async move { pool_tiny(tiny).await }));
    v.push(Scenario::new("pool phases", (2, 3), || async { pool_phases().await }));
    v.push(Scenario::new("pool drop", (2, 3), || async { pool_drop().await }));
}

// ------------------------------------------------------------------------------------------------------------- T05

/// The last handle is dropped while other handles are in use
async fn dropping<P: Protocol>() {
    vmc::deadline(Some(S(100)));
    let base = vmc::live_tasks();
    let p = pair::<P>(none(), none()).await;
    vmc::explore(true);
    let (l, h) = collect(&p.b);
    let a = p.a;
    let clones = vmc::choose(3, "clones");
    let cs: Vec<_> = (0..clones).map(|_| a.clone()).collect();
    let user = vmc::choose(3, "in use");
    let a2 = a.clone();
    let t = tokio::spawn(async move {
        match user {
            0 => drop(a2),
            1 => {
                let _ = a2.send_message_raw(raw(&[1, 2])).await;
                drop(a2);
            }
            _ => {
                // a pending receive keeps the connection alive until it is given up
                let _ = timeout(S(1), a2.recv_message_raw()).await;
                drop(a2);
            }
        }
    });
    drop(a);
    for c in cs {
        vmc::settle().await;
        ensure!(!h.is_finished(), "too early", "the connection ended although a handle is left");
        drop(c);
    }
    let _ = t.await;
    let ended = timeout(S(30), h).await.is_some();
    ensure!(ended, "no end", "the peer does not observe the end");
    drop(p.b);
    vmc::settle().await;
    vmc::sleep(S(11)).await;
    ensure!(vmc::live_tasks() <= base, "tasks", "background tasks are left: {:?}", vmc::live_task_names());
    vmc::outcome(get(&l).len() as u64);
    vmc::cover("ended");
}

/// The peer disappears: receives drain and then fail; sends fail; nothing hangs
async fn vanishing<P: Protocol>(pools: &[Option<usize>]) {
    vmc::deadline(Some(S(200)));
    let pool = pick("channel size", pools);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let how = pick("end", &["drop", "reset"]);
    let cap = pick("buffer", &[4usize, 4096]);
    if let Some(c) = &p.conn {
        for d in 0..2 {
            c.with(d, |h| h.cap = cap);
        }
    }
    vmc::explore(true);
    let n = 3usize;
    let a = p.a;
    let b = p.b;
    let sends = tokio::spawn(async move {
        for i in 0..n as u8 {
            let _ = a.send_message_raw(raw(&[i; 2])).await;
        }
        let r = timeout(S(30), a.soft_close()).await;
        (a, matches!(r, Some(Ok(()))))
    });
    let (l, h) = collect(&b);
    let b2 = b.clone();
    // keeps sending until it fails
    let t = tokio::spawn(async move {
        let mut k = 0u32;
        while b2.send_message_raw(raw(&[9; 40])).await.is_ok() {
            k += 1;
            tokio::time::sleep(MS(100)).await;
            if k > 400 {
                return false;
            }
        }
        true
    });
    let Some(Ok((a, acked))) = timeout(S(100), sends).await else {
        vmc::fail("hang", "sending hangs");
        return;
    };
    if how == "reset" {
        if let Some(c) = &p.conn {
            c.cut();
        }
    }
    drop(a);
    let done = timeout(S(60), h).await.is_some();
    ensure!(done, "hang", "receives still wait although the peer is gone");
    if how == "drop" && acked {
        ensure!(get(&l).len() == n, "lost", "{} of {n} messages were received before the end", get(&l).len());
    }
    let r = timeout(S(1), b.recv_message_raw()).await;
    ensure!(matches!(r, Some(Err(_))), "later", "a later receive does not fail");
    let sent = timeout(S(60), t).await;
    ensure!(matches!(sent, Some(Ok(true))), "hang", "sends to a gone peer never fail: {:?}", sent.map(|r| r.is_ok()));
    vmc::cover("both failed");
}

/// The peer is gone without a word while messages are being written
async fn silent<P: Protocol>() {
    vmc::deadline(Some(S(200)));
    let pool = pick("channel size", &[None, Some(1)]);
    let p = pair::<P>(Limiter::new(None, pool), Limiter::new(None, pool)).await;
    let c = p.conn.clone().unwrap();
    c.with(0, |h| h.cap = 50);
    vmc::explore(true);
    c.vanish();
    let a = p.a.clone();
    let t = tokio::spawn(async move {
        let mut n = 0;
        while a.send_message_raw(raw(&[1; 30])).await.is_ok() {
            n += 1;
            tokio::time::sleep(MS(500)).await;
        }
        n
    });
    let r = timeout(S(30), t).await;
    ensure!(r.is_some(), "hang", "sends to a silent peer never fail");
}

fn t05(_thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("drop tcp", (2, 3), || async { dropping::<Tcp>().await }));
    v.push(Scenario::new("drop memory", (2, 3), || async { dropping::<Memory>().await }));
    v.push(Scenario::new("drop tls", (1, 2), || async { dropping::<TcpTls>().await }));
    v.push(Scenario::new("vanish tcp", (1, 2), || async { vanishing::<Tcp>(&[None, Some(1)]).await }));
    v.push(Scenario::new("vanish memory", (1, 2), || async { vanishing::<Memory>(&[None, Some(1)]).await }));
    v.push(Scenario::new("vanish tls", (1, 1), || async { vanishing::<TcpTls>(&[None, Some(1)]).await }));
    v.push(Scenario::new("silent", (2, 3), || async { silent::<Tcp>().await }));
    v.push(Scenario::new("silent tls", (1, 2), || async { silent::<TcpTls>().await }));
}

// ------------------------------------------------------------------------------------------------------------- T06

/// Several connects and accepts at the same time: each pair talks only to each other
async fn pairing<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(100)));
    let ep = endpoint::<P>(7000);
    let l = Arc::new(bind::<P>(&ep).await);
    vmc::settle().await;
    let separate = vmc::choose(2, "acceptors");
    vmc::explore(true);
    let res: Log<(bool, u8, u8)> = log();
    let mut hs = vec![];
    for i in 0..n as u8 {
        let (ep, res) = (ep.clone(), res.clone());
        hs.push(tokio::spawn(async move {
            let c = P::connect(&ep, true, none()).await.expect("connect");
            c.send_message_raw(raw(&[i])).await.expect("send");
            let r = c.recv_message_raw().await.expect("receive");
            push(&res, (true, i, r[0]));
            // keep it until the other side is done
            let _ = c.recv_message_raw().await;
        }));
    }
    let mut accepts = vec![];
    let talk = |c: Connection, j: u8, res: Log<(bool, u8, u8)>| async move {
        let r = c.recv_message_raw().await.expect("receive");
        c.send_message_raw(raw(&[100 + j])).await.expect("send");
        push(&res, (false, 100 + j, r[0]));
        tokio::time::sleep(S(2)).await;
    };
    if separate == 1 {
        for j in 0..n as u8 {
            let (l, res) = (l.clone(), res.clone());
            accepts.push(tokio::spawn(async move {
                let c = l.accept().await.expect("accept").finalize(none()).await.expect("finalize");
                talk(c, j, res).await;
            }));
        }
    } else {
        let (l, res) = (l.clone(), res.clone());
        accepts.push(tokio::spawn(async move {
            for j in 0..n as u8 {
                let u = l.accept().await.expect("accept");
                let res = res.clone();
                tokio::spawn(async move {
                    let c = u.finalize(none()).await.expect("finalize");
                    talk(c, j, res).await;
                });
            }
        }));
    }
    let ok = until(S(1), || res.lock().unwrap().len() == 2 * n).await;
    let got = get(&res);
    ensure!(ok, "incomplete", "not every connection exchanged its messages: {got:?}");
    let mut pairs = vec![];
    for (client, me, them) in &got {
        pairs.push(if *client { (*me, *them) } else { (*them, *me) });
    }
    pairs.sort();
    for i in 0..n as u8 {
        let mine: Vec<_> = pairs.iter().filter(|p| p.0 == i).collect();
        ensure!(mine.len() == 2 && mine[0] == mine[1], "crossed", "(connector, acceptor) as seen by both sides: {pairs:?}");
    }
    let mut js: Vec<_> = pairs.iter().map(|p| p.1).collect();
    js.dedup();
    ensure!(js.len() == n, "shared", "{pairs:?}");
    vmc::cover("paired");
}

/// Endpoints without a listener: never bound, bound and gone, bound again
async fn nobody<P: Protocol>() {
    vmc::deadline(Some(S(100)));
    let ep = endpoint::<P>(7000);
    vmc::explore(true);
    let r = timeout(S(20), P::connect(&ep, true, none())).await;
    ensure!(matches!(r, Some(Err(_))), "never bound", "connecting to an endpoint nobody listens on: {}", if r.is_none() { "hangs" } else { "succeeds" });
    let l = bind::<P>(&ep).await;
    // never, after a while, at once, and (where that is possible) before the first one goes
    let rebind = vmc::choose(if is_mem::<P>() { 4 } else { 3 }, "bound again");
    let pending = if rebind < 2 { vmc::choose(2, "pending connect") } else { 0 };
    let ep2 = ep.clone();
    let t = (pending == 1).then(|| tokio::spawn(async move {
        let r = timeout(S(30), P::connect(&ep2, true, none())).await;
        match r {
            None => "hangs",
            Some(Err(_)) => "fails",
            Some(Ok(c)) => {
                // it was made just before the listener went: it must end
                match timeout(S(30), c.recv_message_raw()).await {
                    None => "hangs after it was made",
                    Some(_) => "ends",
                }
            }
        }
    }));
    if pending == 1 {
        tokio::task::yield_now().await;
    }
    let mut l = Some(l);
    let mut again = None;
    if rebind == 3 {
        again = Some(bind::<P>(&ep).await);
    }
    l.take();
    if rebind == 2 {
        again = Some(bind::<P>(&ep).await);
    }
    if let Some(t) = t {
        let r = t.await.unwrap();
        ensure!(r == "fails" || r == "ends", "pending", "a connect under way when the listener goes {r}");
    }
    vmc::settle().await;
    if again.is_none() {
        let r = timeout(S(20), P::connect(&ep, true, none())).await;
        ensure!(matches!(r, Some(Err(_))), "gone", "connecting after the listener has gone: {}", if r.is_none() { "hangs" } else { "succeeds" });
    }
    if rebind > 0 {
        let l = match again {
            Some(l) => l,
            None => bind::<P>(&ep).await,
        };
        vmc::settle().await;
        let ep2 = ep.clone();
        let c = tokio::spawn(async move { P::connect(&ep2, true, none()).await });
        let b = timeout(S(20), l.accept()).await;
        ensure!(matches!(b, Some(Ok(_))), "bound again", "no connection can be accepted");
        let b = b.unwrap().unwrap().finalize(none()).await.unwrap();
        let a = c.await.unwrap();
        ensure!(a.is_ok(), "bound again", "connecting fails");
        let a = a.unwrap();
        a.send_message_raw(raw(&[5])).await.expect("send");
        let r = timeout(S(5), b.recv_message_raw()).await;
        ensure!(matches!(r, Some(Ok(_))), "bound again", "no message arrives");
        vmc::cover("bound again");
    }
}

/// A waiting connect or accept at one endpoint does not keep others from being bound and used
async fn independent<P: Protocol>() {
    vmc::deadline(Some(S(100)));
    let (e1, e2) = (endpoint::<P>(7000), endpoint::<P>(7001));
    let _l1 = bind::<P>(&e1).await;
    vmc::explore(true);
    let e = e1.clone();
    let _t = tokio::spawn(async move {
        let _c = P::connect(&e, true, none()).await;
        std::future::pending::<()>().await;
    });
    vmc::settle().await;
    let l2 = timeout(S(20), bind::<P>(&e2)).await;
    ensure!(l2.is_some(), "bind blocked", "binding one endpoint waits for a connect to another");
    let l2 = l2.unwrap();
    let e = e2.clone();
    let c = tokio::spawn(async move { P::connect(&e, true, none()).await.is_ok() });
    let u = timeout(S(20), l2.accept()).await;
    ensure!(matches!(u, Some(Ok(_))), "accept blocked", "no connection is accepted");
    let _b = u.unwrap().unwrap().finalize(none()).await;
    ensure!(c.await.unwrap(), "connect", "connecting fails");
}

/// A failed accept affects only itself
async fn accept_fails() {
    vmc::deadline(Some(S(100)));
    let l = bind::<Tcp>("127.0.0.1:7000").await;
    vmc::explore(true);
    let c = tokio::spawn(async { Tcp::connect("127.0.0.1:7000", true, none()).await });
    tokio::net::sim::accept_error(7000);
    let mut ok = None;
    for _ in 0..2 {
        if let Some(Ok(u)) = timeout(S(5), l.accept()).await {
            ok = Some(u);
        }
    }
    ensure!(ok.is_some(), "lost", "the connection was not accepted");
    let _b = ok.unwrap().finalize(none()).await;
    ensure!(c.await.unwrap().is_ok(), "connect", "connecting fails");
}

fn t06(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("pairing tcp", (2, 3), || async { pairing::<Tcp>(2).await }));
    v.push(Scenario::new("pairing memory", (2, 3), || async { pairing::<Memory>(2).await }));
    v.push(Scenario::new("pairing tls", (1, 1), || async { pairing::<TcpTls>(2).await }));
    if thorough {
        v.push(Scenario::new("pairing three tcp", (1, 2), || async { pairing::<Tcp>(3).await }));
        v.push(Scenario::new("pairing three memory", (1, 2), || async { pairing::<Memory>(3).await }));
    }
    v.push(Scenario::new("nobody tcp", (2, 3), || async { nobody::<Tcp>().await }));
    v.push(Scenario::new("nobody memory", (2, 3), || async { nobody::<Memory>().await }));
    v.push(Scenario::new("independent tcp", (2, 3), || async { independent::<Tcp>().await }));
    v.push(Scenario::new("independent memory", (2, 3), || async { independent::<Memory>().await }));
    v.push(Scenario::new("accept fails", (2, 3), || async { accept_fails().await }));
}


// ------------------------------------------------------------------------------------------------------------- T07

type Cert = (rustls::pki_types::CertificateDer<'static>, rustls::pki_types::PrivateKeyDer<'static>);

/// A server certificate of a kind, and whether a client that trusts the local authority may accept it
fn server_cert(kind: &str) -> (Cert, bool) {
    use cdn_proto::crypto::tls::{LOCAL_CA_CERT, LOCAL_CA_KEY, PROD_CA_CERT};
    use rcgen::{BasicConstraints, CertificateParams, IsCa, KeyPair, SanType};
    if kind == "good" {
        return (certs::<TcpTls>(), true);
    }
    let der = |c: rcgen::Certificate, k: &KeyPair| -> Cert {
        let key = rustls::pki_types::PrivatePkcs8KeyDer::from(k.serialize_der());
        (c.der().to_owned(), key.into())
    };
    let make = || {
        let ca_key = KeyPair::from_pem(LOCAL_CA_KEY).unwrap();
        let own = KeyPair::generate().unwrap();
        let mut p = CertificateParams::from_ca_cert_pem(LOCAL_CA_CERT).unwrap();
        p.is_ca = IsCa::ExplicitNoCa;
        let dns = |n: &str| vec![SanType::DnsName(n.try_into().unwrap())];
        p.subject_alt_names = dns("espresso");
        match kind {
            // properly issued by the local authority to a key of its own
            "issued" | "issued other name" => {
                if kind != "issued" {
                    p.subject_alt_names = dns("latte");
                }
                p.distinguished_name = rcgen::DistinguishedName::new();
                let ca = CertificateParams::from_ca_cert_pem(LOCAL_CA_CERT).unwrap().self_signed(&ca_key).unwrap();
                return der(p.signed_by(&own, &ca, &ca_key).unwrap(), &own);
            }
            "other name" => p.subject_alt_names = dns("latte"),
            "longer name" => p.subject_alt_names = dns("espresso.com"),
            "subdomain" => p.subject_alt_names = dns("x.espresso"),
            "address" => p.subject_alt_names = vec![SanType::IpAddress("127.0.0.1".parse().unwrap())],
            "no name" => p.subject_alt_names = vec![],
            "expired" => p.not_after = rcgen::date_time_ymd(2025, 1, 1),
            "not yet valid" => p.not_before = rcgen::date_time_ymd(2026, 1, 1),
            // the same names, signed by somebody else
            "other authority" => return der(p.self_signed(&own).unwrap(), &own),
            "own authority" => {
                let mut ca = CertificateParams::from_ca_cert_pem(LOCAL_CA_CERT).unwrap();
                ca.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
                let k = KeyPair::generate().unwrap();
                let ca = ca.self_signed(&k).unwrap();
                return der(p.signed_by(&own, &ca, &k).unwrap(), &own);
            }
            "like production" => {
                let mut p = CertificateParams::from_ca_cert_pem(PROD_CA_CERT).unwrap();
                p.is_ca = IsCa::ExplicitNoCa;
                p.subject_alt_names = dns("espresso");
                return der(p.self_signed(&own).unwrap(), &own);
            }
            // the genuine certificate without its key
            "stolen" => {
                let good = certs::<TcpTls>();
                return (good.0, der(p.self_signed(&own).unwrap(), &own).1);
            }
            _ => unreachable!(),
        }
        der(p.self_signed(&ca_key).unwrap(), &ca_key)
    };
    thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<String, Cert>> = Default::default());
    let c = CACHE.with(|m| {
        let mut m = m.borrow_mut();
        let e = m.entry(kind.to_string()).or_insert_with(|| vmc::os::with_rng(11, make));
        (e.0.clone(), e.1.clone_key())
    });
    (c, kind == "issued")
}

#[derive(Debug)]
struct Fixed(Arc<rustls::sign::CertifiedKey>);
impl rustls::server::ResolvesServerCert for Fixed {
    fn resolve(&self, _: rustls::server::ClientHello<'_>) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
}

/// Every kind of server certificate against both authorities
async fn authority() {
    vmc::deadline(Some(S(100)));
    let kind = pick("certificate", &[
        "good", "issued", "issued other name", "other name", "longer name", "subdomain", "address", "no name", "expired", "not yet valid",
        "other authority", "own authority", "like production", "stolen",
    ]);
    let local = vmc::choose(2, "production, local") == 1;
    let (cert, trusted) = server_cert(kind);
    let srv = Server::bind(7000).await;
    vmc::explore(true);
    let h = tokio::spawn(async move {
        let t0 = vmc::now();
        let c = TcpTls::connect("127.0.0.1:7000", local, none()).await;
        (c, vmc::now() - t0)
    });
    let raw_stream = srv.accept_stream().await;
    // a server of our own that uses the key it has, whatever the certificate says
    let provider = rustls::crypto::ring::default_provider();
    let key = provider.key_provider.load_private_key(cert.1).unwrap();
    let resolver = Fixed(Arc::new(rustls::sign::CertifiedKey::new(vec![cert.0], key)));
    let cfg = rustls::ServerConfig::builder().with_no_client_auth().with_cert_resolver(Arc::new(resolver));
    let acc = tokio_rustls::TlsAcceptor::from(Arc::new(cfg));
    let s = tokio::spawn(async move { timeout(S(20), acc.accept(raw_stream)).await });
    let (c, took) = h.await.unwrap();
    let want = local && trusted;
    ensure!(c.is_ok() == want, "authority", "certificate {kind:?}, {} authority: connecting {}", if local { "local" } else { "production" }, if c.is_ok() { "succeeds" } else { "fails" });
    ensure!(took < S(15), "late", "it took {took:?}");
    drop(s);
    vmc::cover(if want { "trusted" } else { "refused" });
    vmc::cases(1);
}

/// The listener of the code with good and bad certificates (the server side is not to be reached with the bad ones)
async fn listener_authority() {
    vmc::deadline(Some(S(100)));
    let kind = pick("certificate", &["good", "issued", "issued other name", "other name", "other authority", "like production"]);
    let local = vmc::choose(2, "production, local") == 1;
    let (cert, trusted) = server_cert(kind);
    let l = TcpTls::bind("127.0.0.1:7000", cert.0, cert.1).await.expect("bind");
    vmc::explore(true);
    let h = tokio::spawn(async move { TcpTls::connect("127.0.0.1:7000", local, none()).await });
    let s = l.accept().await.expect("accept").finalize(none()).await;
    let c = h.await.unwrap();
    let want = local && trusted;
    ensure!(c.is_ok() == want && s.is_ok() == want, "authority", "certificate {kind:?}, local authority {local}: client {}, server {}", c.is_ok(), s.is_ok());
    if let (Ok(c), Ok(s)) = (c, s) {
        c.send_message_raw(raw(&[1, 2, 3])).await.expect("send");
        let m = timeout(S(5), s.recv_message_raw()).await;
        ensure!(matches!(&m, Some(Ok(m)) if m.to_vec() == [1, 2, 3]), "payload", "the message does not arrive");
        vmc::cover("talked");
    }
}

/// The handshake stalls, ends or breaks after any number of bytes in either direction
async fn handshake_cut(step: usize) {
    vmc::deadline(Some(S(200)));
    let how = pick("fault", &["stall", "fin", "reset"]);
    let dir = vmc::choose(2, "direction");
    // the longest of both flights is below 1500 bytes
    let k = step * vmc::choose(1500 / step, "bytes");
    let l = bind::<TcpTls>("127.0.0.1:7000").await;
    vmc::explore(true);
    let ch = tokio::spawn(async move {
        let t0 = vmc::now();
        let c = TcpTls::connect("127.0.0.1:7000", true, none()).await;
        (c, vmc::now() - t0)
    });
    let u = l.accept().await.expect("accept");
    let conn = tokio::net::sim::last_to(7000).unwrap();
    conn.with(dir, |h| h.allow = Some(k as u64));
    let sh = tokio::spawn(async move {
        let t0 = vmc::now();
        let c = u.finalize(none()).await;
        (c, vmc::now() - t0)
    });
    vmc::settle().await;
    let total = conn.with(dir, |h| h.written);
    match how {
        "fin" => conn.with(dir, |h| {
            h.allow = None;
            if k < h.written as usize {
                let drop_n = h.buf.len();
                h.buf.drain(..drop_n);
                h.fin = true;
            }
        }),
        "reset" => {
            if k < total as usize {
                conn.cut();
            }
        }
        _ => {}
    }
    let c = timeout(S(30), ch).await;
    let s = timeout(S(30), sh).await;
    ensure!(c.is_some(), "client hangs", "{how} after {k} bytes of direction {dir}: the client is still connecting");
    ensure!(s.is_some(), "server hangs", "{how} after {k} bytes of direction {dir}: the server is still waiting");
    let (c, s) = (c.unwrap().unwrap(), s.unwrap().unwrap());
    ensure!(c.1 <= S(15) && s.1 <= S(15), "late", "client {:?}, server {:?}", c.1, s.1);
    if dir == 0 && k < total as usize {
        // the server did not hear everything
        ensure!(s.0.is_err() || total > 400, "server accepts", "{how} after {k} of {total} bytes from the client: accepted");
    }
    if c.0.is_err() || s.0.is_err() {
        vmc::cover("failed in time");
    } else {
        vmc::cover("formed");
    }
}

/// One byte is changed on its way: nothing but what was sent is ever delivered
async fn tampered(masks: &[u8], step: usize) {
    vmc::deadline(Some(S(200)));
    let dir = vmc::choose(2, "direction");
    let mask = pick("mask", masks);
    let k = step * vmc::choose(1600 / step, "byte");
    let l = bind::<TcpTls>("127.0.0.1:7000").await;
    vmc::explore(true);
    let msgs = [body(9, 24), body(17, 40)];
    let m = msgs.clone();
    let ch = tokio::spawn(async move {
        let Ok(c) = TcpTls::connect("127.0.0.1:7000", true, none()).await else { return (false, vec![]) };
        let _ = c.send_message_raw(raw(&m[0])).await;
        let r = timeout(S(20), c.recv_message_raw()).await;
        (true, r.and_then(Result::ok).map(|m| m.to_vec()).unwrap_or_default())
    });
    let u = l.accept().await.expect("accept");
    let conn = tokio::net::sim::last_to(7000).unwrap();
    conn.with(dir, |h| h.flip = Some((k as u64, mask)));
    let m = msgs.clone();
    let sh = tokio::spawn(async move {
        let Ok(c) = u.finalize(none()).await else { return (false, vec![]) };
        let _ = c.send_message_raw(raw(&m[1])).await;
        let r = timeout(S(20), c.recv_message_raw()).await;
        (true, r.and_then(Result::ok).map(|m| m.to_vec()).unwrap_or_default())
    });
    let c = timeout(S(60), ch).await;
    let s = timeout(S(60), sh).await;
    ensure!(c.is_some() && s.is_some(), "hangs", "byte {k} of direction {dir} changed: client {}, server {}", c.is_some(), s.is_some());
    let (c, s) = (c.unwrap().unwrap(), s.unwrap().unwrap());
    ensure!(c.1.is_empty() || c.1 == msgs[1], "altered", "the client received something that was not sent");
    ensure!(s.1.is_empty() || s.1 == msgs[0], "altered", "the server received something that was not sent");
    vmc::cover(if c.1.is_empty() || s.1.is_empty() { "refused" } else { "beyond the last byte or tolerated" });
    vmc::cases(1);
}

/// A server that does not speak TLS, and one that speaks it and never shows payload in the clear
async fn plain_server() {
    vmc::deadline(Some(S(200)));
    let what = pick("peer", &["silent", "closes", "echo", "frames", "alert", "garbage"]);
    let srv = Server::bind(7000).await;
    vmc::explore(true);
    let h = tokio::spawn(async move {
        let t0 = vmc::now();
        let c = TcpTls::connect("127.0.0.1:7000", true, none()).await;
        if let Ok(c) = &c {
            let _ = c.send_message_raw(raw(&body(9, 64))).await;
        }
        (c.is_ok(), vmc::now() - t0)
    });
    let mut p = srv.accept_wait().await;
    vmc::settle().await;
    let hello = p.partial().to_vec();
    match what {
        "closes" => p.close(),
        "echo" => p.send_bytes(&hello),
        "frames" => p.send_frame(&[0; 40]),
        "alert" => p.send_bytes(&[21, 3, 3, 0, 2, 2, 40]),
        "garbage" => p.send_bytes(&body(3, 300)),
        _ => {}
    }
    let r = timeout(S(30), h).await;
    ensure!(r.is_some(), "hangs", "a peer that is {what}: still connecting");
    let (ok, took) = r.unwrap().unwrap();
    ensure!(!ok, "connected", "connected to a peer that is {what}");
    ensure!(took <= S(15), "late", "{took:?}");
    vmc::cover("refused");
}

/// Clients that do not speak TLS
async fn plain_client() {
    vmc::deadline(Some(S(200)));
    let what = pick("peer", &["silent", "closes", "frame", "alert", "garbage", "half a hello"]);
    let l = bind::<TcpTls>("127.0.0.1:7000").await;
    vmc::explore(true);
    let mut p = Peer::connect(7000).await.unwrap();
    let u = l.accept().await.expect("accept");
    let h = tokio::spawn(async move {
        let t0 = vmc::now();
        let c = u.finalize(none()).await;
        (c.is_ok(), vmc::now() - t0)
    });
    match what {
        "closes" => p.close(),
        "frame" => p.send_frame(&body(1, 40)),
        "alert" => p.send_bytes(&[21, 3, 3, 0, 2, 2, 40]),
        "garbage" => p.send_bytes(&body(3, 300)),
        "half a hello" => p.send_bytes(&[22, 3, 1, 1, 0, 1, 0, 0, 0xfc, 3, 3]),
        _ => {}
    }
    let r = timeout(S(30), h).await;
    ensure!(r.is_some(), "hangs", "a client that is {what}: still accepting");
    let (ok, took) = r.unwrap().unwrap();
    ensure!(!ok, "accepted", "accepted a client that is {what}");
    ensure!(took <= S(15), "late", "{took:?}");
    vmc::cover("refused");
}

/// What goes over the wire does not show what is sent
async fn ciphertext(sizes: &[usize]) {
    vmc::deadline(Some(S(60)));
    let n = pick("size", sizes);
    let seg = pick("segment", &[0usize, 7]);
    let l = bind::<TcpTls>("127.0.0.1:7000").await;
    vmc::explore(true);
    let m = body(200, n);
    let m2 = m.clone();
    let ch = tokio::spawn(async move {
        let c = TcpTls::connect("127.0.0.1:7000", true, none()).await.expect("connect");
        c.send_message_raw(raw(&m2)).await.expect("send");
        let r = c.recv_message_raw().await.expect("receive");
        (c, r.to_vec())
    });
    let u = l.accept().await.expect("accept");
    let conn = tokio::net::sim::last_to(7000).unwrap();
    for d in 0..2 {
        conn.with(d, |h| {
            h.tap = Some(vec![]);
            h.segment = seg;
        });
    }
    let s = u.finalize(none()).await.expect("finalize");
    let r = s.recv_message_raw().await.expect("receive");
    ensure!(r.to_vec() == m, "payload", "another message arrives");
    s.send_message_raw(r).await.expect("send");
    let (_c, back) = ch.await.unwrap();
    ensure!(back == m, "payload", "another message comes back");
    for d in 0..2 {
        let tap = conn.with(d, |h| h.tap.clone().unwrap());
        ensure!(tap.len() > m.len(), "wire", "{} bytes on the wire for a message of {}", tap.len(), m.len());
        let w = m.len().min(8);
        let clear = m.windows(w).step_by(w).any(|x| tap.windows(w).any(|t| t == x));
        ensure!(!clear, "clear", "direction {d} shows the payload");
    }
    vmc::cover("encrypted");
}

fn t07(thorough: bool, v: &mut Vec<Scenario>) {
    v.push(Scenario::new("authority", (0, 1), || async { authority().await }));
    v.push(Scenario::new("listener authority", (0, 1), || async { listener_authority().await }));
    v.push(Scenario::new("plain server", (1, 2), || async { plain_server().await }));
    v.push(Scenario::new("plain client", (1, 2), || async { plain_client().await }));
    v.push(Scenario::new("ciphertext", (0, 1), || async { ciphertext(&[8, 24, 300, 20_000]).await }));
    let step = if thorough { 1 } else { 3 };
    v.push(Scenario::new("handshake cut", (0, 0), move || async move { handshake_cut(step).await }));
    let masks: &'static [u8] = if thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 0x80] };
    v.push(Scenario::new("tampered", (0, 0), move || async move { tampered(masks, 1).await }));
}
