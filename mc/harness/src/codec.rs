//! W*: the message codec.
use std::panic::{catch_unwind, AssertUnwindSafe};

use cdn_proto::message::*;
use vmc::explore::Scenario;

use crate::util::*;
use crate::{alloc, ensure};

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    match id {
        "W01" => {
            for k in 0..9 {
                v.push(Scenario::new(format!("round trip {k}"), (0, 0), move || async move { round_trip(k, thorough) }));
            }
            v.push(Scenario::new("very large", (0, 0), move || async move { very_large(thorough) }));
        }
        "W02" => {
            v.push(Scenario::new("short", (0, 0), move || async move { short(thorough) }));
            for k in 0..9 {
                v.push(Scenario::new(format!("truncate {k}"), (0, 0), move || async move { truncate(k) }));
                v.push(Scenario::new(format!("byte {k}"), (0, 0), move || async move { one_byte(k) }));
                v.push(Scenario::new(format!("two bytes {k}"), (0, 0), move || async move { two_bytes(k, thorough) }));
                v.push(Scenario::new(format!("word {k}"), (0, 0), move || async move { words(k) }));
            }
            v.push(Scenario::new("segment tables", (0, 0), move || async move { segments() }));
        }
        _ => {}
    }
}

fn fill(n: usize, pat: usize) -> Vec<u8> {
    match pat {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => body(7, n),
    }
}
fn u64s() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 5, 6, 7];
    for s in [8u32, 16, 31, 32, 48, 63] {
        v.extend([(1u64 << s) - 1, 1 << s, (1 << s) + 1]);
    }
    v.extend([u64::MAX - 1, u64::MAX]);
    v
}
fn lens(thorough: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 8191, 8192, 8193, 65_535, 65_536, 65_537, 100_001];
    if thorough {
        v.extend([1 << 20, (1 << 20) + 1, 9_999_999]);
    }
    v
}
fn topic_lists(thorough: bool) -> Vec<Vec<u8>> {
    let a = [0u8, 1, 2, 127, 128, 200, 254, 255];
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for x in a {
        v.push(vec![x]);
        for y in a {
            v.push(vec![x, y]);
            if thorough {
                for z in a {
                    v.push(vec![x, y, z]);
                }
            }
        }
    }
    v.push((0..=255).collect());
    v.push((0..=255).rev().collect());
    for n in [7, 8, 9, 255, 256, 257, 70_000] {
        v.push(body(3, n));
        v.push(vec![0; n]);
    }
    v
}
fn contexts() -> Vec<String> {
    let mut v: Vec<String> =
        ["", "a", "\0", "a\0b", "127.0.0.1:1738", "äöü€𝕏", "\u{10ffff}", "\n\r\t\"'", " "].iter().map(|s| s.to_string()).collect();
    for n in [7, 8, 9, 255, 65_536] {
        v.push("x".repeat(n));
        v.push("€".repeat(n));
    }
    v
}

fn same(m: &Message) {
    vmc::cases(1);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let b = m.serialize().map_err(|e| format!("encoding failed: {e:?}"))?;
        let d = Message::deserialize(&b).map_err(|e| format!("decoding failed: {e:?}"))?;
        Ok::<_, String>((d, b.len()))
    }));
    let short = || {
        let s = format!("{m:?}");
        s.chars().take(200).collect::<String>()
    };
    match r {
        Err(_) => vmc::fail("panic", format!("panic for {}: {}", short(), vmc::panic_message())),
        Ok(Err(e)) => vmc::fail("codec", format!("{e} for {}", short())),
        Ok(Ok((d, n))) => {
            ensure!(d == *m, "changed", "decoded differently: {}", short());
            vmc::outcome(n as u64);
        }
    }
}

fn round_trip(k: usize, thorough: bool) {
    let l = lens(thorough);
    match k {
        0 => {
            let a = pick("key length", &l);
            let t = u64s();
            for (i, b) in l.iter().enumerate() {
                for pat in 0..3 {
                    same(&Message::AuthenticateWithKey(AuthenticateWithKey {
                        public_key: fill(a, pat),
                        timestamp: t[(i * 3 + pat + a) % t.len()],
                        signature: fill(*b, (pat + 1) % 3),
                    }));
                }
            }
            for t in t {
                same(&Message::AuthenticateWithKey(AuthenticateWithKey { public_key: fill(a, 2), timestamp: t, signature: vec![9] }));
            }
        }
        1 => {
            let p = pick("permit", &u64s());
            same(&Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: p }));
        }
        2 => {
            let p = pick("permit", &u64s());
            for c in contexts() {
                same(&Message::AuthenticateResponse(AuthenticateResponse { permit: p, context: c }));
            }
        }
        3 => {
            let a = pick("recipient length", &l);
            for b in &l {
                for pat in 0..3 {
                    same(&Message::Direct(Direct { recipient: fill(a, pat), message: fill(*b, (pat + 1) % 3) }));
                }
            }
        }
        4 => {
            let t = pick("topics", &topic_lists(thorough));
            for b in &l {
                same(&Message::Broadcast(Broadcast { topics: t.clone(), message: fill(*b, b % 3) }));
            }
        }
        5 => same(&Message::Subscribe(pick("topics", &topic_lists(thorough)))),
        6 => same(&Message::Unsubscribe(pick("topics", &topic_lists(thorough)))),
        7 => {
            let a = pick("length", &l);
            for p in 0..3 {
                same(&Message::UserSync(fill(a, p)));
            }
        }
        _ => {
            let a = pick("length", &l);
            for p in 0..3 {
                same(&Message::TopicSync(fill(a, p)));
            }
        }
    }
}

/// Up to a few hundred megabytes in any field
fn very_large(thorough: bool) {
    let mut sizes = vec![1 << 20, (1 << 24) + 1, (70 << 20) + 3];
    if thorough {
        sizes.extend([(1 << 27) + 8, 300 << 20]);
    }
    let n = pick("size", &sizes);
    let (large, small) = (fill(n, n % 3), fill(5, 2));
    let m = match vmc::choose(11, "field") {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: large, timestamp: 3, signature: small }),
        1 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: small, timestamp: 3, signature: large }),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: 9, context: "x".repeat(n) }),
        3 => Message::Direct(Direct { recipient: large, message: small }),
        4 => Message::Direct(Direct { recipient: small, message: large }),
        5 => Message::Broadcast(Broadcast { topics: large, message: small }),
        6 => Message::Broadcast(Broadcast { topics: small, message: large }),
        7 => Message::Subscribe(large),
        8 => Message::Unsubscribe(large),
        9 => Message::UserSync(large),
        _ => Message::TopicSync(large),
    };
    let b = m.serialize();
    vmc::cases(1);
    let Ok(b) = b else { return vmc::fail("codec", format!("encoding fails, {n} bytes")) };
    let d = Message::deserialize(&b);
    drop(b);
    match d {
        Err(e) => vmc::fail("codec", format!("decoding fails, {n} bytes: {e:?}")),
        Ok(d) => ensure!(d == m, "changed", "decoded differently, {n} bytes"),
    }
}

pub fn example(k: usize) -> Message {
    match k {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: body(1, 11), timestamp: 0x0102_0304_0506, signature: body(2, 9) }),
        1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 0x1122_3344_5566 }),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: 77, context: "abc".into() }),
        3 => Message::Direct(Direct { recipient: body(1, 9), message: body(2, 10) }),
        4 => Message::Broadcast(Broadcast { topics: vec![0, 1], message: body(2, 10) }),
        5 => Message::Subscribe(vec![0, 1, 200]),
        6 => Message::Unsubscribe(vec![0, 1, 200]),
        7 => Message::UserSync(body(4, 12)),
        _ => Message::TopicSync(body(5, 12)),
    }
}

/// Decodes hostile bytes: a message or an error, in memory proportional to the input
fn hostile(b: &[u8]) -> bool {
    alloc::reset();
    vmc::cases(1);
    let r = catch_unwind(AssertUnwindSafe(|| Message::deserialize(b).map(|m| { let p = alloc::peak(); (m, p) })));
    let peak = alloc::peak();
    match r {
        Err(_) => {
            vmc::fail("panic", format!("decoding {b:?} panics: {}", vmc::panic_message()));
            false
        }
        Ok(r) => {
            ensure!(peak <= 64 * b.len() + 20_000, "memory", "decoding {} bytes took {peak} bytes: {b:?}", b.len());
            if let Ok((m, _)) = &r {
                vmc::outcome(m.serialize().map_or(0, |x| x.len() as u64));
            }
            r.is_ok()
        }
    }
}

fn short(thorough: bool) {
    hostile(&[]);
    let a = vmc::choose(256, "first byte") as u8;
    hostile(&[a]);
    for b in 0..=255u8 {
        hostile(&[a, b]);
        if thorough {
            for c in 0..=255u8 {
                hostile(&[a, b, c]);
            }
        }
    }
    for n in [3usize, 4, 7, 8, 9, 12, 16, 24, 64] {
        hostile(&vec![a; n]);
    }
}

fn truncate(k: usize) {
    let b = example(k).serialize().unwrap();
    let n = vmc::choose(b.len() + 1, "length");
    let ok = hostile(&b[..n]);
    ensure!(ok == (n == b.len()), "truncated", "{n} of {} bytes decode: {ok}", b.len());
    // zeros or ones instead of the rest, and more behind it
    for f in [0u8, 0xff, 1] {
        let mut x = b[..n].to_vec();
        x.resize(b.len(), f);
        hostile(&x);
        x.resize(b.len() + 40, f);
        hostile(&x);
    }
    hostile(&b[b.len() - n..]);
}

fn one_byte(k: usize) {
    let b = example(k).serialize().unwrap();
    let i = vmc::choose(b.len(), "position");
    for v in 0..=255u8 {
        let mut x = b.clone();
        x[i] = v;
        hostile(&x);
    }
}

pub const EDGE: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x7f, 0x80, 0xfe, 0xff];
fn two_bytes(k: usize, thorough: bool) {
    let b = example(k).serialize().unwrap();
    let lim = if thorough { b.len() } else { b.len().min(48) };
    let i = vmc::choose(lim, "position");
    for j in i + 1..lim {
        for v in 0..=255u8 {
            if !thorough && !EDGE.contains(&v) {
                continue;
            }
            for w in EDGE {
                let mut x = b.clone();
                x[i] = v;
                x[j] = w;
                hostile(&x);
            }
        }
    }
}

/// Replaces whole words (pointers) by hostile ones
fn words(k: usize) {
    let b = example(k).serialize().unwrap();
    let i = vmc::choose(b.len() / 8, "word") * 8;
    let mut ws: Vec<u64> = u64s();
    for low in [0u32, 1, 2, 3, 4, 5, 8, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff, 0x7fff_fffd, 0x8000_0001, 0xffff_fff9, 0xffff_ffed] {
        for high in [0u32, 1, 2, 3, 7, 8, 9, 10, 0x17, 0x1f, 0xffff_fff8, 0xffff_fff9, 0xffff_fffa, 0xffff_ffff, 0x0001_0000, 0xffff_0000, 0x0000_ffff, 0x0800_0002, 0x7fff_fffa] {
            ws.push(low as u64 | (high as u64) << 32);
        }
    }
    for w in &ws {
        let mut x = b.clone();
        x[i..i + 8].copy_from_slice(&w.to_le_bytes());
        hostile(&x);
        for j in (i + 8..b.len()).step_by(8) {
            for w2 in [0u64, 1, u64::MAX, 0x0000_000a_0000_0001, 0xffff_fffa_ffff_fffd, 0xffff_fff8_0000_0001] {
                let mut y = x.clone();
                y[j..j + 8].copy_from_slice(&w2.to_le_bytes());
                hostile(&y);
            }
        }
    }
}

/// Every small segment table in front of a body
fn segments() {
    let b = example(3).serialize().unwrap();
    let n = pick("segments", &[0u32, 1, 2, 3, 7, 255, 511, 512, 513, 0xffff, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]);
    for a in [0u32, 1, 2, 3, 13, 0xffff, 0x1fff_ffff, 0x2000_0000, 0x7fff_ffff, 0xffff_ffff] {
        for c in [0u32, 1, 2, 3, 0xffff, 0xffff_ffff] {
            for len in [0usize, 4, 8, 12, 16, 24, 64, 4096, 8192] {
                let mut x = n.to_le_bytes().to_vec();
                x.extend(a.to_le_bytes());
                x.extend(c.to_le_bytes());
                x.extend(c.to_le_bytes());
                while x.len() < len {
                    x.extend_from_slice(&b[8..]);
                }
                x.truncate(len);
                hostile(&x);
            }
        }
    }
}
