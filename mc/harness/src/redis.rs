//! A Redis (KeyDB) server of our own: the commands a discovery client may use, with their documented meaning, on the
//! virtual wall clock, one command or transaction at a time as the gate lets them through.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

use crate::gate::{at_gate, scratch, Verdict};

type Bytes = Vec<u8>;

#[derive(Clone, Debug)]
enum Val {
    Str(Bytes),
    /// With the time each member expires at
    Set(BTreeMap<Bytes, Option<i64>>),
    Hash(BTreeMap<Bytes, Bytes>),
}
#[derive(Clone, Debug)]
struct Entry {
    val: Val,
    expires: Option<i64>,
}
#[derive(Default)]
struct Db {
    keys: BTreeMap<Bytes, Entry>,
    versions: BTreeMap<Bytes, u64>,
}
enum Reply {
    Simple(&'static str),
    Err(String),
    Int(i64),
    Bulk(Bytes),
    Nil,
    Array(Vec<Reply>),
    NilArray,
}

struct Server {
    stop: Arc<AtomicBool>,
    path: String,
    accept: std::thread::JoinHandle<()>,
    conns: Arc<Mutex<Vec<UnixStream>>>,
}
static SERVER: Mutex<Option<Server>> = Mutex::new(None);
/// Commands that are not implemented: a check that needs them says nothing
pub static UNKNOWN: Mutex<Option<String>> = Mutex::new(None);

/// Nanoseconds
fn now() -> i64 {
    vmc::os::GLOBAL_REALTIME.load(Ordering::Relaxed)
}

/// Starts an empty server; the URL
pub fn start() -> String {
    stop();
    let path = format!("{}/redis", scratch());
    let _ = std::fs::remove_file(&path);
    let l = UnixListener::bind(&path).expect("bind");
    let stop = Arc::new(AtomicBool::new(false));
    let conns: Arc<Mutex<Vec<UnixStream>>> = Arc::default();
    let accept = std::thread::spawn({
        let (stop, conns) = (stop.clone(), conns.clone());
        move || {
            let db: Arc<Mutex<Db>> = Arc::default();
            while let Ok((c, _)) = l.accept() {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                conns.lock().unwrap().push(c.try_clone().expect("clone"));
                let db = db.clone();
                std::thread::spawn(move || {
                    let _ = serve(&c, &db);
                    let _ = c.shutdown(std::net::Shutdown::Both);
                });
            }
        }
    });
    let url = format!("redis+unix://{path}");
    *SERVER.lock().unwrap() = Some(Server { stop, path, accept, conns });
    url
}

pub fn stop() {
    if let Some(s) = SERVER.lock().unwrap().take() {
        s.stop.store(true, Ordering::SeqCst);
        for c in s.conns.lock().unwrap().drain(..) {
            let _ = c.shutdown(std::net::Shutdown::Both);
        }
        let _ = UnixStream::connect(&s.path);
        let _ = s.accept.join();
        let _ = std::fs::remove_file(&s.path);
    }
}

fn line(r: &mut impl BufRead) -> std::io::Result<String> {
    let mut s = String::new();
    if r.read_line(&mut s)? == 0 {
        return Err(std::io::ErrorKind::UnexpectedEof.into());
    }
    Ok(s.trim_end().to_string())
}
fn command(r: &mut impl BufRead) -> std::io::Result<Vec<Bytes>> {
    let l = line(r)?;
    let bad = || std::io::Error::from(std::io::ErrorKind::InvalidData);
    let n: usize = l.strip_prefix('*').and_then(|n| n.parse().ok()).ok_or_else(bad)?;
    let mut v = vec![];
    for _ in 0..n {
        let l = line(r)?;
        let len: usize = l.strip_prefix('$').and_then(|n| n.parse().ok()).ok_or_else(bad)?;
        let mut b = vec![0; len + 2];
        r.read_exact(&mut b)?;
        b.truncate(len);
        v.push(b);
    }
    Ok(v)
}
fn write(w: &mut Vec<u8>, r: &Reply) {
    match r {
        Reply::Simple(s) => w.extend(format!("+{s}\r\n").bytes()),
        Reply::Err(s) => w.extend(format!("-{s}\r\n").bytes()),
        Reply::Int(i) => w.extend(format!(":{i}\r\n").bytes()),
        Reply::Bulk(b) => {
            w.extend(format!("${}\r\n", b.len()).bytes());
            w.extend(b);
            w.extend(b"\r\n");
        }
        Reply::Nil => w.extend(b"$-1\r\n"),
        Reply::NilArray => w.extend(b"*-1\r\n"),
        Reply::Array(v) => {
            w.extend(format!("*{}\r\n", v.len()).bytes());
            for r in v {
                write(w, r);
            }
        }
    }
}
fn name(c: &[Bytes]) -> String {
    String::from_utf8_lossy(&c[0]).to_ascii_uppercase()
}
fn show(c: &[Bytes]) -> String {
    c.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>().join(" ")
}

fn serve(c: &UnixStream, db: &Mutex<Db>) -> std::io::Result<()> {
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c.try_clone()?);
    // a transaction, and whether a command in it was refused
    let mut multi: Option<(Vec<Vec<Bytes>>, bool)> = None;
    let mut watched: Vec<(Bytes, u64)> = vec![];
    loop {
        let c = command(&mut r)?;
        if c.is_empty() {
            continue;
        }
        let n = name(&c);
        let mut end = false;
        let reply = match n.as_str() {
            // of the connection only
            "CLIENT" | "SELECT" | "AUTH" | "READONLY" => Reply::Simple("OK"),
            "PING" => Reply::Simple("PONG"),
            "HELLO" => Reply::Err("NOPROTO unsupported protocol version".into()),
            "MULTI" if multi.is_none() => {
                multi = Some((vec![], false));
                Reply::Simple("OK")
            }
            "MULTI" => Reply::Err("ERR MULTI calls can not be nested".into()),
            "DISCARD" if multi.is_some() => {
                multi = None;
                watched.clear();
                Reply::Simple("OK")
            }
            "UNWATCH" => {
                watched.clear();
                Reply::Simple("OK")
            }
            "WATCH" => {
                let d = db.lock().unwrap();
                watched.extend(c[1..].iter().map(|k| (k.clone(), d.versions.get(k).copied().unwrap_or(0))));
                Reply::Simple("OK")
            }
            "EXEC" if multi.is_some() => {
                let (cs, refused) = multi.take().unwrap();
                let watch = std::mem::take(&mut watched);
                if refused {
                    Reply::Err("EXECABORT Transaction discarded because of previous errors.".into())
                } else {
                    match at_gate(|| format!("[{}]", cs.iter().map(|c| show(c)).collect::<Vec<_>>().join("; ")), false) {
                        v @ (Verdict::Go | Verdict::LostAfter) => {
                            end = v != Verdict::Go;
                            let mut d = db.lock().unwrap();
                            if watch.iter().any(|(k, v)| d.versions.get(k).copied().unwrap_or(0) != *v) {
                                Reply::NilArray
                            } else {
                                Reply::Array(cs.iter().map(|c| d.run(c)).collect())
                            }
                        }
                        Verdict::Fail => Reply::Err("ERR injected".into()),
                        _ => return Ok(()),
                    }
                }
            }
            _ if multi.is_some() => {
                let (v, refused) = multi.as_mut().unwrap();
                if known(&c) {
                    v.push(c);
                    Reply::Simple("QUEUED")
                } else {
                    *refused = true;
                    Reply::Err(unknown(&c))
                }
            }
            _ if !known(&c) => Reply::Err(unknown(&c)),
            _ => match at_gate(|| show(&c), false) {
                v @ (Verdict::Go | Verdict::LostAfter) => {
                    end = v != Verdict::Go;
                    db.lock().unwrap().run(&c)
                }
                Verdict::Fail => Reply::Err("ERR injected".into()),
                _ => return Ok(()),
            },
        };
        if end {
            return Ok(());
        }
        let mut out = vec![];
        write(&mut out, &reply);
        w.write_all(&out)?;
    }
}

const COMMANDS: [&str; 48] = [
    "GET", "SET", "SETEX", "PSETEX", "SETNX", "GETDEL", "GETSET", "GETEX", "DEL", "UNLINK", "EXISTS", "EXPIRE", "PEXPIRE",
    "EXPIREAT", "PEXPIREAT", "TTL", "PTTL", "PERSIST", "INCR", "INCRBY", "DECR", "DECRBY", "MGET", "MSET", "SADD", "SREM",
    "SMEMBERS", "SISMEMBER", "SMISMEMBER", "SCARD", "SDIFFSTORE", "SUNIONSTORE", "SINTERSTORE", "SMOVE", "EXPIREMEMBER",
    "PEXPIREMEMBERAT", "EXPIREMEMBERAT", "RENAME", "KEYS", "SCAN", "HSET", "HGET", "HGETALL", "HDEL", "HEXISTS", "HLEN", "TYPE",
    "STRLEN",
];
fn known(c: &[Bytes]) -> bool {
    let n = name(c);
    COMMANDS.contains(&n.as_str())
}
fn unknown(c: &[Bytes]) -> String {
    *UNKNOWN.lock().unwrap() = Some(show(c));
    format!("ERR unknown command `{}`", name(c))
}

fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some((b'*', rest)) => (0..=s.len()).any(|i| glob(rest, &s[i..])),
        Some((b'?', rest)) => !s.is_empty() && glob(rest, &s[1..]),
        Some((b'\\', rest)) if !rest.is_empty() => s.first() == Some(&rest[0]) && glob(&rest[1..], &s[1..]),
        Some((b'[', rest)) => {
            let Some(end) = rest.iter().position(|c| *c == b']') else { return false };
            let (class, rest) = (&rest[..end], &rest[end + 1..]);
            let (neg, class) = class.strip_prefix(b"^").map_or((false, class), |c| (true, c));
            !s.is_empty() && (class.contains(&s[0]) != neg) && glob(rest, &s[1..])
        }
        Some((c, rest)) => s.first() == Some(c) && glob(rest, &s[1..]),
    }
}

const WRONG: &str = "WRONGTYPE Operation against a key holding the wrong kind of value";
fn int(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

impl Db {
    /// Removes what has expired
    fn expire(&mut self) {
        let now = now();
        let mut changed = vec![];
        self.keys.retain(|k, e| {
            if let Val::Set(s) = &mut e.val {
                s.retain(|_, t| !t.is_some_and(|t| t < now));
            }
            let empty = match &e.val {
                Val::Set(s) => s.is_empty(),
                Val::Hash(h) => h.is_empty(),
                Val::Str(_) => false,
            };
            let gone = empty || e.expires.is_some_and(|t| t < now);
            if gone {
                changed.push(k.clone());
            }
            !gone
        });
        for k in changed {
            *self.versions.entry(k).or_default() += 1;
        }
    }
    fn set(&mut self, k: &Bytes) -> Result<Option<&mut BTreeMap<Bytes, Option<i64>>>, String> {
        match self.keys.get_mut(k) {
            None => Ok(None),
            Some(Entry { val: Val::Set(s), .. }) => Ok(Some(s)),
            _ => Err(WRONG.into()),
        }
    }
    fn str(&self, k: &Bytes) -> Result<Option<Bytes>, String> {
        match self.keys.get(k) {
            None => Ok(None),
            Some(Entry { val: Val::Str(s), .. }) => Ok(Some(s.clone())),
            _ => Err(WRONG.into()),
        }
    }
    fn hash(&mut self, k: &Bytes) -> Result<Option<&mut BTreeMap<Bytes, Bytes>>, String> {
        match self.keys.get_mut(k) {
            None => Ok(None),
            Some(Entry { val: Val::Hash(s), .. }) => Ok(Some(s)),
            _ => Err(WRONG.into()),
        }
    }

    fn run(&mut self, c: &[Bytes]) -> Reply {
        self.expire();
        let r = self.command(c).unwrap_or_else(Reply::Err);
        self.expire();
        // an over-approximation of what a watching client is told
        if !matches!(name(c).as_str(), "GET" | "SMEMBERS" | "SCARD" | "SISMEMBER" | "EXISTS" | "TTL" | "PTTL" | "KEYS" | "SCAN") {
            for k in &c[1..] {
                *self.versions.entry(k.clone()).or_default() += 1;
            }
        }
        r
    }

    #[allow(clippy::too_many_lines)]
    fn command(&mut self, c: &[Bytes]) -> Result<Reply, String> {
        let n = name(c);
        let arity = || format!("ERR wrong number of arguments for '{}' command", n.to_lowercase());
        let min = match n.as_str() {
            "SET" | "GETSET" | "SETNX" | "SADD" | "SREM" | "SISMEMBER" | "SMISMEMBER" | "EXPIRE" | "PEXPIRE" | "EXPIREAT"
            | "PEXPIREAT" | "INCRBY" | "DECRBY" | "RENAME" | "HGET" | "HDEL" | "HEXISTS" | "MSET" | "SDIFFSTORE"
            | "SUNIONSTORE" | "SINTERSTORE" => 3,
            "SETEX" | "PSETEX" | "EXPIREMEMBER" | "EXPIREMEMBERAT" | "PEXPIREMEMBERAT" | "HSET" | "SMOVE" => 4,
            _ => 2,
        };
        if c.len() < min {
            return Err(arity());
        }
        let exact = matches!(
            n.as_str(),
            "GET" | "GETSET" | "SETNX" | "GETDEL" | "SMEMBERS" | "SCARD" | "SISMEMBER" | "SETEX" | "PSETEX" | "TTL" | "PTTL"
                | "PERSIST" | "INCR" | "DECR" | "INCRBY" | "DECRBY" | "RENAME" | "KEYS" | "HGET" | "HGETALL" | "HEXISTS" | "HLEN"
                | "SMOVE" | "TYPE" | "STRLEN"
        );
        if exact && c.len() != min {
            return Err(arity());
        }
        let k = c[1].clone();
        let now = now();
        let num = |b: &Bytes| int(b).ok_or_else(|| "ERR value is not an integer or out of range".to_string());
        let positive = |b: &Bytes| {
            let v = num(b)?;
            if v <= 0 {
                return Err(format!("ERR invalid expire time in '{}' command", n.to_lowercase()));
            }
            Ok(v)
        };
        const S: i64 = 1_000_000_000;
        const M: i64 = 1_000_000;
        let bulk = |o: Option<Bytes>| o.map_or(Reply::Nil, Reply::Bulk);
        Ok(match n.as_str() {
            "GET" => bulk(self.str(&k)?),
            "STRLEN" => Reply::Int(self.str(&k)?.map_or(0, |s| s.len() as i64)),
            "TYPE" => Reply::Simple(match self.keys.get(&k).map(|e| &e.val) {
                None => "none",
                Some(Val::Str(_)) => "string",
                Some(Val::Set(_)) => "set",
                Some(Val::Hash(_)) => "hash",
            }),
            "SET" => {
                let (mut nx, mut xx, mut get, mut keep, mut expires) = (false, false, false, false, None);
                let mut i = 3;
                while i < c.len() {
                    let o = String::from_utf8_lossy(&c[i]).to_ascii_uppercase();
                    let arg = || c.get(i + 1).ok_or_else(|| "ERR syntax error".to_string());
                    match o.as_str() {
                        "NX" => nx = true,
                        "XX" => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" => keep = true,
                        "EX" => expires = Some(now + positive(arg()?)? * S),
                        "PX" => expires = Some(now + positive(arg()?)? * M),
                        "EXAT" => expires = Some(positive(arg()?)? * S),
                        "PXAT" => expires = Some(positive(arg()?)? * M),
                        _ => return Err("ERR syntax error".into()),
                    }
                    i += if matches!(o.as_str(), "EX" | "PX" | "EXAT" | "PXAT") { 2 } else { 1 };
                }
                let old = if get { self.str(&k)? } else { None };
                let there = self.keys.contains_key(&k);
                let done = !(nx && there || xx && !there);
                if done {
                    if keep {
                        expires = self.keys.get(&k).and_then(|e| e.expires);
                    }
                    self.keys.insert(k, Entry { val: Val::Str(c[2].clone()), expires });
                }
                if get {
                    bulk(old)
                } else if done {
                    Reply::Simple("OK")
                } else {
                    Reply::Nil
                }
            }
            "SETEX" | "PSETEX" => {
                let t = positive(&c[2])? * if n == "SETEX" { S } else { M };
                self.keys.insert(k, Entry { val: Val::Str(c[3].clone()), expires: Some(now + t) });
                Reply::Simple("OK")
            }
            "SETNX" => {
                if self.keys.contains_key(&k) {
                    Reply::Int(0)
                } else {
                    self.keys.insert(k, Entry { val: Val::Str(c[2].clone()), expires: None });
                    Reply::Int(1)
                }
            }
            "MSET" => {
                if c.len() % 2 == 0 {
                    return Err(arity());
                }
                for p in c[1..].chunks(2) {
                    self.keys.insert(p[0].clone(), Entry { val: Val::Str(p[1].clone()), expires: None });
                }
                Reply::Simple("OK")
            }
            "MGET" => Reply::Array(c[1..].iter().map(|k| bulk(self.str(k).ok().flatten())).collect()),
            "GETSET" => {
                let old = self.str(&k)?;
                self.keys.insert(k, Entry { val: Val::Str(c[2].clone()), expires: None });
                bulk(old)
            }
            "GETDEL" => {
                let old = self.str(&k)?;
                self.keys.remove(&k);
                bulk(old)
            }
            "GETEX" => {
                let old = self.str(&k)?;
                if let (Some(o), Some(e)) = (c.get(2), self.keys.get_mut(&k)) {
                    match (String::from_utf8_lossy(o).to_ascii_uppercase().as_str(), c.get(3)) {
                        ("EX", Some(t)) => e.expires = Some(now + positive(t)? * S),
                        ("PX", Some(t)) => e.expires = Some(now + positive(t)? * M),
                        ("PERSIST", None) => e.expires = None,
                        _ => return Err("ERR syntax error".into()),
                    }
                }
                bulk(old)
            }
            "DEL" | "UNLINK" => Reply::Int(c[1..].iter().filter(|k| self.keys.remove(*k).is_some()).count() as i64),
            "EXISTS" => Reply::Int(c[1..].iter().filter(|k| self.keys.contains_key(*k)).count() as i64),
            "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" => {
                let v = num(&c[2])?;
                let t = match n.as_str() {
                    "EXPIRE" => now + v * S,
                    "PEXPIRE" => now + v * M,
                    "EXPIREAT" => v * S,
                    _ => v * M,
                };
                match self.keys.get_mut(&k) {
                    None => Reply::Int(0),
                    Some(_) if t <= now => {
                        self.keys.remove(&k);
                        Reply::Int(1)
                    }
                    Some(e) => {
                        e.expires = Some(t);
                        Reply::Int(1)
                    }
                }
            }
            "TTL" | "PTTL" => Reply::Int(match self.keys.get(&k) {
                None => -2,
                Some(Entry { expires: None, .. }) => -1,
                Some(Entry { expires: Some(t), .. }) => (t - now) / if n == "TTL" { S } else { M },
            }),
            "PERSIST" => Reply::Int(self.keys.get_mut(&k).and_then(|e| e.expires.take()).is_some() as i64),
            "INCR" | "DECR" | "INCRBY" | "DECRBY" => {
                let by = if n.ends_with("BY") { num(&c[2])? } else { 1 };
                let old = self.str(&k)?.map_or(Ok(0), |s| num(&s))?;
                let new = if n.starts_with("INCR") { old + by } else { old - by };
                let expires = self.keys.get(&k).and_then(|e| e.expires);
                self.keys.insert(k, Entry { val: Val::Str(new.to_string().into_bytes()), expires });
                Reply::Int(new)
            }
            "SADD" => {
                self.set(&k)?;
                let e = self.keys.entry(k).or_insert(Entry { val: Val::Set(BTreeMap::new()), expires: None });
                let Val::Set(s) = &mut e.val else { unreachable!() };
                let mut added = 0;
                for m in &c[2..] {
                    if !s.contains_key(m) {
                        s.insert(m.clone(), None);
                        added += 1;
                    }
                }
                Reply::Int(added)
            }
            "SREM" => {
                let s = self.set(&k)?;
                Reply::Int(s.map_or(0, |s| c[2..].iter().filter(|m| s.remove(*m).is_some()).count() as i64))
            }
            "SMEMBERS" => {
                let s = self.set(&k)?;
                Reply::Array(s.map_or(vec![], |s| s.keys().map(|m| Reply::Bulk(m.clone())).collect()))
            }
            "SISMEMBER" => {
                let s = self.set(&k)?;
                Reply::Int(s.is_some_and(|s| s.contains_key(&c[2])) as i64)
            }
            "SMISMEMBER" => {
                let s = self.set(&k)?.cloned().unwrap_or_default();
                Reply::Array(c[2..].iter().map(|m| Reply::Int(s.contains_key(m) as i64)).collect())
            }
            "SCARD" => {
                let s = self.set(&k)?;
                Reply::Int(s.map_or(0, |s| s.len() as i64))
            }
            "SMOVE" => {
                self.set(&c[2].clone())?;
                match self.set(&k)?.and_then(|s| s.remove(&c[3])) {
                    None => Reply::Int(0),
                    Some(_) => {
                        let e = self.keys.entry(c[2].clone()).or_insert(Entry { val: Val::Set(BTreeMap::new()), expires: None });
                        let Val::Set(s) = &mut e.val else { unreachable!() };
                        s.insert(c[3].clone(), None);
                        Reply::Int(1)
                    }
                }
            }
            "SDIFFSTORE" | "SUNIONSTORE" | "SINTERSTORE" => {
                let mut sets = vec![];
                for k in &c[2..] {
                    sets.push(self.set(k)?.map_or(BTreeSet::new(), |s| s.keys().cloned().collect()));
                }
                let mut r = sets[0].clone();
                for s in &sets[1..] {
                    r = match n.as_str() {
                        "SDIFFSTORE" => r.difference(s).cloned().collect(),
                        "SUNIONSTORE" => r.union(s).cloned().collect(),
                        _ => r.intersection(s).cloned().collect(),
                    };
                }
                self.keys.remove(&k);
                let len = r.len() as i64;
                if len > 0 {
                    let s = r.into_iter().map(|m| (m, None)).collect();
                    self.keys.insert(k, Entry { val: Val::Set(s), expires: None });
                }
                Reply::Int(len)
            }
            // KeyDB: EXPIREMEMBER key subkey delay [unit]
            "EXPIREMEMBER" | "EXPIREMEMBERAT" | "PEXPIREMEMBERAT" => {
                let v = num(&c[3])?;
                let t = match (n.as_str(), c.get(4).map(|u| u.to_ascii_lowercase())) {
                    ("EXPIREMEMBER", None) => now + v * S,
                    ("EXPIREMEMBER", Some(u)) if u == b"s" => now + v * S,
                    ("EXPIREMEMBER", Some(u)) if u == b"ms" => now + v * M,
                    ("EXPIREMEMBERAT", None) => v * S,
                    ("PEXPIREMEMBERAT", None) => v * M,
                    _ => return Err("ERR Invalid unit arg".into()),
                };
                match self.set(&k)? {
                    Some(s) if s.contains_key(&c[2]) => {
                        s.insert(c[2].clone(), Some(t));
                        Reply::Int(1)
                    }
                    _ => Reply::Int(0),
                }
            }
            "RENAME" => match self.keys.remove(&k) {
                None => return Err("ERR no such key".into()),
                Some(e) => {
                    self.keys.insert(c[2].clone(), e);
                    Reply::Simple("OK")
                }
            },
            "KEYS" => Reply::Array(self.keys.keys().filter(|x| glob(&k, x)).map(|k| Reply::Bulk(k.clone())).collect()),
            "SCAN" => {
                let p = c.iter().position(|a| a.eq_ignore_ascii_case(b"MATCH")).and_then(|i| c.get(i + 1)).cloned();
                let p = p.unwrap_or_else(|| b"*".to_vec());
                let v = self.keys.keys().filter(|x| glob(&p, x)).map(|k| Reply::Bulk(k.clone())).collect();
                Reply::Array(vec![Reply::Bulk(b"0".to_vec()), Reply::Array(v)])
            }
            "HSET" => {
                if c.len() % 2 != 0 {
                    return Err(arity());
                }
                self.hash(&k)?;
                let e = self.keys.entry(k).or_insert(Entry { val: Val::Hash(BTreeMap::new()), expires: None });
                let Val::Hash(h) = &mut e.val else { unreachable!() };
                let mut added = 0;
                for p in c[2..].chunks(2) {
                    added += h.insert(p[0].clone(), p[1].clone()).is_none() as i64;
                }
                Reply::Int(added)
            }
            "HGET" => bulk(self.hash(&k)?.and_then(|h| h.get(&c[2]).cloned())),
            "HGETALL" => {
                let h = self.hash(&k)?.cloned().unwrap_or_default();
                Reply::Array(h.into_iter().flat_map(|(k, v)| [Reply::Bulk(k), Reply::Bulk(v)]).collect())
            }
            "HDEL" => {
                let h = self.hash(&k)?;
                Reply::Int(h.map_or(0, |h| c[2..].iter().filter(|f| h.remove(*f).is_some()).count() as i64))
            }
            "HEXISTS" => Reply::Int(self.hash(&k)?.is_some_and(|h| h.contains_key(&c[2])) as i64),
            "HLEN" => Reply::Int(self.hash(&k)?.map_or(0, |h| h.len() as i64)),
            _ => return Err(unknown(c)),
        })
    }
}
