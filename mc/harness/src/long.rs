//! Long lives: what only shows after many hours, or after the same thing has happened very many times
use std::collections::{BTreeMap, BTreeSet};

use cdn_proto::connection::protocols::{Listener as _, Protocol, UnfinalizedConnection as _};
use cdn_proto::crypto::signature::Namespace;
use cdn_proto::message::Message;
use vmc::explore::Scenario;

use crate::cluster::*;
use crate::def::{Memory, Tcp, TcpTls, WIRE};
use crate::disc::store;
use crate::ensure;
use crate::front;
use crate::peer::Peer;
use crate::util::*;

pub fn register(id: &str, thorough: bool, v: &mut Vec<Scenario>) {
    macro_rules! sc {
        ($name:expr, $f:expr) => {
            v.push(Scenario::new($name, (0, 0), move || async move { $f.await }).steps(200_000_000))
        };
    }
    let (n, hours): (usize, usize) = if thorough { (240, 4000) } else { (14, 26) };
    match id {
        "R01" => sc!("days", days(false, hours)),
        "R02" => sc!("days", days(true, hours)),
        "R04" => sc!("days", days_of_topics(hours)),
        "M01" => sc!("many sessions", many_sessions(300 * n)),
        "M02" => sc!("many moves", many_moves(300 * n, true)),
        "M03" => sc!("many moves", many_moves(300 * n, false)),
        "M04" => sc!("many changes", many_changes(300 * n)),
        "M05" => sc!("many ends", many_ends(300 * n)),
        "M07" => {
            sc!("days", mesh_days(hours));
            sc!("many losses", many_losses(50 * n));
        }
        "M08" => sc!("days", whitelist_days(hours)),
        "M09" => sc!("days", running_days(hours)),
        "A01" => sc!("many openings", many_openings(300 * n)),
        "A02" => sc!("many sessions", many_admissions(300 * n)),
        "A03" => sc!("many links", many_links(50 * n)),
        "K01" => sc!("days", client_days(hours)),
        "T06" => {
            sc!("many tcp", many_pairs::<Tcp>(300 * n));
            sc!("many memory", many_pairs::<Memory>(300 * n));
            sc!("many tls", many_pairs::<TcpTls>(30 * n));
        }
        _ => {}
    }
}

async fn hour() {
    vmc::sleep(S(3600)).await;
    vmc::settle().await;
}
async fn arrive() {
    for _ in 0..3 {
        vmc::settle().await;
    }
}

// --------------------------------------------------------------------------------------------------------------- R

/// Sessions that last for days are served as on the first hour
async fn days(broad: bool, hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    vmc::explore(true);
    let brokers = pick("brokers", &[1u16, 2]);
    vmc::explore(false);
    let _m = mesh(brokers).await;
    let mut us = vec![];
    for k in 1..=4u64 {
        us.push(login(1 + (k % u64::from(brokers)) as u16, k, &[(k % 2) as u8]).await);
    }
    exchange().await;
    for h in 0..hours {
        for s in 0..4usize {
            let m = [h as u8, s as u8];
            if broad {
                us[s].broadcast(&[(h % 2) as u8], &m);
            } else {
                us[s].direct(1 + (s as u64 + h as u64) % 4, &m);
            }
            arrive().await;
            for (i, u) in us.iter_mut().enumerate() {
                ensure!(!u.closed(), "ended", "user {} after {h} hours", u.key);
                let g: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
                let mine = if broad { u.key % 2 == h as u64 % 2 } else { i == (s + h) % 4 };
                let w: Vec<Vec<u8>> = if mine { vec![m.to_vec()] } else { vec![] };
                ensure!(g == w, "delivery", "user {} gets {g:?} from {} after {h} hours", u.key, s + 1);
            }
        }
        vmc::cases(4);
        hour().await;
    }
    vmc::cover("days");
}

/// Subscriptions last for days
async fn days_of_topics(hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    let _m = mesh(2).await;
    let mut a = login(1, 1, &[]).await;
    let mut b = login(2, 2, &[130]).await;
    let mut subs = BTreeSet::from([130u8]);
    for h in 0..hours {
        if h % 5 == 1 {
            let t = crate::def::VALID_TOPICS[h / 5 % 4];
            if subs.insert(t) {
                b.subscribe(&[t]);
            } else {
                subs.remove(&t);
                b.unsubscribe(&[t]);
            }
        }
        exchange().await;
        for t in crate::def::VALID_TOPICS {
            a.broadcast(&[t], &[t]);
            arrive().await;
            let g = b.take().len();
            ensure!(g == usize::from(subs.contains(&t)), "subscriptions", "{g} of topic {t} after {h} hours, with {subs:?}");
        }
        ensure!(!b.closed(), "ended", "after {h} hours");
        hour().await;
    }
    vmc::cover("days");
}

// --------------------------------------------------------------------------------------------------------------- M

/// One user, again and again at the same broker
async fn many_sessions(n: usize) {
    vmc::deadline(Some(S(100 * n as u64)));
    let _m = mesh(2).await;
    let mut far = login(2, 9, &[]).await;
    let mut near = login(1, 8, &[]).await;
    exchange().await;
    let mut u = login(1, 1, &[0]).await;
    for i in 0..n {
        let t = (i % 3) as u8;
        let mut old = std::mem::replace(&mut u, login(1, 1, &[t]).await);
        arrive().await;
        ensure!(old.closed(), "old session", "is still there: number {i}");
        if i % 10 == 9 {
            exchange().await;
        }
        near.direct(1, b"d");
        near.broadcast(&[0, 1], b"b");
        if i > 10 {
            far.direct(1, b"f");
        }
        arrive().await;
        let g = u.take().len();
        let w = 1 + usize::from(t < 2) + usize::from(i > 10);
        ensure!(!u.closed() && g == w, "new session", "number {i} with topic {t} gets {g} instead of {w}");
        ensure!(old.take().is_empty(), "old session", "is served: number {i}");
    }
    vmc::cover("many");
}

/// One user moves around, very often
async fn many_moves(n: usize, topics: bool) {
    vmc::deadline(Some(S(100 * n as u64)));
    let _m = mesh(3).await;
    let mut ps = vec![];
    for b in 1..=3u16 {
        ps.push(login(b, 90 + u64::from(b), &[]).await);
    }
    let t: &[u8] = if topics { &[1] } else { &[] };
    let mut at = 1u16;
    let mut u = Some(login(at, 1, t).await);
    exchange().await;
    for i in 0..n {
        // sometimes it is away for a while
        if i % 7 == 3 {
            u = None;
            exchange().await;
            for p in &mut ps {
                p.direct(1, b"away");
            }
            arrive().await;
        }
        if i % 5 != 4 {
            at = 1 + (at + (i % 2) as u16) % 3;
        }
        let old = u.replace(login(at, 1, t).await);
        exchange().await;
        if let Some(mut o) = old {
            ensure!(o.closed(), "old session", "at broker {} after {i} moves", o.b);
        }
        let Some(x) = &mut u else { return };
        for p in &mut ps {
            p.direct(1, b"x");
        }
        ps[i % 3].broadcast(&[1], b"y");
        arrive().await;
        let g = x.take().len();
        ensure!(!x.closed(), "ended", "the session at broker {at} after {i} moves");
        ensure!(g == 3 + usize::from(topics), "not found", "at broker {at} after {i} moves: {g} messages");
        vmc::cases(1);
    }
    for p in &mut ps {
        ensure!(!p.closed() && p.take().is_empty(), "others", "user {}", p.key);
    }
    vmc::cover("many");
}

/// One topic comes and goes, very often
async fn many_changes(n: usize) {
    vmc::deadline(Some(S(200 * n as u64)));
    vmc::explore(true);
    let how = vmc::choose(3, "requests, sessions, with losses");
    vmc::explore(false);
    let _m = mesh(2).await;
    let mut a = login(1, 1, &[]).await;
    let mut x = login(2, 2, &[1]).await;
    let mut b = Some(login(2, 3, &[0]).await);
    exchange().await;
    let mut on = true;
    for i in 0..n {
        if i % 9 != 7 {
            on = !on;
            match (how, on) {
                (1, true) => b = Some(login(2, 3, &[0]).await),
                (1, false) => b = None,
                (_, true) => b.as_mut().unwrap().subscribe(&[0]),
                (_, false) => b.as_mut().unwrap().unsubscribe(&[0]),
            }
        }
        if how == 2 && i % 4 == 1 {
            if let Some(l) = link(1, 2) {
                l.cut();
            }
        }
        exchange().await;
        WIRE.with(|w| *w.borrow_mut() = Some(vec![]));
        a.broadcast(&[0], b"0");
        a.broadcast(&[1], b"1");
        arrive().await;
        let l = WIRE.with(|w| w.borrow_mut().take()).unwrap_or_default();
        let sent = |what: &[u8]| l.iter().filter(|(g, from_broker, m)| *g == 2 && *from_broker && payload(m) == what).count();
        ensure!(sent(b"0") == usize::from(on), "forwarded", "topic 0 {} times after {i} changes, wanted: {on}", sent(b"0"));
        ensure!(sent(b"1") == 1, "forwarded", "topic 1 {} times after {i} changes of topic 0", sent(b"1"));
        let g = b.as_mut().map_or(0, |b| b.take().len());
        ensure!(g == usize::from(on), "delivered", "{g} after {i} changes");
        ensure!(x.take().len() == 1, "delivered", "topic 1 after {i} changes");
        vmc::cases(1);
    }
    vmc::cover("many");
}

/// Sessions end in every way, very often; the counts stay right
async fn many_ends(n: usize) {
    vmc::deadline(Some(S(200 * n as u64)));
    let g0 = gauge("num_users_connected");
    let _m = mesh(2).await;
    let mut a = login(1, 1, &[]).await;
    let mut stay = login(1, 2, &[0]).await;
    let mut u: BTreeMap<u64, User> = BTreeMap::new();
    for i in 0..n {
        let k = 10 + (i % 3) as u64;
        match i % 8 {
            0 | 4 => drop(u.insert(k, login(1, k, &[0]).await)),
            1 => {
                if let Some(x) = u.remove(&k) {
                    x.p.conn.cut();
                }
            }
            2 => {
                u.insert(k, login(1, k, &[0]).await);
                // and again, at once
                u.insert(k, login(1, k, &[1]).await);
            }
            3 => drop(u.remove(&k)),
            5 => {
                if let Some(x) = u.get_mut(&k) {
                    x.send(&Message::TopicSync(vec![]));
                }
                u.remove(&k);
            }
            6 => {
                // somewhere else, and gone from there
                u.remove(&k);
                drop(login(2, k, &[0]).await);
            }
            _ => {
                if let Some(mut x) = u.insert(k, login(1, k, &[0, 1]).await) {
                    x.direct(1, b"late");
                }
            }
        }
        vmc::settle().await;
        if i % 4 == 3 {
            exchange().await;
            let reported = store(|s| s.brokers.get(&ident(1)).map_or(999, |x| x.0));
            ensure!(reported == u.len() as u64 + 2, "load", "{reported} instead of {} after {i} ends", u.len() + 2);
        }
        arrive().await;
        let m = gauge("num_users_connected") - g0;
        ensure!(m == u.len() as i64 + 2, "metric", "{m} instead of {} after {i} ends", u.len() + 2);
        for k in 10..13 {
            a.direct(k, b"x");
        }
        arrive().await;
        for (k, x) in &mut u {
            let g = x.take().len();
            ensure!(g == 1 && !x.closed(), "served", "user {k} gets {g} after {i} ends");
        }
    }
    ensure!(!stay.closed() && !a.closed() && stay.take().is_empty(), "others", "");
    vmc::cover("many");
}

/// Brokers that are left alone for days stay linked and registered
async fn mesh_days(hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    vmc::explore(true);
    let n = pick("brokers", &[2u16, 3]);
    vmc::explore(false);
    let nodes = mesh(n).await;
    for h in 0..hours {
        for minute in 0..60 {
            vmc::sleep(S(60)).await;
            for b in 1..=n {
                let listed = store(|s| s.brokers.get(&ident(b)).is_some_and(|x| x.1 >= vmc::now()));
                ensure!(listed, "not registered", "broker {b} after {h} hours and {minute} minutes");
            }
        }
        vmc::settle().await;
        let ctx = format!("after {h} hours");
        crate::mesh::meshed(&(1..=n).collect::<Vec<_>>(), &ctx).await;
        for x in &nodes {
            ensure!(x.running(), "stopped", "broker {}: {ctx}", x.n);
        }
        // from time to time a link breaks
        if h % 6 == 2 {
            if let Some(l) = link(1, n) {
                l.cut();
            }
        }
    }
    vmc::cover("days");
}

/// A link breaks very often
async fn many_losses(n: usize) {
    vmc::deadline(Some(S(200 * n as u64)));
    vmc::explore(true);
    let how = vmc::choose(3, "cut, vanish, both at once");
    vmc::explore(false);
    let nodes = mesh(3).await;
    for i in 0..n {
        if let Some(l) = link(1, 2) {
            if how == 1 {
                l.vanish();
                // it takes a message to notice
                vmc::sleep(S(20)).await;
                l.cut();
            } else {
                l.cut();
            }
        }
        if how == 2 {
            for b in [1, 2] {
                if let Some(l) = link(b, 3) {
                    l.cut();
                }
            }
        }
        exchange().await;
        if i % 5 == 4 {
            crate::mesh::meshed(&[1, 2, 3], &format!("after {i} losses")).await;
        }
        for x in &nodes {
            ensure!(x.running(), "stopped", "broker {} after {i} losses", x.n);
        }
    }
    vmc::cover("many");
}

async fn whitelist_days(hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    let _m = mesh(1).await;
    let white = |ks: &[u64]| store(|s| s.whitelist = Some(ks.iter().map(|k| crate::def::pk(*k).into()).collect()));
    white(&(1..40).collect::<Vec<_>>());
    let mut us: BTreeMap<u64, User> = BTreeMap::new();
    for k in 1..40 {
        us.insert(k, login(1, k, &[0]).await);
    }
    for h in 0..hours as u64 {
        hour().await;
        for u in us.values_mut() {
            ensure!(!u.closed(), "evicted", "user {} after {h} hours", u.key);
        }
        if us.len() > 1 {
            // one loses its place
            let k = *us.keys().next().unwrap();
            let mut gone = us.remove(&k).unwrap();
            white(&us.keys().copied().collect::<Vec<_>>());
            vmc::sleep(S(68)).await;
            vmc::settle().await;
            ensure!(gone.closed(), "still there", "user {k} after {h} hours");
        }
    }
    vmc::cover("days");
}

async fn running_days(hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    let nodes = mesh(2).await;
    for h in 0..hours {
        let mut u = login(1 + (h % 2) as u16, 1, &[0]).await;
        exchange().await;
        u.direct(1, b"x");
        arrive().await;
        ensure!(u.take().len() == 1, "not served", "after {h} hours");
        for x in &nodes {
            ensure!(x.running(), "stopped", "broker {} after {h} hours", x.n);
        }
        drop(u);
        hour().await;
    }
    vmc::cover("days");
}

// --------------------------------------------------------------------------------------------------------------- A

/// Openings to one marshal, one after the other: good ones and others
async fn many_openings(n: usize) {
    vmc::deadline(Some(S(20 * n as u64)));
    let _b = mesh(1).await;
    let _m = start_marshal().await;
    store(|s| s.whitelist = Some((1..=5).map(|k| crate::def::pk(k).into()).collect()));
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let key = 1 + (i % 7) as u64;
        let wrong = i % 4 == 3;
        let mut p = Peer::connect(MARSHAL).await.expect("connect");
        let t = if wrong { wall() - 6 } else { wall() };
        let before: BTreeSet<u64> = store(|s| s.permits.keys().copied().collect());
        p.send(&auth_key(key, Namespace::UserMarshalAuth, t));
        arrive().await;
        let r = p.recv();
        let Some(Message::AuthenticateResponse(r)) = r.first() else {
            vmc::fail("no answer", format!("opening {i}: {r:?}"));
            return;
        };
        let good = key <= 5 && !wrong;
        ensure!((r.permit > 1) == good, "decision", "opening {i} of user {key}: {}", r.permit);
        let new: Vec<u64> = store(|s| s.permits.keys().copied().filter(|p| !before.contains(p)).collect());
        ensure!(new == if good { vec![r.permit] } else { vec![] }, "permits", "opening {i} of user {key}: {new:?}");
        if good {
            ensure!(seen.insert(r.permit), "repeated", "opening {i} of user {key}");
            let k = store(|s| s.permits.get(&r.permit).map(|p| p.key.clone()));
            ensure!(k == Some(crate::def::pk(key)), "key", "opening {i} of user {key}");
        } else {
            ensure!(r.permit == 0 && !r.context.is_empty(), "refusal", "opening {i}");
        }
        vmc::sleep(MS(300)).await;
    }
    vmc::cover("many");
}

async fn many_admissions(n: usize) {
    vmc::deadline(Some(S(20 * n as u64)));
    let _b = mesh(1).await;
    let mut old = vec![];
    let mut us: BTreeMap<u64, User> = BTreeMap::new();
    for i in 0..n {
        let key = 1 + (i % 50) as u64;
        let p = permit(1, key);
        let u = present(1, p, key, &[0]).await;
        ensure!(u.is_some(), "refused", "permit {i}");
        us.extend(u.map(|u| (key, u)));
        old.push(p);
        // one that has been used
        let k = old[i * 7 % old.len()];
        ensure!(present(1, k, 77, &[0]).await.is_none(), "admitted", "with a used permit, number {i}");
        ensure!(present(1, 7_000_000 + i as u64, 77, &[0]).await.is_none(), "admitted", "with no permit, number {i}");
    }
    for u in us.values_mut() {
        ensure!(!u.closed(), "ended", "user {}", u.key);
        let k = u.key;
        u.direct(1 + k % 50, &[k as u8]);
    }
    arrive().await;
    for u in us.values_mut() {
        let g: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
        ensure!(g.len() == 1, "owner", "user {} gets {g:?}", u.key);
    }
    vmc::cover("many");
}

/// Other nodes come and go: holders of the key and others
async fn many_links(n: usize) {
    vmc::deadline(Some(S(20 * n as u64)));
    let _b = mesh(1).await;
    let mut a = login(1, 1, &[]).await;
    let mut u = login(1, 2, &[0]).await;
    for i in 0..n {
        let mut good = fake_in(1, &format!("127.0.0.1:{}/127.0.0.1:{}", 8000 + i, 9000 + i)).await.expect("admitted");
        let mut bad = Peer::connect(priv_port(1)).await.expect("connect");
        bad.send(&match i % 3 {
            0 => auth_key(1, Namespace::BrokerBrokerAuth, wall()),
            1 => auth_key(CLUSTER, Namespace::BrokerBrokerAuth, wall() - 6),
            _ => auth_key(CLUSTER, Namespace::UserMarshalAuth, wall()),
        });
        vmc::settle().await;
        let m = bad.recv();
        bad.send(&auth_response(1, "127.0.0.1:7000/127.0.0.1:7001"));
        bad.send(&direct(2, b"bad"));
        good.send(&direct(2, b"good"));
        arrive().await;
        let g: Vec<Vec<u8>> = u.take().iter().map(payload).collect();
        ensure!(g == vec![b"good".to_vec()], "routed", "{g:?} in round {i}");
        ensure!(m.len() == 1 && matches!(&m[0], Message::AuthenticateResponse(r) if r.permit == 0), "not refused", "{m:?} in round {i}");
        ensure!(bad.closed() && !good.closed(), "links", "round {i}");
        a.direct(2, b"x");
        arrive().await;
        ensure!(u.take().len() == 1, "served", "round {i}");
        drop(good);
        vmc::settle().await;
    }
    vmc::cover("many");
}

// --------------------------------------------------------------------------------------------------------------- K

/// A client that is connected for days stays connected, and reconnects then as well
async fn client_days(hours: usize) {
    vmc::deadline(Some(S(5_000 * hours as u64)));
    vmc::explore(true);
    let receiving = vmc::choose(2, "receiving") == 1;
    let lose = vmc::choose(2, "lost each day") == 1;
    vmc::explore(false);
    front::open_front().await;
    let c = front::client(&[1]);
    let c2 = c.clone();
    let _ = front::go(async move { c2.ensure_initialized().await }).await;
    let got = log();
    if receiving {
        let (c2, got2) = (c.clone(), got.clone());
        let _ = front::go(async move {
            while !c2.is_closed() {
                match c2.receive_message().await {
                    Ok(m) => push(&got2, m),
                    Err(_) => vmc::sleep(MS(50)).await,
                }
            }
        });
    }
    let mut want = 1;
    for h in 0..hours {
        hour().await;
        let ctx = format!("after {h} hours, receiving {receiving}, lost each day {lose}");
        ensure!(front::sessions() == want && front::open_sessions().len() == 1, "sessions", "{} instead of {want}: {ctx}", front::sessions());
        let i = front::open_sessions()[0];
        let c2 = c.clone();
        let ok = front::go(async move { c2.send_broadcast_message(vec![1], vec![7]).await.is_ok() }).await;
        arrive().await;
        ensure!(matches!(ok, Ok(true)), "send", "{ctx}");
        let n = front::front(|f| std::mem::take(&mut f.sessions[i].got).len());
        ensure!(n == 1, "not sent", "{n}: {ctx}");
        if receiving {
            front::server_send(i, &direct(1, &[h as u8]));
            arrive().await;
            ensure!(get(&got).len() == h + 1, "not received", "{ctx}");
        }
        if lose && h % 8 == 7 {
            front::lose(i, front::LOSSES[h / 8 % 3]);
            vmc::settle().await;
            let c2 = c.clone();
            let r = front::go(async move { timeout(S(30), c2.ensure_initialized()).await }).await;
            if !receiving {
                // somebody has to notice
                let c2 = c.clone();
                let _ = front::go(async move { timeout(S(1), c2.receive_message()).await }).await;
                let c2 = c.clone();
                let _ = front::go(async move { timeout(S(30), c2.ensure_initialized()).await }).await;
            }
            ensure!(matches!(r, Ok(Some(Ok(())))), "not initialised", "{ctx}");
            want += 1;
        }
    }
    vmc::cover("days");
}

// --------------------------------------------------------------------------------------------------------------- T

/// One endpoint, used again and again
async fn many_pairs<P: Protocol>(n: usize) {
    vmc::deadline(Some(S(20 * n as u64)));
    let ep = endpoint::<P>(7000);
    let mut l = Some(bind::<P>(&ep).await);
    let mut kept = vec![];
    for i in 0..n {
        if i % 10 == 9 {
            drop(l.take());
            vmc::settle().await;
            let ep2 = ep.clone();
            let r = timeout(S(10), tokio::spawn(async move { P::connect(&ep2, true, none()).await.is_err() })).await;
            ensure!(matches!(r, Some(Ok(true))), "nobody there", "{r:?} in round {i}");
            l = Some(bind::<P>(&ep).await);
        }
        let Some(l) = &l else { return };
        let ep2 = ep.clone();
        let h = tokio::spawn(async move { P::connect(&ep2, true, none()).await.expect("connect") });
        let u = timeout(S(10), l.accept()).await;
        ensure!(matches!(u, Some(Ok(_))), "accept", "round {i}");
        let Some(Ok(u)) = u else { return };
        let f = tokio::spawn(async move { u.finalize(none()).await.expect("finalize") });
        let (a, b) = (h.await.unwrap(), f.await.unwrap());
        for (x, y) in [(&a, &b), (&b, &a)] {
            let _ = x.send_message_raw(raw(&i.to_be_bytes())).await;
            let r = timeout(S(10), y.recv_message_raw()).await;
            ensure!(matches!(&r, Some(Ok(m)) if m[..] == i.to_be_bytes()), "exchange", "round {i}");
        }
        if i % (n / 1000).max(3) == 0 {
            kept.push((i, a, b));
        }
    }
    for (i, a, b) in &kept {
        let _ = a.send_message_raw(raw(&i.to_be_bytes())).await;
        let r = timeout(S(10), b.recv_message_raw()).await;
        ensure!(matches!(&r, Some(Ok(m)) if m[..] == i.to_be_bytes()), "crossed", "pair {i}");
    }
    vmc::cases(n as u64);
    vmc::cover("many");
}
