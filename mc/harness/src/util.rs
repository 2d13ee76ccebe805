//! Helpers of the scenarios.
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

use cdn_proto::connection::limiter::Limiter;
use cdn_proto::connection::protocols::{Connection, Listener, Protocol, UnfinalizedConnection};
use cdn_proto::connection::Bytes;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use tokio::net::{sim, Conn};

pub const S: fn(u64) -> Duration = Duration::from_secs;
pub const MS: fn(u64) -> Duration = Duration::from_millis;

pub type Log<T> = Arc<std::sync::Mutex<Vec<T>>>;
pub fn log<T>() -> Log<T> {
    Arc::new(std::sync::Mutex::new(vec![]))
}
pub fn push<T>(l: &Log<T>, v: T) {
    l.lock().unwrap().push(v);
}
pub fn get<T: Clone>(l: &Log<T>) -> Vec<T> {
    l.lock().unwrap().clone()
}

/// Runs a closure for every value that the explorer chooses
pub fn pick<T: Clone>(label: &str, v: &[T]) -> T {
    v[vmc::choose(v.len(), label)].clone()
}

pub fn raw(b: &[u8]) -> Bytes {
    Bytes::from_unchecked(b.to_vec())
}

/// A recognisable message of a size
pub fn body(tag: u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| tag.wrapping_mul(31).wrapping_add(i as u8).wrapping_add((i >> 8) as u8)).collect()
}

pub fn certs<P: 'static>() -> (CertificateDer<'static>, PrivateKeyDer<'static>) {
    use cdn_proto::crypto::tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY};
    if std::any::TypeId::of::<P>() == std::any::TypeId::of::<crate::def::TcpTls>() {
        thread_local!(static C: RefCell<Option<Rc<(CertificateDer<'static>, PrivateKeyDer<'static>)>>> = const { RefCell::new(None) });
        let c = C.with(|c| {
            c.borrow_mut()
                .get_or_insert_with(|| vmc::os::with_rng(7, || Rc::new(generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).expect("cert"))))
                .clone()
        });
        (c.0.clone(), c.1.clone_key())
    } else {
        (CertificateDer::from(vec![]), PrivateKeyDer::Pkcs8(vec![].into()))
    }
}

pub fn is_mem<P: 'static>() -> bool {
    std::any::TypeId::of::<P>() == std::any::TypeId::of::<crate::def::Memory>()
}

/// An endpoint; the memory transport's registry is shared by all executions of a process, so its names are unique
pub fn endpoint<P: 'static>(port: u16) -> String {
    if is_mem::<P>() {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        format!("m{}", N.fetch_add(1, Ordering::Relaxed))
    } else {
        format!("127.0.0.1:{port}")
    }
}

pub async fn bind<P: Protocol>(ep: &str) -> P::Listener {
    let (c, k) = certs::<P>();
    P::bind(ep, c, k).await.expect("bind")
}

pub struct Pair {
    pub a: Connection,
    pub b: Connection,
    /// The simulated connection (not for the memory transport)
    pub conn: Option<Arc<Conn>>,
}

/// Two ends of a connection; `a` connected, `b` accepted. No exploration happens meanwhile.
pub async fn pair<P: Protocol>(la: Limiter, lb: Limiter) -> Pair {
    let ex = vmc::exploring();
    vmc::explore(false);
    let ep = endpoint::<P>(7000);
    let l = bind::<P>(&ep).await;
    let ep2 = ep.clone();
    let c = tokio::spawn(async move { P::connect(&ep2, true, la).await });
    let b = l.accept().await.expect("accept").finalize(lb).await.expect("finalize");
    let a = c.await.unwrap().expect("connect");
    vmc::settle().await;
    vmc::explore(ex);
    Pair { a, b, conn: sim::last_to(7000) }
}

/// Waits (in virtual time) until the condition holds; false if it does not within the time
pub async fn until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = vmc::now() + limit;
    loop {
        vmc::settle().await;
        if f() {
            return true;
        }
        if vmc::now() >= end {
            return false;
        }
        vmc::sleep((end - vmc::now()).min(MS(100))).await;
    }
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Option<F::Output> {
    tokio::time::timeout(d, f).await.ok()
}

pub fn none() -> Limiter {
    Limiter::none()
}

/// Asserts a condition of the property
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($m:tt)*) => {
        if !$c {
            vmc::fail($key, format!($($m)*));
        }
    };
}
