//! An in-memory discovery service: the reference model of the discovery contract, with fault injection.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;

use async_trait::async_trait;
use cdn_proto::connection::UserPublicKey;
use cdn_proto::discovery::{BrokerIdentifier, DiscoveryClient};
use cdn_proto::error::{Error, Result};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Heartbeat,
    Least,
    Others,
    Issue,
    Validate,
    SetWhitelist,
    CheckWhitelist,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The operation fails and has no effect
    Fail,
    /// The operation never answers and has no effect
    Stall,
    /// The operation takes effect, but its answer is an error
    FailAfter,
    /// The client panics
    Panic,
}

#[derive(Clone, Debug)]
pub struct Permit {
    pub broker: BrokerIdentifier,
    pub expires: Duration,
    pub key: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub at: Duration,
    pub node: String,
    pub op: Op,
    pub detail: String,
}

#[derive(Default)]
pub struct Store {
    pub brokers: BTreeMap<BrokerIdentifier, (u64, Duration)>,
    pub permits: BTreeMap<u64, Permit>,
    pub whitelist: Option<Vec<UserPublicKey>>,
    pub next_permit: u64,
    /// (node, op) -> fault; node "" is any
    pub faults: Vec<(String, Op, Fault)>,
    pub latency: Duration,
    /// Users whose whitelist status can't be determined
    pub unknown: Vec<(UserPublicKey, Fault)>,
    pub log: Vec<Event>,
}

thread_local! {
    static STORE: RefCell<Store> = RefCell::new(Store { next_permit: (1 << 33) + 1000, ..Store::default() });
}
pub fn store<R>(f: impl FnOnce(&mut Store) -> R) -> R {
    STORE.with(|s| f(&mut s.borrow_mut()))
}
pub fn set_fault(node: &str, op: Op, fault: Option<Fault>) {
    store(|s| {
        s.faults.retain(|(n, o, _)| !(n == node && *o == op));
        if let Some(f) = fault {
            s.faults.push((node.into(), op, f));
        }
    });
}
pub fn events(op: Op) -> Vec<Event> {
    store(|s| s.log.iter().filter(|e| e.op == op).cloned().collect())
}

#[derive(Clone)]
pub struct Disc {
    node: String,
    id: Option<BrokerIdentifier>,
}

fn err() -> Error {
    Error::Connection("discovery is down".into())
}

impl Disc {
    async fn begin(&self, op: Op) -> Result<Option<Fault>> {
        let latency = store(|s| s.latency);
        if latency > Duration::ZERO {
            vmc::sleep(latency).await;
        } else {
            tokio::task::yield_now().await;
        }
        vmc::preempt("discovery");
        let fault = store(|s| {
            s.faults.iter().find(|(n, o, _)| (n.is_empty() || *n == self.node) && *o == op).map(|f| f.2)
        });
        match fault {
            Some(Fault::Fail) => Err(err()),
            Some(Fault::Stall) => {
                std::future::pending::<()>().await;
                unreachable!()
            }
            Some(Fault::Panic) => panic!("injected: discovery client"),
            f => Ok(f),
        }
    }
    fn end(&self, op: Op, f: Option<Fault>, detail: String) -> Result<()> {
        store(|s| s.log.push(Event { at: vmc::now(), node: self.node.clone(), op, detail }));
        if f == Some(Fault::FailAfter) {
            return Err(err());
        }
        Ok(())
    }
}

#[async_trait]
impl DiscoveryClient for Disc {
    async fn new(_path: String, identity: Option<BrokerIdentifier>) -> Result<Self> {
        Ok(Self { node: identity.as_ref().map(|i| i.to_string()).unwrap_or_else(|| "marshal".into()), id: identity })
    }

    async fn perform_heartbeat(&mut self, num_connections: u64, expiry: Duration) -> Result<()> {
        let f = self.begin(Op::Heartbeat).await?;
        let id = self.id.clone().expect("identity");
        store(|s| s.brokers.insert(id, (num_connections, vmc::now() + expiry)));
        self.end(Op::Heartbeat, f, num_connections.to_string())
    }

    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        let f = self.begin(Op::Least).await?;
        let r = store(|s| {
            let now = vmc::now();
            s.brokers.retain(|_, (_, e)| *e > now);
            s.permits.retain(|_, p| p.expires > now);
            let mut best: Option<(u64, BrokerIdentifier)> = None;
            for (b, (n, _)) in &s.brokers {
                let load = n + s.permits.values().filter(|p| p.broker == *b).count() as u64;
                if best.as_ref().is_none_or(|(l, _)| load < *l) {
                    best = Some((load, b.clone()));
                }
            }
            best.map(|b| b.1)
        });
        self.end(Op::Least, f, format!("{r:?}"))?;
        r.ok_or_else(|| Error::Connection("no brokers".into()))
    }

    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        let f = self.begin(Op::Others).await?;
        let r = store(|s| {
            let now = vmc::now();
            s.brokers.iter().filter(|(b, (_, e))| *e > now && Some(*b) != self.id.as_ref()).map(|(b, _)| b.clone()).collect()
        });
        self.end(Op::Others, f, String::new())?;
        Ok(r)
    }

    async fn issue_permit(&mut self, for_broker: &BrokerIdentifier, expiry: Duration, public_key: Vec<u8>) -> Result<u64> {
        let f = self.begin(Op::Issue).await?;
        let n = store(|s| {
            s.next_permit += 1;
            let n = s.next_permit;
            s.permits.insert(n, Permit { broker: for_broker.clone(), expires: vmc::now() + expiry, key: public_key.clone() });
            n
        });
        self.end(Op::Issue, f, format!("{n} {for_broker} {public_key:?} {}", expiry.as_secs()))?;
        Ok(n)
    }

    async fn validate_permit(&mut self, broker: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        let f = self.begin(Op::Validate).await?;
        let r = store(|s| {
            let now = vmc::now();
            match s.permits.get(&permit) {
                Some(p) if p.broker == *broker && p.expires > now => s.permits.remove(&permit).map(|p| p.key),
                _ => None,
            }
        });
        self.end(Op::Validate, f, format!("{permit} {}", r.is_some()))?;
        Ok(r)
    }

    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        let f = self.begin(Op::SetWhitelist).await?;
        store(|s| s.whitelist = if users.is_empty() { None } else { Some(users) });
        self.end(Op::SetWhitelist, f, String::new())
    }

    async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
        let f = self.begin(Op::CheckWhitelist).await?;
        match store(|s| s.unknown.iter().find(|(k, _)| k == user).map(|k| k.1)) {
            Some(Fault::Stall) => std::future::pending::<()>().await,
            Some(_) => return Err(err()),
            None => {}
        }
        let r = store(|s| s.whitelist.as_ref().is_none_or(|w| w.contains(user)));
        self.end(Op::CheckWhitelist, f, format!("{user:?} {r}"))?;
        Ok(r)
    }
}
