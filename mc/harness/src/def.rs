//! The definitions that the system under test is instantiated with.
use std::cell::RefCell;
use std::marker::PhantomData;

use anyhow::Result as AnyResult;
use cdn_proto::connection::protocols::Protocol;
use cdn_proto::crypto::signature::{KeyPair, SignatureScheme, Namespace};
use cdn_proto::def::{ConnectionDef, HookResult, MessageHookDef, RunDef, Topic};
use cdn_proto::message::Message;
use jf_signature::bls_over_bn254::{BLSOverBN254CurveSignatureScheme as Bls, SignKey, VerKey};

use crate::disc::Disc;

/// Topics 0, 1, 2 and 130 are valid
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct HTopic(pub u8);
pub const VALID_TOPICS: [u8; 4] = [0, 1, 2, 130];
impl From<HTopic> for u8 {
    fn from(t: HTopic) -> u8 {
        t.0
    }
}
impl TryFrom<u8> for HTopic {
    type Error = ();
    fn try_from(v: u8) -> Result<Self, ()> {
        if VALID_TOPICS.contains(&v) {
            Ok(Self(v))
        } else {
            Err(())
        }
    }
}
impl Topic for HTopic {}

/// What the installed hook does: (is it the broker hook, identifier, message) -> verdict
pub type HookFn = fn(bool, u64, &mut Message) -> AnyResult<HookResult>;
thread_local! {
    pub static HOOK: RefCell<Option<HookFn>> = const { RefCell::new(None) };
    /// (broker hook, identifier, calls of this instance before, message)
    /// While set: every message any node processes (group of the node, from a broker, message)
    pub static WIRE: RefCell<Option<Vec<(u32, bool, Message)>>> = const { RefCell::new(None) };
    pub static HOOK_LOG: RefCell<Vec<(bool, u64, u64, Message)>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone)]
pub struct Hook {
    pub broker: bool,
    id: u64,
    /// How often this instance was called
    calls: u64,
}
impl Hook {
    pub fn new(broker: bool) -> Self {
        Self { broker, id: 0, calls: 0 }
    }
}
impl MessageHookDef for Hook {
    fn on_message_received(&mut self, m: &mut Message) -> AnyResult<HookResult> {
        WIRE.with(|w| {
            if let Some(w) = w.borrow_mut().as_mut() {
                w.push((vmc::group(), self.broker, m.clone()));
            }
        });
        let f = HOOK.with(|h| *h.borrow());
        match f {
            None => Ok(HookResult::ProcessMessage),
            Some(f) => {
                HOOK_LOG.with(|l| l.borrow_mut().push((self.broker, self.id, self.calls, m.clone())));
                self.calls += 1;
                f(self.broker, self.id, m)
            }
        }
    }
    fn set_identifier(&mut self, id: u64) {
        self.id = id;
    }
}

pub struct Cd<P>(PhantomData<P>);
impl<P> Clone for Cd<P> {
    fn clone(&self) -> Self {
        Self(PhantomData)
    }
}
impl<P: Protocol> ConnectionDef for Cd<P> {
    type Scheme = Bls;
    type Protocol = P;
    type MessageHook = Hook;
}
pub struct Rd<B, U>(PhantomData<(B, U)>);
impl<B: Protocol, U: Protocol> RunDef for Rd<B, U> {
    type Broker = Cd<B>;
    type User = Cd<U>;
    type DiscoveryClientType = Disc;
    type Topic = HTopic;
}

pub type Tcp = cdn_proto::connection::protocols::tcp::Tcp;
pub type TcpTls = cdn_proto::connection::protocols::tcp_tls::TcpTls;
pub type Memory = cdn_proto::connection::protocols::memory::Memory;

/// The key pair named by a number
pub fn keypair(n: u64) -> KeyPair<Bls> {
    let k = n.to_be_bytes();
    KeyPair { public_key: VerKey(k), private_key: SignKey(k) }
}
/// The serialized public key of a number
pub fn pk(n: u64) -> Vec<u8> {
    use cdn_proto::crypto::signature::Serializable;
    keypair(n).public_key.serialize().unwrap()
}
pub fn sign(n: u64, ns: Namespace, msg: &[u8]) -> Vec<u8> {
    <Bls as SignatureScheme>::sign(&keypair(n).private_key, ns.as_str(), msg).unwrap()
}
