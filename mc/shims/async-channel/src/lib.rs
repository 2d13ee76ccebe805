//! async-channel with a scheduling point before every operation.
pub use real::{Recv, RecvError, Send, SendError, TryRecvError, TrySendError};

use std::fmt;

pub struct Sender<T>(real::Sender<T>);
pub struct Receiver<T>(real::Receiver<T>);

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::bounded(cap);
    (Sender(s), Receiver(r))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::unbounded();
    (Sender(s), Receiver(r))
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Receiver")
    }
}

macro_rules! common {
    () => {
        pub fn close(&self) -> bool {
            vmc::preempt("channel close");
            self.0.close()
        }
        pub fn is_closed(&self) -> bool {
            vmc::preempt("channel is_closed");
            self.0.is_closed()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn is_full(&self) -> bool {
            self.0.is_full()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn capacity(&self) -> Option<usize> {
            self.0.capacity()
        }
        pub fn receiver_count(&self) -> usize {
            self.0.receiver_count()
        }
        pub fn sender_count(&self) -> usize {
            self.0.sender_count()
        }
    };
}

impl<T> Sender<T> {
    common!();
    pub fn send(&self, msg: T) -> Send<'_, T> {
        vmc::preempt("channel send");
        self.0.send(msg)
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        vmc::preempt("channel try_send");
        self.0.try_send(msg)
    }
    pub fn force_send(&self, msg: T) -> Result<Option<T>, SendError<T>> {
        vmc::preempt("channel force_send");
        self.0.force_send(msg)
    }
    pub fn downgrade(&self) -> WeakSender<T> {
        WeakSender(self.0.downgrade())
    }
    pub fn same_channel(&self, other: &Self) -> bool {
        self.0.same_channel(&other.0)
    }
}
impl<T> Receiver<T> {
    common!();
    pub fn recv(&self) -> Recv<'_, T> {
        vmc::preempt("channel recv");
        self.0.recv()
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        vmc::preempt("channel try_recv");
        self.0.try_recv()
    }
    pub fn downgrade(&self) -> WeakReceiver<T> {
        WeakReceiver(self.0.downgrade())
    }
    pub fn same_channel(&self, other: &Self) -> bool {
        self.0.same_channel(&other.0)
    }
}

pub struct WeakSender<T>(real::WeakSender<T>);
pub struct WeakReceiver<T>(real::WeakReceiver<T>);
impl<T> WeakSender<T> {
    pub fn upgrade(&self) -> Option<Sender<T>> {
        vmc::preempt("channel upgrade");
        self.0.upgrade().map(Sender)
    }
}
impl<T> WeakReceiver<T> {
    pub fn upgrade(&self) -> Option<Receiver<T>> {
        vmc::preempt("channel upgrade");
        self.0.upgrade().map(Receiver)
    }
}
impl<T> Clone for WeakSender<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T> Clone for WeakReceiver<T> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}
impl<T> fmt::Debug for WeakSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "WeakSender")
    }
}
impl<T> fmt::Debug for WeakReceiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "WeakReceiver")
    }
}
