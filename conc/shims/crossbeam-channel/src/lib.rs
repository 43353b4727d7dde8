//! crossbeam-channel under the controlled scheduler (the parts without select!).
pub use vsched::sync::{
    bounded, unbounded, IntoIter, Iter, Receiver, RecvError, RecvTimeoutError, SendError, Sender, TryIter, TryRecvError, TrySendError,
};
