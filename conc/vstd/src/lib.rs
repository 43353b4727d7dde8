//! Takes the place of `std` for the sources under exploration: everything is the real std except what touches
//! threads, shared memory, time and files.
pub use ::std::*;
pub use vsched::thread_local;

pub mod sync {
    pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
    pub use vsched::sync::{mpsc, Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
    pub mod atomic {
        pub use ::std::sync::atomic::{compiler_fence, Ordering};
        pub use vsched::sync::{
            fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64,
            AtomicU8, AtomicUsize,
        };
    }
}
pub mod thread {
    pub use vsched::tls::{AccessError, LocalKey};
    pub use vsched::thread::*;
}
pub mod fs {
    pub use ::std::fs::{canonicalize, metadata, read_dir, Metadata, Permissions};
    pub use vsched::fs::{create_dir, create_dir_all, read_to_string, write, File, OpenOptions};
}
pub mod time {
    pub use vsched::time::*;
}
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        vsched::thread::yield_now()
    }
}
