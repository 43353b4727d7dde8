//! Thread-local values of the explored threads (which all run on one thread of the system).
use crate::*;
use std::cell::RefCell;

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
pub use std::thread::AccessError;

/// One thread-local value: key, thread, value, how to drop it.
pub(crate) struct Local {
    key: usize,
    thread: usize,
    val: *mut (),
    free: unsafe fn(*mut ()),
}
unsafe fn free<T>(p: *mut ()) {
    drop(unsafe { Box::from_raw(p as *mut T) });
}
/// Values of code that runs outside the exploration; never dropped.
static OUTSIDE: std::sync::Mutex<Vec<(usize, std::thread::ThreadId, usize)>> = std::sync::Mutex::new(Vec::new());

/// The thread ends: its values are dropped, the last made first.
pub(crate) fn thread_ends(t: usize) {
    while let Some(k) = eng().tls.iter().rposition(|l| l.thread == t) {
        let l = eng().tls.remove(k);
        unsafe { (l.free)(l.val) };
    }
}

impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    fn ptr(&'static self) -> *const T {
        let key = self as *const _ as usize;
        if !active() {
            let me = std::thread::current().id();
            if let Some(x) = OUTSIDE.lock().unwrap().iter().find(|x| x.0 == key && x.1 == me) {
                return x.2 as *const T;
            }
            let p = Box::into_raw(Box::new((self.init)()));
            OUTSIDE.lock().unwrap().push((key, me, p as usize));
            return p;
        }
        let thread = eng().cur;
        if let Some(l) = eng().tls.iter().find(|l| l.key == key && l.thread == thread) {
            return l.val as *const T;
        }
        let p = Box::into_raw(Box::new((self.init)()));
        eng().tls.push(Local { key, thread, val: p as *mut (), free: free::<T> });
        p
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        f(unsafe { &*self.ptr() })
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $N:ident : $T:ty = const $e:block; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $vis static $N: $T = $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $N:ident : $T:ty = const $e:block) => {
        $crate::thread_local!($(#[$a])* $vis static $N: $T = $e);
    };
    ($(#[$a:meta])* $vis:vis static $N:ident : $T:ty = $e:expr; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $vis static $N: $T = $e);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $N:ident : $T:ty = $e:expr) => {
        $(#[$a])* $vis static $N: $crate::tls::LocalKey<$T> = $crate::tls::LocalKey::new({
            fn init() -> $T { $e }
            init
        });
    };
}
