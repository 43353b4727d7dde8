//! Replacements for std::sync primitives (and, built on them, once_cell and crossbeam-channel).
use crate::*;
use std::cell::UnsafeCell;
use std::ops::{Deref, DerefMut};
pub use std::sync::atomic::Ordering;
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

// ---------------------------------------------------------------- atomics

fn is_acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

fn make_atomic(init: u64) -> Obj {
    Obj::Atomic { stores: vec![Store { val: init, by: 0, at: 0, rel: None, sc: false }], seen: [0; MAXT] }
}

fn got(rel: Option<VC>, o: Ordering) {
    if let Some(c) = rel {
        let e = eng();
        let t = e.cur;
        if is_acq(o) {
            join(&mut e.thr[t].clock, &c);
        } else {
            join(&mut e.thr[t].acq_pending, &c);
        }
    }
}

fn load(id: usize, o: Ordering) -> u64 {
    assert!(!matches!(o, Ordering::Release | Ordering::AcqRel), "there is no such thing as a release load");
    point(Op::Load(id));
    let e = eng();
    let t = e.cur;
    let clock = e.thr[t].clock;
    let (floor, n) = match &e.objs[id] {
        Obj::Atomic { stores, seen } => {
            let mut floor = seen[t];
            for (i, s) in stores.iter().enumerate().skip(floor) {
                if s.at > 0 && clock[s.by] >= s.at || (s.sc && o == Ordering::SeqCst) {
                    floor = i;
                }
            }
            (floor, stores.len())
        }
        _ => unreachable!(),
    };
    let back = if e.aborting || std::thread::panicking() { 0 } else { e.choice((n - floor) as u32) as usize };
    let i = n - 1 - back;
    let Obj::Atomic { stores, seen } = &mut e.objs[id] else { unreachable!() };
    seen[t] = i;
    let (val, rel) = (stores[i].val, stores[i].rel);
    if back > 0 {
        e.thr[t].stale = true;
    }
    got(rel, o);
    val
}

fn store(id: usize, val: u64, o: Ordering) {
    assert!(!matches!(o, Ordering::Acquire | Ordering::AcqRel), "there is no such thing as an acquire store");
    point(Op::Write(id));
    let t = cur();
    let rel = if is_rel(o) { Some(rel_clock()) } else { eng().thr[t].rel_fence };
    let e = eng();
    let at = e.thr[t].clock[t];
    let Obj::Atomic { stores, seen } = &mut e.objs[id] else { unreachable!() };
    stores.push(Store { val, by: t, at, rel, sc: o == Ordering::SeqCst });
    seen[t] = stores.len() - 1;
    e.thr[t].clock[t] += 1;
    modified();
}

fn rmw(id: usize, o: Ordering, fail: Ordering, f: impl FnOnce(u64) -> Option<u64>) -> Result<u64, u64> {
    point(Op::Write(id));
    let e = eng();
    let t = e.cur;
    let Obj::Atomic { stores, seen } = &mut e.objs[id] else { unreachable!() };
    let last = stores.last().unwrap();
    let (old, prev) = (last.val, last.rel);
    seen[t] = stores.len() - 1;
    let Some(new) = f(old) else {
        got(prev, fail);
        return Err(old);
    };
    got(prev, o);
    let mine = if is_rel(o) { Some(rel_clock()) } else { eng().thr[t].rel_fence };
    let rel = match (prev, mine) {
        (Some(mut a), Some(b)) => {
            join(&mut a, &b);
            Some(a)
        }
        (a, b) => a.or(b),
    };
    let e = eng();
    let at = e.thr[t].clock[t];
    let Obj::Atomic { stores, seen } = &mut e.objs[id] else { unreachable!() };
    stores.push(Store { val: new, by: t, at, rel, sc: o == Ordering::SeqCst });
    seen[t] = stores.len() - 1;
    e.thr[t].clock[t] += 1;
    modified();
    Ok(old)
}

pub fn fence(o: Ordering) {
    point(Op::Yield.local());
    if !active() || eng().aborting {
        return;
    }
    let e = eng();
    let t = e.cur;
    if is_acq(o) {
        let p = e.thr[t].acq_pending;
        join(&mut e.thr[t].clock, &p);
    }
    if is_rel(o) {
        let c = rel_clock();
        let e = eng();
        let r = e.thr[t].rel_fence.get_or_insert([0; MAXT]);
        join(r, &c);
    }
}
impl Op {
    fn local(self) -> Op {
        Op::Fs
    }
}

macro_rules! atomic_base {
    ($name:ident, $t:ty, $to:expr, $from:expr) => {
        pub struct $name {
            init: UnsafeCell<$t>,
            slot: Slot,
        }
        unsafe impl Sync for $name {}
        unsafe impl Send for $name {}
        #[allow(clippy::redundant_closure_call)]
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name { init: UnsafeCell::new(v), slot: Slot::new() }
            }
            fn id(&self) -> usize {
                self.slot.get(|| make_atomic($to(unsafe { *self.init.get() })))
            }
            fn outside(&self) -> bool {
                is_aborting()
            }
            /// latest value, for code that owns the object or runs after the threads
            fn latest(&self) -> $t {
                match self.slot.live() {
                    Some(i) => match obj(i) {
                        Obj::Atomic { stores, .. } => $from(stores.last().unwrap().val),
                        _ => unreachable!(),
                    },
                    None => unsafe { *self.init.get() },
                }
            }
            fn put(&self, v: $t) {
                unsafe { *self.init.get() = v };
                self.slot.reset();
            }
            pub fn load(&self, o: Ordering) -> $t {
                if self.outside() { return self.latest(); }
                $from(load(self.id(), o))
            }
            pub fn store(&self, v: $t, o: Ordering) {
                if self.outside() { return self.put(v); }
                store(self.id(), $to(v), o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                if self.outside() { let l = self.latest(); self.put(v); return l; }
                $from(rmw(self.id(), o, Ordering::Relaxed, |_| Some($to(v))).unwrap())
            }
            pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                if self.outside() {
                    let l = self.latest();
                    return if l == a { self.put(b); Ok(l) } else { Err(l) };
                }
                rmw(self.id(), o, f, |x| if x == $to(a) { Some($to(b)) } else { None }).map(|x| $from(x)).map_err(|x| $from(x))
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, o, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                let v = self.latest();
                self.put(v);
                self.init.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.latest()
            }
            #[allow(dead_code)]
            fn modify(&self, o: Ordering, f: impl FnOnce($t) -> $t) -> $t {
                if self.outside() { let l = self.latest(); self.put(f(l)); return l; }
                $from(rmw(self.id(), o, Ordering::Relaxed, |x| Some($to(f($from(x))))).unwrap())
            }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.latest().fmt(f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! atomic_int {
    ($name:ident, $t:ty) => {
        atomic_base!($name, $t, |x: $t| x as u64, |x: u64| x as $t);
        impl Default for $name {
            fn default() -> Self {
                Self::new(0)
            }
        }
        impl $name {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x.wrapping_add(v)) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x.wrapping_sub(v)) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x & v) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x | v) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x ^ v) }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| !(x & v)) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x.max(v)) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.modify(o, |x| x.min(v)) }
        }
    };
}
atomic_int!(AtomicU8, u8);
atomic_int!(AtomicU16, u16);
atomic_int!(AtomicU32, u32);
atomic_int!(AtomicU64, u64);
atomic_int!(AtomicUsize, usize);
atomic_int!(AtomicI8, i8);
atomic_int!(AtomicI16, i16);
atomic_int!(AtomicI32, i32);
atomic_int!(AtomicI64, i64);
atomic_int!(AtomicIsize, isize);
atomic_base!(AtomicBool, bool, |x: bool| x as u64, |x: u64| x != 0);
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.modify(o, |x| x & v) }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.modify(o, |x| x | v) }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.modify(o, |x| x ^ v) }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.modify(o, |x| !x) }
}

pub struct AtomicPtr<T>(AtomicUsize, std::marker::PhantomData<*mut T>);
unsafe impl<T> Sync for AtomicPtr<T> {}
unsafe impl<T> Send for AtomicPtr<T> {}
impl<T> AtomicPtr<T> {
    pub fn new(p: *mut T) -> Self {
        AtomicPtr(AtomicUsize::new(p as usize), std::marker::PhantomData)
    }
    pub fn load(&self, o: Ordering) -> *mut T { self.0.load(o) as *mut T }
    pub fn store(&self, p: *mut T, o: Ordering) { self.0.store(p as usize, o) }
    pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T { self.0.swap(p as usize, o) as *mut T }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, o: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        self.0.compare_exchange(a as usize, b as usize, o, f).map(|x| x as *mut T).map_err(|x| x as *mut T)
    }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, o: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        self.compare_exchange(a, b, o, f)
    }
    pub fn into_inner(self) -> *mut T { self.0.into_inner() as *mut T }
}
impl<T> AtomicPtr<T> {
    pub fn get_mut(&mut self) -> &mut *mut T {
        let r = self.0.get_mut();
        unsafe { &mut *(r as *mut usize as *mut *mut T) }
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> From<*mut T> for AtomicPtr<T> {
    fn from(p: *mut T) -> Self {
        Self::new(p)
    }
}
impl<T> std::fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

// ---------------------------------------------------------------- mutex, rwlock, condvar

pub struct Mutex<T: ?Sized> {
    slot: Slot,
    poison: std::cell::Cell<(u64, bool)>,
    val: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    held: bool,
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { slot: Slot::new(), poison: std::cell::Cell::new((0, false)), val: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.is_poisoned();
        let v = self.val.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize {
        self.slot.get(|| Obj::Mutex { owner: None, clock: [0; MAXT] })
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get() == (exec_no(), true)
    }
    pub fn clear_poison(&self) {
        self.poison.set((0, false));
    }
    fn guard(&self, held: bool) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: std::thread::panicking(), held };
        if self.is_poisoned() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if is_aborting() {
            point(Op::Local);
            return self.guard(false);
        }
        let id = self.id();
        point(Op::Lock(id));
        if eng().aborting {
            return self.guard(false);
        }
        let t = cur();
        let c = match obj(id) {
            Obj::Mutex { owner, clock } => {
                *owner = Some(t);
                *clock
            }
            _ => unreachable!(),
        };
        acquire(&c);
        self.guard(true)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if is_aborting() {
            return Ok(MutexGuard { m: self, panicking: std::thread::panicking(), held: false });
        }
        let id = self.id();
        point(Op::Write(id));
        let t = cur();
        match obj(id) {
            Obj::Mutex { owner: Some(_), .. } => return Err(TryLockError::WouldBlock),
            Obj::Mutex { owner, clock } => {
                *owner = Some(t);
                let c = *clock;
                acquire(&c);
            }
            _ => unreachable!(),
        }
        self.guard(true).map_err(TryLockError::Poisoned)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.is_poisoned();
        let v = self.val.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
    fn release(&self) {
        if is_aborting() {
            return;
        }
        if let Some(i) = self.slot.live() {
            let c = rel_clock();
            if let Obj::Mutex { owner, clock } = obj(i) {
                *owner = None;
                *clock = c;
            }
            modified();
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() && !is_aborting() {
            self.m.poison.set((exec_no(), true));
        }
        if self.held {
            self.m.release();
        }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.val.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.val.get() }
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    slot: Slot,
    val: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { slot: Slot::new(), val: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.val.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn id(&self) -> usize {
        self.slot.get(|| Obj::Rw { writer: None, readers: vec![], clock: [0; MAXT] })
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if is_aborting() {
            point(Op::Local);
            return Ok(RwLockReadGuard(self, false));
        }
        let id = self.id();
        point(Op::RdLock(id));
        let t = cur();
        let Obj::Rw { readers, clock, .. } = obj(id) else { unreachable!() };
        readers.push(t);
        let c = *clock;
        acquire(&c);
        Ok(RwLockReadGuard(self, true))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if is_aborting() {
            point(Op::Local);
            return Ok(RwLockWriteGuard(self, false));
        }
        let id = self.id();
        point(Op::WrLock(id));
        let t = cur();
        let Obj::Rw { writer, clock, .. } = obj(id) else { unreachable!() };
        *writer = Some(t);
        let c = *clock;
        acquire(&c);
        Ok(RwLockWriteGuard(self, true))
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.val.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 || is_aborting() {
            return;
        }
        if let Some(i) = self.0.slot.live() {
            let t = cur();
            let c = rel_clock();
            if let Obj::Rw { readers, clock, .. } = obj(i) {
                if let Some(p) = readers.iter().position(|&x| x == t) {
                    readers.remove(p);
                }
                join(clock, &c);
            }
            modified();
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 || is_aborting() {
            return;
        }
        if let Some(i) = self.0.slot.live() {
            let c = rel_clock();
            if let Obj::Rw { writer, clock, .. } = obj(i) {
                *writer = None;
                *clock = c;
            }
            modified();
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.val.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.val.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.val.get() }
    }
}

pub struct Condvar {
    slot: Slot,
}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { slot: Slot::new() }
    }
    fn id(&self) -> usize {
        self.slot.get(|| Obj::Cond { waiters: vec![] })
    }
    pub fn wait<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if is_aborting() {
            point(Op::Local);
            return Ok(g);
        }
        let id = self.id();
        point(Op::Notify(id));
        let t = cur();
        let Obj::Cond { waiters } = obj(id) else { unreachable!() };
        waiters.push((t, false));
        let m = g.m;
        g.held = false;
        m.release();
        drop(g);
        point(Op::CondWait(id));
        let Obj::Cond { waiters } = obj(id) else { unreachable!() };
        waiters.retain(|w| w.0 != t);
        m.lock()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// Returns notified, or timed out after something else has happened.
    pub fn wait_timeout<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>, d: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if is_aborting() {
            point(Op::Local);
            return Ok((g, WaitTimeoutResult(true)));
        }
        let id = self.id();
        point(Op::Notify(id));
        let t = cur();
        let Obj::Cond { waiters } = obj(id) else { unreachable!() };
        waiters.push((t, false));
        let m = g.m;
        g.held = false;
        // giving the lock back is not in itself a reason to look again
        own_change(|| m.release());
        drop(g);
        point(Op::Yield);
        point(Op::Notify(id));
        let Obj::Cond { waiters } = obj(id) else { unreachable!() };
        let told = waiters.iter().any(|w| w.0 == t && w.1);
        waiters.retain(|w| w.0 != t);
        if !told {
            advance(d.as_nanos() as u64);
        }
        match m.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(!told))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(!told)))),
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: std::time::Duration, mut c: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        while c(&mut *g) {
            let (h, r) = self.wait_timeout(g, d)?;
            g = h;
            if r.timed_out() {
                let over = c(&mut *g);
                return Ok((g, WaitTimeoutResult(over)));
            }
        }
        Ok((g, WaitTimeoutResult(false)))
    }
    fn notify(&self, all: bool) {
        if is_aborting() {
            return;
        }
        let id = self.id();
        point(Op::Notify(id));
        let Obj::Cond { waiters } = obj(id) else { unreachable!() };
        for w in waiters.iter_mut().filter(|w| !w.1) {
            w.1 = true;
            if !all {
                break;
            }
        }
        modified();
    }
    pub fn notify_one(&self) {
        self.notify(false)
    }
    pub fn notify_all(&self) {
        self.notify(true)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}

// ---------------------------------------------------------------- once cells and lazy values

pub struct OnceCell<T> {
    slot: Slot,
    val: UnsafeCell<Option<T>>,
    of: std::cell::Cell<u64>,
}
unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
unsafe impl<T: Send> Send for OnceCell<T> {}

impl<T> OnceCell<T> {
    pub const fn new() -> Self {
        OnceCell { slot: Slot::new(), val: UnsafeCell::new(None), of: std::cell::Cell::new(0) }
    }
    pub fn with_value(v: T) -> Self {
        let c = Self::new();
        c.of.set(exec_no());
        unsafe { *c.val.get() = Some(v) };
        c
    }
    fn value(&self) -> &mut Option<T> {
        // a value left by an earlier execution does not exist in this one
        if self.of.get() != exec_no() {
            self.of.set(exec_no());
            unsafe { std::mem::forget((*self.val.get()).take()) };
        }
        unsafe { &mut *self.val.get() }
    }
    fn id(&self) -> usize {
        let full = self.value().is_some();
        self.slot.get(|| Obj::Once { state: if full { OnceState::Done } else { OnceState::Empty }, clock: [0; MAXT] })
    }
    pub fn get(&self) -> Option<&T> {
        if is_aborting() {
            return self.value().as_ref();
        }
        let id = self.id();
        if let Obj::Once { state: OnceState::Done, clock } = obj(id) {
            let c = *clock;
            acquire(&c);
            return self.value().as_ref();
        }
        point(Op::Load(id));
        match obj(id) {
            Obj::Once { state: OnceState::Done, clock } => {
                let c = *clock;
                acquire(&c);
                self.value().as_ref()
            }
            _ => None,
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        enum Void {}
        match self.get_or_try_init(|| Ok::<T, Void>(f())) {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }
    pub fn get_or_try_init<E, F: FnOnce() -> Result<T, E>>(&self, f: F) -> Result<&T, E> {
        if is_aborting() {
            if self.value().is_none() {
                let v = f()?;
                *self.value() = Some(v);
            }
            return Ok(self.value().as_ref().unwrap());
        }
        let id = self.id();
        let done = matches!(obj(id), Obj::Once { state: OnceState::Done, .. });
        if !done {
            point(Op::Once(id));
        }
        let t = cur();
        let Obj::Once { state, clock } = obj(id) else { unreachable!() };
        match *state {
            OnceState::Done => {
                let c = *clock;
                acquire(&c);
            }
            OnceState::Running(_) => fail("stuck", "a lazy value waits for its own initialisation".into()),
            OnceState::Empty => {
                *state = OnceState::Running(t);
                struct Reset(usize, bool);
                impl Drop for Reset {
                    fn drop(&mut self) {
                        if !is_aborting() {
                            let c = rel_clock();
                            if let Obj::Once { state, clock } = obj(self.0) {
                                *state = if self.1 { OnceState::Done } else { OnceState::Empty };
                                *clock = c;
                            }
                            modified();
                        }
                    }
                }
                let mut r = Reset(id, false);
                let v = f()?;
                point(Op::Write(id));
                *self.value() = Some(v);
                r.1 = true;
                drop(r);
            }
        }
        Ok(self.value().as_ref().unwrap())
    }
    pub fn into_inner(self) -> Option<T> {
        self.value();
        self.val.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        let v = self.value().take();
        self.slot.reset();
        v
    }
    pub fn wait(&self) -> &T {
        loop {
            if let Some(v) = self.get() {
                return v;
            }
            point(Op::Yield);
        }
    }
}
impl<T> Default for OnceCell<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for OnceCell<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.value().fmt(f)
    }
}
impl<T: Clone> Clone for OnceCell<T> {
    fn clone(&self) -> Self {
        match self.get() {
            Some(v) => Self::with_value(v.clone()),
            None => Self::new(),
        }
    }
}
pub use OnceCell as OnceLock;

pub struct Lazy<T, F = fn() -> T> {
    cell: OnceCell<T>,
    init: F,
    used: std::cell::Cell<u64>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for Lazy<T, F> {}
impl<T, F> Lazy<T, F> {
    pub const fn new(f: F) -> Self {
        Lazy { cell: OnceCell::new(), init: f, used: std::cell::Cell::new(0) }
    }
}
impl<T, F: FnOnce() -> T> Lazy<T, F> {
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            // once per execution; statics (whose initialisers capture nothing) start afresh in each execution
            let f = unsafe { std::ptr::read(&this.init) };
            this.used.set(exec_no());
            f()
        })
    }
    pub fn get(this: &Self) -> Option<&T> {
        this.cell.get()
    }
}
impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Lazy::force(self)
    }
}
pub use Lazy as LazyLock;

pub struct Once {
    c: OnceCell<()>,
}
impl Once {
    pub const fn new() -> Self {
        Once { c: OnceCell::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.c.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.c.get().is_some()
    }
}

// ---------------------------------------------------------------- channels

pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> std::fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            TrySendError::Full(_) => "Full(..)",
            TrySendError::Disconnected(_) => "Disconnected(..)",
        })
    }
}
macro_rules! err {
    ($($t:ty, [$($g:tt)*], $m:expr);*) => {$(
        impl<$($g)*> std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str($m) }
        }
        impl<$($g)*> std::error::Error for $t {}
    )*};
}
err!(SendError<T>, [T], "sending on a disconnected channel"; TrySendError<T>, [T], "sending failed"; RecvError, [], "receiving on an empty and disconnected channel";
     TryRecvError, [], "receiving failed"; RecvTimeoutError, [], "receiving timed out or failed");
impl<T> TrySendError<T> {
    pub fn is_full(&self) -> bool { matches!(self, TrySendError::Full(_)) }
    pub fn is_disconnected(&self) -> bool { matches!(self, TrySendError::Disconnected(_)) }
    pub fn into_inner(self) -> T { match self { TrySendError::Full(t) | TrySendError::Disconnected(t) => t } }
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T { self.0 }
}

struct ChanBuf<T> {
    id: usize,
    exec: u64,
    q: UnsafeCell<std::collections::VecDeque<T>>,
}
unsafe impl<T: Send> Sync for ChanBuf<T> {}
unsafe impl<T: Send> Send for ChanBuf<T> {}

pub struct Sender<T>(std::sync::Arc<ChanBuf<T>>);
pub struct Receiver<T>(std::sync::Arc<ChanBuf<T>>);

fn channel_with<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let id = new_obj(Obj::Chan { len: 0, cap, senders: 1, receivers: 1, clocks: Default::default(), back: [0; MAXT] });
    let b = std::sync::Arc::new(ChanBuf { id, exec: exec_no(), q: Default::default() });
    (Sender(b.clone()), Receiver(b))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    channel_with(None)
}
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    channel_with(Some(n.max(1)))
}

impl<T> ChanBuf<T> {
    fn dead(&self) -> bool {
        is_aborting() || self.exec != exec_no()
    }
    fn push(&self, v: T) {
        let c = rel_clock();
        if let Obj::Chan { len, clocks, .. } = obj(self.id) {
            *len += 1;
            clocks.push_back(c);
        }
        unsafe { (*self.q.get()).push_back(v) };
        modified();
    }
    fn pop(&self) -> Option<T> {
        let v = unsafe { (*self.q.get()).pop_front() }?;
        let c = match obj(self.id) {
            Obj::Chan { len, clocks, .. } => {
                *len -= 1;
                clocks.pop_front().unwrap()
            }
            _ => unreachable!(),
        };
        acquire(&c);
        modified();
        Some(v)
    }
    fn state(&self) -> (usize, Option<usize>, usize, usize) {
        match obj(self.id) {
            Obj::Chan { len, cap, senders, receivers, .. } => (*len, *cap, *senders, *receivers),
            _ => unreachable!(),
        }
    }
}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        if self.0.dead() {
            point(Op::Local);
            return Ok(());
        }
        point(Op::Send(self.0.id));
        if self.0.state().3 == 0 {
            return Err(SendError(v));
        }
        self.0.push(v);
        Ok(())
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        if self.0.dead() {
            point(Op::Local);
            return Ok(());
        }
        point(Op::Chan(self.0.id));
        let (len, cap, _, r) = self.0.state();
        if r == 0 {
            return Err(TrySendError::Disconnected(v));
        }
        if cap.is_some_and(|c| len >= c) {
            return Err(TrySendError::Full(v));
        }
        self.0.push(v);
        Ok(())
    }
    pub fn len(&self) -> usize {
        if self.0.dead() { return 0; }
        point(Op::Chan(self.0.id));
        self.0.state().0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        if self.0.dead() {
            point(Op::Local);
            return Err(RecvError);
        }
        point(Op::Recv(self.0.id));
        self.0.pop().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if self.0.dead() {
            point(Op::Local);
            return Err(TryRecvError::Disconnected);
        }
        point(Op::Chan(self.0.id));
        let (len, _, s, _) = self.0.state();
        if len == 0 {
            // polling: the thread waits for something to change before it is scheduled again
            if s > 0 {
                point(Op::Yield);
            }
            return Err(if s == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty });
        }
        Ok(self.0.pop().unwrap())
    }
    pub fn recv_timeout(&self, d: std::time::Duration) -> Result<T, RecvTimeoutError> {
        if self.0.dead() {
            point(Op::Local);
            return Err(RecvTimeoutError::Disconnected);
        }
        match self.try_recv() {
            Ok(v) => Ok(v),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => {
                advance(d.as_nanos() as u64);
                Err(RecvTimeoutError::Timeout)
            }
        }
    }
    pub fn len(&self) -> usize {
        if self.0.dead() { return 0; }
        point(Op::Chan(self.0.id));
        self.0.state().0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        if !self.0.dead() {
            if let Obj::Chan { senders, .. } = obj(self.0.id) {
                *senders += 1;
            }
        }
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        if !self.0.dead() {
            if let Obj::Chan { receivers, .. } = obj(self.0.id) {
                *receivers += 1;
            }
        }
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if !self.0.dead() {
            point(Op::Chan(self.0.id));
            if !self.0.dead() {
                if let Obj::Chan { senders, .. } = obj(self.0.id) {
                    *senders -= 1;
                }
                modified();
            }
        }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if !self.0.dead() {
            point(Op::Chan(self.0.id));
            if !self.0.dead() {
                let last = match obj(self.0.id) {
                    Obj::Chan { receivers, .. } => {
                        *receivers -= 1;
                        *receivers == 0
                    }
                    _ => unreachable!(),
                };
                modified();
                if last {
                    // undelivered messages are dropped with the channel
                    let q = std::mem::take(unsafe { &mut *self.0.q.get() });
                    if let Obj::Chan { len, clocks, .. } = obj(self.0.id) {
                        *len = 0;
                        clocks.clear();
                    }
                    drop(q);
                }
            }
        }
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

/// std::sync::mpsc on the same engine objects.
pub mod mpsc {
    pub use super::{Receiver, RecvError, RecvTimeoutError, SendError, Sender, Sender as SyncSender, TryRecvError, TrySendError};
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        super::unbounded()
    }
    pub fn sync_channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        super::bounded(n)
    }
}

/// Lets go of its waiters when the last of them has come.
pub struct Barrier {
    n: usize,
    at: Mutex<(usize, u64)>,
    cond: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, at: Mutex::new((0, 0)), cond: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.at.lock().unwrap();
        let round = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            *g = (0, round + 1);
            self.cond.notify_all();
            return BarrierWaitResult(true);
        }
        while g.1 == round {
            g = self.cond.wait(g).unwrap();
        }
        BarrierWaitResult(false)
    }
}
