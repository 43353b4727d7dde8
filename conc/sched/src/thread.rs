use crate::*;
use std::sync::{Arc, Mutex as RealMutex};

pub type Result<T> = std::result::Result<T, Box<dyn Any + Send + 'static>>;

pub struct JoinHandle<T> {
    id: usize,
    val: Arc<RealMutex<Option<T>>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match join_raw(self.id) {
            Some(p) => Err(Box::new(p)),
            None => match self.val.lock().unwrap().take() {
                Some(v) => Ok(v),
                None => Err(Box::new("no result")),
            },
        }
    }
    pub fn is_finished(&self) -> bool {
        is_finished(self.id)
    }
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn thread(&self) -> Thread {
        Thread { id: self.id }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);
#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id as u64 + 1)
    }
    pub fn name(&self) -> Option<&str> {
        (self.id == 0).then_some("main")
    }
    fn token(&self) -> Arc<crate::sync::AtomicBool> {
        eng().parks.entry(self.id).or_insert_with(|| Arc::new(crate::sync::AtomicBool::new(false))).clone()
    }
    pub fn unpark(&self) {
        if active() {
            self.token().store(true, std::sync::atomic::Ordering::Release);
        }
    }
}
pub fn current() -> Thread {
    Thread { id: if active() { cur() } else { 0 } }
}
pub fn park() {
    if active() {
        let t = current().token();
        while !t.load(std::sync::atomic::Ordering::Acquire) {
            yield_now();
        }
        t.store(false, std::sync::atomic::Ordering::Relaxed);
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: std::cell::RefCell<Vec<usize>>,
    joined: std::cell::RefCell<Vec<usize>>,
    scope: std::marker::PhantomData<&'scope mut &'scope ()>,
    env: std::marker::PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    inner: JoinHandle<T>,
    joined: &'scope std::cell::RefCell<Vec<usize>>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        self.joined.borrow_mut().push(self.inner.id);
        self.inner.join()
    }
    pub fn is_finished(&self) -> bool {
        self.inner.is_finished()
    }
    pub fn thread(&self) -> Thread {
        self.inner.thread()
    }
}
impl<'scope> Scope<'scope, '_> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let val = Arc::new(RealMutex::new(None));
        let v = val.clone();
        let job: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let r = f();
            *v.lock().unwrap() = Some(r);
        });
        let id = spawn_raw(unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'scope>, Box<dyn FnOnce() + 'static>>(job) });
        self.ids.borrow_mut().push(id);
        ScopedJoinHandle { inner: JoinHandle { id, val }, joined: &self.joined }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { ids: Default::default(), joined: Default::default(), scope: Default::default(), env: Default::default() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s)));
    let mut died = false;
    for id in s.ids.borrow().iter().filter(|i| !s.joined.borrow().contains(i)) {
        died |= join_raw(*id).is_some();
    }
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(_) if died => panic!("a scoped thread panicked"),
        Ok(r) => r,
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let val = Arc::new(RealMutex::new(None));
    let v = val.clone();
    let id = spawn_raw(Box::new(move || {
        let r = f();
        *v.lock().unwrap() = Some(r);
    }));
    JoinHandle { id, val }
}

#[derive(Default, Debug)]
pub struct Builder(Option<String>);
impl Builder {
    pub fn new() -> Self {
        Builder(None)
    }
    pub fn name(mut self, n: String) -> Self {
        self.0 = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}

pub fn yield_now() {
    point(Op::Yield);
}
pub fn sleep(d: std::time::Duration) {
    if active() && !eng().aborting {
        advance(d.as_nanos() as u64);
        modified(); // time passes for everybody
    }
    point(Op::Yield);
}
pub fn panicking() -> bool {
    std::thread::panicking()
}
