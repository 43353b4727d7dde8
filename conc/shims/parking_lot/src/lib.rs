//! parking_lot under the controlled scheduler: the same locks without poisoning.
pub use vsched::sync::{MutexGuard, RwLockReadGuard, RwLockWriteGuard};
#[derive(Default, Debug)]
pub struct Mutex<T>(vsched::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex(vsched::sync::Mutex::new(v))
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.0.try_lock().ok()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
#[derive(Default)]
pub struct RwLock<T>(vsched::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock(vsched::sync::RwLock::new(v))
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.0.read().unwrap_or_else(|e| e.into_inner())
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.0.write().unwrap_or_else(|e| e.into_inner())
    }
}
