//! lazy_static under the controlled scheduler.
pub mod lazy {
    pub use vsched::sync::Lazy;
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static!(@one () $(#[$a])* $N $T, $e); $crate::lazy_static!($($t)*);
    };
    ($(#[$a:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static!(@one (pub) $(#[$a])* $N $T, $e); $crate::lazy_static!($($t)*);
    };
    ($(#[$a:meta])* pub ($($v:tt)+) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::__lazy_static!(@one (pub ($($v)+)) $(#[$a])* $N $T, $e); $crate::lazy_static!($($t)*);
    };
    () => {};
}
#[macro_export]
macro_rules! __lazy_static {
    (@one ($($vis:tt)*) $(#[$a:meta])* $N:ident $T:ty, $e:expr) => {
        $(#[$a])* $($vis)* static $N: $crate::lazy::Lazy<$T> = $crate::lazy::Lazy::new(|| $e);
    };
}
pub fn initialize<T>(l: &lazy::Lazy<T>) {
    lazy::Lazy::force(l);
}
