//! once_cell under the controlled scheduler; `unsync` and `race` are not replaced because nothing shared uses them.
pub mod sync {
    pub use vsched::sync::{Lazy, OnceCell};
}
pub mod unsync {
    pub use std::cell::{LazyCell as Lazy, OnceCell};
}
