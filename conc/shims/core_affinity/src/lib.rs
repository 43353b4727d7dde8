//! core_affinity with one core and nothing pinned.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CoreId {
    pub id: usize,
}
pub fn get_core_ids() -> Option<Vec<CoreId>> {
    Some(vec![CoreId { id: 0 }])
}
pub fn set_for_current(_: CoreId) -> bool {
    true
}
