//! Stand-in for `num_cpus`: the harness (and so the solver engine) chooses the number of cores.
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(1);
pub fn set(n: usize) {
    N.store(n, Ordering::Relaxed)
}
pub fn get() -> usize {
    N.load(Ordering::Relaxed)
}
pub fn get_physical() -> usize {
    get()
}
