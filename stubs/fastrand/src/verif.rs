//! Observation point for verification: an optional observer that sees every 64-bit draw
//! of any generator, may block the drawing thread, and may supply the value drawn.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, RwLock};

/// What an observer is: called before each draw, `Some(v)` replaces the drawn value.
pub type Observer = dyn Fn() -> Option<u64> + Send + Sync;

static ENABLED: AtomicBool = AtomicBool::new(false);
static OBSERVER: RwLock<Option<Arc<Observer>>> = RwLock::new(None);

/// Installs (or, with None, removes) the observer.
pub fn set_observer(o: Option<Arc<Observer>>) {
    let on = o.is_some();
    *OBSERVER.write().unwrap() = o;
    ENABLED.store(on, Ordering::SeqCst);
}

#[inline]
pub(crate) fn observe() -> Option<u64> {
    if !ENABLED.load(Ordering::Relaxed) {
        return None;
    }
    let o = OBSERVER.read().unwrap().clone();
    o.and_then(|f| f())
}
