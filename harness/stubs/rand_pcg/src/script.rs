//! Takes over the 64-bit output of `Pcg64` on the current thread.
use std::cell::RefCell;

type Source = Box<dyn FnMut() -> Option<u64>>;

thread_local! {
    static SOURCE: RefCell<Option<Source>> = RefCell::new(None);
    static LOG: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static LIMIT: RefCell<u64> = RefCell::new(u64::MAX);
    static COUNT: RefCell<u64> = RefCell::new(0);
}

/// Every later draw on this thread first asks `source`; `None` means "use the real generator".
pub fn install(source: Source) {
    SOURCE.with(|s| *s.borrow_mut() = Some(source));
}

/// Back to the real generator; also empties the log and lifts the draw limit.
pub fn reset() {
    SOURCE.with(|s| *s.borrow_mut() = None);
    LOG.with(|l| l.borrow_mut().clear());
    LIMIT.with(|l| *l.borrow_mut() = u64::MAX);
    COUNT.with(|l| *l.borrow_mut() = 0);
}

/// Panics on the draw after the `n`-th one (counted from the last `reset`).
pub fn limit(n: u64) {
    LIMIT.with(|l| *l.borrow_mut() = n);
}

/// The draws made since the last call (or `reset`).
pub fn take_log() -> Vec<u64> {
    LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), Vec::new()))
}

pub(crate) fn draw(real: impl FnOnce() -> u64) -> u64 {
    let n = COUNT.with(|c| {
        let mut c = c.borrow_mut();
        *c += 1;
        *c
    });
    let lim = LIMIT.with(|l| *l.borrow());
    if n > lim {
        panic!("RNG-DRAW-LIMIT: more than {} random draws in one execution", lim);
    }
    let scripted = SOURCE.with(|s| match &mut *s.borrow_mut() {
        Some(f) => f(),
        None => None,
    });
    let v = match scripted {
        Some(v) => v,
        None => real(),
    };
    if lim != u64::MAX {
        LOG.with(|l| l.borrow_mut().push(v));
    }
    v
}
