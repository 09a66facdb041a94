//! What a thread does right before one of its ring buffer operations takes effect.
use core::cell::RefCell;
use std::boxed::Box;

std::thread_local!(static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) });

/// installs the hook of this thread and returns the one installed before
pub fn set(f: Option<Box<dyn FnMut()>>) -> Option<Box<dyn FnMut()>> {
    HOOK.with(|h| h.replace(f))
}

#[inline]
pub(crate) fn point() {
    // ring buffer operations of the hook itself are not interrupted
    if let Ok(Some(mut f)) = HOOK.try_with(|h| h.try_borrow_mut().ok().and_then(|mut h| h.take())) {
        f();
        HOOK.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_none() {
                *h = Some(f);
            }
        });
    }
}
