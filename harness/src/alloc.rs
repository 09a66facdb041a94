//! Watches a thread while it plays the audio thread: heap calls, file system calls,
//! sleeping and futex calls made between `enter` and `leave` are incidents.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FIRST: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// incidents of all threads, so that another thread can see that one is about to block
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

pub struct Watch;

#[global_allocator]
static GLOBAL: Watch = Watch;

/// is the current thread inside an audio callback?
pub fn on_audio_thread() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

#[cold]
pub fn incident(what: &str, n: usize) {
    // describing the incident uses the heap itself
    ON.with(|o| o.set(false));
    COUNT.with(|c| c.set(c.get() + 1));
    TOTAL.fetch_add(1, Ordering::SeqCst);
    FIRST.with(|f| {
        if let Ok(mut f) = f.try_borrow_mut() {
            if f.is_none() {
                *f = Some(if std::env::var("HX_BT").is_ok() {
                    format!("{} ({})\n{}", what, n, std::backtrace::Backtrace::force_capture())
                } else {
                    format!("{} ({})", what, n)
                });
            }
        }
    });
    ON.with(|o| o.set(true));
}

#[inline]
pub fn note(what: &str, n: usize) {
    if on_audio_thread() {
        incident(what, n);
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note("heap allocation, bytes", l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note("heap deallocation, bytes", l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note("heap allocation, bytes", l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note("heap reallocation, bytes", n);
        System.realloc(p, l, n)
    }
}

/// Runs `f` as the audio thread; the first incident, if there was one.
pub fn audio<R>(f: impl FnOnce() -> R) -> (R, Option<String>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    COUNT.with(|c| c.set(0));
    FIRST.with(|f| *f.borrow_mut() = None);
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    let n = COUNT.with(|c| c.get());
    let first = FIRST.with(|f| f.borrow_mut().take());
    (r, first.map(|f| format!("{} times, first: {}", n, f)))
}

/// The futex calls of the standard library's locks come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if on_audio_thread() {
        incident(
            match n {
                libc::SYS_futex if b & 0x7f == 0 || b & 0x7f == 9 => "blocking on a lock",
                libc::SYS_futex => "waking another thread, futex",
                _ => "system call",
            },
            n as usize,
        );
    }
    let r: isize;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as libc::c_long
}
