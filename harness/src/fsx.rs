#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! File system call interposition: the calls that the code under test makes on the current
//! thread are executed for real inside a scratch directory, recorded, and can be made to
//! fail.  From the record, all disk states that a crash can leave are derived.
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// a file was created
    Create { path: String, ino: usize },
    Trunc { ino: usize, len: u64 },
    Write { ino: usize, off: u64, data: Vec<u8> },
    Sync { ino: usize },
    SyncDir,
    Rename { from: String, to: String },
    Link { from: String, to: String },
    Unlink { path: String },
    Read { ino: usize, len: usize },
    Open { path: String },
}

/// what the n-th intercepted call does instead
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Err(c_int),
    /// transfers only a part: at most this many bytes
    Short(usize),
    /// is interrupted once, then works
    Intr,
}

#[derive(Default)]
struct St {
    on: bool,
    /// calls seen so far that can fail
    calls: usize,
    faults: BTreeMap<usize, Fault>,
    hit: Vec<(usize, String)>,
    ops: Vec<Op>,
    fds: HashMap<c_int, (usize, u64, bool)>,
    dirs: BTreeSet<c_int>,
    names: BTreeMap<String, usize>,
    inos: usize,
    root: String,
}

thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
}

fn with<R>(f: impl FnOnce(&mut St) -> R) -> Option<R> {
    ST.try_with(|s| match s.try_borrow_mut() {
        Ok(mut s) if s.on => Some(f(&mut s)),
        _ => None,
    })
    .ok()
    .flatten()
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e };
}

fn path(p: *const c_char) -> String {
    unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().to_string()
}

impl St {
    /// counts a call that may fail; returns what it shall do
    fn call(&mut self, what: &str) -> Option<Fault> {
        let n = self.calls;
        self.calls += 1;
        let f = self.faults.get(&n).copied();
        self.hit.push((n, what.to_string()));
        f
    }
}

fn full(s: &St, p: &str) -> Option<String> {
    if p.starts_with(&s.root) {
        Some(p.to_string())
    } else {
        None
    }
}

unsafe fn do_open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let name = path(p);
    let pre = with(|s| full(s, &name).map(|n| (n, s.call(&format!("open {}", if flags & libc::O_ACCMODE == libc::O_RDONLY { "r" } else { "w" })))));
    let (name, fault) = match pre.flatten() {
        None => return libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int,
        Some(x) => x,
    };
    if let Some(Fault::Err(e)) = fault {
        set_errno(e);
        return -1;
    }
    let mut st: libc::stat = std::mem::zeroed();
    let existed = libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, &mut st, 0) == 0;
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int;
    if fd >= 0 {
        with(|s| {
            if existed && st.st_mode & libc::S_IFMT == libc::S_IFDIR {
                s.dirs.insert(fd);
                return;
            }
            let ino = match s.names.get(&name) {
                Some(i) if existed => *i,
                _ => {
                    let i = s.inos;
                    s.inos += 1;
                    s.names.insert(name.clone(), i);
                    s.ops.push(Op::Create { path: name.clone(), ino: i });
                    i
                }
            };
            if flags & libc::O_TRUNC != 0 && existed {
                s.ops.push(Op::Trunc { ino, len: 0 });
            }
            let len = if flags & libc::O_TRUNC != 0 { 0 } else { st.st_size as u64 };
            let off = if flags & libc::O_APPEND != 0 { len } else { 0 };
            s.fds.insert(fd, (ino, off, flags & libc::O_APPEND != 0));
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    crate::alloc::note("open64", 0);
    do_open(p, flags | libc::O_CLOEXEC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    crate::alloc::note("open", 0);
    do_open(p, flags, mode)
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let mut n = n;
    let tracked = with(|s| s.fds.get(&fd).copied().map(|f| (f, s.call("write")))).flatten();
    if let Some((_, f)) = tracked {
        match f {
            Some(Fault::Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Fault::Intr) => {
                set_errno(libc::EINTR);
                return -1;
            }
            Some(Fault::Short(k)) => n = n.min(k.max(1)),
            None => {}
        }
    }
    let r = match at {
        None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
    };
    if let Some(((ino, off, _), _)) = tracked {
        if r > 0 {
            let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
            with(|s| {
                s.ops.push(Op::Write { ino, off: at.unwrap_or(off), data });
                if at.is_none() {
                    if let Some(f) = s.fds.get_mut(&fd) {
                        f.1 += r as u64;
                    }
                }
            });
        }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    crate::alloc::note("write", 0);
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    crate::alloc::note("pwrite64", 0);
    do_write(fd, buf, n, Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    crate::alloc::note("writev", 0);
    let tracked = with(|s| s.fds.contains_key(&fd)).unwrap_or(false);
    if !tracked {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    for i in 0..cnt as isize {
        let v = &*iov.offset(i);
        if v.iov_len > 0 {
            return do_write(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    crate::alloc::note("read", 0);
    let mut n = n;
    let tracked = with(|s| s.fds.get(&fd).copied().map(|f| (f, s.call("read")))).flatten();
    if let Some((_, f)) = tracked {
        match f {
            Some(Fault::Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Fault::Intr) => {
                set_errno(libc::EINTR);
                return -1;
            }
            Some(Fault::Short(k)) => n = n.min(k.max(1)),
            None => {}
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

unsafe fn do_sync(fd: c_int, nr: i64) -> c_int {
    let t = with(|s| {
        if let Some(f) = s.fds.get(&fd).copied() {
            Some((Some(f.0), s.call("sync")))
        } else if s.dirs.contains(&fd) {
            Some((None, s.call("sync directory")))
        } else {
            None
        }
    })
    .flatten();
    if let Some((_, Some(Fault::Err(e)))) = t {
        set_errno(e);
        return -1;
    }
    // the scratch directory need not be durable
    if t.is_none() {
        return libc::syscall(nr, fd) as c_int;
    }
    with(|s| match t {
        Some((Some(ino), _)) => s.ops.push(Op::Sync { ino }),
        _ => s.ops.push(Op::SyncDir),
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    crate::alloc::note("fsync", 0);
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    crate::alloc::note("fdatasync", 0);
    do_sync(fd, libc::SYS_fdatasync)
}
unsafe fn do_trunc(fd: c_int, len: off64_t) -> c_int {
    let t = with(|s| s.fds.get(&fd).copied().map(|f| (f.0, s.call("truncate")))).flatten();
    if let Some((_, Some(Fault::Err(e)))) = t {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if r == 0 {
        if let Some((ino, _)) = t {
            with(|s| s.ops.push(Op::Trunc { ino, len: len as u64 }));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    crate::alloc::note("ftruncate64", 0);
    do_trunc(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    crate::alloc::note("ftruncate", 0);
    do_trunc(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    crate::alloc::note("close", 0);
    with(|s| {
        s.fds.remove(&fd);
        s.dirs.remove(&fd);
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    crate::alloc::note("rename", 0);
    let (x, y) = (path(a), path(b));
    let t = with(|s| full(s, &x).map(|_| s.call("rename"))).flatten();
    if let Some(Some(Fault::Err(e))) = t {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_rename, a, b) as c_int;
    if r == 0 && t.is_some() {
        with(|s| {
            if let Some(i) = s.names.remove(&x) {
                s.names.insert(y.clone(), i);
            }
            s.ops.push(Op::Rename { from: x, to: y });
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    crate::alloc::note("link", 0);
    let (x, y) = (path(a), path(b));
    let t = with(|s| full(s, &x).map(|_| s.call("link"))).flatten();
    if let Some(Some(Fault::Err(e))) = t {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_link, a, b) as c_int;
    if r == 0 && t.is_some() {
        with(|s| {
            if let Some(i) = s.names.get(&x).copied() {
                s.names.insert(y.clone(), i);
            }
            s.ops.push(Op::Link { from: x, to: y });
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    crate::alloc::note("unlink", 0);
    let x = path(a);
    let t = with(|s| full(s, &x).map(|_| s.call("unlink"))).flatten();
    if let Some(Some(Fault::Err(e))) = t {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_unlink, a) as c_int;
    if r == 0 && t.is_some() {
        with(|s| {
            s.names.remove(&x);
            s.ops.push(Op::Unlink { path: x });
        });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
    crate::alloc::note("copy_file_range", 0);
    // makes the standard library fall back to read and write
    set_errno(libc::EXDEV);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut off64_t, _n: size_t) -> ssize_t {
    crate::alloc::note("sendfile64", 0);
    set_errno(libc::EINVAL);
    -1
}

pub struct Record {
    pub ops: Vec<Op>,
    pub calls: Vec<(usize, String)>,
    /// files at the start: name and inode
    pub names: BTreeMap<String, usize>,
    pub content: Vec<Vec<u8>>,
}

/// runs f with interception for files below `root`
pub fn record<R>(root: &str, faults: &[(usize, Fault)], f: impl FnOnce() -> R) -> (R, Record) {
    let mut names = BTreeMap::new();
    let mut content = vec![];
    for e in std::fs::read_dir(root).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_file() {
            names.insert(e.path().to_str().unwrap().to_string(), content.len());
            content.push(std::fs::read(e.path()).unwrap());
        }
    }
    ST.with(|s| {
        *s.borrow_mut() = St {
            on: true,
            faults: faults.iter().copied().collect(),
            names: names.clone(),
            inos: content.len(),
            root: root.to_string(),
            ..Default::default()
        }
    });
    let r = f();
    let (ops, calls) = ST.with(|s| {
        let mut s = s.borrow_mut();
        s.on = false;
        (std::mem::take(&mut s.ops), std::mem::take(&mut s.hit))
    });
    (r, Record { ops, calls, names, content })
}

fn apply(c: &mut Vec<u8>, op: &Op) {
    match op {
        Op::Trunc { len, .. } => c.resize(*len as usize, 0),
        Op::Write { off, data, .. } => {
            let e = *off as usize + data.len();
            if c.len() < e {
                c.resize(e, 0);
            }
            c[*off as usize..e].copy_from_slice(data);
        }
        _ => {}
    }
}

/// All contents of `target` that a crash after the first `k` operations can leave.
/// Directory operations reach the disk in order but any number of the last ones may be missing
/// unless the directory was synced; data of a file that was not synced may be missing from any
/// point on, torn, or zero.
pub fn crash_states(r: &Record, k: usize, target: &str) -> Vec<(String, Option<Vec<u8>>)> {
    let ops = &r.ops[..k];
    let isdir = |o: &Op| matches!(o, Op::Create { .. } | Op::Rename { .. } | Op::Link { .. } | Op::Unlink { .. });
    let dirops: Vec<usize> = (0..k).filter(|i| isdir(&ops[*i])).collect();
    let durable = ops.iter().rposition(|o| *o == Op::SyncDir).map(|p| dirops.iter().filter(|d| **d < p).count()).unwrap_or(0);
    let mut out = vec![];
    for nd in durable..=dirops.len() {
        let mut names = r.names.clone();
        for d in dirops[..nd].iter() {
            match &ops[*d] {
                Op::Create { path, ino } => {
                    names.insert(path.clone(), *ino);
                }
                Op::Rename { from, to } => {
                    if let Some(i) = names.remove(from) {
                        names.insert(to.clone(), i);
                    }
                }
                Op::Link { from, to } => {
                    if let Some(i) = names.get(from).copied() {
                        names.insert(to.clone(), i);
                    }
                }
                Op::Unlink { path } => {
                    names.remove(path);
                }
                _ => {}
            }
        }
        let lbl = format!("{} of {} directory operations", nd, dirops.len());
        let ino = match names.get(target) {
            None => {
                out.push((lbl, None));
                continue;
            }
            Some(i) => *i,
        };
        let mine: Vec<(usize, &Op)> = ops
            .iter()
            .enumerate()
            .filter(|(_, o)| matches!(o, Op::Trunc { ino: i, .. } | Op::Write { ino: i, .. } if *i == ino))
            .collect();
        let synced = ops.iter().rposition(|o| *o == Op::Sync { ino }).map(|p| mine.iter().filter(|(i, _)| *i < p).count()).unwrap_or(0);
        let mut c = r.content.get(ino).cloned().unwrap_or_default();
        for (n, (_, o)) in mine.iter().enumerate() {
            if n >= synced {
                out.push((format!("{}, {} of {} data operations", lbl, n, mine.len()), Some(c.clone())));
                if let Op::Write { off, data, .. } = o {
                    for t in [1, data.len() / 2, data.len().saturating_sub(1)] {
                        let mut d = c.clone();
                        apply(&mut d, &Op::Write { ino, off: *off, data: data[..t].to_vec() });
                        out.push((format!("{}, {} of {} data operations, torn at {}", lbl, n, mine.len(), t), Some(d)));
                    }
                    let mut d = c.clone();
                    apply(&mut d, &Op::Write { ino, off: *off, data: vec![0; data.len()] });
                    out.push((format!("{}, {} of {} data operations, zeroes", lbl, n, mine.len()), Some(d)));
                }
            }
            apply(&mut c, o);
        }
        out.push((format!("{}, all data", lbl), Some(c)));
    }
    out
}
