//! System-call seam: the harness executable defines the C file functions that std::fs calls,
//! so every open/read/write/seek on a tracked path can be logged, answered with a fault, or
//! turned into a scheduling point. Untracked descriptors pass straight through.
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::sync::atomic::{AtomicU8, Ordering};

use libc::{c_char, c_int, c_long, c_void, iovec, mode_t, off64_t, size_t, ssize_t};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    OpenR,
    OpenW,
    Read,
    Write,
    Seek,
    Sync,
    Trunc,
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub fd: i32,
    pub off: i64,
    pub len: usize,
    pub data: Vec<u8>,
    pub ret: i64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Err(i32),
    Short(usize),
    Eof,
    /// the file loses everything from this offset on, just before the operation, which then goes ahead
    Cut(u64),
}
#[derive(Default)]
pub struct Plan {
    pub prefix: String,
    /// (operation index, action)
    pub faults: Vec<(usize, Act)>,
    /// from this operation on, every write-type operation fails with this errno
    pub dead_from: Option<(usize, i32)>,
    pub log: Vec<Ev>,
    pub n_ops: usize,
    pub fired: usize,
    pub keep_data: bool,
    pub keep_log: bool,
    /// stretches of zeros in large writes become holes of the file
    pub sparse: bool,
}

const NFD: usize = 4096;
static TRACKED: [AtomicU8; NFD] = [const { AtomicU8::new(0) }; NFD];

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static HOOK: Cell<Option<fn(&Kind)>> = const { Cell::new(None) };
    static PATH_HOOK: Cell<Option<fn(&[u8]) -> bool>> = const { Cell::new(None) };
}

pub fn start(p: Plan) {
    PLAN.with(|c| *c.borrow_mut() = Some(p));
    ACTIVE.with(|a| a.set(true));
}
pub fn stop() -> Plan {
    ACTIVE.with(|a| a.set(false));
    PLAN.with(|c| c.borrow_mut().take()).expect("plan")
}
pub fn reset() {
    ACTIVE.with(|a| a.set(false));
    PLAN.with(|c| {
        if let Ok(mut b) = c.try_borrow_mut() {
            *b = None
        }
    });
    HOOK.with(|h| h.set(None));
}
pub fn set_hook(h: Option<fn(&Kind)>) {
    HOOK.with(|c| c.set(h));
}
pub fn n_ops() -> usize {
    PLAN.with(|c| c.borrow().as_ref().map(|p| p.n_ops).unwrap_or(0))
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: c_long) -> i64 {
    r as i64
}
fn is_tracked(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < NFD && TRACKED[fd as usize].load(Ordering::Relaxed) != 0
}
fn live() -> bool {
    // TLS may be gone while the process is being torn down
    ACTIVE.try_with(|a| a.get()).unwrap_or(false) && !INSIDE.try_with(|a| a.get()).unwrap_or(true)
}
fn hook(k: &Kind) {
    if let Ok(Some(h)) = HOOK.try_with(|c| c.get()) {
        let was = INSIDE.with(|i| i.replace(true));
        h(k);
        INSIDE.with(|i| i.set(was));
    }
}
enum Dec {
    Go,
    Short(usize),
    Eof,
    Fail(i32),
}
/// Registers one operation and says how the environment answers it.
fn decide(k: Kind) -> Dec {
    PLAN.with(|c| {
        let mut b = c.borrow_mut();
        let p = match b.as_mut() {
            Some(p) => p,
            None => return Dec::Go,
        };
        let n = p.n_ops;
        p.n_ops += 1;
        if let Some((from, e)) = p.dead_from {
            if n >= from && k != Kind::Read && k != Kind::OpenR {
                p.fired += 1;
                return Dec::Fail(e);
            }
        }
        for (i, a) in p.faults.iter() {
            if *i == n {
                p.fired += 1;
                return match a {
                    Act::Err(e) => Dec::Fail(*e),
                    Act::Short(s) => Dec::Short(*s),
                    Act::Eof => Dec::Eof,
                    Act::Cut(l) => {
                        let path = std::ffi::CString::new(p.prefix.as_str()).unwrap();
                        unsafe { libc::syscall(libc::SYS_truncate, path.as_ptr(), *l as i64) };
                        Dec::Go
                    }
                };
            }
        }
        Dec::Go
    })
}
fn record(k: Kind, fd: c_int, off: i64, len: usize, data: Option<&[u8]>, r: i64) {
    PLAN.with(|c| {
        if let Some(p) = c.borrow_mut().as_mut() {
            if p.keep_log {
                let d = if p.keep_data { data.map(|d| d.to_vec()).unwrap_or_default() } else { vec![] };
                p.log.push(Ev { kind: k, fd, off, len, data: d, ret: r });
            }
        }
    })
}
unsafe fn cur(fd: c_int) -> i64 {
    libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR) as i64
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !live() {
        return ret(libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as libc::c_uint)) as c_int;
    }
    let bytes = CStr::from_ptr(path).to_bytes();
    let m = PLAN.with(|c| c.borrow().as_ref().map(|p| bytes.windows(p.prefix.len().max(1)).any(|w| w == p.prefix.as_bytes())).unwrap_or(false));
    if !m {
        return ret(libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as libc::c_uint)) as c_int;
    }
    let k = if flags & libc::O_ACCMODE == libc::O_RDONLY { Kind::OpenR } else { Kind::OpenW };
    hook(&k);
    if let Dec::Fail(e) = decide(k.clone()) {
        record(k, -1, 0, 0, None, -1);
        set_errno(e);
        return -1;
    }
    let fd = ret(libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as libc::c_uint)) as c_int;
    let e = *libc::__errno_location();
    if fd >= 0 && (fd as usize) < NFD {
        TRACKED[fd as usize].store(1, Ordering::Relaxed);
    }
    // offset 1: emptied by opening
    record(k, fd, (flags & libc::O_TRUNC != 0) as i64, 0, Some(bytes), fd as i64);
    set_errno(e);
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < NFD {
        TRACKED[fd as usize].store(0, Ordering::Relaxed);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, at: Option<off64_t>) -> ssize_t {
    let sys = |n: size_t| -> ssize_t {
        match at {
            None => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pread64, fd, buf, n, o) as ssize_t,
        }
    };
    if !is_tracked(fd) || !live() {
        return sys(n);
    }
    hook(&Kind::Read);
    let off = at.unwrap_or_else(|| cur(fd));
    let (r, e) = match decide(Kind::Read) {
        Dec::Go => {
            let r = sys(n);
            (r, *libc::__errno_location())
        }
        Dec::Short(s) => {
            let r = sys(n.min(s.max(1)));
            (r, *libc::__errno_location())
        }
        Dec::Eof => (0, 0),
        Dec::Fail(e) => (-1, e),
    };
    record(Kind::Read, fd, off, n, None, r as i64);
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(off))
}
unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, at: Option<off64_t>) -> ssize_t {
    let sys = |n: size_t| -> ssize_t {
        match at {
            None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
        }
    };
    if !is_tracked(fd) || !live() {
        return sys(n);
    }
    hook(&Kind::Write);
    let off = at.unwrap_or_else(|| cur(fd));
    let sparse = n >= 1 << 20 && at.is_none() && PLAN.with(|c| c.borrow().as_ref().is_some_and(|p| p.sparse));
    let (r, e) = match decide(Kind::Write) {
        Dec::Go if sparse => {
            let d = std::slice::from_raw_parts(buf as *const u8, n);
            static ZERO: [u8; 1 << 16] = [0; 1 << 16];
            let mut o = off;
            for c in d.chunks(ZERO.len()) {
                if c != &ZERO[..c.len()] {
                    let mut k = 0;
                    while k < c.len() {
                        let w = libc::syscall(libc::SYS_pwrite64, fd, c[k..].as_ptr(), c.len() - k, o + k as i64) as ssize_t;
                        if w <= 0 {
                            return -1;
                        }
                        k += w as usize;
                    }
                }
                o += c.len() as i64;
            }
            libc::syscall(libc::SYS_lseek, fd, o, libc::SEEK_SET);
            (n as ssize_t, 0)
        }
        Dec::Go => {
            let r = sys(n);
            (r, *libc::__errno_location())
        }
        Dec::Short(s) => {
            let r = sys(n.min(s.max(1)));
            (r, *libc::__errno_location())
        }
        Dec::Eof => (0, 0),
        Dec::Fail(e) => (-1, e),
    };
    let d = std::slice::from_raw_parts(buf as *const u8, if r > 0 { r as usize } else { 0 });
    record(Kind::Write, fd, off, n, Some(d), r as i64);
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !is_tracked(fd) || !live() {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let mut all: Vec<u8> = vec![];
    for i in 0..cnt.max(0) as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    do_write(fd, all.as_ptr() as *const c_void, all.len(), None)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !is_tracked(fd) || !live() || cnt < 1 {
        return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_read(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
unsafe fn do_seek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !is_tracked(fd) || !live() {
        return libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t;
    }
    hook(&Kind::Seek);
    let (r, e) = match decide(Kind::Seek) {
        Dec::Fail(e) => (-1, e),
        _ => {
            let r = libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t;
            (r, *libc::__errno_location())
        }
    };
    record(Kind::Seek, fd, off, 0, None, r);
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    do_seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    do_seek(fd, off, whence)
}
unsafe fn do_sync(fd: c_int, data: bool) -> c_int {
    let nr = if data { libc::SYS_fdatasync } else { libc::SYS_fsync };
    if !is_tracked(fd) || !live() {
        return libc::syscall(nr, fd) as c_int;
    }
    hook(&Kind::Sync);
    let (r, e) = match decide(Kind::Sync) {
        Dec::Fail(e) => (-1, e),
        _ => {
            let r = libc::syscall(nr, fd) as c_int;
            (r, *libc::__errno_location())
        }
    };
    record(Kind::Sync, fd, 0, 0, None, r as i64);
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, false)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, true)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !is_tracked(fd) || !live() {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    }
    hook(&Kind::Trunc);
    let (r, e) = match decide(Kind::Trunc) {
        Dec::Fail(e) => (-1, e),
        _ => {
            let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
            (r, *libc::__errno_location())
        }
    };
    record(Kind::Trunc, fd, len, 0, None, r as i64);
    set_errno(e);
    r
}

/// Applies a logged write history to an (initially empty) image.
pub fn apply(image: &mut Vec<u8>, ev: &Ev) {
    match ev.kind {
        Kind::Write if ev.ret > 0 => {
            let end = ev.off as usize + ev.data.len();
            if image.len() < end {
                image.resize(end, 0);
            }
            image[ev.off as usize..end].copy_from_slice(&ev.data);
        }
        Kind::OpenW if ev.ret >= 0 && ev.off == 1 => image.clear(),
        Kind::Trunc if ev.ret == 0 => image.resize(ev.off as usize, 0),
        _ => {}
    }
}
