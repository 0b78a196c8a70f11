//! Deterministic scheduler for real threads. A thread gives way only at its scheduling points:
//! file operations, provider requests and API boundaries (coarse), or additionally every
//! allocation and release of memory (fine). A schedule is a list of (thread, points to run).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        fine();
        big(l.size());
        held(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        fine();
        held(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        fine();
        big(l.size());
        held(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        fine();
        big(n);
        held(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// memory held, and the most held, while `METER` is on
pub static METER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static HELD: AtomicI64 = AtomicI64::new(0);
pub static MOST: AtomicI64 = AtomicI64::new(0);
#[inline]
fn held(n: i64) {
    use std::sync::atomic::Ordering::Relaxed;
    if METER.load(Relaxed) {
        let h = HELD.fetch_add(n, Relaxed) + n;
        MOST.fetch_max(h, Relaxed);
    }
}
/// the largest request for memory since this was set to zero (small ones are not noted)
pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);
#[inline]
fn big(n: usize) {
    if n > 1 << 20 {
        BIGGEST.fetch_max(n, SeqCst);
    }
}
const OFF: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(OFF) };
    static FINE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// the frame of the operation on shared memory being executed
    static INSIDE: Cell<usize> = const { Cell::new(0) };
}
static TURN: AtomicU32 = AtomicU32::new(0);
static SEG: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicU32 = AtomicU32::new(0);
/// waits that were given up because the thread whose turn it was did not move (it may be waiting
/// for something the other holds): the schedule is then impossible, not wrong
pub static GIVEN_UP: AtomicU64 = AtomicU64::new(0);
static PLAN: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
static NTHREADS: AtomicUsize = AtomicUsize::new(0);

/// what is a scheduling point besides the coarse ones
pub const ALLOC: u8 = 1;
pub const SYNC: u8 = 2;
pub const CALLS: u8 = 4;
static TIDS: [AtomicU32; 8] = [const { AtomicU32::new(0) }; 8];

fn fine() {
    if let Ok(f) = FINE.try_with(|f| f.get()) {
        if f & ALLOC != 0 {
            point()
        }
    }
}
/// Called at the entry of every function of the library (the crate is compiled with
/// `instrument-mcount`, without inlining, for the binary that explores schedules).
#[no_mangle]
#[unsafe(naked)]
unsafe extern "C" fn mcount() {
    std::arch::naked_asm!("mov rdi, [rsp]", "mov rsi, rbp", "jmp {h}", h = sym entered)
}
extern "C" fn entered(at: usize, frame: usize) {
    ENTERED.store(true, std::sync::atomic::Ordering::Relaxed);
    let Ok(f) = FINE.try_with(|f| f.get()) else { return };
    if f & CALLS != 0 {
        point()
    } else if f & SYNC != 0 {
        // an operation counts once, not again for the functions it is made of
        let within = INSIDE.with(|i| i.get());
        if frame >= within {
            let s = is_sync(at);
            INSIDE.with(|i| i.set(if s { frame } else { 0 }));
            if s {
                point()
            }
        }
    }
}
static ENTERED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn instrumented() -> bool {
    ENTERED.load(SeqCst)
}
/// one bit per 16 bytes of code, from the first such function on
static SYMS: std::sync::OnceLock<(usize, Vec<u64>)> = std::sync::OnceLock::new();
fn is_sync(at: usize) -> bool {
    let Some((lo, v)) = SYMS.get() else { return false };
    let k = at.wrapping_sub(*lo) >> 4;
    v.get(k >> 6).map_or(false, |w| w >> (k & 63) & 1 == 1)
}
/// The addresses of the functions that touch memory shared between threads: atomics, locks,
/// one-time initialisation, thread-local keys. Taken from the symbol table of this executable.
pub fn load_symbols() -> Result<(), String> {
    if SYMS.get().is_some() {
        return Ok(());
    }
    let b = std::fs::read("/proc/self/exe").map_err(|e| e.to_string())?;
    let u = |o: usize, n: usize| b.get(o..o + n).map(|x| x.iter().rev().fold(0usize, |a, c| a << 8 | *c as usize)).unwrap_or(0);
    let (shoff, shnum) = (u(0x28, 8), u(0x3c, 2));
    let mut v = vec![];
    let mut own = None;
    for i in 0..shnum {
        let h = shoff + i * 64;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let strs = u(shoff + u(h + 40, 4) * 64 + 24, 8);
        for k in 0..u(h + 32, 8) / 24 {
            let e = u(h + 24, 8) + k * 24;
            let (name, info, val, size) = (strs + u(e, 4), u(e + 4, 1), u(e + 8, 8), u(e + 16, 8));
            if info & 15 != 2 {
                continue;
            }
            let n = &b[name..name + b[name..].iter().position(|c| *c == 0).unwrap_or(0)];
            let n = String::from_utf8_lossy(n);
            if n == "mcount" {
                own = Some(val);
            }
let shared = ["atomic", "mutex", "rwlock", "condvar", "mpsc", "barrier", "spin"].iter().any(|w| n.contains(w));
            let other = ["cell", "drop_glue", "LocalKey", "4once", "3Arc", "drop_in_place"].iter().any(|w| n.contains(w) && !n.contains("lock"));
            if shared && !other {
                v.push((val, val + size));
            }
        }
    }
    let own = own.ok_or("no symbol table")?;
    let base = (mcount as unsafe extern "C" fn() as usize).wrapping_sub(own);
    let lo = v.iter().map(|s| s.0).min().unwrap_or(0) & !15;
    let hi = v.iter().map(|s| s.1).max().unwrap_or(0);
    let mut map = vec![0u64; ((hi - lo) >> 10) + 1];
    for (x, y) in v {
        for k in (x - lo) >> 4..(y - lo + 15) >> 4 {
            map[k >> 6] |= 1 << (k & 63);
        }
    }
    let _ = SYMS.set((lo.wrapping_add(base), map));
    Ok(())
}
pub fn point() {
    let me = ME.with(|m| m.get());
    if me == OFF {
        return;
    }
    let c = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if c == NEXT.with(|n| n.get()) {
        let f = FINE.with(|f| f.replace(0));
        hand_over();
        wait(me);
        FINE.with(|x| x.set(f));
    }
}
/// The next segment of the plan that belongs to a thread still running; then any such thread.
fn hand_over() {
    let plan = PLAN.lock().unwrap();
    let done = DONE.load(SeqCst);
    loop {
        let s = SEG.fetch_add(1, SeqCst) + 1;
        let t = match plan.get(s) {
            Some((t, _)) => *t,
            None => match (0..NTHREADS.load(SeqCst)).find(|t| done & (1 << t) == 0) {
                Some(t) => t,
                None => return,
            },
        };
        if done & (1 << t) == 0 {
            TURN.store(t as u32, SeqCst);
            unsafe { libc::syscall(libc::SYS_futex, &TURN as *const AtomicU32, libc::FUTEX_WAKE, 64) };
            return;
        }
    }
}
fn asleep(t: usize) -> bool {
    let tid = TIDS[t & 7].load(SeqCst);
    if tid == 0 {
        return false;
    }
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for k in (16..26).rev() {
        path[k] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    // no leading zeros
    let first = (16..25).find(|k| path[*k] != b'0').unwrap_or(25);
    path.copy_within(first.., 16);
    let mut buf = [0u8; 128];
    let n = unsafe {
        let fd = libc::syscall(libc::SYS_open, path.as_ptr(), libc::O_RDONLY) as i32;
        if fd < 0 {
            return false;
        }
        let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len());
        libc::syscall(libc::SYS_close, fd);
        n
    };
    let b = &buf[..n.max(0) as usize];
    b.iter().rposition(|c| *c == b')').and_then(|k| b.get(k + 2)) == Some(&b'S')
}
fn wait(me: usize) {
    let mut idle = 0;
    loop {
        let t = TURN.load(SeqCst);
        if t as usize == me {
            break;
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 2_000_000 };
        let r = unsafe { libc::syscall(libc::SYS_futex, &TURN as *const AtomicU32, libc::FUTEX_WAIT, t, &ts) };
        if r != 0 && unsafe { *libc::__errno_location() } == libc::ETIMEDOUT {
            // the thread whose turn it is sleeps: it waits for something a suspended one holds
            idle = if TURN.load(SeqCst) == t && asleep(t as usize) { idle + 1 } else { 0 };
            if idle == 3 {
                GIVEN_UP.fetch_add(1, SeqCst);
                return;
            }
        }
    }
    let s = SEG.load(SeqCst);
    let n = PLAN.lock().unwrap().get(s).map(|p| p.1).unwrap_or(u64::MAX);
    NEXT.with(|x| x.set(if n == u64::MAX { n } else { COUNT.with(|c| c.get()) + n }));
}
/// Runs the threads under the plan. Returns what each returned and how many points it passed.
pub fn run<T: Send>(plan: &[(usize, u64)], fine: u8, bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Vec<(Result<T, String>, u64)> {
    *PLAN.lock().unwrap() = plan.to_vec();
    NTHREADS.store(bodies.len(), SeqCst);
    DONE.store(0, SeqCst);
    SEG.store(0, SeqCst);
    for t in &TIDS {
        t.store(0, SeqCst);
    }
    TURN.store(plan.first().map(|p| p.0).unwrap_or(0) as u32, SeqCst);
    std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                s.spawn(move || {
                    COUNT.with(|c| c.set(0));
                    TIDS[i & 7].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
                    wait(i);
                    ME.with(|m| m.set(i));
                    FINE.with(|x| x.set(fine));
                    let r = crate::core::guard(f);
                    FINE.with(|x| x.set(0));
                    ME.with(|m| m.set(OFF));
                    DONE.fetch_or(1 << i, SeqCst);
                    hand_over();
                    (r, COUNT.with(|c| c.get()))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
/// Harness work inside a scheduled thread: no scheduling points.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let me = ME.with(|m| m.replace(OFF));
    let r = f();
    ME.with(|m| m.set(me));
    r
}
/// Runs `f` in a child process that has used the library for nothing else.
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fd = [0; 2];
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fd[0]);
            let (tag, b) = match crate::core::guard(f) {
                Ok(b) => (1u8, b),
                Err(e) => (0, e.into_bytes()),
            };
            let all = [&[tag][..], &b].concat();
            let mut k = 0;
            while k < all.len() {
                let n = libc::write(fd[1], all[k..].as_ptr() as *const _, all.len() - k);
                if n <= 0 {
                    break;
                }
                k += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match out.split_first() {
            Some((1, r)) => Ok(r.to_vec()),
            Some((_, r)) => Err(String::from_utf8_lossy(r).into_owned()),
            None => Err("the process ended".into()),
        }
    }
}
