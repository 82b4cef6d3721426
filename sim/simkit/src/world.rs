//! The simulated operating system of a run.
//!
//! A simulated process is a fresh thread: std draws the keys of its hash maps
//! once per thread, so a fresh thread with its own answer to `getrandom` is,
//! as far as hashing is concerned, a fresh process.  Processes run one after
//! the other; nothing here is concurrent.
use crate::sim::{splitmix, Sim};
use libc::{c_char, c_int, c_uint, c_void, iovec, off_t, size_t, ssize_t, timespec};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};

/// Faults of one byte stream.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// most bytes moved by one call, 0: no limit
    pub chunk: usize,
    /// one in so many calls is interrupted, 0: never
    pub eintr: u64,
    /// from this offset on every call fails with this errno
    pub fail_at: Option<(usize, c_int)>,
    /// the process dies when this many bytes were moved
    pub kill_at: Option<usize>,
}

#[derive(Default)]
struct Stream {
    data: Vec<u8>,
    pos: usize,
    plan: Plan,
    eintr_row: u32,
}

pub struct Io {
    stdin: Stream,
    stdout: Stream,
    stderr: Vec<u8>,
    disk: BTreeMap<String, Vec<u8>>,
    file_plans: BTreeMap<String, Plan>,
    open: BTreeMap<c_int, Stream>,
    dead: bool,
    drain: bool,
    hard: u32,
    code: Option<i32>,
    args: Vec<String>,
}

struct Ctx {
    sim: Sim,
    hash: Cell<u64>,
    io: RefCell<Option<Io>>,
}

thread_local! {
    static CTX: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

fn ctx() -> Option<&'static Ctx> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        // the Ctx outlives the simulated process, see `process`
        Some(unsafe { &*p })
    }
}

/// Keep panics of simulated code quiet and remember their message.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SIM.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            default(info)
        }
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::replace(&mut *p.borrow_mut(), String::new()))
}

/// Catch a panic of the code under test on the current simulated thread.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| take_panic())
}

/// Run harness code: panics are kept quiet and turned into an error.
pub fn harness<T>(sim: &Sim, f: impl FnOnce() -> T) -> Result<T, String> {
    let ctx = Ctx { sim: sim.clone(), hash: Cell::new(0x5eed), io: RefCell::new(None) };
    IN_SIM.with(|c| c.set(true));
    CTX.with(|c| c.set(&ctx));
    let r = catch(f);
    CTX.with(|c| c.set(std::ptr::null()));
    r
}

/// What a simulated process is started with.
#[derive(Default)]
pub struct Spec {
    pub hash_seed: u64,
    pub stdin: Vec<u8>,
    pub stdin_plan: Plan,
    pub stdout_plan: Plan,
    pub disk: BTreeMap<String, Vec<u8>>,
    pub file_plans: BTreeMap<String, Plan>,
    pub args: Vec<String>,
}

/// What is left of a simulated process.
pub struct Exit<T> {
    /// the value it returned, or the message of the panic that ended it
    pub result: Result<T, String>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// it was killed by the simulator
    pub killed: bool,
    /// how many of its calls failed hard
    pub hard: u32,
    /// the status it asked to exit with, if it did
    pub code: Option<i32>,
}

const STACK: usize = 64 << 20;

/// Run `f` as a process that uses no files or streams.
pub fn task<T: Send>(sim: &Sim, hash_seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    run(sim, hash_seed, None, f).0
}

/// Run `f` as a process with simulated streams and files.
pub fn process<T: Send>(sim: &Sim, spec: Spec, f: impl FnOnce() -> T + Send) -> Exit<T> {
    let io = Io {
        stdin: Stream { data: spec.stdin, pos: 0, plan: spec.stdin_plan, eintr_row: 0 },
        stdout: Stream { data: Vec::new(), pos: 0, plan: spec.stdout_plan, eintr_row: 0 },
        stderr: Vec::new(),
        disk: spec.disk,
        file_plans: spec.file_plans,
        open: BTreeMap::new(),
        dead: false,
        drain: true,
        hard: 0,
        code: None,
        args: spec.args,
    };
    let (result, io) = run(sim, spec.hash_seed, Some(io), f);
    let io = io.expect("io");
    Exit {
        result,
        stdout: io.stdout.data,
        stderr: io.stderr,
        killed: io.dead && io.code.is_none(),
        hard: io.hard,
        code: io.code,
    }
}

/// The arguments of the simulated process.
pub fn args() -> Vec<String> {
    let c = ctx().expect("no simulated process");
    let args = c.io.borrow().as_ref().map(|io| io.args.clone());
    args.unwrap_or_default()
}

struct Exited;

/// What a simulated process calls instead of `std::process::exit`: its
/// buffers of standard output are flushed, everything else it still holds is
/// lost, although its stack is unwound here.
pub fn exit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    if let Some(c) = ctx() {
        if let Some(io) = c.io.borrow_mut().as_mut() {
            io.code = Some(code);
            io.dead = true;
        }
    }
    PANIC.with(|p| *p.borrow_mut() = format!("exit {}", code));
    std::panic::resume_unwind(Box::new(Exited))
}

fn run<T: Send>(
    sim: &Sim,
    hash_seed: u64,
    io: Option<Io>,
    f: impl FnOnce() -> T + Send,
) -> (Result<T, String>, Option<Io>) {
    std::hint::black_box(keep());
    let with_io = io.is_some();
    let sim2 = sim.clone();
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(scope, move || {
                let ctx = Ctx { sim: sim2, hash: Cell::new(hash_seed), io: RefCell::new(io) };
                IN_SIM.with(|c| c.set(true));
                CTX.with(|c| c.set(&ctx));
                if with_io {
                    // leftovers of an earlier process in std's buffers
                    let n = std::io::stdin().lock().fill_buf().map(|b| b.len()).unwrap_or(0);
                    std::io::stdin().lock().consume(n);
                    let _ = std::io::stdout().flush();
                    ctx.io.borrow_mut().as_mut().unwrap().drain = false;
                }
                let r = catch(f);
                if with_io {
                    // what the runtime does when a process ends
                    let _ = std::io::stdout().flush();
                    ctx.io.borrow_mut().as_mut().unwrap().drain = true;
                    let _ = std::io::stdout().flush();
                }
                CTX.with(|c| c.set(std::ptr::null()));
                let io = ctx.io.borrow_mut().take();
                (r, io)
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| (Err("process thread died".to_string()), None))
    })
}

/// Start the `p`-th process of a run; returns its hash seed.
pub fn boot(sim: &Sim, p: usize) -> u64 {
    let seed = sim.seed();
    sim.step(p, "boot");
    if p > 0 {
        sim.fault("restart with another hash seed");
    }
    sim.shape(&seed.to_le_bytes());
    seed
}

pub fn draw_hash_seed() -> Option<u64> {
    ctx().map(|c| c.hash.get())
}

fn keep() -> usize {
    getrandom as *const () as usize
        ^ clock_gettime as *const () as usize
        ^ read as *const () as usize
        ^ write as *const () as usize
        ^ writev as *const () as usize
        ^ readv as *const () as usize
        ^ open64 as *const () as usize
        ^ open as *const () as usize
        ^ close as *const () as usize
}

fn set_errno(e: c_int) -> ssize_t {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn errname(e: c_int) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EPIPE => "EPIPE",
        libc::EINTR => "EINTR",
        libc::EAGAIN => "EAGAIN",
        _ => "errno",
    }
}

enum Fd {
    In,
    Out,
    Err,
    File(c_int),
}

fn route(io: &Io, fd: c_int) -> Option<Fd> {
    match fd {
        0 => Some(Fd::In),
        1 => Some(Fd::Out),
        2 => Some(Fd::Err),
        n if io.open.contains_key(&n) => Some(Fd::File(n)),
        _ => None,
    }
}

fn sim_read(c: &Ctx, fd: c_int, buf: *mut u8, len: usize) -> Option<ssize_t> {
    let mut g = c.io.borrow_mut();
    let io = match g.as_mut() {
        Some(io) => io,
        None => return if fd == 0 { Some(0) } else { None },
    };
    let which = route(io, fd)?;
    if io.drain || io.dead {
        return Some(0);
    }
    let st = match which {
        Fd::In => &mut io.stdin,
        Fd::File(n) => io.open.get_mut(&n).unwrap(),
        _ => return Some(set_errno(libc::EBADF)),
    };
    c.sim.tick(2_000);
    let left = st.data.len() - st.pos;
    if let Some((off, e)) = st.plan.fail_at {
        if st.pos >= off {
            c.sim.fault(&format!("read {}", errname(e)));
            io.hard += 1;
            return Some(set_errno(e));
        }
    }
    if let Some(k) = st.plan.kill_at {
        if st.pos >= k {
            c.sim.fault("killed while reading");
            io.dead = true;
            return Some(0);
        }
    }
    if st.plan.eintr > 0 && st.eintr_row < 3 && c.sim.flip(1, st.plan.eintr) {
        st.eintr_row += 1;
        c.sim.fault("read EINTR");
        return Some(set_errno(libc::EINTR));
    }
    st.eintr_row = 0;
    let want = len.min(left);
    let mut n = want;
    if st.plan.chunk > 0 && n > 1 {
        n = n.min(c.sim.range(1, st.plan.chunk));
    }
    if let Some((off, _)) = st.plan.fail_at {
        n = n.min(off - st.pos);
    }
    if let Some(k) = st.plan.kill_at {
        n = n.min(k - st.pos);
    }
    if n < want {
        c.sim.fault("short read");
        c.sim.tick(50_000);
    }
    unsafe { std::ptr::copy_nonoverlapping(st.data[st.pos..].as_ptr(), buf, n) };
    st.pos += n;
    Some(n as ssize_t)
}

fn sim_write(c: &Ctx, fd: c_int, buf: *const u8, len: usize) -> Option<ssize_t> {
    let mut g = c.io.borrow_mut();
    let io = match g.as_mut() {
        Some(io) => io,
        None => return if fd == 1 || fd == 2 { Some(len as ssize_t) } else { None },
    };
    let which = route(io, fd)?;
    if io.drain || io.dead {
        return Some(len as ssize_t);
    }
    let bytes = unsafe { std::slice::from_raw_parts(buf, len) };
    match which {
        Fd::Err => {
            io.stderr.extend_from_slice(bytes);
            Some(len as ssize_t)
        }
        Fd::Out => {
            let st = &mut io.stdout;
            c.sim.tick(3_000);
            if len == 0 {
                return Some(0);
            }
            if let Some((off, e)) = st.plan.fail_at {
                if st.data.len() >= off {
                    c.sim.fault(&format!("write {}", errname(e)));
                    io.hard += 1;
                    return Some(set_errno(e));
                }
            }
            if st.plan.eintr > 0 && st.eintr_row < 3 && c.sim.flip(1, st.plan.eintr) {
                st.eintr_row += 1;
                c.sim.fault("write EINTR");
                return Some(set_errno(libc::EINTR));
            }
            st.eintr_row = 0;
            let mut n = len;
            if st.plan.chunk > 0 && n > 1 {
                n = n.min(c.sim.range(1, st.plan.chunk));
            }
            if let Some((off, _)) = st.plan.fail_at {
                n = n.min(off - st.data.len());
            }
            if let Some(k) = st.plan.kill_at {
                if st.data.len() + n > k {
                    let m = k - st.data.len();
                    st.data.extend_from_slice(&bytes[..m]);
                    c.sim.fault("killed while writing");
                    io.dead = true;
                    return Some(len as ssize_t);
                }
            }
            if n < len {
                c.sim.fault("short write");
                c.sim.tick(50_000);
            }
            st.data.extend_from_slice(&bytes[..n]);
            Some(n as ssize_t)
        }
        _ => Some(set_errno(libc::EBADF)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    match ctx() {
        Some(c) => {
            let mut s = c.hash.get();
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            for ch in out.chunks_mut(8) {
                let r = splitmix(&mut s).to_le_bytes();
                ch.copy_from_slice(&r[..ch.len()]);
            }
            c.hash.set(s);
            len as ssize_t
        }
        None => libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    match ctx() {
        Some(c) => {
            c.sim.tick(100);
            let t = c.sim.now();
            let base = if clk == libc::CLOCK_REALTIME { 1_600_000_000 } else { 1_000 };
            (*ts).tv_sec = base + (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
            0
        }
        None => libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if let Some(c) = ctx() {
        if let Some(r) = sim_read(c, fd, buf as *mut u8, len) {
            return r;
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, len) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if let Some(c) = ctx() {
        if let Some(r) = sim_write(c, fd, buf as *const u8, len) {
            return r;
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if let Some(c) = ctx() {
        for v in std::slice::from_raw_parts(iov, n.max(0) as usize) {
            if v.iov_len > 0 {
                if let Some(r) = sim_write(c, fd, v.iov_base as *const u8, v.iov_len) {
                    return r;
                }
                break;
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if let Some(c) = ctx() {
        for v in std::slice::from_raw_parts(iov, n.max(0) as usize) {
            if v.iov_len > 0 {
                if let Some(r) = sim_read(c, fd, v.iov_base as *mut u8, v.iov_len) {
                    return r;
                }
                break;
            }
        }
    }
    libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(c) = ctx() {
        let mut g = c.io.borrow_mut();
        if let Some(io) = g.as_mut() {
            let p = std::ffi::CStr::from_ptr(path).to_string_lossy().into_owned();
            if p.starts_with("/simfs/") {
                c.sim.tick(10_000);
                let data = match io.disk.get(&p) {
                    Some(d) => d.clone(),
                    None => {
                        set_errno(libc::ENOENT);
                        return -1;
                    }
                };
                // a real descriptor number, so that fstat and lseek work
                let fd = libc::syscall(
                    libc::SYS_openat,
                    libc::AT_FDCWD,
                    b"/dev/null\0".as_ptr(),
                    libc::O_RDONLY | libc::O_CLOEXEC,
                    0,
                ) as c_int;
                if fd >= 0 {
                    let plan = io.file_plans.get(&p).cloned().unwrap_or_default();
                    io.open.insert(fd, Stream { data, pos: 0, plan, eintr_row: 0 });
                }
                return fd;
            }
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(c) = ctx() {
        if let Ok(mut g) = c.io.try_borrow_mut() {
            if let Some(io) = g.as_mut() {
                io.open.remove(&fd);
            }
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[allow(dead_code)]
fn unused(_: off_t) {}
