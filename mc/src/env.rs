//! The environment of a case, owned by the harness: randomness (hash seeds, uuids), the clock and
//! the file system calls. The libc entry points below replace libc's in this executable; outside a
//! case, and for everything not controlled, they go straight to the kernel.
#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
fn set_errno(e: c_int) {
    unsafe { *__errno_location() = e }
}
pub const EIO: c_int = 5;
pub const EINTR: c_int = 4;
pub const ENOSPC: c_int = 28;
pub const EACCES: c_int = 13;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Fail(c_int),
    /// only the first n bytes are transferred (n = 0 means half of the request)
    Short(usize),
    /// the process is dead from here on: this and every later mutating call has no effect
    Crash,
    /// as Crash, but a write in progress has transferred part of its data
    CrashTorn,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open { path: String, creat: bool, trunc: bool, excl: bool, existed: bool },
    Write { path: String, n: usize },
    Trunc { path: String, n: i64 },
    Unlink { path: String },
    Rename { from: String, to: String },
    Link { from: String, to: String },
    Mkdir { path: String },
    Sync { path: String },
    Read { path: String, n: usize },
}
#[derive(Default)]
pub struct Fs {
    /// mutating calls in order
    pub log: Vec<Ev>,
    pub reads: usize,
    pub plan: Option<(usize, Act)>,
    /// further points, by index
    pub more: Vec<(usize, Act)>,
    /// what happens to every write that no other plan concerns
    pub every_write: Option<Act>,
    pub read_plan: Option<(usize, Act)>,
    pub fired: bool,
    pub crashed: bool,
    pub root: String,
    pub fds: HashMap<c_int, (String, bool)>,
}

struct T {
    on: Cell<bool>,
    rng: Cell<u64>,
    clock: Cell<i64>, // seconds; 0 = real
    fs: Cell<*mut Fs>,
    /// called before file-system calls and requests for randomness
    point: Cell<Point>,
}
thread_local! {
    static ENV: T = const { T { on: Cell::new(false), rng: Cell::new(0), clock: Cell::new(0), fs: Cell::new(std::ptr::null_mut()), point: Cell::new(None) } };
}
/// Sets what is called at scheduling points of this thread. The flag tells reads from the rest.
pub fn points_on(p: *const (), f: fn(*const (), bool)) {
    ENV.with(|e| e.point.set(Some((p, f))))
}
pub fn points_off() {
    ENV.with(|e| e.point.set(None))
}
pub type Point = Option<(*const (), fn(*const (), bool))>;
pub fn points_take() -> Point {
    ENV.with(|e| e.point.take())
}
pub fn points_put(p: Point) {
    ENV.with(|e| e.point.set(p))
}
fn point(read: bool) {
    if let Some((p, f)) = ENV.try_with(|e| e.point.take()).ok().flatten() {
        f(p, read);
        let _ = ENV.try_with(|e| e.point.set(Some((p, f))));
    }
}
pub fn begin(seed: u64) {
    ENV.with(|e| {
        e.on.set(true);
        e.rng.set(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        e.clock.set(1_650_000_000);
        e.fs.set(std::ptr::null_mut());
        e.point.set(None);
    })
}
pub fn set_clock(secs: i64) {
    ENV.with(|e| e.clock.set(secs))
}
pub fn fs_on(fs: &mut Fs) {
    ENV.with(|e| e.fs.set(fs))
}
pub fn fs_off() {
    ENV.with(|e| e.fs.set(std::ptr::null_mut()))
}
fn fs() -> Option<&'static mut Fs> {
    ENV.try_with(|e| e.fs.get()).ok().and_then(|p| unsafe { p.as_mut() })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    let on = ENV.try_with(|e| e.on.get()).unwrap_or(false);
    point(false);
    if !on {
        return syscall(318, buf, len, flags as c_long) as isize;
    }
    ENV.with(|e| {
        let mut s = e.rng.get();
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for c in out.chunks_mut(8) {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            let b = z.to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
        e.rng.set(s);
    });
    len as isize
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut Timespec) -> c_int {
    let c = ENV.try_with(|e| e.clock.get()).unwrap_or(0);
    if c != 0 && id == 0 {
        (*ts).sec = c;
        (*ts).nsec = 0;
        return 0;
    }
    syscall(228, id as c_long, ts) as c_int
}

fn pstr(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p).to_string_lossy().into_owned() }
}
/// Decides the fate of a mutating call. None: go ahead.
fn gate(f: &mut Fs, ev: Ev) -> Option<Act> {
    if f.crashed {
        return Some(Act::Crash);
    }
    let k = f.log.len();
    f.log.push(ev);
    let hit = f.plan.iter().chain(f.more.iter()).find(|(n, _)| *n == k).map(|(_, a)| a.clone());
    if let Some(a) = hit {
        f.fired = true;
        if matches!(a, Act::Crash | Act::CrashTorn) {
            f.crashed = true;
        }
        return Some(a);
    }
    if matches!(f.log.last(), Some(Ev::Write { .. })) {
        if let Some(a) = &f.every_write {
            f.fired = true;
            return Some(a.clone());
        }
    }
    None
}
fn denied(a: Act) -> c_int {
    match a {
        Act::Fail(e) => set_errno(e),
        _ => set_errno(EIO),
    }
    -1
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let wr = flags & 3 != 0;
    let creat = flags & 0o100 != 0;
    let trunc = flags & 0o1000 != 0;
    let excl = flags & 0o200 != 0;
    let mut name = String::new();
    point(false);
    if let Some(f) = fs() {
        name = pstr(path);
        if name.starts_with(&f.root) && (wr || creat || trunc) {
            let mut st = [0u8; 256];
            let existed = syscall(4, path, st.as_mut_ptr()) == 0;
            let ev = Ev::Open { path: name.clone(), creat, trunc, excl, existed };
            if let Some(a) = gate(f, ev) {
                return denied(if matches!(a, Act::Short(_)) { Act::Fail(EIO) } else { a });
            }
        }
    }
    let fd = syscall(257, dir as c_long, path, flags as c_long, mode as c_long) as c_int;
    if fd >= 0 {
        if let Some(f) = fs() {
            if name.starts_with(&f.root) {
                f.fds.insert(fd, (name, wr));
            }
        }
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(f) = fs() {
        f.fds.remove(&fd);
    }
    syscall(3, fd as c_long) as c_int
}
/// Returns Err(()) when the call was answered (errno set), Ok(n) the number of bytes to transfer.
fn write_gate(fd: c_int, n: usize) -> Result<usize, ()> {
    point(false);
    if let Some(f) = fs() {
        if let Some((p, _)) = f.fds.get(&fd).cloned() {
            let was = f.crashed;
            if let Some(a) = gate(f, Ev::Write { path: p, n }) {
                return match a {
                    Act::Short(0) => Ok((n / 2).max(1)),
                    Act::Short(k) => Ok(k.min(n).max(1)),
                    Act::CrashTorn if !was => Ok(usize::MAX),
                    a => {
                        denied(a);
                        Err(())
                    }
                };
            }
        }
    }
    Ok(n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match write_gate(fd, n) {
        Ok(usize::MAX) => {
            syscall(1, fd as c_long, buf, n / 2);
            set_errno(EIO);
            -1
        }
        Ok(k) => syscall(1, fd as c_long, buf, k) as isize,
        Err(()) => -1,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    match write_gate(fd, n) {
        Ok(usize::MAX) => {
            syscall(18, fd as c_long, buf, n / 2, off);
            set_errno(EIO);
            -1
        }
        Ok(k) => syscall(18, fd as c_long, buf, k, off) as isize,
        Err(()) => -1,
    }
}
#[repr(C)]
pub struct Iov {
    base: *const c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const Iov, cnt: c_int) -> isize {
    let tracked = fs().is_some_and(|f| f.fds.contains_key(&fd));
    if tracked && cnt > 0 {
        // one buffer at a time: a legal short write
        let v = &*iov;
        return write(fd, v.base, v.len);
    }
    syscall(20, fd as c_long, iov, cnt as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    point(true);
    if let Some(f) = fs() {
        if f.fds.contains_key(&fd) {
            let k = f.reads;
            f.reads += 1;
            if let Some((i, a)) = f.read_plan.clone() {
                if i == k || (i == usize::MAX && n > 1) {
                    f.fired = true;
                    match a {
                        Act::Fail(e) => {
                            set_errno(e);
                            return -1;
                        }
                        Act::Short(m) => return syscall(0, fd as c_long, buf, m.clamp(1, n.max(1)).min(n)) as isize,
                        _ => {}
                    }
                }
            }
        }
    }
    syscall(0, fd as c_long, buf, n) as isize
}
macro_rules! path_call {
    ($name:ident, $nr:expr, ($($a:ident : $t:ty),*), $ev:expr, $root:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            point(false);
            if let Some(f) = fs() {
                if $root.starts_with(&f.root) {
                    if let Some(a) = gate(f, $ev) { return denied(a); }
                }
            }
            syscall($nr, $($a as c_long),*) as c_int
        }
    };
}
path_call!(unlink, 87, (p: *const c_char), Ev::Unlink { path: pstr(p) }, pstr(p));
path_call!(unlinkat, 263, (d: c_int, p: *const c_char, fl: c_int), Ev::Unlink { path: pstr(p) }, pstr(p));
path_call!(rename, 82, (a: *const c_char, b: *const c_char), Ev::Rename { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(renameat, 264, (d: c_int, a: *const c_char, e: c_int, b: *const c_char), Ev::Rename { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(renameat2, 316, (d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: u32), Ev::Rename { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(link, 86, (a: *const c_char, b: *const c_char), Ev::Link { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(linkat, 265, (d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int), Ev::Link { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(symlink, 88, (a: *const c_char, b: *const c_char), Ev::Link { from: pstr(a), to: pstr(b) }, pstr(b));
path_call!(mkdir, 83, (p: *const c_char, m: u32), Ev::Mkdir { path: pstr(p) }, pstr(p));
path_call!(rmdir, 84, (p: *const c_char), Ev::Unlink { path: pstr(p) }, pstr(p));
macro_rules! fd_call {
    ($name:ident, $nr:expr, ($fd:ident $(, $a:ident : $t:ty)*), $mk:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($fd: c_int $(, $a: $t)*) -> c_int {
            point(false);
            if let Some(f) = fs() {
                if let Some((p, _)) = f.fds.get(&$fd).cloned() {
                    let mk: fn(String $(, $t)*) -> Ev = $mk;
                    if let Some(a) = gate(f, mk(p $(, $a)*)) { return denied(a); }
                }
            }
            syscall($nr, $fd as c_long $(, $a as c_long)*) as c_int
        }
    };
}
fd_call!(fsync, 74, (fd), |p| Ev::Sync { path: p });
fd_call!(fdatasync, 75, (fd), |p| Ev::Sync { path: p });
fd_call!(ftruncate, 77, (fd, n: i64), |p, n| Ev::Trunc { path: p, n });
fd_call!(ftruncate64, 77, (fd, n: i64), |p, n| Ev::Trunc { path: p, n });
/// Refused, so that callers fall back to read and write, which are under control.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, fl: u32) -> isize {
    if fs().is_some() {
        set_errno(38);
        return -1;
    }
    syscall(326, a as c_long, oa, b as c_long, ob, n, fl as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut i64, n: usize) -> isize {
    if fs().is_some() {
        set_errno(38);
        return -1;
    }
    syscall(40, a as c_long, b as c_long, off, n) as isize
}
