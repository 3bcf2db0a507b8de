//! Calls std makes into libc, taken over for session threads: hash seeds, the data
//! directory, the environment variable, and stray writes to the terminal.
use crate::plan::{Class, FaultKind};
use crate::world::{lock, op, sid, Verdict, HOST};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
use std::sync::OnceLock;

fn real(name: &CStr) -> *mut c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    let me = sid();
    if me == HOST {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let mut g = lock();
    let w = g.as_mut().unwrap();
    let seed = w.seed;
    for b in out.iter_mut() {
        w.sess[me].getrandom_n += 1;
        let n = w.sess[me].getrandom_n;
        *b = crate::rng::mix2(seed ^ 0x9d7f, (me as u64) << 32 | n) as u8;
    }
    len as isize
}

type ClockFn = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int;
/// Clocks of a session show simulated time.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    if sid() == HOST {
        let r = *REAL.get_or_init(|| real(c"clock_gettime") as usize);
        return std::mem::transmute::<usize, ClockFn>(r)(clock, t);
    }
    let us = crate::world::NOW.load(std::sync::atomic::Ordering::Relaxed);
    let base: i64 = if clock == libc::CLOCK_REALTIME { 1_700_000_000 + wall_offset(us) } else { 1000 };
    (*t).tv_sec = base + (us / 1_000_000) as i64;
    (*t).tv_nsec = (us % 1_000_000) as i64 * 1000;
    0
}

/// In every other run the wall clock is set again and again, forwards and backwards.
pub fn wall_offset(us: u64) -> i64 {
    let seed = crate::world::WALL.load(std::sync::atomic::Ordering::Relaxed);
    if seed % 2 == 0 {
        return 0;
    }
    let every = [300, 20_000, 1_000_000, 60_000_000][(seed >> 8) as usize % 4];
    (crate::rng::mix2(seed, us / every) % 200_000) as i64 - 100_000
}

/// Every session is a process of its own.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    let me = sid();
    if me == HOST {
        return libc::syscall(libc::SYS_getpid) as c_int;
    }
    10_000 + 7 * me as c_int
}

type MkdirFn = unsafe extern "C" fn(*const c_char, libc::mode_t) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r: MkdirFn =
        std::mem::transmute::<usize, MkdirFn>(*REAL.get_or_init(|| real(c"mkdir") as usize));
    let me = sid();
    if me == HOST {
        return r(path, mode);
    }
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    let (mut g, v) = op(me, Class::Mkdir);
    let w = g.as_mut().unwrap();
    let set = |e: c_int| *libc::__errno_location() = e;
    match v {
        Verdict::Dead => {
            set(libc::EIO);
            return -1;
        }
        Verdict::Fail(FaultKind::Errno(e)) => {
            set(e);
            return -1;
        }
        Verdict::Fail(FaultKind::Full) => {
            set(libc::ENOSPC);
            return -1;
        }
        Verdict::Fail(FaultKind::ErrAfter) => {
            make_dir(w, &p, r, path, mode);
            set(libc::EIO);
            return -1;
        }
        Verdict::Fail(_) => {
            set(libc::EIO);
            return -1;
        }
        Verdict::Go => {}
    }
    w.sess[me].mkdirs += 1;
    let e = make_dir(w, &p, r, path, mode);
    w.note(|| format!("s{me} mkdir {p} -> {e}"));
    if e != 0 {
        set(e);
        return -1;
    }
    0
}

/// Directories are taken to be durable once made (the property says nothing about them).
unsafe fn make_dir(
    w: &mut crate::world::World,
    p: &str,
    r: MkdirFn,
    path: *const c_char,
    mode: libc::mode_t,
) -> c_int {
    if w.disk.dirs.contains(p) {
        return libc::EEXIST;
    }
    let par = crate::disk::parent(p);
    if !w.disk.dirs.contains(par) {
        return if w.disk.lookup(par).is_some() { libc::ENOTDIR } else { libc::ENOENT };
    }
    w.disk.dirs.insert(p.to_string());
    if !p.starts_with('/') {
        r(path, mode);
    }
    0
}

type GetenvFn = unsafe extern "C" fn(*const c_char) -> *mut c_char;
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    static REAL: OnceLock<usize> = OnceLock::new();
    let me = sid();
    if me != HOST && CStr::from_ptr(name).to_bytes() == b"_B_UTIL_DATA_DIR" {
        let g = lock();
        let s = &g.as_ref().unwrap().sess[me];
        return match &s.plan.env {
            None => std::ptr::null_mut(),
            // Leaked: the caller copies it.
            Some(v) => std::ffi::CString::new(v.as_str()).unwrap().into_raw(),
        };
    }
    let r = *REAL.get_or_init(|| real(c"getenv") as usize);
    std::mem::transmute::<usize, GetenvFn>(r)(name)
}

type WriteFn = unsafe extern "C" fn(c_int, *const c_void, usize) -> isize;
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    static REAL: OnceLock<usize> = OnceLock::new();
    let me = sid();
    if me != HOST && (fd == 1 || fd == 2) {
        let data = std::slice::from_raw_parts(buf as *const u8, n);
        if fd == 1 {
            return match crate::hooks::tty_write(me, data) {
                Ok(n) => n as isize,
                Err(e) => {
                    *libc::__errno_location() = e.raw_os_error().unwrap_or(libc::EIO);
                    -1
                }
            };
        }
        let mut g = lock();
        g.as_mut().unwrap().sess[me].stderr.push_str(&String::from_utf8_lossy(data));
        return n as isize;
    }
    let r = *REAL.get_or_init(|| real(c"write") as usize);
    std::mem::transmute::<usize, WriteFn>(r)(fd, buf, n)
}

/// Files opened behind SQLite's back: recorded, and kept inside the scratch directory.
fn stray(path: &CStr, what: &str, writes: bool) -> bool {
    let me = sid();
    if me == HOST {
        return true;
    }
    let p = path.to_string_lossy().into_owned();
    let abs = p.starts_with('/') || p.split('/').any(|x| x == "..");
    if abs && !writes && ["/dev/", "/proc/", "/sys/", "/etc/", "/usr/", "/lib"].iter().any(|d| p.starts_with(d)) {
        return true;
    }
    if let Ok(mut g) = crate::world::WORLD.try_lock() {
        if let Some(w) = g.as_mut() {
            w.note(|| format!("s{me} {what} {p}"));
            w.sess[me].foreign.push(format!("{what} {p}"));
        }
    }
    !(abs && writes)
}

fn refuse() -> c_int {
    unsafe { *libc::__errno_location() = libc::EACCES };
    -1
}

type OpenFn = unsafe extern "C" fn(*const c_char, c_int, c_uint) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r = *REAL.get_or_init(|| real(c"open64") as usize);
    let w = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    if !stray(CStr::from_ptr(path), "opens", w) {
        return refuse();
    }
    std::mem::transmute::<usize, OpenFn>(r)(path, flags, mode)
}

type PathFn = unsafe extern "C" fn(*const c_char) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r = *REAL.get_or_init(|| real(c"unlink") as usize);
    let me = sid();
    if me != HOST && !crate::vfs::mirroring() {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        if p.starts_with(&format!("{}/", crate::run::DATA)) {
            let (mut g, v) = op(me, Class::Delete);
            let w = g.as_mut().unwrap();
            w.note(|| format!("s{me} unlinks {p}"));
            let e = match v {
                Verdict::Go if w.disk.unlink(&p) => 0,
                Verdict::Go => libc::ENOENT,
                _ => libc::EIO,
            };
            if e != 0 {
                *libc::__errno_location() = e;
                return -1;
            }
            w.sess[me].store_ops += 1;
            std::mem::transmute::<usize, PathFn>(r)(path);
            return 0;
        }
    }
    if !stray(CStr::from_ptr(path), "unlinks", true) {
        return refuse();
    }
    std::mem::transmute::<usize, PathFn>(r)(path)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r = *REAL.get_or_init(|| real(c"rmdir") as usize);
    if !stray(CStr::from_ptr(path), "removes directory", true) {
        return refuse();
    }
    std::mem::transmute::<usize, PathFn>(r)(path)
}
type RenameFn = unsafe extern "C" fn(*const c_char, *const c_char) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r = *REAL.get_or_init(|| real(c"rename") as usize);
    if !stray(CStr::from_ptr(a), "renames", true) || !stray(CStr::from_ptr(b), "renames to", true) {
        return refuse();
    }
    std::mem::transmute::<usize, RenameFn>(r)(a, b)
}

type StatxFn = unsafe extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int;
/// Questions about the data directory are answered from the simulated disk.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    let r = *REAL.get_or_init(|| real(c"statx") as usize);
    let me = sid();
    if me != HOST && !path.is_null() {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        if p == crate::run::DATA || p.starts_with(&format!("{}/", crate::run::DATA)) {
            let p = p.trim_end_matches('/').to_string();
            if let Ok(g) = crate::world::WORLD.try_lock() {
                if let Some(w) = g.as_ref() {
                    std::ptr::write_bytes(out, 0, 1);
                    let o = &mut *out;
                    o.stx_mask = libc::STATX_BASIC_STATS;
                    o.stx_blksize = 4096;
                    o.stx_nlink = 1;
                    if w.disk.dirs.contains(&p) {
                        o.stx_mode = (libc::S_IFDIR | 0o755) as u16;
                        return 0;
                    }
                    if let Some(ino) = w.disk.lookup(&p) {
                        o.stx_mode = (libc::S_IFREG | 0o644) as u16;
                        o.stx_size = w.disk.inodes[&ino].vol.len() as u64;
                        return 0;
                    }
                    *libc::__errno_location() = libc::ENOENT;
                    return -1;
                }
            }
        }
    }
    std::mem::transmute::<usize, StatxFn>(r)(fd, path, flags, mask, out)
}
