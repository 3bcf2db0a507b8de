//! A SQLite VFS over the simulated disk. Every call is a scheduling point and a fault point.
use crate::disk::{self, Shm, ShmRegion};
use crate::plan::{Class, FaultKind};
use crate::world::{self, lock, op, sid, Handle, Verdict, HOST};
use libsqlite3_sys as ffi;
use std::cell::UnsafeCell;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::Arc;

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    handle: u64,
    ino: u64,
    sid: usize,
    level: c_int,
}

const OK: c_int = ffi::SQLITE_OK;
const IOERR: c_int = ffi::SQLITE_IOERR;

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

pub fn register() {
    unsafe {
        let vfs = Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<SimFile>() as c_int,
            mxPathname: 512,
            pNext: std::ptr::null_mut(),
            zName: c"bcalcsim".as_ptr(),
            pAppData: std::ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full_path),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_randomness),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_time),
            xGetLastError: Some(x_last_error),
            xCurrentTimeInt64: Some(x_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        });
        let rc = ffi::sqlite3_vfs_register(Box::into_raw(vfs), 1);
        assert_eq!(rc, OK);
    }
}

fn f<'a>(p: *mut ffi::sqlite3_file) -> &'a mut SimFile {
    unsafe { &mut *(p as *mut SimFile) }
}
fn name(z: *const c_char) -> String {
    unsafe { CStr::from_ptr(z) }.to_string_lossy().into_owned()
}

fn is_main_file(path: &str) -> bool {
    !(path.ends_with("-journal") || path.ends_with("-wal") || path.ends_with("-shm"))
}
// A placeholder in the real scratch directory, for code that looks at the directory.
thread_local! {
    static MIRROR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn mirroring() -> bool {
    MIRROR.with(|m| m.get())
}
fn mirror(path: &str, exists: bool) {
    MIRROR.with(|m| m.set(true));
    mirror_file(path, exists);
    MIRROR.with(|m| m.set(false));
}
fn mirror_file(path: &str, exists: bool) {
    if is_main_file(path) && !path.starts_with('/') {
        if exists {
            let _ = std::fs::File::create(path);
        } else {
            let _ = std::fs::remove_file(path);
        }
    }
}

unsafe extern "C" fn x_open(
    _v: *mut ffi::sqlite3_vfs,
    z: *const c_char,
    file: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let fl = f(file);
    fl.base.pMethods = std::ptr::null();
    let path = if z.is_null() { None } else { Some(name(z)) };
    let (mut g, v) = op(sid(), Class::Open);
    let me = sid();
    match v {
        Verdict::Dead => return IOERR,
        Verdict::Fail(FaultKind::Full) => return ffi::SQLITE_FULL,
        Verdict::Fail(_) => return ffi::SQLITE_CANTOPEN,
        Verdict::Go => {}
    }
    let w = g.as_mut().unwrap();
    let mut created = false;
    let ino = match &path {
        None => w.disk.anon(),
        Some(p) => {
            if !w.disk.dirs.contains(disk::parent(p)) {
                return ffi::SQLITE_CANTOPEN;
            }
            match w.disk.lookup(p) {
                Some(i) => {
                    if flags & ffi::SQLITE_OPEN_EXCLUSIVE != 0 && flags & ffi::SQLITE_OPEN_CREATE != 0 {
                        return ffi::SQLITE_CANTOPEN;
                    }
                    i
                }
                None if flags & ffi::SQLITE_OPEN_CREATE != 0 => {
                    created = true;
                    mirror(p, true);
                    w.disk.create(p)
                }
                None => return ffi::SQLITE_CANTOPEN,
            }
        }
    };
    w.disk.opened(ino);
    w.next_handle += 1;
    let h = w.next_handle;
    let dirsync = flags & (ffi::SQLITE_OPEN_MAIN_JOURNAL | ffi::SQLITE_OPEN_SUPER_JOURNAL | ffi::SQLITE_OPEN_WAL)
        != 0
        && flags & ffi::SQLITE_OPEN_CREATE != 0;
    w.note(|| format!("s{} open {:?}{}", sname(me), path, if created { " (new)" } else { "" }));
    w.handles.insert(
        h,
        Handle {
            sid: me,
            ino,
            path: path.clone(),
            level: 0,
            delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0,
            dirsync,
        },
    );
    fl.handle = h;
    fl.ino = ino;
    fl.sid = me;
    fl.level = 0;
    fl.base.pMethods = &METHODS;
    if !out.is_null() {
        *out = flags;
    }
    OK
}

fn sname(s: usize) -> String {
    if s == HOST {
        "host".into()
    } else {
        s.to_string()
    }
}

unsafe extern "C" fn x_close(file: *mut ffi::sqlite3_file) -> c_int {
    let fl = f(file);
    let mut g = lock();
    let w = match g.as_mut() {
        Some(w) => w,
        None => return OK,
    };
    if let Some(h) = w.handles.remove(&fl.handle) {
        w.disk.closed(h.ino, fl.handle);
        if h.delete_on_close {
            if let Some(p) = h.path {
                w.disk.unlink(&p);
            }
        }
    }
    fl.base.pMethods = std::ptr::null();
    OK
}

unsafe extern "C" fn x_read(file: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Read);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_READ;
    }
    let w = g.as_mut().unwrap();
    let node = w.disk.ino(fl.ino);
    let (n, off) = (n as usize, off as usize);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let have = node.vol.len().saturating_sub(off).min(n);
    if have > 0 {
        out[..have].copy_from_slice(&node.vol[off..off + have]);
    }
    if have < n {
        out[have..].fill(0);
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    OK
}

unsafe extern "C" fn x_write(file: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let fl = f(file);
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let (mut g, v) = op(fl.sid, Class::Write);
    let w = g.as_mut().unwrap();
    let off = off as usize;
    match v {
        Verdict::Go => {
            w.disk.ino(fl.ino).write(off, data);
            w.mixlog_bytes(&data[..data.len().min(64)]);
            OK
        }
        Verdict::Dead => IOERR,
        Verdict::Fail(FaultKind::Full) => ffi::SQLITE_FULL,
        Verdict::Fail(FaultKind::Short) => {
            let k = data.len() / 2;
            w.disk.ino(fl.ino).write(off, &data[..k]);
            ffi::SQLITE_FULL
        }
        Verdict::Fail(FaultKind::ErrAfter) => {
            w.disk.ino(fl.ino).write(off, data);
            ffi::SQLITE_IOERR_WRITE
        }
        Verdict::Fail(_) => ffi::SQLITE_IOERR_WRITE,
    }
}

unsafe extern "C" fn x_truncate(file: *mut ffi::sqlite3_file, size: i64) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Trunc);
    let w = g.as_mut().unwrap();
    match v {
        Verdict::Go => {
            w.disk.ino(fl.ino).truncate(size as usize);
            OK
        }
        Verdict::Dead => IOERR,
        Verdict::Fail(FaultKind::ErrAfter) => {
            w.disk.ino(fl.ino).truncate(size as usize);
            ffi::SQLITE_IOERR_TRUNCATE
        }
        Verdict::Fail(_) => ffi::SQLITE_IOERR_TRUNCATE,
    }
}

unsafe extern "C" fn x_sync(file: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Sync);
    let w = g.as_mut().unwrap();
    match v {
        Verdict::Dead => return IOERR,
        Verdict::Go | Verdict::Fail(FaultKind::ErrAfter) => {
            w.disk.ino(fl.ino).sync();
            if let Some(h) = w.handles.get_mut(&fl.handle) {
                if h.dirsync {
                    h.dirsync = false;
                    let d = disk::parent(h.path.as_deref().unwrap_or("")).to_string();
                    w.disk.sync_dir(&d);
                }
            }
        }
        Verdict::Fail(_) => {}
    }
    match v {
        Verdict::Go => OK,
        _ => ffi::SQLITE_IOERR_FSYNC,
    }
}

unsafe extern "C" fn x_file_size(file: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Size);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_FSTAT;
    }
    *out = g.as_mut().unwrap().disk.ino(fl.ino).vol.len() as i64;
    OK
}

unsafe extern "C" fn x_lock(file: *mut ffi::sqlite3_file, want: c_int) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Lock);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_LOCK;
    }
    let w = g.as_mut().unwrap();
    let (lvl, rc) = match w.disk.ino(fl.ino).lock(fl.handle, fl.level, want) {
        Ok(l) => (l, OK),
        Err(l) => (l, ffi::SQLITE_BUSY),
    };
    fl.level = lvl;
    if rc != OK {
        w.busy_returns += 1;
    }
    if let Some(h) = w.handles.get_mut(&fl.handle) {
        h.level = lvl;
    }
    let s = fl.sid;
    w.note(|| format!("s{} lock {want} -> {}", sname(s), if rc == OK { "ok" } else { "busy" }));
    w.mixlog(rc as u64 + 77);
    rc
}

unsafe extern "C" fn x_unlock(file: *mut ffi::sqlite3_file, to: c_int) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Unlock);
    match v {
        Verdict::Dead => {
            fl.level = to;
            return OK;
        }
        _ => {}
    }
    let w = g.as_mut().unwrap();
    if to < fl.level {
        w.disk.ino(fl.ino).unlock(fl.handle, to);
        fl.level = to;
        if let Some(h) = w.handles.get_mut(&fl.handle) {
            h.level = to;
        }
    }
    let s = fl.sid;
    w.note(|| format!("s{} unlock {to}", sname(s)));
    OK
}

unsafe extern "C" fn x_check_reserved(file: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Lock);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_CHECKRESERVEDLOCK;
    }
    *out = g.as_mut().unwrap().disk.ino(fl.ino).reserved_for(fl.handle) as c_int;
    OK
}

unsafe extern "C" fn x_file_control(_f: *mut ffi::sqlite3_file, _op: c_int, _p: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector_size(_f: *mut ffi::sqlite3_file) -> c_int {
    let g = lock();
    g.as_ref().map(|w| w.disk.sector as c_int).unwrap_or(4096)
}
unsafe extern "C" fn x_device(_f: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

unsafe extern "C" fn x_shm_map(
    file: *mut ffi::sqlite3_file,
    pg: c_int,
    sz: c_int,
    extend: c_int,
    out: *mut *mut c_void,
) -> c_int {
    let fl = f(file);
    *out = std::ptr::null_mut();
    let (mut g, v) = op(fl.sid, Class::Shm);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_SHMMAP;
    }
    let w = g.as_mut().unwrap();
    let shm = w.disk.ino(fl.ino).shm.get_or_insert_with(Shm::new);
    while shm.regions.len() <= pg as usize {
        if extend == 0 {
            return OK;
        }
        shm.regions.push(Arc::new(ShmRegion(UnsafeCell::new(
            vec![0u8; sz as usize].into_boxed_slice(),
        ))));
    }
    *out = (*shm.regions[pg as usize].0.get()).as_mut_ptr() as *mut c_void;
    OK
}
unsafe extern "C" fn x_shm_lock(file: *mut ffi::sqlite3_file, off: c_int, n: c_int, flags: c_int) -> c_int {
    let fl = f(file);
    let (mut g, v) = op(fl.sid, Class::Shm);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_SHMLOCK;
    }
    let w = g.as_mut().unwrap();
    let h = fl.handle;
    let shm = w.disk.ino(fl.ino).shm.get_or_insert_with(Shm::new);
    let r = off as usize..(off + n) as usize;
    if flags & ffi::SQLITE_SHM_UNLOCK != 0 {
        for i in r {
            shm.shared[i].remove(&h);
            if shm.excl[i] == Some(h) {
                shm.excl[i] = None;
            }
        }
        return OK;
    }
    let excl = flags & ffi::SQLITE_SHM_EXCLUSIVE != 0;
    for i in r.clone() {
        if shm.excl[i].map(|e| e != h).unwrap_or(false)
            || (excl && shm.shared[i].iter().any(|&s| s != h))
        {
            w.busy_returns += 1;
            return ffi::SQLITE_BUSY;
        }
    }
    for i in r {
        if excl {
            shm.excl[i] = Some(h);
        } else {
            shm.shared[i].insert(h);
        }
    }
    OK
}
unsafe extern "C" fn x_shm_barrier(_f: *mut ffi::sqlite3_file) {}
unsafe extern "C" fn x_shm_unmap(file: *mut ffi::sqlite3_file, del: c_int) -> c_int {
    let fl = f(file);
    let mut g = lock();
    let w = match g.as_mut() {
        Some(w) => w,
        None => return OK,
    };
    if fl.sid != HOST && w.sess[fl.sid].dead {
        return OK;
    }
    if let Some(n) = w.disk.inodes.get_mut(&fl.ino) {
        if let Some(s) = &mut n.shm {
            s.release(fl.handle);
            if del != 0 && !s.in_use() {
                let s = n.shm.take().unwrap();
                w.graveyard.push(s);
            }
        }
    }
    OK
}

unsafe extern "C" fn x_delete(_v: *mut ffi::sqlite3_vfs, z: *const c_char, sync_dir: c_int) -> c_int {
    let path = name(z);
    let me = sid();
    let (mut g, v) = op(me, Class::Delete);
    let w = g.as_mut().unwrap();
    let fail = match v {
        Verdict::Go => false,
        Verdict::Dead => return IOERR,
        Verdict::Fail(FaultKind::ErrAfter) => true,
        Verdict::Fail(_) => return ffi::SQLITE_IOERR_DELETE,
    };
    w.note(|| format!("s{} delete {path} sync={sync_dir}", sname(me)));
    if !w.disk.unlink(&path) {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    mirror(&path, false);
    if sync_dir != 0 && !fail {
        w.disk.sync_dir(disk::parent(&path));
    }
    if fail {
        return ffi::SQLITE_IOERR_DELETE;
    }
    OK
}

unsafe extern "C" fn x_access(_v: *mut ffi::sqlite3_vfs, z: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let path = name(z);
    let (mut g, v) = op(sid(), Class::Access);
    if !matches!(v, Verdict::Go) {
        return ffi::SQLITE_IOERR_ACCESS;
    }
    let w = g.as_mut().unwrap();
    *out = match w.disk.file(&path) {
        // As the unix VFS: an empty file does not count as existing.
        Some(c) => (flags != ffi::SQLITE_ACCESS_EXISTS || !c.is_empty()) as c_int,
        None => 0,
    };
    OK
}

unsafe extern "C" fn x_full_path(_v: *mut ffi::sqlite3_vfs, z: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let s = CStr::from_ptr(z).to_bytes_with_nul();
    if s.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, out, s.len());
    OK
}

unsafe extern "C" fn x_randomness(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    // Called with SQLite's generator lock held: no scheduling here.
    let mut g = lock();
    for i in 0..n as usize {
        let b = match g.as_mut() {
            Some(w) => {
                let seed = w.seed;
                w.next_handle += 1;
                crate::rng::mix2(seed, w.next_handle) as u8
            }
            None => 1,
        };
        *out.add(i) = b as c_char;
    }
    n
}

unsafe extern "C" fn x_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    sleep(us as u64);
    us
}

/// Sleeping is a scheduling point that lets simulated time pass.
pub fn sleep(us: u64) {
    let me = sid();
    let mut g = lock();
    if me == HOST || g.as_ref().map(|w| w.sess[me].dead).unwrap_or(true) {
        return;
    }
    {
        let w = g.as_mut().unwrap();
        w.count_op(me, Class::Sleep);
        w.note(|| format!("s{me} sleeps {us}us"));
        w.mixlog(us ^ 0x511);
    }
    drop(world::pause(g, me, us));
}

const EPOCH_MS: i64 = 212_566_760_000_000;
unsafe extern "C" fn x_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    let g = lock();
    let us = g.as_ref().map(|w| w.clock).unwrap_or(0);
    let ms = us as i64 / 1000 + crate::interpose::wall_offset(us) * 1000;
    *out = (EPOCH_MS + ms) as f64 / 86_400_000.0;
    OK
}
unsafe extern "C" fn x_time64(_v: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    let g = lock();
    let us = g.as_ref().map(|w| w.clock).unwrap_or(0);
    *out = EPOCH_MS + us as i64 / 1000 + crate::interpose::wall_offset(us) * 1000;
    OK
}
unsafe extern "C" fn x_last_error(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}
