//! A SQLite VFS on the simulated disk. The real SQLite engine runs on top of it.
use crate::disk::Locks;
use crate::sched::*;
use libsqlite3_sys as ffi;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::{Mutex, Once};

#[repr(C)]
struct File { base: ffi::sqlite3_file, id: u64 }

enum Target { Path(String), Temp(Vec<u8>) }
struct Handle { t: Target, lock: c_int, delete_on_close: bool }

static HANDLES: Mutex<BTreeMap<u64, Handle>> = Mutex::new(BTreeMap::new());
static NEXT: Mutex<u64> = Mutex::new(1);

fn handles() -> std::sync::MutexGuard<'static, BTreeMap<u64, Handle>> { HANDLES.lock().unwrap_or_else(|e| e.into_inner()) }

/// Does an armed fault hit this operation?
pub(crate) fn fault(g: &mut Core, class: Class) -> Option<FaultCode> {
    if !g.unsafe_windows && g.fault_shielded() { return None; }
    let mut hit = None;
    for f in g.faults.iter_mut() {
        if f.class.map_or(false, |c| c != class) { continue; }
        if f.class.is_none() && matches!(class, Class::Lock) { continue; }
        if f.after > 0 { f.after -= 1; continue; }
        if f.span > 0 { f.span -= 1; f.fired += 1; hit = Some(f.code); break; }
    }
    if let Some(c) = hit {
        *g.stats.faults.entry(format!("{:?}:{:?}", class, c)).or_default() += 1;
        g.note("FAULT", class as u64);
    }
    hit
}

/// Enter a disk operation: delay, scheduling point, kill, fault.
fn enter(what: &str, detail: u64, class: Class) -> Result<Option<FaultCode>, c_int> {
    if core().killed { return Err(ffi::SQLITE_IOERR); }
    let delay = {
        let mut g = core();
        g.stats.disk_ops += 1;
        if g.stall_next > 0 {
            g.stats.stalls += 1;
            std::mem::take(&mut g.stall_next)
        } else if g.lat_permille > 0 && matches!(class, Class::Write | Class::Sync | Class::Read) {
            let p = g.lat_permille;
            if g.frng.chance(p, 1000) { g.stats.stalls += 1; let m = g.lat_max; g.frng.below(m.max(1)) } else { 0 }
        } else { 0 }
    };
    if delay > 0 { sleep_ns(delay); }
    yield_point(what, detail, true);
    let mut g = core();
    if g.killed { return Err(ffi::SQLITE_IOERR); }
    Ok(fault(&mut g, class))
}

fn id_of(f: *mut ffi::sqlite3_file) -> u64 { unsafe { (*(f as *mut File)).id } }

fn path_of(id: u64) -> Option<String> {
    match handles().get(&id) { Some(Handle { t: Target::Path(p), .. }) => Some(p.clone()), _ => None }
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    let id = id_of(f);
    let h = handles().remove(&id);
    if let Some(Handle { t: Target::Path(p), delete_on_close, .. }) = h {
        let mut g = core();
        if let Some(l) = g.disk.locks.get_mut(&p) { release(l, id, 0); }
        if delete_on_close && !g.killed { g.disk.files.remove(&p); }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    let id = id_of(f);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let copy = |v: &[u8], out: &mut [u8]| -> c_int {
        let off = off as usize;
        let avail = v.len().saturating_sub(off).min(out.len());
        if avail > 0 { out[..avail].copy_from_slice(&v[off..off + avail]); }
        if avail < out.len() { out[avail..].fill(0); ffi::SQLITE_IOERR_SHORT_READ } else { ffi::SQLITE_OK }
    };
    let Some(p) = path_of(id) else {
        let h = handles();
        if let Some(Handle { t: Target::Temp(v), .. }) = h.get(&id) { return copy(v, out); }
        return ffi::SQLITE_IOERR_READ;
    };
    match enter("read", off as u64, Class::Read) {
        Err(e) => return e,
        Ok(Some(_)) => return ffi::SQLITE_IOERR_READ,
        Ok(None) => {}
    }
    let g = core();
    match g.disk.files.get(&p) { Some(file) => copy(&file.cur, out), None => ffi::SQLITE_IOERR_READ }
}

unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: ffi::sqlite3_int64) -> c_int {
    let id = id_of(f);
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let off = off as usize;
    let Some(p) = path_of(id) else {
        let mut h = handles();
        if let Some(Handle { t: Target::Temp(v), .. }) = h.get_mut(&id) {
            if v.len() < off + data.len() { v.resize(off + data.len(), 0); }
            v[off..off + data.len()].copy_from_slice(data);
            return ffi::SQLITE_OK;
        }
        return ffi::SQLITE_IOERR_WRITE;
    };
    let r = enter("write", off as u64, Class::Write);
    let mut g = core();
    if g.killed {
        // The process died inside this write: a sector-aligned part of it may have been done.
        if g.kill_torn {
            g.kill_torn = false;
            let secs = (data.len() / crate::disk::SECTOR) as u64;
            let k = g.frng.below(secs + 1) as usize * crate::disk::SECTOR;
            if k > 0 {
                if let Some(file) = g.disk.files.get_mut(&p) { file.write(off, &data[..k]); }
                *g.stats.kills.entry("torn write".into()).or_default() += 1;
            }
        }
        return ffi::SQLITE_IOERR;
    }
    match r {
        Err(e) => return e,
        Ok(Some(code)) => {
            if code == FaultCode::Short {
                let k = g.frng.below(data.len() as u64) as usize;
                if let Some(file) = g.disk.files.get_mut(&p) { file.write(off, &data[..k]); }
            }
            return if code == FaultCode::Full { ffi::SQLITE_FULL } else { ffi::SQLITE_IOERR_WRITE };
        }
        Ok(None) => {}
    }
    match g.disk.files.get_mut(&p) { Some(file) => { file.write(off, data); ffi::SQLITE_OK } None => ffi::SQLITE_IOERR_WRITE }
}

unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, size: ffi::sqlite3_int64) -> c_int {
    let id = id_of(f);
    let Some(p) = path_of(id) else {
        if let Some(Handle { t: Target::Temp(v), .. }) = handles().get_mut(&id) { v.resize(size as usize, 0); }
        return ffi::SQLITE_OK;
    };
    match enter("truncate", size as u64, Class::Trunc) {
        Err(e) => return e,
        Ok(Some(_)) => return ffi::SQLITE_IOERR_TRUNCATE,
        Ok(None) => {}
    }
    match core().disk.files.get_mut(&p) { Some(file) => { file.truncate(size as usize); ffi::SQLITE_OK } None => ffi::SQLITE_IOERR_TRUNCATE }
}

unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let id = id_of(f);
    let Some(p) = path_of(id) else { return ffi::SQLITE_OK };
    match enter("sync", 0, Class::Sync) {
        Err(e) => return e,
        Ok(Some(_)) => return ffi::SQLITE_IOERR_FSYNC,
        Ok(None) => {}
    }
    if let Some(file) = core().disk.files.get_mut(&p) { file.sync(); }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_file_size(f: *mut ffi::sqlite3_file, size: *mut ffi::sqlite3_int64) -> c_int {
    let id = id_of(f);
    let n = match handles().get(&id) {
        Some(Handle { t: Target::Temp(v), .. }) => v.len(),
        Some(Handle { t: Target::Path(p), .. }) => match core().disk.files.get(p) { Some(f) => f.cur.len(), None => 0 },
        None => return ffi::SQLITE_IOERR_FSTAT,
    };
    *size = n as i64;
    ffi::SQLITE_OK
}

fn release(l: &mut Locks, id: u64, level: c_int) {
    if level < 4 && l.exclusive == Some(id) { l.exclusive = None; }
    if level < 3 && l.pending == Some(id) { l.pending = None; }
    if level < 2 && l.reserved == Some(id) { l.reserved = None; }
    if level < 1 { l.shared.remove(&id); }
}

unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let id = id_of(f);
    let Some(p) = path_of(id) else { return ffi::SQLITE_OK };
    match enter("lock", level as u64, Class::Lock) {
        Err(e) => return e,
        Ok(Some(_)) => return ffi::SQLITE_BUSY,
        Ok(None) => {}
    }
    let cur = handles().get(&id).map(|h| h.lock).unwrap_or(0);
    if cur >= level { return ffi::SQLITE_OK; }
    let mut g = core();
    let l = g.disk.locks.entry(p).or_default();
    let ok = match level {
        1 => {
            let ok = l.exclusive.map_or(true, |x| x == id) && l.pending.map_or(true, |x| x == id);
            if ok { l.shared.insert(id); }
            ok
        }
        2 => { let ok = l.reserved.map_or(true, |x| x == id) && l.exclusive.is_none() && l.pending.is_none(); if ok { l.reserved = Some(id); } ok }
        _ => {
            if l.reserved.map_or(false, |x| x != id) || l.pending.map_or(false, |x| x != id) { false }
            else {
                l.pending = Some(id);
                let ok = l.shared.iter().all(|x| *x == id);
                if ok { l.exclusive = Some(id); }
                ok
            }
        }
    };
    drop(g);
    if ok { if let Some(h) = handles().get_mut(&id) { h.lock = level; } ffi::SQLITE_OK } else { ffi::SQLITE_BUSY }
}

unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let id = id_of(f);
    if let Some(p) = path_of(id) {
        let mut g = core();
        if let Some(l) = g.disk.locks.get_mut(&p) { release(l, id, level); }
        drop(g);
        if let Some(h) = handles().get_mut(&id) { h.lock = level; }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let id = id_of(f);
    *out = 0;
    if let Some(p) = path_of(id) {
        if let Some(l) = core().disk.locks.get(&p) { if l.reserved.is_some() { *out = 1; } }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_file_control(_f: *mut ffi::sqlite3_file, _op: c_int, _arg: *mut c_void) -> c_int { ffi::SQLITE_NOTFOUND }
unsafe extern "C" fn x_sector_size(_f: *mut ffi::sqlite3_file) -> c_int { crate::disk::SECTOR as c_int }
unsafe extern "C" fn x_device(_f: *mut ffi::sqlite3_file) -> c_int { ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE as c_int }

struct Methods(ffi::sqlite3_io_methods);
unsafe impl Sync for Methods {}
unsafe impl Send for Methods {}
static METHODS: std::sync::OnceLock<Methods> = std::sync::OnceLock::new();

fn methods() -> *const ffi::sqlite3_io_methods {
    &METHODS.get_or_init(|| {
        let mut m: ffi::sqlite3_io_methods = unsafe { std::mem::zeroed() };
        m.iVersion = 1;
        m.xClose = Some(x_close);
        m.xRead = Some(x_read);
        m.xWrite = Some(x_write);
        m.xTruncate = Some(x_truncate);
        m.xSync = Some(x_sync);
        m.xFileSize = Some(x_file_size);
        m.xLock = Some(x_lock);
        m.xUnlock = Some(x_unlock);
        m.xCheckReservedLock = Some(x_check_reserved);
        m.xFileControl = Some(x_file_control);
        m.xSectorSize = Some(x_sector_size);
        m.xDeviceCharacteristics = Some(x_device);
        Methods(m)
    }).0
}

unsafe extern "C" fn v_open(_v: *mut ffi::sqlite3_vfs, name: *const c_char, f: *mut ffi::sqlite3_file, flags: c_int, out_flags: *mut c_int) -> c_int {
    (*f).pMethods = std::ptr::null();
    let id = { let mut n = NEXT.lock().unwrap_or_else(|e| e.into_inner()); *n += 1; *n };
    let t = if name.is_null() { Target::Temp(vec![]) } else {
        let p = CStr::from_ptr(name).to_string_lossy().into_owned();
        match enter("open", 0, Class::Open) {
            Err(_) => return ffi::SQLITE_CANTOPEN,
            Ok(Some(_)) => return ffi::SQLITE_CANTOPEN,
            Ok(None) => {}
        }
        let mut g = core();
        if !g.disk.files.contains_key(&p) {
            if flags & ffi::SQLITE_OPEN_CREATE == 0 { return ffi::SQLITE_CANTOPEN; }
            let dir = std::path::Path::new(&p).parent().map(|d| d.to_string_lossy().into_owned()).unwrap_or_default();
            if !g.disk.dirs.contains(&dir) { return ffi::SQLITE_CANTOPEN; }
            g.disk.files.insert(p.clone(), Default::default());
        }
        Target::Path(p)
    };
    handles().insert(id, Handle { t, lock: 0, delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0 });
    (*(f as *mut File)).id = id;
    (*f).pMethods = methods();
    if !out_flags.is_null() { *out_flags = flags; }
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _sync: c_int) -> c_int {
    let p = CStr::from_ptr(name).to_string_lossy().into_owned();
    match enter("delete", 0, Class::Delete) {
        Err(_) => return ffi::SQLITE_IOERR_DELETE,
        Ok(Some(_)) => return ffi::SQLITE_IOERR_DELETE,
        Ok(None) => {}
    }
    match core().disk.files.remove(&p) { Some(_) => ffi::SQLITE_OK, None => ffi::SQLITE_IOERR_DELETE_NOENT }
}

unsafe extern "C" fn v_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _flags: c_int, out: *mut c_int) -> c_int {
    let p = CStr::from_ptr(name).to_string_lossy().into_owned();
    let g = core();
    *out = (g.disk.files.contains_key(&p) || g.disk.dirs.contains(&p)) as c_int;
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_full(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let s = CStr::from_ptr(name).to_bytes_with_nul();
    if s.len() > n as usize { return ffi::SQLITE_CANTOPEN; }
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, out, s.len());
    ffi::SQLITE_OK
}

unsafe extern "C" fn v_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let mut g = core();
    for i in 0..n as usize { *out.add(i) = g.vfs_rand.u64() as u8 as c_char; }
    n
}
unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int { sleep_ns(us as u64 * 1000); us }
unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int { *out = 2460000.5 + core().now as f64 / 86_400e9; ffi::SQLITE_OK }
unsafe extern "C" fn v_time64(_v: *mut ffi::sqlite3_vfs, out: *mut ffi::sqlite3_int64) -> c_int {
    *out = 212_544_000_000_000 + (core().now / 1_000_000) as i64;
    ffi::SQLITE_OK
}
unsafe extern "C" fn v_err(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int { 0 }

static REG: Once = Once::new();

pub fn register() {
    REG.call_once(|| unsafe {
        let v: &'static mut ffi::sqlite3_vfs = Box::leak(Box::new(std::mem::zeroed()));
        v.iVersion = 2;
        v.szOsFile = std::mem::size_of::<File>() as c_int;
        v.mxPathname = 1024;
        v.zName = c"klaviersim".as_ptr();
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        v.xAccess = Some(v_access);
        v.xFullPathname = Some(v_full);
        v.xRandomness = Some(v_random);
        v.xSleep = Some(v_sleep);
        v.xCurrentTime = Some(v_time);
        v.xCurrentTimeInt64 = Some(v_time64);
        v.xGetLastError = Some(v_err);
        let rc = ffi::sqlite3_vfs_register(v, 1);
        assert_eq!(rc, ffi::SQLITE_OK);
    });
}

/// SQLite keeps one process-wide PRNG: make it draw a fresh seed from the simulation.
pub fn reset_randomness() { unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) } }
