//! The operating-system seams: `read(2)` and directory listing, taken over for files
//! below the scratch directory of this process while a conversion runs.

use simcore::{op, Class, Kind};
use std::collections::BTreeMap;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static ACTIVE: AtomicBool = AtomicBool::new(false);
/// at most this many bytes per read, 0: as many as asked for
static CHOP: AtomicU64 = AtomicU64::new(0);
static DIR_SEED: AtomicU64 = AtomicU64::new(0);
static PREFIX: Mutex<String> = Mutex::new(String::new());

struct Listing {
    entries: Vec<Vec<u64>>,
    at: usize,
}
static DIRS: Mutex<BTreeMap<usize, Listing>> = Mutex::new(BTreeMap::new());

/// Take over the seams below `prefix` (an absolute path).
pub fn activate(prefix: &str, chop: u64, dir_seed: u64) {
    *PREFIX.lock().unwrap_or_else(|e| e.into_inner()) = prefix.to_string();
    CHOP.store(chop, SeqCst);
    DIR_SEED.store(dir_seed, SeqCst);
    ACTIVE.store(true, SeqCst);
}
pub fn deactivate() {
    ACTIVE.store(false, SeqCst);
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

fn scratch_name(fd: c_int) -> Option<String> {
    let p = std::fs::read_link(format!("/proc/self/fd/{}", fd)).ok()?;
    let p = p.to_str()?;
    let pre = PREFIX.lock().unwrap_or_else(|e| e.into_inner()).clone();
    p.strip_prefix(&pre).map(|s| s.trim_start_matches('/').to_string())
}

unsafe fn raw_read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

/// # Safety
/// as read(2)
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !ACTIVE.load(SeqCst) || std::thread::panicking() {
        return raw_read(fd, buf, n);
    }
    let Some(name) = scratch_name(fd) else { return raw_read(fd, buf, n) };
    let mut n = n;
    let chop = CHOP.load(SeqCst) as usize;
    if chop > 0 && n > chop {
        n = chop;
    }
    match op_unwinding(Class::SysRead, &name) {
        Ok(()) => raw_read(fd, buf, n),
        Err(f) => match f.kind {
            Kind::ShortRead => raw_read(fd, buf, n.min((f.arg as usize).max(1))),
            Kind::Eintr => {
                *libc::__errno_location() = libc::EINTR;
                -1
            }
            _ => {
                *libc::__errno_location() = libc::EIO;
                -1
            }
        },
    }
}

/// A crash inside a C function must not unwind through it: it is noted and raised
/// by the next seam that can.
fn op_unwinding(class: Class, name: &str) -> Result<(), simcore::Fault> {
    match std::panic::catch_unwind(|| op(class, name)) {
        Ok(r) => r,
        Err(_) => Err(simcore::Fault { class, nth: 0, kind: Kind::Error, arg: 0 }),
    }
}

type ReadDir = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;

/// # Safety
/// as readdir(3)
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    let real: ReadDir = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"readdir64".as_ptr()));
    if !ACTIVE.load(SeqCst) || scratch_name(libc::dirfd(dir)).is_none() {
        return real(dir);
    }
    if op_unwinding(Class::DirRead, "entry").is_err() {
        *libc::__errno_location() = libc::EIO;
        return std::ptr::null_mut();
    }
    let mut dirs = DIRS.lock().unwrap_or_else(|e| e.into_inner());
    let l = dirs.entry(dir as usize).or_insert_with(|| {
        let mut entries = vec![];
        loop {
            let e = real(dir);
            if e.is_null() {
                break;
            }
            let len = (*e).d_reclen as usize;
            let mut v = vec![0u64; std::mem::size_of::<libc::dirent64>() / 8 + 1];
            std::ptr::copy_nonoverlapping(e as *const u8, v.as_mut_ptr() as *mut u8, len);
            entries.push(v);
        }
        // the file system's own order must not show
        entries.sort_by_key(|v| name_of(v));
        crate::rng::Rng::new(DIR_SEED.load(SeqCst)).shuffle(&mut entries);
        Listing { entries, at: 0 }
    });
    if l.at >= l.entries.len() {
        // the end is told from an error by errno, which waiting for the baton may have set
        *libc::__errno_location() = 0;
        return std::ptr::null_mut();
    }
    l.at += 1;
    l.entries[l.at - 1].as_mut_ptr() as *mut libc::dirent64
}

fn name_of(v: &[u64]) -> Vec<u8> {
    unsafe {
        let e = v.as_ptr() as *const libc::dirent64;
        std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes().to_vec()
    }
}

type CloseDir = unsafe extern "C" fn(*mut libc::DIR) -> c_int;

/// # Safety
/// as closedir(3)
#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> c_int {
    DIRS.lock().unwrap_or_else(|e| e.into_inner()).remove(&(dir as usize));
    let real: CloseDir = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"closedir".as_ptr()));
    real(dir)
}

// ---------------------------------------------------------------- clock and randomness

static CLOCK: AtomicBool = AtomicBool::new(false);
static CLOCK_SEED: AtomicU64 = AtomicU64::new(0);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

/// From here on this process runs on the simulated clock.
pub fn clock_on(seed: u64) {
    CLOCK_SEED.store(seed, SeqCst);
    CLOCK_NS.store(1_000_000_000_000, SeqCst);
    CLOCK_READS.store(0, SeqCst);
    CLOCK.store(true, SeqCst);
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(SeqCst)
}

/// # Safety
/// as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if !CLOCK.load(SeqCst) || !matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME) {
        return libc::syscall(libc::SYS_clock_gettime, id, t) as c_int;
    }
    let n = CLOCK_READS.fetch_add(1, SeqCst);
    let seed = CLOCK_SEED.load(SeqCst);
    // time passes by a nanosecond, a microsecond, a second or an hour
    let step = [1, 1_000, 1_000_000_000, 3_600_000_000_000][(crate::rng::h(&[seed, n]) % 4) as usize];
    let mut now = CLOCK_NS.fetch_add(step, SeqCst) + step;
    if id == libc::CLOCK_REALTIME {
        // the wall clock may be set back or forward at any time
        now += crate::rng::h(&[seed, n, 1]) % 900_000_000_000;
    }
    (*t).tv_sec = (now / 1_000_000_000) as libc::time_t;
    (*t).tv_nsec = (now % 1_000_000_000) as libc::c_long;
    0
}

/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *(buf as *mut u8).add(i) = (crate::rng::h(&[CLOCK_SEED.load(SeqCst), 7, i as u64]) & 255) as u8;
    }
    n as isize
}
