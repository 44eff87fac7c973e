//! What a call changes beside what it is asked to make (P42): files of the simulated
//! disk, and the calls that would change the file system.  The latter are recorded and
//! answered as on a medium that can only be read.

use simcore::{world, Image, OnDisk};
use std::collections::BTreeMap;
use std::os::raw::{c_char, c_int};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};
use std::sync::Mutex;

/// a run in which every call is watched
static WATCHED: AtomicBool = AtomicBool::new(false);
/// a call is going on
static ON: AtomicBool = AtomicBool::new(false);
static OUTPUT: Mutex<String> = Mutex::new(String::new());
static RECORD: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn watch() {
    WATCHED.store(true, SeqCst);
}
/// The only file the next calls may make or change.
pub fn allow(name: &str) {
    *OUTPUT.lock().unwrap_or_else(|e| e.into_inner()) = name.to_string();
}
fn allowed(name: &str) -> bool {
    let o = OUTPUT.lock().unwrap_or_else(|e| e.into_inner());
    !o.is_empty() && (name == *o || name.ends_with(&format!("/{}", o)))
}

/// the highest descriptor that was given out during a call
static HIGHEST: AtomicI32 = AtomicI32::new(-1);
/// Descriptors open now.
pub fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
/// The first descriptor that is free.
fn free() -> c_int {
    unsafe {
        let fd = libc::dup(2);
        libc::close(fd);
        fd
    }
}
/// Descriptors a call has open at a time, and those it leaves open.
pub fn count<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    let (before, first) = (descriptors(), free());
    HIGHEST.store(first - 1, SeqCst);
    let r = f();
    let most = (HIGHEST.load(SeqCst) + 1 - first).max(0) as usize;
    (r, most, descriptors().saturating_sub(before))
}

pub type Before = BTreeMap<String, OnDisk>;
pub fn begin() -> Option<Before> {
    if !WATCHED.load(SeqCst) {
        return None;
    }
    let mut w = world();
    w.rw.clear();
    let b = w.disk.clone();
    drop(w);
    RECORD.lock().unwrap_or_else(|e| e.into_inner()).clear();
    ON.store(true, SeqCst);
    Some(b)
}
pub fn end(before: Option<Before>) -> Vec<String> {
    let Some(before) = before else { return vec![] };
    ON.store(false, SeqCst);
    let mut v = std::mem::take(&mut *RECORD.lock().unwrap_or_else(|e| e.into_inner()));
    let w = world();
    for name in w.rw.iter().filter(|n| !allowed(n)) {
        v.push(format!("{} is opened for writing", name));
    }
    for name in w.disk.keys().filter(|n| !before.contains_key(*n) && !allowed(n)) {
        v.push(format!("{} is made", name));
    }
    for (name, old) in before.iter().filter(|(n, _)| !allowed(n)) {
        match w.disk.get(name) {
            None => v.push(format!("{} is removed", name)),
            Some(new) if !same(old, new) => v.push(format!("{} is changed", name)),
            _ => {}
        }
    }
    v
}

fn same(a: &OnDisk, b: &OnDisk) -> bool {
    match (a, b) {
        (OnDisk::Broken, OnDisk::Broken) => true,
        (OnDisk::Valid(a), OnDisk::Valid(b)) => std::sync::Arc::ptr_eq(a, b) || equal(a, b),
        _ => false,
    }
}
fn equal(a: &Image, b: &Image) -> bool {
    let values = |a: &BTreeMap<String, simcore::Value>, b: &BTreeMap<String, simcore::Value>| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| format!("{:?}", x) == format!("{:?}", y))
    };
    values(&a.attrs, &b.attrs)
        && values(&a.data, &b.data)
        && a.groups.len() == b.groups.len()
        && a.groups.iter().zip(&b.groups).all(|(x, y)| x.0 == y.0 && equal(x.1, y.1))
}

// ---------------------------------------------------------------- the file system

/// Whether a call that would change `path` is to be refused; records it.
unsafe fn refused(what: &str, path: *const c_char) -> bool {
    if !ON.load(SeqCst) || path.is_null() {
        return false;
    }
    let p = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    if p.starts_with("/dev/") || p.starts_with("/proc/") || allowed(&p) {
        return false;
    }
    RECORD.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{} would be {}", p, what));
    *libc::__errno_location() = libc::EROFS;
    true
}
const WRITES: c_int = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC;

unsafe fn open_at(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if flags & WRITES != 0 && refused("written", path) {
        return -1;
    }
    let fd = libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int;
    HIGHEST.fetch_max(fd, SeqCst);
    fd
}

/// # Safety
/// as open(2)
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
/// # Safety
/// as openat(2)
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open_at(dir, path, flags, mode)
}

macro_rules! changes {
    ($($name:ident $what:literal $sys:ident ($($a:ident: $t:ty),*) $path:ident;)*) => {$(
        /// # Safety
        /// as the system call
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if refused($what, $path) {
                return -1;
            }
            libc::syscall(libc::$sys, $($a),*) as c_int
        }
    )*};
}
changes! {
    unlink "removed" SYS_unlink (path: *const c_char) path;
    unlinkat "removed" SYS_unlinkat (dir: c_int, path: *const c_char, flags: c_int) path;
    rmdir "removed" SYS_rmdir (path: *const c_char) path;
    mkdir "made" SYS_mkdir (path: *const c_char, mode: libc::mode_t) path;
    mkdirat "made" SYS_mkdirat (dir: c_int, path: *const c_char, mode: libc::mode_t) path;
    rename "renamed" SYS_rename (path: *const c_char, to: *const c_char) path;
    link "linked" SYS_link (path: *const c_char, to: *const c_char) to;
    linkat "linked" SYS_linkat (d: c_int, path: *const c_char, e: c_int, to: *const c_char, flags: c_int) to;
    symlink "made" SYS_symlink (from: *const c_char, path: *const c_char) path;
    chmod "changed" SYS_chmod (path: *const c_char, mode: libc::mode_t) path;
    truncate64 "cut" SYS_truncate (path: *const c_char, len: i64) path;
}
