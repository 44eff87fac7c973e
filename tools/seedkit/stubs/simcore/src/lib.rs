//! The simulated world behind every I/O seam of up4.
//!
//! One `World` per process.  Every call the system makes across a seam (HDF5
//! storage, VTK import, interrupt polling, raw `read(2)`, directory listing) goes
//! through [`op`]: it is numbered, hashed into the run's event log, offered to the
//! scheduler (yield point) and matched against the run's fault plan.  Nothing in
//! here reads a clock or any other source of nondeterminism.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard, RwLock};

/// Kind of seam crossed by an operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    /// opening an HDF5 file for reading
    Open = 0,
    /// opening a group, dataset or attribute, listing members
    Meta = 1,
    /// reading data out of a dataset or attribute
    Read = 2,
    /// creating (truncating) an HDF5 file
    Create = 3,
    /// creating or writing a group, dataset or attribute
    Write = 4,
    /// flushing a file
    Flush = 5,
    /// importing a VTK file or loading one of its pieces
    Vtk = 6,
    /// polling for a pending interrupt
    Signal = 7,
    /// raw read(2) on a scratch input file
    SysRead = 8,
    /// reading a directory entry of a scratch folder
    DirRead = 9,
}
pub const NCLASS: usize = 10;
pub const CLASS_NAMES: [&str; NCLASS] = [
    "open", "meta", "read", "create", "write", "flush", "vtk", "signal", "sysread", "dirread",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    /// the operation fails with an I/O error, once
    Error = 0,
    /// from here on every write fails: the disk is full
    NoSpace = 1,
    /// the process dies here; only durable state survives
    Crash = 2,
    /// the write is accepted but never reaches the disk; flush reports it
    LostWrite = 3,
    /// a pending keyboard interrupt
    Interrupt = 4,
    /// read(2) returns fewer bytes than asked for
    ShortRead = 5,
    /// read(2) fails with EINTR
    Eintr = 6,
}
pub const NKIND: usize = 7;
pub const KIND_NAMES: [&str; NKIND] = [
    "error", "nospace", "crash", "lostwrite", "interrupt", "shortread", "eintr",
];

pub fn class_from_name(s: &str) -> Option<Class> {
    use Class::*;
    [Open, Meta, Read, Create, Write, Flush, Vtk, Signal, SysRead, DirRead]
        .into_iter()
        .find(|c| CLASS_NAMES[*c as usize] == s)
}
pub fn kind_from_name(s: &str) -> Option<Kind> {
    use Kind::*;
    [Error, NoSpace, Crash, LostWrite, Interrupt, ShortRead, Eintr]
        .into_iter()
        .find(|c| KIND_NAMES[*c as usize] == s)
}

/// One planned fault: fires on the `nth` (0-based) operation of `class`.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub class: Class,
    pub nth: u64,
    pub kind: Kind,
    /// extra parameter: durable prefix in permille for crashes, bytes for short reads
    pub arg: u64,
}

/// Payload of the panic that stands for the death of the process.
pub struct CrashSignal;
/// Payload of the panic raised when a run exceeds its operation budget.
pub struct BudgetExceeded;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    U8,
    I32,
    U64,
    F64,
}

/// Stored content of a dataset or attribute.
#[derive(Clone, Debug)]
pub struct Value {
    pub ty: Ty,
    pub shape: Vec<usize>,
    pub data: Arc<Vec<f64>>,
}

impl Value {
    pub fn new(ty: Ty, shape: Vec<usize>, data: Vec<f64>) -> Self {
        // HDF5 converts between numeric types when memory and file type differ
        let data = data
            .into_iter()
            .map(|x| match ty {
                Ty::F64 => x,
                Ty::U64 => x.max(0.0).trunc(),
                Ty::U8 => x.max(0.0).min(255.0).trunc(),
                Ty::I32 => x.max(i32::MIN as f64).min(i32::MAX as f64).trunc(),
            })
            .collect();
        Value { ty, shape, data: Arc::new(data) }
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub attrs: BTreeMap<String, Value>,
    pub data: BTreeMap<String, Value>,
    pub groups: BTreeMap<String, Image>,
}

/// A mutation of a file that is being written.
#[derive(Clone, Debug)]
pub enum Change {
    Group(String),
    Data(Option<String>, String, Value),
    Attr(String, Value),
}

impl Image {
    pub fn apply(&mut self, change: &Change) {
        match change {
            Change::Group(g) => {
                self.groups.entry(g.clone()).or_default();
            }
            Change::Data(None, n, v) => {
                self.data.insert(n.clone(), v.clone());
            }
            Change::Data(Some(g), n, v) => {
                self.groups.entry(g.clone()).or_default().data.insert(n.clone(), v.clone());
            }
            Change::Attr(n, v) => {
                self.attrs.insert(n.clone(), v.clone());
            }
        }
    }
}

/// What the simulated disk holds under a name.
#[derive(Clone, Debug)]
pub enum OnDisk {
    /// complete, openable content
    Valid(Arc<Image>),
    /// exists but cannot be opened
    Broken,
}

/// State of a file opened for writing.
#[derive(Debug, Default)]
pub struct Writer {
    pub name: String,
    pub image: Image,
    pub unflushed: Vec<Change>,
    pub durable: Image,
    pub lost: bool,
}

#[derive(Default)]
pub struct World {
    pub disk: BTreeMap<String, OnDisk>,
    pub writers: BTreeMap<u64, Writer>,
    pub next_id: u64,
    pub counts: [u64; NCLASS],
    pub total: u64,
    pub fired: Vec<Fault>,
    pub nospace: bool,
    pub crashed: bool,
    pub log_hash: u64,
    pub log: Option<Vec<String>>,
    /// data reads per storage group ("file/group/dataset")
    pub reads: BTreeMap<String, u64>,
    /// reads are not counted, which takes memory
    pub uncounted: bool,
    /// files opened for reading and writing
    pub rw: Vec<String>,
    /// open files, and the most there were
    pub open: usize,
    pub open_peak: usize,
    /// operations whose class is listed here are free of faults
    pub quiet: bool,
}

/// What belongs to one simulated thread: its own operation counts and fault plan,
/// so that a fault hits the thread it is meant for whatever the interleaving.
#[derive(Default)]
pub struct Local {
    pub counts: [u64; NCLASS],
    pub plan: Vec<Fault>,
    pub fired: Vec<Fault>,
    /// an interrupt is pending once this many operations of the thread are done
    pub interrupt_at: Option<u64>,
    pub total: u64,
    /// operations this thread may do before it counts as endless
    pub budget: Option<u64>,
    /// value of `total` when the first fault of the current operation fired
    pub fire_total: Option<u64>,
}
thread_local! {
    static LOCAL: std::cell::RefCell<Local> = std::cell::RefCell::new(Local::default());
}
pub fn local<R>(f: impl FnOnce(&mut Local) -> R) -> R {
    LOCAL.with(|l| f(&mut l.borrow_mut()))
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
type Hook = Arc<dyn Fn(Class) + Send + Sync>;
static YIELD: RwLock<Option<Hook>> = RwLock::new(None);

pub struct Guard(MutexGuard<'static, Option<World>>);
impl std::ops::Deref for Guard {
    type Target = World;
    fn deref(&self) -> &World {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut World {
        self.0.as_mut().unwrap()
    }
}

pub fn world() -> Guard {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(World::default());
    }
    Guard(g)
}

/// Forget everything: a fresh machine with an empty disk.
pub fn reset() {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    *g = Some(World { log_hash: 0xcbf29ce484222325, ..World::default() });
    local(|l| *l = Local::default());
}

pub fn set_yield(hook: Option<Hook>) {
    *YIELD.write().unwrap_or_else(|e| e.into_inner()) = hook;
}

fn hash_step(h: u64, s: &str) -> u64 {
    let mut h = h;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Cross a seam.  `Ok(())`: proceed normally.  `Err(fault)`: the fault to act out.
pub fn op(class: Class, what: &str) -> Result<(), Fault> {
    let hook = YIELD.read().unwrap_or_else(|e| e.into_inner()).clone();
    if let Some(h) = hook {
        if !std::thread::panicking() {
            h(class);
        }
    }
    let mut w = world();
    if w.quiet {
        return Ok(());
    }
    if w.crashed {
        // a dead process executes nothing; only destructors get here
        return Err(Fault { class, nth: 0, kind: Kind::Error, arg: 0 });
    }
    let nth = w.counts[class as usize];
    w.counts[class as usize] += 1;
    w.total += 1;
    if local(|l| l.budget.is_some_and(|b| l.total >= b)) && !std::thread::panicking() {
        drop(w);
        std::panic::panic_any(BudgetExceeded);
    }
    let mut h = w.log_hash;
    h = hash_step(h, CLASS_NAMES[class as usize]);
    h = hash_step(h, what);
    w.log_hash = h;
    let hit = local(|l| {
        let mine = l.counts[class as usize];
        l.counts[class as usize] += 1;
        l.total += 1;
        if class == Class::Signal && l.interrupt_at.is_some_and(|at| l.total > at) {
            l.interrupt_at = None;
            return Some(Fault { class, nth: mine, kind: Kind::Interrupt, arg: 0 });
        }
        let i = l.plan.iter().position(|f| f.class == class && f.nth == mine)?;
        Some(l.plan.remove(i))
    });
    if let Some(l) = w.log.as_mut() {
        l.push(format!("{}#{} {}", CLASS_NAMES[class as usize], nth, what));
    }
    if let Some(f) = hit {
        w.fired.push(f.clone());
        local(|l| {
            l.fired.push(f.clone());
            l.fire_total.get_or_insert(l.total);
        });
        w.log_hash = hash_step(w.log_hash, KIND_NAMES[f.kind as usize]);
        if let Some(l) = w.log.as_mut() {
            l.push(format!("  !! fault {}", KIND_NAMES[f.kind as usize]));
        }
        match f.kind {
            Kind::NoSpace => w.nospace = true,
            Kind::Crash => {
                w.crashed = true;
                // each open writer leaves a prefix of its changes, or nothing usable
                let ids: Vec<u64> = w.writers.keys().copied().collect();
                for id in ids {
                    let wr = w.writers.remove(&id).unwrap();
                    let state = if f.arg > 1000 {
                        OnDisk::Broken
                    } else {
                        let mut img = wr.durable.clone();
                        let n = (wr.unflushed.len() as u64 * f.arg / 1000) as usize;
                        for c in &wr.unflushed[..n] {
                            img.apply(c);
                        }
                        OnDisk::Valid(Arc::new(img))
                    };
                    w.disk.insert(wr.name.clone(), state);
                }
                drop(w);
                if !std::thread::panicking() {
                    std::panic::panic_any(CrashSignal);
                }
                return Err(f);
            }
            _ => {}
        }
        return Err(f);
    }
    if w.nospace && matches!(class, Class::Write | Class::Flush | Class::Create) {
        return Err(Fault { class, nth, kind: Kind::NoSpace, arg: 0 });
    }
    Ok(())
}

/// Add something to the event log without crossing a seam.
pub fn note(what: &str) {
    let mut w = world();
    w.log_hash = hash_step(w.log_hash, what);
    if let Some(l) = w.log.as_mut() {
        l.push(what.to_string());
    }
}
