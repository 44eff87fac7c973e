//! Executes operations on a real up4 handle inside the simulated world.

use crate::analysis::{Call, Kind, Out, KINDS};
use crate::data::{Ds, Stats};
use crate::scn::{Op, Scn};
use crate::spec::{GridSpec, SelSpec};
use simcore::{local, world, BudgetExceeded, Class, CrashSignal, Fault};
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::datamanager::{Manager, PData, TData, Timestep};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fk {
    /// the call failed loudly
    Failed,
    /// the simulated process died
    Crash,
    /// the call did not end within its operation budget
    Endless,
}

#[derive(Clone, Debug, Default)]
pub enum Got {
    Step(Box<StepData>),
    Out(Out),
    Stats(Box<Stats>),
    #[default]
    Unit,
    Fail(Fk),
}
impl Got {
    pub fn failed(&self) -> bool {
        matches!(self, Got::Fail(_))
    }
}

/// Content of one timestep as a user sees it.
#[derive(Clone, Debug)]
pub struct StepData {
    pub parts: [(&'static str, Vec<f64>); 8],
}

impl StepData {
    pub fn read(t: &Timestep) -> StepData {
        let flat = |a: &ndarray::Array1<f64>| a.iter().copied().collect::<Vec<f64>>();
        StepData {
            parts: [
                ("time", vec![*t.time()]),
                ("position", t.position().iter().flatten().copied().collect()),
                ("velocity", t.velocity().iter().copied().collect()),
                ("radius", flat(t.radius())),
                ("id", flat(t.particleid())),
                ("cloud", flat(t.clouds())),
                ("density", flat(t.density())),
                ("type", flat(t.ptype())),
            ],
        }
    }
    pub fn stored(ds: &Ds, k: usize) -> StepData {
        let st = &ds.steps[k];
        let col = |f: &dyn Fn(&crate::data::Row) -> f64| st.rows.iter().map(f).collect::<Vec<f64>>();
        StepData {
            parts: [
                ("time", vec![st.time]),
                ("position", st.rows.iter().flat_map(|r| r.pos).collect()),
                ("velocity", st.rows.iter().flat_map(|r| r.vel).collect()),
                ("radius", col(&|r| r.radius)),
                ("id", col(&|r| r.id)),
                ("cloud", col(&|r| r.cloud)),
                ("density", col(&|r| r.density)),
                ("type", col(&|r| r.ptype)),
            ],
        }
    }
    /// First difference, exact.
    pub fn differ(&self, want: &StepData) -> Option<String> {
        for ((n, a), (_, b)) in self.parts.iter().zip(&want.parts) {
            if a.len() != b.len() {
                return Some(format!("{} has {} values instead of {}", n, a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if !same(*x, *y) {
                    return Some(format!("{}[{}] is {:?} instead of {:?}", n, i, x, y));
                }
            }
        }
        None
    }
}

pub fn same(x: f64, y: f64) -> bool {
    x == y || (x.is_nan() && y.is_nan())
}

pub fn stats_differ(a: &Stats, b: &Stats) -> Option<String> {
    let flat = |s: &Stats| -> Vec<(&'static str, Vec<f64>)> {
        vec![
            ("dimensions", s.dims.iter().flatten().copied().collect()),
            ("particle number", vec![s.npart as f64]),
            ("timesteps", vec![s.nsteps as f64]),
            ("time range", s.time.to_vec()),
            ("sample rate", vec![s.rate]),
            ("velocity", s.vel.iter().flatten().copied().collect()),
            ("velocity magnitude", s.velmag.to_vec()),
            ("time array", s.times.clone()),
        ]
    };
    for ((n, x), (_, y)) in flat(a).iter().zip(flat(b)) {
        if x.len() != y.len() || x.iter().zip(&y).any(|(p, q)| !same(*p, *q)) {
            return Some(format!("{} is {:?} instead of {:?}", n, x, y));
        }
    }
    None
}

/// What an operation did.
#[derive(Clone, Debug, Default)]
pub struct Done {
    pub got: Got,
    pub fired: Vec<Fault>,
    /// polls for a pending interrupt
    pub polls: u64,
    pub total: u64,
    /// operations executed after the (first) fault fired
    pub after_fault: u64,
    pub counts: [u64; simcore::NCLASS],
    /// the most that was held meanwhile, above what was held before; what is held of the result included
    pub peak: i64,
    pub kept: i64,
    pub result: i64,
    pub since: i64,
    /// open cursors beside the handle
    pub cursors: usize,
    /// what was changed beside the output
    pub wrote: Vec<String>,
    /// files open afterwards
    pub open: usize,
    /// of a conversion: descriptors open at a time, and left open
    pub files: (usize, usize),
}
impl Done {
    pub fn interrupted(&self) -> bool {
        self.fired.iter().any(|f| f.kind == simcore::Kind::Interrupt)
    }
}

/// Dataset knobs of a scenario -> dataset; `salt` picks one of several.
pub fn dataset(s: &Scn, salt: i64) -> Ds {
    crate::data::set_unit(s.get("unit"));
    Ds::generate(
        if salt == 0 { s.get("layout") } else { s.get("layout2") } == 1,
        s.get("nt").max(1) as usize,
        s.get("np").max(0) as usize,
        (s.get("dseed") + salt) as u64,
        s.get("flags"),
    )
}

pub fn set_window(w: usize) {
    upppp_rust::datamanager::SIM_WINDOW_SIZE.store(w, std::sync::atomic::Ordering::SeqCst);
}

/// bits of an analysis operation
pub const PREFILL: i64 = 1;
pub const INVALID: i64 = 2;
pub const HEAVY: i64 = 4;
/// look at the parts of the field as well: layers, depth averages, single values
pub const PARTS: i64 = 8;
/// remove outliers from the field
pub const CLEAN: i64 = 16;
/// and do so with values in all cells
pub const DENSE: i64 = 64;

/// `an kind grid sel seed bits`
pub fn call_of(op: &Op, ds: &Ds) -> Call {
    Call {
        kind: KINDS[op.arg(0) as usize % KINDS.len()],
        grid: GridSpec::generate(op.arg(1) as u64),
        sel: SelSpec::generate(op.arg(2) as u64, ds, op.arg(4) & HEAVY != 0),
        seed: op.arg(3) as u64,
        prefill: op.arg(4) & PREFILL != 0,
        invalid: op.arg(4) & INVALID != 0,
        views: op.arg(4) & PARTS != 0,
        clean: op.arg(4) & CLEAN != 0,
        dense: op.arg(4) & DENSE != 0,
        usual: false,
    }
}

/// Operation budget: far above anything a call needs, far below "for ever".
pub fn budget(ds: &Ds) -> u64 {
    let t = ds.stats.nsteps as u64 + 2;
    let n = ds.stats.npart as u64 + 2;
    2000 + 60 * t * 24 + 60 * t * n * 24
}

pub struct Session<'a> {
    pub ds: &'a Ds,
    pub file: String,
    pub handle: Option<Box<dyn Manager>>,
    /// cursors that are open (ids 0..)
    pub cursors: Vec<bool>,
    /// grids the user fills
    pub grids: crate::own::Grids,
    /// operations done
    pub done: usize,
}

impl<'a> Session<'a> {
    pub fn new(ds: &'a Ds, file: &str) -> Session<'a> {
        Session { ds, file: file.into(), handle: None, cursors: vec![], grids: Default::default(), done: 0 }
    }

    fn open(&mut self) {
        self.handle = None;
        self.cursors.clear();
        self.handle = Some(if self.ds.by_particle {
            Box::new(PData::new(&self.file))
        } else {
            Box::new(TData::new(&self.file))
        });
    }

    fn raw(&mut self, op: &Op) -> Got {
        if self.handle.is_none() || op.name == "open" {
            self.open();
            if op.name == "open" {
                return Got::Unit;
            }
            // opening fills the window of the main cursor, that is no part of a pass over another one
            if op.name == "cpass" {
                world().reads.clear();
            }
        }
        let nt = self.ds.stats.nsteps;
        match op.name.as_str() {
            // read t
            "read" => {
                let m = self.handle.as_mut().unwrap();
                Got::Step(Box::new(StepData::read(m.get_timestep(op.arg(0) as usize % nt))))
            }
            // cread cursor t
            "cread" | "cbad" => {
                let c = op.arg(0) as usize;
                for i in 0..=c {
                    if self.cursors.len() <= i {
                        self.cursors.push(false);
                    }
                    if !self.cursors[i] {
                        self.handle.as_mut().unwrap().setup_buffer(i);
                        self.cursors[i] = true;
                    }
                }
                let t = if op.name == "cbad" { nt + op.arg(1) as usize } else { op.arg(1) as usize % nt };
                let m = self.handle.as_mut().unwrap();
                Got::Step(Box::new(StepData::read(m.get_timestep_buffer(t, c))))
            }
            // csetup cursor: open it again
            "csetup" => {
                let c = op.arg(0) as usize;
                for i in 0..=c {
                    if self.cursors.len() <= i {
                        self.cursors.push(false);
                    }
                    if !self.cursors[i] || i == c {
                        self.cursors[i] = false;
                        self.handle.as_mut().unwrap().setup_buffer(i);
                        self.cursors[i] = true;
                    }
                }
                Got::Unit
            }
            "unbuf" => {
                let m = self.handle.as_ref().unwrap();
                Got::Step(Box::new(StepData::read(&m.get_timestep_unbuffered(op.arg(0) as usize % nt))))
            }
            // a dataset that does not exist
            "missing" => {
                if op.arg(0) == 0 {
                    TData::new("none.h5");
                } else {
                    PData::new("none.h5");
                }
                Got::Unit
            }
            // a timestep the dataset does not have, `off` behind the last one
            "bad" => {
                let m = self.handle.as_mut().unwrap();
                Got::Step(Box::new(StepData::read(m.get_timestep(nt + op.arg(0) as usize))))
            }
            "ubad" => {
                let m = self.handle.as_ref().unwrap();
                Got::Step(Box::new(StepData::read(&m.get_timestep_unbuffered(nt + op.arg(0) as usize))))
            }
            "stats" => {
                let g = self.handle.as_ref().unwrap().global_stats();
                let mut s = Stats {
                    npart: *g.nparticles(),
                    nsteps: *g.timesteps(),
                    time: [*g.min_time(), *g.max_time()],
                    rate: *g.sample_rate(),
                    times: g.time_array().to_vec(),
                    ..Stats::default()
                };
                let shapes = [g.dimensions().shape(), g.velocity().shape()];
                if shapes[0] != [2, 3] || shapes[1] != [3, 3] || g.velocity_mag().len() != 3 {
                    panic!("shape of the statistics");
                }
                for a in 0..3 {
                    for i in 0..2 {
                        s.dims[i][a] = g.dimensions()[[i, a]];
                    }
                    for i in 0..3 {
                        s.vel[i][a] = g.velocity()[[i, a]];
                    }
                    s.velmag[a] = g.velocity_mag()[a];
                }
                Got::Stats(Box::new(s))
            }
            "info" => {
                let r = self.handle.as_ref().unwrap().info();
                if r.is_err() {
                    panic!("info failed");
                }
                Got::Unit
            }
            // a whole forward pass
            "pass" => {
                let m = self.handle.as_mut().unwrap();
                let mut last = None;
                for t in 0..nt {
                    last = Some(StepData::read(m.get_timestep(t)));
                }
                Got::Step(Box::new(last.unwrap()))
            }
            // a whole forward pass over an additional cursor
            "cpass" => {
                let c = op.arg(0) as usize;
                for i in 0..=c {
                    if self.cursors.len() <= i {
                        self.cursors.push(false);
                    }
                    if !self.cursors[i] || i == c {
                        self.cursors[i] = false;
                        self.handle.as_mut().unwrap().setup_buffer(i);
                        self.cursors[i] = true;
                    }
                }
                let m = self.handle.as_mut().unwrap();
                let mut last = None;
                for t in 0..nt {
                    last = Some(StepData::read(m.get_timestep_buffer(t, c)));
                }
                Got::Step(Box::new(last.unwrap()))
            }
            "an" => {
                let call = call_of(op, self.ds);
                if call.kind.two_cursors() {
                    if self.cursors.is_empty() {
                        self.cursors.push(false);
                    }
                    self.cursors[0] = false;
                }
                let out = call.run(&mut **self.handle.as_mut().unwrap(), self.ds);
                if call.kind.two_cursors() && call.kind != Kind::Lookup {
                    self.cursors[0] = true;
                }
                Got::Out(out)
            }
            n if crate::own::OPS.contains(&n) => {
                crate::own::exec(&mut self.grids, &mut **self.handle.as_mut().unwrap(), op, self.done - 1, self.ds)
            }
            other => panic!("unknown operation {}", other),
        }
    }

    /// Execute one operation with its faults.
    pub fn exec(&mut self, op: &Op) -> Done {
        self.done += 1;
        guarded(budget(self.ds), &op.faults, || self.raw(op))
    }
}

/// Run something that crosses seams: plan the faults, catch its failure.
pub fn guarded(budget: u64, faults: &[Fault], f: impl FnOnce() -> Got) -> Done {
    let before = local(|l| {
        l.plan.clear();
        l.interrupt_at = None;
        for f in faults {
            if f.kind == simcore::Kind::Interrupt && f.arg == 1 {
                l.interrupt_at = Some(l.total + f.nth);
            } else {
                let nth = l.counts[f.class as usize] + f.nth;
                l.plan.push(Fault { nth, ..f.clone() });
            }
        }
        l.fire_total = None;
        l.budget = Some(l.total + budget);
        (l.fired.len(), l.counts, l.total)
    });
    let before_it = crate::keep::begin();
    let held = crate::mem::mark();
    let r = catch_unwind(AssertUnwindSafe(f));
    let (peak, kept) = (crate::mem::peak() - held, crate::mem::live() - held);
    let wrote = crate::keep::end(before_it);
    let (fired, counts, total, at) = local(|l| {
        l.plan.clear();
        l.interrupt_at = None;
        l.budget = None;
        (l.fired[before.0..].to_vec(), l.counts, l.total, l.fire_total)
    });
    let got = match r {
        Ok(g) => g,
        Err(e) if e.is::<CrashSignal>() => Got::Fail(Fk::Crash),
        Err(e) if e.is::<BudgetExceeded>() => Got::Fail(Fk::Endless),
        Err(_) => Got::Fail(Fk::Failed),
    };
    let mut d = [0; simcore::NCLASS];
    for (i, x) in d.iter_mut().enumerate() {
        *x = counts[i] - before.1[i];
    }
    // relative to the start of the operation, as planned
    let fired = fired
        .into_iter()
        .map(|f| Fault { nth: f.nth.saturating_sub(before.1[f.class as usize]), ..f })
        .collect();
    Done {
        got,
        fired,
        polls: d[Class::Signal as usize],
        total: total - before.2,
        after_fault: at.map(|a| total - a).unwrap_or(0),
        counts: d,
        peak,
        kept,
        result: 0,
        since: 0,
        cursors: 0,
        wrote,
        open: world().open,
        files: (0, 0),
    }
}

/// The same without faults and without leaving a trace in the event log.
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let old = std::mem::replace(&mut world().quiet, true);
    let r = f();
    world().quiet = old;
    r
}

/// What an operation gave, as plain numbers: name, data, tolerance.
pub fn encode(g: &Got) -> Vec<(String, Vec<f64>, f64, bool)> {
    match g {
        Got::Step(s) => s.parts.iter().map(|(n, d)| (n.to_string(), d.clone(), 1.0, false)).collect(),
        Got::Out(o) => o.parts.iter().map(|p| (p.name.to_string(), p.data.clone(), p.scale, p.square)).collect(),
        Got::Stats(s) => {
            let mut v: Vec<f64> = s.dims.iter().flatten().copied().collect();
            v.extend([s.npart as f64, s.nsteps as f64, s.time[0], s.time[1], s.rate]);
            v.extend(s.vel.iter().flatten());
            v.extend(s.velmag);
            v.extend(&s.times);
            vec![("statistics".into(), v, 1.0, false)]
        }
        Got::Unit => vec![("done".into(), vec![], 1.0, false)],
        Got::Fail(f) => vec![(format!("failure ({:?})", f), vec![], 1.0, false)],
    }
}
/// The outcome for the event log.
pub fn outcome(g: &Got) -> String {
    let mut v = vec![];
    let mut s = String::from(if g.failed() { "gave" } else { "gave " });
    for (n, data, _, _) in encode(g) {
        s += &n;
        s += " ";
        v.push(data.len() as u64);
        v.extend(data.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }));
    }
    format!("{}{:016x}", s, crate::rng::h(&v))
}
