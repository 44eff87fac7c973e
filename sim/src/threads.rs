//! Several handles used by several threads (P27), and conversions beside them (P41).
//!
//! The threads are real, but only the one that holds the baton runs.  At every
//! storage operation the scheduler decides who goes on; the decision comes from the
//! seed or from the explicit schedule of a replay file.

use crate::analysis::{close, KINDS};
use crate::convert::Source;
use crate::data::*;
use crate::engine::*;
use crate::interpose;
use crate::rng::Rng;
use crate::scn::{Op, Report, Scn};
use crate::sess;
use simcore::{local, world, Class};
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

pub const PROPS: [&str; 2] = ["P27", "P41"];

struct State {
    current: usize,
    alive: Vec<bool>,
    /// waits for something the code under test locked
    blocked: Vec<bool>,
    rng: Rng,
    chance: f64,
    point: u64,
    explicit: Option<Vec<(u64, usize)>>,
    taken: Vec<(u64, usize)>,
    tid: Vec<i64>,
    handed: u64,
}

struct Baton {
    state: Mutex<State>,
    wake: Condvar,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl State {
    /// Who goes on at this scheduling point.
    fn decide(&mut self, gone: bool) -> usize {
        let n = self.point;
        self.point += 1;
        let others: Vec<usize> =
            (0..self.alive.len()).filter(|i| self.alive[*i] && !self.blocked[*i] && *i != self.current).collect();
        if others.is_empty() {
            return self.current;
        }
        let to = match &self.explicit {
            Some(v) => match v.iter().find(|(p, t)| *p == n && others.contains(t)) {
                Some((_, t)) => *t,
                None if gone => others[0],
                None => self.current,
            },
            None => {
                if gone || self.rng.chance(self.chance) {
                    *self.rng.pick(&others)
                } else {
                    self.current
                }
            }
        };
        if to != self.current {
            self.taken.push((n, to));
        }
        to
    }
}

impl Baton {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize) {
        let mut s = self.lock();
        s.blocked[me] = false;
        while s.current != me {
            s = self.wake.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn point(&self, me: usize) {
        let mut s = self.lock();
        s.handed += 1;
        if s.current == me {
            let to = s.decide(false);
            if to == me {
                return;
            }
            simcore::note("switch");
            s.current = to;
            self.wake.notify_all();
        }
        drop(s);
        self.wait(me);
    }
    fn leave(&self, me: usize) {
        let mut s = self.lock();
        s.alive[me] = false;
        s.handed += 1;
        if s.current == me {
            s.current = s.decide(true);
        }
        self.wake.notify_all();
    }
    /// A thread that sleeps outside the simulator (on a lock another thread holds)
    /// must not keep the baton.
    fn monitor(&self) {
        let mut last = (u64::MAX, 0);
        loop {
            unsafe { libc::usleep(10_000) };
            let mut s = self.lock();
            if !s.alive.iter().any(|a| *a) {
                return;
            }
            if s.handed != last.0 {
                last = (s.handed, 0);
                continue;
            }
            let c = s.current;
            if !s.alive[c] || s.tid[c] == 0 {
                continue;
            }
            let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", s.tid[c])).unwrap_or_default();
            let asleep = stat.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'));
            last.1 = if asleep { last.1 + 1 } else { 0 };
            if last.1 >= 5 {
                s.blocked[c] = true;
                let free: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && !s.blocked[*i]).collect();
                if let Some(t) = free.first() {
                    s.current = *t;
                    s.handed += 1;
                    self.wake.notify_all();
                }
                last = (s.handed, 0);
            }
        }
    }
}

// ---------------------------------------------------------------- generation

pub fn generate(prop: &str, seed: u64, big: bool) -> Scn {
    let mut r = Rng::new(seed);
    let mut s = Scn { prop: prop.into(), seed, ..Scn::default() };
    sess::knobs(&mut s, &mut r, big);
    let layout2 = r.chance(0.4) as i64;
    s.set("layout2", layout2);
    s.set("nt", s.get("nt").min(14));
    s.set("np", s.get("np").min(6));
    let handles = r.range(2, 4);
    s.set("handles", handles);
    // most often one thread each
    let threads = if r.chance(0.2) { r.range(1, handles) } else { handles };
    s.set("threads", threads);
    for hnd in 0..handles {
        let second = r.chance(0.4) as i64;
        s.set(&format!("ds{}", hnd), second);
    }
    s.set("chance", *r.pick(&[2, 5, 20, 50, 100]));
    let nt = s.get("nt");
    if prop == "P41" {
        s.set("dirseed", r.below(1 << 20) as i64);
        if r.chance(0.4) {
            s.set("chop", *r.pick(&[1, 7, 64, 500]));
        }
    }
    for hnd in 0..handles {
        let converts = prop == "P41" && (hnd == 0 || r.chance(0.7));
        for k in 0..r.range(1, if converts { 3 } else { 8 }) {
            if converts && (k == 0 || r.chance(0.7)) {
                let mut o = crate::convert::job(&mut r);
                o.who = hnd as usize;
                s.ops.push(o);
                continue;
            }
            let mut o = match r.below(10) {
                0..=3 => Op::new("read", &[r.range(0, nt - 1)]),
                4 => Op::new("cread", &[r.range(0, 1), r.range(0, nt - 1)]),
                5 => Op::new("unbuf", &[r.range(0, nt - 1)]),
                6 => Op::new(*r.pick(&["stats", "open", "pass", "pass"]), &[]),
                _ => sess::an(&mut r, &KINDS, false),
            };
            o.who = hnd as usize;
            s.ops.push(o);
        }
    }
    s
}

/// As text, one line: for the way between processes.
fn pack(d: &Done) -> String {
    let mut s = format!("{}", d.got.failed() as u8);
    for f in &d.fired {
        s += &format!("|F {} {} {} {}", f.class as usize, f.nth, f.kind as usize, f.arg);
    }
    for (n, data, scale, sq) in encode(&d.got) {
        s += &format!("|P {}\t{}\t{}", n, scale.to_bits(), sq as u8);
        for x in data {
            s += &format!("\t{}", x.to_bits());
        }
    }
    s
}
type Alone = (bool, Vec<String>, Vec<(String, Vec<f64>, f64, bool)>);
fn unpack(s: &str) -> Option<Alone> {
    let mut it = s.split('|');
    let failed = it.next()? == "1";
    let (mut faults, mut parts) = (vec![], vec![]);
    for x in it {
        if let Some(f) = x.strip_prefix("F ") {
            faults.push(f.to_string());
        } else {
            let mut w = x.strip_prefix("P ")?.split('\t');
            let n = w.next()?.to_string();
            let scale = f64::from_bits(w.next()?.parse().ok()?);
            let sq = w.next()? == "1";
            let data = w.map(|x| x.parse().ok().map(f64::from_bits)).collect::<Option<Vec<f64>>>()?;
            parts.push((n, data, scale, sq));
        }
    }
    Some((failed, faults, parts))
}

fn differs(got: &Got, want: &Alone) -> Option<String> {
    let g = encode(got);
    let names = |v: &[(String, Vec<f64>, f64, bool)]| v.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", ");
    if g.len() != want.2.len() || g.iter().zip(&want.2).any(|(a, b)| a.0 != b.0) {
        return Some(format!("gives {} instead of {}", names(&g), names(&want.2)));
    }
    for (a, b) in g.iter().zip(&want.2) {
        if a.1.len() != b.1.len() {
            return Some(format!("{} has {} values instead of {}", a.0, a.1.len(), b.1.len()));
        }
        for (i, (x, y)) in a.1.iter().zip(&b.1).enumerate() {
            if !close(*x, *y, b.2, b.3) {
                return Some(format!("{}[{}] is {:?} instead of {:?}", a.0, i, x, y));
            }
        }
    }
    None
}

/// What a conversion made; its dataset takes the place of the result.
fn made(src: &Source, i: usize, d: &mut Done) {
    if !d.got.failed() {
        d.got = src.made(&format!("conv{}.h5", i));
    }
}
fn convert(src: &Source, i: usize, op: &Op) -> Done {
    guarded(2_000_000, &op.faults, || src.convert(&format!("conv{}.h5", i)))
}

fn pick_ds<'a>(s: &Scn, all: &'a [Ds; 2], handle: usize) -> (&'a Ds, &'static str) {
    if s.get(&format!("ds{}", handle)) == 1 {
        (&all[1], "second.h5")
    } else {
        (&all[0], "sim.h5")
    }
}

pub fn run(s: &Scn) -> (Report, Vec<Done>) {
    simcore::reset();
    let mut rep = Report::default();
    let sets = [dataset(s, 0), dataset(s, 1)];
    sets[0].install("sim.h5");
    sets[1].install("second.h5");
    set_window(s.get("win").max(1) as usize);
    let handles = s.get("handles").clamp(1, 8) as usize;
    let threads = s.get("threads").clamp(1, handles as i64) as usize;

    let jobs: Vec<Option<Source>> = s
        .ops
        .iter()
        .enumerate()
        .map(|(i, o)| (o.name == "conv").then(|| crate::convert::of_job(o, &format!("in{}", i))))
        .collect();
    if jobs.iter().any(|j| j.is_some()) {
        let dir = crate::convert::scratch();
        interpose::activate(&dir, s.get("chop").max(0) as u64, s.get("dirseed") as u64);
    }

    // each handle alone, in a process of its own
    let mut alone: Vec<Option<Alone>> = vec![None; s.ops.len()];
    for hnd in 0..handles {
        let mine: Vec<usize> = (0..s.ops.len()).filter(|i| s.ops[*i].who == hnd).collect();
        if mine.is_empty() {
            continue;
        }
        rep.execs += 1;
        let text = crate::run::in_child(|| {
            let (ds, file) = pick_ds(s, &sets, hnd);
            let mut x = Session::new(ds, file);
            mine.iter()
                .map(|i| {
                    let d = match &jobs[*i] {
                        Some(j) => {
                            let mut d = convert(j, *i, &s.ops[*i]);
                            made(j, *i, &mut d);
                            d
                        }
                        None => x.exec(&s.ops[*i]),
                    };
                    pack(&d) + "\n"
                })
                .collect()
        });
        let Ok(text) = text else {
            // not a matter of threads
            return (rep, vec![]);
        };
        for (i, line) in mine.iter().zip(text.lines()) {
            alone[*i] = unpack(line);
        }
    }

    if std::env::var_os("UP4SIM_LOG").is_some() {
        world().log = Some(vec![]);
    }
    let baton = Arc::new(Baton {
        state: Mutex::new(State {
            current: 0,
            alive: vec![true; threads],
            blocked: vec![false; threads],
            rng: Rng::new(s.seed ^ 0x5c4ed),
            chance: s.get("chance") as f64 / 100.0,
            point: 0,
            explicit: s.sched.clone(),
            taken: vec![],
            tid: vec![0; threads],
            handed: 0,
        }),
        wake: Condvar::new(),
    });
    let b = baton.clone();
    simcore::set_yield(Some(Arc::new(move |_: Class| {
        let me = ME.with(|m| m.get());
        if me != usize::MAX {
            b.point(me);
        }
    })));
    let m = baton.clone();
    std::thread::spawn(move || m.monitor());
    let results: Mutex<Vec<Option<Done>>> = Mutex::new(vec![None; s.ops.len()]);
    std::thread::scope(|scope| {
        for t in 0..threads {
            let (baton, sets, results, jobs) = (&baton, &sets, &results, &jobs);
            scope.spawn(move || {
                crate::PYTHON.with(|p| p.set(true));
                ME.with(|m| m.set(t));
                baton.lock().tid[t] = unsafe { libc::syscall(libc::SYS_gettid) };
                baton.wait(t);
                local(|l| *l = Default::default());
                {
                    let mut xs: Vec<Session> = (0..handles)
                        .map(|hnd| {
                            let (ds, file) = pick_ds(s, sets, hnd);
                            Session::new(ds, file)
                        })
                        .collect();
                    // handles of one thread take turns
                    let mine: Vec<Vec<usize>> = (0..handles)
                        .filter(|hnd| hnd % threads == t)
                        .map(|hnd| (0..s.ops.len()).filter(|i| s.ops[*i].who == hnd).collect())
                        .collect();
                    let longest = mine.iter().map(|v| v.len()).max().unwrap_or(0);
                    for k in 0..longest {
                        for i in mine.iter().filter_map(|v| v.get(k)) {
                            let op = &s.ops[*i];
                            simcore::note(&format!("thread {} op {} {} {:?}", t, op.who, op.name, op.a));
                            let d = match &jobs[*i] {
                                Some(j) => convert(j, *i, op),
                                None => xs[op.who].exec(op),
                            };
                            simcore::note(&outcome(&d.got));
                            results.lock().unwrap_or_else(|e| e.into_inner())[*i] = Some(d);
                            baton.point(t);
                        }
                    }
                }
                baton.leave(t);
            });
        }
    });
    simcore::set_yield(None);
    rep.execs += 1;
    interpose::deactivate();
    let mut dones: Vec<Done> = results
        .into_inner()
        .unwrap_or_else(|e| e.into_inner())
        .into_iter()
        .map(|d| {
            d.unwrap_or(Done::default())
        })
        .collect();
    for (i, d) in dones.iter_mut().enumerate() {
        if let Some(j) = &jobs[i] {
            made(j, i, d);
        }
    }
    rep.sched = baton.lock().taken.clone();
    let switches = rep.sched.len();
    let converted = jobs.iter().zip(&dones).any(|(j, d)| j.is_some() && !d.got.failed());
    rep.nontrivial = switches > 1 && handles > 1 && (s.prop != "P41" || converted);
    if jobs.iter().flatten().count() > 1 && threads > 1 {
        rep.probe("several conversions");
    }
    if threads > 1 && switches > 10 {
        rep.probe("more than ten switches");
    }
    if threads < handles {
        rep.probe("handles sharing a thread");
    }
    for (i, d) in dones.iter().enumerate() {
        rep.ops += d.total;
        rep.fired.extend(d.fired.iter().cloned());
        rep.steps += 1;
        let op = &s.ops[i];
        if op.who >= handles {
            continue;
        }
        let Some(want) = &alone[i] else { continue };
        rep.judged += 1;
        let fired: Vec<String> =
            d.fired.iter().map(|f| format!("{} {} {} {}", f.class as usize, f.nth, f.kind as usize, f.arg)).collect();
        if fired != want.1 {
            // the calls did not reach the same point of the fault plan
            rep.unclear += 1;
            if !d.got.failed() || !d.fired.is_empty() {
                continue;
            }
        }
        if let Some(e) = differs(&d.got, want) {
            rep.fail(
                format!("{}:differs", op.name),
                format!("operation {} ({} {:?}) of handle {} among {} threads: {}", i, op.name, op.a, op.who, threads, e),
            );
        }
    }
    rep.sim_time = sets[0].stats.time[1] - sets[0].stats.time[0];
    let mut w = world();
    rep.hash = w.log_hash;
    rep.log = w.log.take().unwrap_or_default();
    (rep, dones)
}
