//! Sessions on one handle: generation and judgement for the properties about reading
//! and analysing datasets (P01-P19, P28, P31, P34, P39, P40, P42).

use crate::analysis::{close, differ, Call, Expect, Kind, Out, KINDS, VIEWS};
use crate::data::*;
use crate::engine::*;
use crate::rng::Rng;
use crate::scn::{Op, Report, Scn};
use crate::spec::SelSpec;
use simcore::{world, Class, Fault};

/// properties decided by sessions
pub const PROPS: [&str; 26] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14",
    "P15", "P16", "P17", "P18", "P19", "P28", "P31", "P34", "P39", "P40", "P42", "P43",
];

/// kinds of analysis whose results a property is about
fn kinds(prop: &str) -> &'static [Kind] {
    use Kind::*;
    match prop {
        "P06" => &[VelocityField, VectorField],
        "P07" => &[NumberField, NumberField, NumberField, VelocityField, Granular],
        "P09" => &[Dispersion],
        "P10" => &[Lookup],
        "P11" => &[MsdField, Msd],
        "P12" => &[Lacey, Concentration],
        "P13" => &[Circulation, Circulation2],
        "P14" => &[Histogram],
        "P15" => &[Granular],
        "P16" => &[Occupancy, Occupancy, Homogeneity],
        "P17" => &[Extract],
        "P31" => &[VelocityField, VectorField, NumberField, NumberField, Occupancy, Dispersion, Concentration, MsdField],
        "P34" => &[VelocityField, VectorField, NumberField, Occupancy, Dispersion, Concentration, MsdField],
        "P08" | "P18" | "P19" | "P28" | "P40" | "P42" | "P43" => &KINDS,
        _ => &[],
    }
}

// ---------------------------------------------------------------- generation

pub fn knobs(s: &mut Scn, r: &mut Rng, big: bool) {
    let prop = s.prop.clone();
    let layout = match prop.as_str() {
        "P17" => r.chance(0.5) as i64,
        _ => r.chance(0.35) as i64,
    };
    s.set("layout", layout);
    let nt = match r.below(10) {
        0 => r.range(1, 2),
        1..=6 => r.range(3, 9),
        7 | 8 => r.range(8, 16),
        _ => r.range(12, if big { 60 } else { 30 }),
    };
    let np = if r.chance(0.1) { r.range(8, 20) } else { r.range(1, 8) };
    // now and then many particles or a long dataset
    let (nt, np) = match r.below(200) {
        0 => (r.range(1, 4), r.range(120, 400)),
        1 => (r.range(150, 1100), r.range(1, 2)),
        _ => (nt, np),
    };
    // a dataset that is large beside its windows
    let (nt, np) = match prop.as_str() {
        "P40" => (r.range(150, if big { 1500 } else { 500 }), r.range(6, 20)),
        _ => (nt, np),
    };
    s.set("nt", nt);
    s.set("np", np);
    let w = [1, 2, 2, 3, 3, 4, 5, 7, (nt - 1).max(1), nt, nt + 1, (nt + 1) / 2, 16];
    s.set("win", (*r.pick(&w)).max(1));
    if prop == "P40" {
        s.set("win", r.range(1, 6));
    }
    if r.chance(0.15) {
        s.set("unit", r.range(1, UNITS.len() as i64 - 1));
    }
    set_unit(s.get("unit"));
    s.set("dseed", r.below(1 << 30) as i64);
    if r.chance(0.06) {
        s.set("old", 1);
    }
    let mut flags = 0;
    for b in 0..11 {
        if r.chance(0.35) {
            flags |= 1 << b;
        }
    }
    match prop.as_str() {
        "P16" => flags &= !(F_NANVEL | F_NANPART),
        "P17" => flags &= !(F_EMPTY | if r.chance(0.7) { F_ABSENT } else { 0 }),
        "P07" => flags |= if r.chance(0.5) { F_WALL } else { 0 },
        "P19" => {
            if r.chance(0.6) {
                flags &= !(F_MANY | F_NOOPT);
            }
            // distinct criteria need distinct values
            if r.chance(0.5) {
                s.set("layout", 0);
            }
        }
        "P09" | "P11" | "P13" => flags &= if r.chance(0.7) { !F_NANPART } else { !0 },
        _ => {}
    }
    s.set("flags", flags);
}

fn times(r: &mut Rng, nt: i64, n: usize) -> Vec<i64> {
    let mut v = vec![];
    let mut t = r.range(0, nt - 1);
    while v.len() < n {
        match r.below(6) {
            0 => {
                // run forward
                for _ in 0..r.range(1, 8) {
                    v.push(t);
                    t = (t + 1) % nt;
                }
            }
            1 => {
                for _ in 0..r.range(1, 8) {
                    v.push(t);
                    t = (t + nt - 1) % nt;
                }
            }
            2 => v.push(t),
            3 => {
                t = *r.pick(&[0, nt - 1, nt / 2]);
                v.push(t);
            }
            _ => {
                t = r.range(0, nt - 1);
                v.push(t);
            }
        }
    }
    v.truncate(n);
    v
}

pub fn an(r: &mut Rng, kinds: &[Kind], heavy: bool) -> Op {
    let k = *r.pick(kinds);
    let mut bits = 0;
    if r.chance(0.3) {
        bits |= PREFILL;
    }
    if matches!(k, Kind::Extract | Kind::Circulation | Kind::Circulation2) && r.chance(0.15) {
        bits |= INVALID;
    }
    if heavy {
        bits |= HEAVY;
    }
    let sel = if heavy {
        1 + r.below(1 << 30) as i64
    } else if r.chance(0.5) {
        0
    } else {
        1 + r.below(1 << 30) as i64
    };
    let grid = if r.chance(0.1) { 0 } else { 1 + r.below(1 << 30) as i64 };
    Op::new("an", &[k as i64, grid, sel, r.below(1 << 30) as i64, bits])
}

/// operations that only set the scene
fn context(r: &mut Rng, nt: i64) -> Op {
    let t = times(r, nt, 1)[0];
    match r.below(8) {
        0 | 1 => Op::new("read", &[t]),
        2 => Op::new("cread", &[r.range(0, 2), t]),
        3 => Op::new("unbuf", &[t]),
        4 => Op::new(*r.pick(&["stats", "open", "info"]), &[]),
        5 => Op::new("csetup", &[r.range(0, 1)]),
        _ => an(r, &KINDS, false),
    }
}

pub fn generate(prop: &str, seed: u64, big: bool) -> Scn {
    let mut r = Rng::new(seed);
    let mut s = Scn { prop: prop.into(), seed, ..Scn::default() };
    knobs(&mut s, &mut r, big);
    let nt = s.get("nt");
    let n = if big { 40 } else { 24 };
    let ops = &mut s.ops;
    ops.push(Op::new("open", &[]));
    match prop {
        "P01" => {
            let k = r.range(2, n) as usize;
            for t in times(&mut r, nt, k) {
                if r.chance(0.15) {
                    ops.push(context(&mut r, nt));
                }
                ops.push(Op::new("read", &[t]));
            }
        }
        "P02" => {
            let c = r.range(1, 3);
            let streams: Vec<Vec<i64>> = (0..=c).map(|_| times(&mut r, nt, 40)).collect();
            let mut at = vec![0; streams.len()];
            for _ in 0..r.range(3, n + 10) {
                let i = r.below(c as u64 + 1) as usize;
                let burst = if r.chance(0.3) { r.range(2, 5) } else { 1 };
                for _ in 0..burst {
                    let t = streams[i][at[i] % 40];
                    at[i] += 1;
                    ops.push(if i == 0 { Op::new("read", &[t]) } else { Op::new("cread", &[i as i64 - 1, t]) });
                }
                if r.chance(0.1) {
                    ops.push(match r.below(4) {
                        0 => Op::new("csetup", &[r.range(0, c - 1)]),
                        1 => Op::new("unbuf", &[r.range(0, nt - 1)]),
                        _ => context(&mut r, nt),
                    });
                }
            }
        }
        "P03" => {
            let k = r.range(2, n / 2) as usize;
            for t in times(&mut r, nt, k) {
                ops.push(match r.below(8) {
                    0..=3 => Op::new("read", &[t]),
                    4 | 5 => Op::new("cread", &[r.range(0, 1), t]),
                    6 => Op::new("unbuf", &[t]),
                    _ => Op::new(*r.pick(&["open", "csetup"]), &[0]),
                });
            }
        }
        "P04" => {
            let k = r.range(1, n / 2) as usize;
            for t in times(&mut r, nt, k) {
                if r.chance(0.5) {
                    ops.push(match r.below(5) {
                        0 | 1 => Op::new("read", &[t]),
                        2 => Op::new("cread", &[r.range(0, 1), t]),
                        3 => Op::new("unbuf", &[t]),
                        _ => context(&mut r, nt),
                    });
                }
                let off = match r.below(5) {
                    0 | 1 => 0,
                    2 => r.range(0, nt + 1),
                    3 => s.k["win"] - 1,
                    _ => r.range(0, 1000),
                };
                ops.push(match r.below(6) {
                    0 | 1 => Op::new("bad", &[off]),
                    2 | 3 => Op::new("cbad", &[r.range(0, 1), off]),
                    4 => Op::new("ubad", &[off]),
                    _ => Op::new("read", &[t]),
                });
                if r.chance(0.7) {
                    let t2 = if r.chance(0.5) { t } else { r.range(0, nt - 1) };
                    ops.push(match r.below(3) {
                        0 => Op::new("cread", &[r.range(0, 1), t2]),
                        _ => Op::new("read", &[t2]),
                    });
                }
            }
        }
        "P05" => {
            let k = r.range(2, n) as usize;
            for t in times(&mut r, nt, k) {
                ops.push(match r.below(6) {
                    0..=2 => Op::new("unbuf", &[t]),
                    3 | 4 => Op::new("read", &[t]),
                    _ => context(&mut r, nt),
                });
            }
        }
        "P08" => {
            for _ in 0..r.range(1, 3) {
                let x = an(&mut r, &KINDS, false);
                for _ in 0..r.range(0, 3) {
                    ops.push(context(&mut r, nt));
                }
                ops.push(x.clone());
                if r.chance(0.7) {
                    if r.chance(0.5) {
                        ops.push(context(&mut r, nt));
                    }
                    let mut y = x.clone();
                    y.a[4] ^= PREFILL;
                    ops.push(y);
                }
            }
        }
        "P18" => {
            for _ in 0..r.range(0, 2) {
                ops.push(context(&mut r, nt));
            }
            let x = an(&mut r, &KINDS, false);
            ops.push(x.clone());
            if r.chance(0.3) {
                ops.push(x.clone());
            }
            if r.chance(0.4) {
                ops.push(an(&mut r, &KINDS, false));
            }
            ops.push(x);
            if r.chance(0.5) {
                ops.push(an(&mut r, &KINDS, false));
            }
        }
        "P39" => {
            for op in crate::own::generate(&mut r, nt, n) {
                if r.chance(0.2) {
                    ops.push(context(&mut r, nt));
                }
                ops.push(op);
            }
        }
        "P40" | "P43" => {
            for _ in 0..r.range(2, 8) {
                match r.below(12) {
                    0 if prop == "P43" => ops.push(Op::new("missing", &[r.range(0, 1)])),
                    1 if prop == "P43" => ops.push(Op::new("open", &[])),
                    0 | 1 => ops.push(Op::new("pass", &[])),
                    2 | 3 => ops.push(Op::new("cpass", &[r.weighted(&[4, 2, 1]) as i64])),
                    4 => {
                        let c = r.range(0, 1);
                        for t in times(&mut r, nt, 12) {
                            ops.push(Op::new("cread", &[c, t]));
                        }
                    }
                    5 => {
                        for t in times(&mut r, nt, 12) {
                            ops.push(Op::new("read", &[t]));
                        }
                    }
                    6 => ops.push(context(&mut r, nt)),
                    // the same again and again
                    7..=9 => {
                        let c = r.range(0, 1);
                        let (one, other) = (r.below(9), r.chance(0.4).then(|| r.below(8)));
                        let mut op = |k, c| match k {
                            0 => Op::new("pass", &[]),
                            1 | 5 => Op::new("csetup", &[c]),
                            2 => Op::new("bad", &[r.range(0, nt)]),
                            3 => Op::new("cpass", &[c]),
                            4 => Op::new("stats", &[]),
                            _ => an(&mut r, &KINDS, false),
                        };
                        let (one, other) = (op(one, c), other.map(|k| op(k, 1 - c)));
                        for _ in 0..r.range(4, if one.name == "an" { 8 } else { 16 }) {
                            ops.push(one.clone());
                            ops.extend(other.clone());
                        }
                    }
                    _ => ops.push(an(&mut r, &KINDS, false)),
                }
            }
        }
        "P42" => {
            for _ in 0..r.range(2, 8) {
                let t = r.range(0, nt - 1);
                ops.push(match r.below(12) {
                    0 => Op::new("missing", &[r.range(0, 1)]),
                    1 => Op::new("open", &[]),
                    2 => Op::new("pass", &[]),
                    3 => Op::new(*r.pick(&["bad", "ubad"]), &[r.range(0, nt)]),
                    4 => Op::new("unbuf", &[t]),
                    5 | 6 => context(&mut r, nt),
                    7 => Op::new("read", &[t]),
                    _ => an(&mut r, &KINDS, false),
                });
            }
        }
        "P28" => {
            for _ in 0..r.range(0, 3) {
                ops.push(context(&mut r, nt));
            }
            for _ in 0..r.range(1, 3) {
                ops.push(match r.below(8) {
                    0 | 1 => Op::new("pass", &[]),
                    2 => Op::new("cpass", &[r.weighted(&[3, 1]) as i64]),
                    _ => an(&mut r, &KINDS, false),
                });
            }
        }
        _ => {
            // one kind of analysis under judgement, other operations around it
            for _ in 0..r.range(1, 4) {
                for _ in 0..r.range(0, 2) {
                    ops.push(context(&mut r, nt));
                }
                let mut x = an(&mut r, kinds(prop), prop == "P19");
                if prop == "P34" {
                    x.a[4] |= PARTS;
                }
                if prop == "P31" {
                    x.a[4] |= CLEAN | if r.chance(0.5) { DENSE } else { 0 };
                }
                ops.push(x);
            }
        }
    }
    s
}

/// How likely a scenario of this property carries faults.
fn fault_share(prop: &str) -> f64 {
    match prop {
        "P03" => 1.0,
        "P27" => 0.5,
        "P18" => 1.0,
        "P05" => 0.4,
        "P10" => 0.5,
        "P28" | "P39" | "P40" | "P41" | "P42" | "P43" => 0.5,
        _ => 0.25,
    }
}

/// Place faults inside operations that really do I/O: run, look, place, repeat.
pub fn attach(s: &mut Scn, run: &dyn Fn(&Scn) -> (Report, Vec<Done>)) -> Option<Report> {
    let mut r = Rng::new(s.seed ^ 0xfa17);
    let (first, mut dones) = run(s);
    if first.violation.is_some() {
        return Some(first);
    }
    if !r.chance(fault_share(&s.prop)) {
        return Some(first);
    }
    let n = 1 + r.weighted(&[6, 3, 1]);
    let mut from = 0;
    for round in 0..n {
        let cands: Vec<usize> = (from..s.ops.len())
            .filter(|i| {
                let Some(d) = dones.get(*i) else { return false };
                let polls = d.polls > 0 && s.ops[*i].name == "an" || s.ops[*i].name == "conv";
                (d.counts[Class::Open as usize] + d.counts[Class::Meta as usize] + d.counts[Class::Read as usize] > 0)
                    || polls
            })
            .collect();
        if cands.is_empty() {
            break;
        }
        let i = *r.pick(&cands);
        let d = &dones[i];
        let conversion = s.ops[i].name == "conv";
        let io: &[Class] = if conversion {
            &[Class::Create, Class::Write, Class::Flush, Class::Vtk, Class::SysRead, Class::DirRead]
        } else {
            &[Class::Open, Class::Meta, Class::Read]
        };
        let interrupt = (s.ops[i].name == "an" || conversion)
            && d.polls > 0
            && (s.prop == "P28" || r.chance(if s.prop == "P18" { 0.45 } else { 0.25 }));
        let place = |r: &mut Rng, n: u64| -> u64 {
            match r.below(5) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            }
        };
        let f = if interrupt {
            if r.chance(0.4) {
                Fault { class: Class::Signal, nth: r.below(d.total.max(1)), kind: simcore::Kind::Interrupt, arg: 1 }
            } else {
                Fault { class: Class::Signal, nth: place(&mut r, d.polls), kind: simcore::Kind::Interrupt, arg: 0 }
            }
        } else {
            let w: Vec<u32> = io.iter().map(|c| d.counts[*c as usize].min(12) as u32).collect();
            if w.iter().sum::<u32>() == 0 {
                continue;
            }
            let c = io[r.weighted(&w)];
            Fault { class: c, nth: place(&mut r, d.counts[c as usize]), kind: simcore::Kind::Error, arg: 0 }
        };
        s.ops[i].faults.push(f);
        if matches!(s.ops[i].name.as_str(), "read" | "cread" | "unbuf") && r.chance(0.6) {
            // try again at once, here or next to it
            let mut again = s.ops[i].clone();
            again.faults.clear();
            let last = again.a.len() - 1;
            if r.chance(0.4) {
                again.a[last] = r.range(0, s.get("nt") - 1);
            }
            s.ops.insert(i + 1, again);
        } else if matches!(s.ops[i].name.as_str(), "put" | "loop") && r.chance(0.5) {
            let mut again = s.ops[i].clone();
            again.faults.clear();
            s.ops.insert(i + 1, again);
        }
        from = i + 1;
        if round + 1 < n {
            let (r, d) = run(s);
            if r.violation.is_some() {
                return Some(r);
            }
            dones = d;
        }
    }
    None
}

// ---------------------------------------------------------------- judgement

fn same_got(a: &Got, b: &Got) -> Option<String> {
    match (a, b) {
        (Got::Step(x), Got::Step(y)) => x.differ(y),
        (Got::Out(x), Got::Out(y)) => differ(x, y),
        (Got::Stats(x), Got::Stats(y)) => stats_differ(x, y),
        (Got::Unit, Got::Unit) => None,
        (Got::Fail(_), Got::Fail(_)) => None,
        (Got::Fail(f), _) => Some(format!("fails ({:?}) where it should not", f)),
        (_, Got::Fail(_)) => Some("succeeds where it should fail".into()),
        _ => Some("is of another kind".into()),
    }
}

/// Result of the same call on a fresh handle of an undisturbed world.
fn fresh(s: &Scn, ds: &Ds, op: &Op, window: usize) -> Got {
    quietly(|| {
        set_window(window);
        let mut x = Session::new(ds, "fresh.h5");
        let mut o = op.clone();
        o.faults.clear();
        let d = x.exec(&o);
        drop(x);
        set_window(s.get("win").max(1) as usize);
        d.got
    })
}

/// The dataset reduced to the samples a selection admits.
fn filtered(ds: &Ds, sel: &SelSpec) -> Ds {
    let mut d = ds.clone();
    for st in d.steps.iter_mut() {
        st.rows.retain(|r| sel.admits(r));
    }
    d
}

/// Judge one analysis against the reference; Err: violation.
fn judge_call(s: &Scn, op: &Op, d: &Done, ds: &Ds, rep: &mut Report) -> Result<(), (String, String)> {
    let call = call_of(op, ds);
    let name = format!("{:?}", call.kind);
    let refr = call.reference(ds);
    rep.steps += refr.steps as u64;
    if d.interrupted() && !d.got.failed() {
        return Err(("interrupt-ignored".into(), format!("{} was interrupted and reports success", name)));
    }
    match (&refr.expect, &d.got) {
        (_, Got::Fail(_)) if !d.fired.is_empty() => {
            rep.probe("judged call failed by fault");
            Ok(())
        }
        (Expect::Refuse, Got::Fail(Fk::Failed)) => {
            rep.judged += 1;
            rep.nontrivial = true;
            rep.probe("refused");
            Ok(())
        }
        (Expect::Refuse, _) => Err(("not-refused".into(), format!("{} accepts arguments outside the system", name))),
        (Expect::Unclear, Got::Fail(_)) if call.kind == Kind::Extract => {
            rep.unclear += 1;
            Ok(())
        }
        (_, Got::Fail(f)) => Err(("fails".into(), format!("{} fails ({:?}) without any fault", name, f))),
        (Expect::Unclear, _) => {
            rep.unclear += 1;
            Ok(())
        }
        (Expect::Value(alts), Got::Out(out)) => {
            rep.judged += 1;
            if refr.samples > 0 {
                rep.nontrivial = true;
            }
            if refr.steps > s.get("win") as usize {
                rep.probe("longer than the window");
            }
            let mut first = None;
            for want in alts {
                let want = relevant(s, &call, want);
                match differ(out, &want) {
                    None => return Ok(()),
                    Some(e) => {
                        first.get_or_insert(e);
                    }
                }
            }
            Err(("wrong".into(), format!("{}: {}", name, first.unwrap_or_default())))
        }
        _ => Err(("kind".into(), name)),
    }
}

/// Outliers removed from a field: judged against the very field they are removed from.
/// What is held is a matter of the windows, the list of the times, the cells and the result.
/// The bounds leave more than half of the room free on the tree they were written for.
fn judge_memory(s: &Scn, op: &Op, d: &Done, ds: &Ds, rep: &mut Report) -> Verdict {
    let (nt, np) = (ds.stats.nsteps as i64, s.get("np"));
    let window = (s.get("win").max(1) + 1) * (np * 88 + 400);
    let once = 8192 + 32 * nt;
    let kept = once + (3 * window * (d.cursors as i64 + 1)) / 2;
    let cells = if op.name == "an" { call_of(op, ds).grid.ncells() as i64 } else { 0 };
    let peak = kept + once + 3 * window + 96 * cells + 3 * d.result;
    let stored = nt * np * 88;
    rep.judged += 1;
    if !d.fired.is_empty() {
        rep.probe("cut by a fault");
    }
    let whole = matches!(op.name.as_str(), "an" | "pass" | "cpass") && !d.got.failed();
    if whole && 2 * stored > 3 * peak {
        rep.nontrivial = true;
        rep.probe(if op.name == "an" { "analysis of a large dataset" } else { "pass over a large dataset" });
    }
    let numbers = format!("a window of {} x {} values, {} timesteps stored in {} bytes", s.get("win"), np, nt, stored);
    if d.kept > kept {
        return bad("held", format!("{} bytes stay in memory afterwards, at most {} are expected: {}", d.kept, kept, numbers));
    }
    let grown = d.kept - d.since;
    if grown > 4096 + 4 * window {
        return bad("grows", format!("{} bytes more stay in memory than after the first of equal calls: {}", grown, numbers));
    }
    if d.peak > peak {
        return bad("peak", format!("{} bytes are taken meanwhile, at most {} are expected: {}", d.peak, peak, numbers));
    }
    Ok(())
}

fn judge_removal(op: &Op, d: &Done, ds: &Ds, rep: &mut Report) -> Verdict {
    let (Got::Out(out), true) = (&d.got, op.arg(4) & CLEAN != 0) else {
        return match &d.got {
            Got::Fail(f) if d.fired.is_empty() && op.arg(4) & CLEAN != 0 => {
                bad("fails", format!("removing outliers fails ({:?})", f))
            }
            _ => Ok(()),
        };
    };
    let call = call_of(op, ds);
    let part = |n: &str| out.parts.iter().find(|p| p.name == n).map(|p| p.data.clone()).unwrap_or_default();
    let (cells, weights) = match call.kind {
        Kind::VectorField => {
            let n = call.component();
            (
                part(["component 0", "component 1", "component 2"][n]),
                part(["weights 0", "weights 1", "weights 2"][n]),
            )
        }
        _ => (part("cells"), part("weights")),
    };
    let dense = part("dense cells");
    let (cells, weights) = if dense.is_empty() { (cells, weights) } else { (dense, part("dense weights")) };
    let how = part("removal");
    let (threshold, mode) = (how[0], how[1] as usize);
    let (got, gotw) = (part("cleaned"), part("cleaned weights"));
    rep.judged += 1;
    if got.len() != cells.len() || gotw.len() != cells.len() {
        return bad("shape", "removing outliers changes the number of cells");
    }
    for (i, want) in call.cleaned(&cells, &weights, threshold, mode).into_iter().enumerate() {
        let Some((x, w)) = want else {
            rep.unclear += 1;
            continue;
        };
        if cells[i] > threshold {
            rep.nontrivial = true;
            rep.probe(["outlier to zero", "outlier to threshold", "outlier to mean"][mode]);
        }
        if !close(got[i], x, x.abs(), false) || !close(gotw[i], w, w.abs(), false) {
            return bad(
                "wrong",
                format!(
                    "cell {} with {:?} (weight {:?}), threshold {:?}, mode {}: becomes {:?} ({:?}) instead of {:?} ({:?})",
                    i, cells[i], weights[i], threshold, mode, got[i], gotw[i], x, w
                ),
            );
        }
    }
    Ok(())
}

/// the parts of a result a property is about
fn relevant(s: &Scn, call: &Call, want: &Out) -> Out {
    let k = &call.kind;
    let mut o = want.clone();
    if s.prop == "P07" && *k != Kind::NumberField {
        o.parts.retain(|p| p.name == "weights");
    }
    if s.prop == "P34" {
        o.parts.retain(|p| VIEWS.contains(&p.name));
    }
    if s.prop == "P07" {
        o = o.scaled("axes", call.grid.axes(), 10.0, false);
    }
    if s.prop == "P06" && *k == Kind::VectorField {
        for n in ["axes", "axes 1", "axes 2"] {
            o = o.scaled(n, call.grid.axes(), 10.0, false);
        }
    }
    o
}

/// Another dataset, kept under the same name until the one of the scenario takes its place.
pub fn earlier(s: &Scn) -> Option<Ds> {
    (s.get("old") == 1).then(|| {
        let mut t = s.clone();
        let seed = s.get("dseed");
        // of the same shape or not
        if seed % 2 == 0 {
            t.set("nt", 1 + (seed / 2 % (s.get("nt").max(1) + 3)));
        }
        t.set("layout2", if seed % 5 < 3 { s.get("layout") } else { 0 });
        if seed % 3 == 0 {
            t.set("np", 1 + (seed / 7 % (s.get("np").max(1) + 2)));
        }
        dataset(&t, 7)
    })
}

/// Run a scenario and judge it.
pub fn run(s: &Scn) -> (Report, Vec<Done>) {
    simcore::reset();
    let mut rep = Report::default();
    let ds = dataset(s, 0);
    set_window(s.get("win").max(1) as usize);
    if let Some(old) = earlier(s) {
        // what happened to a file that has been replaced since matters no more
        old.install("sim.h5");
        rep.execs += 1;
        rep.probe("a file replaced since");
        let mut x = Session::new(&old, "sim.h5");
        quietly(|| {
            x.exec(&Op::new("open", &[]));
            x.exec(&Op::new("stats", &[]));
            x.exec(&Op::new("read", &[0]));
            for o in s.ops.iter().take(6) {
                let mut o = o.clone();
                o.faults.clear();
                x.exec(&o);
            }
        });
    }
    if s.prop == "P42" {
        crate::keep::watch();
    }
    ds.install("sim.h5");
    ds.install("fresh.h5");
    set_window(s.get("win").max(1) as usize);
    // what the same operations give when nothing goes wrong
    let base: Vec<Option<Done>> = match s.prop.as_str() {
        "P03" => {
            rep.execs += 1;
            let mut x = Session::new(&ds, "fresh.h5");
            quietly(|| {
                s.ops
                    .iter()
                    .map(|o| {
                        let mut o = o.clone();
                        o.faults.clear();
                        Some(x.exec(&o))
                    })
                    .collect()
            })
        }
        "P04" => {
            rep.execs += 1;
            let mut x = Session::new(&ds, "fresh.h5");
            quietly(|| {
                s.ops
                    .iter()
                    .map(|o| (!matches!(o.name.as_str(), "bad" | "cbad" | "ubad" | "missing")).then(|| x.exec(o)))
                    .collect()
            })
        }
        _ => vec![],
    };
    if std::env::var_os("UP4SIM_LOG").is_some() {
        world().log = Some(vec![]);
    }
    world().uncounted = s.prop == "P40";
    let mut dones: Vec<Done> = Vec::with_capacity(s.ops.len());
    let held = crate::mem::live();
    let mut x = Session::new(&ds, "sim.h5");
    let mut touched = std::collections::BTreeSet::new();
    let mut last: Vec<Option<i64>> = vec![None; 5];
    for (i, op) in s.ops.iter().enumerate() {
        simcore::note(&format!("op {} {:?}", op.name, op.a));
        world().reads.clear();
        let before = last.clone();
        let mut d = x.exec(op);
        rep.ops += d.total;
        simcore::note(&outcome(&d.got));
        d.cursors = x.cursors.len();
        if s.prop == "P40" {
            // the result is its user's
            let with = crate::mem::live();
            if !d.got.failed() {
                d.got = Got::Unit;
            }
            d.result = with - crate::mem::live();
            d.kept = crate::mem::live() - held;
            // how much more is held than after the first of these equal calls
            let equal = |k: usize| i >= k && s.ops[i - k].name == op.name && s.ops[i - k].a == op.a;
            d.since = match (equal(1), equal(2)) {
                (true, _) => dones[i - 1].since,
                (_, true) => dones[i - 2].since,
                _ => d.kept,
            };
        }
        for f in &d.fired {
            rep.fired.push(f.clone());
        }
        let bad = judge(s, i, op, &d, &ds, &base, &mut rep, &mut last, &before, &mut touched);
        if let Err((class, detail)) = bad {
            rep.fail(
                format!("{}:{}", op.name, class),
                format!("operation {} ({} {:?}): {}", i, op.name, op.a, detail),
            );
        }
        dones.push(d);
        if rep.violation.is_some() {
            break;
        }
    }
    if s.prop == "P43" {
        drop(x);
        let left = world().open;
        if left > 0 && rep.violation.is_none() {
            rep.fail("end:open", format!("{} files stay open when their user is done with them", left));
        }
    }
    rep.execs += 1;
    rep.sim_time = ds.stats.time[1] - ds.stats.time[0];
    let mut w = world();
    rep.hash = w.log_hash;
    rep.log = w.log.take().unwrap_or_default();
    (rep, dones)
}

type Verdict = Result<(), (String, String)>;

fn bad(class: &str, detail: impl Into<String>) -> Verdict {
    Err((class.into(), detail.into()))
}

#[allow(clippy::too_many_arguments)]
fn judge(
    s: &Scn,
    i: usize,
    op: &Op,
    d: &Done,
    ds: &Ds,
    base: &[Option<Done>],
    rep: &mut Report,
    last: &mut [Option<i64>],
    before: &[Option<i64>],
    touched: &mut std::collections::BTreeSet<usize>,
) -> Verdict {
    let nt = ds.stats.nsteps;
    let name = op.name.as_str();
    let prop = s.prop.as_str();
    let faulty = !d.fired.is_empty();
    let is_read = matches!(name, "read" | "cread" | "unbuf");
    if is_read {
        rep.steps += 1;
        let slot = match name {
            "read" => 0,
            "cread" => 1 + op.arg(0) as usize,
            _ => 4,
        };
        let t = op.a[op.a.len() - 1] % nt as i64;
        if slot < last.len() {
            last[slot] = Some(t);
            if let Some(b) = before[slot] {
                if d.total > 0 && slot != 4 {
                    rep.probe(if t < b { "refill backward" } else { "refill forward" });
                } else if slot != 4 {
                    rep.probe("served from the window");
                }
            }
        }
    }
    // a read of an existing timestep against what is stored
    let stored = |rep: &mut Report| -> Verdict {
        let t = (op.a[op.a.len() - 1] as usize) % nt;
        match &d.got {
            Got::Step(g) => {
                rep.judged += 1;
                match g.differ(&StepData::stored(ds, t)) {
                    None => Ok(()),
                    Some(e) => bad("wrong", format!("timestep {}: {}", t, e)),
                }
            }
            Got::Fail(Fk::Endless) => bad("endless", "the read does not end"),
            Got::Fail(_) if faulty => Ok(()),
            Got::Fail(_) => bad("fails", format!("reading timestep {} fails without any fault", t)),
            _ => bad("kind", "not a timestep"),
        }
    };
    match prop {
        "P01" => {
            if name == "read" {
                if before[0].is_some() {
                    rep.nontrivial = true;
                }
                return stored(rep);
            }
            Ok(())
        }
        "P02" => {
            if name == "cread" {
                touched.insert(op.arg(0) as usize);
                rep.nontrivial = true;
                return stored(rep);
            }
            if name == "read" && !touched.is_empty() {
                return stored(rep);
            }
            Ok(())
        }
        "P03" => {
            if faulty {
                rep.nontrivial = true;
                rep.probe(match name {
                    "read" => "fault in a read",
                    "cread" | "csetup" => "fault in a cursor",
                    "unbuf" => "fault in an unbuffered read",
                    "open" => "fault while opening",
                    _ => "fault elsewhere",
                });
            }
            let clean = base[i].as_ref().unwrap();
            if is_read {
                let t = (op.a[op.a.len() - 1] as usize) % nt;
                let want = Got::Step(Box::new(StepData::stored(ds, t)));
                if same_got(&clean.got, &want).is_some() {
                    return Ok(()); // not a matter of faults
                }
                return stored(rep);
            }
            if d.got.failed() && !faulty && !clean.got.failed() {
                return bad("fails", "fails although the storage works again");
            }
            Ok(())
        }
        "P04" => {
            if matches!(name, "bad" | "cbad" | "ubad") {
                rep.judged += 1;
                rep.nontrivial = true;
                return match &d.got {
                    Got::Fail(Fk::Failed) => Ok(()),
                    Got::Fail(f) => bad("not-refused", format!("{:?}", f)),
                    _ => bad("not-refused", format!("timestep {} of {} is answered", nt as i64 + op.a[op.a.len() - 1], nt)),
                };
            }
            if is_read {
                let clean = base[i].as_ref().unwrap();
                if clean.got.failed() {
                    return Ok(());
                }
                let t = (op.a[op.a.len() - 1] as usize) % nt;
                if same_got(&clean.got, &Got::Step(Box::new(StepData::stored(ds, t)))).is_some() {
                    return Ok(());
                }
                return stored(rep);
            }
            Ok(())
        }
        "P05" => {
            if name == "unbuf" {
                rep.nontrivial = true;
                touched.insert(0);
                return stored(rep);
            }
            if name == "read" && !touched.is_empty() {
                return stored(rep);
            }
            Ok(())
        }
        "P08" => {
            if name != "an" {
                return Ok(());
            }
            let mut plain = op.clone();
            plain.a[4] &= !PREFILL;
            let want = fresh(s, ds, &plain, nt + 3);
            rep.execs += 1;
            if faulty && d.got.failed() {
                return Ok(());
            }
            rep.judged += 1;
            rep.nontrivial = true;
            if op.arg(4) & PREFILL != 0 {
                rep.probe("grid with old content");
            }
            if i > 1 {
                rep.probe("used handle");
            }
            match same_got(&d.got, &want) {
                None => Ok(()),
                Some(e) => bad("differs", format!("{:?} on a used handle: {}", call_of(op, ds).kind, e)),
            }
        }
        "P18" => {
            if name != "an" {
                return Ok(());
            }
            let kind = call_of(op, ds).kind;
            let want = fresh(s, ds, op, s.get("win").max(1) as usize);
            rep.execs += 1;
            if faulty {
                rep.nontrivial = true;
                touched.insert(i);
                rep.probe(if d.interrupted() { "analysis interrupted" } else { "analysis hit a storage fault" });
            } else if !touched.is_empty() {
                rep.probe("analysis after a cut one");
            }
            if d.interrupted() && !d.got.failed() {
                return bad("interrupt-ignored", format!("{:?} was interrupted and reports success", kind));
            }
            if faulty && d.got.failed() {
                return match d.got {
                    Got::Fail(Fk::Endless) => bad("endless", format!("{:?}", kind)),
                    _ => Ok(()),
                };
            }
            if !faulty && touched.is_empty() {
                return Ok(()); // nothing went wrong yet
            }
            rep.judged += 1;
            match same_got(&d.got, &want) {
                None => Ok(()),
                Some(e) => bad(
                    if faulty { "partial" } else { "differs" },
                    format!("{:?} {}: {}", kind, if faulty { "cut short" } else { "after a fault" }, e),
                ),
            }
        }
        "P19" => {
            if name != "an" {
                return Ok(());
            }
            let call = call_of(op, ds);
            if matches!(call.kind, Kind::Extract | Kind::Lookup) {
                return Ok(());
            }
            if matches!(call.kind, Kind::MeanVelocity | Kind::NumberField) {
                return judge_call(s, op, d, ds, rep);
            }
            let comparable = !ds.by_particle && s.get("flags") & (F_MANY | F_NOOPT) == 0;
            if !comparable || call.invalid || (faulty && d.got.failed()) {
                return Ok(());
            }
            // the same call on the dataset that holds nothing else
            let small = filtered(ds, &call.sel);
            let mut any = call.clone();
            any.sel = SelSpec { time: call.sel.time, ..SelSpec::all() };
            let want = quietly(|| {
                small.install("small.h5");
                let mut y = Session::new(&small, "small.h5");
                y.exec(&Op::new("open", &[]));
                guarded(budget(ds), &[], || Got::Out(any.run(&mut **y.handle.as_mut().unwrap(), ds))).got
            });
            rep.execs += 1;
            rep.judged += 1;
            rep.nontrivial = true;
            rep.probe("compared with the filtered dataset");
            let (a, b) = (norm(&call.kind, &d.got), norm(&call.kind, &want));
            match same_got(&a, &b) {
                None => Ok(()),
                Some(e) => bad("differs", format!("{:?} over a selection: {}", call.kind, e)),
            }
        }
        "P31" => judge_removal(op, d, ds, rep),
        "P28" => judge_effort(s, op, d, ds, rep),
        "P39" if crate::own::OPS.contains(&name) => crate::own::judge(&s.ops, i, d, ds, rep),
        "P39" => Ok(()),
        "P40" => judge_memory(s, op, d, ds, rep),
        "P43" => {
            rep.judged += 1;
            rep.nontrivial |= d.total > 0;
            if !d.fired.is_empty() {
                rep.probe("cut by a fault");
            }
            // a handle, and what it may want to keep beside it
            match d.open > d.cursors + 3 {
                true => bad("open", format!("{} files are open at the same time", d.open)),
                false => Ok(()),
            }
        }
        "P42" => {
            if d.total > 0 {
                rep.judged += 1;
                rep.nontrivial = true;
            }
            match d.wrote.first() {
                Some(x) => bad("changes", x.clone()),
                None => Ok(()),
            }
        }
        _ => {
            if name != "an" || !kinds(prop).contains(&call_of(op, ds).kind) {
                return Ok(());
            }
            if s.prop == "P34" && op.arg(4) & PARTS == 0 {
                return Ok(());
            }
            judge_call(s, op, d, ds, rep)
        }
    }
}

/// Results of roots of differences near zero are compared coarsely.
fn norm(k: &Kind, g: &Got) -> Got {
    match (k, g) {
        (Kind::Granular, Got::Out(o)) => {
            let mut o = o.clone();
            for p in o.parts.iter_mut().filter(|p| p.name == "cells") {
                for x in p.data.iter_mut() {
                    if close(*x, 0.0, 4.0, true) {
                        *x = 0.0;
                    }
                }
            }
            Got::Out(o)
        }
        _ => g.clone(),
    }
}

/// P28: effort of a pass and reaction to an interrupt.
fn judge_effort(s: &Scn, op: &Op, d: &Done, ds: &Ds, rep: &mut Report) -> Verdict {
    let what;
    let mut polls_needed = 0;
    let mut cursors = 1;
    match op.name.as_str() {
        "pass" => what = "a forward pass".to_string(),
        "cpass" => {
            what = "a forward pass over a cursor".to_string();
            // cursors before it may be opened as well
            cursors += op.arg(0) as u64;
        }
        "an" => {
            let call = call_of(op, ds);
            what = format!("{:?}", call.kind);
            let refr = call.reference(ds);
            rep.steps += refr.steps as u64;
            if call.kind.polls() && !matches!(refr.expect, Expect::Refuse) {
                // extraction polls once per row of the range
                polls_needed = (refr.steps as u64).saturating_sub(1);
            }
            if call.kind.two_cursors() {
                cursors = 2;
            }
            if call.kind == Kind::Msd {
                cursors = 2 * call.params(ds).lags.2 as u64;
            }
        }
        _ => return Ok(()),
    }
    if let Got::Fail(Fk::Endless) = d.got {
        return bad("endless", format!("{} does not end", what));
    }
    rep.judged += 1;
    rep.nontrivial |= ds.stats.nsteps > s.get("win") as usize;
    let w = world();
    if !ds.by_particle && d.fired.is_empty() {
        for (label, n) in w.reads.iter() {
            if label.contains("/timestep ") && *n > cursors {
                return bad("reread", format!("{} reads {} {} times", what, label, n));
            }
        }
    }
    if ds.by_particle && d.fired.is_empty() {
        // a window takes every track once, the shared times once per track
        let windows = (ds.stats.nsteps as u64).div_ceil(s.get("win").max(1) as u64) + 1;
        for (label, n) in w.reads.iter().filter(|(l, _)| l.contains("/particle ")) {
            let per = if label.ends_with("/time") { ds.stats.npart as u64 + 1 } else { 1 };
            if *n > 2 * cursors * windows * per {
                return bad("reread", format!("{} reads {} {} times in {} windows", what, label, n, windows));
            }
        }
    }
    drop(w);
    if d.interrupted() {
        if !d.got.failed() {
            return bad("interrupt-ignored", format!("{} was interrupted and reports success", what));
        }
        if d.after_fault > 0 {
            return bad("interrupt-late", format!("{} goes on for {} operations after an interrupt", what, d.after_fault));
        }
        rep.nontrivial = true;
    } else if d.fired.is_empty() && !d.got.failed() && d.polls < polls_needed {
        return bad("polls", format!("{} polls {} times in {} timesteps", what, d.polls, polls_needed + 1));
    }
    Ok(())
}
