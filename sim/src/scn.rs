//! A scenario: everything one simulated run does, as plain data.  It is derived from a
//! seed, can be shrunk, and is what a replay file holds.

use simcore::{class_from_name, kind_from_name, Fault, CLASS_NAMES, KIND_NAMES};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub name: String,
    /// which simulated thread does it
    pub who: usize,
    pub a: Vec<i64>,
    /// faults, counted from the start of the operation
    pub faults: Vec<Fault>,
}

impl Op {
    pub fn new(name: &str, a: &[i64]) -> Op {
        Op { name: name.into(), who: 0, a: a.to_vec(), faults: vec![] }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scn {
    pub prop: String,
    pub seed: u64,
    pub k: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    /// explicit schedule: at the n-th scheduling point go on with thread t.
    /// None: decided by the seeded scheduler
    pub sched: Option<Vec<(u64, usize)>>,
}

impl Scn {
    pub fn get(&self, k: &str) -> i64 {
        self.k.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.k.insert(k.into(), v);
    }
    pub fn faults(&self) -> usize {
        self.ops.iter().map(|o| o.faults.len()).sum()
    }

    pub fn to_text(&self) -> String {
        let mut s = format!("property {}\nseed {}\n", self.prop, self.seed);
        for (k, v) in &self.k {
            s += &format!("knob {} {}\n", k, v);
        }
        if let Some(v) = &self.sched {
            s += "scheduled\n";
            for (n, t) in v {
                s += &format!("switch {} {}\n", n, t);
            }
        }
        for o in &self.ops {
            s += &format!("op {} {}", o.who, o.name);
            for a in &o.a {
                s += &format!(" {}", a);
            }
            s += "\n";
            for f in &o.faults {
                s += &format!(
                    "fault {} {} {} {}\n",
                    CLASS_NAMES[f.class as usize], f.nth, KIND_NAMES[f.kind as usize], f.arg
                );
            }
        }
        s
    }

    /// Lines that are not part of the scenario (comments, what was observed) are skipped.
    pub fn from_text(text: &str) -> Option<Scn> {
        let mut s = Scn::default();
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first() {
                Some(&"property") => s.prop = w.get(1)?.to_string(),
                Some(&"seed") => s.seed = w.get(1)?.parse().ok()?,
                Some(&"knob") => {
                    s.k.insert(w.get(1)?.to_string(), w.get(2)?.parse().ok()?);
                }
                Some(&"scheduled") => s.sched = Some(vec![]),
                Some(&"switch") => s.sched.as_mut()?.push((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?)),
                Some(&"op") => s.ops.push(Op {
                    who: w.get(1)?.parse().ok()?,
                    name: w.get(2)?.to_string(),
                    a: w[3..].iter().map(|x| x.parse().ok()).collect::<Option<_>>()?,
                    faults: vec![],
                }),
                Some(&"fault") => s.ops.last_mut()?.faults.push(Fault {
                    class: class_from_name(w.get(1)?)?,
                    nth: w.get(2)?.parse().ok()?,
                    kind: kind_from_name(w.get(3)?)?,
                    arg: w.get(4)?.parse().ok()?,
                }),
                _ => {}
            }
        }
        (!s.prop.is_empty()).then_some(s)
    }
}

/// What went wrong in a run.
#[derive(Clone, Debug)]
pub struct Violation {
    /// short and stable: minimisation keeps the class
    pub class: String,
    pub detail: String,
}

/// Everything a run reports.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub violation: Option<Violation>,
    /// hash of the event log and of everything observed
    pub hash: u64,
    pub ops: u64,
    pub judged: u64,
    pub unclear: u64,
    /// the run exercised the property (something was judged that could have failed)
    pub nontrivial: bool,
    pub fired: Vec<Fault>,
    pub probes: BTreeMap<String, u64>,
    /// timesteps processed and simulated (dataset) time covered
    pub steps: u64,
    pub sim_time: f64,
    pub log: Vec<String>,
    /// executions of the system inside this run (dry runs, baselines)
    pub execs: u64,
    /// the schedule that was taken
    pub sched: Vec<(u64, usize)>,
    /// readings of the simulated clock
    pub clock_reads: u64,
}

impl Report {
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.into(), detail: detail.into() });
        }
    }
}
