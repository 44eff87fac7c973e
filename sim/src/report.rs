//! What a search adds up, and the evidence file.

use crate::run::fault_name;
use crate::scn::{Report, Scn};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Tally {
    pub runs: u64,
    pub execs: u64,
    pub ops: u64,
    pub judged: u64,
    pub unclear: u64,
    pub steps: u64,
    pub sim_time: f64,
    pub with_faults: u64,
    pub switches: u64,
    pub clock_reads: u64,
    pub repeated: u64,
    pub diverged: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    /// event-log hashes of non-trivial runs
    pub distinct: BTreeSet<u64>,
    /// of all runs
    pub logs: BTreeSet<u64>,
    /// schedules, faults and operation names, without data: which way a run took
    pub shapes: BTreeSet<u64>,
    pub known: BTreeSet<String>,
    /// index of the seed -> scenario
    pub failed: BTreeMap<u64, String>,
    pub samples: Vec<String>,
}

impl Tally {
    pub fn add(&mut self, s: &Scn, r: &Report) {
        self.runs += 1;
        self.execs += r.execs;
        self.ops += r.ops;
        self.judged += r.judged;
        self.unclear += r.unclear;
        self.steps += r.steps;
        if r.sim_time.is_finite() {
            self.sim_time += r.sim_time;
        }
        self.switches += r.sched.len() as u64;
        self.clock_reads += r.clock_reads;
        self.with_faults += !r.fired.is_empty() as u64;
        for f in &r.fired {
            *self.faults.entry(fault_name(f)).or_insert(0) += 1;
        }
        for (k, n) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
        let mut shape = vec![];
        for o in &s.ops {
            *self.kinds.entry(op_kind(o)).or_insert(0) += 1;
            shape.push(o.who as u64);
            shape.extend(op_kind(o).bytes().map(|b| b as u64));
        }
        for f in &r.fired {
            shape.extend([f.class as u64, f.nth, f.kind as u64]);
        }
        for (n, t) in &r.sched {
            shape.extend([*n, *t as u64]);
        }
        self.shapes.insert(crate::rng::h(&shape));
        self.logs.insert(r.hash);
        if r.nontrivial {
            self.distinct.insert(r.hash);
        }
        if self.samples.len() < 2 && r.nontrivial && (!r.fired.is_empty() || self.runs > 40) {
            self.samples.push(s.to_text());
        }
    }
    pub fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        self.execs += o.execs;
        self.ops += o.ops;
        self.judged += o.judged;
        self.unclear += o.unclear;
        self.steps += o.steps;
        self.sim_time += o.sim_time;
        self.with_faults += o.with_faults;
        self.switches += o.switches;
        self.clock_reads += o.clock_reads;
        self.repeated += o.repeated;
        self.diverged += o.diverged;
        for (a, b) in [(&mut self.faults, o.faults), (&mut self.probes, o.probes), (&mut self.kinds, o.kinds)] {
            for (k, n) in b {
                *a.entry(k).or_insert(0) += n;
            }
        }
        self.distinct.extend(o.distinct);
        self.logs.extend(o.logs);
        self.shapes.extend(o.shapes);
        self.known.extend(o.known);
        self.failed.extend(o.failed);
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
            self.samples.truncate(3);
        }
    }
    pub fn to_text(&self) -> String {
        let mut t = format!(
            "n {} {} {} {} {} {} {} {} {} {} {} {}\n",
            self.runs,
            self.execs,
            self.ops,
            self.judged,
            self.unclear,
            self.steps,
            self.sim_time.to_bits(),
            self.with_faults,
            self.switches,
            self.clock_reads,
            self.repeated,
            self.diverged
        );
        for (tag, m) in [("fault", &self.faults), ("probe", &self.probes), ("kind", &self.kinds)] {
            for (k, n) in m {
                t += &format!("{} {} {}\n", tag, n, k);
            }
        }
        for (tag, m) in [("distinct", &self.distinct), ("hash", &self.logs), ("shape", &self.shapes)] {
            for h in m {
                t += &format!("{} {}\n", tag, h);
            }
        }
        for k in &self.known {
            t += &format!("known {}\n", k);
        }
        for (i, s) in &self.failed {
            t += &format!("failed {} {}\n", i, s.replace('\n', "\u{1}"));
        }
        for s in &self.samples {
            t += &format!("sample {}\n", s.replace('\n', "\u{1}"));
        }
        t += "end\n";
        t
    }
    pub fn from_text(text: &str) -> Option<Tally> {
        let mut r = Tally::default();
        let mut whole = false;
        for l in text.lines() {
            let (tag, rest) = l.split_once(' ').unwrap_or((l, ""));
            match tag {
                "n" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
                    r.runs = v[0];
                    r.execs = v[1];
                    r.ops = v[2];
                    r.judged = v[3];
                    r.unclear = v[4];
                    r.steps = v[5];
                    r.sim_time = f64::from_bits(v[6]);
                    r.with_faults = v[7];
                    r.switches = v[8];
                    r.clock_reads = v[9];
                    r.repeated = v[10];
                    r.diverged = v[11];
                }
                "fault" | "probe" | "kind" => {
                    let (n, k) = rest.split_once(' ')?;
                    let m = match tag {
                        "fault" => &mut r.faults,
                        "probe" => &mut r.probes,
                        _ => &mut r.kinds,
                    };
                    m.insert(k.into(), n.parse().ok()?);
                }
                "distinct" => {
                    r.distinct.insert(rest.parse().ok()?);
                }
                "hash" => {
                    r.logs.insert(rest.parse().ok()?);
                }
                "shape" => {
                    r.shapes.insert(rest.parse().ok()?);
                }
                "known" => {
                    r.known.insert(rest.into());
                }
                "failed" => {
                    let (i, s) = rest.split_once(' ')?;
                    r.failed.insert(i.parse().ok()?, s.replace('\u{1}', "\n"));
                }
                "sample" => r.samples.push(rest.replace('\u{1}', "\n")),
                "end" => whole = true,
                _ => return None,
            }
        }
        whole.then_some(r)
    }
}

fn op_kind(o: &crate::scn::Op) -> String {
    if o.name == "an" {
        let k = crate::analysis::KINDS[o.arg(0) as usize % crate::analysis::KINDS.len()];
        format!("analysis {:?}", k)
    } else {
        o.name.clone()
    }
}

pub struct Evidence<'a> {
    pub prop: &'a str,
    pub tier: &'a str,
    pub seed: u64,
    pub jobs: usize,
    pub planned: u64,
    pub tally: &'a Tally,
    pub searched: f64,
    pub wall: f64,
    pub violations: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
fn map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

/// What a run has to do to count, per property.
fn rule(prop: &str) -> &'static str {
    match prop {
        "P01" => "a run counts when a timestep was read after another one through the same window and compared with what is stored",
        "P02" => "a run counts when an additional cursor was read and compared with what is stored",
        "P03" => "a run counts when a storage fault fired inside an operation; every read around it is compared with what is stored",
        "P04" => "a run counts when a timestep outside the dataset was asked for",
        "P05" => "a run counts when an unbuffered read was compared with what is stored",
        "P08" => "a run counts when an analysis on a used handle or grid was compared with a fresh handle",
        "P18" => "a run counts when a fault or interrupt fired inside an analysis, which must fail loudly or be complete",
        "P19" => "a run counts when an analysis over a selection was compared with the filtered dataset or the reference",
        "P20" | "P21" | "P23" | "P24" | "P25" | "P29" | "P33" | "P38" => "a run counts when a conversion reported success and its dataset was compared with the input",
        "P22" => "a run counts when the statistics of a converted dataset were compared with its data",
        "P26" => "a run counts when a fault or a crash fired inside a conversion and what is on the disk was judged",
        "P27" => "a run counts when at least two handles were used and the schedule switched more than once; every result is compared with the same handle used alone",
        "P41" => "a run counts when a conversion succeeded beside another user and the schedule switched more than once; its dataset and every other result are compared with the same operation alone",
        "P42" => "a run counts when a call did storage operations and the disk and the calls that change the file system were looked at afterwards",
        "P43" => "a run counts when files were opened or read, or a conversion had more files than it may hold open or was cut, and the files open meanwhile and afterwards were counted",
        "P30" => "a run counts when the figure of a field was compared with the field cell by cell, or arguments that make no sense had to be refused",
        "P35" => "a run counts when a call from Python was compared with the same call of the library on a fresh handle, or with the dataset, or failed from a fault that has to raise",
        "P36" => "a run counts when what an index, slice, list or iteration gave was compared with what is stored, or a bad index had to be refused",
        "P37" => "a run counts when a grid built in Python was compared with the grid that was asked for, or bad arguments had to be refused",
        "P39" => "a run counts when a grid that had received values was compared with the table that received the same ones",
        "P40" => "a run counts when a pass or an analysis went through a dataset one and a half times as large as all it may hold, and the bytes held meanwhile and afterwards were compared with the bound",
        "P28" => "a run counts when an interrupt fired or a pass was longer than the window; operations, polls and re-reads are counted",
        _ => "a run counts when at least one sample entered a result that was compared with the reference model (or bad arguments were refused)",
    }
}

impl Evidence<'_> {
    pub fn json(&self) -> String {
        let t = self.tally;
        let convert = matches!(self.prop, "P20" | "P21" | "P22" | "P23" | "P24" | "P25" | "P26" | "P29" | "P33" | "P38");
        let python = matches!(self.prop, "P30" | "P35" | "P36" | "P37" | "P38");
        let mut real = vec!["datamanager (TData, PData) with its window".to_string()];
        let mut stub = vec![
            "HDF5 library: in-memory stand-in with per-operation faults, torn and lost writes".to_string(),
            "Python interrupt poll: answered by the simulator".to_string(),
            if python { "plotly (Rust and Python): stand-ins that record the figures" } else { "plotly: not built" }.to_string(),
            "clock and random keys: simulated".to_string(),
        ];
        if !convert {
            real.push("functions, mixing, msd, circulation, dispersion, extraction, grids, selector".into());
        }
        if convert || matches!(self.prop, "P28" | "P41" | "P42" | "P43") {
            real.push("VTK and CSV converters, csv crate, std file and directory code".into());
            stub.push("vtkio parser: in-memory documents with per-operation faults".into());
            stub.push("read(2), readdir(3): intercepted for scratch files".into());
        }
        if python {
            real.push("the Python classes (src/pylib*) and up4/*.py, run by CPython with numpy in the same process".into());
            real.push("the plots (src/plotting*, up4/plotting.py)".into());
        }
        if matches!(self.prop, "P27" | "P41") {
            real.push("std threads, parked and released one at a time by the seeded scheduler".into());
        }
        if self.prop == "P42" {
            stub.push("open(2) for writing, unlink, rename, mkdir, chmod and the like: recorded and refused while a call is watched".into());
        }
        let hours = (self.searched / 3600.0).max(1e-9);
        let samples: Vec<String> = t.samples.clone();
        format!(
            concat!(
                "{{\n",
                " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n",
                " \"coverage\": {{\n",
                "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
                "  \"samples\": {},\n",
                "  \"planned_seeds\": {},\n  \"executions_of_the_system\": {},\n  \"seeds_per_hour\": {:.0},\n  \"executions_per_hour\": {:.0},\n",
                "  \"workers\": {},\n",
                "  \"runs_with_faults\": {},\n  \"faults_fired\": {},\n",
                "  \"seam_operations\": {},\n  \"timesteps_processed\": {},\n  \"simulated_dataset_seconds\": {:.1},\n  \"simulated_clock_readings\": {},\n",
                "  \"context_switches\": {},\n",
                "  \"distinct_event_logs\": {},\n  \"distinct_shapes\": {},\n",
                "  \"distinctness\": {},\n",
                "  \"results_judged\": {},\n  \"results_not_judged\": {},\n",
                "  \"operations_by_kind\": {},\n  \"conditions_reached\": {},\n",
                "  \"determinism\": {{\"seeds_run_twice\": {}, \"different_event_logs\": {}}},\n",
                "  \"real_code\": {},\n  \"stubs\": {}\n",
                " }},\n",
                " \"assumptions\": {},\n",
                " \"violations\": {},\n \"wall_s\": {:.2}\n}}\n"
            ),
            esc(self.prop),
            esc(self.tier),
            self.seed,
            t.runs,
            t.distinct.len(),
            esc(&format!("one seed gives dataset, window, operations, schedule and faults; {}; distinct by the hash of the event log and everything observed", rule(self.prop))),
            list(&samples),
            self.planned,
            t.execs,
            t.runs as f64 / hours,
            t.execs as f64 / hours,
            self.jobs,
            t.with_faults,
            map(&t.faults),
            t.ops,
            t.steps,
            t.sim_time,
            t.clock_reads,
            t.switches,
            t.logs.len(),
            t.shapes.len(),
            esc("event logs: every seam operation in order with its faults and outcome; shapes: operation kinds, fault positions and schedule without the data"),
            t.judged,
            t.unclear,
            map(&t.kinds),
            map(&t.probes),
            t.repeated,
            t.diverged,
            list(&real),
            list(&stub),
            list(&[
                "the HDF5 and VTK stand-ins behave as the real libraries do for the calls up4 makes".to_string(),
                "window size is set through the guarded hook; the shipped constant is 20000".to_string(),
                "threads interleave at storage operations, not at single instructions".to_string(),
                "sampling: a clean batch is evidence, not proof".to_string(),
            ]),
            self.violations,
            self.wall
        )
    }
}
