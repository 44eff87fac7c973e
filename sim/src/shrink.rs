//! Minimisation of a failing scenario: fewer operations, faults and switches, smaller
//! values, as long as the same class of violation remains.

use crate::run::execute;
use crate::scn::{Report, Scn};
use std::time::{Duration, Instant};

pub struct Shrink {
    class: String,
    best: Scn,
    report: Report,
    pub tries: u64,
    max: u64,
    deadline: Instant,
}

impl Shrink {
    fn spent(&self) -> bool {
        self.tries >= self.max || Instant::now() > self.deadline
    }
    fn attempt(&mut self, c: Scn) -> bool {
        if self.spent() || c == self.best {
            return false;
        }
        self.tries += 1;
        let r = execute(&c).0;
        if r.violation.as_ref().is_some_and(|v| v.class == self.class) {
            self.best = c;
            self.report = r;
            return true;
        }
        false
    }

    fn ops(&mut self) -> bool {
        let mut better = false;
        let mut size = self.best.ops.len().div_ceil(2);
        while size > 0 {
            let mut at = self.best.ops.len();
            while at > 0 {
                let from = at.saturating_sub(size);
                let mut c = self.best.clone();
                if at <= c.ops.len() && at - from < c.ops.len() {
                    c.ops.drain(from..at);
                    better |= self.attempt(c);
                }
                at = from;
                if self.spent() {
                    return better;
                }
            }
            size /= 2;
        }
        better
    }
    fn faults(&mut self) -> bool {
        let mut better = false;
        let mut i = 0;
        while i < self.best.ops.len() {
            let mut j = self.best.ops[i].faults.len();
            while j > 0 {
                j -= 1;
                let mut c = self.best.clone();
                c.ops[i].faults.remove(j);
                if self.attempt(c) {
                    better = true;
                    continue;
                }
                for v in smaller(self.best.ops[i].faults[j].nth as i64) {
                    let mut c = self.best.clone();
                    c.ops[i].faults[j].nth = v as u64;
                    if self.attempt(c) {
                        better = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        better
    }
    fn switches(&mut self) -> bool {
        let mut better = false;
        let Some(v) = &self.best.sched else { return false };
        let mut size = v.len().div_ceil(2);
        while size > 0 {
            let mut at = self.best.sched.as_ref().unwrap().len();
            while at > 0 {
                let from = at.saturating_sub(size);
                let mut c = self.best.clone();
                if at <= c.sched.as_ref().unwrap().len() {
                    c.sched.as_mut().unwrap().drain(from..at);
                    better |= self.attempt(c);
                }
                at = from;
                if self.spent() {
                    return better;
                }
            }
            size /= 2;
        }
        better
    }
    fn knobs(&mut self) -> bool {
        let mut better = false;
        let names: Vec<String> = self.best.k.keys().cloned().collect();
        for n in names {
            // what is simulated, not how much of it
            if matches!(n.as_str(), "mode" | "dseed" | "chance" | "dirseed" | "py" | "refuse") {
                continue;
            }
            let v = self.best.get(&n);
            let cands: Vec<i64> = if matches!(n.as_str(), "flags" | "opt") {
                (0..16).filter(|b| v & (1 << b) != 0).map(|b| 1 << b).collect()
            } else {
                smaller(v)
            };
            for x in cands {
                let now = self.best.get(&n);
                let mut c = self.best.clone();
                c.set(&n, if matches!(n.as_str(), "flags" | "opt") { now & !x } else { x });
                if n == "nt" && x == 0 {
                    continue;
                }
                if self.attempt(c) {
                    better = true;
                    if !matches!(n.as_str(), "flags" | "opt") {
                        break;
                    }
                }
            }
        }
        better
    }
    fn args(&mut self) -> bool {
        let mut better = false;
        for i in 0..self.best.ops.len() {
            for j in 0..self.best.ops[i].a.len() {
                if self.best.ops[i].name == "an" && j == 0 {
                    continue;
                }
                let v = self.best.ops[i].a[j];
                let mut cands = smaller(v);
                if v > 1 << 16 {
                    cands = vec![0, 1, 2, 3];
                }
                for x in cands {
                    let mut c = self.best.clone();
                    c.ops[i].a[j] = x;
                    if self.attempt(c) {
                        better = true;
                        break;
                    }
                }
            }
        }
        better
    }
}

fn smaller(v: i64) -> Vec<i64> {
    let mut c = vec![0, 1, 2, v / 4, v / 2, v - v / 4, v - 1];
    c.retain(|x| *x >= 0 && *x < v);
    c.dedup();
    c
}

pub fn minimise(s: &Scn, r: &Report, max: u64, time: Duration) -> (Scn, Report, u64) {
    let v = r.violation.as_ref().expect("a violation");
    let mut x = Shrink {
        class: v.class.clone(),
        best: s.clone(),
        report: r.clone(),
        tries: 0,
        max,
        deadline: Instant::now() + time,
    };
    if crate::threads::PROPS.contains(&s.prop.as_str()) && s.sched.is_none() {
        let mut c = s.clone();
        c.sched = Some(r.sched.clone());
        x.attempt(c);
    }
    loop {
        let mut better = x.ops();
        better |= x.faults();
        better |= x.switches();
        better |= x.knobs();
        better |= x.args();
        if !better || x.spent() {
            break;
        }
    }
    (x.best, x.report, x.tries)
}
