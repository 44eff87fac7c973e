//! One seed, one execution: every execution of a scenario happens in a process of its
//! own, forked from a clean one, so that nothing a run leaves in memory can reach
//! another run.

use crate::engine::{Done, Fk, Got};
use crate::scn::{Report, Scn, Violation};
use crate::{convert, interpose, sess, threads};
use simcore::{Class, Fault, NCLASS};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// How a forked process failed to answer.
#[derive(Clone, Debug, PartialEq)]
pub enum Death {
    Signal(i32),
    Exit(i32),
    /// the simulator itself panicked
    Panic(String),
}
impl Death {
    pub fn class(&self) -> String {
        match self {
            Death::Signal(libc::SIGXCPU) | Death::Signal(libc::SIGALRM) => "hang".into(),
            Death::Signal(_) => "killed".into(),
            Death::Exit(_) => "exits".into(),
            Death::Panic(_) => "unjudgeable".into(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Death::Signal(libc::SIGXCPU) => "computes for ever without touching storage".into(),
            Death::Signal(libc::SIGALRM) => "waits for ever".into(),
            Death::Signal(s) => format!("the process was ended by signal {}", s),
            Death::Exit(c) => format!("the process ended itself with code {}", c),
            Death::Panic(m) => format!("what the system returned could not be judged: {}", m),
        }
    }
}

/// Run `f` in a forked process and return what it returned.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, Death> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            let cpu = libc::rlimit { rlim_cur: 40, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(240);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let text = match r {
                Ok(s) => format!("ok\n{}", s),
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    format!("panic\n{}", m)
                }
            };
            let mut out = std::fs::File::from_raw_fd(fds[1]);
            let _ = out.write_all(text.as_bytes());
            drop(out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut text = String::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut text);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if let Some(t) = text.strip_prefix("ok\n") {
            return Ok(t.to_string());
        }
        if let Some(t) = text.strip_prefix("panic\n") {
            return Err(Death::Panic(t.to_string()));
        }
        if libc::WIFSIGNALED(status) {
            Err(Death::Signal(libc::WTERMSIG(status)))
        } else {
            Err(Death::Exit(libc::WEXITSTATUS(status)))
        }
    }
}

fn clean(s: &str) -> String {
    s.replace(['\n', '\r'], " ")
}

fn fault_text(f: &Fault) -> String {
    format!("{} {} {} {}", f.class as usize, f.nth, f.kind as usize, f.arg)
}
fn fault_from(w: &[&str]) -> Option<Fault> {
    let c = simcore::class_from_name(simcore::CLASS_NAMES[w.first()?.parse::<usize>().ok()?])?;
    let k = simcore::kind_from_name(simcore::KIND_NAMES[w.get(2)?.parse::<usize>().ok()?])?;
    Some(Fault { class: c, nth: w.get(1)?.parse().ok()?, kind: k, arg: w.get(3)?.parse().ok()? })
}

fn pack(r: &Report, dones: &[Done]) -> String {
    let mut s = String::new();
    if let Some(v) = &r.violation {
        s += &format!("violation {}\t{}\n", clean(&v.class), clean(&v.detail));
    }
    s += &format!(
        "totals {} {} {} {} {} {} {} {} {}\n",
        r.hash, r.ops, r.judged, r.unclear, r.nontrivial as u8, r.steps, r.sim_time.to_bits(), r.execs, r.clock_reads
    );
    for f in &r.fired {
        s += &format!("fired {}\n", fault_text(f));
    }
    for (k, n) in &r.probes {
        s += &format!("probe {} {}\n", n, k);
    }
    for (n, t) in &r.sched {
        s += &format!("sched {} {}\n", n, t);
    }
    for d in dones {
        s += &format!("done {} {} {}", d.got.failed() as u8, d.polls, d.total);
        for c in d.counts {
            s += &format!(" {}", c);
        }
        s += "\n";
    }
    for l in &r.log {
        s += &format!("log {}\n", clean(l));
    }
    s
}

fn unpack(text: &str) -> Option<(Report, Vec<Done>)> {
    let mut r = Report::default();
    let mut dones = vec![];
    for line in text.lines() {
        let (head, rest) = line.split_once(' ').unwrap_or((line, ""));
        let w: Vec<&str> = rest.split_whitespace().collect();
        match head {
            "violation" => {
                let (c, d) = rest.split_once('\t')?;
                r.violation = Some(Violation { class: c.into(), detail: d.into() });
            }
            "totals" => {
                let n: Vec<u64> = w.iter().map(|x| x.parse().ok()).collect::<Option<_>>()?;
                r.hash = n[0];
                r.ops = n[1];
                r.judged = n[2];
                r.unclear = n[3];
                r.nontrivial = n[4] == 1;
                r.steps = n[5];
                r.sim_time = f64::from_bits(n[6]);
                r.execs = n[7];
                r.clock_reads = n[8];
            }
            "fired" => r.fired.push(fault_from(&w)?),
            "probe" => {
                let (n, k) = rest.split_once(' ')?;
                r.probes.insert(k.into(), n.parse().ok()?);
            }
            "sched" => r.sched.push((w.first()?.parse().ok()?, w.get(1)?.parse().ok()?)),
            "done" => {
                let n: Vec<u64> = w.iter().map(|x| x.parse().ok()).collect::<Option<_>>()?;
                let mut counts = [0; NCLASS];
                counts.copy_from_slice(&n[3..3 + NCLASS]);
                dones.push(Done {
                    got: if n[0] == 1 { Got::Fail(Fk::Failed) } else { Got::Unit },
                    polls: n[1],
                    total: n[2],
                    counts,
                    ..Done::default()
                });
            }
            "log" => r.log.push(rest.to_string()),
            _ => {}
        }
    }
    Some((r, dones))
}

fn is_convert(s: &Scn) -> bool {
    s.k.contains_key("mode")
}

fn is_python(s: &Scn) -> bool {
    s.get("py") == 1
}
#[cfg(up4_sim_python)]
fn python(s: &Scn) -> (Report, Vec<Done>) {
    crate::py::run(s)
}
#[cfg(not(up4_sim_python))]
fn python(_: &Scn) -> (Report, Vec<Done>) {
    panic!("built without Python")
}
#[cfg(up4_sim_python)]
fn python_scenario(prop: &str, seed: u64, big: bool) -> Option<Scn> {
    crate::py::PROPS.contains(&prop).then(|| crate::py::generate(prop, seed, big))
}
#[cfg(not(up4_sim_python))]
fn python_scenario(_: &str, _: u64, _: bool) -> Option<Scn> {
    None
}

/// Execute a scenario in a fresh process.
pub fn execute(s: &Scn) -> (Report, Vec<Done>) {
    crate::data::set_unit(s.get("unit"));
    if is_convert(s) {
        convert::scratch();
    }
    #[cfg(up4_sim_python)]
    if s.get("py") == 1 {
        crate::py::start();
    }
    let r = in_child(|| {
        interpose::clock_on(s.seed);
        crate::PYTHON.with(|p| p.set(true));
        let (mut rep, dones) = if is_convert(s) {
            convert::run(s)
        } else if is_python(s) {
            python(s)
        } else if threads::PROPS.contains(&s.prop.as_str()) {
            threads::run(s)
        } else {
            sess::run(s)
        };
        rep.clock_reads = interpose::clock_reads();
        pack(&rep, &dones)
    });
    let death = match r {
        Ok(t) => match unpack(&t) {
            Some(x) => return x,
            None => Death::Panic("garbled report".into()),
        },
        Err(d) => d,
    };
    let mut rep = Report { execs: 1, ..Report::default() };
    rep.fail(death.class(), death.text());
    (rep, vec![])
}

/// The scenario of a seed, faults included, and what it did.
pub fn of_seed(prop: &str, seed: u64, big: bool) -> (Scn, Report) {
    crate::data::set_unit(0);
    let conv = convert::PROPS.contains(&prop) || (prop == "P28" && seed % 3 == 0) || (matches!(prop, "P42" | "P43") && seed % 2 == 0);
    let runs = std::cell::Cell::new(0);
    let exec = |s: &Scn| {
        runs.set(runs.get() + 1);
        execute(s)
    };
    let (s, rep) = if conv {
        let mut s = convert::generate(prop, seed, big);
        let r = convert::attach(&mut s, &exec);
        (s, r)
    } else {
        let mut s = if let Some(s) = python_scenario(prop, seed, big) {
            s
        } else if threads::PROPS.contains(&prop) {
            threads::generate(prop, seed, big)
        } else {
            sess::generate(prop, seed, big)
        };
        let r = sess::attach(&mut s, &exec);
        (s, r)
    };
    let mut rep = match rep {
        Some(r) => r,
        None => exec(&s).0,
    };
    rep.execs += runs.get() - 1;
    (s, rep)
}

/// Faults of a scenario by kind.
pub fn fault_name(f: &Fault) -> String {
    let c = match f.class {
        Class::Signal => return "interrupt".into(),
        c => simcore::CLASS_NAMES[c as usize],
    };
    format!("{} on {}", simcore::KIND_NAMES[f.kind as usize], c)
}
