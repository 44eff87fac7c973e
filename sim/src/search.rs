//! Seeded search over scenarios with several workers, and replay.

use crate::report::{Evidence, Tally};
use crate::run;
use crate::scn::{Report, Scn};
use crate::shrink;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// First seed of a search.
fn base(verif_seed: u64) -> u64 {
    verif_seed.wrapping_mul(1 << 32)
}

/// Findings that are known and not repaired.
struct Known {
    prop: String,
    class: String,
    part: String,
    text: String,
}
/// `finding: property=P01 class=read:wrong match=<text> | description`
fn known(file: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let (keys, desc) = l.split_once(" | ").unwrap_or((l, ""));
        let (head, part) = keys.split_once(" match=").unwrap_or((keys, ""));
        let mut k = Known { prop: String::new(), class: String::new(), part: part.into(), text: desc.into() };
        for w in head.split_whitespace() {
            if let Some(x) = w.strip_prefix("property=") {
                k.prop = x.into();
            }
            if let Some(x) = w.strip_prefix("class=") {
                k.class = x.into();
            }
        }
        v.push(k);
    }
    v
}

fn shared(words: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            8 * words,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "shared memory");
        std::slice::from_raw_parts(p as *const AtomicU64, words)
    }
}

/// One worker: take seeds one by one until none is left.
fn work(prop: &str, first: u64, n: u64, until: Instant, big: bool, list: &[Known], sh: &[AtomicU64]) -> Tally {
    let mut t = Tally::default();
    loop {
        let i = sh[0].fetch_add(1, SeqCst);
        // nothing after a seed that failed is of interest
        if i >= n || i > sh[1].load(SeqCst) || Instant::now() > until {
            break;
        }
        let seed = first.wrapping_add(i);
        let (s, r) = run::of_seed(prop, seed, big);
        if let Some(v) = &r.violation {
            if let Some(k) = list.iter().find(|k| k.prop == prop && k.class == v.class && v.detail.contains(&k.part)) {
                t.known.insert(k.text.clone());
                t.add(&s, &r);
                continue;
            }
            sh[1].fetch_min(i, SeqCst);
            t.failed.insert(i, s.to_text());
            t.add(&s, &r);
            continue;
        }
        t.add(&s, &r);
        // determinism: the same seed once more
        if i < 48 || i % 97 == 0 {
            let again = run::of_seed(prop, seed, big).1;
            t.repeated += 1;
            t.diverged += (again.hash != r.hash) as u64;
        }
    }
    t
}

pub fn check(prop: &str, args: &[String]) -> i32 {
    let opt: BTreeMap<String, String> =
        args.iter().filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let tier = get("tier", "quick");
    let big = tier == "thorough";
    let vseed = num("seed", 1);
    let n = num("runs", 2000);
    let secs = num("secs", 60);
    let jobs = num("jobs", 8).clamp(1, 64) as usize;
    let replays = get("replays", "replays");
    let list = known(&get("known", "known-findings.txt"));
    let mut out = crate::own_stdout();
    let start = Instant::now();
    let until = start + Duration::from_secs(secs);
    let first = base(vseed);
    let sh = shared(2);
    sh[1].store(u64::MAX, SeqCst);

    // workers are forked from this single-threaded process
    let mut kids = vec![];
    for _ in 0..jobs {
        let mut fds = [0i32; 2];
        unsafe {
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                return 2;
            }
            let pid = libc::fork();
            if pid < 0 {
                return 2;
            }
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let t = work(prop, first, n, until, big, &list, sh);
                use std::os::fd::FromRawFd;
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let ok = f.write_all(t.to_text().as_bytes()).is_ok();
                drop(f);
                crate::convert::cleanup();
                libc::_exit(if ok { 0 } else { 3 });
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Tally::default();
    let mut broken = 0;
    for (pid, fd) in kids {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut text = String::new();
        let mut status = 0;
        unsafe {
            let _ = std::fs::File::from_raw_fd(fd).read_to_string(&mut text);
            libc::waitpid(pid, &mut status, 0);
        }
        match Tally::from_text(&text) {
            Some(t) if status == 0 => all.merge(t),
            _ => broken += 1,
        }
    }
    if broken > 0 {
        let _ = writeln!(out, "ERROR: {} workers of the simulator did not finish", broken);
        return 2;
    }
    let searched = start.elapsed().as_secs_f64();
    for k in &all.known {
        let _ = writeln!(out, "KNOWN-FINDING: property={} {}", prop, k);
    }

    let mut code = 0;
    let mut found = 0;
    let worst = all.failed.iter().next().map(|(i, t)| (*i, t.clone()));
    if let Some((_, text)) = worst {
        let s = Scn::from_text(&text).expect("scenario");
        // execute it again for its report: the same seed, the same execution
        let r = run::execute(&s).0;
        let (min, rep, tries) = if r.violation.is_some() {
            let slow = matches!(r.violation.as_ref().unwrap().class.as_str(), "hang");
            shrink::minimise(&s, &r, num("shrink", if slow { 8 } else { 1500 }), Duration::from_secs(60))
        } else {
            (s.clone(), r.clone(), 0)
        };
        if rep.violation.is_none() {
            let _ = writeln!(out, "ERROR: the failure of seed {} does not repeat", s.seed);
            return 2;
        }
        let _ = std::fs::create_dir_all(&replays);
        let path = format!("{}/{}-{}.replay", replays, prop, s.seed);
        let log = logged(&min);
        if std::fs::write(&path, replay_text(&min, &s, &rep, tries, &log)).is_err() {
            let _ = writeln!(out, "ERROR: cannot write {}", path);
            return 2;
        }
        // the file has to fail in a process that knows nothing of this one
        let me = std::env::current_exe().expect("own path");
        let again = std::process::Command::new(me)
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let v = rep.violation.as_ref().unwrap();
        let _ = writeln!(
            out,
            "{} {}: {}\n  seed {}, {} operations, {} faults after {} minimisation runs; replay in a fresh process {}",
            prop,
            v.class,
            v.detail,
            s.seed,
            min.ops.len(),
            min.faults(),
            tries,
            match &again {
                Ok(c) if c.code() == Some(1) => "fails the same way",
                _ => "DID NOT FAIL",
            }
        );
        let _ = writeln!(out, "VIOLATION property={} replay={}", prop, path);
        found = all.failed.len() as u64;
        code = 1;
    }
    let ev = Evidence {
        prop,
        tier: &tier,
        seed: vseed,
        jobs,
        planned: n,
        tally: &all,
        searched,
        wall: start.elapsed().as_secs_f64(),
        violations: found,
    };
    let file = get("evidence", &format!("evidence/{}.json", prop));
    if let Some(d) = std::path::Path::new(&file).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&file, ev.json()).is_err() {
        let _ = writeln!(out, "ERROR: cannot write {}", file);
        return 2;
    }
    let _ = writeln!(
        out,
        "{} {}: {} seeds, {} judged results, {} distinct non-trivial runs, {} faults fired, {:.1} s",
        prop,
        if code == 0 { "held" } else { "broken" },
        all.runs,
        all.judged,
        all.distinct.len(),
        all.faults.values().sum::<u64>(),
        start.elapsed().as_secs_f64()
    );
    code
}

/// The event log of a scenario.
fn logged(s: &Scn) -> Vec<String> {
    std::env::set_var("UP4SIM_LOG", "1");
    let r = run::execute(s).0;
    std::env::remove_var("UP4SIM_LOG");
    r.log
}

fn replay_text(min: &Scn, orig: &Scn, r: &Report, tries: u64, log: &[String]) -> String {
    let v = r.violation.as_ref().unwrap();
    let mut t = String::from("up4sim replay\n");
    t += &format!("expect {}\nexpect-hash {}\n", v.class, r.hash);
    t += &format!("# {}\n", v.detail);
    t += &format!(
        "# from seed {} with {} operations and {} faults, {} minimisation runs\n",
        orig.seed,
        orig.ops.len(),
        orig.faults(),
        tries
    );
    t += &min.to_text();
    t += "# event log of this execution\n";
    for l in log.iter().take(400) {
        t += &format!("#   {}\n", l);
    }
    if log.len() > 400 {
        t += &format!("#   ... {} more\n", log.len() - 400);
    }
    t
}

pub fn replay(path: &str) -> i32 {
    let mut out = crate::own_stdout();
    let Ok(text) = std::fs::read_to_string(path) else {
        let _ = writeln!(out, "ERROR: cannot read {}", path);
        return 2;
    };
    let Some(s) = Scn::from_text(&text) else {
        let _ = writeln!(out, "ERROR: {} is no replay file", path);
        return 2;
    };
    let want = text.lines().find_map(|l| l.strip_prefix("expect ")).unwrap_or("").to_string();
    let hash = text.lines().find_map(|l| l.strip_prefix("expect-hash ")).unwrap_or("").to_string();
    let r = run::execute(&s).0;
    match &r.violation {
        None => {
            let _ = writeln!(out, "{}: no violation", s.prop);
            0
        }
        Some(v) => {
            let _ = writeln!(out, "{} {}: {}", s.prop, v.class, v.detail);
            let _ = writeln!(
                out,
                "same class: {}, same event log: {}",
                want == v.class,
                hash == r.hash.to_string()
            );
            let _ = writeln!(out, "VIOLATION property={} replay={}", s.prop, path);
            1
        }
    }
}

pub fn one(prop: &str, seed: u64, big: bool) -> i32 {
    let mut out = crate::own_stdout();
    let (s, _) = run::of_seed(prop, seed, big);
    std::env::set_var("UP4SIM_LOG", "1");
    let r = run::execute(&s).0;
    let _ = write!(out, "{}", s.to_text());
    for l in &r.log {
        let _ = writeln!(out, "# {}", l);
    }
    let _ = writeln!(
        out,
        "# hash {} judged {} unclear {} clock readings {} violation {:?}",
        r.hash, r.judged, r.unclear, r.clock_reads, r.violation
    );
    r.violation.is_some() as i32
}

pub fn hashes(prop: &str, from: u64, n: u64) -> i32 {
    let mut out = crate::own_stdout();
    for seed in from..from + n {
        let (s, r) = run::of_seed(prop, seed, false);
        let _ = writeln!(out, "{} {} {} {:?}", seed, r.hash, crate::rng::h(&[s.to_text().len() as u64]), r.violation);
    }
    0
}
