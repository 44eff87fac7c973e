//! Deterministic simulation of up4 with fault injection.
//!
//!   up4sim check PROP key=value...   search seeds, write evidence, report violations
//!   up4sim replay FILE               execute a replay file
//!   up4sim seed PROP SEED [big]      execute one seed and print what it does
//!   up4sim hashes PROP FROM N        event-log hash of each seed
mod analysis;
mod convert;
mod data;
mod engine;
mod interpose;
mod keep;
mod mem;
mod own;
mod report;
#[cfg(up4_sim_python)]
mod plots;
#[cfg(up4_sim_python)]
mod py;
mod rng;
mod run;
mod scn;
mod search;
mod sess;
mod shrink;
mod spec;
mod threads;

use std::process::exit;

thread_local! {
    /// whether this thread holds the lock of the Python interpreter
    pub static PYTHON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The interrupt poll of the Python runtime, answered by the simulator.
#[no_mangle]
pub extern "C" fn PyErr_CheckSignals() -> i32 {
    if !PYTHON.with(|p| p.get()) {
        // what the interpreter does to a caller without its lock
        unsafe { libc::raise(libc::SIGSEGV) };
    }
    match simcore::op(simcore::Class::Signal, "poll") {
        Ok(()) => 0,
        Err(_) => -1,
    }
}

/// The system prints progress; only the simulator's own lines are wanted.
pub fn own_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(keep)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // worker threads of the system: one, so that there is one order of events
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match get(0) {
        "check" => search::check(get(1), &a[2..]),
        "replay" => search::replay(get(1)),
        "seed" => search::one(get(1), get(2).parse().unwrap_or(0), get(3) == "big"),
        "hashes" => search::hashes(get(1), get(2).parse().unwrap_or(0), get(3).parse().unwrap_or(1)),
        _ => {
            eprintln!("up4sim check|replay|seed|hashes ...");
            2
        }
    };
    convert::cleanup();
    exit(code);
}
