#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the checks change)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "MANIFEST.json")
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
READ = T + "seeded histories of reads over a moving window with storage faults, against what the simulated disk stores"
ANA = T + "seeded histories of analyses, reads, storage faults and interrupts on one handle, against an executable reference model"
CONV = T + "seeded conversions under split, interrupted and failing reads, directory orders, full disks, lost writes and crashes, output compared with the input"
TECH = {p: READ for p in ("P01", "P02", "P03", "P04", "P05")}
TECH.update({p: ANA for p in ("P06", "P07", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P31", "P34")})
TECH.update({p: CONV for p in ("P20", "P21", "P22", "P23", "P24", "P25", "P29", "P33")})
TECH["P39"] = T + "seeded histories in which a loop over the timesteps fills grids, with storage faults, copies and changes in between, compared after every step with a plain table"
TECH["P40"] = T + "seeded histories of reads, passes and analyses over datasets larger than a window with storage faults and interrupts, the bytes held counted at every operation against a bound from window, cells and result"
TECH["P08"] = T + "seeded histories of calls on one handle, every analysis compared with a fresh handle, grid and window"
TECH["P18"] = T + "a fault or interrupt at a seeded point inside an analysis, then the same call again, compared with an undisturbed handle"
TECH["P19"] = T + "seeded selections streamed through a moving window with faults, compared with the filtered dataset and the reference model"
TECH["P26"] = T + "seeded crashes, full disks, lost and failing writes and interrupts in conversions; the simulated disk is judged afterwards"
TECH["P27"] = T + "seeded interleaving of 2-4 threads at every storage operation, each result compared with the handle used alone"
TECH["P41"] = T + "seeded interleaving of 2-4 threads that convert and read, with storage faults and interrupts in some; each dataset and result compared with the same operation alone"
TECH["P42"] = T + "seeded histories of reads, analyses and conversions cut by storage faults, crashes and interrupts; the simulated disk compared and every call that would change the file system recorded"
TECH["P43"] = T + "seeded histories of opening, reading, cursors, analyses and conversions of many files, cut by storage faults and interrupts; open HDF5 files and descriptors counted after and during every call"
TECH["P28"] = T + "storage operations and interrupt polls counted per call, interrupts at seeded points"
PY = T + "a real Python interpreter in the simulated process; "
TECH["P30"] = PY + "seeded plots of fields computed over seeded datasets with storage faults and interrupts; the traces of every figure are compared with the field, cell by cell"
TECH["P35"] = PY + "seeded histories of calls on Data objects with storage faults and interrupts, each compared with the same call of the library on a fresh handle"
TECH["P36"] = PY + "seeded indices, slices, lists and iterations between analyses and storage faults, compared with what the simulated disk stores"
TECH["P37"] = PY + "seeded grid arguments over seeded datasets and handle histories, compared with an independent definition of the grid and its counts"
TECH["P38"] = PY + "seeded conversions with given and omitted arguments under split, interrupted and failing reads, directory orders, failing writes, crashes and interrupts, output compared with the input"
NOTE = ("Sampling, not proof: tens of thousands of seeded runs of the real code per quick check, each repeatable from its seed; "
        "trusts the in-memory stand-ins for the HDF5 and VTK libraries and the reference model in /verif/sim/src.")
EXTRA = {
 "P08": " The window size is changed through the guarded hook.",
 "P10": " Times with equal distance to two timesteps are judged by the documented rule; times next to the ends within rounding are not judged.",
 "P17": " Extraction at a time that has no row for the particle is not judged.",
 "P21": " An interrupted read may fail the conversion.",
 "P23": " An interrupted read may fail the conversion.",
 "P25": " An interrupted read may fail the conversion.",
 "P26": " Crash states are prefixes of the unsynced changes or an unreadable file; real HDF5 files can be torn in more ways.",
 "P29": " Tracks that do not cover the same time are not judged.",
 "P30": " Figures are recorded by a stand-in for plotly and not drawn; widths of cells and arrows of cylindrical planes, arrows of zero vectors and the number of contours are not judged.",
 "P31": " Outliers whose neighbours are empty, at the seam of a cylindrical grid or next to another one there are not judged.",
 "P33": " The row count of the parallel computation is lowered through the guarded hook; its thread pool is limited to one worker.",
 "P34": " Positions within rounding of an inner edge, and layers at positions outside of the grid, are not judged.",
 "P35": " The second build (--cfg up4_sim_python) links the installed CPython 3.12 and uses the installed numpy.",
 "P36": " Timesteps with fewer particles than the dataset are judged in single reads; in slices and lists for the particles they have.",
 "P37": " Cell sizes that divide an axis within rounding may give one cell less; data without extent along an axis are not judged.",
 "P38": " Velocities and interpolated positions are judged as in P21, P29 and P33; an interrupted read may fail the conversion.",
 "P39": " Positions within rounding of an inner edge are not put into the grids.",
 "P40": " The bound leaves more than half of its room free; what the HDF5 library itself would hold is not counted.",
 "P41": " Threads switch at storage operations, reads and directory entries only.",
 "P43": " HDF5 files are those of the stand-in, VTK documents are not counted; up to 16 input files and 3 files beside the cursors are allowed.",
 "P42": " Modification times and what other processes see meanwhile are not judged.",
 "P27": " Threads switch at storage operations only; races between single instructions are out of reach.",
}
na = {
 "P32": "unreachable: nothing makes a Comparer, neither in Rust nor from Python (pylib/libcomp.rs is empty), so there is no behaviour to simulate; its inputs would be two grids, without schedule, fault, time or I/O",
}
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^sim:"], text=True).split()
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "--cfg up4_sim, and --cfg up4_sim_python for the Python layer in simulation builds (RUSTFLAGS)", "enable": "RUSTFLAGS='--cfg up4_sim' (P30, P35-P38: '--cfg up4_sim --cfg up4_sim_python') cargo build --offline in /verif/sim, which depends on /repo by path (check.sh does it)", "source_commits": hook},
 "checks": [{
   "property": p["id"],
   "quick_cmd": "./check.sh %s quick" % p["id"],
   "thorough_cmd": "./check.sh %s thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": TECH[p["id"]],
   "level": "exploration",
   "level_note": NOTE + EXTRA.get(p["id"], ""),
 } for p in props if p["id"] not in na],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "Each check rebuilds the simulator against /repo's working tree (about 25 s from nothing), searches seeds derived from VERIF_SEED for 25-35 s (thorough: 600 s) on all cores, minimises the first failing seed and writes a replay file: sim/target/debug/up4sim replay FILE (P30, P35-P38: sim/target-python).",
}
json.dump(m, open(OUT, "w"), indent=1)
open(OUT, "a").write("\n")
print(len(m["checks"]))
