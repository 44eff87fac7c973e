//! Conversions of VTK and CSV input into datasets, with faults on every seam they
//! cross (P20-P26, P29, P33, and the conversion part of P28).

use crate::analysis::close;
use crate::data::{speed, Ds, Row, Step, F_ABSENT, F_IRREG, F_MANY, F_PERM, F_WALL};
use crate::engine::*;
use crate::interpose;
use crate::rng::{h, hf, Rng};
use crate::scn::{Op, Report, Scn};
use simcore::{world, Class, Fault, Kind, OnDisk};
use upppp_rust::datamanager::{Manager, PData, TData};
use upppp_rust::*;
use vtkio::model as vm;

pub const PROPS: [&str; 10] = ["P20", "P21", "P22", "P23", "P24", "P25", "P26", "P29", "P33", "P38"];

const LEGACY_DIR: i64 = 0;
const LEGACY_LIST: i64 = 1;
const POLY_DIR: i64 = 2;
const POLY_LIST: i64 = 3;
const UNSTR_DIR: i64 = 4;
const UNSTR_LIST: i64 = 5;
const CSV_TRACK: i64 = 6;
const CSV_IDS: i64 = 7;
const CSV_STEPS: i64 = 8;
const CSV_CHAIN: i64 = 9;
const MODE_NAMES: [&str; 10] = [
    "legacy VTK folder",
    "legacy VTK files",
    "PolyData VTK folder",
    "PolyData VTK files",
    "UnstructuredGrid VTK folder",
    "UnstructuredGrid VTK files",
    "CSV track",
    "CSV with ids",
    "CSV per timestep",
    "chained CSV",
];

/// option bits (knob `opt`)
const O_DIAMETER: i64 = 1;
const O_TYPE: i64 = 2;
const O_HEADER: i64 = 4;
const O_COMMENT: i64 = 8;
const O_COLUMNS: i64 = 16;
const O_FIT: i64 = 32;
const O_DUP: i64 = 64;
const O_CRLF: i64 = 128;
const O_NONEWLINE: i64 = 256;
const O_SHUFFLE: i64 = 512;
const O_SHORTCOLS: i64 = 1024;
const O_PAD: i64 = 2048;
const O_RAGGED: i64 = 4096;
/// the fitted positions follow no parabola
const O_NOISE: i64 = 8192;
const O_INTERP: i64 = 16384;
/// short tracks take the path of long ones
const O_PARALLEL: i64 = 32768;

/// the fields of a VTK file: velocity, id, radius, diameter, type
const OWN_FIELDS: [&str; 5] = ["vel", "ident", "size", "diam", "kind"];
const USUAL_FIELDS: [&str; 5] = ["v", "id", "radius", "diameter", "type"];

/// Input files and what the dataset made from them has to hold.
pub struct Source {
    mode: i64,
    /// folder of the input files
    dir: String,
    want: Vec<Step>,
    /// tracks of different lengths: they are looked up in the file itself
    tracks: Option<Vec<Vec<[f64; 7]>>>,
    /// tracks that are interpolated, as they were recorded: time and position
    recorded: Option<Vec<Vec<[f64; 4]>>>,
    /// how far a velocity of steep positions may be off
    slack: f64,
    by_particle: bool,
    files: Vec<String>,
    /// id, type, radius, cloud, density are judged where known
    judge_id: bool,
    judge_vel: bool,
    fitted: bool,
    npart: usize,
    // arguments of the call
    timestep: f64,
    filter: String,
    columns: Vec<i64>,
    delimiter: &'static str,
    comment: &'static str,
    header: bool,
    sampling: usize,
    radius: f64,
    fields: [&'static str; 5],
    opt: i64,
    bytes: u64,
    /// the conversion is asked for from Python
    py: bool,
    /// how the call is wrong: it has to be refused
    refuse: i64,
    seed: u64,
}

/// Scratch folder of this process; input files lie in `in/`.
pub fn scratch() -> String {
    static DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    DIR.get_or_init(|| {
        let base = std::env::temp_dir().join(format!("up4sim.{}", std::process::id()));
        std::fs::create_dir_all(&base).expect("scratch folder");
        let base = std::fs::canonicalize(&base).expect("scratch folder");
        std::env::set_current_dir(&base).expect("scratch folder");
        base.to_string_lossy().to_string()
    })
    .clone()
}
pub fn cleanup() {
    let d = std::env::temp_dir().join(format!("up4sim.{}", std::process::id()));
    if d.exists() {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(d);
    }
}

fn write(src: &mut Source, name: &str, text: &str) {
    let path = format!("{}/{}", src.dir, name);
    std::fs::write(&path, text).expect("scratch file");
    src.bytes += text.len() as u64;
}

impl Source {
    fn build(s: &Scn) -> Source {
        vtkio::sim_clear();
        Source::build_in(s, "in")
    }
    pub fn build_in(s: &Scn, dir: &str) -> Source {
        scratch();
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).expect("scratch folder");
        let mode = s.get("mode").clamp(0, 9);
        let mut opt = s.get("opt");
        let seed = s.get("dseed") as u64;
        let py = s.get("py") == 1;
        if py {
            // from Python there is always a type field
            opt |= O_TYPE;
        }
        // from Python, some arguments have the value they have when left out
        let usual = |salt: u64| py && h(&[seed, 404, salt]) % 2 == 0;
        if usual(0) {
            opt |= O_HEADER;
        }
        if usual(1) {
            opt &= !O_COLUMNS;
        }
        let mut src = Source {
            mode,
            dir: dir.into(),
            want: vec![],
            tracks: None,
            recorded: None,
            slack: 0.0,
            by_particle: matches!(mode, CSV_TRACK | CSV_IDS | CSV_CHAIN),
            files: vec![],
            judge_id: mode != CSV_TRACK,
            judge_vel: true,
            fitted: false,
            npart: 1,
            timestep: 1.0,
            filter: String::new(),
            columns: vec![],
            delimiter: if usual(2) { "," } else { [",", ";", "\t", " "][(h(&[seed, 400]) % 4) as usize] },
            comment: if usual(3) { "#" } else { ["#", "%"][(h(&[seed, 401]) % 2) as usize] },
            header: opt & O_HEADER != 0,
            sampling: if usual(4) { 9 } else { [3, 5, 7][(h(&[seed, 402]) % 3) as usize] },
            radius: if usual(5) { 0.0 } else { [0.5, 1.25, 3.0][(h(&[seed, 403]) % 3) as usize] },
            fields: if usual(6) { USUAL_FIELDS } else { OWN_FIELDS },
            opt,
            bytes: 0,
            py,
            refuse: s.get("refuse"),
            seed,
        };
        match mode {
            CSV_TRACK => src.track(s, seed),
            CSV_IDS => src.ids(s, seed),
            CSV_STEPS => src.steps(s, seed),
            CSV_CHAIN => src.chain(s, seed),
            _ => src.vtk(s, seed),
        }
        src
    }

    /// Table of particles that may leave after the first timestep.
    fn table(&self, s: &Scn, seed: u64, nt: usize) -> Vec<Step> {
        let np = s.get("np").max(1) as usize;
        let flags = s.get("flags");
        let mut ds = Ds::generate(false, nt, np, seed, flags & (F_PERM | F_MANY | F_IRREG | F_WALL));
        for (k, st) in ds.steps.iter_mut().enumerate() {
            for r in st.rows.iter_mut() {
                r.id += 1.0;
                r.cloud = 1.0;
                r.density = 1.0;
            }
            if k > 0 && flags & F_ABSENT != 0 {
                let keep = st.rows[0].clone();
                st.rows.retain(|r| h(&[seed, 410, r.id as u64, k as u64 / 2]) % 4 != 0);
                if st.rows.is_empty() {
                    st.rows.push(keep);
                }
            }
        }
        ds.steps
    }

    fn vtk(&mut self, s: &Scn, seed: u64) {
        let nt = s.get("nt").max(1) as usize;
        let mut steps = self.table(s, seed, nt);
        let names = match s.get("nseed") {
            0 => seed,
            n => n as u64,
        };
        self.npart = s.get("np").max(1) as usize;
        self.timestep = [0.25, 0.1, 1e-3, 2.0, 0.3][(h(&[seed, 420]) % 5) as usize];
        let mut number = [0, 1, 95, 998][(h(&[names, 421]) % 4) as usize];
        let stride = 1 + h(&[names, 422]) % 7;
        let prefix = ["particles_", "vtk_", "dump", "run7_"][(h(&[names, 423]) % 4) as usize];
        let ext = match self.mode {
            LEGACY_DIR | LEGACY_LIST => "vtk",
            _ if !self.py && h(&[names, 426]) % 2 == 0 => "vtk",
            POLY_DIR | POLY_LIST => "vtp",
            _ => "vtu",
        };
        self.filter = format!(r"{}(\d+)\.{}", prefix, ext);
        // the usual filter takes the number right before the extension
        let plain = self.py && h(&[names, 427]) % 2 == 0;
        if plain {
            self.filter = format!(r"(\d+).{}", ext);
        }
        for (k, st) in steps.iter_mut().enumerate() {
            let name = if self.opt & O_PAD != 0 {
                format!("{}{:06}.{}", prefix, number, ext)
            } else {
                format!("{}{}.{}", prefix, number, ext)
            };
            st.time = number as f64 * self.timestep;
            self.document(&name, &st.rows, seed, k as u64);
            write(self, &name, "");
            self.files.push(format!("{}/{}", self.dir, name));
            number += if s.get("flags") & F_IRREG != 0 { 1 + h(&[names, 424, k as u64]) % 13 } else { stride };
            if self.opt & O_TYPE == 0 {
                st.rows.iter_mut().for_each(|r| r.ptype = 1.0);
            }
            st.rows.sort_by(|a, b| a.id.partial_cmp(&b.id).unwrap());
        }
        // things in the folder that are no particle files
        let other = if ext == "vtk" { "vtk" } else { "vtm" };
        let junk = ["notes.txt".into(), format!("particles_3.{}.bak", ext), format!("vtk_boundingBox_2.{}", other)];
        for junk in junk {
            if h(&[seed, 425, junk.len() as u64]) % 2 == 0 {
                write(self, &junk, "x");
            }
        }
        self.want = steps;
    }

    fn document(&self, name: &str, rows: &[Row], seed: u64, k: u64) {
        let arr = |n: &str, c: u32, d: Vec<f64>| vm::DataArrayBase {
            name: n.into(),
            num_comp: c,
            data: vm::IOBuffer(d),
        };
        let fields = |rows: &[Row]| -> Vec<vm::DataArrayBase> {
            let mut v = vec![
                arr(self.fields[0], 3, rows.iter().flat_map(|r| r.vel).collect()),
                arr(self.fields[1], 1, rows.iter().map(|r| r.id).collect()),
                arr(self.fields[2], 1, rows.iter().map(|r| r.radius).collect()),
                arr(self.fields[3], 1, rows.iter().map(|r| 2.0 * r.radius).collect()),
                arr(self.fields[4], 1, rows.iter().map(|r| r.ptype).collect()),
                arr("force", 3, rows.iter().flat_map(|r| r.pos).collect()),
            ];
            Rng::new(h(&[seed, 430, k])).shuffle(&mut v);
            v
        };
        let points = |rows: &[Row]| vm::IOBuffer(rows.iter().flat_map(|r| r.pos).collect());
        let xml = |rows: &[Row]| vm::Attributes {
            point: fields(rows).into_iter().map(vm::Attribute::DataArray).collect(),
            cell: vec![],
        };
        // XML files may be split into pieces
        let cut = if self.opt & O_SHUFFLE != 0 { (h(&[seed, 431, k]) % (rows.len() as u64 + 1)) as usize } else { 0 };
        let parts: Vec<&[Row]> =
            if cut == 0 || cut == rows.len() { vec![rows] } else { vec![&rows[..cut], &rows[cut..]] };
        let data = match self.mode {
            LEGACY_DIR | LEGACY_LIST => vm::DataSet::PolyData {
                meta: None,
                pieces: vec![vm::Piece::Inline(Box::new(vm::PolyDataPiece {
                    points: points(rows),
                    data: vm::Attributes {
                        point: vec![vm::Attribute::Field { name: "FieldData".into(), data_array: fields(rows) }],
                        cell: vec![],
                    },
                    ..Default::default()
                }))],
            },
            POLY_DIR | POLY_LIST => vm::DataSet::PolyData {
                meta: None,
                pieces: parts
                    .iter()
                    .map(|p| {
                        vm::Piece::Inline(Box::new(vm::PolyDataPiece {
                            points: points(p),
                            data: xml(p),
                            ..Default::default()
                        }))
                    })
                    .collect(),
            },
            _ => vm::DataSet::UnstructuredGrid {
                meta: None,
                pieces: parts
                    .iter()
                    .map(|p| {
                        vm::Piece::Inline(Box::new(vm::UnstructuredGridPiece {
                            points: points(p),
                            data: xml(p),
                            ..Default::default()
                        }))
                    })
                    .collect(),
            },
        };
        vtkio::sim_put(
            &format!("{}/{}", self.dir, name),
            vm::Vtk { title: "particles".into(), data, file_path: None },
        );
    }

    /// Text of a CSV file: `cells` in the order the columns are documented in.
    fn csv(&mut self, name: &str, cells: &[Vec<f64>], seed: u64) {
        let n = cells.first().map(|c| c.len()).unwrap_or(0);
        let total = n + if self.opt & O_COLUMNS != 0 { 2 } else { 0 };
        // which column of the file holds which value
        let mut place: Vec<usize> = (0..total).collect();
        if self.opt & O_COLUMNS != 0 {
            Rng::new(h(&[seed, 440])).shuffle(&mut place);
        }
        self.columns = place[..n].iter().map(|x| *x as i64).collect();
        let eol = if self.opt & O_CRLF != 0 { "\r\n" } else { "\n" };
        let mut text = String::new();
        if self.header {
            let names: Vec<String> = (0..total).map(|i| format!("c{}", i)).collect();
            text += &names.join(self.delimiter);
            text += eol;
        }
        for (i, row) in cells.iter().enumerate() {
            if self.opt & O_COMMENT != 0 && h(&[seed, 441, i as u64]) % 5 == 0 {
                text += self.comment;
                text += "1";
                text += self.delimiter;
                text += "2";
                text += eol;
            }
            let mut line = vec![0.5; total];
            for (j, x) in row.iter().enumerate() {
                line[place[j]] = *x;
            }
            let line: Vec<String> = line.iter().map(|x| format!("{:?}", x)).collect();
            text += &line.join(self.delimiter);
            if i + 1 < cells.len() || self.opt & O_NONEWLINE == 0 {
                text += eol;
            }
        }
        let path = format!("{}/{}", self.dir, name);
        write(self, name, &text);
        self.files.push(path);
    }

    /// position and velocity on a path of constant acceleration
    fn parabola(seed: u64, p: u64, t: f64) -> ([f64; 3], [f64; 3]) {
        let c = |i: u64, a: usize| -2.0 + 4.0 * hf(&[seed, 450 + i, p, a as u64]);
        (
            std::array::from_fn(|a| c(0, a) + c(1, a) * t + 0.5 * c(2, a) * t * t),
            std::array::from_fn(|a| c(1, a) + c(2, a) * t),
        )
    }

    fn fits(&self) -> bool {
        self.opt & (O_FIT | O_INTERP) != 0
    }

    /// Rows a fit looks at on either side.
    fn half(&self) -> usize {
        if self.mode == CSV_TRACK { (self.sampling - 1) / 2 } else { 4 }
    }

    /// The path a particle is given when its velocity is fitted.
    fn path(&self, seed: u64, p: u64, t: f64, r: &mut Row) {
        if self.opt & O_INTERP != 0 {
            if self.opt & O_NOISE == 0 {
                // at constant velocity
                r.vel = Self::parabola(seed, p, 0.0).1;
                let start = Self::parabola(seed, p, 0.0).0;
                r.pos = std::array::from_fn(|a| start[a] + r.vel[a] * t);
            }
        } else if self.opt & O_NOISE == 0 {
            (r.pos, r.vel) = Self::parabola(seed, p, t);
        }
    }

    /// Slope in the middle of the parabola that fits `rows` best.
    fn slope(rows: &[[f64; 7]]) -> [f64; 3] {
        let mid = rows[rows.len() / 2][0];
        let span = rows[rows.len() - 1][0] - rows[0][0];
        std::array::from_fn(|a| {
            // normal equations in a time around zero
            let mut m = [[0.0f64; 4]; 3];
            for r in rows {
                let t = (r[0] - mid) / span;
                let p = [1.0, t, t * t];
                for i in 0..3 {
                    for j in 0..3 {
                        m[i][j] += p[i] * p[j];
                    }
                    m[i][3] += p[i] * r[1 + a];
                }
            }
            for i in 0..3 {
                let best = (i..3).max_by(|x, y| m[*x][i].abs().total_cmp(&m[*y][i].abs())).unwrap();
                m.swap(i, best);
                for j in 0..3 {
                    if j != i {
                        let f = m[j][i] / m[i][i];
                        for c in i..4 {
                            m[j][c] -= f * m[i][c];
                        }
                    }
                }
            }
            m[1][3] / m[1][1] / span
        })
    }

    /// What is left of a track whose velocities are fitted.
    fn fitted_track(&mut self, t: &[[f64; 7]]) -> Vec<[f64; 7]> {
        let half = self.half();
        (half..t.len() - half)
            .map(|k| {
                let mut row = t[k];
                if self.opt & O_NOISE != 0 {
                    let rows = &t[k - half..=k + half];
                    row[4..].copy_from_slice(&Self::slope(rows));
                    let closest = rows.windows(2).map(|w| w[1][0] - w[0][0]).fold(f64::MAX, f64::min);
                    self.slack = self.slack.max(1e-6 * 12.0 / closest);
                }
                row
            })
            .collect()
    }

    fn all_rows(ds: &Ds) -> Vec<Vec<[f64; 7]>> {
        (0..ds.steps[0].rows.len())
            .map(|p| {
                ds.steps
                    .iter()
                    .map(|st| {
                        let r = &st.rows[p];
                        [st.time, r.pos[0], r.pos[1], r.pos[2], r.vel[0], r.vel[1], r.vel[2]]
                    })
                    .collect()
            })
            .collect()
    }

    /// The dataset that is left when the velocities of all tracks are fitted.
    fn fit_all(&mut self, ds: &mut Ds) {
        let half = self.half();
        let fitted: Vec<_> = Self::all_rows(ds).iter().map(|t| self.fitted_track(t)).collect();
        ds.steps = ds.steps[half..ds.steps.len() - half].to_vec();
        for (p, t) in fitted.iter().enumerate() {
            for (st, row) in ds.steps.iter_mut().zip(t) {
                st.rows[p].vel.copy_from_slice(&row[4..]);
            }
        }
    }

    /// Some recorded times come in bursts.
    fn bursts(&self, ds: &mut Ds, seed: u64) {
        if self.opt & O_INTERP == 0 || h(&[seed, 500]) % 3 == 0 {
            return;
        }
        let mut shift = 0.0;
        for k in 1..ds.steps.len() {
            let step = ds.steps[k].time + shift - ds.steps[k - 1].time;
            if h(&[seed, 501, k as u64 / 5]) % 2 == 0 {
                shift -= 0.9 * step;
            }
            ds.steps[k].time += shift;
        }
        ds.stats.times = ds.steps.iter().map(|s| s.time).collect();
    }

    fn record(&mut self, tracks: &[Vec<[f64; 7]>]) {
        if self.opt & O_INTERP != 0 {
            self.recorded =
                Some(tracks.iter().map(|t| t.iter().map(|r| [r[0], r[1], r[2], r[3]]).collect()).collect());
        }
    }

    fn track(&mut self, s: &Scn, seed: u64) {
        let fit = self.fits();
        let half = (self.sampling - 1) / 2;
        let nt = s.get("nt").max(1) as usize + if fit { 2 * half } else { 0 };
        let mut ds = Ds::generate(true, nt, 1, seed, s.get("flags") & (F_IRREG | F_WALL | crate::data::F_NEGT));
        self.fitted = fit;
        self.bursts(&mut ds, seed);
        for st in ds.steps.iter_mut() {
            let r = &mut st.rows[0];
            if fit {
                self.path(seed, 0, st.time - ds.stats.times[0], r);
            }
            r.radius = self.radius;
            r.cloud = 1.0;
            r.ptype = 1.0;
            r.density = 0.0;
        }
        let line = |st: &Step, bend: f64| -> Vec<f64> {
            let r = &st.rows[0];
            let mut v = vec![st.time, r.pos[0] + bend, r.pos[1], r.pos[2]];
            if !fit {
                v.extend(r.vel.iter().map(|x| x - bend));
            }
            v
        };
        let mut rows: Vec<Vec<f64>> = ds.steps.iter().map(|st| line(st, 0.0)).collect();
        if self.opt & O_SHUFFLE != 0 {
            Rng::new(h(&[seed, 460])).shuffle(&mut rows);
        }
        if self.opt & O_DUP != 0 && !fit {
            // a second row with a time that was there before adds nothing
            for (k, st) in ds.steps.iter().enumerate() {
                if h(&[seed, 461, k as u64]) % 6 == 0 {
                    let at = rows.iter().position(|r| r[0] == st.time).unwrap();
                    let to = at + 1 + (h(&[seed, 462, k as u64]) % (rows.len() - at) as u64) as usize;
                    rows.insert(to.min(rows.len()), line(st, 0.25));
                }
            }
        }
        self.csv("track.csv", &rows, seed);
        if fit {
            let mut all = Self::all_rows(&ds);
            // an interpolated track starts at time zero
            all[0].iter_mut().for_each(|r| r[0] -= ds.stats.times[0]);
            self.record(&all);
            self.fit_all(&mut ds);
        }
        self.want = ds.steps;
    }

    fn ids(&mut self, s: &Scn, seed: u64) {
        let fit = self.fits();
        let np = s.get("np").max(1) as usize;
        let nt = s.get("nt").max(1) as usize + if fit { 8 } else { 0 };
        self.fitted = fit;
        self.npart = np;
        let mut ds = Ds::generate(true, nt, np, seed, s.get("flags") & (F_IRREG | F_WALL | crate::data::F_NEGT));
        self.bursts(&mut ds, seed);
        let id_step = 1 + h(&[seed, 470]) % 3;
        let first = h(&[seed, 471]) % 3;
        let mut rows = vec![];
        for st in ds.steps.iter_mut() {
            for (p, r) in st.rows.iter_mut().enumerate() {
                if fit {
                    self.path(seed, p as u64, st.time - ds.stats.times[0], r);
                }
                r.radius = self.radius;
                r.cloud = 1.0;
                r.ptype = 0.0;
                r.density = 0.0;
                let mut v = vec![st.time, (first + id_step * p as u64) as f64];
                v.extend(r.pos);
                if !fit {
                    v.extend(r.vel);
                }
                rows.push(v);
            }
        }
        if self.opt & O_RAGGED != 0 {
            let tracks = self.ragged(&ds, seed);
            self.record(&tracks);
            self.tracks = Some(tracks);
            let id = |p: usize| (first + id_step * p as u64) as f64;
            let tracks = self.tracks.as_ref().unwrap();
            rows.retain(|v| {
                (0..np).any(|p| id(p) == v[1] && tracks[p].iter().any(|row| row[0] == v[0]))
            });
            if fit && self.recorded.is_none() {
                let tracks = self.tracks.take().unwrap();
                self.tracks = Some(tracks.iter().map(|t| self.fitted_track(t)).collect());
            }
        } else {
            self.record(&Self::all_rows(&ds));
        }
        if self.opt & O_SHUFFLE != 0 {
            Rng::new(h(&[seed, 472])).shuffle(&mut rows);
        }
        if self.opt & O_DUP != 0 && !fit {
            // a later row of a particle with a time it already has adds nothing
            for k in 0..rows.len() {
                if h(&[seed, 473, k as u64]) % 6 == 0 {
                    let at = (h(&[seed, 474, k as u64]) % rows.len() as u64) as usize;
                    let mut again = rows[at].clone();
                    again[2] += 0.25;
                    again[5] -= 0.25;
                    let last = rows.iter().rposition(|r| r[..2] == again[..2]).unwrap();
                    let to = last + 1 + (h(&[seed, 475, k as u64]) % (rows.len() - last) as u64) as usize;
                    rows.insert(to.min(rows.len()), again);
                }
            }
        }
        self.csv("ids.csv", &rows, seed);
        if fit {
            self.fit_all(&mut ds);
        }
        self.want = ds.steps;
    }

    /// Every particle's own part of the rows: some times are missing, or all before or after one.
    fn ragged(&self, ds: &Ds, seed: u64) -> Vec<Vec<[f64; 7]>> {
        let nt = ds.steps.len();
        let some = if self.fitted { 9 } else { 1 };
        let np = ds.steps[0].rows.len();
        (0..np)
            .map(|p| {
                let all: Vec<[f64; 7]> = ds
                    .steps
                    .iter()
                    .map(|st| {
                        let r = &st.rows[p];
                        [st.time, r.pos[0], r.pos[1], r.pos[2], r.vel[0], r.vel[1], r.vel[2]]
                    })
                    .collect();
                let cut = h(&[seed, 491, p as u64]) % (nt as u64 + 1);
                let interp = self.opt & O_INTERP != 0;
                let style = if interp { 3 * (h(&[seed, 490, p as u64]) % 2) } else { h(&[seed, 490, p as u64]) % 4 };
                let own: Vec<[f64; 7]> = (0..nt as u64)
                    .filter(|k| match style {
                        0 => true,
                        1 => *k < cut,
                        2 => *k >= cut,
                        // interpolated tracks cover the same time
                        _ if interp && (*k == 0 || *k + 1 == nt as u64) => true,
                        _ => h(&[seed, 492, p as u64, *k]) % 4 != 0,
                    })
                    .map(|k| all[k as usize])
                    .collect();
                // a chain with nothing but short tracks is no dataset
                let least = match self.mode {
                    CSV_CHAIN if p == 0 || interp => 10,
                    _ if interp && p > 0 => 3,
                    _ => some,
                };
                if own.len() < least { all } else { own }
            })
            .collect()
    }

    fn chain(&mut self, s: &Scn, seed: u64) {
        let fit = self.fits();
        let np = s.get("np").max(1) as usize;
        // shorter tracks are left out
        let nt = s.get("nt").max(1) as usize + if fit { 8 } else { 0 };
        let nt = nt.max(10);
        self.fitted = fit;
        self.npart = np;
        let mut ds = Ds::generate(true, nt, np, seed, s.get("flags") & (F_IRREG | F_WALL | crate::data::F_NEGT));
        self.bursts(&mut ds, seed);
        for st in ds.steps.iter_mut() {
            for (p, r) in st.rows.iter_mut().enumerate() {
                if fit {
                    self.path(seed, p as u64, st.time - ds.stats.times[0], r);
                }
                r.radius = self.radius;
                r.cloud = 1.0;
                r.ptype = 0.0;
                r.density = 0.0;
            }
        }
        let ragged = self.opt & O_RAGGED != 0;
        let tracks = if ragged { self.ragged(&ds, seed) } else { Self::all_rows(&ds) };
        self.record(&tracks);
        let mut rows: Vec<Vec<f64>> = vec![];
        let mut kept = vec![];
        for (p, t) in tracks.into_iter().enumerate() {
            if rows.last().is_some_and(|l| l[0] <= t[0][0]) {
                // nothing tells it from the one before
                continue;
            }
            let mut n = 0;
            for (k, row) in t.iter().enumerate() {
                let width = if fit { 4 } else { 7 };
                rows.push(row[..width].to_vec());
                n += 1;
                // a second row with the time of the one before adds nothing
                while self.opt & O_DUP != 0 && !fit && h(&[seed, 495, p as u64, k as u64, n as u64]) % 7 == 0 {
                    let mut again = row.to_vec();
                    again[1] += 0.25;
                    again[4] -= 0.25;
                    rows.push(again);
                    n += 1;
                }
            }
            if n >= 10 {
                kept.push(if fit { self.fitted_track(&t) } else { t });
            }
        }
        self.csv("chain.csv", &rows, seed);
        if ragged {
            self.tracks = Some(kept);
        }
        if fit {
            self.fit_all(&mut ds);
        }
        self.want = ds.steps;
    }

    fn steps(&mut self, s: &Scn, seed: u64) {
        let nt = s.get("nt").max(1) as usize;
        let mut steps = self.table(s, seed, nt);
        self.npart = s.get("np").max(1) as usize;
        let short = self.opt & O_SHORTCOLS != 0;
        self.judge_vel = !short;
        for (k, st) in steps.iter_mut().enumerate() {
            let rows: Vec<Vec<f64>> = st
                .rows
                .iter()
                .map(|r| {
                    let mut v = vec![r.id];
                    v.extend(r.pos);
                    if !short {
                        v.extend(r.vel);
                    }
                    v
                })
                .collect();
            for r in st.rows.iter_mut() {
                r.radius = self.radius;
                r.cloud = 0.0;
                r.ptype = 0.0;
            }
            // the listed order counts, not the names
            let name = format!("s{}.csv", (h(&[seed, 480]) as usize % 7 + k * 5) % 97 + 100 * (k / 97));
            self.csv(&name, &rows, seed);
        }
        self.want = steps;
    }

    /// The same conversion, asked for from Python.
    #[cfg(not(up4_sim_python))]
    fn from_python(&self, _: &str) {
        panic!("built without Python")
    }
    #[cfg(up4_sim_python)]
    fn from_python(&self, out: &str) {
        use pyo3::prelude::*;
        use pyo3::types::{PyDict, PyTuple};
        let a = crate::py::call(None, "convert", |py| {
            let mut files = self.files.clone();
            let mut filter = self.filter.clone();
            let mut sampling = self.sampling;
            let mut method = if self.mode == CSV_IDS { "id_line" } else { "chain" };
            match self.refuse {
                1 => files[0] = "in/absent.csv".into(),
                2 => filter = filter.rsplit_once('.').unwrap().0.trim_end_matches('\\').to_string(),
                3 => sampling += 1,
                4 => method = "lines",
                _ => {}
            }
            // arguments with what they are when left out; those needed come first
            let mut plain: Vec<PyObject> = vec![];
            let mut named: Vec<(&str, PyObject, bool)> = vec![];
            let name = match self.mode {
                LEGACY_DIR..=UNSTR_LIST => {
                    let folder = matches!(self.mode, LEGACY_DIR | POLY_DIR | UNSTR_DIR);
                    if folder {
                        let f = if self.opt & O_PAD != 0 { "in/" } else { "in" };
                        plain.push(if self.refuse == 1 { "absent" } else { f }.into_py(py));
                    } else {
                        plain.push(files.into_py(py));
                    }
                    plain.push(self.timestep.into_py(py));
                    plain.push(out.into_py(py));
                    named.push(("filter", filter.as_str().into_py(py), filter == r"(\d+).vtk"));
                    let diameter = self.opt & O_DIAMETER != 0;
                    for (i, k) in [(0, "velocity"), (2, "radius"), (1, "id"), (4, "type")] {
                        if i == 2 && diameter {
                            // not looked at
                            continue;
                        }
                        let usual = self.fields[i] == USUAL_FIELDS[i];
                        let key = ["velocity_field_name", "radius_field_name", "id_field_name", "type_field_name"]
                            .into_iter()
                            .find(|x| x.starts_with(k))
                            .unwrap();
                        named.push((key, self.fields[i].into_py(py), usual));
                    }
                    if diameter {
                        named.push(("diameter_field_name", self.fields[3].into_py(py), false));
                    }
                    if folder { "vtk_from_folder" } else { "vtk" }
                }
                _ => {
                    if self.mode == CSV_STEPS {
                        plain.push(files.into_py(py));
                        plain.push(out.into_py(py));
                        plain.push(self.want.iter().map(|s| s.time).collect::<Vec<_>>().into_py(py));
                    } else {
                        plain.push(files[0].clone().into_py(py));
                        plain.push(out.into_py(py));
                    }
                    named.push(("columns", self.columns.clone().into_py(py), self.columns == [0, 1, 2, 3]));
                    named.push(("delimiter", self.delimiter.into_py(py), self.delimiter == ","));
                    named.push(("header", self.header.into_py(py), self.header));
                    named.push(("comment", self.comment.into_py(py), self.comment == "#"));
                    named.push(("vel", self.fitted.into_py(py), !self.fitted));
                    let interpolate = self.recorded.is_some();
                    named.push(("interpolate", interpolate.into_py(py), !interpolate));
                    named.push(("radius", self.radius.into_py(py), self.radius == 0.0));
                    match self.mode {
                        CSV_TRACK => {
                            named.push(("sampling_steps", sampling.into_py(py), sampling == 9));
                            "csv"
                        }
                        CSV_STEPS => "csv_multi_files",
                        _ => {
                            named.push(("method", method.into_py(py), method == "id_line"));
                            "csv_multi"
                        }
                    }
                }
            };
            let kwargs = PyDict::new(py);
            // by place up to somewhere, by name from there on, what is usual may be left out
            let mut by_place = h(&[self.seed, 405]) % (named.len() as u64 + 1);
            if self.mode <= UNSTR_LIST && self.opt & O_DIAMETER != 0 {
                by_place = by_place.min(2);
            }
            for (i, (k, v, usual)) in named.into_iter().enumerate() {
                if (i as u64) < by_place {
                    plain.push(v);
                } else if !(usual && h(&[self.seed, 406, i as u64]) % 4 != 0) {
                    kwargs.set_item(k, v)?;
                }
            }
            let d = PyDict::new(py);
            d.set_item("method", name)?;
            d.set_item("args", PyTuple::new(py, plain))?;
            d.set_item("kwargs", kwargs)?;
            Ok(d.into())
        });
        if let Some(e) = a.raised {
            simcore::note(&e);
            panic!("raised {}", e);
        }
    }

    /// The real conversion.
    pub fn convert(&self, out: &str) -> Got {
        if self.py {
            self.from_python(out);
            return Got::Unit;
        }
        let files: Vec<&str> = self.files.iter().map(|x| x.as_str()).collect();
        let folder = format!("{}{}", self.dir, if self.opt & O_PAD != 0 { "/" } else { "" });
        let folder = folder.as_str();
        match self.mode {
            LEGACY_DIR | LEGACY_LIST => {
                let mut c = LegacyVTKConverter::new().add_velocity_field("vel").add_id_field("ident");
                c = if self.opt & O_DIAMETER != 0 { c.add_diameter_field("diam") } else { c.add_radius_field("size") };
                if self.opt & O_TYPE != 0 {
                    c = c.add_type_field("kind");
                }
                if self.mode == LEGACY_DIR {
                    c.write_hdf5_from_folder(folder, self.timestep, out, &self.filter);
                } else {
                    c.write_hdf5_from_files(files, self.timestep, out, &self.filter);
                }
            }
            POLY_DIR..=UNSTR_LIST => {
                let ty = if self.mode <= POLY_LIST { VTKType::PolyData } else { VTKType::UnstructuredGrid };
                let mut c = XMLVTKConverter::new(ty).add_velocity_field("vel").add_id_field("ident");
                c = if self.opt & O_DIAMETER != 0 { c.add_diameter_field("diam") } else { c.add_radius_field("size") };
                if self.opt & O_TYPE != 0 {
                    c = c.add_type_field("kind");
                }
                if self.mode == POLY_DIR || self.mode == UNSTR_DIR {
                    c.write_hdf5_from_folder(folder, self.timestep, out, &self.filter);
                } else {
                    c.write_hdf5_from_files(files, self.timestep, out, &self.filter);
                }
            }
            CSV_TRACK => csv_converter(
                files[0],
                out,
                self.columns.clone(),
                self.delimiter,
                self.header,
                self.comment,
                self.fitted,
                self.recorded.is_some(),
                self.radius,
                self.sampling,
            ),
            CSV_IDS | CSV_CHAIN => csv_multi_converter(
                files[0],
                out,
                self.columns.clone(),
                self.delimiter,
                self.header,
                self.comment,
                self.fitted,
                self.recorded.is_some(),
                self.radius,
                if self.mode == CSV_IDS { "id_line" } else { "chain" },
            ),
            _ => csv_multi_file_time_step(
                files,
                out,
                self.columns.clone(),
                self.want.iter().map(|s| s.time).collect(),
                self.delimiter,
                self.header,
                self.comment,
                false,
                false,
                self.radius,
            ),
        }
        Got::Unit
    }

    fn open(&self, out: &str) -> Box<dyn Manager> {
        if self.by_particle {
            Box::new(PData::new(out))
        } else {
            Box::new(TData::new(out))
        }
    }

    fn shape(&self) -> Ds {
        Ds {
            by_particle: self.by_particle,
            steps: self.want.clone(),
            stats: crate::data::Stats { nsteps: self.want.len().max(1), npart: self.npart, ..Default::default() },
            no_density: vec![],
            no_radius: vec![],
            no_type: vec![],
        }
    }

    /// All numbers of the dataset made, statistics included, as the result of an operation.
    pub fn made(&self, out: &str) -> Got {
        use crate::analysis::Out;
        let Some(c) = self.content(out) else {
            return Got::Out(Out::default().scaled("unreadable", vec![], 1.0, false));
        };
        let shape = self.shape();
        let stats = quietly(|| Session::new(&shape, out).exec(&Op::new("stats", &[])).got);
        let mut o = Out::default();
        for p in c.iter().flat_map(|x| &x.parts) {
            o = o.scaled(p.0, p.1.clone(), 1.0, false);
        }
        for p in encode(&stats) {
            o = o.scaled("statistics", p.1, 1.0, false);
        }
        Got::Out(o)
    }

    /// What a user finds in the output; None: it does not open as a dataset.
    pub fn content(&self, out: &str) -> Option<Vec<StepData>> {
        quietly(|| {
            std::panic::catch_unwind(|| {
                let mut m = self.open(out);
                let n = *m.global_stats().timesteps();
                (0..n).map(|t| StepData::read(m.get_timestep(t))).collect::<Vec<_>>()
            })
            .ok()
        })
    }

    /// The tracks in the output file itself.
    fn stored_tracks(out: &str) -> Option<Vec<Vec<[f64; 7]>>> {
        let read = || -> hdf5::Result<Vec<Vec<[f64; 7]>>> {
            let f = hdf5::File::open(out)?;
            let mut all = vec![];
            while f.member_names()?.iter().any(|n| *n == format!("particle {}", all.len())) {
                let g = f.group(&format!("particle {}", all.len()))?;
                let t = g.dataset("time")?.read_1d::<f64>()?;
                let x = g.dataset("position")?.read_2d::<f64>()?;
                let v = g.dataset("velocity")?.read_2d::<f64>()?;
                let n = t.len();
                if x.nrows() != n || v.nrows() != n {
                    return Ok(vec![]);
                }
                all.push(
                    (0..n)
                        .map(|k| [t[k], x[[k, 0]], x[[k, 1]], x[[k, 2]], v[[k, 0]], v[[k, 1]], v[[k, 2]]])
                        .collect(),
                );
            }
            Ok(all)
        };
        let got = quietly(read).ok()?;
        for x in got.iter().flatten().flatten() {
            simcore::note(&format!("{:016x}", x.to_bits()));
        }
        Some(got)
    }

    /// Interpolated tracks: equal steps in time, along the recorded positions.
    fn interpolation_wrong(&self, out: &str, recorded: &[Vec<[f64; 4]>]) -> Option<String> {
        let Some(got) = Self::stored_tracks(out) else { return Some("the tracks cannot be read".into()) };
        if got.len() != recorded.len() {
            return Some(format!("{} tracks instead of {}", got.len(), recorded.len()));
        }
        let half = self.half();
        let n = recorded.iter().map(|t| t.len()).max().unwrap();
        for (p, (g, rec)) in got.iter().zip(recorded).enumerate() {
            let last = rec.len() - 1;
            let span = rec[last][0] - rec[0][0];
            let dt = span / (n - 1) as f64;
            let eps = 1e-9 * (span + rec[0][0].abs());
            if g.len() + 2 * half != n {
                return Some(format!("track {} has {} rows instead of {}", p, g.len(), n - 2 * half));
            }
            for (k, row) in g.iter().enumerate() {
                let t = rec[0][0] + (k + half) as f64 * dt;
                if !((row[0] - t).abs() <= eps) {
                    return Some(format!("track {} row {} is at time {:?} instead of {:?}", p, k, row[0], t));
                }
                let from = rec.iter().rposition(|r| r[0] <= t - eps).unwrap_or(0).saturating_sub(1);
                let to = (rec.iter().position(|r| r[0] >= t + eps).unwrap_or(last) + 1).min(last);
                for a in 1..4 {
                    let lo = rec[from..=to].iter().map(|r| r[a]).fold(f64::MAX, f64::min);
                    let hi = rec[from..=to].iter().map(|r| r[a]).fold(f64::MIN, f64::max);
                    if !(row[a] >= lo - 1e-9 && row[a] <= hi + 1e-9) {
                        return Some(format!(
                            "track {} row {} (time {:?}): coordinate {} is {:?}, recorded around it was {:?} to {:?}",
                            p, k, t, a - 1, row[a], lo, hi
                        ));
                    }
                    if self.opt & O_NOISE == 0 {
                        // at constant velocity there is only one right answer
                        let v = (rec[last][a] - rec[0][a]) / span;
                        let x = rec[0][a] + v * (t - rec[0][0]);
                        if !((row[a] - x).abs() <= 1e-8 && (row[a + 3] - v).abs() <= 1e-5) {
                            return Some(format!(
                                "track {} row {} (time {:?}): coordinate {} is {:?} at speed {:?} instead of {:?} at {:?}",
                                p, k, t, a - 1, row[a], row[a + 3], x, v
                            ));
                        }
                    }
                }
                if k >= half && k + half < g.len() {
                    let v = Self::slope(&g[k - half..=k + half]);
                    for a in 0..3 {
                        if !((row[a + 4] - v[a]).abs() <= 1e-6 * (1.0 + 12.0 / dt)) {
                            return Some(format!("track {} row {}: velocity {} is {:?} instead of {:?}", p, k, a, row[a + 4], v[a]));
                        }
                    }
                }
            }
        }
        None
    }

    /// What is wrong with the tracks in the output file itself.
    fn tracks_wrong(&self, out: &str, want: &[Vec<[f64; 7]>]) -> Option<String> {
        let Some(got) = Self::stored_tracks(out) else { return Some("the tracks cannot be read".into()) };
        if got.len() != want.len() {
            return Some(format!("{} tracks instead of {}", got.len(), want.len()));
        }
        for (p, (g, w)) in got.iter().zip(want).enumerate() {
            if g.len() != w.len() {
                return Some(format!("track {} has {} rows instead of {}", p, g.len(), w.len()));
            }
            for (k, (a, b)) in g.iter().zip(w).enumerate() {
                for (c, (x, y)) in a.iter().zip(b).enumerate() {
                    let near = c >= 4 && self.fitted && (x - y).abs() <= 1e-5 * (1.0 + y.abs()) + self.slack;
                    if !(same(*x, *y) || near) {
                        return Some(format!("track {} row {} column {} is {:?} instead of {:?}", p, k, c, x, y));
                    }
                }
            }
        }
        None
    }

    /// First difference between the output and the input.
    fn wrong(&self, got: &[StepData]) -> Option<String> {
        if got.len() != self.want.len() {
            return Some(format!("{} timesteps instead of {}", got.len(), self.want.len()));
        }
        let want_ds = Ds {
            by_particle: self.by_particle,
            steps: self.want.clone(),
            stats: Default::default(),
            no_density: vec![],
            no_radius: vec![],
            no_type: vec![],
        };
        for (k, g) in got.iter().enumerate() {
            let w = StepData::stored(&want_ds, k);
            for ((n, a), (_, b)) in g.parts.iter().zip(&w.parts) {
                if (*n == "id" && !self.judge_id)
                    || (*n == "velocity" && !self.judge_vel)
                    || matches!(*n, "cloud" | "density")
                    || (*n == "type" && self.mode >= CSV_TRACK)
                {
                    continue;
                }
                if a.len() != b.len() {
                    return Some(format!("timestep {}: {} has {} values instead of {}", k, n, a.len(), b.len()));
                }
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    let ok = if *n == "velocity" && self.fitted {
                        (x - y).abs() <= 1e-5 * (1.0 + y.abs()) + self.slack
                    } else {
                        same(*x, *y)
                    };
                    if !ok {
                        return Some(format!("timestep {}: {}[{}] is {:?} instead of {:?}", k, n, i, x, y));
                    }
                }
            }
        }
        None
    }

    /// Recorded statistics against the data they describe.
    fn stats_wrong(&self, g: &crate::data::Stats, data: &[StepData]) -> Option<String> {
        let n = data.len();
        let times: Vec<f64> = data.iter().map(|d| d.parts[0].1[0]).collect();
        if g.nsteps != n {
            return Some(format!("timesteps is {} instead of {}", g.nsteps, n));
        }
        if g.npart != self.npart {
            return Some(format!("particle number is {} instead of {}", g.npart, self.npart));
        }
        if g.times != times {
            return Some(format!("time array is {:?} instead of {:?}", g.times, times));
        }
        if g.time != [times[0], times[n - 1]] {
            return Some(format!("time range is {:?} instead of {:?}", g.time, [times[0], times[n - 1]]));
        }
        if n > 1 {
            // the time between two timesteps, whichever
            let gaps: Vec<f64> = times.windows(2).map(|w| w[1] - w[0]).collect();
            let least = gaps.iter().copied().fold(f64::INFINITY, f64::min) - 1e-9;
            let most = gaps.iter().copied().fold(f64::NEG_INFINITY, f64::max) + 1e-9;
            if !(g.rate >= least && g.rate <= most) {
                return Some(format!("sample rate is {:?}, timesteps are {:?} to {:?} apart", g.rate, least, most));
            }
        }
        let mut lo = [f64::INFINITY; 3];
        let mut hi = [f64::NEG_INFINITY; 3];
        let mut vs: Vec<[f64; 3]> = vec![];
        for d in data {
            for p in d.parts[1].1.chunks(3) {
                for a in 0..3 {
                    lo[a] = lo[a].min(p[a]);
                    hi[a] = hi[a].max(p[a]);
                }
            }
            vs.extend(d.parts[2].1.chunks(3).map(|v| [v[0], v[1], v[2]]));
        }
        if g.dims != [lo, hi] {
            return Some(format!("dimensions are {:?} instead of {:?}", g.dims, [lo, hi]));
        }
        if !self.judge_vel || vs.is_empty() {
            return None;
        }
        let three = |v: &[f64]| -> [f64; 3] {
            [
                v.iter().copied().fold(f64::INFINITY, f64::min),
                v.iter().sum::<f64>() / v.len() as f64,
                v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
            ]
        };
        let like = |got: &[f64; 3], want: &[f64; 3]| {
            got[0] == want[0] && got[2] == want[2] && close(got[1], want[1], 4.0, false)
        };
        for a in 0..3 {
            let w = three(&vs.iter().map(|v| v[a]).collect::<Vec<_>>());
            // row a: minimum, mean and maximum of component a
            if !like(&g.vel[a], &w) {
                return Some(format!("velocity of axis {} is {:?} instead of {:?}", a, g.vel[a], w));
            }
        }
        let w = three(&vs.iter().map(speed).collect::<Vec<_>>());
        let mag_ok = close(g.velmag[0], w[0], 1e-3, false)
            && close(g.velmag[1], w[1], 4.0, false)
            && close(g.velmag[2], w[2], 1e-3, false);
        if !mag_ok {
            return Some(format!("velocity magnitude is {:?} instead of {:?}", g.velmag, w));
        }
        None
    }
}

// ---------------------------------------------------------------- generation

pub fn generate(prop: &str, seed: u64, big: bool) -> Scn {
    let mut r = Rng::new(seed);
    let mut s = Scn { prop: prop.into(), seed, ..Scn::default() };
    let modes: &[i64] = match prop {
        "P20" => &[0, 1, 2, 3, 4, 5],
        "P21" => &[6],
        "P23" => &[7],
        "P24" => &[8],
        "P25" => &[9],
        "P29" | "P33" => &[6, 7, 9],
        "P38" => &[0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9],
        _ => &[0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9],
    };
    s.set("mode", *r.pick(modes));
    let nt = match r.below(8) {
        0 => r.range(1, 2),
        7 => r.range(10, if big { 40 } else { 24 }),
        _ => r.range(2, 9),
    };
    s.set("nt", nt);
    s.set("np", r.range(1, 6));
    if prop == "P28" {
        s.set("nt", r.range(8, 33));
        s.set("np", r.range(1, 3));
        if matches!(s.get("mode"), CSV_TRACK | CSV_IDS | CSV_CHAIN) {
            s.set("nt", r.range(1001, 3300));
            s.set("np", 1);
        }
    }
    if prop != "P28" {
        // now and then many particles or a long recording
        match r.below(150) {
            0 => {
                s.set("nt", r.range(1, 3));
                s.set("np", r.range(120, 300));
            }
            1 => {
                s.set("nt", r.range(120, 600));
                s.set("np", r.range(1, 2));
            }
            _ => {}
        }
    }
    if prop == "P43" && r.chance(0.5) {
        s.set("nt", r.range(MOST_FILES as i64 + 1, 40));
        s.set("np", r.range(1, 3));
    }
    if r.chance(0.12) {
        s.set("unit", r.range(1, crate::data::UNITS.len() as i64 - 1));
    }
    crate::data::set_unit(s.get("unit"));
    let nt = s.get("nt");
    s.set("dseed", r.below(1 << 30) as i64);
    let mut bits = |n: i64, p: f64| (0..n).map(|b| if r.chance(p) { 1 << b } else { 0 }).sum::<i64>();
    let flags = bits(11, 0.4);
    let mut opt = bits(16, 0.4);
    match prop {
        "P29" => opt |= O_INTERP,
        "P33" => opt = (opt | O_FIT | O_NOISE) & !O_INTERP,
        "P22" | "P26" | "P38" => {}
        _ => opt &= !O_INTERP,
    }
    if !matches!(prop, "P23" | "P25" | "P29" | "P33" | "P38") {
        // such a dataset is not read as a whole
        opt &= !O_RAGGED;
    }
    if prop == "P28" {
        // rows that are skipped are not polled
        opt &= !O_DUP;
    }
    if prop == "P38" {
        s.set("py", 1);
        let mode = s.get("mode");
        if mode == CSV_TRACK || mode == CSV_STEPS {
            opt &= !O_RAGGED;
        }
        if r.chance(0.15) {
            s.set(
                "refuse",
                *r.pick(match mode {
                    CSV_TRACK => &[1, 3][..],
                    CSV_STEPS => &[1],
                    CSV_IDS | CSV_CHAIN => &[1, 4],
                    _ => &[1, 2],
                }),
            );
        }
    }
    s.set("flags", flags);
    s.set("opt", opt);
    s.set("win", 64.max(nt));
    s.set("dirseed", r.below(1 << 20) as i64);
    if r.chance(0.3) && prop != "P28" {
        s.set("chop", *r.pick(&[1, 2, 7, 13, 64, 500]));
    }
    if r.chance(0.25) && prop != "P28" {
        // another conversion in the same process and folder comes first
        s.ops.push(other(&mut r, modes, s.get("mode")));
        if r.chance(0.25) {
            // the last file of the one has the name of the first of the other
            s.set("nt", 1);
        }
    }
    s.ops.push(Op::new("convert", &[]));
    match prop {
        "P42" | "P43" => {
            for _ in 0..r.range(0, 3) {
                s.ops.push(match r.below(4) {
                    0 => Op::new("stats", &[]),
                    1 => Op::new("read", &[r.range(0, 30)]),
                    _ => crate::sess::an(&mut r, &crate::analysis::KINDS, false),
                });
            }
            if r.chance(0.3) {
                s.ops.push(Op::new("convert", &[]));
            }
        }
        "P22" => {
            for _ in 0..r.range(1, 4) {
                s.ops.push(Op::new(*r.pick(&["stats", "stats", "open", "read"]), &[r.range(0, 30)]));
            }
            s.ops.push(Op::new("stats", &[]));
        }
        _ => {
            if r.chance(0.4) {
                if r.chance(0.3) && prop != "P28" {
                    // and its files are replaced, converted and brought back
                    s.ops.push(other(&mut r, modes, s.get("mode")));
                }
                s.ops.push(Op::new("convert", &[]));
            }
        }
    }
    s
}

/// A conversion of other files under the same names.
fn other(r: &mut Rng, modes: &[i64], mode: i64) -> Op {
    let m = if r.chance(0.5) { mode } else { *r.pick(modes) };
    Op::new("other", &[m, r.below(1 << 20) as i64, r.range(0, 1), *r.pick(&[0, 0, -1, 1, 4]), r.range(0, 2)])
}

/// Arguments of a conversion that goes on beside others.
pub fn job(r: &mut Rng) -> Op {
    let nt = r.range(1, 12);
    let flags: i64 = (0..11).map(|b| if r.chance(0.4) { 1 << b } else { 0 }).sum();
    let opt: i64 = (0..15).map(|b| if r.chance(0.4) { 1 << b } else { 0 }).sum();
    Op::new("conv", &[r.range(0, 9), r.below(1 << 20) as i64, nt, r.range(1, 6), flags, opt & !O_RAGGED])
}
pub fn of_job(op: &Op, dir: &str) -> Source {
    let mut s = Scn::default();
    for (i, k) in ["mode", "dseed", "nt", "np", "flags", "opt"].iter().enumerate() {
        s.set(k, op.a.get(i).copied().unwrap_or(0));
    }
    s.set("opt", s.get("opt") & !(O_RAGGED | O_PARALLEL));
    Source::build_in(&s, dir)
}

pub fn attach(s: &mut Scn, run: &dyn Fn(&Scn) -> (Report, Vec<Done>)) -> Option<Report> {
    let mut r = Rng::new(s.seed ^ 0xfa17);
    let (first, dones) = run(s);
    if first.violation.is_some() {
        return Some(first);
    }
    let share = match s.prop.as_str() {
        "P26" | "P28" => 1.0,
        "P22" => 0.7,
        _ => 0.6,
    };
    if !r.chance(share) {
        return Some(first);
    }
    let main = s.ops.iter().position(|o| o.name == "convert").unwrap_or(0);
    let i = if s.prop == "P22" { r.range(main as i64, s.ops.len() as i64 - 1) as usize } else { main };
    let d = &dones[i];
    let at = |r: &mut Rng, c: Class| -> Option<u64> {
        let n = d.counts[c as usize];
        (n > 0).then(|| match r.below(6) {
            0 => 0,
            // the last operations are where a dataset becomes valid
            1 => n - 1,
            2 => n - 1 - r.below(n.min(9)),
            _ => r.below(n),
        })
    };
    let mut faults = vec![];
    if s.ops[i].name != "convert" {
        let c = *r.pick(&[Class::Meta, Class::Read, Class::Open]);
        if let Some(nth) = at(&mut r, c) {
            faults.push(Fault { class: c, nth, kind: Kind::Error, arg: 0 });
        }
        let again = s.ops[i].clone();
        s.ops.insert(i + 1, again);
    } else {
        if s.prop == "P28" {
            let n = d.polls.max(1);
            faults.push(if r.chance(0.5) {
                Fault { class: Class::Signal, nth: r.below(n), kind: Kind::Interrupt, arg: 0 }
            } else {
                Fault { class: Class::Signal, nth: r.below(d.total.max(1)), kind: Kind::Interrupt, arg: 1 }
            });
        }
        let csv = s.get("mode") >= CSV_TRACK;
        if csv && s.prop != "P28" && r.chance(if s.prop == "P26" { 0.3 } else { 0.9 }) {
            for _ in 0..r.range(1, 5) {
                let nth = if r.chance(0.7) {
                    at(&mut r, Class::SysRead).unwrap_or(0)
                } else {
                    r.below(d.counts[Class::SysRead as usize] + 4)
                };
                let (kind, arg) = match r.below(10) {
                    0..=5 => (Kind::ShortRead, 1 + r.below(40)),
                    6 | 7 => (Kind::Eintr, 0),
                    _ => (Kind::Error, 0),
                };
                faults.push(Fault { class: Class::SysRead, nth, kind, arg });
            }
        }
        let (lossy, n) = match s.prop.as_str() {
            "P26" | "P42" | "P43" => (0.9, r.range(1, 2)),
            "P28" => (0.0, 0),
            _ => (0.35, 1),
        };
        if r.chance(lossy) {
            for _ in 0..n {
                let kind = match r.below(12) {
                    0..=2 => Kind::Crash,
                    3 | 4 => Kind::NoSpace,
                    5..=7 => Kind::LostWrite,
                    8 => Kind::Interrupt,
                    _ => Kind::Error,
                };
                let classes: &[Class] = match kind {
                    Kind::LostWrite => &[Class::Write],
                    Kind::Interrupt => &[Class::Signal],
                    Kind::NoSpace => &[Class::Write, Class::Flush, Class::Create],
                    Kind::Crash => &[Class::Write, Class::Write, Class::Flush, Class::Create, Class::SysRead, Class::Vtk],
                    _ => &[
                        Class::Write,
                        Class::Write,
                        Class::Flush,
                        Class::Create,
                        Class::SysRead,
                        Class::Vtk,
                        Class::DirRead,
                    ],
                };
                let c = *r.pick(classes);
                if let Some(nth) = at(&mut r, c) {
                    let arg = match (kind, r.below(4)) {
                        (Kind::Crash, 0) => 2000, // the file is left unreadable
                        (Kind::Crash, 1) => 1000, // everything written so far is durable
                        (Kind::Crash, _) => r.below(1001),
                        (Kind::Interrupt, _) => 0,
                        _ => 0,
                    };
                    faults.push(Fault { class: c, nth, kind, arg });
                }
            }
        }
        if i + 1 == s.ops.len() && r.chance(0.6) {
            s.ops.push(Op::new("convert", &[]));
        }
    }
    s.ops[i].faults = faults;
    None
}

// ---------------------------------------------------------------- judgement

pub fn run(s: &Scn) -> (Report, Vec<Done>) {
    simcore::reset();
    let mut rep = Report::default();
    let mut src = Source::build(s);
    set_window(s.get("win").max(1) as usize);
    let rows = if src.opt & O_PARALLEL != 0 { 1 } else { 0 };
    converter::SIM_PARALLEL_ROWS.store(rows, std::sync::atomic::Ordering::SeqCst);
    if s.prop == "P42" {
        crate::keep::watch();
    }
    let dir = std::fs::canonicalize("in").expect("scratch folder").to_string_lossy().to_string();
    // what the conversion gives when nothing goes wrong
    let base = if matches!(s.prop.as_str(), "P26" | "P22") {
        rep.execs += 1;
        quietly(|| {
            guarded(u64::MAX / 2, &[], || src.convert("base.h5"));
        });
        src.content("base.h5")
    } else {
        None
    };
    if std::env::var_os("UP4SIM_LOG").is_some() {
        world().log = Some(vec![]);
    }
    let budget = 20_000
        + 40 * (src.want.len() as u64 + 2) * (src.npart as u64 + 2)
        + if s.get("chop") > 0 { 4 * src.bytes } else { src.bytes / 8 };
    let shape = src.shape();
    let mut user = Session::new(&shape, "out.h5");
    let mut dones = vec![];
    let mut done_ok = false;
    for (i, op) in s.ops.iter().enumerate() {
        simcore::note(&format!("op {}", op.name));
        if op.name == "other" {
            let mut o = s.clone();
            o.set("mode", op.a.first().copied().unwrap_or(0));
            o.set("refuse", 0);
            o.set("dseed", s.get("dseed") ^ op.a.get(1).copied().unwrap_or(1));
            if op.a.get(4).is_some_and(|x| *x > 0) {
                o.set("nseed", s.get("dseed"));
            }
            o.set("nt", (s.get("nt") + op.a.get(3).copied().unwrap_or(0)).max(1));
            let o = Source::build(&o);
            user = Session::new(&shape, "out.h5");
            let to = if op.a.get(2) == Some(&1) && s.prop != "P26" { "out.h5" } else { "other.h5" };
            crate::keep::allow(to);
            let (mut d, most, left) = crate::keep::count(|| guarded(u64::MAX / 2, &[], || o.convert(to)));
            d.files = (most, left);
            rep.probe("another conversion before");
            rep.execs += 1;
            done_ok = false;
            if matches!(s.prop.as_str(), "P42" | "P43") {
                if let Err((class, detail)) = judge(s, &src, op, &d, None, done_ok, &mut rep) {
                    rep.fail(format!("other:{}", class), format!("operation {}: {}", i, detail));
                }
            }
            dones.push(d);
            src = Source::build(s);
            continue;
        }
        let d = if op.name == "convert" {
            user = Session::new(&shape, "out.h5");
            interpose::activate(&dir, s.get("chop").max(0) as u64, s.get("dirseed") as u64);
            crate::keep::allow("out.h5");
            let (mut d, most, left) =
                crate::keep::count(|| guarded(budget, &op.faults, || src.convert("out.h5")));
            d.files = (most, left);
            interpose::deactivate();
            rep.execs += 1;
            rep.steps += src.want.len() as u64;
            d
        } else if done_ok {
            crate::keep::allow("");
            user.exec(op)
        } else {
            Done::default()
        };
        rep.ops += d.total;
        rep.fired.extend(d.fired.iter().cloned());
        if op.name == "convert" {
            {
                // whoever looks at the file next is another process, on a disk with room
                let mut w = world();
                if w.crashed {
                    rep.probe("process died during a conversion");
                }
                w.crashed = false;
                w.nospace = false;
                w.writers.clear();
            }
            done_ok = !d.got.failed();
        }
        simcore::note(&outcome(&d.got));
        if let Err((class, detail)) = judge(s, &src, op, &d, base.as_deref(), done_ok, &mut rep) {
            rep.fail(
                format!("{}:{}", op.name, class),
                format!("operation {} ({}, {}): {}", i, op.name, MODE_NAMES[src.mode as usize], detail),
            );
        }
        dones.push(d);
        if rep.violation.is_some() {
            break;
        }
    }
    rep.sim_time = src.want[src.want.len() - 1].time - src.want[0].time;
    let mut w = world();
    rep.hash = w.log_hash;
    rep.log = w.log.take().unwrap_or_default();
    (rep, dones)
}

/// Put what was judged into the event log.
fn digest<T>(verdict: T, c: &[StepData]) -> T {
    let mut x = c.len() as u64;
    for v in c.iter().flat_map(|d| d.parts.iter()).flat_map(|p| p.1.iter()) {
        x = h(&[x, v.to_bits()]);
    }
    simcore::note(&format!("content {:016x}", x));
    verdict
}

/// calls that have to be refused (knob `refuse`)
const REFUSED: [&str; 4] = [
    "a file or folder that does not exist is converted",
    "a filter that names no VTK extension is accepted",
    "an even number of sampling steps is accepted",
    "an unknown method is accepted",
];

/// files a conversion may read at a time
const MOST_FILES: usize = 16;

type Verdict = Result<(), (String, String)>;
fn bad(class: &str, detail: impl Into<String>) -> Verdict {
    Err((class.into(), detail.into()))
}

fn judge(
    s: &Scn,
    src: &Source,
    op: &Op,
    d: &Done,
    base: Option<&[StepData]>,
    done_ok: bool,
    rep: &mut Report,
) -> Verdict {
    let prop = s.prop.as_str();
    if prop == "P42" {
        if d.total > 0 {
            rep.judged += 1;
            rep.nontrivial = true;
        }
        return match d.wrote.first() {
            Some(x) => bad("changes", x.clone()),
            None => Ok(()),
        };
    }
    if prop == "P43" {
        rep.judged += 1;
        if op.name != "convert" && op.name != "other" {
            return Ok(());
        }
        rep.nontrivial |= src.files.len() > MOST_FILES || op.name == "convert" && !d.fired.is_empty();
        if src.files.len() > MOST_FILES {
            rep.probe("many files");
        }
        return match d.files {
            // the process is gone
            _ if matches!(d.got, Got::Fail(Fk::Crash)) => Ok(()),
            _ if d.open > 0 => bad("open", "the output is still open when the conversion has ended"),
            (_, left) if left > 0 => bad("left", format!("{} of the files it read are still open", left)),
            (most, _) if most > MOST_FILES => bad("most", format!("{} files were open at the same time", most)),
            _ => Ok(()),
        };
    }
    if op.name != "convert" {
        if !done_ok || prop != "P22" || op.name != "stats" {
            return Ok(());
        }
        return match &d.got {
            Got::Fail(_) if !d.fired.is_empty() => {
                rep.probe("statistics hit a storage fault");
                Ok(())
            }
            Got::Fail(_) => bad("fails", "the statistics cannot be read"),
            Got::Stats(g) => {
                rep.judged += 1;
                rep.nontrivial = true;
                match src.content("out.h5").and_then(|c| src.stats_wrong(g, &c)) {
                    Some(e) => bad("wrong", e),
                    None => Ok(()),
                }
            }
            _ => bad("kind", "no statistics"),
        };
    }
    // faults a conversion has to cope with, and those it may fail from
    let fatal = d.fired.iter().any(|f| f.kind != Kind::ShortRead);
    if d.fired.iter().any(|f| f.kind == Kind::ShortRead) || s.get("chop") > 0 && src.mode >= CSV_TRACK {
        rep.probe("reads were split");
    }
    if d.fired.iter().any(|f| f.kind == Kind::Eintr) {
        rep.probe(if d.got.failed() { "interrupted read failed the conversion" } else { "interrupted read" });
    }
    match prop {
        "P20" | "P21" | "P23" | "P24" | "P25" | "P29" | "P33" | "P38" => {
            if let Got::Fail(Fk::Endless) = d.got {
                return bad("endless", "the conversion does not end");
            }
            if prop == "P38" && src.refuse > 0 {
                rep.judged += 1;
                rep.nontrivial = true;
                rep.probe("refused");
                return match d.got.failed() {
                    true => Ok(()),
                    false => bad("not-refused", REFUSED[src.refuse.clamp(1, 4) as usize - 1]),
                };
            }
            if prop == "P38" && d.interrupted() && !d.got.failed() {
                return bad("interrupt-ignored", "an interrupted conversion reports success");
            }
            if d.got.failed() {
                return if fatal {
                    rep.probe("conversion failed by fault");
                    Ok(())
                } else {
                    bad("fails", "the conversion fails without a fault")
                };
            }
            rep.judged += 1;
            rep.nontrivial = true;
            if src.opt & O_PARALLEL != 0 && src.fitted && src.mode == CSV_CHAIN {
                rep.probe("velocities computed in parallel");
            }
            if let Some(recorded) = &src.recorded {
                rep.probe(if src.tracks.is_some() { "interpolated from different samples" } else { "interpolated" });
                return match src.interpolation_wrong("out.h5", recorded) {
                    Some(e) => bad("wrong", e),
                    None => Ok(()),
                };
            }
            if let Some(want) = &src.tracks {
                rep.probe("tracks of different lengths");
                return match src.tracks_wrong("out.h5", want) {
                    Some(e) => bad("wrong", e),
                    None => Ok(()),
                };
            }
            match src.content("out.h5") {
                None => bad("unreadable", "the converted dataset does not open"),
                Some(c) => match digest(src.wrong(&c), &c) {
                    Some(e) => bad("wrong", e),
                    None => Ok(()),
                },
            }
        }
        "P22" => {
            if d.got.failed() {
                return Ok(());
            }
            rep.judged += 1;
            Ok(())
        }
        "P26" => {
            let Some(base) = base else { return Ok(()) };
            let content = src.content("out.h5");
            let whole = |c: &[StepData]| -> Option<String> {
                if c.len() != base.len() {
                    return Some(format!("{} timesteps instead of {}", c.len(), base.len()));
                }
                c.iter().zip(base).find_map(|(a, b)| a.differ(b))
            };
            if !d.fired.is_empty() {
                rep.nontrivial = true;
            }
            rep.judged += 1;
            if d.got.failed() {
                if !fatal {
                    return bad("fails", "the conversion fails without a fault");
                }
                return match content {
                    None => {
                        rep.probe("failed conversion left nothing readable");
                        Ok(())
                    }
                    Some(c) => {
                        rep.probe("failed conversion left the whole dataset");
                        match whole(&c) {
                            None => Ok(()),
                            Some(e) => bad("partial", format!("a failed conversion leaves a dataset that opens: {}", e)),
                        }
                    }
                };
            }
            if d.fired.iter().any(|f| f.kind == Kind::Interrupt) {
                return bad("interrupt-ignored", "an interrupted conversion reports success");
            }
            if !matches!(world().disk.get("out.h5"), Some(OnDisk::Valid(_))) {
                return bad("not-durable", "success is reported but the file is not usable");
            }
            match content {
                None => bad("not-durable", "success is reported but the dataset does not open"),
                Some(c) => match whole(&c) {
                    None => Ok(()),
                    Some(e) => bad("not-durable", format!("success is reported but {}", e)),
                },
            }
        }
        "P28" => {
            rep.judged += 1;
            rep.nontrivial = true;
            if let Got::Fail(Fk::Endless) = d.got {
                return bad("endless", "the conversion does not end");
            }
            let batches = match src.mode {
                CSV_TRACK | CSV_IDS | CSV_CHAIN => (src.want.len() as u64 + 999) / 1000,
                _ => (src.want.len() as u64 + 9) / 10,
            };
            let interrupted = d.fired.iter().any(|f| f.kind == Kind::Interrupt);
            if interrupted {
                if !d.got.failed() {
                    return bad("interrupt-ignored", "an interrupted conversion reports success");
                }
                if d.after_fault > 0 {
                    return bad("interrupt-late", format!("{} operations after an interrupt", d.after_fault));
                }
            } else if !d.got.failed() && d.polls < batches {
                return bad("polls", format!("{} polls for {} batches", d.polls, batches));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
