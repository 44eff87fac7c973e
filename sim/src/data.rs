//! Simulated datasets: generated from a few knobs, kept as a plain table (the
//! reference model of what is stored) and put on the simulated disk.

use crate::rng::{h, hf};
use simcore::{Image, OnDisk, Ty, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// knobs of the population, bits of `flags`
pub const F_ABSENT: i64 = 1; // particles appear and leave
pub const F_NANVEL: i64 = 2; // samples without velocity
pub const F_PERM: i64 = 4; // rows change order from step to step
pub const F_IRREG: i64 = 8; // irregular time steps
pub const F_NOOPT: i64 = 16; // optional datasets missing
pub const F_WALL: i64 = 32; // samples exactly on walls
pub const F_EMPTY: i64 = 64; // timesteps without any particle
pub const F_NEGT: i64 = 128; // time starts below zero
pub const F_IDS: i64 = 256; // ids are not consecutive
pub const F_NANPART: i64 = 512; // single components missing
pub const F_MANY: i64 = 1024; // attributes vary over time
pub const F_ALL: i64 = 2047;

#[derive(Clone, Debug)]
pub struct Row {
    pub id: f64,
    pub pos: [f64; 3],
    pub vel: [f64; 3],
    pub radius: f64,
    pub cloud: f64,
    pub density: f64,
    pub ptype: f64,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub time: f64,
    pub rows: Vec<Row>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub dims: [[f64; 3]; 2],
    pub npart: usize,
    pub nsteps: usize,
    pub time: [f64; 2],
    pub rate: f64,
    pub vel: [[f64; 3]; 3],
    pub velmag: [f64; 3],
    pub times: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Ds {
    /// particle-ordered (one group per particle) instead of time-ordered
    pub by_particle: bool,
    pub steps: Vec<Step>,
    pub stats: Stats,
    /// optional datasets left out, per group
    pub no_density: Vec<bool>,
    pub no_radius: Vec<bool>,
    pub no_type: Vec<bool>,
}

const NAN: f64 = f64::NAN;
/// a large cloud and a large type, which some datasets have
pub const CLOUD: f64 = 70000.0;
pub const TYPE: f64 = 300.0;

/// The unit of length of a run: what positions, velocities and grids are multiplied with.
static UNIT: AtomicU64 = AtomicU64::new(0);
pub const UNITS: [f64; 6] = [1.0, 1.0 / 1024.0, 1024.0, 1e-3, 1e-6, 1e5];
pub fn set_unit(code: i64) {
    UNIT.store(UNITS[code as usize % UNITS.len()].to_bits(), Ordering::SeqCst);
}
pub fn length() -> f64 {
    match UNIT.load(Ordering::SeqCst) {
        0 => 1.0,
        b => f64::from_bits(b),
    }
}

impl Ds {
    pub fn any(&self, f: impl Fn(&Row) -> bool) -> bool {
        self.steps.iter().any(|s| s.rows.iter().any(&f))
    }
    pub fn generate(by_particle: bool, nt: usize, np: usize, seed: u64, flags: i64) -> Ds {
        let has = |f: i64| flags & f != 0;
        let on = |f: i64, salt: u64, part: &[u64], one_in: u64| {
            has(f) && {
                let mut v = vec![seed, salt];
                v.extend_from_slice(part);
                h(&v) % one_in == 0
            }
        };
        // times: exactly representable when regular
        let dt = [0.25, 0.5, 1.0, 2.0][(h(&[seed, 1]) % 4) as usize];
        let mut t = match h(&[seed, 2]) % 3 {
            0 => 0.0,
            _ if has(F_IRREG) && h(&[seed, 6]) % 6 == 0 => 1e6 * (1.0 + hf(&[seed, 7])),
            _ if has(F_NEGT) => -(dt * (1 + h(&[seed, 3]) % 5) as f64),
            _ => dt * (h(&[seed, 3]) % 8) as f64,
        };
        let mut times = vec![];
        for k in 0..nt {
            times.push(t);
            t += if has(F_IRREG) { dt * (0.05 + 2.0 * hf(&[seed, 4, k as u64])) } else { dt };
        }
        let id_of = |p: usize| -> f64 {
            if by_particle || !has(F_IDS) {
                p as f64
            } else {
                match h(&[seed, 5]) % 8 {
                    0 => (p * 1000 + 255) as f64,
                    1 => (p + 65535) as f64,
                    // neighbours that a single-precision number cannot tell apart
                    2 => (p + (1 << 24)) as f64,
                    _ => (p * 3 + 2) as f64,
                }
            }
        };
        let wide = h(&[seed, 54]) % 8 == 0;
        let mut steps = vec![];
        for (k, time) in times.iter().enumerate() {
            let ku = k as u64;
            let mut rows = vec![];
            for p in 0..np {
                let pu = p as u64;
                let absent = on(F_ABSENT, 10, &[pu, ku / 3], 4)
                    || (!by_particle && on(F_EMPTY, 11, &[ku], 6));
                if absent && !by_particle {
                    continue;
                }
                let mut pos = [0.0; 3];
                for (a, x) in pos.iter_mut().enumerate() {
                    let au = a as u64;
                    let r = |i: u64| hf(&[seed, 20 + i, pu, ku, au]);
                    let c = |i: u64| hf(&[seed, 30 + i, pu, au]);
                    *x = match h(&[seed, 12, pu]) % 5 {
                        0 | 1 => -6.0 + 12.0 * r(0),
                        2 => 5.5 * (c(0) * 6.28 + ku as f64 * (0.4 + c(1))).sin() + 0.1 * r(0),
                        3 => -5.0 + 10.0 * c(0) + 0.7 * (r(0) - 0.5),
                        _ => -2.0 + 4.0 * c(0) + 0.05 * ku as f64 + 0.01 * r(0),
                    };
                }
                if on(F_WALL, 13, &[pu, ku], 5) {
                    // exactly on the walls of the "nice" grids
                    let sx = if h(&[seed, 14, pu, ku]) % 2 == 0 { 1.0 } else { -1.0 };
                    let sy = if h(&[seed, 15, pu, ku]) % 2 == 0 { 1.0 } else { -1.0 };
                    match h(&[seed, 16, pu, ku]) % 4 {
                        0 => {
                            pos[0] = 3.0 * sx;
                            pos[1] = 4.0 * sy;
                        }
                        1 => {
                            pos[0] = 4.0 * sx;
                            pos[1] = 3.0 * sy;
                            pos[2] = 5.0 * sy;
                        }
                        2 => pos[(h(&[seed, 17, pu, ku]) % 3) as usize] = 5.0 * sx,
                        _ => pos = [5.0 * sx, 5.0 * sy, 5.0 * sx],
                    }
                }
                let mut vel = [0.0; 3];
                for (a, x) in vel.iter_mut().enumerate() {
                    *x = -4.0 + 8.0 * hf(&[seed, 40, pu, ku, a as u64]);
                }
                if on(F_NANVEL, 18, &[pu, ku], 7) {
                    vel = [NAN; 3];
                }
                if on(F_NANPART, 19, &[pu, ku], 9) {
                    vel[(h(&[seed, 21, pu, ku]) % 3) as usize] = NAN;
                }
                if on(F_NANPART, 22, &[pu, ku], 11) {
                    pos[(h(&[seed, 23, pu, ku]) % 3) as usize] = NAN;
                }
                if absent {
                    pos = [NAN; 3];
                    vel = [NAN; 3];
                }
                let vary = if has(F_MANY) { ku } else { 0 };
                // numbers that do not fit into few bits
                let rare = |x: f64, from: f64, to: f64| if wide && x == from { to } else { x };
                let (cloud_of, type_of) = (|x| rare(x, 7.0, CLOUD), |x| rare(x, 3.0, TYPE));
                let radius = [0.5, 1.0, 2.0, 3.0][(h(&[seed, 50, pu, vary]) % 4) as usize];
                let cloud = cloud_of([1.0, 2.0, 3.0, 7.0][(h(&[seed, 51, pu, vary]) % 4) as usize]);
                let density = [1.0, 2.5, 8.0, 0.5][(h(&[seed, 52, pu, vary]) % 4) as usize];
                let ptype = type_of((h(&[seed, 53, pu, vary / 4]) % 4) as f64);
                for x in pos.iter_mut().chain(&mut vel) {
                    *x *= length();
                }
                rows.push(Row { id: id_of(p), pos, vel, radius, cloud, density, ptype });
            }
            if has(F_PERM) && !by_particle {
                let mut r = crate::rng::Rng::new(h(&[seed, 60, ku]));
                r.shuffle(&mut rows);
            }
            steps.push(Step { time: *time, rows });
        }
        let groups = if by_particle { np } else { nt };
        let miss = |salt: u64| -> Vec<bool> {
            (0..groups)
                .map(|g| {
                    has(F_NOOPT)
                        && match h(&[seed, salt]) % 3 {
                            0 => true,
                            1 => h(&[seed, salt, g as u64]) % 2 == 0,
                            _ => false,
                        }
                })
                .collect()
        };
        let no_density = miss(70);
        let mut no_radius = miss(71);
        let mut no_type = miss(72);
        if !by_particle {
            // only the density is optional in time-ordered datasets
            no_radius = vec![false; groups];
            no_type = vec![false; groups];
        }
        for (k, step) in steps.iter_mut().enumerate() {
            for (p, row) in step.rows.iter_mut().enumerate() {
                if by_particle {
                    row.cloud = 1.0;
                    if no_density[p] {
                        row.density = 0.0;
                    }
                    if no_radius[p] {
                        row.radius = 0.0;
                    }
                    if no_type[p] {
                        row.ptype = 0.0;
                    }
                } else if no_density[k] {
                    row.density = 1.0;
                }
            }
        }
        let mut ds = Ds { by_particle, steps, stats: Stats::default(), no_density, no_radius, no_type };
        ds.stats = ds.compute_stats(np);
        ds
    }

    fn compute_stats(&self, np: usize) -> Stats {
        let mut s = Stats {
            dims: [[f64::INFINITY; 3], [f64::NEG_INFINITY; 3]],
            npart: np,
            nsteps: self.steps.len(),
            time: [self.steps[0].time, self.steps[self.steps.len() - 1].time],
            rate: 0.0,
            vel: [[f64::INFINITY; 3], [0.0; 3], [f64::NEG_INFINITY; 3]],
            velmag: [f64::INFINITY, 0.0, f64::NEG_INFINITY],
            times: self.steps.iter().map(|s| s.time).collect(),
        };
        let mut n = [0.0; 4];
        for row in self.steps.iter().flat_map(|s| s.rows.iter()) {
            for a in 0..3 {
                if !row.pos[a].is_nan() {
                    s.dims[0][a] = s.dims[0][a].min(row.pos[a]);
                    s.dims[1][a] = s.dims[1][a].max(row.pos[a]);
                }
                if !row.vel[a].is_nan() {
                    s.vel[0][a] = s.vel[0][a].min(row.vel[a]);
                    s.vel[1][a] += row.vel[a];
                    s.vel[2][a] = s.vel[2][a].max(row.vel[a]);
                    n[a] += 1.0;
                }
            }
            let m = speed(&row.vel);
            if !m.is_nan() {
                s.velmag[0] = s.velmag[0].min(m);
                s.velmag[1] += m;
                s.velmag[2] = s.velmag[2].max(m);
                n[3] += 1.0;
            }
        }
        for a in 0..3 {
            if s.dims[0][a] > s.dims[1][a] {
                s.dims[0][a] = 0.0;
                s.dims[1][a] = 0.0;
            }
            if n[a] == 0.0 {
                s.vel[0][a] = 0.0;
                s.vel[2][a] = 0.0;
            } else {
                s.vel[1][a] /= n[a];
            }
        }
        if n[3] == 0.0 {
            s.velmag = [0.0; 3];
        } else {
            s.velmag[1] /= n[3];
        }
        if self.steps.len() > 1 {
            s.rate = ((s.times[1] - s.times[0]) * 4.0).round();
        }
        s
    }

    /// Put the dataset on the simulated disk.
    pub fn install(&self, name: &str) {
        let img = Arc::new(self.image());
        simcore::world().disk.insert(name.to_string(), OnDisk::Valid(img));
    }

    fn image(&self) -> Image {
        let v = |ty, shape: Vec<usize>, data: Vec<f64>| Value::new(ty, shape, data);
        let mut img = Image::default();
        let s = &self.stats;
        let flat = |x: &[[f64; 3]]| x.iter().flatten().copied().collect::<Vec<f64>>();
        img.attrs.insert("dimensions".into(), v(Ty::F64, vec![2, 3], flat(&s.dims)));
        img.attrs.insert("particle number".into(), v(Ty::U64, vec![], vec![s.npart as f64]));
        img.attrs.insert("timesteps".into(), v(Ty::U64, vec![], vec![s.nsteps as f64]));
        img.attrs.insert("sample rate".into(), v(Ty::U64, vec![], vec![s.rate]));
        img.attrs.insert("time".into(), v(Ty::F64, vec![2], s.time.to_vec()));
        img.attrs.insert("velocity".into(), v(Ty::F64, vec![3, 3], flat(&s.vel)));
        img.attrs.insert("velocity magnitude".into(), v(Ty::F64, vec![3], s.velmag.to_vec()));
        img.attrs.insert(
            "hdf5_up4_type".into(),
            v(Ty::I32, vec![], vec![if self.by_particle { 2.0 } else { 1.0 }]),
        );
        img.data.insert("time array".into(), v(Ty::F64, vec![s.nsteps], s.times.clone()));
        if self.by_particle {
            for p in 0..s.npart {
                let col = |f: &dyn Fn(&Row) -> f64| -> Vec<f64> {
                    self.steps.iter().map(|st| f(&st.rows[p])).collect()
                };
                let t = self.steps.len();
                let mut g = Image::default();
                let tri = |f: &dyn Fn(&Row) -> [f64; 3]| -> Vec<f64> {
                    self.steps.iter().flat_map(|st| f(&st.rows[p])).collect()
                };
                g.data.insert("position".into(), v(Ty::F64, vec![t, 3], tri(&|r| r.pos)));
                g.data.insert("velocity".into(), v(Ty::F64, vec![t, 3], tri(&|r| r.vel)));
                if !self.no_radius[p] {
                    g.data.insert("radius".into(), v(Ty::F64, vec![t], col(&|r| r.radius)));
                }
                if !self.no_type[p] {
                    g.data.insert("particletype".into(), v(Ty::U64, vec![t], col(&|r| r.ptype)));
                }
                if !self.no_density[p] {
                    g.data.insert("density".into(), v(Ty::F64, vec![t], col(&|r| r.density)));
                }
                g.data.insert("ppcloud".into(), v(Ty::F64, vec![t], vec![1.0; t]));
                g.data.insert("id".into(), v(Ty::U64, vec![t], vec![p as f64; t]));
                g.data.insert("time".into(), v(Ty::F64, vec![t], s.times.clone()));
                img.groups.insert(format!("particle {}", p), g);
            }
        } else {
            for (k, st) in self.steps.iter().enumerate() {
                let n = st.rows.len();
                let col = |f: &dyn Fn(&Row) -> f64| -> Vec<f64> { st.rows.iter().map(f).collect() };
                let tri = |f: &dyn Fn(&Row) -> [f64; 3]| -> Vec<f64> { st.rows.iter().flat_map(f).collect() };
                let mut g = Image::default();
                g.data.insert("position".into(), v(Ty::F64, vec![n, 3], tri(&|r| r.pos)));
                g.data.insert("velocity".into(), v(Ty::F64, vec![n, 3], tri(&|r| r.vel)));
                g.data.insert("radius".into(), v(Ty::F64, vec![n], col(&|r| r.radius)));
                if !self.no_density[k] {
                    g.data.insert("density".into(), v(Ty::F64, vec![n], col(&|r| r.density)));
                }
                g.data.insert("ppcloud".into(), v(Ty::F64, vec![n], col(&|r| r.cloud)));
                g.data.insert("particletype".into(), v(Ty::U64, vec![n], col(&|r| r.ptype)));
                g.data.insert("id".into(), v(Ty::U64, vec![n], col(&|r| r.id)));
                g.data.insert("time".into(), v(Ty::F64, vec![], vec![st.time]));
                img.groups.insert(format!("timestep {}", k), g);
            }
        }
        img
    }
}

pub fn speed(v: &[f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
