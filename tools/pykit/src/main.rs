//! Support for the demonstrations: datasets on an in-memory store, and the check.
pub mod demo;
mod python;

pub use ndarray::{Array1, Array2};
pub use simcore::{local, world, Change, Class, Fault, Image, Kind, OnDisk, Ty, Value};
pub use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
pub use upppp_rust::datamanager::{DataManager, Manager, PData, TData, Timestep};
pub use upppp_rust::{
    CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, ParticleSelector,
};

#[no_mangle]
pub extern "C" fn PyErr_CheckSignals() -> i32 {
    match simcore::op(Class::Signal, "poll") {
        Ok(()) => 0,
        Err(_) => -1,
    }
}

pub const NAN: f64 = f64::NAN;

#[derive(Clone)]
pub struct Row {
    pub id: f64,
    pub pos: [f64; 3],
    pub vel: [f64; 3],
    pub radius: f64,
    pub cloud: f64,
    pub density: f64,
    pub ptype: f64,
}
pub fn row(id: usize, pos: [f64; 3], vel: [f64; 3]) -> Row {
    Row { id: id as f64, pos, vel, radius: 1.0, cloud: 1.0, density: 1.0, ptype: 0.0 }
}
impl Row {
    pub fn ptype(mut self, t: usize) -> Row {
        self.ptype = t as f64;
        self
    }
    pub fn radius(mut self, r: f64) -> Row {
        self.radius = r;
        self
    }
    pub fn cloud(mut self, c: f64) -> Row {
        self.cloud = c;
        self
    }
    pub fn density(mut self, c: f64) -> Row {
        self.density = c;
        self
    }
}

/// Timesteps with their time.
pub type Steps = Vec<(f64, Vec<Row>)>;

fn head(steps: &Steps, kind: f64, np: usize) -> Image {
    let v = |ty, shape: Vec<usize>, data: Vec<f64>| Value::new(ty, shape, data);
    let mut img = Image::default();
    let mut dims = [[f64::INFINITY; 3], [f64::NEG_INFINITY; 3]];
    let mut vel = [[f64::INFINITY; 3], [0.0; 3], [f64::NEG_INFINITY; 3]];
    let mut mag = [f64::INFINITY, 0.0, f64::NEG_INFINITY];
    let mut n = 0.0;
    for r in steps.iter().flat_map(|s| s.1.iter()) {
        for a in 0..3 {
            if !r.pos[a].is_nan() {
                dims[0][a] = dims[0][a].min(r.pos[a]);
                dims[1][a] = dims[1][a].max(r.pos[a]);
            }
            if !r.vel[a].is_nan() {
                vel[0][a] = vel[0][a].min(r.vel[a]);
                vel[1][a] += r.vel[a];
                vel[2][a] = vel[2][a].max(r.vel[a]);
            }
        }
        let m = (r.vel[0].powi(2) + r.vel[1].powi(2) + r.vel[2].powi(2)).sqrt();
        if !m.is_nan() {
            mag[0] = mag[0].min(m);
            mag[1] += m;
            mag[2] = mag[2].max(m);
            n += 1.0;
        }
    }
    mag[1] /= n;
    for x in vel[1].iter_mut() {
        *x /= n;
    }
    let flat = |x: &[[f64; 3]]| x.iter().flatten().copied().collect::<Vec<f64>>();
    let times: Vec<f64> = steps.iter().map(|s| s.0).collect();
    img.attrs.insert("dimensions".into(), v(Ty::F64, vec![2, 3], flat(&dims)));
    img.attrs.insert("particle number".into(), v(Ty::U64, vec![], vec![np as f64]));
    img.attrs.insert("timesteps".into(), v(Ty::U64, vec![], vec![steps.len() as f64]));
    img.attrs.insert("sample rate".into(), v(Ty::U64, vec![], vec![1.0]));
    img.attrs.insert("time".into(), v(Ty::F64, vec![2], vec![times[0], times[times.len() - 1]]));
    img.attrs.insert("velocity".into(), v(Ty::F64, vec![3, 3], flat(&vel)));
    img.attrs.insert("velocity magnitude".into(), v(Ty::F64, vec![3], mag.to_vec()));
    img.attrs.insert("hdf5_up4_type".into(), v(Ty::I32, vec![], vec![kind]));
    img.data.insert("time array".into(), v(Ty::F64, vec![times.len()], times));
    img
}

fn fill(g: &mut Image, rows: &[Row]) {
    let n = rows.len();
    let mut put = |name: &str, ty, shape: Vec<usize>, data: Vec<f64>| {
        g.data.insert(name.into(), Value::new(ty, shape, data));
    };
    put("position", Ty::F64, vec![n, 3], rows.iter().flat_map(|r| r.pos).collect());
    put("velocity", Ty::F64, vec![n, 3], rows.iter().flat_map(|r| r.vel).collect());
    put("radius", Ty::F64, vec![n], rows.iter().map(|r| r.radius).collect());
    put("density", Ty::F64, vec![n], rows.iter().map(|r| r.density).collect());
    put("ppcloud", Ty::F64, vec![n], rows.iter().map(|r| r.cloud).collect());
    put("particletype", Ty::U64, vec![n], rows.iter().map(|r| r.ptype).collect());
    put("id", Ty::U64, vec![n], rows.iter().map(|r| r.id).collect());
}

/// Store a time-ordered dataset.
pub fn put_tdata(name: &str, steps: &Steps) {
    let np = steps.iter().flat_map(|s| s.1.iter()).map(|r| r.id as usize + 1).max().unwrap_or(0);
    let mut img = head(steps, 1.0, np);
    for (k, (t, rows)) in steps.iter().enumerate() {
        let mut g = Image::default();
        fill(&mut g, rows);
        g.data.insert("time".into(), Value::new(Ty::F64, vec![], vec![*t]));
        img.groups.insert(format!("timestep {}", k), g);
    }
    world().disk.insert(name.into(), OnDisk::Valid(Arc::new(img)));
}

/// Store a particle-ordered dataset: every step has a row for every particle.
pub fn put_pdata(name: &str, steps: &Steps) {
    let np = steps[0].1.len();
    let mut img = head(steps, 2.0, np);
    let times: Vec<f64> = steps.iter().map(|s| s.0).collect();
    for p in 0..np {
        let rows: Vec<Row> = steps.iter().map(|s| s.1[p].clone()).collect();
        let mut g = Image::default();
        fill(&mut g, &rows);
        g.data.insert("time".into(), Value::new(Ty::F64, vec![times.len()], times.clone()));
        img.groups.insert(format!("particle {}", p), g);
    }
    world().disk.insert(name.into(), OnDisk::Valid(Arc::new(img)));
}

pub fn tdata(steps: &Steps) -> Box<dyn Manager> {
    put_tdata("d.hdf5", steps);
    Box::new(TData::new("d.hdf5"))
}
pub fn pdata(steps: &Steps) -> Box<dyn Manager> {
    put_pdata("d.hdf5", steps);
    Box::new(PData::new("d.hdf5"))
}

pub fn cartesian(cells: [usize; 3], lim: [[f64; 2]; 3]) -> Box<dyn GridFunctions3D> {
    Box::new(CartesianGrid3D::new(cells, Dim::ThreeD(lim)))
}
pub fn cylindrical(cells: [usize; 3], lim: [[f64; 2]; 3]) -> Box<dyn GridFunctions3D> {
    Box::new(CylindricalGrid3D::new(cells, Dim::ThreeD(lim), "volume"))
}
pub fn all() -> ParticleSelector {
    ParticleSelector::default()
}
pub fn cells(g: &dyn GridFunctions3D) -> Vec<f64> {
    g.get_data().iter().copied().collect()
}
pub fn weights(g: &dyn GridFunctions3D) -> Vec<f64> {
    g.get_weights().iter().copied().collect()
}

/// the image a conversion left on the store
pub fn stored(name: &str) -> Image {
    match world().disk.get(name) {
        Some(OnDisk::Valid(i)) => (**i).clone(),
        _ => panic!("{} was not stored completely", name),
    }
}

pub fn same(what: &str, got: &[f64], want: &[f64]) {
    let ok = got.len() == want.len()
        && got.iter().zip(want).all(|(a, b)| {
            (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + b.abs())
        });
    if !ok {
        println!("DEMO: {}: got {:?} instead of {:?}", what, got, want);
        std::process::exit(1);
    }
}

/// Let the `nth` operation of the class, counted from here, fail.
pub fn fault(class: Class, nth: u64, kind: Kind) {
    local(|l| {
        *l = Default::default();
        l.plan = vec![Fault { class, nth, kind, arg: 0 }];
    });
}
/// No more faults; a process that died is restarted.
pub fn calm() {
    local(|l| *l = Default::default());
    let mut w = world();
    w.crashed = false;
    w.nospace = false;
    w.writers.clear();
}

/// the call has to fail
pub fn refused<T>(what: &str, f: impl FnOnce() -> T) {
    if catch_unwind(AssertUnwindSafe(f)).is_ok() {
        println!("DEMO: {}: it was not refused", what);
        std::process::exit(1);
    }
}

fn main() {
    simcore::reset();
    if catch_unwind(demo::run).is_err() {
        println!("DEMO: the call failed");
        std::process::exit(1);
    }
    python::run(include_str!("demo.py"));
    if catch_unwind(demo::check).is_err() {
        println!("DEMO: the check failed");
        std::process::exit(1);
    }
    println!("DEMO: as it should be");
}
