//! The Python side of up4, run by a real interpreter inside the simulated world:
//! the Data class compared with the library underneath (P35), Data as a sequence of
//! timesteps (P36), grids made from what a user asks for (P37) and plots of fields (P30,
//! in plots.rs).

use crate::analysis::{differ, Kind, Out, Part, KINDS, VIEWS};
use crate::data::{length, Ds, Stats};
use crate::engine::*;
use crate::plots::{self, Plan};
use crate::rng::{h, Rng};
use crate::scn::{Op, Report, Scn};
use crate::sess;
use crate::spec::{pick, unit, GridSpec, SelSpec};
use pyo3::prelude::*;
use pyo3::types::{PyBytes, PyDict, PyList, PyModule, PyTuple};
use simcore::{local, world, BudgetExceeded, CrashSignal};
use std::panic::panic_any;
use std::sync::Once;

pub const PROPS: [&str; 4] = ["P30", "P35", "P36", "P37"];

extern "C" {
    fn PyInit_upppp_rust() -> *mut pyo3::ffi::PyObject;
}

const SITE: &str = "/opt/veriftools/pyvenv/lib/python3.12/site-packages";

static READY: Once = Once::new();

thread_local! {
    /// how the driver itself failed
    static DRIVER: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// A failure of the driver, which is none of the system.
pub fn driver_failed() -> Option<String> {
    DRIVER.with(|d| d.borrow_mut().take())
}

/// Start the interpreter and load up4, before any run of this process.
pub fn start() {
    READY.call_once(|| {
        for (k, v) in [("OPENBLAS_NUM_THREADS", "1"), ("PYTHONHASHSEED", "0"), ("PYTHONDONTWRITEBYTECODE", "1")] {
            std::env::set_var(k, v);
        }
        for k in ["PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"] {
            std::env::remove_var(k);
        }
        unsafe {
            pyo3::ffi::PyImport_AppendInittab(c"upppp_rust".as_ptr(), Some(PyInit_upppp_rust));
        }
        pyo3::prepare_freethreaded_python();
        let r = Python::with_gil(|py| -> PyResult<()> {
            driver(py)?.getattr("start")?.call1((env!("UP4_PYTHON"), SITE))?;
            Ok(())
        });
        if let Err(e) = r {
            panic!("the Python part of up4 does not load: {}", e);
        }
    });
}

fn driver(py: Python) -> PyResult<&PyModule> {
    match PyModule::import(py, "driver") {
        Ok(m) => Ok(m),
        Err(_) => PyModule::from_code(py, include_str!("driver.py"), "driver.py", "driver"),
    }
}

/// What a call of the driver answered: the exception or the named arrays.
pub struct Answer {
    pub raised: Option<String>,
    pub parts: Vec<(String, Vec<f64>)>,
}

fn answer(r: &PyAny) -> PyResult<Answer> {
    let (raised, parts): (Option<String>, &PyList) = r.extract()?;
    let mut v = vec![];
    for p in parts {
        let (name, bytes): (String, &PyBytes) = p.extract()?;
        let data = bytes.as_bytes().chunks_exact(8).map(|c| f64::from_ne_bytes(c.try_into().unwrap())).collect();
        v.push((name, data));
    }
    Ok(Answer { raised, parts: v })
}

/// Call the driver; a failure of the driver itself is a failure of the harness.
pub fn call(object: Option<&Py<PyAny>>, name: &str, args: impl FnOnce(Python) -> PyResult<Py<PyDict>>) -> Answer {
    let r = Python::with_gil(|py| -> PyResult<Answer> {
        let kw = args(py)?;
        let f = match object {
            Some(o) => o.as_ref(py).getattr(name)?,
            None => driver(py)?.getattr(name)?,
        };
        answer(f.call1((kw,))?)
    });
    match r {
        Ok(a) => {
            // what ended the call below Python ends it here as well
            if world().crashed {
                panic_any(CrashSignal);
            }
            if a.raised.is_some() && local(|l| l.budget.is_some_and(|b| l.total >= b)) {
                panic_any(BudgetExceeded);
            }
            a
        }
        Err(e) => {
            let m = format!("driver: {}", e);
            DRIVER.with(|d| *d.borrow_mut() = Some(m.clone()));
            panic!("{}", m)
        }
    }
}

// ---------------------------------------------------------------- calls

/// bits of a Python call, beside those of an analysis
pub const USUAL: i64 = 32; // arguments left to their defaults

struct PySession<'a> {
    ds: &'a Ds,
    object: Option<Py<PyAny>>,
    opened: bool,
    time: (f64, f64),
    /// the second object: whether it is open, and its time range
    rest: (bool, (f64, f64)),
    raised: Option<String>,
    /// a field that was to be plotted could not be made
    fieldless: bool,
}

/// the time range of a `time` operation
fn range_of(op: &Op, ds: &Ds) -> (f64, f64) {
    let (s, times) = (op.arg(0) as u64, &ds.stats.times);
    let one = |salt: u64| {
        let t = times[pick(s, 200 + salt, times.len() as u64) as usize];
        match pick(s, 210 + salt, 5) {
            0 => t + 0.01 + unit(s, 220 + salt),
            1 => t - 0.01 - unit(s, 220 + salt),
            _ => t,
        }
    };
    let (a, b) = (one(0), one(1));
    let (lo, hi) = (a.min(b), a.max(b));
    match pick(s, 230, 12) {
        0 => (f64::MIN, hi),
        1 => (lo, f64::MAX),
        2 => (f64::MIN, f64::MAX),
        // after the end of the dataset
        3 => (ds.stats.time[1] + 0.01 + unit(s, 231), ds.stats.time[1] + 5.0),
        _ => (lo, hi),
    }
}

/// a call of an analysis as the operation means it, over a time range
fn call_for(op: &Op, ds: &Ds, time: (f64, f64)) -> crate::analysis::Call {
    let mut c = call_of(op, ds);
    c.sel = SelSpec { time, ..SelSpec::all() };
    c.usual = op.arg(4) & USUAL != 0;
    c
}

/// indices of an `item` operation: form and what is in the brackets
enum Index {
    One(&'static str, i64),
    Many(&'static str, Vec<i64>),
    Slice([Option<i64>; 3]),
    Walk,
}

fn index_of(op: &Op, nt: i64) -> Index {
    let s = op.arg(1) as u64;
    let r = &mut Rng::new(h(&[s, 400]));
    let one = |r: &mut Rng, bad: f64| -> i64 {
        if r.chance(bad) {
            *r.pick(&[nt, -nt - 1, nt + 1, nt + 7, -nt - 4, 1 << 40, -(1 << 40)])
        } else {
            match r.below(5) {
                0 => 0,
                1 => nt - 1,
                2 => -1,
                3 => -nt,
                _ => r.range(-nt, nt - 1),
            }
        }
    };
    match op.arg(0) {
        0 => Index::One(if r.chance(0.3) { "np" } else { "int" }, one(r, 0.2)),
        1 => {
            let n = *r.pick(&[0, 1, 2, 3, 5]);
            let bad = if r.chance(0.2) { 0.4 } else { 0.0 };
            let v = (0..n).map(|_| one(r, bad)).collect();
            Index::Many(*r.pick(&["list", "array", "tuple"]), v)
        }
        2 => {
            let mut end = |r: &mut Rng| -> Option<i64> {
                match r.below(6) {
                    0 | 1 => None,
                    2 => Some(*r.pick(&[nt, -nt - 1, nt + 3, -nt - 5])),
                    _ => Some(r.range(-nt, nt)),
                }
            };
            let (a, b) = (end(r), end(r));
            let step = match r.below(6) {
                0 | 1 => None,
                2 => Some(1),
                3 => Some(-1),
                4 => Some(if r.chance(0.15) { 0 } else { nt + r.range(0, 3) }),
                _ => Some(r.range(-4, 4)),
            };
            Index::Slice([a, b, step])
        }
        _ => Index::Walk,
    }
}

/// what range(*slice(..).indices(n)) gives; None: refused
fn sliced(s: [Option<i64>; 3], n: i64) -> Option<Vec<i64>> {
    let step = s[2].unwrap_or(1);
    if step == 0 {
        return None;
    }
    let (low, high) = if step > 0 { (0, n) } else { (-1, n - 1) };
    let end = |x: Option<i64>, default: i64| match x {
        None => default,
        Some(v) if v < 0 => (v + n).max(low),
        Some(v) => v.min(high),
    };
    let (mut i, stop) = if step > 0 { (end(s[0], 0), end(s[1], n)) } else { (end(s[0], n - 1), end(s[1], -1)) };
    let mut v = vec![];
    while (step > 0 && i < stop) || (step < 0 && i > stop) {
        v.push(i);
        i += step;
    }
    Some(v)
}

impl<'a> PySession<'a> {
    fn new(ds: &'a Ds) -> PySession<'a> {
        let object = Python::with_gil(|py| -> PyResult<Py<PyAny>> {
            Ok(driver(py)?.getattr("Session")?.call0()?.into())
        })
        .expect("driver");
        PySession { ds, object: Some(object), opened: false, time: SelSpec::all().time, rest: (false, SelSpec::all().time), raised: None, fieldless: false }
    }

    fn ask(&mut self, name: &str, args: impl FnOnce(Python) -> PyResult<Py<PyDict>>) -> Out {
        self.raised = None;
        let a = call(self.object.as_ref(), name, args);
        if let Some(e) = a.raised {
            self.raised = Some(e);
            panic!("raised");
        }
        let mut o = Out::default();
        for (n, data) in a.parts {
            o.parts.push(Part { name: Box::leak(n.into_boxed_str()), data, scale: 1.0, square: false });
        }
        o
    }

    fn open(&mut self, how: i64, file: &str) {
        self.opened = false;
        self.time = SelSpec::all().time;
        let how = if how == 0 { 0 } else { 1 + self.ds.by_particle as i64 };
        let file = file.to_string();
        self.ask("open", move |py| {
            let d = PyDict::new(py);
            d.set_item("file", file)?;
            d.set_item("how", how)?;
            Ok(d.into())
        });
        self.opened = true;
    }

    fn raw(&mut self, op: &Op, told: &Option<Out>) -> Got {
        if op.name == "open" {
            self.open(op.arg(0), if op.arg(1) == 1 { "absent.h5" } else { "sim.h5" });
            return Got::Unit;
        }
        if op.name == "swap" {
            self.ask("swap", |py| Ok(PyDict::new(py).into()));
            let now = (self.opened, self.time);
            (self.opened, self.time) = self.rest;
            self.rest = now;
            return Got::Unit;
        }
        if !self.opened && op.name != "mesh" {
            self.open(0, "sim.h5");
        }
        let ds = self.ds;
        match op.name.as_str() {
            "time" => {
                let (lo, hi) = range_of(op, ds);
                self.ask("time", move |py| {
                    let d = PyDict::new(py);
                    d.set_item("lo", lo)?;
                    d.set_item("hi", hi)?;
                    Ok(d.into())
                });
                self.time = (lo, hi);
                Got::Unit
            }
            "facts" => Got::Out(self.ask("facts", |py| Ok(PyDict::new(py).into()))),
            "an" => {
                let c = call_for(op, ds, self.time);
                Got::Out(self.ask("an", |py| analysis(py, &c, ds, told)))
            }
            "item" => {
                let ix = index_of(op, ds.stats.nsteps as i64);
                Got::Out(self.ask("item", move |py| {
                    let d = PyDict::new(py);
                    match ix {
                        Index::One(form, i) => {
                            d.set_item("form", form)?;
                            d.set_item("index", i)?;
                        }
                        Index::Many(form, v) => {
                            d.set_item("form", form)?;
                            d.set_item("index", v)?;
                        }
                        Index::Slice(s) => {
                            d.set_item("form", "slice")?;
                            d.set_item("index", PyList::new(py, s))?;
                        }
                        Index::Walk => d.set_item("form", "walk")?,
                    }
                    Ok(d.into())
                }))
            }
            "mesh" => {
                let m = Mesh::of(op, ds);
                if m.data && !self.opened {
                    self.open(0, "sim.h5");
                }
                Got::Out(self.ask("grid", |py| m.args(py)))
            }
            "plot" => {
                let p = Plan::of(op);
                for field in p.fields() {
                    let mut c = field.call(ds);
                    c.sel = SelSpec { time: self.time, ..SelSpec::all() };
                    self.fieldless = true;
                    self.ask("field", |py| {
                        let d = analysis(py, &c, ds, &None)?;
                        d.as_ref(py).set_item("key", field.key())?;
                        Ok(d)
                    });
                    self.fieldless = false;
                }
                plotly::shown();
                let mut o = self.ask("plot", |py| p.args(py));
                if let Some(json) = plotly::shown() {
                    o.parts.extend(self.ask("shown", |py| {
                        let d = PyDict::new(py);
                        d.set_item("json", json)?;
                        Ok(d.into())
                    }).parts);
                }
                if let Some((json, parts)) = plots::direct(&p, ds, &o) {
                    let drawn = self.ask("shown", |py| {
                        let d = PyDict::new(py);
                        d.set_item("json", json)?;
                        Ok(d.into())
                    });
                    o.parts.extend(parts);
                    o.parts.extend(drawn.parts.into_iter().map(|p| Part {
                        name: Box::leak(format!("direct {}", p.name).into_boxed_str()),
                        ..p
                    }));
                }
                Got::Out(o)
            }
            other => panic!("unknown operation {}", other),
        }
    }

    fn exec(&mut self, op: &Op, told: &Option<Out>) -> Done {
        self.raised = None;
        self.fieldless = false;
        guarded(4 * budget(self.ds), &op.faults, || self.raw(op, told))
    }
}

/// An analysis as the driver calls it: positional and named arguments.
fn analysis(py: Python, c: &crate::analysis::Call, ds: &Ds, told: &Option<Out>) -> PyResult<Py<PyDict>> {
    let p = c.params(ds);
    let mut named: Vec<(&str, PyObject)> = vec![];
    // the arguments without a default come first
    let mut plain: Vec<PyObject> = vec![];
    let (method, shape, on_grid) = match c.kind {
        Kind::VelocityField => {
            named.push(("mode", p.mode.into_py(py)));
            named.push(("min_velocity", p.min_vel.into_py(py)));
            named.push(("max_velocity", p.max_vel.into_py(py)));
            ("velocityfield", "field", true)
        }
        Kind::VectorField => ("vectorfield", "vector", true),
        Kind::NumberField => ("numberfield", "field", true),
        Kind::Occupancy => {
            named.push(("min_vel", p.min_vel.into_py(py)));
            ("occupancyfield", "field", true)
        }
        Kind::Homogeneity => {
            named.push(("min_vel", p.min_vel.into_py(py)));
            ("homogenity_index", "value", true)
        }
        Kind::MeanVelocity => ("mean_velocity", "value", false),
        Kind::Dispersion => {
            plain.push(p.lag.into_py(py));
            ("dispersion", "field+", true)
        }
        Kind::Granular => {
            named.push(("mode", p.mode.into_py(py)));
            ("granular_temperature", "field", true)
        }
        Kind::Histogram => {
            named.push(("property", "velocity".into_py(py)));
            named.push(("bins", p.bins.into_py(py)));
            named.push(("limit", c.limit(&p).into_py(py)));
            ("histogram", "two", true)
        }
        Kind::Lacey => {
            named.push(("type_a", p.types.0.into_py(py)));
            named.push(("type_b", p.types.1.into_py(py)));
            named.push(("threshold", p.threshold.into_py(py)));
            ("lacey_mixing_index", "two", true)
        }
        Kind::Concentration => {
            named.push(("type_a", p.types.0.into_py(py)));
            named.push(("type_b", p.types.1.into_py(py)));
            ("concentration_field", "field", true)
        }
        Kind::MsdField => {
            plain.push(p.lag.into_py(py));
            ("msd_field", "field", true)
        }
        Kind::Msd => {
            named.push(("min_time", p.lags.0.into_py(py)));
            named.push(("max_time", p.lags.1.into_py(py)));
            named.push(("steps", p.lags.2.into_py(py)));
            ("msd", "two", true)
        }
        Kind::Circulation => {
            plain.push(p.bounds.0.into_py(py));
            named.push(("axis", p.axis.into_py(py)));
            ("circulation_time", "value", false)
        }
        Kind::Circulation2 => {
            plain.push(p.bounds.into_py(py));
            named.push(("axis", p.axis.into_py(py)));
            ("circulation_time_two_boundary", "value", false)
        }
        Kind::Extract => {
            plain.push(p.row.into_py(py));
            plain.push(p.range.into_py(py));
            ("extract", "array", false)
        }
        Kind::Lookup => unreachable!(),
    };
    let d = PyDict::new(py);
    d.set_item("method", method)?;
    d.set_item("shape", shape)?;
    let kwargs = PyDict::new(py);
    if !c.usual {
        // by position up to somewhere, by name from there on
        let by_place = pick(c.seed, 300, named.len() as u64 + 1) as usize;
        for (i, (k, v)) in named.into_iter().enumerate() {
            if i < by_place {
                plain.push(v);
            } else {
                kwargs.set_item(k, v)?;
            }
        }
    } else if c.kind == Kind::Msd {
        kwargs.set_item("max_time", p.lags.1)?;
        kwargs.set_item("steps", p.lags.2)?;
    }
    d.set_item("args", PyTuple::new(py, plain))?;
    d.set_item("kwargs", kwargs)?;
    if on_grid {
        d.set_item("grid", grid_args(py, &c.grid)?)?;
    } else {
        d.set_item("grid", py.None())?;
    }
    d.set_item("prefill", c.prefill)?;
    let field = matches!(shape, "field" | "field+");
    if c.views && (field || shape == "vector") {
        let v = PyDict::new(py);
        let layers: Vec<Vec<f64>> = (0..3).map(|a| c.layers(a).into_iter().map(|x| x.0).collect()).collect();
        v.set_item("layers", layers)?;
        let places: Vec<Vec<f64>> = c.places().iter().map(|p| p.to_vec()).collect();
        v.set_item("places", places)?;
        v.set_item("component", c.component())?;
        d.set_item("views", v)?;
    } else {
        d.set_item("views", py.None())?;
    }
    let removal = told.as_ref().and_then(|o| o.parts.iter().find(|p| p.name == "removal"));
    match removal {
        Some(r) if c.clean && field => d.set_item("clean", (r.data[1] as usize, r.data[0]))?,
        _ => d.set_item("clean", py.None())?,
    }
    Ok(d.into())
}

fn grid_args(py: Python, g: &GridSpec) -> PyResult<PyObject> {
    let lim: Vec<f64> = g.lim.iter().flatten().copied().collect();
    Ok((g.cyl, g.cells.to_vec(), lim).into_py(py))
}

// ---------------------------------------------------------------- grids

/// A grid as a user asks for it, and what it has to be.
struct Mesh {
    data: bool,
    style: Option<&'static str>,
    cells: Option<Vec<i64>>,
    size: Option<Vec<f64>>,
    limits: Option<Vec<f64>>,
    /// limits of single axes
    axis: [Option<Vec<f64>>; 3],
    arrays: bool,
    count: bool,
    /// None: has to be refused
    want: Option<GridSpec>,
    /// cells counted from their size may be one off where a size divides an axis evenly
    open: bool,
}

impl Mesh {
    fn of(op: &Op, ds: &Ds) -> Mesh {
        let s = op.arg(0) as u64;
        let r = &mut Rng::new(h(&[s, 500]));
        let dims = &ds.stats.dims;
        let u = length();
        let mut lim: [[f64; 2]; 3] = std::array::from_fn(|a| [dims[0][a], dims[1][a]]);
        let other = |r: &mut Rng| -> [f64; 2] {
            let lo = match r.below(4) {
                0 => 0.0,
                1 => r.uniform(0.0, 4.0),
                2 => r.range(-6, 3) as f64,
                _ => r.uniform(-7.0, 2.0),
            };
            let hi = lo + if r.chance(0.4) { r.range(1, 9) as f64 } else { r.uniform(0.5, 9.0) };
            [lo * u, hi * u]
        };
        let cyl = r.chance(0.35);
        let mut m = Mesh {
            data: r.chance(0.6),
            style: if cyl { Some("cylindrical") } else { *r.pick(&[None, Some("cartesian")]) },
            cells: None,
            size: None,
            limits: None,
            axis: [None, None, None],
            arrays: r.chance(0.3),
            count: false,
            want: None,
            open: false,
        };
        match r.below(if m.data { 4 } else { 2 }) {
            0 => {
                lim = std::array::from_fn(|_| other(r));
                m.limits = Some(lim.iter().flatten().copied().collect());
            }
            1 => {
                for a in 0..3 {
                    if !m.data || r.chance(0.5) {
                        lim[a] = other(r);
                        m.axis[a] = Some(lim[a].to_vec());
                    }
                }
            }
            _ => {}
        }
        let mut cells = [50; 3];
        if !cyl && r.chance(0.35) && (0..3).all(|a| lim[a][1] - lim[a][0] > 0.2 * u) {
            // sizes that fit at least once
            let size: Vec<f64> = (0..3)
                .map(|a| {
                    let w = lim[a][1] - lim[a][0];
                    if r.chance(0.3) && w >= u { u } else { w * r.uniform(0.15, 0.95) }
                })
                .collect();
            for a in 0..3 {
                let x = (lim[a][1] - lim[a][0]) / size[a];
                cells[a] = x as usize;
                m.open |= (x - x.round()).abs() < 1e-9;
            }
            m.size = Some(size);
        } else if r.chance(0.85) {
            cells = std::array::from_fn(|_| *r.pick(&[1, 2, 3, 4, 7]));
            m.cells = Some(cells.iter().map(|c| *c as i64).collect());
        }
        m.count = m.data && cells.iter().product::<usize>() < 2000;
        let mut good = true;
        if r.chance(0.2) {
            good = false;
            match r.below(10) {
                0 => m.style = Some("spherical"),
                1 => m.cells = Some(vec![2, 2]),
                2 => m.cells = Some(vec![2, 2, 2, 2]),
                3 => m.limits = Some(lim.iter().flatten().copied().take(5).collect()),
                4 => {
                    let a = r.below(3) as usize;
                    m.limits = None;
                    m.axis[a] = Some(vec![3.0, 1.0]);
                }
                5 => {
                    let a = r.below(3) as usize;
                    m.axis[a] = Some(vec![3.0]);
                }
                6 => m.size = Some(vec![1.0, 1.0]),
                7 => {
                    // one axis the wrong way round
                    let a = r.below(3) as usize;
                    let mut l: Vec<f64> = (0..3).flat_map(|a| [lim[a][0], lim[a][0] + 1.0]).collect();
                    l.swap(2 * a, 2 * a + 1);
                    m.limits = Some(l);
                    m.axis = [None, None, None];
                    m.size = None;
                }
                8 => {
                    // two answers to where the grid is
                    m.data = false;
                    m.limits = Some((0..3).flat_map(|a| [lim[a][0], lim[a][0] + 1.0]).collect());
                    m.axis = [None, None, None];
                    let a = r.below(3) as usize;
                    m.axis[a] = Some(vec![lim[a][0], lim[a][0] + 2.0]);
                }
                _ => {
                    // nothing says where the grid is
                    m.data = false;
                    m.limits = None;
                    m.axis[r.below(3) as usize] = None;
                }
            }
        }
        if good && (0..3).all(|a| lim[a][1] > lim[a][0]) {
            m.want = Some(GridSpec { cyl, cells, lim });
        } else if good {
            // a dataset without extent
            m.open = true;
        }
        if !good {
            m.count = false;
        }
        m
    }

    fn args(&self, py: Python) -> PyResult<Py<PyDict>> {
        let a = PyDict::new(py);
        if let Some(s) = self.style {
            a.set_item("grid_style", s)?;
        }
        if let Some(c) = &self.cells {
            a.set_item("num_cells", c.clone())?;
        }
        if let Some(c) = &self.size {
            a.set_item("cell_size", c.clone())?;
        }
        if let Some(c) = &self.limits {
            a.set_item("limits", c.clone())?;
        }
        for (n, v) in ["xlim", "ylim", "zlim"].iter().zip(&self.axis) {
            if let Some(v) = v {
                a.set_item(n, v.clone())?;
            }
        }
        let d = PyDict::new(py);
        d.set_item("args", a)?;
        d.set_item("arrays", self.arrays)?;
        d.set_item("data", self.data)?;
        d.set_item("count", self.count)?;
        Ok(d.into())
    }
}

// ---------------------------------------------------------------- generation

pub fn generate(prop: &str, seed: u64, big: bool) -> Scn {
    let mut r = Rng::new(seed);
    let mut s = Scn { prop: prop.into(), seed, ..Scn::default() };
    sess::knobs(&mut s, &mut r, big);
    s.set("py", 1);
    let n = r.range(1, if big { 10 } else { 6 });
    let kinds = &KINDS[..KINDS.len() - 1];
    let mut ops = vec![Op::new("open", &[r.below(2) as i64])];
    let mine = |r: &mut Rng| -> Op {
        let form = r.weighted(&[3, 3, 4, 2]) as i64;
        Op::new("item", &[form, r.below(1 << 30) as i64])
    };
    let an = |r: &mut Rng| -> Op {
        let mut o = sess::an(r, kinds, false);
        o.a[2] = 0;
        for (bit, p) in [(PARTS, 0.3), (CLEAN, 0.3), (USUAL, 0.25)] {
            if r.chance(p) {
                o.a[4] |= bit;
            }
        }
        o
    };
    let pool = plots::pool(&mut r);
    let two = prop != "P37" && r.chance(0.3);
    for _ in 0..n {
        if two && r.chance(0.5) {
            ops.push(Op::new("swap", &[]));
        }
        let w: [u32; 7] = match prop {
            "P35" => [6, 3, 2, 1, 0, 1, 0],
            "P36" => [1, 1, 0, 8, 0, 1, 0],
            "P37" => [1, 1, 0, 0, 8, 0, 0],
            _ => [1, 2, 0, 0, 0, 0, 12],
        };
        ops.push(match r.weighted(&w) {
            0 => an(&mut r),
            1 => Op::new("time", &[r.below(1 << 30) as i64]),
            2 => Op::new("facts", &[]),
            3 => mine(&mut r),
            4 => Op::new("mesh", &[r.below(1 << 30) as i64]),
            5 => Op::new("open", &[r.below(2) as i64, r.chance(0.3) as i64]),
            _ => plots::op(&mut r, &pool),
        });
    }
    s.ops = ops;
    s
}

// ---------------------------------------------------------------- judgement

pub type Verdict = Result<(), (String, String)>;
pub fn bad(class: &str, detail: impl Into<String>) -> Verdict {
    Err((class.into(), detail.into()))
}

/// What the library underneath answers to the same call.
fn direct(s: &Scn, ds: &Ds, c: &crate::analysis::Call) -> Got {
    quietly(|| {
        set_window(s.get("win").max(1) as usize);
        let mut y = Session::new(ds, "fresh.h5");
        y.exec(&Op::new("open", &[]));
        guarded(4 * budget(ds), &[], || Got::Out(c.run(&mut **y.handle.as_mut().unwrap(), ds))).got
    })
}

/// The answer of the library as Python shows it.
fn shown(c: &crate::analysis::Call, o: &Out) -> Out {
    let mut v = Out::default();
    let mut put = |name: &'static str, p: &Part| {
        v.parts.push(Part { name, data: p.data.clone(), scale: 1.0, square: false });
    };
    for p in &o.parts {
        let name = match (c.kind, p.name) {
            (_, "axes") => {
                let mut q = p.clone();
                let n = q.data.len();
                q.data.drain(n - 9..n - 3);
                put("axes", &q);
                continue;
            }
            (Kind::VectorField, n) if n.starts_with("weights") || n.starts_with("axes ") => continue,
            (Kind::Homogeneity, "index") | (Kind::MeanVelocity, "mean") => "value",
            (Kind::Circulation | Kind::Circulation2, "times") => "value",
            (Kind::Dispersion, "dispersion") => "extra",
            (Kind::Histogram, "counts") | (Kind::Lacey, "time") | (Kind::Msd, "msd") => "first",
            (Kind::Histogram, "edges") | (Kind::Lacey, "index") | (Kind::Msd, "lag") => "second",
            (_, "removal") => continue,
            (Kind::VectorField, n) if n.starts_with("cleaned") => continue,
            (_, n) if n == VIEWS[0] => "collapsed",
            (Kind::VectorField, n) if n == VIEWS[2] => continue,
            (_, n) if n == VIEWS[2] => "collapsed twice",
            (_, n) if n == VIEWS[4] => "layer by index",
            (_, n) if n == VIEWS[5] => "layer by position",
            (_, n) if VIEWS.contains(&n) => continue,
            (_, n) => n,
        };
        put(name, p);
    }
    if c.views && o.parts.iter().any(|p| p.name == VIEWS[0]) && c.kind != Kind::VectorField {
        let g = c.grid.build();
        let mut data = vec![];
        for p in c.places() {
            let inside = g.is_inside(p);
            data.push(inside as u8 as f64);
            match g.cell_id(p) {
                Ok(id) if inside => data.extend(id.map(|x| x as f64)),
                _ => data.extend([-1.0; 3]),
            }
        }
        v.parts.push(Part { name: "places", data, scale: 1.0, square: false });
    }
    v
}

/// What Python is told about a field in words.
fn misdescribed(a: &Out, c: &crate::analysis::Call) -> Option<String> {
    let text: String = part(a, "text").iter().map(|x| *x as u8 as char).collect();
    let cells = [part(a, "cells"), part(a, "component 0")].concat();
    if text.is_empty() || cells.is_empty() {
        return None;
    }
    let size = cells.iter().filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.abs()));
    let want = crate::own::description(&c.grid, &cells, size, false);
    crate::own::misdescribed(&crate::own::told_of(&text, false), &want)
}

fn rows(ds: &Ds, t: usize) -> Vec<f64> {
    let mut v = vec![];
    for r in &ds.steps[t].rows {
        v.push(r.id);
        v.extend(r.pos);
        v.extend(r.vel);
    }
    v
}

pub fn part<'o>(o: &'o Out, name: &str) -> &'o [f64] {
    o.parts.iter().find(|p| p.name == name).map(|p| p.data.as_slice()).unwrap_or(&[])
}

fn equal(name: &str, a: &[f64], b: &[f64]) -> Verdict {
    if a.len() != b.len() {
        return bad("wrong", format!("{} has {} values instead of {}", name, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !same(*x, *y) {
            return bad("wrong", format!("{}[{}] is {:?} instead of {:?}", name, i, x, y));
        }
    }
    Ok(())
}

/// P36: the timesteps that an index means.
fn judge_item(op: &Op, d: &Done, ds: &Ds, raised: &Option<String>, rep: &mut Report) -> Verdict {
    let nt = ds.stats.nsteps as i64;
    let at = |i: i64| -> Option<usize> {
        let j = if i < 0 { i + nt } else { i };
        (0..nt).contains(&j).then_some(j as usize)
    };
    let (label, steps, error): (String, Option<Vec<usize>>, &str) = match index_of(op, nt) {
        Index::One(f, i) => (format!("d[{}] ({})", i, f), at(i).map(|x| vec![x]), "IndexError"),
        Index::Many(f, v) => {
            (format!("d[{:?}] ({})", v, f), v.iter().map(|i| at(*i)).collect(), "IndexError")
        }
        Index::Slice(s) => (
            format!("d[{:?}:{:?}:{:?}]", s[0], s[1], s[2]).replace("None", "").replace("Some", ""),
            sliced(s, nt).map(|v| v.into_iter().map(|i| i as usize).collect()),
            "ValueError",
        ),
        Index::Walk => ("iteration".into(), Some((0..nt as usize).collect()), ""),
    };
    let label = format!("{} of {} timesteps", label, nt);
    let Some(steps) = steps else {
        rep.judged += 1;
        rep.nontrivial = true;
        rep.probe("refused");
        if !d.fired.is_empty() {
            return Ok(());
        }
        return match raised {
            Some(e) if e == error => Ok(()),
            Some(e) => bad("error", format!("{} raises {} instead of {}", label, e, error)),
            None => bad("not-refused", format!("{} is answered", label)),
        };
    };
    let o = match &d.got {
        Got::Out(o) => o,
        Got::Fail(_) if !d.fired.is_empty() => return Ok(()),
        _ => return bad("fails", format!("{} fails ({})", label, raised.as_deref().unwrap_or("?"))),
    };
    rep.judged += 1;
    rep.nontrivial = true;
    rep.steps += steps.len() as u64;
    let tag = |v: Verdict| v.map_err(|(c, e)| (c, format!("{}: {}", label, e)));
    match index_of(op, nt) {
        Index::One(..) => {
            let want = rows(ds, steps[0]);
            tag(equal("shape", part(o, "shape"), &[want.len() as f64 / 7.0, 7.0]))?;
            tag(equal("rows", part(o, "rows"), &want))
        }
        Index::Walk => {
            rep.probe("iterated");
            tag(equal("count", part(o, "count"), &[nt as f64]))?;
            for t in steps {
                tag(equal(&format!("timestep {}", t), part(o, &format!("rows {}", t)), &rows(ds, t)))?;
            }
            Ok(())
        }
        _ => {
            let np = ds.stats.npart;
            if steps.is_empty() {
                rep.probe("empty selection");
            }
            tag(equal("shape", part(o, "shape"), &[steps.len() as f64, np as f64, 7.0]))?;
            let got = part(o, "rows");
            for (k, t) in steps.iter().enumerate() {
                let want = rows(ds, *t);
                // rows behind the particles of a timestep are left open
                let from = k * np * 7;
                tag(equal(&format!("timestep {}", t), &got[from..from + want.len()], &want))?;
            }
            Ok(())
        }
    }
}

/// P37: the grid that was asked for.
fn judge_mesh(op: &Op, d: &Done, ds: &Ds, raised: &Option<String>, time: (f64, f64), rep: &mut Report) -> Verdict {
    let m = Mesh::of(op, ds);
    let what = format!(
        "Grid(data: {}, style: {:?}, num_cells: {:?}, cell_size: {:?}, limits: {:?}, single axes: {:?})",
        m.data, m.style, m.cells, m.size, m.limits, m.axis
    );
    let Some(want) = &m.want else {
        if m.open {
            rep.unclear += 1;
            return Ok(());
        }
        rep.judged += 1;
        rep.nontrivial = true;
        rep.probe("refused");
        return match d.got {
            Got::Fail(_) => Ok(()),
            _ => bad("not-refused", format!("{} is accepted", what)),
        };
    };
    let o = match &d.got {
        Got::Out(o) => o,
        Got::Fail(_) if !d.fired.is_empty() => return Ok(()),
        _ => return bad("fails", format!("{} fails ({})", what, raised.as_deref().unwrap_or("?"))),
    };
    rep.judged += 1;
    rep.nontrivial = true;
    rep.probe(match (m.data, m.size.is_some()) {
        (true, true) => "cells of a size around the data",
        (true, false) => "a number of cells around the data",
        (false, true) => "cells of a size in a region",
        (false, false) => "a number of cells in a region",
    });
    let axes = part(o, "axes");
    let shape: Vec<usize> = axes[axes.len().saturating_sub(3)..].iter().map(|x| *x as usize).collect();
    let mut want = want.clone();
    if m.open && shape.len() == 3 {
        for a in 0..3 {
            if shape[a] + 1 == want.cells[a] || shape[a] == want.cells[a] + 1 {
                want.cells[a] = shape[a];
            }
        }
    }
    let mut w = want.axes();
    let n = w.len();
    w.drain(n - 9..n - 3);
    let have = Out::default().scaled("axes", axes.to_vec(), 10.0, false);
    if let Some(e) = differ(&have, &Out::default().scaled("axes", w, 10.0, false)) {
        return bad("wrong", format!("{}: {}", what, e));
    }
    if part(o, "cells").iter().chain(part(o, "weights")).any(|x| *x != 0.0) {
        return bad("wrong", format!("{}: a new grid is not empty", what));
    }
    if m.count && m.data {
        // what is counted in it
        let op = Op::new("an", &[Kind::NumberField as i64, 0, 0, 0, 0]);
        let mut c = call_for(&op, ds, time);
        c.grid = want;
        let refr = c.reference(ds);
        if let crate::analysis::Expect::Value(alts) = &refr.expect {
            let have = Out::default().scaled("cells", part(o, "counted").to_vec(), 1.0, false);
            let cells = part(&alts[0], "cells").to_vec();
            if let Some(e) = differ(&have, &Out::default().scaled("cells", cells, 1.0, false)) {
                return bad("wrong", format!("{}: counting in it: {}", what, e));
            }
            rep.probe("counted in the grid");
        }
    }
    Ok(())
}

fn facts_of(ds: &Ds) -> Vec<(&'static str, Vec<f64>)> {
    let s: &Stats = &ds.stats;
    vec![
        ("dims", s.dims.iter().flatten().copied().collect()),
        ("low", s.dims[0].to_vec()),
        ("high", s.dims[1].to_vec()),
        ("npart", vec![s.npart as f64]),
        ("length", vec![s.nsteps as f64]),
        ("times", s.times.clone()),
    ]
}

/// The numbers in the description of a dataset, two digits each.
fn told_wrong(text: &[f64], ds: &Ds) -> Verdict {
    let text: String = text.iter().map(|x| *x as u8 as char).collect();
    let s = &ds.stats;
    let mut want = vec![];
    for a in 0..3 {
        want.extend([s.dims[0][a], s.dims[1][a], s.dims[1][a] - s.dims[0][a]]);
    }
    want.extend([s.time[1], s.npart as f64, s.nsteps as f64, s.velmag[1], s.velmag[0], s.velmag[2]]);
    // every number by itself, as the layout is nobody's business
    let b = text.as_bytes();
    let mut got: Vec<f64> = vec![];
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() || i > 0 && b[i - 1].is_ascii_alphabetic() {
            i += 1;
            continue;
        }
        let from = if i > 0 && b[i - 1] == b'-' { i - 1 } else { i };
        while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit())) {
            i += 1;
        }
        got.push(text[from..i].parse().unwrap_or(f64::NAN));
    }
    let near = |w: f64| got.iter().any(|x| (x - w).abs() <= 0.0051 + 1e-9 * w.abs());
    match want.iter().find(|w| w.is_finite() && !near(**w)) {
        Some(w) => bad("told", format!("{:?} is not in the description {:?}", w, text)),
        None => Ok(()),
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(
    s: &Scn,
    op: &Op,
    d: &Done,
    ds: &Ds,
    told: &Option<Got>,
    raised: &Option<String>,
    time: (f64, f64),
    fieldless: bool,
    rep: &mut Report,
) -> Verdict {
    if let Got::Fail(Fk::Endless) = d.got {
        return bad("endless", "does not end");
    }
    let why = || raised.clone().unwrap_or_else(|| "?".into());
    match (s.prop.as_str(), op.name.as_str()) {
        ("P35", "an") => {
            let c = call_for(op, ds, time);
            let name = format!("{:?}", c.kind);
            if raised.as_deref() == Some("AssertionError") {
                return bad("contradicts", format!("{}: the grids contradict each other or changed by the call", name));
            }
            if d.interrupted() && !d.got.failed() {
                return bad("interrupt-ignored", format!("{} was interrupted and reports success", name));
            }
            match (&d.got, told.as_ref().unwrap()) {
                (Got::Fail(_), _) if !d.fired.is_empty() => {
                    rep.nontrivial = true;
                    rep.probe("a fault raised an exception");
                    Ok(())
                }
                (Got::Fail(_), Got::Fail(_)) => {
                    rep.judged += 1;
                    rep.probe("refused");
                    Ok(())
                }
                (Got::Fail(_), _) => bad("fails", format!("{} raises {}", name, why())),
                (_, Got::Fail(_)) => bad("not-refused", format!("{} answers where the library refuses", name)),
                (Got::Out(a), Got::Out(b)) => {
                    rep.judged += 1;
                    rep.nontrivial = true;
                    if c.usual {
                        rep.probe("defaults");
                    }
                    if time != SelSpec::all().time {
                        rep.probe("over a time range");
                    }
                    match differ(a, &shown(&c, b)).or_else(|| misdescribed(a, &c)) {
                        None => Ok(()),
                        Some(e) => bad("differs", format!("{} over {:?}: {}", name, time, e)),
                    }
                }
                _ => bad("kind", name),
            }
        }
        ("P35", "time") => {
            let (lo, hi) = range_of(op, ds);
            let out = lo > ds.stats.time[1];
            rep.judged += 1;
            match (out, d.got.failed()) {
                (true, false) => bad("not-refused", format!("a time range after the end ({:?}) is accepted", lo)),
                (false, true) if d.fired.is_empty() => bad("fails", format!("set_time({:?}, {:?}): {}", lo, hi, why())),
                _ => Ok(()),
            }
        }
        ("P35", "facts") => match &d.got {
            Got::Out(o) => {
                rep.judged += 1;
                rep.nontrivial = true;
                for (n, v) in facts_of(ds) {
                    equal(n, part(o, n), &v)?;
                }
                told_wrong(part(o, "text"), ds)
            }
            _ if !d.fired.is_empty() => Ok(()),
            _ => bad("fails", format!("asking for the facts: {}", why())),
        },
        ("P35", "open") => match (op.arg(1) == 1, d.got.failed()) {
            (true, false) => bad("not-refused", "a missing file is opened"),
            (false, true) if d.fired.is_empty() => bad("fails", format!("opening: {}", why())),
            _ => Ok(()),
        },
        ("P36", "item") => judge_item(op, d, ds, raised, rep),
        ("P30", "plot") => match (fieldless, &d.got) {
            (true, _) => {
                rep.unclear += 1;
                Ok(())
            }
            (_, Got::Fail(_)) if !d.fired.is_empty() => Ok(()),
            (_, Got::Out(o)) => plots::judge(&Plan::of(op), Some(o), &why(), rep),
            _ => plots::judge(&Plan::of(op), None, &why(), rep),
        },
        ("P37", "mesh") => judge_mesh(op, d, ds, raised, time, rep),
        _ => Ok(()),
    }
}

/// Run a scenario and judge it.
pub fn run(s: &Scn) -> (Report, Vec<Done>) {
    simcore::reset();
    let mut rep = Report::default();
    let ds = dataset(s, 0);
    set_window(s.get("win").max(1) as usize);
    if let Some(old) = crate::sess::earlier(s) {
        old.install("sim.h5");
        rep.execs += 1;
        rep.probe("a file replaced since");
        let mut x = PySession::new(&old);
        quietly(|| {
            for o in s.ops.iter().take(6) {
                let mut o = o.clone();
                o.faults.clear();
                x.exec(&o, &None);
            }
        });
        driver_failed();
    }
    ds.install("sim.h5");
    ds.install("fresh.h5");
    if std::env::var_os("UP4SIM_LOG").is_some() {
        world().log = Some(vec![]);
    }
    let mut x = PySession::new(&ds);
    let mut dones: Vec<Done> = vec![];
    for (i, op) in s.ops.iter().enumerate() {
        simcore::note(&format!("op {} {:?}", op.name, op.a));
        let time = x.time;
        let told = (op.name == "an" && s.prop == "P35").then(|| {
            rep.execs += 1;
            direct(s, &ds, &call_for(op, &ds, time))
        });
        let known = match &told {
            Some(Got::Out(o)) => Some(o.clone()),
            _ => None,
        };
        let d = x.exec(op, &known);
        rep.ops += d.total;
        simcore::note(&outcome(&d.got));
        if let Some(e) = &x.raised {
            simcore::note(e);
        }
        rep.fired.extend(d.fired.iter().cloned());
        if let Err((class, detail)) = judge(s, op, &d, &ds, &told, &x.raised, time, x.fieldless, &mut rep) {
            rep.fail(
                format!("{}:{}", op.name, class),
                format!("operation {} ({} {:?}): {}", i, op.name, op.a, detail),
            );
        }
        if let Some(m) = driver_failed() {
            rep.fail(format!("{}:unjudgeable", op.name), m);
        }
        dones.push(d);
        if rep.violation.is_some() {
            break;
        }
    }
    rep.execs += 1;
    rep.sim_time = ds.stats.time[1] - ds.stats.time[0];
    let mut w = world();
    rep.hash = w.log_hash;
    rep.log = w.log.take().unwrap_or_default();
    (rep, dones)
}
