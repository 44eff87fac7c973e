//! Every analysis of up4: how it is called, and what its result has to be
//! according to a reference computed directly from the table of stored samples.

use crate::data::{length, speed, Ds, Row, TYPE};
use crate::spec::{pick, unit, GridSpec, SelSpec, Where};
use upppp_rust::datamanager::Manager;
use upppp_rust::GridFunctions3D;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    VelocityField = 0,
    VectorField = 1,
    NumberField = 2,
    Occupancy = 3,
    Homogeneity = 4,
    MeanVelocity = 5,
    Dispersion = 6,
    Granular = 7,
    Histogram = 8,
    Lacey = 9,
    Concentration = 10,
    MsdField = 11,
    Msd = 12,
    Circulation = 13,
    Circulation2 = 14,
    Extract = 15,
    Lookup = 16,
}
pub const KINDS: [Kind; 17] = [
    Kind::VelocityField,
    Kind::VectorField,
    Kind::NumberField,
    Kind::Occupancy,
    Kind::Homogeneity,
    Kind::MeanVelocity,
    Kind::Dispersion,
    Kind::Granular,
    Kind::Histogram,
    Kind::Lacey,
    Kind::Concentration,
    Kind::MsdField,
    Kind::Msd,
    Kind::Circulation,
    Kind::Circulation2,
    Kind::Extract,
    Kind::Lookup,
];

impl Kind {
    /// uses a second cursor besides the main one
    pub fn two_cursors(self) -> bool {
        matches!(
            self,
            Kind::Occupancy | Kind::Homogeneity | Kind::Dispersion | Kind::MsdField | Kind::Msd
        )
    }
    pub fn polls(self) -> bool {
        self != Kind::Lookup
    }
}

/// One call: kind, grid, selection and further parameters.
#[derive(Clone, Debug)]
pub struct Call {
    pub kind: Kind,
    pub grid: GridSpec,
    pub sel: SelSpec,
    pub seed: u64,
    pub prefill: bool,
    /// arguments that have to be refused
    pub invalid: bool,
    /// also look at layers, depth averages and single values of the field
    pub views: bool,
    /// also remove outliers from the field
    pub clean: bool,
    /// with values in all cells
    pub dense: bool,
    /// arguments left to the defaults of the Python layer
    pub usual: bool,
}

/// Named parts of a result. `scale` is the magnitude against which rounding is judged,
/// `square` compares squares (results of a root of a difference).
#[derive(Clone, Debug)]
pub struct Part {
    pub name: &'static str,
    pub data: Vec<f64>,
    pub scale: f64,
    pub square: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub parts: Vec<Part>,
}
impl Out {
    fn add(mut self, name: &'static str, data: Vec<f64>) -> Out {
        self.parts.push(Part { name, data, scale: 1.0, square: false });
        self
    }
    pub fn scaled(mut self, name: &'static str, data: Vec<f64>, scale: f64, square: bool) -> Out {
        self.parts.push(Part { name, data, scale, square });
        self
    }
}

pub fn close(got: f64, want: f64, scale: f64, square: bool) -> bool {
    // results are lengths, velocities or their squares
    let scale = scale * length().max(1.0).powi(2);
    if got.is_nan() || want.is_nan() {
        return got.is_nan() && want.is_nan();
    }
    if got == want {
        return true;
    }
    if square {
        if got < 0.0 {
            return false;
        }
        return (got * got - want * want).abs() <= 1e-9 * (scale * scale + want * want);
    }
    (got - want).abs() <= 1e-9 * (scale + want.abs())
}

/// First difference between a result and what it should be.
pub fn differ(got: &Out, want: &Out) -> Option<String> {
    for w in &want.parts {
        let Some(g) = got.parts.iter().find(|p| p.name == w.name) else {
            return Some(format!("{} is missing", w.name));
        };
        if g.data.len() != w.data.len() {
            return Some(format!("{} has {} entries instead of {}", w.name, g.data.len(), w.data.len()));
        }
        for (i, (a, b)) in g.data.iter().zip(&w.data).enumerate() {
            if !close(*a, *b, w.scale, w.square) {
                return Some(format!("{}[{}] is {:?} instead of {:?}", w.name, i, a, b));
            }
        }
    }
    None
}

/// What the reference says about a call.
pub enum Expect {
    /// one of these (more than one only where the documentation leaves it open)
    Value(Vec<Out>),
    /// has to be refused
    Refuse,
    /// a sample is too close to an edge to judge the result
    Unclear,
}

pub struct Reference {
    pub expect: Expect,
    /// samples that enter the result
    pub samples: usize,
    /// timesteps that are processed
    pub steps: usize,
}

// ---------------------------------------------------------------- parameters

pub struct Params {
    pub mode: &'static str,
    pub min_vel: f64,
    pub max_vel: f64,
    pub lag: f64,
    pub bins: usize,
    pub types: (usize, usize),
    pub threshold: usize,
    pub axis: usize,
    pub bounds: (f64, f64),
    pub range: (usize, usize),
    pub row: usize,
    pub lags: (f64, f64, usize),
    pub at: f64,
}

const VMODES: [&str; 9] = ["absolute", "x", "y", "z", "r", "theta", "xy", "xz", "yz"];
const GMODES: [&str; 4] = ["x", "y", "z", "xyz"];

/// where a grid says its cells are
fn axes(g: &dyn GridFunctions3D) -> Vec<f64> {
    let mut v: Vec<f64> = g.get_xpositions().iter().copied().collect();
    v.extend(g.get_ypositions());
    v.extend(g.get_zpositions());
    v.extend(g.get_limits().iter().flatten());
    v.extend(g.get_cells().iter().map(|n| *n as f64));
    v
}

impl Call {
    pub fn params(&self, ds: &Ds) -> Params {
        let s = self.seed;
        let n = ds.stats.nsteps;
        let times = &ds.stats.times;
        let span = times[n - 1] - times[0];
        let mode = match self.kind {
            Kind::Granular => GMODES[pick(s, 1, 4) as usize],
            _ => VMODES[pick(s, 1, 9) as usize],
        };
        let (mut min_vel, mut max_vel) = (f64::MIN, f64::MAX);
        let comp = match mode {
            "x" | "r" => Some(0),
            "y" | "theta" => Some(1),
            "z" => Some(2),
            _ => None,
        };
        // a limit that a sample has exactly
        let exact = |k: u64| -> Option<f64> {
            let st = &ds.steps[pick(s, 20 + k, n as u64) as usize];
            let row = st.rows.get(pick(s, 30 + k, st.rows.len().max(1) as u64) as usize)?;
            let v = row.vel[comp?];
            (!v.is_nan()).then_some(v)
        };
        let u = length();
        match pick(s, 2, 4) {
            0 => min_vel = exact(0).unwrap_or((unit(s, 3) * 4.0 - 2.0) * u),
            1 => max_vel = exact(1).unwrap_or(unit(s, 4) * 6.0 * u),
            2 => {
                min_vel = (unit(s, 3) * 2.0 - 1.0) * u;
                max_vel = min_vel + unit(s, 4) * 5.0 * u;
            }
            _ => {}
        }
        if self.kind == Kind::Occupancy || self.kind == Kind::Homogeneity {
            min_vel = if pick(s, 2, 3) == 0 { unit(s, 3) * 4.0 * u } else { 0.0 };
        }
        let lag = match pick(s, 5, 6) {
            0 => 0.0,
            1 => times[pick(s, 6, n as u64) as usize] - times[0],
            2 if n > 1 => (times[1] - times[0]) * (1 + pick(s, 7, 4)) as f64,
            3 if n > 1 => (times[1] - times[0]) * (pick(s, 7, 4) as f64 + 0.5),
            4 => span * (1.2 + unit(s, 7)),
            _ => span * unit(s, 7),
        };
        let types = (pick(s, 8, 4) as usize, 0);
        let types = (types.0, (types.0 + 1 + pick(s, 9, 3) as usize) % 4);
        let large = ds.any(|x| x.ptype == TYPE);
        let of = |t: usize| if large && t == 3 { TYPE as usize } else { t };
        let types = (of(types.0), of(types.1));
        let threshold = [0, 1, 1, 2, 3][pick(s, 10, 5) as usize];
        let axis = if self.usual { 0 } else { pick(s, 11, 3) as usize };
        let (lo, hi) = (ds.stats.dims[0][axis], ds.stats.dims[1][axis]);
        let b = |k: u64| lo + (hi - lo) * unit(s, 12 + k);
        let mut bounds = (b(0).min(b(1)), b(0).max(b(1)));
        if pick(s, 14, 12) == 0 {
            bounds.0 = lo;
        }
        if pick(s, 15, 12) == 0 {
            bounds.1 = hi;
        }
        // where a sample lies exactly
        let lies = |k: u64| -> Option<f64> {
            let st = &ds.steps[pick(s, 140 + k, n as u64) as usize];
            let x = st.rows.get(pick(s, 142 + k, st.rows.len().max(1) as u64) as usize)?.pos[axis];
            (x > lo && x < hi).then_some(x)
        };
        match pick(s, 146, 8) {
            0 => bounds.0 = lies(0).filter(|x| *x <= bounds.1).unwrap_or(bounds.0),
            1 => bounds.1 = lies(1).filter(|x| *x >= bounds.0).unwrap_or(bounds.1),
            _ => {}
        }
        let r0 = pick(s, 16, n as u64) as usize;
        let mut r1 = r0 + pick(s, 17, (n - r0) as u64 + 1) as usize;
        if pick(s, 18, 3) == 0 {
            r1 = n;
        }
        let mut range = (r0, r1);
        if self.invalid {
            match self.kind {
                Kind::Extract => {
                    range = if pick(s, 19, 2) == 0 { (r0, n + 1 + pick(s, 40, 5) as usize) } else { (n, n) }
                }
                Kind::Circulation => {
                    bounds.0 = if pick(s, 19, 2) == 0 { lo - (0.5 + unit(s, 40)) * u } else { hi + (0.5 + unit(s, 40)) * u }
                }
                Kind::Circulation2 => match pick(s, 19, 4) {
                    0 => bounds.0 = lo - 0.5 * u,
                    1 => bounds.1 = hi + 0.5 * u,
                    2 => bounds.0 = hi + 0.25 * u,
                    _ => bounds.1 = lo - 0.25 * u,
                },
                _ => {}
            }
        }
        let rows = (range.0..range.1.min(n)).map(|t| ds.steps[t].rows.len()).min().unwrap_or(1);
        let row = pick(s, 41, rows.max(1) as u64) as usize;
        let steps = pick(s, 42, 4) as usize + 1;
        let at = match pick(s, 43, 6) {
            0 => times[pick(s, 44, n as u64) as usize],
            1 if n > 1 => {
                let i = pick(s, 44, n as u64 - 1) as usize;
                (times[i] + times[i + 1]) / 2.0
            }
            2 => times[0] - unit(s, 44) - 1e-3,
            3 => times[n - 1] + unit(s, 44) + 1e-3,
            _ => times[0] + span * unit(s, 44),
        };
        let mut bins = 1 + pick(s, 45, 9) as usize;
        let (mut mode, mut types, mut threshold) = (mode, types, threshold);
        if self.usual {
            mode = if self.kind == Kind::Granular { "xyz" } else { "absolute" };
            (min_vel, max_vel) = if self.kind == Kind::VelocityField { (-1e6, 1e6) } else { (0.0, f64::MAX) };
            types = if self.kind == Kind::Lacey { (0, 1) } else { (1, 2) };
            threshold = 10;
            bins = 100;
        }
        Params {
            mode,
            min_vel,
            max_vel,
            lag,
            bins,
            types,
            threshold,
            axis,
            bounds,
            range,
            row,
            lags: (0.0, span * (0.3 + unit(s, 46)), steps),
            at,
        }
    }

    /// a grid as a caller may pass it: empty or with old content
    fn grid(&self) -> Box<dyn GridFunctions3D> {
        let mut g = self.grid.build();
        if self.prefill {
            let c = self.grid.cells;
            let old = |salt: u64| {
                ndarray::Array3::from_shape_fn(c, |(i, j, k)| {
                    1.0 + 5.0 * unit(self.seed, 1000 + salt * 500 + (i * 36 + j * 6 + k) as u64)
                })
            };
            g.set_data(old(0));
            g.set_weights(old(1));
        }
        g
    }

    pub fn limit(&self, p: &Params) -> f64 {
        if self.usual || pick(self.seed, 47, 2) == 0 {
            0.0
        } else {
            (1.0 + 5.0 * p.at.fract().abs() + unit(self.seed, 48) * 4.0) * length()
        }
    }

    /// Run the real analysis.
    pub fn run(&self, m: &mut dyn Manager, ds: &Ds) -> Out {
        let p = self.params(ds);
        let sel = self.sel.build();
        // from here on it is the system that takes memory
        crate::mem::mark();
        let cells = |g: &dyn GridFunctions3D| -> Out {
            let mut o = Out::default()
                .add("cells", g.get_data().iter().copied().collect())
                .add("weights", g.get_weights().iter().copied().collect())
                .add("axes", axes(g));
            if self.views {
                o.parts.extend(self.look(g).parts);
            }
            if self.clean {
                o.parts.extend(self.clean(g).parts);
            }
            o
        };
        match self.kind {
            Kind::VelocityField => cells(&*m.velocityfield(self.grid(), &sel, p.mode, p.min_vel, p.max_vel)),
            Kind::VectorField => {
                let v = m.vectorfield(self.grid(), &sel);
                let mut o = Out::default();
                for (i, n) in ["component 0", "component 1", "component 2"].into_iter().enumerate() {
                    o = o.add(n, v.data[i].get_data().iter().copied().collect());
                }
                for (i, n) in ["weights 0", "weights 1", "weights 2"].into_iter().enumerate() {
                    o = o.add(n, v.data[i].get_weights().iter().copied().collect());
                }
                for (i, n) in ["axes", "axes 1", "axes 2"].into_iter().enumerate() {
                    o = o.add(n, axes(&*v.data[i]));
                }
                if self.views {
                    o.parts.extend(self.look(&*v.data[self.component()]).parts);
                }
                if self.clean {
                    let of = &v.data[self.component()];
                    let (threshold, mode) = self.outliers(&**of);
                    let mut copy = v.clone();
                    copy.outlier_removal(threshold, mode);
                    o.parts.extend(self.removed(threshold, mode, &*copy.data[self.component()]).parts);
                }
                o
            }
            Kind::NumberField => cells(&*m.numberfield(self.grid(), &sel)),
            Kind::Occupancy => cells(&*m.occupancyfield(self.grid(), &sel, p.min_vel)),
            Kind::Homogeneity => {
                Out::default().add("index", vec![m.homogenity_index(self.grid(), &sel, p.min_vel)])
            }
            Kind::MeanVelocity => Out::default().add("mean", vec![m.mean_velocity_showcase(&sel)]),
            Kind::Dispersion => {
                let (g, d) = m.dispersion(self.grid(), &sel, p.lag);
                cells(&*g).add("dispersion", vec![d])
            }
            Kind::Granular => cells(&*m.granular_temperature_field(self.grid(), &sel, p.mode)),
            Kind::Histogram => {
                let (hist, edges) = m.histogram(self.grid(), &sel, "velocity", self.limit(&p), p.bins);
                Out::default().add("counts", hist.to_vec()).add("edges", edges.to_vec())
            }
            Kind::Lacey => {
                let (t, x) = m.lacey_mixing(self.grid(), &sel, p.types.0, p.types.1, p.threshold);
                Out::default().add("time", t.to_vec()).add("index", x.to_vec())
            }
            Kind::Concentration => cells(&*m.concentration_field(self.grid(), &sel, p.types.0, p.types.1)),
            Kind::MsdField => cells(&*m.msd_field(self.grid(), &sel, p.lag)),
            Kind::Msd => {
                let (x, t) = m.msd(self.grid(), &sel, p.lags.0, p.lags.1, p.lags.2);
                Out::default().add("msd", x.to_vec()).add("lag", t.to_vec())
            }
            Kind::Circulation => {
                Out::default().add("times", m.circulation_time(&sel, p.axis, p.bounds.0))
            }
            Kind::Circulation2 => {
                let v = m.circulation_time_two_boundary(&sel, p.axis, p.bounds);
                Out::default().add("times", v.into_iter().flat_map(|x| [x.0, x.1]).collect())
            }
            Kind::Extract => {
                let a = m.extract(p.row, p.range);
                Out::default()
                    .add("shape", vec![a.shape()[0] as f64, a.shape()[1] as f64])
                    .add("rows", a.iter().copied().collect())
            }
            Kind::Lookup => {
                let r = m.global_stats().timestep_at_seconds_closest(p.at);
                Out::default().add("timestep", vec![r.map(|x| x as f64).unwrap_or(-1.0)])
            }
        }
    }

    /// Positions along an axis (in the coordinates of the grid) at which a layer is taken, and the layers.
    pub fn layers(&self, axis: usize) -> Vec<(f64, usize)> {
        let (lo, hi, n) = self.grid.along(axis);
        let mut v = vec![(lo, 0), (hi, n - 1)];
        for k in 0..3 {
            let i = pick(self.seed, 81 + 3 * axis as u64 + k, n as u64) as usize;
            let (a, b) = self.grid.edges(axis, i);
            // anywhere in the layer but at its very ends
            v.push((a + (b - a) * (0.001 + 0.998 * unit(self.seed, 91 + 3 * axis as u64 + k)), i));
        }
        v
    }

    /// Places inside and outside of the grid.
    pub fn places(&self) -> Vec<[f64; 3]> {
        (0..8u64)
            .map(|k| {
                let x = |a: usize| {
                    let [lo, hi] = self.grid.lim[a];
                    lo + (hi - lo) * (1.2 * unit(self.seed, 110 + 3 * k + a as u64) - 0.1)
                };
                [x(0), x(1), x(2)]
            })
            .collect()
    }

    /// What the field shows of itself: layers, averages over one and two axes, single values.
    fn look(&self, g: &dyn GridFunctions3D) -> Out {
        let mut v: [Vec<f64>; 7] = Default::default();
        for a in 0..3 {
            v[0].extend(g.collapse(a));
            v[1].extend(g.collapse_weight(a));
            for b in (0..3).filter(|b| *b != a) {
                v[2].extend(g.collapse_two(a, b));
                v[3].extend(g.collapse_two_weight(a, b));
            }
            for i in 0..self.grid.cells[a] {
                v[4].extend(g.slice_idx(a, i));
            }
            for (x, _) in self.layers(a) {
                v[5].extend(g.slice(a, x));
            }
        }
        for p in self.places() {
            v[6].push(g.get_value(p));
            v[6].push(g.is_inside(p) as u8 as f64);
        }
        VIEWS.iter().zip(v).fold(Out::default(), |o, (n, v)| o.add(n, v))
    }

    /// the component of a vector field that is looked at
    pub fn component(&self) -> usize {
        pick(self.seed, 80, 3) as usize
    }

    /// Where outliers of a field begin and what becomes of them.
    fn outliers(&self, g: &dyn GridFunctions3D) -> (f64, usize) {
        let mut sorted: Vec<f64> = g.get_data().iter().copied().filter(|x| x.is_finite()).collect();
        sorted.sort_by(f64::total_cmp);
        // mostly a few outliers; exactly the value of a cell, between two cells or beyond all of them
        let n = sorted.len().max(1) as f64;
        let at = ((1.0 - unit(self.seed, 130).powi(2)) * n) as usize;
        let x = sorted.get(at.min(sorted.len().max(1) - 1)).copied().unwrap_or(0.0);
        let threshold = match pick(self.seed, 131, 3) {
            0 => x,
            1 => x * 0.9 - 0.01,
            _ => x + 0.1,
        };
        (threshold, pick(self.seed, 132, 3) as usize)
    }

    /// Remove outliers from a copy of the field.
    fn clean(&self, g: &dyn GridFunctions3D) -> Out {
        let (threshold, mode) = self.outliers(g);
        let mut copy = g.new_zeros();
        copy.set_data(g.get_data().clone());
        copy.set_weights(g.get_weights().clone());
        if !self.dense {
            copy.outlier_removal(threshold, mode);
            return self.removed(threshold, mode, &*copy);
        }
        // the same cells, all of them with values, one or two far above the others
        let n = copy.get_data().len();
        let (mut v, mut w) = (copy.get_data().clone(), copy.get_weights().clone());
        for (i, x) in v.iter_mut().enumerate() {
            *x = 1.0 + unit(self.seed, 1000 + i as u64);
        }
        for (i, x) in w.iter_mut().enumerate() {
            *x = pick(self.seed, 100_000 + i as u64, 6) as f64;
        }
        let out: Vec<u64> = (0..1 + pick(self.seed, 134, 2)).map(|k| pick(self.seed, 135 + k, n as u64)).collect();
        for (i, x) in v.iter_mut().enumerate() {
            if out.contains(&(i as u64)) {
                *x = 10.0;
            }
        }
        let all = |a: &ndarray::Array3<f64>| a.iter().copied().collect::<Vec<f64>>();
        let parts = Out::default().add("dense cells", all(&v)).add("dense weights", all(&w));
        copy.set_data(v);
        copy.set_weights(w);
        copy.outlier_removal(5.0, mode);
        let mut o = self.removed(5.0, mode, &*copy);
        o.parts.extend(parts.parts);
        o
    }

    fn removed(&self, threshold: f64, mode: usize, g: &dyn GridFunctions3D) -> Out {
        Out::default()
            .add("removal", vec![threshold, mode as f64])
            .add("cleaned", g.get_data().iter().copied().collect())
            .add("cleaned weights", g.get_weights().iter().copied().collect())
    }

    /// What removal has to leave of cells and weights; None for a cell whose value is left open.
    pub fn cleaned(
        &self,
        cells: &[f64],
        weights: &[f64],
        threshold: f64,
        mode: usize,
    ) -> Vec<Option<(f64, f64)>> {
        let n = self.grid.cells;
        let mut v = vec![];
        for i in 0..cells.len() {
            let (x, w) = (cells[i], weights[i]);
            // a cell without a value is no outlier
            if x.is_nan() || x <= threshold {
                v.push(Some((x, w)));
                continue;
            }
            if mode < 2 {
                v.push(Some((if mode == 0 { 0.0 } else { threshold }, w)));
                continue;
            }
            let c = [i / (n[1] * n[2]), i / n[2] % n[1], i % n[2]];
            let (mut around, mut outliers) = (vec![], 0);
            for d in 0..27 {
                let at: Vec<i64> =
                    (0..3).map(|a| c[a] as i64 + [d / 9, d / 3 % 3, d % 3][a] - 1).collect();
                if d != 13 && (0..3).all(|a| at[a] >= 0 && at[a] < n[a] as i64) {
                    let f = self.grid.flat([at[0] as usize, at[1] as usize, at[2] as usize]);
                    if cells[f].is_nan() || cells[f] <= threshold {
                        around.push((cells[f], weights[f]));
                    } else {
                        outliers += 1;
                    }
                }
            }
            // not documented: whether a ring is closed or outliers around count, and what an empty neighbour is
            let open = around.is_empty()
                || around.iter().any(|x| x.0.is_nan())
                || (self.grid.cyl && (outliers > 0 || c[1] == 0 || c[1] + 1 == n[1]));
            let m = around.len() as f64;
            v.push((!open).then(|| {
                (around.iter().map(|x| x.0).sum::<f64>() / m, around.iter().map(|x| x.1).sum::<f64>() / m)
            }));
        }
        v
    }

    /// What it has to show, given its cells and their weights; None: a place is too close to an edge.
    fn views_of(&self, cells: &[f64], weights: &[f64]) -> Option<[Vec<f64>; 7]> {
        let n = self.grid.cells;
        let all = || (0..n[0]).flat_map(move |i| (0..n[1]).flat_map(move |j| (0..n[2]).map(move |k| [i, j, k])));
        // all cells with the same indices along the axes that are kept
        let average = |kept: &[usize]| -> (Vec<f64>, Vec<f64>) {
            let len: usize = kept.iter().map(|a| n[*a]).product();
            let (mut sum, mut w) = (vec![0.0; len], vec![0.0; len]);
            for c in all() {
                let at = kept.iter().fold(0, |x, a| x * n[*a] + c[*a]);
                let f = self.grid.flat(c);
                if !cells[f].is_nan() {
                    sum[at] += cells[f] * weights[f];
                }
                w[at] += weights[f];
            }
            (sum.iter().zip(&w).map(|(s, w)| s / w).collect(), w)
        };
        let mut v: [Vec<f64>; 7] = Default::default();
        for a in 0..3 {
            let kept: Vec<usize> = (0..3).filter(|x| *x != a).collect();
            let (x, w) = average(&kept);
            v[0].extend(x);
            v[1].extend(w);
            for b in (0..3).filter(|b| *b != a) {
                let (x, w) = average(&[3 - a - b]);
                v[2].extend(x);
                v[3].extend(w);
            }
            let layer = |i: usize| all().filter(move |c| c[a] == i).map(|c| cells[self.grid.flat(c)]);
            for i in 0..n[a] {
                v[4].extend(layer(i));
            }
            for (_, i) in self.layers(a) {
                v[5].extend(layer(i));
            }
        }
        for p in self.places() {
            let (x, inside) = match self.grid.locate(&p) {
                Where::Outside => (NAN, 0.0),
                Where::In(c) => (cells[self.grid.flat(c)], 1.0),
                Where::Unclear => return None,
            };
            v[6].extend([x, inside]);
        }
        Some(v)
    }

    /// Add to a result what its layers, averages and single values have to be.
    fn with_views(&self, want: &mut Out) -> Option<()> {
        let c = pick(self.seed, 80, 3) as usize;
        let (cells, weights) = match self.kind {
            Kind::VectorField => {
                (["component 0", "component 1", "component 2"][c], ["weights 0", "weights 1", "weights 2"][c])
            }
            _ => ("cells", "weights"),
        };
        let part = |n: &str| want.parts.iter().find(|p| p.name == n).cloned();
        let (Some(x), Some(w)) = (part(cells), part(weights)) else { return Some(()) };
        for (n, v) in VIEWS.iter().zip(self.views_of(&x.data, &w.data)?) {
            want.parts.push(Part { name: n, data: v, scale: x.scale, square: x.square });
        }
        Some(())
    }

    /// What the result has to be.
    pub fn reference(&self, ds: &Ds) -> Reference {
        let mut c = Ref { call: self, ds, p: self.params(ds), unclear: false, samples: 0, steps: 0 };
        let expect = if self.invalid && matches!(self.kind, Kind::Extract | Kind::Circulation | Kind::Circulation2) {
            Expect::Refuse
        } else {
            let mut v = c.compute();
            if self.views && v.iter_mut().any(|o| self.with_views(o).is_none()) {
                c.unclear = true;
            }
            if c.unclear { Expect::Unclear } else { Expect::Value(v) }
        };
        Reference { expect, samples: c.samples, steps: c.steps }
    }
}

/// Nearest timestep to a time within the range of the dataset; Err: ambiguous.
pub fn nearest(times: &[f64], at: f64) -> Result<Option<usize>, ()> {
    let (first, last) = (times[0], times[times.len() - 1]);
    let eps = 1e-9 * (1.0 + at.abs());
    if at < first || at > last {
        if (at < first && first - at < eps) || (at > last && at - last < eps) {
            return Err(());
        }
        return Ok(None);
    }
    if (at != first && at - first < eps) || (at != last && last - at < eps) {
        return Err(());
    }
    let mut best = 0;
    for (i, t) in times.iter().enumerate() {
        let (d, b) = ((t - at).abs(), (times[best] - at).abs());
        if d < b {
            best = i;
        }
    }
    for (i, t) in times.iter().enumerate() {
        let (d, b) = ((t - at).abs(), (times[best] - at).abs());
        if i != best && d != b && (d - b).abs() < eps {
            return Err(());
        }
    }
    Ok(Some(best))
}

struct Ref<'a> {
    call: &'a Call,
    ds: &'a Ds,
    p: Params,
    unclear: bool,
    samples: usize,
    steps: usize,
}

const NAN: f64 = f64::NAN;

/// names of the parts that [`Call::look`] adds
pub const VIEWS: [&str; 7] = [
    "depth average",
    "depth average weights",
    "line average",
    "line average weights",
    "layer",
    "layer at a position",
    "value at a position",
];

fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}

impl Ref<'_> {
    /// selected timesteps
    fn times(&self) -> Vec<usize> {
        (0..self.ds.steps.len()).filter(|k| self.call.sel.admits_time(self.ds.steps[*k].time)).collect()
    }
    fn rows(&self, k: usize) -> Vec<Row> {
        self.ds.steps[k].rows.iter().filter(|r| self.call.sel.admits(r)).cloned().collect()
    }
    fn cell(&mut self, pos: &[f64; 3]) -> Option<usize> {
        match self.call.grid.locate(pos) {
            Where::Outside => None,
            Where::In(c) => Some(self.call.grid.flat(c)),
            Where::Unclear => {
                self.unclear = true;
                None
            }
        }
    }
    fn partner(&self, k: usize, id: f64) -> Option<Row> {
        self.ds.steps[k].rows.iter().find(|r| r.id == id).cloned()
    }
    fn later(&mut self, k: usize, lag: f64) -> Option<usize> {
        match nearest(&self.ds.stats.times, self.ds.steps[k].time + lag) {
            Ok(x) => x,
            Err(()) => {
                self.unclear = true;
                None
            }
        }
    }
    fn ncells(&self) -> usize {
        self.call.grid.ncells()
    }

    fn compute(&mut self) -> Vec<Out> {
        let n = self.ncells();
        let o = Out::default();
        match self.call.kind {
            Kind::VelocityField => {
                let mut cells = vec![vec![]; n];
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        let v = r.vel;
                        let x = match self.p.mode {
                            "absolute" => speed(&v),
                            "x" | "r" => v[0],
                            "y" | "theta" => v[1],
                            "z" => v[2],
                            "xy" => (v[0] * v[0] + v[1] * v[1]).sqrt(),
                            "xz" => (v[0] * v[0] + v[2] * v[2]).sqrt(),
                            _ => (v[1] * v[1] + v[2] * v[2]).sqrt(),
                        };
                        if x.is_nan() || x < self.p.min_vel || x > self.p.max_vel {
                            continue;
                        }
                        if let Some(c) = self.cell(&r.pos) {
                            self.samples += 1;
                            cells[c].push(x);
                        }
                    }
                }
                vec![o
                    .scaled("cells", cells.iter().map(|c| mean(c)).collect(), 4.0, false)
                    .add("weights", cells.iter().map(|c| c.len() as f64).collect())]
            }
            Kind::VectorField => {
                let mut cells = vec![vec![]; n];
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        if r.vel.iter().any(|x| x.is_nan()) {
                            continue;
                        }
                        if let Some(c) = self.cell(&r.pos) {
                            self.samples += 1;
                            let v = if self.call.grid.cyl {
                                let m = self.call.grid.center();
                                let (x, y) = (r.pos[0] - m[0], r.pos[1] - m[1]);
                                let rad = (x * x + y * y).sqrt();
                                [
                                    (x * r.vel[0] + y * r.vel[1]) / rad,
                                    (x * r.vel[1] - y * r.vel[0]) / (rad * rad),
                                    r.vel[2],
                                ]
                            } else {
                                r.vel
                            };
                            cells[c].push(v);
                        }
                    }
                }
                let w: Vec<f64> = cells.iter().map(|c| c.len() as f64).collect();
                let comp = |a: usize| -> Vec<f64> {
                    cells.iter().map(|c| mean(&c.iter().map(|v| v[a]).collect::<Vec<_>>())).collect()
                };
                // an angular velocity close to the axis may be large
                let scale = |a: usize| -> f64 {
                    cells.iter().flatten().map(|v| v[a].abs()).fold(1.0, f64::max)
                };
                let mut o = o;
                for (i, nm) in ["component 0", "component 1", "component 2"].into_iter().enumerate() {
                    o = o.scaled(nm, comp(i), scale(i), false);
                }
                for nm in ["weights 0", "weights 1", "weights 2"] {
                    o = o.add(nm, w.clone());
                }
                vec![o]
            }
            Kind::NumberField => {
                let mut cells = vec![0.0; n];
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        if let Some(c) = self.cell(&r.pos) {
                            self.samples += 1;
                            cells[c] += 1.0;
                        }
                    }
                }
                vec![o.add("cells", cells.clone()).add("weights", cells)]
            }
            Kind::Occupancy | Kind::Homogeneity => {
                let mut time = vec![0.0; n];
                let mut weight = vec![0.0; n];
                // a step to an unknown position: observed or not is left open
                let (mut total, mut open) = (0.0, 0.0);
                let last = self.ds.steps.len() - 1;
                for k in self.times() {
                    if k == last {
                        continue;
                    }
                    self.steps += 1;
                    let dt = self.ds.steps[k + 1].time - self.ds.steps[k].time;
                    for r in self.rows(k) {
                        let Some(c) = self.cell(&r.pos) else { continue };
                        if speed(&r.vel) < self.p.min_vel {
                            continue;
                        }
                        if (speed(&r.vel) - self.p.min_vel).abs() < 1e-9 {
                            self.unclear = true;
                        }
                        let Some(next) = self.partner(k + 1, r.id) else { continue };
                        self.samples += 1;
                        if next.pos.iter().any(|x| x.is_nan()) {
                            open += dt;
                        } else {
                            total += dt;
                        }
                        if self.call.grid.cyl {
                            time[c] += dt;
                            weight[c] += 1.0;
                        } else if let Some(c2) = self.cell(&next.pos) {
                            time[c] += 0.5 * dt;
                            time[c2] += 0.5 * dt;
                            weight[c] += 0.5;
                            weight[c2] += 0.5;
                        }
                    }
                }
                [total + open, total]
                    .iter()
                    .map(|t| {
                        let share: Vec<f64> = time.iter().map(|x| x / t).collect();
                        if self.call.kind == Kind::Occupancy {
                            return Out::default().add("cells", share).add("weights", weight.clone());
                        }
                        let nz = self.call.grid.cells[2];
                        let mut line = vec![];
                        for z in 0..nz {
                            let (mut a, mut w) = (0.0, 0.0);
                            for i in (z..n).step_by(nz) {
                                if weight[i] > 0.0 {
                                    a += share[i] * weight[i];
                                    w += weight[i];
                                }
                            }
                            line.push(a / w);
                        }
                        let m = line.iter().filter(|x| !x.is_nan()).sum::<f64>() / nz as f64;
                        let var = line.iter().filter(|x| !x.is_nan()).map(|x| (x - m) * (x - m)).sum::<f64>()
                            / nz as f64;
                        Out::default().scaled("index", vec![var.sqrt()], 1e-3, true)
                    })
                    .collect()
            }
            Kind::MeanVelocity => {
                let mut v = vec![];
                for k in self.times() {
                    self.steps += 1;
                    v.extend(self.rows(k).iter().map(|r| speed(&r.vel)).filter(|x| !x.is_nan()));
                }
                self.samples = v.len();
                vec![o.add("mean", vec![mean(&v)])]
            }
            Kind::Dispersion => {
                let mut cells: Vec<Vec<[f64; 3]>> = vec![vec![]; n];
                for k in self.times() {
                    let Some(f) = self.later(k, self.p.lag) else { continue };
                    self.steps += 1;
                    for r in self.rows(k) {
                        let Some(c) = self.cell(&r.pos) else { continue };
                        let Some(q) = self.partner(f, r.id) else { continue };
                        if q.pos.iter().any(|x| x.is_nan()) {
                            continue;
                        }
                        self.samples += 1;
                        cells[c].push(q.pos);
                    }
                }
                let mut d = vec![0.0; n];
                let mut w = vec![0.0; n];
                for (i, c) in cells.iter().enumerate() {
                    let m = c.len() as f64;
                    if c.len() < 2 {
                        continue;
                    }
                    for a in 0..3 {
                        let mu = c.iter().map(|x| x[a]).sum::<f64>() / m;
                        d[i] += c.iter().map(|x| (x[a] - mu) * (x[a] - mu)).sum::<f64>() / (m - 1.0);
                    }
                    w[i] = 1.0;
                }
                let filled: f64 = w.iter().sum();
                let scalar = d.iter().sum::<f64>() / filled;
                vec![o
                    .scaled("cells", d, 40.0, false)
                    .add("weights", w)
                    .scaled("dispersion", vec![scalar], 40.0, false)]
            }
            Kind::Granular => {
                let mut cells: Vec<Vec<[f64; 3]>> = vec![vec![]; n];
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        if r.vel.iter().any(|x| x.is_nan()) {
                            continue;
                        }
                        if let Some(c) = self.cell(&r.pos) {
                            self.samples += 1;
                            cells[c].push(r.vel);
                        }
                    }
                }
                let axes: &[usize] = match self.p.mode {
                    "x" => &[0],
                    "y" => &[1],
                    "z" => &[2],
                    _ => &[0, 1, 2],
                };
                let t = cells
                    .iter()
                    .map(|c| {
                        let m = c.len() as f64;
                        let var: f64 = axes
                            .iter()
                            .map(|a| {
                                let mu = c.iter().map(|x| x[*a]).sum::<f64>() / m;
                                c.iter().map(|x| (x[*a] - mu) * (x[*a] - mu)).sum::<f64>() / m
                            })
                            .sum::<f64>()
                            / axes.len() as f64;
                        if c.is_empty() { NAN } else { var.sqrt() }
                    })
                    .collect();
                vec![o
                    .scaled("cells", t, 4.0, true)
                    .add("weights", cells.iter().map(|c| c.len() as f64).collect())]
            }
            Kind::Histogram => {
                let bins = self.p.bins;
                let lo = self.ds.stats.velmag[0];
                let lim = self.call.limit(&self.p);
                let hi = if lim == 0.0 { self.ds.stats.velmag[2] } else { lim };
                let edges: Vec<f64> =
                    (0..=bins).map(|i| if i == bins { hi } else { lo + (hi - lo) * i as f64 / bins as f64 }).collect();
                if hi <= lo {
                    self.unclear = true; // degenerate edges
                }
                let mut counts = vec![0.0; bins];
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        if self.cell(&r.pos).is_none() {
                            continue;
                        }
                        let v = speed(&r.vel);
                        if v.is_nan() {
                            continue;
                        }
                        let near = |e: f64| (v - e).abs() < 1e-9 * (1.0 + e.abs());
                        // the slowest and the fastest one are exactly on the edges
                        let exact = v == lo || v == hi;
                        if !exact && edges.iter().any(|e| near(*e)) {
                            self.unclear = true;
                        }
                        if v < lo || v > hi {
                            continue;
                        }
                        let b = if v == hi { bins - 1 } else { (1..bins).filter(|i| v >= edges[*i]).count() };
                        counts[b] += 1.0;
                        self.samples += 1;
                    }
                }
                vec![o.add("counts", counts).add("edges", edges)]
            }
            Kind::Lacey => {
                let (a, b) = self.p.types;
                let t = self.ds.steps.len();
                let (mut time, mut index) = (vec![0.0; t], vec![0.0; t]);
                for k in self.times() {
                    self.steps += 1;
                    let (mut na, mut nb) = (vec![0.0; n], vec![0.0; n]);
                    let (mut all_a, mut all_b) = (0.0, 0.0);
                    for r in self.rows(k) {
                        let ty = r.ptype as usize;
                        if ty == a {
                            all_a += 1.0;
                        } else if ty == b {
                            all_b += 1.0;
                        }
                        let Some(c) = self.cell(&r.pos) else { continue };
                        if ty == a {
                            na[c] += 1.0;
                            self.samples += 1;
                        } else if ty == b {
                            nb[c] += 1.0;
                            self.samples += 1;
                        }
                    }
                    let m: f64 = all_a / (all_a + all_b);
                    let mut s2 = 0.0;
                    for c in 0..n {
                        let w = na[c] + nb[c];
                        if w == 0.0 || w < self.p.threshold as f64 {
                            continue;
                        }
                        let x: f64 = na[c] / w - m;
                        s2 += x * x;
                    }
                    s2 /= n as f64 - 1.0;
                    let smax = m * (1.0 - m);
                    let smin = smax / n as f64;
                    time[k] = self.ds.steps[k].time;
                    index[k] = (smax - s2) / (smax - smin);
                }
                if n == 1 {
                    // no variance between cells: the index is not defined
                    return vec![o.add("time", time)];
                }
                vec![o.add("time", time).add("index", index)]
            }
            Kind::Concentration => {
                let (a, b) = self.p.types;
                let (mut na, mut nb) = (vec![0.0; n], vec![0.0; n]);
                for k in self.times() {
                    self.steps += 1;
                    for r in self.rows(k) {
                        let Some(c) = self.cell(&r.pos) else { continue };
                        let ty = r.ptype as usize;
                        if ty == a {
                            na[c] += 1.0;
                            self.samples += 1;
                        } else if ty == b {
                            nb[c] += 1.0;
                            self.samples += 1;
                        }
                    }
                }
                vec![o
                    .add("cells", na.iter().zip(&nb).map(|(x, y)| x / (x + y)).collect())
                    .add("weights", na.iter().zip(&nb).map(|(x, y)| x + y).collect())]
            }
            Kind::MsdField => {
                let (d, w) = self.msd(self.p.lag);
                vec![o.scaled("cells", d, 10.0, false).add("weights", w)]
            }
            Kind::Msd => {
                let (lo, hi, m) = self.p.lags;
                let lags: Vec<f64> = ndarray::Array1::linspace(lo, hi, m).to_vec();
                let mut out = vec![];
                for lag in &lags {
                    let (d, w) = self.msd(*lag);
                    let total: f64 = w.iter().sum();
                    out.push(d.iter().zip(&w).map(|(x, y)| x * y).sum::<f64>() / total);
                }
                vec![o.scaled("msd", out, 10.0, false).add("lag", lags)]
            }
            Kind::Circulation => {
                let mut done = vec![];
                let mut state = std::collections::BTreeMap::<u64, Vec<f64>>::new();
                for k in self.times() {
                    if k == 0 {
                        continue;
                    }
                    self.steps += 1;
                    for r in self.rows(k) {
                        let Some(old) = self.partner(k - 1, r.id) else { continue };
                        let (x, y) = (old.pos[self.p.axis] - self.p.bounds.0, r.pos[self.p.axis] - self.p.bounds.0);
                        if (x < 0.0 && y > 0.0) || (x > 0.0 && y < 0.0) {
                            self.samples += 1;
                            let crossings = state.entry(r.id as u64).or_default();
                            crossings.push(self.ds.steps[k].time);
                            if crossings.len() == 3 {
                                done.push(crossings[2] - crossings[0]);
                                crossings.clear();
                            }
                        }
                    }
                }
                vec![o.add("times", done)]
            }
            Kind::Circulation2 => vec![self.two_boundaries()],
            Kind::Extract => {
                let (a, b) = self.p.range;
                let mut rows = vec![];
                for k in a..b {
                    let Some(r) = self.ds.steps[k].rows.get(self.p.row) else {
                        self.unclear = true;
                        break;
                    };
                    rows.push(self.ds.steps[k].time);
                    rows.extend(r.pos);
                    rows.extend(r.vel);
                    self.samples += 1;
                    self.steps += 1;
                }
                vec![o.add("shape", vec![(b - a) as f64, 7.0]).add("rows", rows)]
            }
            Kind::Lookup => {
                self.samples = 1;
                match nearest(&self.ds.stats.times, self.p.at) {
                    Ok(x) => vec![o.add("timestep", vec![x.map(|i| i as f64).unwrap_or(-1.0)])],
                    Err(()) => {
                        self.unclear = true;
                        vec![]
                    }
                }
            }
        }
    }

    fn msd(&mut self, lag: f64) -> (Vec<f64>, Vec<f64>) {
        let n = self.ncells();
        let mut cells: Vec<Vec<f64>> = vec![vec![]; n];
        for k in self.times() {
            let Some(f) = self.later(k, lag) else { continue };
            self.steps += 1;
            for r in self.rows(k) {
                let Some(c) = self.cell(&r.pos) else { continue };
                let Some(q) = self.partner(f, r.id) else { continue };
                if q.pos.iter().any(|x| x.is_nan()) {
                    continue;
                }
                self.samples += 1;
                cells[c].push((0..3).map(|a| (q.pos[a] - r.pos[a]) * (q.pos[a] - r.pos[a])).sum());
            }
        }
        (
            cells.iter().map(|c| if c.is_empty() { 0.0 } else { mean(c) }).collect(),
            cells.iter().map(|c| c.len() as f64).collect(),
        )
    }

    /// Regions: below the lower boundary, between, above the upper one. A circulation
    /// starts when a particle leaves an outer region, turns when it enters the other
    /// one and ends when it leaves the first one again (which starts the next).
    fn two_boundaries(&mut self) -> Out {
        #[derive(Default, Clone)]
        struct P {
            home: Option<bool>, // true: the upper region
            turned: bool,
            start: f64,
        }
        let (lo, hi) = self.p.bounds;
        let mut ps = std::collections::BTreeMap::<u64, P>::new();
        let mut out = vec![];
        for k in self.times() {
            if k == 0 {
                continue;
            }
            self.steps += 1;
            let now = self.ds.steps[k].time;
            for r in self.rows(k) {
                let Some(old) = self.partner(k - 1, r.id) else { continue };
                let (x, y) = (old.pos[self.p.axis], r.pos[self.p.axis]);
                let p = ps.entry(r.id as u64).or_default();
                let left_upper = x > hi && y < hi;
                let into_upper = x < hi && y > hi;
                let into_lower = x > lo && y < lo;
                let left_lower = x < lo && y > lo;
                let mut leave = |p: &mut P, upper: bool, out: &mut Vec<f64>| {
                    if p.home.is_none() {
                        p.home = Some(upper);
                        p.start = now;
                    } else if p.home == Some(upper) {
                        if p.turned {
                            out.extend([p.start, now]);
                            p.turned = false;
                        }
                        p.start = now;
                    }
                    self.samples += 1;
                };
                if left_upper {
                    leave(p, true, &mut out);
                    // a jump across both boundaries only counts as leaving
                    continue;
                }
                if into_upper && p.home == Some(false) {
                    p.turned = true;
                }
                if into_lower && p.home == Some(true) {
                    p.turned = true;
                }
                if left_lower {
                    leave(p, false, &mut out);
                }
            }
        }
        Out::default().add("times", out)
    }
}
