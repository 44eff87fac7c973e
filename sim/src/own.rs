//! P39: the user's own analysis.  A loop over the timesteps of a handle puts values into
//! a grid with the methods the library's analyses use; the grid is judged against a plain
//! table after every step, whatever failed in between.

use crate::analysis::{close, Out};
use crate::data::Ds;
use crate::engine::{Done, Fk, Got, StepData};
use crate::rng::{h, Rng};
use crate::scn::{Op, Report};
use crate::spec::{pick, unit, GridSpec, Where};
use ndarray::Array3;
use std::collections::BTreeMap;
use upppp_rust::datamanager::Manager;
use upppp_rust::{GridFunctions3D, VectorGrid};

/// `put|loop|change grid vector slot what t seed`
pub const OPS: [&str; 3] = ["put", "loop", "change"];

fn key(op: &Op) -> (i64, i64) {
    (op.arg(0), op.arg(1) & 1)
}
fn slot(op: &Op) -> usize {
    op.arg(2) as usize & 1
}

/// Two grids of a kind and how far every operation on them came.
pub struct State {
    slots: [Box<dyn GridFunctions3D>; 2],
    progress: BTreeMap<usize, usize>,
}
pub type Grids = BTreeMap<(i64, i64), State>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Add,
    Insert,
    ToCell,
    IfInside,
    Trajectory,
}
fn how(op: &Op) -> How {
    [How::Add, How::Add, How::Insert, How::ToCell, How::IfInside, How::Trajectory][op.arg(3) as usize % 6]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Change {
    Scalar,
    Weight,
    Array,
    Data,
    Weights,
    BadData,
    BadWeights,
    Copy,
    Zeros,
    Look,
}
fn change(op: &Op) -> Change {
    use Change::*;
    [Scalar, Weight, Array, Data, Weights, BadData, BadWeights, Copy, Zeros, Look][op.arg(3) as usize % 10]
}
fn refused(op: &Op) -> bool {
    op.name == "change" && matches!(change(op), Change::BadData | Change::BadWeights)
}

/// what is put for the j-th particle of a timestep
fn value(s: &StepData, j: usize, seed: u64) -> f64 {
    let part = |n: &str| &s.parts.iter().find(|p| p.0 == n).unwrap().1;
    match pick(seed, 900, 5) {
        0 => 1.0,
        1 => part("radius")[j],
        2 => part("velocity")[3 * j + pick(seed, 901, 3) as usize],
        3 => part("position")[3 * j + 2] * 0.3,
        _ => 0.125 * (part("id")[j] + 1.0),
    }
}
fn positions(s: &StepData) -> Vec<[f64; 3]> {
    let p = &s.parts.iter().find(|p| p.0 == "position").unwrap().1;
    p.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()
}
fn scalar(op: &Op) -> f64 {
    [2.0, 0.5, -3.0, 7.25][pick(op.arg(5) as u64, 910, 4) as usize]
}
fn table(op: &Op, n: usize) -> Vec<f64> {
    (0..n as u64).map(|i| (unit(op.arg(5) as u64, 920 + i) * 64.0).floor() / 8.0 + 0.125).collect()
}

/// Where the grid is asked: samples, walls, places around.
fn points(g: &GridSpec, ds: &Ds, seed: i64) -> Vec<[f64; 3]> {
    let mut r = Rng::new(h(&[seed as u64, 930]));
    let rows: Vec<[f64; 3]> = ds.steps.iter().flat_map(|s| s.rows.iter().map(|x| x.pos)).collect();
    (0..12)
        .map(|i| {
            if i < 4 && !rows.is_empty() {
                return *r.pick(&rows);
            }
            std::array::from_fn(|a| {
                let [lo, hi] = g.lim[a];
                match r.below(8) {
                    0 => lo,
                    1 => hi,
                    2 => r.uniform(hi, hi + 1.0),
                    _ => r.uniform(lo, hi),
                }
            })
        })
        .collect()
}

/// the numbers a description of a grid tells, by label
fn told(text: &str, label: &str) -> Vec<f64> {
    let Some(at) = text.find(label) else { return vec![] };
    let rest = &text[at + label.len()..];
    let rest = rest.split('\n').next().unwrap_or("");
    rest.split(|c: char| !(c.is_alphanumeric() || matches!(c, '.' | '-' | '+')))
        .filter_map(|w| w.parse().ok())
        .collect()
}
const SHAPE: [&str; 4] = ["Cells:", "xlim:", "ylim:", "zlim:"];
fn figures(vector: bool) -> &'static [&'static str] {
    if vector {
        &["Dim 1:", "Dim 2:", "Dim 3:"]
    } else {
        &["Mean:", "Min:", "Max:", "Std:"]
    }
}

/// everything a description tells
pub fn told_of(text: &str, vector: bool) -> Vec<f64> {
    SHAPE.iter().chain(figures(vector)).flat_map(|l| told(text, l)).collect()
}

/// component grids: one, or the three of a vector grid
fn components(g: &dyn GridFunctions3D) -> Vec<&dyn GridFunctions3D> {
    match g.as_any().downcast_ref::<VectorGrid>() {
        Some(v) => v.data.iter().map(|x| &**x).collect(),
        None => vec![g],
    }
}

fn dump(st: &State, op: &Op, ds: &Ds) -> Out {
    let spec = GridSpec::generate(op.arg(0) as u64);
    let mut o = Out::default();
    for (i, g) in st.slots.iter().enumerate() {
        let g = &**g;
        let parts = components(g);
        let flat = |f: &dyn Fn(&dyn GridFunctions3D) -> Vec<f64>| parts.iter().flat_map(|p| f(*p)).collect::<Vec<f64>>();
        let pts = points(&spec, ds, op.arg(0));
        let vector = key(op).1 == 1;
        let text = [format!("{}", g), format!("{:?}", g)].iter().flat_map(|t| told_of(t, vector)).collect();
        let n = [
            ["cells", "weights", "values", "inside", "cell of", "told"],
            ["cells of the other", "weights of the other", "values of the other", "inside the other", "cell of the other", "told of the other"],
        ][i];
        let cell = |p: &[f64; 3]| g.cell_id(*p).map(|c| spec.flat(c) as f64).unwrap_or(-1.0);
        o = o
            .scaled(n[0], flat(&|p| p.get_data().iter().copied().collect()), 0.0, false)
            .scaled(n[1], flat(&|p| p.get_weights().iter().copied().collect()), 0.0, false)
            .scaled(n[2], flat(&|p| pts.iter().map(|x| p.get_value(*x)).collect()), 0.0, false)
            .scaled(n[3], pts.iter().map(|p| g.is_inside(*p) as u8 as f64).collect(), 0.0, false)
            .scaled(n[4], pts.iter().map(cell).collect(), 0.0, false)
            .scaled(n[5], text, 0.0, false);
    }
    o.scaled("progress", st.progress.iter().flat_map(|(a, b)| [*a as f64, *b as f64]).collect(), 0.0, false)
}

/// Do one operation; `at`: its place in the session.
pub fn exec(grids: &mut Grids, m: &mut dyn Manager, op: &Op, at: usize, ds: &Ds) -> Got {
    let spec = GridSpec::generate(op.arg(0) as u64);
    let st = grids.entry(key(op)).or_insert_with(|| {
        let make = || -> Box<dyn GridFunctions3D> {
            if key(op).1 == 1 {
                Box::new(VectorGrid::new(spec.build()))
            } else {
                spec.build()
            }
        };
        State { slots: [make(), make()], progress: BTreeMap::new() }
    });
    st.progress.insert(at, 0);
    let nt = ds.stats.nsteps;
    let s = slot(op);
    let seed = op.arg(5) as u64;
    let clear = |p: &[f64; 3]| !matches!(spec.locate(p), Where::Unclear);
    if op.name == "change" {
        let shape = spec.cells;
        // one cell more, or as many in another order
        let turned = [shape[1], shape[2], shape[0]];
        let wrong = if turned != shape && seed % 2 == 0 { turned } else { [shape[0] + 1, shape[1], shape[2]] };
        let arr = |c: [usize; 3]| Array3::from_shape_vec(c, table(op, c.iter().product())).unwrap();
        let vector = key(op).1 == 1;
        match change(op) {
            Change::Scalar => st.slots[s].divide_by_scalar(scalar(op)),
            Change::Weight => st.slots[s].divide_by_weight(),
            Change::Array => st.slots[s].divide_by_array(&arr(shape)),
            // a vector grid has no data of its own
            Change::Data if vector => {}
            Change::Data => st.slots[s].set_data(arr(shape)),
            Change::Weights => st.slots[s].set_weights(arr(shape)),
            Change::BadData => st.slots[s].set_data(arr(wrong)),
            Change::BadWeights => st.slots[s].set_weights(arr(wrong)),
            Change::Copy => st.slots[1 - s] = st.slots[s].clone(),
            Change::Zeros => st.slots[1 - s] = st.slots[s].new_zeros(),
            Change::Look => {}
        }
        st.progress.insert(at, 1);
        return Got::Out(dump(st, op, ds));
    }
    let steps: Vec<usize> = if op.name == "loop" { (0..nt).collect() } else { vec![op.arg(4) as usize % nt] };
    for t in steps {
        let now = StepData::read(m.get_timestep(t));
        let g = &mut st.slots[s];
        let here = positions(&now);
        match how(op) {
            How::Trajectory => {
                if t + 1 >= nt {
                    continue;
                }
                let next = positions(&StepData::read(m.get_timestep(t + 1)));
                for (j, (a, b)) in here.iter().zip(&next).enumerate() {
                    if clear(a) && clear(b) {
                        g.add_trajectory_value(*a, *b, value(&now, j, seed));
                    }
                }
            }
            w => {
                for (j, p) in here.iter().enumerate().filter(|(_, p)| clear(p)) {
                    let v = value(&now, j, seed);
                    match w {
                        How::Add => g.add_value(*p, v),
                        How::Insert => g.insert(*p, v),
                        How::ToCell => {
                            if let Ok(c) = g.cell_id(*p) {
                                g.add_to_cell(c, v);
                            }
                        }
                        _ => {
                            if g.is_inside(*p) {
                                g.add_value(*p, v);
                            }
                        }
                    }
                }
            }
        }
        *st.progress.get_mut(&at).unwrap() += 1;
    }
    Got::Out(dump(st, op, ds))
}

// ---------------------------------------------------------------- generation

pub fn generate(r: &mut Rng, nt: i64, n: i64) -> Vec<Op> {
    let mut ops = vec![];
    let keys: Vec<[i64; 2]> = (0..1 + r.weighted(&[3, 1]))
        .map(|_| [if r.chance(0.05) { 0 } else { 1 + r.below(1 << 30) as i64 }, r.chance(0.3) as i64])
        .collect();
    for _ in 0..r.range(2, n / 2) {
        let k = *r.pick(&keys);
        let slot = r.weighted(&[3, 1]) as i64;
        let seed = r.below(1 << 30) as i64;
        let t = r.range(0, nt - 1);
        match r.below(10) {
            0..=3 => ops.push(Op::new("put", &[k[0], k[1], slot, r.range(0, 5), t, seed])),
            4..=6 => ops.push(Op::new("loop", &[k[0], k[1], slot, r.range(0, 5), 0, seed])),
            _ => ops.push(Op::new("change", &[k[0], k[1], slot, r.range(0, 9), 0, seed])),
        }
    }
    ops
}

// ---------------------------------------------------------------- reference

#[derive(Clone)]
struct Model {
    data: Vec<f64>,
    weight: Vec<f64>,
    /// how large the numbers were that made up a cell
    size: Vec<f64>,
}
impl Model {
    fn new(n: usize) -> Model {
        Model { data: vec![0.0; n], weight: vec![0.0; n], size: vec![0.0; n] }
    }
    fn add(&mut self, c: usize, v: f64, part: f64) {
        self.data[c] += v * part;
        self.weight[c] += part;
        self.size[c] += v.abs();
    }
    fn divide(&mut self, by: &dyn Fn(usize) -> f64) {
        for i in 0..self.data.len() {
            self.data[i] /= by(i);
            self.size[i] /= by(i).abs();
        }
    }
}

/// What both grids hold after the operations before and including `i`.
fn replay(ops: &[Op], i: usize, progress: &BTreeMap<usize, usize>, ds: &Ds) -> [Model; 2] {
    let spec = GridSpec::generate(ops[i].arg(0) as u64);
    let n = spec.ncells();
    let mut m = [Model::new(n), Model::new(n)];
    let cell = |p: &[f64; 3]| match spec.locate(p) {
        Where::In(c) => Some(spec.flat(c)),
        _ => None,
    };
    let nt = ds.stats.nsteps;
    for (at, op) in ops.iter().enumerate().take(i + 1) {
        if !OPS.contains(&op.name.as_str()) || key(op) != key(&ops[i]) {
            continue;
        }
        let done = progress.get(&at).copied().unwrap_or(0);
        let s = slot(op);
        let vector = key(op).1 == 1;
        if op.name == "change" {
            if done == 0 {
                continue;
            }
            let t = table(op, n);
            match change(op) {
                Change::Scalar => m[s].divide(&|_| scalar(op)),
                Change::Weight => {
                    let w = m[s].weight.clone();
                    m[s].divide(&|i| w[i]);
                }
                Change::Array => m[s].divide(&|i| t[i]),
                Change::Data if !vector => {
                    m[s].size = t.clone();
                    m[s].data = t;
                }
                Change::Weights => m[s].weight = t,
                Change::Copy => m[1 - s] = m[s].clone(),
                Change::Zeros => m[1 - s] = Model::new(n),
                _ => {}
            }
            continue;
        }
        // the last timestep starts no trajectory
        let steps: Vec<usize> = if op.name == "loop" { (0..nt).collect() } else { vec![op.arg(4) as usize % nt] };
        for t in steps.into_iter().filter(|t| how(op) != How::Trajectory || t + 1 < nt).take(done) {
            let now = StepData::stored(ds, t);
            let here = positions(&now);
            let next = if t + 1 < nt { positions(&StepData::stored(ds, t + 1)) } else { vec![] };
            for (j, p) in here.iter().enumerate() {
                if matches!(spec.locate(p), Where::Unclear) {
                    continue;
                }
                let v = value(&now, j, op.arg(5) as u64);
                match how(op) {
                    How::Insert => {
                        if let Some(c) = cell(p) {
                            m[s].data[c] = v;
                            m[s].size[c] = v.abs();
                        }
                    }
                    How::Trajectory => {
                        let Some(q) = next.get(j).filter(|q| !matches!(spec.locate(q), Where::Unclear)) else {
                            continue;
                        };
                        if spec.cyl {
                            // not along the way: where it starts
                            if let Some(c) = cell(p) {
                                m[s].add(c, v, 1.0);
                            }
                        } else if let (Some(a), Some(b)) = (cell(p), cell(q)) {
                            m[s].add(a, v, 0.5);
                            m[s].add(b, v, 0.5);
                        }
                    }
                    _ => {
                        if let Some(c) = cell(p) {
                            m[s].add(c, v, 1.0);
                        }
                    }
                }
            }
        }
    }
    m
}

/// what a description has to tell: numbers, and how they are compared (scale, square)
pub fn description(spec: &GridSpec, cells: &[f64], size: f64, vector: bool) -> Vec<Option<(f64, f64, bool)>> {
    let mut v: Vec<Option<(f64, f64, bool)>> = spec.cells.iter().map(|n| Some((*n as f64, 0.0, false))).collect();
    for a in 0..3 {
        let (lo, hi, _) = spec.along(a);
        v.extend([lo, hi].map(|x| Some((x, 10.0, false))));
    }
    let held: Vec<f64> = cells.iter().copied().filter(|x| !x.is_nan()).collect();
    let n = held.len() as f64;
    let mean = held.iter().sum::<f64>() / n;
    if vector {
        v.extend([Some((mean, size, false)); 3]);
        return v;
    }
    let least = held.iter().copied().fold(f64::NAN, f64::min);
    let most = held.iter().copied().fold(f64::NAN, f64::max);
    v.extend([Some((mean, size, false)), Some((least, size, false)), Some((most, size, false))]);
    let std = (held.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n).sqrt();
    v.push((!held.iter().any(|x| x.is_infinite())).then_some((std, size, true)));
    v
}

pub fn misdescribed(told: &[f64], want: &[Option<(f64, f64, bool)>]) -> Option<String> {
    if told.len() != want.len() {
        return Some(format!("a description tells {} numbers instead of {}", told.len(), want.len()));
    }
    for (j, (x, w)) in told.iter().zip(want).enumerate() {
        let Some((w, scale, square)) = *w else { continue };
        if !close(*x, w, scale, square) {
            return Some(format!("number {} of a description is {:?} instead of {:?}", j, x, w));
        }
    }
    None
}

type Verdict = Result<(), (String, String)>;
fn bad(class: &str, detail: String) -> Verdict {
    Err((class.into(), detail))
}

pub fn judge(ops: &[Op], i: usize, d: &Done, ds: &Ds, rep: &mut Report) -> Verdict {
    let op = &ops[i];
    let what = if op.name == "change" { format!("{:?}", change(op)) } else { format!("{:?}", how(op)) };
    let out = match &d.got {
        Got::Out(_) if refused(op) => return bad("not-refused", format!("{} of the wrong shape", what)),
        Got::Out(o) => o,
        Got::Fail(Fk::Failed) if refused(op) => {
            rep.judged += 1;
            rep.probe("wrong shape refused");
            return Ok(());
        }
        Got::Fail(Fk::Endless) => return bad("endless", what),
        Got::Fail(_) if !d.fired.is_empty() => {
            rep.probe("cut by a storage fault");
            return Ok(());
        }
        _ => return bad("fails", format!("{} fails without any fault", what)),
    };
    let part = |n: &str| &out.parts.iter().find(|p| p.name == n).unwrap().data;
    let progress: BTreeMap<usize, usize> = part("progress").chunks(2).map(|c| (c[0] as usize, c[1] as usize)).collect();
    let spec = GridSpec::generate(op.arg(0) as u64);
    let vector = key(op).1 == 1;
    let models = replay(ops, i, &progress, ds);
    rep.judged += 1;
    rep.steps += progress.get(&i).copied().unwrap_or(0) as u64;
    rep.nontrivial |= models.iter().any(|m| m.size.iter().any(|x| *x != 0.0));
    rep.probe(match (vector, spec.cyl) {
        (false, false) => "Cartesian",
        (false, true) => "cylindrical",
        (true, false) => "vector, Cartesian",
        (true, true) => "vector, cylindrical",
    });
    if op.name != "change" && how(op) == How::Trajectory {
        rep.probe("trajectories");
    }
    let comps = if vector { 3 } else { 1 };
    let pts = points(&spec, ds, op.arg(0));
    for (k, m) in models.iter().enumerate() {
        let of = if k == 0 { "" } else { " of the other" };
        let names = |a: &str| format!("{}{}", a, of);
        let n = spec.ncells();
        let (cells, weights) = (part(&names("cells")), part(&names("weights")));
        if cells.len() != comps * n || weights.len() != comps * n {
            return bad("shape", format!("{} cells instead of {}", cells.len(), comps * n));
        }
        let near = |x: f64, c: usize| {
            let size = if m.size[c].is_finite() { m.size[c] } else { 0.0 };
            close(x, m.data[c], size, false)
        };
        for c in 0..comps * n {
            if !near(cells[c], c % n) {
                return bad("wrong", format!("{}: cell {}{} holds {:?} instead of {:?}", what, c, of, cells[c], m.data[c % n]));
            }
            if !close(weights[c], m.weight[c % n], 0.0, false) {
                return bad("weight", format!("{}: cell {}{} has weight {:?} instead of {:?}", what, c, of, weights[c], m.weight[c % n]));
            }
        }
        let inside = part(if k == 0 { "inside" } else { "inside the other" });
        let (cell, values) = (part(&names("cell of").replace("cell of of", "cell of")), part(&names("values")));
        for (j, p) in pts.iter().enumerate() {
            let c = match spec.locate(p) {
                Where::Unclear => {
                    rep.unclear += 1;
                    continue;
                }
                Where::In(c) => Some(spec.flat(c)),
                Where::Outside => None,
            };
            if (inside[j] != 0.0) != c.is_some() {
                return bad("inside", format!("{:?} is inside: {}", p, inside[j] != 0.0));
            }
            if cell[j] != c.map(|c| c as f64).unwrap_or(-1.0) {
                return bad("cell", format!("{:?} is in cell {} instead of {:?}", p, cell[j], c));
            }
            for x in 0..comps {
                let got = values[x * pts.len() + j];
                let ok = match c {
                    Some(c) => near(got, c),
                    None => got.is_nan(),
                };
                if !ok {
                    return bad("value", format!("the value at {:?} is {:?}", p, got));
                }
            }
        }
        let text = part(&names("told"));
        let size = m.size.iter().copied().filter(|x| x.is_finite()).fold(0.0, f64::max);
        let want = description(&spec, &m.data, size, vector);
        if text.len() != 2 * want.len() {
            return bad("told", format!("the descriptions tell {} numbers instead of {}", text.len(), 2 * want.len()));
        }
        for t in text.chunks(want.len()) {
            if let Some(e) = misdescribed(t, &want) {
                return bad("told", format!("{}{}", e, of));
            }
        }
    }
    Ok(())
}
