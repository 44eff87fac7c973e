//! P30: plots of fields.  The figures are judged against the field itself, as Python
//! shows it: every drawn number has to be the number of the cell it is drawn at.

use crate::analysis::{Call, Kind, Out, Part, KINDS};
use crate::data::Ds;
use crate::engine::call_of;
use crate::py::{bad, part, Verdict};
use crate::rng::{h, Rng};
use crate::scn::{Op, Report};
use colorous::Gradient;
use plotly::{Layout, Trace};
use pyo3::prelude::*;
use upppp_rust::plotting::{parity_contour::ParityContour, parity_map::ParityMap, parity_plot::ParityPlot, quiver::QuiverPlot, unit_vector::UnitVectorPlot};
use upppp_rust::{GridFunctions3D, VectorGrid};
use pyo3::types::{PyDict, PyTuple};

/// A field that is plotted: kind, grid and seed of the analysis it comes from.
#[derive(Clone, Copy)]
pub struct Field([i64; 3]);

impl Field {
    pub fn call(&self, ds: &Ds) -> Call {
        let [kind, grid, seed] = self.0;
        call_of(&Op::new("an", &[kind, grid, 0, seed, 0]), ds)
    }
    pub fn key(&self) -> String {
        format!("{:?}", self.0)
    }
}

const SCALARS: [Kind; 4] = [Kind::NumberField, Kind::VelocityField, Kind::Occupancy, Kind::Granular];

/// The fields of a scenario: kind, grid, seed, kind and seed of the one to compare with.
pub fn pool(r: &mut Rng) -> Vec<[i64; 5]> {
    let n = r.range(1, 3);
    (0..n)
        .map(|_| {
            let vector = r.chance(0.6);
            let kind = |r: &mut Rng| (if vector { Kind::VectorField } else { *r.pick(&SCALARS) }) as i64;
            let grid = if r.chance(0.05) { 0 } else { 1 + r.below(1 << 30) as i64 };
            [kind(r), grid, r.below(1 << 30) as i64, kind(r), r.below(1 << 30) as i64]
        })
        .collect()
}

/// `plot seed kind grid field-seed other-kind other-seed`
pub fn op(r: &mut Rng, pool: &[[i64; 5]]) -> Op {
    let f = r.pick(pool);
    Op::new("plot", &[r.below(1 << 30) as i64, f[0], f[1], f[2], f[3], f[4]])
}

macro_rules! gradients {
    ($($n:literal $c:ident)*) => { [$(($n, colorous::$c)),*] };
}
/// the colour maps of the documentation
fn gradients() -> Vec<(&'static str, Gradient)> {
    gradients!(
        "turbo" TURBO "viridis" VIRIDIS "inferno" INFERNO "spectral" SPECTRAL "magma" MAGMA "plasma" PLASMA
        "cividis" CIVIDIS "warm" WARM "cool" COOL "cubehelix" CUBEHELIX "blue_green" BLUE_GREEN
        "blue_purple" BLUE_PURPLE "green_blue" GREEN_BLUE "orange_red" ORANGE_RED
        "purple_blue_green" PURPLE_BLUE_GREEN "purple_blue" PURPLE_BLUE "purple_red" PURPLE_RED
        "red_purple" RED_PURPLE "yellow_green_blue" YELLOW_GREEN_BLUE "yellow_green" YELLOW_GREEN
        "yellow_orange_brown" YELLOW_ORANGE_BROWN "yellow_orange_red" YELLOW_ORANGE_RED "blues" BLUES
        "greens" GREENS "greys" GREYS "oranges" ORANGES "purples" PURPLES "reds" REDS "brown_green" BROWN_GREEN
        "purple_green" PURPLE_GREEN "pink_green" PINK_GREEN "purple_orange" PURPLE_ORANGE "red_blue" RED_BLUE
        "red_grey" RED_GREY "red_yellow_blue" RED_YELLOW_BLUE "red_yellow_green" RED_YELLOW_GREEN
    )
    .to_vec()
}

/// A plot as a user asks for it.
pub struct Plan {
    field: Field,
    other: Option<Field>,
    cartesian: bool,
    cells: [usize; 3],
    lim: [[f64; 2]; 3],
    method: &'static str,
    axis: i64,
    index: Option<i64>,
    /// what the call says of the plane; None: left to its default
    selection: Option<&'static str>,
    mode: Option<&'static str>,
    min: Option<f64>,
    max: Option<f64>,
    colour: Option<String>,
    style: Option<f64>,
    layout: Option<[i64; 2]>,
    /// dpi, border and paper width of the saved figure; the first `n` are said
    save: Option<([i64; 3], usize)>,
    by_name: bool,
    fresh: bool,
    refuse: bool,
    direct: Option<Direct>,
}

/// A plot of the same fields by a program in Rust.
#[derive(Clone, Copy)]
struct Direct {
    /// the difference: as it is, its size, or a part of the reference
    delta: usize,
    /// of all cells, not of a plane
    whole: bool,
    /// by how much arrows are longer
    factor: f64,
    /// the first axis is stretched, before anything is drawn
    ratio: f64,
    /// from the pieces of another plot
    pieces: bool,
}

impl Plan {
    pub fn of(op: &Op) -> Plan {
        let r = &mut Rng::new(h(&[op.arg(0) as u64, 600]));
        let vector = KINDS[op.arg(1) as usize % KINDS.len()] == Kind::VectorField;
        let kind = |k: i64| match KINDS[k as usize % KINDS.len()] {
            _ if vector => Kind::VectorField as i64,
            x if SCALARS.contains(&x) => x as i64,
            _ => Kind::NumberField as i64,
        };
        let field = Field([kind(op.arg(1)), op.arg(2), op.arg(3)]);
        let grid = crate::spec::GridSpec::generate(op.arg(2) as u64);
        let method = if vector {
            *r.pick(&["quiver_plot", "quiver_plot", "unit_vector_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"])
        } else {
            *r.pick(&["scalar_map", "scalar_map", "scalar_contour", "scalar_contour", "parity_plot", "parity_map", "parity_contour", "plot"])
        };
        let parity = method.starts_with("parity");
        let arrows = matches!(method, "quiver_plot" | "unit_vector_plot");
        let axis = r.range(0, 2);
        let plane = r.chance(0.5);
        let mut p = Plan {
            field,
            other: parity.then(|| Field([kind(op.arg(4)), op.arg(2), op.arg(5)])),
            cartesian: !grid.cyl,
            cells: grid.cells,
            lim: grid.lim,
            method,
            axis,
            index: plane.then(|| r.below(grid.cells[axis as usize] as u64) as i64),
            selection: if plane { Some("plane") } else { *r.pick(&[None, Some("depth_average")]) },
            mode: None,
            min: None,
            max: None,
            colour: None,
            style: r.chance(0.15).then(|| r.range(1, 9) as f64 / 10.0),
            layout: r.chance(0.25).then(|| [r.range(200, 900), r.range(200, 900)]),
            save: None,
            by_name: r.chance(0.5),
            fresh: r.chance(0.3),
            refuse: false,
            direct: None,
        };
        if r.chance(0.2) {
            let all = [*r.pick(&[72, 300, 600]), r.range(0, 40), r.range(120, 300)];
            p.save = Some((all, r.below(4) as usize));
        }
        if arrows {
            p.mode = *r.pick(&[None, Some("min"), Some("max"), Some("minmax"), Some("half_node"), Some("full_node")]);
            let (a, b) = (r.uniform(0.05, 3.0), r.uniform(0.05, 3.0));
            p.min = matches!(p.mode, Some("min" | "minmax")).then(|| a.min(b));
            p.max = matches!(p.mode, Some("max" | "minmax")).then(|| a.max(b));
        }
        if !parity && method != "plot" && r.chance(0.5) {
            let n = r.pick(&gradients()).0;
            p.colour = Some(if r.chance(0.15) { n.to_uppercase() } else { n.to_string() });
        }
        if method == "plot" {
            p.selection = None;
            p.index = None;
            p.style = None;
            p.layout = None;
            p.save = None;
        } else if r.chance(0.12) {
            p.refuse = true;
            match r.below(8) {
                0 => p.axis = *r.pick(&[3, -1, 7]),
                1 => {
                    p.selection = Some("planes");
                }
                2 => {
                    p.selection = Some("plane");
                    p.index = None;
                }
                3 => {
                    p.selection = Some("plane");
                    p.index = Some(grid.cells[axis as usize] as i64 + r.range(0, 3));
                }
                4 if arrows => p.mode = Some("largest"),
                5 if arrows => {
                    (p.mode, p.min, p.max) = match r.below(4) {
                        0 => (Some("min"), None, Some(1.0)),
                        1 => (Some("max"), Some(1.0), None),
                        2 => (Some("minmax"), Some(1.0), None),
                        _ => (Some("minmax"), None, Some(1.0)),
                    }
                }
                6 if !parity => p.colour = Some("ultraviolet".into()),
                // a field of numbers and one of vectors
                7 if parity => {
                    let k = if vector { Kind::NumberField } else { Kind::VectorField };
                    p.other = Some(Field([k as i64, op.arg(2), op.arg(5)]));
                }
                _ if !vector => {
                    p.method = if r.chance(0.5) { "quiver_plot" } else { "unit_vector_plot" };
                    p.other = None;
                }
                _ => {
                    p.selection = Some("plane");
                    p.index = Some(-1 - r.range(0, 3));
                }
            }
        }
        if (parity || arrows) && !p.refuse && r.chance(0.4) {
            p.direct = Some(Direct {
                delta: r.below(3) as usize,
                whole: r.chance(0.7),
                factor: r.uniform(0.2, 4.0),
                ratio: if r.chance(0.5) { 1.0 } else { r.uniform(0.5, 2.0) },
                pieces: r.chance(0.3),
            });
        }
        p
    }

    pub fn fields(&self) -> Vec<Field> {
        std::iter::once(self.field).chain(self.other).collect()
    }

    pub fn args(&self, py: Python) -> PyResult<Py<PyDict>> {
        let a = PyDict::new(py);
        if let Some(s) = self.selection {
            a.set_item("selection", s)?;
        }
        if let Some(i) = self.index {
            a.set_item("index", i)?;
        }
        if let Some(m) = self.mode {
            a.set_item("scaling_mode", m)?;
        }
        for (k, v) in [("min_size", self.min), ("max_size", self.max)] {
            if let Some(v) = v {
                a.set_item(k, v)?;
            }
        }
        if let Some(c) = &self.colour {
            a.set_item("colour_map", c)?;
        }
        if let Some(o) = self.style {
            let d = PyDict::new(py);
            d.set_item("opacity", o)?;
            a.set_item("style", d)?;
        }
        if let Some([w, t]) = self.layout {
            let d = PyDict::new(py);
            d.set_item("width", w)?;
            d.set_item("height", t)?;
            a.set_item("layout", d)?;
        }
        let d = PyDict::new(py);
        if self.by_name {
            a.set_item("axis", self.axis)?;
            d.set_item("args", PyTuple::empty(py))?;
        } else {
            d.set_item("args", PyTuple::new(py, [self.axis]))?;
        }
        d.set_item("kwargs", a)?;
        d.set_item("method", self.method)?;
        d.set_item("key", self.field.key())?;
        d.set_item("other", self.other.map(|o| o.key()))?;
        d.set_item("fresh", self.fresh)?;
        let save = match self.save {
            None => None,
            Some((v, n)) => {
                let d = PyDict::new(py);
                for (k, v) in ["dpi", "border_width", "paper_width"].iter().zip(v).take(n) {
                    d.set_item(k, v)?;
                }
                Some(d)
            }
        };
        d.set_item("save", save)?;
        Ok(d.into())
    }

    fn text(&self) -> String {
        format!(
            "{}(axis {}, {}{}{}{}{}{}) of {} in {:?} {} cells",
            self.method,
            self.axis,
            self.selection.unwrap_or("default"),
            self.index.map(|i| format!(" {}", i)).unwrap_or_default(),
            self.mode.map(|m| format!(", {}", m)).unwrap_or_default(),
            self.min.map(|m| format!(", at least {}", m)).unwrap_or_default(),
            self.max.map(|m| format!(", at most {}", m)).unwrap_or_default(),
            self.colour.as_ref().map(|m| format!(", {}", m)).unwrap_or_default(),
            self.field.key(),
            self.cells,
            if self.cartesian { "Cartesian" } else { "cylindrical" },
        )
    }

    /// the size of a cell in the plane; NaN where they are not all the same
    fn cell(&self) -> [f64; 2] {
        let (a, b) = [(1, 2), (0, 2), (0, 1)][self.axis as usize];
        [a, b].map(|a| if self.cartesian { (self.lim[a][1] - self.lim[a][0]) / self.cells[a] as f64 } else { f64::NAN })
    }

    fn gradient(&self) -> Option<Gradient> {
        let name = self.colour.as_ref()?.to_lowercase();
        gradients().into_iter().find(|g| g.0 == name).map(|g| g.1)
    }
}

/// A grid as the field is shown.
fn grid(p: &Plan, ds: &Ds, o: &Out, what: &str, c: usize) -> Box<dyn GridFunctions3D> {
    let mut g = p.field.call(ds).grid.build();
    let v = ndarray::Array3::from_shape_vec(p.cells, part(o, &format!("{} {}", what, c)).to_vec()).unwrap();
    g.set_weights(v.mapv(|x| if x.is_nan() { 0.0 } else { 1.0 }));
    g.set_data(v);
    g
}

/// The figure a program in Rust makes of the fields that are shown, and what it averages.
pub fn direct(p: &Plan, ds: &Ds, o: &Out) -> Option<(String, Vec<Part>)> {
    let d = p.direct?;
    let vector = o.parts.iter().any(|q| q.name == "field 1");
    let n = if vector { 3 } else { 1 };
    let axis = p.axis as usize;
    let mut parts = vec![];
    let mut put = |name: String, data: Vec<f64>| parts.push(Part { name: Box::leak(name.into_boxed_str()), data, scale: 1.0, square: false });
    let mut grids = vec![];
    for what in ["field", "other"].into_iter().take(1 + p.other.is_some() as usize) {
        let g: Vec<_> = (0..n).map(|c| grid(p, ds, o, what, c)).collect();
        for (c, g) in g.iter().enumerate() {
            put(format!("direct {} {}", what, c), g.get_data().iter().copied().collect());
            put(format!("direct {} averaged {}", what, c), g.collapse(axis).iter().copied().collect());
        }
        put(format!("direct {} axes", what), part(o, &format!("{} axes", what)).to_vec());
        grids.push(g);
    }
    let vectors: Vec<VectorGrid> = match vector {
        true => grids.iter().map(|g| {
            let mut v = VectorGrid::new(g[0].clone());
            v.data = [g[0].clone(), g[1].clone(), g[2].clone()];
            v
        }).collect(),
        false => vec![],
    };
    let (v, g) = (|i: usize| vectors[i].clone(), |i: usize| grids[i][0].clone());
    macro_rules! difference {
        ($t:ident, $draw:ident) => {{
            let x = match (vector, p.index) {
                (true, None) => $t::from_vector_grids_depth_averaged(v(0), v(1), axis),
                (true, Some(i)) => $t::from_vector_grids_single_plane(v(0), v(1), axis, i as usize),
                (false, None) => $t::from_grids_depth_averaged(g(0), g(1), axis),
                (false, Some(i)) => $t::from_grids_single_plane(g(0), g(1), axis, i as usize),
            };
            // the last one counts
            let x = if d.pieces { x.delta_as_percent() } else { x };
            let x = match d.delta {
                0 => x.delta_as_difference(),
                1 => x.delta_as_absolute_difference(),
                _ => x.delta_as_percent(),
            };
            x.$draw().into_iter().map(|t| t as Box<dyn Trace>).collect()
        }};
    }
    let traces: Vec<Box<dyn Trace>> = match p.method {
        "parity_map" => difference!(ParityMap, create_parity_map),
        "parity_contour" => difference!(ParityContour, create_parity_contour),
        "parity_plot" => {
            let x = match (d.whole, vector, p.index) {
                (true, true, _) => ParityPlot::from_vector_grids(v(0), v(1)),
                (true, false, _) => ParityPlot::from_grids(g(0), g(1)),
                (_, true, None) => ParityPlot::from_vector_grids_depth_averaged(v(0), v(1), axis),
                (_, true, Some(i)) => ParityPlot::from_vector_grids_single_plane(v(0), v(1), axis, i as usize),
                (_, false, None) => ParityPlot::from_grids_depth_averaged(g(0), g(1), axis),
                (_, false, Some(i)) => ParityPlot::from_grids_single_plane(g(0), g(1), axis, i as usize),
            };
            x.create_parity_scatter().into_iter().map(|t| t as Box<dyn Trace>).collect()
        }
        "quiver_plot" => {
            let x = match p.index {
                None => QuiverPlot::from_vector_grid_depth_averaged(v(0), axis),
                Some(i) => QuiverPlot::from_vector_grid_single_plane(v(0), axis, i as usize),
            };
            let x = match d.pieces {
                true => QuiverPlot::new(x.x().clone(), x.y().clone(), x.u().clone(), x.v().clone(), x.norm().clone(), x.true_norm().clone()),
                false => x,
            };
            x.scale_global(d.factor).create_quiver_traces(d.ratio, p.gradient())
        }
        _ => {
            let x = match p.index {
                None => UnitVectorPlot::from_vector_grid_depth_averaged(v(0), axis),
                Some(i) => UnitVectorPlot::from_vector_grid_single_plane(v(0), axis, i as usize),
            };
            x.scale_global(d.factor).create_quiver_traces(1.0, p.gradient())
        }
    };
    Some((upppp_rust::plotting::plot(traces, Layout::new()).to_json(), parts))
}

/// A figure made in Rust.
fn judge_direct(p: &Plan, o: &Out, rep: &mut Report) -> Verdict {
    let mut q = Out::default();
    for x in &o.parts {
        if let Some(n) = x.name.strip_prefix("direct ") {
            q.parts.push(Part { name: n, ..x.clone() });
        }
    }
    if q.parts.is_empty() {
        return bad("fails", "nothing is drawn");
    }
    let o = &q;
    let d = p.direct.unwrap();
    let plane = Plane::of(o, "field", p);
    let other = p.other.map(|_| Plane::of(o, "other", p));
    let n = kinds(o).len();
    rep.probe("by a program in Rust");
    match p.method {
        "parity_map" | "parity_contour" => {
            let both = plane.values().into_iter().zip(other.unwrap().values());
            let w: Vec<f64> = both.map(|(a, b)| match d.delta {
                0 => a - b,
                1 => (a - b).abs(),
                _ => (a - b) / a * 100.0,
            })
            // what is not finite leaves a gap
            .map(|x| if x.is_finite() { x } else { f64::NAN })
            .collect();
            if n != 1 {
                return bad("kind", format!("there are {:?}", kinds(o)));
            }
            map(o, 0, &plane, &w)
        }
        "parity_plot" if d.whole => {
            let all = |what: &str| Plane {
                x: vec![],
                y: vec![],
                u: (0..3).flat_map(|c| part(o, &format!("{} {}", what, c)).to_vec()).collect(),
                v: None,
            };
            parity(o, n, &all("field"), &all("other"))
        }
        "parity_plot" => parity(o, n, &plane, other.as_ref().unwrap()),
        m => {
            if m == "unit_vector_plot" {
                let k = (0..n).find(|k| kinds(o)[*k].starts_with("heatmap"));
                let Some(k) = k else { return bad("kind", format!("there are {:?}", kinds(o))) };
                map(o, k, &plane, &plane.values()).and_then(|_| scale(o, k, p))?;
            }
            arrows(o, n, p, &plane, Some(d))
        }
    }
}

/// The plane of a plot: where its cells are and the components in it.
struct Plane {
    x: Vec<f64>,
    y: Vec<f64>,
    /// one array, or the two components that lie in the plane; row by row of x
    u: Vec<f64>,
    v: Option<Vec<f64>>,
}

impl Plane {
    fn of(o: &Out, what: &str, p: &Plan) -> Plane {
        let axes = part(o, &format!("{} axes", what));
        let n = axes.len();
        let cells: [usize; 3] = std::array::from_fn(|a| axes[n - 3 + a] as usize);
        let ax = p.axis as usize;
        let from = |a: usize| cells[..a].iter().sum::<usize>();
        let place = |a: usize| axes[from(a)..from(a) + cells[a]].to_vec();
        let (a, b) = [(1, 2), (0, 2), (0, 1)][ax];
        let vector = o.parts.iter().any(|q| q.name == format!("{} 1", what));
        let pick = |c: usize| -> Vec<f64> {
            match p.index {
                Some(i) => {
                    let d = part(o, &format!("{} {}", what, c));
                    let mut v = vec![];
                    for ia in 0..cells[a] {
                        for ib in 0..cells[b] {
                            let mut at = [i as usize; 3];
                            (at[a], at[b]) = (ia, ib);
                            v.push(d[(at[0] * cells[1] + at[1]) * cells[2] + at[2]]);
                        }
                    }
                    v
                }
                None => part(o, &format!("{} averaged {}", what, c)).to_vec(),
            }
        };
        Plane { x: place(a), y: place(b), u: pick(if vector { a } else { 0 }), v: vector.then(|| pick(b)) }
    }

    /// the value of every cell: of a vector its length in the plane
    fn values(&self) -> Vec<f64> {
        match &self.v {
            Some(v) => self.u.iter().zip(v).map(|(a, b)| a.hypot(*b)).collect(),
            None => self.u.clone(),
        }
    }

    fn at(&self, i: usize) -> (f64, f64) {
        (self.x[i / self.y.len()], self.y[i % self.y.len()])
    }
}

fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * (scale + a.abs().max(b.abs()))
}

/// Every cell once, at its place and with its value.
fn map(o: &Out, k: usize, plane: &Plane, want: &[f64]) -> Verdict {
    mapped(o, k, plane, want, false)
}

fn mapped(o: &Out, k: usize, plane: &Plane, want: &[f64], turned: bool) -> Verdict {
    let get = |n: &str| part(o, &format!("{} {}", n, k));
    let (x, y, z) = (get("x"), get("y"), get("z"));
    let mut have: Vec<[f64; 3]> = match get("lines") {
        // lines of y, each along x
        [n] => {
            if *n as usize != y.len() || x.len() * y.len() != z.len() {
                return bad("wrong", format!("{} lines of {} values at {} by {} places", n, z.len(), x.len(), y.len()));
            }
            (0..z.len()).map(|i| [x[i % x.len()], y[i / x.len()], z[i]]).collect()
        }
        _ => {
            if x.len() != z.len() || y.len() != z.len() {
                return bad("wrong", format!("{} values at {}, {} places", z.len(), x.len(), y.len()));
            }
            (0..z.len()).map(|i| [x[i], y[i], z[i]]).collect()
        }
    };
    let mut want: Vec<[f64; 3]> = (0..want.len()).map(|i| [plane.at(i).0, plane.at(i).1, want[i]]).collect();
    if have.len() != want.len() {
        return bad("wrong", format!("{} cells are drawn of {}", have.len(), want.len()));
    }
    if turned {
        have.iter_mut().for_each(|c| c.swap(0, 1));
    }
    for v in [&mut have, &mut want] {
        v.sort_by(|a, b| a[0].total_cmp(&b[0]).then(a[1].total_cmp(&b[1])));
    }
    for (a, b) in have.iter().zip(&want) {
        if (0..3).any(|i| !near(a[i], b[i], 1e-3)) {
            return bad("wrong", format!("there is {:?} at {:?} instead of {:?} at {:?}", a[2], &a[..2], b[2], &b[..2]));
        }
    }
    Ok(())
}

fn channels(c: f64) -> [i64; 3] {
    let c = c as i64;
    [c >> 16, c >> 8 & 255, c & 255]
}
fn coloured(g: &Gradient, t: f64, c: f64) -> bool {
    let w = g.eval_continuous(t);
    c >= 0.0 && channels(c).iter().zip([w.r, w.g, w.b]).all(|(a, b)| (a - b as i64).abs() <= 3)
}

/// The colour scale of a trace is the one that was asked for.
fn scale(o: &Out, k: usize, p: &Plan) -> Verdict {
    let (Some(g), s) = (p.gradient(), part(o, &format!("scale {}", k))) else { return Ok(()) };
    if s.len() < 4 || s[0] != 0.0 || s[s.len() - 2] != 1.0 {
        return bad("colour", format!("a colour scale of {:?}", s));
    }
    match s.chunks(2).find(|c| !coloured(&g, c[0], c[1])) {
        Some(c) => bad("colour", format!("the colour at {} is {:?}", c[0], channels(c[1]))),
        None => Ok(()),
    }
}

fn least(v: &[f64]) -> f64 {
    v.iter().copied().filter(|x| !x.is_nan()).fold(f64::NAN, f64::min)
}
fn most(v: &[f64]) -> f64 {
    v.iter().copied().filter(|x| !x.is_nan()).fold(f64::NAN, f64::max)
}

/// One arrow in every cell that has a vector: from the place of the cell, as long and
/// in the direction that was asked for.
fn arrows(o: &Out, n: usize, p: &Plan, plane: &Plane, d: Option<Direct>) -> Verdict {
    let mode = if d.is_some() { None } else { p.mode };
    let (factor, ratio) = d.map_or((1.0, 1.0), |d| (d.factor, d.ratio));
    let kinds = kinds(o);
    let (u, v) = (&plane.u, plane.v.as_ref().unwrap());
    let norm = plane.values();
    let cells = norm.len();
    let mut drawn: Vec<Option<(f64, f64)>> = vec![None; cells];
    let extent = plane.x.iter().chain(&plane.y).fold(0.0f64, |a, b| a.max(b.abs()));
    let (low, high) = (least(&norm), most(&norm));
    for k in 0..n {
        if kinds[k] != "scatter lines" {
            continue;
        }
        let (x, y) = (part(o, &format!("x {}", k)), part(o, &format!("y {}", k)));
        if x.len() < 4 || x.len() != y.len() {
            return bad("wrong", format!("an arrow of {} and {} points", x.len(), y.len()));
        }
        let Some(c) = (0..cells).find(|c| near(plane.at(*c).0, x[0], 1e-3) && near(plane.at(*c).1, y[0], 1e-3)) else {
            return bad("wrong", format!("an arrow starts at ({}, {}), where no cell is", x[0], y[0]));
        };
        if drawn[c].is_some() {
            return bad("wrong", format!("two arrows start at ({}, {})", x[0], y[0]));
        }
        let tip = (x[1], y[1]);
        let (a, b) = (tip.0 - x[0], tip.1 - y[0]);
        drawn[c] = Some((a, b));
        let len = a.hypot(b);
        // the head: two points behind the tip, one on either side of the shaft
        if len > 1e-5 * (1.0 + extent) && len.is_finite() {
            let side: Vec<[f64; 2]> = (2..x.len())
                .map(|i| (x[i] - tip.0, y[i] - tip.1))
                .filter(|d| d.0.hypot(d.1) > 1e-9 * (1.0 + extent))
                .map(|d| [(d.0 * a + d.1 * b) / len, (d.1 * a - d.0 * b) / len])
                .collect();
            let ok = side.len() == 2 && {
                let e = 1e-6 * len + 1e-9 * extent;
                (side[0][0] - side[1][0]).abs() < e && (side[0][1] + side[1][1]).abs() < e && side[0][0] < 0.0 && side[0][0] > -len && side[0][1].abs() > e
            };
            if !ok {
                return bad("head", format!("the head of the arrow at ({}, {}) of length {} is at {:?}", x[0], y[0], len, side));
            }
        }
        if let (Some(g), true, "quiver_plot") = (p.gradient(), high > low && norm[c].is_finite(), p.method) {
            let fill = part(o, "fill")[k];
            let t = (norm[c] - low) / (high - low);
            if !coloured(&g, t, fill) {
                return bad("colour", format!("an arrow of {} in [{}, {}] is drawn in {:?}", norm[c], low, high, channels(fill)));
            }
        }
    }
    if p.method == "quiver_plot" {
        if let Some(k) = (0..n).find(|k| part(o, &format!("range {}", k)).len() == 2) {
            let r = part(o, &format!("range {}", k));
            if !near(r[0], low, 1e-3) || !near(r[1], high, 1e-3) {
                return bad("colour", format!("the colours stand for {:?} instead of {:?}", r, [low, high]));
            }
            scale(o, k, p)?;
        }
    }
    // the size of a cell, where all have the same
    let [dx, dy] = p.cell();
    let tol = 1e-9 * (1.0 + extent);
    // by how much the axes are stretched, as the arrows show
    let mut stretch: [Option<f64>; 3] = [None; 3];
    let mut once = |i: usize, f: f64| -> bool { (f - *stretch[i].get_or_insert(f)).abs() <= 1e-6 * f.abs() };
    for c in 0..cells {
        let len = norm[c];
        if !(len > 0.0) {
            // nothing to draw, in whatever way
            if let Some((a, b)) = drawn[c] {
                if a.abs() > tol || b.abs() > tol {
                    return bad("wrong", format!("an arrow by ({}, {}) where there is no vector", a, b));
                }
            }
            continue;
        }
        let at = plane.at(c);
        let what = format!("the arrow of ({}, {}) at {:?}", u[c], v[c], at);
        let Some((a, b)) = drawn[c] else { return bad("missing", format!("{} is missing", what)) };
        if !a.is_finite() || !b.is_finite() {
            return bad("wrong", format!("{} ends at ({}, {})", what, a, b));
        }
        let got = a.hypot(b);
        let is = format!("{} goes by ({}, {})", what, a, b);
        if p.method == "quiver_plot" {
            let f = match mode {
                Some("min" | "max" | "minmax") => {
                    let mut l = len;
                    l = p.max.map_or(l, |m| l.min(m));
                    l = p.min.map_or(l, |m| l.max(m));
                    [l / len; 2]
                }
                Some(m) => {
                    let f = if m == "half_node" { 0.5 } else { 1.0 };
                    [f * dx / high, f * dy / high]
                }
                None => [factor * ratio, factor],
            };
            let want = (u[c] * f[0], v[c] * f[1]);
            let e = tol + 1e-9 * want.0.hypot(want.1);
            if want.0.is_finite() && want.1.is_finite() && ((want.0 - a).abs() > e || (want.1 - b).abs() > e) {
                return bad("wrong", format!("{} instead of {:?}", is, want));
            }
            if !want.0.is_finite() && (u[c].abs() > 1e-2 * len && a.abs() > 1e-5 && !(a / u[c] > 0.0 && once(0, a / u[c])) || v[c].abs() > 1e-2 * len && b.abs() > 1e-5 && !(b / v[c] > 0.0 && once(1, b / v[c]))) {
                return bad("wrong", format!("{}, which is another scale than that of other arrows", is));
            }
            continue;
        }
        // arrows of the same length, up to how far apart the cells are
        let (s, t) = (u[c] / len, v[c] / len);
        let same_side = |d: f64, w: f64| if w.abs() < 1e-6 { d.abs() < 1e-4 * extent + got } else { d * w > 0.0 || d.abs() <= tol };
        if !same_side(a, s) || !same_side(b, t) {
            return bad("wrong", format!("{}, which is another direction", is));
        }
        let bounded = |m: f64| a.abs() <= m * dx.abs() + tol && b.abs() <= m * dy.abs() + tol;
        match mode {
            Some("min" | "max" | "minmax") => {
                if p.max.is_some_and(|m| got > m * (1.0 + 1e-9) + tol) || p.min.is_some_and(|m| got < m * (1.0 - 1e-9) - tol) {
                    return bad("wrong", format!("{}, by {}", is, got));
                }
                if s.abs() > 1e-2 && t.abs() > 1e-2 && b.abs() > 1e-5 && a.abs() > 1e-5 && !once(2, (b / a) / (t / s)) {
                    return bad("wrong", format!("{}, which is another direction than that of other arrows", is));
                }
            }
            m => {
                if p.cartesian && !bounded(if m == Some("full_node") { 1.0 } else { 0.5 * factor }) {
                    return bad("wrong", format!("{} with cells of {} by {}", is, dx, dy));
                }
                if s.abs() > 1e-2 && a.abs() > 1e-5 && !once(0, a / s) || t.abs() > 1e-2 && b.abs() > 1e-5 && !once(1, b / t) {
                    return bad("wrong", format!("{}, which is another length than that of other arrows", is));
                }
                if got <= tol {
                    return bad("wrong", is);
                }
            }
        }
    }
    Ok(())
}

fn kinds(o: &Out) -> Vec<String> {
    let t: String = part(o, "kinds").iter().map(|c| *c as u8 as char).collect();
    if t.is_empty() {
        vec![]
    } else {
        t.split(',').map(|s| s.to_string()).collect()
    }
}

/// Every cell of both fields as one point, on and off the diagonal.
fn parity(o: &Out, n: usize, a: &Plane, b: &Plane) -> Verdict {
    let kinds = kinds(o);
    let mut want: Vec<[f64; 2]> = a.u.iter().zip(&b.u).map(|(x, y)| [*x, *y]).collect();
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        want.extend(x.iter().zip(y).map(|(x, y)| [*x, *y]));
    }
    let mut have: Vec<[f64; 2]> = vec![];
    for k in 0..n {
        let (x, y) = (part(o, &format!("x {}", k)), part(o, &format!("y {}", k)));
        if x.len() != y.len() {
            return bad("wrong", format!("points with {} and {} coordinates", x.len(), y.len()));
        }
        let points = x.iter().zip(y).map(|(x, y)| [*x, *y]);
        match kinds[k].as_str() {
            "scatter markers" => have.extend(points),
            "scatter lines" => {
                if let Some(q) = points.clone().find(|q| !near(q[0], q[1], 1e-6) && !q[0].is_nan() && !q[1].is_nan()) {
                    return bad("wrong", format!("the line of parity goes through {:?}", q));
                }
            }
            k => return bad("kind", format!("a trace of kind {}", k)),
        }
    }
    for v in [&mut have, &mut want] {
        v.retain(|q| q.iter().all(|x| x.is_finite()));
        v.sort_by(|a, b| a[0].total_cmp(&b[0]).then(a[1].total_cmp(&b[1])));
    }
    if have.len() != want.len() {
        return bad("wrong", format!("{} points are drawn of {}", have.len(), want.len()));
    }
    match have.iter().zip(&want).find(|(a, b)| !near(a[0], b[0], 1e-6) || !near(a[1], b[1], 1e-6)) {
        Some((a, b)) => bad("wrong", format!("there is a point at {:?} instead of {:?}", a, b)),
        None => Ok(()),
    }
}

pub fn judge(p: &Plan, o: Option<&Out>, why: &str, rep: &mut Report) -> Verdict {
    let tag = |v: Verdict| v.map_err(|(c, e)| (c, format!("{}: {}", p.text(), e)));
    rep.judged += 1;
    rep.nontrivial = true;
    if p.refuse {
        rep.probe("refused");
        return match o {
            Some(_) => tag(bad("not-refused", "is drawn")),
            None => Ok(()),
        };
    }
    let Some(o) = o else {
        return tag(bad("fails", why));
    };
    rep.probe(p.method);
    let plane = Plane::of(o, "field", p);
    let other = p.other.map(|_| Plane::of(o, "other", p));
    let kinds = kinds(o);
    let n = kinds.len();
    let is = |k: usize, w: &str| kinds[k].starts_with(w);
    if let Some(w) = p.style {
        if part(o, "opacity").iter().any(|x| *x != w) {
            return tag(bad("style", format!("the style is {:?} instead of {}", part(o, "opacity"), w)));
        }
    }
    if let Some(w) = p.layout {
        if part(o, "layout") != w.map(|x| x as f64) {
            return tag(bad("layout", format!("the layout is {:?} instead of {:?}", part(o, "layout"), w)));
        }
    }
    if let (Some((said, k)), [scale, width]) = (p.save, part(o, "saved")) {
        let mut v = [600, 20, 210];
        v[..k].copy_from_slice(&said[..k]);
        let [dpi, border, paper] = v.map(|x| x as f64);
        let inches = scale * width / dpi;
        if !near(inches * 25.4, paper - 2.0 * border, 1e-3) {
            return tag(bad("saved", format!("a figure of {} dots, scaled by {}, is {} mm wide at {} dpi, between {} mm borders of {} mm", width, scale, inches * 25.4, dpi, border, paper)));
        }
        rep.probe("saved");
    }
    rep.steps += plane.u.len() as u64;
    let one = |w: &str| match (0..n).filter(|k| is(*k, w)).collect::<Vec<_>>()[..] {
        [k] => Ok(k),
        _ => Err(("kind".to_string(), format!("{}: there are {:?}", p.text(), kinds))),
    };
    tag(match p.method {
        "plot" => {
            // the second axis of the plane lies along the figure
            let (k, v) = (one("heatmap")?, plane.values());
            map(o, k, &plane, &v).or_else(|e| mapped(o, k, &plane, &v, true).map_err(|_| e))
        }
        "scalar_map" => {
            let k = one("heatmap")?;
            map(o, k, &plane, &plane.values()).and_then(|_| scale(o, k, p))
        }
        "scalar_contour" => {
            let k = one("contour")?;
            let v = plane.values();
            let (low, high) = (least(&v), most(&v));
            map(o, k, &plane, &v).and_then(|_| scale(o, k, p)).and_then(|_| match part(o, &format!("contours {}", k)) {
                [a, b, size] if !near(*a, low, 1e-6) || !near(*b, high, 1e-6) || high > low && !(*size > 0.0 && *size <= high - low) => {
                    bad("wrong", format!("contours from {} to {} by {} of values from {} to {}", a, b, size, low, high))
                }
                _ => Ok(()),
            })
        }
        "parity_map" | "parity_contour" => {
            let w: Vec<f64> = plane.values().iter().zip(other.as_ref().unwrap().values()).map(|(a, b)| a - b).collect();
            map(o, one(if n == 1 && is(0, "contour") { "contour" } else { "heatmap" })?, &plane, &w)
        }
        "parity_plot" => parity(o, n, &plane, other.as_ref().unwrap()),
        m => {
            if m == "unit_vector_plot" {
                let k = one("heatmap")?;
                map(o, k, &plane, &plane.values()).and_then(|_| scale(o, k, p)).map_err(|(c, e)| (c, format!("{}: {}", p.text(), e)))?;
            }
            arrows(o, n, p, &plane, None)
        }
    })?;
    match p.direct {
        Some(_) => tag(judge_direct(p, o, rep).map_err(|(c, e)| (c, format!("made in Rust, {}", e)))),
        None => Ok(()),
    }
}
