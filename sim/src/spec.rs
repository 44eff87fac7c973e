//! Grids and selections as plain specifications: how the real ones are built from
//! them and what they mean (the reference).

use crate::data::{length, Ds, Row, CLOUD};
use crate::rng::{h, hf, Rng};
use upppp_rust::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, ParticleSelector};

#[derive(Clone, Debug)]
pub struct GridSpec {
    pub cyl: bool,
    pub cells: [usize; 3],
    pub lim: [[f64; 2]; 3],
}

pub enum Where {
    Outside,
    In([usize; 3]),
    /// too close to an edge to say which side rounding puts it
    Unclear,
}

const PI: f64 = std::f64::consts::PI;

impl GridSpec {
    /// seed 0 is the simplest grid: one cell around everything
    pub fn generate(seed: u64) -> GridSpec {
        if seed == 0 {
            return GridSpec { cyl: false, cells: [1; 3], lim: [[-9.0 * length(), 9.0 * length()]; 3] };
        }
        let mut r = Rng::new(h(&[seed, 100]));
        let cyl = r.chance(0.4);
        let mut cells = [0; 3];
        for c in cells.iter_mut() {
            *c = *r.pick(&[1, 1, 2, 3, 4, 5]);
        }
        // now and then finer than usual along one axis
        if r.chance(0.04) {
            cells[r.below(3) as usize] = r.range(10, 64) as usize;
        }
        let mut lim = [[0.0; 2]; 3];
        let style = r.below(5);
        for l in lim.iter_mut() {
            *l = match style {
                // the nice walls on which samples are put
                0 | 1 => [-5.0, 5.0],
                2 => [-9.0 - r.unit(), 9.0 + r.unit()],
                3 => {
                    let a = r.uniform(-6.0, 3.0);
                    [a, a + r.uniform(1.0, 7.0)]
                }
                _ => {
                    let c = r.uniform(-1.0, 1.0);
                    let d = r.uniform(2.0, 8.0);
                    [c - d, c + d]
                }
            };
        }
        if style == 1 {
            lim[2] = [-5.0, 1.0 + r.unit()];
        }
        for x in lim.iter_mut().flatten() {
            *x *= length();
        }
        GridSpec { cyl, cells, lim }
    }

    pub fn build(&self) -> Box<dyn GridFunctions3D> {
        if self.cyl {
            Box::new(CylindricalGrid3D::new(self.cells, Dim::ThreeD(self.lim), "volume"))
        } else {
            Box::new(CartesianGrid3D::new(self.cells, Dim::ThreeD(self.lim)))
        }
    }

    pub fn center(&self) -> [f64; 2] {
        [(self.lim[0][0] + self.lim[0][1]) / 2.0, (self.lim[1][0] + self.lim[1][1]) / 2.0]
    }
    pub fn radius(&self) -> f64 {
        let c = self.center();
        (self.lim[0][1] - c[0]).max(self.lim[1][1] - c[1])
    }
    /// Where the cells are: in a Cartesian grid their middles; in a cylindrical one the mean radius of each
    /// ring and the upper ends of angle and height.  Then the limits and the numbers of cells.
    pub fn axes(&self) -> Vec<f64> {
        let pi = std::f64::consts::PI;
        let mut v = vec![];
        let mut lim = self.lim;
        if self.cyl {
            let n = self.cells[0] as f64;
            let edge = |i: usize| self.radius() * (i as f64 / n).sqrt();
            v.extend((0..self.cells[0]).map(|i| (edge(i) + edge(i + 1)) / 2.0));
            lim = [[0.0, self.radius()], [-pi, pi], self.lim[2]];
        }
        let (first, at) = if self.cyl { (1, 1.0) } else { (0, 0.5) };
        for a in first..3 {
            let d = (lim[a][1] - lim[a][0]) / self.cells[a] as f64;
            v.extend((0..self.cells[a]).map(|i| lim[a][0] + d * (i as f64 + at)));
        }
        v.extend(lim.iter().flatten());
        v.extend(self.cells.map(|n| n as f64));
        v
    }
    /// lower and upper limit and number of cells along an axis of the grid itself
    pub fn along(&self, axis: usize) -> (f64, f64, usize) {
        let [lo, hi] = match (self.cyl, axis) {
            (true, 0) => [0.0, self.radius()],
            (true, 1) => [-PI, PI],
            _ => self.lim[axis],
        };
        (lo, hi, self.cells[axis])
    }
    /// where the i-th layer along an axis begins and ends
    pub fn edges(&self, axis: usize, i: usize) -> (f64, f64) {
        let (lo, hi, n) = self.along(axis);
        let at = |i: usize| {
            let x = i as f64 / n as f64;
            // rings of equal area
            lo + (hi - lo) * if self.cyl && axis == 0 { x.sqrt() } else { x }
        };
        (at(i), at(i + 1))
    }
    pub fn ncells(&self) -> usize {
        self.cells[0] * self.cells[1] * self.cells[2]
    }
    pub fn flat(&self, c: [usize; 3]) -> usize {
        (c[0] * self.cells[1] + c[1]) * self.cells[2] + c[2]
    }

    /// cell along an axis that is divided into n equal parts; walls inclusive
    fn axis(x: f64, lo: f64, hi: f64, n: usize) -> Where1 {
        if x == lo {
            return Where1::In(0);
        }
        if x == hi {
            return Where1::In(n - 1);
        }
        let eps = 1e-9 * (hi - lo);
        if (x - lo).abs() < eps || (x - hi).abs() < eps {
            return Where1::Unclear;
        }
        if x < lo || x > hi {
            return Where1::Outside;
        }
        for i in 0..n {
            let edge = lo + (hi - lo) * (i + 1) as f64 / n as f64;
            if i + 1 < n && (x - edge).abs() < eps {
                return Where1::Unclear;
            }
            if x < edge {
                return Where1::In(i);
            }
        }
        Where1::In(n - 1)
    }

    pub fn locate(&self, p: &[f64; 3]) -> Where {
        if p.iter().any(|x| x.is_nan()) {
            return Where::Outside;
        }
        let mut cell = [0; 3];
        let mut unclear = false;
        let axes: [Where1; 3] = if !self.cyl {
            std::array::from_fn(|a| Self::axis(p[a], self.lim[a][0], self.lim[a][1], self.cells[a]))
        } else {
            let c = self.center();
            let (x, y) = (p[0] - c[0], p[1] - c[1]);
            let (r, big) = ((x * x + y * y).sqrt(), self.radius());
            let ring = |_: ()| -> Where1 {
                if r == big && length() == 1.0 && x.fract() == 0.0 && y.fract() == 0.0 {
                    return Where1::In(self.cells[0] - 1);
                }
                if (r - big).abs() < 1e-9 * big || r < 1e-6 * big {
                    return Where1::Unclear;
                }
                if r > big {
                    return Where1::Outside;
                }
                // rings of equal area
                for i in 0..self.cells[0] {
                    let edge = big * ((i + 1) as f64 / self.cells[0] as f64).sqrt();
                    if i + 1 < self.cells[0] && (r - edge).abs() < 1e-9 * big {
                        return Where1::Unclear;
                    }
                    if r < edge {
                        return Where1::In(i);
                    }
                }
                Where1::In(self.cells[0] - 1)
            };
            let theta = y.atan2(x);
            let turn = if (theta.abs() - PI).abs() < 1e-9 {
                Where1::Unclear
            } else {
                Self::axis(theta, -PI, PI, self.cells[1])
            };
            [ring(()), turn, Self::axis(p[2], self.lim[2][0], self.lim[2][1], self.cells[2])]
        };
        for (a, w) in axes.iter().enumerate() {
            match w {
                Where1::Outside => return Where::Outside,
                Where1::In(i) => cell[a] = *i,
                Where1::Unclear => unclear = true,
            }
        }
        if unclear {
            Where::Unclear
        } else {
            Where::In(cell)
        }
    }
}

enum Where1 {
    Outside,
    In(usize),
    Unclear,
}

#[derive(Clone, Debug)]
pub struct SelSpec {
    pub time: (f64, f64),
    pub radius: Vec<f64>,
    pub clouds: Vec<f64>,
    pub density: Vec<f64>,
    pub ids: Vec<usize>,
}

impl SelSpec {
    pub fn all() -> SelSpec {
        SelSpec {
            time: (f64::MIN, f64::MAX),
            radius: vec![-1.0],
            clouds: vec![-1.0],
            density: vec![-1.0],
            ids: vec![0],
        }
    }
    /// seed 0 selects everything; `heavy` uses all kinds of criteria
    pub fn generate(seed: u64, ds: &Ds, heavy: bool) -> SelSpec {
        let mut s = SelSpec::all();
        if seed == 0 {
            return s;
        }
        let mut r = Rng::new(h(&[seed, 200]));
        let p = if heavy { 0.45 } else { 0.2 };
        let vals = |r: &mut Rng, from: &[f64]| -> Vec<f64> {
            let n = 1 + r.below(4) as usize;
            let mut v: Vec<f64> = (0..n).map(|_| *r.pick(from)).collect();
            if n == 2 && r.chance(0.8) {
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            }
            if n == 2 && r.chance(0.3) {
                v[0] -= 0.1;
                v[1] += 0.1;
            }
            v
        };
        if r.chance(p) {
            s.radius = vals(&mut r, &[0.5, 1.0, 2.0, 3.0]);
        }
        if r.chance(p) {
            let large = if ds.any(|x| x.cloud == CLOUD) { CLOUD } else { 7.0 };
            s.clouds = vals(&mut r, &[1.0, 2.0, 3.0, large]);
        }
        if r.chance(p) {
            s.density = vals(&mut r, &[1.0, 2.5, 8.0, 0.5]);
        }
        if r.chance(p) {
            let ids: Vec<usize> = {
                let mut v: Vec<usize> = ds.steps.iter().flat_map(|s| s.rows.iter().map(|x| x.id as usize)).collect();
                v.sort();
                v.dedup();
                v.push(v.last().copied().unwrap_or(0) + 1);
                v
            };
            let n = 1 + r.below(4) as usize;
            let mut v: Vec<usize> = (0..n).map(|_| *r.pick(&ids)).collect();
            if n == 2 && r.chance(0.8) {
                v.sort();
            }
            if v != [0] {
                // a single zero is the wildcard
                s.ids = v;
            }
        }
        if r.chance(if heavy { 0.5 } else { 0.35 }) {
            let times = &ds.stats.times;
            let pick = |r: &mut Rng| {
                let t = *r.pick(times);
                match r.below(3) {
                    0 => t,
                    1 => t + 0.01 + r.unit(),
                    _ => t - 0.01 - r.unit(),
                }
            };
            let (a, b) = (pick(&mut r), pick(&mut r));
            s.time = (a.min(b), a.max(b));
            if r.chance(0.3) {
                s.time.0 = f64::MIN;
            } else if r.chance(0.3) {
                s.time.1 = f64::MAX;
            }
        }
        s
    }

    pub fn build(&self) -> ParticleSelector {
        ParticleSelector::new(
            self.time,
            self.radius.clone(),
            self.clouds.clone(),
            self.density.clone(),
            self.ids.clone(),
        )
    }

    fn one(list: &[f64], x: f64) -> bool {
        match list {
            [w, ..] if *w == -1.0 => true,
            [v] => *v == x,
            [lo, hi] => *lo <= x && x <= *hi,
            more => more.iter().any(|v| *v == x),
        }
    }
    pub fn admits(&self, row: &Row) -> bool {
        let ids: Vec<f64> = self.ids.iter().map(|x| *x as f64).collect();
        Self::one(&self.radius, row.radius)
            && Self::one(&self.clouds, row.cloud)
            && Self::one(&self.density, row.density)
            && (self.ids == [0] || Self::one(&ids, row.id))
    }
    pub fn admits_time(&self, t: f64) -> bool {
        self.time.0 <= t && t <= self.time.1
    }
}

/// Parameters of an analysis, derived from a seed and the dataset.
pub fn unit(seed: u64, salt: u64) -> f64 {
    hf(&[seed, 300, salt])
}
pub fn pick(seed: u64, salt: u64, n: u64) -> u64 {
    h(&[seed, 301, salt]) % n
}
