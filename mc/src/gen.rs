//! Alphabets: knot vectors, control point sets, parameters and positions.
use crate::engine::*;
use bsplines::curve::{knots::Knots, points::ControlPoints, Curve};
use nalgebra::{DMatrix, DVector};

#[derive(Clone, Debug, PartialEq)]
pub struct Kn {
    pub p: usize,
    pub u: Vec<f64>,
}
impl Kn {
    /// Clamped knot vector from interior breakpoints and multiplicities.
    pub fn clamped(p: usize, inner: &[f64], mult: &[usize]) -> Kn {
        let mut u = vec![0.0; p + 1];
        for (x, m) in inner.iter().zip(mult) {
            u.extend(std::iter::repeat(*x).take(*m));
        }
        u.extend(vec![1.0; p + 1]);
        Kn { p, u }
    }
    pub fn simple(p: usize, inner: &[f64]) -> Kn {
        Kn::clamped(p, inner, &vec![1; inner.len()])
    }
    pub fn n1(&self) -> usize {
        self.u.len() - self.p - 1
    }
    pub fn max_mult(&self) -> usize {
        let inner = &self.u[self.p + 1..self.u.len() - self.p - 1];
        inner.iter().map(|x| inner.iter().filter(|y| *y == x).count()).max().unwrap_or(0)
    }
    pub fn knots(&self) -> Knots {
        Knots::new(self.p, DVector::from_vec(self.u.clone()))
    }
    pub fn min_gap(&self) -> f64 {
        self.u.windows(2).map(|w| w[1] - w[0]).filter(|d| *d > 0.0).fold(1.0, f64::min)
    }
}
impl std::fmt::Display for Kn {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "p={} U={:?}", self.p, self.u)
    }
}

pub fn mults(len: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|v| {
                (1..=max).map(move |m| {
                    let mut w = v.clone();
                    w.push(m);
                    w
                })
            })
            .collect();
    }
    out
}
pub fn uniform_inner(b: usize) -> Vec<f64> {
    (1..=b).map(|i| i as f64 / (b + 1) as f64).collect()
}
pub const T20: f64 = 1.0 / 1048576.0;
pub const T40: f64 = T20 * T20;

/// Every multiplicity pattern (1..=p+1 per interior knot) over the breakpoint sets, plus long simple vectors.
pub fn knot_space(t: Tier) -> Vec<Kn> {
    let q = t == Tier::Quick;
    let pmax = t.pick(4, 5, 6);
    let mut sets: Vec<Vec<f64>> = vec![
        vec![],
        vec![0.5],
        vec![1.0 / 3.0],
        vec![0.1],
        vec![0.7],
        vec![T20],
        vec![1.0 - T20],
        vec![1.0 / 3.0, 2.0 / 3.0],
        vec![0.25, 0.5],
        vec![0.1, 0.7],
        vec![0.5, 0.5 + T20],
        vec![0.25, 0.5, 0.75],
        vec![0.1, 0.2, 0.7],
        vec![T40],
        vec![1.0 - T40],
        vec![0.5, next_up(0.5)],
        vec![0.3, 0.3 + T40],
    ];
    if !q {
        sets.extend([
            vec![0.9],
            vec![0.6, 0.95],
            vec![next_down(0.3), 0.3],
            vec![0.01, 0.5, 0.99],
            vec![0.3, 0.3 + T20, 0.3 + 2.0 * T20],
            vec![0.6, 0.8, 0.9],
        ]);
    }
    let mut v = vec![];
    for p in 1..=pmax {
        for s in &sets {
            for m in mults(s.len(), p + 1) {
                v.push(Kn::clamped(p, s, &m));
            }
        }
    }
    if !q {
        for p in 1..=3 {
            for s in [uniform_inner(4), vec![0.05, 0.3, 0.4, 0.8]] {
                for m in mults(4, p + 1) {
                    v.push(Kn::clamped(p, &s, &m));
                }
            }
        }
        for p in 1..=2 {
            for m in mults(5, p + 1) {
                v.push(Kn::clamped(p, &uniform_inner(5), &m));
            }
        }
    }
    if t == Tier::Deep {
        for m in mults(4, 5) {
            v.push(Kn::clamped(4, &[0.05, 0.3, 0.4, 0.8], &m));
        }
        for p in 1..=3 {
            for m in mults(5, p + 1) {
                v.push(Kn::clamped(p, &golden(5), &m));
            }
        }
        for p in 1..=2 {
            for m in mults(6, p + 1) {
                v.push(Kn::clamped(p, &golden(6), &m));
            }
        }
        for m in mults(9, 2) {
            v.push(Kn::clamped(1, &golden(9), &m));
        }
    }
    v.extend(long_knots(t));
    v
}
/// The knot space in words.
pub fn space_text(t: Tier) -> String {
    let (sets, b, p, spans, deg) = t.pick((17, 3, 4, 71, 12), (23, 5, 5, 131, 16), (26, 9, 6, 258, 17));
    let huge = t.pick(300, 401, 401);
    format!("all interior knot multiplicities 1..=p+1 over {sets} breakpoint sets with up to {b} breakpoints (all sets with up to 3 for p <= {p}), spans down to one unit in the last place, plus simple knot vectors with up to {spans} (one family {huge}) spans and degrees up to {deg}")
}
/// Simple interior knots, many spans and high degrees.
pub fn long_knots(t: Tier) -> Vec<Kn> {
    let mut v = vec![];
    let lens: &[usize] = t.pick(&[4, 7, 12, 21], &[4, 5, 6, 7, 8, 9, 12, 16, 21, 33], &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 33, 48]);
    for p in 1..=4 {
        for &b in lens {
            v.push(Kn::simple(p, &uniform_inner(b)));
        }
        // quadratically graded
        v.push(Kn::simple(p, &(1..8).map(|i| (i * i) as f64 / 64.0).collect::<Vec<_>>()));
    }
    let high: &[usize] = t.pick(&[5, 6, 8], &[5, 6, 7, 8, 9, 10], &[5, 6, 7, 8, 9, 10, 11]);
    for &p in high {
        for b in [vec![], vec![0.5], vec![0.25, 0.75], vec![0.1, 0.2, 0.7]] {
            v.push(Kn::simple(p, &b));
        }
        v.push(Kn::clamped(p, &[0.5], &[p]));
        v.push(Kn::clamped(p, &[0.3, 0.6], &[2, p + 1]));
    }
    v
}
/// Irregularly spaced breakpoints (multiples of the golden ratio modulo one).
pub fn golden(b: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (1..=b).map(|i| (i as f64 * 0.6180339887498949).fract()).collect();
    v.sort_by(|a, b| a.total_cmp(b));
    v
}
/// Sizes far beyond the exhaustive part of the space: many spans, high degrees, many repeated knots.
pub fn tail_space(t: Tier) -> Vec<Kn> {
    let mut v = vec![];
    for p in 1..=4 {
        for &b in t.pick(&[40, 70][..], &[40, 64, 70, 101, 130][..], &[40, 64, 70, 101, 130, 200, 257][..]) {
            v.push(Kn::simple(p, &uniform_inner(b)));
            v.push(Kn::simple(p, &golden(b)));
        }
        let m: Vec<usize> = (0..15).map(|i| i % (p + 1) + 1).collect();
        v.push(Kn::clamped(p, &golden(15), &m));
    }
    for &p in t.pick(&[7, 9, 11, 12][..], &[7, 9, 11, 12, 13, 14, 16][..], &[7, 9, 11, 12, 13, 14, 15, 16, 17][..]) {
        for b in [vec![], vec![0.5], vec![0.1, 0.2, 0.7]] {
            v.push(Kn::simple(p, &b));
        }
        v.push(Kn::clamped(p, &[0.5], &[p]));
        v.push(Kn::clamped(p, &[0.3, 0.6], &[2, p + 1]));
    }
    v
}
/// More spans and control points than fit a byte; combine with few control point families.
pub fn huge_space(t: Tier) -> Vec<Kn> {
    let mut v = vec![Kn::simple(2, &golden(299))];
    if t != Tier::Quick {
        v.push(Kn::simple(1, &uniform_inner(400)));
        v.push(Kn::simple(3, &golden(300)));
        let m: Vec<usize> = (0..130).map(|i| i % 4 + 1).collect();
        v.push(Kn::clamped(3, &golden(130), &m));
    }
    v
}
/// Smaller space for checks that multiply it with other alphabets.
pub fn small_space(t: Tier) -> Vec<Kn> {
    let q = t == Tier::Quick;
    let sets: Vec<Vec<f64>> =
        vec![vec![], vec![0.5], vec![0.7], vec![1.0 / 3.0, 2.0 / 3.0], vec![0.1, 0.7], vec![0.1, 0.2, 0.7]];
    let mut v = vec![];
    if t == Tier::Deep {
        for s in &sets {
            for m in mults(s.len(), 6) {
                v.push(Kn::clamped(5, s, &m));
            }
        }
        for p in 1..=2 {
            for m in mults(4, p + 1) {
                v.push(Kn::clamped(p, &golden(4), &m));
            }
        }
    }
    for p in 1..=(if q { 3 } else { 4 }) {
        for s in &sets {
            for m in mults(s.len(), p + 1) {
                v.push(Kn::clamped(p, s, &m));
            }
        }
    }
    if q {
        for s in &sets[..5] {
            for m in mults(s.len(), 5) {
                v.push(Kn::clamped(4, s, &m));
            }
        }
    }
    for p in 1..=4 {
        v.push(Kn::simple(p, &uniform_inner(9)));
    }
    v.push(Kn::simple(5, &[0.2, 0.6]));
    v.push(Kn::clamped(6, &[0.4], &[3]));
    v
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    f64::from_bits(if x > 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}
pub fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pts {
    /// unit vectors: one basis function per coordinate, decides every control polygon by linearity
    Unit,
    /// generic integers in -9..=9, dimension d
    Gen(usize),
    Const,
    Zero,
    Line,
    Alt,
    /// closed polygon with repeated points
    Closed,
    Big,
    Tiny,
    /// far from the origin
    Far,
    /// coordinates of very different magnitude
    Mixed,
    Neg0,
    /// subnormal coordinates
    Sub,
}
pub const ALL_PTS: [Pts; 15] = [
    Pts::Unit,
    Pts::Gen(1),
    Pts::Gen(2),
    Pts::Gen(3),
    Pts::Gen(5),
    Pts::Gen(9),
    Pts::Const,
    Pts::Zero,
    Pts::Line,
    Pts::Alt,
    Pts::Closed,
    Pts::Big,
    Pts::Tiny,
    Pts::Far,
    Pts::Mixed,
];
impl Pts {
    pub fn cols(self, n1: usize, seed: u64) -> Vec<Vec<f64>> {
        let mut s = seed ^ 0x5bd1e995;
        let mut int = |_: usize| (splitmix(&mut s) % 19) as f64 - 9.0;
        match self {
            Pts::Unit => (0..n1).map(|i| (0..n1).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect(),
            Pts::Gen(d) => (0..n1).map(|_| (0..d).map(&mut int).collect()).collect(),
            Pts::Const => (0..n1).map(|_| vec![3.0, -2.0]).collect(),
            Pts::Zero => (0..n1).map(|_| vec![0.0]).collect(),
            Pts::Line => (0..n1).map(|i| vec![i as f64, 2.0 * i as f64 - 1.0]).collect(),
            Pts::Alt => (0..n1).map(|i| vec![if i % 2 == 0 { 1.0 } else { -1.0 }]).collect(),
            Pts::Closed => (0..n1)
                .map(|i| match i {
                    _ if i == n1 - 1 || i == 0 => vec![1.0, 1.0],
                    _ => vec![((i / 2) % 3) as f64, -((i / 3) as f64)],
                })
                .collect(),
            Pts::Big => (0..n1).map(|_| (0..2).map(|i| int(i) * 2f64.powi(40)).collect()).collect(),
            Pts::Tiny => (0..n1).map(|_| (0..2).map(|i| int(i) * 2f64.powi(-40)).collect()).collect(),
            Pts::Far => (0..n1).map(|_| (0..2).map(|i| int(i) + 4096.0).collect()).collect(),
            Pts::Mixed => (0..n1).map(|_| vec![int(0) * 2f64.powi(30), int(1), int(2) * 2f64.powi(-30)]).collect(),
            Pts::Sub => (0..n1).map(|_| vec![int(0) * 2f64.powi(-1074), int(1) * 2f64.powi(-1030)]).collect(),
            Pts::Neg0 => (0..n1).map(|_| vec![-0.0, 0.0]).collect(),
        }
    }
}
pub fn mat(cols: &[Vec<f64>]) -> DMatrix<f64> {
    DMatrix::from_fn(cols[0].len(), cols.len(), |r, c| cols[c][r])
}
pub fn cols_of(m: &DMatrix<f64>) -> Vec<Vec<f64>> {
    (0..m.ncols()).map(|j| m.column(j).iter().copied().collect()).collect()
}

/// Build the real curve (through the public constructor).
pub fn build(k: &Kn, cols: &[Vec<f64>], exec: &dyn Fn() -> String) -> Result<Curve, Fail> {
    match call(|| Curve::new(k.knots(), ControlPoints::new(mat(cols)))) {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => fail(exec(), format!("Curve::new refused a valid curve: {e:?}")),
        Err(e) => fail(exec(), format!("Curve::new {e}")),
    }
}
pub fn curve_hash(c: &Curve) -> u128 {
    let mut h = Hash::new();
    h.u(c.degree() as u64);
    let km = c.knots.max_derivative();
    for k in 0..=km {
        h.u(c.knots.vector_derivative(k).len() as u64);
        h.fs(c.knots.vector_derivative(k).iter());
    }
    for k in 0..=c.points.max_derivative() {
        let m = c.points.matrix_derivative(k);
        h.u(m.nrows() as u64).u(m.ncols() as u64);
        h.fs(m.iter());
    }
    h.done()
}
/// Everything observable about a curve, bit for bit.
pub fn bits(c: &Curve) -> Vec<u64> {
    let mut v = vec![c.degree() as u64, c.knots.max_derivative() as u64, c.points.max_derivative() as u64];
    for k in 0..=c.knots.max_derivative() {
        v.push(c.knots.vector_derivative(k).len() as u64);
        v.extend(c.knots.vector_derivative(k).iter().map(|x| x.to_bits()));
    }
    for k in 0..=c.points.max_derivative() {
        let m = c.points.matrix_derivative(k);
        v.push(m.nrows() as u64);
        v.push(m.ncols() as u64);
        v.extend(m.iter().map(|x| x.to_bits()));
    }
    v
}

/// Distinct values in order.
pub fn distinct(u: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = u.to_vec();
    v.dedup();
    v
}
/// Parameters: p+1 points inside each span (enough to decide a polynomial of degree p), all knots, their
/// floating point neighbours, and the special values next to 0 and 1.
pub fn params(k: &Kn) -> Vec<f64> {
    let d = distinct(&k.u);
    let mut v = vec![-0.0, f64::from_bits(1), f64::MIN_POSITIVE, 1e-300, f64::EPSILON, 1.0 - f64::EPSILON];
    for w in d.windows(2) {
        let (a, b) = (w[0], w[1]);
        for j in 0..=k.p {
            let f = (2 * j + 1) as f64 / (2 * k.p + 2) as f64;
            v.push(a + (b - a) * f);
        }
    }
    for &x in &d {
        v.push(x);
        if x > 0.0 {
            v.push(next_down(x));
        }
        if x < 1.0 {
            v.push(next_up(x));
        }
    }
    v.retain(|x| (0.0..=1.0).contains(x));
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}
/// Positions for insertion and splitting: span midpoints, all interior knots, points next to them.
pub fn positions(k: &Kn, fine: bool) -> Vec<f64> {
    let d = distinct(&k.u);
    let mut v = vec![];
    for w in d.windows(2) {
        v.push(0.5 * (w[0] + w[1]));
        if fine {
            v.push(w[0] + (w[1] - w[0]) * 0.3);
        }
    }
    for &x in &d {
        v.push(x);
        v.push(x - T20);
        v.push(x + T20);
        if fine {
            v.push(x - T40);
            v.push(x + T40);
            if x > 0.0 && x < 1.0 {
                v.push(next_up(x));
                v.push(next_down(x));
            }
        }
    }
    v.retain(|x| *x > 0.0 && *x < 1.0);
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup();
    if k.n1() > 290 {
        // huge: a few positions over the whole range (37 is coprime to the pattern per knot)
        v = v.into_iter().enumerate().filter(|(i, _)| i % 37 == 36).map(|(_, x)| x).collect();
    }
    v
}
