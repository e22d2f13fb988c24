//! The reference model: a B-spline in (almost) exact arithmetic whose semantics is the piecewise
//! polynomial it denotes. All manipulations are defined through blossoms (polar forms) of the
//! polynomial pieces; nothing here follows the algorithms of the implementation
//! (Cox-de Boor recursion, Boehm insertion, knot unclamping).
use crate::dd::*;
use bsplines::curve::{points::Points, Curve};

#[derive(Clone, Debug)]
pub struct Model {
    pub p: usize,
    pub u: Vec<D>,
    /// pts[i][dim]
    pub pts: Vec<Vec<D>>,
}

/// One polynomial piece in Bernstein form for every derivative order.
pub struct Piece {
    pub a: D,
    pub b: D,
    /// ctrl[k][j][dim], k = 0..=p
    pub ctrl: Vec<Vec<Vec<D>>>,
}
pub struct Pieces {
    pub p: usize,
    pub dim: usize,
    pub list: Vec<Piece>,
    /// largest Bernstein coefficient per derivative order
    pub scale: Vec<f64>,
}

impl Model {
    pub fn new(p: usize, u: &[f64], pts: Vec<Vec<f64>>) -> Model {
        Model {
            p,
            u: u.iter().map(|&x| D::from(x)).collect(),
            pts: pts.into_iter().map(|c| c.into_iter().map(D::from).collect()).collect(),
        }
    }
    pub fn of(c: &Curve) -> Model {
        let m = c.points.matrix();
        Model::new(
            c.degree(),
            c.knots.vector().as_slice(),
            (0..m.ncols()).map(|j| m.column(j).iter().copied().collect()).collect(),
        )
    }
    pub fn identity(p: usize, u: Vec<D>) -> Model {
        let n1 = u.len() - p - 1;
        let pts = (0..n1).map(|i| (0..n1).map(|j| if i == j { ONE } else { ZERO }).collect()).collect();
        Model { p, u, pts }
    }
    pub fn n(&self) -> usize {
        self.pts.len() - 1
    }
    pub fn dim(&self) -> usize {
        self.pts[0].len()
    }
    /// Indices s with u[s] < u[s+1] inside the domain [u_p, u_{n+1}].
    pub fn spans(&self) -> Vec<usize> {
        (self.p..=self.n()).filter(|&s| !same(self.u[s], self.u[s + 1])).collect()
    }
    /// Polar form of the polynomial on span `s`.
    pub fn blossom(&self, s: usize, args: &[D]) -> Vec<D> {
        let p = self.p;
        assert_eq!(args.len(), p);
        let mut d: Vec<Vec<D>> = (s - p..=s).map(|i| self.pts[i].clone()).collect();
        for r in 1..=p {
            let t = args[r - 1];
            for j in (r..=p).rev() {
                let i = s - p + j;
                let den = self.u[i + p + 1 - r] - self.u[i];
                let w = (t - self.u[i]) / den;
                let v = ONE - w;
                for x in 0..d[j].len() {
                    d[j][x] = v * d[j - 1][x] + w * d[j][x];
                }
            }
        }
        d.pop().unwrap()
    }
    pub fn pieces(&self) -> Pieces {
        let p = self.p;
        let mut scale = vec![0.0f64; p + 1];
        let mut chain = vec![self.clone()];
        for k in 1..=p {
            let next = chain[k - 1].derive();
            chain.push(next);
        }
        let list = self
            .spans()
            .into_iter()
            .map(|s| {
                let (a, b) = (self.u[s], self.u[s + 1]);
                let h = b - a;
                let mut ctrl: Vec<Vec<Vec<D>>> = vec![];
                for (k, dm) in chain.iter().enumerate() {
                    let q = p - k;
                    ctrl.push(
                        (0..=q)
                            .map(|j| {
                                let args: Vec<D> = (0..q).map(|x| if x < q - j { a } else { b }).collect();
                                dm.blossom(s - k, &args)
                            })
                            .collect(),
                    );
                }
                // self-check on well conditioned spans: the derivative data are the Bernstein differences
                if h.0 > 0.05 && p <= 6 {
                    for k in 1..=p {
                        let f = D::int(p + 1 - k) / h;
                        let big = ctrl[k - 1].iter().flatten().map(|x| x.abs().0).fold(0.0, f64::max);
                        for j in 0..=p - k {
                            for x in 0..self.dim() {
                                let want = f * (ctrl[k - 1][j + 1][x] - ctrl[k - 1][j][x]);
                                assert!((want - ctrl[k][j][x]).abs().0 <= 1e-22 * (big * f.0 + ctrl[k][j][x].abs().0), "model derivative self-check");
                            }
                        }
                    }
                }
                for k in 0..=p {
                    for v in ctrl[k].iter().flatten() {
                        scale[k] = scale[k].max(v.abs().0);
                    }
                }
                Piece { a, b, ctrl }
            })
            .collect();
        Pieces { p, dim: self.dim(), list, scale }
    }
    /// The same function expressed over another knot vector of the same degree that contains all
    /// knots of self inside its domain. `from` maps a span midpoint of the new vector to (model, arg map).
    pub fn refit(&self, u: Vec<D>) -> Model {
        let p = self.p;
        let n1 = u.len() - p - 1;
        let spans = self.spans();
        let mut pts = Vec::with_capacity(n1);
        for i in 0..n1 {
            let s2 = widest(&u, i, p);
            let mid = (u[s2] + u[s2 + 1]) * D(0.5, 0.0);
            let s = *spans.iter().rev().find(|&&s| self.u[s] <= mid).unwrap_or(&spans[0]);
            pts.push(self.blossom(s, &u[i + 1..i + 1 + p]));
        }
        Model { p, u, pts }
    }
    pub fn multiplicity(&self, t: D) -> usize {
        self.u.iter().filter(|&&x| same(x, t)).count()
    }
    pub fn insert(&self, t: D) -> Model {
        let mut u = self.u.clone();
        let at = u.iter().position(|&x| x > t && !same(x, t)).unwrap();
        u.insert(at, t);
        self.refit(u)
    }
    pub fn insert_times(&self, t: D, x: usize) -> Model {
        let mut u = self.u.clone();
        let at = u.iter().position(|&x| x > t && !same(x, t)).unwrap();
        for _ in 0..x {
            u.insert(at, t);
        }
        self.refit(u)
    }
    pub fn reverse(&self) -> Model {
        let mut u: Vec<D> = self.u.iter().map(|&x| ONE - x).collect();
        u.reverse();
        let mut pts = self.pts.clone();
        pts.reverse();
        Model { p: self.p, u, pts }
    }
    pub fn normalized(&self) -> Model {
        let (a, b) = (self.u[0], *self.u.last().unwrap());
        let mut m = self.clone();
        for x in m.u.iter_mut() {
            *x = (*x - a) / (b - a);
        }
        m
    }
    /// Both parts in the original parametrization.
    pub fn split(&self, t: D) -> (Model, Model) {
        let p = self.p;
        let mut l: Vec<D> = self.u.iter().copied().filter(|&x| x < t && !same(x, t)).collect();
        l.extend(std::iter::repeat(t).take(p + 1));
        let mut r: Vec<D> = vec![t; p + 1];
        r.extend(self.u.iter().copied().filter(|&x| x > t && !same(x, t)));
        (self.refit(l), self.refit(r))
    }
    pub fn derive(&self) -> Model {
        let p = self.p;
        let n = self.n();
        let dim = self.dim();
        let u = self.u[1..self.u.len() - 1].to_vec();
        let pts = (0..n)
            .map(|i| {
                let den = self.u[i + p + 1] - self.u[i + 1];
                if den.abs().0 < 1e-22 {
                    vec![ZERO; dim]
                } else {
                    (0..dim).map(|x| D::int(p) * (self.pts[i + 1][x] - self.pts[i][x]) / den).collect()
                }
            })
            .collect();
        Model { p: p - 1, u, pts }
    }
    pub fn derive_times(&self, k: usize) -> Model {
        let mut m = self.clone();
        for _ in 0..k {
            m = m.derive();
        }
        m
    }
    /// k-th derivative at t, taken from the right (or from the left at the end of the domain).
    pub fn eval(&self, t: D, k: usize) -> Vec<D> {
        let pc = self.pieces();
        let i = pc.locate(t);
        pc.eval(i, t, k)
    }
    /// All basis functions' k-th derivatives at t.
    pub fn basis_row(&self, t: D, k: usize) -> Vec<D> {
        Model::identity(self.p, self.u.clone()).eval(t, k)
    }

    /// The merge the library promises: the joint control points are displaced by the least amount that makes
    /// the joint C^{p-1} and keeps each curve's constraint points.
    pub fn merge(a: &Model, b: &Model, ca: &[D], cb: &[D]) -> Option<Merged> {
        let p = a.p;
        let dim = a.dim();
        let (m, o) = (a.n(), b.n());
        let mut rows: Vec<Vec<D>> = vec![];
        let mut rhs: Vec<Vec<D>> = vec![];
        for k in 0..p {
            let wa = a.basis_row(ONE, k);
            let wb = b.basis_row(ZERO, k);
            let mut row: Vec<D> = (0..p).map(|i| wa[m + 1 - p + i]).collect();
            row.extend((0..p).map(|i| -wb[i]));
            let ea = a.eval(ONE, k);
            let eb = b.eval(ZERO, k);
            rows.push(row);
            rhs.push((0..dim).map(|x| eb[x] - ea[x]).collect());
        }
        for &t in ca {
            let w = a.basis_row(t, 0);
            let mut row: Vec<D> = (0..p).map(|i| w[m + 1 - p + i]).collect();
            row.extend(vec![ZERO; p]);
            rows.push(row);
            rhs.push(vec![ZERO; dim]);
        }
        for &t in cb {
            let w = b.basis_row(t, 0);
            let mut row = vec![ZERO; p];
            row.extend((0..p).map(|i| w[i]));
            rows.push(row);
            rhs.push(vec![ZERO; dim]);
        }
        // spectrum of the unscaled system: what a double precision solver faces
        let kept: Vec<&Vec<D>> = rows.iter().filter(|r| r.iter().any(|x| x.abs().0 >= 1e-25)).collect();
        let gram = nalgebra::DMatrix::from_fn(kept.len(), kept.len(), |i, j| {
            kept[i].iter().zip(kept[j]).fold(ZERO, |s, (&x, &y)| s + x * y).f()
        });
        let mut spectrum: Vec<f64> = nalgebra::SymmetricEigen::new(gram).eigenvalues.iter().copied().collect();
        spectrum.sort_by(|a, b| b.total_cmp(a));
        // scale rows, drop those without effect
        let mut min_row = f64::INFINITY;
        let (mut r2, mut b2) = (vec![], vec![]);
        for (row, r) in rows.into_iter().zip(rhs) {
            let s = row.iter().map(|x| x.abs().0).fold(0.0, f64::max);
            if s < 1e-25 {
                continue;
            }
            min_row = min_row.min(s);
            let sd = D(s, 0.0);
            r2.push(row.iter().map(|&x| x / sd).collect::<Vec<D>>());
            b2.push(r.iter().map(|&x| x / sd).collect::<Vec<D>>());
        }
        let g: Vec<Vec<D>> =
            r2.iter().map(|x| r2.iter().map(|y| x.iter().zip(y).fold(ZERO, |s, (&p, &q)| s + p * q)).collect()).collect();
        let (y, rank) = solve(g, b2, 1e-14)?;
        let mut shift = vec![vec![ZERO; dim]; 2 * p];
        for (i, row) in r2.iter().enumerate() {
            for j in 0..2 * p {
                for x in 0..dim {
                    shift[j][x] += row[j] * y[i][x];
                }
            }
        }
        let mut sa = a.clone();
        let mut sb = b.clone();
        for i in 0..p {
            for x in 0..dim {
                sa.pts[m + 1 - p + i][x] += shift[i][x];
                sb.pts[i][x] += shift[p + i][x];
            }
        }
        // merged knots on [0,2]
        let mut u: Vec<D> = a.u[..m + 2].to_vec();
        u.extend(b.u[p + 1..].iter().map(|&x| x + ONE));
        let n1 = u.len() - p - 1;
        debug_assert_eq!(n1, m + o + 2 - p);
        let (spa, spb) = (sa.spans(), sb.spans());
        let mut pts = vec![];
        for i in 0..n1 {
            let s2 = widest(&u, i, p);
            let mid = (u[s2] + u[s2 + 1]) * D(0.5, 0.0);
            if mid < ONE {
                let s = *spa.iter().rev().find(|&&s| sa.u[s] <= mid).unwrap();
                pts.push(sa.blossom(s, &u[i + 1..i + 1 + p]));
            } else {
                let mid = mid - ONE;
                let s = *spb.iter().rev().find(|&&s| sb.u[s] <= mid).unwrap();
                let args: Vec<D> = u[i + 1..i + 1 + p].iter().map(|&x| x - ONE).collect();
                pts.push(sb.blossom(s, &args));
            }
        }
        let half = D(0.5, 0.0);
        let u = u.into_iter().map(|x| x * half).collect();
        Some(Merged { curve: Model { p, u, pts }, a: sa, b: sb, shift, smallest: spectrum[rank - 1], min_row })
    }
}

/// The widest span in the support of basis function i: blossoming there does not extrapolate far.
fn widest(u: &[D], i: usize, p: usize) -> usize {
    // inside the domain, if the basis function lives there at all
    let (lo, hi) = (i.max(p), (i + p).min(u.len() - p - 2));
    let s = (lo..=hi).max_by(|&a, &b| (u[a + 1] - u[a]).f().total_cmp(&(u[b + 1] - u[b]).f())).unwrap();
    assert!(!same(u[s], u[s + 1]), "model: empty basis support");
    s
}

pub struct Merged {
    pub curve: Model,
    /// the two displaced input curves
    pub a: Model,
    pub b: Model,
    pub shift: Vec<Vec<D>>,
    /// smallest non-zero eigenvalue of the Gram matrix of the conditions (square of the smallest singular value)
    pub smallest: f64,
    pub min_row: f64,
}

impl Pieces {
    pub fn locate(&self, t: D) -> usize {
        let mut i = 0;
        for (j, pc) in self.list.iter().enumerate() {
            if t > pc.a || same(t, pc.a) {
                i = j;
            }
        }
        i
    }
    /// k-th derivative of piece i at local coordinate w in [0,1]
    pub fn eval_local(&self, i: usize, w: D, k: usize) -> Vec<D> {
        if k > self.p {
            return vec![ZERO; self.dim];
        }
        let mut d = self.list[i].ctrl[k].clone();
        let v = ONE - w;
        while d.len() > 1 {
            for j in 0..d.len() - 1 {
                for x in 0..self.dim {
                    d[j][x] = v * d[j][x] + w * d[j + 1][x];
                }
            }
            d.pop();
        }
        d.pop().unwrap()
    }
    pub fn eval(&self, i: usize, t: D, k: usize) -> Vec<D> {
        let pc = &self.list[i];
        self.eval_local(i, (t - pc.a) / (pc.b - pc.a), k)
    }
}

/// Cox-de Boor definition (right-continuous, last interval closed): an independent second oracle, used to
/// validate the model itself.
pub fn cox_de_boor(u: &[D], i: usize, p: usize, t: D) -> D {
    let last = *u.last().unwrap();
    if p == 0 {
        let inside = (u[i] <= t && t < u[i + 1]) || (same(t, last) && same(u[i + 1], last) && !same(u[i], u[i + 1]));
        return if inside { ONE } else { ZERO };
    }
    let mut s = ZERO;
    if !same(u[i + p], u[i]) {
        s += (t - u[i]) / (u[i + p] - u[i]) * cox_de_boor(u, i, p - 1, t);
    }
    if !same(u[i + p + 1], u[i + 1]) {
        s += (u[i + p + 1] - t) / (u[i + p + 1] - u[i + 1]) * cox_de_boor(u, i + 1, p - 1, t);
    }
    s
}
