//! Comparison of a real curve with the reference model, with running error bounds.
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::{points::Points, Curve};

pub const EPS: f64 = f64::EPSILON;
pub type Ex<'a> = &'a dyn Fn() -> String;

/// Bounds on the rounding error of correct code: `e[k][i]` for the i-th control point of order k when the
/// control points carry relative errors `pt` and the knots absolute errors `kn`.
pub struct Bound {
    p: usize,
    u: Vec<f64>,
    e: Vec<Vec<f64>>,
    a: Vec<Vec<f64>>,
    kn: f64,
}
fn gap(u: &[f64]) -> f64 {
    u.windows(2).map(|w| w[1] - w[0]).filter(|d| *d > 0.0).fold(f64::INFINITY, f64::min)
}
impl Bound {
    /// `s0`: magnitude of the control points the curve was computed from.
    pub fn new(m: &Model, pt: f64, kn: f64, s0: f64) -> Bound {
        let p = m.p;
        let u: Vec<f64> = m.u.iter().map(|x| x.f()).collect();
        let absmax = |pts: &Vec<Vec<D>>| -> Vec<f64> {
            pts.iter().map(|c| c.iter().map(|x| x.abs().0).fold(0.0, f64::max)).collect()
        };
        let a0 = absmax(&m.pts);
        let n = m.n();
        let local = |i: usize| (i.saturating_sub(p)..=(i + p).min(n)).map(|j| a0[j]).fold(0.0, f64::max);
        let c = 32.0 * (p + 1) as f64 * EPS;
        let mut e = vec![(0..=n)
            .map(|i| {
                let h = gap(&u[i..=i + p + 1]);
                (pt + c + kn * (p + 1) as f64 / h) * local(i).max(s0)
            })
            .collect::<Vec<f64>>()];
        let mut a = vec![a0.clone()];
        let mut dm = m.clone();
        for k in 1..=p {
            dm = dm.derive();
            let ak = absmax(&dm.pts);
            let ek = (0..=n - k)
                .map(|i| {
                    let den = u[i + p + 1] - u[i + k];
                    if den <= 1e-28 {
                        0.0
                    } else {
                        (p + 1 - k) as f64 / den * (e[k - 1][i] + e[k - 1][i + 1]) + (c + 2.0 * kn / den) * ak[i]
                    }
                })
                .collect();
            e.push(ek);
            a.push(ak);
        }
        Bound { p, u, e, a, kn }
    }
    pub fn point(&self, i: usize) -> f64 {
        self.e[0][i] + 1e-300
    }
    /// i-th control point of derivative order k
    pub fn order(&self, k: usize, i: usize) -> f64 {
        4.0 * self.e[k][i] + 1e-300
    }
    pub fn span(&self, s: usize, k: usize) -> f64 {
        let p = self.p;
        if k > p {
            return 0.0;
        }
        let h = gap(&self.u[s - p..=s + p + 1]);
        let c = 32.0 * (p + 1) as f64 * EPS + self.kn * (p + 1) as f64 / h;
        (s - p..=s - k).map(|i| 4.0 * self.e[k][i] + c * self.a[k][i]).fold(0.0, f64::max) + 1e-300
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum KnotCmp {
    Exact,
    Near,
}
pub struct Want<'a> {
    pub m: &'a Model,
    pub knots: KnotCmp,
    /// allowed relative error of control points beyond rounding
    pub pt: f64,
    /// magnitude of the control points of the pre-state
    pub s0: f64,
    /// evaluate derivatives 0..=kmax inside every span
    pub kmax: Option<usize>,
}

fn show(v: &[f64]) -> String {
    format!("{v:?}")
}

/// Internal consistency of a curve value: counts, order, derivative data.
pub fn consistent(ex: Ex, c: &Curve, what: &str) -> Res {
    consistent_ends(ex, c, what, true)
}
pub fn consistent_ends(ex: Ex, c: &Curve, what: &str, clamped: bool) -> Res {
    let r = call(|| -> Result<(), String> {
        let p = c.degree();
        let u = c.knots.vector();
        let m = c.points.matrix();
        if c.knots.degree() != p {
            return Err("degree() disagrees with knots.degree()".into());
        }
        if u.len() != m.ncols() + p + 1 {
            return Err(format!("{} knots but {} control points of degree {p}", u.len(), m.ncols()));
        }
        if c.segments() + 1 != m.ncols() || c.knots.segments() + 1 != m.ncols() {
            return Err(format!("segments() = {}, knots.segments() = {} for {} control points", c.segments(), c.knots.segments(), m.ncols()));
        }
        if c.dimension() != m.nrows() {
            return Err("dimension() is wrong".into());
        }
        if u.iter().any(|x| !x.is_finite()) || u.as_slice().windows(2).any(|w| w[0] > w[1]) {
            return Err(format!("knots not sorted: {:?}", u.as_slice()));
        }
        if clamped && u.as_slice()[..=p].iter().any(|x| *x != u[0]) || clamped && u.as_slice()[u.len() - p - 1..].iter().any(|x| *x != u[u.len() - 1]) {
            return Err(format!("knots not clamped: {:?}", u.as_slice()));
        }
        if c.max_derivative() != p {
            return Err(format!("max_derivative() = {} for degree {p}", c.max_derivative()));
        }
        for k in 1..=p {
            let uk = c.knots.vector_derivative(k);
            if uk.as_slice() != &u.as_slice()[k..u.len() - k] {
                return Err(format!("derivative knots of order {k} are {:?} for knots {:?}", uk.as_slice(), u.as_slice()));
            }
            let mk = c.points.matrix_derivative(k);
            if mk.ncols() + k != m.ncols() || mk.nrows() != m.nrows() {
                return Err(format!("derivative control points of order {k} have shape {}x{}", mk.nrows(), mk.ncols()));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => fail(ex(), format!("{what}: inconsistent curve: {e}")),
    }
}

/// The real curve is the model curve: structure, knots, control points, values and derivatives.
pub fn agree(rec: &mut Rec, ex: Ex, c: &Curve, w: &Want, what: &str) -> Res {
    agree_ends(rec, ex, c, w, what, true)
}
/// The same for curves whose ends need not be clamped.
pub fn agree_ends(rec: &mut Rec, ex: Ex, c: &Curve, w: &Want, what: &str, clamped: bool) -> Res {
    consistent_ends(ex, c, what, clamped)?;
    let m = w.m;
    let p = m.p;
    if c.degree() != p {
        return fail(ex(), format!("{what}: degree {} instead of {p}", c.degree()));
    }
    let u: Vec<f64> = c.knots.vector().iter().copied().collect();
    let mu: Vec<f64> = m.u.iter().map(|x| x.f()).collect();
    if u.len() != m.u.len() {
        return fail(ex(), format!("{what}: knots {} instead of {}", show(&u), show(&mu)));
    }
    for i in 0..u.len() {
        let d = (D::from(u[i]) - m.u[i]).abs().0;
        let tol = if w.knots == KnotCmp::Exact { 1e-29 } else { 16.0 * EPS };
        if !(d <= tol) {
            return fail(ex(), format!("{what}: knot {i} of {} should be {:?}", show(&u), mu[i]));
        }
    }
    // repeated knots stay repeated: a rounded copy next to a knot would change continuity
    for i in 1..u.len() {
        if same(m.u[i - 1], m.u[i]) != (u[i - 1] == u[i]) {
            return fail(ex(), format!("{what}: multiplicities of {} differ from {}", show(&u), show(&mu)));
        }
    }
    let mx = c.points.matrix();
    if mx.nrows() != m.dim() || mx.ncols() != m.pts.len() {
        return fail(ex(), format!("{what}: {}x{} control points instead of {}x{}", mx.nrows(), mx.ncols(), m.dim(), m.pts.len()));
    }
    let kn = if w.knots == KnotCmp::Exact { 0.0 } else { 8.0 * EPS };
    let b = Bound::new(m, w.pt, kn, w.s0);
    for i in 0..m.pts.len() {
        let tol = b.point(i);
        for x in 0..m.dim() {
            let err = (D::from(mx[(x, i)]) - m.pts[i][x]).abs().0;
            if !rec.within(err, tol) {
                return fail(
                    ex(),
                    format!("{what}: control point {i} coordinate {x} is {:?} instead of {:?} (error {err:e} > {tol:e})", mx[(x, i)], m.pts[i][x].f()),
                );
            }
        }
    }
    if let Some(kmax) = w.kmax {
        let pc = m.pieces();
        let spans = m.spans();
        for (j, &s) in spans.iter().enumerate() {
            let (a, bb) = (u[s], u[s + 1]);
            let last = j + 1 == spans.len();
            for q in 0..=p + 1 + last as usize {
                let t = match q {
                    0 => a,
                    q if q == p + 2 => bb,
                    q => a + (bb - a) * ((2 * q - 1) as f64 / (2 * p + 2) as f64),
                };
                if t >= bb && !(last && q == p + 2) {
                    continue;
                }
                let wl = (D::from(t) - D::from(a)) / (D::from(bb) - D::from(a));
                for k in 0..=kmax {
                    let want = pc.eval_local(j, wl, k);
                    let tol = b.span(s, k);
                    value(rec, ex, c, t, k, &want, tol, what)?;
                }
            }
        }
    }
    Ok(())
}

/// One evaluation of the real curve against an expected vector.
pub fn value(rec: &mut Rec, ex: Ex, c: &Curve, t: f64, k: usize, want: &[D], tol: f64, what: &str) -> Res {
    rec.trans(1);
    let got = match call(|| c.evaluate_derivative(t, k)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return fail(format!("{} -> evaluate_derivative({t:?}, {k})", ex()), format!("{what}: refused: {e:?}")),
        Err(e) => return fail(format!("{} -> evaluate_derivative({t:?}, {k})", ex()), format!("{what}: {e}")),
    };
    if got.len() != want.len() {
        return fail(
            format!("{} -> evaluate_derivative({t:?}, {k})", ex()),
            format!("{what}: dimension {} instead of {}", got.len(), want.len()),
        );
    }
    for x in 0..want.len() {
        let err = (D::from(got[x]) - want[x]).abs().0;
        if !rec.within(err, tol) {
            let wf: Vec<f64> = want.iter().map(|d| d.f()).collect();
            return fail(
                format!("{} -> evaluate_derivative({t:?}, {k})", ex()),
                format!("{what}: got {:?} instead of {:?} (coordinate {x}: error {err:e} > {tol:e})", got.as_slice(), wf),
            );
        }
    }
    Ok(())
}

pub fn unchanged(ex: Ex, before: &[u64], c: &Curve, what: &str) -> Res {
    if bits(c) != before {
        return fail(ex(), format!("{what}: the curve was modified"));
    }
    Ok(())
}
/// Model with the values of a configuration.
pub fn model_of(k: &Kn, cols: &[Vec<f64>]) -> Model {
    Model::new(k.p, &k.u, cols.to_vec())
}

pub fn mag(m: &Model) -> f64 {
    m.pts.iter().flatten().map(|x| x.abs().0).fold(0.0, f64::max)
}
