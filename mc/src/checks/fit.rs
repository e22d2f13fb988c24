//! C15-C18: interpolation, fitting, admissibility of generation requests.
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::{fit, interpolation};
use bsplines::curve::points::{ControlPoints, DataPoints};
use bsplines::curve::{Curve, CurveError};
use nalgebra::{DMatrix, DVector};

/// Collocation matrix of the B-spline definition: rows are parameters, columns basis functions.
fn colloc(p: usize, u: &[f64], params: &[f64]) -> DMatrix<f64> {
    let id = Model::identity(p, u.iter().map(|&x| D::from(x)).collect());
    let pc = id.pieces();
    let mut m = DMatrix::zeros(params.len(), u.len() - p - 1);
    for (g, &t) in params.iter().enumerate() {
        let t = D::from(t);
        let row = pc.eval(pc.locate(t), t, 0);
        for (i, x) in row.iter().enumerate() {
            m[(g, i)] = x.f();
        }
    }
    m
}
fn smallest_sv(n: &DMatrix<f64>) -> f64 {
    let g = n.transpose() * n;
    nalgebra::SymmetricEigen::new(g).eigenvalues.min().max(0.0).sqrt()
}
fn uniform_knots(p: usize, n: usize) -> Vec<f64> {
    Kn::simple(p, &uniform_inner(n - p)).u
}
fn equal(m: usize) -> Vec<f64> {
    (0..=m).map(|g| g as f64 / m as f64).collect()
}
pub const DATA: [Pts; 13] = [
    Pts::Unit,
    Pts::Gen(1),
    Pts::Gen(2),
    Pts::Gen(3),
    Pts::Const,
    Pts::Zero,
    Pts::Line,
    Pts::Alt,
    Pts::Closed,
    Pts::Big,
    Pts::Tiny,
    Pts::Far,
    Pts::Mixed,
];
fn coord_scale(cols: &[Vec<f64>], x: usize) -> f64 {
    cols.iter().map(|c| c[x].abs()).fold(0.0, f64::max)
}
fn dhash(tag: &str, xs: &[f64], cols: &[Vec<f64>], extra: &[u64]) -> u128 {
    let mut h = Hash::new();
    h.s(tag).fs(xs);
    for c in cols {
        h.u(c.len() as u64).fs(c);
    }
    for e in extra {
        h.u(*e);
    }
    h.done()
}
fn shape(ex: Ex, c: &Curve, p: usize, n: usize, dim: usize) -> Res {
    consistent(ex, c, "generated curve")?;
    if c.degree() != p || c.segments() != n || c.dimension() != dim {
        return fail(
            ex(),
            format!("degree {} segments {} dimension {} instead of {p}, {n}, {dim}", c.degree(), c.segments(), c.dimension()),
        );
    }
    Ok(())
}
/// The curve passes through the data at the parameters.
fn passes(rec: &mut Rec, ex: Ex, c: &Curve, params: &[f64], cols: &[Vec<f64>], rel: f64, what: &str) -> Res {
    for (g, &t) in params.iter().enumerate() {
        rec.trans(1);
        let v = match call(|| c.evaluate(t)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return fail(format!("{} -> evaluate({t:?})", ex()), format!("{what}: {e:?}")),
            Err(e) => return fail(format!("{} -> evaluate({t:?})", ex()), format!("{what}: {e}")),
        };
        if v.len() != cols[g].len() {
            return fail(ex(), format!("{what}: dimension {}", v.len()));
        }
        for x in 0..v.len() {
            let tol = rel * coord_scale(cols, x) + 1e-300;
            let err = (v[x] - cols[g][x]).abs();
            if !rec.within(err, tol) {
                return fail(
                    format!("{} -> evaluate({t:?})", ex()),
                    format!("{what}: data point {g} coordinate {x} is {:?}, the curve gives {:?} (error {err:e} > {tol:e})", cols[g][x], v[x]),
                );
            }
        }
    }
    Ok(())
}
/// relative accuracy expected of a solution of equations with smallest singular value s
fn rel_tol(s: f64) -> f64 {
    (1e-13 / s).max(1e-13).min(1e-3)
}
const SV_MIN: f64 = 1e-6;
/// Sizes whose equations are numerically singular: see the known findings.
const SPECIMENS: [(usize, usize); 3] = [(3, 120), (4, 60), (5, 40)];

/// parameter sets: all subsets of the inner lattice points j/g of every size
fn lattice_params(g: usize, m: usize) -> Vec<Vec<f64>> {
    let inner: Vec<f64> = (1..g).map(|j| j as f64 / g as f64).collect();
    choose(&inner, m - 1, false)
        .into_iter()
        .map(|c| {
            let mut v = vec![0.0];
            v.extend(c);
            v.push(1.0);
            v
        })
        .collect()
}
/// all (multi)sets of k elements in ascending order
pub fn choose(xs: &[f64], k: usize, repeat: bool) -> Vec<Vec<f64>> {
    fn go(xs: &[f64], k: usize, from: usize, repeat: bool, cur: &mut Vec<f64>, out: &mut Vec<Vec<f64>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..xs.len() {
            cur.push(xs[i]);
            go(xs, k - 1, if repeat { i } else { i + 1 }, repeat, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(xs, k, 0, repeat, &mut vec![], &mut out);
    out
}
fn lattice_knots(p: usize, n: usize, g: usize) -> Vec<Vec<f64>> {
    let inner: Vec<f64> = (1..g).map(|j| j as f64 / g as f64).collect();
    choose(&inner, n - p, true)
        .into_iter()
        .filter(|v| v.iter().all(|x| v.iter().filter(|y| *y == x).count() <= p))
        .map(|v| {
            let mut u = vec![0.0; p + 1];
            u.extend(v);
            u.extend(vec![1.0; p + 1]);
            u
        })
        .collect()
}
fn mk_params(v: &[f64]) -> Parameters {
    Parameters::new(DVector::from_vec(v.to_vec()), v.len() - 1)
}

// ---------------------------------------------------------------- C15

pub fn c15(o: &Opts) -> (Meta, Vec<Case>) {
    let seed = o.seed;
    let mut cases = vec![];
    let mmax = o.tier.pick(16, 24, 30);
    let mut req: Vec<(usize, usize)> = vec![];
    for m in 1..=mmax {
        // the cost of a single value grows as 2^p
        for p in 1..=m.min(o.tier.pick(16, 18, 20)) {
            req.push((p, m));
        }
    }
    for m in [30, 45, 60] {
        for p in 1..=3 {
            req.push((p, m));
        }
    }
    // the equations are numerically singular here: see the known findings
    for pm in SPECIMENS {
        req.push(pm);
    }
    for (p, m) in req {
        cases.push(Case {
            key: format!("interpolation p={p} m={m}"),
            run: Box::new(move |rec| {
                let ex0 = || format!("interpolation p={p} m={m}");
                let (u, params) = (uniform_knots(p, m), equal(m));
                let s = smallest_sv(&colloc(p, &u, &params));
                let special = SPECIMENS.contains(&(p, m));
                if !special && s < SV_MIN {
                    rec.skipped += 1;
                    rec.outcome("ill-conditioned equations");
                    rec.state(dhash(&ex0(), &[], &[], &[]));
                    // still: an answer of the right shape, no panic
                    let cols = Pts::Gen(2).cols(m + 1, seed);
                    let d = DataPoints::new(mat(&cols));
                    rec.trans(1);
                    return match call(|| generate(Generation::Interpolation { degree: p, points: &d })) {
                        Ok(Ok(c)) => shape(&ex0, &c, p, m, 2),
                        Ok(Err(e)) => fail(ex0(), format!("refused: {e:?}")),
                        Err(e) => fail(ex0(), e),
                    };
                }
                for pt in DATA {
                    if special && pt != Pts::Gen(2) {
                        continue;
                    }
                    let ex = || format!("{} data={pt:?}", ex0());
                    let cols = pt.cols(m + 1, if special { 1 } else { seed });
                    let d = DataPoints::new(mat(&cols));
                    let before = d.clone();
                    rec.trans(1);
                    let c = match call(|| generate(Generation::Interpolation { degree: p, points: &d })) {
                        Ok(Ok(c)) => c,
                        Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                        Err(e) => return fail(ex(), e),
                    };
                    if cols_of(bsplines::curve::points::Points::matrix(&d)) != cols_of(bsplines::curve::points::Points::matrix(&before)) {
                        return fail(ex(), "the data points were modified");
                    }
                    rec.state(curve_hash(&c));
                    shape(&ex, &c, p, m, cols[0].len())?;
                    if special {
                        // fixed execution text: these are listed as known findings
                        if let Err(f) = passes(&mut Rec::default(), &ex, &c, &params, &cols, 1e-4, "interpolation") {
                            return fail(ex0(), f.msg);
                        }
                    } else {
                        passes(rec, &ex, &c, &params, &cols, rel_tol(s), "interpolation")?;
                    }
                    rec.outcome("interpolated");
                    rec.ok(1);
                }
                rec.sample(ex0);
                rec.max_depth = 2;
                Ok(())
            }),
        });
    }
    // the lower level function: every parameter subset of a lattice with every knot multiset of a lattice
    let (gp, gk) = o.tier.pick((8, 8), (10, 12), (12, 12));
    for m in 1..=o.tier.pick(5, 6, 7) {
        for p in 1..=m {
            for params in lattice_params(gp, m) {
                cases.push(Case {
                    key: format!("interpolate p={p} parameters={params:?}"),
                    run: Box::new(move |rec| {
                        for u in lattice_knots(p, m, gk) {
                            low_interp(rec, p, &u, &params, Pts::Gen(2), seed)?;
                        }
                        rec.max_depth = 2;
                        Ok(())
                    }),
                });
            }
        }
    }
    // generated parameters and knots
    let long = o.tier.pick(0, 40, 60);
    for m in (1..=o.tier.pick(10, 16, 24)).chain(o.tier.pick(11, 17, 25)..=long) {
        for p in 1..=m.min(if m > 24 { 4 } else { o.tier.pick(5, 7, 9) }) {
            for pt in [Pts::Gen(1), Pts::Gen(2), Pts::Gen(3), Pts::Line, Pts::Alt, Pts::Unit] {
                if m > 24 && pt == Pts::Unit {
                    continue;
                }
                cases.push(Case {
                    key: format!("interpolate p={p} m={m} data={pt:?}"),
                    run: Box::new(move |rec| {
                        let cols = jitter(pt.cols(m + 1, seed));
                        let d = DataPoints::new(mat(&cols));
                        for pm in 0..3 {
                            let par = call(|| {
                                parameters::generate(
                                    &d,
                                    [parameters::Method::EquallySpaced, parameters::Method::ChordLength, parameters::Method::Centripetal]
                                        .into_iter()
                                        .nth(pm)
                                        .unwrap(),
                                )
                            })
                            .map_err(|e| Fail { exec: format!("parameters for {pt:?} m={m}"), msg: e, repro: String::new() })?;
                            let params: Vec<f64> = par.vector().iter().copied().collect();
                            for km in 0..3 {
                                let k = call(|| {
                                    knots::generate(
                                        p,
                                        m,
                                        &par,
                                        [knots::Method::Uniform, knots::Method::DeBoor, knots::Method::Averaging].into_iter().nth(km).unwrap(),
                                    )
                                });
                                let u: Vec<f64> = match k {
                                    Ok(Ok(k)) => k.vector().iter().copied().collect(),
                                    Ok(Err(e)) => return fail(format!("knots {km} p={p} m={m} {pt:?}"), format!("refused: {e:?}")),
                                    Err(e) => return fail(format!("knots {km} p={p} m={m} {pt:?}"), e),
                                };
                                low_interp(rec, p, &u, &params, pt, seed)?;
                            }
                        }
                        rec.max_depth = 4;
                        Ok(())
                    }),
                });
            }
        }
    }
    (
        Meta {
            rule: "State: data set and request, resp. generated curve. Transition: generate(Interpolation) / interpolate(knots, points, parameters) followed by evaluation at every parameter.".into(),
            bounds: format!("all degrees p <= segments m <= {mmax} (p <= {}) plus m up to 60 for p <= 3, x 13 data families; all parameter subsets of the lattice j/{gp} (m <= {}) x all knot multisets of the lattice j/{gk} that satisfy the interlacing condition; generated parameters x generated knots (m <= {long}); equations whose smallest singular value is below 1e-6 are outside the bound, three specimens excepted", o.tier.pick(16, 18, 20), o.tier.pick(5, 6, 7)),
            oracle: "the data points themselves; relative tolerance 1e-13 / smallest singular value".into(),
            assumptions: vec!["unit vectors as data decide all data sets by linearity of the equations".into()],
        },
        cases,
    )
}
/// make consecutive points distinct (needed by the chord based parametrizations)
pub fn jitter(mut cols: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    for i in 1..cols.len() {
        if cols[i] == cols[i - 1] {
            cols[i][0] += 1.0;
        }
    }
    cols
}
fn low_interp(rec: &mut Rec, p: usize, u: &[f64], params: &[f64], pt: Pts, seed: u64) -> Res {
    let m = params.len() - 1;
    let ex = || format!("interpolate p={p} U={u:?} parameters={params:?} data={pt:?}");
    let s = smallest_sv(&colloc(p, u, params));
    if s < SV_MIN {
        rec.skipped += 1;
        rec.outcome("singular or ill-conditioned equations");
        return Ok(());
    }
    let cols = jitter(pt.cols(m + 1, seed));
    let d = DataPoints::new(mat(&cols));
    let k = Knots::new(p, DVector::from_vec(u.to_vec()));
    let par = mk_params(params);
    rec.trans(1);
    let x = call(|| interpolation::interpolate(&k, &d, &par)).or_else(|e| fail(ex(), e))?;
    if x.ncols() != m + 1 || x.nrows() != cols[0].len() {
        return fail(ex(), format!("{}x{} control points", x.nrows(), x.ncols()));
    }
    let c = match call(|| Curve::new(k, ControlPoints::new(x))) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return fail(ex(), format!("{e:?}")),
        Err(e) => return fail(ex(), e),
    };
    rec.state(curve_hash(&c));
    passes(rec, &ex, &c, params, &cols, rel_tol(s), "interpolation")?;
    rec.outcome("interpolated at given parameters");
    rec.ok(1);
    Ok(())
}

// ---------------------------------------------------------------- C16, C17

fn binom(n: usize, k: usize) -> f64 {
    (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64)
}
/// kappa-th differences of `len` points
fn differences(len: usize, kappa: usize) -> DMatrix<f64> {
    if kappa >= len {
        return DMatrix::zeros(0, len);
    }
    DMatrix::from_fn(len - kappa, len, |i, j| {
        if j < i || j > i + kappa {
            0.0
        } else {
            binom(kappa, j - i) * if (kappa + i - j) % 2 == 1 { -1.0 } else { 1.0 }
        }
    })
}
#[derive(Clone)]
struct FitReq {
    fixed: bool,
    p: usize,
    u: Vec<f64>,
    params: Vec<f64>,
    pen: Option<(f64, usize)>,
    /// through generate(); otherwise the lower level function
    generated: bool,
}
impl std::fmt::Display for FitReq {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(
            f,
            "{} p={} n={} m={}",
            if self.fixed { "fixed-end fit" } else { "loose-end fit" },
            self.p,
            self.u.len() - self.p - 2,
            self.params.len() - 1
        )?;
        if !self.generated {
            write!(f, " U={:?} parameters={:?}", self.u, self.params)?;
        }
        if let Some((l, k)) = self.pen {
            write!(f, " lambda={l:?} kappa={k}")?;
        }
        Ok(())
    }
}
fn run_fit(r: &FitReq, d: &DataPoints) -> Result<Result<Curve, String>, String> {
    let n = r.u.len() - r.p - 2;
    let pen = r.pen.map(|(lambda, kappa)| fit::Penalization { lambda, kappa });
    if r.generated {
        call(|| {
            generate(Generation::LeastSquaresFit {
                degree: r.p,
                points: d,
                intended_segments: n,
                method: if r.fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
                penalization: pen,
            })
            .map_err(|e| format!("{e:?}"))
        })
    } else {
        call(|| {
            let k = Knots::new(r.p, DVector::from_vec(r.u.clone()));
            let par = mk_params(&r.params);
            let x = if r.fixed { fit::fixed::fit(&k, d, &par, pen) } else { fit::loose::fit(&k, d, &par, pen) };
            let x = x.map_err(|e| format!("{e:?}"))?;
            Curve::new(k, ControlPoints::new(x)).map_err(|e| format!("{e:?}"))
        })
    }
}
/// Accuracy of the gradient relative to the largest eigenvalue of the normal equations.
const GRAD: f64 = 1e-12;
/// Decide one fit request for several data sets.
fn check_fit(rec: &mut Rec, r: &FitReq, data: &[Pts], seed: u64) -> Res {
    let p = r.p;
    let n = r.u.len() - p - 2;
    let m = r.params.len() - 1;
    let nm = colloc(p, &r.u, &r.params);
    // quadratic form of the objective over the free control points
    let (nf, off) = if r.fixed { (nm.view((1, 1), (m - 1, n - 1)).clone_owned(), 1) } else { (nm.clone(), 0) };
    let free = nf.ncols();
    let mut a = nf.transpose() * &nf;
    if let Some((l, k)) = r.pen {
        if l > 0.0 {
            let dm = differences(free, k);
            a += l * (dm.transpose() * &dm);
        }
    }
    let (lo, hi) = if free > 0 {
        let ev = nalgebra::SymmetricEigen::new(a.clone()).eigenvalues;
        (ev.min(), ev.max())
    } else {
        (1.0, 1.0)
    };
    let special = p > 12;
    if lo < 1e-6 && !special {
        rec.skipped += 1;
        rec.outcome("singular or ill-conditioned equations");
    }
    for &pt in data {
        let ex = || format!("{r} data={pt:?}");
        let cols = pt.cols(m + 1, seed);
        let dim = cols[0].len();
        let d = DataPoints::new(mat(&cols));
        rec.trans(1);
        let c = match run_fit(r, &d) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return fail(ex(), format!("refused: {e}")),
            Err(e) => return fail(ex(), e),
        };
        shape(&ex, &c, p, n, dim)?;
        rec.state(curve_hash(&c));
        if cols_of(bsplines::curve::points::Points::matrix(&d)) != cols {
            return fail(ex(), "the data points were modified");
        }
        let got: Vec<f64> = c.knots.vector().iter().copied().collect();
        if got.len() != r.u.len() || got.iter().zip(&r.u).any(|(x, y)| (x - y).abs() > 4.0 * EPS) {
            return fail(ex(), format!("knots {got:?}"));
        }
        let pts = cols_of(bsplines::curve::points::Points::matrix(&c.points));
        if r.fixed {
            for (t, want, cp) in [(0.0, &cols[0], &pts[0]), (1.0, &cols[m], &pts[n])] {
                rec.trans(1);
                let v = match call(|| c.evaluate(t)) {
                    Ok(Ok(v)) => v,
                    _ => return fail(format!("{} -> evaluate({t:?})", ex()), "refused"),
                };
                for x in 0..dim {
                    if (v[x] - want[x]).abs() > 4.0 * EPS * want[x].abs() || (cp[x] - want[x]).abs() > 4.0 * EPS * want[x].abs() {
                        return fail(format!("{} -> evaluate({t:?})", ex()), format!("the end is {:?} instead of {want:?}", v.as_slice()));
                    }
                }
            }
        }
        if lo < 1e-6 && !special {
            continue;
        }
        for x in 0..dim {
            let q: DVector<f64> = DVector::from_fn(m + 1, |g, _| cols[g][x]);
            let z: DVector<f64> = DVector::from_fn(n + 1, |i, _| pts[i][x]);
            // gradient of the objective with respect to every free control point, with a running magnitude
            let res = &nm * &z - &q;
            let zmax = z.iter().chain(q.iter()).fold(0.0f64, |s, v| s.max(v.abs()));
            let zf = DVector::from_fn(free, |i, _| z[i + off]);
            let mut grad = DVector::zeros(free);
            for i in 0..free {
                for g in off..=m - off {
                    grad[i] += nm[(g, i + off)] * res[g];
                }
            }
            if let Some((l, k)) = r.pen {
                let dm = differences(free, k);
                grad += l * (dm.transpose() * (&dm * &zf));
            }
            let tol = GRAD * (hi + 1.0) * (p + 1) as f64 * zmax + 1e-300;
            for i in 0..free {
                if special && grad[i].abs() <= tol {
                    continue;
                }
                if !rec.within(grad[i].abs(), tol) {
                    if special {
                        return fail(r.to_string(), format!("not optimal: gradient {:e}", grad[i]));
                    }
                    return fail(
                        ex(),
                        format!(
                            "not optimal: moving control point {} along coordinate {x} changes the objective at rate {:e} (tolerance {tol:e})",
                            i + off,
                            2.0 * grad[i]
                        ),
                    );
                }
            }
        }
        if n == m && r.pen.map_or(true, |(l, _)| l == 0.0) && !r.fixed {
            let s = lo.max(0.0).sqrt();
            let what = "fit with as many control points as data points";
            if special {
                if let Err(f) = passes(&mut Rec::default(), &ex, &c, &r.params, &cols, 1e-4, what) {
                    return fail(r.to_string(), f.msg);
                }
            } else {
                passes(rec, &ex, &c, &r.params, &cols, (1e-10 / (s * s)).min(1e-3), what)?;
            }
            rec.outcome("reproduces the data");
        }
        rec.outcome(if r.pen.is_some() { "penalized optimum" } else { "optimum" });
        rec.ok(1);
    }
    rec.max_depth = 2;
    rec.sample(|| r.to_string());
    Ok(())
}
const FITDATA: [Pts; 7] = [Pts::Unit, Pts::Gen(2), Pts::Zero, Pts::Line, Pts::Far, Pts::Big, Pts::Mixed];

fn fits(o: &Opts, fixed: bool) -> Vec<Case> {
    let seed = o.seed;
    let mut cases = vec![];
    let mmax = o.tier.pick(14, 20, 26);
    let high = o.tier.pick(8, 11, 13);
    for m in 1..=mmax {
        for n in 1..=m {
            for p in 1..=n.min(o.tier.pick(7, 10, 12)) {
                cases.push(Case {
                    key: format!("{} p={p} n={n} m={m}", if fixed { "fixed-end fit" } else { "loose-end fit" }),
                    run: Box::new(move |rec| {
                        let mut r = FitReq { fixed, p, u: uniform_knots(p, n), params: equal(m), pen: None, generated: true };
                        check_fit(rec, &r, &FITDATA, seed)?;
                        let kmax = if fixed { n.saturating_sub(2) } else { n - 1 };
                        for kappa in 1..=kmax.min(6) {
                            for l in [0.0, 1e-6, 1e-3, 0.5, 1.0, 100.0, 1e3, 1e4] {
                                r.pen = Some((l, kappa));
                                check_fit(rec, &r, &[Pts::Unit, Pts::Gen(2)], seed)?;
                            }
                        }
                        // high difference orders (their cost is 2^kappa)
                        if p <= 3 {
                            for kappa in 7..=kmax.min(high) {
                                for l in [1e-3, 1.0] {
                                    r.pen = Some((l, kappa));
                                    check_fit(rec, &r, &[Pts::Unit], seed)?;
                                }
                            }
                        }
                        Ok(())
                    }),
                });
            }
        }
    }
    // long data, few segments
    for (m, n) in [(30, 5), (30, 12), (59, 7), (60, 20), (100, 6), (300, 2), (300, 8)] {
        for p in 1..=4.min(n) {
            for pen in [None, Some((1.0, 2))] {
                if pen.is_some() && n < 4 {
                    continue;
                }
                let r = FitReq { fixed, p, u: uniform_knots(p, n), params: equal(m), pen, generated: true };
                cases.push(Case {
                    key: r.to_string(),
                    run: Box::new(move |rec| check_fit(rec, &r, &[Pts::Unit, Pts::Gen(2)], seed)),
                });
            }
        }
    }
    // numerically singular: see the known findings
    {
        let r = FitReq { fixed, p: 13, u: uniform_knots(13, 13), params: equal(13), pen: None, generated: true };
        if !fixed {
            cases.push(Case { key: r.to_string(), run: Box::new(move |rec| check_fit(rec, &r, &[Pts::Gen(2)], 1)) });
        }
    }
    // lower level functions: any parameters and knots
    let (gp, gk) = o.tier.pick((6, 6), (8, 8), (9, 10));
    for m in 1..=o.tier.pick(5, 6, 7) {
        for params in lattice_params(gp, m) {
            let key = format!("{} parameters={params:?}", if fixed { "fixed-end fit" } else { "loose-end fit" });
            cases.push(Case {
                key,
                run: Box::new(move |rec| {
                    for n in 1..=m {
                        for p in 1..=n {
                            for u in lattice_knots(p, n, gk) {
                                let mut r = FitReq { fixed, p, u: u.clone(), params: params.clone(), pen: None, generated: false };
                                check_fit(rec, &r, &[Pts::Gen(2)], seed)?;
                                if u == uniform_knots(p, n) {
                                    for kappa in 1..=(if fixed { n.saturating_sub(2) } else { n - 1 }) {
                                        r.pen = Some((2.0, kappa));
                                        check_fit(rec, &r, &[Pts::Gen(2)], seed)?;
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                }),
            });
        }
    }
    cases
}
fn fit_meta(o: &Opts, free: &str) -> Meta {
    Meta {
        rule: "State: fit request and data set, resp. the fitted curve. Transition: one fit through generate or the lower level function. The objective is a convex quadratic: the result is optimal iff the gradient with respect to every free control point vanishes.".into(),
        bounds: format!("all p <= n <= m <= {} (p <= {}) x 7 data families, every difference order up to 6 x 8 weights from 0 to 1e4, up to {} for two weights; 7 long data sets with up to 301 points; all parameter subsets x knot multisets of small lattices through the lower level functions; normal equations with smallest eigenvalue below 1e-6 are outside the bound (shape, ends and absence of panics still checked)", o.tier.pick(14, 20, 26), o.tier.pick(7, 10, 12), o.tier.pick(8, 11, 13)),
        oracle: format!("gradient of the stated objective over {free}, with the B-spline basis from the reference model and binomial difference operators; tolerance 1e-12 relative to the largest eigenvalue of the normal equations"),
        assumptions: vec!["unit vectors as data decide all data sets by linearity of the equations".into()],
    }
}
pub fn c16(o: &Opts) -> (Meta, Vec<Case>) {
    (fit_meta(o, "all control points"), fits(o, false))
}
pub fn c17(o: &Opts) -> (Meta, Vec<Case>) {
    (fit_meta(o, "the inner control points"), fits(o, true))
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    ManualUniform,
    ManualMethod(usize, usize),
    Interp,
    Fit(bool, Option<(f64, usize)>, usize),
}


pub fn c18(o: &Opts) -> (Meta, Vec<Case>) {
    let seed = o.seed;
    let mut cases = vec![];
    let mmax = o.tier.pick(7, 10, 14);
    for m in 0..=mmax {
        for dim in [1, 2] {
            cases.push(Case {
                key: format!("requests on {} points of dimension {dim}", m + 1),
                run: Box::new(move |rec| c18_case(rec, m, dim, seed)),
            });
        }
    }
    cases.push(Case { key: "requests on no points".into(), run: Box::new(c18_empty) });
    for m in 1..=o.tier.pick(5, 7, 9) {
        cases.push(Case { key: format!("lower level fits m={m}"), run: Box::new(move |rec| c18_low(rec, m, seed)) });
    }
    for m in 0..=o.tier.pick(8, 12, 16) {
        cases.push(Case { key: format!("knot generators for {m} segments"), run: Box::new(move |rec| c18_knots(rec, m, seed)) });
    }
    (
        Meta {
            rule: "State: data set and generation request. Transition: generate / the lower level fit functions. The verdict model lists the reasons that apply to a request; a request with reasons must be refused with one of them, any other request must give a curve of the requested degree, dimension and segment count; nothing panics.".into(),
            bounds: format!("0..={mmax} data segments, dimensions 1 and 2, degrees 0..=m+2, segments 0..=m+2, both end conditions, no penalization or weights {{-inf,-1,-0.0,0,1e-3,1,1e300,inf,NaN}} x difference orders {{0..=n+2, 63, 64, usize::MAX}}; manual generation with every knot and parameter method; the same requests on no points at all; lower level fits with mismatched parameter counts and non-uniform knots; every knot generator with 0..={} segments, degrees 0..=n+3, 64 and 2^63-1", o.tier.pick(8, 12, 16)),
            oracle: "set of applicable refusal reasons".into(),
            assumptions: vec![
                "when several reasons apply any of them is accepted".into(),
                "difference order 0 and infinite weights may be refused or accepted, but must not panic".into(),
            ],
        },
        cases,
    )
}

fn c18_case(rec: &mut Rec, m: usize, dim: usize, seed: u64) -> Res {
    let cols = jitter(Pts::Gen(dim).cols(m + 1, seed));
    let d = DataPoints::new(mat(&cols));
    for p in 0..=m + 2 {
        let mut reqs = vec![Req::ManualUniform, Req::Interp];
        for pm in 0..3 {
            for km in 0..3 {
                if m == 0 && pm > 0 {
                    continue; // a single point has no chords
                }
                reqs.push(Req::ManualMethod(pm, km));
            }
        }
        for n in 0..=m + 2 {
            for fixed in [false, true] {
                reqs.push(Req::Fit(fixed, None, n));
                for l in [f64::NEG_INFINITY, -1.0, -1e-300, -0.0, 0.0, 1e-3, 1.0, 1e300, f64::INFINITY, f64::NAN] {
                    let mut ks: Vec<usize> = (0..=n + 2).collect();
                    ks.extend([63, 64, usize::MAX]);
                    for k in ks {
                        reqs.push(Req::Fit(fixed, Some((l, k)), n));
                    }
                }
            }
        }
        for r in reqs {
            let ex = || format!("{} points of dimension {dim}, degree {p}: {r:?}", m + 1);
            rec.trans(1);
            let mut h = Hash::new();
            h.s(&ex());
            rec.state(h.done());
            let got: Result<Result<Curve, CurveError>, String> = match r {
                Req::ManualUniform => call(|| {
                    generate(Generation::Manual { degree: p, points: ControlPoints::new(mat(&cols)), knots: knots::Generation::Uniform })
                }),
                Req::ManualMethod(pm, km) => call(|| {
                    generate(Generation::Manual {
                        degree: p,
                        points: ControlPoints::new(mat(&cols)),
                        knots: knots::Generation::Method {
                            parameter_method: match pm {
                                0 => parameters::Method::EquallySpaced,
                                1 => parameters::Method::ChordLength,
                                _ => parameters::Method::Centripetal,
                            },
                            knot_method: match km {
                                0 => knots::Method::Uniform,
                                1 => knots::Method::DeBoor,
                                _ => knots::Method::Averaging,
                            },
                        },
                    })
                }),
                Req::Interp => call(|| generate(Generation::Interpolation { degree: p, points: &d })),
                Req::Fit(fixed, pen, n) => call(|| {
                    generate(Generation::LeastSquaresFit {
                        degree: p,
                        points: &d,
                        intended_segments: n,
                        method: if fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
                        penalization: pen.map(|(lambda, kappa)| fit::Penalization { lambda, kappa }),
                    })
                }),
            };
            // reasons to refuse
            let n = match r {
                Req::Fit(_, _, n) => n,
                _ => m,
            };
            let mut why: Vec<String> = vec![];
            let mut may = false;
            if p == 0 {
                why.push("DegreeTooLow { p: 0, limit: 0 }".into());
            }
            if p > n {
                why.push(format!("DegreeAndSegmentsMismatch {{ p: {p}, n: {n} }}"));
                why.push(format!("RequestedPolynomialSegmentAndSplineDegreeMismatch {{ n: {n}, p: {p} }}"));
            }
            if let Req::Fit(fixed, pen, n) = r {
                if n > m {
                    why.push(format!("RequestedPolynomialSegmentAndDataSegementMismatch {{ n: {n}, m: {m} }}"));
                }
                if let Some((l, k)) = pen {
                    if !(l >= 0.0) {
                        why.push(format!("{} {{ lambda: {l:?} }}", if l < 0.0 { "NegativeLambda" } else { "Lambda" }));
                    }
                    // there must be at least one difference of order k of the penalized control points
                    let free = if fixed { (n + 1).saturating_sub(2) } else { n + 1 };
                    if k >= free {
                        why.push(format!("RequestedPolynomialSegmentAndPenalizationKappaMismatch {{ n: {n}, kappa: {k} }}"));
                    }
                    if !fixed && k == n {
                        // one difference is left, which the library refuses to penalize
                        may = true;
                        why.push(format!("RequestedPolynomialSegmentAndPenalizationKappaMismatch {{ n: {n}, kappa: {k} }}"));
                    }
                    if k == 0 || l == f64::INFINITY {
                        may = true;
                    }
                }
            }
            let hard = !why.is_empty() && !(may && why.len() == 1 && matches!(r, Req::Fit(false, Some((_, k)), n) if k == n));
            match &got {
                Err(e) => return fail(ex(), e.clone()),
                Ok(Err(e)) => {
                    let t = format!("{e:?}");
                    if !why.iter().any(|w| t.contains(w.as_str())) && !(may && why.is_empty()) {
                        return fail(ex(), format!("refused with {t}, applicable reasons are {why:?}"));
                    }
                    rec.outcome("refused with an applicable reason");
                }
                Ok(Ok(c)) => {
                    if hard {
                        return fail(ex(), format!("accepted although {why:?}"));
                    }
                    shape(&ex, c, p, n, dim)?;
                    let nan = call(|| cols_of(bsplines::curve::points::Points::matrix(&c.points)).iter().flatten().any(|x| !x.is_finite()));
                    if nan != Ok(false) && !matches!(r, Req::Fit(_, Some((l, _)), _) if !(l < 1e200)) {
                        return fail(ex(), "the control points are not finite".to_string());
                    }
                    rec.outcome("generated");
                }
            }
            rec.ok(1);
        }
    }
    rec.max_depth = 1;
    rec.sample(|| format!("{} points of dimension {dim}, degrees 0..={}, all requests", m + 1, m + 2));
    Ok(())
}

/// Without any points every request is inadmissible.
fn c18_empty(rec: &mut Rec) -> Res {
    for dim in 0..=3usize {
        for p in (0..=4).chain([17, usize::MAX >> 1]) {
            let mut reqs = vec![Req::ManualUniform, Req::Interp];
            for pm in 0..if p == 0 { 1 } else { 3 } {
                for km in 0..3 {
                    reqs.push(Req::ManualMethod(pm, km));
                }
            }
            for n in 0..=p.min(20) + 2 {
                for fixed in [false, true] {
                    reqs.push(Req::Fit(fixed, None, n));
                    for k in 0..=2 {
                        reqs.push(Req::Fit(fixed, Some((1.0, k)), n));
                    }
                }
            }
            for r in reqs {
                let ex = || format!("no points of dimension {dim}, degree {p}: {r:?}");
                rec.trans(1);
                let mut h = Hash::new();
                h.s(&ex());
                rec.state(h.done());
                let none = || DMatrix::zeros(dim, 0);
                let got = call(|| {
                    let d = DataPoints::new(none());
                    generate(match r {
                        Req::ManualUniform => {
                            Generation::Manual { degree: p, points: ControlPoints::new(none()), knots: knots::Generation::Uniform }
                        }
                        Req::ManualMethod(pm, km) => Generation::Manual {
                            degree: p,
                            points: ControlPoints::new(none()),
                            knots: knots::Generation::Method {
                                parameter_method: match pm {
                                    0 => parameters::Method::EquallySpaced,
                                    1 => parameters::Method::ChordLength,
                                    _ => parameters::Method::Centripetal,
                                },
                                knot_method: match km {
                                    0 => knots::Method::Uniform,
                                    1 => knots::Method::DeBoor,
                                    _ => knots::Method::Averaging,
                                },
                            },
                        },
                        Req::Interp => Generation::Interpolation { degree: p, points: &d },
                        Req::Fit(fixed, pen, n) => Generation::LeastSquaresFit {
                            degree: p,
                            points: &d,
                            intended_segments: n,
                            method: if fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
                            penalization: pen.map(|(lambda, kappa)| fit::Penalization { lambda, kappa }),
                        },
                    })
                });
                match got {
                    Err(e) => return fail(ex(), e),
                    Ok(Ok(_)) => return fail(ex(), "accepted".to_string()),
                    Ok(Err(_)) => rec.outcome("refused without points"),
                }
                rec.ok(1);
            }
        }
    }
    Ok(())
}

/// Knot generators called directly: degree 0 and degrees above the number of segments are refused, nothing else is.
fn c18_knots(rec: &mut Rec, n: usize, seed: u64) -> Res {
    for m in [n, n + 1, 2 * n + 3] {
        if m == 0 {
            continue;
        }
        let d = DataPoints::new(mat(&jitter(Pts::Gen(2).cols(m + 1, seed))));
        for pm in 0..3 {
            let par = call(|| {
                parameters::generate(
                    &d,
                    match pm {
                        0 => parameters::Method::EquallySpaced,
                        1 => parameters::Method::ChordLength,
                        _ => parameters::Method::Centripetal,
                    },
                )
            })
            .or_else(|e| fail(format!("parameters {pm} of {} points", m + 1), e))?;
            for p in (0..=n + 3).chain([64, usize::MAX >> 1]) {
                for v in 0..6 {
                    let ex = || format!("knots (generator {v}) of degree {p} with {n} segments for {} parameters of method {pm}", m + 1);
                    rec.trans(1);
                    let got = call(|| match v {
                        0 => knots::methods::uniform(p, n),
                        1 => knots::methods::averaging(p, n, &par),
                        2 => knots::methods::de_boor(p, n, &par),
                        3 => knots::generate(p, n, &par, knots::Method::Uniform),
                        4 => knots::generate(p, n, &par, knots::Method::Averaging),
                        _ => knots::generate(p, n, &par, knots::Method::DeBoor),
                    });
                    match got {
                        Err(e) => return fail(ex(), e),
                        Ok(Ok(k)) => {
                            if p == 0 || p > n {
                                return fail(ex(), "accepted".to_string());
                            }
                            let u = k.vector().as_slice();
                            if u.len() != n + p + 2 || k.degree() != p || u.windows(2).any(|w| !(w[0] <= w[1])) {
                                return fail(ex(), format!("gave {u:?} of degree {}", k.degree()));
                            }
                            rec.outcome("knots generated");
                        }
                        Ok(Err(e)) => {
                            let t = format!("{e:?}");
                            if !(p == 0 && t == "DegreeTooLow { p: 0, limit: 0 }" || p > n && t == format!("DegreeAndSegmentsMismatch {{ p: {p}, n: {n} }}")) {
                                return fail(ex(), format!("refused with {t}"));
                            }
                            rec.outcome("knots refused");
                        }
                    }
                    let mut h = Hash::new();
                    h.s(&ex());
                    rec.state(h.done());
                    rec.ok(1);
                }
            }
        }
    }
    rec.max_depth = 1;
    Ok(())
}

fn c18_low(rec: &mut Rec, m: usize, seed: u64) -> Res {
    let cols = Pts::Gen(2).cols(m + 1, seed);
    let d = DataPoints::new(mat(&cols));
    for n in 1..=m + 1 {
        for p in 1..=n {
            for u in lattice_knots(p, n, 6) {
                let uniform = u == uniform_knots(p, n);
                for mp in [1, m.saturating_sub(1).max(1), m, m + 1, 2 * m + 1] {
                    for fixed in [false, true] {
                        for pen in [None, Some((0.0, 1)), Some((-0.0, 1)), Some((1.0, 1)), Some((-2.0, 1)), Some((f64::NAN, 1)), Some((1.0, n)), Some((1.0, n + 1))] {
                            let ex = || {
                                format!(
                                    "{} fit p={p} U={u:?} on {} points with {} parameters, penalization {pen:?}",
                                    if fixed { "fixed" } else { "loose" },
                                    m + 1,
                                    mp + 1
                                )
                            };
                            rec.trans(1);
                            let got = call(|| {
                                let k = Knots::new(p, DVector::from_vec(u.clone()));
                                let par = mk_params(&equal(mp));
                                let pen = pen.map(|(lambda, kappa)| fit::Penalization { lambda, kappa });
                                if fixed {
                                    fit::fixed::fit(&k, &d, &par, pen)
                                } else {
                                    fit::loose::fit(&k, &d, &par, pen)
                                }
                            });
                            let mut why: Vec<String> = vec![];
                            let mut may = false;
                            if n > m {
                                why.push(format!("RequestedPolynomialSegmentAndDataSegementMismatch {{ n: {n}, m: {m} }}"));
                            }
                            if mp != m {
                                why.push(format!("DataSegmentsAndParameterSegmentsMismatch {{ m: {m}, mp: {mp} }}"));
                            }
                            if let Some((l, k)) = pen {
                                if !(l >= 0.0) {
                                    why.push(format!("{} {{ lambda: {l:?} }}", if l < 0.0 { "NegativeLambda" } else { "Lambda" }));
                                }
                                if l > 0.0 && !uniform {
                                    why.push("NonUniformKnots".to_string());
                                }
                                let free = if fixed { n - 1 } else { n + 1 };
                                if k >= free {
                                    why.push(format!("RequestedPolynomialSegmentAndPenalizationKappaMismatch {{ n: {n}, kappa: {k} }}"));
                                } else if !fixed && k == n {
                                    may = true;
                                }
                            }
                            match got {
                                Err(e) => return fail(ex(), e),
                                Ok(Err(e)) => {
                                    let t = format!("{e:?}");
                                    if !why.iter().any(|w| t.contains(w.as_str())) && !(may && t.contains("KappaMismatch")) {
                                        return fail(ex(), format!("refused with {t}, applicable reasons are {why:?}"));
                                    }
                                    rec.outcome("lower level refusal");
                                }
                                Ok(Ok(x)) => {
                                    if !why.is_empty() {
                                        return fail(ex(), format!("accepted although {why:?}"));
                                    }
                                    if x.ncols() != n + 1 || x.nrows() != 2 {
                                        return fail(ex(), format!("{}x{} control points", x.nrows(), x.ncols()));
                                    }
                                    rec.outcome("lower level fit");
                                }
                            }
                            let mut h = Hash::new();
                            h.s(&ex());
                            rec.state(h.done());
                            rec.ok(1);
                        }
                    }
                }
            }
        }
    }
    rec.max_depth = 1;
    Ok(())
}
