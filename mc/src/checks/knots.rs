//! C19-C23: parametrizations, knot generation, construction, span lookup, knot queries.
use super::fit::{choose, jitter};
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, DomainKnotComparatorType as Cmp, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::{Curve, CurveError};
use nalgebra::{DMatrix, DVector};
use std::sync::Arc;

fn vh(tag: &str, xs: &[f64]) -> u128 {
    let mut h = Hash::new();
    h.s(tag).fs(xs);
    h.done()
}
fn bits_of(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

// ---------------------------------------------------------------- C19

/// all walks of the given number of points over an alphabet of points, consecutive ones different
fn walks(alphabet: &[Vec<f64>], len: usize) -> Vec<Vec<Vec<f64>>> {
    let mut out: Vec<Vec<Vec<f64>>> = alphabet.iter().map(|a| vec![a.clone()]).collect();
    for _ in 1..len {
        out = out
            .into_iter()
            .flat_map(|w| {
                alphabet
                    .iter()
                    .filter(|a| **a != *w.last().unwrap())
                    .map(|a| {
                        let mut v = w.clone();
                        v.push(a.clone());
                        v
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

pub fn c19(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    let alphabets: Vec<(&str, Vec<Vec<f64>>)> = vec![
        ("1-D {-1,0,0.1,2}", vec![vec![-1.0], vec![0.0], vec![0.1], vec![2.0]]),
        ("2-D {(0,0),(1,0),(0,2),(3,4)}", vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![0.0, 2.0], vec![3.0, 4.0]]),
        ("1-D {0,1,1+2^-40,1000}", vec![vec![0.0], vec![1.0], vec![1.0 + T40], vec![1000.0]]),
        ("1-D {0,1e-300,1e-8,0.3}", vec![vec![0.0], vec![1e-300], vec![1e-8], vec![0.3]]),
    ];
    for (name, al) in alphabets {
        for len in 2..=o.tier.pick(6, 8, 9) {
            for first in 0..al.len() {
                let al = al.clone();
                cases.push(Case {
                    key: format!("walks of {len} points over {name} from {:?}", al[first]),
                    run: Box::new(move |rec| {
                        for w in walks(&al, len) {
                            if w[0] == al[first] {
                                c19_data(rec, &w, &|| format!("data {w:?}"))?;
                            }
                        }
                        rec.max_depth = 1;
                        Ok(())
                    }),
                });
            }
        }
    }
    let ms: Vec<usize> = if q { (1..=20).chain([33, 50, 99, 300]).collect() } else { (1..=60).chain([99, 150, 300, 1000]).collect() };
    for m in ms {
        cases.push(Case {
            key: format!("families with {} points", m + 1),
            run: Box::new(move |rec| {
                for pt in ALL_PTS {
                    let cols = jitter(pt.cols(m + 1, seed));
                    if pt == Pts::Tiny && cols.windows(2).any(|w| w[0] == w[1]) {
                        continue;
                    }
                    c19_data(rec, &cols, &|| format!("{} points {pt:?}", m + 1))?;
                    // steps of very different length, the shortest first, in the middle, last
                    for at in [0, m / 2, m - 1] {
                        for d in [0.1, 0.3, 1.0 / 3.0, 0.7] {
                            for tiny in [1e-9, 1e-18, 1e-30] {
                                let mut x = 0.0;
                                let mut w = vec![vec![x, 0.0]];
                                let mut y = 0.0;
                                for g in 0..m {
                                    if g == at {
                                        y += tiny;
                                    } else {
                                        x += d * (1.0 + (g % 3) as f64);
                                    }
                                    w.push(vec![x, y]);
                                }
                                if w.windows(2).all(|v| v[0] != v[1]) {
                                    c19_data(rec, &w, &|| format!("{} points, steps {d:?}, step {at} of length {tiny:?}", m + 1))?;
                                }
                            }
                        }
                    }
                }
                rec.max_depth = 1;
                rec.sample(|| format!("{} points, all families and short-step positions", m + 1));
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: data set. Transition: one parametrization (generate with each method, and the methods themselves).".into(),
            bounds: format!("all walks of up to {} points over four 4-point alphabets (1-D and 2-D, equal, nearly equal and very different step lengths); 14 data families and short-step families with up to {} points", o.tier.pick(6, 8, 9), if q { 301 } else { 1001 }),
            oracle: "cumulated step lengths divided by their sum in double-double arithmetic; ends exact; order exact".into(),
            assumptions: vec!["data sets whose total length is below the library's own limit (1.5e-8) for the centripetal method are outside".into()],
        },
        cases,
    )
}

fn c19_data(rec: &mut Rec, cols: &[Vec<f64>], ex: Ex) -> Res {
    let m = cols.len() - 1;
    let d = DataPoints::new(mat(cols));
    for v in 0..6 {
        let name = ["EquallySpaced", "ChordLength", "Centripetal", "equally_spaced", "chord_length", "centripetal"][v];
        // ideal steps
        let steps: Vec<D> = (0..m)
            .map(|g| {
                if v % 3 == 0 {
                    return ONE;
                }
                // scaled to avoid underflow of squares
                let big = (0..cols[g].len()).map(|x| (cols[g + 1][x] - cols[g][x]).abs()).fold(0.0, f64::max);
                let s = cols[g].iter().zip(&cols[g + 1]).fold(ZERO, |s, (a, b)| {
                    let e = (D::from(*b) - D::from(*a)) / D::from(big);
                    s + e * e
                });
                let len = s.sqrt() * D::from(big);
                if v % 3 == 1 {
                    len
                } else {
                    len.sqrt()
                }
            })
            .collect();
        let sum = steps.iter().fold(ZERO, |s, &x| s + x);
        if sum.0 < 1e-7 {
            rec.skipped += 1;
            continue;
        }
        let e = || format!("{} -> {name}", ex());
        rec.trans(1);
        let r = call(|| match v {
            0 => parameters::generate(&d, parameters::Method::EquallySpaced),
            1 => parameters::generate(&d, parameters::Method::ChordLength),
            2 => parameters::generate(&d, parameters::Method::Centripetal),
            3 => parameters::methods::equally_spaced(m),
            4 => parameters::methods::chord_length(&d),
            _ => parameters::methods::centripetal(&d),
        })
        .or_else(|x| fail(e(), x))?;
        let u: Vec<f64> = r.vector().iter().copied().collect();
        if u.len() != m + 1 || r.segments() != m {
            return fail(e(), format!("{} parameters and {} segments for {} points", u.len(), r.segments(), m + 1));
        }
        if u[0] != 0.0 || u[m] != 1.0 {
            return fail(e(), format!("the parameters run from {:?} to {:?}", u[0], u[m]));
        }
        if let Some(g) = (0..m).find(|&g| !(u[g] <= u[g + 1])) {
            return fail(e(), format!("parameters {g} and {} decrease: {:?}, {:?}", g + 1, u[g], u[g + 1]));
        }
        let mut acc = ZERO;
        for g in 1..m {
            acc += steps[g - 1];
            let want = acc / sum;
            let err = (D::from(u[g]) - want).abs().0;
            // chord lengths whose squares underflow lose accuracy
            let under = steps.iter().filter(|s| s.0 < 1e-140).count() as f64 * 1e-70;
            if !rec.within(err, 4.0 * (m + 2) as f64 * EPS + under) {
                return fail(e(), format!("parameter {g} is {:?} instead of {:?}", u[g], want.f()));
            }
        }
        rec.state(vh(name, &u));
        rec.outcome("parametrized");
        rec.ok(1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

fn knot_rule(method: usize, p: usize, n: usize, par: &[f64]) -> Vec<D> {
    let inner = n - p;
    (1..=inner)
        .map(|j| match method {
            0 => D::int(j) / D::int(inner + 1),
            1 => {
                let d = D::int(par.len()) / D::int(inner + 1);
                // i = floor(j * d) in integers
                let i = j * par.len() / (inner + 1);
                let a = D::int(j) * d - D::int(i);
                (ONE - a) * D::from(par[i - 1]) + a * if i < par.len() { D::from(par[i]) } else { ZERO }
            }
            _ => (j..j + p).fold(ZERO, |s, i| s + D::from(par[i])) / D::int(p),
        })
        .collect()
}
const KM: [&str; 3] = ["Uniform", "DeBoor", "Averaging"];
fn gen_knots(v: usize, p: usize, n: usize, par: &Parameters) -> Result<Result<Knots, CurveError>, String> {
    call(|| match v {
        0 => knots::generate(p, n, par, knots::Method::Uniform),
        1 => knots::generate(p, n, par, knots::Method::DeBoor),
        2 => knots::generate(p, n, par, knots::Method::Averaging),
        3 => knots::methods::uniform(p, n),
        4 => knots::methods::de_boor(p, n, par),
        _ => knots::methods::averaging(p, n, par),
    })
}
fn c20_one(rec: &mut Rec, p: usize, n: usize, par: &[f64], strict: bool) -> Res {
    let m = par.len() - 1;
    let pars = Parameters::new(DVector::from_vec(par.to_vec()), m);
    for v in 0..6 {
        let ex = || format!("p={p} n={n} parameters={par:?} -> {}{}", KM[v % 3], if v > 2 { " (method)" } else { "" });
        if v % 3 == 2 && m != n || v % 3 == 1 && m < n {
            continue;
        }
        rec.trans(1);
        let k = match gen_knots(v, p, n, &pars) {
            Ok(Ok(k)) => k,
            Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
            Err(e) => return fail(ex(), e),
        };
        let u: Vec<f64> = k.vector().iter().copied().collect();
        if k.degree() != p || u.len() != n + p + 2 || k.segments() != n {
            return fail(ex(), format!("degree {} segments {} knots {u:?}", k.degree(), k.segments()));
        }
        if u[..=p].iter().any(|x| *x != 0.0) || u[n + 1..].iter().any(|x| *x != 1.0) {
            return fail(ex(), format!("not clamped: {u:?}"));
        }
        if u.windows(2).any(|w| !(w[0] <= w[1])) {
            return fail(ex(), format!("not sorted: {u:?}"));
        }
        if (strict || v % 3 == 0) && u[p + 1..=n].iter().any(|x| !(*x > 0.0 && *x < 1.0)) {
            return fail(ex(), format!("interior knots not inside (0,1): {u:?}"));
        }
        for kk in 1..=p {
            if k.max_derivative() != p || k.vector_derivative(kk).as_slice() != &u[kk..u.len() - kk] {
                return fail(ex(), format!("derivative knots of order {kk} are wrong"));
            }
        }
        for (j, w) in knot_rule(v % 3, p, n, par).iter().enumerate() {
            let err = (D::from(u[p + 1 + j]) - *w).abs().0;
            if !rec.within(err, 4.0 * (m + p + 2) as f64 * EPS) {
                return fail(ex(), format!("interior knot {j} is {:?} instead of {:?}", u[p + 1 + j], w.f()));
            }
        }
        if v % 3 == 1 && strict {
            let d = distinct(&u);
            for w in d.windows(2) {
                if !par.iter().any(|x| *x >= w[0] - 1e-12 && *x <= w[1] + 1e-12) {
                    return fail(ex(), format!("the span [{:?}, {:?}] contains no parameter", w[0], w[1]));
                }
            }
        }
        rec.state(vh(KM[v % 3], &u));
        rec.outcome(KM[v % 3]);
        rec.ok(1);
    }
    Ok(())
}
pub fn c20(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases: Vec<Case> = vec![];
    let seed = o.seed;
    // every strictly increasing parameter set of the lattice, every p <= n <= m
    let g = o.tier.pick(9, 12, 14);
    for m in 1..=o.tier.pick(6, 8, 9) {
        for repeat in [false, true] {
            if repeat && m > o.tier.pick(4, 5, 6) {
                continue;
            }
            cases.push(Case {
                key: format!("{} lattice parameters, m={m}", if repeat { "repeated" } else { "increasing" }),
                run: Box::new(move |rec| {
                    let inner: Vec<f64> = if repeat { (0..=4).map(|j| j as f64 / 4.0).collect() } else { (1..g).map(|j| j as f64 / g as f64).collect() };
                    for c in choose(&inner, m - 1, repeat) {
                        let mut par = vec![0.0];
                        par.extend(c);
                        par.push(1.0);
                        for n in 1..=m {
                            for p in 1..=n {
                                c20_one(rec, p, n, &par, !repeat)?;
                            }
                        }
                    }
                    rec.max_depth = 1;
                    Ok(())
                }),
            });
        }
    }
    // generated and graded parameters, long
    for m in o.tier.pick(vec![1, 2, 3, 5, 8, 13, 21, 30, 300], (1..=40).chain([60, 99, 300, 521]).collect(), (1..=60).chain([99, 150, 300, 521]).collect::<Vec<usize>>()) {
        cases.push(Case {
            key: format!("long parameters m={m}"),
            run: Box::new(move |rec| {
                let mut sets: Vec<Vec<f64>> = vec![
                    (0..=m).map(|g| g as f64 / m as f64).collect(),
                    (0..=m).map(|g| (g as f64 / m as f64).powi(3)).collect(),
                    (0..=m).map(|g| 1.0 - (1.0 - g as f64 / m as f64).powi(4)).collect(),
                ];
                for pt in [Pts::Gen(1), Pts::Gen(2), Pts::Gen(3)] {
                    let d = DataPoints::new(mat(&jitter(pt.cols(m + 1, seed))));
                    for me in [parameters::Method::ChordLength, parameters::Method::Centripetal] {
                        let r = call(|| parameters::generate(&d, me)).or_else(|e| fail(format!("parameters of {pt:?} m={m}"), e))?;
                        sets.push(r.vector().iter().copied().collect());
                    }
                }
                // beyond 150 parameters a few segment numbers
                let ns: Vec<usize> = (1..=m).filter(|&n| m <= 150 || n <= 4 || n % 61 == 0 || n + 2 > m).collect();
                for par in sets {
                    let strict = par.windows(2).all(|w| w[0] < w[1]);
                    for &n in &ns {
                        for p in 1..=n.min(10) {
                            c20_one(rec, p, n, &par, strict)?;
                        }
                    }
                }
                rec.max_depth = 2;
                rec.sample(|| format!("m={m}, all p <= min(n,10), n in {ns:?}"));
                Ok(())
            }),
        });
    }
    // uniform knots do not depend on parameters; refusals
    let nmax = o.tier.pick(60, 150, 300);
    cases.push(Case {
        key: "uniform and refused requests".into(),
        run: Box::new(move |rec| {
            let par: Vec<f64> = (0..=6).map(|g| g as f64 / 6.0).collect();
            let pars = Parameters::new(DVector::from_vec(par.clone()), 6);
            for n in 0..=nmax {
                for p in 0..=n.min(12) + 3 {
                    for v in 0..6 {
                        let ex = || format!("p={p} n={n} -> {}", KM[v % 3]);
                        if p > 0 && p <= n {
                            if v % 3 == 0 {
                                let k = match gen_knots(v, p, n, &pars) {
                                    Ok(Ok(k)) => k,
                                    Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                                    Err(e) => return fail(ex(), e),
                                };
                                rec.trans(1);
                                rec.state(vh("u", k.vector().as_slice()));
                                let u = k.vector();
                                if u.len() != n + p + 2 {
                                    return fail(ex(), format!("{} knots", u.len()));
                                }
                                for (i, x) in u.iter().enumerate() {
                                    let want = if i <= p {
                                        ZERO
                                    } else if i > n {
                                        ONE
                                    } else {
                                        D::int(i - p) / D::int(n - p + 1)
                                    };
                                    if (D::from(*x) - want).abs().0 > 4.0 * EPS || (i <= p || i > n) && *x != want.0 {
                                        return fail(ex(), format!("knot {i} is {x:?}"));
                                    }
                                }
                                rec.ok(1);
                            }
                            continue;
                        }
                        rec.trans(1);
                        match gen_knots(v, p, n, &pars) {
                            Ok(Err(CurveError::DegreeTooLow { p: 0, limit: 0 })) if p == 0 => rec.outcome("refused: degree 0"),
                            Ok(Err(CurveError::DegreeAndSegmentsMismatch { p: a, n: b })) if p > n && (a, b) == (p, n) => rec.outcome("refused: too few segments"),
                            Ok(Err(e)) => return fail(ex(), format!("refused with {e:?}")),
                            Ok(Ok(k)) => return fail(ex(), format!("gave {:?}", k.vector().as_slice())),
                            Err(e) => return fail(ex(), e),
                        }
                        rec.ok(1);
                    }
                }
            }
            rec.max_depth = 1;
            Ok(())
        }),
    });
    (
        Meta {
            rule: "State: parameter set and request (p, n). Transition: one knot generation through generate and through each method.".into(),
            bounds: format!("all increasing parameter sets of the lattice j/{g} and repeated ones of j/4, all p <= n <= m; equally spaced, graded and data-generated parameters up to m = {} (a few n up to m = {}); uniform knots for all n <= {}; every inadmissible (p, n)", o.tier.pick(30, 99, 150), o.tier.pick(300, 521, 521), o.tier.pick(60, 150, 300)),
            oracle: "the stated rule in double-double and integer arithmetic".into(),
            assumptions: vec!["averaging takes exactly n+1 parameters".into()],
        },
        cases,
    )
}

// ---------------------------------------------------------------- C21

pub fn c21(o: &Opts) -> (Meta, Vec<Case>) {
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    // accepted: exact knots and points
    let space = Arc::new(knot_space(o.tier));
    let chunk = 16;
    for c0 in (0..space.len()).step_by(chunk) {
        let space = space.clone();
        cases.push(Case {
            key: format!("given knots {c0}.."),
            run: Box::new(move |rec| {
                for kn in space.iter().skip(c0).take(chunk) {
                    for pt in ALL_PTS.into_iter().chain([Pts::Neg0, Pts::Sub]) {
                        let cols = pt.cols(kn.n1(), seed);
                        for v in 0..2 {
                            let ex = || format!("{kn} points {pt:?} -> {}", ["Curve::new", "generate(Manual with given knots)"][v]);
                            rec.trans(1);
                            let r = call(|| match v {
                                0 => Curve::new(kn.knots(), ControlPoints::new(mat(&cols))),
                                _ => generate(Generation::Manual {
                                    degree: kn.p,
                                    points: ControlPoints::new(mat(&cols)),
                                    knots: knots::Generation::Manual { knots: kn.knots() },
                                }),
                            });
                            let c = match r {
                                Ok(Ok(c)) => c,
                                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                                Err(e) => return fail(ex(), e),
                            };
                            faithful(rec, &ex, &c, kn.p, &kn.u, &cols)?;
                        }
                    }
                }
                rec.max_depth = 1;
                Ok(())
            }),
        });
    }
    // generated knots
    for n in 1..=o.tier.pick(12, 20, 30) {
        cases.push(Case {
            key: format!("generated knots n={n}"),
            run: Box::new(move |rec| {
                for p in 1..=n.min(8) {
                    for pt in [Pts::Gen(1), Pts::Gen(2), Pts::Gen(3), Pts::Line, Pts::Big, Pts::Far] {
                        let cols = jitter(pt.cols(n + 1, seed));
                        let d = DataPoints::new(mat(&cols));
                        for pm in 0..3usize {
                            for km in 0..4usize {
                                let ex = || format!("p={p} points {pt:?} n={n} -> generate(Manual, parameters {pm}, knots {km})");
                                let pmeth = || match pm {
                                    0 => parameters::Method::EquallySpaced,
                                    1 => parameters::Method::ChordLength,
                                    _ => parameters::Method::Centripetal,
                                };
                                let kmeth = || match km {
                                    0 => knots::Method::Uniform,
                                    1 => knots::Method::DeBoor,
                                    _ => knots::Method::Averaging,
                                };
                                rec.trans(1);
                                let r = call(|| {
                                    generate(Generation::Manual {
                                        degree: p,
                                        points: ControlPoints::new(mat(&cols)),
                                        knots: if km == 3 {
                                            knots::Generation::Uniform
                                        } else {
                                            knots::Generation::Method { parameter_method: pmeth(), knot_method: kmeth() }
                                        },
                                    })
                                });
                                let c = match r {
                                    Ok(Ok(c)) => c,
                                    Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                                    Err(e) => return fail(ex(), e),
                                };
                                let want = call(|| {
                                    if km == 3 {
                                        knots::methods::uniform(p, n)
                                    } else {
                                        knots::generate(p, n, &parameters::generate(&d, pmeth()), kmeth())
                                    }
                                });
                                let want = match want {
                                    Ok(Ok(k)) => k,
                                    Ok(Err(e)) => return fail(ex(), format!("knot generation refused: {e:?}")),
                                    Err(e) => return fail(ex(), e),
                                };
                                faithful(rec, &ex, &c, p, want.vector().as_slice(), &cols)?;
                            }
                        }
                    }
                }
                rec.max_depth = 1;
                Ok(())
            }),
        });
    }
    // control points and knots taken over from other curves, before and after manipulations of these
    let small = Arc::new(small_space(o.tier));
    for i in 0..small.len() {
        let small = small.clone();
        cases.push(Case {
            key: format!("taken over from {}", small[i]),
            run: Box::new(move |rec| {
                let from = &small[i];
                let base = build(from, &Pts::Gen(2).cols(from.n1(), seed), &|| from.to_string())?;
                let mut sources = vec![(base.clone(), from.to_string())];
                let mut x = base.clone();
                x.reverse();
                sources.push((x, format!("{from} -> reverse")));
                let mut x = base.clone();
                if call(|| x.insert(0.45).is_ok()) == Ok(true) {
                    sources.push((x, format!("{from} -> insert(0.45)")));
                }
                for k in 1..=from.p.min(2) {
                    if let Ok(d) = call(|| base.get_derivative_curve(k)) {
                        sources.push((d, format!("{from} -> get_derivative_curve({k})")));
                    }
                }
                for (src, hist) in sources {
                    let cols = cols_of(src.points.matrix());
                    let own: Vec<f64> = src.knots.vector().iter().copied().collect();
                    for to in small.iter().filter(|k| k.n1() == cols.len()) {
                        for v in 0..2 {
                            let ex = || format!("points of ({hist}) with knots {to} -> {}", ["Curve::new", "generate(Manual)"][v]);
                            rec.trans(1);
                            let r = call(|| match v {
                                0 => Curve::new(to.knots(), src.points.clone()),
                                _ => generate(Generation::Manual {
                                    degree: to.p,
                                    points: src.points.clone(),
                                    knots: knots::Generation::Manual { knots: to.knots() },
                                }),
                            });
                            let c = match r {
                                Ok(Ok(c)) => c,
                                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                                Err(e) => return fail(ex(), e),
                            };
                            faithful(rec, &ex, &c, to.p, &to.u, &cols)?;
                            same_as_fresh(&ex, &c, &to.u, &cols)?;
                        }
                    }
                    // the knots of the source with other points
                    if src.degree() > 0 {
                        for pt in [Pts::Gen(1), Pts::Gen(2), Pts::Const] {
                            let ex = || format!("knots of ({hist}) with points {pt:?} -> Curve::new");
                            let cols = pt.cols(cols.len(), seed + 3);
                            rec.trans(1);
                            let c = match call(|| Curve::new(src.knots.clone(), ControlPoints::new(mat(&cols)))) {
                                Ok(Ok(c)) => c,
                                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                                Err(e) => return fail(ex(), e),
                            };
                            faithful(rec, &ex, &c, src.degree(), &own, &cols)?;
                            same_as_fresh(&ex, &c, &own, &cols)?;
                        }
                    }
                }
                rec.max_depth = rec.max_depth.max(2);
                Ok(())
            }),
        });
    }
    // every combination of counts
    for kp in 0..=5usize {
        cases.push(Case {
            key: format!("counts, knots of degree {kp}"),
            run: Box::new(move |rec| {
                for len in (2 * kp).max(2)..=2 * kp + 9 {
                    // no points at all belong to no knots, too
                    for npts in (kp == 0) as usize..=9usize {
                        for dim in [1, 3] {
                            // knots of the given length, sorted, from 0 to 1
                            let u: Vec<f64> = (0..len)
                                .map(|i| {
                                    if i <= kp.min(len / 2) {
                                        0.0
                                    } else if i + kp + 1 >= len {
                                        1.0
                                    } else {
                                        (i - kp) as f64 / (len - 2 * kp - 1) as f64
                                    }
                                })
                                .collect();
                            let cols = Pts::Gen(dim).cols(npts, seed);
                            let fits = len == npts + kp + 1 && npts > kp;
                            for v in 0..8usize {
                                // v = 0: Curve::new; v > 0: generate with requested degree v - 1
                                let ex = || {
                                    format!(
                                        "{len} knots of degree {kp}, {npts} points of dimension {dim} -> {}",
                                        if v == 0 { "Curve::new".to_string() } else { format!("generate(Manual, degree {})", v - 1) }
                                    )
                                };
                                rec.trans(1);
                                rec.state(vh(&ex(), &u));
                                let r = call(|| {
                                    let k = Knots::new(kp, DVector::from_vec(u.clone()));
                                    let p = ControlPoints::new(if npts == 0 { DMatrix::zeros(dim, 0) } else { mat(&cols) });
                                    if v == 0 {
                                        Curve::new(k, p)
                                    } else {
                                        generate(Generation::Manual { degree: v - 1, points: p, knots: knots::Generation::Manual { knots: k } })
                                    }
                                });
                                let ok = fits && (v == 0 || v - 1 == kp);
                                match r {
                                    Err(e) => return fail(ex(), e),
                                    Ok(Err(e)) if ok && (v == 0 || kp > 0) => return fail(ex(), format!("refused: {e:?}")),
                                    Ok(Err(e)) => {
                                        if npts < kp + 1 && v == 0 && len == npts + kp + 1 {
                                            if e != (CurveError::DegreeAndSegmentsMismatch { p: kp, n: npts.saturating_sub(1) }) {
                                                return fail(ex(), format!("refused with {e:?}"));
                                            }
                                        }
                                        rec.outcome("refused");
                                    }
                                    Ok(Ok(_)) if !ok => {
                                        return fail(ex(), "accepted although points, knots and degree do not belong together".to_string())
                                    }
                                    Ok(Ok(c)) => faithful(rec, &ex, &c, kp, &u, &cols)?,
                                }
                                rec.ok(1);
                            }
                        }
                    }
                }
                rec.max_depth = 1;
                rec.sample(|| format!("knots of degree {kp}, all lengths and point counts"));
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: control points, knots, requested degree. Transition: one construction through Curve::new or generate(Manual ...).".into(),
            bounds: format!("{} x 15 control point families; points and knots taken over from curves of the small space (as built, reversed, refined, differentiated) combined with every knot vector of matching length; generated knots for all n <= {}, p <= 8, all parameter and knot methods; all combinations of knot degree 0..=5, knot count, 0..=9 points and requested degree 0..=6", space_text(o.tier), o.tier.pick(12, 20, 30)),
            oracle: "bitwise comparison with the given data; the condition count = n+p+2 and n >= p".into(),
            assumptions: vec!["knot vectors shorter than twice the degree cannot be constructed and are outside".into()],
        },
        cases,
    )
}
/// All derivative data are those of a curve built from fresh knots and points.
fn same_as_fresh(ex: Ex, c: &Curve, u: &[f64], cols: &[Vec<f64>]) -> Res {
    let p = c.degree();
    let fresh = match call(|| Curve::new(Knots::new(p, DVector::from_vec(u.to_vec())), ControlPoints::new(mat(cols)))) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return fail(ex(), format!("a fresh copy is refused: {e:?}")),
        Err(e) => return fail(ex(), e),
    };
    if call(|| bits(&fresh) == bits(c)) != Ok(true) {
        return fail(ex(), "the derivative data differ from those of a curve built from fresh knots and points".to_string());
    }
    Ok(())
}
fn faithful(rec: &mut Rec, ex: Ex, c: &Curve, p: usize, u: &[f64], cols: &[Vec<f64>]) -> Res {
    consistent(ex, c, "built curve")?;
    if c.degree() != p || c.max_derivative() != p || c.points.max_derivative() != p {
        return fail(ex(), format!("degree {} max_derivative {}", c.degree(), c.max_derivative()));
    }
    if bits_of(c.knots.vector().as_slice()) != bits_of(u) {
        return fail(ex(), format!("knots {:?} instead of {u:?}", c.knots.vector().as_slice()));
    }
    let got = cols_of(c.points.matrix());
    if got.len() != cols.len() || got.iter().zip(cols).any(|(a, b)| bits_of(a) != bits_of(b)) {
        return fail(ex(), format!("points {got:?}"));
    }
    // every derivative order up to the degree is offered
    for k in 0..=p {
        rec.trans(1);
        match call(|| c.evaluate_derivative(0.5, k)) {
            Ok(Ok(v)) if v.len() == cols[0].len() => {}
            Ok(Ok(v)) => return fail(ex(), format!("derivative {k} has dimension {}", v.len())),
            Ok(Err(e)) => return fail(ex(), format!("derivative {k} refused: {e:?}")),
            Err(e) => return fail(ex(), format!("derivative {k}: {e}")),
        }
    }
    rec.state(curve_hash(c));
    rec.outcome("built");
    rec.ok(1);
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn c22(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases: Vec<Case> = vec![];
    let mut space = knot_space(o.tier);
    space.extend(tail_space(o.tier));
    space.extend(huge_space(o.tier));
    // degree 0 occurs as the last derivative curve
    for s in [vec![], vec![0.5], vec![0.2, 0.6], vec![0.1, 0.2, 0.7]] {
        space.push(Kn::simple(0, &s));
    }
    // domains inside [0,1] and unclamped ends
    space.extend(super::sub::starts(o.tier));
    for kn in space {
        cases.push(Case {
            key: kn.to_string(),
            run: Box::new(move |rec| {
                let key = kn.to_string();
                let k0 = call(|| kn.knots()).or_else(|e| fail(&key, e))?;
                for k in 0..=kn.p {
                    let pk = kn.p - k;
                    let uk = &kn.u[k..kn.u.len() - k];
                    let dom = &uk[pk..uk.len() - pk];
                    let (first, last) = (dom[0], dom[dom.len() - 1]);
                    for &t in params(&kn).iter().filter(|t| first <= **t && **t <= last) {
                        for v in 0..4 {
                            let name = ["Left", "LeftOrEqual", "RightOrEqual", "Right"][v];
                            let ex = || format!("{key} -> find_idx({t:?}, {k}, {name})");
                            rec.trans(1);
                            let i = call(|| k0.find_idx(t, k, [Cmp::Left, Cmp::LeftOrEqual, Cmp::RightOrEqual, Cmp::Right].into_iter().nth(v).unwrap()))
                                .or_else(|e| fail(ex(), e))?;
                            let below = |f: &dyn Fn(f64) -> bool| dom.iter().copied().filter(|x| *x < last && f(*x)).fold(first, f64::max);
                            let above = |f: &dyn Fn(f64) -> bool, lo: f64| dom.iter().copied().filter(|x| *x >= lo && f(*x)).fold(last, f64::min);
                            let want = match v {
                                0 => below(&|x| x < t),
                                1 => below(&|x| x <= t),
                                2 => above(&|x| x >= t, first),
                                _ => above(&|x| x > t && x > first, first),
                            };
                            if i < pk || i + pk >= uk.len() {
                                return fail(ex(), format!("index {i} is outside the domain {pk}..={}", uk.len() - pk - 1));
                            }
                            if uk[i] != want {
                                return fail(ex(), format!("index {i}, knot {:?} instead of {want:?}", uk[i]));
                            }
                            // a span lookup has to name a span: the knot after 'left' is the end of the span of u
                            let span_end = dom.iter().copied().filter(|x| *x > want).fold(last, f64::min);
                            if v == 1 && uk[i + 1] != want && uk[i + 1] != span_end {
                                return fail(ex(), format!("index {i} does not start or belong to a span"));
                            }
                            rec.outcome(name);
                        }
                        let mut h = Hash::new();
                        h.u(k as u64).f(t).fs(&kn.u);
                        rec.state(h.done());
                        rec.ok(1);
                    }
                }
                rec.max_depth = 1;
                rec.sample(|| format!("{key}, all orders, all parameter classes"));
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: knot vector, derivative order, parameter. Transition: one lookup with each of the four comparators.".into(),
            bounds: space_text(o.tier) + ", degree 0 and unclamped and sub-interval knots of C29; all orders 0..=p, p+1 interior parameters of every span, all knots, their floating point neighbours and the extreme values of [0,1]",
            oracle: "the bracketing domain knot by linear filtering; for repeated knots any index with that value is accepted".into(),
            assumptions: vec![],
        },
        cases,
    )
}

// ---------------------------------------------------------------- C23

pub fn c23(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases: Vec<Case> = vec![];
    let mut space = knot_space(o.tier);
    space.extend(tail_space(o.tier));
    space.extend(huge_space(o.tier));
    for kn in super::sub::starts(o.tier) {
        let name = format!("views of {kn}");
        let run = move |rec: &mut Rec| {
            let key = kn.to_string();
            let k = call(|| kn.knots()).or_else(|e| fail(&key, e))?;
            rec.state(vh("kn", &kn.u));
            views(rec, &|| key.clone(), &k, kn.p, &kn.u)?;
            c23_tests(rec, kn.p, &kn.u)
        };
        cases.push(Case { key: name, run: Box::new(run) });
    }
    for kn in space {
        cases.push(Case { key: kn.to_string(), run: Box::new(move |rec| c23_views(rec, &kn)) });
    }
    // tests: every sequence over an alphabet
    for (name, al) in [("{0,1/4,1/2,1}", vec![0.0, 0.25, 0.5, 1.0]), ("{-1,0,1/2,1,2}", vec![-1.0, 0.0, 0.5, 1.0, 2.0])] {
        for p in 0..=3usize {
            for len in (2 * p + 2)..=o.tier.pick(7, 9, 10) {
                let al = al.clone();
                if al.len() == 5 && len > o.tier.pick(6, 7, 8) {
                    continue;
                }
                cases.push(Case {
                    key: format!("tests of all sequences over {name}, degree {p}, length {len}"),
                    run: Box::new(move |rec| {
                        let total = al.len().pow(len as u32);
                        for c in 0..total {
                            let mut x = c;
                            let u: Vec<f64> = (0..len)
                                .map(|_| {
                                    let v = al[x % al.len()];
                                    x /= al.len();
                                    v
                                })
                                .collect();
                            c23_tests(rec, p, &u)?;
                        }
                        rec.max_depth = 1;
                        Ok(())
                    }),
                });
            }
        }
    }
    (
        Meta {
            rule: "State: knot vector. Transition: one query, or one normalization / rescaling / re-derivation after which all views are compared again.".into(),
            bounds: format!("views: {}, and the unclamped and sub-interval knots of C29, all orders; normalization: 12 source intervals x knot space; rescaling: 12 x 6 interval pairs; sorted/clamped/normed/uniform tests: every sequence of 4 (5) values up to length {} ({}), degrees 0..=3", space_text(o.tier), o.tier.pick(7, 9, 10), o.tier.pick(6, 7, 8)),
            oracle: "direct evaluation of the definitions on the knot list; affine maps in double-double arithmetic".into(),
            assumptions: vec!["multiplicity is counted on the domain, as the existing tests pin".into()],
        },
        cases,
    )
}

fn views(rec: &mut Rec, ex: Ex, k: &Knots, p: usize, u: &[f64]) -> Res {
    let n = u.len() - p - 2;
    let r = call(|| -> Result<(), String> {
        let chk = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} is wrong")) };
        chk(k.degree() == p, "degree()")?;
        chk(k.max_derivative() == p, "max_derivative()")?;
        chk(k.segments() == n, "segments()")?;
        chk(k.vector().as_slice() == u, "vector()")?;
        chk(k.internal_count() == n - p, "internal_count()")?;
        chk(k.internal().iter().copied().collect::<Vec<_>>() == u[p + 1..=n], "internal()")?;
        for i in 0..n - p {
            chk(k.internal_knot(i) == u[p + 1 + i], "internal_knot()")?;
        }
        chk(k.domain_count() == n - p + 2, "domain_count()")?;
        chk(k.domain().iter().copied().collect::<Vec<_>>() == u[p..=n + 1], "domain()")?;
        for i in 0..=n - p + 1 {
            chk(k.domain_knot(i) == u[p + i], "domain_knot()")?;
        }
        for d in 0..=p {
            chk(k.vector_derivative(d).as_slice() == &u[d..u.len() - d], &format!("vector_derivative({d})"))?;
            chk(k.len(d) == u.len() - 2 * d, &format!("len({d})"))?;
            chk(k.segments_derivative(d) == n, &format!("segments_derivative({d}) = {}", k.segments_derivative(d)))?;
            chk(k.domain_derivative(d).iter().copied().collect::<Vec<_>>() == u[p..=n + 1], &format!("domain_derivative({d})"))?;
        }
        let dom = &u[p..=n + 1];
        for t in distinct(u).into_iter().flat_map(|x| [x, next_up(x), next_down(x), 0.5 * x + 0.01]) {
            chk(k.multiplicity(t) == dom.iter().filter(|x| **x == t).count(), &format!("multiplicity({t:?}) = {}", k.multiplicity(t)))?;
        }
        Ok(())
    });
    rec.trans(10 + 4 * p as u64);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => fail(ex(), format!("{e} for knots {u:?}")),
    }
}
fn affine(rec: &mut Rec, ex: Ex, k: &Knots, p: usize, src: &[f64], old: (f64, f64), new: (f64, f64), exact_ends: bool) -> Res {
    let u: Vec<f64> = k.vector().iter().copied().collect();
    if u.len() != src.len() {
        return fail(ex(), format!("{} knots instead of {}", u.len(), src.len()));
    }
    let scale = new.0.abs().max(new.1.abs()) + (new.1 - new.0).abs();
    for i in 0..u.len() {
        let t = (D::from(src[i]) - D::from(old.0)) / (D::from(old.1) - D::from(old.0));
        let want = t * (D::from(new.1) - D::from(new.0)) + D::from(new.0);
        let err = (D::from(u[i]) - want).abs().0;
        if !rec.within(err, 8.0 * EPS * scale) {
            return fail(ex(), format!("knot {i} is {:?} instead of {:?}", u[i], want.f()));
        }
        if exact_ends && (src[i] == old.0 && u[i] != new.0 || src[i] == old.1 && u[i] != new.1) {
            return fail(ex(), format!("knot {i} is {:?}, not the exact end", u[i]));
        }
        if i > 0 && (src[i] == src[i - 1]) && u[i] != u[i - 1] {
            return fail(ex(), format!("repeated knots {} and {i} become {:?} and {:?}", i - 1, u[i - 1], u[i]));
        }
    }
    for d in 0..=p {
        if k.vector_derivative(d).as_slice() != &u[d..u.len() - d] {
            return fail(ex(), format!("derivative knots of order {d} are {:?}, knots {u:?}", k.vector_derivative(d).as_slice()));
        }
    }
    rec.ok(1);
    Ok(())
}
fn c23_views(rec: &mut Rec, kn: &Kn) -> Res {
    let key = kn.to_string();
    let p = kn.p;
    let k = call(|| kn.knots()).or_else(|e| fail(&key, e))?;
    rec.state(vh("kn", &kn.u));
    views(rec, &|| key.clone(), &k, p, &kn.u)?;
    // all four tests on valid vectors
    c23_tests(rec, p, &kn.u)?;
    // and on vectors that miss them by little, at any single place
    for base in [kn.u.clone(), uniform_of(kn)] {
        for i in 0..base.len() {
            for x in [base[i] + 2e-4, base[i] - 2e-4, base[i] + 1e-6, base[i] - 1e-7, base[i] + 1e-8, next_up(base[i]), next_down(base[i])] {
                let mut v = base.clone();
                v[i] = x;
                c23_tests(rec, p, &v)?;
            }
        }
    }
    let intervals = [
        (0.0, 1.0),
        (0.0, 2.0),
        (-1.0, 1.0),
        (0.5, 1.0),
        (0.0, 0.5),
        (0.25, 0.75),
        (-3.0, -2.0),
        (7.0, 19.0),
        (0.1, 0.3),
        (1e6, 1e6 + 1.0),
        (-1e-3, 1e-3),
        (0.0, 1e12),
    ];
    for iv in intervals {
        let src: Vec<f64> = kn.u.iter().map(|x| if *x == 1.0 { iv.1 } else { iv.0 + x * (iv.1 - iv.0) }).collect();
        let mk = || Knots::new(p, DVector::from_vec(src.clone()));
        let ex = || format!("{key} on {iv:?} -> normalize");
        rec.trans(1);
        let r = call(|| {
            let mut x = mk();
            x.normalize();
            x
        })
        .or_else(|e| fail(ex(), e))?;
        affine(rec, &ex, &r, p, &src, iv, (0.0, 1.0), true)?;
        rec.state(vh("norm", r.vector().as_slice()));
        // free functions
        let ex = || format!("{key} on {iv:?} -> knots::normalize / normalized");
        rec.trans(2);
        let (a, b, after) = call(|| {
            let mut v = DVector::from_vec(src.clone());
            knots::normalize(&mut v);
            let mut w = DVector::from_vec(src.clone());
            let x = knots::normalized(&mut w);
            (v, x, w)
        })
        .or_else(|e| fail(ex(), e))?;
        for v in [&a, &b] {
            if v.len() != src.len() || v.iter().zip(r.vector().iter()).any(|(x, y)| (x - y).abs() > 8.0 * EPS) || v[0] != 0.0 || v[v.len() - 1] != 1.0 {
                return fail(ex(), format!("gave {:?}", v.as_slice()));
            }
        }
        if after.as_slice() != src.as_slice() {
            return fail(ex(), "normalized() modified its argument".to_string());
        }
        for new in [(0.0, 1.0), (0.0, 3.0), (-2.0, 5.0), (0.5, 0.75), (1.0, 2.0), (-1e3, 1e3)] {
            let ex = || format!("{key} on {iv:?} -> rescale({iv:?}, {new:?})");
            rec.trans(1);
            let r = call(|| {
                let mut x = mk();
                x.rescale(iv, new);
                x
            })
            .or_else(|e| fail(ex(), e))?;
            affine(rec, &ex, &r, p, &src, iv, new, false)?;
            rec.state(vh("resc", r.vector().as_slice()));
        }
        // intervals that are not the ends of the knots
        let ex = || format!("{key} on {iv:?} -> rescale((-1,3), (0,1))");
        rec.trans(1);
        let r = call(|| {
            let mut x = kn.knots();
            x.rescale((-1.0, 3.0), (0.0, 1.0));
            x
        })
        .or_else(|e| fail(ex(), e))?;
        affine(rec, &ex, &r, p, &kn.u, (-1.0, 3.0), (0.0, 1.0), false)?;
    }
    // replacing the vector and deriving again
    let ex = || format!("{key} -> replace the knots, derive");
    let other: Vec<f64> = kn.u.iter().map(|x| x * x).collect();
    let r = call(|| {
        let mut x = kn.knots();
        x.vector_mut().copy_from_slice(&other);
        x.derive();
        x
    })
    .or_else(|e| fail(ex(), e))?;
    views(rec, &ex, &r, p, &other)?;
    rec.max_depth = 1;
    rec.sample(|| format!("{key}, all views, normalization from 12 intervals"));
    rec.ok(1);
    Ok(())
}
fn uniform_of(kn: &Kn) -> Vec<f64> {
    let (l, p) = (kn.u.len(), kn.p);
    let n = l - p - 2;
    (0..l).map(|i| if i <= p { 0.0 } else if i > n { 1.0 } else { (i - p) as f64 / (n - p + 1) as f64 }).collect()
}
fn c23_tests(rec: &mut Rec, p: usize, u: &[f64]) -> Res {
    let ex = || format!("p={p} knots {u:?}");
    let r = call(|| {
        let k = Knots::new(p, DVector::from_vec(u.to_vec()));
        (
            knots::is_sorted(&k),
            knots::is_clamped(&k),
            knots::is_normed(&k),
            if p >= 1 && u.len() >= 2 * p + 2 { knots::is_uniform(&k).map_err(|e| format!("{e:?}")) } else { Ok(false) },
        )
    })
    .or_else(|e| fail(ex(), e))?;
    rec.trans(4);
    rec.state(vh(&format!("t{p}"), u));
    let l = u.len();
    let sorted = u.windows(2).all(|w| w[0] <= w[1]);
    let clamped = u[..=p].iter().all(|x| *x == 0.0) && u[l - p - 1..].iter().all(|x| *x == 1.0);
    let (mn, mx) = u.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x)));
    let normed = mn == 0.0 && mx == 1.0;
    for (got, want, name) in [(r.0, sorted, "is_sorted"), (r.1, clamped, "is_clamped"), (r.2, normed, "is_normed")] {
        if got != want {
            return fail(format!("{} -> {name}", ex()), format!("{got} instead of {want}"));
        }
    }
    rec.outcome(if sorted { "sorted" } else { "unsorted" });
    rec.outcome(if clamped { "clamped" } else { "unclamped" });
    rec.outcome(if normed { "normed" } else { "unnormed" });
    if p >= 1 {
        let n = l - p - 2;
        let dev = (0..l)
            .map(|i| {
                let w = if i <= p {
                    0.0
                } else if i > n {
                    1.0
                } else {
                    (i - p) as f64 / (n - p + 1) as f64
                };
                (u[i] - w).abs()
            })
            .fold(0.0, f64::max);
        match r.3 {
            Ok(b) => {
                // knots within rounding of the uniform ones may be judged either way
                if dev == 0.0 && !b || dev > 1e-9 && b {
                    return fail(format!("{} -> is_uniform", ex()), format!("{b}, deviation from uniform knots {dev:?}"));
                }
                rec.outcome(if b { "uniform" } else { "not uniform" });
            }
            Err(e) => return fail(format!("{} -> is_uniform", ex()), e),
        }
    }
    rec.ok(1);
    Ok(())
}
