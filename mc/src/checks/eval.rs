//! C01-C06: evaluation, derivatives, derivative curves, basis functions, metamorphic laws.
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::{basis::basis, CurveError};

/// Samples of the parameter alphabet with the reference values of every order.
struct Table {
    ts: Vec<(f64, usize, D)>,
    pc: Pieces,
    spans: Vec<usize>,
    b: Bound,
}
fn table(kn: &Kn, m: &Model) -> Table {
    let pc = m.pieces();
    let ts = params(kn)
        .into_iter()
        .map(|t| {
            let td = D::from(t);
            let i = pc.locate(td);
            let w = (td - pc.list[i].a) / (pc.list[i].b - pc.list[i].a);
            (t, i, w)
        })
        .collect();
    Table { ts, pc, spans: m.spans(), b: Bound::new(m, 0.0, 0.0, 0.0) }
}

fn eval_case(kn: Kn, pts: Pts, seed: u64, orders: fn(usize) -> Vec<usize>) -> Case {
    let key = format!("{kn} P={pts:?}");
    Case {
        key: key.clone(),
        run: Box::new(move |rec| {
            let cols = pts.cols(kn.n1(), seed);
            let ex0 = || key.clone();
            let c = build(&kn, &cols, &ex0)?;
            let m = model_of(&kn, &cols);
            consistent(&ex0, &c, "construction")?;
            rec.state(curve_hash(&c));
            let tb = table(&kn, &m);
            for k in orders(kn.p) {
                for &(t, i, w) in &tb.ts {
                    let want = tb.pc.eval_local(i, w, k);
                    let tol = tb.b.span(tb.spans[i], k);
                    value(rec, &ex0, &c, t, k, &want, tol, "evaluation")?;
                    if k == 0 {
                        let v = match call(|| c.evaluate(t)) {
                            Ok(Ok(v)) => v,
                            Ok(Err(e)) => return fail(format!("{key} -> evaluate({t:?})"), format!("refused: {e:?}")),
                            Err(e) => return fail(format!("{key} -> evaluate({t:?})"), e),
                        };
                        rec.trans(1);
                        for x in 0..want.len() {
                            let err = (D::from(v[x]) - want[x]).abs().0;
                            if !rec.within(err, tol) {
                                return fail(
                                    format!("{key} -> evaluate({t:?})"),
                                    format!("got {:?}, coordinate {x} should be {:?}", v.as_slice(), want[x].f()),
                                );
                            }
                        }
                    }
                    if k > kn.p {
                        let v = call(|| c.evaluate_derivative(t, k)).unwrap().unwrap();
                        if v.len() != m.dim() || v.iter().any(|x| *x != 0.0) {
                            return fail(format!("{key} -> evaluate_derivative({t:?}, {k})"), "not the zero vector".to_string());
                        }
                    }
                    let mut h = Hash::new();
                    h.u(curve_hash_lo(&key)).f(t).u(k as u64);
                    rec.state(h.done());
                }
                rec.ok(1);
            }
            rec.sample(|| format!("{key}: {} parameters, e.g. {:?}", tb.ts.len(), &tb.ts[tb.ts.len() / 2].0));
            Ok(())
        }),
    }
}
fn curve_hash_lo(key: &str) -> u64 {
    Hash::new().s(key).done() as u64
}

/// The exhaustive knot space with its tail of large sizes.
fn space(t: Tier) -> Vec<Kn> {
    let mut v = knot_space(t);
    v.extend(tail_space(t));
    v.extend(huge_space(t));
    v
}
/// Huge curves only with few control point families.
fn wanted(k: &Kn, pts: Pts) -> bool {
    k.n1() < 290 || matches!(pts, Pts::Gen(1) | Pts::Gen(2))
}
fn c01_orders(_: usize) -> Vec<usize> {
    vec![0]
}
fn c02_orders(p: usize) -> Vec<usize> {
    (0..=p + 3).collect()
}
pub fn c01(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for kn in space(o.tier) {
        for pts in ALL_PTS.into_iter().filter(|&x| wanted(&kn, x)) {
            cases.push(eval_case(kn.clone(), pts, o.seed, c01_orders));
        }
    }
    (meta_eval("k = 0", o), cases)
}
pub fn c02(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for kn in space(o.tier) {
        for pts in ALL_PTS.into_iter().filter(|&x| wanted(&kn, x)) {
            cases.push(eval_case(kn.clone(), pts, o.seed, c02_orders));
        }
    }
    (meta_eval("k = 0..=p+3", o), cases)
}
fn meta_eval(orders: &str, o: &Opts) -> Meta {
    Meta {
        rule: "A state is a curve (bits of all knot and control point data) or a curve at one query point (parameter, order); a transition is one call of evaluate/evaluate_derivative on the real curve; a validated trace is one curve whose whole query alphabet agreed with the model at one order. The alphabet has p+1 parameters inside every span, which decide a polynomial of degree p, plus every knot, its floating point neighbours and the extremes of [0,1]; unit control points decide all control polygons by linearity.".into(),
        bounds: format!("{orders}; {}; 15 control point families in up to 9 dimensions and, for the unit vectors, as many dimensions as control points", space_text(o.tier)),
        oracle: "piecewise polynomial reference model in double-double arithmetic (blossoms), cross-checked against the Cox-de Boor definition".into(),
        assumptions: vec!["agreement within the running error bound of double precision evaluation".into()],
    }
}

pub fn c03(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let ptsets = [Pts::Unit, Pts::Gen(2), Pts::Gen(1), Pts::Const, Pts::Alt, Pts::Big, Pts::Closed];
    for kn in space(o.tier) {
        for pts in ptsets.into_iter().filter(|&x| wanted(&kn, x)) {
            let seed = o.seed;
            let key = format!("{kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let p = kn.p;
                    let cols = pts.cols(kn.n1(), seed);
                    let c = build(&kn, &cols, &|| key.clone())?;
                    let before = bits(&c);
                    let m = model_of(&kn, &cols);
                    let tb = table(&kn, &m);
                    rec.state(curve_hash(&c));
                    // every composition of derivative steps with total order <= p, bounded to two steps
                    let mut chains: Vec<Vec<usize>> = vec![];
                    for k in 0..=p {
                        chains.push(vec![k]);
                        for j in 0..=p - k {
                            chains.push(vec![k, j]);
                            if j + k < p {
                                chains.push(vec![k, j, 1]);
                            }
                        }
                    }
                    for ch in chains {
                        let ex = || format!("{key} -> get_derivative_curve{ch:?}");
                        let mut d = c.clone();
                        for &k in &ch {
                            let prev = bits(&d);
                            let nd = match call(|| d.get_derivative_curve(k)) {
                                Ok(x) => x,
                                Err(e) => return fail(ex(), e),
                            };
                            rec.trans(1);
                            unchanged(&ex, &prev, &d, "get_derivative_curve")?;
                            d = nd;
                        }
                        rec.max_depth = rec.max_depth.max(ch.len());
                        rec.state(curve_hash(&d));
                        let k: usize = ch.iter().sum();
                        consistent(&ex, &d, "derivative curve")?;
                        if d.degree() != p - k || d.dimension() != m.dim() {
                            return fail(ex(), format!("degree {} dimension {}", d.degree(), d.dimension()));
                        }
                        for j in 0..=p - k + 1 {
                            for &(t, i, w) in &tb.ts {
                                let want = tb.pc.eval_local(i, w, k + j);
                                let tol = if k + j > p { 0.0 } else { tb.b.span(tb.spans[i], k + j) };
                                value(rec, &ex, &d, t, j, &want, tol, "derivative curve")?;
                            }
                        }
                        rec.ok(1);
                    }
                    unchanged(&|| key.clone(), &before, &c, "get_derivative_curve")?;
                    rec.sample(|| format!("{key}: all derivative chains up to length 3"));
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: a curve with all derivative data. Transition: one get_derivative_curve step or one evaluation. Every chain of up to three derivative steps of total order <= p is run; each result is validated at every order and parameter of the alphabet against the derivative of the original in the model.".into(),
            bounds: format!("{}, 7 control point families, all orders", space_text(o.tier)),
            oracle: "reference model of the original curve".into(),
            assumptions: vec![],
        },
        cases,
    )
}

pub fn c04(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for kn in space(o.tier) {
        for pts in [Pts::Gen(2), Pts::Gen(3), Pts::Zero, Pts::Big] {
            let seed = o.seed;
            let key = format!("{kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let p = kn.p;
                    let cols = pts.cols(kn.n1(), seed);
                    let c = build(&kn, &cols, &|| key.clone())?;
                    let before = bits(&c);
                    rec.state(curve_hash(&c));
                    let mut us: Vec<(f64, bool)> = params(&kn).into_iter().map(|u| (u, true)).collect();
                    us.extend(
                        [
                            f64::NAN,
                            -f64::NAN,
                            f64::from_bits(0x7ff0000000000001),
                            f64::INFINITY,
                            f64::NEG_INFINITY,
                            -f64::from_bits(1),
                            -f64::MIN_POSITIVE,
                            -EPS,
                            -0.5,
                            -1.0,
                            next_up(1.0),
                            1.0 + 1e-12,
                            1.5,
                            2.0,
                            1e300,
                            f64::MAX,
                            f64::MIN,
                        ]
                        .map(|u| (u, false)),
                    );
                    let mut ks: Vec<usize> = (0..=p + 3).collect();
                    ks.extend([64, usize::MAX / 2, usize::MAX]);
                    for &k in &ks {
                        for &(u, inside) in &us {
                            let ex = || format!("{key} -> evaluate_derivative({u:?}, {k})");
                            rec.trans(1);
                            let r = match call(|| c.evaluate_derivative(u, k)) {
                                Ok(r) => r,
                                Err(e) => return fail(ex(), e),
                            };
                            let mut rs = vec![r];
                            if k == 0 {
                                rec.trans(1);
                                rs.push(match call(|| c.evaluate(u)) {
                                    Ok(r) => r,
                                    Err(e) => return fail(ex(), e),
                                });
                            }
                            for r in rs {
                                match r {
                                    Ok(v) => {
                                        if !inside {
                                            return fail(ex(), format!("accepted a parameter outside [0,1]: {:?}", v.as_slice()));
                                        }
                                        if v.len() != c.dimension() {
                                            return fail(ex(), format!("dimension {}", v.len()));
                                        }
                                        rec.outcome("value");
                                    }
                                    Err(e) => {
                                        let fine = match &e {
                                            CurveError::ParameterOutOfBounds { u: x, lower_bound, upper_bound } => {
                                                (x.to_bits() == u.to_bits() || (x.is_nan() && u.is_nan()))
                                                    && *lower_bound == 0.0
                                                    && *upper_bound == 1.0
                                            }
                                            _ => false,
                                        };
                                        if inside || !fine {
                                            return fail(ex(), format!("error {e:?}"));
                                        }
                                        rec.outcome("out of bounds error");
                                    }
                                }
                            }
                            let mut h = Hash::new();
                            h.u(curve_hash_lo(&key)).f(u).u(k as u64);
                            rec.state(h.done());
                        }
                    }
                    unchanged(&|| key.clone(), &before, &c, "evaluation")?;
                    rec.ok(1);
                    rec.sample(|| key.clone());
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: curve at one query (u, k). Transition: one evaluation call. Every f64 class of u (inside: span interiors, knots, neighbours, signed zero, subnormal; outside: NaNs, infinities, neighbours of the ends, huge values) times every order class; the model automaton has two outcomes, value of the right dimension or the out-of-bounds error with exact payload.".into(),
            bounds: format!("{}, 4 control point families, k in 0..=p+3 and huge", space_text(o.tier)),
            oracle: "domain predicate 0 <= u <= 1".into(),
            assumptions: vec!["a panic is caught with overflow checks and debug assertions enabled".into()],
        },
        cases,
    )
}

pub fn c05(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for kn in space(o.tier) {
        let key = format!("{kn}");
        cases.push(Case {
            key: key.clone(),
            run: Box::new(move |rec| {
                let p = kn.p;
                let n = kn.n1() - 1;
                let knots = match call(|| kn.knots()) {
                    Ok(k) => k,
                    Err(e) => return fail(key.clone(), e),
                };
                let ts = params(&kn);
                for k in 0..=p {
                    let q = p - k;
                    let uk: Vec<f64> = kn.u[k..kn.u.len() - k].to_vec();
                    let ukv = nalgebra::DVector::from_vec(uk.clone());
                    if knots.vector_derivative(k) != &ukv {
                        return fail(key.clone(), format!("derivative knots of order {k}: {:?}", knots.vector_derivative(k).as_slice()));
                    }
                    let m = Model::identity(q, uk.iter().map(|&x| D::from(x)).collect());
                    let pc = m.pieces();
                    let du: Vec<D> = uk.iter().map(|&x| D::from(x)).collect();
                    let tol = 64.0 * (q + 1) as f64 * EPS;
                    for (ti, &t) in ts.iter().enumerate() {
                        let td = D::from(t);
                        let j = pc.locate(td);
                        let want = pc.eval(j, td, 0);
                        let mut sum = 0.0;
                        for i in 0..=n - k {
                            let ex = || format!("{key} -> basis function i={i} of order k={k} at {t:?}");
                            let vals = call(|| {
                                [knots.evaluate(k, i, p, t), basis(&ukv, i, q, k, n, t), basis(&ukv, i, q, 0, n - k, t)]
                            });
                            rec.trans(3);
                            let vals = match vals {
                                Ok(v) => v,
                                Err(e) => return fail(ex(), e),
                            };
                            for v in vals {
                                // no cancellation: a sum of products of non-negative factors
                                let err = (D::from(v) - want[i]).abs().0;
                                if !rec.within(err, tol * want[i].abs().0 + 1e-300) {
                                    return fail(ex(), format!("{v:?} instead of {:?}", want[i].f()));
                                }
                                if !(v >= 0.0) {
                                    return fail(ex(), format!("negative value {v:?}"));
                                }
                                if (t < uk[i] || t > uk[i + q + 1]) && v != 0.0 {
                                    return fail(ex(), format!("{v:?} outside the support [{:?}, {:?}]", uk[i], uk[i + q + 1]));
                                }
                            }
                            // second oracle, on a part of the alphabet (it is exponential in the degree)
                            if p <= 4 && ti % 3 == 0 {
                                let w2 = cox_de_boor(&du, i, q, td);
                                if (w2 - want[i]).abs().0 > 1e-24 {
                                    panic!("oracles disagree at {}: {:?} {:?}", ex(), w2, want[i]);
                                }
                            }
                            sum += vals[0];
                        }
                        if !rec.within((sum - 1.0).abs(), tol * 4.0) {
                            return fail(format!("{key} -> sum of basis functions of order {k} at {t:?}"), format!("{sum:?}"));
                        }
                        let mut h = Hash::new();
                        h.u(curve_hash_lo(&key)).f(t).u(k as u64);
                        rec.state(h.done());
                    }
                    rec.ok(1);
                }
                rec.sample(|| key.clone());
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: knot vector at (u, order k). Transition: one basis function call (Knots::evaluate, and basis::basis with both index conventions used in the crate). Every index i in 0..=n-k.".into(),
            bounds: format!("{}, all orders, whole parameter alphabet", space_text(o.tier)),
            oracle: "reference model with unit control points, itself compared with the Cox-de Boor definition in double-double arithmetic".into(),
            assumptions: vec![],
        },
        cases,
    )
}

pub fn c06(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for kn in space(o.tier) {
        for pts in [Pts::Gen(2), Pts::Gen(3), Pts::Const, Pts::Alt, Pts::Closed, Pts::Big, Pts::Tiny].into_iter().filter(|&x| wanted(&kn, x)) {
            let seed = o.seed;
            let key = format!("{kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| c06_case(&kn, pts, seed, &key, rec)),
            });
        }
    }
    (
        Meta {
            rule: "State: curve (original or transformed) at one parameter. Transition: one evaluation. Metamorphic relations between executions of the real code: end points, bounding box of the p+1 governing control points, displacement of every single control point, scaling by powers of two and by other factors, translation, coordinate permutation.".into(),
            bounds: format!("{}, 7 control point families, every control point index, scalings 2^-60..2^60", space_text(o.tier)),
            oracle: "relations between executions; the support of a control point is read off the knots".into(),
            assumptions: vec![],
        },
        cases,
    )
}
fn c06_case(kn: &Kn, pts: Pts, seed: u64, key: &str, rec: &mut Rec) -> Res {
    let p = kn.p;
    let n1 = kn.n1();
    let cols = pts.cols(n1, seed);
    let dim = cols[0].len();
    let ex0 = || key.to_string();
    let c = build(kn, &cols, &ex0)?;
    let ts = params(kn);
    let big = cols.iter().flatten().fold(0.0f64, |s, x| s.max(x.abs()));
    let tol = 64.0 * (p + 1) as f64 * EPS;
    let ev = |rec: &mut Rec, c: &bsplines::curve::Curve, t: f64, what: &str| -> Result<Vec<f64>, Fail> {
        rec.trans(1);
        match call(|| c.evaluate(t)) {
            Ok(Ok(v)) if v.len() == dim => Ok(v.iter().copied().collect()),
            Ok(r) => fail(format!("{key} {what} -> evaluate({t:?})"), format!("{r:?}")),
            Err(e) => fail(format!("{key} {what} -> evaluate({t:?})"), e),
        }
    };
    let mut base = vec![];
    for &t in &ts {
        base.push(ev(rec, &c, t, "")?);
    }
    rec.state(curve_hash(&c));
    for (t, i) in [(0.0, 0), (-0.0, 0), (1.0, n1 - 1)] {
        let v = ev(rec, &c, t, "")?;
        for x in 0..dim {
            if !rec.within((v[x] - cols[i][x]).abs(), tol * big) {
                return fail(format!("{key} -> evaluate({t:?})"), format!("{v:?} is not the end point {:?}", cols[i]));
            }
        }
    }
    // convex hull (bounding box) of the governing points
    for (ti, &t) in ts.iter().enumerate() {
        let s = (p..n1).filter(|&s| kn.u[s] < kn.u[s + 1] && kn.u[s] <= t).last().unwrap();
        for x in 0..dim {
            let lo = (s - p..=s).map(|i| cols[i][x]).fold(f64::INFINITY, f64::min);
            let hi = (s - p..=s).map(|i| cols[i][x]).fold(f64::NEG_INFINITY, f64::max);
            let sc = lo.abs().max(hi.abs());
            if !(base[ti][x] >= lo - tol * sc && base[ti][x] <= hi + tol * sc) {
                return fail(format!("{key} -> evaluate({t:?})"), format!("{:?} leaves the box [{lo:?}, {hi:?}] of its control points", base[ti][x]));
            }
        }
    }
    // locality
    for j in 0..n1 {
        let mut moved = cols.clone();
        for x in 0..dim {
            moved[j][x] += 1000.0 * (big + 1.0);
        }
        let what = format!("with control point {j} moved");
        let d = build(kn, &moved, &|| format!("{key} {what}"))?;
        rec.state(curve_hash(&d));
        // a support that is only a few floating point numbers wide holds no parameter where the basis function is visible
        let mut seen = kn.u[j + p + 1] - kn.u[j] < 1e-9;
        for (ti, &t) in ts.iter().enumerate() {
            let v = ev(rec, &d, t, &what)?;
            let inside = t >= kn.u[j] && t <= kn.u[j + p + 1];
            if !inside {
                for x in 0..dim {
                    if !rec.within((v[x] - base[ti][x]).abs(), tol * big) {
                        return fail(format!("{key} {what} -> evaluate({t:?})"), format!("{v:?} instead of {:?}", base[ti]));
                    }
                }
            } else if v != base[ti] {
                seen = true;
            }
        }
        if !seen {
            return fail(format!("{key} {what}"), "no effect anywhere".to_string());
        }
    }
    // affine maps: (name, linear map, translation)
    let rot: Vec<usize> = (0..dim).map(|x| (x + 1) % dim).collect();
    let maps: Vec<(String, f64, f64, bool)> = vec![
        ("scaled by 2^40".into(), 2f64.powi(40), 0.0, false),
        ("scaled by 2^-60".into(), 2f64.powi(-60), 0.0, false),
        ("scaled by 2^60".into(), 2f64.powi(60), 0.0, false),
        ("scaled by -1/3".into(), -1.0 / 3.0, 0.0, false),
        ("scaled by 0".into(), 0.0, 0.0, false),
        ("translated by 7".into(), 1.0, 7.0, false),
        ("translated by -1e6".into(), 1.0, -1e6, false),
        ("coordinates permuted".into(), 1.0, 0.0, true),
        ("scaled, translated and permuted".into(), -2.5, 3.0, true),
    ];
    for (what, f, tr, perm) in maps {
        let img = |v: &[f64]| -> Vec<f64> { (0..dim).map(|x| f * v[if perm { rot[x] } else { x }] + tr).collect() };
        let mc: Vec<Vec<f64>> = cols.iter().map(|c| img(c)).collect();
        let d = build(kn, &mc, &|| format!("{key} {what}"))?;
        rec.state(curve_hash(&d));
        for (ti, &t) in ts.iter().enumerate() {
            let v = ev(rec, &d, t, &what)?;
            let want = img(&base[ti]);
            for x in 0..dim {
                if !rec.within((v[x] - want[x]).abs(), tol * (f.abs() * big + tr.abs()) + 1e-300) {
                    return fail(format!("{key} {what} -> evaluate({t:?})"), format!("{v:?} instead of {want:?}"));
                }
            }
        }
    }
    rec.ok(1);
    rec.sample(|| key.to_string());
    Ok(())
}
