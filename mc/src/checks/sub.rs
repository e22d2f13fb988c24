//! C29: curves whose domain is a part of [0,1] and curves with unclamped ends.
use super::ops::kn_of;
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::points::{ControlPoints};
use bsplines::curve::Curve;
use bsplines::manipulation::insert::{insert, InsertError};
use bsplines::manipulation::reverse::{reverse, reversed};
use bsplines::manipulation::split::{split, split_and_normalize, SplitError};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(f64),
    InsertTimes(f64, usize),
    /// split without normalization and continue with the left / right part
    Left(f64),
    Right(f64),
    /// split with normalization of the left / right part (only where the part is clamped)
    LeftN(f64),
    RightN(f64),
    Reverse,
    Derive(usize),
    Normalize,
}

fn mult(k: &Kn, t: f64) -> usize {
    k.u.iter().filter(|x| **x == t).count()
}
fn domain(k: &Kn) -> (f64, f64) {
    (k.u[k.p], k.u[k.u.len() - k.p - 1])
}
fn inside(k: &Kn) -> Vec<f64> {
    let (a, b) = domain(k);
    let mut d = distinct(&k.u);
    d.retain(|x| *x >= a && *x <= b);
    let mut v = vec![];
    for w in d.windows(2) {
        v.push(w[0] + (w[1] - w[0]) * 0.4375);
    }
    for &x in &d {
        v.extend([x, x - T20, x + T20]);
    }
    v.retain(|x| *x > a && *x < b);
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup();
    v
}
fn is_clamped(k: &Kn) -> (bool, bool) {
    let n = k.u.len();
    (k.u[..=k.p].iter().all(|x| *x == k.u[0]), k.u[n - k.p - 1..].iter().all(|x| *x == k.u[n - 1]))
}

fn alphabet(k: &Kn, full: bool) -> Vec<Op> {
    let p = k.p;
    let cl = is_clamped(k);
    let mut v = vec![];
    let mut ts = inside(k);
    if !full && ts.len() > 4 {
        // one position of every kind
        let kn: Vec<f64> = ts.iter().copied().filter(|t| mult(k, *t) > 0).collect();
        let fr: Vec<f64> = ts.iter().copied().filter(|t| mult(k, *t) == 0).collect();
        ts = vec![fr[0], fr[fr.len() / 2], fr[fr.len() - 1]];
        ts.extend(kn.first());
        ts.sort_by(|a, b| a.total_cmp(b));
        ts.dedup();
    }
    for t in ts {
        let m = mult(k, t);
        if m > p {
            continue;
        }
        v.push(Op::Insert(t));
        if m < p {
            v.push(Op::InsertTimes(t, p + 1 - m));
        }
        v.extend([Op::Left(t), Op::Right(t)]);
        if cl.0 {
            v.push(Op::LeftN(t));
        }
        if cl.1 {
            v.push(Op::RightN(t));
        }
    }
    v.push(Op::Reverse);
    v.push(Op::Normalize);
    let (a, b) = domain(k);
    let interior = k.u.iter().filter(|x| **x > a && **x < b).map(|x| mult(k, *x)).max().unwrap_or(0);
    for d in 1..p {
        if interior + d <= p + 1 {
            v.push(Op::Derive(d));
        }
    }
    v
}

fn good(k: &Kn) -> bool {
    // the outermost control points must belong to the domain; spans of at least 2^-21
    let (a, b) = domain(k);
    let n = k.u.len() - k.p - 2;
    // tiny spans next to far away unclamped knots of high degree are badly conditioned
    let min = if k.p > 3 && is_clamped(k) != (true, true) { 1.0 / 64.0 } else { T20 / 2.0 };
    a >= 0.0 && b <= 1.0 && k.u[k.p] < k.u[k.p + 1] && k.u[n] < k.u[n + 1] && k.min_gap() > min
}

fn step(rec: &mut Rec, c: &Curve, op: Op, hist: &str) -> Result<Vec<Curve>, Fail> {
    let ex = || format!("{hist} -> {op:?}");
    let kn = kn_of(c);
    let p = kn.p;
    let m = Model::of(c);
    let s0 = mag(&m);
    let before = bits(c);
    rec.trans(1);
    let cmp = |rec: &mut Rec, n: &Curve, w: &Model, knots: KnotCmp, what: &str| {
        let k = Kn { p: w.p, u: w.u.iter().map(|x| x.f()).collect() };
        agree_ends(rec, &ex, n, &Want { m: w, knots, pt: 0.0, s0, kmax: Some(w.p + 1) }, what, is_clamped(&k) == (true, true))
    };
    let mut out = vec![];
    match op {
        Op::Insert(t) | Op::InsertTimes(t, _) => {
            let x = if let Op::InsertTimes(_, x) = op { x } else { 1 };
            let w = m.insert_times(D::from(t), x);
            for free in [false, true] {
                if free && x > 1 {
                    continue;
                }
                let mut n = c.clone();
                match call(|| if free { insert(&mut n, t) } else { n.insert_times(t, x).map(|_| ()) }) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                    Err(e) => return fail(ex(), e),
                }
                cmp(rec, &n, &w, KnotCmp::Exact, "after insertion")?;
                if !free {
                    out.push(n);
                }
            }
            rec.outcome("inserted");
        }
        Op::Left(t) | Op::Right(t) | Op::LeftN(t) | Op::RightN(t) => {
            let norm = (matches!(op, Op::LeftN(_)), matches!(op, Op::RightN(_)));
            let (l, r) = match call(|| split_and_normalize(c, t, norm)) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                Err(e) => return fail(ex(), e),
            };
            let (mut ml, mut mr) = m.split(D::from(t));
            if norm.0 {
                ml = ml.normalized();
            }
            if norm.1 {
                mr = mr.normalized();
            }
            cmp(rec, &l, &ml, if norm.0 { KnotCmp::Near } else { KnotCmp::Exact }, "left part")?;
            cmp(rec, &r, &mr, if norm.1 { KnotCmp::Near } else { KnotCmp::Exact }, "right part")?;
            out.push(if matches!(op, Op::Left(_) | Op::LeftN(_)) { l } else { r });
            rec.outcome("split");
        }
        Op::Reverse => {
            let want = m.reverse();
            for v in 0..3 {
                let mut n = c.clone();
                call(|| match v {
                    0 => {
                        n.reverse();
                    }
                    1 => {
                        reverse(&mut n);
                    }
                    _ => n = reversed(c),
                })
                .or_else(|e| fail(ex(), e))?;
                cmp(rec, &n, &want, KnotCmp::Near, "reversed")?;
                if v == 0 {
                    out.push(n);
                }
            }
            rec.outcome("reversed");
        }
        Op::Derive(k) => {
            let n = call(|| c.get_derivative_curve(k)).or_else(|e| fail(ex(), e))?;
            let w = m.derive_times(k);
            let b = Bound::new(&m, 0.0, 0.0, s0);
            consistent_ends(&ex, &n, "derivative curve", false)?;
            if n.degree() != p - k || n.points.count() != w.pts.len() || n.dimension() != w.dim() {
                return fail(ex(), format!("degree {} with {} control points", n.degree(), n.points.count()));
            }
            if n.knots.vector().as_slice() != &kn.u[k..kn.u.len() - k] {
                return fail(ex(), format!("knots {:?}", n.knots.vector().as_slice()));
            }
            let pc = m.pieces();
            let spans = m.spans();
            for (j, &s) in spans.iter().enumerate() {
                let (x, y) = (kn.u[s], kn.u[s + 1]);
                for q in 0..=p + 1 {
                    let t = if q == p + 1 { y } else { x + (y - x) * q as f64 / (p + 1) as f64 };
                    if t >= y && !(q == p + 1 && j + 1 == spans.len()) {
                        continue;
                    }
                    let wl = (D::from(t) - D::from(x)) / (D::from(y) - D::from(x));
                    for o in 0..=p - k + 1 {
                        let want = pc.eval_local(j, wl, k + o);
                        let tol = if k + o > p { 0.0 } else { b.span(s, k + o) };
                        value(rec, &ex, &n, t, o, &want, tol, "derivative curve")?;
                    }
                }
            }
            out.push(n);
            rec.outcome("derived");
        }
        Op::Normalize => {
            let mut n = c.clone();
            call(|| {
                n.knots.normalize();
                n.points.derive(&n.knots);
            })
            .or_else(|e| fail(ex(), e))?;
            cmp(rec, &n, &m.normalized(), KnotCmp::Near, "normalized")?;
            out.push(n);
            rec.outcome("normalized");
        }
    }
    unchanged(&ex, &before, c, "operation")?;
    rec.ok(1);
    Ok(out)
}

/// Insertions and splits that are not strictly inside the domain are refused and change nothing.
fn refusals(rec: &mut Rec, c: &Curve, hist: &str) -> Res {
    let kn = kn_of(c);
    let (a, b) = domain(&kn);
    let mut ts = vec![a, b, next_down(a), next_up(b), 0.5 * a, 0.5 * (b + 1.0), a - T20, b + T20, 0.0, 1.0, -0.25, 1.25, f64::NAN];
    ts.retain(|t| !(*t > a && *t < b));
    let before = bits(c);
    for t in ts {
        for v in 0..3 {
            let ex = || format!("{hist} -> {} at {t:?} outside of ({a:?}, {b:?})", ["insert", "manipulation::insert", "insert_times"][v]);
            let mut n = c.clone();
            rec.trans(1);
            match call(|| match v {
                0 => n.insert(t).map(|_| ()),
                1 => insert(&mut n, t),
                _ => n.insert_times(t, 2).map(|_| ()),
            }) {
                Ok(Err(InsertError::OutOfBounds { u, .. })) if u == t || t.is_nan() => {}
                r => return fail(ex(), format!("{r:?} instead of the out of bounds error")),
            }
            unchanged(&ex, &before, &n, "refused insertion")?;
        }
        for v in 0..3 {
            let ex = || format!("{hist} -> split variant {v} at {t:?} outside of ({a:?}, {b:?})");
            rec.trans(1);
            match call(|| match v {
                0 => c.split(t),
                1 => split(c, t),
                _ => split_and_normalize(c, t, (false, false)),
            }) {
                Ok(Err(SplitError::OutOfBounds { u, .. })) if u == t || t.is_nan() => {}
                Ok(Err(e)) => return fail(ex(), format!("{e:?} instead of the out of bounds error")),
                Ok(Ok(_)) => return fail(ex(), "accepted"),
                Err(e) => return fail(ex(), e),
            }
            unchanged(&ex, &before, c, "refused split")?;
        }
        rec.outcome("refused");
    }
    rec.ok(1);
    Ok(())
}

fn explore(rec: &mut Rec, start: &Curve, key: &str, depth: usize, full: usize) -> Res {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut layer = vec![(start.clone(), key.to_string())];
    seen.insert(curve_hash(start));
    rec.state(curve_hash(start));
    for d in 1..=depth {
        let mut next = vec![];
        for (c, hist) in &layer {
            let kn = kn_of(c);
            refusals(rec, c, hist)?;
            for op in alphabet(&kn, d <= full) {
                for n in step(rec, c, op, hist)? {
                    let h = curve_hash(&n);
                    rec.state(h);
                    rec.max_depth = rec.max_depth.max(d);
                    let k = kn_of(&n);
                    if !good(&k) {
                        continue;
                    }
                    if seen.insert(h) && d < depth {
                        next.push((n, format!("{hist} -> {op:?}")));
                    }
                }
            }
        }
        layer = next;
    }
    Ok(())
}

/// Knots before the domain, ending with its first knot: `m` copies of it, further ones at distance `h`.
fn head(p: usize, a: f64, m: usize, h: f64) -> Vec<f64> {
    let mut v: Vec<f64> = (1..=p + 1 - m).rev().map(|j| a - h * j as f64).collect();
    v.extend(vec![a; m]);
    v
}

pub fn starts(t: Tier) -> Vec<Kn> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let doms = [(0.0, 0.4), (0.3, 1.0), (0.25, 0.75), (0.1, 0.1625), (0.0, 1.0)];
    for p in 1..=(if q { 3 } else { 5 }) {
        for (a, b) in doms {
            for inner in [vec![], vec![0.5], vec![0.3, 0.4], vec![0.25, 0.5, 0.75]] {
                let xs: Vec<f64> = inner.iter().map(|x| a + (b - a) * x).collect();
                let ms: Vec<Vec<usize>> = match xs.len() {
                    0..=1 => mults(xs.len(), p + 1),
                    2 if !q || p < 3 => mults(2, p + 1),
                    n => vec![vec![1; n], vec![p; n], (0..n).map(|i| if i == 1 { p + 1 } else { 1 }).collect()],
                };
                for m in ms {
                    // ends: clamped, half clamped, free; wide and narrow spacing
                    let mut ends = vec![(p + 1, p + 1, 0.25), (1, 1, 0.25), (1, 1, 0.0625), (p + 1, 1, 0.125), (1, p + 1, 0.125)];
                    if p > 1 {
                        ends.extend([(2, 1, 0.1), (1, p, 0.3)]);
                    }
                    for (mh, mt, h) in ends {
                        if (mh, mt) == (p + 1, p + 1) && (a, b) == (0.0, 1.0) {
                            continue;
                        }
                        let mut u = head(p, a, mh, h);
                        for (x, k) in xs.iter().zip(&m) {
                            u.extend(vec![*x; *k]);
                        }
                        let mut tail: Vec<f64> = head(p, -b, mt, h * 0.75).into_iter().map(|x| -x).collect();
                        tail.reverse();
                        u.extend(tail);
                        let kn = Kn { p, u };
                        v.push(kn);
                    }
                }
            }
        }
    }
    // long ones
    for p in 1..=4 {
        for b in [12, 40] {
            v.push(Kn { p, u: (0..b + 2 * p + 2).map(|i| i as f64 / (b + 2 * p + 1) as f64).collect() });
            v.push(Kn { p, u: (0..b + 2 * p + 2).map(|i| (i as f64 - p as f64) / (b + 1) as f64).collect() });
        }
    }
    for p in [6, 8] {
        v.push(Kn { p, u: (0..2 * p + 5).map(|i| (i as f64 - p as f64) / 4.0).collect() });
    }
    v
}

pub fn c29(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let mut cases = vec![];
    for kn in starts(o.tier) {
        for pts in [Pts::Gen(2), Pts::Unit] {
            let seed = o.seed;
            let key = format!("{kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let cols = pts.cols(kn.n1(), seed);
                    let ex = || key.clone();
                    let c = match call(|| Curve::new(kn.knots(), ControlPoints::new(mat(&cols)))) {
                        Ok(Ok(c)) => c,
                        Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                        Err(e) => return fail(ex(), e),
                    };
                    let m = model_of(&kn, &cols);
                    let w = Want { m: &m, knots: KnotCmp::Exact, pt: 0.0, s0: 0.0, kmax: Some(kn.p + 1) };
                    agree_ends(rec, &ex, &c, &w, "construction", false)?;
                    rec.ok(1);
                    let big = kn.u.len() > 20;
                    let depth = match (big || pts == Pts::Unit, q) {
                        (true, _) => 1,
                        (_, true) if kn.u.len() > 2 * kn.p + 4 => 1,
                        (_, true) => 2,
                        _ if kn.p <= 2 && kn.u.len() <= 2 * kn.p + 3 => 3,
                        _ => 2,
                    };
                    explore(rec, &c, &key, depth, if q || !big { 1 } else { 2 })?;
                    rec.sample(|| key.clone());
                    Ok(())
                }),
            });
        }
    }
    // parts kept in the original parametrization by the library itself
    for kn in small_space(o.tier) {
        if kn.u.len() > 16 {
            continue;
        }
        let seed = o.seed;
        let key = format!("parts of {kn}");
        cases.push(Case {
            key: key.clone(),
            run: Box::new(move |rec| {
                let c = build(&kn, &Pts::Gen(2).cols(kn.n1(), seed), &|| key.clone())?;
                for t in inside(&kn) {
                    if mult(&kn, t) > kn.p {
                        continue;
                    }
                    for op in [Op::Left(t), Op::Right(t)] {
                        for part in step(rec, &c, op, &key)? {
                            if good(&kn_of(&part)) {
                                explore(rec, &part, &format!("{key} -> {op:?}"), 1, 1)?;
                            }
                        }
                    }
                }
                rec.sample(|| key.clone());
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: complete curve over a domain [a,b] inside [0,1], with clamped or unclamped ends. Transition: insertion (all entry points), multiple insertion, split without and with normalization, reversal, derivative curve, normalization, and refused requests outside the open domain; positions recomputed from every state. Every successor is compared with the model of the pre-state: knots, control points, all derivatives on all spans of the domain including its end.".into(),
            bounds: "5 domains x interior patterns of up to 3 breakpoints x 7 kinds of ends, p <= 3 (5), all sequences of 2 (3 for small knot vectors) operations; all parts of the small knot space split at every position, one further operation; evenly spaced unclamped knots with up to 50 spans and degree 8".into(),
            oracle: "piecewise polynomial on the domain (blossoms) in double-double arithmetic".into(),
            assumptions: vec!["knots with the first or last domain span empty are outside the bound".into(), "values outside of the domain are not specified".into()],
        },
        cases,
    )
}
