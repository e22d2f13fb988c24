//! C24: histories mixing all manipulations. C25: query purity, operand preservation, determinism.
use super::merge::{check_join, tol_merge};
use super::ops::kn_of;
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, DomainKnotComparatorType as Cmp};
use bsplines::curve::parameters;
use bsplines::curve::points::methods::fit;
use bsplines::curve::points::methods::interpolation;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::insert::insert;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use bsplines::manipulation::reverse::reversed;
use bsplines::manipulation::split::{split, split_and_normalize};
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(f64),
    Fill(f64),
    Reverse,
    /// split and continue with the left / right part
    Left(f64),
    Right(f64),
    /// split, then put the parts together again
    Rejoin(f64),
    Append(usize),
    Prepend(usize),
    /// the end / start point of the curve stays
    AppendKeep(usize),
    PrependKeep(usize),
    Derive(usize),
    /// refused requests
    InsertOut,
    SplitFull(f64),
    AppendOther,
}

fn partners(p: usize, dim: usize, seed: u64) -> Vec<Curve> {
    let mk = |kn: Kn, s: u64| Curve::new(kn.knots(), ControlPoints::new(mat(&Pts::Gen(dim).cols(kn.n1(), seed + s)))).unwrap();
    vec![
        mk(Kn::simple(p, &[]), 101),
        mk(Kn::simple(p, &[0.3, 0.5, 0.8]), 102),
        mk(Kn::clamped(p, &[0.6], &[p.min(2)]), 103),
    ]
}

fn mult(k: &Kn, t: f64) -> usize {
    k.u.iter().filter(|x| **x == t).count()
}

fn alphabet(kn: &Kn, full: bool, first: bool) -> Vec<Op> {
    let p = kn.p;
    let d = distinct(&kn.u);
    let mut ops = vec![];
    // positions: a point of the first, the widest and the last span, every interior knot (at most two in the small alphabet)
    let mut ts = vec![];
    let mid = |i: usize| 0.5 * (d[i] + d[i + 1]);
    ts.push(mid(0));
    let w = (0..d.len() - 1).max_by(|&a, &b| (d[a + 1] - d[a]).total_cmp(&(d[b + 1] - d[b]))).unwrap();
    ts.push(d[w] + 0.375 * (d[w + 1] - d[w]));
    if full {
        ts.push(mid(d.len() - 2));
        ts.push(0.5);
        ts.extend(&d[1..d.len() - 1]);
    } else if d.len() > 2 {
        ts.push(d[d.len() / 2]);
    }
    if first {
        ts.extend([T20, 1.0 - T20]);
    }
    ts.retain(|x| *x > 0.0 && *x < 1.0);
    ts.sort_by(|a, b| a.total_cmp(b));
    ts.dedup();
    for &t in &ts {
        let m = mult(kn, t);
        if m <= p {
            ops.push(Op::Insert(t));
            ops.push(Op::Left(t));
            ops.push(Op::Right(t));
            if full {
                ops.push(Op::Rejoin(t));
            }
        }
        if m + 1 < p {
            ops.push(Op::Fill(t));
        }
        if m > p {
            ops.push(Op::SplitFull(t));
        }
    }
    ops.push(Op::Reverse);
    for i in 0..(if full { 4 } else { 2 }) {
        ops.push(Op::Append(i));
        ops.push(Op::Prepend(i));
    }
    if p > 1 {
        ops.push(Op::AppendKeep(1));
        ops.push(Op::PrependKeep(1));
    }
    if p > 1 && kn.max_mult() <= p {
        for k in 1..=(if full { p - 1 } else { 1 }) {
            if kn.max_mult() + k <= p + 1 {
                ops.push(Op::Derive(k));
            }
        }
    }
    ops.push(Op::InsertOut);
    ops.push(Op::AppendOther);
    ops
}

/// One transition with its validation. None: outside the bound.
fn step(rec: &mut Rec, c: &Curve, op: Op, hist: &str, seed: u64) -> Result<Option<Curve>, Fail> {
    let ex = || format!("{hist} -> {op:?}");
    let kn = kn_of(c);
    let p = kn.p;
    let m = Model::of(c);
    let s0 = mag(&m);
    let before = bits(c);
    let mut n = c.clone();
    rec.trans(1);
    let exact = |w: &Model, rec: &mut Rec, n: &Curve| {
        agree(rec, &ex, n, &Want { m: w, knots: KnotCmp::Exact, pt: 0.0, s0, kmax: Some(p + 1) }, "result")
    };
    let near = |w: &Model, rec: &mut Rec, n: &Curve| {
        agree(rec, &ex, n, &Want { m: w, knots: KnotCmp::Near, pt: 0.0, s0, kmax: Some(p + 1) }, "result")
    };
    match op {
        Op::Insert(t) => {
            match call(|| n.insert(t).map(|_| ())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                Err(e) => return fail(ex(), e),
            }
            exact(&m.insert(D::from(t)), rec, &n)?;
            rec.outcome("inserted");
        }
        Op::Fill(t) => {
            let x = p - mult(&kn, t);
            match call(|| n.insert_times(t, x).map(|_| ())) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                Err(e) => return fail(ex(), e),
            }
            let mut w = m.clone();
            for _ in 0..x {
                w = w.insert(D::from(t));
            }
            exact(&w, rec, &n)?;
            rec.outcome("inserted");
        }
        Op::Reverse => {
            if kn.u.windows(2).any(|w| w[0] != w[1] && 1.0 - w[0] == 1.0 - w[1]) {
                rec.skipped += 1;
                return Ok(None);
            }
            if let Err(e) = call(|| {
                n.reverse();
            }) {
                return fail(ex(), e);
            }
            near(&m.reverse(), rec, &n)?;
            rec.outcome("reversed");
        }
        Op::Left(t) | Op::Right(t) | Op::Rejoin(t) => {
            let (l, r) = match call(|| c.split(t)) {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                Err(e) => return fail(ex(), e),
            };
            unchanged(&ex, &before, c, "split")?;
            let (ml, mr) = m.split(D::from(t));
            let (nl, nr) = (ml.normalized(), mr.normalized());
            near(&nl, rec, &l)?;
            near(&nr, rec, &r)?;
            rec.outcome("split");
            match op {
                Op::Left(_) => n = l,
                Op::Right(_) => n = r,
                _ => {
                    return join(rec, &l, &r, &[], &[], Joiner::Append, &ex);
                }
            }
        }
        Op::Append(i) | Op::Prepend(i) | Op::AppendKeep(i) | Op::PrependKeep(i) => {
            let ps = partners(p, m.dim(), seed);
            let other = if i < ps.len() { ps[i].clone() } else { c.clone() };
            return match op {
                Op::Append(_) => join(rec, c, &other, &[], &[], Joiner::Append, &ex),
                Op::Prepend(_) => join(rec, &other, c, &[], &[], Joiner::Prepend, &ex),
                Op::AppendKeep(_) => join(rec, c, &other, &[1.0], &[], Joiner::AppendC, &ex),
                _ => join(rec, &other, c, &[], &[0.0], Joiner::PrependC, &ex),
            };
        }
        Op::Derive(k) => {
            n = call(|| c.get_derivative_curve(k)).or_else(|e| fail(ex(), e))?;
            unchanged(&ex, &before, c, "get_derivative_curve")?;
            consistent(&ex, &n, "derivative curve")?;
            // the result carries the rounding errors of k differences
            let b = Bound::new(&m, 0.0, 0.0, s0);
            let w = m.derive_times(k);
            if n.degree() != p - k || n.points.count() != w.pts.len() || n.dimension() != w.dim() {
                return fail(ex(), format!("degree {} with {} control points", n.degree(), n.points.count()));
            }
            if n.knots.vector().as_slice() != &kn.u[k..kn.u.len() - k] {
                return fail(ex(), format!("knots {:?}", n.knots.vector().as_slice()));
            }
            let spans = m.spans();
            let pc = m.pieces();
            for (j, &s) in spans.iter().enumerate() {
                let (a, bb) = (kn.u[s], kn.u[s + 1]);
                for q in 0..=p {
                    let t = if q == 0 { a } else { a + (bb - a) * ((2 * q - 1) as f64 / (2 * p) as f64) };
                    let wl = (D::from(t) - D::from(a)) / (D::from(bb) - D::from(a));
                    if !(t < bb) {
                        continue;
                    }
                    for o in 0..=p - k + 1 {
                        let want = pc.eval_local(j, wl, k + o);
                        let tol = if k + o > p { 0.0 } else { b.span(s, k + o) };
                        value(rec, &ex, &n, t, o, &want, tol, "derivative curve")?;
                    }
                }
            }
            rec.outcome("derived");
        }
        Op::InsertOut | Op::SplitFull(_) => {
            let mut times = n.clone();
            let r = call(|| match op {
                Op::InsertOut => {
                    n.insert(1.5).is_ok() || n.insert(0.0).is_ok() || insert(&mut n, 1.0).is_ok() || n.split(-0.5).is_ok() || n.insert(f64::NAN).is_ok()
                }
                Op::SplitFull(t) => n.insert(t).is_ok() || split(&n, t).is_ok() || times.insert_times(t, 1).is_ok(),
                _ => unreachable!(),
            });
            match r {
                Ok(false) => {}
                Ok(true) => return fail(ex(), "an inadmissible request was accepted".to_string()),
                Err(e) => return fail(ex(), e),
            }
            unchanged(&ex, &before, &n, "refused request")?;
            unchanged(&ex, &before, &times, "refused request")?;
            rec.outcome("refused");
            rec.ok(1);
            return Ok(None);
        }
        Op::AppendOther => {
            // other degree, other dimension
            let o1 = partners(p + 1, m.dim(), seed).swap_remove(0);
            let o2 = partners(p, m.dim() + 1, seed).swap_remove(0);
            for o in [&o1, &o2] {
                let (b1, b2) = (bits(&n), bits(o));
                if call(|| merge(&n, o).is_ok()) != Ok(false) || call(|| merge(o, &n).is_ok()) != Ok(false) {
                    return fail(ex(), "an inadmissible merge was not refused with an error".to_string());
                }
                for v in 0..2 {
                    let accepted = call(|| {
                        if v == 0 {
                            n.append(o);
                        } else {
                            n.prepend(o);
                        }
                    });
                    if accepted.is_ok() {
                        return fail(ex(), "an inadmissible merge was accepted".to_string());
                    }
                }
                unchanged(&ex, &b1, &n, "refused merge")?;
                unchanged(&ex, &b2, o, "refused merge")?;
            }
            rec.outcome("refused");
            rec.ok(1);
            return Ok(None);
        }
    }
    rec.ok(1);
    Ok(Some(n))
}

#[derive(Clone, Copy, PartialEq)]
enum Joiner {
    Append,
    Prepend,
    AppendC,
    PrependC,
}

/// Merge within the conditioning bound; spans next to the joint must not be too uneven.
fn join(rec: &mut Rec, a: &Curve, b: &Curve, ca: &[f64], cb: &[f64], how: Joiner, ex: Ex) -> Result<Option<Curve>, Fail> {
    let (ma, mb) = (Model::of(a), Model::of(b));
    let p = ma.p;
    let (ka, kb) = (kn_of(a), kn_of(b));
    let end_gap = |u: &[f64], last: bool| {
        let d = distinct(u);
        let mut g: Vec<f64> = d.windows(2).map(|w| w[1] - w[0]).collect();
        if last {
            g.reverse();
        }
        g.truncate(p);
        g.into_iter().fold(1.0, f64::min)
    };
    let g = end_gap(&ka.u, true).min(end_gap(&kb.u, false));
    let (sa, sb) = (mag(&ma), mag(&mb));
    let min_gap = [0.0, 1e-3, 1e-2, 0.02, 0.05, 0.1][p.min(5)];
    if g < min_gap || ma.pts.len() + mb.pts.len() > 40 || p > 5 {
        rec.skipped += 1;
        return Ok(None);
    }
    let da: Vec<D> = ca.iter().map(|&x| D::from(x)).collect();
    let db: Vec<D> = cb.iter().map(|&x| D::from(x)).collect();
    let Some(want) = Model::merge(&ma, &mb, &da, &db) else {
        rec.skipped += 1;
        return Ok(None);
    };
    if want.smallest.max(0.0).sqrt() < 1e-4 {
        rec.skipped += 1;
        return Ok(None);
    }
    let (ba, bb) = (bits(a), bits(b));
    let cs = |v: &[f64]| Constraints { params: v.to_vec() };
    let r = call(|| match how {
        Joiner::Append => {
            let mut x = a.clone();
            x.append(b);
            x
        }
        Joiner::Prepend => {
            let mut x = b.clone();
            x.prepend(a);
            x
        }
        Joiner::AppendC => {
            let mut x = a.clone();
            x.append_constrained(cs(ca), b, cs(cb));
            x
        }
        Joiner::PrependC => {
            let mut x = b.clone();
            x.prepend_constrained(cs(cb), a, cs(ca));
            x
        }
    });
    let c = r.or_else(|e| fail(ex(), e))?;
    unchanged(ex, &ba, a, "merge (first operand)")?;
    unchanged(ex, &bb, b, "merge (second operand)")?;
    let moved = mag(&want.a).max(mag(&want.b)).max(mag(&want.curve));
    let pt = tol_merge(p) * 100.0 / (g * g).max(1e-3);
    let s0 = sa.max(sb).max(moved);
    check_join(rec, ex, &c, &ma, &mb, pt, s0, "merged curve")?;
    agree(rec, ex, &c, &Want { m: &want.curve, knots: KnotCmp::Near, pt, s0, kmax: None }, "merged curve")?;
    rec.outcome("merged");
    rec.ok(1);
    Ok(Some(c))
}

/// Operations whose position is found in the current state, for long histories.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tmpl {
    InsertWidest,
    InsertAgain,
    InsertNearEnd,
    FillMiddle,
    Reverse,
    Left,
    Right,
    Rejoin,
    Append,
    Prepend,
    AppendKeep,
    PrependSelf,
}
fn concrete(kn: &Kn, t: Tmpl) -> Option<Op> {
    let p = kn.p;
    let d = distinct(&kn.u);
    let w = (0..d.len() - 1).max_by(|&a, &b| (d[a + 1] - d[a]).total_cmp(&(d[b + 1] - d[b]))).unwrap();
    let mid = d[w] + 0.4375 * (d[w + 1] - d[w]);
    let knot = |lim: usize| d[1..d.len() - 1].iter().copied().find(|&x| mult(kn, x) < lim);
    Some(match t {
        Tmpl::InsertWidest => Op::Insert(mid),
        Tmpl::InsertAgain => Op::Insert(knot(p + 1).unwrap_or(mid)),
        Tmpl::InsertNearEnd => Op::Insert(0.25 * d[d.len() - 2] + 0.75),
        Tmpl::FillMiddle => Op::Fill(knot(p).unwrap_or(mid)),
        Tmpl::Reverse => Op::Reverse,
        Tmpl::Left => Op::Left(if mult(kn, 0.75) > p { mid } else { 0.75 }),
        Tmpl::Right => Op::Right(if mult(kn, 0.25) > p { mid } else { 0.25 }),
        Tmpl::Rejoin => Op::Rejoin(if mult(kn, 0.5) > p { mid } else { 0.5 }),
        Tmpl::Append => Op::Append(1),
        Tmpl::Prepend => Op::Prepend(0),
        Tmpl::AppendKeep if p > 1 => Op::AppendKeep(0),
        Tmpl::AppendKeep => return None,
        Tmpl::PrependSelf => Op::Prepend(3),
    })
}
fn words(period: usize) -> Vec<Vec<Tmpl>> {
    use Tmpl::*;
    let all = [InsertWidest, InsertAgain, InsertNearEnd, FillMiddle, Reverse, Left, Right, Rejoin, Append, Prepend, AppendKeep, PrependSelf];
    let mut v: Vec<Vec<Tmpl>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..period {
        v = v.into_iter().flat_map(|w| all.map(|t| [w.clone(), vec![t]].concat())).collect();
        out.extend(v.iter().filter(|w| w.len() == 1 || w.iter().any(|t| *t != w[0])).cloned());
    }
    out
}

fn starts(t: Tier, seed: u64) -> Vec<(String, Arc<dyn Fn() -> Curve + Send + Sync>)> {
    let mut v: Vec<(String, Arc<dyn Fn() -> Curve + Send + Sync>)> = vec![];
    let q = t == Tier::Quick;
    for p in 1..=(if q { 4 } else { 5usize }) {
        let mut kns = vec![Kn::simple(p, &[]), Kn::simple(p, &[0.1, 0.7]), Kn::clamped(p, &[0.5], &[p]), Kn::clamped(p, &[0.25, 0.5], &[1, p.min(2)])];
        if !q {
            kns.extend([Kn::clamped(p, &[0.4], &[p + 1]), Kn::simple(p, &uniform_inner(5)), Kn::clamped(p, &[0.2, 0.5, 0.6], &[2.min(p), 1, p])]);
        }
        for kn in kns {
            v.push((
                format!("{kn} P={:?}", Pts::Gen(2)),
                Arc::new(move || Curve::new(kn.knots(), ControlPoints::new(mat(&Pts::Gen(2).cols(kn.n1(), seed)))).unwrap()),
            ));
        }
        for g in 0..4 {
            let name = ["manual curve on de Boor knots of chord lengths", "interpolation", "loose-end fit", "fixed-end fit"][g];
            v.push((
                format!("{name} p={p}"),
                Arc::new(move || {
                    let pts = Pts::Gen(2).cols(p + 4, seed + 3);
                    let d = DataPoints::new(mat(&pts));
                    generate(match g {
                        0 => Generation::Manual {
                            degree: p,
                            points: ControlPoints::new(mat(&pts)),
                            knots: knots::Generation::Method {
                                parameter_method: parameters::Method::ChordLength,
                                knot_method: knots::Method::DeBoor,
                            },
                        },
                        1 => Generation::Interpolation { degree: p, points: &d },
                        2 | 3 => Generation::LeastSquaresFit {
                            degree: p,
                            points: &d,
                            intended_segments: p + 1,
                            method: if g == 2 { fit::Method::LooseEnds } else { fit::Method::FixedEnds },
                            penalization: None,
                        },
                        _ => unreachable!(),
                    })
                    .unwrap()
                }),
            ));
        }
    }
    v
}

fn explore(rec: &mut Rec, start: &Curve, key: &str, first: Op, depth: usize, full: usize, seed: u64, cap: usize) -> Res {
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(curve_hash(start));
    rec.state(curve_hash(start));
    let mut layer = vec![];
    if let Some(n) = step(rec, start, first, key, seed)? {
        rec.state(curve_hash(&n));
        seen.insert(curve_hash(&n));
        layer.push((n, format!("{key} -> {first:?}")));
    }
    rec.max_depth = rec.max_depth.max(1);
    for d in 2..=depth {
        let mut next = vec![];
        for (c, hist) in &layer {
            let kn = kn_of(c);
            if kn.p == 0 {
                continue;
            }
            for op in alphabet(&kn, d <= full, false) {
                if let Some(n) = step(rec, c, op, hist, seed)? {
                    let h = curve_hash(&n);
                    rec.state(h);
                    rec.max_depth = rec.max_depth.max(d);
                    let k = kn_of(&n);
                    if k.n1() > cap || k.min_gap() < 2f64.powi(-30) || !(mag(&Model::of(&n)) < 1e12) {
                        rec.skipped += 1;
                        continue;
                    }
                    if seen.insert(h) && d < depth {
                        next.push((n, format!("{hist} -> {op:?}")));
                    }
                }
            }
        }
        layer = next;
    }
    Ok(())
}

pub fn c24(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let seed = o.seed;
    let mut cases = vec![];
    for (name, mk) in starts(o.tier, seed) {
        let c = match call(|| mk()) {
            Ok(c) => c,
            Err(e) => {
                let key = name.clone();
                cases.push(Case { key: name, run: Box::new(move |_| fail(key.clone(), e.clone())) });
                continue;
            }
        };
        let kn = kn_of(&c);
        let (depth, full) = if q { (3, 2) } else { (if kn.p <= 3 { 4 } else { 3 }, if kn.p <= 2 { 2 } else if kn.p == 3 { 1 } else { 3 }) };
        for op in alphabet(&kn, true, true) {
            let key = format!("{name} first={op:?}");
            let c = c.clone();
            let nm = name.clone();
            cases.push(Case {
                key,
                run: Box::new(move |rec| {
                    consistent(&|| nm.clone(), &c, "start")?;
                    explore(rec, &c, &nm, op, depth, full, seed, 24)?;
                    rec.sample(|| format!("{nm} -> {op:?} -> ... all continuations up to depth {depth}"));
                    Ok(())
                }),
            });
        }
    }
    // long periodic histories
    let len = if q { 14 } else { 30 };
    for p in 1..=(if q { 3 } else { 4usize }) {
        for kn in [Kn::simple(p, &[]), Kn::simple(p, &[0.1, 0.7]), Kn::clamped(p, &[0.5], &[p])] {
            for w in words(if q || p > 2 { 2 } else { 3 }) {
                let key = format!("{kn} periodic {w:?}");
                let kn = kn.clone();
                cases.push(Case {
                    key: key.clone(),
                    run: Box::new(move |rec| {
                        let mut c = build(&kn, &Pts::Gen(2).cols(kn.n1(), seed), &|| key.clone())?;
                        let mut hist = kn.to_string();
                        for i in 0..len {
                            let Some(op) = concrete(&kn_of(&c), w[i % w.len()]) else { break };
                            let Some(n) = step(rec, &c, op, &hist, seed)? else { break };
                            rec.state(curve_hash(&n));
                            rec.max_depth = rec.max_depth.max(i + 1);
                            let k = kn_of(&n);
                            if k.n1() > 40 || k.min_gap() < 2f64.powi(-24) || !(mag(&Model::of(&n)) < 1e9) {
                                break;
                            }
                            hist = format!("{hist} -> {op:?}");
                            c = n;
                        }
                        Ok(())
                    }),
                });
            }
        }
    }
    (
        Meta {
            rule: "State: complete curve (knots, control points, all derivative data), deduplicated by its bits. Transition: one manipulation of an alphabet computed from the state: single and filling insertions, reversal, split continuing with either part or rejoining both, append/prepend of three partners of other sizes and of itself, constrained append/prepend, derivative steps, and refused requests. Breadth first, every interleaving up to the depth; every transition is validated against the model built from the actual pre-state (structure, knots, control points, all derivatives on all spans).".into(),
            bounds: if q { "32 starts (hand-built and generated by every generator, p<=4), all sequences of up to 3 operations; all periodic histories with period 1 or 2 over 12 operations up to length 14 (p<=3)".into() } else { "55 starts (p<=5), all sequences of up to 4 operations (3 for p>3); at most 24 control points, spans at least 2^-30, points below 1e12; all periodic histories with period up to 2 (3 for p<=2) over 12 operations up to length 30 (p<=4)".into() },
            oracle: "one-step refinement: exact operation on the pre-state's model in double-double arithmetic; for merges the constrained least displacement and joint smoothness".into(),
            assumptions: vec!["merges whose spans next to the joint are very uneven (ill-conditioned continuity equations) are outside the bound".into()],
        },
        cases,
    )
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Eval(f64, usize),
    Find(f64, usize, u8),
    Mult(f64),
    Basis(f64, usize, usize),
    Views,
    Derived(usize),
    Split(f64),
    Reversed,
    Clone,
    Tests,
    Refused,
    Merge,
    Normalized,
    Join,
    Interp,
    Loose,
}

fn raw_query(c: &Curve, q: Q) -> Vec<u64> {
    let vb = |v: Result<nalgebra::DVector<f64>, bsplines::curve::CurveError>| -> Vec<u64> {
        match v {
            Ok(v) => v.iter().map(|x| x.to_bits()).collect(),
            Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
        }
    };
    match q {
        Q::Eval(t, k) => vb(c.evaluate_derivative(t, k)),
        Q::Find(t, k, v) => vec![c.knots.find_idx(t, k, [Cmp::Left, Cmp::LeftOrEqual, Cmp::RightOrEqual, Cmp::Right].into_iter().nth(v as usize).unwrap()) as u64],
        Q::Mult(t) => vec![c.knots.multiplicity(t) as u64],
        Q::Basis(t, k, i) => vec![c.knots.evaluate(k, i, c.degree(), t).to_bits()],
        Q::Views => {
            let mut v = bits(c);
            v.extend([c.segments() as u64, c.dimension() as u64, c.knots.internal_count() as u64, c.points.count() as u64]);
            v.extend(c.knots.domain().iter().map(|x| x.to_bits()));
            v
        }
        Q::Derived(k) => bits(&c.get_derivative_curve(k)),
        Q::Split(t) => match c.split(t) {
            Ok((l, r)) => [bits(&l), bits(&r)].concat(),
            Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
        },
        Q::Reversed => bits(&reversed(c)),
        Q::Clone => {
            // changing a clone must not reach the original
            let mut x = c.clone();
            x.reverse();
            let _ = x.insert(0.375);
            x.knots.vector_mut()[0] = 7.0;
            x.points.matrix_derivative_mut(0)[(0, 0)] = 9.0;
            vec![]
        }
        Q::Tests => vec![
            knots::is_sorted(&c.knots) as u64,
            knots::is_clamped(&c.knots) as u64,
            knots::is_normed(&c.knots) as u64,
            knots::is_uniform(&c.knots).map(|b| b as u64).unwrap_or(9),
        ],
        Q::Refused => vec![c.evaluate(-0.5).is_err() as u64, c.evaluate(f64::NAN).is_err() as u64, c.split(0.0).is_err() as u64],
        Q::Merge => match merge(c, c) {
            Ok(m) => bits(&m),
            Err(e) => format!("{e:?}").bytes().map(u64::from).collect(),
        },
        Q::Normalized => {
            let mut v = c.knots.vector() * 3.0;
            let old = v.clone();
            let w = knots::normalized(&mut v);
            if v != old {
                panic!("knots::normalized modified its argument");
            }
            v.iter().chain(w.iter()).map(|x| x.to_bits()).collect()
        }
        Q::Join => {
            // with a partner of the same degree and number of points on uniform knots
            let n = c.segments();
            let other = Curve::new(knots::methods::uniform(c.degree(), n).unwrap(), ControlPoints::new(mat(&Pts::Gen(c.dimension()).cols(n + 1, 3)))).unwrap();
            match (merge(c, &other), merge(&other, c)) {
                (Ok(x), Ok(y)) => [bits(&x), bits(&y)].concat(),
                e => format!("{e:?}").bytes().map(u64::from).collect(),
            }
        }
        Q::Interp | Q::Loose => {
            let (p, n) = (c.degree(), c.segments());
            let u = c.knots.vector();
            let t: Vec<f64> = (0..=n).map(|i| (1..=p).map(|j| u[i + j]).sum::<f64>() / p as f64).collect();
            let params = parameters::Parameters::new(nalgebra::DVector::from_vec(t), n);
            let data = DataPoints::new(c.points.matrix().clone());
            let m = if q == Q::Interp {
                bsplines::curve::points::methods::interpolation::interpolate(&c.knots, &data, &params)
            } else {
                match fit::loose::fit(&c.knots, &data, &params, None) {
                    Ok(m) => m,
                    Err(e) => return format!("{e:?}").bytes().map(u64::from).collect(),
                }
            };
            m.iter().map(|x| x.to_bits()).collect()
        }
    }
}

fn queries(c: &Curve, q: bool) -> Vec<Q> {
    let kn = kn_of(c);
    let p = kn.p;
    let d = distinct(&kn.u);
    let inner = d[d.len() / 2];
    let mut v = vec![Q::Eval(0.0, 0), Q::Eval(1.0, 0), Q::Eval(inner, 0), Q::Eval(0.3, 0), Q::Eval(0.3, 1), Q::Eval(inner, p), Q::Eval(0.9, p + 1)];
    v.extend([
        Q::Find(inner, 0, 1),
        Q::Find(0.3, 1, 2),
        Q::Mult(inner),
        Q::Basis(0.3, 0, 0),
        Q::Basis(inner, 1, 0),
        Q::Views,
        Q::Derived(1),
        Q::Reversed,
        Q::Clone,
        Q::Tests,
        Q::Refused,
        Q::Split(0.45),
        Q::Merge,
        Q::Normalized,
    ]);
    if !q {
        v.extend([Q::Eval(next_down(1.0), 0), Q::Eval(inner, 1), Q::Find(1.0, 0, 0), Q::Find(0.0, 0, 3), Q::Derived(p), Q::Derived(0), Q::Split(inner), Q::Mult(0.0), Q::Eval(0.7, 2), Q::Join]);
        if kn.max_mult() <= p {
            v.extend([Q::Interp, Q::Loose]);
        }
    }
    v
}

pub fn c25(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let full = o.tier == Tier::Deep;
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    let mut groups: Vec<Vec<(Kn, usize)>> = vec![];
    for p in 1..=4usize {
        // two curves of one degree and size but different data, one of another size, one of another degree
        groups.push(vec![(Kn::simple(p, &[0.5]), 2), (Kn::simple(p, &[0.25]), 2)]);
        groups.push(vec![(Kn::clamped(p, &[0.5], &[p]), 2), (Kn::simple(p + 1, &[0.1, 0.7]), 1)]);
        groups.push(vec![(Kn::simple(p, &[]), 3), (Kn::simple(p, &[0.5]), 3)]);
    }
    // two curves of one size between which a third one of another size or degree is asked
    for p in 1..=o.tier.pick(2, 4, 5usize) {
        groups.push(vec![(Kn::simple(p, &[0.5, 0.75]), 2), (Kn::simple(p, &[0.25, 0.5]), 2), (Kn::simple(p, &[]), 2)]);
        groups.push(vec![(Kn::simple(p, &[0.375]), 1), (Kn::simple(p, &[0.5]), 1), (Kn::simple(p + 1, &[0.5]), 1)]);
    }
    // query sequences
    for (gi, g) in groups.into_iter().enumerate() {
        let mk = move || -> Vec<Curve> {
            g.iter()
                .enumerate()
                .map(|(i, (kn, dim))| Curve::new(kn.knots(), ControlPoints::new(mat(&Pts::Gen(*dim).cols(kn.n1(), seed + i as u64 * 13)))).unwrap())
                .collect()
        };
        let Ok(cs) = call(&mk) else { continue };
        let mk = Arc::new(mk);
        let letters: Vec<(usize, Q)> = cs.iter().enumerate().flat_map(|(i, c)| queries(c, q).into_iter().map(move |x| (i, x))).collect();
        for &(fi, fq) in &letters {
            let (mk, letters) = (mk.clone(), letters.clone());
            let key = format!("group {gi}, first query {fq:?} on curve {fi}");
            cases.push(Case { key: key.clone(), run: Box::new(move |rec| {
                let fresh: Vec<Curve> = mk();
                // answers of untouched curves
                let mut base = vec![];
                for &(i, x) in &letters {
                    // in a thread of its own, which has no history either
                    let answer = call(|| std::thread::scope(|s| s.spawn(|| {
                        let c = mk().swap_remove(i);
                        call(|| raw_query(&c, x))
                    }).join().unwrap_or_else(|_| Err("panicked".into())))).and_then(|r| r);
                    base.push(answer.or_else(|e| fail(format!("{key} -> {x:?} on a fresh curve {i}"), e))?);
                    rec.trans(1);
                }
                let initial: Vec<Vec<u64>> = fresh.iter().map(bits).collect();
                let bi = |i: usize, x: Q| letters.iter().position(|l| *l == (i, x)).unwrap();
                let ask = |rec: &mut Rec, i: usize, x: Q, hist: &str| -> Res {
                    let ex = || format!("{hist}, then {x:?} on curve {i}");
                    let a = call(|| raw_query(&fresh[i], x)).or_else(|e| fail(ex(), e))?;
                    rec.trans(1);
                    if a != base[bi(i, x)] {
                        return fail(ex(), "the answer differs from that of a fresh curve".to_string());
                    }
                    for (j, c) in fresh.iter().enumerate() {
                        unchanged(&ex, &initial[j], c, &format!("curve {j} after a query"))?;
                    }
                    rec.ok(1);
                    Ok(())
                };
                let deep = !q && gi < 12 && (gi % 6 == 0 || full);
                for &(i2, q2) in &letters {
                    for &(i3, q3) in &letters {
                        ask(rec, fi, fq, &format!("group {gi}: start"))?;
                        ask(rec, i2, q2, &format!("group {gi}: {fq:?} on {fi}"))?;
                        ask(rec, i3, q3, &format!("group {gi}: {fq:?} on {fi}, {q2:?} on {i2}"))?;
                        let mut h = Hash::new();
                        h.u(gi as u64).s(&format!("{fi}{fq:?}{i2}{q2:?}{i3}{q3:?}"));
                        rec.state(h.done());
                        if deep && (i3, q3) != (i2, q2) && gi % 3 == 0 {
                            for &(i4, q4) in &letters {
                                ask(rec, i4, q4, &format!("group {gi}: {fq:?} on {fi}, {q2:?} on {i2}, {q3:?} on {i3}"))?;
                            }
                        }
                    }
                }
                rec.max_depth = if deep && gi % 3 == 0 { 4 } else { 3 };
                rec.sample(|| format!("{key}: all pairs of following queries"));
                Ok(())
            }) });
        }
    }
    // operand preservation, determinism and clone independence over the knot space
    for kn in small_space(o.tier) {
        for pts in [Pts::Gen(2), Pts::Unit, Pts::Mixed] {
            let key = format!("{kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case { key: key.clone(), run: Box::new(move |rec| c25_ops(rec, &kn, pts, seed, &key)) });
        }
    }
    // generators: data, knots and parameters stay, results repeat
    for p in 1..=o.tier.pick(4, 6, 7usize) {
        for m in p..=o.tier.pick(10, 16, 24) {
            for pts in [Pts::Gen(2), Pts::Gen(1), Pts::Far] {
                let key = format!("generators p={p} data points={} {pts:?}", m + 1);
                cases.push(Case { key: key.clone(), run: Box::new(move |rec| c25_gen(rec, p, m, pts, seed, &key)) });
            }
        }
    }
    (
        Meta {
            rule: "State: set of curves with a query history. Transition: one query (evaluation, derivative, basis function, lookup, views, derivative curve, split, reversed copy, clone modification, tests, refused requests, self merge, normalized copy). All ordered query sequences over two curves are run; every answer must be bitwise that of a fresh curve and every curve must stay bitwise the same. Mutating operations are run twice on equal inputs, clones of the input are checked for independence, operands and data for preservation.".into(),
            bounds: if q { "12 pairs and 4 triples of curves, 42 and 63 queries, all sequences of length 3; operations over the small knot space; generators p<=4, up to 11 data points".into() } else { format!("12 pairs of curves, 66 queries, all sequences of length 3 (length 4 for {} pairs); {} triples of curves, 99 queries, all sequences of length 3; operations over the small knot space; generators p<={}, up to {} data points", o.tier.pick(0, 2, 4), o.tier.pick(4, 8, 10), o.tier.pick(4, 6, 7), o.tier.pick(11, 17, 25)) },
            oracle: "bitwise equality with fresh copies".into(),
            assumptions: vec![],
        },
        cases,
    )
}

fn c25_ops(rec: &mut Rec, kn: &Kn, pts: Pts, seed: u64, key: &str) -> Res {
    let p = kn.p;
    let make = || build(kn, &pts.cols(kn.n1(), seed), &|| key.to_string());
    let a = make()?;
    let b0 = bits(&a);
    if bits(&make()?) != b0 {
        return fail(key, "building the curve twice gives different curves".to_string());
    }
    rec.state(curve_hash(&a));
    let part = Curve::new(Kn::simple(p, &[0.3]).knots(), ControlPoints::new(mat(&Pts::Gen(a.dimension()).cols(p + 2, seed + 5))));
    let Ok(part) = part else { return fail(key, "partner refused".to_string()) };
    let pb = bits(&part);
    type F<'a> = Box<dyn Fn(&mut Curve) -> Vec<u64> + 'a>;
    let cs = |v: &[f64]| Constraints { params: v.to_vec() };
    let err = |s: String| -> Vec<u64> { s.bytes().map(u64::from).collect() };
    let mut ops: Vec<(String, bool, F)> = vec![];
    for t in positions(kn, false) {
        ops.push((format!("insert({t:?})"), true, Box::new(move |c| c.insert(t).map(|c| bits(c)).unwrap_or_else(|e| err(format!("{e:?}"))))));
        ops.push((format!("insert_times({t:?}, 2)"), true, Box::new(move |c| c.insert_times(t, 2).map(|c| bits(c)).unwrap_or_else(|e| err(format!("{e:?}"))))));
        ops.push((format!("split({t:?})"), false, Box::new(move |c| c.split(t).map(|(l, r)| [bits(&l), bits(&r)].concat()).unwrap_or_else(|e| err(format!("{e:?}"))))));
        ops.push((
            format!("split_and_normalize({t:?}, (false, false))"),
            false,
            Box::new(move |c| split_and_normalize(c, t, (false, false)).map(|(l, r)| [bits(&l), bits(&r)].concat()).unwrap_or_else(|e| err(format!("{e:?}")))),
        ));
    }
    ops.push(("reverse".into(), true, Box::new(|c| bits(c.reverse()))));
    ops.push(("reversed".into(), false, Box::new(|c| bits(&reversed(c)))));
    for k in 0..=p {
        if kn.max_mult() <= p {
            ops.push((format!("get_derivative_curve({k})"), false, Box::new(move |c| bits(&c.get_derivative_curve(k)))));
        }
    }
    {
        let part = &part;
        ops.push(("merge with a partner".into(), false, Box::new(move |c| merge(c, part).map(|x| bits(&x)).unwrap_or_else(|e| err(format!("{e:?}"))))));
        ops.push(("append".into(), true, Box::new(move |c| bits(c.append(part)))));
        ops.push(("prepend".into(), true, Box::new(move |c| bits(c.prepend(part)))));
        if p > 1 {
            ops.push(("merge_from".into(), false, Box::new(move |c| merge_from(c, part).map(|x| bits(&x)).unwrap_or_else(|e| err(format!("{e:?}"))))));
            ops.push(("merge_to".into(), false, Box::new(move |c| merge_to(c, part).map(|x| bits(&x)).unwrap_or_else(|e| err(format!("{e:?}"))))));
            ops.push(("append_constrained".into(), true, Box::new(move |c| bits(c.append_constrained(cs(&[1.0]), part, cs(&[]))))));
            ops.push(("prepend_constrained".into(), true, Box::new(move |c| bits(c.prepend_constrained(cs(&[0.0]), part, cs(&[]))))));
        }
    }
    for (name, mutates, f) in &ops {
        let ex = || format!("{key} -> {name}");
        let witness = a.clone();
        let mut results = vec![];
        // on a clone, on a fresh curve, on the clone of a clone, and in place of queries in between
        for v in 0..3 {
            let mut x = match v {
                0 => a.clone(),
                1 => make()?,
                _ => {
                    let y = a.clone();
                    let _ = call(|| (y.evaluate(0.3).is_ok(), y.evaluate_derivative(0.7, 1).is_ok()));
                    y.clone()
                }
            };
            rec.trans(1);
            let r = call(|| f(&mut x)).or_else(|e| fail(ex(), e))?;
            if !mutates {
                unchanged(&ex, &b0, &x, "an operation that returns a new curve")?;
            } else if results.is_empty() {
                let mut h = Hash::new();
                for w in &r {
                    h.u(*w);
                }
                rec.state(h.done());
            }
            unchanged(&ex, &b0, &a, "the original of a clone")?;
            unchanged(&ex, &b0, &witness, "another clone")?;
            unchanged(&ex, &pb, &part, "the partner")?;
            results.push(r);
        }
        if results[0] != results[1] || results[0] != results[2] {
            return fail(ex(), "repeating the operation on an equal curve gives another result".to_string());
        }
        rec.ok(1);
        rec.outcome(if *mutates { "in place" } else { "copying" });
    }
    rec.max_depth = rec.max_depth.max(2);
    Ok(())
}

fn c25_gen(rec: &mut Rec, p: usize, m: usize, pts: Pts, seed: u64, key: &str) -> Res {
    let cols = pts.cols(m + 1, seed + 17);
    let d = DataPoints::new(mat(&cols));
    let db: Vec<u64> = d.matrix().iter().map(|x| x.to_bits()).collect();
    let same_data = |ex: Ex| -> Res {
        if d.matrix().iter().map(|x| x.to_bits()).collect::<Vec<_>>() != db {
            return fail(ex(), "the data points were modified".to_string());
        }
        Ok(())
    };
    for n in p..=m {
        let par = call(|| parameters::generate(&d, parameters::Method::EquallySpaced)).or_else(|e| fail(key, e))?;
        let kn = match call(|| knots::generate(p, n, &par, knots::Method::Uniform)) {
            Ok(Ok(k)) => k,
            Ok(Err(e)) => return fail(key, format!("knots refused: {e:?}")),
            Err(e) => return fail(key, e),
        };
        let pb: Vec<u64> = par.vector().iter().map(|x| x.to_bits()).collect();
        let kb: Vec<Vec<u64>> = (0..=p).map(|k| kn.vector_derivative(k).iter().map(|x| x.to_bits()).collect()).collect();
        for v in 0..6 {
            let name = ["interpolation", "loose-end fit", "fixed-end fit", "penalized loose-end fit", "penalized fixed-end fit", "manual"][v];
            let ex = || format!("{key} n={n} -> {name}");
            if (v == 0 || v == 5) && n != m {
                continue;
            }
            let pen = || (v >= 3).then(|| fit::Penalization { lambda: 0.5, kappa: 1 });
            let mut results: Vec<Vec<u64>> = vec![];
            for _ in 0..2 {
                rec.trans(1);
                let r = call(|| match v {
                    0 => generate(Generation::Interpolation { degree: p, points: &d }).map(|c| bits(&c)).map_err(|e| format!("{e:?}")),
                    5 => generate(Generation::Manual { degree: p, points: ControlPoints::new(d.matrix().clone()), knots: knots::Generation::Manual { knots: kn.clone() } })
                        .map(|c| bits(&c))
                        .map_err(|e| format!("{e:?}")),
                    _ => generate(Generation::LeastSquaresFit {
                        degree: p,
                        points: &d,
                        intended_segments: n,
                        method: if v % 2 == 1 { fit::Method::LooseEnds } else { fit::Method::FixedEnds },
                        penalization: pen(),
                    })
                    .map(|c| bits(&c))
                    .map_err(|e| format!("{e:?}")),
                });
                results.push(match r {
                    Ok(Ok(b)) => b,
                    Ok(Err(e)) => e.bytes().map(u64::from).collect(),
                    Err(e) => return fail(ex(), e),
                });
                // lower level with shared knots and parameters
                if v < 5 {
                    let r = call(|| match v {
                        0 => Ok(interpolation::interpolate(&kn, &d, &par)),
                        1 | 3 => fit::loose::fit(&kn, &d, &par, pen()),
                        _ => fit::fixed::fit(&kn, &d, &par, pen()),
                    })
                    .or_else(|e| fail(ex(), e))?;
                    let i = results.len() - 1;
                    match r {
                        Ok(x) => results[i].extend(x.iter().map(|x| x.to_bits())),
                        Err(e) => results[i].extend(format!("{e:?}").bytes().map(u64::from)),
                    }
                }
                same_data(&ex)?;
                if par.vector().iter().map(|x| x.to_bits()).collect::<Vec<_>>() != pb {
                    return fail(ex(), "the parameters were modified".to_string());
                }
                for k in 0..=p {
                    if kn.vector_derivative(k).iter().map(|x| x.to_bits()).collect::<Vec<_>>() != kb[k] {
                        return fail(ex(), "the knots were modified".to_string());
                    }
                }
            }
            if results[0] != results[1] {
                return fail(ex(), "repeating it gives another result".to_string());
            }
            let mut h = Hash::new();
            for w in &results[0] {
                h.u(*w);
            }
            rec.state(h.done());
            rec.ok(1);
            rec.outcome("generated");
        }
    }
    rec.max_depth = rec.max_depth.max(2);
    Ok(())
}
