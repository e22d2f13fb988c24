//! C11-C14: merging.
use super::ops::kn_of;
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::{knots::Knots, points::ControlPoints, Curve};
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints, MergeError};
use bsplines::manipulation::split::split_and_normalize;
use nalgebra::DVector;
use std::sync::Arc;

/// Knot vectors for merge operands of degree p.
fn operands(p: usize, t: Tier) -> Vec<Kn> {
    let mut v = vec![
        Kn::simple(p, &[]),
        Kn::simple(p, &[0.5]),
        Kn::simple(p, &[1.0 / 3.0]),
        Kn::simple(p, &[0.25, 0.75]),
        Kn::simple(p, &[0.1, 0.2, 0.7]),
        Kn::simple(p, &uniform_inner(5)),
        Kn::clamped(p, &[0.5], &[2.min(p)]),
        Kn::clamped(p, &[0.3, 0.8], &[p, 1]),
        Kn::clamped(p, &[0.2, 0.6], &[1, p]),
        Kn::clamped(p, &[0.4], &[p + 1]),
    ];
    if p > 4 {
        v.truncate(6);
    }
    if t != Tier::Quick {
        v.extend([
            Kn::simple(p, &[0.6]),
            Kn::simple(p, &[0.8]),
            Kn::simple(p, &[0.2, 0.4, 0.6, 0.8]),
            Kn::simple(p, &[0.3, 0.4, 0.6]),
            Kn::simple(p, &uniform_inner(9)),
            Kn::clamped(p, &[0.25, 0.5, 0.75], &[2.min(p), 1, 2.min(p)]),
            Kn::clamped(p, &[0.5, 0.75], &[1, p + 1]),
            Kn::clamped(p, &[0.25, 0.5], &[p + 1, 1]),
        ]);
    }
    if t == Tier::Deep {
        v.extend([
            Kn::simple(p, &golden(7)),
            Kn::simple(p, &uniform_inner(14)),
            Kn::simple(p, &[0.05, 0.5, 0.95]),
            Kn::clamped(p, &[0.1, 0.5, 0.9], &[1, p, 1]),
            Kn::clamped(p, &[0.3, 0.6], &[p + 1, p + 1]),
            Kn::clamped(p, &uniform_inner(4), &[1, 2.min(p), 1, p]),
        ]);
    }
    let mut out: Vec<Kn> = vec![];
    for k in v {
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pair {
    /// independent generic points
    Gen(usize),
    /// unit vectors over both operands: decides all pairs by linearity
    Unit,
    Const,
    Zero,
    Far,
    /// b starts where a ends
    Touch,
    /// widely different magnitude
    Scale,
}
impl Pair {
    fn cols(self, na: usize, nb: usize, seed: u64) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
        match self {
            Pair::Gen(d) => (Pts::Gen(d).cols(na, seed), Pts::Gen(d).cols(nb, seed + 77)),
            Pair::Unit => {
                let mut u = Pts::Unit.cols(na + nb, 0);
                let b = u.split_off(na);
                (u, b)
            }
            Pair::Const => (Pts::Const.cols(na, 0), Pts::Const.cols(nb, 0)),
            Pair::Zero => (Pts::Zero.cols(na, 0), Pts::Zero.cols(nb, 0)),
            Pair::Far => (Pts::Gen(2).cols(na, seed), Pts::Far.cols(nb, seed + 5)),
            Pair::Touch => {
                let a = Pts::Gen(2).cols(na, seed);
                let mut b = Pts::Gen(2).cols(nb, seed + 9);
                b[0] = a[na - 1].clone();
                (a, b)
            }
            Pair::Scale => (
                Pts::Gen(2).cols(na, seed),
                Pts::Gen(2).cols(nb, seed + 3).into_iter().map(|c| c.into_iter().map(|x| x * 1024.0).collect()).collect(),
            ),
        }
    }
}
const PAIRS: [Pair; 8] =
    [Pair::Gen(2), Pair::Unit, Pair::Gen(1), Pair::Gen(3), Pair::Const, Pair::Zero, Pair::Far, Pair::Touch];

/// relative error allowed for the solution of the merge system
pub fn tol_merge(p: usize) -> f64 {
    match p {
        0..=2 => 1e-11,
        3 => 1e-10,
        4 => 1e-9,
        5 => 1e-7,
        6 => 1e-7,
        7 => 1e-5,
        8 => 1e-4,
        _ => 1e-5,
    }
}

fn pairs(o: &Opts) -> Vec<(Kn, Kn)> {
    let q = o.tier == Tier::Quick;
    let mut v = vec![];
    for p in 1..=(if q { 5 } else { 7 }) {
        let ops = operands(p, if p > 5 { Tier::Quick } else { o.tier });
        for a in &ops {
            for b in &ops {
                v.push((a.clone(), b.clone()));
            }
        }
    }
    // high degrees
    for p in if q { 6..=9 } else { 8..=9 } {
        let ops = &operands(p, Tier::Quick)[..if p > 8 { 2 } else { 4 }];
        for a in ops {
            for b in ops {
                v.push((a.clone(), b.clone()));
            }
        }
    }
    // long operands next to short ones
    for p in 1..=3 {
        for b in o.tier.pick(&[20, 33][..], &[12, 20, 33, 50][..], &[12, 20, 33, 50, 64, 80][..]) {
            let l = Kn::simple(p, &uniform_inner(*b));
            for s in [Kn::simple(p, &[]), Kn::simple(p, &[0.1, 0.2, 0.7]), Kn::simple(p, &uniform_inner(17)), l.clone()] {
                v.push((l.clone(), s.clone()));
                v.push((s, l.clone()));
            }
        }
    }
    // more control points than fit a byte
    for (p, k) in [(2, Kn::simple(2, &golden(299))), (3, Kn::simple(3, &uniform_inner(300)))] {
        let s = Kn::simple(p, &[0.1, 0.2, 0.7]);
        v.push((k.clone(), s.clone()));
        v.push((s, k.clone()));
        v.push((k.clone(), k));
    }
    v
}
/// Huge operands only with generic control points.
fn wanted(a: &Kn, b: &Kn, pp: Pair) -> bool {
    a.n1().max(b.n1()) < 290 || pp == Pair::Gen(2)
}

struct Got {
    name: &'static str,
    c: Curve,
}
/// Run every entry point that merges without constraints.
fn run_merge(rec: &mut Rec, key: &str, a: &Curve, b: &Curve) -> Result<Vec<Got>, Fail> {
    let (ba, bb) = (bits(a), bits(b));
    let mut out = vec![];
    for v in 0..5u8 {
        let name = ["merge", "append", "prepend", "append_constrained (no constraints)", "prepend_constrained (no constraints)"][v as usize];
        let ex = || format!("{key} -> {name}");
        rec.trans(1);
        let none = || Constraints { params: vec![] };
        let r: Result<Curve, String> = match v {
            0 => match call(|| merge(a, b)) {
                Ok(Ok(c)) => Ok(c),
                Ok(Err(e)) => Err(format!("refused: {e:?}")),
                Err(e) => Err(e),
            },
            1 => {
                let mut x = a.clone();
                call(|| {
                    x.append(b);
                    x
                })
            }
            2 => {
                let mut x = b.clone();
                call(|| {
                    x.prepend(a);
                    x
                })
            }
            3 => {
                let mut x = a.clone();
                call(|| {
                    x.append_constrained(none(), b, none());
                    x
                })
            }
            _ => {
                let mut x = b.clone();
                call(|| {
                    x.prepend_constrained(none(), a, none());
                    x
                })
            }
        };
        match r {
            Ok(c) => out.push(Got { name, c }),
            Err(e) => return fail(ex(), e),
        }
        unchanged(&ex, &ba, a, "merge (first operand)")?;
        unchanged(&ex, &bb, b, "merge (second operand)")?;
    }
    Ok(out)
}

/// The two halves of a merged curve, expressed over the operands' knots.
fn halves(c: &Curve, a: &Model, b: &Model) -> (Model, Model) {
    // exact doubling of the knots recovers the [0,2] parametrization
    let (l, r) = Model::of(c).split(D::from(0.5));
    let two = D::from(2.0);
    let shift = |m: Model, s: D, like: &Model| {
        let mut m = m;
        for (i, x) in m.u.iter_mut().enumerate() {
            *x = *x * two - s;
            // the model's exact knots replace the rounded ones
            if i < like.u.len() && (*x - like.u[i]).abs().0 < 64.0 * EPS {
                *x = like.u[i];
            }
        }
        m
    };
    (shift(l, ZERO, a), shift(r, ONE, b))
}

/// C11: structure, untouched parts and smoothness, without reference to how the displaced points are chosen.
pub fn check_join(rec: &mut Rec, ex: Ex, c: &Curve, a: &Model, b: &Model, pt: f64, s0: f64, what: &str) -> Res {
    let p = a.p;
    let (m, o) = (a.n(), b.n());
    consistent(ex, c, what)?;
    let half = D::from(0.5);
    let mut u: Vec<D> = a.u[..m + 2].to_vec();
    u.extend(b.u[p + 1..].iter().map(|&x| x + ONE));
    let u: Vec<D> = u.into_iter().map(|x| x * half).collect();
    let cu = c.knots.vector();
    if c.degree() != p || cu.len() != u.len() || c.points.count() != m + o + 2 - p || c.dimension() != a.dim() {
        return fail(
            ex(),
            format!("{what}: degree {} with {} control points of dimension {} and knots {:?}", c.degree(), c.points.count(), c.dimension(), cu.as_slice()),
        );
    }
    for i in 0..u.len() {
        if !((D::from(cu[i]) - u[i]).abs().0 <= 8.0 * EPS) {
            return fail(ex(), format!("{what}: knot {i} of {:?} should be {:?}", cu.as_slice(), u[i].f()));
        }
        if i > 0 && same(u[i - 1], u[i]) != (cu[i - 1] == cu[i]) {
            return fail(ex(), format!("{what}: multiplicities of {:?} are wrong", cu.as_slice()));
        }
    }
    if cu.iter().filter(|x| **x == 0.5).count() != 1 {
        return fail(ex(), format!("{what}: the joint 0.5 is not a simple knot of {:?}", cu.as_slice()));
    }
    let (l, r) = halves(c, a, b);
    // rounding of the knots (halving and adding one) perturbs the shape a little
    let ba = Bound::new(a, pt, 16.0 * EPS, s0);
    let bb = Bound::new(b, pt, 16.0 * EPS, s0);
    for (got, want, bd, idx, side) in [
        (&l, a, &ba, (0..=m - p).collect::<Vec<_>>(), "first"),
        (&r, b, &bb, (p..=o).collect::<Vec<_>>(), "second"),
    ] {
        if got.pts.len() != want.pts.len() {
            return fail(ex(), format!("{what}: the {side} half has {} control points instead of {}", got.pts.len(), want.pts.len()));
        }
        for i in idx {
            let tol = bd.point(i) * 4.0;
            for x in 0..want.dim() {
                let err = (got.pts[i][x] - want.pts[i][x]).abs().0;
                if !rec.within(err, tol) {
                    return fail(
                        ex(),
                        format!("{what}: control point {i} of the {side} curve moved: {:?} instead of {:?} (error {err:e} > {tol:e})", got.pts[i][x].f(), want.pts[i][x].f()),
                    );
                }
            }
        }
    }
    // values and derivatives of the real curve belong to its control points
    let mm = Model::of(c);
    let w = Want { m: &mm, knots: KnotCmp::Exact, pt: 0.0, s0, kmax: Some(p + 1) };
    agree(rec, ex, c, &w, what)?;
    // smoothness, directly: one-sided derivatives at the joint, left ones by extrapolating the last piece
    let pc = mm.pieces();
    let j = pc.list.iter().position(|q| q.b == D::from(0.5)).unwrap();
    let bd = Bound::new(&mm, 0.0, 0.0, s0);
    let spans = mm.spans();
    for k in 0..p {
        let left = pc.eval_local(j, ONE, k);
        let tol = 4.0 * (bd.span(spans[j], k) + bd.span(spans[j + 1], k));
        value(rec, ex, c, 0.5, k, &left, tol, "derivative jump at the joint")?;
    }
    Ok(())
}

fn pair_case(
    a: Kn,
    b: Kn,
    pp: Pair,
    seed: u64,
    f: impl Fn(&mut Rec, &str, &Curve, &Curve) -> Res + Send + Sync + 'static,
) -> Case {
    let key = format!("a: {a} b: {b} P={pp:?}");
    Case {
        key: key.clone(),
        run: Box::new(move |rec| {
            let (ca, cb) = pp.cols(a.n1(), b.n1(), seed);
            let ac = build(&a, &ca, &|| key.clone())?;
            let bc = build(&b, &cb, &|| key.clone())?;
            rec.state(curve_hash(&ac));
            rec.state(curve_hash(&bc));
            rec.sample(|| key.clone());
            f(rec, &key, &ac, &bc)
        }),
    }
}

pub fn c11(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let mut ps: Vec<Pair> = PAIRS.to_vec();
    ps.push(Pair::Scale);
    for (a, b) in pairs(o) {
        for &pp in ps.iter().filter(|&&x| wanted(&a, &b, x)) {
            cases.push(pair_case(a.clone(), b.clone(), pp, o.seed, |rec, key, a, b| {
                let (ma, mb) = (Model::of(a), Model::of(b));
                let s0 = mag(&ma).max(mag(&mb));
                for g in run_merge(rec, key, a, b)? {
                    let ex = || format!("{key} -> {}", g.name);
                    check_join(rec, &ex, &g.c, &ma, &mb, tol_merge(ma.p), s0, "merged curve")?;
                    rec.state(curve_hash(&g.c));
                    rec.outcome(g.name);
                    rec.max_depth = rec.max_depth.max(1);
                    rec.ok(1);
                }
                Ok(())
            }));
        }
    }
    // chains of merges of three and four curves, in both directions
    for p in 1..=4 {
        let ops = operands(p, Tier::Quick);
        for a in &ops[..4] {
            for b in &ops[..4] {
                for third in &ops[2..6] {
                    let third = third.clone();
                    let seed = o.seed;
                    let mut c = pair_case(a.clone(), b.clone(), Pair::Gen(2), o.seed, move |rec, key, a, b| {
                        let t = build(&third, &Pts::Gen(2).cols(third.n1(), seed + 31), &|| key.to_string())?;
                        for v in 0..2 {
                            let ex = || format!("{key} -> append -> {} {third}", ["append", "prepend"][v]);
                            let mut x = a.clone();
                            if let Err(e) = call(|| {
                                x.append(b);
                            }) {
                                return fail(ex(), e);
                            }
                            let first = x.clone();
                            let (l, r) = if v == 0 { (&first, &t) } else { (&t, &first) };
                            if let Err(e) = call(|| {
                                if v == 0 {
                                    x.append(&t);
                                } else {
                                    x.prepend(&t);
                                }
                            }) {
                                return fail(ex(), e);
                            }
                            rec.trans(2);
                            let (ml, mr) = (Model::of(l), Model::of(r));
                            let s0 = mag(&ml).max(mag(&mr));
                            check_join(rec, &ex, &x, &ml, &mr, 10.0 * tol_merge(ml.p), s0, "curve merged twice")?;
                            rec.state(curve_hash(&x));
                            rec.max_depth = rec.max_depth.max(2);
                            rec.ok(1);
                        }
                        Ok(())
                    });
                    c.key = format!("{} third", c.key);
                    cases.push(c);
                }
            }
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: merge / append / prepend (also the constrained variants without constraints) of every ordered pair of operands; chains of two merges with a third operand on either side. Each result: merged knots, control point count, halves re-expressed over the operands' knots by blossoms must be the operands except for the p control points next to the joint, derivatives 0..p-1 continuous at the simple knot 1/2, operands bitwise unchanged, result internally consistent on every span and order.".into(),
            bounds: format!("p <= {} (two to four operands for each p <= 9), {} operand knot vectors per degree (fewer for p > 4) incl. full multiplicities, pairs of operands with up to {} (one family 301) spans, 9 control point families incl. unit vectors (linearity)", o.tier.pick(5, 7, 7), o.tier.pick(10, 18, 24), o.tier.pick(34, 51, 81)),
            oracle: "halves by blossoms; no assumption on how the displaced points are chosen".into(),
            assumptions: vec!["accuracy of the library's SVD solution: relative 1e-11..1e-7 by degree".into()],
        },
        cases,
    )
}

pub fn c12(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for (a, b) in pairs(o) {
        for pp in PAIRS.into_iter().filter(|&x| wanted(&a, &b, x)) {
            cases.push(pair_case(a.clone(), b.clone(), pp, o.seed, |rec, key, a, b| {
                let (ma, mb) = (Model::of(a), Model::of(b));
                let s0 = mag(&ma).max(mag(&mb));
                let Some(want) = Model::merge(&ma, &mb, &[], &[]) else { panic!("model merge infeasible: {key}") };
                for g in run_merge(rec, key, a, b)? {
                    let ex = || format!("{key} -> {}", g.name);
                    let w = Want { m: &want.curve, knots: KnotCmp::Near, pt: tol_merge(ma.p), s0, kmax: Some(ma.p) };
                    agree(rec, &ex, &g.c, &w, "merged curve")?;
                    rec.state(curve_hash(&g.c));
                    rec.outcome(g.name);
                    rec.ok(1);
                }
                rec.max_depth = rec.max_depth.max(1);
                Ok(())
            }));
        }
    }
    // with constraints the displacement is the least of those that keep them
    for p in 2..=o.tier.pick(3, 4, 4) {
        let ops = operands(p, Tier::Quick);
        for a in &ops[..o.tier.pick(3, 5, 7).min(ops.len())] {
            for b in &ops[..o.tier.pick(3, 5, 7).min(ops.len())] {
                let mut c = pair_case(a.clone(), b.clone(), Pair::Gen(2), o.seed, c13_case);
                c.key = format!("{} constrained", c.key);
                cases.push(c);
            }
        }
    }
    // curves split at 1/2 and merged again
    let mut rejoin: Vec<Kn> = vec![];
    for p in 1..=(if o.tier == Tier::Quick { 5 } else { 7 }) {
        rejoin.extend(operands(p, if p > 5 { Tier::Quick } else { Tier::Thorough }));
        if p < 5 {
            rejoin.extend([Kn::simple(p, &uniform_inner(22)), Kn::simple(p, &uniform_inner(41))]);
            if p < 4 {
                rejoin.push(Kn::simple(p, &uniform_inner(160)));
            }
        }
    }
    // very short spans next to the joint, on either or both sides
    for p in 1..=o.tier.pick(2, 3, 3) {
        for e in [6, 12, 18, 21, 24] {
            let h = 2f64.powi(-e);
            for (l, r) in [(0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (2, 2), (0, 3), (3, 3)] {
                let mut inner: Vec<f64> = (1..=l).rev().map(|i| 0.5 - i as f64 * h).collect();
                inner.push(0.5);
                inner.extend((1..=r).map(|i| 0.5 + i as f64 * h));
                rejoin.push(Kn::simple(p, &inner));
            }
        }
    }
    for kn in rejoin {
        let m = kn.u.iter().filter(|x| **x == 0.5).count();
        if m > 1 {
            continue;
        }
        for pts in [Pts::Unit, Pts::Gen(2), Pts::Gen(1), Pts::Line, Pts::Const, Pts::Far] {
            let seed = o.seed;
            let key = format!("rejoin {kn} P={pts:?}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let cols = pts.cols(kn.n1(), seed);
                    let c = build(&kn, &cols, &|| key.clone())?;
                    let (l, r) = match call(|| split_and_normalize(&c, 0.5, (true, true))) {
                        Ok(Ok(x)) => x,
                        Ok(Err(e)) => return fail(key.clone(), format!("split refused: {e:?}")),
                        Err(e) => return fail(key.clone(), e),
                    };
                    rec.trans(1);
                    rec.state(curve_hash(&c));
                    rec.state(curve_hash(&l));
                    rec.state(curve_hash(&r));
                    let m0 = model_of(&kn, &cols);
                    let s0 = mag(&m0);
                    let want = if m == 0 { m0.insert(D::from(0.5)) } else { m0 };
                    for g in run_merge(rec, &key, &l, &r)? {
                        let ex = || format!("{key} -> split(0.5) -> {}", g.name);
                        let w = Want { m: &want, knots: KnotCmp::Near, pt: tol_merge(kn.p), s0, kmax: Some(kn.p) };
                        agree(rec, &ex, &g.c, &w, "rejoined halves")?;
                        rec.state(curve_hash(&g.c));
                        rec.outcome("rejoined");
                        rec.ok(1);
                    }
                    rec.max_depth = rec.max_depth.max(2);
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: merge through all five unconstrained entry points; constrained merges with every constraint set of C13 on a part of its operands; split at 1/2 followed by merge. The whole merged curve must be the one with the least displacement.".into(),
            bounds: "pairs and families of C11; every operand knot vector without a repeated knot at 1/2 for the rejoin histories".into(),
            oracle: "minimum-norm solution of the continuity conditions (normal equations of the constraint rows in double-double arithmetic), merged control points by blossoms; for rejoining: the original curve".into(),
            assumptions: vec!["accuracy of the library's SVD solution: relative 1e-11..1e-7 by degree".into()],
        },
        cases,
    )
}

fn subsets(cands: &[f64], max: usize) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![vec![]];
    for &c in cands {
        let mut more = vec![];
        for s in &out {
            if s.len() < max {
                let mut t = s.clone();
                t.push(c);
                more.push(t);
            }
        }
        out.extend(more);
    }
    out
}

pub fn c13(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let q = o.tier == Tier::Quick;
    for p in 1..=(if q { 4 } else { 5 }) {
        let ops = operands(p, Tier::Quick);
        let ops = if q { ops[..8.min(ops.len())].to_vec() } else { ops };
        for a in &ops {
            for b in &ops {
                for pp in [Pair::Gen(2), Pair::Touch, Pair::Unit] {
                    if pp == Pair::Unit && (p == 4 && q || p > 4) {
                        continue;
                    }
                    cases.push(pair_case(a.clone(), b.clone(), pp, o.seed, move |rec, key, a, b| {
                        c13_case(rec, key, a, b)
                    }));
                }
            }
        }
    }
    // long operands, high degree, other dimensions
    for p in 2..=3 {
        for b in o.tier.pick(&[15, 30][..], &[15, 30, 45][..], &[15, 30, 45][..]) {
            let l = Kn::simple(p, &uniform_inner(*b));
            for s in [Kn::simple(p, &[]), Kn::simple(p, &[0.1, 0.2, 0.7]), Kn::clamped(p, &[0.3, 0.6], &[p, 1]), Kn::simple(p, &golden(12)), l.clone()] {
                for pp in [Pair::Gen(3), Pair::Far, Pair::Gen(1)] {
                    for (a, b) in [(&l, &s), (&s, &l)] {
                        cases.push(pair_case(a.clone(), b.clone(), pp, o.seed, c13_case));
                    }
                }
            }
        }
    }
    // short spans next to the joint
    for p in 2..=3 {
        for e in o.tier.pick(&[7, 11][..], &[5, 7, 9, 11][..], &[5, 7, 9, 11][..]) {
            let h = 2f64.powi(-e);
            let l = [Kn::simple(p, &[0.3, 1.0 - h]), Kn::simple(p, &[0.2, 0.4, 0.5, 0.7, 1.0 - 3.0 * h, 1.0 - h])];
            let r = [Kn::simple(p, &[h, 0.6]), Kn::simple(p, &[h, 2.0 * h, 0.3, 0.5, 0.7, 0.8])];
            let s = Kn::simple(p, &[0.5]);
            for (a, b) in [(&l[0], &s), (&l[1], &s), (&s, &r[0]), (&s, &r[1]), (&l[0], &r[0]), (&l[1], &r[1])] {
                cases.push(pair_case(a.clone(), b.clone(), Pair::Gen(2), o.seed, c13_case));
            }
        }
    }
    for p in if q { 5..=7 } else { 6..=7 } {
        let few = p > 5 && q;
        for a in &operands(p, Tier::Quick)[..if few { 2 } else { 4 }] {
            for b in &operands(p, Tier::Quick)[1..if few { 3 } else { 4 }] {
                cases.push(pair_case(a.clone(), b.clone(), Pair::Gen(1), o.seed, c13_case));
            }
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: append_constrained / prepend_constrained for every pair of constraint sets with fewer than p parameters in total from per-operand alphabets (the meeting end, near it, mid of the last/first span, 1/2, far end, an inner knot), and merge_from / merge_to. Result must keep each curve's constrained points, keep everything of C11 and be the least displacement.".into(),
            bounds: "p <= 5 with 4-10 operand knot vectors per degree, up to p = 7 with few, p <= 3 with spans down to 2^-11 next to the joint, pairs of operands with up to 31 (thorough 46) spans, all subsets of 6 (p > 5: 4) parameters per side; infeasible or ill-conditioned constraint sets (smallest singular value of the conditions below 1e-4) are counted as outside the bound".into(),
            oracle: "constrained minimum-norm displacement in double-double arithmetic; direct evaluation of both curves at the constraint parameters".into(),
            assumptions: vec!["accuracy of the library's SVD solution".into()],
        },
        cases,
    )
}

fn c13_case(rec: &mut Rec, key: &str, a: &Curve, b: &Curve) -> Res {
    let (ma, mb) = (Model::of(a), Model::of(b));
    let p = ma.p;
    let s0 = mag(&ma).max(mag(&mb));
    let (ka, kb) = (kn_of(a), kn_of(b));
    let (ba, bb) = (bits(a), bits(b));
    let da = distinct(&ka.u);
    let db = distinct(&kb.u);
    let la = da[da.len() - 2];
    let fb = db[1];
    let alpha_a = [1.0, 0.5 * (1.0 + la), la + 0.25 * (1.0 - la), la, 0.5, 0.0];
    let alpha_b = [0.0, 0.5 * fb, 0.75 * fb, fb, 0.5, 1.0];
    let uniq = |v: &[f64]| {
        let mut w: Vec<f64> = vec![];
        for x in v {
            if !w.contains(x) {
                w.push(*x);
            }
        }
        w
    };
    let most = if p > 5 { 4 } else { 6 };
    let (sa, sb) = (subsets(&uniq(&alpha_a[..most]), p - 1), subsets(&uniq(&alpha_b[..most]), p - 1));
    for ca in &sa {
        for cb in &sb {
            if ca.len() + cb.len() >= p {
                continue;
            }
            let da: Vec<D> = ca.iter().map(|&x| D::from(x)).collect();
            let db: Vec<D> = cb.iter().map(|&x| D::from(x)).collect();
            let Some(want) = Model::merge(&ma, &mb, &da, &db) else {
                rec.skipped += 1;
                rec.outcome("incompatible constraints");
                continue;
            };
            let moved = want.shift.iter().flatten().map(|x| x.abs().0).fold(0.0, f64::max);
            if want.min_row < 1e-3 || want.smallest < 1e-8 || moved > 1e4 * (s0 + 1e-300) {
                rec.skipped += 1;
                rec.outcome("ill-conditioned constraints");
                continue;
            }
            let mut runs: Vec<(&'static str, Result<Curve, String>)> = vec![];
            {
                let mut x = a.clone();
                runs.push((
                    "append_constrained",
                    call(|| {
                        x.append_constrained(Constraints { params: ca.clone() }, b, Constraints { params: cb.clone() });
                        x
                    }),
                ));
                let mut y = b.clone();
                runs.push((
                    "prepend_constrained",
                    call(|| {
                        y.prepend_constrained(Constraints { params: cb.clone() }, a, Constraints { params: ca.clone() });
                        y
                    }),
                ));
                if ca.len() + cb.len() > 1 {
                    // the order in which constraints are given means nothing
                    let rev = |c: &[f64]| Constraints { params: c.iter().rev().copied().collect() };
                    let mut x = a.clone();
                    runs.push((
                        "append_constrained, constraints in reverse order",
                        call(|| {
                            x.append_constrained(rev(ca), b, rev(cb));
                            x
                        }),
                    ));
                }
                if ca.is_empty() && cb == &[0.0] {
                    runs.push(("merge_to", flat(call(|| merge_to(a, b)))));
                }
                if cb.is_empty() && ca == &[1.0] {
                    runs.push(("merge_from", flat(call(|| merge_from(a, b)))));
                }
            }
            for (name, r) in runs {
                let ex = || format!("{key} -> {name} with constraints {ca:?} on a and {cb:?} on b");
                rec.trans(1);
                let c = match r {
                    Ok(c) => c,
                    Err(e) => return fail(ex(), e),
                };
                unchanged(&ex, &ba, a, "merge (first operand)")?;
                unchanged(&ex, &bb, b, "merge (second operand)")?;
                // derivatives of order p - 1 grow by the inverse power of the span next to the joint
                let pt = tol_merge(p) * 100.0 * (1.0 / 128.0 / (1.0 - la).min(fb)).max(1.0).powi(p as i32 - 1);
                let scale = s0.max(moved);
                let w = Want { m: &want.curve, knots: KnotCmp::Near, pt, s0: scale, kmax: Some(p) };
                agree(rec, &ex, &c, &w, "merged curve")?;
                check_join(rec, &ex, &c, &ma, &mb, pt, scale, "merged curve")?;
                for (op, m, cs, sh) in [("a", &ma, ca, 0.0), ("b", &mb, cb, 0.5)] {
                    for &t in cs {
                        let wantv = m.eval(D::from(t), 0);
                        let mut u = sh + 0.5 * t;
                        if op == "a" && t == 1.0 {
                            u = 0.5;
                        }
                        // at a discontinuity of a (full multiplicity) the value is the right limit on both sides
                        value(rec, &ex, &c, u, 0, &wantv, (pt * 10.0 + 1e-12) * scale, &format!("constrained point of {op} at {t:?}"))?;
                    }
                }
                rec.state(curve_hash(&c));
                rec.outcome(name);
                rec.ok(1);
            }
        }
    }
    rec.max_depth = rec.max_depth.max(1);
    Ok(())
}
fn flat(r: Result<Result<Curve, MergeError>, String>) -> Result<Curve, String> {
    match r {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => Err(format!("refused: {e:?}")),
        Err(e) => Err(e),
    }
}

/// Kinds of operands for the refusal check.
fn specimens(seed: u64) -> Vec<(String, usize, usize, &'static str, Kn)> {
    // (name, p, dim, kind, knots)
    let mut v = vec![];
    for p in [1usize, 2, 3, 4, 6] {
        for dim in [1, 2, 3, 9] {
            if (p == 6) != (dim == 9) && (p == 6 || dim == 9) && dim != 2 {
                continue;
            }
            for (kind, kn) in [
                ("ok", Kn::simple(p, &uniform_inner(40))),
                ("unclamped", {
                    let mut k = Kn::simple(p, &uniform_inner(40));
                    k.u[p] = 0.01;
                    k
                }),
                ("ok", Kn::simple(p, &[])),
                ("ok", Kn::simple(p, &[0.5])),
                ("ok", Kn::simple(p, &[0.2, 0.6])),
                // not clamped at the start / end / both, still spanning [0,1]
                ("unclamped", {
                    let mut k = Kn::simple(p, &[0.5]);
                    k.u[p] = 0.25;
                    k
                }),
                ("unclamped", {
                    let mut k = Kn::simple(p, &[0.5]);
                    let l = k.u.len();
                    k.u[l - 1 - p] = 0.75;
                    k
                }),
                ("unclamped", {
                    let n = 2 * p + 3;
                    Kn { p, u: (0..n).map(|i| i as f64 / (n - 1) as f64).collect() }
                }),
                // by next to nothing
                ("unclamped", {
                    let mut k = Kn::simple(p, &[0.5]);
                    k.u[p] = 1e-13;
                    k
                }),
                ("unclamped", {
                    let mut k = Kn::simple(p, &[]);
                    let l = k.u.len();
                    k.u[l - 1 - p] = next_down(1.0);
                    k
                }),
                ("unnormed", Kn { p, u: Kn::simple(p, &[0.5]).u.iter().map(|x| x * (1.0 + 1e-13)).collect() }),
                ("unnormed", Kn { p, u: Kn::simple(p, &[0.5]).u.iter().map(|x| if *x == 0.0 { -1e-13 } else { *x }).collect() }),
                // clamped on another interval
                ("unnormed", Kn { p, u: Kn::simple(p, &[0.5]).u.iter().map(|x| x * 0.5).collect() }),
                ("unnormed", Kn { p, u: Kn::simple(p, &[0.5]).u.iter().map(|x| x + 0.5).collect() }),
                ("unnormed", Kn { p, u: Kn::simple(p, &[]).u.iter().map(|x| x * 2.0 - 1.0).collect() }),
            ] {
                v.push((format!("{kind} {kn} dim={dim} seed={seed}"), p, dim, kind, kn));
            }
        }
    }
    v
}

pub fn c14(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let sp = Arc::new(specimens(o.seed));
    for i in 0..sp.len() {
        let sp = sp.clone();
        let seed = o.seed;
        cases.push(Case {
            key: format!("first operand: {}", sp[i].0),
            run: Box::new(move |rec| {
                for j in 0..sp.len() {
                    c14_pair(rec, &sp[i], &sp[j], seed)?;
                }
                rec.max_depth = 1;
                rec.sample(|| format!("{} with all {} second operands", sp[i].0, sp.len()));
                Ok(())
            }),
        });
    }
    (
        Meta {
            rule: "State: pair of operands of every kind (admissible, other degree, other dimension, unclamped at start/end/both, clamped on another interval). Transition: one merge request through merge, merge_from, merge_to, append, prepend, append_constrained, prepend_constrained with 0..=p+1 constraints. The expected verdict is computed from the kinds; refusals must carry one of the applicable reasons (the in-place methods have no error channel and refuse by panicking) and leave all operands bitwise unchanged.".into(),
            bounds: "degrees 1..=4 in dimensions 1..=3 and degree 6 in dimensions 2 and 9, 15 operand knot vectors each (up to 41 spans; four of them unclamped or unnormed by one part in 1e13 or less): all ordered pairs".into(),
            oracle: "set of applicable refusal reasons".into(),
            assumptions: vec!["when several reasons apply, any of them is accepted".into()],
        },
        cases,
    )
}

fn raw(kn: &Kn, dim: usize, seed: u64, ex: &str) -> Result<Curve, Fail> {
    let cols = Pts::Gen(dim).cols(kn.n1(), seed);
    match call(|| Curve::new(Knots::new(kn.p, DVector::from_vec(kn.u.clone())), ControlPoints::new(mat(&cols)))) {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => fail(ex, format!("Curve::new refused: {e:?}")),
        Err(e) => fail(ex, e),
    }
}

fn c14_pair(
    rec: &mut Rec,
    x: &(String, usize, usize, &'static str, Kn),
    y: &(String, usize, usize, &'static str, Kn),
    seed: u64,
) -> Res {
    let key = format!("a: {} b: {}", x.0, y.0);
    let a = raw(&x.4, x.2, seed, &key)?;
    let b = raw(&y.4, y.2, seed + 1, &key)?;
    let (ba, bb) = (bits(&a), bits(&b));
    rec.state(curve_hash(&a));
    rec.state(curve_hash(&b));
    let mut h = Hash::new();
    h.s(&key);
    rec.state(h.done());
    let unclamped = x.3 != "ok" || y.3 != "ok";
    let unnormed = x.3 == "unnormed" || y.3 == "unnormed";
    for nc in 0..=x.1 + 1 {
        // nc constraints in total, distributed over both operands
        let k1 = nc / 2;
        let k2 = nc - k1;
        let ca: Vec<f64> = (0..k1).map(|i| 1.0 - 0.1 * i as f64).collect();
        let cb: Vec<f64> = (0..k2).map(|i| 0.1 * i as f64).collect();
        for v in 0..7u8 {
            let name = ["merge", "merge_from", "merge_to", "append", "prepend", "append_constrained", "prepend_constrained"][v as usize];
            if nc > 0 && v < 5 {
                continue;
            }
            let total = match v {
                1 | 2 => 1,
                0 | 3 | 4 => 0,
                _ => nc,
            };
            let ex = || {
                if v < 5 {
                    format!("{key} -> {name}")
                } else {
                    format!("{key} -> {name} with constraints {ca:?} on a and {cb:?} on b")
                }
            };
            let applies = |e: &str| {
                x.1 != y.1 && e.contains("DegreeMismatch")
                    || x.2 != y.2 && e.contains("DimensionMismatch")
                    || unclamped && e.contains("UnclampedCurve")
                    || unnormed && e.contains("UnnormedCurve")
                    || (total >= x.1 || total >= y.1) && e.contains("TooManyConstraints")
            };
            let must = x.1 != y.1 || x.2 != y.2 || unclamped || total >= x.1;
            rec.trans(1);
            let (mut xa, mut xb) = (a.clone(), b.clone());
            let cs = || Constraints { params: ca.clone() };
            let co = || Constraints { params: cb.clone() };
            // Ok(None): refused with text; Ok(Some): a curve
            let r: Result<Result<(), String>, String> = match v {
                0 => call(|| merge(&a, &b).map(|_| ()).map_err(|e| format!("{e:?}"))),
                1 => call(|| merge_from(&a, &b).map(|_| ()).map_err(|e| format!("{e:?}"))),
                2 => call(|| merge_to(&a, &b).map(|_| ()).map_err(|e| format!("{e:?}"))),
                3 => call(|| {
                    xa.append(&b);
                    Ok(())
                }),
                4 => call(|| {
                    xb.prepend(&a);
                    Ok(())
                }),
                5 => call(|| {
                    xa.append_constrained(cs(), &b, co());
                    Ok(())
                }),
                _ => call(|| {
                    xb.prepend_constrained(co(), &a, cs());
                    Ok(())
                }),
            };
            let inplace = v >= 3;
            match r {
                Ok(Ok(())) => {
                    if must {
                        return fail(ex(), "an inadmissible merge produced a curve".to_string());
                    }
                    rec.outcome("merged");
                }
                Ok(Err(e)) => {
                    if !applies(&e) {
                        return fail(ex(), format!("refused with {e}"));
                    }
                    // payload of the errors
                    if e.contains("TooManyConstraints") && ![x.1, y.1].iter().any(|p| e == format!("TooManyConstraints {{ totalConstraints: {total}, degree: {p} }}")) {
                        return fail(ex(), format!("refused with {e} for {total} constraints"));
                    }
                    if x.1 != y.1 && e.contains("DegreeMismatch") && e != format!("DegreeMismatch {{ left: {}, right: {} }}", x.1, y.1) {
                        return fail(ex(), format!("refused with {e}"));
                    }
                    if x.2 != y.2 && e.contains("DimensionMismatch") && e != format!("DimensionMismatch {{ left: {}, right: {} }}", x.2, y.2) {
                        return fail(ex(), format!("refused with {e}"));
                    }
                    rec.outcome("refused with the matching error");
                }
                Err(e) => {
                    // the in-place methods have no error channel: they refuse by panicking
                    if !inplace || !must {
                        return fail(ex(), e);
                    }
                    rec.outcome("in-place refusal");
                }
            }
            if must {
                unchanged(&ex, &ba, &xa, "refused merge (first operand)")?;
                unchanged(&ex, &bb, &xb, "refused merge (second operand)")?;
            }
            unchanged(&ex, &ba, &a, "merge (first operand)")?;
            unchanged(&ex, &bb, &b, "merge (second operand)")?;
        }
    }
    rec.ok(1);
    Ok(())
}
