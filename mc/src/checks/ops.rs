//! C07-C10: insertion, refusals, splitting, reversal.
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::Curve;
use bsplines::manipulation::insert::{insert, InsertError};
use bsplines::manipulation::reverse::{reverse, reversed};
use bsplines::manipulation::split::{split, split_and_normalize, SplitError};
use std::collections::HashSet;

pub fn kn_of(c: &Curve) -> Kn {
    Kn { p: c.degree(), u: c.knots.vector().iter().copied().collect() }
}
fn mult(k: &Kn, t: f64) -> usize {
    k.u.iter().filter(|x| **x == t).count()
}
fn near(k: &Kn, t: f64) -> f64 {
    k.u.iter().map(|x| (x - t).abs()).filter(|d| *d > 0.0).fold(1.0, f64::min)
}

/// All curves reachable by at most `depth` insertions, every step validated.
fn insert_bfs(
    rec: &mut Rec,
    start: &Curve,
    key: &str,
    depth: usize,
    fine: bool,
    visit: &mut dyn FnMut(&mut Rec, &Curve, &str) -> Res,
) -> Res {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut layer = vec![(start.clone(), key.to_string())];
    seen.insert(curve_hash(start));
    rec.state(curve_hash(start));
    visit(rec, start, key)?;
    for d in 1..=depth {
        let mut next = vec![];
        for (c, hist) in &layer {
            let kn = kn_of(c);
            let m = Model::of(c);
            let s0 = mag(&m);
            for t in positions(&kn, fine) {
                let room = kn.p + 1 - mult(&kn, t).min(kn.p + 1);
                let mut want = m.clone();
                if d == 1 {
                    // no insertion at all
                    let ex = || format!("{hist} -> insert_times({t:?}, x=0)");
                    let mut n = c.clone();
                    rec.trans(1);
                    match call(|| n.insert_times(t, 0).map(|_| ())) {
                        // a full knot may be refused
                        Ok(Ok(())) => {}
                        Ok(Err(_)) if room == 0 => {}
                        Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                        Err(e) => return fail(ex(), e),
                    }
                    unchanged(&ex, &bits(c), &n, "no insertion")?;
                }
                for x in 1..=room {
                    want = want.insert(D::from(t));
                    // the API variants only at the first step, single insertions and the largest count later
                    let variants: &[u8] = if d == 1 {
                        if x == 1 {
                            &[0, 1, 2]
                        } else {
                            &[2]
                        }
                    } else if x == 1 {
                        &[0]
                    } else if x == room {
                        &[2]
                    } else {
                        &[]
                    };
                    for &v in variants {
                        let name = ["insert", "manipulation::insert", "insert_times"][v as usize];
                        let ex = || format!("{hist} -> {name}({t:?}, x={x})");
                        let mut n = c.clone();
                        rec.trans(1);
                        let r = match v {
                            0 => call(|| n.insert(t).map(|_| ())),
                            1 => call(|| insert(&mut n, t)),
                            _ => call(|| n.insert_times(t, x).map(|_| ())),
                        };
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
                            Err(e) => return fail(ex(), e),
                        }
                        let w = Want { m: &want, knots: KnotCmp::Exact, pt: 0.0, s0, kmax: Some(kn.p + 1) };
                        agree(rec, &ex, &n, &w, "after insertion")?;
                        rec.ok(1);
                        rec.outcome("inserted");
                        let h = curve_hash(&n);
                        rec.state(h);
                        rec.max_depth = rec.max_depth.max(d);
                        if seen.insert(h) && x == 1 {
                            visit(rec, &n, &ex())?;
                            if d < depth {
                                next.push((n, ex()));
                            }
                        }
                    }
                }
            }
        }
        layer = next;
    }
    Ok(())
}

fn spaces(o: &Opts) -> Vec<(Kn, usize, bool)> {
    let q = o.tier == Tier::Quick;
    let mut v: Vec<(Kn, usize, bool)> = vec![];
    for kn in knot_space(o.tier) {
        v.push((kn, 1, true));
    }
    for kn in small_space(o.tier) {
        if kn.u.len() < 20 {
            v.push((kn, 2, !q));
        }
    }
    if !q {
        for kn in small_space(Tier::Quick) {
            if kn.u.len() < 12 {
                v.push((kn, 3, false));
            }
        }
    }
    v.extend(tail(o).into_iter().map(|k| (k, 0, false)));
    v
}
/// Large sizes, with one operation of every kind and a coarse set of positions.
fn tail(o: &Opts) -> Vec<Kn> {
    let q = o.tier == Tier::Quick;
    tail_space(o.tier).into_iter().filter(|k| if q { k.p < 12 && k.u.len() < 60 } else { k.p < 14 && k.u.len() < 90 }).chain(huge_space(Tier::Quick)).collect()
}

pub fn c07(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    for (kn, depth, fine) in spaces(o) {
        for pts in [Pts::Unit, Pts::Gen(2), Pts::Gen(1), Pts::Const, Pts::Big] {
            if depth > 1 && !(pts == Pts::Gen(2) || (pts == Pts::Unit && depth == 2)) {
                continue;
            }
            // depth 0: the tail
            if depth == 0 && pts != Pts::Gen(2) {
                continue;
            }
            let (pts, depth) = if depth == 0 { (Pts::Gen(9), 1) } else { (pts, depth) };
            let seed = o.seed;
            let key = format!("{kn} P={pts:?} depth={depth}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let c = build(&kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
                    insert_bfs(rec, &c, &key, depth, fine, &mut |_, _, _| Ok(()))?;
                    rec.sample(|| format!("{key}: positions {:?}", positions(&kn, fine)));
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: insert / manipulation::insert / insert_times at every position of the alphabet (span midpoints and off-centre points, every existing knot, knots +-2^-20, +-2^-40, +-1 ulp, recomputed from the current knots), as often as the multiplicity allows. Every successor is compared with the model: knots exactly, control points, all derivatives on every span.".into(),
            bounds: "depth 1 with the fine alphabet on the whole knot space, depth 2 on the small space (quick: coarse positions), depth 3 thorough; one insertion at every coarse position in curves with up to 41 (71) spans and degree 11 (13)".into(),
            oracle: "blossoms of the pre-state's polynomial pieces".into(),
            assumptions: vec![],
        },
        cases,
    )
}

pub fn bad_params() -> Vec<f64> {
    vec![
        f64::NAN,
        -f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        0.0,
        -0.0,
        1.0,
        -f64::from_bits(1),
        -EPS,
        -0.5,
        next_up(1.0),
        1.5,
        2.0,
        1e300,
        f64::MIN,
    ]
}
fn same_f(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn refusals(rec: &mut Rec, c: &Curve, hist: &str) -> Res {
    let kn = kn_of(c);
    let p = kn.p;
    let s0 = mag(&Model::of(c));
    let before = bits(c);
    let full: Vec<f64> = distinct(&kn.u).into_iter().filter(|t| *t > 0.0 && *t < 1.0 && mult(&kn, *t) == p + 1).collect();
    let out = bad_params();
    for (t, oob) in out.iter().map(|t| (*t, true)).chain(full.iter().map(|t| (*t, false))) {
        // insertion
        for v in 0..4u8 {
            let name = ["insert", "manipulation::insert", "insert_times(x=1)", "insert_times(x=3)"][v as usize];
            let ex = || format!("{hist} -> {name} at {t:?}");
            let mut n = c.clone();
            rec.trans(1);
            let r = match v {
                0 => call(|| n.insert(t).map(|_| ())),
                1 => call(|| insert(&mut n, t)),
                2 => call(|| n.insert_times(t, 1).map(|_| ())),
                _ => call(|| n.insert_times(t, 3).map(|_| ())),
            };
            let good = match &r {
                Ok(Err(InsertError::OutOfBounds { u, lower_bound, upper_bound })) => {
                    oob && same_f(*u, t) && *lower_bound == 0.0 && *upper_bound == 1.0
                }
                Ok(Err(InsertError::MultiplicityError { u, m, p: q })) => !oob && *u == t && *m == p + 1 && *q == p,
                _ => false,
            };
            if !good {
                return fail(ex(), format!("{r:?} instead of the {} error", if oob { "out of bounds" } else { "multiplicity" }));
            }
            unchanged(&ex, &before, &n, "refused insertion")?;
            rec.outcome(if oob { "insert out of bounds" } else { "insert multiplicity" });
        }
        for v in 0..6u8 {
            let ex = || format!("{hist} -> split variant {v} at {t:?}");
            rec.trans(1);
            let r = match v {
                0 => call(|| c.split(t).map(|_| ())),
                1 => call(|| split(c, t).map(|_| ())),
                v => call(|| split_and_normalize(c, t, (v & 1 == 1, v & 4 == 4)).map(|_| ())),
            };
            let good = match &r {
                Ok(Err(SplitError::OutOfBounds { u, lower_bound, upper_bound })) => {
                    oob && same_f(*u, t) && *lower_bound == 0.0 && *upper_bound == 1.0
                }
                Ok(Err(SplitError::MultiplicityTooHigh { u, p: q, multiplicity })) => {
                    !oob && *u == t && *multiplicity == p + 1 && *q == p
                }
                _ => false,
            };
            if !good {
                return fail(ex(), format!("{r:?} instead of the {} error", if oob { "out of bounds" } else { "multiplicity" }));
            }
            unchanged(&ex, &before, c, "refused split")?;
            rec.outcome(if oob { "split out of bounds" } else { "split multiplicity" });
        }
        rec.ok(1);
    }
    // multiple insertions refused midway
    for t in positions(&kn, false) {
        let room = p + 1 - mult(&kn, t).min(p + 1);
        if room == 0 {
            continue;
        }
        for x in [room + 1, room + 5] {
            let ex = || format!("{hist} -> insert_times({t:?}, {x})");
            let mut n = c.clone();
            rec.trans(1);
            let r = call(|| n.insert_times(t, x).map(|_| ()));
            let good = matches!(&r, Ok(Err(InsertError::MultiplicityError { u, m, p: q })) if *u == t && *m == p + 1 && *q == p);
            if !good {
                return fail(ex(), format!("{r:?} instead of the multiplicity error"));
            }
            let added = (n.knots.vector().len()).saturating_sub(kn.u.len());
            if added > room {
                return fail(ex(), format!("{added} knots were added, only {room} fit"));
            }
            let mut m = Model::of(c);
            for _ in 0..added {
                m = m.insert(D::from(t));
            }
            let w = Want { m: &m, knots: KnotCmp::Exact, pt: 0.0, s0, kmax: Some(p) };
            agree(rec, &ex, &n, &w, "after a multiple insertion refused midway")?;
            rec.state(curve_hash(&n));
            rec.outcome("multiple insertion refused midway");
            rec.ok(1);
        }
    }
    Ok(())
}

pub fn c08(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let q = o.tier == Tier::Quick;
    let mut v: Vec<(Kn, usize)> = knot_space(o.tier).into_iter().map(|k| (k, 0)).collect();
    v.extend(small_space(o.tier).into_iter().filter(|k| k.u.len() < 20).map(|k| (k, 1)));
    if !q {
        v.extend(small_space(Tier::Quick).into_iter().filter(|k| k.u.len() < 12).map(|k| (k, 2)));
    }
    v.extend(tail(o).into_iter().map(|k| (k, 0)));
    for (kn, depth) in v {
        for pts in [Pts::Gen(2), Pts::Const, Pts::Gen(1), Pts::Big] {
            if depth > 0 && matches!(pts, Pts::Gen(1) | Pts::Big) {
                continue;
            }
            let seed = o.seed;
            let key = format!("{kn} P={pts:?} depth={depth}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let c = build(&kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
                    // also from states after filling up a knot
                    insert_bfs(rec, &c, &key, depth, false, &mut refusals)?;
                    if depth > 0 {
                        for t in positions(&kn, false) {
                            let room = kn.p + 1 - mult(&kn, t).min(kn.p + 1);
                            let mut n = c.clone();
                            if room > 0 && call(|| n.insert_times(t, room).map(|_| ()).is_ok()) == Ok(true) {
                                refusals(rec, &n, &format!("{key} -> insert_times({t:?}, {room})"))?;
                            }
                        }
                    }
                    rec.sample(|| key.clone());
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transitions: every refused request (15 parameters outside (0,1) including NaN and signed zero, every full-multiplicity knot, multiple insertions overflowing the multiplicity) through every insertion and split entry point. Post-state must be bitwise the pre-state; error variant and payload must match.".into(),
            bounds: "whole knot space directly; small space after every single insertion and after filling each position (thorough: after two insertions); curves with up to 41 (71) spans and degree 11 (13)".into(),
            oracle: "bitwise snapshot, multiplicity count, model for the midway case".into(),
            assumptions: vec![],
        },
        cases,
    )
}

/// Split with all four normalization choices and validate both parts.
fn check_split(rec: &mut Rec, c: &Curve, t: f64, hist: &str, out: &mut Vec<(Curve, String)>) -> Res {
    let kn = kn_of(c);
    let m = Model::of(c);
    let s0 = mag(&m);
    let before = bits(c);
    let (ml, mr) = m.split(D::from(t));
    let coarse = near(&kn, t) > 2f64.powi(-44);
    for v in 0..6u8 {
        let norm = if v < 4 { (v & 1 == 1, v & 2 == 2) } else { (true, true) };
        if !coarse && (norm.0 || norm.1) {
            rec.skipped += 1;
            continue;
        }
        let ex = || {
            if v < 4 {
                format!("{hist} -> split_and_normalize({t:?}, {norm:?})")
            } else {
                format!("{hist} -> split{}({t:?})", if v == 4 { "" } else { " (free function)" })
            }
        };
        rec.trans(1);
        let r = match v {
            4 => call(|| c.split(t)),
            5 => call(|| split(c, t)),
            _ => call(|| split_and_normalize(c, t, norm)),
        };
        let (l, r) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail(ex(), format!("refused: {e:?}")),
            Err(e) => return fail(ex(), e),
        };
        unchanged(&ex, &before, c, "split")?;
        for (part, pm, nrm, name) in [(l, &ml, norm.0, "left part"), (r, &mr, norm.1, "right part")] {
            let pm2 = if nrm { pm.normalized() } else { pm.clone() };
            let w = Want {
                m: &pm2,
                knots: if nrm { KnotCmp::Near } else { KnotCmp::Exact },
                pt: 0.0,
                s0,
                kmax: Some(kn.p + 1),
            };
            agree(rec, &ex, &part, &w, name)?;
            if nrm {
                let u = part.knots.vector();
                if u[0] != 0.0 || u[u.len() - 1] != 1.0 {
                    return fail(ex(), format!("{name} is not normalized: {:?}", u.as_slice()));
                }
            }
            rec.state(curve_hash(&part));
            rec.ok(1);
            if v == 4 {
                out.push((part, format!("{} -> {name}", ex())));
            }
        }
        rec.outcome("split");
    }
    Ok(())
}

pub fn c09(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let q = o.tier == Tier::Quick;
    let mut v: Vec<(Kn, usize, bool)> = knot_space(o.tier).into_iter().map(|k| (k, 1, true)).collect();
    v.extend(small_space(o.tier).into_iter().filter(|k| k.u.len() < 20).map(|k| (k, 2, !q)));
    v.extend(tail(o).into_iter().map(|k| (k, 0, false)));
    for (kn, depth, fine) in v {
        for pts in [Pts::Unit, Pts::Gen(2), Pts::Gen(1), Pts::Big] {
            if depth != 1 && pts != Pts::Gen(2) {
                continue;
            }
            let (pts, depth) = if depth == 0 { (Pts::Gen(9), 1) } else { (pts, depth) };
            let seed = o.seed;
            let key = format!("{kn} P={pts:?} depth={depth}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    let c = build(&kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
                    rec.state(curve_hash(&c));
                    let mut starts = vec![(c.clone(), key.clone())];
                    if depth > 1 {
                        // one insertion first
                        for t in positions(&kn, false) {
                            let mut n = c.clone();
                            if call(|| n.insert(t).is_ok()) == Ok(true) {
                                starts.push((n, format!("{key} -> insert({t:?})")));
                            }
                        }
                    }
                    for (si, (s, hist)) in starts.iter().enumerate() {
                        let k2 = kn_of(s);
                        for t in positions(&k2, fine) {
                            if mult(&k2, t) > k2.p {
                                continue;
                            }
                            let mut parts = vec![];
                            check_split(rec, s, t, hist, &mut parts)?;
                            rec.max_depth = rec.max_depth.max(1 + (si > 0) as usize);
                            // split the parts again
                            if depth > 1 && si == 0 && near(&k2, t) > 2f64.powi(-12) {
                                for (part, ph) in parts {
                                    let k3 = kn_of(&part);
                                    for t3 in positions(&k3, false) {
                                        if mult(&k3, t3) <= k3.p {
                                            check_split(rec, &part, t3, &ph, &mut vec![])?;
                                            rec.max_depth = rec.max_depth.max(2);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    rec.sample(|| key.clone());
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: split / split_and_normalize at every admissible position of the alphabet, all four normalization choices and all three entry points; second level: split after every insertion, split of every part. Both parts are compared with the model (knots exactly when not normalized), the original must stay bitwise the same.".into(),
            bounds: "fine positions on the whole knot space at depth 1, small space at depth 2; coarse positions in curves with up to 41 (71) spans and degree 11 (13)".into(),
            oracle: "blossoms of the pre-state's pieces over the sub-intervals".into(),
            assumptions: vec!["normalizing parts whose spans are shorter than 2^-44 is outside the bound".into()],
        },
        cases,
    )
}

fn collapses(kn: &Kn) -> bool {
    kn.u.windows(2).any(|w| w[0] != w[1] && 1.0 - w[0] == 1.0 - w[1])
}

fn check_reverse(rec: &mut Rec, c: &Curve, hist: &str) -> Result<Curve, Fail> {
    let kn = kn_of(c);
    let m = Model::of(c);
    let s0 = mag(&m);
    let want = m.reverse();
    let before = bits(c);
    let mut first: Option<Curve> = None;
    for v in 0..3u8 {
        let ex = || format!("{hist} -> {}", ["reverse()", "manipulation::reverse", "reversed"][v as usize]);
        let mut n = c.clone();
        rec.trans(1);
        let r = match v {
            0 => call(|| {
                n.reverse();
                None
            }),
            1 => call(|| {
                reverse(&mut n);
                None
            }),
            _ => call(|| Some(reversed(c))),
        };
        match r {
            Ok(None) => {}
            Ok(Some(x)) => {
                n = x;
                unchanged(&ex, &before, c, "reversed")?;
            }
            Err(e) => return fail(ex(), e),
        }
        let w = Want { m: &want, knots: KnotCmp::Near, pt: 0.0, s0, kmax: Some(kn.p + 1) };
        agree(rec, &ex, &n, &w, "after reversal")?;
        let u = n.knots.vector();
        if u[0] != 0.0 || u[u.len() - 1] != 1.0 {
            return fail(ex(), format!("knots not normed: {:?}", u.as_slice()));
        }
        rec.state(curve_hash(&n));
        rec.ok(1);
        if let Some(f) = &first {
            if bits(f) != bits(&n) {
                return fail(ex(), "reverse variants disagree".to_string());
            }
        } else {
            // twice
            let mut t = n.clone();
            let ex2 = || format!("{} -> reverse()", ex());
            if let Err(e) = call(|| {
                t.reverse();
            }) {
                return fail(ex2(), e);
            }
            rec.trans(1);
            let w = Want { m: &m, knots: KnotCmp::Near, pt: 0.0, s0, kmax: Some(kn.p) };
            agree(rec, &ex2, &t, &w, "after reversing twice")?;
            rec.state(curve_hash(&t));
            rec.ok(1);
            first = Some(n);
        }
    }
    Ok(first.unwrap())
}

pub fn c10(o: &Opts) -> (Meta, Vec<Case>) {
    let mut cases = vec![];
    let mut v: Vec<(Kn, bool)> = knot_space(o.tier).into_iter().map(|k| (k, false)).collect();
    v.extend(small_space(o.tier).into_iter().filter(|k| k.u.len() < 20).map(|k| (k, true)));
    v.extend(tail_space(o.tier).into_iter().map(|k| (k, false)));
    v.extend(huge_space(o.tier).into_iter().map(|k| (k, false)));
    for (kn, deep) in v {
        for pts in [Pts::Unit, Pts::Gen(2), Pts::Gen(3), Pts::Closed, Pts::Far, Pts::Mixed] {
            if (deep || kn.n1() > 290) && pts != Pts::Gen(2) {
                continue;
            }
            let seed = o.seed;
            let key = format!("{kn} P={pts:?} deep={deep}");
            let kn = kn.clone();
            cases.push(Case {
                key: key.clone(),
                run: Box::new(move |rec| {
                    if collapses(&kn) {
                        rec.skipped += 1;
                        return Ok(());
                    }
                    let c = build(&kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
                    rec.state(curve_hash(&c));
                    check_reverse(rec, &c, &key)?;
                    if deep {
                        // after other manipulations: insertion, split, derivative step, reverse-insert-reverse
                        for t in positions(&kn, false) {
                            let mut n = c.clone();
                            let h = format!("{key} -> insert({t:?})");
                            if call(|| n.insert(t).is_ok()) == Ok(true) && !collapses(&kn_of(&n)) {
                                let mut r = check_reverse(rec, &n, &h)?;
                                let before = Model::of(&r);
                                let s0 = mag(&before);
                                let k2 = kn_of(&r);
                                let t2 = 0.5 * (k2.u[k2.p] + k2.u[k2.p + 1]);
                                if t2 > 0.0 && call(|| r.insert(t2).is_ok()) == Ok(true) {
                                    let ex = || format!("{h} -> reverse -> insert({t2:?})");
                                    let w = before.insert(D::from(t2));
                                    let w = Want { m: &w, knots: KnotCmp::Exact, pt: 0.0, s0, kmax: Some(k2.p) };
                                    agree(rec, &ex, &r, &w, "insertion after reversal")?;
                                    if !collapses(&kn_of(&r)) {
                                        check_reverse(rec, &r, &ex())?;
                                    }
                                }
                            }
                            if mult(&kn, t) <= kn.p && near(&kn, t) > 2f64.powi(-12) {
                                if let Ok(Ok((l, r))) = call(|| c.split(t)) {
                                    for (part, nm) in [(l, "left"), (r, "right")] {
                                        check_reverse(rec, &part, &format!("{key} -> split({t:?}) {nm}"))?;
                                    }
                                }
                            }
                        }
                        if kn.max_mult() <= kn.p {
                            for k in 1..=kn.p {
                                if kn.max_mult() + k > kn.p + 1 {
                                    break;
                                }
                                if let Ok(d) = call(|| c.get_derivative_curve(k)) {
                                    check_reverse(rec, &d, &format!("{key} -> get_derivative_curve({k})"))?;
                                }
                            }
                        }
                    }
                    rec.sample(|| key.clone());
                    Ok(())
                }),
            });
        }
    }
    (
        Meta {
            rule: "State: complete curve. Transition: reverse (method, free function, copying variant), also twice and after insertions, splits and derivative steps. Each post-state is compared with the model's reversal: knots 1-x, all control points, every derivative order on every span.".into(),
            bounds: "whole knot space; small space after one further manipulation; curves with up to 71 (131) spans and degree 12 (16)".into(),
            oracle: "model with knots 1-x and mirrored control points".into(),
            assumptions: vec!["knots that 1-x maps to the same double are outside the bound".into()],
        },
        cases,
    )
}
