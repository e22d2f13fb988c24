//! C26: containers under edits. C27: affine equivariance of every operation. C28: independent operations commute.
use super::merge::tol_merge;
use super::ops::kn_of;
use crate::cmp::*;
use crate::dd::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::{fit, interpolation};
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::Curve;
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints};
use bsplines::manipulation::reverse::reversed;
use bsplines::manipulation::split::split_and_normalize;
use bsplines::types::{VecD, VecHelpers};
use nalgebra::{DMatrix, DVector};
use std::collections::HashSet;

// ------------------------------------------------------------------------------------------------ C26

/// Degree and knots of a derivation.
fn derivations(n1: usize) -> Vec<Kn> {
    let n = n1 - 1;
    let mut v = vec![];
    for p in 1..=n.min(4) {
        let inner = n - p;
        v.push(Kn::simple(p, &uniform_inner(inner)));
        if inner > 0 {
            // all interior knots at one place (multiplicity at most p+1), plus an unnormed and an unclamped vector
            if inner <= p + 1 {
                v.push(Kn::clamped(p, &[0.3], &[inner]));
            }
            v.push(Kn { p, u: Kn::simple(p, &golden(inner)).u.iter().map(|x| 0.25 + 0.5 * x).collect() });
            v.push(Kn { p, u: (0..n + p + 2).map(|i| i as f64 / (n + p + 1) as f64).collect() });
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum PointOp {
    Derive(usize),
    Reverse,
    /// get_mut of point i
    Set(usize),
    /// whole matrix through matrix_mut
    Scale,
    /// one entry of the highest available order
    SetDerived,
    Copy,
}

fn snapshot(p: &ControlPoints) -> Vec<DMatrix<f64>> {
    (0..=p.max_derivative()).map(|k| p.matrix_derivative(k).clone()).collect()
}
fn same_bits(a: &DMatrix<f64>, b: &DMatrix<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || (*x == 0.0 && *y == 0.0))
}
fn mhash(tag: &str, ms: &[DMatrix<f64>]) -> u128 {
    let mut h = Hash::new();
    h.s(tag);
    for m in ms {
        h.u(m.nrows() as u64).u(m.ncols() as u64).fs(m.iter());
    }
    h.done()
}

/// All views of the container agree with the orders it holds.
fn views(ex: Ex, p: &ControlPoints, want: &[DMatrix<f64>]) -> Res {
    let r = call(|| -> Result<(), String> {
        let m = &want[0];
        if p.max_derivative() + 1 != want.len() {
            return Err(format!("max_derivative() = {}, {} orders were derived", p.max_derivative(), want.len() - 1));
        }
        if !same_bits(p.matrix(), m) {
            return Err(format!("matrix() is {} instead of {}", p.matrix(), m));
        }
        if p.dimension() != m.nrows() || p.count() != m.ncols() || p.segments() + 1 != m.ncols() || p.is_empty() != m.is_empty() {
            return Err(format!(
                "dimension {} count {} segments {} empty {} for a {}x{} matrix",
                p.dimension(),
                p.count(),
                p.segments(),
                p.is_empty(),
                m.nrows(),
                m.ncols()
            ));
        }
        if Points::count(p) != m.ncols() {
            return Err(format!("Points::count() = {}", Points::count(p)));
        }
        for i in 0..m.ncols() {
            let c = p.get(i);
            if c.len() != m.nrows() || (0..m.nrows()).any(|x| c[x].to_bits() != m[(x, i)].to_bits()) {
                return Err(format!("get({i}) is {c}"));
            }
        }
        for (k, w) in want.iter().enumerate() {
            if p.count_derivative(k) != w.ncols() {
                return Err(format!("count_derivative({k}) = {} instead of {}", p.count_derivative(k), w.ncols()));
            }
            if !same_bits(p.matrix_derivative(k), w) {
                return Err(format!("matrix_derivative({k}) is {} instead of {w}", p.matrix_derivative(k)));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => fail(ex(), e),
    }
}

fn point_step(rec: &mut Rec, p: &mut ControlPoints, op: PointOp, ds: &[Kn], ex: Ex) -> Result<bool, Fail> {
    let pre = snapshot(p);
    let mut want = pre.clone();
    rec.trans(1);
    match op {
        PointOp::Derive(j) => {
            let kn = &ds[j];
            let knots = kn.knots();
            if let Err(e) = call(|| p.derive(&knots)) {
                return fail(ex(), e);
            }
            rec.outcome("derived");
            let m = Model::new(kn.p, &kn.u, cols_of(&pre[0]));
            let b = Bound::new(&m, 0.0, 0.0, 0.0);
            let post = match call(|| snapshot(p)) {
                Ok(s) => s,
                Err(e) => return fail(ex(), e),
            };
            if post.len() != kn.p + 1 {
                return fail(ex(), format!("{} orders derived instead of {}", post.len() - 1, kn.p));
            }
            if !same_bits(&post[0], &pre[0]) {
                return fail(ex(), "deriving changed the control points".to_string());
            }
            let mut dm = m;
            for (k, got) in post.iter().enumerate() {
                if k > 0 {
                    dm = dm.derive();
                }
                if got.shape() != (dm.dim(), dm.pts.len()) {
                    return fail(ex(), format!("order {k} has shape {:?} instead of {:?}", got.shape(), (dm.dim(), dm.pts.len())));
                }
                for i in 0..dm.pts.len() {
                    for x in 0..dm.dim() {
                        let err = (D::from(got[(x, i)]) - dm.pts[i][x]).abs().0;
                        if !rec.within(err, b.order(k, i)) {
                            return fail(
                                ex(),
                                format!("order {k} point {i} coordinate {x} is {:?} instead of {:?}", got[(x, i)], dm.pts[i][x].f()),
                            );
                        }
                    }
                }
            }
            // an order that was not derived from these knots must not be handed out
            if call(|| p.matrix_derivative(kn.p + 1).clone()).is_ok() {
                return fail(ex(), format!("order {} is still available", kn.p + 1));
            }
            want = post;
        }
        PointOp::Reverse => {
            if let Err(e) = call(|| {
                p.reverse();
            }) {
                return fail(ex(), e);
            }
            for (k, w) in want.iter_mut().enumerate() {
                let n = w.ncols();
                let s = if k % 2 == 1 { -1.0 } else { 1.0 };
                *w = DMatrix::from_fn(w.nrows(), n, |r, c| s * pre[k][(r, n - 1 - c)]);
            }
            rec.outcome("reversed");
        }
        PointOp::Set(i) => {
            if i >= pre[0].ncols() {
                return Ok(false);
            }
            if let Err(e) = call(|| {
                let mut v = p.get_mut(i);
                for x in 0..v.len() {
                    v[x] = 100.0 + x as f64;
                }
            }) {
                return fail(ex(), e);
            }
            for x in 0..want[0].nrows() {
                want[0][(x, i)] = 100.0 + x as f64;
            }
            rec.outcome("edited");
        }
        PointOp::Scale => {
            if let Err(e) = call(|| {
                for x in p.matrix_mut().iter_mut() {
                    *x *= 4.0;
                }
            }) {
                return fail(ex(), e);
            }
            want[0] *= 4.0;
            rec.outcome("edited");
        }
        PointOp::SetDerived => {
            let k = pre.len() - 1;
            let c = pre[k].ncols() - 1;
            if let Err(e) = call(|| p.matrix_derivative_mut(k)[(0, c)] = -7.0) {
                return fail(ex(), e);
            }
            want[k][(0, c)] = -7.0;
            rec.outcome("edited");
        }
        PointOp::Copy => {
            let q = p.clone();
            let mut q2 = p.clone();
            if q != *p {
                return fail(ex(), "a clone differs from the original".to_string());
            }
            q2.matrix_mut()[(0, 0)] += 1.0;
            if q2 == *p {
                return fail(ex(), "editing a clone edits the original, or equality ignores a difference".to_string());
            }
            rec.outcome("cloned");
        }
    }
    views(ex, p, &want)?;
    rec.ok(1);
    Ok(true)
}

fn container_case(rec: &mut Rec, n1: usize, pts: Pts, seed: u64, depth: usize) -> Res {
    let cols = pts.cols(n1, seed);
    let m = mat(&cols);
    let ds = derivations(n1);
    let key = format!("ControlPoints {n1} {pts:?}");
    for cap in 0..=4 {
        let (a, b) = (ControlPoints::new(m.clone()), ControlPoints::new_with_capacity(m.clone(), cap));
        if a != b {
            return fail(format!("{key} capacity {cap}"), "new and new_with_capacity differ");
        }
    }
    let mut ops: Vec<PointOp> = (0..ds.len()).map(PointOp::Derive).collect();
    ops.extend([PointOp::Reverse, PointOp::Set(0), PointOp::Set(n1 - 1), PointOp::Scale, PointOp::SetDerived, PointOp::Copy]);
    let mut layer = vec![(ControlPoints::new(m), key)];
    let mut seen = HashSet::new();
    for d in 1..=depth {
        let mut next = vec![];
        for (p, hist) in &layer {
            for &op in &ops {
                let name = match op {
                    PointOp::Derive(j) => format!("{hist} -> derive({})", ds[j]),
                    o => format!("{hist} -> {o:?}"),
                };
                let ex = || name.clone();
                let mut q = p.clone();
                if !point_step(rec, &mut q, op, &ds, &ex)? {
                    continue;
                }
                rec.max_depth = rec.max_depth.max(d);
                let h = mhash("cp", &snapshot(&q));
                rec.state(h);
                if seen.insert(h) && d < depth {
                    next.push((q, name));
                }
            }
        }
        layer = next;
    }
    rec.sample(|| format!("control points {n1} x {pts:?}: all sequences of {} operations up to depth {depth}", ops.len()));
    Ok(())
}

fn data_case(rec: &mut Rec, n1: usize, pts: Pts, seed: u64) -> Res {
    let m = mat(&pts.cols(n1, seed));
    let ex = || format!("DataPoints {n1} {pts:?}");
    let flipped = DMatrix::from_fn(m.nrows(), n1, |r, c| m[(r, n1 - 1 - c)]);
    let mut d = DataPoints::new(m.clone());
    for round in 0..3 {
        let want = if round % 2 == 0 { &m } else { &flipped };
        if !same_bits(d.matrix(), want) {
            return fail(ex(), format!("after {round} reversals: {}", d.matrix()));
        }
        if d.count() != n1 || d.segments() + 1 != n1 || d.dimension() != m.nrows() || d.is_empty() {
            return fail(ex(), "wrong count, segments, dimension or emptiness");
        }
        for i in 0..n1 {
            if d.get(i).iter().zip(want.column(i).iter()).any(|(a, b)| a != b) {
                return fail(ex(), format!("get({i}) is {}", d.get(i)));
            }
        }
        rec.trans(1);
        rec.ok(1);
        rec.state(mhash("dp", &[d.matrix().clone()]));
        d.reverse();
    }
    for i in 0..n1 {
        let mut e = DataPoints::new(m.clone());
        e.get_mut(i)[0] = 55.0;
        let mut w = m.clone();
        w[(0, i)] = 55.0;
        if !same_bits(e.matrix(), &w) {
            return fail(ex(), format!("get_mut({i}) edited {}", e.matrix()));
        }
        e.matrix_mut()[(0, i)] = m[(0, i)];
        if e != DataPoints::new(m.clone()) {
            return fail(ex(), "equality after undoing an edit".to_string());
        }
        rec.trans(2);
        rec.ok(2);
    }
    Ok(())
}

/// Vector views, parameters and constraints.
fn vector_case(rec: &mut Rec) -> Res {
    for n in 0..=8usize {
        let v: VecD = DVector::from_iterator(n, (0..n).map(|i| i as f64 * 1.5 - 2.0));
        for i in 0..=n {
            for len in 0..=n - i {
                let ex = || format!("VecHelpers {n} start {i} length {len}");
                let want = &v.as_slice()[i..i + len];
                let mut got: Vec<Vec<f64>> = vec![VecHelpers::segment(&v, i, len).iter().copied().collect()];
                if i == 0 {
                    got.push(v.head(len).iter().copied().collect());
                }
                if i + len == n {
                    got.push(v.tail(len).iter().copied().collect());
                }
                for g in got {
                    rec.trans(1);
                    if g != want {
                        return fail(ex(), format!("{g:?} instead of {want:?}"));
                    }
                }
                let edit = |kind: usize| -> VecD {
                    let mut w = v.clone();
                    match kind {
                        0 => VecHelpers::segment_mut(&mut w, i, len).fill(9.0),
                        1 => w.head_mut(len).fill(9.0),
                        _ => w.tail_mut(len).fill(9.0),
                    }
                    w
                };
                let mut w = v.clone();
                for x in i..i + len {
                    w[x] = 9.0;
                }
                let mut kinds = vec![0];
                if i == 0 {
                    kinds.push(1);
                }
                if i + len == n {
                    kinds.push(2);
                }
                for k in kinds {
                    rec.trans(1);
                    if edit(k) != w {
                        return fail(ex(), format!("mutable view {k} wrote {}", edit(k)));
                    }
                }
                rec.ok(1);
                let mut h = Hash::new();
                h.s("vec").u(n as u64).u(i as u64).u(len as u64);
                rec.state(h.done());
            }
        }
        if n > 0 {
            let p = Parameters::new(v.clone(), n - 1);
            if p.vector() != &v || p.segments() != n - 1 {
                return fail(format!("Parameters of {n}"), "parameters do not return what they were given");
            }
            let c = Constraints { params: v.as_slice().to_vec() };
            if c.count() != n || c.segments() != n - 1 {
                return fail(format!("Constraints of {n}"), "wrong count");
            }
            rec.trans(2);
            rec.ok(2);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum KnotOp {
    Derive,
    Normalize,
    Rescale(f64, f64, f64, f64),
    /// one entry of the knots themselves
    Set(usize, f64),
    /// one entry of a derivative knot vector
    SetOrder(usize, usize, f64),
    Copy,
}

/// All views of the knots agree with the orders they hold.
fn knot_views(ex: Ex, kn: &Knots, p: usize, want: &[Vec<f64>], tol: f64) -> Res {
    let near = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol);
    let col = |v: &VecD| v.iter().copied().collect::<Vec<f64>>();
    let r = call(|| -> Result<(), String> {
        let n = want[0].len() - p - 2;
        if kn.degree() != p || kn.max_derivative() != p || kn.segments() != n {
            return Err(format!("degree {} max_derivative {} segments {} for p={p} n={n}", kn.degree(), kn.max_derivative(), kn.segments()));
        }
        if !near(&col(kn.vector()), &want[0]) {
            return Err(format!("vector() is {:?} instead of {:?}", col(kn.vector()), want[0]));
        }
        for (k, w) in want.iter().enumerate() {
            let v = col(kn.vector_derivative(k));
            if !near(&v, w) {
                return Err(format!("vector_derivative({k}) is {v:?} instead of {w:?}"));
            }
            if kn.len(k) != w.len() || kn.segments_derivative(k) != n {
                return Err(format!("len({k}) = {}, segments_derivative({k}) = {}", kn.len(k), kn.segments_derivative(k)));
            }
            let d: Vec<f64> = kn.domain_derivative(k).iter().copied().collect();
            if d != v[p - k..p - k + n - p + 2] {
                return Err(format!("domain_derivative({k}) is {d:?} of {v:?}"));
            }
        }
        let u = col(kn.vector());
        let (dom, inner) = (&u[p..n + 2], &u[p + 1..n + 1]);
        if kn.domain().iter().ne(dom.iter()) || kn.internal().iter().ne(inner.iter()) {
            return Err(format!("domain {:?}, internal {:?} of {u:?}", kn.domain(), kn.internal()));
        }
        if kn.domain_count() != dom.len() || kn.internal_count() != inner.len() {
            return Err(format!("domain_count {} internal_count {}", kn.domain_count(), kn.internal_count()));
        }
        if (0..dom.len()).any(|i| kn.domain_knot(i) != dom[i]) || (0..inner.len()).any(|i| kn.internal_knot(i) != inner[i]) {
            return Err("domain_knot or internal_knot".to_string());
        }
        for x in dom {
            if kn.multiplicity(*x) != dom.iter().filter(|y| *y == x).count() {
                return Err(format!("multiplicity({x}) = {}", kn.multiplicity(*x)));
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) | Err(e) => fail(ex(), e),
    }
}

/// Knots with all their orders as a state machine.
fn knots_case(rec: &mut Rec, kn: &Kn, depth: usize) -> Res {
    let p = kn.p;
    let orders = |u: &Vec<f64>| -> Vec<Vec<f64>> { (0..=p).map(|k| u[k..u.len() - k].to_vec()).collect() };
    let key = format!("Knots {kn}");
    let k0 = match call(|| kn.knots()) {
        Ok(k) => k,
        Err(e) => return fail(key, e),
    };
    knot_views(&|| key.clone(), &k0, p, &orders(&kn.u), 0.0)?;
    let len = kn.u.len();
    let mut ops = vec![
        KnotOp::Derive,
        KnotOp::Normalize,
        KnotOp::Rescale(0.0, 1.0, -1.0, 3.0),
        KnotOp::Rescale(-1.0, 3.0, 0.0, 1.0),
        KnotOp::Rescale(0.25, 0.5, 2.0, 2.5),
        KnotOp::Set(0, -0.5),
        KnotOp::Set(p, -0.25),
        KnotOp::Set(len / 2, 0.4375),
        KnotOp::Set(len - 1, 1.5),
        KnotOp::Copy,
    ];
    for k in 1..=p {
        ops.push(KnotOp::SetOrder(k, 0, -0.125));
        ops.push(KnotOp::SetOrder(k, len - 2 * k - 1, 1.25));
    }
    let mut layer = vec![(k0, orders(&kn.u), key)];
    let mut seen = HashSet::new();
    for d in 1..=depth {
        let mut next = vec![];
        for (k, w, hist) in &layer {
            for &op in &ops {
                let ex = || format!("{hist} -> {op:?}");
                let mut n = k.clone();
                let mut w = w.clone();
                rec.trans(1);
                let (lo, hi) = w[0].iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x)));
                let mut moved = None;
                let r = call(|| match op {
                    KnotOp::Derive => n.derive(),
                    KnotOp::Normalize => {
                        n.normalize();
                    }
                    KnotOp::Rescale(a, b, c, d) => n.rescale((a, b), (c, d)),
                    KnotOp::Set(i, x) => n.vector_mut()[i] = x,
                    KnotOp::SetOrder(o, i, x) => n.vector_derivative_mut(o)[i] = x,
                    KnotOp::Copy => {
                        let mut c = n.clone();
                        c.vector_mut()[0] = 77.0;
                        c.vector_derivative_mut(p)[0] = 78.0;
                        c.normalize();
                    }
                });
                if let Err(e) = r {
                    return fail(ex(), e);
                }
                match op {
                    KnotOp::Derive => w = orders(&w[0]),
                    KnotOp::Normalize => moved = Some((lo, hi, 0.0, 1.0)),
                    KnotOp::Rescale(a, b, c, d) => moved = Some((a, b, c, d)),
                    KnotOp::Set(i, x) => w[0][i] = x,
                    KnotOp::SetOrder(o, i, x) => w[o][i] = x,
                    KnotOp::Copy => {}
                }
                let mut tol = 0.0;
                if let Some((a, b, c, d)) = moved {
                    let f = (D::from(d) - D::from(c)) / (D::from(b) - D::from(a));
                    let mut m = 1.0f64;
                    for x in w.iter_mut().flatten() {
                        let y = ((D::from(*x) - D::from(a)) * f + D::from(c)).f();
                        m = m.max(y.abs()).max(x.abs() * f.f().abs());
                        *x = y;
                    }
                    tol = 16.0 * EPS * m.max(c.abs()).max(d.abs()).max(a.abs() * f.f().abs());
                }
                knot_views(&ex, &n, p, &w, tol)?;
                rec.ok(1);
                rec.outcome("knots edited");
                rec.max_depth = rec.max_depth.max(d);
                // continue from what is really there
                let w: Vec<Vec<f64>> = (0..=p).map(|k| n.vector_derivative(k).iter().copied().collect()).collect();
                let mut h = Hash::new();
                h.s("knots").u(p as u64);
                for v in &w {
                    h.u(v.len() as u64).fs(v.iter());
                }
                let h = h.done();
                rec.state(h);
                if seen.insert(h) && d < depth {
                    next.push((n, w, ex()));
                }
            }
        }
        layer = next;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Edit {
    /// move one control point, then derive
    Point(usize),
    /// move one interior knot within its neighbours, then derive
    Knot(usize),
    /// map the knots to another interval and back
    Rescale(f64, f64),
    Reverse,
    DeriveAgain,
}

/// Editing the public parts of a curve and deriving again gives the curve of the edited parts.
fn edit_case(rec: &mut Rec, kn: &Kn, pts: Pts, seed: u64, depth: usize) -> Res {
    let key = format!("{kn} P={pts:?}");
    let c0 = build(kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
    let mut layer = vec![(c0, key)];
    let mut seen = HashSet::new();
    for d in 1..=depth {
        let mut next = vec![];
        for (c, hist) in &layer {
            let k = kn_of(c);
            let n1 = k.n1();
            let mut ops = vec![Edit::Point(0), Edit::Point(n1 / 2), Edit::Point(n1 - 1), Edit::Reverse, Edit::DeriveAgain, Edit::Rescale(-1.0, 3.0)];
            for i in k.p + 1..n1 {
                ops.push(Edit::Knot(i));
            }
            for op in ops {
                let ex = || format!("{hist} -> {op:?}");
                let mut m = Model::of(c);
                let mut n = c.clone();
                rec.trans(1);
                let r = call(|| match op {
                    Edit::Point(i) => {
                        for x in n.points.get_mut(i).iter_mut() {
                            *x = *x * 0.5 + 3.0;
                        }
                        n.points.derive(&n.knots);
                    }
                    Edit::Knot(i) => {
                        let u = n.knots.vector();
                        let (a, b) = (u[i - 1], u[i + 1]);
                        n.knots.vector_mut()[i] = 0.5 * (a + b);
                        n.knots.derive();
                        n.points.derive(&n.knots);
                    }
                    Edit::Rescale(a, b) => {
                        n.knots.rescale((0.0, 1.0), (a, b));
                        n.points.derive(&n.knots);
                        let ku: Vec<f64> = n.knots.vector().iter().copied().collect();
                        if ku[0] != a || ku[ku.len() - 1] != b {
                            panic!("rescaled knots {ku:?}");
                        }
                        n.knots.normalize();
                        n.points.derive(&n.knots);
                    }
                    Edit::Reverse => {
                        n.reverse();
                        n.points.derive(&n.knots);
                    }
                    Edit::DeriveAgain => {
                        n.knots.derive();
                        n.points.derive(&n.knots);
                    }
                });
                if let Err(e) = r {
                    return fail(ex(), e);
                }
                let mut cmp = KnotCmp::Exact;
                match op {
                    Edit::Point(i) => {
                        for x in 0..m.dim() {
                            m.pts[i][x] = D::from(c.points.matrix()[(x, i)] * 0.5 + 3.0);
                        }
                    }
                    Edit::Knot(i) => m.u[i] = D::from(0.5 * (k.u[i - 1] + k.u[i + 1])),
                    Edit::Reverse => {
                        m = m.reverse();
                        cmp = KnotCmp::Near;
                    }
                    Edit::Rescale(..) => cmp = KnotCmp::Near,
                    Edit::DeriveAgain => {}
                }
                // a knot moved onto others may exceed the admissible multiplicity
                let mk: Vec<f64> = m.u.iter().map(|x| x.f()).collect();
                if (Kn { p: k.p, u: mk }).max_mult() > k.p + 1 {
                    rec.skipped += 1;
                    continue;
                }
                let s0 = mag(&m);
                agree(rec, &ex, &n, &Want { m: &m, knots: cmp, pt: 0.0, s0, kmax: Some(k.p + 1) }, "after editing")?;
                rec.ok(1);
                rec.outcome("curve edited");
                rec.max_depth = rec.max_depth.max(d);
                let h = curve_hash(&n);
                rec.state(h);
                if seen.insert(h) && d < depth {
                    next.push((n, ex()));
                }
            }
        }
        layer = next;
    }
    Ok(())
}

/// The unnormalized parts of a split become the normalized ones through the public interface.
fn halves_case(rec: &mut Rec, kn: &Kn, seed: u64) -> Res {
    let key = format!("{kn} halves");
    let c = build(kn, &Pts::Gen(2).cols(kn.n1(), seed), &|| key.clone())?;
    for t in positions(kn, false) {
        if kn.u.iter().filter(|x| **x == t).count() > kn.p || kn.u.iter().any(|x| *x != t && (x - t).abs() < 1e-9) {
            continue;
        }
        let ex = || format!("{key} -> split_and_normalize({t:?}, (false, false)) -> normalize, derive");
        rec.trans(1);
        let r = call(|| {
            let (l, r) = split_and_normalize(&c, t, (false, false)).unwrap();
            let mut v = vec![];
            for mut x in [l, r] {
                x.knots.normalize();
                x.points.derive(&x.knots);
                v.push(x);
            }
            v
        });
        let parts = r.or_else(|e| fail(ex(), e))?;
        let (ml, mr) = Model::of(&c).split(D::from(t));
        let s0 = mag(&Model::of(&c));
        for (x, w) in parts.iter().zip([ml.normalized(), mr.normalized()]) {
            agree(rec, &ex, x, &Want { m: &w, knots: KnotCmp::Near, pt: 0.0, s0, kmax: Some(kn.p) }, "normalized half")?;
            rec.ok(1);
            rec.state(curve_hash(x));
        }
    }
    Ok(())
}

pub fn c26(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    for n1 in 2..=o.tier.pick(6, 8, 10) {
        for pts in [Pts::Unit, Pts::Gen(1), Pts::Gen(3), Pts::Big, Pts::Tiny, Pts::Const, Pts::Neg0] {
            let depth = match (q, n1) {
                (_, 2) => 4,
                (true, _) => 3,
                (false, 3..=5) => 4,
                (false, _) => 3,
            };
            cases.push(Case { key: format!("points {n1} {pts:?}"), run: Box::new(move |r| container_case(r, n1, pts, seed, depth)) });
        }
    }
    for n1 in 1..=12 {
        for pts in ALL_PTS {
            cases.push(Case { key: format!("data {n1} {pts:?}"), run: Box::new(move |r| data_case(r, n1, pts, seed)) });
        }
    }
    cases.push(Case { key: "vectors".into(), run: Box::new(vector_case) });
    for kn in small_space(o.tier).into_iter().chain([Kn { p: 2, u: (0..9).map(|i| i as f64 * 0.125).collect() }, Kn { p: 0, u: vec![0.0, 0.5, 1.0] }]) {
        if kn.u.len() > 16 {
            continue;
        }
        let depth = o.tier.pick(2, 2, 3);
        let k2 = kn.clone();
        cases.push(Case { key: format!("knots {kn}"), run: Box::new(move |r| knots_case(r, &k2, depth + 1)) });
        if kn.p == 0 || kn.u[0] != kn.u[kn.p] {
            continue;
        }
        let k2 = kn.clone();
        cases.push(Case { key: format!("edit {kn}"), run: Box::new(move |r| edit_case(r, &k2, Pts::Gen(2), seed, depth)) });
        cases.push(Case { key: format!("halves {kn}"), run: Box::new(move |r| halves_case(r, &kn, seed)) });
    }
    (
        Meta {
            rule: "State: a control point container with all its orders (or a data set, a vector, a curve). Transitions: derive over every knot vector of the alphabet (several degrees, repeated, unnormed and unclamped knots), reverse, editing points, whole matrices and derived orders, clone; for curves: moving a control point or a knot, rescaling and normalizing, reversing, followed by deriving. After every transition every view and every order is compared with the model of the pre-state.".into(),
            bounds: format!("2..{} control points, all operation sequences of length 3 (4 for small sizes); knots of the small space, all sequences of {} of 10 + 2p edits, derivations and rescalings; curve edits of the small space to depth {}; vectors up to length 8 with every start and length; data sets of 1..12 points", o.tier.pick(6, 8, 10), o.tier.pick(3, 3, 4), o.tier.pick(2, 2, 3)),
            oracle: "container model, divided differences in double-double arithmetic, blossom model".into(),
            assumptions: vec![],
        },
        cases,
    )
}

// ------------------------------------------------------------------------------------------------ C27

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tf {
    /// only coordinate x
    Row(usize),
    /// s * P + t
    Affine(f64, f64),
    /// swap the first two coordinates and negate the first
    Turn,
    /// append zero coordinates and a copy of the first coordinate
    Pad,
}
impl Tf {
    fn apply(self, m: &DMatrix<f64>, linear: bool) -> DMatrix<f64> {
        match self {
            Tf::Row(x) => m.rows(x, 1).into_owned(),
            Tf::Affine(s, t) => m.map(|v| v * s + if linear { 0.0 } else { t }),
            Tf::Turn => DMatrix::from_fn(m.nrows(), m.ncols(), |r, c| match r {
                0 => -m[(1, c)],
                1 => m[(0, c)],
                r => m[(r, c)],
            }),
            Tf::Pad => DMatrix::from_fn(m.nrows() + 3, m.ncols(), |r, c| {
                if r < m.nrows() {
                    m[(r, c)]
                } else if r == m.nrows() + 2 {
                    m[(0, c)]
                } else {
                    0.0
                }
            }),
        }
    }
    /// absolute input rounding of the transformed coordinate
    fn offset(self) -> f64 {
        match self {
            Tf::Affine(_, t) => t.abs(),
            _ => 0.0,
        }
    }
}
fn transforms(dim: usize) -> Vec<Tf> {
    let mut v: Vec<Tf> = (0..dim).map(Tf::Row).collect();
    for s in [2f64.powi(60), 2f64.powi(-60), -1.0, 3.0, 1e-6, 1e6] {
        v.push(Tf::Affine(s, 0.0));
    }
    v.push(Tf::Affine(1.0, 100.0));
    v.push(Tf::Affine(-2.0, 0.75));
    v.push(Tf::Turn);
    v.push(Tf::Pad);
    v
}

#[derive(Clone, Copy, Debug)]
enum Eq {
    Insert(f64, usize),
    Split(f64),
    Reverse,
    Derive(usize),
    Append(usize),
    Prepend(usize),
    From(usize),
    To(usize),
    AppendC(usize, f64),
}
impl Eq {
    fn run(self, c: &Curve, others: &[Curve]) -> Result<Vec<Curve>, String> {
        call(|| -> Result<Vec<Curve>, String> {
            let mut n = c.clone();
            Ok(match self {
                Eq::Insert(t, x) => {
                    n.insert_times(t, x).map_err(|e| format!("{e:?}"))?;
                    vec![n]
                }
                Eq::Split(t) => {
                    let (l, r) = c.split(t).map_err(|e| format!("{e:?}"))?;
                    vec![l, r]
                }
                Eq::Reverse => vec![reversed(c)],
                Eq::Derive(k) => vec![c.get_derivative_curve(k)],
                Eq::Append(i) => {
                    n.append(&others[i]);
                    vec![n]
                }
                Eq::Prepend(i) => {
                    n.prepend(&others[i]);
                    vec![n]
                }
                Eq::From(i) => vec![merge_from(c, &others[i]).map_err(|e| format!("{e:?}"))?],
                Eq::To(i) => vec![merge_to(c, &others[i]).map_err(|e| format!("{e:?}"))?],
                Eq::AppendC(i, t) => {
                    n.append_constrained(Constraints { params: vec![t] }, &others[i], Constraints { params: vec![] });
                    vec![n]
                }
            })
        })
        .and_then(|r| r)
    }
    fn linear(self) -> bool {
        matches!(self, Eq::Derive(k) if k > 0)
    }
}
fn row_mag(m: &DMatrix<f64>, r: usize) -> f64 {
    m.row(r).iter().fold(0.0f64, |a, x| a.max(x.abs()))
}
fn knots_equal(a: &Curve, b: &Curve) -> bool {
    let (x, y) = (a.knots.vector(), b.knots.vector());
    a.degree() == b.degree() && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| (p - q).abs() <= 16.0 * EPS)
}
/// rows of `got` equal rows of `want` relative to the magnitude of each row
fn rows_agree(rec: &mut Rec, ex: Ex, got: &DMatrix<f64>, want: &DMatrix<f64>, base: &[f64], rel: f64) -> Res {
    if got.shape() != want.shape() {
        return fail(ex(), format!("{:?} control points instead of {:?}", got.shape(), want.shape()));
    }
    for r in 0..got.nrows() {
        let tol = rel * row_mag(want, r).max(base[r]) + 1e-300;
        for c in 0..got.ncols() {
            let err = (got[(r, c)] - want[(r, c)]).abs();
            if !rec.within(err, tol) {
                return fail(
                    ex(),
                    format!(
                        "control point {c} coordinate {r} is {:?}; transforming the result of the untransformed operation gives {:?} (error {err:e} > {tol:e})",
                        got[(r, c)],
                        want[(r, c)]
                    ),
                );
            }
        }
    }
    rec.ok(1);
    Ok(())
}

fn eq_curve_case(rec: &mut Rec, kn: &Kn, pts: Pts, seed: u64, merges: bool) -> Res {
    let key = format!("{kn} P={pts:?}");
    let p = kn.p;
    let cols = pts.cols(kn.n1(), seed);
    let m0 = mat(&cols);
    let dim = m0.nrows();
    let pk = [Kn::simple(p, &[]), Kn::simple(p, &[0.3, 0.55, 0.8])];
    let pm: Vec<DMatrix<f64>> = pk.iter().enumerate().map(|(i, k)| mat(&pts.cols(k.n1(), seed + 11 + i as u64))).collect();
    let mk = |k: &Kn, m: &DMatrix<f64>| build(k, &cols_of(m), &|| key.clone());
    let c = mk(kn, &m0)?;
    rec.state(curve_hash(&c));
    let others: Vec<Curve> = pk.iter().zip(&pm).map(|(k, m)| mk(k, m)).collect::<Result<_, _>>()?;
    let mut ops = vec![Eq::Reverse];
    for t in positions(kn, false) {
        let m = kn.u.iter().filter(|x| **x == t).count();
        if m <= p {
            ops.push(Eq::Insert(t, 1));
            ops.push(Eq::Insert(t, p + 1 - m));
            ops.push(Eq::Split(t));
        }
    }
    for k in 0..=p {
        ops.push(Eq::Derive(k));
    }
    if merges {
        for i in 0..2 {
            ops.extend([Eq::Append(i), Eq::Prepend(i)]);
            if p > 1 {
                ops.extend([Eq::From(i), Eq::To(i), Eq::AppendC(i, 1.0)]);
            }
        }
    }
    for op in ops {
        let ex = || format!("{key} -> {op:?}");
        let plain = match op.run(&c, &others) {
            Ok(v) => v,
            Err(e) => return fail(ex(), e),
        };
        for tf in transforms(dim) {
            let ex = || format!("{key} transformed by {tf:?} -> {op:?}");
            rec.trans(1);
            let tm = tf.apply(&m0, false);
            let tc = mk(kn, &tm)?;
            let to: Vec<Curve> = pk.iter().zip(&pm).map(|(k, m)| mk(k, &tf.apply(m, false))).collect::<Result<_, _>>()?;
            let got = match op.run(&tc, &to) {
                Ok(v) => v,
                Err(e) => return fail(ex(), format!("refused or panicked: {e}")),
            };
            let (rel, amp) = match op {
                Eq::Derive(k) => (64.0 * (p + 1) as f64 * EPS, (0..k).map(|j| 2.0 * (p - j) as f64 / kn.min_gap()).product::<f64>()),
                Eq::Insert(..) | Eq::Split(_) | Eq::Reverse => (256.0 * (p + 1) as f64 * EPS, 1.0),
                _ => (2.0 * tol_merge(p), 1.0),
            };
            for (g, w) in got.iter().zip(&plain) {
                if !knots_equal(g, w) {
                    return fail(ex(), format!("knots {:?} instead of {:?}", g.knots.vector().as_slice(), w.knots.vector().as_slice()));
                }
                let wm = tf.apply(w.points.matrix(), op.linear());
                let base: Vec<f64> = (0..wm.nrows())
                    .map(|r| amp * (row_mag(&tm, r).max(to.iter().map(|o| row_mag(o.points.matrix(), r)).fold(0.0, f64::max)) + tf.offset()))
                    .collect();
                rows_agree(rec, &ex, g.points.matrix(), &wm, &base, rel)?;
                rec.state(curve_hash(g));
            }
            rec.outcome(match op {
                Eq::Insert(..) => "insert",
                Eq::Split(_) => "split",
                Eq::Reverse => "reverse",
                Eq::Derive(_) => "derivative curve",
                _ => "merge",
            });
        }
    }
    rec.sample(|| key.clone());
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Fit {
    Interpolation,
    Fit { fixed: bool, n: usize, pen: Option<(f64, usize)> },
    /// manual curve on knots from the data
    Manual(usize, usize),
    /// interpolate over chosen knots and parameters
    Direct(usize, usize),
}
fn pmethod(i: usize) -> parameters::Method {
    match i {
        0 => parameters::Method::EquallySpaced,
        1 => parameters::Method::ChordLength,
        _ => parameters::Method::Centripetal,
    }
}
fn kmethod(i: usize) -> knots::Method {
    match i {
        0 => knots::Method::Uniform,
        1 => knots::Method::DeBoor,
        _ => knots::Method::Averaging,
    }
}
impl Fit {
    fn run(self, p: usize, m: &DMatrix<f64>) -> Result<Curve, String> {
        let d = DataPoints::new(m.clone());
        call(|| -> Result<Curve, String> {
            match self {
                Fit::Interpolation => generate(Generation::Interpolation { degree: p, points: &d }),
                Fit::Fit { fixed, n, pen } => generate(Generation::LeastSquaresFit {
                    degree: p,
                    points: &d,
                    intended_segments: n,
                    method: if fixed { fit::Method::FixedEnds } else { fit::Method::LooseEnds },
                    penalization: pen.map(|(lambda, kappa)| fit::Penalization { lambda, kappa }),
                }),
                Fit::Manual(a, b) => generate(Generation::Manual {
                    degree: p,
                    points: ControlPoints::new(m.clone()),
                    knots: knots::Generation::Method { parameter_method: pmethod(a), knot_method: kmethod(b) },
                }),
                Fit::Direct(a, b) => {
                    let params = parameters::generate(&d, pmethod(a));
                    let k: Knots = knots::generate(p, d.segments(), &params, kmethod(b)).map_err(|e| format!("{e:?}"))?;
                    let pts = interpolation::interpolate(&k, &d, &params);
                    Curve::new(k, ControlPoints::new(pts))
                }
            }
            .map_err(|e| format!("{e:?}"))
        })
        .and_then(|r| r)
    }
    /// the knots depend on the geometry of all coordinates
    fn geometric(self) -> bool {
        matches!(self, Fit::Manual(a, _) | Fit::Direct(a, _) if a > 0)
    }
}
fn basis_matrix(k: &Knots, params: &[f64]) -> DMatrix<f64> {
    let u: Vec<D> = k.vector().iter().map(|&x| D::from(x)).collect();
    let pc = Model::identity(k.degree(), u).pieces();
    let n1 = k.segments() + 1;
    let mut m = DMatrix::zeros(params.len(), n1);
    for (g, &t) in params.iter().enumerate() {
        let t = D::from(t);
        for (i, x) in pc.eval(pc.locate(t), t, 0).iter().enumerate() {
            m[(g, i)] = x.f();
        }
    }
    m
}
/// condition number of the equations behind a fit (loose upper estimate)
fn condition(f: Fit, c: &Curve, params: &[f64]) -> f64 {
    let n = basis_matrix(&c.knots, params);
    let cond = |a: DMatrix<f64>| {
        let e = nalgebra::SymmetricEigen::new(a).eigenvalues;
        e.max() / e.min().max(1e-300)
    };
    match f {
        Fit::Manual(..) => 1.0,
        Fit::Interpolation | Fit::Direct(..) => cond(n.transpose() * &n).sqrt(),
        Fit::Fit { fixed, pen, .. } => {
            let mut a = n.transpose() * &n;
            if let Some((l, kappa)) = pen {
                let mut d = DMatrix::identity(n.ncols(), n.ncols());
                for _ in 0..kappa {
                    d = d.rows(1, d.nrows() - 1) - d.rows(0, d.nrows() - 1);
                }
                a += l * d.transpose() * d;
            }
            if fixed {
                let k = a.ncols();
                if k <= 2 {
                    return 1.0;
                }
                a = a.view((1, 1), (k - 2, k - 2)).into_owned();
            }
            cond(a)
        }
    }
}

fn eq_fit_case(rec: &mut Rec, p: usize, m: usize, pts: Pts, f: Fit, seed: u64) -> Res {
    let key = format!("p={p} m={m} data={pts:?} {f:?}");
    let m0 = mat(&pts.cols(m + 1, seed));
    let dim = m0.nrows();
    let ex = || key.clone();
    if let Fit::Manual(a, _) | Fit::Direct(a, _) = f {
        // coinciding data have no chord length
        if a > 0 && (1..=m).any(|i| (m0.column(i) - m0.column(i - 1)).norm() == 0.0) {
            rec.skipped += 1;
            return Ok(());
        }
    }
    let plain = match f.run(p, &m0) {
        Ok(c) => c,
        Err(e) => return fail(ex(), e),
    };
    rec.state(curve_hash(&plain));
    let params: Vec<f64> = match f {
        Fit::Direct(a, _) => parameters::generate(&DataPoints::new(m0.clone()), pmethod(a)).vector().iter().copied().collect(),
        _ => (0..=m).map(|g| g as f64 / m as f64).collect(),
    };
    let cond = condition(f, &plain, &params);
    if !(cond < 1e6) {
        rec.skipped += 1;
        return Ok(());
    }
    // perturbed equations
    let moved = 1e-12 * cond;
    let rel = 1e-13 * cond.max(10.0) + if f.geometric() { moved } else { 0.0 };
    for tf in transforms(dim) {
        if f.geometric() && (matches!(tf, Tf::Row(_) | Tf::Pad) || tf.offset() > 0.0 && matches!(pts, Pts::Mixed | Pts::Tiny)) {
            continue;
        }
        // the centripetal method refuses data this close to each other
        if matches!(f, Fit::Manual(2, _) | Fit::Direct(2, _)) && tf == Tf::Affine(2f64.powi(-60), 0.0) {
            continue;
        }
        let ex = || format!("{key} transformed by {tf:?}");
        rec.trans(1);
        let tm = tf.apply(&m0, false);
        let got = match f.run(p, &tm) {
            Ok(c) => c,
            Err(e) => return fail(ex(), format!("refused or panicked: {e}")),
        };
        let (x, y) = (got.knots.vector(), plain.knots.vector());
        if x.len() != y.len() || x.iter().zip(y.iter()).any(|(a, b)| (a - b).abs() > 1e-12) {
            return fail(ex(), format!("knots {:?} instead of {:?}", x.as_slice(), y.as_slice()));
        }
        let wm = tf.apply(plain.points.matrix(), false);
        let base: Vec<f64> = (0..wm.nrows()).map(|r| row_mag(&tm, r) + tf.offset()).collect();
        rows_agree(rec, &ex, got.points.matrix(), &wm, &base, rel)?;
        rec.state(curve_hash(&got));
        rec.outcome("generated");
    }
    // data in opposite order give the reversed curve
    let symmetric = !matches!(f, Fit::Manual(_, 1) | Fit::Direct(_, 1));
    if symmetric {
        let ex = || format!("{key} reversed data");
        rec.trans(1);
        let tm = DMatrix::from_fn(dim, m + 1, |r, c| m0[(r, m - c)]);
        let mut got = match f.run(p, &tm) {
            Ok(c) => c,
            Err(e) => return fail(ex(), format!("refused or panicked: {e}")),
        };
        got.reverse();
        let (x, y) = (got.knots.vector(), plain.knots.vector());
        if x.len() != y.len() || x.iter().zip(y.iter()).any(|(a, b)| (a - b).abs() > 1e-12) {
            return fail(ex(), format!("knots {:?} instead of {:?}", x.as_slice(), y.as_slice()));
        }
        let base: Vec<f64> = (0..dim).map(|r| row_mag(&tm, r)).collect();
        rows_agree(rec, &ex, got.points.matrix(), plain.points.matrix(), &base, rel + moved)?;
        rec.outcome("generated from reversed data");
    }
    rec.sample(|| key.clone());
    Ok(())
}

pub fn c27(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    let fams = [Pts::Gen(3), Pts::Mixed, Pts::Far, Pts::Line];
    for kn in small_space(o.tier) {
        if kn.u.len() > o.tier.pick(14, 24, 24) {
            continue;
        }
        for pts in fams {
            if q && pts != Pts::Mixed && kn.p > 3 {
                continue;
            }
            let d = distinct(&kn.u);
            let ends = (d[1] - d[0]).min(d[d.len() - 1] - d[d.len() - 2]);
            let merges = kn.p <= 3 && ends >= 0.09 && kn.max_mult() <= kn.p;
            let kn = kn.clone();
            cases.push(Case { key: format!("curve {kn} {pts:?}"), run: Box::new(move |r| eq_curve_case(r, &kn, pts, seed, merges)) });
        }
    }
    for p in 1..=o.tier.pick(4, 5, 6) {
        for m in p..=o.tier.pick(14, 24, 40) {
            for pts in [Pts::Gen(3), Pts::Mixed, Pts::Far, Pts::Closed, Pts::Unit] {
                let mut fs = vec![Fit::Interpolation];
                for n in p..=m {
                    for fixed in [false, true] {
                        for pen in [None, Some((0.5, 1)), Some((1.0, 2)), Some((1e-3, 1)), Some((50.0, 2))] {
                            if let Some((_, k)) = pen {
                                if k + 1 > n || (fixed && k + 2 > n) {
                                    continue;
                                }
                            }
                            fs.push(Fit::Fit { fixed, n, pen });
                        }
                    }
                }
                for a in 0..3 {
                    for b in 0..3 {
                        if b == 2 && m < p {
                            continue;
                        }
                        fs.push(Fit::Manual(a, b));
                        if b == 2 {
                            fs.push(Fit::Direct(a, b));
                        }
                    }
                }
                for f in fs {
                    cases.push(Case { key: format!("fit {p} {m} {pts:?} {f:?}"), run: Box::new(move |r| eq_fit_case(r, p, m, pts, f, seed)) });
                }
            }
        }
    }
    (
        Meta {
            rule: "State: operands. Transition: one operation (insertion, multiple insertion, split, reversal, derivative curve, plain and constrained merges, interpolation, loose/fixed/penalized fits, manual generation over all parameter and knot methods) executed on the operands and on their images under each transformation (single coordinates, scalings by 2^+-60, 1e+-6, 3, -1, translations, quarter turn, padding with zero and duplicate coordinates, reversed data). The image of the result must be the result of the image, each coordinate to the precision of its own magnitude.".into(),
            bounds: format!("small knot space x 4 point families x coarse positions; data sets of 2..{} points x 5 families x every number of segments", o.tier.pick(15, 25, 41)),
            oracle: "the same operation on transformed operands (commuting square)".into(),
            assumptions: vec!["equations with condition above 1e6 are outside the bound; chord lengths depend on all coordinates, so data-dependent parametrizations are only compared under similarity transformations".into()],
        },
        cases,
    )
}

// ------------------------------------------------------------------------------------------------ C28

/// The value a knot near `x` really has in the curve.
fn snap(c: &Curve, x: f64) -> f64 {
    c.knots.vector().iter().copied().find(|k| (k - x).abs() < 1e-11).unwrap_or(x)
}
fn same_curve(rec: &mut Rec, ex: Ex, a: &Curve, b: &Curve, pt: f64, s0: f64, kmax: Option<usize>) -> Res {
    let m = Model::of(b);
    agree(rec, ex, a, &Want { m: &m, knots: KnotCmp::Near, pt, s0, kmax }, "the two orders differ")?;
    rec.state(curve_hash(a));
    rec.state(curve_hash(b));
    rec.ok(1);
    Ok(())
}

fn commute_case(rec: &mut Rec, kn: &Kn, pts: Pts, seed: u64, fine: bool) -> Res {
    let key = format!("{kn} P={pts:?}");
    let p = kn.p;
    let c = build(kn, &pts.cols(kn.n1(), seed), &|| key.clone())?;
    rec.state(curve_hash(&c));
    let s0 = mag(&Model::of(&c));
    let pt = 64.0 * (p + 1) as f64 * EPS;
    let mult = |k: &Kn, t: f64| k.u.iter().filter(|x| **x == t).count();
    let run = |ex: Ex, f: &dyn Fn() -> Curve| call(f).or_else(|e| fail(ex(), e));
    let ins = |c: &Curve, t: f64| {
        let mut n = c.clone();
        n.insert(snap(c, t)).unwrap();
        n
    };
    let times = |c: &Curve, t: f64, x: usize| {
        let mut n = c.clone();
        n.insert_times(snap(c, t), x).unwrap();
        n
    };
    let mut ts: Vec<f64> = positions(kn, false).into_iter().filter(|t| kn.u.iter().all(|x| x == t || (x - t).abs() > 1e-4)).collect();
    if fine {
        let d = distinct(&kn.u);
        ts.extend(d.windows(2).map(|w| w[0] + 0.3 * (w[1] - w[0])));
        ts.sort_by(|a, b| a.total_cmp(b));
        ts.dedup();
    }
    for (i, &t) in ts.iter().enumerate() {
        let mt = mult(kn, t);
        // multiple insertion is repeated insertion
        for x in 0..=(p + 1).saturating_sub(mt) {
            let ex = || format!("{key} -> insert_times({t:?}, {x}) | insert({t:?}) {x} times");
            rec.trans(2);
            let a = run(&ex, &|| times(&c, t, x))?;
            let b = run(&ex, &|| (0..x).fold(c.clone(), |c, _| ins(&c, t)))?;
            same_curve(rec, &ex, &a, &b, pt, s0, None)?;
            rec.outcome("insertions, repeated");
        }
        if mt <= p {
            // insert | reverse
            let ex = || format!("{key} -> insert({t:?}), reverse | reverse, insert(1 - {t:?})");
            rec.trans(2);
            let a = run(&ex, &|| reversed(&ins(&c, t)))?;
            let b = run(&ex, &|| ins(&reversed(&c), 1.0 - t))?;
            same_curve(rec, &ex, &a, &b, pt, s0, Some(p))?;
            rec.outcome("insert | reverse");
            // insert | derivative
            for k in 1..=p {
                if mt + 1 + k > p + 1 || kn.max_mult() + k > p + 1 {
                    break;
                }
                let ex = || format!("{key} -> insert({t:?}), get_derivative_curve({k}) | get_derivative_curve({k}), insert({t:?})");
                rec.trans(2);
                let a = run(&ex, &|| ins(&c, t).get_derivative_curve(k))?;
                if p == k {
                    continue;
                }
                let b = run(&ex, &|| ins(&c.get_derivative_curve(k), t))?;
                let amp: f64 = (0..k).map(|j| 2.0 * (p - j) as f64 / kn_of(&a).min_gap()).product();
                same_curve(rec, &ex, &a, &b, pt, s0 * amp, None)?;
                rec.outcome("insert | derivative");
            }
            // split | reverse
            let ex = || format!("{key} -> split({t:?}), reverse parts | reverse, split(1 - {t:?})");
            rec.trans(2);
            let (l, r) = call(|| c.split(t).unwrap()).or_else(|e| fail(ex(), e))?;
            let rc = run(&ex, &|| reversed(&c))?;
            let (l2, r2) = call(|| rc.split(snap(&rc, 1.0 - t)).unwrap()).or_else(|e| fail(ex(), e))?;
            same_curve(rec, &ex, &run(&ex, &|| reversed(&r))?, &l2, pt, s0, Some(p))?;
            same_curve(rec, &ex, &run(&ex, &|| reversed(&l))?, &r2, pt, s0, Some(p))?;
            rec.outcome("split | reverse");
            // split | fill
            let ex = || format!("{key} -> insert_times({t:?}), split({t:?}) | split({t:?})");
            rec.trans(2);
            if mt < p {
                let (l3, r3) = call(|| times(&c, t, p - mt).split(t).unwrap()).or_else(|e| fail(ex(), e))?;
                same_curve(rec, &ex, &l3, &l, pt, s0, None)?;
                same_curve(rec, &ex, &r3, &r, pt, s0, None)?;
                rec.outcome("insert | split at the same place");
            }
            // split | derivative
            for k in 1..p {
                if mt + k > p || kn.max_mult() + k > p + 1 {
                    break;
                }
                let ex = || format!("{key} -> split({t:?}), get_derivative_curve({k}) | get_derivative_curve({k}), split({t:?}), scaled");
                rec.trans(2);
                let dl = run(&ex, &|| l.get_derivative_curve(k))?;
                let dr = run(&ex, &|| r.get_derivative_curve(k))?;
                let (l4, r4) = call(|| c.get_derivative_curve(k).split(t).unwrap()).or_else(|e| fail(ex(), e))?;
                let amp: f64 = (0..k).map(|j| 2.0 * (p - j) as f64 / kn_of(&dl).min_gap().min(kn_of(&dr).min_gap())).product();
                for (a, b, h) in [(&dl, &l4, t), (&dr, &r4, 1.0 - t)] {
                    // the parts are stretched over [0,1], so derivatives shrink by h^k
                    let mut m = Model::of(b);
                    for v in m.pts.iter_mut().flatten() {
                        *v = *v * D(h.powi(k as i32), 0.0);
                    }
                    agree(rec, &ex, a, &Want { m: &m, knots: KnotCmp::Near, pt, s0: s0 * amp, kmax: None }, "the two orders differ")?;
                    rec.ok(1);
                }
                rec.outcome("split | derivative");
            }
        }
        // insertions at places that can hardly be told apart
        for delta in [1e-5, 1e-8, 1e-11, 0.0] {
            let v = if delta == 0.0 { f64::from_bits(t.to_bits() + 1) } else { t + delta };
            if mt > p || v >= 1.0 || kn.u.iter().any(|&x| x > t && x <= v) {
                continue;
            }
            for (xt, xv) in [(1, 1), (p + 1 - mt, p)] {
                let ex = || format!("{key} -> insert_times({t:?}, {xt}), insert_times({v:?}, {xv}) | in the other order");
                rec.trans(2);
                let go = |order: [(f64, usize); 2]| {
                    let mut n = c.clone();
                    for (t, x) in order {
                        n.insert_times(t, x).unwrap();
                    }
                    n
                };
                let a = run(&ex, &|| go([(t, xt), (v, xv)]))?;
                let b = run(&ex, &|| go([(v, xv), (t, xt)]))?;
                let m = Model::of(&b);
                agree(rec, &ex, &a, &Want { m: &m, knots: KnotCmp::Exact, pt, s0, kmax: None }, "the two orders differ")?;
                rec.state(curve_hash(&a));
                rec.ok(1);
                rec.outcome("insert | insert close by");
            }
        }
        for &v in &ts[i + 1..] {
            let mv = mult(kn, v);
            if mt > p || mv > p {
                continue;
            }
            // insert | insert
            let ex = || format!("{key} -> insert({t:?}), insert({v:?}) | in the other order");
            rec.trans(2);
            let a = run(&ex, &|| ins(&ins(&c, t), v))?;
            let b = run(&ex, &|| ins(&ins(&c, v), t))?;
            same_curve(rec, &ex, &a, &b, pt, s0, None)?;
            rec.outcome("insert | insert");
            // several at once
            let (xt, xv) = (p + 1 - mt, p + 1 - mv);
            let ex = || format!("{key} -> insert_times({t:?}, {xt}), insert_times({v:?}, {xv}) | in the other order");
            rec.trans(2);
            let a = run(&ex, &|| times(&times(&c, t, xt), v, xv))?;
            let b = run(&ex, &|| times(&times(&c, v, xv), t, xt))?;
            same_curve(rec, &ex, &a, &b, pt, s0, None)?;
            // insert | split elsewhere
            let ex = || format!("{key} -> insert({t:?}), split({v:?}) | split({v:?}), insert in the left part");
            rec.trans(2);
            let (l, r) = call(|| c.split(v).unwrap()).or_else(|e| fail(ex(), e))?;
            let (l2, r2) = call(|| ins(&c, t).split(v).unwrap()).or_else(|e| fail(ex(), e))?;
            same_curve(rec, &ex, &run(&ex, &|| ins(&l, t / v))?, &l2, pt, s0, None)?;
            same_curve(rec, &ex, &r, &r2, pt, s0, None)?;
            rec.outcome("insert | split");
            // split | split
            let ex = || format!("{key} -> split({t:?}), split right at {v:?} | split({v:?}), split left at {t:?}");
            rec.trans(2);
            let (a1, rest) = call(|| c.split(t).unwrap()).or_else(|e| fail(ex(), e))?;
            let (a2, a3) = call(|| rest.split(snap(&rest, (v - t) / (1.0 - t))).unwrap()).or_else(|e| fail(ex(), e))?;
            let (b1, b2) = call(|| l.split(snap(&l, t / v)).unwrap()).or_else(|e| fail(ex(), e))?;
            // positions inside the parts are rounded
            for (a, b) in [(&a1, &b1), (&a2, &b2), (&a3, &r)] {
                same_curve(rec, &ex, a, b, pt * 4.0 / (v - t).min(t).min(1.0 - v), s0, None)?;
            }
            rec.outcome("split | split");
        }
    }
    // derivative | reverse, derivative | derivative
    for k in 0..=p {
        if kn.max_mult() + k > p + 1 {
            break;
        }
        let ex = || format!("{key} -> get_derivative_curve({k}), reverse | reverse, get_derivative_curve({k})");
        rec.trans(2);
        let a = run(&ex, &|| reversed(&c).get_derivative_curve(k))?;
        let b = run(&ex, &|| reversed(&c.get_derivative_curve(k)))?;
        let mut m = Model::of(&b);
        if k % 2 == 1 {
            for v in m.pts.iter_mut().flatten() {
                *v = -*v;
            }
        }
        let amp: f64 = (0..k).map(|j| 2.0 * (p - j) as f64 / kn.min_gap()).product();
        agree(rec, &ex, &a, &Want { m: &m, knots: KnotCmp::Near, pt, s0: s0 * amp, kmax: Some(p - k) }, "the two orders differ")?;
        rec.ok(1);
        rec.outcome("derivative | reverse");
        for j in 0..=k {
            let ex = || format!("{key} -> get_derivative_curve({j}), get_derivative_curve({}) | get_derivative_curve({k})", k - j);
            rec.trans(2);
            let a = run(&ex, &|| c.get_derivative_curve(j).get_derivative_curve(k - j))?;
            let b = run(&ex, &|| c.get_derivative_curve(k))?;
            same_curve(rec, &ex, &a, &b, pt, s0 * amp, None)?;
            rec.outcome("derivative | derivative");
        }
    }
    rec.sample(|| format!("{key}: {} positions, all pairs", ts.len()));
    Ok(())
}

fn commute_merge_case(rec: &mut Rec, ka: &Kn, kb: &Kn, seed: u64) -> Res {
    let p = ka.p;
    let key = format!("a: {ka} b: {kb}");
    let a = build(ka, &Pts::Gen(2).cols(ka.n1(), seed), &|| key.clone())?;
    let b = build(kb, &Pts::Gen(2).cols(kb.n1(), seed + 77), &|| key.clone())?;
    let (ma, mb) = (Model::of(&a), Model::of(&b));
    let s0 = mag(&ma).max(mag(&mb));
    let cs = |v: &[f64]| Constraints { params: v.to_vec() };
    let mut sets: Vec<(Vec<f64>, Vec<f64>)> = vec![(vec![], vec![])];
    if p > 1 {
        sets.extend([(vec![1.0], vec![]), (vec![], vec![0.0])]);
    }
    for (ca, cb) in sets {
        let da: Vec<D> = ca.iter().map(|&x| D::from(x)).collect();
        let db: Vec<D> = cb.iter().map(|&x| D::from(x)).collect();
        let Some(w) = Model::merge(&ma, &mb, &da, &db) else {
            rec.skipped += 1;
            continue;
        };
        if w.smallest.max(0.0).sqrt() < 1e-4 {
            rec.skipped += 1;
            continue;
        }
        let sm = s0.max(mag(&w.a)).max(mag(&w.b)).max(mag(&w.curve));
        let pt = if p > 5 { 20.0 } else { 2.0 } * tol_merge(p);
        let run = |ex: Ex, f: &dyn Fn() -> Curve| call(f).or_else(|e| fail(ex(), e));
        let ex = || format!("{key} keep {ca:?} {cb:?} -> append | prepend | mirrored by reversal");
        rec.trans(4);
        let x = run(&ex, &|| {
            let mut x = a.clone();
            if ca.is_empty() && cb.is_empty() {
                x.append(&b);
            } else {
                x.append_constrained(cs(&ca), &b, cs(&cb));
            }
            x
        })?;
        let y = run(&ex, &|| {
            let mut y = b.clone();
            if ca.is_empty() && cb.is_empty() {
                y.prepend(&a);
            } else {
                y.prepend_constrained(cs(&cb), &a, cs(&ca));
            }
            y
        })?;
        same_curve(rec, &ex, &x, &y, pt, sm, None)?;
        let z = run(&ex, &|| {
            if !ca.is_empty() {
                merge_from(&a, &b).unwrap()
            } else if !cb.is_empty() {
                merge_to(&a, &b).unwrap()
            } else {
                merge(&a, &b).unwrap()
            }
        })?;
        same_curve(rec, &ex, &x, &z, pt, sm, None)?;
        let r = run(&ex, &|| {
            let (ra, rb) = (reversed(&a), reversed(&b));
            let flip = |v: &[f64]| cs(&v.iter().map(|t| 1.0 - t).collect::<Vec<_>>());
            let mut m = rb;
            if ca.is_empty() && cb.is_empty() {
                m.append(&ra);
            } else {
                m.append_constrained(flip(&cb), &ra, flip(&ca));
            }
            reversed(&m)
        })?;
        same_curve(rec, &ex, &x, &r, pt, sm, None)?;
        rec.outcome("merge | reverse");
        // insertion away from the joint commutes with the merge: the inserted knot must leave the displaced points alone
        let d = distinct(&ka.u);
        if d.len() > p + 1 {
            let t = 0.5 * (d[0] + d[1]);
            let touched = ka.u[ka.u.len() - 1 - 2 * p..].first().copied().unwrap_or(0.0);
            if t < touched {
                let ex = || format!("{key} keep {ca:?} {cb:?} -> insert({t:?}) in a, append | append, insert");
                rec.trans(2);
                let u = run(&ex, &|| {
                    let mut x = a.clone();
                    x.insert(t).unwrap();
                    if ca.is_empty() && cb.is_empty() {
                        x.append(&b);
                    } else {
                        x.append_constrained(cs(&ca), &b, cs(&cb));
                    }
                    x
                })?;
                let v = run(&ex, &|| {
                    let mut y = x.clone();
                    y.insert(t * 0.5).unwrap();
                    y
                })?;
                same_curve(rec, &ex, &u, &v, pt, sm, None)?;
                rec.outcome("insert | merge");
            }
        }
    }
    Ok(())
}

pub fn c28(o: &Opts) -> (Meta, Vec<Case>) {
    let q = o.tier == Tier::Quick;
    let seed = o.seed;
    let mut cases: Vec<Case> = vec![];
    let mut kns = small_space(o.tier);
    for p in 1..=3 {
        kns.push(Kn::simple(p, &golden(o.tier.pick(6, 14, 24))));
        kns.push(Kn::simple(p, &[0.01, 0.5, 0.97]));
    }
    for kn in kns {
        for pts in [Pts::Gen(2), Pts::Unit, Pts::Big] {
            if pts != Pts::Gen(2) && (kn.u.len() > 12 || q && kn.p > 3) {
                continue;
            }
            let kn = kn.clone();
            cases.push(Case { key: format!("{kn} {pts:?}"), run: Box::new(move |r| commute_case(r, &kn, pts, seed, !q)) });
        }
    }
    for p in 1..=o.tier.pick(4, 5, 6) {
        let mut v = vec![
            Kn::simple(p, &[]),
            Kn::simple(p, &[0.5]),
            Kn::simple(p, &[0.3, 0.7]),
            Kn::simple(p, &uniform_inner(2 * p)),
            Kn::simple(p, &uniform_inner(2 * p + 3)),
            Kn::clamped(p, &[0.4], &[p]),
            Kn::clamped(p, &[0.3, 0.6], &[1, p.min(2)]),
        ];
        if !q {
            v.extend([Kn::simple(p, &[0.2, 0.4, 0.7]), Kn::clamped(p, &[0.5], &[p + 1]), Kn::simple(p, &uniform_inner(12))]);
        }
        for ka in &v {
            for kb in &v {
                let (ka, kb) = (ka.clone(), kb.clone());
                cases.push(Case { key: format!("merge {ka} {kb}"), run: Box::new(move |r| commute_merge_case(r, &ka, &kb, seed)) });
            }
        }
    }
    (
        Meta {
            rule: "State: complete curve. For every pair of independent operations (insertions at two places, repeated insertions, insertion and reversal / derivative / split, splits at two places, split and reversal / derivative, derivative and reversal / derivative, merge and reversal, append and prepend, merge and an insertion away from the joint) both execution orders are run on the real code and must end in the same curve (diamond property).".into(),
            bounds: format!("small knot space and long/uneven knots, all pairs of positions; all pairs of merge operands of degree up to {}", o.tier.pick(4, 5, 6)),
            oracle: "the other execution order, compared with running error bounds".into(),
            assumptions: vec!["pairs of insertions are as close as neighbouring floats; other positions closer than 1e-4 to a knot are left to C07 and C09; merges with ill-conditioned equations are outside the bound".into()],
        },
        cases,
    )
}
