//! Double-double arithmetic (about 106 significant bits): the number type of the reference model.
//! Its rounding errors (~1e-31) are 20 orders of magnitude below every comparison tolerance.
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D(pub f64, pub f64);

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

pub const ZERO: D = D(0.0, 0.0);
pub const ONE: D = D(1.0, 0.0);

impl D {
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
    pub fn abs(self) -> D {
        if self.0 < 0.0 || (self.0 == 0.0 && self.1 < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn max(self, o: D) -> D {
        if self < o {
            o
        } else {
            self
        }
    }
    pub fn int(i: usize) -> D {
        D(i as f64, 0.0)
    }
    pub fn sqrt(self) -> D {
        if self.0 <= 0.0 {
            return ZERO;
        }
        let x = D(self.0.sqrt(), 0.0);
        let x = (x + self / x) * D(0.5, 0.0);
        (x + self / x) * D(0.5, 0.0)
    }
}
impl From<f64> for D {
    fn from(x: f64) -> D {
        D(x, 0.0)
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        let (s, e) = two_sum(self.0, o.0);
        let (t, f) = two_sum(self.1, o.1);
        let (s, e) = quick_two_sum(s, e + t);
        let (s, e) = quick_two_sum(s, e + f);
        D(s, e)
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D(-self.0, -self.1)
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.0, o.0);
        let (s, e) = quick_two_sum(p, e + self.0 * o.1 + self.1 * o.0);
        D(s, e)
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        let q1 = self.0 / o.0;
        let r = self - D(q1, 0.0) * o;
        let q2 = r.0 / o.0;
        let r = r - D(q2, 0.0) * o;
        let q3 = r.0 / o.0;
        let (s, e) = quick_two_sum(q1, q2);
        D(s, e) + D(q3, 0.0)
    }
}
impl AddAssign for D {
    fn add_assign(&mut self, o: D) {
        *self = *self + o
    }
}
impl SubAssign for D {
    fn sub_assign(&mut self, o: D) {
        *self = *self - o
    }
}
impl MulAssign for D {
    fn mul_assign(&mut self, o: D) {
        *self = *self * o
    }
}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        let d = *self - *o;
        (d.0 + d.1).partial_cmp(&0.0)
    }
}
/// Equality of ideal quantities: they are equal or differ by at least 1e-28 in every explored space.
pub fn same(a: D, b: D) -> bool {
    (a - b).abs().0 < 1e-29
}

/// Solve the square system `a x = b` (several right hand sides) by Gaussian elimination with full pivoting.
/// Rank deficient consistent systems get a particular solution; inconsistent ones give None.
/// `tol` is relative to the largest entry (rows are expected to be scaled).
pub fn solve(mut a: Vec<Vec<D>>, mut b: Vec<Vec<D>>, tol: f64) -> Option<(Vec<Vec<D>>, usize)> {
    let n = a.len();
    if n == 0 {
        return Some((vec![], 0));
    }
    let m = a[0].len();
    let r = b[0].len();
    let amax = a.iter().flatten().map(|x| x.abs().0).fold(0.0, f64::max);
    let bmax = b.iter().flatten().map(|x| x.abs().0).fold(0.0, f64::max);
    let mut perm: Vec<usize> = (0..m).collect();
    let mut rank = 0;
    while rank < n.min(m) {
        let (mut pi, mut pj, mut best) = (rank, rank, -1.0);
        for i in rank..n {
            for j in rank..m {
                if a[i][j].abs().0 > best {
                    best = a[i][j].abs().0;
                    pi = i;
                    pj = j;
                }
            }
        }
        if best <= tol * amax {
            break;
        }
        a.swap(rank, pi);
        b.swap(rank, pi);
        for row in a.iter_mut() {
            row.swap(rank, pj);
        }
        perm.swap(rank, pj);
        let piv = a[rank][rank];
        for i in 0..n {
            if i == rank {
                continue;
            }
            let f = a[i][rank] / piv;
            if f.0 == 0.0 {
                continue;
            }
            for j in rank..m {
                let v = a[rank][j];
                a[i][j] -= f * v;
            }
            for c in 0..r {
                let v = b[rank][c];
                b[i][c] -= f * v;
            }
        }
        rank += 1;
    }
    for row in b.iter().skip(rank) {
        if row.iter().any(|x| x.abs().0 > 1e-16 * (bmax + 1e-300)) {
            return None;
        }
    }
    let mut x = vec![vec![ZERO; r]; m];
    for i in 0..rank {
        for c in 0..r {
            x[perm[i]][c] = b[i][c] / a[i][i];
        }
    }
    Some((x, rank))
}
