//! The reference models' own exact arithmetic (independent of the library's).

use num_rational::BigRational;
use num_traits::ToPrimitive;
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

const OVER: &str = "reference arithmetic out of range";

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "zero denominator in reference arithmetic");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn is_int(&self) -> bool {
        self.d == 1
    }
    pub fn floor(&self) -> i128 {
        self.n.div_euclid(self.d)
    }
    pub fn frac(&self) -> Q {
        Q::new(self.n.rem_euclid(self.d), self.d)
    }
    pub fn from_big(x: &BigRational) -> Option<Q> {
        let (n, d) = (x.numer().to_i128()?, x.denom().to_i128()?);
        if d == 0 {
            return None;
        }
        Some(Q::new(n, d))
    }
    pub fn to_big(self) -> BigRational {
        BigRational::new(self.n.into(), self.d.into())
    }
}

impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        let g = gcd(self.d, o.d);
        let n = self.n.checked_mul(o.d / g).expect(OVER)
            .checked_add(o.n.checked_mul(self.d / g).expect(OVER)).expect(OVER);
        Q::new(n, self.d.checked_mul(o.d / g).expect(OVER))
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        let (g1, g2) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        Q::new(
            (self.n / g1).checked_mul(o.n / g2).expect(OVER),
            (self.d / g2).checked_mul(o.d / g1).expect(OVER),
        )
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        self * Q::new(o.d, o.n)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        (self.n.checked_mul(o.d).expect(OVER)).cmp(&o.n.checked_mul(self.d).expect(OVER))
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}

pub type QVec = Vec<Q>;
pub type QMat = Vec<QVec>; // rows

pub fn mat_vec(m: &QMat, v: &[Q]) -> QVec {
    m.iter().map(|r| r.iter().zip(v).fold(Q::ZERO, |s, (a, b)| s + *a * *b)).collect()
}

pub fn mat_mul(a: &QMat, b: &QMat) -> QMat {
    let cols = b.first().map(|r| r.len()).unwrap_or(0);
    a.iter().map(|r| (0..cols).map(|j| {
        r.iter().zip(b).fold(Q::ZERO, |s, (x, row)| s + *x * row[j])
    }).collect()).collect()
}

pub fn identity(n: usize) -> QMat {
    (0..n).map(|i| (0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO }).collect()).collect()
}

pub fn transpose(m: &QMat) -> QMat {
    let cols = m.first().map(|r| r.len()).unwrap_or(0);
    (0..cols).map(|j| m.iter().map(|r| r[j]).collect()).collect()
}

/// Reduced row echelon form without zero rows: a canonical form of the span.
pub fn rref(m: &[QVec]) -> QMat {
    let mut a: QMat = m.to_vec();
    let cols = a.first().map(|r| r.len()).unwrap_or(0);
    let mut row = 0;
    for c in 0..cols {
        if let Some(p) = (row..a.len()).find(|&i| !a[i][c].is_zero()) {
            a.swap(row, p);
            let f = a[row][c];
            for x in a[row].iter_mut() {
                *x = *x / f;
            }
            for i in 0..a.len() {
                if i != row && !a[i][c].is_zero() {
                    let f = a[i][c];
                    for k in 0..cols {
                        let t = a[row][k] * f;
                        a[i][k] = a[i][k] - t;
                    }
                }
            }
            row += 1;
        }
    }
    a.truncate(row);
    a
}

pub fn inverse(m: &QMat) -> Option<QMat> {
    let n = m.len();
    let ext: QMat = m.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        r.extend((0..n).map(|j| if i == j { Q::ONE } else { Q::ZERO }));
        r
    }).collect();
    let e = rref(&ext);
    if e.len() < n || (0..n).any(|i| e[i][i] != Q::ONE) {
        return None;
    }
    for i in 0..n {
        for j in 0..n {
            if (i == j) != (e[i][j] == Q::ONE) || (i != j && !e[i][j].is_zero()) {
                return None;
            }
        }
    }
    Some(e.iter().map(|r| r[n..].to_vec()).collect())
}

pub fn det(m: &QMat) -> Q {
    let mut a = m.clone();
    let n = a.len();
    let mut d = Q::ONE;
    for c in 0..n {
        match (c..n).find(|&i| !a[i][c].is_zero()) {
            None => return Q::ZERO,
            Some(p) => {
                if p != c {
                    a.swap(p, c);
                    d = -d;
                }
                d = d * a[c][c];
                for i in c + 1..n {
                    let f = a[i][c] / a[c][c];
                    for k in c..n {
                        let t = a[c][k] * f;
                        a[i][k] = a[i][k] - t;
                    }
                }
            }
        }
    }
    d
}

/// Null space of the matrix with the given rows, as canonical rows.
pub fn null_space(rows: &[QVec], cols: usize) -> QMat {
    let e = rref(rows);
    let pivots: Vec<usize> = e.iter().map(|r| r.iter().position(|x| !x.is_zero()).unwrap()).collect();
    let mut out = vec![];
    for f in 0..cols {
        if pivots.contains(&f) {
            continue;
        }
        let mut v = vec![Q::ZERO; cols];
        v[f] = Q::ONE;
        for (r, p) in e.iter().zip(&pivots) {
            v[*p] = -r[f];
        }
        out.push(v);
    }
    rref(&out)
}

/// Canonical basis (Hermite normal form) of the lattice spanned by rational
/// vectors: rows with positive pivots, entries above pivots reduced.
pub fn lattice_hnf(vs: &[QVec]) -> QMat {
    if vs.is_empty() {
        return vec![];
    }
    let cols = vs[0].len();
    let mut den: i128 = 1;
    for v in vs {
        for x in v {
            den = den / gcd(den, x.d) * x.d;
        }
    }
    let mut a: Vec<Vec<i128>> = vs.iter()
        .map(|v| v.iter().map(|x| x.n.checked_mul(den / x.d).expect(OVER)).collect())
        .collect();
    let mut row = 0;
    for c in 0..cols {
        loop {
            let mut best: Option<usize> = None;
            let mut count = 0;
            for i in row..a.len() {
                if a[i][c] != 0 {
                    count += 1;
                    if best.map(|b| a[i][c].abs() < a[b][c].abs()).unwrap_or(true) {
                        best = Some(i);
                    }
                }
            }
            let Some(b) = best else { break };
            a.swap(row, b);
            if count == 1 {
                if a[row][c] < 0 {
                    for x in a[row].iter_mut() {
                        *x = -*x;
                    }
                }
                for i in 0..row {
                    let f = a[i][c].div_euclid(a[row][c]);
                    for k in 0..cols {
                        let t = a[row][k].checked_mul(f).expect(OVER);
                        a[i][k] = a[i][k].checked_sub(t).expect(OVER);
                    }
                }
                row += 1;
                break;
            }
            for i in row + 1..a.len() {
                if a[i][c] != 0 {
                    let f = a[i][c].div_euclid(a[row][c]);
                    for k in 0..cols {
                        let t = a[row][k].checked_mul(f).expect(OVER);
                        a[i][k] = a[i][k].checked_sub(t).expect(OVER);
                    }
                }
            }
        }
    }
    a.truncate(row);
    a.iter().map(|r| r.iter().map(|x| Q::new(*x, den)).collect()).collect()
}
