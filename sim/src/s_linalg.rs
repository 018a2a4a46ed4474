//! Linear algebra and lattice reduction with number types and metrics of the
//! caller: C28 and C30.

use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::linear_algebra::{LinearAlgebra, Scalar};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::lattices::*;
use rust_systre::spacegroups::types::{Coord, CoordPtr};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::ops::{AddAssign, Mul, MulAssign, Neg, Sub};

use crate::callers::*;
use crate::frac::*;
use crate::iosim::gen_plan;
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::s_group::json_q;
use crate::sched::{common, drive};
use crate::seam::{self, is_overflow, Abandon};

type B = S<BigRational>;

// ---------------------------------------------------- C28: linear algebra

pub fn j_q(q: &Q) -> Value {
    if q.d == 1 { json!(q.n as i64) } else { json!([q.n as i64, q.d as i64]) }
}

pub fn j_mat(m: &[QVec]) -> Value {
    m.iter().map(|r| r.iter().map(j_q).collect::<Vec<_>>()).collect()
}

pub fn p_mat(v: &Value, max: usize) -> Option<QMat> {
    let m: QMat = v.as_array()?.iter()
        .map(|r| r.as_array()?.iter().map(json_q).collect::<Option<QVec>>()).collect::<Option<_>>()?;
    let c = m.first()?.len();
    (c > 0 && c <= max && m.len() <= max && m.iter().all(|r| r.len() == c)).then_some(m)
}

/// A canonical basis of the integral vectors that m maps to zero.
fn int_kernel(m: &QMat) -> QMat {
    let (r, c) = (m.len(), m[0].len());
    let rows: QMat = (0..c).map(|j| {
        let mut v: QVec = (0..r).map(|i| m[i][j]).collect();
        v.extend((0..c).map(|k| if k == j { Q::ONE } else { Q::ZERO }));
        v
    }).collect();
    lattice_hnf(&rows).into_iter().filter(|v| v[..r].iter().all(|x| x.is_zero())).map(|v| v[r..].to_vec()).collect()
}

fn side_by_side(a: &QMat, b: &QMat) -> QMat {
    a.iter().zip(b).map(|(x, y)| x.iter().chain(y).copied().collect()).collect()
}

/// What a question about matrices should be answered.
#[derive(Clone, PartialEq, Debug)]
enum Ans {
    Number(Q),
    Rows(QMat),
    Nothing,
    /// coefficients out of all proportion
    Absurd,
}

fn solvable(a: &QMat, b: &QMat, field: bool) -> bool {
    let ab = side_by_side(a, b);
    if field {
        rref(a).len() == rref(&ab).len()
    } else {
        lattice_hnf(&transpose(a)) == lattice_hnf(&transpose(&ab))
    }
}

fn verdict(a: &QMat, b: Option<&QMat>, what: &str, field: bool, got: &Ans) -> Option<&'static str> {
    let n = a[0].len();
    let bad = |wrong: bool, class: &'static str| if wrong { Some(class) } else { None };
    match (what, got) {
        (_, Ans::Absurd) => Some("absurd"),
        ("rank", g) => bad(*g != Ans::Number(Q::int(rref(a).len() as i64)), "wrong-rank"),
        ("det", g) => bad(*g != Ans::Number(det(a)), "wrong-determinant"),
        ("basis", g) => bad(*g != Ans::Rows(if field { rref(a) } else { lattice_hnf(a) }), "wrong-basis"),
        ("mul", g) => bad(*g != Ans::Rows(mat_mul(a, b.unwrap())), "wrong-product"),
        ("inv", g) => {
            let want = inverse(a).filter(|m| field || m.iter().flatten().all(|x| x.is_int()));
            bad(*g != want.map(Ans::Rows).unwrap_or(Ans::Nothing), "wrong-inverse")
        }
        ("null", Ans::Nothing) => bad(rref(a).len() < n, "null-space-missing"),
        ("null", Ans::Rows(m)) => {
            let cols = transpose(m);
            let want = if field { null_space(a, n) } else { int_kernel(a) };
            let same = if field { rref(&cols) == want } else { lattice_hnf(&cols) == want };
            bad(m.len() != n || m[0].len() != want.len() || !same, "wrong-null-space")
        }
        ("solve", Ans::Nothing) => bad(solvable(a, b.unwrap(), field), "solution-missing"),
        ("solve", Ans::Rows(x)) => {
            let b = b.unwrap();
            let fits = x.len() == n && x.iter().all(|r| r.len() == b[0].len());
            bad(!fits || mat_mul(a, x) != *b || !(field || x.iter().flatten().all(|q| q.is_int())), "wrong-solution")
        }
        _ => Some("malformed"),
    }
}

fn to_lib<X: Num>(m: &QMat) -> Matrix<X> {
    let data: Vec<X> = m.iter().flatten().map(|q| X::of(*q)).collect();
    Matrix::new(m[0].len(), &data)
}

fn from_lib<X: Num>(m: &Matrix<X>) -> Option<QMat> {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)].q()).collect()).collect()
}

fn ask<X>(a: &Matrix<X>, b: Option<&Matrix<X>>, what: &str, cancel: Option<u64>) -> Result<Ans, Abandon>
where
    X: Num + Scalar + Sub<Output = X> + Neg<Output = X>,
    for<'a> X: Mul<&'a X, Output = X> + AddAssign<&'a X> + MulAssign<&'a X>,
    for<'a> &'a X: Mul<&'a X, Output = X>,
{
    let num = |q: Option<Q>| q.map(Ans::Number).unwrap_or(Ans::Absurd);
    let mat = |m: Matrix<X>| from_lib(&m).map(Ans::Rows).unwrap_or(Ans::Absurd);
    let opt = |m: Option<Matrix<X>>| m.map(mat).unwrap_or(Ans::Nothing);
    Ok(match what {
        "rank" => num(Some(Q::int(seam::call(cancel, || a.rank())? as i64))),
        "det" => num(seam::call(cancel, || a.determinant())?.q()),
        "basis" => mat(seam::call(cancel, || a.reduced_basis())?),
        "mul" => mat(seam::call(cancel, || a * b.unwrap())?),
        "inv" => opt(seam::call(cancel, || a.inverse())?),
        "null" => opt(seam::call(cancel, || a.null_space())?),
        _ => opt(seam::call(cancel, || a.solve(b.unwrap()))?),
    })
}

struct Spec {
    field: bool,
    mats: Vec<QMat>,
    /// too small for any sensible procedure to leave 64 bits
    small: Vec<bool>,
}

fn run_mats<X>(
    scn: &Value, cx: &Cx, spec: &Spec,
) -> Result<(), String>
where
    X: Num + Scalar + Debug + PartialEq + Sub<Output = X> + Neg<Output = X> + Send + Sync,
    for<'a> X: Mul<&'a X, Output = X> + AddAssign<&'a X> + MulAssign<&'a X>,
    for<'a> &'a X: Mul<&'a X, Output = X>,
{
    let (tasks, plan) = common(scn)?;
    let shared: Vec<Matrix<X>> = spec.mats.iter().map(to_lib).collect();
    let wide = scn["kind"].as_str().map(|k| !k.ends_with("32")).unwrap_or(true);
    drive(cx, 0, tasks, &plan, &|t, op| {
        let what = op["op"].as_str().unwrap();
        let a = op["m"].as_u64().unwrap() as usize;
        let b = op["r"].as_u64().map(|r| r as usize);
        let who = format!("thread {}: {} of {:?}{}", t, what, spec.mats[a],
            b.map(|b| format!(" and {:?}", spec.mats[b])).unwrap_or_default());
        let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
        loop {
            let res = ask(&shared[a], b.map(|b| &shared[b]), what, cancel);
            cx.log(&format!("{} -> {:?}", who, res));
            match res {
                Err(Abandon::Cancelled) => {
                    cx.fault(&format!("abandoned in the caller's arithmetic: {}", what));
                    cancel = None;
                    if from_lib(&shared[a]).as_ref() != Some(&spec.mats[a]) {
                        cx.violation("argument-changed", who.clone());
                    }
                    continue;
                }
                Err(e) if !spec.field && is_overflow(&e) => {
                    cx.probe("integers out of range");
                    let small = spec.small[a] && b.map(|b| spec.small[b]).unwrap_or(true);
                    if small && wide {
                        cx.violation("overflow", format!("{}: {:?}", who, e));
                    }
                }
                Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                Ok(got) => {
                    cx.judged();
                    if let Ans::Nothing = got {
                        cx.probe(&format!("nothing to report: {}", what));
                    }
                    if let Some(class) = verdict(&spec.mats[a], b.map(|b| &spec.mats[b]), what, spec.field, &got) {
                        cx.violation(class, format!("{}: {:?}", who, got));
                    }
                }
            }
            break;
        }
    });
    for (m, q) in shared.iter().zip(&spec.mats) {
        cx.check(from_lib(m).as_ref() == Some(q), "argument-changed", || format!("{:?} became {:?}", q, m));
    }
    Ok(())
}

fn power_of_two(x: i128) -> bool {
    x > 0 && x & (x - 1) == 0
}

/// Whether elimination is exact in floating point numbers, whichever way it
/// goes about it: every minor is a power of two, its negative, or zero, so
/// every number that can turn up is.
pub fn exact_in_floats(m: &QMat) -> bool {
    let (r, c) = (m.len(), m[0].len());
    if r > 5 || c > 5 || m.iter().flatten().any(|q| q.n.abs() > 64 || q.d > 64) {
        return false;
    }
    (1u32..1 << r).all(|i| (1u32..1 << c).filter(|j| j.count_ones() == i.count_ones()).all(|j| {
        let sub: QMat = (0..r).filter(|k| i >> k & 1 == 1)
            .map(|k| (0..c).filter(|l| j >> l & 1 == 1).map(|l| m[k][l]).collect()).collect();
        let d = det(&sub);
        d.is_zero() || power_of_two(d.n.abs()) && power_of_two(d.d)
    }))
}

fn exec_c28(scn: &Value, cx: &Cx) -> Result<(), String> {
    let kind = scn["kind"].as_str().ok_or("kind")?;
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let mats: Vec<QMat> = scn["mats"].as_array().ok_or("mats")?.iter().map(|m| p_mat(m, 7)).collect::<Option<_>>().ok_or("mat")?;
    if !field && mats.iter().flatten().flatten().any(|q| !q.is_int()) {
        return Err("not integral".into());
    }
    if float && mats.iter().flatten().flatten().any(|q| q.n.abs() > 1 << 20 || q.d > 1 << 10 || !power_of_two(q.d)) {
        return Err("not exact".into());
    }
    let exact: Vec<bool> = mats.iter().map(|m| !float || exact_in_floats(m)).collect();
    for t in scn["tasks"].as_array().ok_or("tasks")? {
        for op in t["ops"].as_array().ok_or("ops")? {
            let get = |k: &str| op[k].as_u64().and_then(|m| mats.get(m as usize)).ok_or(format!("{} of {}", k, op));
            let a = get("m")?;
            if op["op"] != "mul" && !exact[op["m"].as_u64().unwrap() as usize] {
                return Err("not exact".into());
            }
            match op["op"].as_str().ok_or("op")? {
                "rank" | "basis" | "null" => {}
                "det" | "inv" if a.len() == a[0].len() => {}
                "solve" if get("r")?.len() == a.len() => {}
                "mul" if get("r")?.len() == a[0].len() => {}
                _ => return Err("op".into()),
            }
        }
    }
    cx.sign(scn["mats"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    let small = mats.iter()
        .map(|m| m.len() <= 3 && m[0].len() <= 3 && m.iter().flatten().all(|q| q.n.abs() <= 9)).collect();
    let spec = Spec { field, mats, small };
    match kind {
        "big" => run_mats::<BigRational>(scn, cx, &spec),
        "f64" => run_mats::<f64>(scn, cx, &spec),
        "tickf64" => run_mats::<S<f64>>(scn, cx, &spec),
        "tickbig" => run_mats::<S<BigRational>>(scn, cx, &spec),
        "bint" => run_mats::<BigInt>(scn, cx, &spec),
        "tickbint" => run_mats::<S<BigInt>>(scn, cx, &spec),
        "i64" => run_mats::<i64>(scn, cx, &spec),
        "tick64" => run_mats::<S<i64>>(scn, cx, &spec),
        "tick32" => run_mats::<S<i32>>(scn, cx, &spec),
        _ => run_mats::<i32>(scn, cx, &spec),
    }
}

fn gen_matrix(rng: &mut Rng, r: usize, c: usize, field: bool) -> QMat {
    let top = match rng.below(10) { 0..=5 => 3, 6..=7 => 9, 8 => 1, _ => if r.max(c) <= 3 { 500 } else { 9 } };
    let den = if field && rng.chance(40) { *rng.pick(&[2i128, 3, 5, 12]) } else { 1 };
    let zeros = *rng.pick(&[10, 30, 60]);
    let mut m: QMat = (0..r).map(|_| (0..c).map(|_| {
        if rng.chance(zeros) { Q::ZERO } else { Q::new(rng.range(-top, top) as i128, den) }
    }).collect()).collect();
    // make it deficient now and then
    for i in 0..r {
        if rng.chance(15) {
            let (a, b) = (m[rng.below(r)].clone(), m[rng.below(r)].clone());
            let (f, g) = (Q::int(rng.range(-2, 2)), Q::int(rng.range(-1, 1)));
            m[i] = a.iter().zip(&b).map(|(x, y)| *x * f + *y * g).collect();
        }
    }
    if rng.chance(12) {
        let j = rng.below(c);
        for row in m.iter_mut() {
            row[j] = Q::ZERO;
        }
    }
    if rng.chance(3) {
        m = vec![vec![Q::ZERO; c]; r];
    }
    m
}

/// Integral with determinant 1 or -1.
fn unimodular(rng: &mut Rng, n: usize, steps: usize, top: i64) -> QMat {
    let mut u = identity(n);
    rng.shuffle(&mut u);
    for _ in 0..rng.below(steps + 1) {
        let (i, j) = (rng.below(n), rng.below(n));
        if i != j {
            let f = Q::int(rng.range(-top, top));
            let row = u[j].clone();
            for k in 0..n {
                u[i][k] = u[i][k] + f * row[k];
            }
        }
    }
    u
}

/// The matrix of a network, with rows and columns scaled by powers of two.
pub fn network(rng: &mut Rng, r: usize, c: usize) -> QMat {
    let (a, b) = if rng.chance(50) { (r, c) } else { (c, r) };
    let lone = *rng.pick(&[10, 40]);
    let mut m: QMat = (0..a).map(|_| {
        let mut row = vec![Q::ZERO; b];
        if rng.chance(94) {
            let (i, j) = (rng.below(b), rng.below(b));
            let f = if rng.chance(50) { Q::ONE } else { -Q::ONE };
            row[i] = f;
            if i != j && !rng.chance(lone) {
                row[j] = -f;
            }
        }
        row
    }).collect();
    if a != r {
        m = transpose(&m);
    }
    if rng.chance(60) {
        let f: Vec<Q> = (0..r + c).map(|_| *rng.pick(&[Q::new(1, 4), Q::new(1, 2), Q::ONE, Q::ONE, Q::int(2), Q::int(4)])).collect();
        for i in 0..r {
            for j in 0..c {
                m[i][j] = m[i][j] * f[i] * f[r + j];
            }
        }
    }
    m
}

fn gen_c28(rng: &mut Rng) -> Value {
    let kind = *rng.pick(&["big", "tickbig", "i64", "tick64", "i32", "tick32", "f64", "tickf64", "bint", "tickbint"]);
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let tick = kind.starts_with("tick");
    let mut mats: Vec<QMat> = vec![];
    let mut menu: Vec<(usize, &str, Option<usize>)> = vec![];
    for _ in 0..1 + rng.below(3) {
        let r = 1 + rng.weighted(&[2, 5, 5, 3, 1, 1]);
        let c = if rng.chance(50) { r } else { 1 + rng.weighted(&[2, 4, 5, 4, 1, 1]) };
        let (r, c) = if float { (r.min(5), c.min(5)) } else { (r, c) };
        let m = if float {
            network(rng, r, c)
        } else if r == c && rng.chance(30) {
            let mut u = unimodular(rng, r, 6, 2);
            if rng.chance(30) {
                let f = Q::int(rng.range(-3, 3));
                let i = rng.below(r);
                u[i] = u[i].iter().map(|x| *x * f).collect();
            }
            u
        } else {
            gen_matrix(rng, r, c, field)
        };
        let a = mats.len();
        mats.push(m.clone());
        menu.extend([(a, "rank", None), (a, "basis", None), (a, "null", None)]);
        if r == c {
            menu.extend([(a, "det", None), (a, "inv", None)]);
        }
        // right hand sides
        let k = 1 + rng.below(3);
        let mut x = gen_matrix(rng, c, k, field && !float);
        if float {
            let f = Q::new(1, *rng.pick(&[1i128, 2, 8]));
            x = x.iter().map(|row| row.iter().map(|q| *q * f).collect()).collect();
        } else if rng.chance(20) {
            // solvable over the rationals at least
            let f = Q::new(1, *rng.pick(&[2i128, 3]));
            x = x.iter().map(|row| row.iter().map(|q| *q * f).collect()).collect();
        }
        let mut b = mat_mul(&m, &x);
        if rng.chance(25) {
            let (i, j) = (rng.below(r), rng.below(k));
            b[i][j] = b[i][j] + Q::int(rng.range(-2, 2));
        }
        if field || b.iter().flatten().all(|q| q.is_int()) {
            menu.push((a, "solve", Some(mats.len())));
            mats.push(b);
        }
        if field || x.iter().flatten().all(|q| q.is_int()) {
            menu.push((a, "mul", Some(mats.len())));
            mats.push(x);
        }
    }
    let nt = 1 + rng.below(3);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(5)).map(|_| {
            let (m, what, r) = *rng.pick(&menu);
            let mut op = json!({"op": what, "m": m});
            if let Some(r) = r {
                op["r"] = json!(r);
            }
            if tick && rng.chance(30) {
                op["cancel"] = json!(rng.log2(8));
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let mats: Vec<Value> = mats.iter().map(|m| j_mat(m)).collect();
    json!({"kind": kind, "mats": mats, "tasks": tasks, "plan": gen_plan(rng, 6, 8)})
}

// ----------------------------------------------------------- C30: lattices

fn gdot(g: &QMat, v: &[Q], w: &[Q]) -> Q {
    let gw = mat_vec(g, w);
    v.iter().zip(&gw).fold(Q::ZERO, |s, (a, b)| s + *a * *b)
}

fn plus(v: &[Q], f: Q, w: &[Q]) -> QVec {
    v.iter().zip(w).map(|(a, b)| *a + f * *b).collect()
}

/// Minkowski-reduced basis (dimension at most three), shortest vector first.
fn minkowski(basis: &QMat, g: &QMat) -> QMat {
    let n = basis.len();
    let mut b = basis.clone();
    loop {
        let mut changed = false;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let t = gdot(g, &b[i], &b[j]) / gdot(g, &b[j], &b[j]);
                    let r = (t + Q::new(1, 2)).floor();
                    let v = plus(&b[i], Q { n: -r, d: 1 }, &b[j]);
                    if gdot(g, &v, &v) < gdot(g, &b[i], &b[i]) {
                        b[i] = v;
                        changed = true;
                    }
                }
            }
        }
        if n == 3 {
            for i in 0..3 {
                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                for (p, q) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                    let v = plus(&plus(&b[i], Q::int(p), &b[j]), Q::int(q), &b[k]);
                    if gdot(g, &v, &v) < gdot(g, &b[i], &b[i]) {
                        b[i] = v;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    b.sort_by_key(|v| gdot(g, v, v));
    b
}

/// The vectors that bound the Dirichlet (Voronoi) domain of the origin, one of
/// each opposite pair: those v that with -v are the only shortest ones of
/// their class modulo twice the lattice.
fn relevant(reduced: &QMat, g: &QMat) -> QMat {
    let n = reduced.len();
    // the metric in coordinates of the basis, as integers
    let r: QMat = reduced.iter().map(|v| reduced.iter().map(|w| gdot(g, v, w)).collect()).collect();
    let den = r.iter().flatten().fold(1, |d, x| d / gcd(d, x.d) * x.d);
    let r: Vec<Vec<i128>> = r.iter().map(|v| v.iter().map(|x| x.n * (den / x.d)).collect()).collect();
    let side = 5i128; // coefficients -2 to 2
    let mut best: Vec<(i128, Vec<Vec<i128>>)> = vec![(i128::MAX, vec![]); 1 << n];
    for k in 0..side.pow(n as u32) {
        let c: Vec<i128> = (0..n).map(|i| k / side.pow(i as u32) % side - 2).collect();
        let norm = (0..n).map(|i| (0..n).map(|j| c[i] * r[i][j] * c[j]).sum::<i128>()).sum::<i128>();
        let b = &mut best[(0..n).map(|i| (c[i].rem_euclid(2) as usize) << i).sum::<usize>()];
        if norm < b.0 {
            *b = (norm, vec![]);
        }
        if norm == b.0 {
            b.1.push(c);
        }
    }
    best[1..].iter().filter(|b| b.1.len() == 2).map(|b| {
        (0..n).fold(vec![Q::ZERO; n], |v, i| plus(&v, Q { n: b.1[0][i], d: 1 }, &reduced[i]))
    }).collect()
}

struct Lattice {
    basis: QMat,
    gram: QMat,
    back: QMat,
    reduced: QMat,
    walls: QMat,
    points: QMat,
}

impl Lattice {
    fn holds(&self, v: &[Q]) -> bool {
        v.len() == self.basis.len() && mat_vec(&self.back, v).iter().all(|x| x.is_int())
    }
    fn in_domain(&self, p: &[Q]) -> bool {
        self.walls.iter().all(|w| {
            let (a, b) = (gdot(&self.gram, p, w), gdot(&self.gram, w, w));
            a + a <= b && -(a + a) <= b
        })
    }
}

fn p_lattice(v: &Value) -> Option<Lattice> {
    let basis = p_mat(&v["basis"], 3)?;
    let gram = p_mat(&v["gram"], 3)?;
    let n = basis.len();
    if basis[0].len() != n || gram.len() != n || gram[0].len() != n || transpose(&gram) != gram {
        return None;
    }
    // positive definite
    for k in 1..=n {
        if det(&gram[..k].iter().map(|r| r[..k].to_vec()).collect()) <= Q::ZERO {
            return None;
        }
    }
    let back = inverse(&transpose(&basis))?;
    let points: QMat = v["points"].as_array()?.iter()
        .map(|p| p.as_array()?.iter().map(json_q).collect::<Option<QVec>>()).collect::<Option<_>>()?;
    if points.iter().any(|p| p.len() != n) {
        return None;
    }
    let reduced = minkowski(&basis, &gram);
    let walls = relevant(&reduced, &gram);
    Some(Lattice { basis, gram, back, reduced, walls, points })
}

fn rows_of<X: Num>(m: &[QVec]) -> Vec<Vec<X>> {
    m.iter().map(|r| r.iter().map(|q| X::of(*q)).collect()).collect()
}

fn q_rows<X: Num>(m: &[Vec<X>]) -> Option<QMat> {
    m.iter().map(|r| r.iter().map(|x| x.q()).collect()).collect()
}

/// A tolerance far below every difference that can turn up.
const TINY: Q = Q { n: 1, d: 1 << 90 };

/// Far more operations than reduction of what is generated here ever takes.
const METRIC_BUDGET: u64 = 400_000;
const SCALAR_BUDGET: u64 = 6_000_000;

/// Calls a function with the metric of the caller, who may give up in it.
fn ask_lattice<X>(l: &Lattice, what: &str, p: Option<&QVec>, tiny: bool, cancel: Option<u64>, budget: u64)
    -> Result<Option<Vec<Vec<X>>>, Abandon>
where
    X: Num + Coord,
    for<'a> &'a X: CoordPtr<X>,
{
    let call = |f: &mut dyn FnMut() -> Option<Vec<Vec<X>>>| seam::call_within(cancel, budget, f).0;
    let g: Vec<Vec<X>> = rows_of(&l.gram);
    let vs: Vec<Vec<X>> = rows_of(&l.basis);
    let n = vs.len();
    let dot = |v: &[X], w: &[X]| {
        seam::tick();
        let mut s = X::zero();
        for i in 0..n {
            for j in 0..n {
                s = s + &(&v[i] * &g[i][j]) * &w[j];
            }
        }
        seam::tick();
        s
    };
    let eps = if tiny { X::of(TINY) } else { X::epsilon() };
    match what {
        "dirichlet" => call(&mut || Some(dirichlet_vectors(&vs, &dot, &eps))),
        "reduced" => call(&mut || reduced_lattice_basis(&vs, &dot, &eps)),
        _ => {
            let p: Vec<X> = p.unwrap().iter().map(|q| X::of(*q)).collect();
            call(&mut || {
                let ws = dirichlet_vectors(&vs, &dot, &eps);
                Some(vec![shift_for_dirichlet_domain(&p, &ws, &dot, &eps)])
            })
        }
    }
}

fn judge_lattice(cx: &Cx, l: &Lattice, who: &str, what: &str, p: Option<&QVec>, got: Option<QMat>) {
    cx.judged();
    let n = l.basis.len();
    let norm = |v: &QVec| gdot(&l.gram, v, v);
    let Some(got) = got else { return cx.violation("nothing-found", who.into()) };
    if let Some(v) = got.iter().find(|v| !l.holds(v)) {
        return cx.violation("not-in-lattice", format!("{}: {:?}", who, v));
    }
    match what {
        "dirichlet" => {
            if got.iter().any(|v| v.iter().all(|x| x.is_zero())) {
                return cx.violation("zero-vector", format!("{}: {:?}", who, got));
            }
            for w in &l.walls {
                let m: QVec = w.iter().map(|x| -*x).collect();
                if !got.contains(w) && !got.contains(&m) {
                    return cx.violation("wall-missing", format!("{}: {:?} not in {:?}", who, w, got));
                }
            }
        }
        "reduced" => {
            if got.len() != n || det(&got).n.abs() * det(&l.basis).d != det(&l.basis).n.abs() * det(&got).d {
                return cx.violation("not-a-basis", format!("{}: {:?}", who, got));
            }
            let (a, b): (QVec, QVec) = (got.iter().map(norm).collect(), l.reduced.iter().map(norm).collect());
            if a != b {
                return cx.violation("not-reduced", format!("{}: {:?}, squared lengths {:?}, possible {:?}", who, got, a, b));
            }
            if got[1..].iter().any(|v| gdot(&l.gram, &got[0], v) > Q::ZERO) {
                return cx.violation("acute", format!("{}: {:?}", who, got));
            }
        }
        _ => {
            let p = p.unwrap();
            let at = plus(p, Q::ONE, &got[0]);
            let was = l.in_domain(p);
            cx.probe(if was { "a point inside from the start" } else { "a point outside" });
            if !l.in_domain(&at) {
                return cx.violation("outside", format!("{}: shift {:?} leads to {:?}", who, got[0], at));
            }
            if was && got[0].iter().any(|x| !x.is_zero()) {
                return cx.violation("needless-shift", format!("{}: {:?}", who, got[0]));
            }
        }
    }
}

fn exec_c30(scn: &Value, cx: &Cx) -> Result<(), String> {
    let lats: Vec<Lattice> = scn["lattices"].as_array().ok_or("lattices")?.iter().map(p_lattice).collect::<Option<_>>()
        .ok_or("lattice")?;
    let sets: Vec<QMat> = scn["sets"].as_array().ok_or("sets")?.iter().map(|s| p_mat(s, 8)).collect::<Option<_>>().ok_or("set")?;
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        let i = op["l"].as_u64().ok_or("l")? as usize;
        match op["op"].as_str().ok_or("op")? {
            "dirichlet" | "reduced" if i < lats.len() => {}
            "shift" if i < lats.len() && op["p"].as_u64().map(|p| (p as usize) < lats[i].points.len()) == Some(true) => {}
            "rational" if i < sets.len() => {}
            _ => return Err("op".into()),
        }
    }
    cx.sign(scn["lattices"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    drive(cx, 0, tasks, &plan, &|t, op| {
        let what = op["op"].as_str().unwrap();
        let i = op["l"].as_u64().unwrap() as usize;
        if what == "rational" {
            let who = format!("thread {}: lattice of {:?} and the integers", t, sets[i]);
            let vs: Vec<Vec<BigRational>> = rows_of(&sets[i]);
            let res = seam::call(None, || rational_lattice_basis(&vs));
            cx.log(&format!("{} -> {:?}", who, res));
            match res {
                Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                Ok(rows) => {
                    cx.judged();
                    let n = sets[i][0].len();
                    let mut all = sets[i].clone();
                    all.extend(identity(n));
                    let rows = q_rows(&rows).unwrap_or_default();
                    if rows.len() != n || lattice_hnf(&rows) != lattice_hnf(&all) {
                        cx.violation("wrong-lattice", format!("{}: {:?}", who, rows));
                    }
                }
            }
            return;
        }
        let l = &lats[i];
        let p = op["p"].as_u64().filter(|_| what == "shift").map(|k| &l.points[k as usize]);
        let who = format!("thread {}: {} for {:?} with metric {:?}{}", t, what, l.basis, l.gram,
            p.map(|p| format!(" at {:?}", p)).unwrap_or_default());
        let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
        let tiny = op["tiny"].as_bool() == Some(true);
        loop {
            let res = if op["tick"].as_bool() == Some(true) {
                ask_lattice::<B>(l, what, p, tiny, cancel, SCALAR_BUDGET).map(|o| o.map(|m| q_rows(&m)))
            } else {
                ask_lattice::<BigRational>(l, what, p, tiny, cancel, METRIC_BUDGET).map(|o| o.map(|m| q_rows(&m)))
            };
            cx.log(&format!("{} -> {:?}", who, res));
            match res {
                Err(Abandon::Cancelled) => {
                    cx.fault(&format!("abandoned in the caller's metric or arithmetic: {}", what));
                    cancel = None;
                    continue;
                }
                Err(Abandon::Budget(_)) => cx.violation("endless", who.clone()),
                Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                Ok(Some(None)) => cx.violation("absurd", who.clone()),
                Ok(o) => judge_lattice(cx, l, &who, what, p, o.flatten()),
            }
            break;
        }
    });
    Ok(())
}

fn gen_lattice(rng: &mut Rng) -> (QMat, QMat, QMat) {
    let n = 1 + rng.weighted(&[1, 5, 7]);
    // a metric: the usual one, one with symmetry, or anything positive definite
    let mut gram = match rng.below(6) {
        0 | 1 => identity(n),
        2 => {
            // hexagonal-like and its relatives
            let mut g = identity(n).iter().map(|r| r.iter().map(|x| *x * Q::int(2)).collect()).collect::<QMat>();
            let f = Q::int(*rng.pick(&[-1i64, 1]));
            for i in 0..n {
                for j in 0..n {
                    if i != j && i < 2 && j < 2 {
                        g[i][j] = f;
                    }
                }
            }
            g
        }
        3 => (0..n).map(|i| (0..n).map(|j| Q::int(match n {
            // face or body centred
            3 => if i == j { 3 } else { -1 },
            _ => if i == j { 2 } else { 0 },
        })).collect()).collect(),
        4 => (0..n).map(|i| (0..n).map(|j| if i == j { Q::new(rng.range(1, 40) as i128, rng.range(1, 9) as i128) } else { Q::ZERO })
            .collect()).collect(),
        _ => {
            let b: QMat = (0..n).map(|i| (0..n).map(|j| Q::int(rng.range(-3, 3) + if i == j { 2 } else { 0 })).collect()).collect();
            if det(&b).is_zero() { identity(n) } else { mat_mul(&transpose(&b), &b) }
        }
    };
    if rng.chance(25) {
        let f = Q::new(rng.range(1, 30) as i128, rng.range(1, 30) as i128);
        gram = gram.iter().map(|r| r.iter().map(|x| *x * f).collect()).collect();
    }
    // a lattice in it, and a basis far from reduced
    let mut basis: QMat = if rng.chance(50) {
        identity(n)
    } else {
        let den = *rng.pick(&[1i128, 1, 2, 3, 4]);
        let b: QMat = (0..n).map(|_| (0..n).map(|_| Q::new(rng.range(-4, 4) as i128, den)).collect()).collect();
        if det(&b).is_zero() { identity(n) } else { b }
    };
    let top = *rng.pick(&[1, 2, 5, 12]);
    let u = unimodular(rng, n, if top > 5 { 3 } else { 8 }, top);
    basis = mat_mul(&u, &basis);
    let points: QMat = (0..1 + rng.below(3)).map(|_| {
        let den = *rng.pick(&[1i128, 2, 2, 3, 4, 6, 10, 7]);
        let top = *rng.pick(&[2i64, 10, 1000]);
        let mut p: QVec = (0..n).map(|_| Q::new(rng.range(-top, top) as i128, den)).collect();
        if rng.chance(30) {
            // half way between points of the lattice: on the boundary
            p = basis.iter().fold(vec![Q::ZERO; n], |v, b| plus(&v, Q::new(rng.range(-3, 3) as i128, 2), b));
        }
        p
    }).collect();
    (basis, gram, points)
}

fn gen_c30(rng: &mut Rng) -> Value {
    let mut lats: Vec<(QMat, QMat, QMat)> = vec![];
    for _ in 0..1 + rng.below(2) {
        let l = gen_lattice(rng);
        if rng.chance(30) {
            // the same vectors with another metric
            let mut m = l.clone();
            for i in 0..m.1.len() {
                m.1[i][i] = m.1[i][i] + Q::int(rng.range(1, 5));
            }
            lats.push(m);
        }
        lats.push(l);
    }
    let sets: Vec<QMat> = (0..1 + rng.below(2)).map(|_| {
        let n = 1 + rng.below(4);
        let dens: Vec<i128> = (0..2).map(|_| *rng.pick(&[1i128, 2, 3, 4, 5, 6, 8, 9, 12, 24])).collect();
        let top = *rng.pick(&[3i64, 12, 60]);
        (0..1 + rng.below(4)).map(|_| {
            let d = *rng.pick(&dens);
            (0..n).map(|_| if rng.chance(20) { Q::ZERO } else { Q::new(rng.range(-top, top) as i128, d) }).collect()
        }).collect()
    }).collect();
    let mut sets = sets;
    while rng.chance(30) && sets.len() < 4 {
        // a set that has much in common with another one
        let mut s = rng.pick(&sets).clone();
        for _ in 0..1 + rng.below(2) {
            let i = s.len() - 1 - rng.below(s.len()) / 2;
            let k = rng.below(s[i].len());
            let d = s[i].iter().map(|x| x.d).max().unwrap();
            s[i][k] = match rng.below(3) {
                0 => Q::ZERO,
                1 => -s[i][k],
                _ => Q::new(rng.range(-12, 12) as i128, d),
            };
        }
        sets.push(s);
    }
    let rational = if sets.len() > 2 { 40 } else { 15 };
    let nt = 1 + rng.below(3);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(4)).map(|_| {
            if rng.chance(rational) {
                return json!({"op": "rational", "l": rng.below(sets.len())});
            }
            let l = rng.below(lats.len());
            let what = *rng.pick(&["dirichlet", "reduced", "shift", "shift"]);
            let mut op = json!({"op": what, "l": l, "tick": rng.chance(40)});
            if what == "shift" {
                op["p"] = json!(rng.below(lats[l].2.len()));
            }
            if rng.chance(30) {
                op["cancel"] = json!(rng.log2(9));
            }
            if rng.chance(25) {
                op["tiny"] = json!(true);
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let lats: Vec<Value> = lats.iter()
        .map(|(b, g, p)| json!({"basis": j_mat(b), "gram": j_mat(g), "points": j_mat(p)})).collect();
    let sets: Vec<Value> = sets.iter().map(|s| j_mat(s)).collect();
    json!({"lattices": lats, "sets": sets, "tasks": tasks, "plan": gen_plan(rng, 6, 8)})
}

pub static PROPS: [Prop; 2] = [
    Prop {
        id: "C28", gen: gen_c28, exec: exec_c28, quick_runs: 150_000, thorough_runs: 2_000_000,
        rule: "distinct (matrices, questions of every thread, schedule actually taken)",
        real: "rank, determinant, reduced_basis, solve, null_space, inverse and matrix products for rationals, big integers, i64, i32 and f64",
        stubs: "the caller's scalar types (ticking wrappers around num-rational and primitive integers)",
        assumptions: &["Integers that go out of the range of their type are outside the property, unless the matrix \
            has at most three rows and columns of entries up to nine."],
    },
    Prop {
        id: "C30", gen: gen_c30, exec: exec_c30, quick_runs: 35_000, thorough_runs: 1_000_000,
        rule: "distinct (lattices, metrics, points, calls of every thread, schedule actually taken)",
        real: "dirichlet_vectors, reduced_lattice_basis, shift_for_dirichlet_domain, rational_lattice_basis",
        stubs: "the caller's metric and scalar types (exact, interruptible)",
        assumptions: &["Bases are independent and as long as their dimension, metrics positive definite, arithmetic exact; \
            a tolerance, if there is one, is smaller than every difference that matters."],
    },
];
