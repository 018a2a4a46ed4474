//! Histories of vectors, points, affine and coordinate maps: C31.

use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use serde_json::{json, Value};
use std::fmt;
use std::sync::Mutex;

use crate::frac::*;
use crate::iosim::{gen_plan, SimFmt};
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::callers::*;
use crate::s_group::{compose, json_op, json_q, op_json};
use crate::sched::{common, drive};
use crate::s_linalg::{exact_in_floats, j_mat, j_q, network, p_mat};
use crate::s_table::Op;
use crate::seam::{self, is_overflow, Abandon};

// ------------------------------------------------------------------ values

/// A value as it should be.
#[derive(Clone, Debug, PartialEq)]
enum M {
    V(QVec),
    P(QVec),
    A(Op),
    /// forward and backward
    C(Op, Op),
    S(QMat),
}

/// What an operation should give.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Val(M),
    Num(Q),
    Bool(bool),
    Text(Vec<Vec<Q>>),
    Nothing,
    /// not defined: the library stops with a message of its own
    Refused,
}

fn kind(m: &M) -> char {
    match m {
        M::V(_) => 'v',
        M::P(_) => 'p',
        M::A(_) => 'a',
        M::C(..) => 'c',
        M::S(_) => 's',
    }
}

fn dim(m: &M) -> usize {
    match m {
        M::V(v) | M::P(v) => v.len(),
        M::A(a) | M::C(a, _) => a.shift.len(),
        M::S(s) => s.len(),
    }
}

fn numbers(m: &M) -> Vec<Q> {
    let of = |a: &Op| a.lin.iter().flatten().chain(&a.shift).copied().collect::<Vec<_>>();
    match m {
        M::V(v) | M::P(v) => v.clone(),
        M::A(a) => of(a),
        M::C(a, b) => [of(a), of(b)].concat(),
        M::S(s) => s.iter().flatten().copied().collect(),
    }
}

fn fits(m: &M) -> bool {
    numbers(m).iter().all(|q| q.n.abs() <= 1_000_000 && q.d <= 1_000_000)
}

/// Small enough for integral elimination not to leave its type.
fn tiny(m: &M) -> bool {
    dim(m) <= 3 && numbers(m).iter().all(|q| q.n.abs() <= 9)
}

fn to_json(m: &M) -> Value {
    let vec = |v: &QVec| v.iter().map(j_q).collect::<Vec<_>>();
    match m {
        M::V(v) => json!({"v": vec(v)}),
        M::P(v) => json!({"p": vec(v)}),
        M::A(a) => json!({"a": op_json(a)}),
        M::C(a, _) => json!({"c": op_json(a)}),
        M::S(s) => json!({"s": j_mat(s)}),
    }
}

fn of_json(v: &Value, field: bool) -> Option<M> {
    let vec = |v: &Value| v.as_array()?.iter().map(json_q).collect::<Option<QVec>>().filter(|v| !v.is_empty() && v.len() <= 7);
    let m = if v["v"].is_array() {
        M::V(vec(&v["v"])?)
    } else if v["p"].is_array() {
        M::P(vec(&v["p"])?)
    } else if v["a"].is_object() {
        M::A(json_op(&v["a"])?)
    } else if v["c"].is_object() {
        let a = json_op(&v["c"])?;
        let b = invert(&a, field)?;
        M::C(a, b)
    } else {
        let s = p_mat(&v["s"], 7)?;
        is_metric(&s).then_some(M::S(s))?
    };
    let ok = fits(&m) && (field || numbers(&m).iter().all(|q| q.is_int()));
    ok.then_some(m)
}

fn is_metric(s: &QMat) -> bool {
    s.len() == s[0].len() && transpose(s) == *s
        && (1..=s.len()).all(|k| det(&s[..k].iter().map(|r| r[..k].to_vec()).collect::<QMat>()) > Q::ZERO)
}

fn invert(a: &Op, field: bool) -> Option<Op> {
    let lin = inverse(&a.lin).filter(|m| field || m.iter().flatten().all(|x| x.is_int()))?;
    Some(Op { shift: mat_vec(&lin, &a.shift).iter().map(|x| -*x).collect(), lin })
}

fn lin(m: QMat) -> Op {
    Op { shift: vec![Q::ZERO; m.len()], lin: m }
}

// ------------------------------------------------------------------- model

/// Name, kinds of the arguments, and whether the first is changed in place.
const OPS: &[(&str, &str, bool)] = &[
    ("neg", "v", false), ("mod", "v", false), ("add", "vv", false), ("sub", "vv", false),
    ("mul", "v", false), ("div", "v", false), ("collect", "v", false), ("unit", "v", false), ("zero", "v", false),
    ("add=", "vv", true), ("sub=", "vv", true), ("mul=", "v", true), ("div=", "v", true), ("set=", "v", true),
    ("p+", "pv", false), ("p-", "pv", false), ("p-p", "pp", false), ("p+=", "pv", true), ("p-=", "pv", true),
    ("pset=", "p", true), ("origin", "p", false), ("pcollect", "p", false),
    ("join", "av", false), ("linear", "a", false), ("shift", "a", false), ("a*a", "aa", false), ("a*p", "ap", false),
    ("a*v", "av", false), ("a^-1", "a", false), ("amod", "a", false), ("aid", "a", false), ("aisid", "a", false),
    ("c", "a", false), ("cmat", "a", false), ("from_basis", "a", false), ("to_basis", "a", false), ("cid", "c", false),
    ("cisid", "c", false), ("c^-1", "c", false), ("c*c", "cc", false), ("c*p", "cp", false), ("c*v", "cv", false),
    ("c*s", "cs", false), ("c*a", "ca", false), ("det", "c", false), ("forward", "c", false),
    ("s", "s", false), ("sdefault", "s", false), ("s(v,v)", "svv", false), ("sentry", "s", false),
    ("v==v", "vv", false), ("p==p", "pp", false), ("a==a", "aa", false), ("c==c", "cc", false), ("s==s", "ss", false),
    ("show v", "v", false), ("show p", "p", false), ("show a", "a", false), ("show c", "c", false), ("show s", "s", false),
];

fn rows_of(m: &M) -> Vec<Vec<Q>> {
    match m {
        M::V(v) | M::P(v) => v.iter().map(|x| vec![*x]).collect(),
        M::S(s) => s.clone(),
        M::A(a) | M::C(a, _) => a.lin.iter().zip(&a.shift).map(|(r, t)| [r.clone(), vec![*t]].concat()).collect(),
    }
}

/// What the operation should give, or nothing if it should not be asked.
fn model(name: &str, op: &Value, args: &[M], field: bool) -> Option<Out> {
    let k = json_q(&op["k"]).unwrap_or(Q::ONE);
    let i = op["i"].as_u64().unwrap_or(0) as usize;
    let n = dim(&args[0]);
    let zip = |a: &QVec, b: &QVec, f: fn(Q, Q) -> Q| -> QVec { a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect() };
    let frac = |v: &QVec| -> QVec { v.iter().map(|x| x.frac()).collect() };
    if name == "s" {
        // a matrix that may or may not be a metric
        let m = p_mat(&op["m"], 7)?;
        if !field && m.iter().flatten().any(|q| !q.is_int()) {
            return None;
        }
        return Some(if is_metric(&m) { Out::Val(M::S(m)) } else { Out::Refused });
    }
    if let ("mul" | "div" | "mul=" | "div=" | "set=" | "pset=", false) = (name, field || k.is_int()) {
        return None;
    }
    if args.iter().any(|a| dim(a) != n) && !name.contains("==") {
        return Some(Out::Refused);
    }
    let sure = |c: Option<M>| c.map(Out::Val).unwrap_or(Out::Refused);
    let coord = |f: Op| sure(invert(&f, field).map(|b| M::C(f, b)));
    let cols = |a: &Op| lin(a.lin.clone());
    let id = lin(identity(n));
    Some(match (name, args) {
        ("neg", [M::V(v)]) => Out::Val(M::V(v.iter().map(|x| -*x).collect())),
        ("mod", [M::V(v)]) => Out::Val(M::V(frac(v))),
        ("add" | "add=", [M::V(v), M::V(w)]) => Out::Val(M::V(zip(v, w, |x, y| x + y))),
        ("sub" | "sub=", [M::V(v), M::V(w)]) => Out::Val(M::V(zip(v, w, |x, y| x - y))),
        ("mul" | "mul=", [M::V(v)]) => Out::Val(M::V(v.iter().map(|x| *x * k).collect())),
        ("div" | "div=", [M::V(v)]) => {
            if k.is_zero() {
                return None;
            }
            let w: QVec = v.iter().map(|x| *x / k).collect();
            if !field && w.iter().any(|x| !x.is_int()) {
                return None;
            }
            Out::Val(M::V(w))
        }
        ("set=", [M::V(v)]) => {
            let mut v = v.clone();
            v[i % n] = k;
            Out::Val(M::V(v))
        }
        ("pset=", [M::P(v)]) => {
            let mut v = v.clone();
            v[i % n] = k;
            Out::Val(M::P(v))
        }
        ("collect", [m]) | ("pcollect", [m]) => Out::Val(m.clone()),
        ("unit", _) => Out::Val(M::V(identity(n)[i % n].clone())),
        ("zero", _) => Out::Val(M::V(vec![Q::ZERO; n])),
        ("origin", _) => Out::Val(M::P(vec![Q::ZERO; n])),
        ("p+" | "p+=", [M::P(v), M::V(w)]) => Out::Val(M::P(zip(v, w, |x, y| x + y))),
        ("p-" | "p-=", [M::P(v), M::V(w)]) => Out::Val(M::P(zip(v, w, |x, y| x - y))),
        ("p-p", [M::P(v), M::P(w)]) => Out::Val(M::V(zip(v, w, |x, y| x - y))),
        ("join", [M::A(a), M::V(v)]) => Out::Val(M::A(Op { lin: a.lin.clone(), shift: v.clone() })),
        ("linear", [M::A(a)]) => Out::Val(M::A(cols(a))),
        ("shift", [M::A(a)]) => Out::Val(M::V(a.shift.clone())),
        ("a*a", [M::A(a), M::A(b)]) => Out::Val(M::A(compose(a, b))),
        ("a*p", [M::A(a), M::P(p)]) | ("c*p", [M::C(a, _), M::P(p)]) =>
            Out::Val(M::P(zip(&mat_vec(&a.lin, p), &a.shift, |x, y| x + y))),
        ("a*v", [M::A(a), M::V(v)]) | ("c*v", [M::C(a, _), M::V(v)]) => Out::Val(M::V(mat_vec(&a.lin, v))),
        ("a^-1", [M::A(a)]) => invert(a, field).map(|b| Out::Val(M::A(b))).unwrap_or(Out::Nothing),
        ("amod", [M::A(a)]) => Out::Val(M::A(Op { lin: a.lin.clone(), shift: frac(&a.shift) })),
        ("aid", _) => Out::Val(M::A(id)),
        ("aisid", [M::A(a)]) | ("cisid", [M::C(a, _)]) => Out::Bool(*a == id),
        ("c", [M::A(a)]) => coord(a.clone()),
        ("cmat" | "from_basis", [M::A(a)]) => coord(cols(a)),
        ("to_basis", [M::A(a)]) => sure(invert(&cols(a), field).map(|b| M::C(b, cols(a)))),
        ("cid", _) => Out::Val(M::C(id.clone(), id)),
        ("c^-1", [M::C(a, b)]) => Out::Val(M::C(b.clone(), a.clone())),
        ("c*c", [M::C(a, b), M::C(c, d)]) => Out::Val(M::C(compose(a, c), compose(d, b))),
        ("c*s", [M::C(_, b), M::S(s)]) => Out::Val(M::S(mat_mul(&transpose(&b.lin), &mat_mul(s, &b.lin)))),
        ("c*a", [M::C(a, b), M::A(f)]) => Out::Val(M::A(compose(&compose(a, f), b))),
        ("det", [M::C(a, _)]) => Out::Num(det(&a.lin)),
        ("forward", [M::C(a, _)]) => Out::Val(M::A(a.clone())),
        ("sdefault", _) => Out::Val(M::S(identity(n))),
        ("s(v,v)", [M::S(s), M::V(v), M::V(w)]) =>
            Out::Num(v.iter().zip(&mat_vec(s, w)).fold(Q::ZERO, |t, (x, y)| t + *x * *y)),
        ("sentry", [M::S(s)]) => Out::Num(s[i % n][(i / n) % n]),
        ("v==v" | "p==p" | "a==a" | "c==c" | "s==s", [a, b]) => Out::Bool(a == b),
        (show, [a]) if show.starts_with("show") => Out::Text(rows_of(a)),
        _ => return None,
    })
}

/// Operations that eliminate, and so may leave the range of integers.
fn eliminates(name: &str) -> bool {
    matches!(name, "a^-1" | "c" | "cmat" | "from_basis" | "to_basis" | "det" | "s" | "c*s")
}

/// Whether floating point numbers do all of an operation without rounding.
fn rounds_nothing(name: &str, op: &Value, args: &[M], out: &Out) -> bool {
    let good = |q: &Q| q.d <= 1 << 12 && q.d & (q.d - 1) == 0;
    let lin = |m: &M| match m {
        M::A(a) | M::C(a, _) => exact_in_floats(&a.lin),
        M::S(s) => exact_in_floats(s),
        _ => true,
    };
    let out = match out {
        Out::Val(m) => numbers(m).iter().all(good) && (!eliminates(name) || lin(m)),
        Out::Num(q) => good(q),
        _ => true,
    };
    let k = json_q(&op["k"]).map_or(true, |k| good(&k));
    let m = name != "s" || p_mat(&op["m"], 7).map_or(false, |m| exact_in_floats(&m));
    out && k && m && (!eliminates(name) || args.iter().all(lin))
}

/// The numbers of a text, line by line.
pub fn read_text(t: &str) -> Option<Vec<Vec<Q>>> {
    t.lines().map(|l| l.split_whitespace().map(|w| {
        if w.contains('.') {
            return w.parse::<f64>().ok()?.q();
        }
        let (n, d) = w.split_once('/').unwrap_or((w, "1"));
        let (n, d): (i128, i128) = (n.parse().ok()?, d.parse().ok()?);
        (d != 0).then(|| Q::new(n, d))
    }).collect()).collect()
}

// ------------------------------------------------------------ the real code

trait Runner {
    fn run(scn: &Value, cx: &Cx, shared: &[M]) -> Result<(), String>;
}

macro_rules! with_scalar { ($name:ident, $x:ty, $field:expr, $float:expr) => {
    struct $name;
    impl $name {
        const FIELD: bool = $field;
        const FLOAT: bool = $float;
    }
    const _: () = {
        type X = $x;

        #[derive(Clone)]
        enum L {
            V(Vector<X, World>),
            P(Point<X, World>),
            A(AffineMap<X, World>),
            C(CoordinateMap<X, World, World>),
            S(ScalarProduct<X, World>),
        }

        /// What came of an operation.
        enum Got {
            Val(L),
            Num(X),
            Bool(bool),
            Text(String, Result<(), fmt::Error>),
            Nothing,
        }

        fn xs(v: &[Q]) -> Vec<X> {
            v.iter().map(|q| X::of(*q)).collect()
        }
        fn mat(m: &QMat) -> Matrix<X> {
            Matrix::new(m[0].len(), &xs(&m.concat()))
        }
        fn to_lib(m: &M) -> L {
            let aff = |a: &Op| AffineMap::<X, World>::new(&mat(&a.lin), &Vector::new(&xs(&a.shift)));
            match m {
                M::V(v) => L::V(Vector::new(&xs(v))),
                M::P(v) => L::P(Point::new(&xs(v))),
                M::A(a) => L::A(aff(a)),
                M::C(a, _) => L::C(CoordinateMap::new(&aff(a))),
                M::S(s) => L::S(ScalarProduct::from(mat(s))),
            }
        }
        fn from_lib(l: &L) -> Option<M> {
            let aff = |a: &AffineMap<X, World>| {
                let (m, s, n) = (a.linear_matrix(), a.shift(), a.dim());
                if m.shape() != (n, n) || s.dim() != n {
                    return None;
                }
                let lin = (0..n).map(|i| (0..n).map(|j| m[(i, j)].q()).collect()).collect::<Option<QMat>>()?;
                Some(Op { lin, shift: (0..n).map(|i| s[i].q()).collect::<Option<QVec>>()? })
            };
            Some(match l {
                L::V(v) => M::V((0..v.dim()).map(|i| v[i].q()).collect::<Option<_>>()?),
                L::P(v) => M::P((0..v.dim()).map(|i| v[i].q()).collect::<Option<_>>()?),
                L::A(a) => M::A(aff(a)?),
                L::C(c) => M::C(aff(&c.forward())?, aff(&c.inverse().forward())?),
                L::S(s) => {
                    let n = s.dim();
                    M::S((0..n).map(|i| (0..n).map(|j| s[(i, j)].q()).collect()).collect::<Option<_>>()?)
                }
            })
        }

        fn plain(name: &str, op: &Value, args: &[&L], cx: &Cx) -> Got {
            let k = X::of(json_q(&op["k"]).unwrap_or(Q::ONE));
            let i = op["i"].as_u64().unwrap_or(0) as usize;
            let f = op["f"].as_u64().unwrap_or(0);
            let n = match args[0] {
                L::V(v) => v.dim(),
                L::P(v) => v.dim(),
                L::A(a) => a.dim(),
                L::C(a) => a.dim(),
                L::S(a) => a.dim(),
            };
            let columns = |a: &AffineMap<X, World>| -> Vec<Vector<X, World>> {
                let m = a.linear_matrix();
                (0..n).map(|j| Vector::new(&m.get_col(j))).collect()
            };
            let show = |t: &dyn fmt::Display| {
                let mut w = SimFmt { cx, got: String::new(), room: op["room"].as_u64().unwrap_or(1 << 20) as usize,
                    failed: false, after: 0, once: false };
                let r = fmt::Write::write_fmt(&mut w, format_args!("{}", t));
                if w.failed && r.is_ok() {
                    cx.violation("failure-ignored", format!("{}: the sink failed and the caller was told all is well", name));
                }
                if !w.failed && r.is_err() {
                    cx.violation("failure-invented", format!("{}: the sink never failed", name));
                }
                if w.after > 0 {
                    cx.violation("write-after-failure", format!("{}: {} more writes", name, w.after));
                }
                Got::Text(w.got, r)
            };
            Got::Val(match (name, args) {
                ("neg", [L::V(v)]) => L::V(if f % 2 == 0 { -v } else { -v.clone() }),
                ("mod", [L::V(v)]) => L::V(v.mod_z()),
                ("add", [L::V(v), L::V(w)]) => L::V(match f % 4 {
                    0 => v + w, 1 => v + w.clone(), 2 => v.clone() + w, _ => v.clone() + w.clone() }),
                ("sub", [L::V(v), L::V(w)]) => L::V(match f % 4 {
                    0 => v - w, 1 => v - w.clone(), 2 => v.clone() - w, _ => v.clone() - w.clone() }),
                ("mul", [L::V(v)]) => L::V(match f % 4 { 0 => v * &k, 1 => v * k, 2 => v.clone() * &k, _ => v.clone() * k }),
                ("div", [L::V(v)]) => L::V(match f % 4 { 0 => v / &k, 1 => v / k, 2 => v.clone() / &k, _ => v.clone() / k }),
                ("collect", [L::V(v)]) => L::V(if f % 2 == 0 { v.iter().cloned().collect() } else { v.clone().into_iter().collect() }),
                ("unit", _) => L::V(Vector::unit(n, i % n)),
                ("zero", _) => L::V(Vector::zero(n)),
                ("origin", _) => L::P(Point::origin(n)),
                ("pcollect", [L::P(v)]) => L::P(if f % 2 == 0 { v.iter().cloned().collect() } else { v.clone().into_iter().collect() }),
                ("p+", [L::P(v), L::V(w)]) => L::P(match f % 4 {
                    0 => v + w, 1 => v + w.clone(), 2 => v.clone() + w, _ => v.clone() + w.clone() }),
                ("p-", [L::P(v), L::V(w)]) => L::P(match f % 4 {
                    0 => v - w, 1 => v - w.clone(), 2 => v.clone() - w, _ => v.clone() - w.clone() }),
                ("p-p", [L::P(v), L::P(w)]) => L::V(match f % 4 {
                    0 => v - w, 1 => v - w.clone(), 2 => v.clone() - w, _ => v.clone() - w.clone() }),
                ("join", [L::A(a), L::V(v)]) => L::A(AffineMap::new(&a.linear_matrix(), v)),
                ("linear", [L::A(a)]) => L::A(a.linear_matrix().into()),
                ("shift", [L::A(a)]) => L::V(a.shift()),
                ("a*a", [L::A(a), L::A(b)]) => L::A(match f % 4 {
                    0 => a * b, 1 => a * b.clone(), 2 => a.clone() * b, _ => a.clone() * b.clone() }),
                ("a*p", [L::A(a), L::P(b)]) => L::P(match f % 4 {
                    0 => a * b, 1 => a * b.clone(), 2 => a.clone() * b, _ => a.clone() * b.clone() }),
                ("a*v", [L::A(a), L::V(b)]) => L::V(match f % 4 {
                    0 => a * b, 1 => a * b.clone(), 2 => a.clone() * b, _ => a.clone() * b.clone() }),
                ("a^-1", [L::A(a)]) => match a.inverse() {
                    Some(a) => L::A(a),
                    None => return Got::Nothing,
                },
                ("amod", [L::A(a)]) => L::A(a.mod_z()),
                ("aid", _) => L::A(AffineMap::identity(n)),
                ("aisid", [L::A(a)]) => return Got::Bool(a.is_identity()),
                ("c", [L::A(a)]) => L::C(CoordinateMap::new(a)),
                ("cmat", [L::A(a)]) => L::C(a.linear_matrix().into()),
                ("from_basis", [L::A(a)]) => L::C(CoordinateMap::from_basis(&columns(a))),
                ("to_basis", [L::A(a)]) => L::C(CoordinateMap::to_basis(&columns(a))),
                ("cid", _) => L::C(CoordinateMap::identity(n)),
                ("cisid", [L::C(a)]) => return Got::Bool(a.is_identity()),
                ("c^-1", [L::C(a)]) => L::C(a.inverse()),
                ("c*c", [L::C(a), L::C(b)]) => L::C(if f % 2 == 0 { a * b } else { a.clone() * b.clone() }),
                ("c*p", [L::C(a), L::P(b)]) => L::P(if f % 2 == 0 { a * b } else { a.clone() * b.clone() }),
                ("c*v", [L::C(a), L::V(b)]) => L::V(if f % 2 == 0 { a * b } else { a.clone() * b.clone() }),
                ("c*s", [L::C(a), L::S(b)]) => L::S(if f % 2 == 0 { a * b } else { a.clone() * b.clone() }),
                ("c*a", [L::C(a), L::A(b)]) => L::A(if f % 2 == 0 { a * b } else { a.clone() * b.clone() }),
                ("det", [L::C(a)]) => return Got::Num(a.determinant()),
                ("forward", [L::C(a)]) => L::A(a.forward()),
                ("s", _) => L::S(ScalarProduct::from(mat(&p_mat(&op["m"], 7).unwrap()))),
                ("sdefault", _) => L::S(ScalarProduct::default(n)),
                ("s(v,v)", [L::S(s), L::V(v), L::V(w)]) => return Got::Num(s.apply(v, w)),
                ("sentry", [L::S(s)]) => return Got::Num(s[(i % n, (i / n) % n)].clone()),
                ("v==v", [L::V(v), L::V(w)]) => return Got::Bool(v == w),
                ("p==p", [L::P(v), L::P(w)]) => return Got::Bool(v == w),
                ("a==a", [L::A(v), L::A(w)]) => return Got::Bool(v == w),
                ("c==c", [L::C(v), L::C(w)]) => return Got::Bool(v == w),
                ("s==s", [L::S(v), L::S(w)]) => return Got::Bool(v == w),
                ("show v", [L::V(v)]) => return show(v),
                ("show p", [L::P(v)]) => return show(v),
                ("show a", [L::A(v)]) => return show(v),
                ("show c", [L::C(v)]) => return show(v),
                ("show s", [L::S(v)]) => return show(v),
                _ => unreachable!(),
            })
        }

        fn in_place(name: &str, op: &Value, x: &mut L, rest: &[&L]) {
            let k = X::of(json_q(&op["k"]).unwrap_or(Q::ONE));
            let i = op["i"].as_u64().unwrap_or(0) as usize;
            let own = op["f"].as_u64().unwrap_or(0) % 2 == 1;
            match (name, x, rest) {
                ("add=", L::V(v), [L::V(w)]) => if own { *v += w.clone() } else { *v += w },
                ("sub=", L::V(v), [L::V(w)]) => if own { *v -= w.clone() } else { *v -= w },
                ("mul=", L::V(v), _) => if own { *v *= k } else { *v *= &k },
                ("div=", L::V(v), _) => if own { *v /= k } else { *v /= &k },
                ("p+=", L::P(v), [L::V(w)]) => if own { *v += w.clone() } else { *v += w },
                ("p-=", L::P(v), [L::V(w)]) => if own { *v -= w.clone() } else { *v -= w },
                ("set=", L::V(v), _) => { let n = v.dim(); v[i % n] = k }
                ("pset=", L::P(v), _) => { let n = v.dim(); v[i % n] = k }
                _ => unreachable!(),
            }
        }

        impl Runner for $name {
            fn run(scn: &Value, cx: &Cx, want: &[M]) -> Result<(), String> {
                let (tasks, plan) = common(scn)?;
                let shared: Vec<L> = want.iter().map(to_lib).collect();
                let own: Vec<Mutex<Vec<(L, M)>>> = tasks.iter().map(|_| Mutex::new(vec![])).collect();
                drive(cx, 0, tasks, &plan, &|t, op| {
                    let mut own = own[t].lock().unwrap();
                    let name = op["op"].as_str().unwrap();
                    let (_, kinds, changes) = OPS.iter().find(|o| o.0 == name).unwrap();
                    // which values: the shared ones first, then those of this thread
                    let mut at = vec![];
                    for (j, c) in kinds.chars().enumerate() {
                        let mine = *changes && j == 0;
                        let all: Vec<usize> = (0..want.len() + own.len())
                            .filter(|a| if *a < want.len() { !mine && kind(&want[*a]) == c } else { kind(&own[*a - want.len()].1) == c })
                            .collect();
                        if all.is_empty() {
                            return;
                        }
                        at.push(all[op["a"][j].as_u64().unwrap_or(0) as usize % all.len()]);
                    }
                    let margs: Vec<M> = at.iter().map(|a| if *a < want.len() { want[*a].clone() } else { own[*a - want.len()].1.clone() }).collect();
                    let Some(expect) = model(name, op, &margs, Self::FIELD) else { return };
                    if let Out::Val(m) = &expect {
                        if !fits(m) {
                            return;
                        }
                    }
                    if Self::FLOAT && !rounds_nothing(name, op, &margs, &expect) {
                        cx.probe("left out for the sake of rounding");
                        return;
                    }
                    let who = format!("thread {}: {} {:?} k={} i={} m={} form {}", t, name, margs, op["k"], op["i"], op["m"], op["f"]);
                    let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
                    loop {
                        let res: Result<Got, Abandon> = if *changes {
                            let mine = at[0] - want.len();
                            let mut x = own[mine].0.clone();
                            let rest: Vec<L> = at[1..].iter()
                                .map(|a| if *a < want.len() { shared[*a].clone() } else { own[*a - want.len()].0.clone() }).collect();
                            let rest: Vec<&L> = rest.iter().collect();
                            let r = seam::call(cancel, || in_place(name, op, &mut x, &rest)).map(|_| ());
                            if r.is_ok() || expect == Out::Refused {
                                own[mine].0 = x.clone();
                            } else if from_lib(&x).map(|m| dim(&m)) != Some(dim(&margs[0])) {
                                cx.violation("torn", format!("{}: abandoned, it has become {:?}", who, from_lib(&x)));
                            }
                            r.map(|_| Got::Val(x))
                        } else {
                            let args: Vec<&L> = at.iter().map(|a| if *a < want.len() { &shared[*a] } else { &own[*a - want.len()].0 }).collect();
                            seam::call(cancel, || plain(name, op, &args, cx))
                        };
                        // nothing that was only read has changed
                        for (j, a) in at.iter().enumerate() {
                            let l = if *a < want.len() { &shared[*a] } else { &own[*a - want.len()].0 };
                            let done = *changes && *a == at[0] && res.is_ok();
                            if !done && from_lib(l).as_ref() != Some(&margs[j]) {
                                cx.violation("argument-changed", format!("{}: argument {} became {:?}", who, j, from_lib(l)));
                            }
                        }
                        let got = match res {
                            Err(Abandon::Cancelled) => {
                                cx.fault("abandoned in the caller's arithmetic");
                                cx.log(&format!("{} abandoned", who));
                                cancel = None;
                                continue;
                            }
                            Err(Abandon::Panic(_)) if expect == Out::Refused => {
                                cx.judged();
                                cx.probe("refused");
                                cx.log(&format!("{} refused", who));
                                break;
                            }
                            Err(e) if !Self::FIELD && is_overflow(&e) && eliminates(name) && !margs.iter().all(tiny) => {
                                cx.probe("integers out of range");
                                break;
                            }
                            Err(e) => {
                                cx.violation("panic", format!("{}: {:?}", who, e));
                                break;
                            }
                            Ok(g) => g,
                        };
                        cx.judged();
                        let (seen, value) = match got {
                            Got::Val(l) => (from_lib(&l).map(Out::Val), Some(l)),
                            Got::Num(x) => (x.q().map(Out::Num), None),
                            Got::Bool(b) => (Some(Out::Bool(b)), None),
                            Got::Nothing => (Some(Out::Nothing), None),
                            Got::Text(t, Ok(())) => (read_text(&t).map(Out::Text), None),
                            Got::Text(t, Err(_)) => {
                                // what came through is how the text begins
                                cx.fault("failing sink");
                                let mut whole = op.clone();
                                whole["room"] = json!(1 << 20);
                                let args: Vec<&L> = at.iter().map(|a| if *a < want.len() { &shared[*a] } else { &own[*a - want.len()].0 }).collect();
                                match seam::call(None, || plain(name, &whole, &args, cx)) {
                                    Ok(Got::Text(w, Ok(()))) if w.starts_with(&t) => {}
                                    _ => cx.violation("torn-text", format!("{}: {:?}", who, t)),
                                }
                                break;
                            }
                        };
                        cx.log(&format!("{} -> {:?}", who, seen));
                        if seen.as_ref() != Some(&expect) {
                            let class = if expect == Out::Refused { "not-refused" } else { "wrong" };
                            cx.violation(class, format!("{}: gave {:?} in place of {:?}", who, seen, expect));
                        } else if let (Some(l), Out::Val(m)) = (value, expect.clone()) {
                            if *changes {
                                own[at[0] - want.len()].1 = m;
                            } else {
                                own.push((l, m));
                            }
                        }
                        break;
                    }
                });
                for (j, (l, m)) in shared.iter().zip(want).enumerate() {
                    cx.check(from_lib(l).as_ref() == Some(m), "argument-changed", || format!("shared value {} {:?} became {:?}", j, m, from_lib(l)));
                }
                for (t, own) in own.iter().enumerate() {
                    for (l, m) in own.lock().unwrap().iter() {
                        cx.check(from_lib(l).as_ref() == Some(m), "value-changed", || format!("thread {}: {:?} became {:?}", t, m, from_lib(l)));
                    }
                }
                Ok(())
            }
        }
    };
} }

with_scalar!(Big, BigRational, true, false);
with_scalar!(TickBig, S<BigRational>, true, false);
with_scalar!(Int, i64, false, false);
with_scalar!(TickInt, S<i64>, false, false);
with_scalar!(Float, f64, true, true);
with_scalar!(TickFloat, S<f64>, true, true);

fn exec_c31(scn: &Value, cx: &Cx) -> Result<(), String> {
    let kind = scn["kind"].as_str().ok_or("kind")?;
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let vals: Vec<M> = scn["values"].as_array().ok_or("values")?.iter().map(|v| of_json(v, field))
        .collect::<Option<_>>().ok_or("value")?;
    if !field && vals.iter().any(|m| matches!(m, M::C(..) | M::S(_)) && !tiny(m)) {
        return Err("integers too large".into());
    }
    if float && !vals.iter().all(|m| match m {
        M::C(a, _) => rounds_nothing("c", &json!({}), &[M::A(a.clone())], &Out::Val(m.clone())),
        M::S(_) => rounds_nothing("c", &json!({}), &[m.clone()], &Out::Val(m.clone())),
        _ => rounds_nothing("collect", &json!({}), &[], &Out::Val(m.clone())),
    }) {
        return Err("not exact".into());
    }
    for op in scn["tasks"].as_array().ok_or("tasks")?.iter().flat_map(|t| t["ops"].as_array().into_iter().flatten()) {
        if !OPS.iter().any(|o| Some(o.0) == op["op"].as_str()) {
            return Err("op".into());
        }
    }
    cx.sign(scn["values"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    if vals.len() > 1 {
        cx.nontrivial();
    }
    match kind {
        "big" => Big::run(scn, cx, &vals),
        "tickbig" => TickBig::run(scn, cx, &vals),
        "i64" => Int::run(scn, cx, &vals),
        "f64" => Float::run(scn, cx, &vals),
        "tickf64" => TickFloat::run(scn, cx, &vals),
        _ => TickInt::run(scn, cx, &vals),
    }
}

fn gen_num_for(rng: &mut Rng, field: bool, float: bool) -> Q {
    let q = gen_num(rng, field && !float);
    if float { q * Q::new(1, *rng.pick(&[1i128, 1, 2, 4, 8])) } else { q }
}

fn gen_lin_for(rng: &mut Rng, n: usize, field: bool, float: bool) -> QMat {
    if !float {
        return gen_lin(rng, n, field);
    }
    for _ in 0..6 {
        let m = match rng.below(4) {
            0 => gen_lin(rng, n, false),
            1 => {
                // a permutation with factors
                let mut m = identity(n);
                rng.shuffle(&mut m);
                m.iter().map(|r| {
                    let f = Q::new(*rng.pick(&[1i128, -1, 2, -2, 4]), *rng.pick(&[1i128, 1, 2, 4]));
                    r.iter().map(|x| *x * f).collect()
                }).collect()
            }
            _ => network(rng, n, n),
        };
        if exact_in_floats(&m) && (rng.chance(20) || !det(&m).is_zero()) {
            return m;
        }
    }
    identity(n)
}

fn gen_metric_for(rng: &mut Rng, n: usize, field: bool, float: bool, good: bool) -> QMat {
    for _ in 0..8 {
        let m = gen_metric(rng, n, field && !float, good);
        if !float || exact_in_floats(&m) {
            return m;
        }
    }
    (0..n).map(|i| (0..n).map(|j| if i == j { Q::new(*rng.pick(&[1i128, 2, 4]), *rng.pick(&[1i128, 2])) } else { Q::ZERO }).collect()).collect()
}

fn gen_num(rng: &mut Rng, field: bool) -> Q {
    let top = *rng.pick(&[1, 3, 9]);
    let d = if field { *rng.pick(&[1i128, 1, 2, 3, 4, 6]) } else { 1 };
    if rng.chance(25) { Q::ZERO } else { Q::new(rng.range(-top, top) as i128, d) }
}

fn gen_lin(rng: &mut Rng, n: usize, field: bool) -> QMat {
    if rng.chance(12) {
        return identity(n);
    }
    if !field || n > 4 || rng.chance(40) {
        // invertible over the integers
        let mut m = identity(n);
        rng.shuffle(&mut m);
        for _ in 0..rng.below(4) {
            let (i, j) = (rng.below(n), rng.below(n));
            let f = Q::int(rng.range(-2, 2));
            if i == j {
                m[i] = m[i].iter().map(|x| -*x).collect();
            } else {
                m[i] = m[i].clone().iter().zip(&m[j].clone()).map(|(x, y)| *x + f * *y).collect();
            }
        }
        if rng.chance(10) {
            let i = rng.below(n);
            let f = Q::int(rng.range(-2, 2));
            m[i] = m[i].iter().map(|x| f * *x).collect();
        }
        return m;
    }
    let mut m: QMat = (0..n).map(|_| (0..n).map(|_| gen_num(rng, field)).collect()).collect();
    if n > 1 && rng.chance(10) {
        m[0] = m[1].iter().map(|x| *x * Q::int(2)).collect();
    }
    m
}

fn gen_metric(rng: &mut Rng, n: usize, field: bool, good: bool) -> QMat {
    let b = gen_lin(rng, n, field);
    let mut s = mat_mul(&transpose(&b), &b);
    if rng.chance(50) {
        let i = rng.below(n);
        s[i][i] = s[i][i] + Q::int(rng.range(0, 3));
    }
    if !good {
        match rng.below(6) {
            // positive and negative directions mixed
            4 | 5 => {
                let d: QMat = (0..n).map(|i| {
                    let f = Q::int(rng.range(0, 1) as i64 * 2 - 1);
                    b[i].iter().map(|x| f * *x).collect()
                }).collect();
                s = mat_mul(&transpose(&b), &d);
            }
            0 if n > 1 => {
                let i = rng.below(n);
                let j = (i + 1 + rng.below(n - 1)) % n;
                s[i][j] = s[i][j] + Q::ONE;
            }
            1 => s[n - 1][n - 1] = -s[n - 1][n - 1],
            2 => s = s.iter().map(|r| r.iter().map(|x| -*x).collect()).collect(),
            _ => {
                let i = rng.below(n);
                s[i][i] = s[i][i] - Q::int(rng.range(1, 4));
            }
        }
    }
    s
}

fn gen_c31(rng: &mut Rng) -> Value {
    let kind = *rng.pick(&["big", "tickbig", "tickbig", "i64", "tickint", "f64", "tickf64"]);
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let n = if field && !float && rng.chance(6) { 5 + rng.below(3) } else { 1 + rng.weighted(&[1, 3, 5, 2]) };
    let mut vals = vec![];
    for c in ['v', 'v', 'p', 'p', 'a', 'a', 'c', 'c', 's'] {
        if rng.chance(15) {
            continue;
        }
        // now and then one that does not go with the others
        let n = if rng.chance(4) { 1 + rng.below(4) } else { n };
        let mut vec: QVec = (0..n).map(|_| gen_num_for(rng, field && n <= 4, float)).collect();
        if rng.chance(20) {
            let i = rng.below(n);
            vec.iter_mut().enumerate().for_each(|(j, x)| if i != j { *x = Q::ZERO });
        }
        let aff = Op { lin: gen_lin_for(rng, n, field, float), shift: vec.clone() };
        let m = match c {
            'v' => M::V(vec),
            'p' => M::P(vec),
            'a' => M::A(aff),
            'c' => match invert(&aff, field) {
                Some(b) => M::C(aff, b),
                None => continue,
            },
            _ => M::S(gen_metric_for(rng, n, field, float, true)),
        };
        let fine = !float || match &m {
            M::C(a, b) => rounds_nothing("c", &json!({}), &[M::A(a.clone())], &Out::Val(m.clone())) && exact_in_floats(&b.lin),
            M::S(_) => rounds_nothing("c", &json!({}), &[m.clone()], &Out::Val(m.clone())),
            _ => rounds_nothing("collect", &json!({}), &[], &Out::Val(m.clone())),
        };
        let ok = fine && of_json(&to_json(&m), field).is_some() && (field || !matches!(m, M::C(..) | M::S(_)) || tiny(&m));
        if ok {
            vals.push(to_json(&m));
        }
    }
    let nt = 1 + rng.weighted(&[3, 4, 3]);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(16)).map(|_| {
            let (name, kinds, _) = rng.pick(OPS);
            let a: Vec<u64> = kinds.chars().map(|_| rng.log2(6)).collect();
            let mut op = json!({"op": name, "a": a, "f": rng.below(4)});
            if matches!(*name, "mul" | "div" | "mul=" | "div=" | "set=" | "pset=") {
                op["k"] = j_q(&gen_num_for(rng, field, float));
            }
            if matches!(*name, "unit" | "set=" | "pset=" | "sentry") {
                op["i"] = json!(rng.below(16));
            }
            if *name == "s" {
                let good = rng.chance(40);
                op["m"] = j_mat(&gen_metric_for(rng, n, field, float, good));
            }
            if name.starts_with("show") && rng.chance(60) {
                op["room"] = json!(rng.log2(6));
            }
            if kind.starts_with("tick") && rng.chance(30) {
                op["cancel"] = json!(rng.log2(7));
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    json!({"kind": kind, "values": vals, "tasks": tasks, "plan": gen_plan(rng, 8, 10)})
}

pub static PROPS: [Prop; 1] = [
    Prop {
        id: "C31", gen: gen_c31, exec: exec_c31, quick_runs: 90_000, thorough_runs: 2_000_000,
        rule: "distinct (shared values, operations of every thread, schedule actually taken)",
        real: "Vector, Point, ScalarProduct, AffineMap and CoordinateMap with all forms of their operators, and the matrices beneath",
        stubs: "the caller's scalar types (ticking wrappers around num-rational, i64 and f64), formatting sinks",
        assumptions: &["Dimensions one to seven (from five on with small integral coefficients); integers that go out of the range of their type while being eliminated \
            are outside the property unless all entries are at most nine; floating point numbers are judged where \
            every intermediate result is one."],
    },
];
