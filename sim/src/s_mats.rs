//! Histories of matrices: C35.

use num_rational::BigRational;
use rust_systre::arithmetic::matrices::Matrix;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use crate::callers::*;
use crate::frac::*;
use crate::iosim::{gen_plan, SimFmt};
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::s_group::json_q;
use crate::sched::{common, drive};
use crate::s_linalg::{j_mat, j_q, p_mat};
use crate::s_maps::read_text;
use crate::seam::{self, Abandon};

/// What an operation should give.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Mat(QMat),
    Nums(Vec<Q>),
    Bool(bool),
    Text(Vec<Vec<Q>>),
    /// not defined: the library stops with a message of its own
    Refused,
}

/// Name, number of matrices, and whether the first is changed in place.
const OPS: &[(&str, usize, bool)] = &[
    ("clone", 1, false), ("neg", 1, false), ("add", 2, false), ("sub", 2, false), ("mul", 2, false),
    ("adds", 1, false), ("subs", 1, false), ("muls", 1, false), ("divs", 1, false),
    ("transpose", 1, false), ("hstack", 3, false), ("vstack", 3, false), ("submatrix", 1, false),
    ("row", 1, false), ("col", 1, false), ("rows", 1, false), ("reshape", 1, false), ("collect", 1, false),
    ("new", 1, false), ("identity", 1, false), ("zero", 1, false), ("unit", 1, false), ("isid", 1, false),
    ("entry", 1, false), ("==", 2, false), ("show", 1, false),
    ("add=", 2, true), ("sub=", 2, true), ("adds=", 1, true), ("subs=", 1, true), ("muls=", 1, true),
    ("divs=", 1, true), ("set=", 1, true),
];

const BIG: usize = 8;

fn shape(m: &QMat) -> (usize, usize) {
    (m.len(), m[0].len())
}

fn fits(m: &QMat) -> bool {
    let (r, c) = shape(m);
    r <= 2 * BIG && c <= 2 * BIG && m.iter().flatten().all(|q| q.n.abs() <= 1_000_000 && q.d <= 1_000_000)
}

/// Whether b is a matrix that the operation takes together with a.
fn suits(name: &str, a: &QMat, b: &QMat) -> bool {
    match name {
        "mul" => a[0].len() == b.len(),
        "hstack" => a.len() == b.len(),
        "vstack" => a[0].len() == b[0].len(),
        _ => shape(a) == shape(b),
    }
}

fn get(op: &Value, key: &str) -> usize {
    op[key].as_u64().unwrap_or(0) as usize
}

/// The position that the operation names, on the matrix or just off it.
fn position(op: &Value, (r, c): (usize, usize)) -> (usize, usize) {
    (get(op, "i") % (r + (get(op, "off") & 1)), get(op, "j") % (c + (get(op, "off") >> 1 & 1)))
}

fn ranges(op: &Value, (r, c): (usize, usize)) -> [usize; 4] {
    let (i, j) = (get(op, "i") % r, get(op, "j") % c);
    let (h, w) = (get(op, "h") % (r - i), get(op, "w") % (c - j));
    [i, i + h + 1 + if get(op, "off") & 1 == 1 { r } else { 0 }, j, j + w + 1 + if get(op, "off") >> 1 & 1 == 1 { c } else { 0 }]
}

fn columns(op: &Value, (r, c): (usize, usize)) -> usize {
    // mostly a divisor of the number of entries
    let n = get(op, "w");
    let fitting: Vec<usize> = (1..=r * c).filter(|k| r * c % k == 0).collect();
    if get(op, "off") == 0 { fitting[n % fitting.len()] } else { n % 9 }
}

fn model(name: &str, op: &Value, args: &[QMat], field: bool) -> Option<Out> {
    let k = json_q(&op["k"]).unwrap_or(Q::ONE);
    if !field && !k.is_int() {
        return None;
    }
    let a = &args[0];
    let (r, c) = shape(a);
    let map = |f: &dyn Fn(Q) -> Q| Out::Mat(a.iter().map(|row| row.iter().map(|x| f(*x)).collect()).collect());
    let zip = |f: fn(Q, Q) -> Q| {
        if shape(a) != shape(&args[1]) {
            return Out::Refused;
        }
        Out::Mat(a.iter().zip(&args[1]).map(|(x, y)| x.iter().zip(y).map(|(x, y)| f(*x, *y)).collect()).collect())
    };
    let cut = |v: Vec<Q>, n: usize| {
        if n == 0 || v.len() % n != 0 {
            return Out::Refused;
        }
        Out::Mat(v.chunks(n).map(|x| x.to_vec()).collect())
    };
    let all: Vec<Q> = a.concat();
    Some(match name {
        "clone" | "rows" => Out::Mat(a.clone()),
        "neg" => map(&|x| -x),
        "add" | "add=" => zip(|x, y| x + y),
        "sub" | "sub=" => zip(|x, y| x - y),
        "mul" => if c == args[1].len() { Out::Mat(mat_mul(a, &args[1])) } else { Out::Refused },
        "adds" | "adds=" => map(&|x| x + k),
        "subs" | "subs=" => map(&|x| x - k),
        "muls" | "muls=" => map(&|x| x * k),
        // the rational numbers themselves leave something unusable behind
        "divs=" if k.is_zero() && field => return None,
        "divs" | "divs=" if k.is_zero() => Out::Refused,
        "divs" | "divs=" => map(&|x| if field { x / k } else { Q::new(x.n / k.n, 1) }),
        "transpose" => Out::Mat(transpose(a)),
        "hstack" if args.iter().any(|m| m.len() != r) => Out::Refused,
        "hstack" => Out::Mat((0..r).map(|i| args.iter().flat_map(|m| m[i].clone()).collect()).collect()),
        "vstack" if args.iter().any(|m| m[0].len() != c) => Out::Refused,
        "vstack" => Out::Mat(args.concat()),
        "submatrix" => {
            let [i, k, j, l] = ranges(op, (r, c));
            if k > r || l > c {
                return Some(Out::Refused);
            }
            Out::Mat(a[i..k].iter().map(|row| row[j..l].to_vec()).collect())
        }
        "row" => match a.get(position(op, (r, c)).0) {
            Some(row) => Out::Mat(vec![row.clone()]),
            None => Out::Refused,
        },
        "col" => match position(op, (r, c)).1 {
            j if j < c => Out::Mat(a.iter().map(|row| vec![row[j]]).collect()),
            _ => Out::Refused,
        },
        "collect" => Out::Mat(all.iter().map(|x| vec![*x]).collect()),
        "reshape" => cut(all, columns(op, (r, c))),
        "new" => {
            // all but the last few entries
            let drop = (get(op, "h") % 4).min(all.len() - 1);
            cut(all[..all.len() - drop].to_vec(), c)
        }
        "identity" => Out::Mat(identity(1 + get(op, "i") % BIG)),
        "zero" => Out::Mat(vec![vec![Q::ZERO; 1 + get(op, "j") % BIG]; 1 + get(op, "i") % BIG]),
        "unit" => {
            let (n, k) = (1 + get(op, "i") % BIG, get(op, "j") % (BIG + 1));
            if k < n { Out::Mat(vec![identity(n)[k].clone()]) } else { Out::Refused }
        }
        "isid" => Out::Bool(r == c && *a == identity(r)),
        "entry" | "set=" => {
            let (i, j) = position(op, (r, c));
            if i >= r || j >= c {
                return Some(Out::Refused);
            }
            if name == "entry" {
                return Some(Out::Nums(vec![a[i][j]]));
            }
            let mut b = a.clone();
            b[i][j] = k;
            Out::Mat(b)
        }
        "==" => Out::Bool(args[0] == args[1]),
        "show" => Out::Text(a.clone()),
        _ => return None,
    })
}

// ------------------------------------------------------------ the real code

trait Runner {
    fn run(scn: &Value, cx: &Cx, shared: &[QMat]) -> Result<(), String>;
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! with_scalar { ($name:ident, $x:ty, $field:expr) => {
    struct $name;
    const _: () = {
        type X = $x;
        type L = Matrix<X>;

        /// What came of an operation.
        enum Got {
            Mat(L),
            Nums(Vec<X>),
            Bool(bool),
            Text(String, Result<(), fmt::Error>),
        }

        fn to_lib(m: &QMat) -> L {
            Matrix::new(m[0].len(), &m.concat().iter().map(|q| X::of(*q)).collect::<Vec<_>>())
        }
        fn from_lib(l: &L) -> Option<QMat> {
            let (r, c) = l.shape();
            let all: Vec<Q> = l.iter().map(|x| x.q()).collect::<Option<_>>()?;
            if r == 0 || c == 0 || all.len() != r * c {
                return None;
            }
            // both ways of looking at it
            let m: QMat = (0..r).map(|i| (0..c).map(|j| l[(i, j)].q()).collect()).collect::<Option<_>>()?;
            (m.concat() == all).then_some(m)
        }

        fn plain(name: &str, op: &Value, args: &[&L], cx: &Cx) -> Got {
            let k = X::of(json_q(&op["k"]).unwrap_or(Q::ONE));
            let f = get(op, "f") % 4;
            let a = args[0];
            let b = args[args.len() - 1];
            let at = a.shape();
            let stack = || args.iter().map(|m| (*m).clone()).collect::<Vec<L>>();
            Got::Mat(match name {
                "clone" => a.clone(),
                "neg" => if f % 2 == 0 { -a } else { -a.clone() },
                "add" => match f { 0 => a + b, 1 => a + b.clone(), 2 => a.clone() + b, _ => a.clone() + b.clone() },
                "sub" => match f { 0 => a - b, 1 => a - b.clone(), 2 => a.clone() - b, _ => a.clone() - b.clone() },
                "mul" => match f { 0 => a * b, 1 => a * b.clone(), 2 => a.clone() * b, _ => a.clone() * b.clone() },
                "adds" => match f { 0 => a + &k, 1 => a + k, 2 => a.clone() + &k, _ => a.clone() + k },
                "subs" => match f { 0 => a - &k, 1 => a - k, 2 => a.clone() - &k, _ => a.clone() - k },
                "muls" => match f { 0 => a * &k, 1 => a * k, 2 => a.clone() * &k, _ => a.clone() * k },
                "divs" => match f { 0 => a / &k, 1 => a / k, 2 => a.clone() / &k, _ => a.clone() / k },
                "transpose" => a.transpose(),
                "hstack" => Matrix::hstack(&stack()),
                "vstack" => Matrix::vstack(&stack()),
                "submatrix" => {
                    let [i, k, j, l] = ranges(op, at);
                    a.submatrix(i..k, j..l)
                }
                "row" => Matrix::row(&a.get_row(position(op, at).0)),
                "col" => Matrix::col(&a.get_col(position(op, at).1)),
                "rows" => match f % 2 {
                    0 => Matrix::vstack(&a.get_rows().iter().map(|r| Matrix::row(r)).collect::<Vec<_>>()),
                    _ => Matrix::new(at.1, &a.get_rows().concat()),
                },
                "reshape" => a.clone().reshape(columns(op, at)),
                "collect" => if f % 2 == 0 { a.iter().cloned().collect() } else { a.clone().into_iter().collect() },
                "new" => {
                    let all: Vec<X> = a.iter().cloned().collect();
                    let drop = (get(op, "h") % 4).min(all.len() - 1);
                    Matrix::new(at.1, &all[..all.len() - drop])
                }
                "identity" => Matrix::identity(1 + get(op, "i") % BIG),
                "zero" => Matrix::zero(1 + get(op, "i") % BIG, 1 + get(op, "j") % BIG),
                "unit" => Matrix::unit_vector(1 + get(op, "i") % BIG, get(op, "j") % (BIG + 1)),
                "isid" => return Got::Bool(a.is_identity()),
                "entry" => return Got::Nums(vec![a[position(op, at)].clone()]),
                "==" => {
                    let same = a == b;
                    if same && hash_of(a) != hash_of(b) {
                        cx.violation("hash", format!("equal, but their hash values differ: {:?}", from_lib(a)));
                    }
                    if same == (a != b) {
                        cx.violation("wrong", "== and != agree".into());
                    }
                    return Got::Bool(same);
                }
                "show" => {
                    let mut w = SimFmt { cx, got: String::new(), room: op["room"].as_u64().unwrap_or(1 << 20) as usize,
                        failed: false, after: 0, once: false };
                    let r = fmt::Write::write_fmt(&mut w, format_args!("{}", a));
                    if w.failed && r.is_ok() {
                        cx.violation("failure-ignored", "the sink failed and the caller was told all is well".into());
                    }
                    if !w.failed && r.is_err() {
                        cx.violation("failure-invented", "the sink never failed".into());
                    }
                    if w.after > 0 {
                        cx.violation("write-after-failure", format!("{} more writes", w.after));
                    }
                    return Got::Text(w.got, r);
                }
                _ => unreachable!(),
            })
        }

        fn in_place(name: &str, op: &Value, x: &mut L, b: &L) {
            let k = X::of(json_q(&op["k"]).unwrap_or(Q::ONE));
            let own = get(op, "f") % 2 == 1;
            match name {
                "add=" => if own { *x += b.clone() } else { *x += b },
                "sub=" => if own { *x -= b.clone() } else { *x -= b },
                "adds=" => if own { *x += k } else { *x += &k },
                "subs=" => if own { *x -= k } else { *x -= &k },
                "muls=" => if own { *x *= k } else { *x *= &k },
                "divs=" => if own { *x /= k } else { *x /= &k },
                "set=" => {
                    let at = position(op, x.shape());
                    x[at] = k
                }
                _ => unreachable!(),
            }
        }

        impl Runner for $name {
            fn run(scn: &Value, cx: &Cx, want: &[QMat]) -> Result<(), String> {
                let (tasks, plan) = common(scn)?;
                let shared: Vec<L> = want.iter().map(to_lib).collect();
                let own: Vec<Mutex<Vec<(L, QMat)>>> = tasks.iter().map(|_| Mutex::new(vec![])).collect();
                drive(cx, 0, tasks, &plan, &|t, op| {
                    let mut own = own[t].lock().unwrap();
                    let name = op["op"].as_str().unwrap();
                    let (_, count, changes) = OPS.iter().find(|o| o.0 == name).unwrap();
                    let count = if name.ends_with("stack") { 1 + get(op, "h") % count } else { *count };
                    // which values: the shared ones first, then those of this thread
                    let all: Vec<QMat> = want.iter().chain(own.iter().map(|o| &o.1)).cloned().collect();
                    let mut at: Vec<usize> = vec![];
                    for j in 0..count {
                        let fitting = |a: &usize| match at.first() {
                            None => !*changes || *a >= want.len(),
                            Some(first) => op["wild"] == true || suits(name, &all[*first], &all[*a]),
                        };
                        let can: Vec<usize> = (0..all.len()).filter(fitting).collect();
                        if can.is_empty() {
                            return;
                        }
                        at.push(can[op["a"][j].as_u64().unwrap_or(0) as usize % can.len()]);
                    }
                    let margs: Vec<QMat> = at.iter().map(|a| all[*a].clone()).collect();
                    let Some(expect) = model(name, op, &margs, $field) else { return };
                    if let Out::Mat(m) = &expect {
                        if !fits(m) {
                            return;
                        }
                    }
                    let who = format!("thread {}: {} {:?} {}", t, name, margs, op);
                    let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
                    loop {
                        let refs: Vec<&L> = at.iter().map(|a| if *a < want.len() { &shared[*a] } else { &own[*a - want.len()].0 }).collect();
                        let mut x = refs[0].clone();
                        let res: Result<Got, Abandon> = if *changes {
                            let b = refs[refs.len() - 1];
                            let r = seam::call(cancel, || in_place(name, op, &mut x, b));
                            if r.is_err() {
                                // each entry is as it was or as it should become
                                let now = from_lib(&x);
                                let after = if let Out::Mat(m) = &expect { m } else { &margs[0] };
                                let fine = now.as_ref().is_some_and(|now| shape(now) == shape(after)
                                    && now.concat().iter().zip(margs[0].concat().iter().zip(&after.concat())).all(|(n, (a, b))| n == a || n == b));
                                if !fine {
                                    cx.violation("torn", format!("{}: ended by {:?}, it has become {:?}", who, r, now));
                                }
                            }
                            r.map(|_| Got::Mat(x))
                        } else {
                            seam::call(cancel, || plain(name, op, &refs, cx))
                        };
                        // nothing that was only read has changed
                        for (j, l) in refs.iter().enumerate() {
                            if from_lib(l).as_ref() != Some(&margs[j]) {
                                cx.violation("argument-changed", format!("{}: argument {} became {:?}", who, j, from_lib(l)));
                            }
                        }
                        let got = match res {
                            Err(Abandon::Cancelled) => {
                                cx.fault("abandoned in the caller's arithmetic");
                                cx.log(&format!("{} abandoned", who));
                                cancel = None;
                                continue;
                            }
                            Err(Abandon::Panic(_)) if expect == Out::Refused => {
                                cx.judged();
                                cx.probe("refused");
                                cx.log(&format!("{} refused", who));
                                break;
                            }
                            Err(e) => {
                                cx.violation("panic", format!("{}: {:?}", who, e));
                                break;
                            }
                            Ok(g) => g,
                        };
                        cx.judged();
                        let (seen, value) = match got {
                            Got::Mat(l) => (from_lib(&l).map(Out::Mat), Some(l)),
                            Got::Nums(v) => (v.iter().map(|x| x.q()).collect::<Option<_>>().map(Out::Nums), None),
                            Got::Bool(b) => (Some(Out::Bool(b)), None),
                            Got::Text(t, Ok(())) => (read_text(&t).map(Out::Text), None),
                            Got::Text(t, Err(_)) => {
                                // what came through is how the text begins
                                cx.fault("failing sink");
                                let mut whole = op.clone();
                                whole["room"] = json!(1 << 20);
                                match seam::call(None, || plain(name, &whole, &refs, cx)) {
                                    Ok(Got::Text(w, Ok(()))) if w.starts_with(&t) => {}
                                    _ => cx.violation("torn-text", format!("{}: {:?}", who, t)),
                                }
                                break;
                            }
                        };
                        cx.log(&format!("{} -> {:?}", who, seen));
                        if seen.as_ref() != Some(&expect) {
                            let class = if expect == Out::Refused { "not-refused" } else { "wrong" };
                            cx.violation(class, format!("{}: gave {:?} in place of {:?}", who, seen, expect));
                        } else if let (Some(l), Out::Mat(m)) = (value, expect.clone()) {
                            if *changes {
                                own[at[0] - want.len()] = (l, m);
                            } else {
                                own.push((l, m));
                            }
                        }
                        break;
                    }
                });
                for (j, (l, m)) in shared.iter().zip(want).enumerate() {
                    cx.check(from_lib(l).as_ref() == Some(m), "argument-changed", || format!("shared value {} {:?} became {:?}", j, m, from_lib(l)));
                }
                for (t, own) in own.iter().enumerate() {
                    for (l, m) in own.lock().unwrap().iter() {
                        cx.check(from_lib(l).as_ref() == Some(m), "value-changed", || format!("thread {}: {:?} became {:?}", t, m, from_lib(l)));
                    }
                }
                Ok(())
            }
        }
    };
} }

with_scalar!(Big, BigRational, true);
with_scalar!(TickBig, S<BigRational>, true);
with_scalar!(Int, i64, false);
with_scalar!(TickInt, S<i64>, false);

fn exec_c35(scn: &Value, cx: &Cx) -> Result<(), String> {
    let kind = scn["kind"].as_str().ok_or("kind")?;
    let field = kind.ends_with("big");
    let vals: Vec<QMat> = scn["values"].as_array().ok_or("values")?.iter().map(|v| p_mat(v, BIG))
        .collect::<Option<_>>().ok_or("value")?;
    if vals.is_empty() || vals.iter().any(|m| !fits(m) || !field && m.iter().flatten().any(|q| !q.is_int())) {
        return Err("value".into());
    }
    for op in scn["tasks"].as_array().ok_or("tasks")?.iter().flat_map(|t| t["ops"].as_array().into_iter().flatten()) {
        if !OPS.iter().any(|o| Some(o.0) == op["op"].as_str()) {
            return Err("op".into());
        }
    }
    cx.sign(scn["values"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    if scn["tasks"].as_array().unwrap().iter().any(|t| t["ops"].as_array().is_some_and(|o| o.len() > 1)) {
        cx.nontrivial();
    }
    match kind {
        "big" => Big::run(scn, cx, &vals),
        "tickbig" => TickBig::run(scn, cx, &vals),
        "i64" => Int::run(scn, cx, &vals),
        _ => TickInt::run(scn, cx, &vals),
    }
}

fn gen_num(rng: &mut Rng, field: bool) -> Q {
    let top = *rng.pick(&[1, 3, 9]);
    let d = if field { *rng.pick(&[1i128, 1, 2, 3, 4, 6]) } else { 1 };
    if rng.chance(20) { Q::ZERO } else { Q::new(rng.range(-top, top) as i128, d) }
}

fn gen_c35(rng: &mut Rng) -> Value {
    let kind = *rng.pick(&["big", "tickbig", "tickbig", "i64", "tickint"]);
    let field = kind.ends_with("big");
    let top = *rng.pick(&[2, 3, 4, 4, 6, BIG]);
    // few sizes, so that things go together
    let sizes: Vec<usize> = (0..1 + rng.below(3)).map(|_| 1 + rng.below(top)).collect();
    let vals: Vec<Value> = (0..1 + rng.below(5)).map(|_| {
        let (r, c) = (*rng.pick(&sizes), *rng.pick(&sizes));
        let mut m: QMat = match rng.below(8) {
            0 => identity(r),
            1 => vec![vec![Q::ZERO; c]; r],
            _ => (0..r).map(|_| (0..c).map(|_| gen_num(rng, field)).collect()).collect(),
        };
        if rng.chance(15) {
            let (i, j) = (rng.below(m.len()), rng.below(m[0].len()));
            m[i][j] = gen_num(rng, field);
        }
        j_mat(&m)
    }).collect();
    let nt = 1 + rng.weighted(&[3, 4, 3]);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(16)).map(|_| {
            let (name, count, _) = rng.pick(OPS);
            let a: Vec<u64> = (0..*count).map(|_| rng.log2(6)).collect();
            let mut op = json!({"op": name, "a": a, "f": rng.below(4), "i": rng.below(16), "j": rng.below(16),
                "h": rng.below(16), "w": rng.below(16)});
            if rng.chance(12) {
                op["off"] = json!(1 + rng.below(3));
            }
            if rng.chance(if name.ends_with("stack") { 30 } else { 10 }) {
                op["wild"] = json!(true);
            }
            if name.ends_with("s") || name.ends_with("s=") || *name == "set=" {
                op["k"] = j_q(&gen_num(rng, field));
            }
            if *name == "show" && rng.chance(60) {
                op["room"] = json!(rng.log2(7));
            }
            if kind.starts_with("tick") && rng.chance(30) {
                op["cancel"] = json!(rng.log2(7));
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    json!({"kind": kind, "values": vals, "tasks": tasks, "plan": gen_plan(rng, 8, 10)})
}

pub static PROPS: [Prop; 1] = [
    Prop {
        id: "C35", gen: gen_c35, exec: exec_c35, quick_runs: 120_000, thorough_runs: 2_000_000,
        rule: "distinct (shared matrices, operations of every thread, schedule actually taken)",
        real: "Matrix with all forms of its operators",
        stubs: "the caller's scalar types (ticking wrappers around num-rational and i64), formatting sinks",
        assumptions: &["Matrices with at least one row and column, up to sixteen of each; integers that stay within their type."],
    },
];
