//! Groups and incremental bases: C23 to C25.

use num_bigint::BigInt;
use num_rational::{BigRational, Ratio};
use num_traits::{One, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, Vector};
use rust_systre::arithmetic::linear_algebra::{extend_basis, Scalar};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::{generate, gram_matrix_configuration_space, shift_space};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::hash::Hash;
use std::ops::{AddAssign, MulAssign, Neg, Rem};
use std::sync::{Mutex, OnceLock};

use crate::frac::*;
use crate::iosim::gen_plan;
use crate::rng::Rng;
use crate::runner::{harness_error, Cx, Prop};
use crate::callers::*;
use crate::s_table::{ref_table, shipped, Op, RefTable};
use crate::sched::{common, drive};
use crate::s_linalg::{exact_in_floats, network};
use crate::seam::{self, is_overflow, Abandon};

// ------------------------------------------------------------ scalar type

/// A caller's scalar type of which every operation is a point where the
/// caller may panic or another thread may run. The arithmetic is that of X.
// ------------------------------------------------------------- operators

pub fn op_json(op: &Op) -> Value {
    let q = |x: &Q| if x.d == 1 { json!(x.n as i64) } else { json!([x.n as i64, x.d as i64]) };
    json!({
        "m": op.lin.iter().map(|r| r.iter().map(q).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "t": op.shift.iter().map(q).collect::<Vec<_>>(),
    })
}

pub fn json_q(v: &Value) -> Option<Q> {
    let lim = |x: i64| (x.abs() < 1_000_000_000).then_some(x as i128);
    if let Some(n) = v.as_i64() {
        return Some(Q::new(lim(n)?, 1));
    }
    let d = lim(v[1].as_i64()?)?;
    if d == 0 {
        return None;
    }
    Some(Q::new(lim(v[0].as_i64()?)?, d))
}

pub fn json_op(v: &Value) -> Option<Op> {
    let vec = |v: &Value| v.as_array()?.iter().map(json_q).collect::<Option<QVec>>();
    let lin = v["m"].as_array()?.iter().map(vec).collect::<Option<QMat>>()?;
    let shift = vec(&v["t"])?;
    let n = shift.len();
    if n == 0 || n > 6 || lin.len() != n || lin.iter().any(|r| r.len() != n) {
        return None;
    }
    Some(Op { lin, shift })
}

pub fn affine<X: Num>(op: &Op) -> AffineMap<X, World> {
    let n = op.shift.len();
    let m: Vec<X> = op.lin.iter().flatten().map(|q| X::of(*q)).collect();
    let t: Vec<X> = op.shift.iter().map(|q| X::of(*q)).collect();
    AffineMap::new(&Matrix::new(n, &m), &Vector::new(&t))
}

pub fn unaffine<X: Num, CS: Clone>(a: &AffineMap<X, CS>) -> Option<Op> {
    let n = a.dim();
    let m = a.linear_matrix();
    let s = a.shift();
    let mut lin = vec![];
    for i in 0..n {
        lin.push((0..n).map(|j| m[(i, j)].q()).collect::<Option<QVec>>()?);
    }
    Some(Op { lin, shift: (0..n).map(|i| s[i].q()).collect::<Option<QVec>>()? })
}

pub fn compose(a: &Op, b: &Op) -> Op {
    Op {
        lin: mat_mul(&a.lin, &b.lin),
        shift: mat_vec(&a.lin, &b.shift).iter().zip(&a.shift).map(|(x, y)| *x + *y).collect(),
    }
}

fn reduce(a: &Op) -> Op {
    Op { lin: a.lin.clone(), shift: a.shift.iter().map(|x| x.frac()).collect() }
}

pub fn show(op: &Op) -> String {
    format!("{:?}|{:?}", op.lin, op.shift)
}

type Key = (QMat, QVec);

/// The closure of the operators modulo integral translations, or nothing if
/// it is too big or not defined.
pub fn closure(gens: &[Op], max: usize) -> Option<BTreeSet<Key>> {
    let n = gens.first()?.lin.len();
    let id = Op { lin: identity(n), shift: vec![Q::ZERO; n] };
    let ok = |o: &Op| o.lin.len() == n
        && o.lin.iter().flatten().all(|x| x.is_int() && x.n.abs() < 100_000)
        && o.shift.iter().all(|x| x.d < 1_000_000 && x.n.abs() < 1_000_000);
    if !gens.iter().all(|g| ok(g) && det(&g.lin).n.abs() == 1) {
        return None;
    }
    let mut seen = BTreeSet::new();
    let mut queue = vec![id];
    while let Some(a) = queue.pop() {
        let a = reduce(&a);
        if !ok(&a) {
            return None;
        }
        if seen.insert((a.lin.clone(), a.shift.clone())) {
            if seen.len() > max {
                return None;
            }
            for g in gens {
                queue.push(compose(&a, g));
            }
        }
    }
    Some(seen)
}

pub fn table() -> &'static RefTable {
    static T: OnceLock<RefTable> = OnceLock::new();
    T.get_or_init(|| ref_table(shipped()).unwrap_or_else(|| harness_error("cannot read the shipped table")))
}

// -------------------------------------------------------- C23: generation

/// Generating operators: from the shipped table or signed permutations with
/// shifts, seen from other coordinates, with products and repetitions.
fn gen_generators(rng: &mut Rng, max: usize) -> (Vec<Op>, String) {
    let t = table();
    loop {
        let mut from = String::new();
        let mut ops: Vec<Op> = if rng.chance(65) {
            let names: Vec<&String> = t.settings.keys().collect();
            let name = *rng.pick(&names);
            let all = &t.settings[name].ops;
            if all.is_empty() {
                continue;
            }
            from = name.clone();
            if rng.chance(25) {
                all.clone()
            } else {
                (0..1 + rng.below(4)).map(|_| rng.pick(all).clone()).collect()
            }
        } else {
            let n = 1 + rng.weighted(&[2, 4, 5, 1]);
            let den = *rng.pick(&[1i128, 2, 2, 3, 4, 6, 5]);
            (0..1 + rng.below(3)).map(|_| {
                let mut p: Vec<usize> = (0..n).collect();
                rng.shuffle(&mut p);
                let lin = (0..n).map(|i| (0..n).map(|j| {
                    if p[i] == j { Q::int(if rng.chance(50) { -1 } else { 1 }) } else { Q::ZERO }
                }).collect()).collect();
                let shift = (0..n).map(|_| Q::new(rng.range(-6, 6) as i128, den)).collect();
                Op { lin, shift }
            }).collect()
        };
        let n = ops[0].lin.len();
        if rng.chance(40) {
            // other coordinates: y = U x + s
            let mut u = identity(n);
            for _ in 0..rng.below(4) {
                let (i, j) = (rng.below(n), rng.below(n));
                if i != j {
                    let f = Q::int(rng.range(-2, 2));
                    let row = u[j].clone();
                    for k in 0..n {
                        u[i][k] = u[i][k] + f * row[k];
                    }
                }
            }
            let s: QVec = (0..n).map(|_| Q::new(rng.range(-9, 9) as i128, *rng.pick(&[1i128, 2, 3, 7, 10]))).collect();
            let fwd = Op { lin: u.clone(), shift: s.clone() };
            let inv = inverse(&u).unwrap();
            let back = Op { shift: mat_vec(&inv, &s).iter().map(|x| -*x).collect(), lin: inv };
            ops = ops.iter().map(|o| compose(&compose(&fwd, o), &back)).collect();
        }
        if rng.chance(80) {
            if rng.chance(50) {
                // shifts that are not reduced
                for o in ops.iter_mut() {
                    for x in o.shift.iter_mut() {
                        *x = *x + Q::int(rng.range(-3, 3));
                    }
                }
            }
            for _ in 0..rng.below(4) {
                let (a, b) = (rng.pick(&ops).clone(), rng.pick(&ops).clone());
                ops.push(if rng.chance(50) { a } else { compose(&a, &b) });
            }
            if rng.chance(10) {
                ops.push(Op { lin: identity(n), shift: (0..n).map(|_| Q::int(rng.range(-1, 1))).collect() });
            }
        }
        if rng.chance(60) {
            rng.shuffle(&mut ops);
        }
        match closure(&ops, 400) {
            Some(c) if c.len() * ops.len() <= max => return (ops, from),
            _ => {}
        }
    }
}

pub struct GroupSpec {
    pub gens: Vec<Op>,
    pub closed: bool,
    pub want: BTreeSet<Key>,
}

pub fn parse_group(v: &Value) -> Result<GroupSpec, String> {
    if let Some(name) = v["setting"].as_str() {
        // the operator list of a shipped setting
        let s = table().settings.get(name).ok_or("setting")?;
        let want = closure(&s.ops, 500);
        let want = want.unwrap_or_else(|| s.ops.iter().map(reduce).map(|o| (o.lin, o.shift)).collect());
        return Ok(GroupSpec { closed: true, gens: s.ops.clone(), want });
    }
    let gens: Vec<Op> = v["gens"].as_array().ok_or("gens")?.iter().map(json_op)
        .collect::<Option<Vec<_>>>().ok_or("operator")?;
    let want = closure(&gens, 500).ok_or("not a finite group modulo translations")?;
    Ok(GroupSpec { closed: false, gens, want })
}

pub fn group_json(rng: &mut Rng, max: usize) -> Value {
    if rng.chance(20) {
        let names: Vec<_> = table().settings.iter()
            .filter(|(_, s)| !s.ops.is_empty() && s.ops.len() * s.ops.len() <= max.max(64)).collect();
        return json!({"setting": rng.pick(&names).0});
    }
    let (gens, from) = gen_generators(rng, max);
    json!({"gens": gens.iter().map(op_json).collect::<Vec<_>>(), "from": from})
}

/// Generates with the scalars asked for.
pub fn run_generate(gens: &[Op], scalar: &str, cancel: Option<u64>) -> Result<Vec<Op>, Abandon> {
    fn go<X>(gens: &[Op], cancel: Option<u64>) -> Result<Vec<Op>, Abandon>
    where
        X: Num + Eq + Hash + Zero + One + Rem<Output = X>,
        for<'a> X: AddAssign<&'a X> + MulAssign<&'a X>,
    {
        let gens: Vec<AffineMap<X, World>> = gens.iter().map(affine).collect();
        let r = seam::call(cancel, || generate(&gens))?;
        r.iter().map(unaffine).collect::<Option<Vec<_>>>()
            .ok_or_else(|| Abandon::Panic("a result has absurd coefficients".into()))
    }
    match scalar {
        "big" => go::<BigRational>(gens, cancel),
        "i64" => go::<Ratio<i64>>(gens, cancel),
        _ => go::<S<Ratio<i64>>>(gens, cancel),
    }
}

fn judge_generate(cx: &Cx, who: &str, g: &GroupSpec, res: &Result<Vec<Op>, Abandon>) {
    let ops = match res {
        Err(Abandon::Cancelled) => {
            cx.fault("abandoned in scalar arithmetic: generate");
            return;
        }
        Err(e) => {
            cx.judged();
            return cx.violation("panic", format!("{}: generate: {:?}", who, e));
        }
        Ok(o) => o,
    };
    cx.judged();
    let mut got = BTreeSet::new();
    for o in ops {
        if o.shift.iter().any(|x| *x < Q::ZERO || *x >= Q::ONE) {
            return cx.violation("not-reduced", format!("{}: generate gave {}", who, show(o)));
        }
        if !got.insert((o.lin.clone(), o.shift.clone())) {
            return cx.violation("twice", format!("{}: generate gave {} twice", who, show(o)));
        }
    }
    for (l, s) in g.want.difference(&got) {
        let o = Op { lin: l.clone(), shift: s.clone() };
        return cx.violation("incomplete", format!("{}: generate left out {} ({} of {})", who, show(&o), got.len(), g.want.len()));
    }
    for (l, s) in got.difference(&g.want) {
        let o = Op { lin: l.clone(), shift: s.clone() };
        return cx.violation("wrong-operator", format!("{}: generate gave {}, which is no product", who, show(&o)));
    }
    if g.closed {
        let given: BTreeSet<Key> = g.gens.iter().map(reduce).map(|o| (o.lin.clone(), o.shift.clone())).collect();
        if given != got {
            cx.violation("table", format!("{}: the group generated is not the list given by the table", who));
        }
        cx.probe("whole operator list of a shipped setting");
    }
    if got.len() >= 96 {
        cx.probe("group with 96 operators or more");
    }
}

fn exec_generate(scn: &Value, cx: &Cx) -> Result<(), String> {
    let groups: Vec<GroupSpec> = scn["groups"].as_array().ok_or("groups")?.iter().map(parse_group)
        .collect::<Result<_, _>>()?;
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        let g = op["g"].as_u64().ok_or("g")?;
        if g as usize >= groups.len() || !op["scalar"].is_string() {
            return Err("op".into());
        }
    }
    cx.sign(scn["groups"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    if groups.iter().any(|g| g.want.len() > 1) {
        cx.nontrivial();
    }
    drive(cx, 0, tasks, &plan, &|t, op| {
        let g = op["g"].as_u64().unwrap() as usize;
        let cancel = op["cancel"].as_u64().filter(|c| *c > 0);
        let res = run_generate(&groups[g].gens, op["scalar"].as_str().unwrap(), cancel);
        let text = match &res {
            Ok(v) => v.iter().map(show).collect::<Vec<_>>().join("; "),
            Err(e) => format!("{:?}", e),
        };
        cx.log(&format!("thread {} {} -> {}", t, op, text));
        judge_generate(cx, &format!("thread {} group {}", t, g), &groups[g], &res);
    });
    Ok(())
}

fn gen_c23(rng: &mut Rng) -> Value {
    let nt = 1 + rng.weighted(&[4, 4, 2]);
    let ng = 1 + rng.below(2);
    let max = match rng.below(20) { 0 => 2400, 1..=5 => 900, _ => 300 };
    let groups: Vec<Value> = (0..ng).map(|_| group_json(rng, max)).collect();
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(2)).map(|_| {
            let scalar = *rng.pick(&["big", "i64", "tick", "tick", "tick"]);
            let cancel = if scalar == "tick" && rng.chance(25) { rng.log2(15) } else { 0 };
            json!({"g": rng.below(ng), "scalar": scalar, "cancel": cancel})
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let plan = if nt > 1 { gen_plan(rng, 10, 14) } else { json!([]) };
    json!({"groups": groups, "tasks": tasks, "plan": plan})
}

// -------------------------------------------------- C24: invariant spaces

pub type BMat = Vec<Vec<BigRational>>;

/// Reduced echelon form without bounds on the size of numbers.
fn big_rref(mut a: BMat) -> BMat {
    let cols = a.first().map(|r| r.len()).unwrap_or(0);
    let mut row = 0;
    for c in 0..cols {
        let Some(p) = (row..a.len()).find(|&i| !a[i][c].is_zero()) else { continue };
        a.swap(row, p);
        let f = a[row][c].clone();
        for x in a[row].iter_mut() {
            *x = &*x / &f;
        }
        for i in 0..a.len() {
            if i != row && !a[i][c].is_zero() {
                let f = a[i][c].clone();
                for k in c..cols {
                    let t = &a[row][k] * &f;
                    a[i][k] = &a[i][k] - t;
                }
            }
        }
        row += 1;
    }
    a.truncate(row);
    a
}

fn big_null_space(rows: &[QVec], cols: usize) -> BMat {
    let e = big_rref(rows.iter().map(|r| r.iter().map(|q| q.to_big()).collect()).collect());
    let pivots: Vec<usize> = e.iter().map(|r| r.iter().position(|x| !x.is_zero()).unwrap()).collect();
    let mut out = vec![];
    for f in (0..cols).filter(|f| !pivots.contains(f)) {
        let mut v = vec![BigRational::zero(); cols];
        v[f] = BigRational::one();
        for (r, p) in e.iter().zip(&pivots) {
            v[*p] = -r[f].clone();
        }
        out.push(v);
    }
    big_rref(out)
}

fn gram_equations(ops: &[Op]) -> (QMat, usize) {
    let n = ops[0].lin.len();
    let pos = |i: usize, j: usize| {
        let (i, j) = (i.min(j), i.max(j));
        (0..i).map(|k| n - k).sum::<usize>() + j - i
    };
    let m = n * (n + 1) / 2;
    let mut eqs = vec![];
    for op in ops {
        // (S^T G S)_ab = sum S_ca G_cd S_db
        for a in 0..n {
            for b in a..n {
                let mut e = vec![Q::ZERO; m];
                for c in 0..n {
                    for d in 0..n {
                        e[pos(c, d)] = e[pos(c, d)] + op.lin[c][a] * op.lin[d][b];
                    }
                }
                e[pos(a, b)] = e[pos(a, b)] - Q::ONE;
                eqs.push(e);
            }
        }
    }
    (eqs, m)
}

fn shift_equations(ops: &[Op]) -> (QMat, usize) {
    let n = ops[0].lin.len();
    let mut eqs = vec![];
    for op in ops {
        for i in 0..n {
            let mut r = op.lin[i].clone();
            r[i] = r[i] - Q::ONE;
            eqs.push(r);
        }
    }
    (eqs, n)
}

/// The space reported, as canonical rows; and the number of vectors listed.
pub fn run_space(ops: &[Op], what: &str) -> Result<Option<(BMat, usize)>, Abandon> {
    Ok(raw_space(ops, what)?.map(|cols| {
        let n = cols.len();
        (big_rref(cols), n)
    }))
}

/// The vectors reported, as they are.
pub fn raw_space(ops: &[Op], what: &str) -> Result<Option<BMat>, Abandon> {
    let maps: Vec<AffineMap<BigRational, World>> = ops.iter().map(affine).collect();
    let r = seam::call(None, || match what {
        "gram" => gram_matrix_configuration_space(&maps),
        _ => shift_space(&maps),
    })?;
    let Some(m) = r else { return Ok(None) };
    let (nr, nc) = m.shape();
    Ok(Some((0..nc).map(|j| (0..nr).map(|i| m[(i, j)].clone()).collect()).collect()))
}

pub fn bshow(m: &BMat) -> String {
    let rows: Vec<String> = m.iter()
        .map(|r| format!("({})", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))).collect();
    format!("[{}]", rows.join(" "))
}

fn exec_spaces(scn: &Value, cx: &Cx) -> Result<(), String> {
    let sets: Vec<Vec<Op>> = scn["sets"].as_array().ok_or("sets")?.iter()
        .map(|s| s.as_array()?.iter().map(json_op).collect::<Option<Vec<_>>>())
        .collect::<Option<_>>().ok_or("set")?;
    if sets.iter().any(|s| s.is_empty() || s.iter().any(|o| o.lin.len() != s[0].lin.len())) {
        return Err("set".into());
    }
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        if op["s"].as_u64().ok_or("s")? as usize >= sets.len() || !op["what"].is_string() {
            return Err("op".into());
        }
    }
    cx.sign(scn["sets"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    // the same answers for all sets that generate the same group
    let same: Mutex<Vec<(String, usize, BMat)>> = Mutex::new(vec![]);
    let groups: Vec<Option<BTreeSet<QMat>>> = sets.iter().map(|s| point_group(s)).collect();
    drive(cx, 0, tasks, &plan, &|t, op| {
        let s = op["s"].as_u64().unwrap() as usize;
        let what = op["what"].as_str().unwrap();
        let res = run_space(&sets[s], what);
        cx.log(&format!("thread {} {} -> {}", t, op, match &res {
            Ok(Some((m, k))) => format!("{} {}", k, bshow(m)),
            Ok(None) => "none".into(),
            Err(e) => format!("{:?}", e),
        }));
        let who = format!("thread {} set {} {}", t, s, what);
        cx.judged();
        let got = match res {
            Err(e) => return cx.violation("panic", format!("{}: {:?}", who, e)),
            Ok(g) => g,
        };
        let (eqs, m) = if what == "gram" { gram_equations(&sets[s]) } else { shift_equations(&sets[s]) };
        let want = big_null_space(&eqs, m);
        let (space, listed) = got.clone().unwrap_or((vec![], 0));
        if space != want {
            return cx.violation("wrong-space", format!("{}: got the span of {}, expected that of {}", who, bshow(&space), bshow(&want)));
        }
        if listed != want.len() || got.is_none() != want.is_empty() {
            return cx.violation("not-a-basis", format!("{}: {} vectors for dimension {}", who, listed, want.len()));
        }
        if want.is_empty() {
            cx.probe("zero space");
        }
        let mut same = same.lock().unwrap();
        for (w, o, sp) in same.iter() {
            if w == what && groups[*o].is_some() && groups[*o] == groups[s] {
                if *o != s {
                    cx.probe("two lists with the same point group compared");
                }
                if *sp != space {
                    cx.violation("depends-on-list", format!("{}: differs from the answer for set {}", who, o));
                }
            }
        }
        same.push((what.into(), s, space));
    });
    Ok(())
}

/// The group generated by the linear parts, if finite and small.
fn point_group(ops: &[Op]) -> Option<BTreeSet<QMat>> {
    if ops.iter().any(|o| o.lin.iter().flatten().any(|q| q.n.abs() > 50 || q.d > 50)) {
        return None;
    }
    let mut seen = BTreeSet::new();
    let mut queue = vec![identity(ops[0].lin.len())];
    while let Some(a) = queue.pop() {
        if a.iter().flatten().any(|q| q.n.abs() > 10_000 || q.d > 10_000) || seen.len() > 200 {
            return None;
        }
        if seen.insert(a.clone()) {
            queue.extend(ops.iter().map(|g| mat_mul(&a, &g.lin)));
        }
    }
    Some(seen)
}

fn gen_c24(rng: &mut Rng) -> Value {
    let mut sets: Vec<Vec<Op>> = vec![];
    let mut base: Vec<Op> = if rng.chance(75) {
        gen_generators(rng, 600).0
    } else {
        // anything, singular ones included
        let n = 1 + rng.weighted(&[3, 3, 3, 1]);
        let k = 1 + rng.below(3);
        let den = if rng.chance(60) { 1 } else { *rng.pick(&[2i128, 3, 7]) };
        (0..k).map(|_| {
            let mut lin: QMat = (0..n).map(|_| (0..n).map(|_| Q::new(rng.range(-2, 2) as i128, den)).collect()).collect();
            if rng.chance(40) {
                // fix something
                let j = rng.below(n);
                for i in 0..n {
                    lin[i][j] = if i == j { Q::ONE } else { Q::ZERO };
                }
            }
            Op { lin, shift: vec![Q::ZERO; n] }
        }).collect()
    };
    if rng.chance(40) {
        // rational coordinates
        let n = base[0].lin.len();
        let u: QMat = (0..n).map(|i| (0..n).map(|j| {
            if i == j { Q::new(rng.range(1, 3) as i128, *rng.pick(&[1i128, 2, 3])) }
            else if rng.chance(50) { Q::new(rng.range(-2, 2) as i128, *rng.pick(&[1i128, 2])) } else { Q::ZERO }
        }).collect()).collect();
        if let Some(inv) = inverse(&u) {
            for o in base.iter_mut() {
                o.lin = mat_mul(&mat_mul(&u, &o.lin), &inv);
            }
        }
    }
    base.truncate(50);
    sets.push(base.clone());
    for _ in 0..1 + rng.below(3) {
        let mut s = base.clone();
        match rng.below(5) {
            4 => {
                // a list of another group that looks much like this one
                let n = s[0].lin.len();
                for _ in 0..1 + rng.below(2) {
                    let i = rng.below(s.len());
                    let (a, b) = (rng.pick(&s).clone(), rng.pick(&s).clone());
                    match rng.below(4) {
                        0 => s[i].lin = identity(n),
                        1 => s[i] = compose(&a, &b),
                        2 => s[i].lin = a.lin.iter().map(|r| r.iter().map(|x| -*x).collect()).collect(),
                        _ => s[i] = a,
                    }
                }
            }
            0 => rng.shuffle(&mut s),
            1 => {
                for _ in 0..1 + rng.below(3) {
                    let o = rng.pick(&s).clone();
                    s.push(o);
                }
                rng.shuffle(&mut s);
            }
            2 => {
                for _ in 0..1 + rng.below(3) {
                    let (a, b) = (rng.pick(&s).clone(), rng.pick(&s).clone());
                    s.push(compose(&a, &b));
                }
                rng.shuffle(&mut s);
            }
            _ => {
                // the whole group
                if let Some(g) = point_group(&s).filter(|g| g.len() <= 48) {
                    let n = s[0].lin.len();
                    s = g.into_iter().map(|lin| Op { lin, shift: vec![Q::ZERO; n] }).collect();
                    if rng.chance(50) {
                        rng.shuffle(&mut s);
                    }
                }
            }
        }
        sets.push(s);
    }
    let nt = 1 + rng.below(3);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(4))
            .map(|_| json!({"s": rng.below(sets.len()), "what": *rng.pick(&["gram", "shift"])})).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let sets: Vec<Vec<Value>> = sets.iter().map(|s| s.iter().map(op_json).collect()).collect();
    json!({"sets": sets, "tasks": tasks, "plan": gen_plan(rng, 5, 3)})
}

// --------------------------------------------------------- C25: bases

/// A basis under construction behind a common face.
pub trait Basis: Send {
    fn add(&mut self, v: &[Q], cancel: Option<u64>) -> Result<(), Abandon>;
    fn rows(&self) -> Option<QMat>;
    fn copy(&self) -> Box<dyn Basis>;
}

struct Rows<X>(Vec<Vec<X>>);

impl<X: Num + Scalar + Neg<Output = X> + Send + 'static> Basis for Rows<X> {
    fn add(&mut self, v: &[Q], cancel: Option<u64>) -> Result<(), Abandon> {
        let v: Vec<X> = v.iter().map(|q| X::of(*q)).collect();
        seam::call(cancel, || extend_basis(&v, &mut self.0))
    }
    fn rows(&self) -> Option<QMat> {
        self.0.iter().map(|r| r.iter().map(|x| x.q()).collect()).collect()
    }
    fn copy(&self) -> Box<dyn Basis> {
        Box::new(Rows(self.0.clone()))
    }
}

pub fn new_basis(kind: &str) -> Box<dyn Basis> {
    match kind {
        "big" => Box::new(Rows::<BigRational>(vec![])),
        "tickbig" => Box::new(Rows::<S<BigRational>>(vec![])),
        "bint" => Box::new(Rows::<BigInt>(vec![])),
        "tickbint" => Box::new(Rows::<S<BigInt>>(vec![])),
        "i64" => Box::new(Rows::<i64>(vec![])),
        "tick64" => Box::new(Rows::<S<i64>>(vec![])),
        "tick32" => Box::new(Rows::<S<i32>>(vec![])),
        "f64" => Box::new(Rows::<f64>(vec![])),
        "tickf64" => Box::new(Rows::<S<f64>>(vec![])),
        _ => Box::new(Rows::<i32>(vec![])),
    }
}

struct Acc {
    basis: Box<dyn Basis>,
    added: QMat,
    /// everything ever added in a straight line, for the determinant
    square: bool,
    owner: usize,
    /// integers out of range: not looked at any more
    over: bool,
}

fn judge_basis(cx: &Cx, who: &str, a: &mut Acc, field: bool, n: usize) {
    cx.judged();
    let Some(rows) = a.basis.rows() else {
        if !field {
            cx.probe("integers out of the range of the reference");
            a.over = true;
            return;
        }
        return cx.violation("absurd", format!("{}: coefficients out of all proportion", who));
    };
    let mut last = None;
    for r in &rows {
        let p = r.iter().position(|x| !x.is_zero());
        if p.is_none() || p <= last || r.len() != n {
            return cx.violation("not-echelon", format!("{}: {:?}", who, rows));
        }
        last = p;
    }
    let both = seam::call(None, || if field { (rref(&rows), rref(&a.added)) } else { (lattice_hnf(&rows), lattice_hnf(&a.added)) });
    let (got, want) = match both {
        Ok(x) => x,
        Err(_) if !field && rows.iter().flatten().any(|q| q.n.abs() > 1 << 24) => {
            cx.probe("integers out of the range of the reference");
            a.over = true;
            return;
        }
        Err(e) => return cx.violation("malformed", format!("{}: {:?} from {:?}: {:?}", who, rows, a.added, e)),
    };
    if got != want {
        return cx.violation("wrong-span", format!("{}: {:?} does not span what {:?} span", who, rows, a.added));
    }
    if a.square && a.added.len() == n {
        let d = det(&a.added);
        let prod = if rows.len() < n { Q::ZERO } else { (0..n).fold(Q::ONE, |p, i| p * rows[i][i]) };
        cx.probe("determinant compared");
        if d != prod {
            return cx.violation("determinant", format!("{}: {:?} from {:?}, determinant {}", who, rows, a.added, d));
        }
    }
}

fn exec_bases(scn: &Value, cx: &Cx) -> Result<(), String> {
    let kind = scn["kind"].as_str().ok_or("kind")?.to_string();
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let n = scn["n"].as_u64().filter(|n| (1..=8).contains(n)).ok_or("n")? as usize;
    let nb = scn["bases"].as_u64().filter(|n| (1..=8).contains(n)).ok_or("bases")? as usize;
    let vecs: QMat = scn["vectors"].as_array().ok_or("vectors")?.iter()
        .map(|v| v.as_array()?.iter().map(json_q).collect::<Option<QVec>>()).collect::<Option<_>>().ok_or("vector")?;
    if vecs.iter().any(|v| v.len() != n || (!field && v.iter().any(|q| !q.is_int()))) {
        return Err("vector".into());
    }
    if float && (vecs.is_empty() || !exact_in_floats(&vecs)) {
        return Err("not exact".into());
    }
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        let lim = |k: &str, m: usize| op[k].as_u64().filter(|x| (*x as usize) < m).ok_or(format!("{} of {}", k, op));
        lim("b", nb)?;
        match op["op"].as_str().ok_or("op")? {
            "add" => { lim("v", vecs.len())?; }
            "branch" => { lim("to", nb)?; }
            "clear" => {}
            _ => return Err("op".into()),
        }
    }
    cx.sign(scn["vectors"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    let fresh = || Acc { basis: new_basis(&kind), added: vec![], square: true, owner: usize::MAX, over: false };
    let accs: Vec<Mutex<Acc>> = (0..nb).map(|_| Mutex::new(fresh())).collect();
    drive(cx, nb, tasks, &plan, &|t, op| {
        let b = op["b"].as_u64().unwrap() as usize;
        let who = format!("thread {} basis {}", t, b);
        match op["op"].as_str().unwrap() {
            "add" => {
                // held by this thread alone, whatever the schedule
                let mut a = accs[b].lock().unwrap();
                if a.owner != usize::MAX && a.owner != t {
                    cx.fault("hand-over of a basis to another thread");
                }
                a.owner = t;
                if a.over {
                    return;
                }
                let v = &vecs[op["v"].as_u64().unwrap() as usize];
                let stored = a.basis.copy();
                let res = a.basis.add(v, op["cancel"].as_u64().filter(|c| *c > 0));
                cx.log(&format!("{} add {:?} -> {:?} {:?}", who, v, res, a.basis.rows()));
                match res {
                    Err(Abandon::Cancelled) => {
                        cx.fault("abandoned in scalar arithmetic: extend_basis; restarted from the stored copy");
                        a.basis = stored;
                    }
                    Err(e) if !field && is_overflow(&e) => {
                        cx.probe("integers out of range");
                        a.over = true;
                    }
                    Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                    Ok(()) => {
                        a.added.push(v.clone());
                        judge_basis(cx, &who, &mut a, field, n);
                    }
                }
            }
            "clear" => {
                cx.log(&format!("{} clear", who));
                *accs[b].lock().unwrap() = fresh();
            }
            _ => {
                // a stored copy becomes another basis
                let to = op["to"].as_u64().unwrap() as usize;
                if to == b {
                    return;
                }
                let Ok(a) = accs[b].try_lock() else { return };
                let Ok(mut c) = accs[to].try_lock() else { return };
                cx.log(&format!("{} branch to {}", who, to));
                cx.fault("restart from a stored copy");
                *c = Acc { basis: a.basis.copy(), added: a.added.clone(), square: a.square, owner: c.owner, over: a.over };
            }
        }
    });
    // all that had the same vectors must agree in size and span
    let mut seen: Vec<(QMat, usize)> = vec![];
    for a in &accs {
        let a = a.lock().unwrap();
        if a.over || cx.violated() {
            continue;
        }
        let mut key = a.added.clone();
        key.sort();
        key.dedup();
        let rows = a.basis.rows().unwrap_or_default().len();
        for (k, r) in &seen {
            if *k == key && *r != rows {
                cx.violation("size", format!("{} and {} vectors for the same set", r, rows));
            }
        }
        seen.push((key, rows));
    }
    Ok(())
}

fn gen_c25(rng: &mut Rng) -> Value {
    let kind = *rng.pick(&["big", "tickbig", "i64", "tick64", "i32", "tick32", "big", "tickbig", "i64", "tick64", "i32", "tick32", "f64", "tickf64", "bint", "tickbint"]);
    let float = kind.ends_with("f64");
    let field = kind.ends_with("big") || float;
    let n = if float { 1 + rng.below(5) } else { 1 + rng.weighted(&[2, 6, 10, 8, 4, 2, 1, 1]) };
    let r = if n > 6 { 1 } else { match rng.below(10) { 0..=5 => 3, 6..=7 => 9, 8 => 1, _ => if n <= 3 { 1000 } else { 20 } } };
    let r = if kind.ends_with("bint") && n <= 3 && rng.chance(25) { 1 << rng.below(13) } else { r };
    let nv = if float { 1 + rng.below(5) } else { 1 + rng.below(n + 4) };
    let mut vecs: QMat = if float { network(rng, nv, n) } else { vec![] };
    for i in vecs.len()..nv {
        let mut v: QVec = if i > 0 && rng.chance(20) {
            // depends on earlier ones
            let (a, b) = (rng.pick(&vecs).clone(), rng.pick(&vecs).clone());
            let (f, g) = (Q::int(rng.range(-2, 2)), Q::int(rng.range(-2, 2)));
            a.iter().zip(&b).map(|(x, y)| *x * f + *y * g).collect()
        } else {
            let den = if field && rng.chance(40) { *rng.pick(&[2i128, 3, 5, 12]) } else { 1 };
            (0..n).map(|_| if rng.chance(25) { Q::ZERO } else { Q::new(rng.range(-r, r) as i128, den) }).collect()
        };
        if rng.chance(15) {
            let k = rng.below(n);
            for x in v[..k].iter_mut() {
                *x = Q::ZERO;
            }
        }
        vecs.push(v);
    }
    let nb = 1 + rng.below(4);
    let nt = 1 + rng.below(3);
    let mut tasks: Vec<Vec<Value>> = vec![vec![]; nt];
    let tick = kind.starts_with("tick");
    // each basis gets the vectors in its own order
    let mut queues: Vec<Vec<usize>> = (0..nb).map(|_| {
        let mut q: Vec<usize> = (0..nv).collect();
        if rng.chance(80) {
            rng.shuffle(&mut q);
        }
        for _ in 0..rng.below(3) {
            let i = rng.below(q.len());
            let x = *rng.pick(&q);
            q.insert(i, x);
        }
        q
    }).collect();
    while queues.iter().any(|q| !q.is_empty()) {
        let b = rng.below(nb);
        let t = rng.below(nt);
        let Some(v) = queues[b].pop() else { continue };
        if tick && rng.chance(12) {
            tasks[t].push(json!({"op": "add", "b": b, "v": v, "cancel": rng.log2(7)}));
        }
        tasks[t].push(json!({"op": "add", "b": b, "v": v}));
        if nb > 1 && rng.chance(8) {
            tasks[t].push(json!({"op": "branch", "b": b, "to": rng.below(nb)}));
        }
        if rng.chance(3) {
            tasks[t].push(json!({"op": "clear", "b": b}));
        }
    }
    let tasks: Vec<Value> = tasks.into_iter().map(|ops| json!({"key": rng.next(), "ops": ops})).collect();
    let vecs: Vec<Vec<Value>> = vecs.iter().map(|v| v.iter()
        .map(|q| if q.d == 1 { json!(q.n as i64) } else { json!([q.n as i64, q.d as i64]) }).collect()).collect();
    json!({"kind": kind, "n": n, "bases": nb, "vectors": vecs, "tasks": tasks, "plan": gen_plan(rng, 8, 6)})
}

const STUBS: &str = "the caller's scalar types (ticking wrappers around num-rational and primitive integers)";

pub static PROPS: [Prop; 3] = [
    Prop {
        id: "C23", gen: gen_c23, exec: exec_generate, quick_runs: 20_000, thorough_runs: 200_000,
        rule: "distinct (generators, calls of every thread, schedule actually taken); a run counts if a \
            group has more than one operator",
        real: "generate, mod_z, AffineMap, Matrix, num-rational; std's hash maps with seeds chosen by the simulator",
        stubs: STUBS,
        assumptions: &["Generators generate a finite group modulo integral translations."],
    },
    Prop {
        id: "C24", gen: gen_c24, exec: exec_spaces, quick_runs: 20_000, thorough_runs: 300_000,
        rule: "distinct (operator lists, calls of every thread, schedule actually taken)",
        real: "gram_matrix_configuration_space, shift_space, extend_basis, null_space, num-rational",
        stubs: "none", assumptions: &["Lists of operators are not empty."],
    },
    Prop {
        id: "C25", gen: gen_c25, exec: exec_bases, quick_runs: 200_000, thorough_runs: 3_000_000,
        rule: "distinct (vectors, additions of every thread, schedule actually taken)",
        real: "extend_basis for rationals, big integers, i64, i32 and f64", stubs: STUBS,
        assumptions: &["Integers that go out of the range of their type are outside the property."],
    },
];

