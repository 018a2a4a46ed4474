//! Primitive settings and the classification of operators: C36 and C37.

use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, Vector};
use rust_systre::arithmetic::linear_algebra::LinearAlgebra;
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::generate;
#[cfg(not(systre_sim_without = "settings"))]
use rust_systre::spacegroups::basics::PrimitiveSetting;
#[cfg(not(systre_sim_without = "operators"))]
use rust_systre::spacegroups::finder::{sim_crystal_system_and_basis_2d, sim_operator_details};
use rust_systre::spacegroups::types::{Coord, CoordPtr, CrystalSystem};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

use crate::frac::*;
use crate::iosim::gen_plan;
use crate::rng::Rng;
#[allow(unused_imports)]
use crate::runner::{harness_error, Cx, Prop};
use crate::callers::*;
use crate::s_group::{affine, closure, compose, group_json, parse_group, show, table, unaffine};
use crate::sched::{common, drive};
use crate::s_linalg::{j_mat, p_mat};
use crate::s_table::Op;
use crate::seam::{self, Abandon};

// -------------------------------------------------- C36: primitive settings

/// The coordinate system of a primitive cell, as a caller might mark it.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct CellCS;

fn reduced(o: &Op) -> Op {
    Op { lin: o.lin.clone(), shift: o.shift.iter().map(|x| x.frac()).collect() }
}

fn is_translation(o: &Op) -> bool {
    o.lin == identity(o.lin.len())
}

/// What the real code makes of a list of operators.
#[derive(Clone, Debug, PartialEq)]
struct Setting {
    cell: QMat,
    to: Op,
    back: Op,
    det: Q,
    ops: Vec<Op>,
}

#[cfg(systre_sim_without = "settings")]
fn settle<CS: Clone + Eq>(_: &Vec<AffineMap<BigRational, CS>>) -> Result<Option<Setting>, Abandon> {
    harness_error("the hook for primitive settings does not build")
}

#[cfg(not(systre_sim_without = "settings"))]
fn settle<CS: Clone + Eq>(maps: &Vec<AffineMap<BigRational, CS>>) -> Result<Option<Setting>, Abandon> {
    seam::call(None, || {
        let p: PrimitiveSetting<CS, CellCS> = PrimitiveSetting::sim_new(maps);
        let cell = p.sim_cell().iter().map(|v: &Vector<BigRational, CS>| v.iter().map(|x| Q::from_big(x)).collect()).collect::<Option<_>>()?;
        let ops = p.sim_ops().iter().map(unaffine).collect::<Option<_>>()?;
        let to = p.sim_to_primitive();
        Some(Setting { cell, to: unaffine(&to.forward())?, back: unaffine(&to.inverse().forward())?, det: to.determinant().q()?, ops })
    })
}

fn judge_setting(cx: &Cx, who: &str, list: &[Op], got: &Setting) {
    let n = list[0].lin.len();
    let mut all: QMat = identity(n);
    all.extend(list.iter().filter(|o| is_translation(o)).map(|o| o.shift.clone()));
    if got.cell.len() != n || got.cell.iter().any(|v| v.len() != n) || lattice_hnf(&got.cell) != lattice_hnf(&all) {
        return cx.violation("wrong-cell", format!("{}: the cell {:?} does not span the translations", who, got.cell));
    }
    let b = transpose(&got.cell);
    let inv = inverse(&b).unwrap();
    let zero = vec![Q::ZERO; n];
    if got.to != (Op { lin: inv.clone(), shift: zero.clone() }) || got.back != (Op { lin: b.clone(), shift: zero.clone() }) {
        return cx.violation("wrong-coordinates", format!("{}: {} and {} for the cell {:?}", who, show(&got.to), show(&got.back), got.cell));
    }
    let index = list.iter().filter(|o| is_translation(o)).map(|o| reduced(o).shift).chain([zero.clone()]).collect::<BTreeSet<_>>().len();
    if got.det != Q::int(index as i64) {
        return cx.violation("wrong-volume", format!("{}: determinant {} with {} translations", who, got.det, index));
    }
    if index > 1 {
        cx.probe("cell with more than one translation");
    } else {
        cx.probe("cell that is primitive already");
    }
    let key = |o: &Op| (o.lin.clone(), o.shift.clone());
    let to = Op { lin: inv, shift: zero.clone() };
    let back = Op { lin: b, shift: zero };
    let want: BTreeSet<_> = list.iter().map(|o| key(&reduced(&compose(&compose(&to, o), &back)))).collect();
    let mut seen = BTreeSet::new();
    for o in &got.ops {
        if o.shift.iter().any(|x| *x < Q::ZERO || *x >= Q::ONE) {
            return cx.violation("not-reduced", format!("{}: {}", who, show(o)));
        }
        if !seen.insert(key(o)) {
            return cx.violation("twice", format!("{}: {}", who, show(o)));
        }
    }
    if seen != want {
        let o = seen.symmetric_difference(&want).next().unwrap();
        return cx.violation("wrong-operators", format!("{}: {} is {}", who, show(&Op { lin: o.0.clone(), shift: o.1.clone() }),
            if want.contains(o) { "missing" } else { "there" }));
    }
}

fn exec_c36(scn: &Value, cx: &Cx) -> Result<(), String> {
    let groups: Vec<Vec<Op>> = scn["groups"].as_array().ok_or("groups")?.iter().map(|g| {
        let g = parse_group(g)?;
        Ok(g.want.iter().map(|(l, s)| Op { lin: l.clone(), shift: s.clone() }).collect())
    }).collect::<Result<_, String>>()?;
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        if op["g"].as_u64().ok_or("g")? as usize >= groups.len() {
            return Err("op".into());
        }
    }
    cx.sign(scn["groups"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    if groups.iter().any(|g| g.len() > 1) {
        cx.nontrivial();
    }
    // the same list gives the same setting, whoever asks and with whatever hash seeds
    let before: Mutex<BTreeMap<String, Setting>> = Mutex::new(BTreeMap::new());
    drive(cx, 0, tasks, &plan, &|t, op| {
        let g = op["g"].as_u64().unwrap() as usize;
        let who = format!("thread {} {}", t, op);
        // the group as this caller lists it
        let mut list = groups[g].clone();
        let mut rng = Rng::new(op["mix"].as_u64().unwrap_or(0));
        if op["mix"].as_u64().unwrap_or(0) > 0 {
            rng.shuffle(&mut list);
        }
        for _ in 0..op["extra"].as_u64().unwrap_or(0).min(20) {
            let o = rng.pick(&list).clone();
            list.insert(rng.below(list.len() + 1), o);
        }
        if op["loose"] == true {
            for o in list.iter_mut() {
                for x in o.shift.iter_mut() {
                    *x = *x + Q::int(rng.range(-2, 2));
                }
            }
        }
        let n = list[0].lin.len();
        let maps: Vec<AffineMap<BigRational, World>> = list.iter().map(affine).collect();
        let res = settle(&maps);
        cx.log(&format!("{} -> {:?}", who, res));
        cx.judged();
        let got = match res {
            Ok(Some(s)) => s,
            Ok(None) => return cx.violation("absurd", format!("{}: {} operators", who, list.len())),
            Err(e) => return cx.violation("panic", format!("{}: {:?} for {} operators in dimension {}", who, e, list.len(), n)),
        };
        judge_setting(cx, &who, &list, &got);
        if cx.violated() {
            return;
        }
        if list.iter().zip(&maps).any(|(o, m)| unaffine(m).as_ref() != Some(o)) {
            cx.violation("argument-changed", who.clone());
        }
        let mut key = op.clone();
        key.as_object_mut().unwrap().remove("then");
        let old = before.lock().unwrap().insert(key.to_string(), got.clone());
        if old.as_ref().is_some_and(|o| *o != got) {
            return cx.violation("differs", format!("{}: {:?} before, {:?} now", who, old, got));
        }
        // what can be done with the result
        let maps: Vec<AffineMap<BigRational, CellCS>> = got.ops.iter().map(|o| {
            let n = o.shift.len();
            let m: Vec<BigRational> = o.lin.iter().flatten().map(|q| q.to_big()).collect();
            let s: Vec<BigRational> = o.shift.iter().map(|q| q.to_big()).collect();
            AffineMap::new(&Matrix::new(n, &m), &Vector::new(&s))
        }).collect();
        if op["then"] == "again" {
            match settle(&maps) {
                Ok(Some(s)) => {
                    judge_setting(cx, &format!("{}: once more", who), &got.ops, &s);
                    cx.judged();
                    cx.check(s.det == Q::ONE, "not-primitive", || format!("{}: the primitive setting has a cell of volume {} in itself", who, s.det));
                }
                r => cx.violation("panic", format!("{}: once more: {:?}", who, r)),
            }
        }
        if op["then"] == "generate" && maps.len() <= 60 {
            cx.judged();
            match seam::call(None, || generate(&maps)) {
                Ok(all) => {
                    let set: Option<BTreeSet<(QMat, QVec)>> = all.iter().map(|a| unaffine(a).map(|o| (o.lin, o.shift))).collect();
                    let want: BTreeSet<(QMat, QVec)> = got.ops.iter().map(|o| (o.lin.clone(), o.shift.clone())).collect();
                    cx.check(set.as_ref() == Some(&want), "not-closed", || format!("{}: the operators of the primitive setting generate {} of {}", who, all.len(), want.len()));
                }
                Err(e) => cx.violation("panic", format!("{}: generate: {:?}", who, e)),
            }
        }
    });
    Ok(())
}

fn gen_c36(rng: &mut Rng) -> Value {
    let nt = 1 + rng.weighted(&[4, 4, 2]);
    let ng = 1 + rng.below(2);
    let max = match rng.below(20) { 0 => 2400, 1..=5 => 900, _ => 300 };
    let groups: Vec<Value> = (0..ng).map(|_| {
        let mut g = group_json(rng, max);
        if rng.chance(35) && g["gens"].is_array() {
            // a finer lattice of translations
            let n = g["gens"][0]["t"].as_array().unwrap().len();
            for _ in 0..1 + rng.below(2) {
                let d = *rng.pick(&[2i64, 2, 3, 4, 5, 6]);
                let t: Vec<Value> = (0..n).map(|_| json!([rng.range(0, d - 1), d])).collect();
                let m: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect();
                let mut h = g.clone();
                h["gens"].as_array_mut().unwrap().push(json!({"m": m, "t": t}));
                if parse_group(&h).is_ok_and(|s| s.want.len() <= 200) {
                    g = h;
                }
            }
        }
        g
    }).collect();
    let mut asked: Vec<Value> = vec![];
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(3)).map(|_| {
            let mut op = json!({"g": rng.below(ng), "mix": if rng.chance(75) { rng.next() >> 20 } else { 0 }});
            if rng.chance(40) {
                op["extra"] = json!(rng.below(6));
            }
            if rng.chance(50) {
                op["loose"] = json!(true);
            }
            if !asked.is_empty() && rng.chance(30) {
                op = rng.pick(&asked).clone();
            }
            asked.push(op.clone());
            match rng.below(4) {
                0 => op["then"] = json!("again"),
                1 => op["then"] = json!("generate"),
                _ => {}
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    json!({"groups": groups, "tasks": tasks, "plan": gen_plan(rng, 6, 8)})
}

// --------------------------------------------- C37: operators and systems

type B = S<BigRational>;

/// What is reported of an operator.
#[derive(Clone, Debug, PartialEq)]
struct Details {
    matrix: QMat,
    dim: usize,
    axis: Option<QVec>,
    order: usize,
    keeps: bool,
    sense: bool,
}

fn to_matrix<X: Num>(m: &QMat) -> Matrix<X> {
    Matrix::new(m[0].len(), &m.concat().iter().map(|q| X::of(*q)).collect::<Vec<_>>())
}

fn of_matrix<X: Num>(m: &Matrix<X>) -> Option<QMat> {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)].q()).collect()).collect()
}

#[cfg(systre_sim_without = "operators")]
fn sim_operator_details<X>(_: Matrix<X>) -> (Matrix<X>, usize, Option<Vec<X>>, usize, bool, bool) {
    harness_error("the hook for operators does not build")
}

#[cfg(systre_sim_without = "operators")]
fn sim_crystal_system_and_basis_2d<X>(_: &[Matrix<X>]) -> (CrystalSystem, Vec<Matrix<X>>) {
    harness_error("the hook for operators does not build")
}

fn details<X>(m: &QMat, cancel: Option<u64>) -> Result<Option<Details>, Abandon>
where
    X: Num + Coord,
    for<'a> &'a X: CoordPtr<X>,
    Matrix<X>: LinearAlgebra<X>,
{
    let lib: Matrix<X> = to_matrix(m);
    let (m, dim, axis, order, keeps, sense) = seam::call(cancel, || sim_operator_details(lib))?;
    let axis = axis.map(|a| a.iter().map(|x| x.q()).collect::<Option<QVec>>());
    let (Some(matrix), Some(axis)) = (of_matrix(&m), axis.map_or(Some(None), |a| a.map(Some))) else { return Ok(None) };
    Ok(Some(Details { matrix, dim, axis, order, keeps, sense }))
}

fn system<X>(ms: &[QMat], cancel: Option<u64>) -> Result<Option<(CrystalSystem, QMat)>, Abandon>
where
    X: Num + Coord,
    for<'a> &'a X: CoordPtr<X>,
    Matrix<X>: LinearAlgebra<X>,
{
    let lib: Vec<Matrix<X>> = ms.iter().map(to_matrix).collect();
    let (s, b) = seam::call(cancel, || sim_crystal_system_and_basis_2d(&lib))?;
    let b: Option<QMat> = b.iter().map(|c| c.iter().map(|x| x.q()).collect()).collect();
    Ok(b.map(|b| (s, b)))
}

fn order_of(m: &QMat) -> usize {
    let id = identity(m.len());
    let mut a = id.clone();
    for i in 1..=6 {
        a = mat_mul(&a, m);
        if a == id {
            return i;
        }
        if a.iter().flatten().any(|q| q.n.abs() > 1 << 40 || q.d > 1 << 40) {
            return 0;
        }
    }
    0
}

/// The vectors that an operator, or its product with the inversion, fixes.
fn fixed(m: &QMat) -> QMat {
    let n = m.len();
    let f = if n % 2 == 1 && det(m) < Q::ZERO { -Q::ONE } else { Q::ONE };
    let rows: QMat = (0..n).map(|i| (0..n).map(|j| m[i][j] - if i == j { f } else { Q::ZERO }).collect()).collect();
    null_space(&rows, n)
}

fn judge_details(cx: &Cx, who: &str, m: &QMat, got: &Details) {
    let n = m.len();
    let bad = |class: &str, text: String| cx.violation(class, format!("{}: {:?}: {}", who, got, text));
    let order = order_of(m);
    let keeps = det(m) >= Q::ZERO;
    if got.matrix != *m || got.dim != n {
        return bad("wrong-matrix", format!("{:?}", m));
    }
    if got.order != order {
        return bad("wrong-order", format!("the order is {}", order));
    }
    if got.keeps != keeps {
        return bad("wrong-orientation", format!("the determinant is {}", det(m)));
    }
    let line = fixed(m);
    match &got.axis {
        None if line.len() != 1 => {}
        Some(a) if line.len() == 1 && a.len() == n && rref(&[a.clone()]) == line => {
            if a.iter().find(|x| !x.is_zero()).unwrap().n < 0 {
                return bad("axis-direction", "the axis points backwards".into());
            }
            cx.probe("operator with an axis");
        }
        _ => return bad("wrong-axis", format!("the fixed vectors are {:?}", line)),
    }
    let sense = match n {
        2 if !keeps => Some(false),
        _ if order == 1 || order == 2 => Some(true),
        1 => Some(true),
        _ if order == 0 => None,
        2 => Some(m[0][1] >= Q::ZERO),
        _ => {
            let axis = got.axis.clone().unwrap_or(vec![Q::ZERO; 3]);
            let v = identity(3).into_iter().find(|v| rref(&[axis.clone(), v.clone()]).len() == 2).unwrap();
            let w = mat_vec(m, &v);
            Some(det(&transpose(&vec![axis, v, w])) >= Q::ZERO)
        }
    };
    if sense.is_some_and(|s| s != got.sense) {
        return bad("wrong-sense", format!("expected {:?}", sense));
    }
    if order > 2 {
        cx.probe("operator of order three or more");
    }
}

fn judge_system(cx: &Cx, who: &str, ms: &[QMat], got: &(CrystalSystem, QMat)) {
    let max = ms.iter().map(order_of).max().unwrap();
    let mirrors: Vec<&QMat> = ms.iter().filter(|m| det(m) < Q::ZERO).collect();
    let want = match max {
        3 | 6 => CrystalSystem::Hexagonal,
        4 => CrystalSystem::Square,
        _ if mirrors.is_empty() => CrystalSystem::Oblique,
        _ => CrystalSystem::Rectangular,
    };
    let bad = |class: &str, text: String| cx.violation(class, format!("{}: {:?}: {}", who, got, text));
    if got.0 != want {
        return bad("wrong-system", format!("expected {:?}", want));
    }
    cx.probe(&format!("{}", want));
    let b = transpose(&got.1);
    if b.len() != 2 || b.iter().any(|r| r.len() != 2) || det(&b) <= Q::ZERO {
        return bad("wrong-basis", "not a right-handed basis".into());
    }
    let inv = inverse(&b).unwrap();
    let seen: Vec<QMat> = ms.iter().map(|m| mat_mul(&mat_mul(&inv, m), &b)).collect();
    if seen.iter().flatten().flatten().any(|q| !q.is_int()) {
        return bad("wrong-basis", format!("the operators become {:?}", seen));
    }
    if !mirrors.is_empty() && mirrors.iter().all(|m| mat_vec(m, &got.1[0]) != got.1[0]) {
        return bad("wrong-basis", "the first vector is on no mirror".into());
    }
    if want == CrystalSystem::Rectangular && seen.iter().any(|m| !m[0][1].is_zero() || !m[1][0].is_zero()) {
        return bad("wrong-basis", format!("the operators become {:?}", seen));
    }
    if max > 2 {
        let neg: QVec = got.1[1].iter().map(|x| -*x).collect();
        let round: Vec<QVec> = ms.iter().map(|m| mat_vec(m, &got.1[0])).collect();
        if !round.contains(&got.1[1]) && !round.contains(&neg) {
            return bad("wrong-basis", "the vectors are not equivalent".into());
        }
    }
    if ms.iter().collect::<BTreeSet<_>>().len() < ms.len() {
        cx.probe("repeated operators");
    }
}

fn exec_c37(scn: &Value, cx: &Cx) -> Result<(), String> {
    let lists: Vec<Vec<QMat>> = scn["lists"].as_array().ok_or("lists")?.iter().map(|l| {
        l.as_array()?.iter().map(|m| p_mat(m, 3)).collect::<Option<Vec<_>>>()
    }).collect::<Option<_>>().ok_or("list")?;
    for l in &lists {
        if l.is_empty() || l.iter().any(|m| m.len() != m[0].len() || m.len() != l[0].len()
            || m.iter().flatten().any(|q| q.n.abs() > 1000 || q.d > 1000))
        {
            return Err("list".into());
        }
    }
    let (tasks, plan) = common(scn)?;
    for op in tasks.iter().flat_map(|t| &t.1) {
        let l = lists.get(op["l"].as_u64().ok_or("l")? as usize).ok_or("l")?;
        match op["op"].as_str() {
            Some("details") => {}
            // asked of plane point groups
            Some("system") if l[0].len() == 2 && is_group(l) => {}
            _ => return Err("op".into()),
        }
    }
    cx.sign(scn["lists"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    // the group written in the basis is the same for every order of the list
    let before: Mutex<BTreeMap<u64, BTreeSet<QMat>>> = Mutex::new(BTreeMap::new());
    drive(cx, 0, tasks, &plan, &|t, op| {
        let l = &lists[op["l"].as_u64().unwrap() as usize];
        let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
        let tick = op["tick"] == true;
        if op["op"] == "details" {
            let m = &l[op["m"].as_u64().unwrap_or(0) as usize % l.len()];
            let who = format!("thread {}: {:?}", t, m);
            loop {
                let res = if tick { details::<B>(m, cancel) } else { details::<BigRational>(m, cancel) };
                cx.log(&format!("{} -> {:?}", who, res));
                match res {
                    Err(Abandon::Cancelled) => {
                        cx.fault("abandoned in the caller's arithmetic: operator");
                        cancel = None;
                        continue;
                    }
                    Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                    Ok(None) => cx.violation("absurd", who),
                    Ok(Some(d)) => {
                        cx.judged();
                        judge_details(cx, &who, m, &d);
                    }
                }
                break;
            }
            return;
        }
        // the group in an order of the caller's
        let mut ms = l.clone();
        let mut rng = Rng::new(op["mix"].as_u64().unwrap_or(0));
        if op["mix"].as_u64().unwrap_or(0) > 0 {
            rng.shuffle(&mut ms);
        }
        for _ in 0..op["extra"].as_u64().unwrap_or(0).min(12) {
            let m = rng.pick(&ms).clone();
            ms.insert(rng.below(ms.len() + 1), m);
        }
        let who = format!("thread {}: {:?}", t, ms);
        loop {
            let res = if tick { system::<B>(&ms, cancel) } else { system::<BigRational>(&ms, cancel) };
            cx.log(&format!("{} -> {:?}", who, res));
            match res {
                Err(Abandon::Cancelled) => {
                    cx.fault("abandoned in the caller's arithmetic: crystal system");
                    cancel = None;
                    continue;
                }
                Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                Ok(None) => cx.violation("absurd", who),
                Ok(Some(s)) => {
                    cx.judged();
                    judge_system(cx, &who, &ms, &s);
                    if cx.violated() {
                        return;
                    }
                    let b = transpose(&s.1);
                    let inv = inverse(&b).unwrap();
                    let now: BTreeSet<QMat> = ms.iter().map(|m| mat_mul(&mat_mul(&inv, m), &b)).collect();
                    let old = before.lock().unwrap().insert(op["l"].as_u64().unwrap(), now.clone());
                    if old.as_ref().is_some_and(|o| *o != now) {
                        cx.violation("depends-on-order", format!("{}: {:?} before, {:?} now", who, old, now));
                    }
                }
            }
            break;
        }
    });
    Ok(())
}

fn is_group(ms: &[QMat]) -> bool {
    let set: BTreeSet<&QMat> = ms.iter().collect();
    ms.len() <= 64 && ms.iter().all(|m| det(m).n.abs() == 1 && det(m).d == 1 && order_of(m) > 0)
        && set.iter().all(|a| set.iter().all(|b| set.contains(&mat_mul(a, b))))
}

fn linear_parts(rng: &mut Rng, dim: usize) -> Vec<QMat> {
    let settings: Vec<_> = table().settings.values().filter(|s| !s.ops.is_empty() && s.ops[0].lin.len() == dim).collect();
    // few symmetries are rare among the settings
    let s = rng.pick(&settings);
    let set: BTreeSet<QMat> = s.ops.iter().map(|o| o.lin.clone()).collect();
    let all: Vec<QMat> = set.into_iter().collect();
    if rng.chance(40) {
        let gens: Vec<Op> = (0..1 + rng.below(2)).map(|_| Op { lin: rng.pick(&all).clone(), shift: vec![Q::ZERO; dim] }).collect();
        if let Some(c) = closure(&gens, 60) {
            return c.into_iter().map(|k| k.0).collect();
        }
    }
    all
}

fn gen_c37(rng: &mut Rng) -> Value {
    let lists: Vec<Vec<QMat>> = (0..1 + rng.below(3)).map(|_| {
        let dim = *rng.pick(&[1usize, 2, 2, 2, 2, 3, 3, 3]);
        if dim == 1 || rng.chance(12) {
            // anything
            let den = if rng.chance(60) { 1 } else { *rng.pick(&[2i128, 3, 5]) };
            let top = *rng.pick(&[1, 1, 2, 4]);
            return (0..1 + rng.below(4)).map(|_| {
                (0..dim).map(|_| (0..dim).map(|_| Q::new(rng.range(-top, top) as i128, den)).collect()).collect()
            }).collect();
        }
        let mut ms = linear_parts(rng, dim);
        if rng.chance(60) {
            // other axes, rational ones too
            let mut u = identity(dim);
            for _ in 0..1 + rng.below(4) {
                let (i, j) = (rng.below(dim), rng.below(dim));
                let f = if rng.chance(70) { Q::int(*rng.pick(&[-2, -1, 1, 2])) } else { Q::new(*rng.pick(&[-1, 1, 3]), *rng.pick(&[2, 3])) };
                if i == j {
                    for k in 0..dim {
                        u[i][k] = u[i][k] * f;
                    }
                } else {
                    for k in 0..dim {
                        u[i][k] = u[i][k] + f * u[j][k];
                    }
                }
            }
            let inv = inverse(&u).unwrap();
            ms = ms.iter().map(|m| mat_mul(&mat_mul(&u, m), &inv)).collect();
        }
        ms
    }).filter(|l: &Vec<QMat>| l.iter().flatten().flatten().all(|q| q.n.abs() <= 1000 && q.d <= 1000)).collect();
    if lists.is_empty() {
        return gen_c37(rng);
    }
    let nt = 1 + rng.weighted(&[3, 4, 3]);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(8)).map(|_| {
            let l = rng.below(lists.len());
            let mut op = if lists[l][0].len() == 2 && is_group(&lists[l]) && rng.chance(50) {
                json!({"op": "system", "l": l, "mix": if rng.chance(80) { rng.next() >> 20 } else { 0 },
                    "extra": if rng.chance(40) { rng.below(6) } else { 0 }})
            } else {
                json!({"op": "details", "l": l, "m": rng.below(lists[l].len())})
            };
            if rng.chance(70) {
                op["tick"] = json!(true);
                if rng.chance(30) {
                    op["cancel"] = json!(rng.log2(if op["op"] == "system" { 13 } else { 10 }));
                }
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let lists: Vec<Vec<Value>> = lists.iter().map(|l| l.iter().map(|m| j_mat(m)).collect()).collect();
    json!({"lists": lists, "tasks": tasks, "plan": gen_plan(rng, 8, 10)})
}

pub static PROPS: [Prop; 2] = [
    Prop {
        id: "C36", gen: gen_c36, exec: exec_c36, quick_runs: 6_000, thorough_runs: 300_000,
        rule: "distinct (groups, ways of listing them, calls of every thread, schedule actually taken); a run \
            counts if a group has more than one operator",
        real: "PrimitiveSetting, rational_lattice_basis, extend_basis, CoordinateMap, AffineMap, mod_z, generate, num-rational; \
            std's hash sets with seeds chosen by the simulator",
        stubs: "the caller's marker type for the coordinates of the primitive cell",
        assumptions: &["The operators listed form a group modulo integral translations."],
    },
    Prop {
        id: "C37", gen: gen_c37, exec: exec_c37, quick_runs: 60_000, thorough_runs: 2_000_000,
        rule: "distinct (operators, calls of every thread, schedule actually taken)",
        real: "OperatorDetails, crystal_system_and_basis_2d, null_space, determinant, Matrix, num-rational",
        stubs: "the caller's scalar type (a ticking wrapper around num-rational)",
        assumptions: &["Crystal systems are asked of lists that form a plane point group; the sense of rotation of finite orders only."],
    },
];

