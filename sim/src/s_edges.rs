//! Edges and their labels: C38.

use rust_systre::pgraphs::{Edge, LabelVector2d, LabelVector3d};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Mutex;

use crate::iosim::gen_plan;
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::callers::*;
use crate::sched::{common, drive};
use crate::seam::{self, Abandon};

/// Head, tail and shift.
type M = (u32, u32, Vec<i32>);

fn sign(v: &[i32]) -> i32 {
    v.iter().find(|x| **x != 0).map_or(0, |x| x.signum())
}

fn reversed(e: &M) -> M {
    (e.1, e.0, e.2.iter().map(|x| -x).collect())
}

fn key(e: &M) -> M {
    e.clone().min(reversed(e))
}

fn read<L: Label>(e: &Edge<L, World>) -> M {
    (e.head, e.tail, e.shift.to_vec())
}

fn make<L: Label>(e: &M) -> Edge<L, World> {
    Edge::new(e.0, e.1, L::from_vec(&e.2))
}

/// What the operation makes of the first edge, if it stays in range.
fn model(op: &str, x: &M, y: &M) -> Option<M> {
    let shift = |f: &dyn Fn(i32, i32) -> i64| -> Option<M> {
        let s: Vec<i64> = x.2.iter().zip(&y.2).map(|(a, b)| f(*a, *b)).collect();
        s.iter().all(|s| s.abs() <= 1 << 30).then(|| (x.0, x.1, s.iter().map(|s| *s as i32).collect()))
    };
    match op {
        "reverse" => Some(reversed(x)),
        "canonical" => Some(if x.0 > x.1 || x.0 == x.1 && sign(&x.2) < 0 { reversed(x) } else { x.clone() }),
        "add" => shift(&|a, b| a as i64 + b as i64),
        "sub" => shift(&|a, b| a as i64 - b as i64),
        "neg" => shift(&|a, _| -(a as i64)),
        "zero" => shift(&|_, _| 0),
        // head and tail of another
        "ends" => Some((y.0, y.1, x.2.clone())),
        _ => Some(x.clone()),
    }
}

fn real<L: Label>(op: &str, x: &Edge<L, World>, y: &Edge<L, World>) -> Edge<L, World> {
    match op {
        "reverse" => -x,
        "canonical" => x.canonical(),
        "add" => Edge::new(x.head, x.tail, x.shift + y.shift),
        "sub" => Edge::new(x.head, x.tail, x.shift - y.shift),
        "neg" => Edge::new(x.head, x.tail, -x.shift),
        "zero" => Edge::new(x.head, x.tail, L::zero()),
        "ends" => Edge::new(y.head, y.tail, x.shift),
        "round" => Edge::new(x.head, x.tail, L::from_vec(&x.shift.to_vec())),
        _ => *x,
    }
}

/// What is wrong with the edge with the given number, if anything.
fn faults<L: Label>(es: &[Edge<L, World>], ms: &[M], i: usize) -> Option<(&'static str, String)> {
    let (e, m) = (&es[i], &ms[i]);
    if read(e) != *m {
        return Some(("wrong-edge", format!("{:?} instead of {:?}", read(e), m)));
    }
    let s = sign(&m.2);
    let got = (e.shift.is_negative(), e.shift.is_zero(), e.shift.is_positive());
    if got != (s < 0, s == 0, s > 0) {
        return Some(("wrong-sign", format!("{:?} for {:?}", got, m.2)));
    }
    let label: Vec<String> = m.2.iter().map(|x| x.to_string()).collect();
    let label = format!("({})", label.join(", "));
    if e.shift.to_string() != label || e.to_string() != format!("{} --{}-> {}", m.0, label, m.1) {
        return Some(("wrong-text", format!("{} and {} for {:?}", e.shift, e, m)));
    }
    let c = e.canonical();
    if c != *e && c != -e {
        return Some(("canonical-elsewhere", format!("{} for {}", c, e)));
    }
    if (-e).canonical() != c || c.canonical() != c {
        return Some(("canonical-twice", format!("{} for {}, {} for its reverse, {} for itself", c, e, (-e).canonical(), c.canonical())));
    }
    if c.head > c.tail || c.head == c.tail && sign(&c.shift.to_vec()) < 0 {
        return Some(("canonical-direction", format!("{} for {}", c, e)));
    }
    let hash = RandomState::new();
    let value = |e: &Edge<L, World>| {
        let mut h = hash.build_hasher();
        e.hash(&mut h);
        h.finish()
    };
    for (f, n) in es.iter().zip(ms) {
        let same = m == n;
        let order = e.cmp(f);
        if (e == f) != same || (e != f) == same || (order == Ordering::Equal) != same || f.cmp(e) != order.reverse()
            || e.partial_cmp(f) != Some(order) || same && value(e) != value(f)
        {
            return Some(("comparison", format!("{} and {}: equal {}, order {:?}, hashes equal {}", e, f, e == f, order, value(e) == value(f))));
        }
    }
    None
}

fn collected<L: Label>(es: &[Edge<L, World>], ms: &[M]) -> Option<(&'static str, String)> {
    let want: BTreeSet<M> = ms.iter().map(key).collect();
    let a: HashSet<Edge<L, World>> = es.iter().map(|e| e.canonical()).collect();
    let b: BTreeSet<Edge<L, World>> = es.iter().map(|e| e.canonical()).collect();
    let ka: BTreeSet<M> = a.iter().map(|e| key(&read(e))).collect();
    if a.len() != want.len() || b.len() != want.len() || ka != want || b.iter().any(|e| !a.contains(e)) {
        return Some(("collection", format!("{} and {} of {} edges", a.len(), b.len(), want.len())));
    }
    let mut sorted = es.to_vec();
    sorted.sort();
    let wrong = (0..sorted.len()).any(|i| (i..sorted.len()).any(|j| sorted[i].cmp(&sorted[j]) == Ordering::Greater));
    wrong.then(|| ("collection", "the order is not transitive".into()))
}

fn run<L>(pool: &[M], tasks: Vec<(u64, Vec<Value>)>, plan: &crate::sched::Plan, cx: &Cx)
where
    L: Label,
{
    // every thread keeps edges of its own, all made from the same ones
    let start: Vec<Edge<L, World>> = pool.iter().map(make).collect();
    let kept: Vec<Mutex<(Vec<Edge<L, World>>, Vec<M>)>> = tasks.iter().map(|_| Mutex::new((start.clone(), pool.to_vec()))).collect();
    drive(cx, 0, tasks, plan, &|t, op| {
        let mut kept = kept[t].lock().unwrap();
        let (es, ms) = &mut *kept;
        let what = op["op"].as_str().unwrap();
        let i = op["x"].as_u64().unwrap_or(0) as usize % es.len();
        let j = op["y"].as_u64().unwrap_or(0) as usize % es.len();
        let who = format!("thread {}: {} of {:?} and {:?}", t, what, ms[i], ms[j]);
        let mut cancel = op["cancel"].as_u64().filter(|c| *c > 0);
        let Some(want) = model(what, &ms[i], &ms[j]) else { return };
        let e = loop {
            match seam::call(cancel, || real(what, &es[i], &es[j])) {
                Ok(e) => break e,
                Err(Abandon::Cancelled) => {
                    cx.fault("abandoned in the caller's label arithmetic");
                    cancel = None;
                    if read(&es[i]) != ms[i] || read(&es[j]) != ms[j] {
                        return cx.violation("argument-changed", who);
                    }
                }
                Err(a) => return cx.violation("panic", format!("{}: {:?}", who, a)),
            }
        };
        es[i] = e;
        ms[i] = want;
        cx.log(&format!("{} -> {:?}", who, read(&e)));
        cx.judged();
        let res = seam::call(None, || faults(es, ms, i).or_else(|| if what == "collect" { collected(es, ms) } else { None }));
        match res {
            Ok(None) => {}
            Ok(Some((class, text))) => cx.violation(class, format!("{}: {}", who, text)),
            Err(a) => cx.violation("panic", format!("{}, then read: {:?}", who, a)),
        }
        if ms[i].0 == ms[i].1 {
            cx.probe("loop");
        }
    });
    let left = start.iter().zip(pool).all(|(e, m)| read(e) == *m);
    cx.check(left, "argument-changed", || "the edges that were copied".into());
}

fn exec(scn: &Value, cx: &Cx) -> Result<(), String> {
    let n = scn["dim"].as_u64().filter(|n| (1..=4).contains(n)).ok_or("dim")? as usize;
    let pool: Vec<M> = scn["edges"].as_array().ok_or("edges")?.iter().map(|e| {
        let s: Vec<i32> = e[2].as_array()?.iter().map(|x| x.as_i64().filter(|x| x.abs() <= 1 << 30).map(|x| x as i32)).collect::<Option<_>>()?;
        (s.len() == n).then_some((e[0].as_u64()?.min(u32::MAX as u64) as u32, e[1].as_u64()?.min(u32::MAX as u64) as u32, s))
    }).collect::<Option<_>>().ok_or("edge")?;
    if pool.is_empty() || pool.len() > 64 {
        return Err("edges".into());
    }
    let (tasks, plan) = common(scn)?;
    if tasks.iter().flat_map(|t| &t.1).any(|op| !op["op"].is_string()) {
        return Err("op".into());
    }
    cx.sign(scn["edges"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    cx.nontrivial();
    match (n, scn["label"] == "tick") {
        #[cfg(not(sim_plain))]
        (1, _) => run::<T<LN<1>>>(&pool, tasks, &plan, cx),
        (2, false) => run::<LabelVector2d<World>>(&pool, tasks, &plan, cx),
        (3, false) => run::<LabelVector3d<World>>(&pool, tasks, &plan, cx),
        (2, true) => run::<T<LabelVector2d<World>>>(&pool, tasks, &plan, cx),
        (3, true) => run::<T<LabelVector3d<World>>>(&pool, tasks, &plan, cx),
        #[cfg(not(sim_plain))]
        (4, _) => run::<T<LN<4>>>(&pool, tasks, &plan, cx),
        _ => {}
    }
    Ok(())
}

fn gen(rng: &mut Rng) -> Value {
    let n = if cfg!(sim_plain) { 2 + rng.below(2) } else { 1 + rng.weighted(&[1, 5, 5, 1]) };
    let top = match rng.below(10) { 0..=6 => 1, 7 => 3, 8 => 100, _ => 1 << 29 };
    let nv = 1 + rng.below(4) as i64;
    let far = rng.chance(10);
    let edges: Vec<Value> = (0..1 + rng.below(8)).map(|_| {
        let v = |rng: &mut Rng| if far { rng.below(u32::MAX as usize) as i64 } else { rng.range(1, nv) };
        let zero = *rng.pick(&[10, 50]);
        let h = v(rng);
        let t = if rng.chance(35) { h } else { v(rng) };
        let s: Vec<i64> = (0..n).map(|_| if rng.chance(zero) { 0 } else { rng.range(-top, top) }).collect();
        json!([h, t, s])
    }).collect();
    let tick = rng.chance(50);
    let tasks: Vec<Value> = (0..1 + rng.below(3)).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(12)).map(|_| {
            let what = *rng.pick(&["reverse", "canonical", "add", "sub", "neg", "zero", "ends", "round", "collect", "collect"]);
            let mut op = json!({"op": what, "x": rng.below(edges.len()), "y": rng.below(edges.len())});
            if tick && rng.chance(35) {
                op["cancel"] = json!(1 + rng.below(4));
            }
            op
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    json!({"dim": n, "label": if tick { "tick" } else { "plain" }, "edges": edges, "tasks": tasks, "plan": gen_plan(rng, 6, 8)})
}

pub static PROPS: [Prop; 1] = [
    Prop {
        id: "C38", gen, exec, quick_runs: 250_000, thorough_runs: 4_000_000,
        rule: "distinct (edges, histories of every thread, schedule actually taken)",
        real: "Edge, LabelVector2d, LabelVector3d and what they derive; std's hash sets with seeds chosen by the simulator",
        stubs: "the caller's label types (a ticking wrapper; labels of one and four coordinates)",
        assumptions: &["Coordinates stay within 31 bits."],
    },
];
