//! Mixed users: C26 (isolation) and C27 (reproducibility).

use rust_systre::spacegroups::parse_table::parse_space_group_table;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Mutex;

use crate::frac::*;
use crate::iosim::*;
use crate::netgen::{self, Kind};
use crate::rng::Rng;
use crate::runner::{self, Cx, Prop};
use crate::s_cgd;
use crate::s_graph::{self, GraphSpec, Ref, Res, Subject};
use crate::s_group::{self, Basis, GroupSpec};
use crate::s_part::{self, Part, PartSpec, What};
use crate::s_table;
use crate::sched::{run_tasks, Plan};
use crate::seam::{self, Abandon};

// ---------------------------------------------------------------- objects

enum Obj {
    Graph(GraphSpec),
    Part([PartSpec; 1]),
    Doc(Vec<u8>),
    Table(Vec<u8>),
    Group(GroupSpec),
    Basis(String, usize),
}

fn parse_obj(v: &Value) -> Result<Obj, String> {
    Ok(match v["kind"].as_str().ok_or("kind")? {
        "graph" => Obj::Graph(s_graph::parse_graph(&v["graph"])?),
        "part" => Obj::Part([s_part::parse_part(&v["part"])?]),
        "doc" => Obj::Doc(s_cgd::bytes(&s_cgd::doc(&v["doc"])?)),
        "table" => Obj::Table(s_table::table_bytes(&v["table"])?),
        "group" => Obj::Group(s_group::parse_group(&v["group"])?),
        "basis" => Obj::Basis(
            v["scalar"].as_str().ok_or("scalar")?.into(),
            v["n"].as_u64().filter(|n| (1..=8).contains(n)).ok_or("n")? as usize,
        ),
        _ => return Err("kind".into()),
    })
}

fn vector(op: &Value, o: &Obj) -> Option<QVec> {
    let Obj::Basis(scalar, n) = o else { return None };
    let v: QVec = op["add"].as_array()?.iter().map(s_group::json_q).collect::<Option<_>>()?;
    let fits = v.len() == *n && (scalar.ends_with("big") || v.iter().all(|q| q.is_int()));
    if fits { Some(v) } else { None }
}

fn valid(op: &Value, o: &Obj) -> bool {
    match o {
        Obj::Graph(_) => s_graph::valid_op(op),
        Obj::Part(p) => s_part::parse_op(&op["p"], p).is_ok(),
        Obj::Doc(_) => op["api"].is_string() && valid_delivery(&op["delivery"]),
        Obj::Table(_) => valid_delivery(&op["delivery"]),
        Obj::Group(_) => op["scalar"].is_string() || op["space"].is_string(),
        Obj::Basis(..) => op["clear"].is_u64() || vector(op, o).is_some(),
    }
}

/// What a user holds on to between operations.
#[derive(Default)]
struct Live {
    graph: Option<Box<dyn Subject>>,
    part: Option<Box<dyn Part>>,
    basis: Option<Box<dyn Basis>>,
    /// an interrupted change left open what the state is
    vague: bool,
}

/// Part of an operation: what was done, and the outcome (None: abandoned).
type Done = (Value, Option<String>);

fn outcome<R>(r: Result<R, Abandon>, show: impl FnOnce(R) -> String) -> Option<String> {
    match r {
        Ok(x) => Some(show(x)),
        Err(Abandon::Cancelled) => None,
        Err(Abandon::Panic(_)) => Some("panics".into()),
        Err(Abandon::Budget(_)) => Some("does not end".into()),
    }
}

fn graph_outcome(r: Res, exact: bool) -> Option<String> {
    outcome(r, |a| format!("{:?}", if exact { a } else { a.unordered() }))
}

/// Performs one operation on an object. Everything that depends on the
/// thread, the time or a hash seed would show in the outcome.
fn perform(cx: &Cx, o: &Obj, live: &mut Live, op: &Value, exact: bool) -> Vec<Done> {
    let cancel = op["cancel"].as_u64().filter(|c| *c > 0);
    let mut out: Vec<Done> = vec![];
    match o {
        Obj::Graph(spec) => {
            if live.graph.is_none() {
                match s_graph::build(&spec.label, spec.dim, &spec.raw) {
                    Ok(g) => live.graph = Some(g),
                    Err(e) => return vec![(json!({"op": "new"}), outcome(Err::<(), _>(e), |_| String::new()))],
                }
            }
            let mut rs: Vec<(Value, Res)> = vec![];
            live.graph.as_ref().unwrap().run(op, &mut rs);
            out.extend(rs.into_iter().map(|(op, r)| (op, graph_outcome(r, exact))));
        }
        Obj::Part(spec) => {
            let p = s_part::parse_op(&op["p"], spec).unwrap();
            let part = live.part.get_or_insert_with(|| spec[0].fresh());
            let r = match &p.what {
                What::New => {
                    *part = spec[0].fresh();
                    live.vague = false;
                    Some("new".into())
                }
                What::Unite(a, b) => {
                    let r = part.unite(*a, *b, p.cancel);
                    live.vague |= r.is_err();
                    outcome(r, |_| "united".into())
                }
                What::Find(a) => outcome(part.find(*a, p.cancel), |r| r.to_string()),
                What::Classes(l) => outcome(part.classes(l, p.cancel), |r| format!("{:?}", r)),
            };
            out.push((op.clone(), r));
        }
        Obj::Doc(data) => {
            let (r, _) = s_cgd::read_cancelled(cx, data, op["api"].as_str().unwrap(), &op["delivery"], cancel);
            out.push((op.clone(), outcome(r, |s| format!("{:?}", s))));
        }
        Obj::Table(data) => {
            let mut reader = SimReader::new(cx, data, &op["delivery"]);
            let r = seam::call(cancel, || parse_space_group_table(&mut reader));
            let r = outcome(r, |t| match t {
                None => "none".into(),
                Some(t) => {
                    let r = seam::call(None, || {
                        let mut text: Vec<(String, String)> =
                            t.settings.iter().map(|(k, e)| (k.clone(), e.to_string())).collect();
                        text.sort();
                        (s_table::observe(&t), text)
                    });
                    outcome(r, |x| format!("{:?}", x)).unwrap_or_default()
                }
            });
            out.push((op.clone(), r));
        }
        Obj::Group(spec) => {
            let r = if let Some(what) = op["space"].as_str() {
                let r = s_group::raw_space(&spec.gens, what);
                outcome(r, |x| x.map(|m| s_group::bshow(&m)).unwrap_or_else(|| "none".into()))
            } else {
                let r = s_group::run_generate(&spec.gens, op["scalar"].as_str().unwrap(), cancel);
                outcome(r, |v| {
                    let mut l: Vec<String> = v.iter().map(s_group::show).collect();
                    if !exact {
                        l.sort();
                    }
                    l.join("; ")
                })
            };
            out.push((op.clone(), r));
        }
        Obj::Basis(scalar, _) => {
            let b = live.basis.get_or_insert_with(|| s_group::new_basis(scalar));
            if op["clear"].is_u64() {
                *b = s_group::new_basis(scalar);
                out.push((op.clone(), Some("cleared".into())));
            } else {
                let stored = b.copy();
                let r = b.add(&vector(op, o).unwrap(), cancel);
                if r.is_err() {
                    *b = stored;
                }
                let rows = b.rows();
                out.push((op.clone(), outcome(r, |_| format!("{:?}", rows))));
            }
        }
    }
    out
}

/// The operation without that which was abandoned; None if nothing is left.
fn completed(o: &Obj, op: &Value, done: &[Done]) -> Option<Value> {
    if matches!(o, Obj::Graph(_)) && op["op"] == "seqs" {
        let n = op["starts"].as_array().unwrap().len();
        let mut k = 0;
        let mut steps = vec![];
        for s in op["steps"].as_array().unwrap() {
            let counts = s.get("q").is_some() || (s["i"].as_u64().unwrap_or(0) as usize) < n;
            if !counts {
                continue;
            }
            if done.get(k).map(|d| d.1.is_some()).unwrap_or(false) {
                steps.push(match s.get("q") {
                    Some(q) => json!({"q": s_graph::without_cancel(q)}),
                    None => s_graph::without_cancel(s),
                });
            }
            k += 1;
        }
        let mut op = op.clone();
        op["steps"] = Value::Array(steps);
        return Some(op);
    }
    if done.iter().any(|d| d.1.is_none()) {
        return None;
    }
    let mut op = s_graph::without_cancel(op);
    if let (Obj::Part(_), Some(a)) = (o, op["p"].as_array_mut()) {
        let k = match a[0].as_str() { Some("u") => 4, _ => 3 };
        a.truncate(k);
    }
    Some(op)
}

// --------------------------------------------------------------- replicas

/// Performs the operations in order, on fresh objects, `seg` at a time in one
/// thread after the other, each with its own hash key.
fn alone(cx: &Cx, objs: &[&Obj], ops: &[(usize, Value)], key: u64, seg: usize, warm: u64, exact: bool) -> Vec<Option<String>> {
    let lives: Vec<Mutex<Live>> = objs.iter().map(|_| Mutex::new(Live::default())).collect();
    let out: Mutex<Vec<Option<String>>> = Mutex::new(vec![]);
    for (i, part) in ops.chunks(seg.max(1)).enumerate() {
        let (lives, out) = (&lives, &out);
        let cx = cx.clone();
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |_| {
            warm_up(warm);
            for (o, op) in part {
                let mut live = std::mem::take(&mut *lives[*o].lock().unwrap());
                let done = perform(&cx, objs[*o], &mut live, op, exact);
                *lives[*o].lock().unwrap() = live;
                out.lock().unwrap().extend(done.into_iter().map(|d| d.1));
            }
        });
        let mut k = key.wrapping_add(i as u64);
        run_tasks(0, &vec![], vec![(crate::rng::splitmix(&mut k), body)]);
    }
    out.into_inner().unwrap()
}

/// Earlier activity of the thread: hash maps made, memory taken, and the
/// library used for other things.
fn warm_up(n: u64) {
    if n == 0 {
        return;
    }
    for i in 0..n % 7 {
        let m: std::collections::HashMap<u64, u64> = (0..i).map(|x| (x, x)).collect();
        std::hint::black_box(&m);
    }
    for i in 0..n % 50 {
        std::mem::forget(std::hint::black_box(vec![0u8; (17 * (i + n) % 300) as usize]));
    }
    if n % 3 == 0 {
        let edges = vec![(1, 2, vec![0, 0]), (1, 2, vec![1, 0]), (1, 2, vec![0, 1])];
        if let Ok(g) = s_graph::build("tick", 2, &edges) {
            let mut out = vec![];
            for op in ["pos", "inc", "syms", "vorb"].iter().take(1 + (n as usize / 3) % 4) {
                g.run(&json!({"op": op, "v": 1}), &mut out);
            }
        }
    }
    if n % 5 == 0 {
        let _ = seam::call(None, || rust_systre::io::parse_cgd_blocks::parse_blocks(&b"A\n x 1/2 \"b\nEND\n"[..]).len());
    }
}

/// The same in a process of its own.
fn elsewhere(objs: &[&Value], ops: &[(usize, Value)], key: u64, seg: usize, warm: u64, exact: bool)
    -> Result<Vec<Option<String>>, String>
{
    let ops: Vec<Value> = ops.iter().map(|(o, op)| json!([o, op])).collect();
    let text = json!({"objects": objs, "ops": ops, "key": key, "seg": seg, "warm": warm, "exact": exact}).to_string();
    let fail = |e: std::io::Error| -> ! { runner::harness_error(&format!("child process: {}", e)) };
    let mut c = Command::new(runner::me()).arg("transcript").stdin(Stdio::piped()).stdout(Stdio::piped())
        .stderr(Stdio::null()).spawn().unwrap_or_else(|e| fail(e));
    let mut pipe = c.stdin.take().unwrap();
    let _ = pipe.write_all(text.as_bytes());
    drop(pipe);
    let out = c.wait_with_output().unwrap_or_else(|e| fail(e));
    let v: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
    match v.as_array() {
        Some(a) if out.status.success() => Ok(a.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()),
        _ => Err(format!("the process ended with {:?}", out.status)),
    }
}

/// Entry point of the child process.
pub fn transcript() -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let v: Value = serde_json::from_str(&text).unwrap();
    let objs: Vec<Obj> = v["objects"].as_array().unwrap().iter().map(|o| parse_obj(o).unwrap()).collect();
    let ops: Vec<(usize, Value)> = v["ops"].as_array().unwrap().iter()
        .map(|o| (o[0].as_u64().unwrap() as usize, o[1].clone())).collect();
    let n = |k: &str| v[k].as_u64().unwrap();
    let exact = v["exact"].as_bool().unwrap();
    let refs: Vec<&Obj> = objs.iter().collect();
    let out = alone(&Cx::new(false), &refs, &ops, n("key"), n("seg") as usize, n("warm"), exact);
    println!("{}", json!(out));
    0
}

// ------------------------------------------------------------- generation

fn gen_object(rng: &mut Rng, heavy: &mut u32) -> (Value, Option<Ref>) {
    match rng.weighted(&[8, 3, 2, 2, 3, 2]) {
        0 => {
            let kind = match rng.below(4) {
                0 | 1 if *heavy > 0 => {
                    *heavy -= 1;
                    Kind::Symmetric
                }
                0 | 1 | 2 => Kind::Placed,
                _ => Kind::Any,
            };
            let s = netgen::draw(rng, kind);
            let s = netgen::disguise(rng, &s);
            (json!({"kind": "graph", "graph": s_graph::graph_json(rng, &s, 20)}), Some(Ref::new(s.dim, &s.edges)))
        }
        1 => {
            let (mut v, n, _) = s_part::gen_part(rng, false, 0);
            if n > 60 {
                v["n"] = json!(60);
            }
            (json!({"kind": "part", "part": v}), None)
        }
        2 => (json!({"kind": "doc", "doc": s_cgd::gen_doc(rng, &[3, 6, 4, 2, 3, 2, 2], 12)}), None),
        3 => (json!({"kind": "table", "table": s_table::gen_table(rng, false, 10)}), None),
        4 => (json!({"kind": "group", "group": s_group::group_json(rng, 150)}), None),
        _ => {
            let scalar = *rng.pick(&["big", "tickbig", "tickbig", "i64", "tick64"]);
            (json!({"kind": "basis", "scalar": scalar, "n": 1 + rng.below(4)}), None)
        }
    }
}

fn gen_ops(rng: &mut Rng, obj: &Value, r: &Option<Ref>, n: usize, cancel: u32) -> Vec<Value> {
    let at = |rng: &mut Rng, bits: u32| -> u64 { if rng.chance(cancel) { rng.log2(bits) } else { 0 } };
    match obj["kind"].as_str().unwrap() {
        "graph" => {
            let r = r.as_ref().unwrap();
            let heavy = if r.symmetric() && netgen::cost(&r.net) < 1500 { 6 } else { 0 };
            let mut w = s_graph::mixture(&[], 2, heavy);
            w.push(("seqs", 3));
            w.push(("normprint", 3));
            if heavy > 0 {
                w.push(("minprint", 3));
            }
            (0..n).map(|_| s_graph::gen_op(rng, r, &w, 4, cancel)).collect()
        }
        "part" => {
            let m = obj["part"]["n"].as_u64().unwrap() as u32;
            let mut h = s_part::gen_history(rng, 0, m, 2 * n, cancel / 3);
            h.truncate(6 * n);
            h.into_iter().map(|p| json!({"p": p})).collect()
        }
        "doc" => {
            let len = s_cgd::doc_len(&obj["doc"]);
            (0..1 + n / 3).map(|_| {
                let f = rng.chance(20);
                json!({"api": *rng.pick(&["lines", "blocks"]), "delivery": gen_delivery(rng, len, f), "cancel": at(rng, 5)})
            }).collect()
        }
        "table" => {
            let len = s_table::table_bytes(&obj["table"]).unwrap().len();
            (0..1 + n / 3).map(|_| {
                let f = rng.chance(15);
                json!({"delivery": gen_delivery(rng, len, f), "cancel": at(rng, 5)})
            }).collect()
        }
        "group" => (0..1 + n / 3).map(|_| {
            if rng.chance(30) {
                json!({"space": *rng.pick(&["gram", "shift"])})
            } else {
                json!({"scalar": *rng.pick(&["tick", "tick", "tick", "big", "i64"]), "cancel": at(rng, 12)})
            }
        }).collect(),
        _ => {
            let (scalar, m) = (obj["scalar"].as_str().unwrap(), obj["n"].as_u64().unwrap() as usize);
            let field = scalar.ends_with("big");
            (0..1 + n).map(|_| {
                if rng.chance(5) {
                    return json!({"clear": 1});
                }
                let v: Vec<Value> = (0..m).map(|_| {
                    let x = rng.range(-4, 4);
                    if field && rng.chance(30) { json!([x, rng.range(1, 4)]) } else { json!(x) }
                }).collect();
                json!({"add": v, "cancel": at(rng, 5)})
            }).collect()
        }
    }
}

fn gen_c26(rng: &mut Rng) -> Value {
    let no = 2 + rng.below(4);
    let nt = 2 + rng.below(3);
    let mut heavy = 2;
    let mut objects: Vec<(Value, Option<Ref>)> = vec![];
    let mut queues: Vec<Vec<Value>> = vec![];
    let cancel = *rng.pick(&[0u32, 15, 40]);
    for i in 0..no {
        let (v, r) = if i > 0 && rng.chance(25) {
            // one more user of an equal object, or of one that looks alike
            let k = rng.below(i);
            let (v, r) = &objects[k];
            match r {
                Some(r) if rng.chance(75) => {
                    let s = netgen::Spec { dim: r.net.dim, edges: r.raw.clone() };
                    let like = if rng.chance(50) { netgen::relative(rng, &s, Kind::Any) } else { None };
                    let s = like.unwrap_or_else(|| netgen::disguise(rng, &s));
                    (json!({"kind": "graph", "graph": s_graph::graph_json(rng, &s, 20)}), Some(Ref::new(s.dim, &s.edges)))
                }
                _ => (v.clone(), r.as_ref().map(|r| Ref::new(r.net.dim, &r.raw))),
            }
        } else {
            gen_object(rng, &mut heavy)
        };
        let n = 1 + rng.below(5);
        queues.push(gen_ops(rng, &v, &r, n, cancel));
        objects.push((v, r));
    }
    // each object belongs to a thread, or is handed on from time to time
    let mut tasks: Vec<Vec<Value>> = vec![vec![]; nt];
    let roam: Vec<bool> = (0..no).map(|_| rng.chance(40)).collect();
    for q in queues.iter_mut() {
        q.reverse();
    }
    while queues.iter().any(|q| !q.is_empty()) {
        let o = rng.below(no);
        let t = if roam[o] { rng.below(nt) } else { o % nt };
        for _ in 0..1 + rng.below(3) {
            if let Some(mut op) = queues[o].pop() {
                op["o"] = json!(o);
                tasks[t].push(op);
            }
        }
    }
    let tasks: Vec<Value> = tasks.into_iter().map(|ops| json!({"key": rng.next() >> 12, "ops": ops})).collect();
    let objects: Vec<Value> = objects.into_iter().map(|o| o.0).collect();
    json!({"objects": objects, "tasks": tasks, "plan": gen_plan(rng, 20, 11), "process": rng.chance(20)})
}

fn gen_c27(rng: &mut Rng) -> Value {
    let no = 1 + rng.below(3);
    let mut heavy = 2;
    let mut objects = vec![];
    let mut queues = vec![];
    for _ in 0..no {
        let (v, r) = gen_object(rng, &mut heavy);
        let n = 1 + rng.below(6);
        queues.push(gen_ops(rng, &v, &r, n, 0));
        objects.push(v);
    }
    let mut ops = vec![];
    for q in queues.iter_mut() {
        q.reverse();
    }
    while queues.iter().any(|q| !q.is_empty()) {
        let o = rng.below(no);
        if let Some(mut op) = queues[o].pop() {
            op["o"] = json!(o);
            ops.push(op);
        }
    }
    let n = ops.len().max(1);
    let runs: Vec<Value> = (0..2 + rng.below(3)).map(|i| json!({
        "key": rng.next() >> 12,
        "seg": if i > 0 && rng.chance(40) { 1 + rng.below(n) } else { n },
        "warm": if i > 0 && rng.chance(50) { rng.below(1000) } else { 0 },
        "process": i > 0 && rng.chance(8),
    })).collect();
    json!({"objects": objects, "ops": ops, "runs": runs})
}

// -------------------------------------------------------------- execution

fn objects(scn: &Value) -> Result<(Vec<Obj>, Vec<&Value>), String> {
    let vs: Vec<&Value> = scn["objects"].as_array().ok_or("objects")?.iter().collect();
    let objs = vs.iter().map(|v| parse_obj(v)).collect::<Result<Vec<_>, _>>()?;
    Ok((objs, vs))
}

fn target(op: &Value, objs: &[Obj]) -> Result<usize, String> {
    let o = op["o"].as_u64().filter(|o| (*o as usize) < objs.len()).ok_or("o")? as usize;
    if valid(op, &objs[o]) { Ok(o) } else { Err("op".into()) }
}

fn kind(o: &Obj) -> &'static str {
    match o {
        Obj::Graph(_) => "graph",
        Obj::Part(_) => "partition",
        Obj::Doc(_) => "document",
        Obj::Table(_) => "table",
        Obj::Group(_) => "group",
        Obj::Basis(..) => "basis",
    }
}

fn short(s: &Option<String>) -> String {
    match s {
        None => "nothing".into(),
        Some(s) if s.len() > 300 => s.chars().take(300).collect::<String>() + "...",
        Some(s) => s.clone(),
    }
}

struct Slot {
    live: Live,
    owner: usize,
    /// operations as carried out, without what was abandoned
    ops: Vec<Value>,
    got: Vec<(usize, Value, String)>,
}

fn exec_c26(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (objs, vs) = objects(scn)?;
    let mut tasks: Vec<(u64, Vec<(usize, Value)>)> = vec![];
    for t in scn["tasks"].as_array().ok_or("tasks")? {
        let ops = t["ops"].as_array().ok_or("ops")?.iter()
            .map(|op| Ok((target(op, &objs)?, op.clone()))).collect::<Result<_, String>>()?;
        tasks.push((t["key"].as_u64().ok_or("key")?, ops));
    }
    let plan: Plan = plan_of(&scn["plan"]).ok_or("plan")?;
    if tasks.is_empty() || tasks.len() > 8 {
        return Err("tasks".into());
    }
    let process = scn["process"].as_bool().unwrap_or(false);
    cx.sign(scn["objects"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    let slots: Vec<Mutex<Slot>> = objs.iter().map(|_| Mutex::new(Slot {
        live: Live::default(), owner: usize::MAX, ops: vec![], got: vec![],
    })).collect();
    let bodies = tasks.iter().enumerate().map(|(t, (key, ops))| {
        let (slots, objs, cx) = (&slots, &objs, cx.clone());
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |me| {
            let (sched, _) = seam::current_task().unwrap();
            for (o, op) in ops {
                sched.yield_point(me);
                // objects with a state are used by one thread at a time
                sched.lock(me, *o);
                let mut live = {
                    let mut s = slots[*o].lock().unwrap();
                    if s.owner != usize::MAX && s.owner != me {
                        cx.fault(&format!("hand-over of a {} to another thread", kind(&objs[*o])));
                    }
                    s.owner = me;
                    std::mem::take(&mut s.live)
                };
                let vague = live.vague;
                let done = perform(&cx, &objs[*o], &mut live, op, false);
                let vague = vague && live.vague;
                let mut s = slots[*o].lock().unwrap();
                s.live = live;
                cx.step();
                for d in &done {
                    cx.log(&format!("thread {} {} {}: {} -> {:?}", t, kind(&objs[*o]), o, d.0, d.1));
                    if d.1.is_none() {
                        cx.fault(&format!("abandoned while at work on a {}", kind(&objs[*o])));
                    }
                }
                if !vague {
                    if let Some(op) = completed(&objs[*o], op, &done) {
                        s.ops.push(op);
                        s.got.extend(done.into_iter().filter_map(|(op, r)| r.map(|r| (t, op, r))));
                    }
                }
                drop(s);
                sched.unlock(me, *o);
            }
        });
        (*key, body)
    }).collect();
    let rep = run_tasks(objs.len(), &plan, bodies);
    cx.faults("preemption", rep.switches);
    cx.sign(&rep.hash.to_le_bytes());
    cx.log(&format!("switches {} yields {} schedule {:016x}", rep.switches, rep.yields, rep.hash));
    for (o, s) in slots.into_iter().enumerate() {
        let s = s.into_inner().unwrap();
        if s.got.is_empty() {
            continue;
        }
        let ops: Vec<(usize, Value)> = s.ops.into_iter().map(|op| (0, op)).collect();
        let key = scn["key"].as_u64().unwrap_or(1).wrapping_add(o as u64);
        let want = if process {
            cx.probe("repeated alone in a process of its own");
            match elsewhere(&[vs[o]], &ops, key, ops.len(), 0, false) {
                Ok(w) => w,
                Err(e) => {
                    cx.violation("alone-crashes", format!("{} {}: {}", kind(&objs[o]), o, e));
                    return Ok(());
                }
            }
        } else {
            alone(cx, &[&objs[o]], &ops, key, ops.len(), 0, false)
        };
        let n = s.got.len();
        for (i, (t, op, r)) in s.got.into_iter().enumerate() {
            let w = want.get(i).cloned().flatten();
            let r = Some(r);
            cx.check(r == w, "disturbed", || format!(
                "{} {}: {} by thread {} gave {} among others, but {} alone", kind(&objs[o]), o, op, t, short(&r), short(&w)));
        }
        cx.check(want.len() == n, "disturbed", || format!(
            "{} {}: {} results among others, but {} alone", kind(&objs[o]), o, n, want.len()));
    }
    Ok(())
}

/// How many comparisons a hash table makes depends on its seed, and so may
/// whether a given operation on labels or elements is ever reached.
fn uninterrupted(op: &Value) -> Value {
    match op {
        Value::Array(a) => a.iter().map(uninterrupted).collect(),
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "cancel")
            .map(|(k, v)| (k.clone(), uninterrupted(v))).collect()),
        _ => op.clone(),
    }
}

fn exec_c27(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (objs, vs) = objects(scn)?;
    let ops: Vec<(usize, Value)> = scn["ops"].as_array().ok_or("ops")?.iter()
        .map(|op| Ok((target(op, &objs)?, uninterrupted(op)))).collect::<Result<_, String>>()?;
    let runs = scn["runs"].as_array().ok_or("runs")?;
    cx.sign(scn["objects"].to_string().as_bytes());
    cx.sign(scn["ops"].to_string().as_bytes());
    cx.nontrivial();
    let refs: Vec<&Obj> = objs.iter().collect();
    let mut first: Option<Vec<Option<String>>> = None;
    for (i, r) in runs.iter().enumerate() {
        let n = |k: &str| r[k].as_u64().ok_or(format!("{}", k));
        let (key, seg, warm) = (n("key")?, n("seg")?.max(1) as usize, n("warm")?);
        let process = r["process"].as_bool().unwrap_or(false);
        let got = if process {
            cx.fault("repeated in another process");
            match elsewhere(&vs, &ops, key, seg, warm, true) {
                Ok(g) => g,
                Err(e) => {
                    cx.violation("crash", format!("run {}: {}", i, e));
                    return Ok(());
                }
            }
        } else {
            alone(cx, &refs, &ops, key, seg, warm, true)
        };
        cx.step();
        cx.log(&format!("run {}: {:?}", i, got));
        match &first {
            None => first = Some(got),
            Some(f) => {
                cx.fault("repeated with another hash seed");
                if seg < ops.len() {
                    cx.fault("calls dealt out to several threads");
                }
                if warm > 0 {
                    cx.fault("thread used for other things before");
                }
                for (k, (a, b)) in f.iter().zip(&got).enumerate() {
                    cx.check(a == b, "differs", || format!(
                        "result {} is {} in the first run, {} in run {}", k, short(a), short(b), i));
                }
                cx.check(f.len() == got.len(), "differs", || format!("{} results and {}", f.len(), got.len()));
            }
        }
    }
    Ok(())
}

const STUBS: &str = "label types, elements, scalars and sources of the caller; the schedule; the hash seeds";

pub static PROPS: [Prop; 2] = [
    Prop {
        id: "C26", gen: gen_c26, exec: exec_c26, quick_runs: 10_000, thorough_runs: 500_000,
        rule: "distinct (objects, operations of every thread, schedule actually taken, event log)",
        real: "graphs and their symmetries, partitions, CGD and table parsers, groups, spaces, bases (all in one process, in several threads)",
        stubs: STUBS,
        assumptions: &["A graph, partition or basis is used by one thread at a time, as Rust enforces."],
    },
    Prop {
        id: "C27", gen: gen_c27, exec: exec_c27, quick_runs: 12_000, thorough_runs: 600_000,
        rule: "distinct (objects, sequence of calls, event log)",
        real: "graphs and their symmetries, partitions, CGD and table parsers, groups, spaces, bases, in several threads and processes",
        stubs: STUBS,
        assumptions: &["The order of the list of symmetries is left open, as the property says."],
    },
];
