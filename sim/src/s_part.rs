//! Partitions: C21 and C22.

use rust_systre::partitions::Partition;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use crate::iosim::{gen_plan, plan_of};
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::sched::{run_tasks, Plan};
use crate::seam::{self, Abandon};

// --------------------------------------------------------- element types

pub trait Elem: Clone + Eq + Hash + Send + 'static {
    fn mk(id: u32, buckets: u32) -> Self;
    fn id(&self) -> u32;
}

/// A caller's type: cloning, comparing and hashing are points at which the
/// caller may panic or another thread may run; hashes collide at will.
#[derive(Debug)]
pub struct Tk {
    id: u32,
    buckets: u32,
    text: String,
}

impl Clone for Tk {
    fn clone(&self) -> Self {
        seam::tick();
        Tk { id: self.id, buckets: self.buckets, text: self.text.clone() }
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool {
        seam::tick();
        self.id == o.id
    }
}
impl Eq for Tk {}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tk {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        seam::tick();
        self.id.cmp(&o.id)
    }
}
impl Hash for Tk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        seam::tick();
        match self.buckets {
            0 => self.id.hash(h),
            k => (self.id % k).hash(h),
        }
    }
}
impl Elem for Tk {
    fn mk(id: u32, buckets: u32) -> Self {
        Tk { id, buckets, text: format!("element number {}", id) }
    }
    fn id(&self) -> u32 {
        self.text[15..].parse().unwrap()
    }
}
impl Elem for u32 {
    fn mk(id: u32, buckets: u32) -> Self {
        id.wrapping_mul(buckets.max(1))
    }
    fn id(&self) -> u32 {
        *self
    }
}
impl Elem for String {
    fn mk(id: u32, _: u32) -> Self {
        id.to_string()
    }
    fn id(&self) -> u32 {
        self.parse().unwrap()
    }
}
impl Elem for (i64, Option<bool>, Box<u8>) {
    fn mk(id: u32, _: u32) -> Self {
        (id as i64 / 6 - 3, [None, Some(true), Some(false)][id as usize % 3], Box::new((id % 2) as u8))
    }
    fn id(&self) -> u32 {
        (0..6).map(|k| ((self.0 + 3) * 6 + k) as u32).find(|k| Self::mk(*k, 0) == *self).unwrap()
    }
}

/// The real partition behind a common face.
pub trait Part: Send {
    fn unite(&mut self, a: u32, b: u32, cancel: Option<u64>) -> Result<(), Abandon>;
    fn find(&self, a: u32, cancel: Option<u64>) -> Result<u32, Abandon>;
    fn classes(&self, l: &[u32], cancel: Option<u64>) -> Result<Vec<Vec<u32>>, Abandon>;
}

struct Real<E: Elem> {
    p: Partition<E>,
    buckets: u32,
}

impl<E: Elem> Part for Real<E> {
    fn unite(&mut self, a: u32, b: u32, cancel: Option<u64>) -> Result<(), Abandon> {
        let (a, b) = (E::mk(a, self.buckets), E::mk(b, self.buckets));
        seam::call(cancel, || self.p.unite(&a, &b))
    }
    fn find(&self, a: u32, cancel: Option<u64>) -> Result<u32, Abandon> {
        let a = E::mk(a, self.buckets);
        seam::call(cancel, || self.p.find(&a)).map(|x| x.id())
    }
    fn classes(&self, l: &[u32], cancel: Option<u64>) -> Result<Vec<Vec<u32>>, Abandon> {
        let l: Vec<E> = l.iter().map(|x| E::mk(*x, self.buckets)).collect();
        let r = seam::call(cancel, || self.p.classes(&l))?;
        Ok(r.iter().map(|c| c.iter().map(|x| x.id()).collect()).collect())
    }
}

pub fn make(kind: &str, buckets: u32) -> Box<dyn Part> {
    match kind {
        "string" => Box::new(Real::<String> { p: Partition::new(), buckets }),
        "int" => Box::new(Real::<u32> { p: Partition::new(), buckets: 0 }),
        "tuple" => Box::new(Real::<(i64, Option<bool>, Box<u8>)> { p: Partition::new(), buckets }),
        _ => Box::new(Real::<Tk> { p: Partition::new(), buckets }),
    }
}

// -------------------------------------------------------- reference model

/// Labels of classes, merged by brute force; representatives as observed
/// since the last union.
#[derive(Clone, PartialEq)]
struct Model {
    cls: Vec<u32>,
    reps: BTreeMap<u32, u32>,
}

impl Model {
    fn unite(&mut self, a: u32, b: u32) {
        let (x, y) = (self.cls[a as usize], self.cls[b as usize]);
        if x != y {
            for c in self.cls.iter_mut().filter(|c| **c == x.max(y)) {
                *c = x.min(y);
            }
        }
    }

    fn found(&mut self, a: u32, r: u32) -> bool {
        let c = self.cls[a as usize];
        self.cls.get(r as usize) == Some(&c) && *self.reps.entry(c).or_insert(r) == r
    }

    fn classes(&self, l: &[u32]) -> Vec<Vec<u32>> {
        let mut out: Vec<Vec<u32>> = vec![];
        for e in l {
            match out.iter_mut().find(|c| self.cls[c[0] as usize] == self.cls[*e as usize]) {
                Some(c) => c.push(*e),
                None => out.push(vec![*e]),
            }
        }
        out
    }
}

struct Slot {
    part: Option<Box<dyn Part>>,
    owner: usize,
    /// All states in which the partition may be.
    models: Vec<Model>,
    unites: u64,
}

pub struct PartSpec {
    kind: String,
    buckets: u32,
    n: u32,
}

impl PartSpec {
    pub fn fresh(&self) -> Box<dyn Part> {
        make(&self.kind, self.buckets)
    }
}

pub fn parse_part(v: &Value) -> Result<PartSpec, String> {
    let n = v["n"].as_u64().filter(|n| (1..=4000).contains(n)).ok_or("n")? as u32;
    Ok(PartSpec {
        kind: v["kind"].as_str().ok_or("kind")?.into(),
        buckets: v["buckets"].as_u64().ok_or("buckets")? as u32,
        n,
    })
}

#[derive(Clone)]
pub struct PartOp {
    pub p: usize,
    pub cancel: Option<u64>,
    pub what: What,
}

#[derive(Clone)]
pub enum What {
    Unite(u32, u32),
    Find(u32),
    Classes(Vec<u32>),
    New,
}

/// ["u", p, a, b, cancel], ["f", p, a, cancel], ["c", p, [..], cancel], ["n", p]
pub fn parse_op(v: &Value, parts: &[PartSpec]) -> Result<PartOp, String> {
    let p = v[1].as_u64().filter(|p| (*p as usize) < parts.len()).ok_or("p")? as usize;
    let el = |v: &Value| v.as_u64().filter(|x| *x < parts[p].n as u64).map(|x| x as u32).ok_or("element");
    let (what, k) = match v[0].as_str().ok_or("op")? {
        "u" => (What::Unite(el(&v[2])?, el(&v[3])?), 4),
        "f" => (What::Find(el(&v[2])?), 3),
        "c" => (What::Classes(v[2].as_array().ok_or("list")?.iter().map(el).collect::<Result<_, _>>()?), 3),
        "n" => (What::New, 2),
        _ => return Err("op".into()),
    };
    Ok(PartOp { p, cancel: v[k].as_u64().filter(|c| *c > 0), what })
}

/// Applies one operation; judges the answer and follows the model.
fn apply(cx: &Cx, s: &mut Slot, spec: &PartSpec, op: &PartOp, who: &str) {
    let was = s.models.len();
    let (name, res): (String, Result<String, Abandon>) = match &op.what {
        What::New => {
            s.part = Some(make(&spec.kind, spec.buckets));
            s.models = vec![Model { cls: (0..spec.n).collect(), reps: BTreeMap::new() }];
            ("new".into(), Ok(String::new()))
        }
        What::Unite(a, b) => {
            let r = s.part.as_mut().unwrap().unite(*a, *b, op.cancel);
            let before = s.models.clone();
            for m in s.models.iter_mut() {
                m.unite(*a, *b);
                m.reps.clear();
            }
            if r.is_err() {
                // perhaps done, perhaps not
                for mut m in before {
                    m.reps.clear();
                    if !s.models.contains(&m) {
                        s.models.push(m);
                    }
                }
            }
            s.unites += 1;
            (format!("unite {} {}", a, b), r.map(|_| String::new()))
        }
        What::Find(a) => {
            let r = s.part.as_ref().unwrap().find(*a, op.cancel);
            if let Ok(r) = &r {
                s.models.retain_mut(|m| m.found(*a, *r));
            }
            (format!("find {}", a), r.map(|r| r.to_string()))
        }
        What::Classes(l) => {
            let r = s.part.as_ref().unwrap().classes(l, op.cancel);
            if let Ok(r) = &r {
                s.models.retain(|m| m.classes(l) == *r);
            }
            (format!("classes {:?}", l), r.map(|r| format!("{:?}", r)))
        }
    };
    cx.step();
    cx.log(&format!("{} partition {}: {} -> {:?}", who, op.p, name, res));
    if s.models.len() > 1 {
        let mut seen = vec![];
        for m in std::mem::take(&mut s.models) {
            if !seen.contains(&m) {
                seen.push(m);
            }
        }
        s.models = seen;
    }
    let bad = match &res {
        Err(Abandon::Cancelled) => {
            let k = name.split(' ').next().unwrap();
            cx.fault(&format!("element operation panicked during {}", k));
            for m in s.models.iter_mut() {
                m.reps.clear();
            }
            if s.models.len() > 32 {
                // ask, to keep the number of possibilities small
                let all = (0..spec.n).collect();
                apply(cx, s, spec, &PartOp { p: op.p, cancel: None, what: What::Classes(all) }, who);
                return;
            }
            None
        }
        Err(e) => Some(("panic", format!("{:?}", e))),
        Ok(r) if s.models.is_empty() => Some(("wrong-answer", format!("answer {:?}", r))),
        Ok(_) => None,
    };
    if let Some((class, text)) = bad {
        cx.violation(class, format!("{} partition {} ({}): {} gave {}, contrary to all {} states it may be in",
            who, op.p, spec.kind, name, text, was));
        s.models = vec![];
    }
    if res.is_ok() && !matches!(op.what, What::New) {
        cx.judged();
        if was > 1 && s.models.len() < was {
            cx.probe("interrupted union found done or not done");
        }
    }
}

/// Puts all elements to the test.
fn settle(cx: &Cx, s: &mut Slot, spec: &PartSpec, p: usize, order: u64) {
    if s.part.is_none() || cx.violated() {
        return;
    }
    let all: Vec<u32> = (0..spec.n).collect();
    let mut ops = vec![];
    if order % 2 == 0 {
        ops.push(What::Classes(all.clone()));
    }
    ops.extend(all.iter().map(|a| What::Find(*a)));
    ops.push(What::Classes(all.iter().rev().cloned().collect()));
    for what in ops {
        if cx.violated() {
            return;
        }
        apply(cx, s, spec, &PartOp { p, cancel: None, what }, "finally");
    }
    if cx.violated() {
        return;
    }
    let classes = s.models[0].classes(&all);
    let biggest = classes.iter().map(|c| c.len()).max().unwrap_or(0);
    if biggest >= 64 {
        cx.probe("class with 64 elements or more");
    }
    if biggest >= 512 {
        cx.probe("class with 512 elements or more");
    }
    if s.models.len() > 1 {
        // cannot happen: every pair has been asked for
        crate::runner::harness_error("ambiguous partition model");
    }
}

fn exec(scn: &Value, cx: &Cx) -> Result<(), String> {
    let parts: Vec<PartSpec> = scn["parts"].as_array().ok_or("parts")?.iter().map(parse_part)
        .collect::<Result<_, _>>()?;
    let plan: Plan = plan_of(&scn["plan"]).ok_or("plan")?;
    let mut tasks: Vec<(u64, Vec<PartOp>)> = vec![];
    for t in scn["tasks"].as_array().ok_or("tasks")? {
        let ops = t["ops"].as_array().ok_or("ops")?.iter().map(|o| parse_op(o, &parts))
            .collect::<Result<_, _>>()?;
        tasks.push((t["key"].as_u64().ok_or("key")?, ops));
    }
    if tasks.is_empty() || tasks.len() > 8 {
        return Err("tasks".into());
    }
    cx.sign(scn["parts"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    let slots: Vec<Mutex<Slot>> = parts.iter().map(|_| Mutex::new(Slot {
        part: None, owner: usize::MAX, models: vec![], unites: 0,
    })).collect();
    let bodies = tasks.into_iter().enumerate().map(|(t, (key, ops))| {
        let (slots, parts, cx) = (&slots, &parts, cx.clone());
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |me| {
            let (sched, _) = seam::current_task().unwrap();
            for op in &ops {
                sched.yield_point(me);
                sched.lock(me, op.p);
                if !cx.violated() {
                    // the lock is never contended: only its holder comes here
                    let mut s = slots[op.p].lock().unwrap();
                    if s.part.is_none() {
                        apply(&cx, &mut s, &parts[op.p], &PartOp { what: What::New, p: op.p, cancel: None }, "");
                    }
                    if s.owner != usize::MAX && s.owner != me {
                        cx.fault("hand-over of a partition to another thread");
                    }
                    s.owner = me;
                    apply(&cx, &mut s, &parts[op.p], op, &format!("thread {}", t));
                }
                sched.unlock(me, op.p);
            }
        });
        (key, body)
    }).collect();
    let rep = run_tasks(parts.len(), &plan, bodies);
    cx.faults("preemption", rep.switches);
    cx.sign(&rep.hash.to_le_bytes());
    cx.log(&format!("switches {} yields {} schedule {:016x}", rep.switches, rep.yields, rep.hash));
    for (p, s) in slots.iter().enumerate() {
        let mut s = s.lock().unwrap();
        if s.unites > 1 {
            cx.nontrivial();
        }
        if parts[p].buckets > 0 && parts[p].kind == "tick" {
            cx.probe("colliding hashes");
        }
        settle(cx, &mut s, &parts[p], p, rep.hash);
    }
    Ok(())
}

// ------------------------------------------------------------- generation

/// Pairs to be united, in one of the shapes in which unions arrive.
fn gen_pairs(rng: &mut Rng, n: u32, len: usize) -> Vec<(u32, u32)> {
    let mut name: Vec<u32> = (0..n).collect();
    if rng.chance(60) {
        rng.shuffle(&mut name);
    }
    let mut out: Vec<(u32, u32)> = match rng.below(7) {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (0, i)).collect(),
        2 => {
            // equal trees merged at their roots, as deep as they get
            let mut v = vec![];
            let mut w = 1;
            while w < n {
                for i in (0..n).step_by(2 * w as usize) {
                    if i + w < n {
                        v.push((i, i + w));
                    }
                }
                w *= 2;
            }
            v
        }
        3 => (0..n / 2).map(|i| (i, n - 1 - i)).collect(),
        4 => {
            let k = 1 + rng.below(6) as u32;
            (0..n.saturating_sub(k)).map(|i| (i, i + k)).collect()
        }
        _ => (0..len).map(|_| (rng.below(n as usize) as u32, rng.below(n as usize) as u32)).collect(),
    };
    if rng.chance(30) {
        rng.shuffle(&mut out);
    } else if rng.chance(20) {
        out.reverse();
    }
    if rng.chance(70) {
        out.truncate(len);
    }
    let flip = rng.below(3);
    out.into_iter().map(|(a, b)| {
        let (a, b) = (name[a as usize], name[b as usize]);
        if flip == 1 || flip == 2 && rng.chance(50) { (b, a) } else { (a, b) }
    }).collect()
}

fn gen_query(rng: &mut Rng, p: usize, n: u32, long: usize) -> Value {
    if rng.chance(65) {
        json!(["f", p, rng.below(n as usize)])
    } else {
        let k = rng.below(long + 1);
        let l: Vec<_> = (0..k).map(|_| rng.below(n as usize)).collect();
        json!(["c", p, l])
    }
}

/// A history on one partition.
pub fn gen_history(rng: &mut Rng, p: usize, n: u32, len: usize, cancel: u32) -> Vec<Value> {
    let mut ops = vec![];
    let queries = *rng.pick(&[0, 10, 30, 60, 80]);
    for (a, b) in gen_pairs(rng, n, len) {
        ops.push(json!(["u", p, a, b]));
        while rng.chance(queries) {
            ops.push(gen_query(rng, p, n, 12));
        }
        if rng.chance(1) {
            ops.push(json!(["n", p]));
        }
    }
    if ops.is_empty() || rng.chance(30) {
        ops.push(gen_query(rng, p, n, 12));
    }
    if cancel > 0 {
        let mut out = vec![];
        for mut o in ops {
            if o[0] != "n" && rng.chance(cancel) {
                let again = o.clone();
                let at = match rng.below(3) { 0 => 1 + rng.below(8) as u64, 1 => 1 + rng.below(30) as u64, _ => rng.log2(9) };
                o.as_array_mut().unwrap().push(json!(at));
                out.push(o);
                if rng.chance(40) {
                    out.push(again);
                } else if rng.chance(50) {
                    out.push(gen_query(rng, p, n, 12));
                }
            } else {
                out.push(o);
            }
        }
        ops = out;
    }
    ops
}

pub fn gen_part(rng: &mut Rng, tick: bool, huge: u32) -> (Value, u32, usize) {
    let (n, len) = if rng.chance(huge) {
        let n = *rng.pick(&[256, 511, 1024, 2048]);
        (n, n as usize)
    } else {
        match rng.below(10) {
            0..=4 => (1 + rng.below(12) as u32, 1 + rng.below(12)),
            5..=7 => (2 + rng.below(30) as u32, 1 + rng.below(40)),
            _ => (20 + rng.below(150) as u32, 1 + rng.below(150)),
        }
    };
    let kind = if tick || n > 200 { "tick" } else { *rng.pick(&["tick", "tick", "int", "string", "tuple"]) };
    let buckets = if n > 200 { 0 } else { *rng.pick(&[0u32, 0, 1, 2, 7]) };
    (json!({"kind": kind, "buckets": buckets, "n": n}), n, len)
}

fn gen(rng: &mut Rng, cancel: bool) -> Value {
    let np = 1 + rng.weighted(&[5, 3, 2]);
    let mut nt = 1 + rng.weighted(&[4, 4, 3]);
    let mut parts = vec![];
    let mut queues: Vec<Vec<Value>> = vec![];
    let mut big = false;
    for p in 0..np {
        let (v, n, len) = gen_part(rng, cancel, if big || cancel { 0 } else { 1 });
        big |= n > 200;
        parts.push(v);
        let rate = if cancel { *rng.pick(&[3u32, 10, 30, 60]) } else { 0 };
        queues.push(gen_history(rng, p, n, len, rate));
    }
    if big {
        nt = 1;
    }
    // interleave histories, then deal them out to threads
    let mut tasks: Vec<Vec<Value>> = vec![vec![]; nt];
    let mine = rng.chance(50);
    let mut t = 0;
    while queues.iter().any(|q| !q.is_empty()) {
        let p = rng.below(np);
        let burst = 1 + rng.below(6);
        if !mine {
            t = rng.below(nt);
        }
        let q = &mut queues[p];
        let k = burst.min(q.len());
        let t = if mine { p % nt } else { t };
        tasks[t].extend(q.drain(..k));
    }
    let tasks: Vec<_> = tasks.into_iter().map(|ops| json!({"key": rng.next(), "ops": ops})).collect();
    let plan = if nt > 1 { gen_plan(rng, 12, 10) } else { json!([]) };
    json!({"parts": parts, "tasks": tasks, "plan": plan})
}

const RULE: &str = "distinct (element types and operations of every thread, schedule actually taken); \
    a run counts if at least two unions were made or a fault or preemption happened";
const REAL: &str = "Partition (all of it), std's hash maps with seeds chosen by the simulator";
const STUBS: &str = "element types of the caller (ticking, with colliding hashes; integers, strings and tuples run real code)";

pub static PROPS: [Prop; 2] = [
    Prop {
        id: "C21", gen: |r| gen(r, false), exec, quick_runs: 100_000, thorough_runs: 1_500_000,
        rule: RULE, real: REAL, stubs: STUBS,
        assumptions: &["Elements obey the contracts of Clone, Eq and Hash."],
    },
    Prop {
        id: "C22", gen: |r| gen(r, true), exec, quick_runs: 90_000, thorough_runs: 1_500_000,
        rule: RULE, real: REAL, stubs: STUBS,
        assumptions: &["Only operations of elements panic; memory allocation does not fail."],
    },
];
