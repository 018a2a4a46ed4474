//! Printing to sinks that fail: C09.

use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::pgraphs::{Edge, Graph, LabelVector, LabelVector2d, LabelVector3d};
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use serde_json::{json, Value};
use std::fmt::{self, Display, Write as _};
use std::io::Write as _;

use crate::iosim::*;
use crate::netgen::{self, Kind};
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::callers::*;
use crate::s_graph::parse_graph;
use crate::s_table::{gen_table, shipped, table_bytes};
use crate::sched::run_tasks;
use crate::seam::{self, Abandon};

// ------------------------------------------------------------------ values

/// A caller's number type: prints itself in pieces, and can fail to.
#[derive(Clone, Debug, PartialEq)]
struct Piecewise {
    text: String,
    fails: bool,
}

impl Display for Piecewise {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.text.chars() {
            seam::tick();
            f.write_char(c)?;
        }
        // the failure of an element is a failure like any other
        if self.fails { Err(fmt::Error) } else { Ok(()) }
    }
}

type Shown = Box<dyn Display + Send>;

/// A printable value of the library; the flag tells that it holds an element
/// that fails to print itself.
fn value(v: &Value) -> Option<(Shown, bool)> {
    // not every description is that of a value that can be made
    seam::call(None, || make(v)).ok()?
}

fn make(v: &Value) -> Option<(Shown, bool)> {
    let t = v["t"].as_str()?;
    let plain = |x: Shown| Some((x, false));
    Some(match t {
        "matrix" | "vector" | "point" | "product" | "affine" | "map" => {
            let n = v["n"].as_u64().filter(|n| (1..=30).contains(n))? as usize;
            let m = v["m"].as_u64().filter(|n| (1..=30).contains(n))? as usize;
            let words: Vec<&str> = v["data"].as_array()?.iter().map(|x| x.as_str()).collect::<Option<_>>()?;
            let need = match t { "matrix" => n * m, "vector" | "point" => n, "product" => n * n, _ => n * (n + 1) };
            if words.len() < need {
                return None;
            }
            let words = &words[..need];
            match v["scalar"].as_str()? {
                "int" => {
                    let d: Vec<i64> = words.iter().map(|w| w.parse().ok()).collect::<Option<_>>()?;
                    (arith(t, n, m, d)?, false)
                }
                "float" => {
                    let d: Vec<f64> = words.iter().map(|w| w.parse().ok()).collect::<Option<_>>()?;
                    (arith(t, n, m, d)?, false)
                }
                "big" => {
                    let d: Vec<BigRational> = words.iter().map(|w| {
                        let (a, b) = w.split_once('/').unwrap_or((w, "1"));
                        let (a, b): (BigInt, BigInt) = (a.parse().ok()?, b.parse().ok()?);
                        if b == BigInt::from(0) { None } else { Some(BigRational::new(a, b)) }
                    }).collect::<Option<_>>()?;
                    if t == "map" {
                        let a: AffineMap<BigRational, World> = AffineMap::new(
                            &Matrix::new(n, &d[..n * n]), &Vector::new(&d[n * n..]));
                        a.inverse()?;
                        return plain(Box::new(CoordinateMap::<BigRational, World, World>::new(&a)));
                    }
                    if t == "product" {
                        // must be symmetric
                        let mut d = d;
                        for i in 0..n {
                            for j in 0..i {
                                d[i * n + j] = d[j * n + i].clone();
                            }
                        }
                        return plain(Box::new(ScalarProduct::<BigRational, World>::from(Matrix::new(n, &d))));
                    }
                    (arith(t, n, m, d)?, false)
                }
                _ => {
                    let d: Vec<Piecewise> = words.iter()
                        .map(|w| Piecewise { text: w.trim_end_matches('!').into(), fails: w.ends_with('!') }).collect();
                    let fails = d.iter().any(|x| x.fails);
                    (arith(t, n, m, d)?, fails)
                }
            }
        }
        "graph" | "edge" | "label" => {
            let g = parse_graph(&v["g"]).ok()?;
            fn go<L: Label>(
                t: &str, edges: &[crate::netmodel::E], from: &dyn Fn(&[i32]) -> L,
            ) -> Option<Shown> {
                let es: Vec<Edge<L, World>> = edges.iter().map(|e| Edge::new(e.0, e.1, from(&e.2))).collect();
                Some(match t {
                    "graph" => Box::new(Graph::new(&es)),
                    "edge" => Box::new(*es.first()?),
                    _ => Box::new(from(&edges.first()?.2)),
                })
            }
            let s = match g.dim {
                #[cfg(not(sim_plain))]
                1 => go::<LN<1>>(t, &g.raw, &|v| LN::<1>::from_vec(v)),
                2 => go::<LabelVector2d<World>>(t, &g.raw, &|v| LabelVector2d::new(v[0], v[1])),
                3 => go::<LabelVector3d<World>>(t, &g.raw, &|v| LabelVector3d::new(v[0], v[1], v[2])),
                #[cfg(not(sim_plain))]
                4 => go::<LN<4>>(t, &g.raw, &|v| LN::<4>::from_vec(v)),
                _ => None,
            };
            return plain(s?);
        }
        "setting" | "lookup" => {
            let bytes = table_bytes(&v["table"]).ok()?;
            let tab = parse_space_group_table(&bytes[..])?;
            let k = v["k"].as_u64()? as usize;
            if t == "lookup" {
                let n = tab.lookup.len();
                let l = tab.lookup.into_iter().nth(k % n.max(1))?;
                return plain(Box::new(l));
            }
            let mut s: Vec<_> = tab.settings.into_iter().collect();
            s.sort_by(|a, b| a.0.cmp(&b.0));
            let n = s.len();
            return plain(Box::new(s.into_iter().nth(k % n.max(1))?.1));
        }
        "system" => {
            use CrystalSystem::*;
            let k = v["k"].as_u64()? as usize % 10;
            let all: [fn() -> CrystalSystem; 10] = [|| Oblique, || Rectangular, || Square, || Hexagonal, || Cubic,
                || Orthorhombic, || Tetragonal, || Trigonal, || Monoclinic, || Triclinic];
            return plain(Box::new(all[k]()));
        }
        "centering" => {
            use Centering::*;
            let k = v["k"].as_u64()? as usize % 9;
            let all: [fn() -> Centering; 9] = [|| Primitive2d, || Centered2d, || Primitive, || FaceCentered,
                || BodyCentered, || Rhombohedral, || AFaceCentered, || BFaceCentered, || CFaceCentered];
            return plain(Box::new(all[k]()));
        }
        _ => return None,
    })
}

fn arith<X: Clone + Display + Send + 'static>(t: &str, n: usize, m: usize, d: Vec<X>) -> Option<Shown> {
    Some(match t {
        "matrix" => Box::new(Matrix::new(m, &d)),
        "vector" => Box::new(Vector::<X, World>::new(&d)),
        "point" => Box::new(Point::<X, World>::new(&d)),
        "affine" => Box::new(AffineMap::<X, World>::new(&Matrix::new(n, &d[..n * n]), &Vector::new(&d[n * n..]))),
        _ => return None,
    })
}

// ------------------------------------------------------------------- runs

/// What std says itself when an element fails for no reason of the sink's:
/// `write_fmt` to a writer, and `to_string`, panic then.
fn answer_of_std(broken: bool, e: &Abandon) -> bool {
    broken && matches!(e, Abandon::Panic(t)
        if t.contains("formatting trait implementation") || t.contains("Display implementation returned an error"))
}

/// Prints to a formatter sink with the given room. Judges one failure.
fn one_fmt(cx: &Cx, who: &str, v: &dyn Display, full: &str, room: usize, once: bool, cancel: Option<u64>, broken: bool) {
    let mut sink = SimFmt { cx, got: String::new(), room, failed: false, after: 0, once };
    let res = seam::call(cancel, || write!(sink, "{}", v));
    cx.judged();
    let who = format!("{} with room for {} of {} bytes{}", who, room, full.len(),
        if once { ", then working again" } else { "" });
    match res {
        Err(Abandon::Cancelled) => {
            cx.fault("sink panicked");
        }
        Err(e) if answer_of_std(broken, &e) => {}
        Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
        Ok(r) => {
            if sink.failed && r.is_ok() {
                cx.violation("error-hidden", format!("{}: formatting succeeded, the sink has {:?}", who, sink.got));
            } else if broken && r.is_ok() {
                cx.violation("error-hidden", format!("{}: an element failed to print itself, formatting succeeded", who));
            } else if !sink.failed && !broken && r.is_err() {
                cx.violation("error-invented", format!("{}: the sink never failed", who));
            } else if r.is_ok() && sink.got != full {
                cx.violation("text", format!("{}: got {:?}, before it was {:?}", who, sink.got, full));
            }
        }
    }
    if !full.starts_with(&sink.got) {
        cx.violation("not-a-prefix", format!("{}: the sink accepted {:?}, the full text is {:?}", who, sink.got, full));
    }
}

fn run_op(cx: &Cx, who: &str, v: &dyn Display, full: &str, broken: bool, op: &Value) {
    match op["how"].as_str().unwrap_or("") {
        "every" => {
            // every point of failure in turn
            for once in [false, true] {
                for room in 0..=full.len() {
                    if !cx.violated() {
                        one_fmt(cx, who, v, full, room, once, None, broken);
                    }
                }
            }
            cx.probe("value printed with a failure at every byte");
        }
        "fmt" => {
            let room = op["room"].as_u64().unwrap_or(0) as usize;
            let once = op["once"].as_bool().unwrap_or(false);
            one_fmt(cx, who, v, full, room, once, op["cancel"].as_u64().filter(|c| *c > 0), broken);
        }
        _ => {
            let mut sink = SimWriter::new(cx, &op["sink"]);
            let res = seam::call(op["cancel"].as_u64().filter(|c| *c > 0), || write!(sink, "{}", v));
            cx.judged();
            let text = String::from_utf8_lossy(&sink.got).to_string();
            match res {
                Err(Abandon::Cancelled) => cx.fault("sink panicked"),
                Err(e) if answer_of_std(broken, &e) => {}
                Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                Ok(Ok(())) if sink.failed || broken => cx.violation("error-hidden",
                    format!("{}: writing succeeded, the sink has {:?}", who, text)),
                Ok(Ok(())) if text != full => cx.violation("text",
                    format!("{}: got {:?}, before it was {:?}", who, text, full)),
                Ok(Err(e)) if !sink.failed && !broken => cx.violation("error-invented", format!("{}: {}", who, e)),
                _ => {}
            }
            if !full.as_bytes().starts_with(&sink.got) {
                cx.violation("not-a-prefix", format!("{}: the sink accepted {:?}, the full text is {:?}", who, text, full));
            }
        }
    }
    if cx.violated() {
        return;
    }
    // the value is as it was
    let mut sink = SimFmt { cx, got: String::new(), room: usize::MAX / 2, failed: false, after: 0, once: false };
    let res = seam::call(None, || write!(sink, "{}", v));
    cx.judged();
    match res {
        Err(e) if answer_of_std(broken, &e) => {}
        Err(e) => cx.violation("panic", format!("{} again: {:?}", who, e)),
        Ok(r) => {
            if r.is_err() != broken || sink.got != full {
                cx.violation("text", format!("{} again: {:?} {:?}, before it was {:?}", who, r, sink.got, full));
            }
        }
    }
}

fn exec(scn: &Value, cx: &Cx) -> Result<(), String> {
    let vals = scn["vals"].as_array().ok_or("vals")?.clone();
    let mut tasks = vec![];
    for t in scn["tasks"].as_array().ok_or("tasks")? {
        let ops = t["ops"].as_array().ok_or("ops")?.clone();
        for op in &ops {
            if op["v"].as_u64().ok_or("v")? as usize >= vals.len()
                || (op["how"] != "every" && op["how"] != "fmt" && !valid_sink(&op["sink"])) {
                return Err("op".into());
            }
        }
        tasks.push((t["key"].as_u64().ok_or("key")?, ops));
    }
    if tasks.is_empty() || tasks.len() > 8 || vals.iter().any(|v| !v["t"].is_string()) {
        return Err("tasks".into());
    }
    cx.sign(scn["vals"].to_string().as_bytes());
    cx.sign(scn["tasks"].to_string().as_bytes());
    let plan = plan_of(&scn["plan"]).ok_or("plan")?;
    let vals = &vals;
    let bodies = tasks.into_iter().enumerate().map(|(t, (key, ops))| {
        let cx = cx.clone();
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |me| {
            let (sched, _) = seam::current_task().unwrap();
            for op in &ops {
                sched.yield_point(me);
                let k = op["v"].as_u64().unwrap() as usize;
                let Some((v, broken)) = value(&vals[k]) else { continue };
                if cx.violated() {
                    continue;
                }
                cx.step();
                let who = format!("thread {}: {}", t, vals[k]["t"].as_str().unwrap());
                let mut full = String::new();
                match seam::call(None, || write!(full, "{}", v)) {
                    Ok(r) => {
                        if r.is_err() != broken {
                            cx.violation("error-hidden", format!("{}: {:?} {:?} for a working sink", who, r, full));
                        }
                        if broken {
                            cx.fault("element that fails to print itself");
                        }
                    }
                    Err(e) if answer_of_std(broken, &e) => cx.fault("element that fails to print itself"),
                    Err(e) => cx.violation("panic", format!("{}: {:?}", who, e)),
                }
                cx.log(&format!("{} {:?}", who, full));
                if full.len() > 8192 {
                    cx.probe("text longer than 8 KB");
                }
                run_op(&cx, &who, &*v, &full, broken, op);
            }
        });
        (key, body)
    }).collect();
    let rep = run_tasks(0, &plan, bodies);
    cx.faults("preemption", rep.switches);
    cx.sign(&rep.hash.to_le_bytes());
    cx.log(&format!("switches {} yields {} schedule {:016x}", rep.switches, rep.yields, rep.hash));
    Ok(())
}

// ------------------------------------------------------------- generation

/// A piece of the shipped table.
fn excerpt(rng: &mut Rng) -> Value {
    let text = String::from_utf8_lossy(shipped());
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let mut i = rng.below(lines.len());
    while i > 0 && (lines[i].starts_with(' ') || lines[i].starts_with('#') || lines[i].trim().is_empty()) {
        i -= 1;
    }
    let more = lines[i + 1..].iter().take_while(|l| l.starts_with(' ')).count();
    lines[i..=i + more].iter().map(|l| json!(enc(l.as_bytes()))).collect()
}

fn gen_val(rng: &mut Rng) -> Value {
    match rng.weighted(&[10, 6, 6, 4, 1, 1]) {
        0 => {
            let t = *rng.pick(&["matrix", "vector", "point", "product", "affine", "map"]);
            let top = if rng.chance(8) { 12 } else { 4 };
            let (n, m) = (1 + rng.below(top), 1 + rng.below(top));
            let scalar = match t {
                "map" | "product" => "big",
                _ => *rng.pick(&["int", "float", "big", "pieces"]),
            };
            let k = n.max(m) * (n.max(m) + 1);
            let bad = if rng.chance(15) { 3 } else { 0 };
            // inverting large maps with long entries takes too long
            let long = rng.chance(10) && (t != "map" || n.max(m) <= 5);
            let data: Vec<String> = (0..k).map(|_| match scalar {
                "int" => rng.range(-100, 100).to_string(),
                "float" => (rng.range(-100, 100) as f64 / 8.0).to_string(),
                "big" => {
                    let a = if long { rng.next() as i64 as i128 * 1_000_003 } else { rng.range(-20, 20) as i128 };
                    format!("{}/{}", a, rng.range(1, if long { 1_000_000 } else { 6 }))
                }
                _ => format!("{}{}", *rng.pick(&["1", "\u{b1}2", "", "x y", "3.25"]), if rng.chance(bad) { "!" } else { "" }),
            }).collect();
            json!({"t": t, "n": n, "m": m, "scalar": scalar, "data": data})
        }
        1 => {
            let kind = *rng.pick(&[Kind::Any, Kind::Placed, Kind::Symmetric]);
            let s = netgen::draw(rng, kind);
            let mut edges = netgen::present(rng, &s.edges);
            if rng.chance(5) {
                // a big one
                let n = 100 + rng.below(500) as u32;
                edges = (1..=n).map(|i| (i, i % n + 1, (0..s.dim).map(|_| rng.range(-9, 9) as i32).collect())).collect();
            }
            let raw: Vec<Value> = edges.iter().map(crate::s_graph::json_edge).collect();
            json!({"t": *rng.pick(&["graph", "graph", "edge", "label"]),
                "g": {"dim": s.dim, "label": "plain", "edges": raw}})
        }
        2 | 3 => {
            let table = if rng.chance(40) { excerpt(rng) } else {
                let big = rng.chance(30);
                gen_table(rng, big, 12)
            };
            json!({"t": *rng.pick(&["setting", "setting", "lookup"]), "k": rng.below(1000), "table": table})
        }
        4 => json!({"t": "system", "k": rng.below(10)}),
        _ => json!({"t": "centering", "k": rng.below(9)}),
    }
}

fn gen(rng: &mut Rng) -> Value {
    let nv = 1 + rng.below(3);
    let vals: Vec<Value> = (0..nv).map(|_| gen_val(rng)).collect();
    // lengths, for failures that are not always beyond the end
    let lens: Vec<usize> = vals.iter().map(|v| {
        value(v).map(|(x, _)| {
            let mut s = String::new();
            let _ = seam::call(None, || write!(s, "{}", x));
            s.len()
        }).unwrap_or(0)
    }).collect();
    let nt = 1 + rng.below(3);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let ops: Vec<Value> = (0..1 + rng.below(4)).map(|_| {
            let v = rng.below(nv);
            let cancel = if rng.chance(10) { rng.log2(8) } else { 0 };
            match rng.below(4) {
                0 if lens[v] <= 400 => json!({"v": v, "how": "every"}),
                0 | 1 => json!({"v": v, "how": "fmt", "room": rng.below(lens[v] + 2), "once": rng.chance(50), "cancel": cancel}),
                _ => {
                    let fail = if rng.chance(75) { Some(rng.below(lens[v] + 1)) } else { None };
                    json!({"v": v, "how": "io", "sink": gen_sink(rng, fail), "cancel": cancel})
                }
            }
        }).collect();
        json!({"key": rng.next(), "ops": ops})
    }).collect();
    let plan = if nt > 1 { gen_plan(rng, 8, 9) } else { json!([]) };
    json!({"vals": vals, "tasks": tasks, "plan": plan})
}

pub static PROPS: [Prop; 1] = [
    Prop {
        id: "C09", gen, exec, quick_runs: 16_000, thorough_runs: 300_000,
        rule: "distinct (values, sinks and failures of every thread, schedule actually taken); a run counts if a \
            fault or preemption happened",
        real: "all Display implementations of the library, std::fmt and std::io::Write",
        stubs: "the sinks; the caller's element type that prints itself in pieces",
        assumptions: &["The full text is what the value prints to a sink that never fails."],
    },
];
