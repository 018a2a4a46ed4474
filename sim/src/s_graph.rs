//! Periodic graphs: C10 to C20.

use num_rational::BigRational;
use rust_systre::pgraphs::*;
use rust_systre::symmetries;
use serde_json::{json, Value};
use std::cell::OnceCell;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

use crate::callers::*;
use crate::frac::*;
use crate::iosim::{gen_plan, plan_of};
use crate::netgen::{self, Kind};
use crate::netmodel::*;
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::sched::run_tasks;
use crate::seam::{self, Abandon};

// --------------------------------------------------------------- answers

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sym {
    pub vmap: BTreeMap<u32, u32>,
    pub emap: BTreeMap<E, E>,
    /// rows
    pub lin: QMat,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Verts(Vec<u32>),
    Edges(Vec<E>),
    Edge(Option<E>),
    Point(QVec),
    Flag(bool),
    Nums(Vec<usize>),
    Measures(usize, usize, Option<i32>),
    Text(String),
    Net(Option<Vec<E>>),
    Syms(usize, Vec<Sym>),
    Classes(Vec<Vec<u32>>),
    EClasses(Vec<Vec<E>>),
    /// does not fit into the reference's numbers
    Huge(String),
}

impl Ans {
    /// For comparisons that leave open the order of sets.
    pub fn unordered(&self) -> Ans {
        let mut a = self.clone();
        match &mut a {
            Ans::Edges(es) => es.sort(),
            Ans::Net(Some(es)) => es.sort(),
            Ans::Classes(cs) => {
                cs.iter_mut().for_each(|c| c.sort());
                cs.sort();
            }
            Ans::EClasses(cs) => {
                cs.iter_mut().for_each(|c| c.sort());
                cs.sort();
            }
            _ => {}
        }
        a
    }
}

pub type Res = Result<Ans, Abandon>;

fn e_of<L: Label>(e: &Edge<L, World>) -> E {
    (e.head, e.tail, e.shift.to_vec())
}

fn edge_of<L: Label>(e: &E) -> Edge<L, World> {
    Edge::new(e.0, e.1, L::from_vec(&e.2))
}

fn coords<'a>(x: impl Iterator<Item = &'a BigRational>) -> Option<QVec> {
    x.map(|q| Q::from_big(q).filter(|q| q.n.abs() < 1 << 100 && q.d < 1 << 100)).collect()
}

#[cfg(not(systre_sim_without = "automorphisms"))]
fn sym_of<L: Label>(a: &Automorphism<L, World>) -> Option<Sym> {
    let d = L::dim();
    let mut cols = vec![];
    for j in 0..d {
        let u: Vector = (0..d).map(|i| Q::int((i == j) as i64).to_big()).collect();
        let w = a.sim_transform() * &u;
        cols.push(coords(w.iter())?);
    }
    Some(Sym {
        vmap: a.sim_vertex_map().iter().map(|(a, b)| (*a, *b)).collect(),
        emap: a.sim_edge_map().iter().map(|(a, b)| (e_of(a), e_of(b))).collect(),
        lin: transpose(&cols),
    })
}

/// Without the hook symmetries can only be counted and compared.
const COUNT_ONLY: bool = cfg!(systre_sim_without = "automorphisms");

#[cfg(systre_sim_without = "automorphisms")]
fn sym_of<L: Label>(_: &Automorphism<L, World>) -> Option<Sym> {
    Some(Sym { vmap: BTreeMap::new(), emap: BTreeMap::new(), lin: vec![] })
}

pub fn edge_json(v: &Value) -> Option<E> {
    Some((
        v.get(0)?.as_u64()? as u32,
        v.get(1)?.as_u64()? as u32,
        v.as_array()?.iter().skip(2).map(|x| x.as_i64().map(|x| x as i32)).collect::<Option<_>>()?,
    ))
}

pub fn json_edge(e: &E) -> Value {
    let mut a = vec![json!(e.0), json!(e.1)];
    a.extend(e.2.iter().map(|x| json!(x)));
    Value::Array(a)
}

fn frac_json(v: &Value) -> Option<Q> {
    let d = v.get(1)?.as_i64()?;
    if d == 0 { None } else { Some(Q::new(v.get(0)?.as_i64()? as i128, d as i128)) }
}

fn json_frac(q: &Q) -> Value {
    json!([q.n as i64, q.d as i64])
}

// ------------------------------------------------------ graphs under test

/// A graph of the library, whatever its label type.
pub trait Subject: Send {
    /// Performs one operation; a composite one reports several results.
    fn run(&self, op: &Value, out: &mut Vec<(Value, Res)>);
}

struct Wrapped<L>(Graph<L, World>)
where
    L: Eq + Hash;

fn v_of(op: &Value) -> u32 {
    op["v"].as_u64().unwrap_or(0) as u32
}

impl<L> Wrapped<L>
where
    L: Label,
{
    fn simple(&self, op: &Value) -> Res {
        let g = &self.0;
        let cancel = op["cancel"].as_u64();
        let v = v_of(op);
        let d = L::dim();
        let point = |r: Option<QVec>, t: String| match r {
            Some(p) => Ans::Point(p),
            None => Ans::Huge(t),
        };
        let list = |es: Vec<Edge<L, World>>| Ans::Edges(es.iter().map(e_of).collect());
        let syms = |r: Vec<Automorphism<L, World>>| {
            let n = r.len();
            match r.iter().map(sym_of).collect::<Option<Vec<_>>>() {
                Some(mut s) => {
                    s.sort();
                    s.dedup();
                    Ans::Syms(n, s)
                }
                None => Ans::Huge("symmetries".into()),
            }
        };
        Ok(match op["op"].as_str().unwrap_or("") {
            "verts" => Ans::Verts(seam::call(cancel, || g.vertices())?),
            "dir" => list(seam::call(cancel, || g.directed_edges())?),
            "inc" => list(seam::call(cancel, || g.incidences(&v))?),
            "print" => Ans::Text(seam::call(cancel, || g.to_string())?),
            "pos" => {
                let p = seam::call(cancel, || g.position(&v))?;
                point(coords(p.iter()), p.to_string())
            }
            "posn" => {
                let p = seam::call(cancel, || g.position_normalized(&v))?;
                point(coords(p.iter()), p.to_string())
            }
            "evec" => {
                let e: E = edge_json(&op["e"]).filter(|e| e.2.len() == d).unwrap_or((v, v, vec![0; d]));
                let e = edge_of::<L>(&e);
                let p = seam::call(cancel, || g.edge_vector(&e))?;
                point(coords(p.iter()), p.to_string())
            }
            "ebd" => {
                let delta: Vector = (0..d).map(|i| frac_json(&op["d"][i]).unwrap_or(Q::ZERO).to_big()).collect();
                Ans::Edge(seam::call(cancel, || g.edge_by_unique_delta(&v, &delta))?.as_ref().map(e_of))
            }
            "stable" => Ans::Flag(seam::call(cancel, || g.is_stable())?),
            "lstable" => Ans::Flag(seam::call(cancel, || g.is_locally_stable())?),
            "soc" => Ans::Flag(seam::call(cancel, || g.has_second_order_collisions())?),
            "conn" => Ans::Flag(seam::call(cancel, || g.is_connected())?),
            "meas" => {
                let (s, r, m) = seam::call(cancel, || graph_component_measures(g, &v))?;
                Ans::Measures(s, r, m)
            }
            "seq" => {
                let k = op["k"].as_u64().unwrap_or(1) as usize;
                Ans::Nums(seam::call(cancel, || g.coordination_sequence(&v).take(k).collect())?)
            }
            "norm" => {
                let h = seam::call(cancel, || g.shift_normalized())?;
                let es = seam::call(None, || h.directed_edges())?;
                let mut es: Vec<E> = es.iter().map(|e| canonical(&e_of(e))).collect();
                es.sort();
                es.dedup();
                Ans::Net(Some(es))
            }
            "syms" => syms(seam::call(cancel, || g.symmetries())?),
            "lsyms" => syms(seam::call(cancel, || symmetries::ladder_symmetries(g))?),
            "prod" => {
                // a product of symmetries from separate calls, and those it is equal to
                let path: Vec<usize> = op["path"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect())
                    .unwrap_or_default();
                let sorted = || -> Result<Vec<(Option<Sym>, Automorphism<L, World>)>, Abandon> {
                    let mut l: Vec<_> = seam::call(None, || g.symmetries())?.into_iter().map(|a| (sym_of(&a), a)).collect();
                    l.sort_by(|a, b| a.0.cmp(&b.0));
                    Ok(l)
                };
                let (l1, l2) = (sorted()?, sorted()?);
                if l1.len() != l2.len() {
                    return Ok(Ans::Text("the number of symmetries changes".into()));
                }
                let hash = |a: &Automorphism<L, World>| {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    a.hash(&mut h);
                    h.finish()
                };
                let (p, same) = seam::call(cancel, || {
                    let mut p = Automorphism::identity(g);
                    for (k, i) in path.iter().enumerate() {
                        let l = if k % 2 == 0 { &l1 } else { &l2 };
                        p = &p * &l[i % l.len()].1;
                    }
                    let same: Vec<bool> = l2.iter().filter(|(_, a)| *a == p).map(|(_, a)| hash(a) == hash(&p)).collect();
                    (p, same)
                })?;
                if same.contains(&false) {
                    return Ok(Ans::Text("equal symmetries have different hashes".into()));
                }
                match sym_of(&p) {
                    Some(s) => Ans::Syms(same.len(), vec![s]),
                    None => Ans::Huge("product".into()),
                }
            }
            "vorb" => Ans::Classes(seam::call(cancel, || g.vertex_orbits())?),
            "eorb" => {
                let r = seam::call(cancel, || g.edge_orbits())?;
                Ans::EClasses(r.iter().map(|c| c.iter().map(e_of).collect()).collect())
            }
            "torb" => Ans::Classes(seam::call(cancel, || symmetries::translational_orbits(g))?),
            "ismin" => Ans::Flag(seam::call(cancel, || symmetries::is_minimal(g))?),
            "isladder" => Ans::Flag(seam::call(cancel, || symmetries::is_ladder(g))?),
            "minimg" => {
                let h: Option<Graph<L, World>> =
                    seam::call(cancel, || symmetries::minimal_image::<L, L, World, World>(g))?;
                Ans::Net(match h {
                    None => None,
                    Some(h) => {
                        let es = seam::call(None, || h.directed_edges())?;
                        let mut es: Vec<E> = es.iter().map(|e| canonical(&e_of(e))).collect();
                        es.sort();
                        es.dedup();
                        Some(es)
                    }
                })
            }
            "normprint" => {
                let h = seam::call(cancel, || g.shift_normalized())?;
                Ans::Text(seam::call(None, || h.to_string())?)
            }
            "minprint" => {
                let h: Option<Graph<L, World>> =
                    seam::call(cancel, || symmetries::minimal_image::<L, L, World, World>(g))?;
                Ans::Text(match h {
                    Some(h) => seam::call(None, || h.to_string())?,
                    None => "none".into(),
                })
            }
            o => panic!("no operation {:?}", o),
        })
    }
}

impl<L> Subject for Wrapped<L>
where
    L: Label,
{
    fn run(&self, op: &Value, out: &mut Vec<(Value, Res)>) {
        if op["op"] != "seqs" {
            out.push((op.clone(), self.simple(op)));
            return;
        }
        // several coordination sequences advanced in turns, with other
        // queries and interrupted steps in between
        let starts: Vec<u32> = op["starts"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
        let mut its: Vec<_> = starts.iter().map(|v| self.0.coordination_sequence(v)).collect();
        let mut count = vec![0usize; its.len()];
        for st in op["steps"].as_array().unwrap() {
            if st.get("q").is_some() {
                out.push((st["q"].clone(), self.simple(&st["q"])));
            } else {
                let i = st["i"].as_u64().unwrap_or(0) as usize;
                if i < its.len() {
                    let it = &mut its[i];
                    let r = seam::call(st["cancel"].as_u64(), || it.next());
                    if r.is_ok() {
                        count[i] += 1;
                    }
                    let name = json!({"op": "step", "v": starts[i], "k": count[i]});
                    out.push((name, r.map(|x| Ans::Nums(x.into_iter().collect()))));
                }
            }
        }
    }
}

fn make<L>(edges: &[E]) -> Result<Box<dyn Subject>, Abandon>
where
    L: Label,
{
    let es: Vec<Edge<L, World>> = edges.iter().map(edge_of).collect();
    Ok(Box::new(Wrapped(seam::call(None, || Graph::new(&es))?)))
}

pub fn build(label: &str, dim: usize, edges: &[E]) -> Result<Box<dyn Subject>, Abandon> {
    match (label, dim) {
        ("plain", 2) => make::<LabelVector2d<World>>(edges),
        ("plain", 3) => make::<LabelVector3d<World>>(edges),
        #[cfg(not(sim_plain))]
        (_, 1) => make::<T<LN<1>>>(edges),
        (_, 2) => make::<T<LabelVector2d<World>>>(edges),
        (_, 3) => make::<T<LabelVector3d<World>>>(edges),
        #[cfg(not(sim_plain))]
        (_, 4) => make::<T<LN<4>>>(edges),
        _ => panic!("no labels of {} dimensions", dim),
    }
}

// ------------------------------------------------------------- reference

pub struct Ref {
    pub net: Net,
    pub raw: Vec<E>,
    pub qconn: bool,
    pub conn: bool,
    place: OnceCell<Option<Placement>>,
    lst: OnceCell<bool>,
    auts: OnceCell<Vec<Iso>>,
    ladder: OnceCell<bool>,
}

impl Ref {
    pub fn new(dim: usize, raw: &[E]) -> Ref {
        let net = Net::new(dim, raw);
        let qconn = net.quotient_connected() && !net.edges.is_empty();
        let conn = qconn && net.connected();
        Ref {
            net, raw: raw.to_vec(), qconn, conn,
            place: OnceCell::new(), lst: OnceCell::new(), auts: OnceCell::new(), ladder: OnceCell::new(),
        }
    }

    pub fn place(&self) -> Option<&Placement> {
        if !self.qconn {
            return None;
        }
        self.place.get_or_init(|| self.net.placement()).as_ref()
    }

    pub fn lstable(&self) -> bool {
        *self.lst.get_or_init(|| self.place().map(|p| self.net.is_locally_stable(p)).unwrap_or(false))
    }

    /// Whether the symmetry functions apply (and the reference can cope).
    pub fn symmetric(&self) -> bool {
        self.conn && self.net.dim > 0 && self.lstable() && self.place().unwrap().scale < 1 << 30
            && self.net.verts.len() <= 40
    }

    pub fn auts(&self) -> &Vec<Iso> {
        self.auts.get_or_init(|| self.net.automorphisms(self.place().unwrap()))
    }

    fn identity_lin(&self) -> Vec<Vec<i128>> {
        let d = self.net.dim;
        (0..d).map(|i| (0..d).map(|j| (i == j) as i128).collect()).collect()
    }

    pub fn translations(&self) -> Vec<&Iso> {
        let id = self.identity_lin();
        self.auts().iter().filter(|a| a.lin == id).collect()
    }

    pub fn ladder_syms(&self) -> Vec<&Iso> {
        let p = self.place().unwrap();
        self.translations().into_iter().filter(|a| {
            a.vmap.iter().any(|(v, w)| v != w)
                && a.vmap.iter().all(|(v, w)| {
                    p.pos[v].iter().zip(&p.pos[w]).all(|(x, y)| (*x - *y).is_int())
                })
        }).collect()
    }

    pub fn ladder(&self) -> bool {
        *self.ladder.get_or_init(|| !self.ladder_syms().is_empty())
    }

    pub fn applicable(&self, op: &Value) -> bool {
        let known = |v: u32| self.net.inc.contains_key(&v);
        match op["op"].as_str().unwrap_or("") {
            "verts" | "dir" | "norm" | "conn" | "print" => true,
            "inc" | "seq" | "meas" | "step" => known(v_of(op)),
            "pos" | "posn" => self.place().is_some() && known(v_of(op)),
            "ebd" => self.place().is_some(),
            "evec" => self.place().is_some()
                && edge_json(&op["e"]).map(|e| self.net.inc.get(&e.0).map(|l| l.contains(&e)).unwrap_or(false))
                    .unwrap_or(false),
            "stable" | "lstable" | "soc" => self.place().is_some(),
            "syms" | "vorb" | "eorb" | "isladder" | "lsyms" | "prod" => self.symmetric(),
            "torb" | "ismin" | "minimg" => self.symmetric() && !self.ladder(),
            _ => false,
        }
    }

    /// What is wrong with an answer to an applicable operation.
    pub fn judge(&self, op: &Value, a: &Ans) -> Option<String> {
        let net = &self.net;
        let name = op["op"].as_str().unwrap_or("");
        let v = v_of(op);
        let want = |w: Ans| -> Option<String> {
            if w.unordered() == a.unordered() { None } else { Some(format!("got {:?}, expected {:?}", a, w)) }
        };
        let exact = |w: Ans| -> Option<String> {
            if w == *a { None } else { Some(format!("got {:?}, expected {:?}", a, w)) }
        };
        let syms = |want: Vec<&Iso>| -> Option<String> {
            let want: BTreeSet<Sym> = want.into_iter().map(to_sym).collect();
            match a {
                Ans::Syms(n, _) if COUNT_ONLY => {
                    if *n == want.len() { None } else { Some(format!("{} symmetries instead of {}", n, want.len())) }
                }
                Ans::Syms(n, got) => {
                    let gs: BTreeSet<Sym> = got.iter().cloned().collect();
                    if *n != gs.len() {
                        return Some(format!("{} symmetries, of which only {} are different", n, gs.len()));
                    }
                    if gs != want {
                        let extra = gs.difference(&want).next();
                        let missing = want.difference(&gs).next();
                        return Some(format!("{} symmetries instead of {}; not valid: {:?}; missing: {:?}",
                            n, want.len(), extra, missing));
                    }
                    None
                }
                _ => Some(format!("got {:?}", a)),
            }
        };
        match name {
            "verts" => exact(Ans::Verts(net.verts.clone())),
            "dir" => want(Ans::Edges(net.directed())),
            "inc" => want(Ans::Edges(net.inc[&v].clone())),
            "print" => {
                let Ans::Text(t) = a else { return Some("no text".into()) };
                let line = |e: &E| {
                    let s: Vec<_> = e.2.iter().map(|x| x.to_string()).collect();
                    format!("{} --({})-> {}", e.0, s.join(", "), e.1)
                };
                let mut left: BTreeMap<String, usize> = BTreeMap::new();
                for (i, e) in net.edges.iter().enumerate() {
                    left.insert(line(e), i);
                    left.insert(line(&reverse(e)), i);
                }
                let mut seen = BTreeSet::new();
                for l in t.lines() {
                    match left.get(l) {
                        Some(i) if seen.insert(*i) => {}
                        _ => return Some(format!("line {:?} is wrong or repeated", l)),
                    }
                }
                if seen.len() != net.edges.len() {
                    return Some(format!("{} edges printed instead of {}", seen.len(), net.edges.len()));
                }
                None
            }
            "pos" => exact(Ans::Point(self.place().unwrap().pos[&v].clone())),
            "posn" => exact(Ans::Point(self.place().unwrap().pos[&v].iter().map(|q| q.frac()).collect())),
            "evec" => {
                let e = edge_json(&op["e"]).unwrap();
                exact(Ans::Point(net.vector(self.place().unwrap(), &e)))
            }
            "ebd" => {
                let delta: Option<QVec> = (0..net.dim).map(|i| frac_json(&op["d"][i])).collect();
                let delta = delta?;
                let p = self.place().unwrap();
                let hits: Vec<&E> = net.inc.get(&v).map(|l| {
                    l.iter().filter(|e| net.vector(p, e) == delta).collect()
                }).unwrap_or_default();
                exact(Ans::Edge(if hits.len() == 1 { Some(hits[0].clone()) } else { None }))
            }
            "stable" => exact(Ans::Flag(net.is_stable(self.place().unwrap()))),
            "lstable" => exact(Ans::Flag(self.lstable())),
            "soc" => exact(Ans::Flag(net.second_order_collisions(self.place().unwrap()))),
            "conn" => exact(Ans::Flag(net.connected())),
            "meas" => {
                let (s, r, m) = net.measures(v);
                exact(Ans::Measures(s, r, m.and_then(|x| i32::try_from(x).ok())))
            }
            "seq" => exact(Ans::Nums(net.shells(v, op["k"].as_u64().unwrap() as usize))),
            "step" => {
                let k = op["k"].as_u64().unwrap() as usize;
                exact(Ans::Nums(vec![net.shells(v, k)[k - 1]]))
            }
            "norm" => match a {
                Ans::Net(Some(es)) => normalised(net, es),
                _ => Some(format!("got {:?}", a)),
            },
            "syms" => syms(self.auts().iter().collect()),
            "lsyms" => syms(self.ladder_syms()),
            "prod" if COUNT_ONLY => match a {
                Ans::Syms(1, _) => None,
                _ => Some(format!("got {:?}", a)),
            },
            "prod" => {
                let mut all: Vec<Sym> = self.auts().iter().map(to_sym).collect();
                all.sort();
                let mut p = Sym {
                    vmap: net.verts.iter().map(|v| (*v, *v)).collect(),
                    emap: net.directed().into_iter().map(|e| (e.clone(), e)).collect(),
                    lin: identity(net.dim),
                };
                for i in op["path"].as_array()? {
                    let q = &all[i.as_u64()? as usize % all.len()];
                    p = Sym {
                        vmap: q.vmap.iter().map(|(v, w)| (*v, p.vmap[w])).collect(),
                        emap: q.emap.iter().map(|(e, f)| (e.clone(), p.emap[f].clone())).collect(),
                        lin: mat_mul(&p.lin, &q.lin),
                    };
                }
                exact(Ans::Syms(1, vec![p]))
            }
            "vorb" => want(Ans::Classes(classes(&net.verts, &|v| {
                self.auts().iter().map(|i| i.vmap[v]).collect()
            }))),
            "eorb" => {
                let got = match a {
                    Ans::EClasses(c) => Ans::EClasses(
                        c.iter().map(|c| c.iter().map(canonical).collect()).collect()),
                    _ => return Some(format!("got {:?}", a)),
                };
                let w = Ans::EClasses(classes(&net.edges, &|e| {
                    self.auts().iter().map(|i| canonical(&i.emap[e])).collect()
                }));
                if w.unordered() == got.unordered() { None } else { Some(format!("got {:?}, expected {:?}", a, w)) }
            }
            "torb" => want(Ans::Classes(classes(&net.verts, &|v| {
                self.translations().iter().map(|i| i.vmap[v]).collect()
            }))),
            "ismin" => exact(Ans::Flag(self.translations().len() == 1)),
            "isladder" => exact(Ans::Flag(self.ladder())),
            "minimg" => {
                let n = self.translations().len();
                match a {
                    Ans::Net(None) if n == 1 => None,
                    Ans::Net(Some(es)) if n > 1 => {
                        let want = net.minimal_image(self.place().unwrap(), self.auts());
                        let got = Net::new(net.dim, es);
                        if got.verts.len() * n != net.verts.len() {
                            return Some(format!("{} vertices in the image of {} under {} translations: {:?}",
                                got.verts.len(), net.verts.len(), n, es));
                        }
                        if got.degenerate || !got.connected() {
                            return Some(format!("image {:?} is not a connected net", es));
                        }
                        let (gp, wp) = (got.placement()?, want.placement()?);
                        if !got.is_locally_stable(&gp)
                            || got.isomorphisms(&gp, &want, &wp, true).is_empty()
                        {
                            return Some(format!("image {:?} is a different net than {:?}", es, want.edges));
                        }
                        None
                    }
                    _ => Some(format!("{} translations, minimal image {:?}", n, a)),
                }
            }
            _ => None,
        }
    }
}

fn to_sym(i: &Iso) -> Sym {
    Sym {
        vmap: i.vmap.clone(),
        emap: i.emap.clone(),
        lin: i.lin.iter().map(|r| r.iter().map(|x| Q { n: *x, d: 1 }).collect()).collect(),
    }
}

fn classes<X: Clone + Ord>(all: &[X], images: &dyn Fn(&X) -> Vec<X>) -> Vec<Vec<X>> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for x in all {
        if !seen.contains(x) {
            let c: BTreeSet<X> = images(x).into_iter().collect();
            seen.extend(c.iter().cloned());
            out.push(c.into_iter().collect());
        }
    }
    out
}

/// Whether `es` is the net with its vertices moved by lattice vectors, and
/// its edges with zero shift connect each component.
fn normalised(net: &Net, es: &[E]) -> Option<String> {
    let d = net.dim;
    let new = Net::new(d, es);
    if new.verts != net.verts {
        return Some(format!("vertices {:?} instead of {:?}", new.verts, net.verts));
    }
    if new.edges.len() != net.edges.len() {
        return Some(format!("{} edges instead of {}: {:?}", new.edges.len(), net.edges.len(), es));
    }
    let pairs = |n: &Net, a: u32, b: u32| -> BTreeSet<Vec<i32>> {
        n.inc[&a].iter().filter(|e| e.1 == b).map(|e| e.2.clone()).collect()
    };
    // displacement x with shift' = shift + x(tail) - x(head)
    let mut x: BTreeMap<u32, Vec<i32>> = BTreeMap::new();
    for v0 in &net.verts {
        if x.contains_key(v0) {
            continue;
        }
        x.insert(*v0, vec![0; d]);
        let mut queue = vec![*v0];
        while let Some(a) = queue.pop() {
            for e in &net.inc[&a] {
                let b = e.1;
                let (old, now) = (pairs(net, a, b), pairs(&new, a, b));
                if old.len() != now.len() {
                    return Some(format!("{} edges from {} to {} instead of {}", now.len(), a, b, old.len()));
                }
                if !x.contains_key(&b) {
                    let (o, n) = (old.first().unwrap(), now.first().unwrap());
                    let y = (0..d).map(|k| n[k] - o[k] + x[&a][k]).collect();
                    x.insert(b, y);
                    queue.push(b);
                }
                let moved: BTreeSet<Vec<i32>> = old.iter()
                    .map(|s| (0..d).map(|k| s[k] + x[&b][k] - x[&a][k]).collect()).collect();
                if moved != now {
                    return Some(format!("edges from {} to {} have shifts {:?} instead of {:?}", a, b, now, moved));
                }
            }
        }
    }
    for v0 in &net.verts {
        let mut seen = BTreeSet::from([*v0]);
        let mut queue = vec![*v0];
        while let Some(a) = queue.pop() {
            for e in &new.inc[&a] {
                if e.2.iter().all(|x| *x == 0) && seen.insert(e.1) {
                    queue.push(e.1);
                }
            }
        }
        if seen != net.component(*v0) {
            return Some(format!("zero shifts connect {} only to {:?}: {:?}", v0, seen, es));
        }
    }
    None
}

// -------------------------------------------------------------- scenario

pub struct GraphSpec {
    pub dim: usize,
    pub label: String,
    pub raw: Vec<E>,
}

pub struct TaskSpec {
    pub key: u64,
    pub ops: Vec<Value>,
}

pub fn parse_graph(g: &Value) -> Result<GraphSpec, String> {
    let dim = g["dim"].as_u64().ok_or("dim")? as usize;
    if !(1..=4).contains(&dim) {
        return Err("dim".into());
    }
    let raw: Vec<E> = g["edges"].as_array().ok_or("edges")?.iter().map(edge_json)
        .collect::<Option<_>>().ok_or("edge")?;
    if raw.iter().any(|e| e.2.len() != dim || e.2.iter().any(|x| x.abs() > 1 << 24)) {
        return Err("edge".into());
    }
    if Net::new(dim, &raw).degenerate {
        return Err("loop with zero shift".into());
    }
    Ok(GraphSpec { dim, label: g["label"].as_str().ok_or("label")?.into(), raw })
}

const OPS: [&str; 22] = [
    "verts", "dir", "inc", "print", "pos", "posn", "evec", "ebd", "stable", "lstable", "soc", "conn", "meas",
    "seq", "norm", "syms", "lsyms", "vorb", "eorb", "torb", "ismin", "isladder",
];

pub fn valid_op(op: &Value) -> bool {
    let name = op["op"].as_str().unwrap_or("");
    match name {
        "seqs" => op["starts"].as_array().map(|a| !a.is_empty() && a.iter().all(|v| v.is_u64())).unwrap_or(false)
            && op["steps"].as_array().map(|a| a.iter().all(|s| {
                s.get("q").map(|q| q["op"] != "seqs" && valid_op(q)).unwrap_or(s["i"].is_u64())
            })).unwrap_or(false),
        "seq" => op["k"].as_u64().map(|k| (1..=40).contains(&k)).unwrap_or(false),
        "ebd" => op["d"].is_array(),
        "prod" => op["path"].as_array().map(|a| a.len() <= 20 && a.iter().all(|x| x.is_u64())).unwrap_or(false),
        "evec" => op["e"].is_array(),
        _ => matches!(name, "minimg" | "normprint" | "minprint") || OPS.contains(&name),
    }
}

pub fn parse_task(t: &Value, graphs: usize) -> Result<TaskSpec, String> {
    let ops = t["ops"].as_array().ok_or("ops")?.clone();
    for op in &ops {
        if !valid_op(op) || op["g"].as_u64().map(|g| g as usize >= graphs).unwrap_or(true) {
            return Err("op".into());
        }
    }
    Ok(TaskSpec { key: t["key"].as_u64().ok_or("key")?, ops })
}

pub struct Rec {
    pub task: usize,
    pub g: usize,
    pub op: Value,
    pub res: Res,
}

pub fn without_cancel(op: &Value) -> Value {
    let mut o = op.clone();
    if let Some(m) = o.as_object_mut() {
        m.remove("cancel");
    }
    o
}

/// What happened to one graph: the slot from which its owner takes it.
struct Slot {
    subject: Option<Box<dyn Subject>>,
    owner: usize,
}

pub fn brief(r: &Res) -> String {
    match r {
        Ok(a) => format!("{:?}", a),
        Err(Abandon::Panic(p)) => format!("panic: {}", p),
        Err(e) => format!("{:?}", e),
    }
}

pub fn run(cx: &Cx, graphs: &[GraphSpec], tasks: &[TaskSpec], plan: &crate::sched::Plan) -> Vec<Rec> {
    let slots: Vec<Mutex<Slot>> = graphs.iter()
        .map(|_| Mutex::new(Slot { subject: None, owner: usize::MAX })).collect();
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let bodies = tasks.iter().enumerate().map(|(t, task)| {
        let (slots, recs, cx) = (&slots, &recs, cx.clone());
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |me| {
            let (sched, _) = seam::current_task().unwrap();
            for op in &task.ops {
                sched.yield_point(me);
                let g = op["g"].as_u64().unwrap() as usize;
                sched.lock(me, g);
                let (subject, owner) = {
                    let mut s = slots[g].lock().unwrap();
                    let o = s.owner;
                    s.owner = me;
                    (s.subject.take(), o)
                };
                if owner != usize::MAX && owner != me {
                    cx.fault("hand-over of a graph to another thread");
                }
                let subject = match subject {
                    Some(s) => Ok(s),
                    None => build(&graphs[g].label, graphs[g].dim, &graphs[g].raw),
                };
                let mut out = vec![];
                match subject {
                    Ok(s) => {
                        s.run(op, &mut out);
                        slots[g].lock().unwrap().subject = Some(s);
                    }
                    Err(e) => out.push((json!({"op": "new"}), Err(e))),
                }
                for (op, res) in out {
                    cx.step();
                    match &res {
                        Err(Abandon::Cancelled) => cx.fault(
                            &format!("abandoned in label arithmetic: {}", op["op"].as_str().unwrap())),
                        Err(Abandon::Panic(_)) => cx.fault(
                            &format!("query that panicked by itself: {}", op["op"].as_str().unwrap())),
                        _ => {}
                    }
                    cx.log(&format!("thread {} graph {}: {} -> {}", t, g, op, brief(&res)));
                    recs.lock().unwrap().push(Rec { task: t, g, op, res });
                }
                sched.unlock(me, g);
            }
        });
        (task.key, body)
    }).collect();
    let rep = run_tasks(graphs.len(), plan, bodies);
    cx.faults("preemption", rep.switches);
    cx.sign(&rep.hash.to_le_bytes());
    cx.log(&format!("switches {} yields {} schedule {:016x}", rep.switches, rep.yields, rep.hash));
    recs.into_inner().unwrap()
}

pub fn parse(scn: &Value) -> Result<(Vec<GraphSpec>, Vec<TaskSpec>, crate::sched::Plan), String> {
    let graphs: Vec<GraphSpec> = scn["graphs"].as_array().ok_or("graphs")?.iter().map(parse_graph)
        .collect::<Result<_, _>>()?;
    let tasks: Vec<TaskSpec> = scn["tasks"].as_array().ok_or("tasks")?.iter()
        .map(|t| parse_task(t, graphs.len())).collect::<Result<_, _>>()?;
    if tasks.is_empty() || tasks.len() > 8 {
        return Err("tasks".into());
    }
    Ok((graphs, tasks, plan_of(&scn["plan"]).ok_or("plan")?))
}

/// Probes and the endless-run check common to all properties.
fn overall(cx: &Cx, refs: &[Ref], recs: &[Rec]) {
    for (i, r) in refs.iter().enumerate() {
        cx.sign(format!("{:?}", r.raw).as_bytes());
        if !r.qconn {
            cx.probe("graph with unconnected quotient");
        } else if !r.conn {
            cx.probe("interpenetrating or rank-deficient graph");
        } else if !r.lstable() {
            cx.probe("graph that is not locally stable");
        } else if recs.iter().any(|x| x.g == i && x.op["op"] == "isladder") && r.symmetric() && r.ladder() {
            cx.probe("ladder");
        }
        if r.net.verts.len() > 16 {
            cx.probe("graph with more than 16 vertices");
        }
        if r.raw.iter().any(|e| e.2.iter().any(|x| x.abs() > 1 << 15)) {
            cx.probe("shifts beyond 16 bits");
        }
        if r.place().map(|p| p.scale > 1_000_000).unwrap_or(false) {
            cx.probe("placement with large denominators");
        }
        let mut broken = false;
        for x in recs.iter().filter(|x| x.g == i) {
            match x.res {
                Err(Abandon::Cancelled) | Err(Abandon::Panic(_)) => broken = true,
                Ok(_) if broken => {
                    cx.probe("answer after an abandoned or failed query");
                    break;
                }
                _ => {}
            }
        }
    }
    for x in recs {
        if let Err(Abandon::Budget(b)) = &x.res {
            cx.violation("runs-on", format!("{} on {:?}: too many {}", x.op, refs[x.g].raw, b));
        }
        if x.op["op"] == "new" {
            cx.violation("new", format!("construction of {:?}: {}", refs[x.g].raw, brief(&x.res)));
        }
    }
}

fn judge_all(cx: &Cx, refs: &[Ref], recs: &[Rec], names: &[&str]) {
    overall(cx, refs, recs);
    for x in recs {
        let name = x.op["op"].as_str().unwrap_or("");
        if cx.violated() {
            return;
        }
        if !names.contains(&name) || matches!(x.res, Err(Abandon::Cancelled)) || !refs[x.g].applicable(&x.op) {
            continue;
        }
        cx.judged();
        let bad = match &x.res {
            Ok(a) => refs[x.g].judge(&x.op, a),
            Err(Abandon::Panic(p)) => Some(format!("panic: {}", p)),
            _ => None,
        };
        if let Some(b) = bad {
            cx.violation(&format!("wrong-{}", name), format!("{} by thread {} on graph {:?} (dimension {}): {}",
                x.op, x.task, refs[x.g].raw, refs[x.g].net.dim, b));
        }
    }
}

fn refs(graphs: &[GraphSpec]) -> Vec<Ref> {
    graphs.iter().map(|g| Ref::new(g.dim, &g.raw)).collect()
}

fn exec_names(scn: &Value, cx: &Cx, names: &[&str]) -> Result<(), String> {
    let (graphs, tasks, plan) = parse(scn)?;
    let recs = run(cx, &graphs, &tasks, &plan);
    let refs = refs(&graphs);
    judge_all(cx, &refs, &recs, names);
    Ok(())
}

// ------------------------------------------------------------ generation

pub fn graph_json(rng: &mut Rng, s: &netgen::Spec, plain: u32) -> Value {
    let raw = netgen::present(rng, &s.edges);
    let label = if rng.chance(plain) && (s.dim == 2 || s.dim == 3) { "plain" } else { "tick" };
    json!({"dim": s.dim, "label": label, "edges": raw.iter().map(json_edge).collect::<Vec<_>>()})
}

/// Draws one operation on a graph. `w`: name and weight.
pub fn gen_op(rng: &mut Rng, r: &Ref, w: &[(&str, u32)], misuse: u32, cancel: u32) -> Value {
    let weights: Vec<u32> = w.iter().map(|x| x.1).collect();
    for _ in 0..50 {
        let name = w[rng.weighted(&weights)].0;
        let mut op = draw_op(rng, r, name);
        let odd = rng.chance(misuse);
        if odd && op.get("v").is_some() {
            op["v"] = json!(rng.below(30));
        }
        if !odd && name != "seqs" && !r.applicable(&op) {
            continue;
        }
        let heavy = matches!(name, "syms" | "lsyms" | "vorb" | "eorb" | "torb" | "ismin" | "minimg" | "isladder" | "prod");
        if heavy && r.symmetric() && netgen::cost(&r.net) > 2000 {
            continue;
        }
        if name == "seqs" && !r.net.inc.contains_key(&(op["starts"][0].as_u64().unwrap_or(0) as u32)) {
            continue;
        }
        if rng.chance(cancel) && name != "seqs" {
            op["cancel"] = json!(rng.log2(if heavy { 14 } else { 9 }));
        }
        return op;
    }
    json!({"op": "verts"})
}

fn draw_op(rng: &mut Rng, r: &Ref, name: &str) -> Value {
    let net = &r.net;
    let v = if net.verts.is_empty() { 1 } else { *rng.pick(&net.verts) };
    let mut op = json!({"op": name});
    match name {
        "inc" | "pos" | "posn" | "meas" => op["v"] = json!(v),
        "seq" => {
            op["v"] = json!(v);
            op["k"] = json!(1 + rng.below(shell_limit(net)));
        }
        "evec" => {
            if let Some(es) = net.inc.get(&v) {
                op["e"] = json_edge(rng.pick(es));
            } else {
                op["e"] = json_edge(&(1, 2, vec![0; net.dim]));
            }
        }
        "ebd" => {
            op["v"] = json!(v);
            let u = if net.verts.is_empty() || rng.chance(70) { v } else { *rng.pick(&net.verts) };
            let d: QVec = match (r.place(), net.inc.get(&u)) {
                (Some(p), Some(es)) if rng.chance(90) => net.vector(p, rng.pick(es)),
                _ => (0..net.dim).map(|_| Q::new(rng.range(-3, 3) as i128, rng.range(1, 3) as i128)).collect(),
            };
            if d.iter().any(|q| q.n.abs() > 1 << 62 || q.d > 1 << 62) {
                op["d"] = json!(vec![json!([0, 1]); net.dim]);
            } else {
                op["d"] = d.iter().map(json_frac).collect();
            }
        }
        "prod" => {
            let n = *rng.pick(&[0, 1, 2, 2, 2, 3, 5]);
            op["path"] = (0..n).map(|_| rng.next() >> 40).collect();
        }
        "seqs" => {
            let n = 1 + rng.below(3);
            op["starts"] = (0..n).map(|_| if net.verts.is_empty() { json!(1) } else { json!(rng.pick(&net.verts)) }).collect();
            let limit = shell_limit(net);
            let mut left = vec![limit; n];
            let mut steps = vec![];
            for _ in 0..1 + rng.below(2 * limit) {
                if rng.chance(15) {
                    let name = *rng.pick(&["inc", "verts", "pos", "seq", "meas", "norm"]);
                    let mut q = draw_op(rng, r, name);
                    if rng.chance(30) {
                        q["cancel"] = json!(rng.log2(7));
                    }
                    steps.push(json!({"q": q}));
                } else {
                    let i = rng.below(n);
                    if rng.chance(20) {
                        steps.push(json!({"i": i, "cancel": rng.log2(8)}));
                    }
                    if left[i] > 0 {
                        left[i] -= 1;
                        steps.push(json!({"i": i}));
                    }
                }
            }
            op["steps"] = json!(steps);
        }
        _ => {}
    }
    op
}

/// How many shells to ask for without ending up with too many vertices.
fn shell_limit(net: &Net) -> usize {
    let mean = net.edges.len() as f64 * 2.0 / net.verts.len().max(1) as f64;
    match net.dim {
        1 => 20,
        2 => if mean > 8.0 { 5 } else { 10 },
        3 => if mean > 6.0 { 4 } else { 6 },
        _ => 3,
    }
}

const LIGHT: &[(&str, u32)] = &[
    ("verts", 2), ("dir", 2), ("inc", 3), ("print", 1), ("pos", 3), ("posn", 1), ("evec", 2), ("ebd", 3),
    ("stable", 1), ("lstable", 1), ("soc", 1), ("conn", 1), ("meas", 1), ("seq", 1), ("norm", 1),
];

const HEAVY: &[(&str, u32)] = &[
    ("syms", 2), ("lsyms", 1), ("vorb", 2), ("eorb", 2), ("torb", 2), ("ismin", 1), ("isladder", 1), ("minimg", 1),
];

/// The property's own operations, among others.
pub fn mixture(own: &[(&'static str, u32)], light: u32, heavy: u32) -> Vec<(&'static str, u32)> {
    let mut w: Vec<(&str, u32)> = own.iter().map(|x| (x.0, x.1 * 20)).collect();
    w.extend(LIGHT.iter().map(|x| (x.0, x.1 * light)));
    w.extend(HEAVY.iter().map(|x| (x.0, x.1 * heavy)));
    w.retain(|x| x.1 > 0);
    w
}

struct Mode {
    kind: Kind,
    own: &'static [(&'static str, u32)],
    light: u32,
    heavy: u32,
    misuse: u32,
    cancel: u32,
    max_ops: usize,
}

fn gen_history(rng: &mut Rng, m: &Mode) -> Value {
    let ng = *rng.pick(&[1, 1, 1, 2]);
    gen_history_of(rng, m, ng, &|rng| netgen::draw(rng, m.kind))
}

fn gen_history_of(rng: &mut Rng, m: &Mode, ng: usize, draw: &dyn Fn(&mut Rng) -> netgen::Spec) -> Value {
    let mut graphs = vec![];
    let mut rs = vec![];
    let mut last: Option<netgen::Spec> = None;
    for _ in 0..ng {
        let like = match &last {
            Some(s) if rng.chance(50) => netgen::relative(rng, s, m.kind),
            _ => None,
        };
        let s = match like {
            Some(s) => s,
            None => {
                let s = netgen::usable(|| draw(rng));
                netgen::disguise(rng, &s)
            }
        };
        last = Some(s.clone());
        graphs.push(graph_json(rng, &s, 25));
        rs.push(Ref::new(s.dim, &s.edges));
    }
    let nt = *rng.pick(&[1, 1, 2, 3]);
    // calm runs too, without faults
    let (misuse, cancel) = match rng.below(3) {
        0 => (0, 0),
        1 => (m.misuse, m.cancel / 2),
        _ => (m.misuse, m.cancel),
    };
    let w = mixture(m.own, m.light, m.heavy);
    let tasks: Vec<Value> = (0..nt).map(|_| {
        let n = 1 + rng.below(m.max_ops);
        let mut ops: Vec<Value> = vec![];
        for _ in 0..n {
            let g = rng.below(ng);
            let mut op = gen_op(rng, &rs[g], &w, misuse, cancel);
            op["g"] = json!(g);
            let again = op.get("cancel").is_some() && rng.chance(50);
            if again {
                let retry = without_cancel(&op);
                ops.push(op);
                ops.push(retry);
            } else {
                ops.push(op);
            }
        }
        json!({"key": rng.next() >> 12, "ops": ops})
    }).collect();
    json!({"graphs": graphs, "tasks": tasks, "plan": if nt > 1 { gen_plan(rng, 12, 11) } else { json!([]) }})
}

macro_rules! history {
    // so many runs in a thousand are about one of the large nets and little else
    ($gen:ident, $exec:ident, $names:expr, $mode:expr, $permille:expr, $large:expr) => {
        fn $gen(rng: &mut Rng) -> Value {
            if rng.below(1000) < $permille {
                gen_history_of(rng, &Mode { heavy: 0, max_ops: 2, ..$mode }, 1, &$large)
            } else {
                gen_history(rng, &$mode)
            }
        }
        fn $exec(scn: &Value, cx: &Cx) -> Result<(), String> {
            exec_names(scn, cx, &$names)
        }
    };
    ($gen:ident, $exec:ident, $names:expr, $mode:expr) => {
        fn $gen(rng: &mut Rng) -> Value {
            gen_history(rng, &$mode)
        }
        fn $exec(scn: &Value, cx: &Cx) -> Result<(), String> {
            exec_names(scn, cx, &$names)
        }
    };
}

history!(gen_c11, exec_c11, ["verts", "dir", "inc", "ebd"], Mode {
    kind: Kind::Any, own: &[("inc", 3), ("dir", 1), ("verts", 1), ("ebd", 4)],
    light: 2, heavy: 0, misuse: 8, cancel: 30, max_ops: 10 });
history!(gen_c12, exec_c12, ["pos", "posn", "evec"], Mode {
    kind: Kind::Placed, own: &[("pos", 3), ("posn", 2), ("evec", 3)],
    light: 2, heavy: 0, misuse: 8, cancel: 30, max_ops: 10 });
history!(gen_c14, exec_c14, ["seq", "step"], Mode {
    kind: Kind::Any, own: &[("seq", 2), ("seqs", 3)],
    light: 1, heavy: 0, misuse: 5, cancel: 30, max_ops: 5 });
history!(gen_c15, exec_c15, ["meas", "conn"], Mode {
    kind: Kind::Any, own: &[("meas", 4), ("conn", 2)],
    light: 1, heavy: 0, misuse: 8, cancel: 30, max_ops: 8 });
history!(gen_c16, exec_c16, ["stable", "lstable", "soc"], Mode {
    kind: Kind::Placed, own: &[("stable", 2), ("lstable", 2), ("soc", 2)],
    light: 1, heavy: 0, misuse: 8, cancel: 30, max_ops: 8 });
history!(gen_c17, exec_c17, ["norm"], Mode {
    kind: Kind::Any, own: &[("norm", 6)],
    light: 2, heavy: 0, misuse: 8, cancel: 30, max_ops: 6 });
history!(gen_c18, exec_c18, ["syms"], Mode {
    kind: Kind::Symmetric, own: &[("syms", 6)],
    light: 2, heavy: 1, misuse: 5, cancel: 30, max_ops: 4 }, 8, netgen::rich);
history!(gen_c19, exec_c19, ["vorb", "eorb"], Mode {
    kind: Kind::Symmetric, own: &[("vorb", 3), ("eorb", 4)],
    light: 2, heavy: 1, misuse: 5, cancel: 30, max_ops: 4 }, 8, netgen::rich);
history!(gen_c20, exec_c20, ["torb", "ismin", "minimg", "isladder", "lsyms"], Mode {
    kind: Kind::Symmetric, own: &[("torb", 2), ("ismin", 1), ("minimg", 3), ("isladder", 2), ("lsyms", 2)],
    light: 2, heavy: 0, misuse: 5, cancel: 30, max_ops: 4 }, 40, netgen::wide);


history!(gen_c34, exec_c34, ["prod"], Mode {
    kind: Kind::Symmetric, own: &[("prod", 6)],
    light: 2, heavy: 1, misuse: 5, cancel: 40, max_ops: 4 }, 8, netgen::rich);

// ------------------------------------------------------------------- C10

fn gen_c10(rng: &mut Rng) -> Value {
    let kind = if rng.chance(40) { Kind::Symmetric } else { Kind::Any };
    let s = netgen::draw(rng, kind);
    let s = netgen::disguise(rng, &s);
    let r = Ref::new(s.dim, &s.edges);
    let n = 2 + rng.below(2);
    let w = mixture(&[("print", 4), ("dir", 2)], 3, if kind == Kind::Symmetric { 1 } else { 0 });
    let ops: Vec<Value> = (0..1 + rng.below(6)).map(|_| gen_op(rng, &r, &w, 0, 0)).collect();
    let mut graphs = vec![];
    let mut tasks = vec![];
    for g in 0..n {
        graphs.push(graph_json(rng, &s, 40));
        let mut ops: Vec<Value> = ops.iter().map(|o| {
            let mut o = o.clone();
            o["g"] = json!(g);
            o
        }).collect();
        rng.shuffle(&mut ops);
        tasks.push(json!({"key": rng.next() >> 12, "ops": ops}));
    }
    json!({"graphs": graphs, "tasks": tasks, "plan": gen_plan(rng, 12, 11)})
}

fn exec_c10(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (graphs, tasks, plan) = parse(scn)?;
    let refs = refs(&graphs);
    if refs.iter().any(|r| r.net.edges != refs[0].net.edges || r.net.dim != refs[0].net.dim) {
        return Err("different graphs".into());
    }
    let recs = run(cx, &graphs, &tasks, &plan);
    judge_all(cx, &refs, &recs, &["print", "verts", "dir"]);
    cx.faults("presentation in other order, direction or multiplicity", graphs.len() as u64 - 1);
    let mut first: BTreeMap<String, &Rec> = BTreeMap::new();
    for x in &recs {
        if !refs[x.g].applicable(&x.op) {
            continue;
        }
        let mut o = without_cancel(&x.op);
        o.as_object_mut().unwrap().remove("g");
        let Ok(a) = &x.res else { continue };
        match first.get(&o.to_string()) {
            None => {
                first.insert(o.to_string(), x);
            }
            Some(y) => {
                let b = y.res.as_ref().unwrap();
                cx.check(a == b, "presentation", || format!(
                    "{}: {:?} for edges {:?}, but {:?} for edges {:?}", o, a, graphs[x.g].raw, b, graphs[y.g].raw));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C13

fn gen_c13(rng: &mut Rng) -> Value {
    let kind = *rng.pick(&[Kind::Any, Kind::Symmetric, Kind::Placed]);
    gen_history(rng, &Mode {
        kind, own: &[("seqs", 1)], light: 3, heavy: if kind == Kind::Symmetric { 2 } else { 1 },
        misuse: 25, cancel: 45, max_ops: 8,
    })
}

fn exec_c13(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (graphs, tasks, plan) = parse(scn)?;
    let recs = run(cx, &graphs, &tasks, &plan);
    let refs = refs(&graphs);
    overall(cx, &refs, &recs);
    // the same queries, each on a graph of its own
    let mut todo: BTreeMap<String, (usize, Value)> = BTreeMap::new();
    for x in recs.iter().filter(|x| !matches!(x.res, Err(Abandon::Cancelled))) {
        let mut o = without_cancel(&x.op);
        o["g"] = json!(x.g);
        todo.insert(o.to_string(), (x.g, o));
    }
    let fresh: Mutex<BTreeMap<String, Res>> = Mutex::new(BTreeMap::new());
    {
        let (fresh, todo, graphs) = (&fresh, &todo, &graphs);
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |_| {
            for (k, (g, o)) in todo {
                let mut out = vec![];
                let s = match build(&graphs[*g].label, graphs[*g].dim, &graphs[*g].raw) {
                    Ok(s) => s,
                    Err(_) => continue,
                };
                if o["op"] == "step" {
                    let mut q = o.clone();
                    q["op"] = json!("seq");
                    s.run(&q, &mut out);
                    if let Some((_, Ok(Ans::Nums(n)))) = out.first().cloned_res() {
                        out = vec![(o.clone(), Ok(Ans::Nums(n[n.len().saturating_sub(1)..].to_vec())))];
                    }
                } else {
                    s.run(o, &mut out);
                }
                if let Some((_, r)) = out.pop() {
                    fresh.lock().unwrap().insert(k.clone(), r);
                }
            }
        });
        run_tasks(0, &vec![], vec![(scn["key"].as_u64().unwrap_or(1) ^ 0x5555, body)]);
    }
    let fresh = fresh.into_inner().unwrap();
    for x in &recs {
        let mut o = without_cancel(&x.op);
        o["g"] = json!(x.g);
        let Some(f) = fresh.get(&o.to_string()) else { continue };
        let what = |got: &str| format!("{} by thread {} on graph {:?}: {}, on a fresh graph: {}",
            x.op, x.task, graphs[x.g].raw, got, brief(f));
        match (&x.res, f) {
            (Err(Abandon::Cancelled), _) | (Err(Abandon::Budget(_)), _) => {}
            (_, Err(Abandon::Budget(b))) => {
                cx.violation("runs-on", format!("{} on {:?}: too many {}", x.op, graphs[x.g].raw, b));
            }
            (Ok(a), Ok(b)) => cx.check(a.unordered() == b.unordered(), "differs-from-fresh", || what(&brief(&x.res))),
            (Err(_), Err(_)) => cx.judged(),
            _ => cx.check(false, "differs-from-fresh", || what(&brief(&x.res))),
        }
    }
    Ok(())
}

trait ClonedRes {
    fn cloned_res(self) -> Option<(Value, Result<Ans, ()>)>;
}

impl ClonedRes for Option<&(Value, Res)> {
    fn cloned_res(self) -> Option<(Value, Result<Ans, ()>)> {
        self.map(|(v, r)| (v.clone(), r.as_ref().map(|a| a.clone()).map_err(|_| ())))
    }
}

const RULE: &str = "A run draws one or two graphs (known nets, ladders, supercells, random, unstable, unconnected, \
    rank-deficient and larger ones, and cells far larger than needed), disguises them (numbering, coordinates, cell, order, repetitions), one to three threads \
    with histories of queries on them, each query possibly abandoned at a given label operation or not applicable, the hash \
    seeds of each thread and the schedule of preemptions and hand-overs. A run is non-trivial if it had a fault or scheduling \
    event; two runs are the same if graphs, schedules and all answers are.";
const REAL: &str = "pgraphs, symmetries, partitions, arithmetic (matrices, linear_algebra, geometry, modular_solver), \
    spacegroups::lattices, num-rational, num-bigint, itertools, std collections";
const STUBS: &str = "the caller's label type (shipped label types, wrapped so that every operation is a seam; own types for \
    dimensions 1 and 4; the shipped types themselves in a quarter of the graphs); threads are real but released one at a time; \
    hash seeds come from the scenario";
const ASSUME: &[&str] = &[
    "graphs have no loops with zero shift and shifts of moderate size (sums stay within i32)",
    "a graph is used by one thread at a time, as Rust enforces (it is Send but not Sync)",
    "the reference model in netmodel.rs is right",
];

macro_rules! prop {
    ($id:expr, $gen:expr, $exec:expr, $q:expr, $t:expr) => {
        Prop { id: $id, gen: $gen, exec: $exec, quick_runs: $q, thorough_runs: $t,
            rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME }
    };
}

pub const PROPS: [Prop; 12] = [
    prop!("C10", gen_c10, exec_c10, 25_000, 400_000),
    prop!("C11", gen_c11, exec_c11, 50_000, 400_000),
    prop!("C12", gen_c12, exec_c12, 45_000, 400_000),
    prop!("C13", gen_c13, exec_c13, 12_000, 400_000),
    prop!("C14", gen_c14, exec_c14, 25_000, 400_000),
    prop!("C15", gen_c15, exec_c15, 70_000, 400_000),
    prop!("C16", gen_c16, exec_c16, 25_000, 400_000),
    prop!("C17", gen_c17, exec_c17, 60_000, 400_000),
    prop!("C18", gen_c18, exec_c18, 10_000, 200_000),
    prop!("C19", gen_c19, exec_c19, 9_000, 200_000),
    prop!("C20", gen_c20, exec_c20, 24_000, 200_000),
    prop!("C34", gen_c34, exec_c34, 10_000, 200_000),
];
