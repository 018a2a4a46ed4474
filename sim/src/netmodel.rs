//! Reference model of periodic graphs: slow, direct, and independent of the
//! library (no caches, own arithmetic, exhaustive search for symmetries).

use std::collections::{BTreeMap, BTreeSet, VecDeque};

use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;

use crate::frac::*;

/// Comparable without multiplying anything.
fn key(v: &[Q]) -> Vec<(i128, i128)> {
    v.iter().map(|q| (q.n, q.d)).collect()
}

pub type E = (u32, u32, Vec<i32>);

pub fn reverse(e: &E) -> E {
    (e.1, e.0, e.2.iter().map(|x| -x).collect())
}

/// The canonical direction of an edge: from the lower vertex to the higher,
/// and for loops with the first nonzero coordinate positive.
pub fn canonical(e: &E) -> E {
    let neg = e.2.iter().find(|x| **x != 0).map(|x| *x < 0).unwrap_or(false);
    if e.1 < e.0 || (e.0 == e.1 && neg) { reverse(e) } else { e.clone() }
}

#[derive(Clone, Debug)]
pub struct Net {
    pub dim: usize,
    /// canonical, ascending, without repetitions
    pub edges: Vec<E>,
    pub verts: Vec<u32>,
    pub inc: BTreeMap<u32, Vec<E>>,
    /// canonical edges carrying a loop with zero shift, which no net has
    pub degenerate: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Iso {
    pub vmap: BTreeMap<u32, u32>,
    pub emap: BTreeMap<E, E>,
    pub lin: Vec<Vec<i128>>,
}

#[derive(Clone, Debug)]
pub struct Placement {
    pub pos: BTreeMap<u32, QVec>,
    /// a common denominator of all positions
    pub scale: i128,
}

impl Net {
    pub fn new(dim: usize, raw: &[E]) -> Net {
        let edges: BTreeSet<E> = raw.iter().map(canonical).collect();
        let edges: Vec<E> = edges.into_iter().collect();
        let mut verts = BTreeSet::new();
        let mut inc: BTreeMap<u32, Vec<E>> = BTreeMap::new();
        let mut degenerate = false;
        for e in &edges {
            verts.insert(e.0);
            verts.insert(e.1);
            inc.entry(e.0).or_default().push(e.clone());
            inc.entry(e.1).or_default().push(reverse(e));
            if e.0 == e.1 && e.2.iter().all(|x| *x == 0) {
                degenerate = true;
            }
        }
        Net { dim, edges, verts: verts.into_iter().collect(), inc, degenerate }
    }

    pub fn directed(&self) -> Vec<E> {
        self.inc.values().flatten().cloned().collect()
    }

    /// Vertices of the component, each with the shift along a path to it.
    fn reach(&self, v0: u32) -> BTreeMap<u32, Vec<i64>> {
        let mut s = BTreeMap::from([(v0, vec![0i64; self.dim])]);
        let mut q = vec![v0];
        while let Some(v) = q.pop() {
            for e in &self.inc[&v] {
                if !s.contains_key(&e.1) {
                    let t = (0..self.dim).map(|k| s[&v][k] + e.2[k] as i64).collect();
                    s.insert(e.1, t);
                    q.push(e.1);
                }
            }
        }
        s
    }

    pub fn component(&self, v0: u32) -> BTreeSet<u32> {
        self.reach(v0).into_keys().collect()
    }

    /// (size, rank, index of the cycle lattice if of full rank)
    pub fn measures(&self, v0: u32) -> (usize, usize, Option<i128>) {
        let s = self.reach(v0);
        let mut gens = vec![];
        for e in &self.edges {
            if let (Some(a), Some(b)) = (s.get(&e.0), s.get(&e.1)) {
                gens.push((0..self.dim).map(|k| Q::int(a[k] + e.2[k] as i64 - b[k])).collect::<QVec>());
            }
        }
        let h = lattice_hnf(&gens);
        let rank = h.len();
        let mult = if rank == self.dim {
            Some((0..rank).fold(Q::ONE, |p, i| p * h[i][i]).n)
        } else {
            None
        };
        (s.len(), rank, mult)
    }

    pub fn quotient_connected(&self) -> bool {
        self.verts.first().map(|v| self.reach(*v).len() == self.verts.len()).unwrap_or(true)
    }

    pub fn connected(&self) -> bool {
        match self.verts.first() {
            None => true,
            Some(v) => {
                let (n, _, m) = self.measures(*v);
                n == self.verts.len() && m == Some(1)
            }
        }
    }

    /// Barycentric placement by fraction-free elimination; quotient must be
    /// connected. None if the numbers are too large for the reference.
    pub fn placement(&self) -> Option<Placement> {
        let n = self.verts.len();
        let d = self.dim;
        let idx: BTreeMap<u32, usize> = self.verts.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut a: Vec<Vec<BigInt>> = vec![];
        for (i, v) in self.verts.iter().enumerate() {
            let mut r = vec![0i64; n + d];
            if i == 0 {
                r[0] = 1;
            } else {
                for e in &self.inc[v] {
                    r[i] += 1;
                    r[idx[&e.1]] -= 1;
                    for k in 0..d {
                        r[n + k] += e.2[k] as i64;
                    }
                }
            }
            a.push(r.into_iter().map(BigInt::from).collect());
        }
        let mut prev = BigInt::from(1);
        for k in 0..n {
            let p = (k..n).find(|&i| !a[i][k].is_zero()).expect("reference placement: singular system");
            a.swap(p, k);
            let piv = a[k].clone();
            for i in 0..n {
                if i != k {
                    let f = a[i][k].clone();
                    for j in 0..n + d {
                        if j > k || j == i {
                            a[i][j] = (&a[i][j] * &piv[k] - &f * &piv[j]) / &prev;
                        }
                    }
                    a[i][k] = BigInt::zero();
                }
            }
            prev = piv[k].clone();
        }
        let mut pos = BTreeMap::new();
        let mut scale: i128 = 1;
        for i in 0..n {
            let mut p = vec![];
            for j in n..n + d {
                let x = Q::from_big(&BigRational::new(a[i][j].clone(), a[i][i].clone()))?;
                if x.n.abs() > 1 << 90 || x.d > 1 << 90 {
                    return None;
                }
                scale = scale.checked_mul(x.d / gcd(scale, x.d))?;
                p.push(x);
            }
            pos.insert(self.verts[i], p);
        }
        if scale > 1 << 100 {
            return None;
        }
        Some(Placement { pos, scale })
    }

    /// The vector of a directed edge.
    pub fn vector(&self, p: &Placement, e: &E) -> QVec {
        (0..self.dim).map(|k| p.pos[&e.1][k] + Q::int(e.2[k] as i64) - p.pos[&e.0][k]).collect()
    }

    /// All edge vectors times `scale`.
    fn scaled(&self, p: &Placement, scale: i128) -> BTreeMap<E, Vec<i128>> {
        self.directed().into_iter().map(|e| {
            let w = self.vector(p, &e).iter().map(|x| (*x * Q { n: scale, d: 1 }).n).collect();
            (e, w)
        }).collect()
    }

    pub fn is_stable(&self, p: &Placement) -> bool {
        let mut seen = BTreeSet::new();
        p.pos.values().all(|x| seen.insert(x.iter().map(|q| q.frac()).map(|q| (q.n, q.d)).collect::<Vec<_>>()))
    }

    pub fn is_locally_stable(&self, p: &Placement) -> bool {
        self.inc.values().all(|es| {
            let mut seen = BTreeSet::new();
            es.iter().all(|e| seen.insert(key(&self.vector(p, e))))
        })
    }

    pub fn second_order_collisions(&self, p: &Placement) -> bool {
        let mut seen = BTreeSet::new();
        self.verts.iter().any(|v| {
            let mut ds: Vec<_> = self.inc[v].iter().map(|e| key(&self.vector(p, e))).collect();
            ds.sort();
            let x: Vec<_> = p.pos[v].iter().map(|q| q.frac()).map(|q| (q.n, q.d)).collect();
            !seen.insert((x, ds))
        })
    }

    /// Sizes of the first k shells around v in the infinite net.
    pub fn shells(&self, v: u32, k: usize) -> Vec<usize> {
        let mut seen: BTreeSet<(u32, Vec<i32>)> = BTreeSet::new();
        let mut front = vec![(v, vec![0; self.dim])];
        seen.insert(front[0].clone());
        let mut out = vec![];
        for _ in 0..k {
            let mut next = vec![];
            for (v, s) in &front {
                for e in &self.inc[v] {
                    let w = (e.1, (0..self.dim).map(|i| s[i] + e.2[i]).collect::<Vec<_>>());
                    if seen.insert(w.clone()) {
                        next.push(w);
                    }
                }
            }
            out.push(next.len());
            front = next;
        }
        out
    }

    /// The isomorphism with the given linear part that takes v to w, if any;
    /// both graphs connected, the image locally stable.
    fn extend_iso(&self, gv: &BTreeMap<E, Vec<i128>>, h: &Net, hl: &BTreeMap<(u32, Vec<i128>), E>,
        lin: &[Vec<i128>], v: u32, w: u32) -> Option<Iso>
    {
        let mut vmap = BTreeMap::from([(v, w)]);
        let mut emap = BTreeMap::new();
        let mut q = VecDeque::from([v]);
        while let Some(a) = q.pop_front() {
            let b = vmap[&a];
            if self.inc[&a].len() != h.inc[&b].len() {
                return None;
            }
            for e in &self.inc[&a] {
                let img = apply(lin, &gv[e]);
                let f = hl.get(&(b, img))?;
                match vmap.get(&e.1) {
                    None => {
                        vmap.insert(e.1, f.1);
                        q.push_back(e.1);
                    }
                    Some(t) if *t != f.1 => return None,
                    _ => {}
                }
                emap.insert(e.clone(), f.clone());
            }
        }
        let imgs: BTreeSet<_> = vmap.values().collect();
        if imgs.len() != vmap.len() || vmap.len() != h.verts.len() {
            return None;
        }
        for (e, f) in &emap {
            if emap[&reverse(e)] != reverse(f) {
                return None;
            }
        }
        Some(Iso { vmap, emap, lin: lin.to_vec() })
    }

    /// All isomorphisms of nets from self to h, modulo lattice translations.
    /// Both must be connected, locally stable and of full rank.
    pub fn isomorphisms(&self, p: &Placement, h: &Net, hp: &Placement, first_only: bool) -> Vec<Iso> {
        let d = self.dim;
        if self.verts.len() != h.verts.len() || self.edges.len() != h.edges.len() || d != h.dim {
            return vec![];
        }
        // bring both to the same scale
        let l = lcm(p.scale, hp.scale);
        let gv = self.scaled(p, l);
        let hv = h.scaled(hp, l);

        // distinct vectors with the number of edges that have them
        let mut gvecs: BTreeMap<Vec<i128>, usize> = BTreeMap::new();
        for v in gv.values() {
            *gvecs.entry(v.clone()).or_default() += 1;
        }
        let mut hvecs: BTreeMap<Vec<i128>, usize> = BTreeMap::new();
        for v in hv.values() {
            *hvecs.entry(v.clone()).or_default() += 1;
        }
        if gvecs.len() != hvecs.len() {
            return vec![];
        }
        let mut lookup = BTreeMap::new();
        for (e, v) in &hv {
            lookup.insert((e.0, v.clone()), e.clone());
        }

        // a basis among the vectors, preferring rare ones
        let mut cand: Vec<(usize, Vec<i128>)> = gvecs.iter().map(|(v, c)| (*c, v.clone())).collect();
        cand.sort();
        let mut basis: Vec<(usize, Vec<i128>)> = vec![];
        for c in cand {
            let mut rows: QMat = basis.iter().map(|b| to_q(&b.1)).collect();
            rows.push(to_q(&c.1));
            if rref(&rows).len() == rows.len() {
                basis.push(c);
            }
            if basis.len() == d {
                break;
            }
        }
        if basis.len() < d {
            return vec![];
        }
        let bm: QMat = transpose(&basis.iter().map(|b| to_q(&b.1)).collect());
        let binv = inverse(&bm).unwrap();
        // integer form of the inverse
        let mut bden: i128 = 1;
        for r in &binv {
            for x in r {
                bden = lcm(bden, x.d);
            }
        }
        let binv: Vec<Vec<i128>> = binv.iter()
            .map(|r| r.iter().map(|x| (*x * Q { n: bden, d: 1 }).n).collect()).collect();

        let mut lins: Vec<Vec<Vec<i128>>> = vec![];
        let hlist: Vec<(&Vec<i128>, &usize)> = hvecs.iter().collect();
        let mut choice: Vec<usize> = vec![];
        search(&mut choice, d, &hlist, &basis, &mut |ch| {
            // columns of the image matrix are the chosen vectors
            let mut lin = vec![vec![0i128; d]; d];
            for i in 0..d {
                for j in 0..d {
                    let mut s: i128 = 0;
                    for k in 0..d {
                        s += hlist[ch[k]].0[i] * binv[k][j];
                    }
                    if s % bden != 0 {
                        return;
                    }
                    lin[i][j] = s / bden;
                }
            }
            if det_i(&lin).abs() != 1 {
                return;
            }
            for (v, c) in &gvecs {
                if hvecs.get(&apply(&lin, v)) != Some(c) {
                    return;
                }
            }
            lins.push(lin);
        });
        lins.sort();
        lins.dedup();

        let mut out = vec![];
        let v0 = self.verts[0];
        for lin in &lins {
            for w in &h.verts {
                if let Some(iso) = self.extend_iso(&gv, h, &lookup, lin, v0, *w) {
                    out.push(iso);
                    if first_only {
                        return out;
                    }
                }
            }
        }
        out
    }

    pub fn automorphisms(&self, p: &Placement) -> Vec<Iso> {
        self.isomorphisms(p, self, p, false)
    }

    /// The same net in terms of its full translation lattice; not for ladders.
    pub fn minimal_image(&self, p: &Placement, auts: &[Iso]) -> Net {
        let d = self.dim;
        let id: Vec<Vec<i128>> = (0..d).map(|i| (0..d).map(|j| (i == j) as i128).collect()).collect();
        let v0 = self.verts[0];
        let trans: Vec<&Iso> = auts.iter().filter(|a| a.lin == id).collect();
        let mut gens: QMat = identity(d);
        for t in &trans {
            let w = t.vmap[&v0];
            gens.push((0..d).map(|k| p.pos[&w][k] - p.pos[&v0][k]).collect());
        }
        let basis = lattice_hnf(&gens);
        let to_new = inverse(&transpose(&basis)).unwrap();
        let mut rep: BTreeMap<u32, u32> = BTreeMap::new();
        for v in &self.verts {
            let r = trans.iter().map(|t| t.vmap[v]).min().unwrap();
            rep.insert(*v, r);
        }
        let mut edges = vec![];
        for e in &self.edges {
            let (h, t) = (rep[&e.0], rep[&e.1]);
            let w = self.vector(p, e);
            let v: QVec = (0..d).map(|k| {
                w[k] - (p.pos[&t][k] - p.pos[&h][k])
            }).collect();
            let s: Vec<i32> = mat_vec(&to_new, &v).iter().map(|x| {
                assert!(x.is_int(), "reference minimal image: not integral");
                x.n as i32
            }).collect();
            edges.push((h, t, s));
        }
        Net::new(d, &edges)
    }
}

fn search(ch: &mut Vec<usize>, d: usize, hl: &[(&Vec<i128>, &usize)], basis: &[(usize, Vec<i128>)],
    f: &mut dyn FnMut(&[usize]))
{
    if ch.len() == d {
        f(ch);
        return;
    }
    for i in 0..hl.len() {
        if *hl[i].1 == basis[ch.len()].0 && !ch.contains(&i) {
            ch.push(i);
            search(ch, d, hl, basis, f);
            ch.pop();
        }
    }
}

pub fn lcm(a: i128, b: i128) -> i128 {
    let (mut x, mut y) = (a, b);
    while y != 0 {
        (x, y) = (y, x % y);
    }
    a / x * b
}

fn to_q(v: &[i128]) -> QVec {
    v.iter().map(|x| Q { n: *x, d: 1 }).collect()
}

pub fn apply(m: &[Vec<i128>], v: &[i128]) -> Vec<i128> {
    m.iter().map(|r| r.iter().zip(v).map(|(a, b)| a * b).sum()).collect()
}

pub fn det_i(m: &[Vec<i128>]) -> i128 {
    det(&m.iter().map(|r| to_q(r)).collect()).n
}
