//! Draws periodic graphs: known nets, ladders, random ones, and ways of
//! presenting them differently.

use std::collections::{BTreeMap, BTreeSet};

use crate::netmodel::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Spec {
    pub dim: usize,
    pub edges: Vec<E>,
}

fn spec(dim: usize, raw: &[&[i32]]) -> Spec {
    Spec { dim, edges: raw.iter().map(|r| (r[0] as u32, r[1] as u32, r[2..].to_vec())).collect() }
}

/// Connected, locally stable nets with many symmetries.
pub fn known(i: usize) -> Spec {
    match i {
        0 => spec(2, &[&[1, 1, 1, 0], &[1, 1, 0, 1]]),                            // sql
        1 => spec(2, &[&[1, 2, 0, 0], &[1, 2, 1, 0], &[1, 2, 0, 1]]),             // hcb
        2 => spec(2, &[&[1, 1, 1, 0], &[1, 1, 0, 1], &[1, 1, 1, 1]]),             // hxl
        3 => spec(2, &[&[1, 2, 0, 0], &[1, 3, 0, 0], &[2, 3, 0, 0],
            &[1, 2, 1, 0], &[1, 3, 0, 1], &[2, 3, -1, 1]]),                       // kgm
        4 => spec(3, &[&[1, 1, 1, 0, 0], &[1, 1, 0, 1, 0], &[1, 1, 0, 0, 1]]),    // pcu
        5 => spec(3, &[&[1, 2, 0, 0, 0], &[1, 2, 1, 0, 0], &[1, 2, 0, 1, 0], &[1, 2, 0, 0, 1]]), // dia
        6 => spec(3, &[&[1, 2, 0, 0, 0], &[1, 3, 0, 0, 0], &[1, 4, 0, 0, 0],
            &[2, 3, 1, 0, 0], &[3, 4, 0, 1, 0], &[4, 2, 0, 0, 1]]),               // srs
        7 => spec(3, &[&[1, 2, 0, 0, 0], &[1, 2, 1, 0, 0], &[1, 3, 0, 0, 0],
            &[2, 4, 0, 0, 0], &[3, 4, 0, 1, 0], &[3, 4, 0, 0, 1]]),               // ths
        8 => spec(3, &[&[1, 1, 1, 0, 0], &[1, 1, 0, 1, 0], &[1, 1, 0, 0, 1], &[1, 1, 1, 1, 1]]), // bcu
        9 => spec(1, &[&[1, 1, 1]]),
        10 => spec(1, &[&[1, 2, 0], &[2, 1, 1], &[1, 1, 1]]),
        11 => spec(4, &[&[1, 1, 1, 0, 0, 0], &[1, 1, 0, 1, 0, 0], &[1, 1, 0, 0, 1, 0], &[1, 1, 0, 0, 0, 1]]),
        12 => spec(2, &[&[1, 2, 0, 0], &[2, 3, 0, 0], &[3, 4, 0, 0], &[4, 1, 0, 0],
            &[1, 3, 1, 0], &[2, 4, 0, 1]]),                                       // like fes
        13 => spec(2, &[&[1, 1, 1, 0], &[1, 1, 0, 1], &[1, 2, 0, 0], &[1, 2, 1, 1]]),
        14 => spec(2, &[&[1, 2, 0, 0], &[2, 1, 1, 0], &[2, 3, 0, 0], &[3, 2, 0, 1], &[1, 3, 0, 0], &[1, 3, -1, 1]]),
        15 => spec(3, &[&[1, 2, 0, 0, 0], &[1, 2, 1, 0, 0], &[1, 2, 0, 1, 0], &[1, 2, 0, 0, 1],
            &[1, 1, 1, 0, 0]]),
        _ => spec(3, &[&[1, 1, 1, 0, 0], &[1, 1, 0, 1, 0], &[1, 1, 0, 0, 1],
            &[1, 1, 1, -1, 0], &[1, 1, 0, 1, -1], &[1, 1, 1, 0, -1]]),            // fcu
    }
}

pub fn ladder(i: usize) -> Spec {
    match i {
        0 => spec(2, &[&[1, 1, 1, 0], &[1, 1, 0, 1], &[2, 2, 1, 0], &[2, 2, 0, 1], &[1, 2, 0, 0]]),
        1 => spec(3, &[&[1, 2, 0, 0, 0], &[1, 2, 1, 0, 0], &[1, 2, 0, 1, 0], &[1, 2, 0, 0, 1],
            &[3, 4, 0, 0, 0], &[3, 4, 1, 0, 0], &[3, 4, 0, 1, 0], &[3, 4, 0, 0, 1],
            &[1, 3, 0, 0, 0], &[2, 4, 0, 0, 0]]),
        2 => spec(2, &[&[1, 2, 0, 0], &[2, 1, 1, 0], &[1, 1, 0, 1], &[2, 2, 0, 1],
            &[3, 4, 0, 0], &[4, 3, 1, 0], &[3, 3, 0, 1], &[4, 4, 0, 1], &[1, 3, 0, 0], &[2, 4, 0, 0]]),
        // twisted: the two legs are exchanged along one direction
        3 => spec(2, &[&[1, 2, 1, 0], &[2, 1, 1, 0], &[1, 1, 0, 1], &[2, 2, 0, 1], &[1, 2, 0, 0]]),
        4 => spec(1, &[&[1, 1, 1], &[2, 2, 1], &[1, 2, 0]]),
        // as a ladder, but with another rung on one leg only
        5 => spec(2, &[&[1, 1, 1, 0], &[1, 1, 0, 1], &[2, 2, 1, 0], &[2, 2, 0, 1], &[1, 2, 0, 0],
            &[1, 1, 1, 1]]),
        _ => spec(1, &[&[1, 2, 1], &[2, 1, 1], &[1, 2, 0]]),
    }
}

/// Multigraphs whose number of spanning trees is a multiple of 9999991.
const TAU: [&[(u32, u32, i32)]; 4] = [
    &[(0,1,2),(0,2,2),(0,3,1),(0,7,1),(0,8,1),(0,9,2),(1,3,2),(1,5,2),(1,6,1),(1,9,1),(2,3,1),(2,4,3),(2,6,1),
      (2,7,2),(3,5,3),(3,7,1),(4,5,2),(4,6,2),(4,8,1),(4,9,1),(5,8,2),(6,8,1),(6,9,1),(7,8,1),(7,9,2),(8,9,1)],
    &[(0,1,1),(0,2,2),(0,3,2),(0,7,1),(1,3,1),(1,4,2),(1,5,3),(1,6,1),(1,7,1),(1,8,1),(2,3,1),(2,5,1),(2,6,2),
      (2,7,1),(2,8,1),(3,4,1),(3,5,1),(3,6,2),(3,8,2),(4,5,1),(4,6,1),(4,7,2),(4,8,1),(5,6,2),(5,7,2),(5,8,3),(6,8,3)],
    &[(0,4,1),(0,5,1),(0,6,2),(0,9,1),(0,10,1),(1,2,1),(1,6,1),(1,7,1),(1,9,1),(1,10,1),(1,11,1),(2,3,1),(2,10,1),
      (3,4,2),(3,7,1),(3,9,1),(4,6,1),(4,7,1),(4,8,1),(4,10,1),(5,6,1),(5,7,1),(5,9,3),(5,10,2),(6,9,1),(7,10,1),
      (7,11,1),(8,10,1),(8,11,1)],
    &[(0,1,1),(0,4,2),(0,5,1),(0,6,2),(0,7,1),(0,8,1),(0,9,1),(1,2,1),(1,5,1),(1,6,1),(1,8,1),(1,9,2),(1,10,2),
      (2,5,1),(2,6,2),(3,5,1),(3,6,2),(3,8,1),(3,9,1),(4,5,1),(4,9,2),(4,10,1),(5,6,2),(7,9,1),(7,10,1),(8,9,2),(8,10,1)],
];

pub fn tau(rng: &mut Rng) -> Spec {
    let dim = 2 + rng.below(2);
    let mut edges = vec![];
    for &(a, b, m) in *rng.pick(&TAU) {
        let mut used = BTreeSet::new();
        while used.len() < m as usize {
            let s = small(rng, dim, 1);
            if used.insert(s.clone()) {
                edges.push((a + 1, b + 1, s));
            }
        }
    }
    Spec { dim, edges }
}

pub fn small(rng: &mut Rng, dim: usize, r: i64) -> Vec<i32> {
    (0..dim).map(|_| if rng.chance(45) { 0 } else { rng.range(-r, r) as i32 }).collect()
}

/// n vertices 1..=n, a random spanning tree and `extra` further edges.
pub fn random(rng: &mut Rng, dim: usize, n: usize, extra: usize) -> Spec {
    let mut edges: Vec<E> = vec![];
    let r = *rng.pick(&[1, 1, 1, 2, 3]);
    let chain = rng.chance(15);
    for v in 2..=n as u32 {
        let u = if chain { v - 1 } else { 1 + rng.below(v as usize - 1) as u32 };
        let s = if rng.chance(60) { vec![0; dim] } else { small(rng, dim, r) };
        edges.push((u, v, s));
    }
    for _ in 0..extra {
        let (u, v) = (1 + rng.below(n) as u32, 1 + rng.below(n) as u32);
        edges.push((u, v, small(rng, dim, r)));
    }
    edges.retain(|e| e.0 != e.1 || e.2.iter().any(|x| *x != 0));
    Spec { dim, edges }
}

/// A further vertex with the neighbours of an old one, in the same place.
pub fn add_twin(rng: &mut Rng, s: &mut Spec) {
    let net = Net::new(s.dim, &s.edges);
    if net.verts.is_empty() {
        return;
    }
    let v = *rng.pick(&net.verts);
    let new = net.verts.last().unwrap() + 1;
    let x = small(rng, s.dim, 1);
    for e in &net.inc[&v] {
        if e.1 != v {
            let t = (0..s.dim).map(|k| e.2[k] - x[k]).collect();
            s.edges.push((new, e.1, t));
        }
    }
}

/// Further edges beside old ones, but to cells further away.
pub fn add_far(rng: &mut Rng, s: &mut Spec) {
    for _ in 0..1 + rng.below(3) {
        if s.edges.is_empty() {
            return;
        }
        let (u, v, mut t) = rng.pick(&s.edges).clone();
        let k = rng.below(s.dim);
        t[k] += *rng.pick(&[1, -1]) * *rng.pick(&[2, 3, 4, 8, 8, 10, 16, 16, 32, 64, 100]);
        if u != v || t.iter().any(|x| *x != 0) {
            s.edges.push((u, v, t));
        }
    }
}

/// Splits every edge in two.
pub fn subdivide(s: &Spec) -> Spec {
    let mut next = s.edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0) + 1;
    let mut edges = vec![];
    for e in &s.edges {
        edges.push((e.0, next, vec![0; s.dim]));
        edges.push((next, e.1, e.2.clone()));
        next += 1;
    }
    Spec { dim: s.dim, edges }
}

pub fn supercell(rng: &mut Rng, s: &Spec, index: usize) -> Spec {
    // rows in Hermite form with the given determinant
    let d = s.dim;
    let mut diag = vec![1i32; d];
    let mut m = index as i32;
    let mut p = 2;
    while m > 1 {
        if m % p == 0 {
            diag[rng.below(d)] *= p;
            m /= p;
        } else {
            p += 1;
        }
    }
    let mut rows = vec![vec![0i32; d]; d];
    for i in 0..d {
        rows[i][i] = diag[i];
        for j in i + 1..d {
            rows[i][j] = rng.below(diag[j] as usize) as i32;
        }
    }
    in_cell(s, &rows)
}

/// The net described with the lattice spanned by the given rows, which are in Hermite form.
fn in_cell(s: &Spec, rows: &[Vec<i32>]) -> Spec {
    let d = s.dim;
    let diag: Vec<i32> = (0..d).map(|i| rows[i][i]).collect();
    // x = c + sum k_i rows_i with 0 <= c_i < diag_i
    let reduce = |x: &[i32]| -> (Vec<i32>, Vec<i32>) {
        let mut c = x.to_vec();
        let mut k = vec![0; d];
        for i in 0..d {
            k[i] = c[i].div_euclid(diag[i]);
            for j in 0..d {
                c[j] -= k[i] * rows[i][j];
            }
        }
        (c, k)
    };
    let mut cosets = vec![vec![]];
    for i in 0..d {
        cosets = cosets.iter().flat_map(|c: &Vec<i32>| (0..diag[i]).map(|x| {
            let mut c = c.clone();
            c.push(x);
            c
        }).collect::<Vec<_>>()).collect();
    }
    let idx: BTreeMap<Vec<i32>, u32> = cosets.iter().cloned().zip(0..).collect();
    let n = cosets.len() as u32;
    let mut edges = vec![];
    for e in &s.edges {
        for c in &cosets {
            let x: Vec<i32> = (0..d).map(|i| c[i] + e.2[i]).collect();
            let (c2, k) = reduce(&x);
            edges.push((e.0 * n + idx[c], e.1 * n + idx[&c2], k));
        }
    }
    Spec { dim: d, edges }
}

/// A small net in a cell many times too large, with at least 17 images of each vertex.
pub fn wide(rng: &mut Rng) -> Spec {
    let base = known(*rng.pick(&[0, 0, 0, 1, 2, 4, 9, 10, 13]));
    let room = if base.dim == 3 { 27 } else { 36 };
    let index = 17 + rng.below(room - 16);
    if rng.chance(30) {
        // the smallest cell is that of the net with some more edges
        let part = 2 + rng.below(2);
        let mut s = supercell(rng, &base, part);
        let (v, w) = (s.edges[0].0, rng.pick(&s.edges).1);
        s.edges.push((v, w, small(rng, base.dim, 2)));
        let s = supercell(rng, &s, index / part + 1);
        let net = Net::new(s.dim, &s.edges);
        if !net.degenerate && net.placement().map_or(false, |p| p.scale < 1_000_000 && net.is_locally_stable(&p)) {
            return s;
        }
    }
    supercell(rng, &base, index)
}

/// A net with many hundred symmetries: a large cell with all the symmetry of the lattice.
pub fn rich(rng: &mut Rng) -> Spec {
    if rng.chance(25) {
        let s = flat_stars(rng, 5);
        let net = Net::new(s.dim, &s.edges);
        if net.placement().map_or(false, |p| net.is_locally_stable(&p)) && cost(&net) < 6000 {
            return s;
        }
    }
    let base = known(*rng.pick(&[0, 1, 2, 3, 4, 4, 5]));
    let square = |n: i32| -> Vec<Vec<i32>> {
        (0..base.dim).map(|i| (0..base.dim).map(|j| if i == j { n } else { 0 }).collect()).collect()
    };
    let rows = if base.dim == 2 {
        square(3 + rng.below(2) as i32)
    } else if base.edges.len() == 3 && rng.chance(60) {
        vec![vec![2, 0, 2], vec![0, 2, 2], vec![0, 0, 4]]
    } else {
        square(2)
    };
    in_cell(&base, &rows)
}

pub fn gauge(rng: &mut Rng, s: &mut Spec, r: i64) {
    let mut x: BTreeMap<u32, Vec<i32>> = BTreeMap::new();
    for e in &s.edges {
        for v in [e.0, e.1] {
            if !x.contains_key(&v) {
                x.insert(v, small(rng, s.dim, r));
            }
        }
    }
    for e in s.edges.iter_mut() {
        for k in 0..s.dim {
            e.2[k] += x[&e.1][k] - x[&e.0][k];
        }
    }
}

pub fn unimodular(rng: &mut Rng, s: &mut Spec, steps: usize) {
    skew(rng, s, steps, 9)
}

/// A unimodular change of basis that keeps shifts within the bound.
fn skew(rng: &mut Rng, s: &mut Spec, steps: usize, bound: i32) {
    for _ in 0..steps {
        let old = s.edges.clone();
        let i = rng.below(s.dim);
        let j = rng.below(s.dim);
        let f = *rng.pick(&[-1, 1, 1, -1, 2]);
        for e in s.edges.iter_mut() {
            if i != j {
                e.2[i] += f * e.2[j];
            } else {
                e.2[i] = -e.2[i];
            }
        }
        if s.edges.iter().any(|e| e.2.iter().any(|x| x.abs() > bound)) {
            s.edges = old;
        }
    }
}

pub fn relabel(rng: &mut Rng, s: &mut Spec) {
    let net = Net::new(s.dim, &s.edges);
    let style = rng.below(4);
    let mut labels: Vec<u32> = vec![];
    while labels.len() < net.verts.len() {
        let l = match style {
            0 => labels.len() as u32 + 1,
            1 => labels.len() as u32,
            2 => rng.log2(20) as u32,
            _ => (rng.next() >> 32) as u32,
        };
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    if rng.chance(8) && !labels.is_empty() {
        // the limits of the type
        let top = *rng.pick(&[u32::MAX, u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff]);
        if !labels.contains(&top) {
            labels[0] = top;
        }
    }
    rng.shuffle(&mut labels);
    let m: BTreeMap<u32, u32> = net.verts.iter().cloned().zip(labels).collect();
    for e in s.edges.iter_mut() {
        e.0 = m[&e.0];
        e.1 = m[&e.1];
    }
}

/// Order, repetitions and directions: no influence on anything.
pub fn present(rng: &mut Rng, edges: &[E]) -> Vec<E> {
    let mut out: Vec<E> = vec![];
    for e in edges {
        out.push(if rng.chance(50) { reverse(e) } else { e.clone() });
        while rng.chance(12) {
            out.push(if rng.chance(50) { reverse(e) } else { e.clone() });
        }
    }
    if rng.chance(85) {
        rng.shuffle(&mut out);
    }
    out
}

fn joined(a: &Spec, b: &Spec) -> Spec {
    let off = a.edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0) + 1;
    let mut edges = a.edges.clone();
    edges.extend(b.edges.iter().map(|e| (e.0 + off, e.1 + off, e.2.clone())));
    Spec { dim: a.dim, edges }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// connected, locally stable, small, full rank
    Symmetric,
    /// any small graph
    Any,
    /// any graph with a connected quotient
    Placed,
}

type Op = (Vec<Vec<i32>>, Vec<i32>);

/// Generators of space groups, with shifts in twelfths.
fn generators(i: usize) -> (usize, Vec<Op>) {
    let m = |r: &[&[i32]], t: &[i32]| -> Op { (r.iter().map(|x| x.to_vec()).collect(), t.to_vec()) };
    let cyc = m(&[&[0, 0, 1], &[1, 0, 0], &[0, 1, 0]], &[0, 0, 0]);
    let inv = m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, -1]], &[0, 0, 0]);
    match i {
        0 => (2, vec![m(&[&[0, -1], &[1, 0]], &[0, 0])]),                                  // p4
        1 => (2, vec![m(&[&[0, -1], &[1, 0]], &[0, 0]), m(&[&[0, 1], &[1, 0]], &[0, 0])]), // p4mm
        2 => (2, vec![m(&[&[0, -1], &[1, 0]], &[0, 0]), m(&[&[-1, 0], &[0, 1]], &[6, 6])]), // p4gm
        3 => (2, vec![m(&[&[1, -1], &[1, 0]], &[0, 0])]),                                  // p6
        4 => (2, vec![m(&[&[1, -1], &[1, 0]], &[0, 0]), m(&[&[0, 1], &[1, 0]], &[0, 0])]), // p6mm
        5 => (2, vec![m(&[&[0, -1], &[1, -1]], &[0, 0])]),                                 // p3
        6 => (2, vec![m(&[&[-1, 0], &[0, 1]], &[6, 6]), m(&[&[-1, 0], &[0, -1]], &[0, 0])]), // p2gg
        7 => (2, vec![m(&[&[0, 1], &[1, 0]], &[0, 0]), m(&[&[-1, 0], &[0, -1]], &[0, 0])]), // c2mm
        8 => (3, vec![cyc, m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[0, 0, 0])]),       // P23
        9 => (3, vec![cyc, m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[6, 0, 6])]),       // P213
        10 => (3, vec![cyc, m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[0, 0, 0]), inv]), // Pm-3
        11 => (3, vec![cyc, m(&[&[0, 1, 0], &[1, 0, 0], &[0, 0, -1]], &[0, 0, 0]),
            m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[0, 0, 0])]),                      // P432
        12 => (3, vec![cyc, m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[6, 0, 6]),
            m(&[&[0, 1, 0], &[1, 0, 0], &[0, 0, -1]], &[3, 9, 9])]),                       // P4(3)32
        13 => (3, vec![m(&[&[0, -1, 0], &[1, 0, 0], &[0, 0, 1]], &[0, 0, 3])]),            // P4(1)
        14 => (3, vec![m(&[&[0, -1, 0], &[1, 0, 0], &[0, 0, 1]], &[0, 0, 6]),
            m(&[&[1, 0, 0], &[0, -1, 0], &[0, 0, -1]], &[0, 0, 0])]),                      // P4(2)22
        15 => (3, vec![m(&[&[0, -1, 0], &[1, -1, 0], &[0, 0, 1]], &[0, 0, 4])]),           // P3(1)
        16 => (3, vec![m(&[&[0, -1, 0], &[1, -1, 0], &[0, 0, 1]], &[0, 0, 0]), inv]),      // P-3
        17 => (3, vec![m(&[&[1, -1, 0], &[1, 0, 0], &[0, 0, 1]], &[0, 0, 6]),
            m(&[&[0, 1, 0], &[1, 0, 0], &[0, 0, -1]], &[0, 0, 0])]),                       // P6(3)22
        18 => (3, vec![m(&[&[-1, 0, 0], &[0, -1, 0], &[0, 0, 1]], &[6, 0, 6]),
            m(&[&[-1, 0, 0], &[0, 1, 0], &[0, 0, -1]], &[0, 6, 6])]),                      // P212121
        _ => (3, vec![cyc]),                                                               // R3
    }
}

/// A net made of a few edges and all their images under a space group.
fn orbit_net(rng: &mut Rng) -> Spec {
    const N: i32 = 12;
    let i = rng.below(20);
    let (d, gens) = generators(i);
    let reduced = |t: &[i32]| -> Vec<i32> { t.iter().map(|x| x.rem_euclid(N)).collect() };
    let apply = |g: &Op, p: &[i32]| -> Vec<i32> {
        (0..d).map(|i| (0..d).map(|j| g.0[i][j] * p[j]).sum::<i32>() + g.1[i]).collect()
    };
    let id: Op = ((0..d).map(|i| (0..d).map(|j| (i == j) as i32).collect()).collect(), vec![0; d]);
    let mut ops = vec![id];
    let mut k = 0;
    while k < ops.len() {
        for g in &gens {
            let a = &ops[k];
            let lin: Vec<Vec<i32>> = (0..d).map(|i| (0..d).map(|j| {
                (0..d).map(|l| a.0[i][l] * g.0[l][j]).sum()
            }).collect()).collect();
            let op = (lin, reduced(&apply(a, &g.1)));
            if !ops.contains(&op) {
                ops.push(op);
            }
        }
        k += 1;
    }
    let np = 1 + rng.below(2);
    let points: Vec<Vec<i32>> = (0..np).map(|_| {
        let f = *rng.pick(&[1, 2, 3, 4, 6, 6]);
        (0..d).map(|_| f * rng.below(12) as i32 % N).collect()
    }).collect();
    let mut ids: BTreeMap<Vec<i32>, u32> = BTreeMap::new();
    let mut edges = BTreeSet::new();
    for _ in 0..1 + rng.below(3) {
        let p = rng.pick(&points).clone();
        let q = rng.pick(&points).clone();
        let g = &ops[rng.below(ops.len())];
        let q: Vec<i32> = apply(g, &q).iter().map(|x| x.rem_euclid(N) + N * (rng.below(3) as i32 - 1)).collect();
        for h in &ops {
            let (a, b) = (apply(h, &p), apply(h, &q));
            let mut end = |x: &[i32]| {
                let n = ids.len() as u32 + 1;
                *ids.entry(reduced(x)).or_insert(n)
            };
            let (va, vb) = (end(&a), end(&b));
            let s = |x: &[i32]| -> Vec<i32> { x.iter().map(|x| x.div_euclid(N)).collect() };
            let shift: Vec<i32> = s(&b).iter().zip(s(&a)).map(|(x, y)| x - y).collect();
            if va == vb && shift.iter().all(|x| *x == 0) {
                continue;
            }
            let back: Vec<i32> = shift.iter().map(|x| -x).collect();
            edges.insert(std::cmp::min((va, vb, shift), (vb, va, back)));
        }
    }
    Spec { dim: d, edges: edges.into_iter().collect() }
}

/// A base net without disguise.
pub fn draw(rng: &mut Rng, kind: Kind) -> Spec {
    usable(|| draw_of(rng, kind))
}

/// Of the dimensions that there are labels for.
pub fn usable(mut draw: impl FnMut() -> Spec) -> Spec {
    loop {
        let s = draw();
        if !cfg!(sim_plain) || s.dim == 2 || s.dim == 3 {
            return s;
        }
    }
}

fn draw_of(rng: &mut Rng, kind: Kind) -> Spec {
    let big = kind == Kind::Symmetric && rng.chance(10);
    loop {
        let mut s = match kind {
            Kind::Symmetric if big => orbit_net(rng),
            Kind::Symmetric => draw_symmetric(rng),
            _ => draw_any(rng, kind),
        };
        if !big && rng.chance(if kind == Kind::Symmetric { 3 } else { 8 }) {
            add_far(rng, &mut s);
        }
        let net = Net::new(s.dim, &s.edges);
        if net.degenerate || net.edges.is_empty() && !rng.chance(10) {
            continue;
        }
        if fits(&net, kind, big) {
            return s;
        }
    }
}

fn fits(net: &Net, kind: Kind, big: bool) -> bool {
    match kind {
        Kind::Symmetric => {
            let (ne, nv, nl) = if big { (100, 48, 4000) } else { (40, 16, 1500) };
            net.connected() && net.directed().len() <= ne && net.verts.len() <= nv
                && !(big && net.verts.len() < 6)
                && match net.placement() {
                    Some(p) => p.scale < 1_000_000 && net.is_locally_stable(&p) && cost(net) < nl,
                    None => false,
                }
        }
        Kind::Placed => !net.edges.is_empty() && net.quotient_connected() && net.placement().is_some(),
        Kind::Any => true,
    }
}

/// A net that has much in common with this one, and may be mistaken for it.
pub fn relative(rng: &mut Rng, s: &Spec, kind: Kind) -> Option<Spec> {
    for _ in 0..20 {
        let mut t = s.clone();
        for _ in 0..1 + rng.below(2) {
            let (n, i, j) = (t.edges.len(), rng.below(t.edges.len().max(1)), rng.below(t.edges.len().max(1)));
            if n == 0 {
                return None;
            }
            match rng.below(5) {
                // other ends, the same degrees
                0 | 1 => {
                    let x = t.edges[i].1;
                    t.edges[i].1 = t.edges[j].1;
                    t.edges[j].1 = x;
                }
                // other shifts, the same ends
                2 => {
                    let x = t.edges[i].2.clone();
                    t.edges[i].2 = t.edges[j].2.clone();
                    t.edges[j].2 = x;
                }
                3 => {
                    let k = rng.below(t.dim);
                    t.edges[i].2[k] += *rng.pick(&[-1, 1]);
                }
                _ => t.edges[i].1 = t.edges[j].0,
            }
        }
        let net = Net::new(t.dim, &t.edges);
        if !net.degenerate && t.edges != s.edges && fits(&net, kind, false) {
            return Some(t);
        }
    }
    None
}

/// About how many edge lists the symmetry search looks at.
pub fn cost(net: &Net) -> usize {
    let choose = |n: usize| -> usize {
        (0..net.dim).map(|i| n.saturating_sub(i)).product()
    };
    let stars: usize = net.inc.values().map(|es| choose(es.len())).sum();
    // with flat stars: chains; with flat chains: everything
    let p = match net.placement() {
        Some(p) => p,
        None => return usize::MAX,
    };
    let rank = |es: &[E]| crate::frac::rref(&es.iter().map(|e| net.vector(&p, e)).collect::<Vec<_>>()).len();
    if net.inc.values().any(|es| rank(es) == net.dim) {
        stars
    } else {
        let dir = net.directed();
        if net.dim == 3 {
            let chains = dir.iter().any(|a| net.inc[&a.1].iter().any(|b| net.inc[&b.1].iter().any(|c| {
                rank(&[a.clone(), b.clone(), c.clone()]) == 3
            })));
            if chains {
                let deg = net.inc.values().map(|e| e.len()).max().unwrap_or(1);
                return dir.len() * deg * deg;
            }
        }
        choose(dir.len())
    }
}

/// A net in space with all edges at any one vertex in a plane, but not in the same plane for all.
fn flat_stars(rng: &mut Rng, most: usize) -> Spec {
    const IN_PLANE: [(i32, i32); 8] = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (2, -1), (1, 2), (1, -2)];
    let n = 2 + rng.below(2);
    // the vertices i and i + 1 are joined along the axis that their planes have in common
    let planes = [(0, 1), (2, 1), (2, *rng.pick(&[0, 0, 1]))];
    let alike = rng.chance(60);
    let mut edges: Vec<E> = vec![];
    let mut last: Vec<usize> = vec![];
    for i in 0..n {
        let loops: Vec<usize> = if alike && i > 0 {
            last.clone()
        } else {
            let mut all: Vec<usize> = (0..IN_PLANE.len()).collect();
            rng.shuffle(&mut all);
            all.truncate(1 + rng.below(most));
            all
        };
        let (a, b) = planes[i];
        for &k in &loops {
            let mut s = vec![0; 3];
            s[a] = IN_PLANE[k].0;
            s[b] = IN_PLANE[k].1;
            edges.push((i as u32 + 1, i as u32 + 1, s));
        }
        last = loops;
        if i + 1 < n {
            let mut s = vec![0; 3];
            s[[1, 2][i]] = 1;
            edges.push((i as u32 + 1, i as u32 + 2, vec![0; 3]));
            edges.push((i as u32 + 1, i as u32 + 2, s));
        }
    }
    Spec { dim: 3, edges }
}

fn draw_symmetric(rng: &mut Rng) -> Spec {
    match rng.weighted(&[30, 18, 14, 20, 6, 40]) {
        0 => {
            let i = *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 0, 1, 3, 5, 11, 15, 16]);
            known(i)
        }
        1 => {
            let i = *rng.pick(&[0, 1, 2, 3, 4, 5, 9, 10, 12, 13, 6, 7]);
            let s = known(i);
            let index = *rng.pick(&[2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 8, 9, 12]);
            let n = s.edges.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().len();
            supercell(rng, &s, if n * index > 26 { 2 } else { index })
        }
        2 => {
            let i = rng.below(7);
            let s = ladder(i);
            let n = s.edges.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>().len();
            let index = *rng.pick(&[2, 2, 3, 4, 5, 6, 8]);
            if rng.chance(35) { supercell(rng, &s, if n * index > 16 { 2 } else { index }) } else { s }
        }
        3 => {
            let dim = 1 + rng.below(3);
            let n = 1 + rng.below(5);
            let e = dim + rng.below(3);
            let mut s = random(rng, dim, n, e);
            if rng.chance(20) {
                add_twin(rng, &mut s);
            }
            if rng.chance(15) {
                s = supercell(rng, &s, 2);
            }
            s
        }
        5 => orbit_net(rng),
        _ => if rng.chance(40) {
            let most = 3;
            flat_stars(rng, most)
        } else {
            let i = *rng.pick(&[6, 7, 1, 5]);
            subdivide(&known(i))
        }
    }
}

fn draw_any(rng: &mut Rng, kind: Kind) -> Spec {
    match rng.weighted(&[30, 40, 10, 14, 6]) {
        0 => draw_symmetric(rng),
        1 => {
            let dim = *rng.pick(&[1, 2, 2, 3, 3, 4]);
            let n = 1 + rng.below(9);
            let x = rng.below(n + 3);
            let mut s = random(rng, dim, n, x);
            for _ in 0..*rng.pick(&[0, 0, 0, 1, 2]) {
                add_twin(rng, &mut s);
            }
            if kind == Kind::Any && rng.chance(25) {
                let n = 1 + rng.below(4);
                let x = rng.below(n + 2);
                let b = random(rng, dim, n, x);
                s = joined(&s, &b);
            }
            if rng.chance(15) {
                s = flat(rng, s);
            }
            if rng.chance(15) {
                let f = if rng.chance(20) { 2 + rng.below(400) as i32 } else { 2 + rng.below(2) as i32 };
                for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                    let k = rng.below(s.dim);
                    if s.edges.iter().any(|e| (e.2[k] * f).abs() > 20_000) {
                        continue;
                    }
                    for e in s.edges.iter_mut() {
                        e.2[k] *= f;
                    }
                }
            }
            if rng.chance(4) {
                s.edges.clear();
            }
            s
        }
        2 => {
            let i = rng.below(17);
            let s = known(i);
            let f = 2 + rng.below(5);
            let t = supercell(rng, &s, f);
            if kind == Kind::Any && rng.chance(50) { joined(&t, &s) } else { t }
        }
        3 => {
            // larger ones
            let dim = *rng.pick(&[1, 2, 3]);
            let n = 10 + rng.below(36);
            let x = rng.below(n);
            let mut s = random(rng, dim, n, x);
            for _ in 0..*rng.pick(&[0, 0, 1, 2]) {
                add_twin(rng, &mut s);
            }
            s
        }
        _ => tau(rng),
    }
}

/// Projects all shifts so that the rank falls short.
fn flat(rng: &mut Rng, mut s: Spec) -> Spec {
    let k = rng.below(s.dim);
    for e in s.edges.iter_mut() {
        e.2[k] = 0;
    }
    s.edges.retain(|e| e.0 != e.1 || e.2.iter().any(|x| *x != 0));
    if rng.chance(60) {
        let n = 1 + rng.below(2);
        unimodular(rng, &mut s, n);
    }
    s
}

/// Another description of the same net (up to isomorphism).
pub fn disguise(rng: &mut Rng, s: &Spec) -> Spec {
    let mut s = s.clone();
    if rng.chance(60) {
        relabel(rng, &mut s);
    }
    if rng.chance(60) {
        let r = *rng.pick(&[1, 1, 2, 4]);
        gauge(rng, &mut s, r);
    }
    if rng.chance(60) {
        let n = 1 + rng.below(4);
        unimodular(rng, &mut s, n);
    }
    if rng.chance(6) {
        // Far-away representatives: large shifts that cancel along closed walks.
        let r = 1i64 << (6 + rng.below(16));
        gauge(rng, &mut s, r);
    } else if rng.chance(4) {
        // A very oblique basis of the lattice.
        let bound = 10i32.pow(2 + rng.below(5) as u32);
        skew(rng, &mut s, 40, bound);
    }
    s
}
