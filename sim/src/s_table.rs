//! Space-group tables: C06 to C08.

use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::{parse_space_group_table, Group, Setting, Tables};
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::{Mutex, OnceLock};

use crate::frac::*;
use crate::iosim::*;
use crate::rng::Rng;
use crate::runner::{harness_error, Cx, Prop};
use crate::sched::run_tasks;
use crate::seam::{self, Abandon};

// -------------------------------------------------------- reference model

/// An operator: rows of the linear part, and the shift.
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub lin: QMat,
    pub shift: QVec,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefSetting {
    pub group: String,
    pub transform: Op,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct RefTable {
    pub settings: BTreeMap<String, RefSetting>,
    pub alias: BTreeMap<String, String>,
    /// name, system, centering, transformation
    pub lookup: Vec<(String, String, String, Op)>,
    /// The text has something on which the format is silent.
    pub unclear: bool,
}

struct Lexer<'a> {
    s: &'a [u8],
    i: usize,
    max_digits: usize,
    overflow: bool,
}

const I32: i128 = i32::MAX as i128;

impl Lexer<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }

    fn blanks(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t')) {
            self.i += 1;
        }
    }

    fn int(&mut self) -> Option<i128> {
        let a = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i == a || self.i - a > self.max_digits {
            return None;
        }
        std::str::from_utf8(&self.s[a..self.i]).ok()?.parse().ok()
    }

    fn axis(&mut self) -> Option<usize> {
        let k = match self.peek()? {
            b'x' => 0,
            b'y' => 1,
            b'z' => 2,
            _ => return None,
        };
        self.i += 1;
        Some(k)
    }

    /// Number, number times axis, or axis.
    fn unsigned(&mut self) -> Option<(Q, Option<usize>)> {
        if let Some(k) = self.axis() {
            return Some((Q::ONE, Some(k)));
        }
        let n = self.int()?;
        let mut q = Q::new(n, 1);
        let back = self.i;
        self.blanks();
        if self.peek() == Some(b'/') {
            self.i += 1;
            self.blanks();
            let d = self.int()?;
            if d == 0 {
                return None;
            }
            q = Q::new(n, d);
        } else {
            self.i = back;
        }
        if self.peek() == Some(b'*') {
            self.i += 1;
            return Some((q, Some(self.axis()?)));
        }
        let back = self.i;
        self.blanks();
        match self.axis() {
            Some(k) => Some((q, Some(k))),
            None => {
                self.i = back;
                Some((q, None))
            }
        }
    }

    fn add(&mut self, a: Q, b: Q) -> Q {
        let mut g = (a.d, b.d);
        while g.1 != 0 {
            g = (g.1, g.0 % g.1);
        }
        let lcm = a.d / g.0 * b.d;
        let (x, y) = (lcm / a.d * a.n, lcm / b.d * b.n);
        if [lcm, x, y, x + y].iter().any(|v| v.abs() > I32) {
            self.overflow = true;
        }
        Q::new(x + y, lcm)
    }

    fn coordinate(&mut self) -> Option<(QVec, Q)> {
        let mut row = vec![Q::ZERO; 3];
        let mut shift = Q::ZERO;
        let mut first = true;
        loop {
            let back = self.i;
            if !first {
                self.blanks();
            }
            let sign = match self.peek() {
                Some(c @ (b'+' | b'-')) => {
                    self.i += 1;
                    self.blanks();
                    Some(c)
                }
                _ if first => None,
                _ => {
                    self.i = back;
                    return Some((row, shift));
                }
            };
            let (mut q, k) = self.unsigned()?;
            if sign == Some(b'-') {
                q = -q;
            }
            match k {
                Some(k) => row[k] = self.add(q, row[k]),
                None => shift = self.add(q, shift),
            }
            first = false;
        }
    }
}

/// Reads an operator; the flag tells that a sum is too big to be sure that
/// the library accepts it.
pub fn ref_operator(s: &str, max_digits: usize) -> Option<(Op, bool)> {
    let mut l = Lexer { s: s.as_bytes(), i: 0, max_digits, overflow: false };
    let mut rows = vec![];
    let mut shift = vec![];
    l.blanks();
    loop {
        let (r, t) = l.coordinate()?;
        rows.push(r);
        shift.push(t);
        l.blanks();
        match l.peek() {
            Some(b',') => {
                l.i += 1;
                l.blanks();
            }
            None => break,
            _ => return None,
        }
    }
    let n = rows.len();
    if n > 3 || rows.iter().any(|r| r[n..].iter().any(|q| !q.is_zero())) {
        return None;
    }
    let lin = rows.into_iter().map(|r| r[..n].to_vec()).collect();
    Some((Op { lin, shift }, l.overflow))
}

fn determinant(op: &Op) -> BigRational {
    let m: Vec<Vec<BigRational>> = op.lin.iter().map(|r| r.iter().map(|q| q.to_big()).collect()).collect();
    match m.len() {
        1 => m[0][0].clone(),
        2 => &m[0][0] * &m[1][1] - &m[0][1] * &m[1][0],
        _ => (0..3).map(|i| {
            let (a, b) = ((i + 1) % 3, (i + 2) % 3);
            &m[0][i] * (&m[1][a] * &m[2][b] - &m[1][b] * &m[2][a])
        }).fold(BigRational::zero(), |s, x| s + x),
    }
}

fn is_identity(op: &Op) -> bool {
    op.lin == identity(op.lin.len()) && op.shift.iter().all(|q| q.is_zero())
}

const SYSTEMS: [&str; 10] = ["oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic",
    "tetragonal", "trigonal", "monoclinic", "triclinic"];
const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];

fn system(s: &str) -> CrystalSystem {
    match s {
        "oblique" => CrystalSystem::Oblique,
        "rectangular" => CrystalSystem::Rectangular,
        "square" => CrystalSystem::Square,
        "hexagonal" => CrystalSystem::Hexagonal,
        "cubic" => CrystalSystem::Cubic,
        "orthorhombic" => CrystalSystem::Orthorhombic,
        "tetragonal" => CrystalSystem::Tetragonal,
        "trigonal" => CrystalSystem::Trigonal,
        "monoclinic" => CrystalSystem::Monoclinic,
        _ => CrystalSystem::Triclinic,
    }
}

fn centering(s: &str) -> Centering {
    match s {
        "p" => Centering::Primitive2d,
        "c" => Centering::Centered2d,
        "P" => Centering::Primitive,
        "F" => Centering::FaceCentered,
        "I" => Centering::BodyCentered,
        "R" => Centering::Rhombohedral,
        "A" => Centering::AFaceCentered,
        "B" => Centering::BFaceCentered,
        _ => Centering::CFaceCentered,
    }
}

/// Reads a whole table, or nothing.
pub fn ref_table(data: &[u8]) -> Option<RefTable> {
    let mut t = RefTable::default();
    let mut canonical = String::new();
    let mut current = String::new();
    let mut lines: Vec<&[u8]> = data.split(|b| *b == b'\n').collect();
    if lines.last().map(|l| l.is_empty()).unwrap_or(false) {
        lines.pop();
    }
    for line in lines {
        // every line must be valid, even if it is a comment
        let line = std::str::from_utf8(line).ok()?;
        let content = line.trim();
        if content.is_empty() || content.starts_with('#') {
            continue;
        }
        if line.starts_with(' ') {
            let (op, over) = ref_operator(content, 9)?;
            t.unclear |= over;
            let s = t.settings.get_mut(&current)?;
            if s.transform.lin.len() != op.lin.len() {
                return None;
            }
            s.ops.push(op);
            continue;
        }
        let f: Vec<&str> = content.split_whitespace().collect();
        let map = |k: usize, t: &mut RefTable| -> Option<Op> {
            let (op, over) = ref_operator(&f.get(k..)?.join(" "), 9)?;
            t.unclear |= over;
            if determinant(&op).is_zero() {
                return None;
            }
            Some(op)
        };
        match &f[0].to_lowercase()[..] {
            "alias" => {
                if f.len() > 3 {
                    t.unclear = true;
                }
                t.alias.insert(f.get(1)?.to_string(), f.get(2)?.to_string());
            }
            "lookup" => {
                let op = map(4, &mut t)?;
                let s = f[2].to_lowercase();
                if !SYSTEMS.contains(&&s[..]) || !CENTERINGS.contains(&f[3]) {
                    return None;
                }
                t.lookup.push((f[1].to_string(), s, f[3].to_string(), op));
            }
            _ => {
                let op = map(1, &mut t)?;
                if is_identity(&op) {
                    canonical = f[0].to_string();
                }
                current = f[0].to_string();
                t.settings.insert(current.clone(), RefSetting {
                    group: canonical.clone(), transform: op, ops: vec![],
                });
            }
        }
    }
    Some(t)
}

// ------------------------------------------------------------ observation

fn op_of<CS: Clone>(m: &AffineMap<BigRational, CS>) -> Result<Op, String> {
    let q = |x: &BigRational| Q::from_big(x).ok_or_else(|| format!("coefficient {}", x));
    let lin = m.linear_matrix().get_rows().iter()
        .map(|r| r.iter().map(q).collect::<Result<QVec, _>>()).collect::<Result<QMat, _>>()?;
    let shift = m.shift().iter().map(q).collect::<Result<QVec, _>>()?;
    Ok(Op { lin, shift })
}

fn after<'a>(l: Option<&'a str>, label: &str) -> Result<&'a str, String> {
    l.and_then(|l| l.strip_prefix(label)).ok_or_else(|| format!("no line {:?} in the printed form", label))
}

fn printed_op(s: &str) -> Result<Op, String> {
    ref_operator(s, 40).map(|x| x.0).ok_or_else(|| format!("the printed operator {:?} cannot be read", s))
}

/// The table as far as it can be observed.
pub fn observe(t: &Tables) -> Result<RefTable, String> {
    let mut out = RefTable::default();
    for (k, e) in &t.settings {
        let s = e.to_string();
        let mut ls = s.lines();
        let name = after(ls.next(), "Setting Name: ")?;
        if name != k {
            return Err(format!("setting {:?} is filed under {:?}", name, k));
        }
        let group = after(ls.next(), "Group name: ")?.to_string();
        let transform = printed_op(after(ls.next(), "Transform: ")?)?;
        after(ls.next(), "Operators:")?;
        let ops = ls.map(printed_op).collect::<Result<Vec<_>, _>>()?;
        out.settings.insert(k.clone(), RefSetting { group, transform, ops });
    }
    out.alias = t.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    for l in &t.lookup {
        let s = l.to_string();
        let mut ls = s.lines();
        let name = after(ls.next(), "Lookup name: ")?.to_string();
        let sys = after(ls.next(), "Crystal system: ")?.to_string();
        let cen = after(ls.next(), "Centering: ")?.to_string();
        let op = printed_op(after(ls.next(), "Transform: ")?)?;
        out.lookup.push((name, sys, cen, op));
    }
    // the same by the programmatic way
    for sys in SYSTEMS {
        for cen in CENTERINGS {
            let got = t.lookup_settings(system(sys), centering(cen));
            let want: Vec<_> = out.lookup.iter().filter(|l| l.1 == sys && l.2 == cen).collect();
            if got.len() != want.len() {
                return Err(format!("lookup_settings({}, {}) gives {} entries, the table has {}",
                    sys, cen, got.len(), want.len()));
            }
            for (g, w) in got.iter().zip(want) {
                let m = op_of(&g.1.forward())?;
                if g.0 != w.0 || m != w.3 {
                    return Err(format!("lookup_settings({}, {}) gives {:?} {:?}, printed is {:?}",
                        sys, cen, g.0, m, w));
                }
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------- generation

fn gen_name(rng: &mut Rng) -> String {
    let base = *rng.pick(&["P1", "p4m", "Fm-3m", "I41/amd:2", "P121", "op1", "X", "x,y", "alia", "aliases",
        "Ð\u{131}", "é", "#x", "lookups", "R3:H", "0", "-x", "\u{feff}P"]);
    let s = if rng.chance(50) { format!("{}_{}", base, rng.below(1000)) } else { base.to_string() };
    if s.starts_with('#') { format!("n{}", s) } else { s }
}

pub fn gen_coeff(rng: &mut Rng, big: bool) -> Q {
    if big && rng.chance(50) {
        let m = *rng.pick(&[9i64, 99, 9999, 999_999_999]);
        let mut x = Q::new(rng.range(-m, m) as i128, rng.range(1, m) as i128);
        if rng.chance(10) {
            x = Q::new(999_999_999, *rng.pick(&[1, 2, 999_999_998]));
        }
        x
    } else {
        Q::new(rng.range(-3, 3) as i128, *rng.pick(&[1, 1, 1, 1, 2, 3, 4, 6, 12]) as i128)
    }
}

pub fn gen_op(rng: &mut Rng, d: usize, big: bool, regular: bool) -> Op {
    loop {
        let mut lin = vec![vec![Q::ZERO; d]; d];
        match rng.below(4) {
            0 => {
                let mut p: Vec<usize> = (0..d).collect();
                rng.shuffle(&mut p);
                for i in 0..d {
                    lin[i][p[i]] = if rng.chance(50) { Q::ONE } else { -Q::ONE };
                }
            }
            1 => lin = identity(d),
            _ => {
                for i in 0..d {
                    for j in 0..d {
                        if rng.chance(60) {
                            lin[i][j] = gen_coeff(rng, big);
                        }
                    }
                }
            }
        }
        let shift = (0..d).map(|_| if rng.chance(50) { gen_coeff(rng, big) } else { Q::ZERO }).collect();
        let op = Op { lin, shift };
        if !regular || !determinant(&op).is_zero() {
            return op;
        }
    }
}

fn opt_blank(rng: &mut Rng) -> &'static str {
    *rng.pick(&["", "", "", " ", "  ", "\t"])
}

/// One of the many ways in which an operator can be written.
fn write_op(rng: &mut Rng, op: &Op, plain: bool) -> String {
    let d = op.lin.len();
    let mut out = String::new();
    for i in 0..d {
        if i > 0 {
            if plain {
                out.push(',');
            } else {
                out.push_str(&format!("{},{}", opt_blank(rng), opt_blank(rng)));
            }
        }
        let mut terms: Vec<(Q, &str)> = vec![];
        for j in 0..d {
            if !op.lin[i][j].is_zero() || rng.chance(3) {
                terms.push((op.lin[i][j], ["x", "y", "z"][j]));
            }
        }
        if !op.shift[i].is_zero() || terms.is_empty() {
            terms.push((op.shift[i], ""));
        }
        if !plain {
            // several terms for the same axis, or for the shift, add up
            if rng.chance(6) {
                let (q, a) = *rng.pick(&terms);
                let r = Q { n: rng.range(-9, 9) as i128, d: 1 };
                if (q - r).n.abs() < 1_000_000_000 {
                    terms.retain(|t| t.1 != a);
                    terms.push((r, a));
                    terms.push((q - r, a));
                }
            }
            rng.shuffle(&mut terms);
        }
        for (k, (q, a)) in terms.iter().enumerate() {
            let neg = q.n < 0;
            if k > 0 || neg || (!plain && rng.chance(10)) {
                let b = if plain { ["", ""] } else { [if k > 0 { opt_blank(rng) } else { "" }, opt_blank(rng)] };
                out.push_str(&format!("{}{}{}", b[0], if neg { '-' } else { '+' }, b[1]));
            }
            let q = if neg { -*q } else { *q };
            if a.is_empty() || q != Q::ONE || rng.chance(10) {
                if q.d == 1 && !rng.chance(5) {
                    out.push_str(&q.n.to_string());
                } else if plain {
                    out.push_str(&format!("{}/{}", q.n, q.d));
                } else {
                    // not always in lowest terms
                    let f = if rng.chance(20) && q.n < 1000 && q.d < 1000 { rng.range(1, 9) as i128 } else { 1 };
                    out.push_str(&format!("{}{}/{}{}", q.n * f, opt_blank(rng), opt_blank(rng), q.d * f));
                }
                if !a.is_empty() && !plain {
                    out.push_str(*rng.pick(&["", "*", " "]));
                }
            }
            out.push_str(a);
        }
    }
    out
}

pub fn gen_table(rng: &mut Rng, big: bool, max: usize) -> Value {
    let n = rng.below(max + 1);
    let eol = *rng.pick(&["\n", "\n", "\n", "\r\n"]);
    let mut lines: Vec<String> = vec![];
    let mut dim = 0;
    let plain = rng.chance(30);
    for _ in 0..n {
        let what = if dim == 0 { 0 } else { rng.weighted(&[3, 8, 1, 2, 1, 1]) };
        let s = match what {
            0 => {
                dim = 1 + rng.below(3);
                let op = if rng.chance(40) { Op { lin: identity(dim), shift: vec![Q::ZERO; dim] } }
                    else { gen_op(rng, dim, big, true) };
                format!("{}{}{}", gen_name(rng), if rng.chance(80) { " " } else { "\t  " }, write_op(rng, &op, plain))
            }
            1 => {
                let op = gen_op(rng, dim, big, false);
                let indent = " ".repeat(1 + rng.below(6));
                format!("{}{}{}", indent, if rng.chance(5) { "\t" } else { "" }, write_op(rng, &op, plain))
            }
            2 => format!("{} {} {}", *rng.pick(&["alias", "Alias", "ALIAS"]), gen_name(rng), gen_name(rng)),
            3 => {
                let d = 1 + rng.below(3);
                let op = gen_op(rng, d, big, true);
                let mut s = rng.pick(&SYSTEMS).to_string();
                if rng.chance(70) {
                    s = s[..1].to_uppercase() + &s[1..];
                }
                format!("{} {} {}  {}  {}", *rng.pick(&["lookup", "LookUp"]), gen_name(rng), s,
                    rng.pick(&CENTERINGS), write_op(rng, &op, plain))
            }
            4 => format!("{}# comment {}", *rng.pick(&["", " ", "\t"]), *rng.pick(&["é", "x,y", ""])),
            _ => " ".repeat(rng.below(3)),
        };
        let tail = if rng.chance(10) { "  " } else { "" };
        lines.push(format!("{}{}{}", s, tail, eol));
    }
    if rng.chance(25) {
        if let Some(l) = lines.last_mut() {
            *l = l.trim_end_matches(['\n', '\r']).to_string();
        }
    }
    lines.iter().map(|l| json!(enc(l.as_bytes()))).collect()
}

pub fn table_bytes(v: &Value) -> Result<Vec<u8>, String> {
    if v.as_str() == Some("shipped") {
        return Ok(shipped().to_vec());
    }
    let mut out = vec![];
    for l in v.as_array().ok_or("table")? {
        out.extend(dec(l.as_str().ok_or("table line")?));
    }
    Ok(out)
}

pub fn shipped() -> &'static [u8] {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src/data/sgtable.data");
        std::fs::read("/repo/src/data/sgtable.data").or_else(|_| std::fs::read(p))
            .unwrap_or_else(|e| harness_error(&format!("cannot read the shipped table: {}", e)))
    })
}

/// A reference reading, cached for the shipped table.
fn reference(data: &[u8], v: &Value) -> Option<RefTable> {
    static T: OnceLock<Option<RefTable>> = OnceLock::new();
    if v.as_str() == Some("shipped") {
        T.get_or_init(|| ref_table(shipped())).clone()
    } else {
        ref_table(data)
    }
}

fn gen_readers(rng: &mut Rng, tables: &[Value], fail: u32) -> Vec<Value> {
    let n = 1 + rng.below(3);
    let after = *rng.pick(&[0, 30, 70]);
    (0..n).map(|_| {
        let t = rng.below(tables.len());
        let len = table_bytes(&tables[t]).unwrap().len();
        let f = rng.chance(fail);
        let mut r = json!({"table": t, "delivery": gen_delivery(rng, len, f), "key": rng.next() >> 12});
        if rng.chance(after) {
            // in the same thread as the one before
            r["after"] = json!(true);
        }
        r
    }).collect()
}

fn gen_c06(rng: &mut Rng) -> Value {
    let tables: Vec<Value> = if rng.chance(1) && rng.chance(25) {
        vec![json!("shipped")]
    } else {
        (0..1 + rng.below(2)).map(|_| gen_table(rng, false, 25)).collect()
    };
    let fail = if rng.chance(50) { 60 } else { 0 };
    let readers = gen_readers(rng, &tables, fail);
    json!({"tables": tables, "readers": readers, "plan": gen_plan(rng, 30, 6)})
}

fn gen_damage(rng: &mut Rng, nlines: usize, len: usize) -> Value {
    let k = rng.weighted(&[1, 6, 3, 1]);
    (0..k).map(|_| {
        let what = *rng.pick(&["set", "set", "flip", "ins", "ins", "del", "del", "cut", "dup-line", "swap-line",
            "del-line", "join-line", "indent", "outdent"]);
        let b = *rng.pick(&[b'0', b'1', b'9', b'/', b'*', b'+', b'-', b',', b'x', b'y', b'z', b' ', b'\t', b'#',
            b'\n', b'a', 0xFF, 0xC3, 0x00, b'\r']);
        json!([what, rng.below(len.max(1)), b, rng.below(nlines.max(1))])
    }).collect()
}

fn gen_c07(rng: &mut Rng) -> Value {
    let big = rng.chance(30);
    let tables: Vec<Value> = (0..1 + rng.below(2)).map(|_| gen_table(rng, big, 14)).collect();
    let mut readers = gen_readers(rng, &tables, 0);
    for r in &mut readers {
        let t = &tables[r["table"].as_u64().unwrap() as usize];
        r["damage"] = gen_damage(rng, t.as_array().unwrap().len(), table_bytes(t).unwrap().len());
    }
    json!({"tables": tables, "readers": readers, "plan": gen_plan(rng, 20, 6)})
}

fn gen_c08(rng: &mut Rng) -> Value {
    let tables: Vec<Value> = if rng.chance(1) && rng.chance(20) {
        vec![json!("shipped")]
    } else {
        let big = rng.chance(60);
        vec![gen_table(rng, big, 14)]
    };
    let mut readers = gen_readers(rng, &tables, 0);
    for r in &mut readers {
        r["sink"] = gen_sink(rng, None);
        r["again"] = gen_delivery(rng, 600, false);
    }
    json!({"tables": tables, "readers": readers, "plan": gen_plan(rng, 30, 6)})
}

fn damage(lines: &[Vec<u8>], v: &Value, cx: &Cx) -> Result<Vec<u8>, String> {
    let mut lines = lines.to_vec();
    let a = match v.as_array() {
        None => return Ok(lines.concat()),
        Some(a) => a,
    };
    for x in a {
        let op = x.get(0).and_then(|y| y.as_str()).ok_or("damage")?;
        let p = x.get(1).and_then(|y| y.as_u64()).ok_or("damage")? as usize;
        let b = x.get(2).and_then(|y| y.as_u64()).ok_or("damage")? as u8;
        let l = x.get(3).and_then(|y| y.as_u64()).ok_or("damage")? as usize;
        let mut done = true;
        match op {
            "dup-line" if l < lines.len() => {
                let c = lines[l].clone();
                lines.insert(l, c);
            }
            "swap-line" if l + 1 < lines.len() => lines.swap(l, l + 1),
            "del-line" if l < lines.len() => {
                lines.remove(l);
            }
            "join-line" if l < lines.len() => {
                while matches!(lines[l].last(), Some(b'\n' | b'\r')) {
                    lines[l].pop();
                }
            }
            "indent" if l < lines.len() => lines[l].insert(0, b' '),
            "outdent" if l < lines.len() => {
                while lines[l].first() == Some(&b' ') {
                    lines[l].remove(0);
                }
            }
            "set" | "flip" | "ins" | "del" | "cut" => {
                let mut q = p;
                let mut k = 0;
                while k < lines.len() && q >= lines[k].len() {
                    q -= lines[k].len();
                    k += 1;
                }
                if k == lines.len() {
                    continue;
                }
                match op {
                    "set" => lines[k][q] = b,
                    "flip" => lines[k][q] ^= 1 << (b % 8),
                    "ins" => lines[k].insert(q, b),
                    "del" => {
                        lines[k].remove(q);
                    }
                    _ => {
                        lines[k].truncate(q);
                        lines.truncate(k + 1);
                    }
                }
            }
            _ => done = false,
        }
        if done {
            cx.fault(&format!("damage-{}", op));
        }
    }
    Ok(lines.concat())
}

// -------------------------------------------------------------- execution

fn bad_end(a: &Abandon) -> (&'static str, String) {
    match a {
        Abandon::Panic(p) => ("panic", format!("panic: {}", p)),
        Abandon::Budget(w) => ("runs-on", format!("does not end: budget of {} exceeded", w)),
        Abandon::Cancelled => ("panic", "cancelled".into()),
    }
}

struct Reading {
    table: Value,
    data: Vec<u8>,
    failing: bool,
    got: Result<Option<Result<RefTable, String>>, Abandon>,
    extra: Vec<(String, String)>,
}

fn run(scn: &Value, cx: &Cx, work: &(dyn Fn(&Tables, &Value, &Cx) -> Vec<(String, String)> + Sync))
    -> Result<Vec<Reading>, String>
{
    let tables = scn["tables"].as_array().ok_or("tables")?;
    let plan = plan_of(&scn["plan"]).ok_or("plan")?;
    let rs = scn["readers"].as_array().ok_or("readers")?;
    let mut inputs = vec![];
    for r in rs {
        let t = tables.get(r["table"].as_u64().ok_or("table")? as usize).ok_or("table")?;
        if !valid_delivery(&r["delivery"]) {
            return Err("delivery".into());
        }
        let whole = table_bytes(t)?;
        let data = match t.as_array() {
            Some(ls) => {
                let ls: Vec<Vec<u8>> = ls.iter().map(|l| dec(l.as_str().unwrap())).collect();
                damage(&ls, &r["damage"], cx)?
            }
            None => whole,
        };
        inputs.push((t.clone(), data, r.clone()));
    }
    let out: Vec<Mutex<Option<(Result<Option<Result<RefTable, String>>, Abandon>, Vec<(String, String)>)>>> =
        inputs.iter().map(|_| Mutex::new(None)).collect();
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, r) in rs.iter().enumerate() {
        match groups.last_mut() {
            Some(g) if r["after"].as_bool() == Some(true) => {
                cx.probe("one input read after another in the same thread");
                g.push(i);
            }
            _ => groups.push(vec![i]),
        }
    }
    let tasks: Vec<(u64, Box<dyn FnOnce(usize) + Send + '_>)> = groups.iter().map(|g| {
        let (cx, inputs, out) = (cx.clone(), &inputs, &out);
        let f: Box<dyn FnOnce(usize) + Send + '_> = Box::new(move |_| {
            for i in g {
                let inp = &inputs[*i];
                let mut reader = SimReader::new(&cx, &inp.1, &inp.2["delivery"]);
                let mut extra = vec![];
                let r = seam::call(None, || parse_space_group_table(&mut reader)).map(|t| t.map(|t| {
                    extra = work(&t, &inp.2, &cx);
                    match seam::call(None, || observe(&t)) {
                        Ok(r) => r,
                        Err(a) => Err(bad_end(&a).1),
                    }
                }));
                *out[*i].lock().unwrap() = Some((r, extra));
            }
        });
        (inputs[g[0]].2["key"].as_u64().unwrap_or(7), f)
    }).collect();
    let rep = run_tasks(0, &plan, tasks);
    cx.faults("preemption", rep.switches.saturating_sub(groups.len() as u64));
    cx.sign(&rep.hash.to_le_bytes());
    cx.nontrivial();
    let mut res = vec![];
    for (inp, o) in inputs.into_iter().zip(out) {
        let (got, extra) = o.into_inner().unwrap().unwrap();
        cx.log(&match &got {
            Ok(t) if inp.0.is_string() => format!("shipped table: {}", t.is_some()),
            _ => format!("{:?} {:?}", got, extra),
        });
        res.push(Reading {
            failing: inp.2["delivery"]["fail"].is_object(),
            table: inp.0, data: inp.1, got, extra,
        });
    }
    Ok(res)
}

fn show(data: &[u8]) -> String {
    let s = enc(data);
    format!("{:?}", if s.len() > 500 { s.chars().take(500).collect::<String>() + "..." } else { s })
}

fn differs(got: &RefTable, want: &RefTable) -> Option<(&'static str, String)> {
    let (a, b): (BTreeSet<_>, BTreeSet<_>) =
        (got.settings.keys().collect(), want.settings.keys().collect());
    if a != b {
        return Some(("settings", format!("settings are {:?} instead of {:?}", a, b)));
    }
    for (k, w) in &want.settings {
        let g = &got.settings[k];
        if g.group != w.group {
            return Some(("group-name", format!("group of {:?} is {:?} instead of {:?}", k, g.group, w.group)));
        }
        if g.transform != w.transform {
            return Some(("transform", format!("transform of {:?} is {:?} instead of {:?}", k, g.transform, w.transform)));
        }
        if g.ops != w.ops {
            return Some(("operators", format!("operators of {:?} are {:?} instead of {:?}", k, g.ops, w.ops)));
        }
    }
    if got.alias != want.alias {
        return Some(("alias", format!("aliases are {:?} instead of {:?}", got.alias, want.alias)));
    }
    if got.lookup != want.lookup {
        return Some(("lookup", format!("lookup entries are {:?} instead of {:?}", got.lookup, want.lookup)));
    }
    None
}

fn judge_table(cx: &Cx, r: &Reading, want: &RefTable) {
    match &r.got {
        Ok(Some(Ok(got))) => {
            cx.judged();
            if let Some((c, d)) = differs(got, want) {
                cx.violation(c, format!("{}; table {}", d, show(&r.data)));
            }
        }
        Ok(Some(Err(e))) => cx.violation("observation", format!("{}; table {}", e, show(&r.data))),
        Ok(None) => cx.violation("rejected", format!("the well-formed table {} is rejected", show(&r.data))),
        Err(a) => {
            let (c, d) = bad_end(a);
            cx.violation(c, format!("{}; table {}", d, show(&r.data)));
        }
    }
}

fn exec_c06(scn: &Value, cx: &Cx) -> Result<(), String> {
    for r in run(scn, cx, &|_, _, _| vec![])? {
        if r.failing {
            match &r.got {
                Ok(None) => cx.judged(),
                Ok(Some(_)) => cx.violation("partial", format!(
                    "a table is returned although a read failed; input {}", show(&r.data))),
                Err(a) => {
                    let (c, d) = bad_end(a);
                    cx.violation(c, d);
                }
            }
            continue;
        }
        match reference(&r.data, &r.table) {
            Some(want) => {
                if want.unclear {
                    return Err("not well-formed".into());
                }
                if r.table.is_string() {
                    cx.probe("shipped table");
                }
                judge_table(cx, &r, &want);
            }
            None if r.table.is_string() => harness_error("the shipped table is not well-formed"),
            None => return Err("not well-formed".into()),
        }
    }
    Ok(())
}

fn exec_c07(scn: &Value, cx: &Cx) -> Result<(), String> {
    for r in run(scn, cx, &|_, _, _| vec![])? {
        match ref_table(&r.data) {
            Some(want) => {
                cx.probe("damaged table still well-formed");
                if want.unclear && matches!(r.got, Ok(None)) {
                    cx.probe("sum too big");
                    continue;
                }
                judge_table(cx, &r, &want);
            }
            None => {
                cx.judged();
                match &r.got {
                    Ok(None) => cx.probe("damaged table rejected"),
                    Ok(Some(t)) => cx.violation("accepted", format!(
                        "the malformed table {} is accepted as {:?}", show(&r.data), t)),
                    Err(a) => {
                        let (c, d) = bad_end(a);
                        cx.violation(c, format!("{}; table {}", d, show(&r.data)));
                    }
                }
            }
        }
        // the operator parsers by themselves
        if let Ok(s) = std::str::from_utf8(&r.data) {
            for l in s.lines() {
                let c = l.trim();
                for t in [c, c.split_once(char::is_whitespace).map(|x| x.1).unwrap_or("")] {
                    let res = seam::call(None, || {
                        let a: Option<AffineMap<BigRational, Group>> = AffineMap::from_string(t);
                        let b: Option<CoordinateMap<BigRational, Group, Setting>> = CoordinateMap::from_string(t);
                        let _ = parse_operator(t);
                        (a.map(|a| op_of(&a)), b.map(|b| op_of(&b.forward())))
                    });
                    cx.judged();
                    match res {
                        Err(a) => {
                            let (c, d) = bad_end(&a);
                            cx.violation(c, format!("{}; operator {:?}", d, t));
                        }
                        Ok((a, b)) => match ref_operator(t, 9) {
                            None => if a.is_some() || b.is_some() {
                                cx.violation("operator-accepted", format!("{:?} is accepted as {:?} {:?}", t, a, b));
                            },
                            Some((_, true)) => {}
                            Some((op, false)) => {
                                if a != Some(Ok(op.clone())) {
                                    cx.violation("operator", format!("{:?} is read as {:?}", t, a));
                                }
                                let regular = !determinant(&op).is_zero();
                                if b != if regular { Some(Ok(op)) } else { None } {
                                    cx.violation("transform-accepted", format!("{:?} is read as {:?}", t, b));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Stores the printed form through an irregular sink, turns it into a table
/// again and reads that through an irregular source.
fn round_trip(t: &Tables, r: &Value, cx: &Cx) -> Vec<(String, String)> {
    if !valid_sink(&r["sink"]) || !valid_delivery(&r["again"]) {
        return vec![];
    }
    let mut bad = vec![];
    let names: BTreeSet<&String> = t.settings.keys().collect();
    let mut items: Vec<(String, bool)> = vec![];
    for n in names {
        let e = &t.settings[n];
        let mut w = SimWriter::new(cx, &r["sink"]);
        match seam::call(None, || write!(&mut w, "{}", e).is_ok()) {
            Ok(true) => items.push((String::from_utf8_lossy(&w.got).into_owned(), true)),
            x => bad.push(("write".to_string(), format!("setting {:?} cannot be written: {:?}", n, x))),
        }
    }
    for l in &t.lookup {
        let mut w = SimWriter::new(cx, &r["sink"]);
        match seam::call(None, || write!(&mut w, "{}", l).is_ok()) {
            Ok(true) => items.push((String::from_utf8_lossy(&w.got).into_owned(), false)),
            x => bad.push(("write".to_string(), format!("lookup entry cannot be written: {:?}", x))),
        }
    }
    // back into the form of a table; the group name is given by a setting of
    // that name with an identity transformation
    for (text, setting) in items {
        let ls: Vec<&str> = text.lines().collect();
        let field = |i: usize, label: &str| ls.get(i).and_then(|l| l.strip_prefix(label)).map(|s| s.to_string());
        let mut table = String::new();
        if setting {
            let (n, _, tr) = match (field(0, "Setting Name: "), field(1, "Group name: "), field(2, "Transform: ")) {
                (Some(n), Some(g), Some(tr)) => (n, g, tr),
                _ => {
                    bad.push(("print".into(), format!("unexpected form {:?}", text)));
                    continue;
                }
            };
            table.push_str(&format!("{} {}\n", n, tr));
            for l in ls.iter().skip(4) {
                table.push_str(&format!("    {}\n", l));
            }
        } else {
            match (field(0, "Lookup name: "), field(1, "Crystal system: "), field(2, "Centering: "),
                field(3, "Transform: "))
            {
                (Some(n), Some(s), Some(c), Some(tr)) => table.push_str(&format!("lookup {} {} {} {}\n", n, s, c, tr)),
                _ => {
                    bad.push(("print".into(), format!("unexpected form {:?}", text)));
                    continue;
                }
            }
        }
        let mut reader = SimReader::new(cx, table.as_bytes(), &r["again"]);
        match seam::call(None, || parse_space_group_table(&mut reader)) {
            Ok(Some(back)) => {
                let again: Vec<String> = if setting {
                    back.settings.values().map(|e| e.to_string()).collect()
                } else {
                    back.lookup.iter().map(|e| e.to_string()).collect()
                };
                let strip = |s: &str| s.lines().filter(|l| !l.starts_with("Group name: ")).collect::<Vec<_>>().join("\n");
                if again.len() != 1 || strip(&again[0]) != strip(&text) {
                    bad.push(("reprint".into(), format!("{:?} reads back as {:?}", text, again)));
                }
            }
            Ok(None) => bad.push(("unreadable".into(), format!("the printed form {:?} cannot be read back", text))),
            Err(a) => bad.push(("unreadable".into(), format!("reading back {:?}: {:?}", text, a))),
        }
    }
    bad
}

fn exec_c08(scn: &Value, cx: &Cx) -> Result<(), String> {
    for r in run(scn, cx, &round_trip)? {
        let want = match reference(&r.data, &r.table) {
            Some(w) if !w.unclear => w,
            _ => return Err("not well-formed".into()),
        };
        if r.data.iter().filter(|b| b.is_ascii_digit()).count() > 60 {
            cx.probe("long coefficients");
        }
        cx.judged();
        if let Some((c, d)) = r.extra.first() {
            cx.violation(c, d.clone());
        }
        // what is printed means what was read
        judge_table(cx, &r, &want);
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: BigInt) {}

const RULE: &str = "A run draws one or two space-group tables (settings, operators, aliases and lookup entries written in \
    varied ways; now and then the shipped table), one to three readers of them, for each the sizes of all reads, \
    interruptions, a failure or a list of damages to bytes and lines, and the schedule by which the readers alternate. Every \
    run reads something, hence is non-trivial; two runs are the same if their schedules and all tables read are.";
const REAL: &str = "spacegroups::parse_table, spacegroups::parse_operator, the geometry and matrix code under them, nom, std::io::BufReader";
const STUBS: &str = "the byte source and sink (simulated); threads are real but released one at a time by the simulated scheduler";
const ASSUME: &[&str] = &[
    "the simulated source and sink follow the contracts of std::io::Read and Write",
    "operators are observed through the printed form of table entries, and exactly through lookup_settings",
];

pub const PROPS: [Prop; 3] = [
    Prop { id: "C06", gen: gen_c06, exec: exec_c06, quick_runs: 30_000, thorough_runs: 700_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C07", gen: gen_c07, exec: exec_c07, quick_runs: 45_000, thorough_runs: 1_500_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C08", gen: gen_c08, exec: exec_c08, quick_runs: 16_000, thorough_runs: 700_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
];
