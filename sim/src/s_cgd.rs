//! CGD input: C01 to C05.

use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines, Block, Entry, EntryType, Note};
use rust_systre::io::parse_cgd_line::{parse_cgd_line, Field};
use serde_json::{json, Value};
use std::sync::Mutex;

use crate::iosim::*;
use crate::rng::Rng;
use crate::runner::{Cx, Prop};
use crate::sched::run_tasks;
use crate::seam::{self, Abandon};

// ------------------------------------------------------------ observation

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    ty: &'static str,
    key: Option<String>,
    fields: Vec<Field>,
    notes: Vec<(bool, String)>,
    line: usize,
    content: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObsBlock {
    ty: String,
    start: usize,
    end: usize,
    entries: Vec<Obs>,
}

#[cfg(not(systre_sim_without = "cgd"))]
fn obs(e: &Entry) -> Obs {
    Obs {
        ty: match e.sim_entry_type() {
            EntryType::Begin => "begin",
            EntryType::End => "end",
            EntryType::Data => "data",
            EntryType::Empty => "empty",
            EntryType::Error => "error",
        },
        key: e.sim_key().map(|s| s.to_string()),
        fields: e.sim_fields().to_vec(),
        notes: e.sim_notes().iter().map(|n| match n {
            Note::Error(s) => (true, s.clone()),
            Note::Warning(s) => (false, s.clone()),
        }).collect(),
        line: e.sim_line_number(),
        content: e.sim_content().map(|s| s.to_string()),
    }
}

#[cfg(not(systre_sim_without = "cgd"))]
fn obs_block(b: &Block) -> ObsBlock {
    ObsBlock {
        ty: b.sim_block_type().to_string(),
        start: b.sim_lineno_start(),
        end: b.sim_lineno_end(),
        entries: b.sim_entries().iter().map(obs).collect(),
    }
}

#[cfg(systre_sim_without = "cgd")]
mod by_print {
    use super::*;
    use crate::debugtext::{read, Node};
    use crate::runner::harness_error;
    use num_rational::Ratio;

    fn find<'a, R>(n: &'a Node, name: &str, nth: usize, f: impl Fn(&'a Node) -> Option<R>) -> Option<R> {
        n.parts().iter().find(|p| p.0.as_deref() == Some(name)).and_then(|p| f(&p.1))
            .or_else(|| n.parts().iter().filter_map(|p| f(&p.1)).nth(nth))
    }

    fn field(n: &Node) -> Option<Field> {
        let x = n.part(0)?;
        Some(match n.name() {
            "Int" => Field::Int(x.number()? as i32),
            "Fraction" => Field::Fraction(Ratio::new_raw(x.part(0)?.number()? as i32, x.part(1)?.number()? as i32)),
            "Double" => Field::Double(x.name().parse().ok()?),
            "Key" => Field::Key(x.text()?.into()),
            "Name" => Field::Name(x.text()?.into()),
            _ => return None,
        })
    }

    fn note(n: &Node) -> Option<(bool, String)> {
        let t = n.part(0)?.text()?.to_string();
        match n.name() {
            "Error" => Some((true, t)),
            "Warning" => Some((false, t)),
            _ => None,
        }
    }

    fn entry(n: &Node) -> Option<Obs> {
        let ty = find(n, "entry_type", 0, |x| Some(match x.name() {
            "Begin" => "begin",
            "End" => "end",
            "Data" => "data",
            "Empty" => "empty",
            "Error" => "error",
            _ => return None,
        }))?;
        let texts = |name, nth| find(n, name, nth, |x| x.optional_text());
        let fields = find(n, "fields", 0, |x| x.list()?.iter().map(field).collect::<Option<Vec<_>>>())?;
        let notes = find(n, "notes", fields.is_empty() as usize, |x| x.list()?.iter().map(note).collect::<Option<Vec<_>>>())?;
        Some(Obs {
            ty,
            key: texts("key", 0)?.map(|s| s.to_string()),
            fields,
            notes,
            line: find(n, "line_number", 0, |x| x.number())? as usize,
            content: texts("content", 1)?.map(|s| s.to_string()),
        })
    }

    fn block(n: &Node) -> Option<ObsBlock> {
        Some(ObsBlock {
            ty: find(n, "block_type", 0, |x| x.text())?.to_string(),
            start: find(n, "lineno_start", 0, |x| x.number())? as usize,
            end: find(n, "lineno_end", 1, |x| x.number())? as usize,
            entries: find(n, "entries", 0, |x| x.list()?.iter().map(entry).collect())?,
        })
    }

    fn seen<R>(t: String, f: fn(&Node) -> Option<R>) -> R {
        read(&t).as_ref().and_then(f).unwrap_or_else(|| harness_error(&format!("cannot read back {}", t)))
    }

    pub fn obs(e: &Entry) -> Obs {
        seen(format!("{:?}", e), entry)
    }

    pub fn obs_block(b: &Block) -> ObsBlock {
        seen(format!("{:?}", b), block)
    }
}

#[cfg(systre_sim_without = "cgd")]
use by_print::{obs, obs_block};

impl Obs {
    fn has_error(&self) -> bool {
        self.ty == "error" || self.notes.iter().any(|n| n.0)
    }

    /// Text form for comparison: NaN fields must equal themselves.
    fn text(&self) -> String {
        format!("{:?}", self)
    }

    fn text_at(&self, line: usize) -> String {
        let mut o = self.clone();
        o.line = line;
        o.text()
    }
}

#[derive(Clone, Debug)]
pub enum Seen {
    Lines(Vec<Obs>),
    Blocks(Vec<ObsBlock>),
}

fn read_with(cx: &Cx, data: &[u8], api: &str, delivery: &Value) -> (Result<Seen, Abandon>, u64) {
    read_cancelled(cx, data, api, delivery, None)
}

pub fn read_cancelled(cx: &Cx, data: &[u8], api: &str, delivery: &Value, cancel: Option<u64>)
    -> (Result<Seen, Abandon>, u64)
{
    let mut reader = SimReader::new(cx, data, delivery);
    let r = seam::call(cancel, || match api {
        "blocks" => Seen::Blocks(parse_blocks(&mut reader).iter().map(obs_block).collect()),
        _ => Seen::Lines(parse_lines(&mut reader).iter().map(obs).collect()),
    });
    (r, reader.after_failure)
}

fn plain(data: &[u8], api: &str) -> Result<Seen, Abandon> {
    seam::call(None, || match api {
        "blocks" => Seen::Blocks(parse_blocks(data).iter().map(obs_block).collect()),
        _ => Seen::Lines(parse_lines(data).iter().map(obs).collect()),
    })
}

fn bad_end(a: &Abandon) -> (&'static str, String) {
    match a {
        Abandon::Panic(p) => ("panic", format!("the parser panicked: {}", p)),
        Abandon::Budget(w) => ("runs-on", format!("the parser does not end: budget of {} exceeded", w)),
        Abandon::Cancelled => ("panic", "cancelled".into()),
    }
}

// ------------------------------------------------------------------ lines

fn is_blank(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c == '\t')
}

fn word(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| !matches!(c, '"' | '#' | ' ' | '\t' | '\n' | '\r'))
}

fn digits(s: &str, max: usize) -> bool {
    !s.is_empty() && s.len() <= max && s.bytes().all(|b| b.is_ascii_digit())
}

/// Whether the text is a field of the kind, by the rules of the format.
fn valid_field(kind: &str, s: &str, first: bool) -> bool {
    match kind {
        "k" => first && word(s) && s.as_bytes()[0].is_ascii_alphabetic(),
        "i" => digits(s.strip_prefix('-').unwrap_or(s), 12),
        "q" => match s.strip_prefix('-').unwrap_or(s).split_once('/') {
            Some((n, d)) => digits(n, 9) && digits(d, 9) && d.bytes().any(|b| b != b'0'),
            None => false,
        },
        "d" => {
            let t = s.strip_prefix('-').or(s.strip_prefix('+')).unwrap_or(s);
            let (m, e) = match t.split_once(['e', 'E']) {
                Some((m, e)) => (m, Some(e)),
                None => (t, None),
            };
            let (a, b) = match m.split_once('.') {
                Some((a, b)) => (a, Some(b)),
                None => (m, None),
            };
            let ok = |x: &str| x.bytes().all(|b| b.is_ascii_digit());
            ok(a) && ok(b.unwrap_or(""))
                && a.len() + b.unwrap_or("").len() > 0
                && (b.is_some() || e.is_some())
                && e.map(|e| digits(e.strip_prefix('-').or(e.strip_prefix('+')).unwrap_or(e), 3)).unwrap_or(true)
        }
        "n" => {
            // Anything that does not begin like a number.
            let t = s.strip_prefix(['+', '-']).unwrap_or(s);
            let t = t.strip_prefix('.').unwrap_or(t);
            word(s)
                && !t.starts_with(|c: char| c.is_ascii_digit())
                && !(first && s.as_bytes()[0].is_ascii_alphabetic())
        }
        "s" => {
            s.len() > 2 && s.starts_with('"') && s.ends_with('"')
                && s[1..s.len() - 1].chars().all(|c| !matches!(c, '"' | '\n'))
        }
        _ => false,
    }
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

fn matches_field(kind: &str, s: &str, f: &Field) -> bool {
    match (kind, f) {
        ("i", Field::Int(n)) => s.parse::<i64>() == Ok(*n as i64),
        ("i", Field::Double(x)) => {
            let v: i64 = s.parse().unwrap();
            i32::try_from(v).is_err() && *x == s.parse::<f64>().unwrap()
        }
        ("q", Field::Fraction(r)) => {
            let (n, d) = s.split_once('/').unwrap();
            let (n, d): (i64, i64) = (n.parse().unwrap(), d.parse().unwrap());
            let g = gcd(n, d);
            (*r.numer() as i64, *r.denom() as i64) == (n / g, d / g)
        }
        ("d", Field::Double(x)) => *x == s.parse::<f64>().unwrap(),
        ("d", Field::Int(n)) => *n as f64 == s.parse::<f64>().unwrap(),
        ("n", Field::Name(t)) => s == t,
        ("s", Field::Name(t)) => &s[1..s.len() - 1] == t,
        _ => false,
    }
}

/// A line of a document, decoded from the scenario.
#[derive(Clone, Debug)]
pub struct Line {
    /// (blanks before, kind, text)
    pieces: Vec<(String, String, String)>,
    bad: Option<(String, String)>,
    tail: String,
    comment: Option<String>,
    raw: Option<Vec<u8>>,
    eol: String,
}

fn text(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}

impl Line {
    fn from(v: &Value) -> Option<Line> {
        let eol = text(v.get("e")?)?;
        if !matches!(&eol[..], "\n" | "\r\n" | "") {
            return None;
        }
        if let Some(r) = v.get("r").and_then(|r| r.as_str()) {
            let r = dec(r);
            if r.contains(&b'\n') {
                return None;
            }
            return Some(Line { pieces: vec![], bad: None, tail: String::new(), comment: None,
                raw: Some(r), eol });
        }
        let mut pieces = vec![];
        for (i, p) in v.get("p")?.as_array()?.iter().enumerate() {
            let (sep, k, t) = (text(p.get(0)?)?, text(p.get(1)?)?, text(p.get(2)?)?);
            if !is_blank(&sep) || (i > 0 && sep.is_empty()) || !valid_field(&k, &t, i == 0) {
                return None;
            }
            pieces.push((sep, k, t));
        }
        let comment = match v.get("c") {
            Some(Value::String(s)) => {
                if !s.starts_with('#') || s.contains('\n') {
                    return None;
                }
                Some(s.clone())
            }
            _ => None,
        };
        let bad = match v.get("x") {
            Some(Value::Array(a)) => {
                let (sep, t) = (text(a.first()?)?, text(a.get(1)?)?);
                if !is_blank(&sep) || t.contains(['\n', '\r']) {
                    return None;
                }
                let quotes = t.matches('"').count();
                let open = t.starts_with('"') && quotes == 1 && comment.is_none()
                    && (pieces.is_empty() || !sep.is_empty() || pieces.last().unwrap().1 != "s");
                let glued = sep.is_empty() && t.starts_with('"') && !pieces.is_empty()
                    && pieces.last().unwrap().1 != "s";
                let zero = (pieces.is_empty() || !sep.is_empty()) && match t.split_once('/') {
                    Some((n, d)) => digits(n.strip_prefix('-').unwrap_or(n), 9) && digits(d, 9)
                        && d.bytes().all(|b| b == b'0'),
                    None => false,
                };
                // Begins like a number, but no number ends like this.
                let half = (pieces.is_empty() || !sep.is_empty()) && word(&t) && !valid_field("n", &t, false)
                    && !t.ends_with(|c: char| c.is_ascii_digit() || c == '.');
                if !(open || glued || zero || half) {
                    return None;
                }
                Some((sep, t))
            }
            _ => None,
        };
        let tail = v.get("t").and_then(text).unwrap_or_default();
        if !is_blank(&tail) {
            return None;
        }
        Some(Line { pieces, bad, tail, comment, raw: None, eol })
    }

    fn text(&self) -> Vec<u8> {
        if let Some(r) = &self.raw {
            return r.clone();
        }
        let mut s = String::new();
        for (sep, _, t) in &self.pieces {
            s.push_str(sep);
            s.push_str(t);
        }
        if let Some((sep, t)) = &self.bad {
            s.push_str(sep);
            s.push_str(t);
        }
        s.push_str(&self.tail);
        s.push_str(self.comment.as_deref().unwrap_or(""));
        s.into_bytes()
    }

    fn key(&self) -> Option<String> {
        match self.pieces.first() {
            Some((_, k, t)) if k == "k" => Some(t.to_lowercase()),
            _ => None,
        }
    }

    fn data(&self) -> &[(String, String, String)] {
        if self.key().is_some() { &self.pieces[1..] } else { &self.pieces }
    }
}

pub fn doc(v: &Value) -> Result<Vec<Line>, String> {
    let a = v.as_array().ok_or("document")?;
    let mut out = vec![];
    for x in a {
        out.push(Line::from(x).ok_or("line")?);
    }
    let n = out.len();
    for (i, l) in out.iter_mut().enumerate() {
        if i + 1 < n && l.eol.is_empty() {
            l.eol = "\n".into();
        }
        // a CR right before the LF belongs to the line end
        if l.eol == "\n" {
            let cut = |s: &mut String| s.ends_with('\r') && s.pop().is_some();
            let moved = match (&mut l.raw, &mut l.comment) {
                (Some(r), _) => r.last() == Some(&b'\r') && r.pop().is_some(),
                (None, Some(c)) => cut(c),
                _ => false,
            };
            if moved {
                l.eol = "\r\n".into();
            }
        }
    }
    if let Some(l) = out.last() {
        if l.eol.is_empty() && l.text().is_empty() {
            out.pop();
        }
    }
    Ok(out)
}

pub fn bytes(d: &[Line]) -> Vec<u8> {
    d.iter().flat_map(|l| {
        let mut b = l.text();
        b.extend_from_slice(l.eol.as_bytes());
        b
    }).collect()
}

/// The lines of a byte sequence, without and with their ends.
fn split(data: &[u8]) -> Vec<(Vec<u8>, bool)> {
    let mut out = vec![];
    let mut cur = vec![];
    for b in data {
        if *b == b'\n' {
            out.push((std::mem::take(&mut cur), true));
        } else {
            cur.push(*b);
        }
    }
    if !cur.is_empty() {
        out.push((cur, false));
    }
    out
}

/// A line to be read by itself: without its line feed, unless that makes a
/// carriage return part of the line end.
fn alone(b: &[u8], ended: bool) -> Vec<u8> {
    let mut v = b.to_vec();
    if ended && b.ends_with(b"\r") {
        v.push(b'\n');
    }
    v
}

// ------------------------------------------------------------- generation

fn blanks(rng: &mut Rng, min: usize) -> String {
    let n = min + match rng.below(8) { 0 => rng.below(30), 1 | 2 => rng.below(4), _ => 0 };
    (0..n).map(|_| if rng.chance(20) { '\t' } else { ' ' }).collect()
}

const KEYS: [&str; 26] = [
    "CRYSTAL", "PERIODIC_GRAPH", "NAME", "GROUP", "CELL", "ATOM", "EDGE", "NODE", "ID", "EDGES",
    "NET", "TILING", "FACES", "endgame", "ends", "END_", "a", "Z9", "en", "Ünicode", "KEY-1.5", "x/y",
    "ATOM:", "kElvin\u{212A}", "\u{130}stanbul", "data",
];

fn key_text(rng: &mut Rng) -> String {
    loop {
        let mut s = if rng.chance(80) {
            rng.pick(&KEYS).to_string()
        } else {
            let n = 1 + rng.below(12);
            let mut s = String::from((b'a' + rng.below(26) as u8) as char);
            for _ in 0..n {
                s.push(odd_char(rng));
            }
            s
        };
        if rng.chance(30) {
            s = s.to_lowercase();
        } else if rng.chance(30) {
            s = s.to_uppercase();
        }
        if valid_field("k", &s, true) && s.to_lowercase() != "end" {
            return s;
        }
    }
}

/// Characters that have tripped byte-wise code: two to four bytes long, or
/// equal to a blank, quote, hash or line end when cut to eight bits.
fn odd_char(rng: &mut Rng) -> char {
    if rng.chance(60) {
        *rng.pick(&['a', 'b', 'X', '0', '7', '_', '-', '+', '.', '/', '(', ')', '\'', '*', ',', ';', ':', '='])
    } else {
        *rng.pick(&['é', 'ß', 'Ġ', 'ĉ', 'Ċ', 'č', 'Ģ', 'ģ', '\u{a0}', '\u{85}', '\u{3000}', '\u{2028}',
            '中', '𝒳', '😀', '\u{feff}', '\u{0}', '\u{b}', '\u{7f}', '\u{1b}'])
    }
}

fn number(rng: &mut Rng, digits: u32) -> String {
    let n = 1 + rng.below(digits as usize);
    if rng.chance(10) {
        return "0".repeat(n);
    }
    (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect()
}

fn field_text(rng: &mut Rng, kind: &str, first: bool) -> String {
    loop {
        let sign = if rng.chance(30) { "-" } else { "" };
        let s = match kind {
            "i" => match rng.below(8) {
                0 => rng.pick(&["0", "-0", "00012", "2147483647", "-2147483648", "2147483648",
                    "-2147483649", "999999999", "1000000000", "100000000000"]).to_string(),
                1 => format!("{}{}", sign, number(rng, 12)),
                _ => format!("{}{}", sign, number(rng, 9)),
            },
            "q" => match rng.below(6) {
                0 => rng.pick(&["0/1", "4/2", "-4/2", "999999999/999999999", "1/999999999", "-0/7", "06/004"])
                    .to_string(),
                _ => {
                    let k = if rng.chance(50) { 2 } else { 9 };
                    format!("{}{}/{}", sign, number(rng, k), number(rng, k))
                }
            },
            "d" => {
                let mut s = match rng.below(4) {
                    0 => format!("{}{}.{}", sign, number(rng, 12), number(rng, 18)),
                    1 => format!("{}.{}", sign, number(rng, 9)),
                    2 => format!("{}{}.", sign, number(rng, 6)),
                    _ => format!("{}{}.{}", sign, number(rng, 2), number(rng, 5)),
                };
                if rng.chance(25) {
                    s.push_str(&format!("{}{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "-", "+"]), rng.below(40)));
                } else if rng.chance(5) {
                    s.push_str(rng.pick(&["e308", "e-320", "e400", "E-400"]));
                }
                if rng.chance(8) && !s.starts_with('-') {
                    s.insert(0, '+');
                }
                s
            }
            "s" => {
                let n = if rng.chance(3) { rng.below(9000) } else { 1 + rng.below(12) };
                let mut t = String::from("\"");
                for _ in 0..n {
                    t.push(if rng.chance(30) { *rng.pick(&[' ', '\t', '#', '/', '1', '.', '\r']) } else { odd_char(rng) });
                }
                t.push('"');
                t
            }
            _ => {
                let n = 1 + rng.below(8);
                let mut t: String = (0..n).map(|_| odd_char(rng)).collect();
                if rng.chance(12) {
                    // Words that some readers of numbers believe in.
                    let w = *rng.pick(&["nan", "NaN", "inf", "INF", "infinity", "Infinity", "-x", "+", "-",
                        ".", "-.", "e5", "-e1", "E", "x", "0x"]);
                    t = if rng.chance(50) { w.to_string() } else { format!("{}{}", w, t) };
                }
                t
            }
        };
        if valid_field(kind, &s, first) {
            return s;
        }
    }
}

fn comment_text(rng: &mut Rng) -> String {
    let n = rng.below(20);
    let mut s = String::from("#");
    for _ in 0..n {
        s.push(if rng.chance(30) { *rng.pick(&[' ', '"', '#', '\t', '\r']) } else { odd_char(rng) });
    }
    s
}

fn eol(rng: &mut Rng, crlf: u32) -> &'static str {
    if rng.chance(crlf) { "\r\n" } else { "\n" }
}

/// role: what a line is meant to be.
fn gen_line(rng: &mut Rng, role: &str, crlf: u32) -> Value {
    let mut pieces = vec![];
    let mut n = match rng.below(10) { 0 => 0, 1 => rng.below(30), _ => rng.below(5) };
    match role {
        "begin" | "keyed" => {
            pieces.push(json!([blanks(rng, 0), "k", key_text(rng)]));
            if role == "begin" && rng.chance(80) {
                n = 0;
            }
        }
        "end" => {
            let k: String = "end".chars()
                .map(|c| if rng.chance(50) { c.to_ascii_uppercase() } else { c }).collect();
            pieces.push(json!([blanks(rng, 0), "k", k]));
            if rng.chance(85) {
                n = 0;
            }
        }
        "blank" => n = 0,
        _ => n = n.max(1),
    }
    for _ in 0..n {
        let first = pieces.is_empty();
        let kind = *rng.pick(&["i", "i", "q", "d", "d", "n", "s"]);
        pieces.push(json!([blanks(rng, if first { 0 } else { 1 }), kind, field_text(rng, kind, first)]));
    }
    let mut l = json!({"p": pieces, "t": blanks(rng, 0), "e": eol(rng, crlf)});
    if rng.chance(15) || (role == "blank" && rng.chance(50)) {
        l["c"] = json!(comment_text(rng));
    }
    if role == "bad" {
        l["x"] = match rng.below(5) {
            0 => json!([blanks(rng, 1), format!("{}/{}", number(rng, 4), "0".repeat(1 + rng.below(3)))]),
            1 => {
                l["c"] = Value::Null;
                json!([blanks(rng, 1), format!("\"{}", field_text(rng, "n", false))])
            }
            2 | 3 => {
                let k = *rng.pick(&["i", "q", "d"]);
                let t = *rng.pick(&["a", "x", "e", "E", "e-", "e+", "-", "+", "/", "/x", "e5x", "é", "/-", "'"]);
                json!([blanks(rng, 1), format!("{}{}", field_text(rng, k, false), t)])
            }
            _ => json!(["", "\"glued\""]),
        };
        if Line::from(&l).is_none() {
            l["x"] = json!([" ", "1/0"]);
        }
    }
    l
}

fn raw_line(rng: &mut Rng, crlf: u32) -> Value {
    let n = rng.below(20);
    let mut b = vec![];
    for _ in 0..n {
        b.push(match rng.below(6) {
            0 => rng.below(256) as u8,
            1 => *rng.pick(b"\"#/ -+.e\t\r"),
            2 => b'0' + rng.below(10) as u8,
            3 => *rng.pick(&[0xC3u8, 0xA9, 0xE4, 0xFF, 0xF0, 0x80, 0x00]),
            _ => b'a' + rng.below(26) as u8,
        });
    }
    b.retain(|x| *x != b'\n');
    if rng.chance(10) {
        b.extend(std::iter::repeat(b'\r').take(1 + rng.below(2)));
    }
    json!({"r": enc(&b), "e": eol(rng, crlf)})
}

/// mix: weights for begin, keyed, data, blank, end, bad, raw.
pub fn gen_doc(rng: &mut Rng, mix: &[u32; 7], max: usize) -> Value {
    let crlf = *rng.pick(&[0u32, 0, 100, 50]);
    let n = if rng.chance(4) { rng.below(200) } else { rng.below(max + 1) };
    let mut lines: Vec<Value> = vec![];
    let structured = rng.chance(60);
    let mut open = false;
    for _ in 0..n {
        let mut role = ["begin", "keyed", "data", "blank", "end", "bad", "raw"][rng.weighted(mix)];
        if structured {
            if !open && matches!(role, "keyed" | "data" | "end") {
                role = "begin";
            }
            if role == "begin" && open {
                role = "data";
            }
            open = match role { "begin" => true, "end" => false, _ => open };
        }
        lines.push(if role == "raw" { raw_line(rng, crlf) } else { gen_line(rng, role, crlf) });
    }
    if structured && open && rng.chance(80) {
        lines.push(gen_line(rng, "end", crlf));
    }
    if rng.chance(30) {
        if let Some(l) = lines.last_mut() {
            l["e"] = json!("");
        }
    }
    Value::Array(lines)
}

pub fn doc_len(v: &Value) -> usize {
    bytes(&doc(v).unwrap()).len()
}

fn gen_readers(rng: &mut Rng, docs: &[Value], fail: bool, apis: &[&str]) -> Vec<Value> {
    let n = 1 + rng.below(4);
    let after = *rng.pick(&[0, 30, 70]);
    (0..n).map(|_| {
        let d = rng.below(docs.len());
        let mut r = json!({
            "doc": d,
            "api": *rng.pick(apis),
            "delivery": gen_delivery(rng, doc_len(&docs[d]), fail),
            "key": rng.next() >> 12,
        });
        if rng.chance(after) {
            // in the same thread as the one before
            r["after"] = json!(true);
        }
        r
    }).collect()
}

fn scenario(rng: &mut Rng, docs: Vec<Value>, readers: Vec<Value>) -> Value {
    json!({"docs": docs, "readers": readers, "plan": gen_plan(rng, 30, 6)})
}

fn gen_c01(rng: &mut Rng) -> Value {
    let docs: Vec<Value> = (0..1 + rng.below(2)).map(|_| gen_doc(rng, &[2, 6, 4, 2, 2, 2, 2], 25)).collect();
    let readers = gen_readers(rng, &docs, false, &["lines", "blocks"]);
    scenario(rng, docs, readers)
}

fn gen_c02(rng: &mut Rng) -> Value {
    let docs: Vec<Value> = (0..1 + rng.below(2)).map(|_| gen_doc(rng, &[2, 6, 5, 2, 1, 2, 1], 20)).collect();
    let readers = gen_readers(rng, &docs, false, &["lines"]);
    scenario(rng, docs, readers)
}

fn gen_c03(rng: &mut Rng) -> Value {
    let docs: Vec<Value> = (0..1 + rng.below(2)).map(|_| gen_doc(rng, &[3, 6, 4, 2, 3, 1, 1], 20)).collect();
    let mut readers = gen_readers(rng, &docs, true, &["lines", "blocks"]);
    for r in &mut readers {
        if rng.chance(15) {
            r["delivery"]["fail"] = Value::Null;
            r["cut"] = json!(rng.below(doc_len(&docs[r["doc"].as_u64().unwrap() as usize]) + 1));
        }
    }
    scenario(rng, docs, readers)
}

fn gen_c04(rng: &mut Rng) -> Value {
    let d = gen_doc(rng, &[2, 6, 5, 2, 2, 2, 3], 15);
    let len = doc_len(&d);
    let docs = vec![d];
    let mut readers = gen_readers(rng, &docs, false, &["lines", "lines", "blocks"]);
    for r in &mut readers {
        let mut dmg = vec![];
        for _ in 0..1 + rng.below(6) {
            if len == 0 {
                break;
            }
            let b = match rng.below(5) {
                0 => rng.below(256) as u8,
                1 => 0xFF,
                2 => *rng.pick(b"\"#/0 \t-e."),
                3 => *rng.pick(&[0xC3u8, 0x80, 0xF4, 0x00, 0x0D]),
                _ => b'0' + rng.below(10) as u8,
            };
            let op = rng.weighted(&[6, 2, 1, 1]);
            dmg.push(json!([*rng.pick(&["set", "flip", "ins", "del"][op..op + 1]), rng.below(len), b]));
        }
        r["damage"] = Value::Array(dmg);
    }
    scenario(rng, docs, readers)
}

fn gen_c05(rng: &mut Rng) -> Value {
    let docs: Vec<Value> = (0..1 + rng.below(2)).map(|_| gen_doc(rng, &[4, 6, 6, 2, 5, 2, 1], 25)).collect();
    let mut readers = gen_readers(rng, &docs, false, &["blocks"]);
    for r in &mut readers {
        if rng.chance(10) {
            r["cut"] = json!(rng.below(doc_len(&docs[r["doc"].as_u64().unwrap() as usize]) + 1));
        }
    }
    scenario(rng, docs, readers)
}

// -------------------------------------------------------------- execution

struct Reading {
    doc: usize,
    api: String,
    data: Vec<u8>,
    seen: Result<Seen, Abandon>,
    after_failure: u64,
    fail_at: Option<usize>,
}

/// Runs all readers of the scenario under its schedule.
fn run(scn: &Value, cx: &Cx) -> Result<(Vec<Vec<Line>>, Vec<Reading>), String> {
    let docs: Vec<Vec<Line>> = scn["docs"].as_array().ok_or("docs")?.iter()
        .map(doc).collect::<Result<_, _>>()?;
    let plan = plan_of(&scn["plan"]).ok_or("plan")?;
    let rs = scn["readers"].as_array().ok_or("readers")?;
    let mut inputs = vec![];
    for r in rs {
        let d = r["doc"].as_u64().ok_or("doc")? as usize;
        let mut data = bytes(docs.get(d).ok_or("doc")?);
        if !valid_delivery(&r["delivery"]) {
            return Err("delivery".into());
        }
        if let Some(c) = r["cut"].as_u64() {
            if (c as usize) < data.len() {
                cx.fault("input-cut-short");
            }
            data.truncate(c as usize);
        }
        if let Some(dmg) = r["damage"].as_array() {
            for x in dmg {
                let op = x.get(0).and_then(|y| y.as_str()).ok_or("damage")?;
                let p = x.get(1).and_then(|y| y.as_u64()).ok_or("damage")? as usize;
                let b = x.get(2).and_then(|y| y.as_u64()).ok_or("damage")? as u8;
                if p >= data.len() {
                    continue;
                }
                match op {
                    "set" => {
                        if b == b'\n' || data[p] == b'\n' {
                            continue;
                        }
                        data[p] = b;
                    }
                    "flip" => {
                        let f = 1 << (b % 8);
                        if data[p] == b'\n' || data[p] ^ f == b'\n' {
                            continue;
                        }
                        data[p] ^= f;
                    }
                    "ins" => data.insert(p, b),
                    "del" => {
                        data.remove(p);
                    }
                    _ => return Err("damage".into()),
                }
                cx.fault(&format!("damage-{}", op));
            }
        }
        inputs.push((d, r["api"].as_str().ok_or("api")?.to_string(), data, r["delivery"].clone(),
            r["key"].as_u64().unwrap_or(7)));
    }
    let out: Vec<Mutex<Option<(Result<Seen, Abandon>, u64)>>> = inputs.iter().map(|_| Mutex::new(None)).collect();
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, r) in rs.iter().enumerate() {
        match groups.last_mut() {
            Some(g) if r["after"].as_bool() == Some(true) => {
                cx.probe("one input read after another in the same thread");
                g.push(i);
            }
            _ => groups.push(vec![i]),
        }
    }
    let tasks: Vec<(u64, Box<dyn FnOnce(usize) + Send + '_>)> = groups.iter().map(|g| {
        let (cx, inputs, out) = (cx.clone(), &inputs, &out);
        let f: Box<dyn FnOnce(usize) + Send + '_> = Box::new(move |_| {
            for i in g {
                let inp = &inputs[*i];
                let r = read_with(&cx, &inp.2, &inp.1, &inp.3);
                *out[*i].lock().unwrap() = Some(r);
            }
        });
        (inputs[g[0]].4, f)
    }).collect();
    let rep = run_tasks(0, &plan, tasks);
    cx.faults("preemption", rep.switches.saturating_sub(groups.len() as u64));
    cx.sign(&rep.hash.to_le_bytes());
    let mut readings = vec![];
    for (inp, o) in inputs.into_iter().zip(out) {
        let (seen, after) = o.into_inner().unwrap().unwrap();
        cx.log(&format!("doc {} {}: {:?}", inp.0, inp.1, seen));
        let fail_at = inp.3["fail"].as_object().map(|f| (f["at"].as_u64().unwrap() as usize).min(inp.2.len()));
        readings.push(Reading { doc: inp.0, api: inp.1, data: inp.2, seen, after_failure: after, fail_at });
    }
    cx.nontrivial();
    Ok((docs, readings))
}

fn show(data: &[u8]) -> String {
    let s = enc(data);
    format!("{:?}", if s.len() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s })
}

fn exec_c01(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (_, rs) = run(scn, cx)?;
    for r in rs {
        let seen = match &r.seen {
            Ok(s) => s,
            Err(a) => {
                let (c, d) = bad_end(a);
                cx.violation(c, d);
                return Ok(());
            }
        };
        let alone = match plain(&r.data, &r.api) {
            Ok(s) => s,
            Err(a) => {
                let (c, d) = bad_end(&a);
                cx.violation(c, d);
                return Ok(());
            }
        };
        cx.check(format!("{:?}", seen) == format!("{:?}", alone), "delivery", || format!(
            "{} of {} read piecewise give {:?}, in one piece {:?}", r.api, show(&r.data), seen, alone));
        // The same bytes cut into single bytes, against the absolute rule that
        // there is one entry for every line.
        if let Seen::Lines(es) = seen {
            let n = split(&r.data).len();
            cx.check(es.len() == n, "line-count", || format!(
                "{} lines in {} but {} entries", n, show(&r.data), es.len()));
        }
    }
    Ok(())
}

fn judge_line(cx: &Cx, i: usize, l: &Line, e: &Obs) {
    let t = l.text();
    let ctx = |what: &str| format!("line {} {}: {}; entry {:?}", i, show(&t), what, e);
    cx.check(e.line == i, "line-number", || ctx("wrong line number"));
    if let Ok(s) = std::str::from_utf8(&t) {
        cx.check(e.content.as_deref() == Some(s), "content", || ctx("wrong content"));
    }
    if l.raw.is_some() {
        return;
    }
    if l.bad.is_some() {
        cx.check(e.has_error(), "dropped-text", || ctx("unreadable text is not noted as an error"));
        return;
    }
    cx.check(!e.has_error() && e.notes.is_empty(), "false-error", || ctx("a well-formed line is reported"));
    let empty = l.pieces.is_empty();
    cx.check(e.ty == if empty { "empty" } else { "data" }, "entry-type", || ctx("wrong entry type"));
    cx.check(e.key == l.key(), "key", || ctx("wrong keyword"));
    let d = l.data();
    let ok = d.len() == e.fields.len() && d.iter().zip(&e.fields).all(|(p, f)| matches_field(&p.1, &p.2, f));
    cx.check(ok, "fields", || ctx("wrong fields"));
}

fn exec_c02(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (docs, rs) = run(scn, cx)?;
    for r in rs {
        match &r.seen {
            Err(a) => {
                let (c, d) = bad_end(a);
                cx.violation(c, d);
            }
            Ok(Seen::Lines(es)) => {
                let d = &docs[r.doc];
                cx.check(es.len() == d.len(), "line-count", || format!(
                    "{} lines but {} entries for {}", d.len(), es.len(), show(&r.data)));
                for (i, (l, e)) in d.iter().zip(es).enumerate() {
                    judge_line(cx, i, l, e);
                    // the line parser by itself
                    if l.raw.is_none() && l.bad.is_none() && !cx.violated() {
                        let s = String::from_utf8(l.text()).unwrap();
                        match seam::call(None, || parse_cgd_line(&s).map(|(r, f)| (r.to_string(), f))) {
                            Ok(Ok((rest, fs))) => {
                                let mut fs = &fs[..];
                                let mut ok = rest.is_empty();
                                if let (Some(k), Some(Field::Key(t))) = (l.key(), fs.first()) {
                                    ok = ok && t.to_lowercase() == k;
                                    fs = &fs[1..];
                                } else {
                                    ok = ok && l.key().is_none();
                                }
                                let d = l.data();
                                ok = ok && d.len() == fs.len()
                                    && d.iter().zip(fs).all(|(p, f)| matches_field(&p.1, &p.2, f));
                                cx.check(ok, "parse-line", || format!(
                                    "parse_cgd_line({:?}) gives {:?} and leaves {:?}", s, fs, rest));
                            }
                            Ok(Err(e)) => cx.violation("parse-line", format!("parse_cgd_line({:?}) fails: {}", s, e)),
                            Err(a) => {
                                let (c, d) = bad_end(&a);
                                cx.violation(c, d);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Flattens blocks into entries.
fn flat(bs: &[ObsBlock]) -> Vec<Obs> {
    bs.iter().flat_map(|b| b.entries.clone()).collect()
}

fn exec_c03(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (_, rs) = run(scn, cx)?;
    for r in rs {
        let seen = match &r.seen {
            Ok(s) => s,
            Err(a) => {
                let (c, d) = bad_end(a);
                cx.violation(c, d);
                return Ok(());
            }
        };
        let at = r.fail_at.unwrap_or(r.data.len());
        let full = match plain(&r.data, "lines") {
            Ok(Seen::Lines(l)) => l,
            _ => continue, // C04
        };
        let whole = split(&r.data[..at]).iter().filter(|l| l.1).count();
        match (seen, r.fail_at) {
            (Seen::Lines(es), Some(_)) => {
                cx.check(r.after_failure <= 8, "reads-on", || format!(
                    "{} further reads after the failure", r.after_failure));
                cx.check(es.len() == whole + 1, "failure-entries", || format!(
                    "read failure at byte {} of {}: expected {} entries and one for the failure, got {:?}",
                    at, show(&r.data), whole, es));
                for (i, e) in es.iter().enumerate().take(whole) {
                    cx.check(full.get(i).map(|f| f.text()) == Some(e.text()), "spoilt-entry", || format!(
                        "read failure at byte {} of {}: entry {:?} instead of {:?}",
                        at, show(&r.data), e, full.get(i)));
                }
                if let Some(e) = es.last() {
                    cx.check(e.ty == "error" && e.has_error() && e.fields.is_empty() && e.line == whole,
                        "failure-entry", || format!(
                        "read failure at byte {} of {} is recorded as {:?}", at, show(&r.data), e));
                }
            }
            (Seen::Blocks(bs), Some(_)) => {
                cx.check(r.after_failure <= 8, "reads-on", || format!(
                    "{} further reads after the failure", r.after_failure));
                let es = flat(bs);
                let last = es.last();
                cx.check(last.map(|e| e.ty == "error" && e.has_error() && e.line == whole).unwrap_or(false),
                    "failure-lost", || format!(
                    "read failure at byte {} of {} is not in the blocks {:?}", at, show(&r.data), bs));
                let n = es.iter().filter(|e| e.line >= whole).count();
                cx.check(n == 1, "failure-entries", || format!(
                    "read failure at byte {} of {}: {} entries from after it in {:?}",
                    at, show(&r.data), n, bs));
                let want: Vec<(usize, Vec<String>)> = full.iter().take(whole)
                    .filter(|e| e.ty != "empty" || e.has_error())
                    .map(|e| (e.line, e.fields.iter().map(|f| format!("{:?}", f)).collect())).collect();
                let got: Vec<(usize, Vec<String>)> = es.iter().filter(|e| e.line < whole)
                    .map(|e| (e.line, e.fields.iter().map(|f| format!("{:?}", f)).collect())).collect();
                cx.check(got == want, "spoilt-entry", || format!(
                    "read failure at byte {} of {}: lines before it are {:?} instead of {:?}",
                    at, show(&r.data), got, want));
            }
            (Seen::Lines(es), None) => {
                // ended early: what the remaining bytes say, line by line
                let ls = split(&r.data);
                cx.check(es.len() == ls.len(), "line-count", || format!(
                    "{} entries for {}", es.len(), show(&r.data)));
                for (i, (b, ended)) in ls.iter().enumerate() {
                    if let (Ok(Seen::Lines(one)), Some(e)) = (plain(&alone(b, *ended), "lines"), es.get(i)) {
                        if let (Some(one), false) = (one.first(), b.is_empty()) {
                            cx.check(one.text_at(i) == e.text(), "spoilt-entry", || format!(
                                "cut input {}: entry {:?} instead of {:?}", show(&r.data), e, one));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn exec_c04(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (docs, rs) = run(scn, cx)?;
    for r in rs {
        match &r.seen {
            Err(a) => {
                let (c, d) = bad_end(a);
                cx.violation(c, format!("{} on {}", d, show(&r.data)));
                return Ok(());
            }
            Ok(Seen::Lines(es)) => {
                let ls = split(&r.data);
                cx.check(es.len() == ls.len(), "line-count", || format!(
                    "{} lines but {} entries for {}", ls.len(), es.len(), show(&r.data)));
                for (i, (b, ended)) in ls.iter().enumerate() {
                    let e = match es.get(i) { Some(e) => e, None => break };
                    cx.check(e.line == i, "line-number", || format!("entry {:?} is number {}", e, i));
                    if b.is_empty() {
                        continue;
                    }
                    match plain(&alone(b, *ended), "lines") {
                        Ok(Seen::Lines(one)) => {
                            let same = one.len() == 1 && one[0].text_at(i) == e.text();
                            cx.check(same, "not-contained", || format!(
                                "line {} of {} gives {:?}, by itself {:?}", i, show(&r.data), e, one));
                        }
                        Err(a) => {
                            let (c, d) = bad_end(&a);
                            cx.violation(c, format!("{} on {}", d, show(b)));
                        }
                        _ => {}
                    }
                    match std::str::from_utf8(b) {
                        Err(_) => {
                            cx.probe("line with invalid UTF-8");
                            cx.check(e.ty == "error" && e.has_error(), "invalid-utf8", || format!(
                                "the invalid line {} gives {:?}", show(b), e));
                        }
                        Ok(s) => {
                            let t = s.strip_suffix('\r').unwrap_or(s);
                            if let Err(a) = seam::call(None, || parse_cgd_line(t).is_ok()) {
                                let (c, d) = bad_end(&a);
                                cx.violation(c, format!("{} on {}", d, show(b)));
                            }
                        }
                    }
                }
                // against the intact document
                let intact = bytes(&docs[r.doc]);
                let before = split(&intact);
                if before.len() == ls.len() {
                    if let Ok(Seen::Lines(old)) = plain(&intact, "lines") {
                        for i in 0..ls.len() {
                            if before[i] == ls[i] {
                                let same = old.get(i).map(|o| o.text()) == es.get(i).map(|e| e.text());
                                cx.check(same, "not-contained", || format!(
                                    "line {} is undamaged in {} but its entry is {:?} instead of {:?}",
                                    i, show(&r.data), es.get(i), old.get(i)));
                            }
                        }
                    }
                }
            }
            Ok(Seen::Blocks(_)) => cx.judged(),
        }
    }
    Ok(())
}

/// What a block model expects of an entry.
#[derive(Debug)]
struct Want {
    line: usize,
    ty: &'static str,
    key: Option<String>,
    fields: Vec<Field>,
    /// must carry an error note / some note / must carry none
    note: &'static str,
}

#[derive(Debug, Default)]
struct WantBlock {
    ty: Option<String>,
    start: Option<usize>,
    end: usize,
    entries: Vec<Want>,
}

/// The grouping rules, written down from the property.
fn model_blocks(es: &[Obs]) -> Vec<WantBlock> {
    let mut out = vec![];
    let mut cur = WantBlock::default();
    let mut open = false;
    let mut key: Option<String> = None;
    for e in es {
        let noted = if e.has_error() { "error" } else { "none" };
        let mut w = Want { line: e.line, ty: "data", key: e.key.clone(), fields: e.fields.clone(), note: noted };
        match (e.ty, e.key.as_deref()) {
            ("error", _) => {
                w.ty = "error";
                w.key = None;
            }
            ("empty", _) => {
                if !e.has_error() {
                    continue;
                }
                w.ty = "empty";
                w.key = None;
            }
            (_, Some("end")) => {
                w.ty = "end";
                if !open {
                    w.note = "error";
                } else {
                    if !e.fields.is_empty() && noted == "none" {
                        w.note = "some";
                    }
                }
                cur.end = e.line;
                cur.entries.push(w);
                out.push(std::mem::take(&mut cur));
                open = false;
                key = None;
                continue;
            }
            (_, Some(k)) => {
                if open {
                    key = Some(k.to_string());
                } else {
                    w.ty = "begin";
                    open = true;
                    key = None;
                    cur.ty = Some(k.to_string());
                    cur.start = Some(e.line);
                    if !e.fields.is_empty() && noted == "none" {
                        w.note = "some";
                    }
                }
            }
            (_, None) => {
                w.key = key.clone();
                if !open {
                    w.note = "error";
                }
            }
        }
        cur.entries.push(w);
    }
    if !cur.entries.is_empty() {
        let last = cur.entries.last_mut().unwrap();
        cur.end = last.line;
        if open {
            last.note = "error";
        }
        out.push(cur);
    }
    out
}

fn exec_c05(scn: &Value, cx: &Cx) -> Result<(), String> {
    let (_, rs) = run(scn, cx)?;
    for r in rs {
        let bs = match &r.seen {
            Err(a) => {
                let (c, d) = bad_end(a);
                cx.violation(c, d);
                return Ok(());
            }
            Ok(Seen::Blocks(bs)) => bs,
            _ => continue,
        };
        // the grouping is judged on the lines as they are, which C02 is about
        let es = match plain(&r.data, "lines") {
            Ok(Seen::Lines(es)) => es,
            _ => continue,
        };
        let want = model_blocks(&es);
        let ctx = |what: String| format!("{}: {}; blocks {:?}", show(&r.data), what, bs);
        cx.check(bs.len() == want.len(), "block-count", || ctx(format!("expected {} blocks", want.len())));
        let lines: Vec<usize> = flat(bs).iter().map(|e| e.line).collect();
        let expect: Vec<usize> = want.iter().flat_map(|w| w.entries.iter().map(|e| e.line)).collect();
        cx.check(lines == expect, "lost-or-moved-line", || ctx(format!("expected lines {:?}", expect)));
        for (b, w) in bs.iter().zip(&want) {
            if let Some(t) = &w.ty {
                cx.check(b.ty == *t, "block-type", || ctx(format!("block type should be {:?}", t)));
                cx.check(Some(b.start) == w.start, "block-start", || ctx(format!("start should be {:?}", w.start)));
            } else {
                cx.probe("block without a type");
                // Data outside of blocks: of a trailing lot everything is
                // covered; otherwise the 'end' that was met is a start, too.
                let first = w.entries[0].line;
                let trailing = w.entries.iter().all(|e| e.ty != "end");
                let ok = b.start == first || !trailing && b.start == w.end;
                cx.check(ok, "block-start", || ctx(format!("start should be {}", first)));
            }
            cx.check(b.end == w.end, "block-end", || ctx(format!("end should be {}", w.end)));
            cx.check(b.entries.len() == w.entries.len(), "entry-count", || ctx(format!("expected {:?}", w)));
            for (e, w) in b.entries.iter().zip(&w.entries) {
                cx.check(e.line == w.line, "entry-order", || ctx(format!("expected line {}", w.line)));
                cx.check(e.ty == w.ty, "entry-type", || ctx(format!("line {} should be {:?}", w.line, w.ty)));
                cx.check(e.key == w.key, "carried-key", || ctx(format!("line {} should have key {:?}", w.line, w.key)));
                cx.check(format!("{:?}", e.fields) == format!("{:?}", w.fields), "entry-fields", || ctx(
                    format!("line {} should have fields {:?}", w.line, w.fields)));
                let ok = match w.note {
                    "error" => e.has_error(),
                    "some" => !e.notes.is_empty(),
                    _ => e.notes.is_empty(),
                };
                cx.check(ok, "note", || ctx(format!("line {}: notes should be: {}", w.line, w.note)));
            }
        }
    }
    Ok(())
}

const RULE: &str = "A run draws one or two CGD documents (grammar-built lines of all kinds, plus malformed and raw ones), \
    one to four readers of them, for each the sizes of all reads, interruptions, failures, cuts or damaged bytes, and the \
    schedule by which the readers alternate. Every run reads something, hence is non-trivial; two runs are the same if their \
    schedules and all entries read are.";
const REAL: &str = "io::parse_cgd_blocks, io::parse_cgd_line, nom, std::io::BufReader";
const STUBS: &str = "the byte source (simulated reader); threads are real but released one at a time by the simulated scheduler";
const ASSUME: &[&str] = &["the simulated source follows the contract of std::io::Read"];

pub const PROPS: [Prop; 5] = [
    Prop { id: "C01", gen: gen_c01, exec: exec_c01, quick_runs: 40_000, thorough_runs: 600_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C02", gen: gen_c02, exec: exec_c02, quick_runs: 60_000, thorough_runs: 1_000_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C03", gen: gen_c03, exec: exec_c03, quick_runs: 60_000, thorough_runs: 1_000_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C04", gen: gen_c04, exec: exec_c04, quick_runs: 60_000, thorough_runs: 1_000_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C05", gen: gen_c05, exec: exec_c05, quick_runs: 40_000, thorough_runs: 1_000_000,
        rule: RULE, real: REAL, stubs: STUBS, assumptions: ASSUME },
];
