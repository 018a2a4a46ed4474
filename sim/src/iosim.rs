//! Simulated sources and sinks. Every delivery, interruption and failure is
//! written in the scenario; nothing is drawn while running.

use std::fmt;
use std::io::{self, Read, Write};

use serde_json::{json, Value};

use crate::rng::Rng;
use crate::runner::Cx;
use crate::seam;

/// Bytes as text, one character per byte, so that scenarios stay readable.
pub fn enc(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}

pub fn dec(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

pub fn kind_of(name: &str) -> io::ErrorKind {
    use io::ErrorKind::*;
    match name {
        "would-block" => WouldBlock,
        "timed-out" => TimedOut,
        "broken-pipe" => BrokenPipe,
        "reset" => ConnectionReset,
        "invalid-data" => InvalidData,
        "unexpected-eof" => UnexpectedEof,
        "out-of-memory" => OutOfMemory,
        "permission" => PermissionDenied,
        "storage-full" => StorageFull,
        "write-zero" => WriteZero,
        _ => Other,
    }
}

pub const READ_KINDS: [&str; 9] = [
    "eio", "would-block", "timed-out", "broken-pipe", "reset", "invalid-data",
    "unexpected-eof", "out-of-memory", "permission",
];

/// {"reads": [n, ...], "fail": {"at": p, "kind": k, "once": b} | null}
/// n > 0: hand out at most n bytes; 0: fail as interrupted. When the list is
/// used up the rest is handed out in one piece.
pub struct SimReader<'a> {
    cx: &'a Cx,
    data: &'a [u8],
    pos: usize,
    reads: Vec<u64>,
    next: usize,
    fail: Option<(usize, String, bool)>,
    failed: u64,
    total: u64,
    pub after_failure: u64,
}

pub fn valid_delivery(v: &Value) -> bool {
    v["reads"].as_array().map(|a| a.iter().all(|x| x.is_u64())).unwrap_or(false)
        && (v["fail"].is_null()
            || (v["fail"]["at"].is_u64() && v["fail"]["kind"].is_string() && v["fail"]["once"].is_boolean()))
}

impl<'a> SimReader<'a> {
    pub fn new(cx: &'a Cx, data: &'a [u8], delivery: &Value) -> Self {
        let fail = delivery["fail"].as_object().map(|f| (
            (f["at"].as_u64().unwrap() as usize).min(data.len()),
            f["kind"].as_str().unwrap().to_string(),
            f["once"].as_bool().unwrap(),
        ));
        SimReader {
            cx, data, pos: 0,
            reads: delivery["reads"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            next: 0, fail, failed: 0, total: 0, after_failure: 0,
        }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        seam::tick();
        self.cx.step();
        self.total += 1;
        if self.failed > 0 {
            self.after_failure += 1;
            if self.after_failure > 1000 {
                seam::out_of_budget("reads after a failure");
            }
        }
        if self.total > 20 * self.data.len() as u64 + 20_000 {
            seam::out_of_budget("reads");
        }
        let mut limit = self.data.len();
        if let Some((at, kind, once)) = &self.fail {
            let live = self.failed == 0 || !*once;
            if live && self.pos >= *at {
                self.failed += 1;
                if self.failed == 1 {
                    self.cx.fault(&format!("read-error:{}", kind));
                    if self.pos > 0 && self.data[self.pos - 1] != b'\n' {
                        self.cx.probe("read error in mid-line");
                    }
                }
                return Err(io::Error::new(kind_of(kind), "injected"));
            }
            if live {
                limit = *at;
            }
        }
        let mut n = limit - self.pos;
        if let Some(k) = self.reads.get(self.next) {
            self.next += 1;
            if *k == 0 {
                self.cx.fault("read-interrupted");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
            }
            if (*k as usize) < n.min(buf.len()) {
                self.cx.fault("short-read");
                if self.data[self.pos + *k as usize] & 0xC0 == 0x80 {
                    self.cx.probe("read splits a character");
                }
                if self.data[self.pos + *k as usize - 1] == b'\r' {
                    self.cx.probe("read splits CR LF");
                }
            }
            n = n.min(*k as usize);
        }
        let n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Draws a delivery for `len` bytes; `fail` allows for a failing read.
pub fn gen_delivery(rng: &mut Rng, len: usize, fail: bool) -> Value {
    let mut reads = vec![];
    let style = rng.below(6);
    let mut left = len as i64;
    while left > 0 && reads.len() < 400 {
        if style > 0 && rng.chance(12) {
            reads.push(0);
            continue;
        }
        let k = match style {
            0 => break,
            1 => 1,
            2 => rng.range(1, 4),
            3 => rng.log2(7) as i64,
            4 => rng.log2(13) as i64,
            _ => *rng.pick(&[1i64, 2, 3, 8191, 8192, 8193, 100]),
        };
        reads.push(k as u64);
        left -= k;
    }
    let f = if fail {
        json!({
            "at": rng.below(len + 1),
            "kind": *rng.pick(&READ_KINDS),
            "once": rng.chance(50),
        })
    } else {
        Value::Null
    };
    json!({"reads": reads, "fail": f})
}

/// {"writes": [n, ...], "fail": {"at": p, "kind": k} | null}: as for sources;
/// a failure at byte p means that p bytes are accepted and no more, ever.
pub struct SimWriter<'a> {
    cx: &'a Cx,
    pub got: Vec<u8>,
    writes: Vec<u64>,
    next: usize,
    fail: Option<(usize, String)>,
    pub failed: bool,
    total: u64,
}

pub fn valid_sink(v: &Value) -> bool {
    v["writes"].as_array().map(|a| a.iter().all(|x| x.is_u64())).unwrap_or(false)
        && (v["fail"].is_null() || (v["fail"]["at"].is_u64() && v["fail"]["kind"].is_string()))
}

impl<'a> SimWriter<'a> {
    pub fn new(cx: &'a Cx, sink: &Value) -> Self {
        SimWriter {
            cx, got: vec![],
            writes: sink["writes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
            next: 0,
            fail: sink["fail"].as_object()
                .map(|f| (f["at"].as_u64().unwrap() as usize, f["kind"].as_str().unwrap().to_string())),
            failed: false, total: 0,
        }
    }
}

impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        seam::tick();
        self.cx.step();
        self.total += 1;
        if self.total > 2_000_000 {
            seam::out_of_budget("writes");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some((at, kind)) = &self.fail {
            if self.got.len() >= *at {
                if !self.failed {
                    self.cx.fault(&format!("write-error:{}", kind));
                }
                self.failed = true;
                if kind == "write-zero" {
                    return Ok(0);
                }
                return Err(io::Error::new(kind_of(kind), "injected"));
            }
            n = n.min(*at - self.got.len());
        }
        if let Some(k) = self.writes.get(self.next) {
            self.next += 1;
            if *k == 0 {
                self.cx.fault("write-interrupted");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
            }
            if (*k as usize) < n {
                self.cx.fault("short-write");
                n = *k as usize;
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A formatter sink that accepts `room` bytes, then fails for good. What fits
/// of the piece that hits the limit is still accepted.
pub struct SimFmt<'a> {
    pub cx: &'a Cx,
    pub got: String,
    pub room: usize,
    pub failed: bool,
    pub after: u64,
    /// The sink recovers after having failed once.
    pub once: bool,
}

impl fmt::Write for SimFmt<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        seam::tick();
        self.cx.step();
        if self.failed {
            self.after += 1;
            if !self.once {
                return Err(fmt::Error);
            }
            self.got.push_str(s);
            return Ok(());
        }
        if self.got.len() + s.len() > self.room {
            let mut n = self.room - self.got.len();
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.got.push_str(&s[..n]);
            self.failed = true;
            self.cx.fault("format-error");
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

pub fn gen_sink(rng: &mut Rng, fail_at: Option<usize>) -> Value {
    let mut writes = vec![];
    let style = rng.below(4);
    if style > 0 {
        for _ in 0..rng.below(60) {
            if rng.chance(15) {
                writes.push(0);
            } else {
                writes.push(match style {
                    1 => 1,
                    2 => rng.range(1, 3) as u64,
                    _ => rng.log2(6),
                });
            }
        }
    }
    let f = match fail_at {
        Some(at) => json!({"at": at, "kind":
            *rng.pick(&["storage-full", "eio", "broken-pipe", "write-zero", "would-block"])}),
        None => Value::Null,
    };
    json!({"writes": writes, "fail": f})
}

/// A schedule with up to `n` preemptions.
pub fn gen_plan(rng: &mut Rng, n: usize, bits: u32) -> Value {
    let k = rng.below(n + 1);
    let style = rng.below(3);
    (0..k).map(|_| json!([
        match style { 0 => 0, 1 => rng.below(6) as u64, _ => rng.log2(bits) },
        rng.below(8)
    ])).collect()
}

pub fn plan_of(v: &Value) -> Option<crate::sched::Plan> {
    v.as_array()?.iter().map(|p| Some((p.get(0)?.as_u64()? as u32, p.get(1)?.as_u64()? as u32))).collect()
}
