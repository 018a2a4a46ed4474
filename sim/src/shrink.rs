//! Generic minimisation of scenarios, which are JSON documents: drop array
//! items, clear optional values, shrink numbers and strings, for as long as
//! the same class of violation remains.

use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone)]
enum Key {
    Idx(usize),
    Name(String),
}

fn paths(v: &Value, here: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Key::Idx(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(Key::Name(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[Key]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in path {
        v = match k {
            Key::Idx(i) => v.as_array_mut()?.get_mut(*i)?,
            Key::Name(n) => v.as_object_mut()?.get_mut(n)?,
        };
    }
    Some(v)
}

pub fn shrink(
    best: &mut Value,
    fails: &mut dyn FnMut(&Value) -> bool,
    save: &mut dyn FnMut(&Value),
    limit: Duration,
) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let over = |t: &mut u64| {
        *t += 1;
        t0.elapsed() > limit || *t > 20_000
    };

    loop {
        let before = best.to_string();

        // Arrays and strings: remove chunks, large ones first.
        let mut ps = vec![];
        paths(best, &mut vec![], &mut ps);
        for p in &ps {
            let len = match at(best, p) {
                Some(Value::Array(a)) => a.len(),
                Some(Value::String(s)) => s.chars().count(),
                _ => continue,
            };
            let mut chunk = len;
            while chunk > 0 {
                let mut start = 0;
                loop {
                    let mut cand = best.clone();
                    let n = match at(&mut cand, p) {
                        Some(Value::Array(a)) => {
                            if start >= a.len() {
                                break;
                            }
                            let end = (start + chunk).min(a.len());
                            a.drain(start..end);
                            a.len()
                        }
                        Some(v @ Value::String(_)) => {
                            let cs: Vec<char> = v.as_str().unwrap().chars().collect();
                            if start >= cs.len() {
                                break;
                            }
                            let end = (start + chunk).min(cs.len());
                            let s: String = cs[..start].iter().chain(&cs[end..]).collect();
                            let n = s.len();
                            *v = Value::String(s);
                            n
                        }
                        _ => break,
                    };
                    let _ = n;
                    if over(&mut tries) {
                        return;
                    }
                    if fails(&cand) {
                        *best = cand;
                        save(best);
                    } else {
                        start += chunk;
                    }
                }
                chunk /= 2;
            }
        }

        // Scalars.
        let mut ps = vec![];
        paths(best, &mut vec![], &mut ps);
        for p in &ps {
            let mut cands: Vec<Value> = vec![];
            match at(best, p) {
                Some(Value::Number(n)) => {
                    if let Some(x) = n.as_i64() {
                        for y in [0, 1, x / 2, x - x.signum()] {
                            if y != x && y.abs() <= x.abs() {
                                cands.push(y.into());
                            }
                        }
                    } else if n.as_u64().is_some() {
                        cands.push(1.into());
                    }
                    // may be an optional value
                    cands.push(Value::Null);
                }
                Some(Value::Bool(true)) => cands.push(Value::Bool(false)),
                Some(Value::Object(_)) => cands.push(Value::Null),
                _ => continue,
            }
            for c in cands {
                let mut cand = best.clone();
                match at(&mut cand, p) {
                    Some(v) => *v = c,
                    None => break,
                }
                if over(&mut tries) {
                    return;
                }
                if fails(&cand) {
                    *best = cand;
                    save(best);
                    break;
                }
            }
        }

        if best.to_string() == before {
            return;
        }
    }
}
