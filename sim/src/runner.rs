//! Batches of runs, watchdog, minimisation, replay and evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::{fnv, run_seed, Rng, FNV0};
use crate::seam;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct RunState {
    pub capture: bool,
    pub digest: u64,
    pub signature: u64,
    pub log: Vec<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub judged: u64,
    pub nontrivial: bool,
    pub violation: Option<Violation>,
}

/// What a run records; shared by its simulated threads.
#[derive(Clone)]
pub struct Cx(pub Arc<Mutex<RunState>>);

impl Cx {
    pub fn new(capture: bool) -> Self {
        Cx(Arc::new(Mutex::new(RunState {
            capture,
            digest: FNV0,
            signature: FNV0,
            ..Default::default()
        })))
    }

    /// Records an observable event. Never draws randomness or reads a clock.
    pub fn log(&self, text: &str) {
        let mut s = self.0.lock().unwrap();
        s.digest = fnv(s.digest, text.as_bytes());
        s.digest = fnv(s.digest, b"\n");
        if s.capture && s.log.len() < 2000 {
            s.log.push(if text.len() > 400 {
                let mut cut = 400;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                format!("{}...", &text[..cut])
            } else {
                text.to_string()
            });
        }
    }

    /// A fault or scheduling event that actually happened.
    pub fn fault(&self, kind: &str) {
        self.faults(kind, 1);
    }

    pub fn faults(&self, kind: &str, n: u64) {
        if n > 0 {
            let mut s = self.0.lock().unwrap();
            *s.faults.entry(kind.to_string()).or_insert(0) += n;
            s.nontrivial = true;
        }
    }

    /// A rare condition that was reached.
    pub fn probe(&self, kind: &str) {
        let mut s = self.0.lock().unwrap();
        *s.probes.entry(kind.to_string()).or_insert(0) += 1;
    }

    /// Mixes something into the signature by which runs are told apart.
    pub fn sign(&self, bytes: &[u8]) {
        let mut s = self.0.lock().unwrap();
        s.signature = fnv(s.signature, bytes);
    }

    pub fn nontrivial(&self) {
        self.0.lock().unwrap().nontrivial = true;
    }

    pub fn step(&self) {
        self.0.lock().unwrap().steps += 1;
    }

    pub fn judged(&self) {
        self.0.lock().unwrap().judged += 1;
    }

    pub fn violated(&self) -> bool {
        self.0.lock().unwrap().violation.is_some()
    }

    pub fn violation(&self, class: &str, detail: String) {
        let mut s = self.0.lock().unwrap();
        if s.violation.is_none() {
            s.violation = Some(Violation { class: class.to_string(), detail });
        }
    }

    pub fn check(&self, ok: bool, class: &str, detail: impl FnOnce() -> String) {
        self.judged();
        if !ok {
            self.violation(class, detail());
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Value,
    /// Err: the scenario is not a valid one (can only happen while shrinking).
    pub exec: fn(&Value, &Cx) -> Result<(), String>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

/// An error of the harness itself; never reported as a violation.
pub fn harness_error(text: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", text);
    println!("{}", json!({"harness_error": text}));
    let _ = std::io::stdout().flush();
    unsafe { _exit(2) }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn getppid() -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn scenario_key(v: &Value) -> u64 {
    v.get("key").and_then(|k| k.as_u64()).unwrap_or(1)
}

/// A panic that has left a simulated thread.
pub struct Stray(pub String);

/// Executes one scenario in a fresh thread (fresh hash seeds), after those
/// that are needed to bring the process into the state in which it fails.
pub fn execute(prop: &'static Prop, scn: &Value, capture: bool) -> Result<RunState, String> {
    if let Some(p) = scn.get("prelude").filter(|p| !p.is_null()) {
        let seed = p["seed"].as_u64().ok_or("prelude")?;
        for i in p["indices"].as_array().ok_or("prelude")? {
            let _ = execute_one(prop, &generate(prop, seed, i.as_u64().ok_or("prelude")?), false);
        }
    }
    execute_one(prop, scn, capture)
}

fn execute_one(prop: &'static Prop, scn: &Value, capture: bool) -> Result<RunState, String> {
    let cx = Cx::new(capture);
    let key = scenario_key(scn);
    let res = std::thread::scope(|s| {
        let cx2 = cx.clone();
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
            seam::set_hash_key(key);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.exec)(scn, &cx2)));
            match r {
                Ok(r) => r,
                Err(p) => {
                    let text = match p.downcast::<Stray>() {
                        Ok(s) => s.0,
                        Err(_) => seam::last_panic(),
                    };
                    if cx2.violated() {
                        // already decided; the answer was too far off to go on with
                    } else if text.contains("/repo/src/") {
                        // The library panicked where the harness did not expect it to.
                        cx2.violation("panic", text);
                    } else if text.contains(" at src/") {
                        // An answer of a form that the oracle cannot take in: of
                        // the wrong size or dimension, say.
                        cx2.violation("malformed", format!("the oracle cannot take in an answer: {}", text));
                    } else {
                        harness_error(&text);
                    }
                    Ok(())
                }
            }
        });
        h.unwrap().join().unwrap()
    });
    res?;
    let mut s = cx.0.lock().unwrap();
    let v = s.violation.clone();
    if let Some(v) = v {
        s.digest = fnv(s.digest, v.class.as_bytes());
        s.digest = fnv(s.digest, v.detail.as_bytes());
    }
    Ok(std::mem::take(&mut *s))
}

pub fn generate(prop: &Prop, base: u64, index: u64) -> Value {
    let mut rng = Rng::new(run_seed(base, prop.id, index));
    let mut v = (prop.gen)(&mut rng);
    if v.get("key").is_none() {
        v["key"] = json!(rng.next());
    }
    v
}

// ---------------------------------------------------------------- worker

pub fn worker(prop: &'static Prop, base: u64, w: u64, nw: u64, n: u64, dir: &Path) -> i32 {
    limits();
    let progress = fs::OpenOptions::new().create(true).write(true)
        .open(dir.join(format!("progress{}", w))).unwrap();
    let digests_wanted = dir.join("digests").exists();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut signatures: BTreeSet<u64> = BTreeSet::new();
    let mut digests = vec![];
    let (mut runs, mut steps, mut judged, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut violation = Value::Null;
    let stop = dir.join("stop");
    let slow: Option<u128> = std::env::var("SIM_SLOW").ok().and_then(|s| s.parse().ok());

    let mut i = w;
    while i < n {
        if runs % 64 == 0 && stop.exists() {
            break;
        }
        write_progress(&progress, i);
        let t0 = Instant::now();
        let scn = generate(prop, base, i);
        let st = match execute(prop, &scn, false) {
            Ok(st) => st,
            Err(e) => harness_error(&format!("generated scenario rejected: {} {}", e, scn)),
        };
        if slow.is_some_and(|s| t0.elapsed().as_millis() > s) {
            eprintln!("slow: {} run {} took {} ms", prop.id, i, t0.elapsed().as_millis());
        }
        runs += 1;
        steps += st.steps;
        judged += st.judged;
        for (k, v) in st.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in st.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if st.nontrivial {
            nontrivial += 1;
            let mut sig = st.signature;
            sig = fnv(sig, &st.digest.to_le_bytes());
            signatures.insert(sig);
        }
        if digests_wanted {
            digests.push((i, st.digest));
        }
        if samples.len() < 2 && st.nontrivial && i % 7 == w % 7 {
            samples.push(json!({"index": i, "scenario": abbreviate(&scn, 0)}));
        }
        if let Some(v) = st.violation {
            violation = json!({"index": i, "class": v.class, "detail": v.detail});
            break;
        }
        i += nw;
    }
    write_progress(&progress, u64::MAX);
    let out = json!({
        "runs": runs, "steps": steps, "judged": judged, "nontrivial": nontrivial,
        "faults": faults, "probes": probes,
        "signatures": signatures, "samples": samples, "violation": violation,
        "hash_seeds": seam::HASH_SEEDS_SERVED.load(std::sync::atomic::Ordering::Relaxed),
        "digests": digests,
    });
    println!("{}", out);
    0
}

fn abbreviate(v: &Value, depth: usize) -> Value {
    match v {
        Value::String(s) if s.len() > 160 => {
            let cut: String = s.chars().take(160).collect();
            json!(format!("{}... ({} bytes)", cut, s.len()))
        }
        Value::Array(a) if a.len() > 24 => {
            let mut b: Vec<Value> = a.iter().take(24).map(|x| abbreviate(x, depth + 1)).collect();
            b.push(json!(format!("... ({} items)", a.len())));
            Value::Array(b)
        }
        Value::Array(a) => a.iter().map(|x| abbreviate(x, depth + 1)).collect(),
        Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), abbreviate(x, depth + 1))).collect(),
        _ => v.clone(),
    }
}

fn write_progress(f: &fs::File, i: u64) {
    use std::os::unix::fs::FileExt;
    let _ = f.write_at(&i.to_le_bytes(), 0);
}

fn read_progress(dir: &Path, w: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("progress{}", w))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn limits() {
    unsafe {
        let lim: [u64; 2] = [3 << 30, 3 << 30];
        setrlimit(9, &lim); // RLIMIT_AS
        let core: [u64; 2] = [0, 0];
        setrlimit(4, &core); // RLIMIT_CORE
    }
}

// ------------------------------------------------------------ supervisor

pub fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn(args: &[String], out: &Path) -> Child {
    let f = fs::File::create(out).unwrap();
    let parent = std::process::id() as i32;
    let mut c = Command::new(me());
    c.args(args).stdout(Stdio::from(f)).stderr(Stdio::inherit()).stdin(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            prctl(1, 9, 0, 0, 0); // die with the supervisor
            if getppid() != parent {
                _exit(3);
            }
            Ok(())
        });
    }
    c.spawn().unwrap()
}

/// CPU seconds used by a process so far: unlike wall time this does not count
/// the time during which a busy machine ran something else.
fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

const HANG_CPU: f64 = 30.0;
const HANG_WALL: f64 = 120.0;

#[derive(Debug)]
enum End {
    Exit(i32),
    Signal(i32),
    Hang,
}

/// Waits for a child; `progress` tells whether it is getting anywhere.
fn wait(mut child: Child, progress: &dyn Fn() -> u64) -> End {
    let pid = child.id();
    let mut last = progress();
    let mut cpu0 = cpu_seconds(pid).unwrap_or(0.0);
    let mut t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return match st.code() {
                Some(c) => End::Exit(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        let p = progress();
        let cpu = cpu_seconds(pid).unwrap_or(cpu0);
        if p != last {
            last = p;
            cpu0 = cpu;
            t0 = Instant::now();
        } else if cpu - cpu0 > HANG_CPU || t0.elapsed().as_secs_f64() > HANG_WALL {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn tmpdir(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("systre-sim-{}-{}", tag, std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

pub struct Batch {
    pub runs: u64,
    pub steps: u64,
    pub judged: u64,
    pub nontrivial: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub signatures: BTreeSet<u64>,
    pub samples: Vec<Value>,
    pub hash_seeds: u64,
    pub digests: BTreeMap<u64, u64>,
    /// (index, class, detail)
    pub violation: Option<(u64, String, String)>,
    pub wall: f64,
}

pub fn batch(prop: &'static Prop, base: u64, n: u64, nw: u64, digests: bool, cap: f64) -> Batch {
    let t0 = Instant::now();
    let dir = tmpdir(&format!("{}-{}", prop.id, nw));
    if digests {
        fs::write(dir.join("digests"), b"").unwrap();
    }
    let mut b = Batch {
        runs: 0, steps: 0, judged: 0, nontrivial: 0, faults: BTreeMap::new(),
        probes: BTreeMap::new(), signatures: BTreeSet::new(), samples: vec![],
        hash_seeds: 0, digests: BTreeMap::new(), violation: None, wall: 0.0,
    };
    let mut handles = vec![];
    for w in 0..nw {
        let args: Vec<String> = vec![
            "worker".into(), prop.id.into(), base.to_string(), w.to_string(),
            nw.to_string(), n.to_string(), dir.display().to_string(),
        ];
        let child = spawn(&args, &dir.join(format!("out{}", w)));
        let d = dir.clone();
        handles.push((w, std::thread::spawn(move || {
            wait(child, &|| read_progress(&d, w).unwrap_or(0))
        })));
    }
    let d = dir.clone();
    let done = Arc::new(Mutex::new(false));
    let done2 = done.clone();
    let capper = std::thread::spawn(move || {
        let t = Instant::now();
        while !*done2.lock().unwrap() {
            if t.elapsed().as_secs_f64() > cap {
                let _ = fs::write(d.join("stop"), b"");
                return;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
    });
    let mut crashes = vec![];
    for (w, h) in handles {
        let end = h.join().unwrap();
        let text = fs::read_to_string(dir.join(format!("out{}", w))).unwrap_or_default();
        let v: Value = text.lines().last()
            .and_then(|l| serde_json::from_str(l).ok()).unwrap_or(Value::Null);
        if let Some(e) = v.get("harness_error") {
            let _ = fs::remove_dir_all(&dir);
            harness_error(e.as_str().unwrap_or("?"));
        }
        match end {
            End::Exit(0) if v.get("runs").is_some() => {
                b.runs += v["runs"].as_u64().unwrap();
                b.steps += v["steps"].as_u64().unwrap();
                b.judged += v["judged"].as_u64().unwrap();
                b.nontrivial += v["nontrivial"].as_u64().unwrap();
                b.hash_seeds += v["hash_seeds"].as_u64().unwrap();
                for (name, into) in [("faults", &mut b.faults), ("probes", &mut b.probes)] {
                    for (k, c) in v[name].as_object().unwrap() {
                        *into.entry(k.clone()).or_insert(0) += c.as_u64().unwrap();
                    }
                }
                for s in v["signatures"].as_array().unwrap() {
                    b.signatures.insert(s.as_u64().unwrap());
                }
                for s in v["digests"].as_array().unwrap() {
                    b.digests.insert(s[0].as_u64().unwrap(), s[1].as_u64().unwrap());
                }
                b.samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                if !v["violation"].is_null() {
                    let i = v["violation"]["index"].as_u64().unwrap();
                    if b.violation.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                        b.violation = Some((
                            i,
                            v["violation"]["class"].as_str().unwrap().into(),
                            v["violation"]["detail"].as_str().unwrap().into(),
                        ));
                    }
                }
            }
            other => crashes.push((w, other)),
        }
    }
    *done.lock().unwrap() = true;
    capper.join().unwrap();
    for (w, end) in crashes {
        let i = read_progress(&dir, w).unwrap_or(u64::MAX);
        if i == u64::MAX {
            let _ = fs::remove_dir_all(&dir);
            harness_error(&format!("worker {} ended with {:?} outside of a run", w, end));
        }
        b.runs += 1;
        if b.violation.as_ref().map(|x| x.0 > i).unwrap_or(true) {
            // Confirm in a process of its own before believing it.
            let scn = generate(prop, base, i);
            match isolated(prop, &scn, &dir) {
                Iso::Violation(class, detail) => b.violation = Some((i, class, detail)),
                // a crowded machine: the rest of this worker's share is lost,
                // which the number of runs reported shows
                Iso::Fine if !digests && matches!(end, End::Hang | End::Signal(9)) => {
                    println!("note: worker {} ended with {:?} in run {}, which is fine when repeated", w, end, i);
                }
                Iso::Fine => {
                    let _ = fs::remove_dir_all(&dir);
                    harness_error(&format!("run {} ended with {:?}, but not when repeated", i, end));
                }
                Iso::Invalid => unreachable!(),
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    b.wall = t0.elapsed().as_secs_f64();
    b
}

enum Iso {
    Violation(String, String),
    Fine,
    Invalid,
}

/// Executes a scenario in a process of its own, so that aborts, runaway
/// memory and endless loops become results.
fn isolated(prop: &'static Prop, scn: &Value, dir: &Path) -> Iso {
    let f = dir.join("iso.json");
    fs::write(&f, scn.to_string()).unwrap();
    let out = dir.join("iso.out");
    let child = spawn(&["exec-one".into(), prop.id.into(), f.display().to_string()], &out);
    match wait(child, &|| 0) {
        End::Exit(0) => Iso::Fine,
        End::Exit(4) => Iso::Invalid,
        End::Exit(1) => {
            let text = fs::read_to_string(&out).unwrap_or_default();
            let v: Value = serde_json::from_str(text.lines().last().unwrap_or("")).unwrap_or(Value::Null);
            Iso::Violation(
                v["class"].as_str().unwrap_or("?").into(),
                v["detail"].as_str().unwrap_or("?").into(),
            )
        }
        End::Exit(2) => harness_error("in an isolated run (see above)"),
        End::Exit(c) => Iso::Violation("process-exit".into(), format!("the process ended with code {}", c)),
        End::Signal(s) => Iso::Violation(
            "abort".into(),
            format!("the process was killed by signal {} (memory limit 3 GB, stack 16 MB)", s),
        ),
        End::Hang => Iso::Violation("hang".into(), format!("no result after {} s of CPU time", HANG_CPU)),
    }
}

pub fn exec_one(prop: &'static Prop, file: &str) -> i32 {
    limits();
    let scn: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    match execute(prop, &scn, false) {
        Err(_) => 4,
        Ok(st) => match st.violation {
            None => 0,
            Some(v) => {
                println!("{}", json!({"class": v.class, "detail": v.detail}));
                1
            }
        },
    }
}

// ---------------------------------------------------------- minimisation

pub fn minimize_cmd(prop: &'static Prop, file: &str, class: &str, out: &str) -> i32 {
    limits();
    let mut best: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    crate::shrink::shrink(
        &mut best,
        &mut |v| {
            matches!(execute(prop, v, false), Ok(st)
                if st.violation.as_ref().map(|x| x.class == class).unwrap_or(false))
        },
        &mut |v| {
            let tmp = format!("{}.new", out);
            fs::write(&tmp, v.to_string()).unwrap();
            fs::rename(&tmp, out).unwrap();
        },
        Duration::from_secs(50),
    );
    0
}

fn minimize(prop: &'static Prop, scn: &Value, class: &str) -> Value {
    let dir = tmpdir("min");
    let mut best = scn.clone();
    if matches!(class, "abort" | "hang" | "process-exit") || scn.get("prelude").is_some() {
        // Every attempt costs a process (and a time-out); keep it short.
        let t0 = Instant::now();
        let limit = Duration::from_secs(if class == "hang" { 120 } else { 60 });
        let d = dir.clone();
        crate::shrink::shrink(
            &mut best,
            &mut |v| {
                t0.elapsed() < limit
                    && matches!(isolated(prop, v, &d), Iso::Violation(c, _) if c == class)
            },
            &mut |_| {},
            limit,
        );
    } else {
        let f = dir.join("scn.json");
        let out = dir.join("min.json");
        fs::write(&f, scn.to_string()).unwrap();
        let child = spawn(
            &["minimize".into(), prop.id.into(), f.display().to_string(), class.into(),
              out.display().to_string()],
            &dir.join("min.out"),
        );
        let t0 = Instant::now();
        let _ = wait(child, &|| t0.elapsed().as_secs() / 5);
        if let Ok(s) = fs::read_to_string(&out) {
            if let Ok(v) = serde_json::from_str(&s) {
                best = v;
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    best
}

// --------------------------------------------------------------- replay

fn replay_record(prop: &'static Prop, scn: &Value, class: &str, detail: &str) -> Value {
    if matches!(class, "abort" | "hang" | "process-exit") {
        return json!({"property": prop.id, "class": class, "detail": detail, "scenario": scn});
    }
    match execute(prop, scn, true) {
        Ok(st) => {
            let v = st.violation.unwrap_or(Violation { class: class.into(), detail: detail.into() });
            json!({
                "property": prop.id, "class": v.class, "detail": v.detail,
                "scenario": scn, "digest": format!("{:016x}", st.digest), "log": st.log,
            })
        }
        Err(e) => harness_error(&e),
    }
}

pub fn replay(prop: &'static Prop, rec: &Value, path: &str) -> i32 {
    let dir = tmpdir("replay");
    let scn = &rec["scenario"];
    let r = isolated(prop, scn, &dir);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Iso::Violation(class, detail) => {
            let same = class == rec["class"].as_str().unwrap_or("");
            println!("class: {}{}", class, if same { "" } else { " (recorded: different)" });
            println!("detail: {}", detail);
            if !matches!(&class[..], "abort" | "hang" | "process-exit") {
                let now = replay_record(prop, scn, &class, &detail);
                for l in now["log"].as_array().unwrap() {
                    println!("  {}", l.as_str().unwrap());
                }
                println!("digest: {} recorded: {}", now["digest"], rec["digest"]);
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        Iso::Fine => {
            println!("does not fail");
            0
        }
        Iso::Invalid => {
            println!("not a valid scenario");
            2
        }
    }
}

/// The scenario; if it does not fail in a process of its own, preceded by as
/// many of the runs that its worker did before as it takes. The second result
/// tells if it failed again at all: what was seen once was seen (all that the
/// simulator controls is repeated exactly, see `determinism`), but code that
/// depends on, say, memory addresses need not do it twice.
fn with_prelude(prop: &'static Prop, base: u64, i: u64, nw: u64, class: &str) -> (Value, bool) {
    let mut scn = generate(prop, base, i);
    let dir = tmpdir("pre");
    let fails = |v: &Value| matches!(isolated(prop, v, &dir), Iso::Violation(c, _) if c == class);
    let mut k = 0;
    while !fails(&scn) {
        let n = i / nw;
        if k >= n {
            let _ = fs::remove_dir_all(&dir);
            return (scn, false);
        }
        k = (2 * k).max(1).min(n);
        let idx: Vec<u64> = (1..=k).rev().map(|j| i - j * nw).collect();
        scn["prelude"] = json!({"seed": base, "indices": idx});
    }
    let _ = fs::remove_dir_all(&dir);
    (scn, true)
}

// ---------------------------------------------------------------- check

pub fn check(prop: &'static Prop, tier: Tier, base: u64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let n = match tier {
        Tier::Quick => prop.quick_runs,
        Tier::Thorough => prop.thorough_runs,
    };
    let n = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap = match tier {
        Tier::Quick => 300.0,
        Tier::Thorough => 3000.0,
    };
    println!("property={} seed={} runs={} workers={}", prop.id, base, n, nw);
    let b = batch(prop, base, n, nw, false, cap);

    let mut code = 0;
    let mut violations = 0;
    if let Some((i, class, detail)) = &b.violation {
        violations = 1;
        println!("run {} failed: {}: {}", i, class, detail);
        let (scn, again) = with_prelude(prop, base, *i, nw, class);
        let small = if again { minimize(prop, &scn, class) } else { scn };
        let mut rec = if again {
            replay_record(prop, &small, class, detail)
        } else {
            println!("the failure did not come back when the run was repeated: the code depends on something \
                outside the simulator's control, such as memory addresses");
            json!({"property": prop.id, "class": class, "detail": detail, "scenario": small, "not_repeated": true})
        };
        rec["seed"] = json!(base);
        rec["index"] = json!(i);
        let text = serde_json::to_string_pretty(&rec).unwrap();
        let dir = verif.join("replays");
        fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{:016x}.json", prop.id, fnv(FNV0, small.to_string().as_bytes())));
        fs::write(&path, text).unwrap();
        println!("minimised: {}", rec["detail"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
    }

    // The same seeds again in other processes, shared out differently: what a
    // run records must not change. For the evidence; code that depends on what
    // the simulator does not control shows here first.
    let mut repeated = json!("not done after a violation");
    if code == 0 {
        let few = n.min(64);
        let (x, y) = (batch(prop, base, few, nw, true, 60.0), batch(prop, base, few, 3, true, 60.0));
        let differ = x.digests.iter().filter(|(i, d)| y.digests.get(i).is_some_and(|e| e != *d)).count();
        repeated = json!({"runs": x.digests.len().min(y.digests.len()), "records_that_differ": differ});
    }

    let rate = |x: u64| (x as f64 / b.wall * 3600.0).round();
    let ev = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": b.signatures.len(),
            "rule": prop.rule,
            "samples": b.samples.iter().take(4).collect::<Vec<_>>(),
            "nontrivial_runs": b.nontrivial,
            "seeds_requested": n,
            "runs_and_seeds_per_hour": rate(b.runs),
            "simulated_steps": b.steps,
            "simulated_time": "none: the code has no clock or timer; time is the number of steps and yield points",
            "judged_answers": b.judged,
            "faults_and_schedule_events_that_happened": b.faults,
            "conditions_reached": b.probes,
            "hash_seed_requests_served": b.hash_seeds,
            "real_components": prop.real,
            "stub_components": prop.stubs,
            "workers": nw,
            "repeated_in_other_processes": repeated,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif.join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ).unwrap();
    println!(
        "{}: {} runs ({} distinct), {} answers judged, {} violation(s), {:.1} s",
        prop.id, b.runs, b.signatures.len(), b.judged, violations, t0.elapsed().as_secs_f64()
    );
    code
}

/// Same seeds, several processes, different numbers of workers: the event
/// logs must be identical.
pub fn determinism(prop: &'static Prop, base: u64, n: u64) -> bool {
    let a = batch(prop, base, n, 8, true, 600.0);
    let b = batch(prop, base, n, 3, true, 600.0);
    let diff: Vec<_> = a.digests.iter().filter(|(i, d)| b.digests.get(i) != Some(d)).map(|x| *x.0).collect();
    println!("{} seed {}: {} runs compared, {} differ {:?}", prop.id, base, a.digests.len(), diff.len(),
        diff.iter().take(5).collect::<Vec<_>>());
    diff.is_empty() && a.digests.len() == b.digests.len()
}
