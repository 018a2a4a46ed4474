//! Simulated threads: real threads of which exactly one is released at a time,
//! at yield points, by a scheduler that follows an explicit plan.

use serde_json::Value;
use std::sync::{Arc, Condvar, Mutex};
use std::thread;

use crate::iosim::plan_of;
use crate::rng::{fnv, FNV0};
use crate::runner::Cx;
use crate::seam;

/// After `gap` further yield points, switch to the runnable task number
/// `pick` (modulo the number of runnable tasks).
pub type Plan = Vec<(u32, u32)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Waiting(usize),
    Done,
}

struct State {
    current: usize,
    status: Vec<Status>,
    locks: Vec<bool>,
    plan: Plan,
    next: usize,
    gap: u64,
    clock: u64,
    switches: u64,
    hash: u64,
    trace: Vec<(u64, usize)>,
}

pub struct Sched {
    state: Mutex<State>,
    cv: Vec<Condvar>,
}

pub struct SchedReport {
    pub switches: u64,
    pub yields: u64,
    pub hash: u64,
    pub trace: Vec<(u64, usize)>,
}

impl Sched {
    pub fn new(tasks: usize, locks: usize, plan: &Plan) -> Arc<Self> {
        let gap = plan.first().map(|p| p.0 as u64).unwrap_or(u64::MAX);
        Arc::new(Sched {
            state: Mutex::new(State {
                current: 0,
                status: vec![Status::Ready; tasks],
                locks: vec![false; locks],
                plan: plan.clone(),
                next: 0,
                gap,
                clock: 0,
                switches: 0,
                hash: FNV0,
                trace: vec![],
            }),
            cv: (0..tasks).map(|_| Condvar::new()).collect(),
        })
    }

    fn runnable(s: &State) -> Vec<usize> {
        (0..s.status.len()).filter(|&i| s.status[i] == Status::Ready).collect()
    }

    fn advance_plan(s: &mut State) -> Option<u32> {
        let p = s.plan.get(s.next).copied();
        s.next += 1;
        s.gap = s.plan.get(s.next).map(|p| p.0 as u64).unwrap_or(u64::MAX);
        p.map(|p| p.1)
    }

    fn switch_to(&self, s: &mut State, to: usize) {
        s.current = to;
        s.switches += 1;
        s.hash = fnv(s.hash, &s.clock.to_le_bytes());
        s.hash = fnv(s.hash, &[to as u8]);
        if s.trace.len() < 200 {
            let c = s.clock;
            s.trace.push((c, to));
        }
        self.cv[to].notify_all();
    }

    /// Gives the baton to some runnable task other than `me`, if there is one.
    fn leave(&self, s: &mut State) {
        let pick = Self::advance_plan(s).unwrap_or(0) as usize;
        let ready = Self::runnable(s);
        if !ready.is_empty() {
            let to = ready[pick % ready.len()];
            self.switch_to(s, to);
        }
    }

    pub fn yield_point(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.clock += 1;
        if s.gap > 0 {
            s.gap -= 1;
            return;
        }
        if let Some(pick) = Self::advance_plan(&mut s) {
            let ready = Self::runnable(&s);
            let to = ready[pick as usize % ready.len()];
            if to != me {
                self.switch_to(&mut s, to);
                while s.current != me {
                    s = self.cv[me].wait(s).unwrap();
                }
            }
        }
    }

    fn wait_for_turn(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.current != me {
            s = self.cv[me].wait(s).unwrap();
        }
    }

    fn finish(&self, me: usize, broken: bool) {
        let mut s = self.state.lock().unwrap();
        if broken {
            // it may have held locks; the run is a failure anyway
            s.locks.iter_mut().for_each(|l| *l = false);
            for st in s.status.iter_mut().filter(|st| matches!(st, Status::Waiting(_))) {
                *st = Status::Ready;
            }
        }
        s.status[me] = Status::Done;
        self.leave(&mut s);
    }

    pub fn lock(&self, me: usize, l: usize) {
        let mut s = self.state.lock().unwrap();
        while s.locks[l] {
            s.status[me] = Status::Waiting(l);
            self.leave(&mut s);
            while s.current != me {
                s = self.cv[me].wait(s).unwrap();
            }
        }
        s.locks[l] = true;
    }

    pub fn unlock(&self, _me: usize, l: usize) {
        let mut s = self.state.lock().unwrap();
        s.locks[l] = false;
        for st in s.status.iter_mut() {
            if *st == Status::Waiting(l) {
                *st = Status::Ready;
            }
        }
    }

    pub fn report(&self) -> SchedReport {
        let s = self.state.lock().unwrap();
        SchedReport { switches: s.switches, yields: s.clock, hash: s.hash, trace: s.trace.clone() }
    }
}

/// Runs the tasks to their ends, one at a time, each in a fresh thread with
/// its own hash key. A panic that leaves a task is passed on at the end.
pub fn run_tasks<'a>(
    locks: usize,
    plan: &Plan,
    tasks: Vec<(u64, Box<dyn FnOnce(usize) + Send + 'a>)>,
) -> SchedReport {
    let sched = Sched::new(tasks.len(), locks, plan);
    thread::scope(|scope| {
        let mut handles = vec![];
        for (me, (key, body)) in tasks.into_iter().enumerate() {
            let sched = sched.clone();
            handles.push(scope.spawn(move || {
                seam::set_hash_key(key);
                sched.wait_for_turn(me);
                seam::enter_task(sched.clone(), me);
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(me)));
                sched.finish(me, res.is_err());
                res.err().map(|_| seam::last_panic())
            }));
        }
        let stray: Vec<String> = handles.into_iter().filter_map(|h| h.join().unwrap()).collect();
        let first = stray.iter().find(|s| s.contains("/repo/src/")).or(stray.first());
        if let Some(s) = first.cloned() {
            std::panic::panic_any(crate::runner::Stray(s));
        }
    });
    sched.report()
}

// ------------------------------------------------ runs of the usual form

pub fn common(scn: &Value) -> Result<(Vec<(u64, Vec<Value>)>, Plan), String> {
    let mut tasks = vec![];
    for t in scn["tasks"].as_array().ok_or("tasks")? {
        tasks.push((t["key"].as_u64().ok_or("key")?, t["ops"].as_array().ok_or("ops")?.clone()));
    }
    if tasks.is_empty() || tasks.len() > 8 {
        return Err("tasks".into());
    }
    Ok((tasks, plan_of(&scn["plan"]).ok_or("plan")?))
}

/// Runs f for every operation of every task under the plan.
pub fn drive(
    cx: &Cx, locks: usize, tasks: Vec<(u64, Vec<Value>)>, plan: &Plan,
    f: &(dyn Fn(usize, &Value) + Sync),
) -> u64 {
    let bodies = tasks.into_iter().map(|(key, ops)| {
        let cx = cx.clone();
        let body: Box<dyn FnOnce(usize) + Send> = Box::new(move |me| {
            let (sched, _) = seam::current_task().unwrap();
            for op in &ops {
                sched.yield_point(me);
                let l = op["b"].as_u64().filter(|_| locks > 0).map(|l| l as usize);
                if let Some(l) = l {
                    sched.lock(me, l);
                }
                if !cx.violated() {
                    cx.step();
                    f(me, op);
                }
                if let Some(l) = l {
                    sched.unlock(me, l);
                }
            }
        });
        (key, body)
    }).collect();
    let rep = run_tasks(locks, plan, bodies);
    cx.faults("preemption", rep.switches);
    cx.sign(&rep.hash.to_le_bytes());
    cx.log(&format!("switches {} yields {} schedule {:016x}", rep.switches, rep.yields, rep.hash));
    rep.hash
}
