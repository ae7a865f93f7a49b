//! Runs indexed finite families of cases on all cores, completely and deterministically.
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Distinct hashes kept per thread and set; beyond this the count is a lower bound.
const SET_CAP: usize = 1_500_000;

#[derive(Default)]
pub struct Ctx {
    pub traces: u64,
    pub transitions: u64,
    pub states: HashSet<u64, NoHash>,
    pub outcomes: HashSet<u64, NoHash>,
    pub capped: bool,
    /// Named extra counters.
    pub counters: std::collections::BTreeMap<&'static str, u64>,
    /// (clause, description) of violations in the current case.
    pub viols: Vec<(String, String)>,
    /// Description of the current case, set lazily by describe().
    pub want_desc: bool,
    pub desc: String,
    pub verbose: bool,
}

#[derive(Default, Clone, Copy)]
pub struct NoHash;
pub struct NoHasher(u64);
impl std::hash::BuildHasher for NoHash {
    type Hasher = NoHasher;
    fn build_hasher(&self) -> NoHasher {
        NoHasher(0)
    }
}
impl std::hash::Hasher for NoHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

impl Ctx {
    pub fn state(&mut self, h: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.capped = true;
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < SET_CAP {
            self.outcomes.insert(h);
        } else if !self.outcomes.contains(&h) {
            self.capped = true;
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn fail(&mut self, clause: &str, msg: String) {
        if self.viols.len() < 4 {
            self.viols.push((clause.to_string(), msg));
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc || self.verbose {
            self.desc = f();
        }
    }
}

pub struct Family {
    pub name: String,
    /// What is enumerated, for the evidence file.
    pub what: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
    /// Index granularity of work distribution.
    pub chunk: u64,
}

impl Family {
    pub fn new(name: &str, what: &str, n: u64, f: impl Fn(u64, &mut Ctx) + Send + Sync + 'static) -> Family {
        let chunk = (n / 512).clamp(1, 256);
        Family { name: name.into(), what: what.into(), n, f: Box::new(f), chunk }
    }
}

pub struct Finding {
    pub family: String,
    pub index: u64,
    pub clause: String,
    pub msg: String,
    pub desc: String,
}

#[derive(Default)]
pub struct Total {
    pub traces: u64,
    pub transitions: u64,
    pub states: HashSet<u64, NoHash>,
    pub outcomes: HashSet<u64, NoHash>,
    pub capped: bool,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub cases: u64,
    pub families: Vec<(String, String, u64, f64)>,
}

pub struct Opts<'a> {
    pub threads: usize,
    pub slots: Option<std::fs::File>,
    /// Seconds one case may take.
    pub case_limit: u64,
    /// Known findings: (family, index, clause), or family "*" for any.
    pub is_known: &'a (dyn Fn(&str, u64, &str, &str) -> bool + Sync),
    pub on_hang: &'a (dyn Fn(&str, u64) + Sync),
}

fn run_case(f: &Family, idx: u64, ctx: &mut Ctx) {
    ctx.viols.clear();
    ctx.desc.clear();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.f)(idx, ctx)));
    if r.is_err() {
        let m = crate::exec::LAST_PANIC.with(|l| l.borrow().clone());
        ctx.fail("panic", format!("panicked: {}", m));
    }
}

/// Run one case with description.
pub fn run_one(f: &Family, idx: u64) -> (Vec<(String, String)>, String) {
    let mut ctx = Ctx { want_desc: true, verbose: true, ..Default::default() };
    run_case(f, idx, &mut ctx);
    (ctx.viols, ctx.desc)
}

pub fn run_family(fi: usize, f: &Family, o: &Opts, tot: &mut Total) -> (Vec<Finding>, Vec<Finding>) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Finding>> = Mutex::new(vec![]);
    let known: Mutex<Vec<Finding>> = Mutex::new(vec![]);
    let progress: Vec<(AtomicU64, AtomicU64)> = (0..o.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    // Where the processor time each thread has used can be read.
    let tasks: Vec<Mutex<String>> = (0..o.threads).map(|_| Mutex::new(String::new())).collect();
    let ctxs: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let running = AtomicU64::new(o.threads as u64);
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, stop_at, found, known, progress, ctxs, running, tasks) = (&next, &stop_at, &found, &known, &progress, &ctxs, &running, &tasks);
            let b = std::thread::Builder::new().stack_size(2 << 20);
            b.spawn_scoped(s, move || {
                let mut ctx = Ctx::default();
                if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                    *tasks[t].lock().unwrap() = format!("/proc/{}/schedstat", l.display());
                }
                'outer: loop {
                    let c = next.fetch_add(f.chunk, SeqCst);
                    if c >= f.n || c >= stop_at.load(SeqCst) {
                        break 'outer;
                    }
                    for idx in c..(c + f.chunk).min(f.n) {
                        if idx >= stop_at.load(SeqCst) {
                            break;
                        }
                        if let Some(file) = &o.slots {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = file.write_at(&b, t as u64 * 16);
                        }
                        progress[t].0.store(idx, SeqCst);
                        progress[t].1.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        run_case(f, idx, &mut ctx);
                        progress[t].1.store(0, SeqCst);
                        if !ctx.viols.is_empty() {
                            let vs = std::mem::take(&mut ctx.viols);
                            for (clause, msg) in vs {
                                let fd = Finding { family: f.name.clone(), index: idx, clause: clause.clone(), msg: msg.clone(), desc: String::new() };
                                if (o.is_known)(&f.name, idx, &clause, &msg) {
                                    known.lock().unwrap().push(fd);
                                } else {
                                    stop_at.fetch_min(idx + 1, SeqCst);
                                    found.lock().unwrap().push(fd);
                                }
                            }
                        }
                    }
                }
                if let Some(file) = &o.slots {
                    let _ = file.write_at(&[0u8; 16], t as u64 * 16);
                }
                ctxs.lock().unwrap().push(ctx);
                running.fetch_sub(1, SeqCst);
            })
            .unwrap();
        }
        // Watchdog.
        let (progress, running, tasks) = (&progress, &running, &tasks);
        let done = &done;
        s.spawn(move || {
            // The limit is one of processor time, so that a busy machine does not make a case look like a hang; only
            // a case which does not even use that is given a limit of elapsed time.
            let cpu = |t: usize| -> u64 {
                let p = tasks[t].lock().unwrap().clone();
                std::fs::read_to_string(p).ok().and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 1_000_000
            };
            let mut seen: Vec<(u64, u64, u64)> = vec![(0, 0, 0); progress.len()];
            while running.load(SeqCst) > 0 && !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for (t, p) in progress.iter().enumerate() {
                    let (i, st) = (p.0.load(SeqCst), p.1.load(SeqCst));
                    if st == 0 || now <= st + 1000 {
                        continue;
                    }
                    if (seen[t].0, seen[t].1) != (i, st) {
                        seen[t] = (i, st, cpu(t));
                    }
                    let wall = now - st;
                    if wall > o.case_limit * 1000 && (wall > 5 * o.case_limit * 1000 || cpu(t).saturating_sub(seen[t].2) > o.case_limit * 1000) {
                        (o.on_hang)(&f.name, i);
                    }
                }
            }
        });
    });
    done.store(true, SeqCst);
    for c in ctxs.into_inner().unwrap() {
        tot.traces += c.traces;
        tot.transitions += c.transitions;
        tot.capped |= c.capped;
        if tot.states.is_empty() {
            tot.states = c.states;
        } else {
            tot.states.extend(c.states);
        }
        if tot.outcomes.is_empty() {
            tot.outcomes = c.outcomes;
        } else {
            tot.outcomes.extend(c.outcomes);
        }
        for (k, v) in c.counters {
            let e = tot.counters.entry(k).or_insert(0);
            if k.starts_with("largest") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
    }
    tot.cases += f.n;
    tot.families.push((f.name.clone(), f.what.clone(), f.n, t0.elapsed().as_secs_f64()));
    if f.n > 0 && tot.samples.len() < 12 {
        let (_, d) = run_one(f, f.n / 2);
        if !d.is_empty() {
            tot.samples.push(format!("{}[{}]: {}", f.name, f.n / 2, d));
        }
    }
    let mut v = found.into_inner().unwrap();
    v.sort_by_key(|f| f.index);
    if let Some(first) = v.first().map(|f| f.index) {
        v.retain(|x| x.index == first);
        let (_, d) = run_one(f, first);
        for x in v.iter_mut() {
            x.desc = d.clone();
        }
    }
    let mut k = known.into_inner().unwrap();
    k.sort_by_key(|f| f.index);
    (v, k)
}
