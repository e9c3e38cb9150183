//! Exhaustive, deviation-bounded exploration of the executions of one closed scenario.
//!
//! An execution is identified by the points at which it deviates from the default choice.  All
//! deviation lists within the limits of the space are enumerated; nothing is sampled.

use serde_json::{json, Value};
use simrt::{kind_name, Config, Dev, Kind, KINDS};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Found {
    /// stable identification of the failing input / history (no addresses of code, no times)
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<Outcome, Found>;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub note: String,
    /// additional things examined inside one execution (e.g. many inputs in one go)
    pub inner: u64,
}
pub fn ok(note: impl Into<String>) -> Res {
    Ok(Outcome { note: note.into(), inner: 0 })
}
pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Res {
    Err(Found { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::explore::Found { sig: $sig.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { $crate::bail!($sig, $($a)*); } };
}

pub type RunFn = dyn Fn() -> Res + Send + Sync;

#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub desc: String,
    pub cfg: Config,
    pub kinds: u32,
    /// at most this many deviations of counted kinds
    pub total: u32,
    /// at most this many of each kind
    pub per: [u32; KINDS],
    /// kinds that are enumerated in full and do not count towards `total`
    pub free: u32,
    pub run: Arc<RunFn>,
}
impl Space {
    pub fn new(name: impl Into<String>, desc: impl Into<String>, run: impl Fn() -> Res + Send + Sync + 'static) -> Space {
        Space {
            name: name.into(),
            desc: desc.into(),
            cfg: Config::default(),
            kinds: Kind::App.bit(),
            total: 0,
            per: [u32::MAX; KINDS],
            free: Kind::App.bit(),
            run: Arc::new(run),
        }
    }
    pub fn kinds(mut self, k: &[Kind]) -> Self {
        for x in k {
            self.kinds |= x.bit();
        }
        self
    }
    pub fn total(mut self, n: u32) -> Self {
        self.total = n;
        self
    }
    pub fn per(mut self, k: Kind, n: u32) -> Self {
        self.per[k as usize] = n;
        self
    }
    pub fn cfg(mut self, f: impl FnOnce(&mut Config)) -> Self {
        f(&mut self.cfg);
        self
    }
    pub fn seed(mut self, s: u64) -> Self {
        self.cfg.seed = s;
        self
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub nodes: u64,
    pub steps: u64,
    pub inner: u64,
    pub points: u64,
    pub outcomes: HashSet<u64>,
    pub cover: BTreeMap<String, u64>,
    pub by_devs: BTreeMap<usize, u64>,
    pub by_kind: [u64; KINDS],
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub complete: bool,
    pub max_points: u32,
    pub vtime_ms: u64,
    pub wall_s: f64,
}

pub struct Violation {
    pub space: String,
    pub devs: Vec<Dev>,
    pub found: Found,
}
pub enum Stop {
    Violation(Violation),
    /// the machinery itself is at fault
    Broken(String),
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Exec {
    pub res: Res,
    pub rep: simrt::Report,
}

/// What the library computes once per process (if anything) is computed in a world of its own, so
/// that it is the same for all executions.
fn warm_up() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let sp = Space::new("warm-up", "", || {
            let a = crate::kit::server_addr();
            let _ = crate::kit::block(1, rust_raknet::RaknetSocket::ping(&a));
            ok("")
        });
        let _ = execute_cold(&sp, &[], false);
    });
}

/// One execution, on a fresh OS thread.
pub fn execute(space: &Space, devs: &[Dev], verbose: bool) -> Result<Exec, String> {
    warm_up();
    execute_cold(space, devs, verbose)
}

fn execute_cold(space: &Space, devs: &[Dev], verbose: bool) -> Result<Exec, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let run = space.run.clone();
    let mut cfg = space.cfg.clone();
    cfg.verbose = verbose;
    let devs2 = devs.to_vec();
    let kinds = space.kinds;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            simrt::enter(cfg, devs2, kinds);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run()));
            let rep = simrt::leave();
            let r = match r {
                Ok(r) => Ok(r),
                Err(_) => Err(format!("the harness panicked: {}", simrt::last_panic())),
            };
            let _ = tx.send((r, rep));
        })
        .map_err(|e| format!("cannot start a thread: {e}"))?;
    match rx.recv_timeout(Duration::from_secs(100)) {
        Ok((r, rep)) => {
            let _ = h.join();
            match r {
                Ok(res) => Ok(Exec { res, rep }),
                Err(m) => Err(m),
            }
        }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Ok(Exec {
            res: fail("endless-loop", "the library spins: one execution did not finish within 100 s of real time"),
            rep: simrt::Report::empty(),
        }),
        Err(_) => Err("the execution thread died".into()),
    }
}

struct Shared {
    q: VecDeque<Vec<Dev>>,
    busy: usize,
    stop: Option<Stop>,
    stats: Stats,
}

pub fn devs_json(devs: &[Dev]) -> Value {
    json!(devs.iter().map(|d| json!({"pos": d.pos, "alt": d.alt, "kind": kind_name(d.kind), "of": d.n})).collect::<Vec<_>>())
}
pub fn devs_from(v: &Value) -> Vec<Dev> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|d| Dev {
                    pos: d["pos"].as_u64().unwrap() as u32,
                    alt: d["alt"].as_u64().unwrap() as u32,
                    kind: simrt::KIND_NAMES.iter().position(|k| Some(*k) == d["kind"].as_str()).unwrap_or(0) as u8,
                    n: d["of"].as_u64().unwrap_or(0) as u32,
                })
                .collect()
        })
        .unwrap_or_default()
}

pub struct Limits {
    pub deadline: Instant,
    pub workers: usize,
}

/// Explore the whole space.  `known(sig)` tells listed findings.
pub fn explore(space: &Space, lim: &Limits, known: &(dyn Fn(&str) -> bool + Sync)) -> (Stats, Option<Stop>) {
    let t0 = Instant::now();
    let sh = Mutex::new(Shared { q: VecDeque::from([vec![]]), busy: 0, stop: None, stats: Stats { complete: true, ..Default::default() } });
    let cv = Condvar::new();
    let halt = AtomicBool::new(false);
    let last_sample = AtomicU64::new(0);
    std::thread::scope(|s| {
        for w in 0..lim.workers {
            let (sh, cv, halt, last_sample) = (&sh, &cv, &halt, &last_sample);
            s.spawn(move || {
                let inflight = crate::supervise::Inflight::new(w);
                loop {
                let devs = {
                    let mut g = sh.lock().unwrap();
                    loop {
                        if halt.load(Ordering::Relaxed) {
                            return;
                        }
                        if Instant::now() > lim.deadline {
                            if !g.q.is_empty() {
                                g.stats.complete = false;
                                g.q.clear();
                            }
                        }
                        if let Some(d) = g.q.pop_front() {
                            g.busy += 1;
                            break d;
                        }
                        if g.busy == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    }
                };
                inflight.begin(space, &devs);
                let r = execute(space, &devs, false);
                inflight.end();
                let mut stop = None;
                let mut children: Vec<Vec<Dev>> = vec![];
                let mut upd: Option<Exec> = None;
                match r {
                    Err(m) => stop = Some(Stop::Broken(format!("{}: {} (deviations {})", space.name, m, devs_json(&devs)))),
                    Ok(x) => {
                        if let Some(d) = &x.rep.diverged {
                            stop = Some(Stop::Broken(format!("{}: replay diverged: {} (deviations {})", space.name, d, devs_json(&devs))));
                        } else {
                            if let Err(f) = &x.res {
                                if !known(&f.sig) {
                                    stop = Some(Stop::Violation(Violation { space: space.name.clone(), devs: devs.clone(), found: f.clone() }));
                                }
                            }
                            if stop.is_none() {
                                children = expand(space, &devs, &x.rep);
                            }
                            upd = Some(x);
                        }
                    }
                }
                let mut g = sh.lock().unwrap();
                g.busy -= 1;
                if let Some(x) = upd {
                    let st = &mut g.stats;
                    st.executions += 1;
                    st.nodes += 1 + x.rep.trace.len() as u64;
                    st.steps += x.rep.steps;
                    st.points += x.rep.pos as u64;
                    st.max_points = st.max_points.max(x.rep.pos);
                    st.vtime_ms = st.vtime_ms.max(x.rep.end / 1_000_000);
                    *st.by_devs.entry(devs.len()).or_insert(0) += 1;
                    for d in &devs {
                        st.by_kind[d.kind as usize] += 1;
                    }
                    for c in &x.rep.cover {
                        *st.cover.entry(c.to_string()).or_insert(0) += 1;
                    }
                    let note = match &x.res {
                        Ok(o) => {
                            st.inner += o.inner;
                            o.note.clone()
                        }
                        Err(f) => {
                            if known(&f.sig) {
                                let e = st.known.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                                e.0 += 1;
                            }
                            format!("violation: {}", f.msg)
                        }
                    };
                    let n = st.executions;
                    if st.outcomes.insert(fnv(&note)) && st.samples.len() < 6 || (n.is_power_of_two() && last_sample.swap(n, Ordering::Relaxed) != n && st.samples.len() < 10) {
                        st.samples.push(json!({"space": space.name, "deviations": devs_json(&devs), "choice_points": x.rep.pos, "steps": x.rep.steps, "virtual_ms": x.rep.end / 1_000_000, "outcome": note}));
                    }
                }
                if let Some(s) = stop {
                    // prefer a violation to a complaint of the machinery
                    let better = match (&g.stop, &s) {
                        (None, _) => true,
                        (Some(Stop::Broken(_)), Stop::Violation(_)) => true,
                        (Some(Stop::Violation(a)), Stop::Violation(b)) => b.devs.len() < a.devs.len(),
                        _ => false,
                    };
                    if better {
                        g.stop = Some(s);
                    }
                    g.stats.complete = false;
                    halt.store(true, Ordering::Relaxed);
                }
                g.q.extend(children);
                drop(g);
                cv.notify_all();
            }});
        }
    });
    let mut g = sh.into_inner().unwrap();
    g.stats.wall_s = t0.elapsed().as_secs_f64();
    (g.stats, g.stop)
}

fn expand(space: &Space, devs: &[Dev], rep: &simrt::Report) -> Vec<Vec<Dev>> {
    let mut cnt = [0u32; KINDS];
    let mut total = 0;
    for d in devs {
        cnt[d.kind as usize] += 1;
        if space.free & (1 << d.kind) == 0 {
            total += 1;
        }
    }
    let mut out = vec![];
    for (i, p) in rep.trace.iter().enumerate() {
        let free = space.free & (1 << p.kind) != 0;
        if !free && (total >= space.total || cnt[p.kind as usize] >= space.per[p.kind as usize]) {
            continue;
        }
        for alt in 1..p.n {
            let mut v = Vec::with_capacity(devs.len() + 1);
            v.extend_from_slice(devs);
            v.push(Dev { pos: rep.base + i as u32, alt, kind: p.kind, n: p.n });
            out.push(v);
        }
    }
    out
}
