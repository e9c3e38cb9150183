//! The controlled environment: executor, virtual time, simulated UDP network, choice points.
//!
//! One `World` lives in a thread local.  Every execution of the code under test runs on a fresh OS
//! thread, so that thread-local state of std (hash keys) and rand starts afresh.
//! Nothing in here is random: everything that may go more than one way asks `choose`.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// virtual epoch of CLOCK_REALTIME, in seconds
pub const EPOCH_S: u64 = 1_700_000_000;

// ------------------------------------------------------------------------------------------------
// choice kinds

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    /// fate of a datagram
    Fate = 0,
    /// which ready task runs next
    Sched = 1,
    /// a task is descheduled at an async synchronisation operation
    Yield = 2,
    /// other tasks run in the middle of a synchronous synchronisation operation
    Sync = 3,
    /// start branch of a select!
    Select = 4,
    /// a decision of the harness (input, raw peer behaviour)
    App = 5,
    /// order of events due at the same instant
    Tie = 6,
    /// result of an environment call (send error)
    Env = 7,
    /// the whole process stops for a while
    Pause = 8,
}
pub const KINDS: usize = 9;
pub const KIND_NAMES: [&str; KINDS] = ["fate", "sched", "yield", "sync", "select", "app", "tie", "env", "pause"];
pub fn kind_name(k: u8) -> &'static str {
    KIND_NAMES.get(k as usize).copied().unwrap_or("?")
}
impl Kind {
    pub const fn bit(self) -> u32 {
        1 << (self as u8)
    }
}

/// A deviation: at choice point `pos`, take alternative `alt` instead of 0.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dev {
    pub pos: u32,
    pub alt: u32,
    /// what the parent execution saw at that point (replay must see the same)
    pub kind: u8,
    pub n: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub kind: u8,
    pub n: u32,
}

// ------------------------------------------------------------------------------------------------
// network

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    /// deliver after the base latency
    Deliver,
    /// deliver after the base latency plus this many ns
    Delay(u64),
    Drop,
    /// deliver after the base latency and a second copy this many ns later
    Dup(u64),
}

#[derive(Clone, Debug)]
pub struct Datagram {
    pub id: u32,
    pub at: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Arc<[u8]>,
}

/// One entry of the wire log.
#[derive(Clone, Debug)]
pub struct Tap {
    pub t: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Arc<[u8]>,
    pub fate: Fate,
    /// sent by the library (true) or injected by the harness (false)
    pub lib: bool,
}

/// A delivery into a socket's receive queue.
#[derive(Clone, Debug)]
pub struct Delivery {
    pub t: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Arc<[u8]>,
    pub id: u32,
}

struct Sock {
    addr: SocketAddr,
    rx: VecDeque<(Arc<[u8]>, SocketAddr)>,
    wakers: Vec<Waker>,
    connected: Option<SocketAddr>,
}

struct Net {
    socks: HashMap<u32, Sock>,
    next_sock: u32,
    next_port: u16,
    flight: BTreeMap<(u64, u64), Datagram>,
    next_flight: u64,
    next_id: u32,
    tap: Vec<Tap>,
    deliveries: Vec<Delivery>,
    host4: Ipv4Addr,
    host6: Ipv6Addr,
}

// ------------------------------------------------------------------------------------------------
// world

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    queued: bool,
    done: bool,
    lib: bool,
    name: &'static str,
    line: u32,
    waker: Waker,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub task: String,
    pub lib: bool,
    pub msg: String,
    pub t: u64,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub latency: u64,
    pub fates: Vec<Fate>,
    /// alternatives at a Yield point: stall durations; alternative 1 is a plain yield
    pub stalls: Vec<u64>,
    /// so many steps without time passing are a livelock
    pub steps: u64,
    /// kinds explored wherever a space explores any
    pub extra: u32,
    /// alternatives at a Pause point, besides none
    pub pauses: Vec<u64>,
    /// everything that is due happens before the tasks it wakes run
    pub batch: bool,
    pub rxq: usize,
    pub verbose: bool,
    pub seed: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            latency: 5 * MS,
            fates: vec![Fate::Deliver],
            stalls: vec![],
            steps: 100_000,
            extra: 0,
            pauses: vec![],
            batch: false,
            rxq: 256,
            verbose: false,
            seed: 1,
        }
    }
}

struct World {
    cfg: Config,
    now: u64,
    tasks: Vec<Task>,
    ready: VecDeque<usize>,
    on_stack: Vec<usize>,
    timers: BTreeMap<(u64, u64), Waker>,
    next_timer: u64,
    net: Net,
    // choices
    devs: Vec<Dev>,
    dev_i: usize,
    pos: u32,
    trace: Vec<Point>,
    enabled: u32,
    /// per-kind: is this kind explorable at all in this space
    allowed: u32,
    prefix_hash: u64,
    diverged: Option<String>,
    fate_filter: Option<Arc<dyn Fn(&SocketAddr, &SocketAddr, &[u8]) -> bool>>,
    panics: Vec<PanicRec>,
    steps: u64,
    steps_at: (u64, u64),
    livelock: bool,
    log: Vec<String>,
    nested: u32,
    tearing_down: bool,
    cover: Vec<&'static str>,
}

thread_local! {
    static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    static VNOW: Cell<u64> = const { Cell::new(u64::MAX) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static WALL: RefCell<Vec<(u64, i64)>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}
fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD
        .try_with(|w| match w.try_borrow_mut() {
            Ok(mut g) => g.as_mut().map(|w| f(w)),
            Err(_) => None,
        })
        .ok()
        .flatten()
}

pub fn in_world() -> bool {
    VNOW.try_with(|v| v.get() != u64::MAX).unwrap_or(false)
}

struct TaskWaker {
    id: usize,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let id = self.id;
        try_with(|w| {
            if w.tearing_down {
                return;
            }
            let t = &mut w.tasks[id];
            if !t.done && !t.queued {
                t.queued = true;
                w.ready.push_back(id);
            }
        });
    }
}

// ------------------------------------------------------------------------------------------------
// interposed libc functions

#[repr(C)]
pub struct Timespec {
    pub tv_sec: i64,
    pub tv_nsec: i64,
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_GETRANDOM: i64 = 318;

/// # Safety
/// interposes libc's clock_gettime; `ts` must be valid
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let v = VNOW.try_with(|v| v.get()).unwrap_or(u64::MAX);
    if v == u64::MAX {
        return syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32;
    }
    let mut ns = v as i64;
    let base = if clk == 0 || clk == 5 {
        ns += WALL.try_with(|w| w.borrow().iter().filter(|s| s.0 <= v).map(|s| s.1).sum()).unwrap_or(0);
        EPOCH_S
    } else {
        1000
    };
    (*ts).tv_sec = base as i64 + ns.div_euclid(SEC as i64);
    (*ts).tv_nsec = ns.rem_euclid(SEC as i64);
    0
}

/// # Safety
/// interposes libc's getrandom; `buf` must be valid for `len` bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let v = VNOW.try_with(|v| v.get()).unwrap_or(u64::MAX);
    if v == u64::MAX {
        return syscall(SYS_GETRANDOM, buf, len, flags as i64) as isize;
    }
    RNG.with(|r| {
        for i in 0..len {
            // splitmix64
            let mut z = r.get().wrapping_add(0x9E3779B97F4A7C15);
            r.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *buf.add(i) = (z ^ (z >> 31)) as u8;
        }
    });
    len as isize
}

// ------------------------------------------------------------------------------------------------
// entering and leaving

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_world() {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info)
        }
    }));
}
fn short(f: &str) -> &str {
    match f.rfind("/src/") {
        Some(i) => match f[..i].rfind('/') {
            Some(j) => &f[j + 1..],
            None => f,
        },
        None => f,
    }
}

/// The wall clock steps by so many ns at these instants; the monotonic clock does not.
pub fn wall_steps(steps: &[(u64, i64)]) {
    WALL.with(|w| *w.borrow_mut() = steps.to_vec());
}

/// Set up a world on this (fresh) thread.
pub fn enter(cfg: Config, devs: Vec<Dev>, allowed: u32) {
    RNG.with(|r| r.set(cfg.seed.wrapping_mul(0x2545F4914F6CDD1D)));
    VNOW.with(|v| v.set(0));
    WORLD.with(|w| {
        assert!(w.borrow().is_none());
        *w.borrow_mut() = Some(Box::new(World {
            cfg,
            now: 0,
            tasks: vec![],
            ready: VecDeque::new(),
            on_stack: vec![],
            timers: BTreeMap::new(),
            next_timer: 0,
            net: Net {
                socks: HashMap::new(),
                next_sock: 1,
                next_port: 40001,
                flight: BTreeMap::new(),
                next_flight: 0,
                next_id: 0,
                tap: vec![],
                deliveries: vec![],
                host4: Ipv4Addr::LOCALHOST,
                host6: Ipv6Addr::LOCALHOST,
            },
            devs,
            dev_i: 0,
            pos: 0,
            trace: vec![],
            enabled: Kind::App.bit() & allowed,
            allowed,
            prefix_hash: 0xcbf29ce484222325,
            diverged: None,
            fate_filter: None,
            panics: vec![],
            steps: 0,
            steps_at: (0, 0),
            livelock: false,
            log: vec![],
            nested: 0,
            tearing_down: false,
            cover: vec![],
        }));
    });
}

pub struct Report {
    /// choice points after the last deviation (index 0 is position `base`)
    pub base: u32,
    pub trace: Vec<Point>,
    pub pos: u32,
    pub prefix_hash: u64,
    pub steps: u64,
    pub diverged: Option<String>,
    pub panics: Vec<PanicRec>,
    pub livelock: bool,
    pub log: Vec<String>,
    pub end: u64,
    pub cover: Vec<&'static str>,
}

/// Drop all tasks and the world.
pub fn leave() -> Report {
    with(|w| {
        w.tearing_down = true;
        w.enabled = 0;
    });
    // drop futures one by one; their drops may call back into the world
    loop {
        let fut = with(|w| {
            for t in w.tasks.iter_mut() {
                if let Some(f) = t.fut.take() {
                    t.done = true;
                    return Some(f);
                }
            }
            None
        });
        match fut {
            Some(f) => {
                let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)));
            }
            None => break,
        }
    }
    let timers = with(|w| std::mem::take(&mut w.timers));
    drop(timers);
    let socks = with(|w| std::mem::take(&mut w.net.socks));
    drop(socks);
    let w = WORLD.with(|w| w.borrow_mut().take().unwrap());
    let mut w = *w;
    let unused = w.dev_i < w.devs.len();
    if unused && w.diverged.is_none() {
        w.diverged = Some(format!("deviation at point {} never reached (execution has {} points)", w.devs[w.dev_i].pos, w.pos));
    }
    let base = w.devs.last().map(|d| d.pos + 1).unwrap_or(0);
    let r = Report {
        base,
        trace: std::mem::take(&mut w.trace),
        pos: w.pos,
        prefix_hash: w.prefix_hash,
        steps: w.steps,
        diverged: w.diverged.take(),
        panics: std::mem::take(&mut w.panics),
        livelock: w.livelock,
        log: std::mem::take(&mut w.log),
        end: w.now,
        cover: std::mem::take(&mut w.cover),
    };
    drop(w);
    VNOW.with(|v| v.set(u64::MAX));
    r
}

// ------------------------------------------------------------------------------------------------
// choices

/// Enable exactly these kinds of choice (of those the space allows); the harness's own are always on.
pub fn explore(mask: u32) {
    with(|w| {
        let extra = if mask == 0 { 0 } else { w.cfg.extra };
        w.enabled = (mask | extra | Kind::App.bit()) & w.allowed
    });
}
pub fn exploring() -> u32 {
    with(|w| w.enabled)
}

fn choose_w(w: &mut World, kind: Kind, n: u32) -> u32 {
    if n <= 1 || w.enabled & kind.bit() == 0 {
        return 0;
    }
    let pos = w.pos;
    w.pos += 1;
    if w.dev_i < w.devs.len() {
        w.prefix_hash = (w.prefix_hash ^ ((kind as u64) << 32 | n as u64)).wrapping_mul(0x100000001b3);
        let d = w.devs[w.dev_i];
        if d.pos == pos {
            w.dev_i += 1;
            if d.alt >= n || (d.n != 0 && (d.n != n || d.kind != kind as u8)) {
                if w.diverged.is_none() {
                    w.diverged = Some(format!(
                        "at point {} expected {} of {}, found {} of {}",
                        pos,
                        kind_name(d.kind),
                        d.n,
                        kind_name(kind as u8),
                        n
                    ));
                }
                return 0;
            }
            if w.cfg.verbose {
                let m = format!("[{:>10.3}ms] -- deviation at point {}: {} alternative {} of {}", w.now as f64 / 1e6, pos, kind_name(kind as u8), d.alt, n);
                w.log.push(m);
            }
            return d.alt;
        }
        if d.pos < pos {
            w.diverged.get_or_insert(format!("missed deviation at {}", d.pos));
        }
        0
    } else {
        w.trace.push(Point { kind: kind as u8, n });
        0
    }
}

pub fn choose(kind: Kind, n: u32) -> u32 {
    with(|w| choose_w(w, kind, n))
}
/// A decision of the harness.
pub fn pick(n: usize) -> usize {
    choose(Kind::App, n as u32) as usize
}

pub fn select_start(n: u32) -> Option<u32> {
    if !in_world() {
        return None;
    }
    try_with(|w| choose_w(w, Kind::Select, n))
}

/// Synchronous scheduling point: other tasks may run here, as on a multi-threaded runtime.
pub fn sync_point(_what: &'static str) {
    if !in_world() {
        return;
    }
    let go = try_with(|w| {
        if w.tearing_down || w.on_stack.len() != 1 || w.nested > 0 || w.enabled & Kind::Sync.bit() == 0 {
            return false;
        }
        // nothing else to run: no point
        let cur = w.on_stack[0];
        if !w.ready.iter().any(|&t| t != cur) {
            return false;
        }
        if choose_w(w, Kind::Sync, 2) == 0 {
            return false;
        }
        if w.cfg.verbose {
            let m = format!("[{:>10.3}ms] -- preempted inside {} in task {}", w.now as f64 / 1e6, _what, w.tasks[cur].name);
            w.log.push(m);
        }
        w.nested = 1;
        true
    })
    .unwrap_or(false);
    if go {
        let cur = with(|w| w.on_stack[0]);
        let mut budget = 2000;
        loop {
            let id = with(|w| {
                let i = w.ready.iter().position(|&t| t != cur)?;
                w.ready.remove(i)
            });
            match id {
                Some(id) if budget > 0 => {
                    budget -= 1;
                    poll_task(id);
                }
                _ => break,
            }
        }
        with(|w| w.nested = 0);
    }
}

/// Asynchronous scheduling point: the task may be descheduled here.
pub struct YieldPoint {
    state: u8,
    timer: Option<TimerId>,
    until: u64,
}
pub fn yield_point(_what: &'static str) -> YieldPoint {
    YieldPoint { state: 0, timer: None, until: 0 }
}
impl Future for YieldPoint {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !in_world() {
            return Poll::Ready(());
        }
        match self.state {
            0 => {
                let r = try_with(|w| {
                    if w.tearing_down || w.enabled & Kind::Yield.bit() == 0 || w.on_stack.is_empty() {
                        return (0, 0);
                    }
                    let n = 2 + w.cfg.stalls.len() as u32;
                    let c = choose_w(w, Kind::Yield, n);
                    let st = if c >= 2 { w.cfg.stalls[c as usize - 2] } else { 0 };
                    if c > 0 && w.cfg.verbose {
                        let cur = *w.on_stack.last().unwrap();
                        let m = format!("[{:>10.3}ms] -- task {} (line {}) descheduled for {}ms", w.now as f64 / 1e6, w.tasks[cur].name, w.tasks[cur].line, st / MS);
                        w.log.push(m);
                    }
                    (c, st)
                })
                .unwrap_or((0, 0));
                match r {
                    (0, _) => {
                        self.state = 3;
                        Poll::Ready(())
                    }
                    (1, _) => {
                        self.state = 1;
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    (_, st) => {
                        self.state = 2;
                        self.until = now() + st;
                        self.timer = Some(timer_add(self.until, cx.waker().clone()));
                        Poll::Pending
                    }
                }
            }
            1 => {
                self.state = 3;
                Poll::Ready(())
            }
            2 => {
                if now() >= self.until {
                    self.state = 3;
                    self.timer = None;
                    Poll::Ready(())
                } else {
                    let u = self.until;
                    self.timer = Some(timer_add(u, cx.waker().clone()));
                    Poll::Pending
                }
            }
            _ => Poll::Ready(()),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// time

pub fn now() -> u64 {
    let v = VNOW.with(|v| v.get());
    debug_assert!(v != u64::MAX);
    v
}
/// virtual wall clock in ms, as the library sees it
pub fn wall_ms() -> i64 {
    (EPOCH_S * 1000 + now() / MS) as i64
}

pub struct TimerId(u64, u64);
impl Drop for TimerId {
    fn drop(&mut self) {
        let w = try_with(|w| w.timers.remove(&(self.0, self.1)));
        drop(w);
    }
}
pub fn timer_add(deadline: u64, waker: Waker) -> TimerId {
    with(|w| {
        let id = w.next_timer;
        w.next_timer += 1;
        let d = deadline.max(w.now);
        w.timers.insert((d, id), waker);
        TimerId(d, id)
    })
}

pub struct Sleep {
    pub deadline: u64,
    timer: Option<TimerId>,
}
impl Sleep {
    pub fn until(deadline: u64) -> Self {
        Sleep { deadline, timer: None }
    }
    pub fn reset(&mut self, deadline: u64) {
        self.deadline = deadline;
        self.timer = None;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.deadline {
            self.timer = None;
            return Poll::Ready(());
        }
        let d = self.deadline;
        self.timer = Some(timer_add(d, cx.waker().clone()));
        Poll::Pending
    }
}
pub fn sleep(ns: u64) -> Sleep {
    Sleep::until(now() + ns)
}

// ------------------------------------------------------------------------------------------------
// tasks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TaskId(usize);

fn spawn_inner(fut: Pin<Box<dyn Future<Output = ()>>>, lib: bool, name: &'static str, line: u32) -> TaskId {
    with(|w| {
        let id = w.tasks.len();
        let waker = Waker::from(Arc::new(TaskWaker { id }));
        let dead = w.tearing_down;
        w.tasks.push(Task { fut: if dead { None } else { Some(fut) }, queued: !dead, done: dead, lib, name, line, waker });
        if !dead {
            w.ready.push_back(id);
        }
        TaskId(id)
    })
}
pub fn spawn_lib(fut: impl Future<Output = ()> + 'static, name: &'static str, line: u32) -> TaskId {
    let id = spawn_inner(Box::pin(fut), true, short_static(name), line);
    sync_point("spawn");
    id
}
fn short_static(n: &'static str) -> &'static str {
    match n.rfind('/') {
        Some(i) => &n[i + 1..],
        None => n,
    }
}
pub fn spawn_app(name: &'static str, fut: impl Future<Output = ()> + 'static) -> TaskId {
    spawn_inner(Box::pin(fut), false, name, 0)
}
/// Cancel a task (drops its future).
pub fn abort(id: TaskId) {
    let f = with(|w| {
        let t = &mut w.tasks[id.0];
        if w.on_stack.contains(&id.0) {
            return None;
        }
        t.done = true;
        t.fut.take()
    });
    drop(f);
}
pub fn task_done(id: TaskId) -> bool {
    with(|w| w.tasks[id.0].done)
}
/// number of library tasks still alive
pub fn live_lib_tasks() -> usize {
    with(|w| w.tasks.iter().filter(|t| t.lib && !t.done).count())
}
pub fn live_lib_task_names() -> Vec<String> {
    with(|w| w.tasks.iter().filter(|t| t.lib && !t.done).map(|t| format!("{}:{}", t.name, t.line)).collect())
}
pub fn live_sockets() -> Vec<SocketAddr> {
    with(|w| {
        let mut v: Vec<_> = w.net.socks.values().map(|s| s.addr).collect();
        v.sort();
        v
    })
}

fn poll_task(id: usize) {
    let (fut, waker) = with(|w| {
        w.steps += 1;
        let now = w.now;
        if w.steps_at.0 == now {
            w.steps_at.1 += 1;
        } else {
            w.steps_at = (now, 1);
        }
        let t = &mut w.tasks[id];
        t.queued = false;
        let f = t.fut.take();
        let wk = t.waker.clone();
        w.on_stack.push(id);
        (f, wk)
    });
    let mut fut = match fut {
        Some(f) => f,
        None => {
            with(|w| {
                w.on_stack.pop();
            });
            return;
        }
    };
    let mut cx = Context::from_waker(&waker);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    match r {
        Ok(Poll::Pending) => with(|w| {
            w.on_stack.pop();
            let t = &mut w.tasks[id];
            if !t.done {
                t.fut = Some(fut);
            }
        }),
        Ok(Poll::Ready(())) => {
            with(|w| {
                w.tasks[id].done = true;
            });
            let _ = std::panic::catch_unwind(AssertUnwindSafe(move || drop(fut)));
            with(|w| {
                w.on_stack.pop();
            });
        }
        Err(p) => {
            drop(p);
            note_panic(id);
            with(|w| {
                w.tasks[id].done = true;
            });
            if std::panic::catch_unwind(AssertUnwindSafe(move || drop(fut))).is_err() {
                note_panic(id);
            }
            with(|w| {
                w.on_stack.pop();
            });
        }
    }
}

fn note_panic(id: usize) {
    let msg = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    with(|w| {
        let t = &w.tasks[id];
        let rec = PanicRec { task: format!("{}:{}", t.name, t.line), lib: t.lib, msg, t: w.now };
        if w.cfg.verbose {
            let m = format!("[{:>10.3}ms] PANIC in task {}: {}", w.now as f64 / 1e6, rec.task, rec.msg);
            w.log.push(m);
        }
        w.panics.push(rec);
    });
}
/// Called by JoinHandle wrappers that catch the panic themselves.
pub fn record_caught_panic(name: &'static str, line: u32) -> String {
    let msg = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    with(|w| {
        let rec = PanicRec { task: format!("{}:{}", short_static(name), line), lib: true, msg: msg.clone(), t: w.now };
        if w.cfg.verbose {
            let m = format!("[{:>10.3}ms] PANIC in task {}: {}", w.now as f64 / 1e6, rec.task, rec.msg);
            w.log.push(m);
        }
        w.panics.push(rec);
    });
    msg
}

pub fn panics() -> Vec<PanicRec> {
    with(|w| w.panics.clone())
}
pub fn livelock() -> bool {
    with(|w| w.livelock)
}
pub fn steps() -> u64 {
    with(|w| w.steps)
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Stop {
    /// the condition became true
    Cond,
    /// virtual time limit reached
    Time,
    /// nothing can happen any more
    Quiet,
    /// too many steps at one instant
    Livelock,
}

/// Run until `cond` holds (checked between events) or virtual time `deadline`.
/// What the process loses to a pause does not count.
pub fn run_until(mut deadline: u64, mut cond: impl FnMut() -> bool) -> Stop {
    let mut paused = 0;
    loop {
        deadline += std::mem::take(&mut paused);
        if cond() {
            return Stop::Cond;
        }
        // ready tasks first
        let id = with(|w| {
            if w.steps_at.0 == w.now && w.steps_at.1 > w.cfg.steps {
                w.livelock = true;
                return Err(());
            }
            let n = w.ready.len();
            if n == 0 {
                return Ok(None);
            }
            // something else that is due now happens before any of them runs
            let due = w.timers.keys().next().map_or(false, |k| k.0 <= w.now) || w.net.flight.keys().next().map_or(false, |k| k.0 <= w.now);
            if due && (w.cfg.batch || choose_w(w, Kind::Tie, 2) == 1) {
                return Ok(None);
            }
            let k = if n > 1 { choose_w(w, Kind::Sched, n as u32) as usize } else { 0 };
            let id = w.ready.remove(k);
            if k > 0 && w.cfg.verbose {
                let i = id.unwrap();
                let m = format!("[{:>10.3}ms] -- task {}:{} runs ahead of {} others", w.now as f64 / 1e6, w.tasks[i].name, w.tasks[i].line, k);
                w.log.push(m);
            }
            Ok(id)
        });
        match id {
            Err(()) => return Stop::Livelock,
            Ok(Some(id)) => {
                poll_task(id);
                continue;
            }
            Ok(None) => {}
        }
        // next event
        enum Ev {
            Timer(Vec<Waker>),
            Net(Datagram),
            Time,
            Quiet,
        }
        let ev = with(|w| {
            let tn = w.timers.keys().next().map(|k| k.0);
            let dn = w.net.flight.keys().next().map(|k| k.0);
            let next = match (tn, dn) {
                (None, None) => return Ev::Quiet,
                (Some(a), None) => a,
                (None, Some(b)) => b,
                (Some(a), Some(b)) => a.min(b),
            };
            if next > deadline {
                w.now = deadline.max(w.now);
                VNOW.with(|v| v.set(w.now));
                return Ev::Time;
            }
            if next > w.now {
                w.now = next;
                if w.enabled & Kind::Pause.bit() != 0 && !w.cfg.pauses.is_empty() {
                    let n = w.cfg.pauses.len() as u32 + 1;
                    let k = choose_w(w, Kind::Pause, n);
                    if k > 0 {
                        paused = w.cfg.pauses[k as usize - 1];
                        w.now += paused;
                        if w.cfg.verbose {
                            let m = format!("[{:>10.3}ms] -- the process has stopped for {} ms", w.now as f64 / 1e6, w.cfg.pauses[k as usize - 1] / MS);
                            w.log.push(m);
                        }
                    }
                }
                VNOW.with(|v| v.set(w.now));
            }
            // tie between network and timers: default network first
            let both = tn == Some(next) && dn == Some(next);
            let net_first = if both { choose_w(w, Kind::Tie, 2) == 0 } else { dn == Some(next) };
            w.steps += 1;
            if net_first {
                let k = *w.net.flight.keys().next().unwrap();
                let d = w.net.flight.remove(&k).unwrap();
                Ev::Net(d)
            } else {
                let k = *w.timers.keys().next().unwrap();
                let wk = w.timers.remove(&k).unwrap();
                Ev::Timer(vec![wk])
            }
        });
        match ev {
            Ev::Timer(ws) => {
                for w in ws {
                    w.wake();
                }
            }
            Ev::Net(d) => deliver(d),
            Ev::Time => return Stop::Time,
            Ev::Quiet => return Stop::Quiet,
        }
    }
}
/// Run for `ns` of virtual time.
pub fn run_for(ns: u64) -> Stop {
    let d = now() + ns;
    let s = run_until(d, || false);
    if s == Stop::Quiet {
        with(|w| {
            w.now = d.max(w.now);
            VNOW.with(|v| v.set(w.now));
        });
    }
    s
}
pub fn advance_clock_to(t: u64) {
    with(|w| {
        if t > w.now {
            w.now = t;
            VNOW.with(|v| v.set(t));
        }
    })
}

// ------------------------------------------------------------------------------------------------
// network

fn err(k: std::io::ErrorKind, m: &'static str) -> std::io::Error {
    std::io::Error::new(k, m)
}

pub fn net_bind(addr: SocketAddr) -> std::io::Result<(u32, SocketAddr)> {
    with(|w| {
        let n = &mut w.net;
        let mut addr = addr;
        let clash = |n: &Net, a: &SocketAddr| {
            n.socks.values().any(|s| {
                s.addr.port() == a.port()
                    && s.addr.is_ipv4() == a.is_ipv4()
                    && (s.addr.ip() == a.ip() || s.addr.ip().is_unspecified() || a.ip().is_unspecified())
            })
        };
        if addr.port() == 0 {
            loop {
                addr.set_port(n.next_port);
                if !clash(n, &addr) {
                    break;
                }
                n.next_port += 1;
            }
            n.next_port += 1;
        } else if clash(n, &addr) {
            return Err(err(std::io::ErrorKind::AddrInUse, "address in use"));
        }
        let id = n.next_sock;
        n.next_sock += 1;
        n.socks.insert(id, Sock { addr, rx: VecDeque::new(), wakers: vec![], connected: None });
        Ok((id, addr))
    })
}
/// The next ephemeral port to hand out.
pub fn set_next_port(p: u16) {
    with(|w| w.net.next_port = p)
}
pub fn set_host(v4: Ipv4Addr, v6: Ipv6Addr) {
    with(|w| {
        w.net.host4 = v4;
        w.net.host6 = v6;
    })
}
pub fn net_close(id: u32) {
    let s = try_with(|w| w.net.socks.remove(&id));
    drop(s);
}
pub fn net_addr(id: u32) -> Option<SocketAddr> {
    with(|w| w.net.socks.get(&id).map(|s| s.addr))
}
pub fn net_connect(id: u32, peer: SocketAddr) {
    with(|w| {
        if let Some(s) = w.net.socks.get_mut(&id) {
            s.connected = Some(peer)
        }
    })
}
pub fn net_peer(id: u32) -> Option<SocketAddr> {
    with(|w| w.net.socks.get(&id).and_then(|s| s.connected))
}

fn source_of(w: &World, addr: SocketAddr) -> SocketAddr {
    if addr.ip().is_unspecified() {
        let ip = if addr.is_ipv4() { IpAddr::V4(w.net.host4) } else { IpAddr::V6(w.net.host6) };
        SocketAddr::new(ip, addr.port())
    } else {
        addr
    }
}
/// The address under which others see a socket bound to `addr`.
pub fn visible_addr(addr: SocketAddr) -> SocketAddr {
    with(|w| source_of(w, addr))
}

pub fn net_send(id: u32, dst: SocketAddr, data: &[u8]) -> std::io::Result<usize> {
    with(|w| {
        let src = match w.net.socks.get(&id) {
            Some(s) => s.addr,
            None => return Err(err(std::io::ErrorKind::NotConnected, "closed")),
        };
        if src.is_ipv4() != dst.is_ipv4() {
            return Err(err(std::io::ErrorKind::Unsupported, "address family not supported"));
        }
        if data.len() > 65507 {
            return Err(err(std::io::ErrorKind::InvalidInput, "message too long"));
        }
        if dst.port() == 0 {
            return Err(err(std::io::ErrorKind::InvalidInput, "invalid argument"));
        }
        let src = source_of(w, src);
        let mut dst = dst;
        if dst.ip().is_unspecified() {
            // as on Linux: sending to the unspecified address reaches the local host
            dst.set_ip(if dst.is_ipv4() { IpAddr::V4(Ipv4Addr::LOCALHOST) } else { IpAddr::V6(Ipv6Addr::LOCALHOST) });
        }
        let pass = match &w.fate_filter {
            Some(f) => f.clone()(&src, &dst, data),
            None => true,
        };
        // the local network refuses the datagram: an attempt to transmit all the same
        if pass && w.enabled & Kind::Env.bit() != 0 && choose_w(w, Kind::Env, 2) == 1 {
            if w.cfg.verbose {
                let m = format!("[{:>10.3}ms] send {} -> {} FAILS {}", w.now as f64 / 1e6, src, dst, hex(data));
                w.log.push(m);
            }
            let t = w.now;
            w.net.tap.push(Tap { t, src, dst, data: data.into(), fate: Fate::Drop, lib: true });
            return Err(err(std::io::ErrorKind::Other, "injected send error"));
        }
        let nf = w.cfg.fates.len() as u32;
        let fi = if pass { choose_w(w, Kind::Fate, nf) as usize } else { usize::MAX };
        let fate = w.cfg.fates.get(fi).copied().unwrap_or(Fate::Deliver);
        let data: Arc<[u8]> = data.into();
        if w.cfg.verbose {
            let m = format!("[{:>10.3}ms] send {} -> {} {:?} {}", w.now as f64 / 1e6, src, dst, fate, hex(&data));
            w.log.push(m);
        }
        w.net.tap.push(Tap { t: w.now, src, dst, data: data.clone(), fate, lib: true });
        let l = w.cfg.latency;
        match fate {
            Fate::Deliver => {
                fly(w, src, dst, data, l);
            }
            Fate::Delay(d) => {
                fly(w, src, dst, data, l + d);
            }
            Fate::Drop => {}
            Fate::Dup(d) => {
                fly(w, src, dst, data.clone(), l);
                fly(w, src, dst, data, l + d);
            }
        }
        Ok(w.net.tap.last().unwrap().data.len())
    })
}
fn hex(d: &[u8]) -> String {
    let mut s = format!("({}B) ", d.len());
    for b in d.iter().take(40) {
        s.push_str(&format!("{b:02x}"));
    }
    if d.len() > 40 {
        s.push_str("..");
    }
    s
}
fn fly(w: &mut World, src: SocketAddr, dst: SocketAddr, data: Arc<[u8]>, after: u64) -> u32 {
    let id = w.net.next_id;
    w.net.next_id += 1;
    let k = (w.now + after, w.net.next_flight);
    w.net.next_flight += 1;
    w.net.flight.insert(k, Datagram { id, at: k.0, src, dst, data });
    id
}
/// The harness puts a datagram on the wire (no fate choice).
pub fn inject(src: SocketAddr, dst: SocketAddr, data: &[u8], after: u64) -> u32 {
    with(|w| {
        let data: Arc<[u8]> = data.into();
        if w.cfg.verbose {
            let m = format!("[{:>10.3}ms] inject {} -> {} in {}ms {}", w.now as f64 / 1e6, src, dst, after / MS, hex(&data));
            w.log.push(m);
        }
        w.net.tap.push(Tap { t: w.now, src, dst, data: data.clone(), fate: Fate::Delay(after), lib: false });
        fly(w, src, dst, data, after)
    })
}
fn deliver(d: Datagram) {
    let wakers = with(|w| {
        let mut best: Option<u32> = None;
        for (id, s) in w.net.socks.iter() {
            if s.addr.port() != d.dst.port() || s.addr.is_ipv4() != d.dst.is_ipv4() {
                continue;
            }
            if s.addr.ip() == d.dst.ip() {
                best = Some(*id);
                break;
            }
            if s.addr.ip().is_unspecified() {
                best = Some(*id);
            }
        }
        let verbose = w.cfg.verbose;
        let now = w.now;
        let rxq = w.cfg.rxq;
        let id = match best {
            Some(i) => i,
            None => {
                if verbose {
                    let m = format!("[{:>10.3}ms] nobody at {}", now as f64 / 1e6, d.dst);
                    w.log.push(m);
                }
                return vec![];
            }
        };
        let s = w.net.socks.get_mut(&id).unwrap();
        if let Some(p) = s.connected {
            if p != d.src {
                return vec![];
            }
        }
        if s.rx.len() >= rxq {
            return vec![];
        }
        s.rx.push_back((d.data.clone(), d.src));
        let ws = std::mem::take(&mut s.wakers);
        w.net.deliveries.push(Delivery { t: now, src: d.src, dst: d.dst, data: d.data, id: d.id });
        ws
    });
    for wk in wakers {
        wk.wake();
    }
}
/// Receive into `buf` (truncating).
pub fn net_poll_recv(id: u32, buf: &mut [u8], cx: &mut Context<'_>, peek: bool) -> Poll<std::io::Result<(usize, SocketAddr)>> {
    let r = with(|w| {
        let s = match w.net.socks.get_mut(&id) {
            Some(s) => s,
            None => return Poll::Ready(Err(err(std::io::ErrorKind::NotConnected, "closed"))),
        };
        let item = if peek { s.rx.front().cloned() } else { s.rx.pop_front() };
        match item {
            Some((d, src)) => {
                let n = d.len().min(buf.len());
                buf[..n].copy_from_slice(&d[..n]);
                Poll::Ready(Ok((n, src)))
            }
            None => {
                if !s.wakers.iter().any(|x| x.will_wake(cx.waker())) {
                    s.wakers.push(cx.waker().clone());
                }
                Poll::Pending
            }
        }
    });
    r
}
pub fn net_try_recv(id: u32, buf: &mut [u8]) -> std::io::Result<(usize, SocketAddr)> {
    let mut cx = Context::from_waker(Waker::noop());
    match net_poll_recv(id, buf, &mut cx, false) {
        Poll::Ready(r) => r,
        Poll::Pending => Err(std::io::ErrorKind::WouldBlock.into()),
    }
}
pub fn net_has_data(id: u32, cx: &mut Context<'_>) -> bool {
    with(|w| match w.net.socks.get_mut(&id) {
        Some(s) => {
            if s.rx.is_empty() {
                s.wakers.push(cx.waker().clone());
                false
            } else {
                true
            }
        }
        None => true,
    })
}

pub fn set_fates(f: Vec<Fate>) {
    with(|w| w.cfg.fates = f)
}
pub fn set_rxq(n: usize) {
    with(|w| w.cfg.rxq = n)
}
pub fn set_latency(l: u64) {
    with(|w| w.cfg.latency = l)
}
pub fn set_fate_filter(f: Option<Arc<dyn Fn(&SocketAddr, &SocketAddr, &[u8]) -> bool>>) {
    let old = with(|w| std::mem::replace(&mut w.fate_filter, f));
    drop(old);
}
pub fn tap_len() -> usize {
    with(|w| w.net.tap.len())
}
pub fn tap_from(i: usize) -> Vec<Tap> {
    with(|w| w.net.tap[i..].to_vec())
}
pub fn with_tap<R>(f: impl FnOnce(&[Tap]) -> R) -> R {
    with(|w| f(&w.net.tap))
}
pub fn deliveries_from(i: usize) -> Vec<Delivery> {
    with(|w| w.net.deliveries[i..].to_vec())
}
pub fn deliveries_len() -> usize {
    with(|w| w.net.deliveries.len())
}
/// Forget logged traffic (for very long executions).
pub fn clear_logs() {
    with(|w| {
        w.net.tap.clear();
        w.net.deliveries.clear();
    })
}
pub fn in_flight() -> usize {
    with(|w| w.net.flight.len())
}
pub fn log(f: impl FnOnce() -> String) {
    let v = with(|w| w.cfg.verbose);
    if v {
        let s = f();
        with(|w| {
            let m = format!("[{:>10.3}ms] {}", w.now as f64 / 1e6, s);
            w.log.push(m);
        })
    }
}

/// `Err(())` when `ns` elapse first.
pub async fn timeout<F: Future>(ns: u64, f: F) -> Result<F::Output, ()> {
    let mut s = sleep(ns);
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(())),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}

/// Note that a situation of interest occurred in this execution.
pub fn cover(tag: &'static str) {
    with(|w| {
        if !w.cover.contains(&tag) {
            w.cover.push(tag)
        }
    })
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
impl Report {
    pub fn empty() -> Report {
        Report {
            base: 0,
            trace: vec![],
            pos: 0,
            prefix_hash: 0,
            steps: 0,
            diverged: None,
            panics: vec![],
            livelock: false,
            log: vec![],
            end: 0,
            cover: vec![],
        }
    }
}
/// current virtual time; usable inside a fate filter
pub fn vnow() -> u64 {
    VNOW.with(|v| v.get())
}
