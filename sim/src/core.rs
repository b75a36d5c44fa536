//! Simulator core: one global simulation per process, three recorded choice streams, simulated clock, event log,
//! fault plan, and the baton scheduler that decides which (real, parked) thread runs.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;

use crate::os::{raw_wait, raw_wake, RawGuard, RawMutex};

use crate::vfs::Disk;

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng([u64; 4]);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            0
        } else {
            ((self.next() >> 33) % n as u64) as u32
        }
    }
    pub fn chance(&mut self, permille: u32) -> bool {
        self.below(1000) < permille
    }
}

/// A recorded stream of choices. Convention: 0 is always the simplest choice (stop, stay, no fault).
pub struct Stream {
    rng: Rng,
    pub rec: Vec<u32>,
    pub spans: Vec<(usize, usize)>,
    replay: Option<Vec<u32>>,
}
impl Stream {
    pub fn new(seed: u64, replay: Option<Vec<u32>>) -> Self {
        Stream { rng: Rng::new(seed), rec: vec![], spans: vec![], replay }
    }
    /// Draw a value in 0..n; `f` decides it in generating mode.
    pub fn draw(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0),
            None => f(&mut self.rng),
        };
        let v = if n == 0 { 0 } else { v % n };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.draw(n, |r| r.below(n))
    }
    pub fn chance(&mut self, permille: u32) -> bool {
        self.draw(2, |r| r.chance(permille) as u32) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        &xs[i]
    }
    /// Weighted choice: returns the index. Index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u32 = ws.iter().sum();
        self.draw(ws.len() as u32, |r| {
            let mut x = r.below(tot);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u32;
                }
                x -= w;
            }
            0
        }) as usize
    }
}

// ---------------------------------------------------------------- violations, world

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    /// class of the violation: stays the same under minimisation
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default)]
pub struct FaultPlan {
    pub armed: bool,
    /// kinds enabled in this run
    pub kinds: Vec<Fault>,
    /// mean gap between faults, in eligible operations; 0 = no faults at all
    pub mean_gap: u32,
    pub remaining: u32,
    pub next_in: u32, // 0: exhausted
    pub started: bool,
    pub last_fired: u64,
    /// how often a fault (also a lasting one) has struck so far
    pub hits: u64,
    /// disk full: this many further growing writes fail
    pub full_left: u32,
    /// another process holds the database lock at this level until this time
    pub foreign: Option<(i32, u64)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    Eio,
    Full,
    Torn,
    Busy,
    CantOpen,
    Kill,
    Power,
    Stall,
    /// the network connection is lost
    Cut,
    /// the server answers with an error
    SrvErr,
    /// the client gives up waiting for an operation
    Abandon,
}

pub struct Sim {
    pub seed: u64,
    pub work: Stream,
    pub sched: Stream,
    pub fault: Stream,
    pub aux: Rng,
    pub now_us: u64,
    pub events: u64,
    pub hash: u64,
    /// hash of schedule-relevant events only (who ran when): the measure of distinct interleavings
    pub shash: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub disk: Disk,
    pub plan: FaultPlan,
    pub dead_procs: Vec<u32>,
    pub max_proc: u32,
    pub violations: Vec<Violation>,
    pub switch_pm: u32,
    pub max_events: u64,
    pub overrun: bool,
    /// oracle at work: no log, no clock, no faults
    pub quiet: bool,
    pub clock_reads: u64,
    /// worker threads still waiting when the clients were done
    pub left_waiting: u32,
    pub wall_skew: u64,
    /// the database is Turso's
    pub turso: bool,
    /// another connection holds the write lock
    pub blocked: bool,
    /// another connection has committed since this transaction began
    pub stale: bool,
    /// this client has learnt that its network connection is lost, or has abandoned an operation
    pub lost: bool,
}

static SIM: RawMutex<Option<Box<Sim>>> = RawMutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);

fn lock_sim() -> RawGuard<'static, Option<Box<Sim>>> {
    SIM.lock()
}
pub fn run_active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
/// The simulated time; reading it costs a little, so that a loop that waits for the clock ends.
pub fn clock() -> u64 {
    let mut g = lock_sim();
    match g.as_mut() {
        Some(s) => {
            s.clock_reads += 1;
            if s.clock_reads % 16 == 0 {
                s.now_us += 1;
            }
            s.now_us
        }
        None => 0,
    }
}
/// Displacement of the wall clock (clock jumps).
pub fn wall_skew() -> u64 {
    lock_sim().as_ref().map_or(0, |s| s.wall_skew)
}

pub fn sim<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let mut g = lock_sim();
    f(g.as_mut().expect("no simulation is running"))
}
pub fn sim_active() -> bool {
    lock_sim().is_some()
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Choices {
    pub work: Vec<u32>,
    pub sched: Vec<u32>,
    pub fault: Vec<u32>,
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Sim {
    pub fn new(seed: u64, replay: Option<Choices>, trace: bool) -> Box<Sim> {
        let mut s = seed ^ 0xD57_0001;
        let (a, b, c, d) = (splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s));
        let (rw, rs, rf) = match replay {
            Some(r) => (Some(r.work), Some(r.sched), Some(r.fault)),
            None => (None, None, None),
        };
        Box::new(Sim {
            seed,
            work: Stream::new(a, rw),
            sched: Stream::new(b, rs),
            fault: Stream::new(c, rf),
            aux: Rng::new(d),
            now_us: 0,
            events: 0,
            hash: 0xcbf29ce484222325,
            shash: 0xcbf29ce484222325,
            trace_on: trace,
            trace: vec![],
            stats: BTreeMap::new(),
            disk: Disk::default(),
            plan: FaultPlan::default(),
            dead_procs: vec![],
            max_proc: 0,
            violations: vec![],
            switch_pm: 0,
            max_events: 400_000,
            overrun: false,
            quiet: false,
            clock_reads: 0,
            left_waiting: 0,
            wall_skew: 0,
            turso: false,
            blocked: false,
            stale: false,
            lost: false,
        })
    }
    pub fn log(&mut self, s: &str) {
        if self.quiet {
            return;
        }
        self.events += 1;
        self.hash = fnv(self.hash, s.as_bytes());
        if self.trace_on {
            self.trace.push(format!("{:>9}us t{} p{} {}", self.now_us, me_name(), proc_id(), s));
        }
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn violate(&mut self, class: &str, detail: String) {
        self.log(&format!("VIOLATED {class}: {detail}"));
        if self.violations.len() < 8 {
            self.violations.push(Violation { class: class.into(), detail });
        }
    }
    pub fn proc_dead(&self, p: u32) -> bool {
        self.dead_procs.contains(&p)
    }

    /// Set up the fault plan of this run. Kinds and density are drawn by the caller from the fault stream.
    pub fn set_plan(&mut self, kinds: &[Fault], mean_gap: u32, count: u32) {
        self.plan = FaultPlan {
            armed: false,
            kinds: kinds.to_vec(),
            mean_gap,
            remaining: count,
            next_in: 0,
            ..Default::default()
        };
    }
    /// Stop injecting, and lift whatever still lasts.
    pub fn end_faults(&mut self) {
        self.plan.armed = false;
        self.plan.full_left = 0;
        self.plan.foreign = None;
    }
    pub fn rearm(&mut self) {
        self.plan.armed = true;
    }
    /// To be called at each operation at which one of `applicable` could strike.
    pub fn fault_here(&mut self, applicable: &[Fault]) -> Option<Fault> {
        if !self.plan.armed || self.plan.mean_gap == 0 || self.plan.remaining == 0 {
            return None;
        }
        let usable: Vec<Fault> = self
            .plan
            .kinds
            .iter()
            .copied()
            .filter(|k| applicable.contains(k))
            .collect();
        if usable.is_empty() {
            return None;
        }
        if !self.plan.started {
            self.plan.started = true;
            self.next_gap();
        }
        if self.plan.next_in == 0 {
            return None;
        }
        self.plan.next_in -= 1;
        if self.plan.next_in > 0 {
            return None;
        }
        self.plan.remaining -= 1;
        let k = *{
            let i = self.fault.below(usable.len() as u32) as usize;
            &usable[i]
        };
        if self.plan.remaining > 0 {
            self.next_gap();
        }
        self.plan.last_fired = self.events;
        self.plan.hits += 1;
        self.stat(match k {
            Fault::Eio => "fault:io_error",
            Fault::Full => "fault:disk_full",
            Fault::Torn => "fault:short_write",
            Fault::Busy => "fault:lock_contention",
            Fault::CantOpen => "fault:open_failure",
            Fault::Kill => "fault:process_kill",
            Fault::Power => "fault:power_loss",
            Fault::Stall => "fault:stall",
            Fault::Cut => "fault:connection_lost",
            Fault::SrvErr => "fault:server_error",
            Fault::Abandon => "fault:operation_abandoned",
        });
        Some(k)
    }
    fn next_gap(&mut self) {
        let m = self.plan.mean_gap;
        // mixture: short gaps (bursts) and geometric-ish long ones. 0 means "no further fault".
        let g = self.fault.draw(1_000_000, |r| {
            if r.chance(250) {
                1 + r.below(3)
            } else {
                1 + r.below(2 * m)
            }
        });
        self.plan.next_in = g;
        if g == 0 {
            self.plan.remaining = 0;
        }
    }
}

#[macro_export]
macro_rules! slog {
    ($($a:tt)*) => { $crate::core::sim(|s| { let m = format!($($a)*); s.log(&m) }) };
}

// ---------------------------------------------------------------- running one simulation

pub struct RunResult {
    pub choices: Choices,
    pub spans: Vec<(usize, usize)>,
    pub fspans: Vec<(usize, usize)>,
    pub violations: Vec<Violation>,
    pub hash: u64,
    pub shash: u64,
    pub events: u64,
    pub now_us: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
}

/// Run `f` as one simulation.
pub fn run_one(seed: u64, replay: Option<Choices>, trace: bool, f: impl FnOnce()) -> RunResult {
    *lock_sim() = Some(Sim::new(seed, replay, trace));
    PROC.with(|p| p.set(0));
    ACTIVE.store(true, Ordering::SeqCst);
    crate::os::SIMCLOCK.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::os::SIMCLOCK.with(|c| c.set(false));
    ACTIVE.store(false, Ordering::SeqCst);
    if let Err(e) = r {
        let m = panic_msg(&e);
        sim(|s| s.violate("panic", format!("panic outside any client: {m}")));
    }
    let s = lock_sim().take().unwrap();
    let mut stats = s.stats;
    if s.overrun {
        *stats.entry("probe:event_cap_reached").or_insert(0) += 1;
    }
    RunResult {
        choices: Choices { work: s.work.rec, sched: s.sched.rec, fault: s.fault.rec },
        spans: s.work.spans,
        fspans: s.fault.spans,
        violations: s.violations,
        hash: s.hash,
        shash: s.shash,
        events: s.events,
        now_us: s.now_us,
        stats,
        trace: s.trace,
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ---------------------------------------------------------------- baton scheduler

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static PROC: Cell<u32> = const { Cell::new(0) };
    /// >0: the scheduler must not switch (harness bookkeeping, oracle reads)
    static NOSWITCH: Cell<u32> = const { Cell::new(0) };
}
pub fn proc_id() -> u32 {
    PROC.with(|p| p.get())
}
/// The process of the harness itself: never dies.
pub const ORACLE: u32 = u32::MAX;
/// The number of a process that starts now.
pub fn new_proc() -> u32 {
    sim(|s| {
        s.max_proc += 1;
        s.max_proc
    })
}
pub fn set_proc(p: u32) {
    PROC.with(|x| x.set(p))
}
fn me_name() -> String {
    let m = ME.with(|m| m.get());
    if m == usize::MAX {
        "-".into()
    } else {
        m.to_string()
    }
}
pub fn in_sim_thread() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
pub struct NoSwitch;
impl NoSwitch {
    pub fn new() -> Self {
        NOSWITCH.with(|n| n.set(n.get() + 1));
        NoSwitch
    }
}
impl Drop for NoSwitch {
    fn drop(&mut self) {
        NOSWITCH.with(|n| n.set(n.get() - 1));
    }
}

/// Is this thread under the scheduler right now?
pub fn scheduled() -> bool {
    ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX && NOSWITCH.try_with(|n| n.get()).unwrap_or(1) == 0
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(u64),
    /// on a key, or until a time
    BlockedT(u64, u64),
    Sleep(u64),
    Done,
}
struct Th {
    st: St,
    go: Arc<AtomicU32>,
    daemon: bool,
    #[allow(dead_code)]
    name: String,
    pthread: u64,
    exit_key: u64,
    /// waits for something only the program under test can provide
    futex: bool,
    abandoned: bool,
    ended: bool,
    woken: bool,
}
#[derive(Default)]
struct Sch {
    th: Vec<Th>,
    cur: usize,
    active: bool,
    next_key: u64,
    /// set when the run is over: blocked daemons are told to give up
    shutdown: bool,
    deadlock: bool,
}
static SCH: RawMutex<Option<Sch>> = RawMutex::new(None);
static MAINGO: AtomicU32 = AtomicU32::new(0);
pub static LEAKED: AtomicU64 = AtomicU64::new(0);

type SchGuard = RawGuard<'static, Option<Sch>>;
fn lock_sch() -> SchGuard {
    SCH.lock()
}

pub fn new_key() -> u64 {
    let mut g = lock_sch();
    let s = g.get_or_insert_with(Sch::default);
    s.next_key += 1;
    s.next_key + 1000
}

const NONE: usize = usize::MAX - 1;

impl Sch {
    /// choose who runs next; `me` may be still Ready. Returns NONE when nobody can run.
    fn pick(&mut self, me: usize, voluntary: bool) -> usize {
        loop {
            let now = sim(|s| s.now_us);
            for t in self.th.iter_mut() {
                if let St::Sleep(u) | St::BlockedT(_, u) = t.st {
                    if u <= now {
                        t.st = St::Ready;
                    }
                }
            }
            let mut ready: Vec<usize> = vec![];
            if me < self.th.len() && self.th[me].st == St::Ready {
                ready.push(me);
            }
            for (i, t) in self.th.iter().enumerate() {
                if i != me && t.st == St::Ready {
                    ready.push(i);
                }
            }
            if ready.is_empty() {
                let mut best: Option<u64> = None;
                for t in self.th.iter() {
                    if let St::Sleep(u) | St::BlockedT(_, u) = t.st {
                        // once the clients are done, nobody waits for a worker's timer
                        if best.is_none_or(|b| u < b) && !(t.daemon && self.clients_done()) {
                            best = Some(u);
                        }
                    }
                }
                match best {
                    Some(u) => {
                        sim(|s| s.now_us = s.now_us.max(u));
                        continue;
                    }
                    None => return NONE,
                }
            }
            if ready.len() == 1 {
                return ready[0];
            }
            let stay = ready[0] == me;
            let n = ready.len() as u32;
            let k = sim(|s| {
                let pm = s.switch_pm;
                s.sched.draw(n, |r| {
                    if stay && voluntary && !r.chance(pm) {
                        0
                    } else if stay {
                        1 + r.below(n - 1)
                    } else {
                        r.below(n)
                    }
                })
            }) as usize;
            return ready[k];
        }
    }
    fn clients_done(&self) -> bool {
        self.th.iter().all(|t| t.daemon || t.st == St::Done)
    }
}

fn wait_turn(mut g: SchGuard, me: usize) -> SchGuard {
    let go = g.as_ref().unwrap().th[me].go.clone();
    loop {
        if g.as_ref().unwrap().cur == me {
            return g;
        }
        let v = go.load(Ordering::SeqCst);
        drop(g);
        if v == 0 {
            raw_wait(&go, 0);
        }
        g = lock_sch();
        if g.as_ref().unwrap().cur != me {
            go.store(0, Ordering::SeqCst);
        }
    }
}
fn kick(go: &AtomicU32) {
    go.store(1, Ordering::SeqCst);
    raw_wake(go);
}

fn switch(st: St, voluntary: bool) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut g = lock_sch();
    let s = g.as_mut().unwrap();
    s.th[me].st = st;
    s.th[me].woken = false;
    let next = s.pick(me, voluntary);
    hand_over(&mut g, me, next);
    let s = g.as_mut().unwrap();
    if s.cur == me {
        return;
    }
    s.th[me].go.store(0, Ordering::SeqCst);
    let g = wait_turn(g, me);
    drop(g);
}

fn hand_over(g: &mut SchGuard, me: usize, next: usize) {
    let s = g.as_mut().unwrap();
    if next == NONE {
        // nobody can run: either everything is done, or only daemons wait, or a deadlock
        let clients_waiting = !s.clients_done();
        if clients_waiting && !s.shutdown {
            s.deadlock = true;
            let who: Vec<String> =
                s.th.iter().filter(|t| t.st != St::Done).map(|t| format!("{} {:?}", t.name, t.futex)).collect();
            let _ = who;
            sim(|x| x.violate("deadlock", "no thread can make progress".into()));
        }
        if !s.shutdown && s.th.iter().any(|t| t.st != St::Done) {
            let leaked = s.th.iter().filter(|t| t.daemon && t.st != St::Done).count();
            if !clients_waiting && leaked > 0 {
                sim(|x| {
                    x.left_waiting = leaked as u32;
                    x.stat("probe:worker_left_waiting");
                    x.log(&format!("{leaked} worker(s) left waiting"));
                });
            }
            s.shutdown = true;
            for t in s.th.iter_mut() {
                if t.st != St::Done {
                    t.st = St::Ready;
                }
            }
            let n = s.pick(me, false);
            if n != NONE {
                hand_over(g, me, n);
                return;
            }
        }
        s.cur = NONE;
        MAINGO.store(1, Ordering::SeqCst);
        raw_wake(&MAINGO);
        return;
    }
    if next != me {
        sim(|x| {
            x.shash = fnv(x.shash, &[next as u8]);
            x.shash = fnv(x.shash, &x.events.to_le_bytes());
            x.stat("context_switches");
        });
    }
    s.cur = next;
    if next != me {
        kick(&s.th[next].go);
    }
}

pub fn sched_active() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}

/// A point at which the scheduler may let somebody else run.
pub fn yield_point() {
    if !scheduled() {
        return;
    }
    if sim(|s| {
        if s.events > s.max_events {
            s.overrun = true;
        }
        s.overrun
    }) {
        return;
    }
    switch(St::Ready, true);
}

pub fn sleep_us(us: u64) {
    if !scheduled() {
        sim(|s| s.now_us += us);
        return;
    }
    let until = sim(|s| s.now_us + us);
    switch(St::Sleep(until), false);
}

/// Block until somebody wakes `key`. Returns false if the run is shutting down instead.
pub fn block_on_key(key: u64) -> bool {
    if ME.with(|m| m.get()) == usize::MAX {
        return false;
    }
    {
        let g = lock_sch();
        if g.as_ref().unwrap().shutdown {
            return false;
        }
    }
    switch(St::Blocked(key), false);
    let g = lock_sch();
    !g.as_ref().unwrap().shutdown
}
/// A wait of the program under test. True: woken (or spuriously); false: timed out. If the run ends meanwhile, the
/// thread is taken out of the simulation and never returns.
pub fn block_futex(key: u64, deadline: Option<u64>) -> bool {
    let me = ME.with(|m| m.get());
    if let Some(d) = deadline {
        if sim(|s| s.now_us) >= d {
            // let others run, as a kernel would
            switch(St::Ready, true);
            return false;
        }
    }
    if shutting_down() {
        abandon(me);
    }
    lock_sch().as_mut().unwrap().th[me].futex = true;
    switch(deadline.map_or(St::Blocked(key), |d| St::BlockedT(key, d)), false);
    let woken = {
        let mut g = lock_sch();
        let s = g.as_mut().unwrap();
        s.th[me].futex = false;
        if s.shutdown && !s.th[me].woken {
            drop(g);
            abandon(me);
        }
        s.th[me].woken
    };
    woken || deadline.is_none()
}
fn abandon(me: usize) -> ! {
    LEAKED.fetch_add(1, Ordering::SeqCst);
    {
        let mut g = lock_sch();
        let s = g.as_mut().unwrap();
        s.th[me].abandoned = true;
        s.th[me].st = St::Done;
        let next = s.pick(me, false);
        ME.with(|m| m.set(usize::MAX));
        crate::os::SIMCLOCK.with(|c| c.set(false));
        hand_over(&mut g, me, next);
    }
    let never = AtomicU32::new(0);
    loop {
        raw_wait(&never, 0);
    }
}
/// This thread's simulated process has ended: the thread ends without unwinding. What it owned in memory is leaked.
pub fn end_thread() -> ! {
    let me = ME.with(|m| m.get());
    LEAKED.fetch_add(1, Ordering::SeqCst);
    {
        let mut g = lock_sch();
        let s = g.as_mut().unwrap();
        s.th[me].ended = true;
        s.th[me].st = St::Done;
        let next = s.pick(me, false);
        ME.with(|m| m.set(usize::MAX));
        crate::os::SIMCLOCK.with(|c| c.set(false));
        hand_over(&mut g, me, next);
    }
    unsafe {
        // the alternate signal stack of std
        let mut ss: libc::stack_t = std::mem::zeroed();
        libc::sigaltstack(std::ptr::null(), &mut ss);
        if ss.ss_flags & libc::SS_DISABLE == 0 {
            let off = libc::stack_t { ss_sp: std::ptr::null_mut(), ss_flags: libc::SS_DISABLE, ss_size: ss.ss_size };
            libc::sigaltstack(&off, std::ptr::null_mut());
            let page = libc::sysconf(libc::_SC_PAGESIZE) as usize;
            libc::munmap((ss.ss_sp as usize - page) as *mut _, ss.ss_size + page);
        }
        crate::os::raw6(libc::SYS_exit, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn wake_key(key: u64) {
    wake_some(key, usize::MAX);
}
/// Wake up to `n` threads blocked on the key; which, is a scheduling choice.
pub fn wake_some(key: u64, n: usize) -> usize {
    let mut g = lock_sch();
    let Some(s) = g.as_mut() else { return 0 };
    let mut w: Vec<usize> = s
        .th
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t.st, St::Blocked(k) | St::BlockedT(k, _) if k == key))
        .map(|(i, _)| i)
        .collect();
    let mut done = 0;
    while done < n && !w.is_empty() {
        let i = if n < w.len() { sim(|x| x.sched.below(w.len() as u32)) as usize } else { 0 };
        let t = w.remove(i);
        s.th[t].st = St::Ready;
        s.th[t].woken = true;
        done += 1;
    }
    done
}
pub fn shutting_down() -> bool {
    lock_sch().as_ref().is_some_and(|s| s.shutdown)
}

struct SpawnAs {
    name: String,
    proc: u32,
    daemon: bool,
}
thread_local! {
    static SPAWN_AS: std::cell::RefCell<Option<SpawnAs>> = const { std::cell::RefCell::new(None) };
}
/// Called when a thread is about to be created: registers it if it belongs to the simulation.
pub fn thread_new() -> Option<(usize, u32)> {
    let a = SPAWN_AS.try_with(|s| s.borrow_mut().take()).ok().flatten();
    let a = match a {
        Some(a) => a,
        None if scheduled() => SpawnAs { name: "worker".into(), proc: proc_id(), daemon: true },
        None => return None,
    };
    let exit_key = new_key();
    let mut g = lock_sch();
    let s = g.as_mut().unwrap();
    let id = s.th.len();
    s.th.push(Th {
        st: St::Ready,
        go: Arc::new(AtomicU32::new(0)),
        daemon: a.daemon,
        name: a.name,
        pthread: 0,
        exit_key,
        futex: false,
        abandoned: false,
        ended: false,
        woken: false,
    });
    Some((id, a.proc))
}
pub fn thread_started(id: usize, pthread: u64) {
    let mut g = lock_sch();
    if let Some(t) = g.as_mut().and_then(|s| s.th.get_mut(id)) {
        t.pthread = pthread;
    }
}
pub fn thread_exit_unstarted(id: usize) {
    lock_sch().as_mut().unwrap().th[id].st = St::Done;
}
pub fn thread_enter(id: usize, proc: u32) {
    ME.with(|m| m.set(id));
    PROC.with(|p| p.set(proc));
    drop(wait_turn(lock_sch(), id));
}
pub fn thread_exit(id: usize) {
    if ME.with(|m| m.get()) == usize::MAX {
        return;
    }
    let key = lock_sch().as_ref().unwrap().th[id].exit_key;
    wake_key(key);
    ME.with(|m| m.set(usize::MAX));
    let mut g = lock_sch();
    let s = g.as_mut().unwrap();
    s.th[id].st = St::Done;
    let next = s.pick(id, false);
    hand_over(&mut g, id, next);
}
/// Wait, in the simulation, until this thread has ended.
pub fn thread_await(pthread: u64) {
    loop {
        let key = {
            let g = lock_sch();
            let s = g.as_ref().unwrap();
            // the newest with this handle: handles are reused
            match s.th.iter().rev().find(|t| t.pthread == pthread) {
                Some(t) if t.st != St::Done => t.exit_key,
                _ => return,
            }
        };
        block_futex(key, None);
    }
}

/// Register and start a simulated thread.
pub fn spawn_thread(name: &str, proc: u32, daemon: bool, f: Box<dyn FnOnce() + Send>) -> std::thread::JoinHandle<()> {
    SPAWN_AS.with(|s| *s.borrow_mut() = Some(SpawnAs { name: name.into(), proc, daemon }));
    std::thread::Builder::new()
        .name(format!("sim-{name}"))
        .stack_size(1 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Err(e) = r {
                let m = panic_msg(&e);
                let dead = sim(|s| s.proc_dead(proc));
                if !dead {
                    sim(|s| s.violate("panic", format!("client thread panicked: {m}")));
                }
            }
        })
        .expect("spawn")
}

pub type Client = (String, u32, Box<dyn FnOnce() + Send>);

/// Run the clients to completion under the scheduler. Called from the run's main thread.
/// Returns true if it ended without a deadlock.
pub fn run_clients(cs: Vec<Client>) -> bool {
    {
        let mut g = lock_sch();
        let nk = g.as_ref().map_or(0, |s| s.next_key);
        *g = Some(Sch { next_key: nk, cur: NONE, active: true, ..Default::default() });
    }
    let mut hs = vec![];
    for (n, p, f) in cs {
        hs.push(spawn_thread(&n, p, false, f));
    }
    {
        let mut g = lock_sch();
        let s = g.as_mut().unwrap();
        let next = s.pick(NONE, false);
        if next != NONE {
            MAINGO.store(0, Ordering::SeqCst);
            s.cur = next;
            kick(&s.th[next].go);
            loop {
                let s = g.as_ref().unwrap();
                if s.cur == NONE && s.th.iter().all(|t| t.st == St::Done) {
                    break;
                }
                let v = MAINGO.load(Ordering::SeqCst);
                drop(g);
                if v == 0 {
                    raw_wait(&MAINGO, 0);
                }
                g = lock_sch();
                if g.as_ref().unwrap().cur != NONE {
                    MAINGO.store(0, Ordering::SeqCst);
                }
            }
        }
    }
    let mut g = lock_sch();
    let s = g.as_mut().unwrap();
    let (nk, dl) = (s.next_key, s.deadlock);
    let left: Vec<(bool, bool)> = s.th.iter().filter(|t| !t.daemon).map(|t| (t.abandoned, t.ended)).collect();
    *g = Some(Sch { next_key: nk, cur: NONE, ..Default::default() });
    drop(g);
    for (h, (ab, ended)) in hs.into_iter().zip(left) {
        if ended {
            use std::os::unix::thread::JoinHandleExt;
            // std remembers the first thread that ended the program: its identity must not be used again
            static FIRST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
            if FIRST.swap(false, Ordering::SeqCst) {
                std::mem::forget(h);
                continue;
            }
            unsafe { libc::pthread_join(h.into_pthread_t(), std::ptr::null_mut()) };
        } else if !ab {
            let _ = h.join();
        }
    }
    !dl
}
