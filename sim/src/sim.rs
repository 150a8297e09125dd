//! The simulator: one baton, handed from thread to thread by a seeded scheduler; a virtual clock;
//! fault decisions; the simulated disk; the event log.
use crate::disk::{CrashMode, Disk};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
pub fn set_tid(t: i32) {
    TID.with(|x| x.set(t))
}
pub fn in_sim() -> bool {
    tid() >= 0
}

static mut SIM: *mut Sim = null_mut();
/// The simulator's state; only the holder of the baton touches it. Fetched afresh after every
/// point at which the baton may have moved.
pub fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn exists() -> bool {
    unsafe { !SIM.is_null() }
}

// ---------------------------------------------------------------- raw syscalls
pub unsafe fn sys(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn real_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        sys(libc::SYS_futex, a as *const _ as u64, 128, v as u64, 0, 0, 0);
    }
}
fn real_futex_wake(a: &AtomicU32) {
    unsafe {
        sys(libc::SYS_futex, a as *const _ as u64, 129, 1, 0, 0, 0);
    }
}

#[derive(Default)]
pub struct Baton(AtomicU32);
impl Baton {
    fn give(&self) {
        self.0.store(1, SeqCst);
        real_futex_wake(&self.0);
    }
    fn take(&self) {
        while self.0.load(SeqCst) == 0 {
            real_futex_wait(&self.0, 0);
        }
        self.0.store(0, SeqCst);
    }
}

// ---------------------------------------------------------------- configuration
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Op {
    Open,
    Close,
    Read,
    Write,
    Fsync,
    Stat,
    Trunc,
    Seek,
    Dir,
    Futex,
    Wake,
    Thread,
    Yield,
    Mark,
}
pub const OPS: [Op; 14] = [
    Op::Open, Op::Close, Op::Read, Op::Write, Op::Fsync, Op::Stat, Op::Trunc, Op::Seek, Op::Dir, Op::Futex,
    Op::Wake, Op::Thread, Op::Yield, Op::Mark,
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Policy {
    /// keep running the current thread until it blocks
    Serial,
    Random,
    /// keep running the current thread with this probability (per 10000)
    Sticky(u32),
    /// random priorities with this many change points (PCT)
    Pct(u32),
}

/// Fault rates, per 10000 opportunities.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Rates {
    pub short_write: u32,
    pub short_read: u32,
    pub eintr: u32,
    pub delay: u32,
    pub spurious_wake: u32,
    pub clock_jump: u32,
    pub write_err: u32,
    pub read_err: u32,
    pub fsync_err: u32,
    pub open_err: u32,
    pub stat_err: u32,
    /// hard faults only where the path contains one of these (all paths when empty)
    pub target: Vec<String>,
    /// at most this many hard faults
    pub max_hard: u32,
    /// exactly the nth operation (from 0) of this kind on a targeted path fails
    pub nth: Vec<(Op, u32)>,
    /// directories included in targets
    pub dirs: bool,
    /// what has failed once on a path goes on failing: a bad sector, a full disk
    pub sticky: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    Short(u64),
    Eintr,
    Errno(i32),
    /// fsync fails and some dirty data is dropped for good
    FsyncLost,
    Delay(u64),
    SpuriousWake,
    ClockJump,
    /// somebody sets the wall clock, by so many nanoseconds
    WallStep(i64),
}
impl Fault {
    pub fn hard(&self) -> bool {
        matches!(self, Fault::Errno(_) | Fault::FsyncLost)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum CrashAt {
    /// before the nth disk operation of the phase
    Before(u64),
    /// right after the nth disk operation of the phase
    After(u64),
    /// right after the nth acknowledgement seen by a client
    Ack(u64),
    /// when all clients are done
    End,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Crash {
    pub at: CrashAt,
    pub mode: Mode,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Kill,
    PowerStrict,
    PowerRandom,
    PowerDirs,
}
impl Mode {
    pub fn disk(self) -> CrashMode {
        match self {
            Mode::Kill => CrashMode::Kill,
            Mode::PowerStrict => CrashMode::PowerStrict,
            Mode::PowerRandom => CrashMode::PowerRandom,
            Mode::PowerDirs => CrashMode::PowerDirs,
        }
    }
}

/// Explicit decisions of one phase: what a replay file holds.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Script {
    /// scheduling decision number -> thread to run (otherwise: go on with the current one)
    pub sched: BTreeMap<u64, u32>,
    /// fault opportunity number -> fault (otherwise: none)
    pub faults: BTreeMap<u64, Fault>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Crash,
    Deadlock,
    StepLimit,
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    Futex(usize),
    Sleep,
    Join(usize),
    Done,
    Dead,
}
struct Tcb {
    baton: Box<Baton>,
    st: St,
    deadline: Option<u64>,
    timed_out: bool,
    pthread: u64,
    prio: u64,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub step: u64,
    pub tid: u32,
    pub op: Op,
    pub path: u32,
    pub a: u64,
    pub b: u64,
    pub r: i64,
    pub fault: Option<Fault>,
}

pub struct FaultEv {
    pub op: Op,
    pub path: String,
    pub off: u64,
    pub step: u64,
    pub fault: Fault,
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    #[serde(default)]
    pub preemptions: u64,
    pub fs_ops: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
}

pub struct Sim {
    pub disk: Disk,
    tcbs: Vec<Tcb>,
    alive: Vec<usize>,
    controller: Box<Baton>,
    pub now: u64,
    /// disk requests that take longer than usual
    pub delayed: u32,
    /// how far the wall clock is ahead of the monotonic one
    pub wall: u64,
    pub steps: u64,
    pub step_limit: u64,
    phase_steps: u64,
    pub end: Option<End>,
    policy: Policy,
    rng_sched: Rng,
    rng_fault: Rng,
    rng_entropy: Rng,
    change_points: Vec<u64>,
    next_low: u64,
    picks: u64,
    opps: u64,
    pub phase_fs_ops: u64,
    acks: u64,
    pub rates: Rates,
    nth_seen: BTreeMap<Op, u32>,
    hard_count: u32,
    broken: Vec<(Op, String, i32)>,
    crash: Option<Crash>,
    script: Option<&'static Script>,
    /// mean distance of the preemptions inside the store's code, 0: none
    preempt: u32,
    preempted: u32,
    rng_preempt: Rng,
    pub recorded: Script,
    pub faults: Vec<FaultEv>,
    pub events: Vec<Ev>,
    pub hash: u64,
    pub paths: Vec<String>,
    path_ids: BTreeMap<String, u32>,
    pub stats: Stats,
    pub panics: Vec<String>,
    /// called at the start of every read of a simulated file: (fd, offset)
    pub on_pread: Option<fn(i32, u64)>,
}

const WALL_BASE: u64 = 1_700_000_000_000_000_000;
pub const CLOCK_BASE: u64 = 1_000_000_000_000;
const STACKS: usize = 0x5800_0000_0000;
pub const STACK_SIZE: usize = 1 << 19;

pub fn init() {
    let sim = Box::new(Sim {
        disk: Disk::new(),
        tcbs: vec![],
        alive: vec![],
        controller: Box::default(),
        now: CLOCK_BASE,
        delayed: 0,
        wall: WALL_BASE,
        steps: 0,
        step_limit: 100_000,
        phase_steps: 0,
        end: None,
        policy: Policy::Serial,
        rng_sched: Rng::new(0),
        rng_fault: Rng::new(0),
        rng_entropy: Rng::new(0),
        change_points: vec![],
        next_low: 0,
        picks: 0,
        opps: 0,
        phase_fs_ops: 0,
        acks: 0,
        rates: Rates::default(),
        nth_seen: BTreeMap::new(),
        hard_count: 0,
        broken: vec![],
        crash: None,
        script: None,
        preempt: 0,
        preempted: 0,
        rng_preempt: Rng::new(0),
        recorded: Script::default(),
        faults: vec![],
        events: vec![],
        hash: 0x1234_5678,
        paths: vec![String::new()],
        path_ids: BTreeMap::new(),
        stats: Stats::default(),
        panics: vec![],
        on_pread: None,
    });
    unsafe { SIM = Box::into_raw(sim) }
}

pub struct Phase {
    pub seed: u64,
    pub policy: Policy,
    pub rates: Rates,
    pub crash: Option<Crash>,
    pub script: Option<&'static Script>,
    pub preempt: u32,
    pub step_limit: u64,
    pub est_steps: u64,
}

/// Run `root` and every thread it starts under the scheduler until all is done, or a crash. Called by the
/// controller (the process's main thread). Returns how it ended and the decisions taken.
pub fn run_phase(p: Phase, root: Box<dyn FnOnce() + Send>) -> (End, Script) {
    let sim = s();
    sim.end = None;
    sim.phase_steps = 0;
    sim.step_limit = p.step_limit;
    sim.policy = p.policy.clone();
    sim.rng_sched = Rng::stream(p.seed, "sched");
    sim.rng_fault = Rng::stream(p.seed, "fault");
    sim.rng_entropy = Rng::stream(p.seed, "entropy");
    sim.change_points = match p.policy {
        Policy::Pct(d) => (0..d).map(|_| sim.rng_sched.below(p.est_steps.max(2))).collect(),
        _ => vec![],
    };
    sim.next_low = 1 << 20;
    sim.picks = 0;
    sim.opps = 0;
    sim.phase_fs_ops = 0;
    sim.delayed = 0;
    sim.acks = 0;
    sim.rates = p.rates;
    sim.nth_seen.clear();
    sim.hard_count = 0;
    sim.broken.clear();
    sim.crash = p.crash;
    sim.script = p.script;
    sim.preempt = p.preempt;
    sim.preempted = 0;
    sim.rng_preempt = Rng::stream(p.seed, "preempt");
    next_preemption();
    sim.recorded = Script::default();
    sim.hash = mix(sim.hash ^ 0x50_48_41_53_45);
    extern "C" fn tramp(arg: *mut libc::c_void) -> *mut libc::c_void {
        let f: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(arg as *mut _) };
        f();
        finish(End::Done)
    }
    let arg = Box::into_raw(Box::new(root)) as *mut libc::c_void;
    let id = unsafe { spawn(tramp, arg).1 };
    s().tcbs[id].baton.give();
    s().controller.take();
    let sim = s();
    // whoever is left never runs again
    let alive = std::mem::take(&mut sim.alive);
    for t in alive {
        sim.tcbs[t].st = St::Dead;
    }
    unsafe { COUNTDOWN = i64::MAX };
    (sim.end.clone().unwrap(), std::mem::take(&mut sim.recorded))
}

/// End the phase: called by the thread holding the baton, which never runs again.
pub fn finish(e: End) -> ! {
    let sim = s();
    if sim.end.is_none() {
        sim.end = Some(e);
    }
    sim.controller.give();
    park()
}
fn park() -> ! {
    let b = Baton::default();
    loop {
        b.take();
    }
}

extern "C" {
    fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut libc::c_void, n: libc::size_t) -> libc::c_int;
}
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct StartArg {
    id: usize,
    f: Start,
    arg: *mut libc::c_void,
}
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;

pub fn init_process() {
    unsafe {
        REAL_CREATE = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        REAL_JOIN = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
        assert!(REAL_CREATE != 0 && REAL_JOIN != 0);
        assert_eq!(libc::pthread_key_create(&raw mut EXIT_KEY, Some(on_exit)), 0);
    }
}
/// Runs as the last thing of a simulated thread, after its thread-local destructors.
extern "C" fn on_exit(v: *mut libc::c_void) {
    let round = v as usize;
    if round < 3 {
        unsafe { libc::pthread_setspecific(EXIT_KEY, (round + 1) as *const _) };
        return;
    }
    let me = tid() as usize;
    let sim = s();
    sim.tcbs[me].st = St::Done;
    sim.alive.retain(|t| *t != me);
    for t in sim.alive.clone() {
        if sim.tcbs[t].st == St::Join(me) {
            sim.tcbs[t].st = St::Runnable;
        }
    }
    // the kernel thread stays, so that nothing happens outside the baton
    let next = pick(me, false);
    s().tcbs[next].baton.give();
    park()
}
extern "C" fn thread_main(a: *mut libc::c_void) -> *mut libc::c_void {
    let a = a as *mut StartArg;
    let id = unsafe { (*a).id };
    set_tid(id as i32);
    s().tcbs[id].baton.take();
    let (f, arg) = {
        let _own = crate::alloc::own();
        let a = unsafe { Box::from_raw(a) };
        (a.f, a.arg)
    };
    unsafe { libc::pthread_setspecific(EXIT_KEY, 1 as *const _) };
    f(arg)
}

/// Create a simulated thread (runnable, not yet running).
pub unsafe fn spawn(f: Start, arg: *mut libc::c_void) -> (u64, usize) {
    let _own = crate::alloc::own();
    let sim = s();
    let id = sim.tcbs.len();
    assert!(id < 30_000, "too many threads");
    let prio = (1 << 30) + sim.rng_sched.below(1 << 20);
    // the boxes give the batons fixed addresses
    sim.tcbs.push(Tcb {
        baton: Box::default(),
        st: St::Runnable,
        deadline: None,
        timed_out: false,
        pthread: 0,
        prio,
    });
    sim.alive.push(id);
    sim.stats.threads += 1;
    if sim.tcbs.capacity() < 64 {
        sim.tcbs.reserve(256);
    }
    let at = STACKS + id * (STACK_SIZE + 8192);
    let m = libc::mmap(
        at as *mut _,
        STACK_SIZE + 8192,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    assert_eq!(m as usize, at, "cannot map a stack");
    assert_eq!(libc::mprotect((at + 4096) as *mut _, STACK_SIZE, libc::PROT_READ | libc::PROT_WRITE), 0);
    let mut attr: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    assert_eq!(pthread_attr_setstack(&mut attr, (at + 4096) as *mut _, STACK_SIZE), 0);
    let create: unsafe extern "C" fn(*mut u64, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 =
        std::mem::transmute(REAL_CREATE);
    let mut t: u64 = 0;
    let a = Box::into_raw(Box::new(StartArg { id, f, arg })) as *mut libc::c_void;
    let rc = create(&mut t, &attr, thread_main, a);
    assert_eq!(rc, 0, "pthread_create failed");
    s().tcbs[id].pthread = t;
    (t, id)
}
pub unsafe fn real_create(t: *mut u64, attr: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    if REAL_CREATE == 0 {
        init_process();
    }
    let create: unsafe extern "C" fn(*mut u64, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 =
        std::mem::transmute(REAL_CREATE);
    create(t, attr, f, arg)
}
pub unsafe fn real_join(t: u64, r: *mut *mut libc::c_void) -> i32 {
    if REAL_JOIN == 0 {
        init_process();
    }
    let join: unsafe extern "C" fn(u64, *mut *mut libc::c_void) -> i32 = std::mem::transmute(REAL_JOIN);
    join(t, r)
}

pub fn join(pthread: u64) -> bool {
    let sim = s();
    let Some(target) = sim.tcbs.iter().position(|t| t.pthread == pthread) else { return false };
    if sim.tcbs[target].st != St::Done {
        block(St::Join(target), None);
    }
    true
}

// ---------------------------------------------------------------- scheduling
/// Choose the next thread to run. `me` is the thread holding the baton; by default it goes on,
/// or, when it is spinning, the next one in turn does.
fn pick(me: usize, spinning: bool) -> usize {
    let sim = s();
    sim.steps += 1;
    sim.phase_steps += 1;
    sim.now += 1000;
    if sim.phase_steps > sim.step_limit {
        finish(End::StepLimit);
    }
    if sim.end.is_some() {
        finish(End::Done);
    }
    let mut cand: Vec<usize> = Vec::new();
    loop {
        let mut min: Option<u64> = None;
        for &t in &sim.alive {
            let b = &mut sim.tcbs[t];
            if let Some(d) = b.deadline {
                if b.st == St::Runnable || d <= sim.now {
                    if b.st != St::Runnable {
                        b.timed_out = true;
                        b.st = St::Runnable;
                    }
                    b.deadline = None;
                } else {
                    min = Some(min.map_or(d, |m| m.min(d)));
                }
            }
            if b.st == St::Runnable {
                cand.push(t);
            }
        }
        if !cand.is_empty() {
            // sometimes time passes although there is work to do
            if let Some(d) = min {
                if fault_opportunity(|sim| sim.rng_fault.p(sim.rates.clock_jump).then_some(Fault::ClockJump)).is_some() {
                    sim.now = d;
                    cand.clear();
                    continue;
                }
            }
            break;
        }
        match min {
            Some(d) => sim.now = d,
            None => finish(End::Deadlock),
        }
    }
    let default = if spinning {
        cand.iter().copied().find(|t| *t > me).unwrap_or(cand[0])
    } else if cand.contains(&me) {
        me
    } else {
        cand[0]
    };
    if cand.len() == 1 {
        return default;
    }
    let n = sim.picks;
    sim.picks += 1;
    let fair = sim.phase_steps > sim.step_limit / 2;
    let mut choice = if fair {
        // schedules that starve a thread prove nothing about progress
        *sim.rng_sched.pick(&cand)
    } else {
        match sim.policy {
            Policy::Serial => default,
            Policy::Random => *sim.rng_sched.pick(&cand),
            Policy::Sticky(p) => {
                if cand.contains(&me) && sim.rng_sched.p(p) {
                    default
                } else {
                    *sim.rng_sched.pick(&cand)
                }
            }
            Policy::Pct(_) => {
                if sim.change_points.contains(&sim.phase_steps) {
                    sim.next_low -= 1;
                    sim.tcbs[me].prio = sim.next_low;
                }
                *cand.iter().max_by_key(|t| sim.tcbs[**t].prio).unwrap()
            }
        }
    };
    if let (Some(sc), false) = (sim.script, fair) {
        choice = match sc.sched.get(&n) {
            Some(t) if cand.contains(&(*t as usize)) => *t as usize,
            _ => default,
        };
    }
    if choice != default {
        let _own = crate::alloc::own();
        sim.recorded.sched.insert(n, choice as u32);
    }
    choice
}

fn switch(me: usize) {
    switch_from(me, false)
}
fn switch_from(me: usize, spinning: bool) {
    let next = pick(me, spinning);
    if next != me {
        let sim = s();
        sim.stats.switches += 1;
        sim.tcbs[next].baton.give();
        sim.tcbs[me].baton.take();
    }
}

pub fn yield_point() {
    switch(tid() as usize);
}
/// A thread that spins gives way to the others.
pub fn spin_yield() {
    let me = tid() as usize;
    let sim = s();
    if matches!(sim.policy, Policy::Pct(_)) {
        sim.next_low -= 1;
        sim.tcbs[me].prio = sim.next_low;
    }
    switch_from(me, true);
}

// ---------------------------------------------------------------- preemption inside the store
// The store's crate is compiled (rustc-wrap.sh) with a call at every basic block, load and store. Counting
// them down gives points, a function of the run alone, at which the scheduler may switch threads although
// nothing of the operating system is called.
static mut COUNTDOWN: i64 = i64::MAX;
/// code that spins without a system call gives way after so many calls
const SPIN: u64 = 300_000;
const MOST_PREEMPTIONS: u32 = 3000;

fn next_preemption() {
    let sim = s();
    let gap = match sim.preempt {
        0 => SPIN,
        _ if sim.preempted > MOST_PREEMPTIONS => SPIN,
        m => 1 + sim.rng_preempt.below(2 * m as u64),
    };
    unsafe { COUNTDOWN = gap as i64 }
}
/// The simulator shares a few functions of the standard library (the ones never inlined, such as the growing of a
/// vector) with the store's crate, and must not be preempted in them: these are the functions that may be.
static mut STORE_CODE: Vec<(u64, u64)> = vec![];
pub fn find_store_code() {
    let exe = std::fs::read("/proc/self/exe").unwrap();
    let num = |at: u64, n: usize| exe[at as usize..at as usize + n].iter().rev().fold(0u64, |x, b| x << 8 | *b as u64);
    let (sections, size, count) = (num(40, 8), num(58, 2), num(60, 2));
    let mut out = vec![];
    for sec in (0..count).map(|i| sections + i * size).filter(|sec| num(sec + 4, 4) == 2) {
        let (start, len) = (num(sec + 24, 8), num(sec + 32, 8));
        let names = num(sections + num(sec + 40, 4) * size + 24, 8);
        for sym in (start..start + len).step_by(24).filter(|sym| num(sym + 4, 1) & 15 == 2) {
            let name = &exe[(names + num(sym, 4)) as usize..];
            let name = &name[..name.iter().position(|b| *b == 0 || *b == b'.').unwrap()];
            // at the end it only tells the instantiating crate
            if name.windows(14).any(|w| w.starts_with(b"meerkat_store")) {
                out.push((num(sym + 8, 8), num(sym + 8, 8) + num(sym + 16, 8)));
            }
        }
    }
    out.sort();
    assert!(out.len() > 50);
    unsafe { STORE_CODE = out }
}
// A client's own code is atomic between system calls, also where it calls a function of the store that takes no
// time (clones a reader, fills a batch): what it records would otherwise be torn.
thread_local! {
    static CLIENT: Cell<bool> = const { Cell::new(false) };
}
static mut POSTPONED: u32 = 0;
fn client() -> bool {
    CLIENT.try_with(|c| c.get()).unwrap_or(true)
}
pub struct Side(bool);
/// Until this is dropped, this thread runs client code (or, false, the store on a client's behalf).
pub fn side(client: bool) -> Side {
    Side(CLIENT.with(|c| c.replace(client)))
}
impl Drop for Side {
    fn drop(&mut self) {
        CLIENT.with(|c| c.set(self.0));
    }
}
pub async fn on_side<F: std::future::Future>(client: bool, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| {
        let _side = side(client);
        f.as_mut().poll(cx)
    })
    .await
}
fn is_store_code(pc: u64) -> bool {
    let v = unsafe { &*std::ptr::addr_of!(STORE_CODE) };
    let k = v.partition_point(|r| r.0 < pc);
    k > 0 && pc <= v[k - 1].1
}
extern "C" fn preempt(pc: u64) {
    if !in_sim() || !exists() || s().end.is_some() {
        unsafe { COUNTDOWN = i64::MAX };
        return;
    }
    if !is_store_code(pc) || client() && unsafe { POSTPONED } < 5_000_000 {
        unsafe {
            COUNTDOWN = 1;
            POSTPONED += 1;
        }
        return;
    }
    unsafe { POSTPONED = 0 };
    let sim = s();
    sim.preempted += 1;
    let spins = sim.preempt == 0 || sim.preempted > MOST_PREEMPTIONS;
    next_preemption();
    if sim.alive.iter().filter(|t| sim.tcbs[**t].st == St::Runnable || sim.tcbs[**t].deadline.is_some()).count() < 2 {
        return;
    }
    if spins {
        spin_yield();
        return;
    }
    sim.stats.preemptions += 1;
    if matches!(sim.policy, Policy::Pct(_)) && sim.rng_preempt.below(4) == 0 {
        let me = tid() as usize;
        sim.next_low -= 1;
        sim.tcbs[me].prio = sim.next_low;
    }
    if sim.rng_preempt.below(12) == 0 {
        // descheduled for a while
        let ns = 1 + sim.rng_preempt.small(5_000_000);
        sleep_until(sim.now + ns);
        return;
    }
    yield_point();
}
// A load or store of the store's code: stacks belong to one thread; what lies in static variables is shared by all.
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "dec qword ptr [rip + {left}]",
    "jle 4f",
    "ret",
    "4: mov rdi, [rsp]",
    "jmp {slow}",
    ".irp f, load1, load2, load4, load8, load16, store1, store2, store4, store8, store16",
    ".globl __sanitizer_cov_\\f",
    "__sanitizer_cov_\\f:",
    ".endr",
    "mov rax, {stacks}",
    "cmp rdi, rax",
    "jae 2f",
    "lea rax, [rip + _end]",
    "cmp rdi, rax",
    "jae 3f",
    "lea rax, [rip + __data_start]",
    "cmp rdi, rax",
    "jb 3f",
    "sub qword ptr [rip + {left}], 199",
    "3:",
    "dec qword ptr [rip + {left}]",
    "jle 4b",
    "2: ret",
    left = sym COUNTDOWN,
    slow = sym preempt,
    stacks = const STACKS,
);

/// Block the calling thread; true when its deadline passed before it was woken.
fn block(st: St, deadline: Option<u64>) -> bool {
    let me = tid() as usize;
    let t = &mut s().tcbs[me];
    t.st = st;
    t.deadline = deadline;
    t.timed_out = false;
    switch(me);
    let t = &mut s().tcbs[me];
    t.deadline = None;
    t.timed_out
}
pub fn sleep_until(t: u64) {
    block(St::Sleep, Some(t));
}

pub fn futex_wait(addr: usize, val: u32, deadline: Option<u64>) -> Result<(), i32> {
    yield_point();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        return Err(libc::EAGAIN);
    }
    if fault_opportunity(|sim| sim.rng_fault.p(sim.rates.spurious_wake).then_some(Fault::SpuriousWake)).is_some() {
        return Ok(());
    }
    if block(St::Futex(addr), deadline) {
        return Err(libc::ETIMEDOUT);
    }
    Ok(())
}
pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let sim = s();
    let mut woken = 0;
    let order = sim.alive.clone();
    for t in order {
        if woken == n {
            break;
        }
        if sim.tcbs[t].st == St::Futex(addr) {
            sim.tcbs[t].st = St::Runnable;
            sim.tcbs[t].deadline = None;
            woken += 1;
        }
    }
    yield_point();
    woken
}

// ---------------------------------------------------------------- faults
/// One numbered opportunity for a fault. In a scripted run the script decides, otherwise `decide`.
fn fault_opportunity(decide: impl FnOnce(&mut Sim) -> Option<Fault>) -> Option<Fault> {
    let sim = s();
    let n = sim.opps;
    sim.opps += 1;
    // decided even when a script overrides it: the run must not depend on where decisions come from
    let mut fault = decide(sim);
    if let Some(sc) = sim.script {
        fault = sc.faults.get(&n).cloned();
    }
    let fault = fault?;
    let _own = crate::alloc::own();
    sim.recorded.faults.insert(n, fault.clone());
    let name = match &fault {
        Fault::Short(_) => "short transfer".to_string(),
        Fault::Eintr => "EINTR".into(),
        Fault::Errno(e) => format!("errno {}", errname(*e)),
        Fault::FsyncLost => "failed fsync losing dirty data".into(),
        Fault::Delay(_) => "slow disk request".into(),
        Fault::SpuriousWake => "spurious wake-up".into(),
        Fault::ClockJump => "clock jump".into(),
        Fault::WallStep(_) => "wall clock set".into(),
    };
    *sim.stats.faults.entry(name).or_insert(0) += 1;
    Some(fault)
}
/// The wall clock, which may be set at any time, also back.
pub fn wall_clock() -> u64 {
    let f = fault_opportunity(|sim| {
        let rate = (sim.rates.clock_jump * 20).min(5000);
        sim.rng_fault.p(rate).then(|| {
            let by = [1_000i64, 3_000_000, 1_000_000_000, 3_600_000_000_000, 400_000 * 1_000_000_000];
            let n = by[sim.rng_fault.below(5) as usize];
            Fault::WallStep(if sim.rng_fault.below(3) == 0 { n } else { -n })
        })
    });
    if let Some(Fault::WallStep(n)) = f {
        s().wall = s().wall.saturating_add_signed(n);
    }
    s().now + s().wall
}
pub fn errname(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::EACCES => "EACCES".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EINVAL => "EINVAL".into(),
        libc::EROFS => "EROFS".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::EPERM => "EPERM".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EEXIST => "EEXIST".into(),
        e => format!("E{e}"),
    }
}

impl Sim {
    pub fn targeted(&self, path: &str, is_dir: bool) -> bool {
        (!is_dir || self.rates.dirs)
            && (self.rates.target.is_empty() || self.rates.target.iter().any(|t| path.contains(t.as_str())))
    }
    fn count_fault(&mut self, k: &str) {
        let _own = crate::alloc::own();
        *self.stats.faults.entry(k.into()).or_insert(0) += 1;
    }
}

/// Called at the start of a disk operation: scheduling, crash, delay and fault decisions.
/// `Short`/`Eintr`/`Errno`/`FsyncLost` are left to the caller to carry out.
pub fn enter(op: Op, path: &str, is_dir: bool, off: u64, len: u64) -> Option<Fault> {
    yield_point();
    let n = s().phase_fs_ops;
    if matches!(&s().crash, Some(Crash { at: CrashAt::Before(k), .. }) if *k == n) {
        s().count_fault("crash between disk requests");
        finish(End::Crash);
    }
    s().phase_fs_ops += 1;
    s().stats.fs_ops += 1;
    s().now += 20_000;
    let d = fault_opportunity(|sim| {
        let r = &mut sim.rng_fault;
        r.p(sim.rates.delay).then(|| {
            // now and then the device hangs for seconds or minutes
            Fault::Delay(if r.one_in(300) { 1_000_000 + r.small(600_000_000) } else { r.small(200_000) + 1 })
        })
    });
    if let Some(Fault::Delay(us)) = d {
        let t = s().now + us * 1000;
        s().delayed += 1;
        sleep_until(t);
        s().delayed -= 1;
    }
    let f = fault_opportunity(|sim| sim.decide(op, path, is_dir, len));
    if let Some(f) = &f {
        if f.hard() {
            let sim = s();
            sim.hard_count += 1;
            if sim.rates.sticky && sim.hard_count <= sim.rates.max_hard {
                let e = if let Fault::Errno(e) = f { *e } else { libc::EIO };
                sim.broken.push((op, path.into(), e));
            }
            let step = sim.steps;
            let _own = crate::alloc::own();
            sim.faults.push(FaultEv { op, path: path.into(), off, step, fault: f.clone() });
        }
    }
    f
}

impl Sim {
    fn decide(&mut self, op: Op, path: &str, is_dir: bool, len: u64) -> Option<Fault> {
        let r = self.rates.clone();
        if let Some(b) = self.broken.iter().find(|b| b.0 == op && b.1 == path) {
            return Some(Fault::Errno(b.2));
        }
        if self.hard_count < r.max_hard && self.targeted(path, is_dir) {
            let seen = self.nth_seen.entry(op).or_insert(0);
            let k = *seen;
            *seen += 1;
            let rate = match op {
                Op::Write | Op::Trunc => r.write_err,
                Op::Read => r.read_err,
                Op::Fsync => r.fsync_err,
                Op::Open | Op::Dir => r.open_err,
                Op::Stat => r.stat_err,
                _ => 0,
            };
            if r.nth.iter().any(|(o, i)| *o == op && *i == k) || self.rng_fault.p(rate) {
                use libc::*;
                let errnos: &[i32] = match op {
                    Op::Write | Op::Trunc => &[EIO, ENOSPC, EIO, ENOSPC, EDQUOT, EFBIG, ETIMEDOUT, ESTALE],
                    Op::Fsync if !is_dir && self.rng_fault.one_in(2) => return Some(Fault::FsyncLost),
                    Op::Fsync => &[EIO, EIO, EIO, EINVAL, ENOSPC, EDQUOT, EROFS, ESTALE],
                    Op::Open | Op::Dir => &[EMFILE, EACCES, EIO, ENOSPC, ENFILE, EPERM, EROFS, ENOMEM],
                    Op::Read => &[EIO, EIO, EIO, ETIMEDOUT, ESTALE, ENOMEM],
                    Op::Stat => &[EIO, EIO, EACCES, ENOMEM, ESTALE],
                    _ => &[EIO],
                };
                return Some(Fault::Errno(*self.rng_fault.pick(errnos)));
            }
        }
        let short = match op {
            Op::Write if len > 1 => r.short_write,
            Op::Read if len > 1 => r.short_read,
            _ => 0,
        };
        if short > 0 && self.rng_fault.p(short) {
            return Some(Fault::Short(1 + self.rng_fault.small(len - 2)));
        }
        if matches!(op, Op::Write | Op::Read | Op::Fsync | Op::Open | Op::Trunc) && self.rng_fault.p(r.eintr) {
            return Some(Fault::Eintr);
        }
        None
    }

    fn path_id(&mut self, path: &str) -> u32 {
        if let Some(i) = self.path_ids.get(path) {
            return *i;
        }
        let i = self.paths.len() as u32;
        self.paths.push(path.into());
        self.path_ids.insert(path.into(), i);
        i
    }

    pub fn log(&mut self, op: Op, path: &str, a: u64, b: u64, r: i64, fault: Option<Fault>) {
        let _own = crate::alloc::own();
        let p = self.path_id(path);
        let t = tid() as u32;
        let mut h = self.hash;
        let fv = match &fault {
            None => 0,
            Some(Fault::Short(n)) => 16 + n,
            Some(Fault::Eintr) => 1,
            Some(Fault::Errno(e)) => 0x1_0000 + *e as u64,
            Some(Fault::FsyncLost) => 2,
            Some(Fault::Delay(d)) => 0x10_0000 + d,
            Some(Fault::SpuriousWake) => 3,
            Some(Fault::ClockJump) => 4,
            Some(Fault::WallStep(n)) => *n as u64,
        };
        for v in [op as u64, t as u64, p as u64, a, b, r as u64, fv, self.now] {
            h = mix(h.wrapping_mul(31) ^ v);
        }
        self.hash = h;
        let step = self.steps;
        self.events.push(Ev { step, tid: t, op, path: p, a, b, r, fault });
    }

    pub fn entropy(&mut self) -> &mut Rng {
        &mut self.rng_entropy
    }
}

/// The end of a disk operation: log it, and crash if that was decided.
pub fn leave(op: Op, path: &str, a: u64, b: u64, r: i64, fault: Option<Fault>) {
    let sim = s();
    sim.log(op, path, a, b, r, fault);
    if matches!(&sim.crash, Some(Crash { at: CrashAt::After(k), .. }) if *k + 1 == sim.phase_fs_ops) {
        sim.count_fault("crash right after a disk request");
        finish(End::Crash);
    }
}

/// A client has just seen a success it may rely on.
pub fn ack(what: &str) {
    let _own = crate::alloc::own();
    let sim = s();
    let n = sim.acks;
    sim.acks += 1;
    sim.log(Op::Mark, what, n, 0, 0, None);
    if matches!(&sim.crash, Some(Crash { at: CrashAt::Ack(k), .. }) if *k == n) {
        sim.count_fault("crash right after an acknowledgement");
        finish(End::Crash);
    }
}

/// Something a client did or saw, for the event log.
pub fn mark(what: &str, a: u64, b: u64) {
    let _own = crate::alloc::own();
    if in_sim() {
        s().log(Op::Mark, what, a, b, 0, None);
    }
}

/// Whether the calling thread holds the only reason to go on: used to wait for background work.
pub fn render_event(e: &Ev) -> String {
    let sim = s();
    let p = &sim.paths[e.path as usize];
    let f = match &e.fault {
        Some(f) => format!("   <== {f:?}"),
        None => String::new(),
    };
    match e.op {
        Op::Mark => format!("{:>6} t{:<3} -- {} {} {}{f}", e.step, e.tid, p, e.a, e.b),
        Op::Futex | Op::Wake | Op::Thread | Op::Yield => {
            format!("{:>6} t{:<3} {:?} {} -> {}{f}", e.step, e.tid, e.op, e.a, e.r)
        }
        _ => format!("{:>6} t{:<3} {:?} {} off={} len={} -> {}{f}", e.step, e.tid, e.op, p, e.a, e.b, e.r),
    }
}
