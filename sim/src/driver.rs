//! Batches of runs, each in a child process of its own; verdict, replay files and evidence.
use crate::plan::{Plan, SINK_SEED};
use crate::run::{execute, Opts, RunResult, V};
use crate::sim::{self, Script};
use crate::{oracle, rng::mix, scenarios, shrink};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const SHARED: usize = 1 << 28;
static mut BUF: *mut u8 = std::ptr::null_mut();
static mut ERRFD: i32 = -1;

/// Private to each process that starts runs.
unsafe fn make_channel() {
    let p = libc::mmap(
        std::ptr::null_mut(),
        SHARED,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert_ne!(p, libc::MAP_FAILED);
    BUF = p as *mut u8;
    ERRFD = libc::memfd_create(c"run-stderr".as_ptr(), 0);
    assert!(ERRFD >= 0);
}

/// One run in a child process.
pub fn run_child(plan: &Plan, opts: Opts) -> RunResult {
    unsafe {
        if BUF.is_null() {
            make_channel();
        }
        *(BUF as *mut u64) = 0;
        libc::ftruncate64(ERRFD, 0);
        libc::lseek(ERRFD, 0, libc::SEEK_SET);
        std::io::stdout().flush().ok();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::dup2(ERRFD, 2);
            let l = libc::rlimit { rlim_cur: if plan.sink { 150 } else { 20 }, rlim_max: 155 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::alarm(200);
            let plan: &'static Plan = Box::leak(Box::new(plan.clone()));
            let r = execute(plan, opts);
            crate::alloc::lift();
            let j = serde_json::to_vec(&r).unwrap();
            assert!(j.len() + 8 < SHARED);
            std::ptr::copy_nonoverlapping(j.as_ptr(), BUF.add(8), j.len());
            *(BUF as *mut u64) = j.len() as u64;
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let n = *(BUF as *const u64) as usize;
        if n > 0 && libc::WIFEXITED(st) {
            return serde_json::from_slice(std::slice::from_raw_parts(BUF.add(8), n)).expect("run result");
        }
        let mut msg = vec![0u8; 4000];
        libc::lseek(ERRFD, 0, libc::SEEK_SET);
        let k = libc::read(ERRFD, msg.as_mut_ptr() as *mut _, msg.len()).max(0) as usize;
        let text = String::from_utf8_lossy(&msg[..k]).trim().to_string();
        let mut r = RunResult::default();
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
        let (kind, what) = match sig {
            libc::SIGXCPU => ("hang", "the process spins: 20 s of CPU time without end".to_string()),
            libc::SIGALRM => ("internal", "no end after 200 s of real time".into()),
            libc::SIGKILL => ("internal", "killed from outside".into()),
            0 => ("internal", format!("exit status {}", libc::WEXITSTATUS(st))),
            n => ("abort", format!("the process died of signal {n}")),
        };
        r.viol.push(V { kind: kind.into(), msg: format!("{what}: {}", text.chars().take(600).collect::<String>()) });
        r.ends.push(kind.into());
        r
    }
}

// ---------------------------------------------------------------- known findings
pub struct Known {
    pub sigs: Vec<(String, String)>,
}
fn root() -> std::path::PathBuf {
    std::env::var("MKSIM_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
pub fn known(prop: &str) -> Known {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut sigs = vec![];
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut w = rest.splitn(3, ' ');
        let (p, sig, what) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        if p == prop {
            if let Some(sig) = sig.strip_prefix("signature=") {
                sigs.push((sig.to_string(), what.to_string()));
            }
        }
    }
    Known { sigs }
}
impl Known {
    pub fn of(&self, v: &V) -> Option<usize> {
        self.sigs.iter().position(|s| v.msg.starts_with(&format!("[{}]", s.0)))
    }
}
/// the violations of this property among what a run reports
pub fn relevant<'a>(prop: &str, k: &Known, r: &'a RunResult) -> Vec<&'a V> {
    let kinds = oracle::kinds(prop);
    r.viol.iter().filter(|v| kinds.contains(&v.kind.as_str()) && k.of(v).is_none()).collect()
}

// ---------------------------------------------------------------- batches
#[derive(Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    orders: Vec<u64>,
    hashes: Vec<u64>,
    stats: sim::Stats,
    families: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    acked: u64,
    errors: u64,
    checked: u64,
    reads_ok: u64,
    reads_err: u64,
    items: u64,
    cancelled: u64,
    overlap: u64,
    mem_max: u64,
    known: BTreeMap<String, u64>,
    found: Vec<(u64, u64, V)>,
    other: BTreeMap<String, u64>,
    det_checked: u64,
    det_bad: Vec<u64>,
    internal: Vec<(u64, String)>,
    rts: BTreeMap<String, u64>,
    sample: Option<serde_json::Value>,
}

fn seed_of(base: u64, n: u64) -> u64 {
    mix(mix(base) ^ n.wrapping_mul(0x9E37_79B9)) >> 12
}

fn worker(prop: &str, base: u64, w: u64, nw: u64, runs: u64, until: Instant, stop: &AtomicU64) -> Tally {
    let k = known(prop);
    let mut t = Tally::default();
    let mut n = w;
    while n < runs && Instant::now() < until && stop.load(SeqCst) == 0 {
        let seed = seed_of(base, n) | if n == 7 { SINK_SEED } else { 0 };
        let plan = scenarios::generate(prop, seed);
        let det = n / nw % 50 == 7;
        let r = run_child(&plan, Opts { scripts: None, want_scripts: det, want_trace: false });
        if let Some(v) = r.viol.iter().find(|v| v.kind == "internal") {
            t.internal.push((seed, v.msg.clone()));
            n += nw;
            continue;
        }
        t.runs += 1;
        if r.nontrivial {
            t.nontrivial += 1;
            t.hashes.push(r.hash);
        }
        t.orders.push(r.order_hash);
        t.stats.steps += r.stats.steps;
        t.stats.switches += r.stats.switches;
        t.stats.preemptions += r.stats.preemptions;
        t.stats.fs_ops += r.stats.fs_ops;
        t.stats.threads += r.stats.threads;
        t.stats.sim_ns += r.stats.sim_ns;
        for (f, c) in &r.stats.faults {
            *t.stats.faults.entry(f.clone()).or_insert(0) += c;
        }
        *t.families.entry(plan.family.clone()).or_insert(0) += 1;
        for p in &plan.phases {
            *t.rts.entry(format!("{:?}", p.rt)).or_insert(0) += 1;
        }
        for e in &r.ends {
            *t.ends.entry(e.clone()).or_insert(0) += 1;
        }
        t.acked += r.acked;
        t.errors += r.errors;
        t.checked += r.checked;
        t.reads_ok += r.reads_ok;
        t.reads_err += r.reads_err;
        t.items += r.items;
        t.cancelled += r.cancelled;
        t.overlap += r.overlap;
        t.mem_max = t.mem_max.max(r.mem);
        if t.sample.is_none() && r.nontrivial && r.viol.is_empty() {
            t.sample = Some(serde_json::json!({
                "seed": seed, "family": plan.family, "disk_requests": r.stats.fs_ops, "switches": r.stats.switches,
                "virtual_ms": r.stats.sim_ns / 1_000_000, "faults": r.stats.faults, "acknowledged": r.acked,
                "reads_ok": r.reads_ok, "plan": serde_json::to_string(&plan).unwrap().chars().take(1500).collect::<String>(),
            }));
        }
        let kinds = oracle::kinds(prop);
        for v in &r.viol {
            if let Some(i) = k.of(v) {
                *t.known.entry(k.sigs[i].0.clone()).or_insert(0) += 1;
            } else if !kinds.contains(&v.kind.as_str()) {
                *t.other.entry(v.kind.clone()).or_insert(0) += 1;
            }
        }
        if let Some(v) = relevant(prop, &k, &r).first() {
            t.found.push((n, seed, (*v).clone()));
            if std::env::var("MKSIM_KEEP_GOING").is_err() {
                stop.store(1, SeqCst);
            }
        }
        if det && !r.ends.iter().any(|e| e == "abort" || e == "hang") {
            // the same seed again, and the same decisions from a script, must give the same run
            t.det_checked += 1;
            let again = run_child(&plan, Opts { scripts: None, want_scripts: false, want_trace: false });
            let script =
                run_child(&plan, Opts { scripts: Some(r.scripts.clone()), want_scripts: false, want_trace: false });
            if again.hash != r.hash || script.hash != r.hash {
                t.det_bad.push(seed);
            }
        }
        n += nw;
    }
    t
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    }
}
fn pin(c: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}

fn batch(prop: &str, base: u64, runs: u64, limit: Duration) -> Tally {
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        &*(p as *const AtomicU64)
    };
    let until = Instant::now() + limit;
    let cp = cpus();
    let nw = std::env::var("MKSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(cp.len().clamp(1, 16)) as u64;
    let mut kids = vec![];
    for w in 0..nw {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(cp[w as usize % cp.len()]);
                BUF = std::ptr::null_mut();
                let t = worker(prop, base, w, nw, runs, until, stop);
                let j = serde_json::to_vec(&t).unwrap();
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fds[1]);
                f.write_all(&j).unwrap();
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fds[0]);
            kids.push((pid, f));
        }
    }
    let mut all = Tally::default();
    for (pid, mut f) in kids {
        let mut j = vec![];
        f.read_to_end(&mut j).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let t: Tally = match serde_json::from_slice(&j) {
            Ok(t) => t,
            Err(_) => {
                all.internal.push((0, "a worker died".into()));
                continue;
            }
        };
        all.runs += t.runs;
        all.nontrivial += t.nontrivial;
        all.orders.extend(t.orders);
        all.hashes.extend(t.hashes);
        all.stats.steps += t.stats.steps;
        all.stats.switches += t.stats.switches;
        all.stats.preemptions += t.stats.preemptions;
        all.stats.fs_ops += t.stats.fs_ops;
        all.stats.threads += t.stats.threads;
        all.stats.sim_ns += t.stats.sim_ns;
        for (m, n) in [
            (&mut all.stats.faults, &t.stats.faults),
            (&mut all.families, &t.families),
            (&mut all.ends, &t.ends),
            (&mut all.known, &t.known),
            (&mut all.other, &t.other),
            (&mut all.rts, &t.rts),
        ] {
            for (k, v) in n {
                *m.entry(k.clone()).or_insert(0) += v;
            }
        }
        all.acked += t.acked;
        all.errors += t.errors;
        all.checked += t.checked;
        all.reads_ok += t.reads_ok;
        all.reads_err += t.reads_err;
        all.items += t.items;
        all.cancelled += t.cancelled;
        all.overlap += t.overlap;
        all.mem_max = all.mem_max.max(t.mem_max);
        all.found.extend(t.found);
        all.det_checked += t.det_checked;
        all.det_bad.extend(t.det_bad);
        all.internal.extend(t.internal);
        if all.sample.is_none() {
            all.sample = t.sample;
        }
    }
    all.found.sort_by_key(|f| f.0);
    all
}

// ---------------------------------------------------------------- replay files
#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub seed: u64,
    pub source: String,
    /// how to run it again
    pub replay: String,
    pub plan: Plan,
    /// decisions per phase; none: taken from the seed
    pub scripts: Option<Vec<Script>>,
    pub hash: u64,
    pub minimised: String,
    pub trace: Vec<String>,
}

fn env(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|x| x.parse().ok())
}
fn budget(prop: &str, tier: &str) -> (u64, Duration) {
    let (n, s) = match tier {
        "thorough" => (20_000_000, 700),
        _ => (quick_runs(prop), 100),
    };
    (env("MKSIM_RUNS").unwrap_or(n), Duration::from_secs(env("MKSIM_SECS").unwrap_or(s)))
}
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C02" | "C07" | "C08" | "C12" => 120_000,
        "C21" => 6_000,
        _ => 100_000,
    }
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let k = known(prop);
    let (runs, limit) = budget(prop, tier);
    let t = batch(prop, seed, runs, limit);
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut reported = 0;
    for (n, s, v) in t.found.iter().take(4) {
        let plan = scenarios::generate(prop, *s);
        let r = run_child(&plan, Opts { scripts: None, want_scripts: true, want_trace: false });
        let Some(v2) = relevant(prop, &k, &r).into_iter().find(|x| x.kind == v.kind).cloned() else {
            eprintln!("run {n} (seed {s}) reported {}: {} - and did not when repeated", v.kind, v.msg);
            code = 2;
            continue;
        };
        let fails = shrink::Fails { prop, known: &k, kind: v2.kind.clone() };
        let m = shrink::minimise(&fails, plan, r, Duration::from_secs(env("MKSIM_SHRINK_SECS").unwrap_or(40)));
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{prop}-{s:013x}.json"));
        let fin = run_child(&m.plan, Opts { scripts: m.scripts.clone(), want_scripts: false, want_trace: true });
        let msg = relevant(prop, &k, &fin).into_iter().find(|x| x.kind == v2.kind).map(|x| x.msg.clone()).unwrap_or(v2.msg);
        let rep = Replay {
            property: prop.into(),
            kind: v2.kind.clone(),
            message: msg.clone(),
            seed: *s,
            source: meerkat_store::SRC_HASH.into(),
            replay: format!("/verif/check.sh replay {}", path.display()),
            plan: m.plan,
            scripts: m.scripts,
            hash: fin.hash,
            minimised: m.note,
            trace: fin.trace.iter().take(1500).cloned().collect(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("{}: {}", v2.kind, msg);
        println!("seed {s}; {}", rep.minimised);
        println!("VIOLATION property={prop} replay={}", path.display());
        code = 1;
        reported = 1;
        break;
    }
    if t.found.is_empty() {
        for (sig, what) in &k.sigs {
            if t.known.get(sig).copied().unwrap_or(0) > 0 {
                println!("KNOWN-FINDING: property={prop} {what}");
            }
        }
    }
    for (s, m) in t.internal.iter().take(5) {
        eprintln!("internal: seed {s}: {m}");
    }
    if !t.det_bad.is_empty() {
        eprintln!("warning: {} of {} repeated runs differed: seeds {:?}", t.det_bad.len(), t.det_checked, t.det_bad);
    }
    if code == 0 && t.runs == 0 {
        code = 2;
    }
    let orders: BTreeSet<u64> = t.orders.iter().copied().collect();
    let distinct: BTreeSet<u64> = t.hashes.iter().copied().collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": reported,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("one evaluation is one simulated execution of a plan (clients, columns, faults, crash points, runtime shape, scheduling policy) generated from a seed derived from VERIF_SEED; {}; distinct = different hashes of the full event log (every disk request, synchronisation and client event with its virtual time and result)", nontrivial_rule(prop)),
            "samples": t.sample.iter().collect::<Vec<_>>(),
            "runs_per_hour": (t.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (t.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_seconds": t.stats.sim_ns as f64 / 1e9,
            "scheduling_steps": t.stats.steps,
            "thread_switches": t.stats.switches,
            "preemption_points_inside_the_store": t.stats.preemptions,
            "simulated_threads": t.stats.threads,
            "disk_requests": t.stats.fs_ops,
            "faults_injected": t.stats.faults,
            "distinct_interleavings": orders.len(),
            "interleaving_measure": "distinct sequences of (operation kind, file, thread) over a whole run",
            "scenario_families": t.families,
            "runtime_shapes": t.rts,
            "phase_endings": t.ends,
            "acknowledged": t.acked,
            "errors_reported_to_clients": t.errors,
            "files_read_back_and_compared": t.checked,
            "block_reads_ok": t.reads_ok,
            "block_reads_failed": t.reads_err,
            "batch_results": t.items,
            "cancelled_operations": t.cancelled,
            "clients_started_while_others_ran": t.overlap,
            "peak_memory_bytes": t.mem_max,
            "known_findings_hit": t.known,
            "signals_for_other_properties": t.other,
            "determinism_replays": { "checked": t.det_checked, "differing": t.det_bad.len() },
            "lost_runs": t.internal.len(),
            "real_code": ["meerkatdb src/store compiled from /repo", "tokio 1.12 runtimes, blocking pool, tokio::fs::File", "Rust std (fs, threads, sync), parking_lot, futures", "glibc above the system-call layer"],
            "simulated": ["file system and disk (in memory, volatile/durable state)", "thread scheduling, futexes", "clocks and timers", "getrandom", "memory limit (256 MB)"],
        },
        "assumptions": [
            "code between two hooked calls (futex, file, clock, thread, yield) runs atomically: data races on plain memory are not explored",
            "the disk model: writes become durable by fsync of the file, names by fsync of the directory (or of the file, in half of the runs)",
            "after an error of a writer its client abandons it",
        ],
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} runs in {explored:.1} s ({} distinct non-trivial, {} interleavings), {} disk requests, {} faults, {:.0} s of virtual time; found {}",
        t.runs,
        distinct.len(),
        orders.len(),
        t.stats.fs_ops,
        t.stats.faults.values().sum::<u64>(),
        t.stats.sim_ns as f64 / 1e9,
        t.found.len()
    );
    if code == 2 && reported == 0 && t.found.is_empty() {
        eprintln!("no answer");
    }
    code
}
fn nontrivial_rule(prop: &str) -> &'static str {
    match prop {
        "C05" | "C06" | "C11" | "C14" => "non-trivial: at least one block read succeeded and was compared, and threads alternated",
        "C12" => "non-trivial: more than five disk requests and threads alternated",
        "C13" => "non-trivial: an operation was cancelled or a read compared",
        "C03" => "non-trivial: a disk request failed hard",
        "C15" => "non-trivial: a sync was acknowledged",
        "C21" => "non-trivial: more than 50 disk requests",
        "C04" => "non-trivial: a file or a read of the disturbed run was compared",
        _ => "non-trivial: at least one acknowledged file was read back and compared with the reference model",
    }
}

fn replay(path: &str) -> i32 {
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("read the replay file")).expect("replay file");
    let k = Known { sigs: vec![] };
    let r = run_child(&rep.plan, Opts { scripts: rep.scripts.clone(), want_scripts: false, want_trace: true });
    for l in &r.trace {
        println!("{l}");
    }
    for v in &r.viol {
        println!("{}: {}", v.kind, v.msg);
    }
    println!("event log hash {:016x}, recorded {:016x}", r.hash, rep.hash);
    if relevant(&rep.property, &k, &r).iter().any(|v| v.kind == rep.kind) {
        println!("VIOLATION property={} replay={path}", rep.property);
        1
    } else {
        println!("not reproduced (sources {} when recorded, {} now)", rep.source, meerkat_store::SRC_HASH);
        0
    }
}

fn one(prop: &str, seed: &str) -> i32 {
    let plan = scenarios::generate(prop, seed.parse().unwrap());
    println!("{}", serde_json::to_string(&plan).unwrap());
    let r = run_child(&plan, Opts { scripts: None, want_scripts: true, want_trace: true });
    for l in &r.trace {
        println!("{l}");
    }
    let mut q = r;
    q.trace.clear();
    q.scripts.clear();
    println!("{q:?}");
    0
}

/// Compare repeated and scripted runs of many seeds, showing where they part.
fn det(prop: &str, n: &str) -> i32 {
    let mut bad = 0;
    for i in 0..n.parse().unwrap_or(100u64) {
        let seed = seed_of(999, i);
        let plan = scenarios::generate(prop, seed);
        let a = run_child(&plan, Opts { scripts: None, want_scripts: true, want_trace: true });
        let b = run_child(&plan, Opts { scripts: None, want_scripts: false, want_trace: true });
        let c = run_child(&plan, Opts { scripts: Some(a.scripts.clone()), want_scripts: true, want_trace: true });
        if a.ends.iter().any(|e| e == "abort") {
            continue;
        }
        for (what, x) in [("again", &b), ("script", &c)] {
            if x.hash != a.hash || x.order_hash != a.order_hash {
                bad += 1;
                let k = (0..a.trace.len().max(x.trace.len())).find(|k| a.trace.get(*k) != x.trace.get(*k));
                println!("seed {seed} {what}: {:?}/{:?} first difference at {k:?} of {}", a.ends, x.ends, a.trace.len());
                if let Some(k) = k {
                    println!("  before: {:?}\n  first:  {:?}\n  now:    {:?}", a.trace.get(k.wrapping_sub(1)), a.trace.get(k), x.trace.get(k));
                }
            }
        }
    }
    println!("{bad} differences");
    (bad > 0) as i32
}

pub fn main() {
    sim::find_store_code();
    unsafe {
        // fixed addresses: no randomisation of the address space
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("MKSIM_NOASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) != -1 {
                std::env::set_var("MKSIM_NOASLR", "1");
                let args: Vec<std::ffi::CString> =
                    std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
            }
        }
    }
    sim::init_process();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if sim::exists() {
            if sim::in_sim() {
                let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let msg = info
                    .payload()
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| info.payload().downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                if sim::s().panics.len() < 20 {
                    sim::s().panics.push(format!("panic at {at}: {msg}"));
                }
                sim::mark("panic", 0, 0);
            }
            if std::env::var_os("MKSIM_DEBUG").is_some() {
                eprintln!("{info}");
            }
            return;
        }
        default(info)
    }));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "replay" => replay(arg(2)),
        "det" => det(arg(2), arg(3)),
        "one" => one(arg(2), arg(3)),
        _ => {
            eprintln!("usage: mksim check <property> | replay <file> | one <property> <seed>");
            2
        }
    };
    std::process::exit(code);
}
