//! Executing one plan: phases, crashes, read-back, verdict. Runs in a child process of its own.
use crate::client::{self, o, viol, Viol};
use crate::oracle;
use crate::plan::*;
use crate::sim::{self, s, End, Phase, Policy, Rates, Script, Stats};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct V {
    pub kind: String,
    pub msg: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunResult {
    pub hash: u64,
    /// hash of who did what in which order, without times and results
    pub order_hash: u64,
    pub viol: Vec<V>,
    pub stats: Stats,
    pub ends: Vec<String>,
    pub acked: u64,
    pub errors: u64,
    pub checked: u64,
    pub reads_ok: u64,
    pub reads_err: u64,
    pub items: u64,
    pub cancelled: u64,
    pub overlap: u64,
    pub nontrivial: bool,
    pub scripts: Vec<Script>,
    pub mem: u64,
    #[serde(default)]
    pub trace: Vec<String>,
}

pub struct Opts {
    pub scripts: Option<Vec<Script>>,
    pub want_scripts: bool,
    pub want_trace: bool,
}

fn task_of(plan: &Plan, ob: &client::SegObs) -> (Option<Seg>, Option<Pipe>) {
    match &plan.phases[ob.phase].tasks[ob.task] {
        Task::Segs(v) => (Some(v[ob.attempt].clone()), None),
        Task::Pipe(p) => (None, Some(p.clone())),
        _ => unreachable!(),
    }
}

fn fresh_disk(plan: &Plan) {
    let mut d = crate::disk::Disk::new();
    d.max_fd = s().disk.max_fd;
    d.drop_fds();
    d.strict_dirs = plan.strict_dirs;
    d.sink = plan.sink;
    d.install_dir(DIR);
    d.install_dir(DIR2);
    o().vers.clear();
    for f in &plan.fixtures {
        if f.len > HUGE {
            d.install_virtual(&f.path, f.uid, f.len);
        } else {
            d.install(&f.path, client::fixture_bytes(f));
        }
    }
    s().disk = d;
}

/// Errors that no failing disk request explains.
fn check_errors(plan: &Plan) {
    for ob in &o().segs {
        let Some(e) = &ob.error else { continue };
        if ob.gave_up || ob.own_fault {
            continue; // what was given up half-way may explain it
        }
        let (seg, pipe) = task_of(plan, ob);
        let (paths, name) = match (&seg, &pipe) {
            (Some(s), _) => {
                let (d, i) = oracle::file_names(s);
                (vec![d, i, crate::disk::absolute(&s.dir)], format!("segment {}", s.id))
            }
            (_, Some(p)) => (vec![p.path.clone(), DIR.into()], p.path.clone()),
            _ => unreachable!(),
        };
        let explained = client::shut_by(ob.phase, e.step1)
            || s()
            .faults
            .iter()
            .any(|f| f.step >= ob.started && f.step <= e.step1 && paths.contains(&f.path));
        if !explained {
            viol(
                "error",
                format!("{name} (task {}, attempt {}): {} failed although none of its disk requests did: {}", ob.task, ob.attempt, e.stage, e.msg),
            );
        }
    }
    for ob in &o().raws {
        let Task::Raw(r) = &plan.phases[ob.phase].tasks[ob.task] else { continue };
        for e in ob.errors.iter().filter(|_| !ob.gave_up) {
            if !client::shut_by(ob.phase, e.step1) && !s().faults.iter().any(|f| f.path == r.path && f.step <= e.step1) {
                viol("raw", format!("{}: {} failed although no disk request did: {}", r.path, e.stage, e.msg));
            }
        }
    }
}

/// Run the plan. `plan` is leaked: the process ends with the run.
pub fn execute(plan: &'static Plan, opts: Opts) -> RunResult {
    let scripts: Option<&'static Vec<Script>> = opts.scripts.map(|x| &*Box::leak(Box::new(x)));
    crate::alloc::enable();
    let giant = plan.fixtures.iter().any(|f| f.len >= GIANT);
    if plan.sink {
        crate::alloc::lift();
    }
    if giant {
        crate::alloc::enable_giants();
    }
    sim::init();
    client::init();
    if plan.prop == "C14" {
        s().on_pread = Some(client::watch_pread);
    }
    fresh_disk(plan);
    let mut res = RunResult::default();
    let mut power = vec![]; // phases after which a power loss happened
    let mut base = None;
    let mut hung = false;
    for (pi, p) in plan.phases.iter().enumerate() {
        if p.fresh_disk && pi > 0 {
            fresh_disk(plan);
        }
        s().disk.capacity = p.capacity.map(|c| c + s().disk.used());
        let est: u64 = p.tasks.iter().map(est_ops).sum();
        let noisy = p.rates != Rates::default();
        let faults0: u64 = s().stats.faults.values().sum();
        let f: Box<dyn FnOnce() + Send> = Box::new(move || client::root(plan, pi));
        let mem0 = crate::alloc::measure();
        let (end, script) = sim::run_phase(
            Phase {
                seed: crate::rng::mix(plan.seed ^ pi as u64),
                policy: p.policy.clone(),
                rates: p.rates.clone(),
                crash: p.crash.clone(),
                script: scripts.map(|v| v.get(pi).unwrap_or(&EMPTY)),
                preempt: p.preempt,
                step_limit: 64_000 + 500 * est + if giant { 1_000_000 } else { 0 },
                est_steps: 20 * est + 100,
            },
            f,
        );
        let faults = s().stats.faults.values().sum::<u64>() - faults0;
        let (live, peak) = crate::alloc::measured();
        if plan.prop == "C21" && end == End::Done {
            let most = mem_bound(p) as i64;
            if peak - mem0 > most {
                viol("memory", format!("phase {pi}: up to {} bytes were in use at once, the largest batches and blocks allow {most}", peak - mem0));
            }
            if live - mem0 > most / 2 {
                viol("memory", format!("phase {pi}: {} bytes are still in use after everything was dropped", live - mem0));
            }
        }
        let bound = 6 * est + 200 + faults;
        if s().phase_fs_ops > bound {
            viol("bound", format!("phase {pi}: {} disk requests for work that needs about {est}", s().phase_fs_ops));
        }
        let _ = noisy;
        res.ends.push(format!("{end:?}"));
        res.scripts.push(script);
        match end.clone() {
            End::Done | End::Crash => {}
            e => {
                let stuck: Vec<String> = o()
                    .segs
                    .iter()
                    .filter(|x| x.phase == pi && !x.finished)
                    .map(|x| format!("task {} attempt {} ({} columns done)", x.task, x.attempt, x.cols.len()))
                    .collect();
                viol("hang", format!("phase {pi} never finished ({e:?} after {} steps); unfinished: {stuck:?}", s().steps));
                hung = true;
            }
        }
        s().disk.capacity = None;
        let mode = match (&p.crash, &end) {
            (Some(c), End::Crash) => Some(c.mode),
            (Some(c), End::Done) => Some(c.mode), // "at the end", or the point was never reached
            _ => None,
        };
        if hung {
            break;
        }
        if plan.compare {
            let snap = oracle::snapshot(&s().disk);
            match &base {
                None => base = Some(snap),
                Some(b) => compare(b, &snap),
            }
            continue;
        }
        if let Some(m) = mode {
            let mut rng = crate::rng::Rng::stream(plan.seed ^ (pi as u64) << 32, "crash");
            s().disk.crash(m.disk(), &mut rng);
            *s().stats.faults.entry(format!("{m:?} at a phase's end")).or_insert(0) += 1;
            if m != sim::Mode::Kill {
                power.push(pi);
            }
        }
        // whatever has died holds no handles
        s().disk.drop_fds();
    }
    for p in &s().panics {
        o().viol.push(Viol { kind: "panic", msg: p.clone() });
    }
    if !hung {
        check_errors(plan);
        verify(plan, &power, &mut res);
    }
    let ob = o();
    res.acked = ob.segs.iter().filter(|x| x.synced || x.closed).count() as u64
        + ob.raws.iter().filter(|x| x.synced.is_some()).count() as u64;
    res.errors = ob.segs.iter().filter(|x| x.error.is_some()).count() as u64
        + ob.raws.iter().map(|x| x.errors.len() as u64).sum::<u64>();
    res.reads_ok = ob.reads_ok;
    res.reads_err = ob.reads_err;
    res.items = ob.items;
    res.cancelled = ob.cancelled;
    res.overlap = ob.overlap;
    let sim = s();
    sim.stats.steps = sim.steps;
    sim.stats.sim_ns = sim.now - sim::CLOCK_BASE;
    res.stats = sim.stats.clone();
    res.hash = sim.hash;
    let mut h = 0u64;
    for e in &sim.events {
        if e.op != sim::Op::Mark {
            h = crate::rng::mix(h.wrapping_mul(31) ^ (e.op as u64) << 32 ^ (e.path as u64) << 8 ^ e.tid as u64);
        }
    }
    res.order_hash = h;
    res.mem = crate::alloc::used() as u64;
    res.nontrivial = match plan.prop.as_str() {
        "C05" | "C06" | "C11" | "C14" => res.reads_ok > 0 && res.stats.switches > 2,
        "C12" => res.stats.switches > 2 && res.stats.fs_ops > 5,
        "C13" => res.cancelled > 0 || res.reads_ok > 0,
        "C03" => res.stats.faults.keys().any(|k| k.starts_with("errno") || k.contains("fsync") || k.contains("full")),
        "C15" => res.acked > 0,
        "C21" => res.stats.fs_ops > 50,
        "C04" => res.checked > 0 || res.reads_ok > 0,
        _ => res.checked > 0,
    };
    res.viol = o().viol.iter().map(|v| V { kind: v.kind.into(), msg: v.msg.clone() }).collect();
    if !opts.want_scripts {
        res.scripts.clear();
    }
    if opts.want_trace {
        res.trace = sim.events.iter().map(sim::render_event).collect();
    }
    res
}
static EMPTY: Script = Script { sched: std::collections::BTreeMap::new(), faults: std::collections::BTreeMap::new() };

fn compare(a: &std::collections::BTreeMap<String, String>, b: &std::collections::BTreeMap<String, String>) {
    for (k, v) in a {
        match b.get(k) {
            Some(w) if w == v => {}
            other => {
                return viol("diff", format!("{k} differs from the undisturbed run: {v} / {}", other.map_or("missing", |x| x)))
            }
        }
    }
    if let Some(k) = b.keys().find(|k| !a.contains_key(*k)) {
        viol("diff", format!("{k} does not exist in the undisturbed run"));
    }
    let (x, y): (Vec<_>, Vec<_>) = o().segs.iter().partition(|s| s.phase == 0);
    for s0 in x {
        if let Some(s1) = y.iter().find(|s1| s1.task == s0.task && s1.attempt == s0.attempt) {
            let d = |s: &client::SegObs| {
                (s.closed, s.synced, s.data_pos, s.cols.iter().map(|c| c.entries.clone()).collect::<Vec<_>>())
            };
            if d(s0) != d(s1) {
                return viol("diff", format!("task {} attempt {}: outcome or block index differs from the undisturbed run", s0.task, s0.attempt));
            }
        }
    }
}

/// After the last phase: a fresh process reads everything back through meerkat's reader, on an
/// undisturbed disk, and the bytes are decoded and compared with the reference model.
fn verify(plan: &'static Plan, power: &[usize], res: &mut RunResult) {
    struct Todo {
        ob: client::SegObs,
        seg: Option<Seg>,
        pipe: Option<Pipe>,
        files: Vec<(String, Vec<(u64, u64)>)>,
    }
    let last_phase = plan.phases.len() - 1;
    let mut todo = vec![];
    for (i, ob) in o().segs.iter().enumerate() {
        if plan.compare && ob.phase != last_phase {
            continue;
        }
        let lost_power = power.iter().any(|p| *p >= ob.phase);
        if !(ob.synced || (ob.closed && !lost_power)) {
            continue;
        }
        // an acknowledged close that was followed by a failing sync promises nothing after it
        let (seg, pipe) = task_of(plan, ob);
        let path = |s: &Option<Seg>, p: &Option<Pipe>| match (s, p) {
            (Some(s), _) => oracle::file_names(s).0,
            (_, Some(p)) => p.path.clone(),
            _ => unreachable!(),
        };
        let mine = path(&seg, &pipe);
        let superseded = o().segs[i + 1..].iter().any(|l| {
            let (s2, p2) = task_of(plan, l);
            (!plan.compare || l.phase == ob.phase) && path(&s2, &p2) == mine
        });
        if superseded {
            continue;
        }
        let cuts: Vec<(u64, u64)> = ob.cols.iter().filter(|c| c.closed && !c.dirty).flat_map(oracle::block_cuts).collect();
        let files = match &seg {
            Some(s) => {
                let (d, x) = oracle::file_names(s);
                let mut c = vec![(0u64, 13u64)];
                c.extend(cuts);
                let il = self::s().disk.size(&x).unwrap_or(0);
                vec![(d, c), (x, vec![(0, il)])]
            }
            None => vec![(mine, cuts)],
        };
        todo.push(Todo { ob: ob.clone(), seg, pipe, files });
    }
    // read back
    let files: Vec<(String, Vec<(u64, u64)>)> = todo.iter().flat_map(|t| t.files.clone()).collect();
    type Got = Vec<Result<(u64, Vec<Vec<u8>>), String>>;
    static mut GOT: Got = Vec::new();
    if !files.is_empty() {
        let f = Box::new(move || {
            for (p, cuts) in &files {
                let kept = |c: &(u64, u64)| s().disk.bytes(p).map_or(false, |d| d.get(c.0, c.1).is_some());
                let cuts: Vec<_> = cuts.iter().copied().filter(|c| c.0 <= c.1 && kept(c)).collect();
                let r = client::read_file(p, &cuts);
                if let (Ok((len, bufs)), Some(c)) = (&r, s().disk.bytes(p)) {
                    let ok = bufs.len() == cuts.len()
                        && *len == c.len()
                        && bufs.iter().zip(&cuts).all(|(b, k)| c.get(k.0, k.1) == Some(&b[..]));
                    if !ok {
                        viol("readback", format!("{p}: the reader returns other bytes than the file holds"));
                    }
                }
                #[allow(static_mut_refs)]
                unsafe {
                    GOT.push(r)
                };
            }
        });
        let np = s().panics.len();
        let (end, _) = sim::run_phase(
            Phase {
                seed: plan.seed ^ 77,
                policy: Policy::Serial,
                rates: Rates::default(),
                crash: None,
                script: None,
                preempt: 0,
                step_limit: 3_000_000,
                est_steps: 1000,
            },
            f,
        );
        if end != End::Done {
            viol("readback", format!("reading the files back never finished: {end:?}"));
        }
        for p in s().panics[np..].to_vec() {
            viol("readback", format!("reading the files back panicked: {p}"));
        }
    }
    #[allow(static_mut_refs)]
    let got = unsafe { &GOT };
    let mut k = 0;
    let mut out: Vec<Viol> = vec![];
    for t in &todo {
        res.checked += 1;
        for f in &t.files {
            if let Some(Err(e)) = got.get(k) {
                if s().disk.contents(&f.0).is_some() {
                    out.push(Viol { kind: "readback", msg: e.clone() });
                }
            }
            k += 1;
        }
        if let Some(seg) = &t.seg {
            let img = oracle::Image {
                dat: s().disk.bytes(&t.files[0].0),
                idx: s().disk.contents(&t.files[1].0).cloned(),
            };
            oracle::check_segment(seg, &t.ob, &img, &mut out);
        }
        if let Some(p) = &t.pipe {
            oracle::check_pipe(p, &t.ob, s().disk.bytes(&p.path), &mut out);
        }
    }
    // bare block files
    for ob in &o().raws {
        let Task::Raw(r) = &plan.phases[ob.phase].tasks[ob.task] else { continue };
        if plan.sink {
            check_sink(r, ob, &mut out);
            continue;
        }
        // in the order the writer accepted them; later ones only ever follow
        let gives_up = |x: &RawOp| matches!(x, RawOp::GiveUpWrite(..) | RawOp::GiveUpFlush(_) | RawOp::GiveUpSync(_));
        let carried = r.carry || r.ops.iter().any(gives_up);
        let img = if carried { client::blocks_image(r.uid, &ob.lens) } else { client::raw_image(r).0 };
        let have = s().disk.contents(&r.path).cloned().unwrap_or_default();
        let must = ob.synced.unwrap_or(0).max(if power.iter().any(|p| *p >= ob.phase) { 0 } else { ob.flushed });
        let n = must as usize;
        let prefix = have.len() >= n && have[..n] == img[..n];
        if !prefix {
            let first = have.iter().zip(&img).position(|(a, b)| a != b).unwrap_or(have.len().min(n));
            out.push(Viol {
                kind: "raw",
                msg: format!(
                    "{}: {} bytes were synced or flushed with success, the file has {} bytes and differs at {first}",
                    r.path,
                    n,
                    have.len()
                ),
            });
        } else if power.is_empty() && s().faults.is_empty() && o().shut.is_empty() && !carried && (have.len() > img.len() || have[..] != img[..have.len()]) {
            out.push(Viol { kind: "raw", msg: format!("{}: the file is not a prefix of the blocks written", r.path) });
        }
    }
    o().viol.extend(out);
}

/// A block file of which the disk kept the ends.
fn check_sink(r: &Raw, ob: &client::RawObs, out: &mut Vec<Viol>) {
    let total: u64 = ob.lens.iter().map(|n| *n as u64).sum();
    let have = s().disk.bytes(&r.path);
    let mut off = 0;
    let mut wrong = have.map_or(0, |h| h.len()) != total;
    for (i, n) in ob.lens.iter().enumerate() {
        let got = have.and_then(|h| h.get(off, off + *n as u64));
        off += *n as u64;
        wrong |= got.is_some_and(|g| g != client::raw_block(r.uid, i, *n));
    }
    if wrong || ob.synced != Some(total) {
        out.push(Viol { kind: "raw", msg: format!("{}: {total} bytes accepted, {:?} synced, the file has {:?} or other bytes", r.path, ob.synced, have.map(|h| h.len())) });
    }
}
