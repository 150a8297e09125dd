//! Making a failing run small: fewer clients, columns, batches, rows, faults and switches.
use crate::driver::{relevant, run_child, Known};
use crate::plan::*;
use crate::run::{Opts, RunResult};
use crate::sim::{CrashAt, Policy, Rates, Script};
use std::time::{Duration, Instant};

pub struct Fails<'a> {
    pub prop: &'a str,
    pub known: &'a Known,
    pub kind: String,
}
pub struct Min {
    pub plan: Plan,
    pub scripts: Option<Vec<Script>>,
    pub note: String,
}

struct S<'a> {
    f: &'a Fails<'a>,
    until: Instant,
    tried: u32,
}
impl S<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.until || self.tried > 1500
    }
    fn run(&mut self, p: &Plan, sc: Option<&Vec<Script>>) -> Option<RunResult> {
        self.tried += 1;
        let r = run_child(p, Opts { scripts: sc.cloned(), want_scripts: true, want_trace: false });
        if relevant(self.f.prop, self.f.known, &r).iter().any(|v| v.kind == self.f.kind) {
            Some(r)
        } else {
            None
        }
    }
}

fn size(s: &[Script]) -> usize {
    s.iter().map(|x| x.sched.len() + x.faults.len()).sum()
}

/// All plans one step smaller, biggest steps first.
fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    if !p.compare {
        for i in 0..p.phases.len() {
            if p.phases.len() > 1 {
                push(&|q| {
                    q.phases.remove(i);
                });
            }
        }
    }
    let np = p.phases.len();
    // in a comparison both phases must stay alike
    let targets: Vec<Vec<usize>> = if p.compare { vec![(0..np).collect()] } else { (0..np).map(|i| vec![i]).collect() };
    for t in &targets {
        let ph = &p.phases[t[0]];
        let each = |q: &mut Plan, f: &dyn Fn(&mut PhasePlan)| {
            for i in t {
                f(&mut q.phases[*i]);
            }
        };
        for k in 0..ph.tasks.len() {
            if ph.tasks.len() > 1 {
                push(&|q| each(q, &|x| {
                    x.tasks.remove(k);
                }));
            }
        }
        push(&|q| each(q, &|x| x.shutdown = None));
        push(&|q| each(q, &|x| x.preempt = 0));
        push(&|q| each(q, &|x| x.rt = Rt::Local));
        push(&|q| each(q, &|x| x.policy = Policy::Serial));
        push(&|q| each(q, &|x| x.blocking = 1));
        if !p.compare {
            push(&|q| each(q, &|x| x.rates = Rates::default()));
            push(&|q| each(q, &|x| {
                let mut r = Rates::default();
                r.nth = x.rates.nth.clone();
                r.max_hard = x.rates.max_hard;
                r.sticky = x.rates.sticky;
                r.target = x.rates.target.clone();
                x.rates = r
            }));
            push(&|q| each(q, &|x| x.rates.sticky = false));
            push(&|q| each(q, &|x| x.crash = None));
            push(&|q| each(q, &|x| x.capacity = None));
            push(&|q| each(q, &|x| {
                if let Some(c) = &mut x.crash {
                    c.at = CrashAt::End
                }
            }));
        }
        for k in 0..8 {
            push(&|q| {
                let x = &mut q.phases[*t.last().unwrap()].rates;
                match k {
                    0 => x.short_write = 0,
                    1 => x.short_read = 0,
                    2 => x.eintr = 0,
                    3 => x.delay = 0,
                    4 => x.spurious_wake = 0,
                    5 => x.clock_jump = 0,
                    6 => x.read_err = 0,
                    _ => x.write_err = 0,
                }
            });
        }
        for (k, task) in ph.tasks.iter().enumerate() {
            match task {
                Task::Segs(s) => {
                    for i in 0..s.len() {
                        if s.len() > 1 {
                            push(&|q| each(q, &|x| seg_list(x, k, &|l| {
                                l.remove(i);
                            })));
                        }
                        push(&|q| each(q, &|x| seg_list(x, k, &|l| l[i].pause = 0)));
                        if s[i].again > 0 {
                            push(&|q| each(q, &|x| seg_list(x, k, &|l| l[i].again = 0)));
                            push(&|q| each(q, &|x| seg_list(x, k, &|l| l[i].again /= 2)));
                        }
                        push(&|q| each(q, &|x| seg_list(x, k, &|l| l[i].carry = Carry::Stop)));
                        let n = s[i].cols.len();
                        for c in 0..n {
                            push(&|q| each(q, &|x| seg_list(x, k, &|l| {
                                l[i].cols.remove(c);
                            })));
                        }
                        for c in 0..n {
                            for m in col_steps(&s[i].cols[c]) {
                                push(&|q| each(q, &|x| seg_list(x, k, &|l| l[i].cols[c] = m.clone())));
                            }
                        }
                    }
                }
                Task::Pipe(pp) => {
                    for c in 0..pp.cols.len() {
                        if pp.cols.len() > 1 {
                            push(&|q| each(q, &|x| pipe(x, k, &|y| {
                                y.cols.remove(c);
                            })));
                        }
                        for m in col_steps(&pp.cols[c]) {
                            push(&|q| each(q, &|x| pipe(x, k, &|y| y.cols[c] = m.clone())));
                        }
                    }
                }
                Task::Raw(r) => {
                    for i in 0..r.ops.len() {
                        push(&|q| each(q, &|x| {
                            if let Task::Raw(y) = &mut x.tasks[k] {
                                y.ops.remove(i);
                            }
                        }));
                        if let RawOp::Write(n) = r.ops[i] {
                            for m in [1, n / 2] {
                                if m < n {
                                    push(&|q| each(q, &|x| {
                                        if let Task::Raw(y) = &mut x.tasks[k] {
                                            y.ops[i] = RawOp::Write(m);
                                        }
                                    }));
                                }
                            }
                        }
                    }
                }
                Task::Read(r) => {
                    for i in 0..r.ops.len() {
                        push(&|q| each(q, &|x| {
                            if let Task::Read(y) = &mut x.tasks[k] {
                                y.ops.remove(i);
                            }
                        }));
                        for m in rop_steps(&r.ops[i]) {
                            push(&|q| each(q, &|x| {
                                if let Task::Read(y) = &mut x.tasks[k] {
                                    y.ops[i] = m.clone();
                                }
                            }));
                        }
                    }
                }
            }
        }
    }
    for i in 0..p.fixtures.len() {
        if p.fixtures.len() > 1 {
            push(&|q| {
                q.fixtures.remove(i);
            });
        }
    }
    v
}
fn seg_list(x: &mut PhasePlan, k: usize, f: &dyn Fn(&mut Vec<Seg>)) {
    if let Task::Segs(l) = &mut x.tasks[k] {
        f(l)
    }
}
fn pipe(x: &mut PhasePlan, k: usize, f: &dyn Fn(&mut Pipe)) {
    if let Task::Pipe(l) = &mut x.tasks[k] {
        f(l)
    }
}
fn col_steps(c: &Col) -> Vec<Col> {
    let mut v = vec![];
    let n = c.batches.len();
    if n > 1 {
        let mut d = c.clone();
        d.batches.truncate(n / 2);
        v.push(d);
        let mut d = c.clone();
        d.batches.drain(..n / 2);
        v.push(d);
    }
    for i in 0..n {
        let mut d = c.clone();
        d.batches.remove(i);
        v.push(d);
    }
    for i in 0..n {
        for j in 0..c.batches[i].len() {
            let mut d = c.clone();
            d.batches[i].remove(j);
            v.push(d);
            let r = &c.batches[i][j];
            for m in [1, r.n / 2, r.n - 1] {
                if m > 0 && m < r.n {
                    let mut d = c.clone();
                    d.batches[i][j].n = m;
                    v.push(d);
                }
            }
            for m in [1, r.len / 2] {
                if m < r.len {
                    let mut d = c.clone();
                    d.batches[i][j].len = m;
                    v.push(d);
                }
            }
        }
    }
    if c.index.is_some() || c.twice {
        let mut d = c.clone();
        d.index = None;
        v.push(d);
        let mut d = c.clone();
        d.twice = false;
        v.push(d);
    }
    if let Some(i) = &c.index {
        for k in 0..i.parts.len() {
            let mut d = c.clone();
            d.index.as_mut().unwrap().parts.remove(k);
            v.push(d);
        }
    }
    if c.bufs != Bufs::Fresh {
        let mut d = c.clone();
        d.bufs = Bufs::Fresh;
        v.push(d);
    }
    v
}
fn rop_steps(o: &ROp) -> Vec<ROp> {
    let mut v = vec![];
    match o {
        ROp::Join(l) => {
            if l.len() == 1 {
                v.push(l[0].clone());
            }
            for i in 0..l.len() {
                let mut m = l.clone();
                m.remove(i);
                v.push(ROp::Join(m));
                for s in rop_steps(&l[i]) {
                    let mut m = l.clone();
                    m[i] = s;
                    v.push(ROp::Join(m));
                }
            }
        }
        ROp::Batch { wants, take, think, between, drop_polls, impatient } => {
            let put = |v: &mut Vec<ROp>, w: Vec<Want>, t, th, bt| {
                v.push(ROp::Batch { wants: w, take: t, think: th, between: bt, drop_polls: *drop_polls, impatient: *impatient })
            };
            if wants.len() > 3 {
                let (a, b) = wants.split_at(wants.len() / 2);
                put(&mut v, a.to_vec(), *take, *think, between.clone());
                put(&mut v, b.to_vec(), *take, *think, between.clone());
            }
            if *drop_polls > 0 || *impatient {
                v.push(ROp::Batch {
                    wants: wants.clone(),
                    take: *take,
                    think: *think,
                    between: between.clone(),
                    drop_polls: 0,
                    impatient: false,
                });
            }
            for i in 0..wants.len() {
                let mut w = wants.clone();
                w.remove(i);
                put(&mut v, w, *take, *think, between.clone());
            }
            if take.is_some() {
                put(&mut v, wants.clone(), None, *think, between.clone());
            }
            if *think > 0 {
                put(&mut v, wants.clone(), *take, 0, between.clone());
            }
            for i in 0..between.len() {
                let mut bt = between.clone();
                bt.remove(i);
                put(&mut v, wants.clone(), *take, *think, bt);
            }
        }
        ROp::RawBlocks { blocks, batch } => {
            for i in 0..blocks.len() {
                let mut w = blocks.clone();
                w.remove(i);
                v.push(ROp::RawBlocks { blocks: w, batch: *batch });
            }
        }
        ROp::Again { start, end, n, what } => {
            for m in [n / 2, n - n / 4] {
                if m >= 100 && m < *n {
                    v.push(ROp::Again { start: *start, end: *end, n: m, what: *what });
                }
            }
        }
        _ => {}
    }
    v
}

pub fn minimise(f: &Fails, plan: Plan, first: RunResult, limit: Duration) -> Min {
    let t0 = Instant::now();
    let mut s = S { f, until: t0 + limit, tried: 0 };
    let before = (serde_json::to_string(&plan).unwrap().len(), size(&first.scripts));
    let empty = |p: &Plan| vec![Script::default(); p.phases.len()];
    let mut plan = plan;
    let mut best = first;
    // does it need any scheduling decision or fault at all?
    let mut plain = s.run(&plan, Some(&empty(&plan))).is_some();
    // smaller plans
    let plan_until = t0 + limit * 2 / 3;
    'outer: loop {
        for q in smaller(&plan) {
            if s.over() || Instant::now() > plan_until {
                break 'outer;
            }
            let hit = if plain {
                s.run(&q, Some(&empty(&q)))
            } else {
                s.run(&q, None).or_else(|| {
                    let mut q2 = q.clone();
                    q2.seed = crate::rng::mix(q.seed) >> 12;
                    let _ = &mut q2;
                    None
                })
            };
            if let Some(r) = hit {
                plan = q;
                best = r;
                if !plain && s.run(&plan, Some(&empty(&plan))).is_some() {
                    plain = true;
                }
                continue 'outer;
            }
        }
        break;
    }
    let mut scripts = if plain {
        Some(empty(&plan))
    } else if best.scripts.len() == plan.phases.len() {
        Some(best.scripts.clone())
    } else {
        None
    };
    if let Some(sc) = &scripts {
        if s.run(&plan, Some(sc)).is_none() {
            scripts = None;
        }
    }
    // fewer decisions: drop halves, quarters, ... single ones
    if let (Some(sc), false) = (&mut scripts, plain) {
        for ph in 0..sc.len() {
            for what in 0..2 {
                let keys = |x: &Vec<Script>| -> Vec<u64> {
                    if what == 0 {
                        x[ph].faults.keys().copied().collect()
                    } else {
                        x[ph].sched.keys().copied().collect()
                    }
                };
                let mut chunk = keys(sc).len();
                while chunk >= 1 && !s.over() {
                    let all = keys(sc);
                    let mut any = false;
                    for c in all.chunks(chunk) {
                        if s.over() {
                            break;
                        }
                        let mut q = sc.clone();
                        for k in c {
                            if what == 0 {
                                q[ph].faults.remove(k);
                            } else {
                                q[ph].sched.remove(k);
                            }
                        }
                        if s.run(&plan, Some(&q)).is_some() {
                            *sc = q;
                            any = true;
                        }
                    }
                    if chunk == 1 && !any {
                        break;
                    }
                    chunk = if chunk == 1 { 1 } else { chunk / 2 };
                }
            }
        }
    }
    let after = (serde_json::to_string(&plan).unwrap().len(), scripts.as_ref().map_or(0, |x| size(x)));
    let note = format!(
        "minimised in {} runs, {:.1} s: plan of {} bytes to {}, {} scheduling and fault decisions to {}{}",
        s.tried,
        t0.elapsed().as_secs_f64(),
        before.0,
        after.0,
        before.1,
        after.1,
        if scripts.is_none() { " (decisions taken from the seed)" } else { "" }
    );
    Min { plan, scripts, note }
}
