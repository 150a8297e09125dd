//! Which runs are tried for which property: a plan is a function of the property and a seed.
use crate::oracle;
use crate::plan::*;
use crate::rng::mix;
use crate::sim::{Crash, CrashAt, Mode, Op, Policy};

fn est(tasks: &[Task]) -> u64 {
    tasks.iter().map(est_ops).sum()
}
fn acks(tasks: &[Task]) -> u64 {
    tasks
        .iter()
        .map(|t| match t {
            Task::Segs(v) => v.len() as u64,
            Task::Pipe(_) => 1,
            Task::Raw(r) => r.ops.iter().filter(|o| matches!(o, RawOp::Sync)).count() as u64,
            Task::Read(_) => 0,
        })
        .sum()
}

fn has_huge_values(t: &Task) -> bool {
    let huge = |c: &Col| c.batches.iter().flatten().any(|r| r.len > 1 << 20);
    match t {
        Task::Segs(v) => v.iter().flat_map(|s| &s.cols).any(huge),
        Task::Pipe(p) => p.cols.iter().any(huge),
        _ => false,
    }
}

struct Sc {
    g: G,
    fixtures: Vec<Fixture>,
    huge: bool,
    /// ids in use in both directories
    twins: Vec<String>,
}

impl Sc {
    fn fixture(&mut self, len: u64) -> Fixture {
        let f = Fixture { path: format!("{DIR}/fix{}.blk", self.fixtures.len()), len, uid: self.g.r.next() };
        self.fixtures.push(f.clone());
        f
    }
    fn some_len(&mut self) -> u64 {
        let r = &mut self.g.r;
        match r.below(8) {
            0 => r.below(3),
            1 if self.huge && r.one_in(3) => *r.pick(&[1 << 31, 1 << 32, 3 << 32, 1 << 40]) + r.below(100_000),
            1 => r.range(16_380, 16_390),
            2 => r.small(300_000),
            _ => 1 + r.small(9000),
        }
    }
    /// a range inside a file of this length
    fn inside(&mut self, len: u64) -> (u64, u64) {
        let r = &mut self.g.r;
        if len > HUGE {
            // around the powers of two and the end
            let mid = *r.pick(&[0, 1 << 31, 1 << 32, 1 << 33, len, len / 3]);
            let a = (mid.min(len) + r.below(3000)).saturating_sub(1500).min(len);
            return (a, a + r.small(len - a).min(r.small(200_000)));
        }
        match r.below(8) {
            0 => (0, len),
            1 => {
                let a = r.below(len + 1);
                (a, a)
            }
            2 => (r.below(len + 1), len),
            _ => {
                let a = r.below(len + 1);
                (a, a + r.small(len - a))
            }
        }
    }
    fn wild(&mut self, len: u64) -> (u64, u64) {
        let r = &mut self.g.r;
        let x = r.below(len + 1);
        let w = match r.below(10) {
            0 => (x, len + 1),
            1 => (len, len + 1 + r.small(5000)),
            2 => (len + 1 + r.small(1 << 40), len + 2 + r.small(1 << 41)),
            3 => (x + 1 + r.small(1000), x),
            4 => (u64::MAX - r.small(1000), u64::MAX),
            5 => (0, u64::MAX),
            6 => (x, 1 << r.range(24, 62)),
            7 => (u64::MAX - r.small(10), r.small(10)),
            8 => (x, (x + (1 << r.range(32, 34))).saturating_add(r.small(100))),
            _ => (x, len + 1 + r.small(1 << 20)),
        };
        // what turns out to lie inside a huge file has to fit into memory
        if w.0 <= w.1 && w.1 <= len {
            (w.0, w.1.min(w.0 + 400_000))
        } else {
            w
        }
    }
    fn range(&mut self, len: u64, wild_in: u64) -> (u64, u64) {
        if wild_in > 0 && self.g.r.one_in(wild_in) {
            self.wild(len)
        } else {
            self.inside(len)
        }
    }
    fn wants(&mut self, len: u64, n: u64, wild_in: u64) -> Vec<Want> {
        let tile = self.g.r.one_in(3);
        let mut v = vec![];
        let mut at = 0;
        for k in 0..n {
            let (start, end) = if tile && !(wild_in > 0 && self.g.r.one_in(wild_in)) {
                let e = (at + 1 + self.g.r.small(len / n.max(1) * 2).min(100_000)).min(len);
                let x = (at.min(e), e);
                at = e;
                x
            } else {
                self.range(len, wild_in)
            };
            let tag = match self.g.r.below(6) {
                0 => self.g.r.below(2) as u32,
                1 => 2 + self.g.r.below(u32::MAX as u64 - 1) as u32,
                _ => 2 + k as u32 * 7 + self.g.r.below(7) as u32,
            };
            v.push(Want { start, end, tag });
        }
        v
    }
    fn batch(&mut self, len: u64, wild_in: u64) -> ROp {
        let n = match self.g.r.below(6) {
            0 => self.g.r.below(2),
            1 if self.g.r.one_in(6) => self.g.r.range(15, 300),
            _ => 1 + self.g.r.small(14),
        };
        let wants = self.wants(len, n, wild_in);
        let take = if self.g.r.one_in(4) { Some(self.g.r.below(n + 1) as u32) } else { None };
        let think = if self.g.r.one_in(4) { 1 + self.g.wait(100_000) } else { 0 };
        let drop_polls = if take.is_some() && self.g.r.one_in(2) { 1 + self.g.r.small(5) as u32 } else { 0 };
        let impatient = self.g.r.one_in(10);
        let mut between = vec![];
        if n > 0 && self.g.r.one_in(5) {
            let k = 1 + self.g.r.below(n) as u32;
            let op = if self.g.r.one_in(3) {
                let m = 1 + self.g.r.small(5);
                ROp::Batch { wants: self.wants(len, m, wild_in), take: None, think: 0, between: vec![], drop_polls: 0, impatient: false }
            } else {
                let (a, b) = self.range(len, wild_in);
                ROp::Block(a, b)
            };
            between.push((k, op));
        }
        ROp::Batch { wants, take, think, between, drop_polls, impatient }
    }
    /// a reader of fixtures
    fn reader(&mut self, nops: u64, wild_in: u64, batches: bool, cancel: bool) -> Task {
        let mut ops = vec![];
        let f0 = self.g.r.pick(&self.fixtures.clone()).clone();
        ops.push(ROp::Open(f0.path.clone()));
        let mut len = f0.len;
        for _ in 0..nops {
            let k = self.g.r.below(12);
            let op = match k {
                0 => {
                    let f = self.g.r.pick(&self.fixtures.clone()).clone();
                    len = f.len;
                    ROp::Open(f.path)
                }
                1 => ROp::CloneReader,
                2 | 3 if batches => self.batch(len, wild_in),
                4 if cancel => {
                    let (a, b) = self.range(len, wild_in);
                    ROp::CancelBlock(a, b, self.g.r.small(5) as u32)
                }
                5 if cancel && self.g.r.one_in(4) => {
                    ROp::CancelOpen(self.g.r.pick(&self.fixtures.clone()).path.clone(), self.g.r.small(5) as u32)
                }
                5 if cancel && self.g.r.one_in(3) => {
                    ops.push(ROp::DropReader);
                    let f = self.g.r.pick(&self.fixtures.clone()).clone();
                    len = f.len;
                    ROp::Open(f.path)
                }
                6 | 7 | 8 => {
                    let n = 1 + self.g.r.small(6);
                    let mut v = vec![];
                    for _ in 0..n {
                        let (a, b) = self.range(len, wild_in);
                        v.push(match self.g.r.below(6) {
                            0 if batches => self.batch(len, wild_in),
                            1 if cancel => ROp::CancelBlock(a, b, self.g.r.small(5) as u32),
                            2 => {
                                let f = self.g.r.pick(&self.fixtures.clone()).clone();
                                let _ = f.len;
                                ROp::Open(f.path)
                            }
                            _ => ROp::Block(a, b),
                        });
                    }
                    ROp::Join(v)
                }
                9 if self.g.r.one_in(3) => ROp::Sleep(self.g.wait(50_000)),
                _ => {
                    let (a, b) = self.range(len, wild_in);
                    ROp::Block(a, b)
                }
            };
            ops.push(op);
        }
        Task::Read(Rd { ops })
    }
    /// somebody puts other files in the place of a test file, and reads them
    fn replacer(&mut self, batches: bool, wild: u64) -> Option<Task> {
        let small: Vec<_> = self.fixtures.iter().filter(|f| f.len < HUGE).cloned().collect();
        if small.is_empty() {
            return None;
        }
        let f = self.g.r.pick(&small).clone();
        let mut ops = vec![];
        let mut len = f.len;
        if self.g.r.one_in(2) {
            ops.push(ROp::Open(f.path.clone()));
        }
        for _ in 0..1 + self.g.r.small(4) {
            if self.g.r.one_in(2) {
                ops.push(ROp::Sleep(self.g.wait(3000)));
            }
            if self.g.r.one_in(6) {
                ops.push(ROp::Remove(f.path.clone()));
                if self.g.r.one_in(2) {
                    ops.push(ROp::Open(f.path.clone()));
                }
            } else {
                len = match self.g.r.below(4) {
                    0 => f.len,
                    1 => len + self.g.r.below(3),
                    2 => len.saturating_sub(1 + self.g.r.below(2)),
                    _ => self.g.r.small(20_000),
                };
                let through = self.g.r.one_in(3);
                ops.push(ROp::Replace(f.path.clone(), self.g.r.next(), len, through));
            }
            for _ in 0..self.g.r.below(4) {
                let (a, b) = self.range(len, wild);
                let op = match self.g.r.below(4) {
                    0 | 1 => ROp::Open(f.path.clone()),
                    2 if batches => self.batch(len, wild),
                    _ => ROp::Block(a, b),
                };
                ops.push(op);
            }
        }
        Some(Task::Read(Rd { ops }))
    }
    fn read_faults(&mut self, p: &mut PhasePlan) {
        p.rates.max_hard = 1 + self.g.r.small(20) as u32;
        p.rates.sticky = self.g.r.one_in(3);
        match self.g.r.below(3) {
            0 => p.rates.nth.push((Op::Read, self.g.r.below(12) as u32)),
            1 => p.rates.read_err = *self.g.r.pick(&[300, 2000]),
            _ => {
                p.rates.read_err = 500;
                p.rates.open_err = 500;
                p.rates.stat_err = 500;
            }
        }
        if self.fixtures.len() > 1 && self.g.r.one_in(2) {
            p.rates.target = vec![self.g.r.pick(&self.fixtures.clone()).path.clone()];
        }
    }
    fn ncols(&mut self) -> u64 {
        match self.g.r.below(8) {
            0 => 0,
            1..=4 => 1,
            _ => 1 + self.g.r.below(4),
        }
    }
    /// a segment with a random id; `others` are ids to stay close to
    fn seg(&mut self, others: &mut Vec<String>) -> Seg {
        let id = loop {
            let id = match others.last().cloned() {
                Some(o) if self.g.r.one_in(2) => self.g.near_id(&o),
                _ => self.g.id(),
            };
            if !others.contains(&id) {
                break id;
            }
        };
        others.push(id.clone());
        let n = self.ncols();
        let mut s = self.g.seg(&id, n);
        match self.g.r.below(16) {
            0 => s.dir = self.g.r.pick(&["/simdisk/db/", "", ".", "./", "../db", "/simdisk//db/."]).to_string(),
            1 | 2 if others.len() > 1 => {
                // another directory, where an id may well be in use already
                s.dir = if self.g.r.one_in(4) { "./shard 2.idx".into() } else { DIR2.into() };
                if !self.twins.contains(&others[0]) && self.g.r.one_in(2) {
                    s.id = others[0].clone();
                    self.twins.push(s.id.clone());
                }
            }
            _ => {}
        }
        s
    }
    fn cut(&mut self, s: &mut Seg) {
        let ops = 2 + s.cols.iter().map(|c| c.batches.len() as u64 + 1).sum::<u64>();
        s.end = if self.g.r.one_in(2) {
            SegEnd::Drop(self.g.r.below(ops + 1) as u32)
        } else {
            SegEnd::Cancel(self.g.r.below(ops + 1) as u32, self.g.r.small(12) as u32)
        };
    }
    /// hard faults that can only hit the files of these segments
    fn aim(&mut self, p: &mut PhasePlan, victims: &[&Seg], e: u64) {
        self.g.hard(p, e);
        p.capacity = None; // a full disk hits everybody
        p.rates.dirs = false;
        p.rates.target = victims
            .iter()
            .flat_map(|s| {
                let (d, i) = oracle::file_names(s);
                [d, i]
            })
            .collect();
        if self.g.r.one_in(2) {
            let k = self.g.r.below(p.rates.target.len() as u64) as usize;
            p.rates.target = vec![p.rates.target[k].clone()];
        }
    }
    /// several segments written at once
    fn many(&mut self, lo: u64, hi: u64, ids: &mut Vec<String>) -> Vec<Task> {
        let n = self.g.r.range(lo, hi);
        (0..n)
            .map(|_| {
                let k = if self.g.r.one_in(4) { 2 } else { 1 };
                let mut v: Vec<Seg> = (0..k).map(|_| self.seg(ids)).collect();
                for s in v.iter_mut().skip(1) {
                    if self.g.r.one_in(3) {
                        s.pause = self.g.wait(20_000);
                    }
                }
                Task::Segs(v)
            })
            .collect()
    }
    fn pipes(&mut self, n: u64) -> Vec<Task> {
        (0..n).map(|k| Task::Pipe(self.g.pipe(&format!("{DIR}/pipe{k}.blk")))).collect()
    }
    /// a client that goes on after errors, and gives up operations half-way
    fn stubborn(&mut self, r: &mut Raw) {
        r.carry = self.g.r.one_in(3);
        if self.g.r.one_in(4) {
            let k = self.g.r.below(r.ops.len() as u64) as usize;
            let polls = self.g.r.small(4) as u32;
            match r.ops[k] {
                RawOp::Write(n) => r.ops[k] = RawOp::GiveUpWrite(n, polls),
                RawOp::Flush => r.ops[k] = RawOp::GiveUpFlush(polls),
                RawOp::Sync => r.ops[k] = RawOp::GiveUpSync(polls),
                _ => {}
            }
        }
        if r.carry && self.g.r.one_in(2) {
            r.ops.push(RawOp::Sync);
        }
    }
    fn refused_or_odd(&mut self, c: &mut Col) {
        c.column_type = self.g.r.below(10) as i32;
        c.index_type = self.g.r.below(4) as i32;
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut sc = Sc { g: G::new(mix(seed) ^ prop.bytes().fold(7, |h, b| mix(h ^ b as u64))), fixtures: vec![], huge: matches!(prop, "C05" | "C06"), twins: vec![] };
    sc.g.big = matches!(prop, "C01" | "C02" | "C04" | "C07");
    let strict_dirs = sc.g.r.one_in(2);
    let mut family = String::new();
    let mut phases = vec![];
    let mut compare = false;
    let mut ids = vec![];
    let mut share_in = 3;
    let mut preempt_in = 4;
    let sink = seed & SINK_SEED != 0 && matches!(prop, "C07" | "C15");
    match prop {
        _ if sink => {
            // more bytes than 32 bits can count
            let each = (12 << 20) + sc.g.r.below(3 << 20);
            let n = (1 << 32) / each + 3;
            let run = |n: u32, len: u32| Run { n, null: false, len, holes: false };
            let tasks = if prop == "C15" {
                let mut r = sc.g.raw(&format!("{DIR}/raw.blk"), false);
                let tail = std::mem::take(&mut r.ops);
                r.ops = vec![RawOp::Write(each as u32); n as usize];
                r.ops.extend(tail);
                r.ops.push(RawOp::Sync);
                vec![Task::Raw(r)]
            } else {
                let id = sc.g.id();
                let mut s = sc.g.seg(&id, 3);
                s.end = SegEnd::Sync;
                s.carry = Carry::Stop;
                for (k, c) in s.cols.iter_mut().enumerate() {
                    c.name = format!("c{k}");
                    c.close = true;
                    c.index = None;
                }
                s.cols[0].nullable = false;
                s.cols[0].encoding = s.cols[1].encoding;
                s.cols[0].batches = vec![vec![run(1, each as u32)]; n as usize];
                vec![Task::Segs(vec![s])]
            };
            family = "beyond 4 GiB".into();
            let mut p = sc.g.phase(tasks);
            p.rt = Rt::Local;
            p.policy = Policy::Serial;
            p.blocking = 1;
            p.rates = Default::default();
            phases.push(p);
        }
        "C01" => {
            let two = sc.g.r.one_in(4);
            for ph in 0..1 + two as usize {
                let mut tasks = sc.many(1, 3, &mut ids);
                if sc.g.r.one_in(3) {
                    sc.fixture(4000);
                    tasks.push(sc.reader(4, 5, true, true));
                }
                let e = est(&tasks);
                let a = acks(&tasks);
                let first: Vec<Seg> = match &tasks[0] {
                    Task::Segs(v) => v.clone(),
                    _ => vec![],
                };
                let others = tasks.len() > 1;
                let mut p = sc.g.phase(vec![]);
                sc.g.maybe_transient(&mut p);
                if others && sc.g.r.one_in(3) {
                    sc.aim(&mut p, &first.iter().collect::<Vec<_>>(), e);
                    family = "other segments fail".into();
                } else if others && sc.g.r.one_in(3) {
                    if let Task::Segs(v) = &mut tasks[0] {
                        sc.cut(&mut v[0]);
                    }
                    family = "other segments abandoned".into();
                } else {
                    family = "crash".into();
                }
                p.crash = Some(sc.g.crash(e, a));
                if ph == 1 || sc.g.r.one_in(3) {
                    p.crash.as_mut().unwrap().at = CrashAt::End;
                }
                p.tasks = tasks;
                phases.push(p);
            }
        }
        "C02" => {
            let mut tasks = vec![];
            if sc.g.r.one_in(2) {
                tasks.extend(sc.many(1, 2, &mut ids));
                family = "segments".into();
            }
            if tasks.is_empty() || sc.g.r.one_in(3) {
                let n = sc.g.r.range(1, 3);
                tasks.extend(sc.pipes(n));
                family.push_str(" encoders");
            }
            if sc.g.r.one_in(25) {
                let mut s = sc.seg(&mut ids);
                let mut c = sc.g.bin_col(40, 300);
                c.encoding = SNAPPY;
                s.cols.push(c);
                tasks.push(Task::Segs(vec![s]));
                family = "snappy".into();
            }
            if sc.g.r.one_in(4000) {
                tasks = vec![Task::Pipe(sc.g.many_blocks(&format!("{DIR}/pipe0.blk")))];
                family = "many blocks".into();
            }
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            phases.push(p);
        }
        "C03" => {
            let tasks = if sc.g.r.one_in(5) {
                family = "encoders".into();
                let n = sc.g.r.range(1, 2);
                sc.pipes(n)
            } else {
                family = "segments".into();
                sc.many(1, 2, &mut ids)
            };
            let e = est(&tasks);
            let mut p = sc.g.phase(tasks);
            if sc.g.r.one_in(3) {
                sc.g.transient(&mut p);
            }
            sc.g.hard(&mut p, e);
            let mode = *sc.g.r.pick(&[Mode::PowerStrict, Mode::PowerStrict, Mode::PowerStrict, Mode::PowerRandom, Mode::Kill]);
            p.crash = Some(Crash { at: CrashAt::End, mode });
            phases.push(p);
        }
        "C04" => {
            compare = true;
            let mut tasks = vec![];
            if sc.g.r.one_in(2) {
                tasks.extend(sc.many(1, 2, &mut ids));
            }
            if sc.g.r.one_in(2) {
                let n = sc.g.r.range(1, 2);
                tasks.extend(sc.pipes(n));
            }
            if tasks.is_empty() || sc.g.r.one_in(2) {
                for _ in 0..1 + sc.g.r.below(2) {
                    let l = sc.some_len();
                    sc.fixture(l);
                }
                tasks.push(sc.reader(5, 0, true, false));
            }
            family = "transient".into();
            let mut p = sc.g.phase(tasks);
            p.fresh_disk = true;
            let mut q = p.clone();
            p.rates = Default::default();
            while q.rates.short_write + q.rates.short_read + q.rates.eintr + q.rates.delay == 0 {
                sc.g.transient(&mut q);
            }
            phases.push(p);
            phases.push(q);
        }
        "C05" | "C06" => {
            for _ in 0..1 + sc.g.r.below(3) {
                let l = sc.some_len();
                sc.fixture(l);
            }
            let batches = prop == "C06";
            let n = sc.g.r.range(1, 3);
            let wild = *sc.g.r.pick(&[0, 3, 6]);
            let mut tasks = vec![];
            for _ in 0..n {
                if batches {
                    let mut ops = vec![];
                    let f = sc.g.r.pick(&sc.fixtures.clone()).clone();
                    ops.push(ROp::Open(f.path.clone()));
                    for _ in 0..1 + sc.g.r.below(3) {
                        let k = 1 + sc.g.r.below(3);
                        let v = (0..k)
                            .map(|_| {
                                if sc.g.r.one_in(8) {
                                    let (a, b) = sc.range(f.len, wild);
                                    ROp::Block(a, b)
                                } else {
                                    sc.batch(f.len, wild)
                                }
                            })
                            .collect();
                        ops.push(ROp::Join(v));
                    }
                    tasks.push(Task::Read(Rd { ops }));
                } else {
                    let k = 1 + sc.g.r.small(8);
                    let cancel = sc.g.r.one_in(3);
                    tasks.push(sc.reader(k, wild, false, cancel));
                }
            }
            if sc.g.r.one_in(6) {
                tasks.extend(sc.many(1, 1, &mut ids));
            }
            let turn = sc.g.r.below(8);
            if turn == 1 {
                let t = sc.replacer(batches, wild);
                tasks.extend(t);
            }
            if turn == 0 {
                // somebody cuts a file short meanwhile
                let f = sc.g.r.pick(&sc.fixtures.clone()).clone();
                if f.len < HUGE {
                    let at = sc.g.r.small(3000);
                    let to = sc.g.r.below(f.len + 1);
                    tasks.push(Task::Read(Rd { ops: vec![ROp::Sleep(at), ROp::Shorten(f.path, to)] }));
                }
            }
            if sc.g.r.one_in(400) {
                // one read of more bytes than 32 bits can count
                let l = GIANT + sc.g.r.below(100_000);
                let f = sc.fixture(l);
                let start = HOLE.0 - 2000 + sc.g.r.below(4000);
                let end = start + *sc.g.r.pick(&[1u64 << 31, 1 << 32]) + sc.g.r.small(200_000);
                let want = |start, end, tag| Want { start, end, tag };
                let op = if batches {
                    ROp::Batch { wants: vec![want(5, 900, 0), want(start, end, 7), want(l - 77, l, 1)], take: None, think: 0, between: vec![], drop_polls: 0, impatient: false }
                } else {
                    ROp::Block(start, end)
                };
                tasks.push(Task::Read(Rd { ops: vec![ROp::Open(f.path), op] }));
            }
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            if sc.g.r.one_in(3) {
                sc.read_faults(&mut p);
                family = "failing reads".into();
            } else {
                family = if wild > 0 { "bad ranges".into() } else { "good ranges".into() };
            }
            phases.push(p);
        }
        "C07" => {
            let mut tasks = vec![];
            match sc.g.r.below(4) {
                0 => {
                    tasks.extend(sc.many(1, 2, &mut ids));
                    family = "segments".into();
                }
                1 => {
                    let r = sc.g.raw(&format!("{DIR}/raw.blk"), false);
                    tasks.push(Task::Raw(r));
                    family = "blocks".into();
                    let n = sc.g.r.below(2);
                    tasks.extend(sc.pipes(n));
                }
                _ => {
                    let n = sc.g.r.range(1, 3);
                    tasks.extend(sc.pipes(n));
                    family = "encoders".into();
                }
            }
            if sc.g.r.one_in(1500) {
                tasks = vec![Task::Pipe(sc.g.many_blocks(&format!("{DIR}/pipe0.blk")))];
                family = "many blocks".into();
            }
            let mut p = sc.g.phase(tasks);
            sc.g.transient(&mut p);
            phases.push(p);
        }
        "C08" => {
            let mut tasks = sc.many(2, 4, &mut ids);
            if sc.g.r.one_in(4) {
                sc.fixture(3000);
                tasks.push(sc.reader(4, 4, true, true));
            }
            let e = est(&tasks);
            let mut p = sc.g.phase(vec![]);
            sc.g.maybe_transient(&mut p);
            let victim = match &tasks[0] {
                Task::Segs(v) => v[0].clone(),
                _ => unreachable!(),
            };
            match sc.g.r.below(3) {
                0 => {
                    sc.aim(&mut p, &[&victim], e);
                    family = "one segment fails".into();
                }
                1 => {
                    if let Task::Segs(v) = &mut tasks[0] {
                        sc.cut(&mut v[0]);
                        if sc.g.r.one_in(3) {
                            // in the middle of writing something large, while others open their files
                            for c in v[0].cols.iter_mut() {
                                let len = 20_000 + sc.g.r.below(40_000) as u32;
                                for b in c.batches.iter_mut() {
                                    *b = vec![Run { n: 1 + sc.g.r.below(4) as u32, null: false, len, holes: false }];
                                }
                            }
                            let k = tasks.len();
                            for t in tasks[1..k].iter_mut() {
                                if let Task::Segs(v) = t {
                                    for _ in 0..sc.g.r.below(4) {
                                        let mut s = sc.seg(&mut ids);
                                        s.cols.truncate(1);
                                        for c in s.cols.iter_mut() {
                                            c.batches.truncate(2);
                                        }
                                        v.push(s);
                                    }
                                }
                            }
                            p.blocking = 1 + sc.g.r.below(3) as u32;
                        }
                    }
                    family = "one segment abandoned".into();
                }
                _ => family = "all succeed".into(),
            }
            if sc.g.r.one_in(4) {
                p.crash = Some(Crash { at: CrashAt::End, mode: sc.g.mode() });
            }
            p.tasks = tasks;
            phases.push(p);
        }
        "C09" => {
            let id = sc.g.id();
            ids.push(id.clone());
            let across = sc.g.r.one_in(3);
            let n = if sc.g.r.one_in(5) { sc.g.r.range(4, 6) } else { sc.g.r.range(2, 3) };
            let mut v: Vec<Seg> = (0..n)
                .map(|_| {
                    let k = sc.ncols();
                    sc.g.seg(&id, k)
                })
                .collect();
            let last = v.len() - 1;
            let dup = sc.g.r.one_in(3);
            for (i, s) in v.iter_mut().enumerate() {
                if i > 0 && sc.g.r.one_in(3) {
                    s.pause = sc.g.wait(100_000);
                }
                if i < last && !dup && !across {
                    sc.cut(s);
                }
            }
            if across {
                family = "cut off by a crash".into();
                let later = v.split_off(1);
                let mut tasks = vec![Task::Segs(v)];
                if sc.g.r.one_in(3) {
                    tasks.extend(sc.many(1, 1, &mut ids));
                }
                let (e, a) = (est(&tasks), acks(&tasks));
                let mut p = sc.g.phase(tasks);
                sc.g.maybe_transient(&mut p);
                p.crash = Some(sc.g.crash(e, a));
                phases.push(p);
                let mut q = sc.g.phase(vec![Task::Segs(later)]);
                sc.g.maybe_transient(&mut q);
                q.crash = Some(Crash { at: CrashAt::End, mode: sc.g.mode() });
                phases.push(q);
            } else {
                family = if dup { "repeated".into() } else { "abandoned".into() };
                let mut tasks = vec![Task::Segs(v)];
                if sc.g.r.one_in(3) {
                    tasks.extend(sc.many(1, 1, &mut ids));
                }
                let e = est(&tasks);
                let mut p = sc.g.phase(tasks);
                sc.g.maybe_transient(&mut p);
                if dup {
                    sc.g.hard(&mut p, e);
                    p.rates.max_hard = 1;
                    p.capacity = None;
                    family = "failed".into();
                }
                if sc.g.r.one_in(2) {
                    p.crash = Some(Crash { at: CrashAt::End, mode: sc.g.mode() });
                }
                phases.push(p);
            }
        }
        "C10" => {
            let mut tasks = vec![];
            for _ in 0..1 + sc.g.r.below(2) {
                let mut s = sc.seg(&mut ids);
                let n = sc.g.r.range(1, 6);
                for _ in 0..n {
                    let mut c = sc.g.bin_col(40, 300);
                    sc.refused_or_odd(&mut c);
                    if sc.g.r.one_in(4) {
                        c.close = false;
                    }
                    if sc.g.r.one_in(4) {
                        c.encoding = sc.g.r.below(5) as i32;
                    }
                    s.cols.push(c);
                }
                if sc.g.r.one_in(20) {
                    // a metadata message of tens of kilobytes
                    let each = *sc.g.r.pick(&[600u64, 4000, 17_000]);
                    for k in 0..sc.g.r.range(2, 12) {
                        let mut c = sc.g.bin_col(4, 30);
                        c.name = format!("{k}{}", "n".repeat((each / 2 + sc.g.r.below(each)) as usize));
                        s.cols.push(c);
                    }
                }
                if sc.g.r.one_in(60) {
                    // more columns than a byte can count
                    for k in 0..sc.g.r.range(120, 300) {
                        let mut c = sc.g.bin_col(2, 10);
                        c.batches.truncate(1);
                        c.name = format!("many{k}");
                        c.index = None;
                        s.cols.push(c);
                    }
                }
                if sc.g.r.one_in(40) {
                    s.table = "t".repeat(sc.g.r.range(16_300, 70_000) as usize);
                }
                tasks.push(Task::Segs(vec![s]));
            }
            family = "metadata".into();
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            if sc.g.r.one_in(4) {
                p.crash = Some(Crash { at: CrashAt::End, mode: sc.g.mode() });
            }
            phases.push(p);
        }
        "C11" => {
            let path = format!("{DIR}/raw.blk");
            let raw = sc.g.raw(&path, false);
            let blocks = raw.ops.iter().filter(|o| matches!(o, RawOp::Write(_))).count() as u64;
            let total: u64 = raw.ops.iter().map(|o| if let RawOp::Write(n) = o { *n as u64 } else { 0 }).sum();
            let mut tasks = vec![Task::Raw(raw)];
            for _ in 0..1 + sc.g.r.below(3) {
                let mut ops = vec![];
                for _ in 0..1 + sc.g.r.small(5) {
                    if sc.g.r.one_in(2) {
                        ops.push(ROp::AwaitFlushed(sc.g.r.below(blocks + 1) as u32));
                    }
                    if ops.is_empty() || sc.g.r.one_in(2) {
                        ops.push(ROp::Open(path.clone()));
                    }
                    if blocks > 0 && sc.g.r.one_in(2) {
                        let k = 1 + sc.g.r.small(6);
                        let v = (0..k).map(|_| sc.g.r.below(blocks) as u32).collect();
                        ops.push(ROp::RawBlocks { blocks: v, batch: sc.g.r.one_in(2) });
                    } else {
                        let (a, b) = sc.range(total, 8);
                        ops.push(ROp::Block(a, b));
                    }
                    if sc.g.r.one_in(4) {
                        ops.push(ROp::Sleep(sc.g.wait(2000)));
                    }
                }
                tasks.push(Task::Read(Rd { ops }));
            }
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            family = "append and read".into();
            phases.push(p);
        }
        "C12" => {
            let mut tasks = vec![];
            let contended = sc.g.r.one_in(3);
            if contended {
                // short runs in which several threads are after the same file
                let l = 1 + sc.g.r.small(9000);
                sc.fixture(l);
                let plain = sc.g.r.one_in(2);
                for _ in 0..sc.g.r.range(2, 5) {
                    let k = 1 + sc.g.r.small(3);
                    if plain {
                        let mut ops = vec![ROp::Open(sc.fixtures[0].path.clone())];
                        for _ in 0..k.min(2) {
                            let (a, b) = sc.inside(l);
                            ops.push(ROp::Block(a, b));
                        }
                        tasks.push(Task::Read(Rd { ops }));
                    } else {
                        tasks.push(sc.reader(k, 8, true, true));
                    }
                }
                share_in = 1;
            } else if sc.g.r.one_in(2) {
                tasks.extend(sc.many(1, 2, &mut ids));
            }
            if !contended && sc.g.r.one_in(2) {
                tasks.extend(sc.pipes(1));
            }
            if !contended && sc.g.r.one_in(3) {
                let syncs = sc.g.r.one_in(2);
                let mut r = sc.g.raw(&format!("{DIR}/raw.blk"), syncs);
                sc.stubborn(&mut r);
                tasks.push(Task::Raw(r));
            }
            if tasks.is_empty() || !contended && sc.g.r.one_in(2) {
                // now and then a file of many MiB, its whole length asked for at once
                let large = sc.g.r.one_in(30);
                let l = if large { (1 << 20) + sc.g.r.small(40 << 20) } else { sc.some_len() };
                let f = sc.fixture(l);
                for _ in 0..if sc.g.r.one_in(2) { 1 } else { sc.g.r.range(2, 4) } {
                    tasks.push(sc.reader(5, 4, true, true));
                }
                if large {
                    let (a, n) = (sc.g.r.small(1000), 1 + sc.g.r.below(4));
                    let op = match sc.g.r.below(3) {
                        0 => ROp::Block(a, l),
                        1 => ROp::Join((0..n).map(|_| ROp::Block(a, l)).collect()),
                        _ => {
                            let wants = (0..n).map(|k| Want { start: a, end: l, tag: 2 + k as u32 }).collect();
                            ROp::Batch { wants, take: None, think: 0, between: vec![], drop_polls: 0, impatient: sc.g.r.one_in(3) }
                        },
                    };
                    tasks.push(Task::Read(Rd { ops: vec![ROp::Open(f.path.clone()), op] }));
                }
            }
            for t in tasks.iter_mut() {
                if let Task::Segs(v) = t {
                    if sc.g.r.one_in(4) {
                        sc.cut(&mut v[0]);
                    }
                }
            }
            let e = est(&tasks);
            let mut p = sc.g.phase(tasks);
            if sc.g.r.one_in(2) {
                p.blocking = 1;
            }
            sc.g.maybe_transient(&mut p);
            family = "healthy disk".into();
            if sc.g.r.one_in(2) {
                sc.g.hard(&mut p, e);
                p.rates.read_err = *sc.g.r.pick(&[0, 500, 5000]);
                family = "failing disk".into();
            }
            phases.push(p);
        }
        "C13" => {
            for _ in 0..1 + sc.g.r.below(2) {
                let l = sc.some_len();
                sc.fixture(l);
            }
            let mut tasks = vec![];
            for _ in 0..1 + sc.g.r.below(2) {
                let k = 2 + sc.g.r.small(8);
                tasks.push(sc.reader(k, 6, true, true));
            }
            if sc.g.r.one_in(2) {
                let mut t = sc.many(1, 2, &mut ids);
                if let Task::Segs(v) = &mut t[0] {
                    sc.cut(&mut v[0]);
                }
                tasks.extend(t);
            }
            let e = est(&tasks);
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            family = "cancellation".into();
            match sc.g.r.below(7) {
                0 => {
                    sc.g.hard(&mut p, e);
                    p.rates.read_err = *sc.g.r.pick(&[0, 500, 5000]);
                    family = "cancellation, failing disk".into();
                }
                1 | 2 => {
                    sc.read_faults(&mut p);
                    family = "cancellation, failing reads".into();
                }
                _ => {}
            }
            phases.push(p);
        }
        "C14" => {
            let mut tasks = vec![];
            for _ in 0..1 + sc.g.r.below(2) {
                let mut ops = vec![];
                for _ in 0..1 + sc.g.r.below(3) {
                    // a file of its own for every batch
                    let n = if sc.g.r.one_in(12) { sc.g.r.range(13, 300) } else { 1 + sc.g.r.small(12) };
                    let each = 1 + sc.g.r.small(6000.min(200_000 / n));
                    let f = sc.fixture(n * each);
                    ops.push(ROp::Open(f.path));
                    let wants: Vec<Want> = (0..n)
                        .map(|k| Want { start: k * each, end: (k + 1) * each, tag: 2 + k as u32 })
                        .collect();
                    ops.push(match sc.g.r.below(5) {
                        0 => ROp::UnpolledBatch { wants },
                        _ => {
                            let take = if sc.g.r.one_in(4) { Some(sc.g.r.below(n + 1) as u32) } else { None };
                            let think = if sc.g.r.one_in(3) { 0 } else { 1 + sc.g.wait(500_000) };
                            ROp::Batch { wants, take, think, between: vec![], drop_polls: 0, impatient: sc.g.r.one_in(6) }
                        }
                    });
                }
                tasks.push(Task::Read(Rd { ops }));
            }
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            if sc.g.r.one_in(5) {
                sc.read_faults(&mut p);
            }
            family = "slow consumers".into();
            phases.push(p);
        }
        "C15" => {
            let n = 1 + sc.g.r.below(2);
            let mut tasks = vec![];
            for k in 0..n {
                let mut r = sc.g.raw(&format!("{DIR}/raw{k}.blk"), true);
                sc.stubborn(&mut r);
                tasks.push(Task::Raw(r));
            }
            let (e, a) = (est(&tasks), acks(&tasks));
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            family = "crash".into();
            if sc.g.r.one_in(2) {
                sc.g.hard(&mut p, e);
                p.rates.dirs = false;
                family = "failing disk".into();
            }
            p.crash = Some(sc.g.crash(e, a));
            phases.push(p);
        }
        "C20" => {
            let mut tasks = sc.many(1, 2, &mut ids);
            family = "indexed columns".into();
            let failing = sc.g.r.one_in(3);
            for t in tasks.iter_mut() {
                let Task::Segs(v) = t else { continue };
                for s in v.iter_mut() {
                    if s.cols.is_empty() {
                        s.cols.push(sc.g.bin_col(40, 300));
                    }
                    for c in s.cols.iter_mut() {
                        c.index = if sc.g.r.one_in(3) { None } else { Some(sc.g.index()) };
                        if let (Some(i), true) = (&mut c.index, sc.g.r.one_in(60)) {
                            i.parts.push((2 << 20) + sc.g.r.small(3 << 20) as u32);
                        }
                        if let (Some(i), true) = (&mut c.index, failing && sc.g.r.one_in(2)) {
                            match sc.g.r.below(2) {
                                0 => i.fail_at = Some(sc.g.r.below(c.batches.len() as u64 + 1) as u32),
                                _ => i.fail_flush = Some(sc.g.r.below(i.parts.len() as u64 + 1) as u32),
                            }
                            if s.carry == Carry::Stop && sc.g.r.one_in(2) {
                                s.carry = Carry::SkipColumn;
                            }
                            family = "failing indexes".into();
                        }
                    }
                }
            }
            let e = est(&tasks);
            let mut p = sc.g.phase(tasks);
            sc.g.maybe_transient(&mut p);
            if sc.g.r.one_in(4) {
                sc.g.hard(&mut p, e);
                family.push_str(", failing disk");
            }
            if sc.g.r.one_in(3) {
                p.crash = Some(Crash { at: CrashAt::End, mode: sc.g.mode() });
            }
            phases.push(p);
        }
        "C21" => {
            let mut tasks = vec![];
            let many = 40 + sc.g.r.below(160);
            let run = |n: u32, len: u32| Run { n, null: false, len, holes: false };
            let again = sc.g.r.one_in(5);
            if again {
                family = "the same over and over".into();
                match sc.g.r.below(3) {
                    0 => {
                        let mut s = sc.seg(&mut ids);
                        let n = sc.g.r.below(3);
                        s.cols = (0..n).map(|_| sc.g.bin_col(40, 300)).collect();
                        s.again = 200 + sc.g.r.below(300) as u32;
                        if sc.g.r.one_in(3) {
                            sc.cut(&mut s);
                        }
                        tasks.push(Task::Segs(vec![s]));
                    }
                    1 => {
                        let mut r = sc.g.raw(&format!("{DIR}/raw.blk"), true);
                        let len = sc.g.r.small(1000) as u32;
                        let (n, sync) = (3000 + sc.g.r.below(3000) as u32, 1 + sc.g.r.small(100) as u32);
                        r.ops = vec![RawOp::Again { len, n, sync }, RawOp::Sync];
                        tasks.push(Task::Raw(r));
                    }
                    _ => {
                        let f = sc.fixture(1 << 20);
                        let n = sc.g.r.small(1000);
                        let start = sc.g.r.below((1 << 20) - n);
                        let what = *sc.g.r.pick(&[Again::Block, Again::Block, Again::Batch, Again::Open, Again::GivenUp, Again::Refused]);
                        let n = 2000 + sc.g.r.below(4000) as u32;
                        let ops = vec![ROp::Open(f.path.clone()), ROp::Again { start, end: start + n.min(1000) as u64, n, what }];
                        tasks.push(Task::Read(Rd { ops }));
                    }
                }
            }
            for k in 0..if again { 0 } else { 1 + sc.g.r.below(2) } {
                match sc.g.r.below(5) {
                    0 => {
                        // one large segment
                        family = "large segments".into();
                        let mut s = sc.seg(&mut ids);
                        let n = sc.g.r.range(1, 2);
                        s.cols = (0..n).map(|_| sc.g.bin_col(40, 300)).collect();
                        for (j, c) in s.cols.iter_mut().enumerate() {
                            c.name = format!("c{j}");
                            c.close = true;
                            let len = 2_000 + sc.g.r.small(60_000) as u32;
                            let n = 1 + sc.g.r.below(200_000 / len as u64) as u32;
                            c.batches = vec![vec![run(n, len)]; 24_000_000 / (n * len) as usize];
                        }
                        tasks.push(Task::Segs(vec![s]));
                    }
                    1 => {
                        // many small ones, most of them given up
                        family = "many segments".into();
                        let mut v = vec![];
                        for _ in 0..many {
                            let mut s = sc.seg(&mut ids);
                            let mut c = sc.g.bin_col(10, 300);
                            c.encoding = 0;
                            c.batches = vec![vec![run(1, 60_000 + sc.g.r.below(30_000) as u32)]; 1 + sc.g.r.below(3) as usize];
                            if sc.g.r.one_in(2) {
                                c.batches.push(vec![run(100, 1)]);
                            }
                            s.cols = vec![c];
                            if sc.g.r.one_in(3) {
                                sc.cut(&mut s);
                            }
                            v.push(s);
                        }
                        tasks.push(Task::Segs(v));
                    }
                    2 => {
                        family = "block files".into();
                        let mut r = sc.g.raw(&format!("{DIR}/raw{k}.blk"), true);
                        let n = 6_000 + sc.g.r.below(100_000) as u32;
                        r.ops = vec![RawOp::Write(n); 24_000_000 / n as usize];
                        for _ in 0..4 {
                            let at = sc.g.r.below(r.ops.len() as u64) as usize;
                            r.ops.insert(at, if sc.g.r.one_in(2) { RawOp::Sync } else { RawOp::Flush });
                        }
                        r.carry = sc.g.r.one_in(2);
                        tasks.push(Task::Raw(r));
                    }
                    x => {
                        family = "reads".into();
                        let f = sc.fixture(1 << 28);
                        let n = 1 << sc.g.r.range(13, 17);
                        let at = |sc: &mut Sc| sc.g.r.below((1 << 28) - n);
                        let mut ops = vec![ROp::Open(f.path.clone())];
                        if x == 3 {
                            let wants = (0..24_000_000 / n).map(|k| Want { start: k * n, end: (k + 1) * n, tag: 2 + k as u32 }).collect();
                            let think = if sc.g.r.one_in(2) { 1 + sc.g.wait(20_000) } else { 0 };
                            ops.push(ROp::Batch { wants, take: None, think, between: vec![], drop_polls: 0, impatient: false });
                        } else {
                            for _ in 0..many {
                                let a = at(&mut sc);
                                ops.push(match sc.g.r.below(5) {
                                    0 => ROp::Block(a, a + n),
                                    1 | 2 => ROp::CancelBlock(a, a + n, sc.g.r.small(4) as u32),
                                    3 => ROp::Open(f.path.clone()),
                                    _ => {
                                        let wants = (0..6).map(|k| Want { start: k * n, end: (k + 1) * n, tag: 2 + k as u32 }).collect();
                                        let take = Some(sc.g.r.below(4) as u32);
                                        ROp::Batch { wants, take, think: 0, between: vec![], drop_polls: sc.g.r.small(4) as u32, impatient: false }
                                    }
                                });
                            }
                        }
                        tasks.push(Task::Read(Rd { ops }));
                    }
                }
            }
            let e = est(&tasks);
            let mut p = sc.g.phase(tasks);
            if sc.g.r.one_in(2) {
                sc.g.transient(&mut p);
                p.rates.short_write = p.rates.short_write.min(300);
                p.rates.short_read = p.rates.short_read.min(300);
                if again {
                    p.rates.clock_jump = 0;
                }
            }
            if !again && sc.g.r.one_in(3) {
                sc.g.hard(&mut p, e);
                p.capacity = None;
                family.push_str(", failing disk");
            }
            phases.push(p);
        }
        _ => panic!("unknown property {prop}"),
    }
    if matches!(prop, "C05" | "C06" | "C11" | "C12" | "C13") && sc.g.r.one_in(share_in) {
        // clients that share their readers
        for t in phases.iter_mut().flat_map(|p| p.tasks.iter_mut()) {
            let Task::Read(r) = t else { continue };
            for op in r.ops.iter_mut() {
                let ops = match op {
                    ROp::Join(v) => v.iter_mut().collect(),
                    op => vec![op],
                };
                for op in ops {
                    if let (ROp::Open(path), true) = (&*op, !sc.g.r.one_in(4)) {
                        *op = ROp::OpenShared(path.clone());
                    }
                }
            }
        }
        for p in phases.iter_mut() {
            if p.tasks.len() > 1 && sc.g.r.one_in(2) {
                if p.rt == Rt::Local {
                    p.rt = Rt::Threads;
                }
                preempt_in = share_in.min(2);
            }
        }
    }
    if !compare && matches!(prop, "C01" | "C03" | "C05" | "C06" | "C11" | "C12" | "C13" | "C15" | "C20") {
        for p in phases.iter_mut() {
            if matches!(p.rt, Rt::Shared(_)) && sc.g.r.one_in(10) {
                p.shutdown = Some((sc.g.r.small(60_000), sc.g.r.below(3) as u8));
            }
        }
    }
    for p in phases.iter_mut() {
        if p.tasks.iter().any(has_huge_values) {
            p.rates.short_write = p.rates.short_write.min(300);
            p.rates.short_read = p.rates.short_read.min(300);
        }
    }
    for (k, p) in phases.iter_mut().enumerate() {
        let many = p.rt != Rt::Local && p.tasks.len() > 1;
        if !(compare && k == 0) && sc.g.r.one_in(if many { preempt_in } else { 16 }) {
            p.preempt = *sc.g.r.pick(if share_in == 1 { &[4, 8, 15, 30, 60] } else { &[5, 15, 50, 300, 3000] });
        }
    }
    let sink = sink || prop == "C21";
    Plan { prop: prop.into(), seed, strict_dirs, fixtures: sc.fixtures, phases, compare, sink, family }
}
