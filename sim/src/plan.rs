//! What a simulated run does: generated from a seed, or read from a replay file.
use crate::rng::Rng;
use crate::sim::{Crash, CrashAt, Mode, Op, Policy, Rates};
use serde::{Deserialize, Serialize};

pub const DIR: &str = "/simdisk/db";
/// a second segment directory
pub const DIR2: &str = "/simdisk/db/shard 2.idx";

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rt {
    /// one current-thread runtime runs all clients
    Local,
    /// every client has its own thread and runtime
    Threads,
    /// every client has its own thread, all share a multi-threaded runtime and its blocking pool
    Shared(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Binary,
    I32,
    I64,
    U64,
    F64,
}

/// n rows in a row: nulls, or values (of `len` bytes each for binary columns)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Run {
    pub n: u32,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub null: bool,
    #[serde(default, skip_serializing_if = "is0")]
    pub len: u32,
    /// about every third row, chosen irregularly, is null
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub holes: bool,
}
impl Run {
    pub fn is_null(&self, uid: u64, row: u64) -> bool {
        self.null || (self.holes && crate::rng::mix(uid ^ crate::rng::mix(row ^ 0x5eed)) % 3 == 0)
    }
}
fn is0(x: &u32) -> bool {
    *x == 0
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bufs {
    /// a new buffer for every batch
    Fresh,
    /// one buffer per column, cleared between batches
    Reuse,
    /// one buffer for all columns of the client, cleared between batches
    Pool,
}

/// an index of the column's values, as the store's user would plug it in
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Idx {
    /// the blocks it writes when it is flushed
    pub parts: Vec<u32>,
    /// indexing this batch fails
    pub fail_at: Option<u32>,
    /// flushing it fails after so many blocks
    pub fail_flush: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    /// declared column type, encoding and index kind (numbers of the protobuf enums)
    pub column_type: i32,
    pub encoding: i32,
    pub index_type: i32,
    pub nullable: bool,
    pub batches: Vec<Vec<Run>>,
    pub bufs: Bufs,
    /// the column writer is closed (otherwise dropped after its batches)
    pub close: bool,
    /// it is closed a second time
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub twice: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub index: Option<Idx>,
    /// identifies the column's values
    pub uid: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SegEnd {
    Sync,
    CloseOnly,
    /// drop everything after this many operations
    Drop(u32),
    /// drop the given operation's future after it has been polled this often
    Cancel(u32, u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Seg {
    pub dir: String,
    pub id: String,
    pub db: String,
    pub table: String,
    pub shard: u32,
    pub num_rows: u32,
    pub cols: Vec<Col>,
    pub end: SegEnd,
    /// pause before this attempt, virtual microseconds
    #[serde(default)]
    pub pause: u64,
    /// what the client does after an error or a given-up operation
    #[serde(default, skip_serializing_if = "is_stop")]
    pub carry: Carry,
    /// the whole attempt is made this often before the one that counts, to see whether memory grows
    #[serde(default, skip_serializing_if = "is_zero")]
    pub again: u32,
}
fn is_stop(c: &Carry) -> bool {
    *c == Carry::Stop
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Carry {
    /// this attempt is over
    #[default]
    Stop,
    /// give up the column and go on with the next one
    SkipColumn,
    /// go on with the next operation
    Ignore,
    /// make the same call again, up to twice, then go on with the next operation
    Retry,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pipe {
    pub path: String,
    pub block_size: u32,
    pub cols: Vec<Col>,
    pub end: SegEnd,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Again {
    Block,
    Batch,
    Open,
    GivenUp,
    Refused,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RawOp {
    Write(u32),
    Flush,
    Sync,
    Sleep(u64),
    /// a write, flush or sync whose future is dropped after so many polls
    GiveUpWrite(u32, u32),
    GiveUpFlush(u32),
    GiveUpSync(u32),
    /// so many blocks of this length, synced after every so many: memory must not grow
    Again { len: u32, n: u32, sync: u32 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Raw {
    pub path: String,
    pub uid: u64,
    pub ops: Vec<RawOp>,
    /// errors do not stop the client
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub carry: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Want {
    pub start: u64,
    pub end: u64,
    /// 0 generic, 1 index, otherwise a data block with first row id tag-2
    pub tag: u32,
}
fn is_zero(x: &u32) -> bool {
    *x == 0
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ROp {
    /// open (again); the previous reader is dropped
    Open(String),
    /// the reader that all clients share for this file, opened by the first one
    OpenShared(String),
    /// a clone of the current reader replaces it
    CloneReader,
    DropReader,
    Block(u64, u64),
    /// opening a reader, given up after so many polls
    CancelOpen(String, u32),
    /// somebody else cuts a test file short
    Shorten(String, u64),
    /// another file takes the place of a test file: (path, uid, length, written in place with the code under test)
    Replace(String, u64, u64, bool),
    /// a test file is deleted
    Remove(String),
    /// a block read whose future is dropped after so many polls
    CancelBlock(u64, u64, u32),
    /// the same read over and over: memory must not grow
    Again { start: u64, end: u64, n: u32, what: Again },
    /// read the batch; stop after `take` results; think before taking results
    Batch {
        wants: Vec<Want>,
        take: Option<u32>,
        think: u64,
        /// what the consumer does, on the same task, after so many results
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        between: Vec<(u32, ROp)>,
        /// after `take` results, ask for one more and give up after so many polls
        #[serde(default, skip_serializing_if = "is_zero")]
        drop_polls: u32,
        /// every request for a result is given up after one poll and made again
        #[serde(default, skip_serializing_if = "std::ops::Not::not")]
        impatient: bool,
    },
    /// create the stream and drop it without polling
    UnpolledBatch { wants: Vec<Want> },
    /// all at once, on one task
    Join(Vec<ROp>),
    /// wait until so many blocks of the raw file have been flushed (or its writer is gone)
    AwaitFlushed(u32),
    /// read these blocks (by number) of a raw file in progress
    RawBlocks { blocks: Vec<u32>, batch: bool },
    Sleep(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rd {
    pub ops: Vec<ROp>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Task {
    /// attempts at writing segments, one after the other
    Segs(Vec<Seg>),
    Pipe(Pipe),
    Raw(Raw),
    Read(Rd),
}

/// fixtures longer than this exist only as a rule that computes their bytes
/// seeds with this bit stand for the few runs that write more than 4 GiB
pub const SINK_SEED: u64 = 1 << 52;
pub const HUGE: u64 = 1 << 26;
/// Files from this length on have a hole of more than 8 GiB, so that reads of gigabytes can be tried.
pub const GIANT: u64 = 1 << 42;
pub const HOLE: (u64, u64) = (5 << 32, (7 << 32) + 12_345);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fixture {
    pub path: String,
    pub len: u64,
    pub uid: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PhasePlan {
    pub rt: Rt,
    pub blocking: u32,
    pub policy: Policy,
    pub rates: Rates,
    pub crash: Option<Crash>,
    pub tasks: Vec<Task>,
    #[serde(default)]
    pub fresh_disk: bool,
    pub capacity: Option<u64>,
    /// the runtime that the clients share is shut down after this many microseconds, in this way
    #[serde(default)]
    pub shutdown: Option<(u64, u8)>,
    /// mean distance of preemptions inside the store's code, in basic blocks, loads and stores
    #[serde(default)]
    pub preempt: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub strict_dirs: bool,
    pub fixtures: Vec<Fixture>,
    pub phases: Vec<PhasePlan>,
    /// compare phase 1 with phase 0 (each on a fresh disk)
    #[serde(default)]
    pub compare: bool,
    /// more bytes are written than memory holds: the disk keeps only the ends of the files
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub sink: bool,
    /// a short name of the scenario's family, for the statistics
    pub family: String,
}

// ------------------------------------------------------------------------------------------
pub struct G {
    pub r: Rng,
    names: u32,
    /// now and then a column with very many rows or very long values
    pub big: bool,
    /// there is a column with a million nulls already: the model of one takes a hundred megabytes
    sparse: bool,
}

pub const STRING: i32 = 8;
pub const RAW: i32 = 0;
pub const SNAPPY: i32 = 4;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl G {
    pub fn new(seed: u64) -> Self {
        G { r: Rng::stream(seed, "plan"), names: 0, big: false, sparse: false }
    }

    pub fn id(&mut self) -> String {
        let mut b = [0u8; 16];
        for x in b.iter_mut() {
            *x = self.r.next() as u8;
        }
        match self.r.below(6) {
            0 => b = [0xff; 16], // encodes to characters outside [A-Za-z0-9]
            1 => b = [0xfb; 16],
            2 => b = [0; 16],
            _ => {}
        }
        let k = self.r.below(16) as usize;
        b[k] ^= self.r.next() as u8;
        hex(&b)
    }
    /// ids that are hard to tell apart: one bit, one byte or upper/lower case of the encoding apart
    pub fn near_id(&mut self, id: &str) -> String {
        let mut b = unhex(id);
        let k = if self.r.one_in(3) { *self.r.pick(&[0usize, 7, 8, 15]) } else { self.r.below(16) as usize };
        b[k] ^= 1 << self.r.below(8);
        hex(&b)
    }

    fn name(&mut self) -> String {
        self.names += 1;
        let n = self.names;
        match self.r.below(12) {
            0 => format!("c{n} with spaces / ü漢字"),
            1 => format!("{}{n}", "x".repeat(300)),
            2 if n == 1 => String::new(),
            // almost the name of the column before
            3 if n > 1 => {
                let m = n - 1;
                match self.r.below(10) {
                    0 => format!("c{m} "),
                    1 => format!(" c{m}"),
                    2 => format!("c{m}\n"),
                    3 => format!("\u{feff}c{m}"),
                    4 => format!("C{m}"),
                    5 => format!("c{m}\0"),
                    6 => format!("c{m}."),
                    7 => format!("./c{m}"),
                    8 => format!("c0{m}"),
                    _ => format!("\u{ff43}{m}"),
                }
            }
            // the same to the eye: composed and decomposed
            4 => format!("{}{}", if n % 2 == 0 { "e\u{301}" } else { "\u{e9}" }, n / 2),
            5 => format!("{}c{n}", "\t\r\n \u{a0}\u{200b}\"'\\/".repeat(self.r.below(2) as usize)),
            _ => format!("c{n}"),
        }
    }

    /// batches of one column within a budget of rows and bytes
    pub fn batches(&mut self, ty: Ty, nullable: bool, block: u32, max_rows: u64, max_bytes: u64) -> Vec<Vec<Run>> {
        let r = &mut self.r;
        let nb = match r.below(10) {
            0 => 0,
            1..=3 => 1,
            _ => 1 + r.small(7),
        };
        let w = match ty {
            Ty::Binary => 1,
            Ty::I32 => 4,
            _ => 8,
        };
        // how long this column's values tend to be
        let lens = r.below(7);
        let mut rows = 0u64;
        let mut bytes = 0u64;
        let mut out = vec![];
        for _ in 0..nb {
            let mut batch = vec![];
            let nr = match r.below(8) {
                0 => 0,
                1..=3 => 1,
                _ => 1 + r.small(6),
            };
            let all_null = nullable && r.one_in(8);
            for k in 0..nr {
                let null = nullable && (all_null || r.one_in(3) || (k + 1 == nr && r.one_in(3)));
                let left = max_rows.saturating_sub(rows);
                if left == 0 {
                    break;
                }
                let len = match ty {
                    Ty::Binary => {
                        let l = match (lens, r.below(8)) {
                            (0, _) => 0,
                            (1, 0..=5) => r.below(3),
                            (2, 0..=5) => 1,
                            (3, _) => (block as u64 / r.range(1, 4)).saturating_add(r.below(3)).saturating_sub(1),
                            (4, 0) => r.range(16_000, 17_000),
                            (4, _) => block as u64 * r.range(1, 3) + r.below(2),
                            (5, 0) => r.small(70_000),
                            (_, 0) => r.small(3000),
                            _ => r.below(24),
                        };
                        l.min(max_bytes.saturating_sub(bytes))
                    }
                    _ => w,
                };
                let per_block = (block as u64 / len.max(1)).max(1);
                let n = match r.below(10) {
                    0..=3 => 1 + r.below(4),
                    4 => per_block,
                    5 => per_block * r.range(1, 3) + r.below(2),
                    6 => *r.pick(&[7, 8, 9, 24, 64, 127, 128, 129, 255, 256, 257]),
                    7 if null => 1 + r.small(10_000),
                    8 => 1 + r.small(2000),
                    _ => 1 + r.small(64),
                };
                let mut n = n.min(left).max(1);
                if len > 0 && !null {
                    n = n.min(max_bytes.saturating_sub(bytes) / len);
                    if n == 0 {
                        continue;
                    }
                    bytes += n * len;
                }
                rows += n;
                let len = if ty == Ty::Binary && !null { len as u32 } else { 0 };
                let holes = nullable && !null && r.one_in(4);
                batch.push(Run { n: n as u32, null, len, holes });
            }
            out.push(batch);
        }
        out
    }

    /// batches that cross the limits small ones never reach: 2^16 rows, values of more than 2^16
    /// bytes, validity of more than 2^13 bytes
    pub fn big_batches(&mut self, ty: Ty, nullable: bool) -> Vec<Vec<Run>> {
        let r = &mut self.r;
        let mut out = vec![];
        let mut batch = vec![];
        for _ in 0..1 + r.below(3) {
            let null = nullable && r.one_in(2);
            let holes = nullable && !null && r.one_in(2);
            let long = ty == Ty::Binary && !null && r.one_in(3);
            let n = if long {
                1 + r.below(2)
            } else {
                *r.pick(&[65_535, 65_536, 65_537, 70_000, 131_072, 8191, 8192, 8193, 16_384]) + r.below(2) * r.small(300)
            };
            let n = if ty != Ty::Binary && !null && r.one_in(12) { 262_140 + r.below(10) } else { n };
            // a sparse column: runs of nulls longer than 2^15 and 2^16 bytes of validity
            let n = if null && r.one_in(4) && !std::mem::replace(&mut self.sparse, true) { *r.pick(&[262_136, 262_144, 262_152, 524_280, 524_288, 524_296, 1_048_577]) + r.below(9) } else { n };
            let len = if long {
                match r.below(40) {
                    0 => (1 << 24) - 2 + r.below(5) as u32,
                    1..=4 => (1 << 21) - 2 + r.below(5) as u32,
                    _ => *r.pick(&[65_535, 65_536, 65_537, 70_000, 131_071, 131_073]) as u32,
                }
            } else {
                r.below(2) as u32 * r.below(2) as u32
            };
            let len = if ty == Ty::Binary && !null { len } else { 0 };
            batch.push(Run { n: n as u32, null, len, holes });
            if r.one_in(2) {
                batch.push(Run { n: 1 + r.below(9) as u32, null: false, len: if ty == Ty::Binary { r.below(40) as u32 } else { 0 }, holes: false });
            }
            if r.one_in(2) {
                out.push(std::mem::take(&mut batch));
            }
        }
        if !batch.is_empty() {
            out.push(batch);
        }
        out
    }

    fn bufs(&mut self) -> Bufs {
        *self.r.pick(&[Bufs::Fresh, Bufs::Reuse, Bufs::Reuse, Bufs::Pool])
    }

    pub fn index(&mut self) -> Idx {
        let r = &mut self.r;
        let n = r.below(2) * r.small(6);
        let parts = (0..n)
            .map(|_| match r.below(8) {
                0 => 0,
                1 => *r.pick(&[16_383, 16_384, 16_385, 40_000]),
                _ => 1 + r.small(700) as u32,
            })
            .collect();
        Idx { parts, fail_at: None, fail_flush: None }
    }

    pub fn bin_col(&mut self, max_rows: u64, max_bytes: u64) -> Col {
        let nullable = self.r.one_in(2);
        let batches = self.batches(Ty::Binary, nullable, 128, max_rows, max_bytes);
        Col {
            name: self.name(),
            ty: Ty::Binary,
            column_type: STRING,
            encoding: RAW,
            index_type: 0,
            nullable,
            batches,
            bufs: self.bufs(),
            close: true,
            twice: self.r.one_in(12),
            index: if self.r.one_in(10) { Some(self.index()) } else { None },
            uid: self.r.next(),
        }
    }

    /// budget of rows and bytes: mostly small runs, a few larger
    fn budget(&mut self) -> (u64, u64) {
        match self.r.below(20) {
            0 => (20_000, 60_000),
            1..=4 => (3000, 20_000),
            5..=10 => (600, 4000),
            _ => (200, 1200),
        }
    }

    fn carry(&mut self) -> Carry {
        match self.r.below(6) {
            0 => Carry::SkipColumn,
            1 => Carry::Ignore,
            2 => Carry::Retry,
            _ => Carry::Stop,
        }
    }

    pub fn seg(&mut self, id: &str, ncols: u64) -> Seg {
        let (rows, bytes) = self.budget();
        let k = ncols.max(1);
        let mut cols: Vec<Col> = (0..ncols).map(|_| self.bin_col(rows / k + 1, bytes / k + 1)).collect();
        if ncols > 0 && self.big && self.r.one_in(60) {
            let c = self.r.below(ncols) as usize;
            cols[c].batches = self.big_batches(Ty::Binary, cols[c].nullable);
            // many one-byte strings make many blocks
            for r in cols[c].batches.iter_mut().flatten().filter(|r| r.len == 1) {
                r.len = 0;
            }
        }
        // now and then a column is abandoned and another one follows it
        if ncols > 1 && self.r.one_in(8) {
            let c = self.r.below(ncols - 1) as usize;
            cols[c].close = false;
        }
        // two columns of one name
        if ncols > 1 && self.r.one_in(12) {
            let c = self.r.below(ncols - 1) as usize;
            cols[c + 1].name = cols[c].name.clone();
        }
        Seg {
            dir: DIR.into(),
            id: id.into(),
            db: if self.r.one_in(5) { String::new() } else { format!("db{}", self.r.below(10)) },
            table: if self.r.one_in(5) { "täble / 1".into() } else { format!("t{}", self.r.below(10)) },
            shard: self.r.small(u32::MAX as u64) as u32,
            num_rows: self.r.small(u32::MAX as u64) as u32,
            cols,
            end: SegEnd::Sync,
            pause: 0,
            carry: self.carry(),
            again: 0,
        }
    }

    pub fn pipe(&mut self, path: &str) -> Pipe {
        let (rows, bytes) = self.budget();
        let block_size = match self.r.below(8) {
            0 => 1 + self.r.below(9),
            1 => *self.r.pick(&[12, 13, 16, 17, 33, 100, 127, 129]),
            2 | 3 => 128,
            4 => 1 << self.r.range(3, 12),
            5 => *self.r.pick(&[4096, 16_384, 20_000, 131_072]),
            _ => 1 + self.r.small(3000),
        } as u32;
        let mut n = 1 + self.r.below(3);
        let big = self.big && self.r.one_in(40);
        let mut block_size = block_size;
        if big {
            n = 1;
            block_size = *self.r.pick(&[16_384, 65_536, 131_072, 1 << 20, (1 << 21) + 8]);
        }
        let cols = (0..n)
            .map(|_| {
                let ty = *self.r.pick(&[Ty::Binary, Ty::Binary, Ty::I32, Ty::I64, Ty::U64, Ty::F64]);
                let nullable = self.r.one_in(2);
                // tiny blocks make many disk requests
                let max = if block_size < 64 { bytes.min(block_size as u64 * 150) } else { bytes };
                Col {
                    name: self.name(),
                    ty,
                    column_type: STRING,
                    encoding: RAW,
                    index_type: 0,
                    nullable,
                    batches: if big {
                        self.big_batches(ty, nullable)
                    } else {
                        self.batches(ty, nullable, block_size, rows / n + 1, max / n + 8)
                    },
                    bufs: self.bufs(),
                    close: true,
                    twice: false,
                    index: None,
                    uid: self.r.next(),
                }
            })
            .collect();
        Pipe { path: path.into(), block_size, cols, end: SegEnd::Sync }
    }

    /// a column of more blocks than 16 bits can count
    pub fn many_blocks(&mut self, path: &str) -> Pipe {
        let n = *self.r.pick(&[4097, 16_385, 16_390, 33_000, 65_534, 65_535, 65_536, 65_537, 66_000]) + self.r.below(2) * self.r.small(300);
        let nullable = self.r.one_in(3);
        let run = |n: u64| Run { n: n as u32, null: false, len: 0, holes: false };
        let cut = self.r.below(n);
        let batches = if cut == 0 { vec![vec![run(n)]] } else { vec![vec![run(cut)], vec![run(n - cut)]] };
        let col = Col {
            name: self.name(),
            ty: *self.r.pick(&[Ty::I32, Ty::I64]),
            column_type: STRING,
            encoding: RAW,
            index_type: 0,
            nullable,
            batches,
            bufs: self.bufs(),
            close: true,
            twice: false,
            index: None,
            uid: self.r.next(),
        };
        Pipe { path: path.into(), block_size: 1 + self.r.below(4) as u32, cols: vec![col], end: SegEnd::Sync }
    }

    /// a pause of a client: mostly up to `max` microseconds, now and then minutes
    pub fn wait(&mut self, max: u64) -> u64 {
        if self.r.one_in(12) {
            self.r.small(200_000_000)
        } else {
            self.r.small(max)
        }
    }

    pub fn raw(&mut self, path: &str, syncs: bool) -> Raw {
        let n = 1 + self.r.small(24);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(match self.r.below(10) {
                0 => RawOp::Flush,
                1 if syncs => RawOp::Sync,
                2 if self.r.one_in(3) => RawOp::Sleep(self.wait(50_000)),
                3 if self.r.one_in(3) => RawOp::Write(0),
                4 => RawOp::Write(*self.r.pick(&[16_383, 16_384, 16_385, 32_768, 40_000])),
                _ => RawOp::Write(1 + self.r.small(3000) as u32),
            });
        }
        if syncs {
            ops.push(RawOp::Sync);
            if self.r.one_in(3) {
                for _ in 0..self.r.small(4) {
                    ops.push(RawOp::Write(1 + self.r.small(20_000) as u32));
                }
            }
        } else {
            ops.push(RawOp::Flush);
        }
        Raw { path: path.into(), uid: self.r.next(), ops, carry: false }
    }

    pub fn phase(&mut self, tasks: Vec<Task>) -> PhasePlan {
        let rt = match self.r.below(4) {
            0 | 1 => Rt::Local,
            2 => Rt::Threads,
            _ => Rt::Shared(1 + self.r.below(3) as u32),
        };
        let policy = match self.r.below(8) {
            0 => Policy::Serial,
            1 | 2 => Policy::Random,
            3 | 4 => Policy::Sticky(*self.r.pick(&[5000, 8000, 9500])),
            _ => Policy::Pct(self.r.below(6) as u32),
        };
        let blocking = match self.r.below(4) {
            0 => 1,
            1 => 2,
            _ => 1 + self.r.below(8) as u32,
        };
        let mut rates = Rates::default();
        if self.r.one_in(2) {
            rates.spurious_wake = *self.r.pick(&[0, 50, 300]);
            rates.clock_jump = *self.r.pick(&[0, 0, 20, 200]);
        }
        PhasePlan { rt, blocking, policy, rates, crash: None, tasks, fresh_disk: false, capacity: None, shutdown: None, preempt: 0 }
    }

    /// conditions every disk may show at any time
    pub fn transient(&mut self, p: &mut PhasePlan) {
        p.rates.short_write = *self.r.pick(&[0, 300, 2000, 6000]);
        p.rates.short_read = *self.r.pick(&[0, 300, 2000, 6000]);
        p.rates.eintr = *self.r.pick(&[0, 200, 2000]);
        p.rates.delay = *self.r.pick(&[0, 100, 1500, 5000]);
    }
    pub fn maybe_transient(&mut self, p: &mut PhasePlan) {
        if self.r.one_in(2) {
            self.transient(p);
        }
    }

    /// failing disk requests
    pub fn hard(&mut self, p: &mut PhasePlan, est: u64) {
        p.rates.dirs = self.r.one_in(2);
        p.rates.max_hard = match self.r.below(3) {
            0 => 1,
            1 => 1 + self.r.below(3) as u32,
            _ => 1000,
        };
        p.rates.sticky = self.r.one_in(3);
        if self.r.one_in(2) {
            // exactly these requests
            for _ in 0..1 + self.r.below(2) {
                let op = *self.r.pick(&[Op::Write, Op::Write, Op::Write, Op::Fsync, Op::Fsync, Op::Open, Op::Stat]);
                let k = match op {
                    Op::Write => self.r.below(est.max(1)),
                    Op::Fsync => self.r.below(5),
                    _ => self.r.below(6),
                };
                p.rates.nth.push((op, k as u32));
            }
        } else {
            let lvl = [0, 0, 100, 1000, 5000];
            p.rates.write_err = *self.r.pick(&[0, 20, 100, 1000]);
            p.rates.fsync_err = *self.r.pick(&lvl);
            p.rates.open_err = *self.r.pick(&lvl);
            p.rates.stat_err = *self.r.pick(&[0, 0, 1000]);
        }
        if self.r.one_in(4) {
            p.capacity = Some(self.r.below(est * 200 + 100));
        }
    }

    pub fn crash(&mut self, est: u64, acks: u64) -> Crash {
        let at = match self.r.below(6) {
            0 | 1 => CrashAt::Ack(self.r.below(acks.max(1))),
            2 => CrashAt::End,
            3 => CrashAt::After(self.r.below(est * 3 / 2 + 2)),
            _ => CrashAt::Before(self.r.below(est * 3 / 2 + 2)),
        };
        Crash { at, mode: self.mode() }
    }
    pub fn mode(&mut self) -> Mode {
        *self.r.pick(&[Mode::Kill, Mode::PowerStrict, Mode::PowerStrict, Mode::PowerRandom, Mode::PowerRandom, Mode::PowerDirs])
    }
}

/// What the clients of a phase may make the code hold at once: a generous multiple of the largest batch, block or
/// requested range of each of them, the block index of a column, and our own notes.
pub fn mem_bound(p: &PhasePlan) -> u64 {
    fn seg(s: &Seg) -> (u64, u64) {
        let bytes = |b: &Vec<Run>| b.iter().map(|r| r.n as u64 * (r.len as u64 + 8)).sum::<u64>();
        let rows = |c: &Col| c.batches.iter().flatten().map(|r| r.n as u64).sum::<u64>();
        let unit = s.cols.iter().flat_map(|c| c.batches.iter().map(bytes)).max().unwrap_or(0);
        (unit, 80 * s.cols.iter().map(rows).sum::<u64>() + 4000)
    }
    fn rop(o: &ROp) -> (u64, u64) {
        let n = |a: &u64, b: &u64| b.saturating_sub(*a);
        match o {
            ROp::Block(a, b) | ROp::CancelBlock(a, b, _) => (n(a, b), 300),
            ROp::Again { start: a, end: b, .. } => (n(a, b), 300),
            ROp::Batch { wants, .. } => (wants.iter().map(|w| n(&w.start, &w.end)).max().unwrap_or(0), 300 * wants.len() as u64),
            ROp::Join(v) => v.iter().map(rop).fold((0, 300), |x, y| (x.0 + y.0, x.1 + y.1)),
            _ => (0, 300),
        }
    }
    let task = |t: &Task| match t {
        Task::Segs(v) => v.iter().map(seg).fold((0, 0), |x, y| (x.0.max(y.0), x.1 + y.1)),
        Task::Pipe(_) => (1 << 30, 0),
        Task::Raw(r) => (
            r.ops
                .iter()
                .map(|o| if let RawOp::Write(n) | RawOp::GiveUpWrite(n, _) | RawOp::Again { len: n, .. } = o { *n as u64 } else { 0 })
                .max().unwrap_or(0),
            100 * r.ops.len() as u64,
        ),
        Task::Read(r) => r.ops.iter().map(rop).fold((0, 0), |x, y| (x.0.max(y.0), x.1 + y.1)),
    };
    (2 << 20) + p.tasks.iter().map(task).map(|x| 10 * x.0 + x.1).sum::<u64>()
}

/// rough number of disk requests of a task
pub fn est_ops(t: &Task) -> u64 {
    fn col(c: &Col, block: u64) -> u64 {
        let mut bytes = 0u64;
        let mut blocks = 0u64;
        for b in &c.batches {
            for r in b.iter().filter(|r| !r.null) {
                let l = if c.ty == Ty::Binary { r.len as u64 } else { 8 };
                bytes += r.n as u64 * l;
                if l > block {
                    blocks += r.n as u64;
                }
            }
        }
        let index: u64 = c.index.iter().flat_map(|i| &i.parts).map(|n| 1 + *n as u64 / 16_384).sum();
        1 + blocks + bytes / block.max(1) + bytes / 16_384 + index
    }
    match t {
        Task::Segs(v) => v.iter().map(|s| (1 + s.again as u64) * (14 + s.cols.iter().map(|c| col(c, 128)).sum::<u64>())).sum(),
        Task::Pipe(p) => 5 + p.cols.iter().map(|c| col(c, p.block_size as u64)).sum::<u64>(),
        Task::Raw(r) => {
            let op = |o: &RawOp| match o {
                RawOp::Write(n) | RawOp::GiveUpWrite(n, _) => 1 + *n as u64 / 16_384,
                RawOp::Again { len, n, sync } => *n as u64 * (1 + *len as u64 / 16_384) + (*n / sync) as u64,
                _ => 1,
            };
            3 + r.ops.iter().map(op).sum::<u64>()
        }
        Task::Read(r) => 4 + r.ops.iter().map(est_rop).sum::<u64>(),
    }
}
fn est_rop(o: &ROp) -> u64 {
    match o {
        ROp::Batch { wants, between, .. } => 2 * wants.len() as u64 + between.iter().map(|x| est_rop(&x.1)).sum::<u64>(),
        ROp::Join(v) => v.iter().map(est_rop).sum(),
        ROp::RawBlocks { blocks, .. } => 2 * blocks.len() as u64,
        ROp::Again { n, .. } => 10 * *n as u64,
        _ => 2,
    }
}
