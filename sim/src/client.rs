//! The simulated clients: they drive meerkat's own code and note what it told them.
use crate::plan::*;
use crate::rng::mix;
use crate::sim::{self, in_sim, s, Op};
use futures::future::LocalBoxFuture;
use futures::{FutureExt, StreamExt};
use meerkat_store as mk;
use meerkat_store::segment_metadata as pb;
use mk::BlockReader as _;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: &'static str,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct ColObs {
    pub col: usize,
    pub start: u64,
    pub end: u64,
    pub entries: Vec<(u32, u64)>,
    pub closed: bool,
    pub refused: bool,
    /// batches the writer accepted
    pub batches: usize,
    /// an operation on it failed or was given up, yet the client went on: its rows are unspecified
    pub dirty: bool,
    /// its closing was given up: it may be listed or not
    pub maybe: bool,
    /// number of its index
    pub index: Option<usize>,
}
/// What happened to the index of a column.
#[derive(Clone, Debug, Default)]
pub struct IdxObs {
    /// digests of the batches it was given
    pub got: Vec<u64>,
    pub failed: bool,
    pub flushes: u32,
    /// what its last flush reported
    pub range: (u64, u64),
}
#[derive(Clone, Debug)]
pub struct OpErr {
    pub stage: String,
    pub msg: String,
    pub step1: u64,
}
#[derive(Clone, Debug, Default)]
pub struct SegObs {
    pub phase: usize,
    pub task: usize,
    pub attempt: usize,
    pub pipe: bool,
    pub started: u64,
    pub created: bool,
    pub cols: Vec<ColObs>,
    pub closed: bool,
    pub synced: bool,
    pub data_pos: u64,
    /// the first one
    pub error: Option<OpErr>,
    /// an operation was given up and the client went on
    pub gave_up: bool,
    /// an index failed of itself
    pub own_fault: bool,
    pub abandoned: bool,
    pub finished: bool,
}
#[derive(Clone, Debug, Default)]
pub struct RawObs {
    pub phase: usize,
    pub task: usize,
    pub created: bool,
    /// length accepted so far
    pub accepted: u64,
    pub attempted: u64,
    pub blocks: usize,
    /// accepted length at the last successful flush / sync
    pub flushed: u64,
    pub flushed_blocks: usize,
    pub synced: Option<u64>,
    pub errors: Vec<OpErr>,
    /// the lengths of the accepted blocks
    pub lens: Vec<u32>,
    pub gave_up: bool,
    pub done: bool,
}
#[derive(Clone, Debug, Default)]
pub struct BatchObs {
    pub wants: Vec<(u64, u64)>,
    pub started: BTreeSet<usize>,
    pub taken: usize,
    pub polled: bool,
    pub max_ahead: usize,
}

#[derive(Default)]
pub struct Obs {
    pub segs: Vec<SegObs>,
    pub raws: Vec<RawObs>,
    pub indexes: Vec<IdxObs>,
    pub viol: Vec<Viol>,
    pub batches: BTreeMap<String, BatchObs>,
    pub reads_ok: u64,
    pub reads_err: u64,
    pub overlap: u64,
    pub items: u64,
    pub cancelled: u64,
    pub active: u64,
    /// phases whose runtime was shut down, and when
    pub shut: BTreeMap<usize, u64>,
    /// the runtime of this phase will be, or has been
    pub shutting: bool,
    pub shut_now: bool,
    /// readers that the clients share
    shared: BTreeMap<String, Cur>,
    /// what the test files that were replaced have been since
    pub vers: BTreeMap<String, Vers>,
}
/// The contents a path has had: (uid, length), None where there was no file.
#[derive(Default)]
pub struct Vers {
    list: Vec<Option<(u64, u64)>>,
    /// replacements under way, and those ever begun
    busy: u32,
    begun: u32,
    /// a replacement failed half-way: what is there now is anybody's guess
    unknown: bool,
    /// a file that was not replaced but rewritten in place
    clobbered: Vec<u64>,
}
static mut OBS: *mut Obs = std::ptr::null_mut();
pub fn o() -> &'static mut Obs {
    unsafe { &mut *OBS }
}
pub fn init() {
    unsafe { OBS = Box::into_raw(Box::default()) }
}
pub fn viol(kind: &'static str, msg: String) {
    if in_sim() {
        sim::mark(&format!("VIOLATION {kind}"), 0, 0);
    }
    if o().viol.len() < 50 {
        o().viol.push(Viol { kind, msg });
    }
}
fn now_step() -> u64 {
    s().steps
}
/// An error that ended at `step` may come from the shutdown of the runtime.
pub fn shut_by(phase: usize, step: u64) -> bool {
    o().shut.get(&phase).map_or(false, |t| *t <= step)
}
/// The clients' own pauses: tokio's timers do not survive a runtime's shutdown.
async fn nap(d: Duration) {
    if o().shutting {
        std::thread::sleep(d);
        // let the executor see that this task has paused
        let mut once = false;
        futures::future::poll_fn(|cx| {
            if std::mem::replace(&mut once, true) {
                return Poll::Ready(());
            }
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await;
    } else {
        tokio::time::sleep(d).await;
    }
}

// ---------------------------------------------------------------- values
pub fn fill(uid: u64, n: u64, out: &mut Vec<u8>, len: usize) {
    let base = mix(uid ^ mix(n));
    let mut k = 0u64;
    let end = out.len() + len;
    while out.len() < end {
        let w = mix(base.wrapping_add(k)).to_le_bytes();
        let m = (end - out.len()).min(8);
        out.extend_from_slice(&w[..m]);
        k += 1;
    }
}
/// the bytes `fill` would put at `off`
pub fn fill_at(uid: u64, n: u64, off: u64, out: &mut [u8]) {
    let base = mix(uid ^ mix(n));
    let mut at = 0;
    while at < out.len() {
        let x = off + at as u64;
        let w = mix(base.wrapping_add(x / 8)).to_le_bytes();
        let k = (x % 8) as usize;
        let m = (out.len() - at).min(8 - k);
        out[at..at + m].copy_from_slice(&w[k..k + m]);
        at += m;
    }
}
/// Bytes of a huge fixture, its hole included.
pub fn fill_file(uid: u64, len: u64, off: u64, out: &mut [u8]) {
    if len < GIANT {
        return fill_at(uid, 0, off, out);
    }
    let end = off + out.len() as u64;
    let lo = HOLE.0.clamp(off, end);
    let hi = HOLE.1.clamp(lo, end);
    let (a, rest) = out.split_at_mut((lo - off) as usize);
    let (hole, b) = rest.split_at_mut((hi - lo) as usize);
    fill_at(uid, 0, off, a);
    crate::alloc::zero(hole);
    fill_at(uid, 0, hi, b);
}
/// The first of some looked-at positions where a block of a huge fixture differs.
fn sampled_diff(uid: u64, len: u64, off: u64, got: &[u8]) -> Option<usize> {
    let n = got.len();
    let mut windows: Vec<usize> = vec![0, n.saturating_sub(1 << 16)];
    for k in [1usize << 16, 1 << 20, 1 << 30, 1 << 31, 0x7fff_f000, 1 << 32, 1 << 33] {
        windows.push(k.saturating_sub(3000));
    }
    let mut x = uid;
    for _ in 0..64 {
        x = mix(x);
        windows.push((x % n as u64) as usize);
    }
    for w in windows.into_iter().filter(|w| *w < n) {
        let e = (w + (1 << 16)).min(n);
        let mut want = vec![0; e - w];
        fill_file(uid, len, off + w as u64, &mut want);
        if got[w..e] != want[..] {
            return got[w..e].iter().zip(&want).position(|(x, y)| x != y).map(|k| w + k);
        }
    }
    None
}
pub fn fixture_bytes(f: &Fixture) -> Vec<u8> {
    let mut v = Vec::with_capacity(f.len as usize);
    fill(f.uid, 0, &mut v, f.len as usize);
    v
}
pub fn raw_block(uid: u64, no: usize, len: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(len as usize);
    fill(uid, no as u64, &mut v, len as usize);
    v
}
/// the blocks of these lengths, one after the other
pub fn blocks_image(uid: u64, lens: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for (i, n) in lens.iter().enumerate() {
        fill(uid, i as u64, &mut v, *n as usize);
    }
    v
}
/// everything a raw task writes, and the block boundaries
pub fn raw_image(r: &Raw) -> (Vec<u8>, Vec<(u64, u64)>) {
    let mut v = vec![];
    let mut b = vec![];
    for o in &r.ops {
        if let RawOp::Write(n) = o {
            let st = v.len() as u64;
            fill(r.uid, b.len() as u64, &mut v, *n as usize);
            b.push((st, v.len() as u64));
        }
    }
    (v, b)
}
/// The rows of a column: the reference model. None is a null.
pub fn expected_rows(c: &Col, batches: usize) -> Vec<Option<Vec<u8>>> {
    let mut v = vec![];
    for b in c.batches.iter().take(batches) {
        for r in b {
            for _ in 0..r.n {
                let n = v.len() as u64;
                v.push(if r.is_null(c.uid, n) { None } else { Some(value(c, n, r.len)) });
            }
        }
    }
    v
}
pub fn expected_len(c: &Col, batches: usize) -> u64 {
    c.batches.iter().take(batches).flatten().map(|r| r.n as u64).sum()
}
fn value(c: &Col, row: u64, len: u32) -> Vec<u8> {
    match c.ty {
        Ty::Binary => {
            let mut v = Vec::with_capacity(len as usize);
            fill(c.uid, row, &mut v, len as usize);
            v
        }
        Ty::I32 => prim32(c, row).to_le_bytes().to_vec(),
        _ => prim64(c, row).to_le_bytes().to_vec(),
    }
}
fn prim64(c: &Col, row: u64) -> u64 {
    let x = mix(c.uid ^ mix(row + 1));
    match x % 9 {
        0 => 0,
        1 => u64::MAX,
        2 => x >> 40,
        3 => 1 << 63,
        _ => x,
    }
}
fn prim32(c: &Col, row: u64) -> i32 {
    prim64(c, row) as i32
}

// ---------------------------------------------------------------- writing
async fn store<F: Future>(f: F) -> F::Output {
    sim::on_side(false, f).await
}
struct Limited<F> {
    f: Pin<Box<F>>,
    polls: u32,
}
impl<F: Future> Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.polls == 0 {
            return Poll::Ready(None);
        }
        self.polls -= 1;
        let _side = sim::side(false);
        match self.f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending if self.polls == 0 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}

struct Ctl {
    n: u32,
    end: SegEnd,
    /// the last operation was given up by the client, who is still there
    gave_up: bool,
}
impl Ctl {
    /// None: the client walks away here
    async fn run<F: Future>(&mut self, f: F) -> Option<F::Output> {
        self.gave_up = false;
        let n = self.n;
        self.n += 1;
        match self.end {
            SegEnd::Drop(k) if n >= k => {
                drop(f);
                None
            }
            SegEnd::Cancel(k, p) if n == k => {
                let r = Limited { f: Box::pin(f), polls: p }.await;
                if r.is_none() {
                    o().cancelled += 1;
                    self.gave_up = true;
                }
                r
            }
            _ => Some(store(f).await),
        }
    }
}

enum Stop {
    Error(OpErr),
    Abandoned,
}
macro_rules! step {
    ($ctl:expr, $stage:expr, $f:expr) => {{
        match $ctl.run($f).await {
            None => return Err(Stop::Abandoned),
            Some(Ok(v)) => v,
            Some(Err(e)) => {
                return Err(Stop::Error(OpErr {
                    stage: $stage.to_string(),
                    msg: format!("{:#}", anyhow::Error::from(e)),
                    step1: now_step(),
                }))
            }
        }
    }};
}

fn column_info(c: &Col) -> mk::ColumnInfo {
    mk::ColumnInfo {
        name: c.name.clone(),
        column_type: pb::ColumnType::from_i32(c.column_type).unwrap(),
        encoding: pb::Encoding::from_i32(c.encoding).unwrap(),
        index_type: pb::IndexType::from_i32(c.index_type).unwrap(),
        nullable: c.nullable,
    }
}

trait Buf: Sized + 'static {
    fn make(nullable: bool) -> Self;
    fn wipe(&mut self);
    fn put(&mut self, c: &Col, row: u64, len: u32);
    fn put_null(&mut self);
}
impl Buf for mk::BinaryBuffer {
    fn make(n: bool) -> Self {
        mk::BinaryBuffer::new(n)
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn put(&mut self, c: &Col, row: u64, len: u32) {
        self.append(&value(c, row, len))
    }
    fn put_null(&mut self) {
        self.append_null()
    }
}
macro_rules! prim_buf {
    ($t:ty, $v:expr) => {
        impl Buf for mk::PrimitiveBuffer<$t> {
            fn make(n: bool) -> Self {
                mk::PrimitiveBuffer::new(n)
            }
            fn wipe(&mut self) {
                self.clear()
            }
            fn put(&mut self, c: &Col, row: u64, _len: u32) {
                let f: fn(&Col, u64) -> $t = $v;
                self.append(f(c, row))
            }
            fn put_null(&mut self) {
                self.append_null()
            }
        }
    };
}
prim_buf!(i32, |c, r| prim32(c, r));
prim_buf!(i64, |c, r| prim64(c, r) as i64);
prim_buf!(u64, |c, r| prim64(c, r));
prim_buf!(f64, |c, r| f64::from_bits(prim64(c, r)));

/// Batch buffers of one client: fresh, reused per column or pooled, as the plan says.
struct Pool<B> {
    pooled: BTreeMap<bool, B>,
}
impl<B: Buf> Pool<B> {
    fn new() -> Self {
        Pool { pooled: BTreeMap::new() }
    }
    fn take(&mut self, c: &Col) -> B {
        match c.bufs {
            Bufs::Pool => self.pooled.remove(&c.nullable).unwrap_or_else(|| B::make(c.nullable)),
            _ => B::make(c.nullable),
        }
    }
    fn give(&mut self, c: &Col, b: B) {
        if c.bufs == Bufs::Pool {
            self.pooled.insert(c.nullable, b);
        }
    }
}
fn fill_batch<B: Buf>(b: &mut B, c: &Col, batch: &[Run], row: &mut u64) {
    if c.bufs == Bufs::Fresh {
        *b = B::make(c.nullable);
    } else {
        b.wipe();
    }
    for r in batch {
        for _ in 0..r.n {
            if r.is_null(c.uid, *row) {
                b.put_null();
            } else {
                b.put(c, *row, r.len);
            }
            *row += 1;
        }
    }
}

pub fn digest(b: &mk::BinaryBuffer) -> u64 {
    let mut h = mix(b.len() as u64) ^ mix(b.num_values() as u64 + 77);
    for i in 0..b.len() {
        h = mix(h ^ b.item_len(i) as u64);
    }
    if let Some(v) = b.validity() {
        h = (0..v.len()).fold(h, |h, i| mix(h ^ v.is_set(i) as u64));
    }
    b.data().iter().fold(h, |h, x| mix(h ^ *x as u64))
}
pub fn index_image(uid: u64, i: &Idx) -> Vec<u8> {
    let mut v = vec![];
    for (k, n) in i.parts.iter().enumerate() {
        fill(uid ^ 0x1d8, k as u64, &mut v, *n as usize);
    }
    v
}
/// The simulated user's own index: notes what it is given, writes recognisable blocks.
struct SimIndex {
    no: usize,
    seg: usize,
    uid: u64,
    plan: Idx,
}
#[async_trait::async_trait]
impl mk::ColumnIndex<mk::BinaryBuffer> for SimIndex {
    fn index(&mut self, b: &mk::BinaryBuffer) -> anyhow::Result<()> {
        let _side = sim::side(true);
        let d = digest(b);
        let x = &mut o().indexes[self.no];
        x.got.push(d);
        // a call that fails may already have indexed some of the rows
        if self.plan.fail_at == Some(x.got.len() as u32 - 1) {
            x.failed = true;
            o().segs[self.seg].own_fault = true;
            anyhow::bail!("simulated failure of an index");
        }
        Ok(())
    }
    async fn flush(&mut self, w: &mut mk::BlockWriter) -> anyhow::Result<pb::column_layout::ColumnIndexLayout> {
        sim::on_side(true, self.write(w)).await
    }
}
impl SimIndex {
    async fn write(&mut self, w: &mut mk::BlockWriter) -> anyhow::Result<pb::column_layout::ColumnIndexLayout> {
        o().indexes[self.no].flushes += 1;
        let start = w.pos();
        for (k, n) in self.plan.parts.iter().enumerate() {
            if self.plan.fail_flush == Some(k as u32) {
                o().indexes[self.no].failed = true;
                o().segs[self.seg].own_fault = true;
                anyhow::bail!("simulated failure of an index");
            }
            let mut v = vec![];
            fill(self.uid ^ 0x1d8, k as u64, &mut v, *n as usize);
            store(w.write_block(&v)).await?;
        }
        if self.plan.fail_flush.map_or(false, |k| k as usize >= self.plan.parts.len()) {
            o().indexes[self.no].failed = true;
            o().segs[self.seg].own_fault = true;
            anyhow::bail!("simulated failure of an index");
        }
        let end = w.pos();
        o().indexes[self.no].range = (start, end);
        Ok(pb::column_layout::ColumnIndexLayout::StringIndexV1(pb::StringIndexV1 {
            range: Some(pb::Range { start, end }),
        }))
    }
}

/// How one step of a client ended that may go on afterwards.
#[derive(Clone, Copy, PartialEq)]
enum Went {
    Well,
    Failed,
    GivenUp,
}
macro_rules! attempt {
    ($ctl:expr, $oi:expr, $carry:expr, $stage:expr, $f:expr) => {{
        match $ctl.run($f).await {
            None if $ctl.gave_up && $carry != Carry::Stop => {
                sim::mark("given up, going on", $oi as u64, 0);
                o().segs[$oi].gave_up = true;
                Went::GivenUp
            }
            None => return Err(Stop::Abandoned),
            Some(Ok(())) => Went::Well,
            Some(Err(e)) => {
                let e = OpErr {
                    stage: $stage.to_string(),
                    msg: format!("{:#}", anyhow::Error::from(e)),
                    step1: now_step(),
                };
                if $carry == Carry::Stop {
                    return Err(Stop::Error(e));
                }
                sim::mark(&format!("going on after: {}: {}", e.stage, e.msg), $oi as u64, 0);
                o().segs[$oi].error.get_or_insert(e);
                Went::Failed
            }
        }
    }};
}

async fn seg_attempt(seg: &Seg, oi: usize, pool: &mut Pool<mk::BinaryBuffer>) -> Result<(), Stop> {
    let mut ctl = Ctl { n: 0, end: seg.end.clone(), gave_up: false };
    let carry = seg.carry;
    let tries = if carry == Carry::Retry { 3 } else { 1 };
    let mut id = [0u8; 16];
    id.copy_from_slice(&unhex(&seg.id));
    let info = mk::SegmentInfo {
        segment_id: uuid::Uuid::from_bytes(id),
        database_name: seg.db.clone(),
        table_name: seg.table.clone(),
        shard_id: seg.shard,
        num_rows: seg.num_rows,
    };
    let mut w = step!(ctl, "create segment", mk::calls::new_segment(seg.dir.clone(), info));
    o().segs[oi].created = true;
    sim::mark("segment created", oi as u64, 0);
    for (ci, c) in seg.cols.iter().enumerate() {
        let mut co = ColObs { col: ci, start: w.sim_data_pos(), ..Default::default() };
        {
            let mut cw = match w.new_binary_column_writer(column_info(c)) {
                Ok(cw) => cw,
                Err(e) => {
                    co.refused = true;
                    let taken = o().segs[oi].cols.iter().any(|x| (x.closed || x.maybe) && seg.cols[x.col].name == c.name);
                    if !taken && (c.encoding == RAW || c.encoding == SNAPPY) {
                        viol("refused", format!("segment {}: column {ci} was refused: {e:#}", seg.id));
                    }
                    o().segs[oi].cols.push(co);
                    continue;
                }
            };
            if let Some(plan) = &c.index {
                let no = o().indexes.len();
                o().indexes.push(IdxObs::default());
                co.index = Some(no);
                cw.sim_set_column_index(Box::new(SimIndex { no, seg: oi, uid: c.uid, plan: plan.clone() }));
            }
            let mut given = vec![];
            let failed = |co: &ColObs| co.index.map_or(false, |i| o().indexes[i].failed);
            let what = format!("segment {}, column {ci}", seg.id);
            let mut buf = pool.take(c);
            let mut row = 0;
            'batches: for b in &c.batches {
                fill_batch(&mut buf, c, b, &mut row);
                for _ in 0..tries {
                    let r = attempt!(ctl, oi, carry, format!("write batch to column {ci}"), mk::calls::write_batch(&mut cw, &buf));
                    if r == Went::Well {
                        co.batches += 1;
                        if co.index.is_some() {
                            given.push(digest(&buf));
                        }
                        if failed(&co) {
                            viol("colindex", format!("{what}: its index failed, but the write reported success"));
                        }
                        break;
                    }
                    co.dirty = true;
                    if carry == Carry::SkipColumn {
                        break 'batches;
                    }
                }
            }
            pool.give(c, buf);
            if c.close && !(co.dirty && carry == Carry::SkipColumn) {
                for _ in 0..tries {
                    match attempt!(ctl, oi, carry, format!("close column {ci}"), mk::calls::close_column(&mut cw)) {
                        Went::Well => {
                            co.closed = true;
                            if let Some(i) = co.index {
                                let x = &o().indexes[i];
                                if x.failed && !co.dirty {
                                    viol("colindex", format!("{what}: its index failed, but closing it reported success"));
                                }
                                if x.got != given && !co.dirty {
                                    viol("colindex", format!("{what}: {} batches were accepted, its index saw {} (or other ones)", given.len(), x.got.len()));
                                }
                                if x.flushes != 1 && !co.dirty {
                                    viol("colindex", format!("{what}: its index was flushed {} times", x.flushes));
                                }
                            }
                            // once more: refused or not, it must not change the column
                            if c.twice {
                                match ctl.run(mk::calls::close_column(&mut cw)).await {
                                    None if ctl.gave_up && carry != Carry::Stop => {
                                        o().segs[oi].gave_up = true;
                                        co.dirty = true;
                                    }
                                    None => return Err(Stop::Abandoned),
                                    Some(_) => {}
                                }
                            }
                            break;
                        }
                        Went::Failed => co.dirty = true,
                        Went::GivenUp => {
                            co.dirty = true;
                            co.maybe = true;
                        }
                    }
                }
            }
        }
        co.end = w.sim_data_pos();
        let index = w.sim_block_index();
        co.entries = if co.closed { index.sim_flushed() } else { index.sim_entries() };
        sim::mark("column done", oi as u64, ci as u64);
        o().segs[oi].cols.push(co);
    }
    let mut closed = false;
    for _ in 0..tries {
        if attempt!(ctl, oi, carry, "close segment", mk::calls::close_segment(&mut w)) == Went::Well {
            closed = true;
            break;
        }
    }
    o().segs[oi].data_pos = w.sim_data_pos();
    if closed {
        o().segs[oi].closed = true;
        if seg.end == SegEnd::CloseOnly {
            sim::ack("segment closed");
            return Ok(());
        }
    }
    step!(ctl, "sync segment", mk::calls::sync_segment(w));
    if closed {
        o().segs[oi].synced = true;
        sim::ack("segment synced");
    }
    Ok(())
}

async fn segs(phase: usize, task: usize, v: &[Seg]) {
    let mut pool = Pool::new();
    for (attempt, seg) in v.iter().enumerate() {
        if seg.pause > 0 {
            nap(Duration::from_micros(seg.pause)).await;
        }
        let oi = o().segs.len();
        let started = now_step();
        let mut level = Level::new(seg.again);
        for _ in 0..seg.again {
            // what this one observed is forgotten: it would look like growing memory
            o().segs.push(SegObs { phase, task, attempt, started, ..Default::default() });
            end_attempt(oi, seg_attempt(seg, oi, &mut pool).await);
            o().segs.truncate(oi);
            level.tick("writing the same segment", 16_384).await;
        }
        o().segs.push(SegObs { phase, task, attempt, started, ..Default::default() });
        end_attempt(oi, seg_attempt(seg, oi, &mut pool).await);
    }
}
/// Memory in use after a quarter of the repetitions and after all of them.
struct Level {
    i: u32,
    n: u32,
    then: i64,
}
impl Level {
    fn new(n: u32) -> Level {
        Level { i: 0, n, then: 0 }
    }
    async fn tick(&mut self, what: &str, may: i64) {
        self.i += 1;
        if self.i != self.n / 4 && self.i != self.n {
            return;
        }
        // what is still in flight has its time to finish
        for _ in 0..1000 {
            let n = s().phase_fs_ops;
            nap(Duration::from_secs(60)).await;
            if s().delayed == 0 && s().phase_fs_ops == n {
                break;
            }
        }
        let now = crate::alloc::measured().0;
        if self.i < self.n {
            self.then = now;
        } else if now - self.then > may && self.n >= 100 && !o().shut_now {
            let (i, n) = (self.n / 4, self.n);
            viol("memory", format!("{what} {n} times: {} bytes more are in use after the last time than after {i} times", now - self.then));
        }
    }
}
fn end_attempt(oi: usize, r: Result<(), Stop>) {
    match r {
        Ok(()) => {}
        Err(Stop::Abandoned) => {
            sim::mark("attempt abandoned", oi as u64, 0);
            o().segs[oi].abandoned = true;
        }
        Err(Stop::Error(e)) => {
            sim::mark(&format!("error: {}: {}", e.stage, e.msg), oi as u64, 0);
            o().segs[oi].error.get_or_insert(e);
        }
    }
    o().segs[oi].finished = true;
}

macro_rules! pipe_col {
    ($c:expr, $ci:expr, $w:expr, $ctl:expr, $pool:expr, $oi:expr, $make:expr) => {{
        let (c, ci, oi): (&Col, usize, usize) = ($c, $ci, $oi);
        let mut co = ColObs { col: ci, start: $w.pos(), ..Default::default() };
        let mut index = mk::BlockIndex::new();
        {
            let mut sink = mk::BlockSinkImpl::new(&mut $w, &mut index);
            let mut enc = match $make {
                Ok(e) => e,
                Err(e) => {
                    return Err(Stop::Error(OpErr {
                        stage: "new encoder".into(),
                        msg: e.to_string(),
                        step1: now_step(),
                    }))
                }
            };
            let mut buf = $pool.take(c);
            let mut row = 0;
            for b in &c.batches {
                fill_batch(&mut buf, c, b, &mut row);
                step!($ctl, format!("encode batch of column {ci}"), enc.encode(&buf, &mut sink));
                co.batches += 1;
            }
            $pool.give(c, buf);
            step!($ctl, format!("flush column {ci}"), enc.flush(&mut sink));
            co.closed = true;
        }
        co.end = $w.pos();
        co.entries = index.sim_entries();
        o().segs[oi].cols.push(co);
    }};
}

async fn pipe_attempt(p: &Pipe, oi: usize) -> Result<(), Stop> {
    let mut ctl = Ctl { n: 0, end: p.end.clone(), gave_up: false };
    let mut w = step!(ctl, "create file", mk::calls::new_writer(p.path.clone()));
    o().segs[oi].created = true;
    let (mut bp, mut p32, mut p64, mut pu, mut pf) = (Pool::new(), Pool::new(), Pool::new(), Pool::new(), Pool::new());
    let raw = pb::Encoding::Raw;
    for (ci, c) in p.cols.iter().enumerate() {
        let bs = p.block_size;
        match c.ty {
            Ty::Binary => pipe_col!(c, ci, w, ctl, bp, oi, mk::new_binary_encoder(raw, bs, c.nullable)),
            Ty::I32 => pipe_col!(c, ci, w, ctl, p32, oi, mk::new_i32_encoder(raw, bs as usize, c.nullable)),
            Ty::I64 => pipe_col!(c, ci, w, ctl, p64, oi, mk::new_i64_encoder(raw, bs as usize, c.nullable)),
            Ty::U64 => pipe_col!(c, ci, w, ctl, pu, oi, mk::new_u64_encoder(raw, bs as usize, c.nullable)),
            Ty::F64 => pipe_col!(c, ci, w, ctl, pf, oi, mk::new_f64_encoder(raw, bs as usize, c.nullable)),
        }
    }
    step!(ctl, "flush file", mk::calls::flush(&mut w));
    o().segs[oi].data_pos = w.pos();
    o().segs[oi].closed = true;
    if p.end == SegEnd::CloseOnly {
        sim::ack("file flushed");
        return Ok(());
    }
    step!(ctl, "sync file", mk::calls::sync(&mut w));
    // the directory entry of a bare block file is its owner's business
    if let Some(parent) = std::path::Path::new(&p.path).parent() {
        if let Ok(d) = tokio::fs::File::open(parent).await {
            if d.sync_all().await.is_ok() {
                o().segs[oi].synced = true;
                sim::ack("file synced");
            }
        }
    }
    Ok(())
}

async fn raw(phase: usize, task: usize, r: &Raw) {
    let oi = o().raws.len();
    o().raws.push(RawObs { phase, task, ..Default::default() });
    let err = |stage: &str, e: std::io::Error| {
        sim::mark(&format!("error: {stage}: {e}"), oi as u64, 0);
        o().raws[oi].errors.push(OpErr { stage: stage.into(), msg: e.to_string(), step1: now_step() });
    };
    let mut w = match store(mk::calls::new_writer(r.path.clone())).await {
        Ok(w) => w,
        Err(e) => {
            err("create", e);
            o().raws[oi].done = true;
            return;
        }
    };
    o().raws[oi].created = true;
    // make the name durable, so that only the writer's own promises are at stake
    if let Some(parent) = std::path::Path::new(&r.path).parent() {
        let d = s().disk.lookup(&parent.to_string_lossy());
        if let Ok(i) = d {
            s().disk.fsync(i);
        }
    }
    let mut no = 0;
    for op in &r.ops {
        let (polls, kind) = match op {
            RawOp::Again { len, n, sync } => {
                let mut level = Level::new(*n);
                for i in 0..*n {
                    let b = raw_block(r.uid, no, *len);
                    let pos = w.pos();
                    let res = store(mk::calls::write_block(&mut w, &b)).await;
                    drop(b);
                    if res.is_err() {
                        o().raws[oi].gave_up = true;
                        break;
                    }
                    no += 1;
                    {
                        let _own = crate::alloc::own();
                        let x = &mut o().raws[oi];
                        x.attempted += *len as u64;
                        x.accepted += *len as u64;
                        x.lens.push(*len);
                        x.blocks = no;
                        if w.pos() != pos + *len as u64 {
                            viol("pos", format!("{}: position {} after {len} bytes at {pos}", r.path, w.pos()));
                        }
                    }
                    if (i + 1) % sync == 0 && store(mk::calls::sync(&mut w)).await.is_err() {
                        break;
                    }
                    level.tick("writing a block", 4 * *len as i64 + 8192).await;
                }
                continue;
            }
            RawOp::Sleep(us) => {
                nap(Duration::from_micros(*us)).await;
                continue;
            }
            RawOp::GiveUpWrite(_, p) | RawOp::GiveUpFlush(p) | RawOp::GiveUpSync(p) => (*p, op),
            _ => (u32::MAX, op),
        };
        let (stage, res) = match kind {
            RawOp::Write(n) | RawOp::GiveUpWrite(n, _) => {
                let b = raw_block(r.uid, no, *n);
                o().raws[oi].attempted += *n as u64;
                let res = Limited { f: Box::pin(mk::calls::write_block(&mut w, &b)), polls }.await;
                if let Some(Ok(())) = res {
                    no += 1;
                    let pos = w.pos();
                    let x = &mut o().raws[oi];
                    x.accepted += *n as u64;
                    x.lens.push(*n);
                    x.blocks = no;
                    if pos != x.accepted && x.errors.is_empty() && !x.gave_up {
                        viol("pos", format!("{}: after {} accepted bytes the writer reports position {pos}", r.path, x.accepted));
                    }
                }
                ("write", res)
            }
            RawOp::Flush | RawOp::GiveUpFlush(_) => {
                let res = Limited { f: Box::pin(mk::calls::flush(&mut w)), polls }.await;
                if let Some(Ok(())) = res {
                    let pos = w.pos();
                    let x = &mut o().raws[oi];
                    x.flushed = x.accepted;
                    x.flushed_blocks = x.blocks;
                    let have = s().disk.size(&r.path).unwrap_or(0);
                    if have != pos {
                        viol("pos", format!("{}: flushed, position {pos} but the file has {have} bytes", r.path));
                    }
                    sim::mark("flushed", oi as u64, x.flushed);
                }
                ("flush", res)
            }
            _ => {
                let res = Limited { f: Box::pin(mk::calls::sync(&mut w)), polls }.await;
                if let Some(Ok(())) = res {
                    let x = &mut o().raws[oi];
                    x.synced = Some(x.accepted);
                    x.flushed = x.accepted;
                    x.flushed_blocks = x.blocks;
                    sim::ack("block file synced");
                }
                ("sync", res)
            }
        };
        match res {
            Some(Ok(())) => {}
            None => {
                o().cancelled += 1;
                o().raws[oi].gave_up = true;
                sim::mark("given up, going on", oi as u64, 0);
            }
            Some(Err(e)) => {
                err(stage, e);
                if !r.carry {
                    break;
                }
            }
        }
    }
    o().raws[oi].done = true;
}

// ---------------------------------------------------------------- reading
struct RCtx {
    plan: &'static Plan,
    phase: usize,
}
#[derive(Clone, Default)]
struct Cur {
    reader: Option<Arc<mk::Reader>>,
    /// the length it reported when it was opened
    len: u64,
    path: String,
    /// the file it stands for
    ino: u64,
    /// which of the files that took the place of the test file
    ver: Option<(u64, u64)>,
}
impl Cur {
    /// the length of a reader is a constant
    fn check_len(&self) {
        if let Some(r) = &self.reader {
            if r.len() != self.len {
                viol("read-len", format!("a reader of {} reported length {} when it was opened and {} later", self.path, self.len, r.len()));
            }
        }
    }
}
enum Content {
    Fixed(Vec<u8>, u64),
    /// a huge fixture
    Rule(u64, u64),
    /// a raw file being written: final image, block bounds, its observation slot
    Growing(Vec<u8>, Vec<(u64, u64)>, Option<usize>),
}
impl RCtx {
    fn content(&self, cur: &Cur) -> Option<Content> {
        let path = &cur.path[..];
        if let Some((uid, len)) = cur.ver {
            return Some(Content::Fixed(fixture_bytes(&Fixture { path: path.into(), uid, len }), cur.ino));
        }
        if let Some(f) = self.plan.fixtures.iter().find(|f| f.path == path) {
            return Some(if f.len > HUGE { Content::Rule(f.uid, f.len) } else { Content::Fixed(fixture_bytes(f), cur.ino) });
        }
        for (ti, t) in self.plan.phases[self.phase].tasks.iter().enumerate() {
            if let Task::Raw(r) = t {
                if r.path == path {
                    let (img, b) = raw_image(r);
                    let oi = o().raws.iter().position(|x| x.phase == self.phase && x.task == ti);
                    return Some(Content::Growing(img, b, oi));
                }
            }
        }
        None
    }
}

/// a hard fault on a read (or stat) of `path` within the range, since `t0`
fn read_fault(path: &str, a: u64, b: u64, t0: u64) -> bool {
    s().faults.iter().any(|f| {
        f.path == path && f.step >= t0 && ((f.op == Op::Read && f.off >= a && f.off < b) || f.op == Op::Stat)
    })
}
fn guaranteed_len(c: &Content) -> u64 {
    match c {
        Content::Fixed(d, _) => d.len() as u64,
        Content::Rule(_, len) => *len,
        Content::Growing(_, _, oi) => oi.map_or(0, |i| o().raws[i].flushed),
    }
}

/// what the size of the file cannot exceed from now on
fn size_for(c: &Content) -> u64 {
    match c {
        Content::Fixed(_, ino) => s().disk.size_of(*ino),
        _ => u64::MAX,
    }
}

/// Judge one block read against the file's content.
fn judge(path: &str, c: &Content, a: u64, b: u64, r: &Result<Vec<u8>, String>, t0: u64, sure: u64, size0: u64, what: &str) {
    // a file that somebody shortens: what the read can count on is what is left now
    let sure = sure.min(size_for(c));
    if let (Some(v), Content::Fixed(_, ino)) = (o().vers.get(path), c) {
        if v.clobbered.contains(ino) || (v.busy > 0 && s().disk.lookup(path) == Ok(*ino)) {
            return;
        }
    }
    let (len, fixed) = match c {
        Content::Fixed(d, _) => (d.len() as u64, true),
        Content::Rule(_, len) => (*len, true),
        Content::Growing(d, _, _) => (d.len() as u64, false),
    };
    let inside = a <= b && b <= len;
    let size = format!("{len} bytes{}", if fixed { "" } else { " when complete" });
    match r {
        Ok(d) => {
            o().reads_ok += 1;
            if a > b || (b > len.min(size0) && b > a) {
                viol("read-ok", format!("{what} {a}..{b} of {path} ({size}) succeeded with {} bytes", d.len()));
            } else if a == b {
                if !d.is_empty() {
                    viol("read-bytes", format!("{what} {a}..{b} of {path} returned {} bytes", d.len()));
                }
            } else {
                let mut rule = vec![];
                let want = match c {
                    Content::Rule(uid, len) if b - a > 1 << 24 => {
                        let diff = if d.len() as u64 == b - a { sampled_diff(*uid, *len, a, d) } else { Some(0) };
                        if diff.is_some() {
                            viol("read-bytes", format!("{what} {a}..{b} of {path} ({size}): got {} bytes, a difference at {diff:?}", d.len()));
                        }
                        return;
                    }
                    Content::Rule(uid, len) => {
                        rule.resize((b - a) as usize, 0);
                        fill_file(*uid, *len, a, &mut rule);
                        &rule[..]
                    }
                    Content::Fixed(img, _) | Content::Growing(img, _, _) => &img[a as usize..b as usize],
                };
                if d[..] != *want {
                    let diff = d.iter().zip(want).position(|(x, y)| x != y);
                    viol("read-bytes", format!("{what} {a}..{b} of {path} ({size}): got {} bytes, first difference at {diff:?}", d.len()));
                }
            }
        }
        Err(e) => {
            o().reads_err += 1;
            if inside && b <= sure && !o().shut_now && !read_fault(path, a, b, t0) {
                viol("read-err", format!("{what} {a}..{b} of {path} failed although the disk did not: {e}"));
            }
        }
    }
}

fn vers_of(cx: &RCtx, path: &str) -> &'static mut Vers {
    let f = cx.plan.fixtures.iter().find(|f| f.path == path);
    o().vers.entry(path.into()).or_insert_with(|| Vers { list: vec![f.map(|f| (f.uid, f.len))], ..Default::default() })
}

fn op_info(tag: u32) -> mk::OpInfo {
    match tag {
        0 => mk::OpInfo::GenericBlock,
        1 => mk::OpInfo::IndexBlock,
        n => mk::OpInfo::DataBlock { first_row_id: n - 2 },
    }
}

fn run_rop<'a>(cx: &'a RCtx, cur: &'a mut Cur, op: &'a ROp) -> LocalBoxFuture<'a, ()> {
    async move {
        cur.check_len();
        match op {
            ROp::Open(path) => {
                cur.reader = None;
                let t0 = now_step();
                let size0 = s().disk.size(path);
                let v0 = o().vers.get(path).map(|v| (v.list.len(), v.busy, v.begun));
                let r = store(mk::calls::new_reader(path.clone())).await;
                let size1 = s().disk.size(path);
                cur.ver = None;
                cur.ino = s().disk.lookup(path).unwrap_or(0);
                if let Some((n, busy, begun)) = v0 {
                    let v = &o().vers[path];
                    if busy > 0 || v.busy > 0 || v.unknown || (v.list.len() != n && v.begun != begun) {
                        return; // it may be any of several files
                    }
                    let could = &v.list[n - 1..];
                    match r {
                        Ok(r) => {
                            let l = r.len();
                            let fits: Vec<_> = could.iter().flatten().filter(|x| x.1 == l).collect();
                            if fits.is_empty() {
                                let kind = if could.iter().all(|x| x.is_none()) { "read-ok" } else { "read-len" };
                                viol(kind, format!("reader of {path} reports length {l}, the file was replaced before: {could:?}"));
                            }
                            if could.len() > 1 && fits.len() != 1 {
                                return; // could be either
                            }
                            cur.ver = fits.first().copied().or(could.iter().flatten().last()).copied();
                            // a file that was replaced meanwhile keeps its size
                            if cur.ver != *could.last().unwrap() {
                                cur.ino = u64::MAX;
                            }
                            if cur.ver.is_some() {
                                cur.reader = Some(Arc::new(r));
                                cur.len = l;
                                cur.path = path.clone();
                            }
                        }
                        Err(e) => {
                            let faulted = o().shut_now || s().faults.iter().any(|f| f.path == *path && f.step >= t0);
                            if could.iter().all(|x| x.is_some()) && !faulted {
                                viol("read-err", format!("opening {path} failed although the disk did not: {e}"));
                            }
                        }
                    }
                    return;
                }
                match r {
                    Ok(r) => {
                        let l = r.len();
                        let (a, b) = (size0.unwrap_or(0), size1.unwrap_or(0));
                        if l < a.min(b) || l > a.max(b) {
                            viol("read-len", format!("reader of {path} reports length {l}, the file had {size0:?} to {size1:?} bytes"));
                        }
                        cur.reader = Some(Arc::new(r));
                        cur.len = l;
                        cur.path = path.clone();
                    }
                    Err(e) => {
                        let faulted = o().shut_now || s().faults.iter().any(|f| f.path == *path && f.step >= t0);
                        if size0.is_some() && !faulted {
                            viol("read-err", format!("opening {path} failed although the disk did not: {e}"));
                        }
                    }
                }
            }
            ROp::OpenShared(path) => {
                if let Some(c) = o().shared.get(path) {
                    *cur = c.clone();
                    return;
                }
                run_rop(cx, cur, &ROp::Open(path.clone())).await;
                if cur.reader.is_some() && cur.path == *path {
                    o().shared.entry(path.clone()).or_insert(cur.clone());
                }
            }
            ROp::CloneReader => {
                if let Some(r) = &cur.reader {
                    cur.reader = Some(Arc::new((**r).clone()));
                }
            }
            ROp::DropReader => cur.reader = None,
            ROp::Sleep(us) => nap(Duration::from_micros(*us)).await,
            ROp::Join(ops) => {
                let n = ops.len();
                let mut curs: Vec<Cur> =
                    (0..n).map(|_| cur.clone()).collect();
                let futs: Vec<_> = ops.iter().zip(curs.iter_mut()).map(|(op, c)| run_rop(cx, c, op)).collect();
                futures::future::join_all(futs).await;
            }
            ROp::AwaitFlushed(n) => {
                let task = cx.plan.phases[cx.phase].tasks.iter().position(|t| matches!(t, Task::Raw(_)));
                for _ in 0..2000 {
                    let ob = o().raws.iter().find(|r| r.phase == cx.phase && Some(r.task) == task);
                    if let Some(r) = ob {
                        if r.done || r.flushed_blocks >= *n as usize {
                            break;
                        }
                    }
                    nap(Duration::from_micros(100)).await;
                }
            }
            ROp::Block(a, b) => {
                let Some(r) = cur.reader.clone() else { return };
                let Some(c) = cx.content(cur) else { return };
                let t0 = now_step();
                let sure = guaranteed_len(&c);
                let size0 = size_for(&c);
                let res = store(r.read_block(mk::block_range(*a, *b))).await.map_err(|e| e.to_string());
                judge(&cur.path, &c, *a, *b, &res, t0, sure, size0, "block read");
            }
            ROp::Again { start, end, n, what } => {
                let Some(r) = cur.reader.clone() else { return };
                let may = 4 * end.saturating_sub(*start) as i64 + 8192;
                let mut level = Level::new(*n);
                for i in 0..*n {
                    match what {
                        Again::Block => drop(store(r.read_block(mk::block_range(*start, *end))).await),
                        Again::Refused => {
                            let far = cur.len.saturating_add(1 + i as u64);
                            if let Ok(b) = store(r.read_block(mk::block_range(*start, far))).await {
                                drop(b);
                                viol("memory", format!("a block past the end of {} was read", cur.path));
                            }
                        }
                        Again::Batch => {
                            let ops = (0..4).map(|k| mk::read_op(*start, *end, op_info(2 + k))).collect();
                            let mut st = r.read_blocks(ops);
                            let mut left = if i % 2 == 0 { 9 } else { 2 };
                            while left > 0 && store(st.next()).await.is_some() {
                                left -= 1;
                            }
                        }
                        Again::Open => drop(store(mk::calls::new_reader(cur.path.clone())).await),
                        Again::GivenUp => {
                            let f = r.read_block(mk::block_range(*start, *end));
                            Limited { f: Box::pin(f), polls: 1 + i % 3 }.await;
                            if i % 8 == 7 {
                                nap(Duration::from_millis(50)).await;
                            }
                        }
                    }
                    level.tick("reading a block", may).await;
                }
            }
            ROp::CancelOpen(path, polls) => {
                let f = mk::calls::new_reader(path.clone());
                match (Limited { f: Box::pin(f), polls: *polls }).await {
                    None => o().cancelled += 1,
                    Some(r) => drop(r),
                }
            }
            ROp::Shorten(path, len) => {
                s().disk.shorten(path, *len);
                sim::mark("file shortened", *len, 0);
            }
            ROp::Remove(path) => {
                if cx.plan.fixtures.iter().any(|f| f.path == *path) && s().disk.lookup(path).is_ok() {
                    vers_of(cx, path).list.push(None);
                    let _ = s().disk.unlink(path);
                    sim::mark("file removed", 0, 0);
                }
            }
            ROp::Replace(path, uid, len, false) => {
                let f = Fixture { path: path.clone(), uid: *uid, len: *len };
                vers_of(cx, path).list.push(Some((*uid, *len)));
                s().disk.install(path, fixture_bytes(&f));
                sim::mark("file replaced", *len, 0);
            }
            ROp::Replace(path, uid, len, true) => {
                let v = vers_of(cx, path);
                v.busy += 1;
                v.begun += 1;
                let data = fixture_bytes(&Fixture { path: path.clone(), uid: *uid, len: *len });
                let old = s().disk.lookup(path);
                let res = async {
                    let w = store(mk::calls::new_writer(path.clone())).await;
                    if let (Ok(old), true) = (old, s().disk.lookup(path) == old) {
                        vers_of(cx, path).clobbered.push(old);
                    }
                    let mut w = w?;
                    for c in data.chunks(5000) {
                        store(mk::calls::write_block(&mut w, c)).await?;
                    }
                    store(mk::calls::flush(&mut w)).await
                }
                .await;
                let v = vers_of(cx, path);
                v.busy -= 1;
                if v.busy > 0 || res.is_err() {
                    v.unknown = true;
                } else {
                    v.list.push(Some((*uid, *len)));
                }
                sim::mark("file rewritten", *len, res.is_ok() as u64);
            }
            ROp::CancelBlock(a, b, polls) => {
                let Some(r) = cur.reader.clone() else { return };
                let f = r.read_block(mk::block_range(*a, *b));
                if (Limited { f: Box::pin(f), polls: *polls }).await.is_none() {
                    o().cancelled += 1;
                }
            }
            ROp::RawBlocks { blocks, batch } => {
                let Some(Content::Growing(img, bounds, oi)) = cx.content(cur) else { return };
                let _ = img;
                let sure_blocks = oi.map_or(0, |i| o().raws[i].flushed_blocks);
                let _ = sure_blocks;
                let wants: Vec<Want> = blocks
                    .iter()
                    .filter_map(|b| bounds.get(*b as usize).map(|x| Want { start: x.0, end: x.1, tag: *b + 2 }))
                    .collect();
                if *batch {
                    run_rop(cx, cur, &batch_of(wants)).await;
                } else {
                    for w in wants {
                        run_rop(cx, cur, &ROp::Block(w.start, w.end)).await;
                    }
                }
            }
            ROp::UnpolledBatch { wants } => {
                let Some(r) = cur.reader.clone() else { return };
                register_batch(&cur.path, wants);
                let ops = wants.iter().map(|w| mk::read_op(w.start, w.end, op_info(w.tag))).collect();
                let st = r.read_blocks(ops);
                nap(Duration::from_millis(300)).await;
                drop(st);
            }
            ROp::Batch { wants, take, think, between, drop_polls, impatient } => {
                let Some(r) = cur.reader.clone() else { return };
                let Some(c) = cx.content(cur) else { return };
                let path = cur.path.clone();
                register_batch(&path, wants);
                let t0 = now_step();
                let sure = guaranteed_len(&c);
                let size0 = size_for(&c);
                let ops = wants.iter().map(|w| mk::read_op(w.start, w.end, op_info(w.tag))).collect();
                let mut st = r.read_blocks(ops);
                if *think > 0 {
                    nap(Duration::from_micros(*think)).await;
                }
                let mut n = 0usize;
                loop {
                    if take.is_some_and(|t| n >= t as usize) {
                        o().cancelled += (n < wants.len()) as u64;
                        if *drop_polls > 0 {
                            if let Some(b) = o().batches.get_mut(&path) {
                                b.polled = true;
                                b.taken += 1;
                            }
                            Limited { f: Box::pin(st.next()), polls: *drop_polls }.await;
                        }
                        return;
                    }
                    if let Some(b) = o().batches.get_mut(&path) {
                        b.polled = true;
                    }
                    let mut gap = 300;
                    let item = loop {
                        if !*impatient {
                            break store(st.next()).await;
                        }
                        match (Limited { f: Box::pin(st.next()), polls: 1 }).await {
                            Some(x) => break x,
                            None => {
                                nap(Duration::from_micros(gap)).await;
                                gap += gap / 8;
                            }
                        }
                    };
                    let Some(item) = item else { break };
                    o().items += 1;
                    if let Some(b) = o().batches.get_mut(&path) {
                        b.taken += 1;
                    }
                    let Some(w) = wants.get(n) else {
                        viol("batch", format!("batch of {} blocks of {path} yields result {n}", wants.len()));
                        break;
                    };
                    let (res, tag) = match item {
                        Ok(b) => {
                            let (d, t) = mk::block_parts(b);
                            (Ok(d), t)
                        }
                        Err(e) => {
                            let (e, t) = mk::error_parts(e);
                            (Err(e.to_string()), t)
                        }
                    };
                    sim::mark("batch result", n as u64, res.is_ok() as u64);
                    if tag != op_info(w.tag) {
                        viol("batch", format!("result {n} of a batch of {path} carries tag {tag:?}, requested with {:?}", op_info(w.tag)));
                    }
                    judge(&path, &c, w.start, w.end, &res, t0, sure, size0, "block in batch");
                    n += 1;
                    // other work on the same task while the batch is open
                    for (k, op) in between {
                        if *k as usize == n {
                            let mut c = cur.clone();
                            run_rop(cx, &mut c, op).await;
                        }
                    }
                    if *think > 0 && n % 2 == 1 {
                        nap(Duration::from_micros(*think)).await;
                    }
                }
                if n != wants.len() && !o().shut_now {
                    viol("batch", format!("a batch of {} blocks of {path} ended after {n} results", wants.len()));
                }
            }
        }
    }
    .boxed_local()
}

fn batch_of(wants: Vec<Want>) -> ROp {
    ROp::Batch { wants, take: None, think: 0, between: vec![], drop_polls: 0, impatient: false }
}
fn register_batch(path: &str, wants: &[Want]) {
    if s().on_pread.is_some() {
        o().batches.insert(
            path.into(),
            BatchObs { wants: wants.iter().map(|w| (w.start, w.end)).collect(), ..Default::default() },
        );
    }
}
/// Invariant of the read-ahead scenario, evaluated whenever a disk read is about to start.
pub fn watch_pread(fd: i32, off: u64) {
    let Some(f) = s().disk.fds.get(&fd) else { return };
    let path = f.path.clone();
    let Some(b) = o().batches.get_mut(&path) else { return };
    let Some(k) = b.wants.iter().position(|(a, e)| off >= *a && off < *e) else { return };
    if !b.started.insert(k) {
        return;
    }
    if !b.polled {
        viol("readahead", format!("block {k} of a batch of {path} is read before the consumer asked for a result"));
    }
    let ahead = b.started.len().saturating_sub(b.taken);
    b.max_ahead = b.max_ahead.max(ahead);
    if ahead > 2 {
        viol(
            "readahead",
            format!("{} block reads of a batch of {path} started, only {} results taken", b.started.len(), b.taken),
        );
    }
}

// ---------------------------------------------------------------- running a phase
async fn run_task(plan: &'static Plan, phase: usize, ti: usize) {
    sim::on_side(true, task(plan, phase, ti)).await
}
async fn task(plan: &'static Plan, phase: usize, ti: usize) {
    o().active += 1;
    if o().active > 1 {
        o().overlap += 1;
    }
    match &plan.phases[phase].tasks[ti] {
        Task::Segs(v) => segs(phase, ti, v).await,
        Task::Pipe(p) => {
            let oi = o().segs.len();
            let started = now_step();
            o().segs.push(SegObs { phase, task: ti, pipe: true, started, ..Default::default() });
            end_attempt(oi, pipe_attempt(p, oi).await);
        }
        Task::Raw(r) => raw(phase, ti, r).await,
        Task::Read(r) => {
            let cx = RCtx { plan, phase };
            let mut cur = Cur::default();
            for op in &r.ops {
                run_rop(&cx, &mut cur, op).await;
            }
            cur.check_len();
        }
    }
    o().active -= 1;
    sim::mark("client done", ti as u64, 0);
}

fn current_rt(blocking: u32) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().max_blocking_threads(blocking as usize).build().unwrap()
}

/// What the root thread of a phase does.
pub fn root(plan: &'static Plan, phase: usize) {
    let p = &plan.phases[phase];
    let n = p.tasks.len();
    o().shut_now = false;
    o().shutting = false;
    // what a crash left behind
    std::mem::forget(std::mem::take(&mut o().shared));
    for t in &p.tasks {
        let Task::Read(r) = t else { continue };
        for op in &r.ops {
            if let ROp::Replace(path, ..) | ROp::Remove(path) = op {
                vers_of(&RCtx { plan, phase }, path);
            }
        }
    }
    let quiesce = || {
        let _side = sim::side(true);
        o().shared.clear();
        // nobody starts anything any more: whatever is still in flight finishes during this pause
        s().rates.clock_jump = 0;
        for _ in 0..300 {
            let n = s().phase_fs_ops;
            std::thread::sleep(Duration::from_secs(60));
            if s().delayed == 0 && s().phase_fs_ops == n {
                break;
            }
        }
        let open: Vec<String> = s().disk.fds.values().map(|f| f.path.clone()).collect();
        if !open.is_empty() {
            viol("fd-leak", format!("{} handles still open after all clients finished: {:?}", open.len(), open));
        }
    };
    match p.rt {
        Rt::Local => {
            let rt = current_rt(p.blocking);
            let local = tokio::task::LocalSet::new();
            local.block_on(&rt, async {
                let hs: Vec<_> = (0..n).map(|i| tokio::task::spawn_local(run_task(plan, phase, i))).collect();
                for h in hs {
                    let _ = h.await;
                }
            });
            quiesce();
            drop(local);
            drop(rt);
        }
        Rt::Threads => {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    std::thread::spawn(move || {
                        let rt = current_rt(p.blocking);
                        rt.block_on(run_task(plan, phase, i));
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            quiesce();
        }
        Rt::Shared(w) => {
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(w as usize)
                .max_blocking_threads(p.blocking as usize)
                .enable_time()
                .build()
                .unwrap();
            o().shutting = p.shutdown.is_some();
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let h = rt.handle().clone();
                    std::thread::spawn(move || h.block_on(run_task(plan, phase, i)))
                })
                .collect();
            let mut rt = Some(rt);
            let panics = s().panics.len();
            if let Some((us, how)) = p.shutdown {
                std::thread::sleep(Duration::from_micros(us));
                sim::mark("runtime shutdown", how as u64, 0);
                *s().stats.faults.entry("runtime shutdown".into()).or_insert(0) += 1;
                o().shut.insert(phase, now_step());
                o().shut_now = true;
                let rt = rt.take().unwrap();
                match how {
                    0 => rt.shutdown_background(),
                    1 => rt.shutdown_timeout(Duration::from_millis(5)),
                    _ => drop(rt),
                }
            }
            for h in hs {
                let _ = h.join();
            }
            if p.shutdown.is_some() {
                // that operations give up by panicking then is not held against them
                s().panics.truncate(panics);
            }
            quiesce();
            drop(rt);
        }
    }
}

/// Read the whole of a file through meerkat's reader: opened once, `cuts` read as one batch.
pub fn read_file(path: &str, cuts: &[(u64, u64)]) -> Result<(u64, Vec<Vec<u8>>), String> {
    let rt = current_rt(4);
    rt.block_on(async {
        let r = mk::calls::new_reader(path.into()).await.map_err(|e| format!("cannot open {path}: {e}"))?;
        let len = r.len();
        let ops: Vec<_> = cuts
            .iter()
            .enumerate()
            .map(|(i, c)| mk::read_op(c.0, c.1, mk::OpInfo::DataBlock { first_row_id: i as u32 }))
            .collect();
        let mut out = vec![];
        let mut st = r.read_blocks(ops);
        while let Some(x) = st.next().await {
            match x {
                Ok(b) => out.push(mk::block_parts(b).0),
                Err(e) => return Err(format!("cannot read block {} of {path}: {:?}", out.len(), mk::error_parts(e).0)),
            }
        }
        Ok((len, out))
    })
}
