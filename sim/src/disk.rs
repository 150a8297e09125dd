//! The simulated disk: an in-memory file system that distinguishes what a running
//! system sees (volatile) from what survives a power loss (durable).
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const ROOT: &str = "/simdisk";
/// A path as the kernel takes it: relative ones start at the working directory of the simulated process.
pub fn absolute(path: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let cwd = if path.starts_with('/') { "" } else { crate::plan::DIR };
    for c in cwd.split('/').chain(path.split('/')) {
        match c {
            "" | "." => {}
            ".." => drop(out.pop()),
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

#[derive(Clone, Debug)]
pub enum Pending {
    Write { off: u64, data: Vec<u8> },
    Trunc { len: u64 },
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Set(String, u64),
    Del(String),
    Move(String, String, u64),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub is_dir: bool,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<Pending>,
    pub entries: BTreeMap<String, u64>,
    pub durable_entries: BTreeMap<String, u64>,
    pub pending_dir: Vec<DirOp>,
    /// a huge read-only test file: (uid, length), its bytes are computed when read
    pub virt: Option<(u64, u64)>,
    /// the number `stat` shows: given again to other files once this one is gone
    pub num: u64,
    /// time of the last change, as coarse as the kernel's clock
    pub mtime: u64,
    /// of a file that only keeps its ends: what it begins with, and where `data` starts
    pub head: Vec<u8>,
    pub base: u64,
}

/// The bytes of a file, or of its ends.
#[derive(Clone, Copy)]
pub struct Bytes<'a> {
    head: &'a [u8],
    base: u64,
    tail: &'a [u8],
}
impl<'a> Bytes<'a> {
    pub fn len(&self) -> u64 {
        self.base + self.tail.len() as u64
    }
    pub fn get(&self, a: u64, b: u64) -> Option<&'a [u8]> {
        if a < self.base {
            self.head.get(a as usize..b as usize)
        } else {
            self.tail.get((a - self.base) as usize..b.checked_sub(self.base)? as usize)
        }
    }
    /// The middle of the file was not kept.
    pub fn lacks(&self, a: u64, b: u64) -> bool {
        a <= b && b <= self.len() && self.get(a, b).is_none()
    }
    /// all of it, where all was kept
    pub fn all(&self) -> &'a [u8] {
        self.tail
    }
}
impl<'a> From<&'a [u8]> for Bytes<'a> {
    fn from(d: &'a [u8]) -> Self {
        Bytes { head: &[], base: 0, tail: d }
    }
}
const SINK_HEAD: usize = 1 << 16;
const SINK_DROP: usize = 24 << 20;

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: u64,
    /// shared by the descriptors that were duplicated from one another
    pub pos: std::rc::Rc<std::cell::Cell<u64>>,
    pub flags: i32,
    pub path: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CrashMode {
    /// the process dies, the page cache survives
    Kill,
    /// power loss: nothing that was not synced survives
    PowerStrict,
    /// power loss: a random subset of unsynced writes survives, some torn
    PowerRandom,
    /// power loss: everything but directory entries that were not synced survives
    PowerDirs,
}

#[derive(Default)]
pub struct Disk {
    pub inodes: BTreeMap<u64, Inode>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_ino: u64,
    pub first_fd: i32,
    pub max_fd: i32,
    pub capacity: Option<u64>,
    /// fsync of a file also makes its directory entry durable (ext4-like) when false
    pub strict_dirs: bool,
    pub opened: u64,
    pub sink: bool,
}

pub const FIRST_FD: i32 = 1 << 20;
/// file systems stamp files with the time of the last tick
fn coarse_now() -> u64 {
    if crate::sim::exists() {
        (crate::sim::s().now + crate::sim::s().wall) / 4_000_000 * 4_000_000
    } else {
        0
    }
}

impl Inode {
    fn new(is_dir: bool) -> Self {
        Inode {
            is_dir,
            data: vec![],
            durable: vec![],
            pending: vec![],
            entries: BTreeMap::new(),
            durable_entries: BTreeMap::new(),
            pending_dir: vec![],
            virt: None,
            num: 0,
            mtime: 0,
            head: vec![],
            base: 0,
        }
    }
    pub fn size(&self) -> u64 {
        self.virt.map_or(self.base + self.data.len() as u64, |v| v.1)
    }
}

fn apply(buf: &mut Vec<u8>, p: &Pending, keep: usize) {
    match p {
        Pending::Write { off, data } => {
            let n = keep.min(data.len());
            if n == 0 {
                return;
            }
            let end = *off as usize + n;
            if buf.len() < end {
                buf.resize(end, 0);
            }
            buf[*off as usize..end].copy_from_slice(&data[..n]);
        }
        Pending::Trunc { len } => buf.resize(*len as usize, 0),
    }
}

pub type R<T> = Result<T, i32>;

impl Disk {
    pub fn new() -> Self {
        let mut d = Disk { next_ino: 2, first_fd: FIRST_FD, max_fd: FIRST_FD, strict_dirs: true, ..Default::default() };
        d.inodes.insert(1, Inode::new(true));
        d
    }

    fn comps(path: &str) -> Vec<&str> {
        let rest = path.strip_prefix(ROOT).unwrap_or(path);
        let mut v = vec![];
        for c in rest.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        v
    }

    pub fn lookup(&self, path: &str) -> R<u64> {
        let mut ino = 1u64;
        for c in Self::comps(path) {
            let i = &self.inodes[&ino];
            if !i.is_dir {
                return Err(libc::ENOTDIR);
            }
            ino = *i.entries.get(c).ok_or(libc::ENOENT)?;
        }
        Ok(ino)
    }

    fn parent(&self, path: &str) -> R<(u64, String)> {
        let c = Self::comps(path);
        let (last, dir) = c.split_last().ok_or(libc::EEXIST)?;
        let ino = self.lookup(&dir.join("/"))?;
        if !self.inodes[&ino].is_dir {
            return Err(libc::ENOTDIR);
        }
        if last.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        Ok((ino, last.to_string()))
    }

    fn set_entry(&mut self, dir: u64, name: &str, ino: u64) {
        let d = self.inodes.get_mut(&dir).unwrap();
        d.entries.insert(name.into(), ino);
        d.mtime = coarse_now();
        d.pending_dir.push(DirOp::Set(name.into(), ino));
    }
    fn del_entry(&mut self, dir: u64, name: &str) {
        let d = self.inodes.get_mut(&dir).unwrap();
        d.entries.remove(name);
        d.mtime = coarse_now();
        d.pending_dir.push(DirOp::Del(name.into()));
    }

    pub fn mkdir(&mut self, path: &str) -> R<()> {
        let _own = crate::alloc::own();
        let (p, n) = self.parent(path)?;
        if self.inodes[&p].entries.contains_key(&n) {
            return Err(libc::EEXIST);
        }
        let ino = self.next_ino;
        self.next_ino += 1;
        let mut i = Inode::new(true);
        i.num = self.free_num();
        self.inodes.insert(ino, i);
        self.set_entry(p, &n, ino);
        Ok(())
    }

    pub fn open(&mut self, path: &str, flags: i32) -> R<i32> {
        let _own = crate::alloc::own();
        let acc = flags & libc::O_ACCMODE;
        let ino = match self.lookup(path) {
            Ok(ino) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if self.inodes[&ino].is_dir && (acc != libc::O_RDONLY || flags & libc::O_CREAT != 0) {
                    return Err(libc::EISDIR);
                }
                if !self.inodes[&ino].is_dir && flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                ino
            }
            Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
                let (p, n) = self.parent(path)?;
                let ino = self.next_ino;
                self.next_ino += 1;
                let mut i = Inode::new(false);
                i.num = self.free_num();
                i.mtime = coarse_now();
                self.inodes.insert(ino, i);
                self.set_entry(p, &n, ino);
                ino
            }
            Err(e) => return Err(e),
        };
        if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
            self.truncate(ino, 0);
        }
        let fd = self.free_fd();
        self.opened += 1;
        self.fds.insert(fd, OpenFile { ino, pos: Default::default(), flags, path: path.into() });
        Ok(fd)
    }

    /// The lowest free descriptor, as the kernel hands them out.
    pub fn free_fd(&mut self) -> i32 {
        let mut n = self.first_fd;
        for k in self.fds.range(n..).map(|x| *x.0) {
            if k > n {
                break;
            }
            n = k + 1;
        }
        self.max_fd = self.max_fd.max(n);
        n
    }
    /// A new incarnation: all handles are gone, and none of their numbers is used again.
    pub fn drop_fds(&mut self) {
        self.fds.clear();
        self.first_fd = self.max_fd + 1;
    }
    /// The lowest inode number not in use, as file systems like to hand them out.
    fn free_num(&self) -> u64 {
        let mut used: std::collections::BTreeSet<u64> = self.fds.values().map(|f| self.inodes[&f.ino].num).collect();
        for d in self.inodes.values().filter(|i| i.is_dir) {
            used.extend(d.entries.values().map(|i| self.inodes[i].num));
        }
        (12..).find(|n| !used.contains(n)).unwrap()
    }

    pub fn truncate(&mut self, ino: u64, len: u64) {
        let _own = crate::alloc::own();
        let i = self.inodes.get_mut(&ino).unwrap();
        i.mtime = coarse_now();
        if i.data.len() as u64 != len {
            i.data.resize(len as usize, 0);
            i.pending.push(Pending::Trunc { len });
        }
    }

    pub fn used(&self) -> u64 {
        self.inodes.values().map(|i| i.data.len() as u64).sum()
    }

    /// Write at most `data.len()` bytes at `off`; honours the capacity (short write, then ENOSPC).
    pub fn write_at(&mut self, ino: u64, off: u64, data: &[u8]) -> R<usize> {
        let _own = crate::alloc::own();
        let mut n = data.len();
        if let Some(i) = self.inodes.get_mut(&ino) {
            i.mtime = coarse_now();
        }
        if self.sink {
            let i = self.inodes.get_mut(&ino).unwrap();
            let Some(off) = off.checked_sub(i.base) else { return Err(libc::EIO) };
            let end = off as usize + n;
            if i.data.len() < end {
                i.data.resize(end, 0);
            }
            i.data[off as usize..end].copy_from_slice(data);
            if i.data.len() > 2 * SINK_DROP {
                if i.base == 0 {
                    i.head = i.data[..SINK_HEAD].to_vec();
                }
                i.data.drain(..SINK_DROP);
                i.base += SINK_DROP as u64;
            }
            return Ok(n);
        }
        if let Some(cap) = self.capacity {
            let cur = self.inodes[&ino].data.len() as u64;
            let others = self.used() - cur;
            let max_end = cap.saturating_sub(others);
            if off + n as u64 > max_end.max(cur) {
                let room = max_end.max(cur).saturating_sub(off) as usize;
                if room == 0 && n > 0 {
                    return Err(libc::ENOSPC);
                }
                n = n.min(room);
            }
        }
        let p = Pending::Write { off, data: data[..n].to_vec() };
        let i = self.inodes.get_mut(&ino).unwrap();
        apply(&mut i.data, &p, n);
        i.pending.push(p);
        Ok(n)
    }

    pub fn read_at(&self, ino: u64, off: u64, buf: &mut [u8]) -> usize {
        if let Some((uid, len)) = self.inodes[&ino].virt {
            let n = len.saturating_sub(off).min(buf.len() as u64) as usize;
            // no request transfers more than this
            let n = n.min(0x7fff_f000);
            crate::client::fill_file(uid, len, off, &mut buf[..n]);
            return n;
        }
        let i = &self.inodes[&ino];
        let (d, off) = if off < i.base { (&i.head, off) } else { (&i.data, off - i.base) };
        if off >= d.len() as u64 {
            return 0;
        }
        let s = &d[off as usize..];
        let n = s.len().min(buf.len());
        buf[..n].copy_from_slice(&s[..n]);
        n
    }

    pub fn fsync(&mut self, ino: u64) {
        let _own = crate::alloc::own();
        let strict = self.strict_dirs;
        let i = self.inodes.get_mut(&ino).unwrap();
        if i.is_dir {
            i.durable_entries = i.entries.clone();
            i.pending_dir.clear();
            return;
        }
        if !self.sink {
            i.durable = i.data.clone();
        }
        i.pending.clear();
        if !strict {
            // ext4-like: the file's own directory entries become durable with it
            for d in self.inodes.values_mut().filter(|d| d.is_dir) {
                let names: Vec<String> = d.entries.iter().filter(|(_, v)| **v == ino).map(|(k, _)| k.clone()).collect();
                for n in names {
                    d.durable_entries.insert(n.clone(), ino);
                    d.pending_dir.retain(|o| !matches!(o, DirOp::Set(k, v) if *k == n && *v == ino));
                }
            }
        }
    }

    /// A failed fsync: some dirty pages are dropped (marked clean without reaching the disk), the
    /// running system keeps seeing them.
    pub fn fsync_failed(&mut self, ino: u64, rng: &mut Rng) {
        let _own = crate::alloc::own();
        let i = self.inodes.get_mut(&ino).unwrap();
        if i.is_dir {
            return;
        }
        let pend = std::mem::take(&mut i.pending);
        for p in &pend {
            if rng.one_in(2) {
                apply(&mut i.durable, p, usize::MAX);
            }
        }
    }

    pub fn unlink(&mut self, path: &str) -> R<()> {
        let _own = crate::alloc::own();
        let ino = self.lookup(path)?;
        if self.inodes[&ino].is_dir {
            return Err(libc::EISDIR);
        }
        let (p, n) = self.parent(path)?;
        self.del_entry(p, &n);
        Ok(())
    }

    pub fn rmdir(&mut self, path: &str) -> R<()> {
        let _own = crate::alloc::own();
        let ino = self.lookup(path)?;
        if !self.inodes[&ino].is_dir {
            return Err(libc::ENOTDIR);
        }
        if !self.inodes[&ino].entries.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        let (p, n) = self.parent(path)?;
        self.del_entry(p, &n);
        Ok(())
    }

    pub fn rename(&mut self, a: &str, b: &str) -> R<()> {
        let _own = crate::alloc::own();
        let ino = self.lookup(a)?;
        let (pa, na) = self.parent(a)?;
        let (pb, nb) = self.parent(b)?;
        if pa == pb {
            let d = self.inodes.get_mut(&pa).unwrap();
            d.entries.remove(&na);
            d.entries.insert(nb.clone(), ino);
            d.mtime = coarse_now();
            d.pending_dir.push(DirOp::Move(na, nb, ino));
        } else {
            self.del_entry(pa, &na);
            self.set_entry(pb, &nb, ino);
        }
        Ok(())
    }

    pub fn link(&mut self, a: &str, b: &str) -> R<()> {
        let _own = crate::alloc::own();
        let ino = self.lookup(a)?;
        let (pb, nb) = self.parent(b)?;
        if self.inodes[&pb].entries.contains_key(&nb) {
            return Err(libc::EEXIST);
        }
        self.set_entry(pb, &nb, ino);
        Ok(())
    }

    /// What is left after a crash becomes the state the next incarnation starts from.
    pub fn crash(&mut self, mode: CrashMode, rng: &mut Rng) {
        let _own = crate::alloc::own();
        self.fds.clear();
        if mode == CrashMode::Kill {
            return;
        }
        // per crash: how likely unsynced effects survive (0%, 50%, 90%)
        let (file_keep, dir_keep): (u32, u32) = match mode {
            CrashMode::PowerStrict => (0, 0),
            CrashMode::PowerDirs => (10_000, 0),
            _ => (*rng.pick(&[0, 2000, 5000, 9000]), *rng.pick(&[0, 5000, 10_000])),
        };
        for i in self.inodes.values_mut() {
            if i.is_dir {
                let ops = std::mem::take(&mut i.pending_dir);
                for o in &ops {
                    if rng.p(dir_keep) {
                        match o {
                            DirOp::Set(n, ino) => {
                                i.durable_entries.insert(n.clone(), *ino);
                            }
                            DirOp::Del(n) => {
                                i.durable_entries.remove(n);
                            }
                            DirOp::Move(a, b, ino) => {
                                i.durable_entries.remove(a);
                                i.durable_entries.insert(b.clone(), *ino);
                            }
                        }
                    }
                }
                i.entries = i.durable_entries.clone();
            } else {
                let pend = std::mem::take(&mut i.pending);
                for p in &pend {
                    if rng.p(file_keep) {
                        let torn = mode == CrashMode::PowerRandom && rng.one_in(4);
                        let keep = match p {
                            Pending::Write { data, .. } if torn => rng.below(data.len() as u64 + 1) as usize,
                            _ => usize::MAX,
                        };
                        apply(&mut i.durable, p, keep);
                    }
                }
                i.data = i.durable.clone();
            }
        }
        // drop inodes that are no longer reachable
        let mut live = vec![1u64];
        let mut k = 0;
        while k < live.len() {
            let e: Vec<u64> = self.inodes[&live[k]].entries.values().copied().collect();
            for x in e {
                if self.inodes.contains_key(&x) && !live.contains(&x) {
                    live.push(x);
                }
            }
            k += 1;
        }
        self.inodes.retain(|k, _| live.contains(k));
        let have: Vec<u64> = self.inodes.keys().copied().collect();
        for i in self.inodes.values_mut() {
            i.entries.retain(|_, v| have.contains(v));
            i.durable_entries = i.entries.clone();
        }
    }

    pub fn contents(&self, path: &str) -> Option<&Vec<u8>> {
        let ino = self.lookup(path).ok()?;
        let i = &self.inodes[&ino];
        if i.is_dir {
            None
        } else {
            Some(&i.data)
        }
    }

    pub fn bytes(&self, path: &str) -> Option<Bytes<'_>> {
        let i = &self.inodes[&self.lookup(path).ok()?];
        (!i.is_dir).then(|| Bytes { head: &i.head, base: i.base, tail: &i.data })
    }

    pub fn list(&self, path: &str) -> Vec<String> {
        match self.lookup(path) {
            Ok(i) => self.inodes[&i].entries.keys().cloned().collect(),
            Err(_) => vec![],
        }
    }

    /// Put a file there directly, already durable (test fixture).
    pub fn install(&mut self, path: &str, data: Vec<u8>) {
        let (p, n) = self.parent(path).unwrap();
        let ino = self.next_ino;
        self.next_ino += 1;
        let mut i = Inode::new(false);
        i.num = self.free_num();
        i.mtime = coarse_now();
        i.durable = data.clone();
        i.data = data;
        self.inodes.insert(ino, i);
        let d = self.inodes.get_mut(&p).unwrap();
        d.entries.insert(n.clone(), ino);
        d.durable_entries.insert(n, ino);
    }

    /// A huge file whose bytes are computed from their offset.
    pub fn install_virtual(&mut self, path: &str, uid: u64, len: u64) {
        self.install(path, vec![]);
        let ino = self.lookup(path).unwrap();
        self.inodes.get_mut(&ino).unwrap().virt = Some((uid, len));
    }

    pub fn size(&self, path: &str) -> Option<u64> {
        let i = &self.inodes[&self.lookup(path).ok()?];
        (!i.is_dir).then(|| i.size())
    }

    pub fn size_of(&self, ino: u64) -> u64 {
        self.inodes.get(&ino).map_or(u64::MAX, |i| i.size())
    }

    /// A test file is cut short by somebody else.
    pub fn shorten(&mut self, path: &str, len: u64) {
        let Ok(ino) = self.lookup(path) else { return };
        let i = self.inodes.get_mut(&ino).unwrap();
        if i.virt.is_none() && len < i.data.len() as u64 {
            i.data.truncate(len as usize);
            i.durable.truncate(len as usize);
        }
    }

    /// mkdir that is already durable (test fixture).
    pub fn install_dir(&mut self, path: &str) {
        self.mkdir(path).unwrap();
        let (p, _) = self.parent(path).unwrap();
        self.fsync(p);
    }
}
