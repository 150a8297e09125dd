//! Global allocator. Outside a simulated run: the system's. Inside one: a deterministic
//! size-class allocator over a fixed address range, so that addresses are a function of the run
//! alone, and memory has a hard limit. It needs no lock: only the thread holding the baton runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{addr_of_mut, null_mut};

pub const BASE: usize = 0x5000_0000_0000;
/// a request that would exceed this makes the allocation fail, which aborts the process
pub const LIMIT: usize = 1 << 30;
const SPACE: usize = 1 << 32;
static mut CAP: usize = LIMIT;
/// the run is over: its report may use more
pub fn lift() {
    unsafe { CAP = SPACE }
}

/// Blocks of gigabytes, for reads of that size: a region of its own, never reused, its pages given
/// back when freed. Off unless the plan asks for it.
const GIANTS: usize = 0x6000_0000_0000;
const GIANT_SPACE: usize = 1 << 37;
const GIANT_MAX: usize = 3 << 32;
static mut GIANT_NEXT: usize = 0;
pub fn enable_giants() {
    unsafe {
        let p = libc::mmap(
            GIANTS as *mut _,
            GIANT_SPACE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert_eq!(p as usize, GIANTS, "cannot map the region for giants");
        GIANT_NEXT = GIANTS;
        // one such run at a time: changed code may fill the memory it asks for
        let fd = libc::open(c"/proc/self/exe".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC);
        libc::flock(fd, libc::LOCK_EX);
    }
}
fn is_giant(a: usize) -> bool {
    (GIANTS..GIANTS + GIANT_SPACE).contains(&a)
}
/// Make this memory read as zero without occupying memory, where that is possible.
pub fn zero(b: &mut [u8]) {
    let a = b.as_mut_ptr() as usize;
    let (lo, hi) = ((a + 4095) & !4095, (a + b.len()) & !4095);
    if is_giant(a) && lo < hi {
        unsafe { libc::madvise(lo as *mut _, hi - lo, libc::MADV_DONTNEED) };
        b[..lo - a].fill(0);
        b[hi - a..].fill(0);
    } else {
        b.fill(0);
    }
}

pub struct Arena;
static mut ON: bool = false;
static mut NEXT: usize = BASE;
static mut FREE: [usize; 64] = [0; 64];

pub fn enable() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SPACE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert_eq!(p as usize, BASE, "cannot map the arena");
        ON = true;
    }
}

// ---- what the code under test holds: everything but what the simulator allocates for itself
thread_local! {
    static OWN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;
/// While this exists, allocations of this thread are the simulator's own.
pub struct Own(());
pub fn own() -> Own {
    OWN.with(|d| d.set(d.get() + 1));
    Own(())
}
impl Drop for Own {
    fn drop(&mut self) {
        OWN.with(|d| d.set(d.get() - 1));
    }
}
fn count(n: i64) {
    if OWN.try_with(|d| d.get() == 0).unwrap_or(false) {
        unsafe {
            LIVE += n;
            PEAK = PEAK.max(LIVE);
        }
    }
}
/// Start to measure; returns what is in use.
pub fn measure() -> i64 {
    unsafe {
        PEAK = LIVE;
        LIVE
    }
}
/// what is in use, and the most since `measure`
pub fn measured() -> (i64, i64) {
    unsafe { (LIVE, PEAK) }
}

pub fn used() -> usize {
    unsafe { NEXT - BASE }
}

#[inline]
fn class(size: usize, align: usize) -> usize {
    let n = size.max(align).max(16);
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc(l);
        }
        if GIANT_NEXT != 0 && l.size() > LIMIT && l.size() <= GIANT_MAX && l.align() <= 4096 {
            let sz = (l.size() + 8191) & !4095;
            if GIANT_NEXT + sz > GIANTS + GIANT_SPACE {
                return null_mut();
            }
            GIANT_NEXT += sz;
            return (GIANT_NEXT - sz) as *mut u8;
        }
        if l.size() > CAP || l.align() > 4096 {
            return null_mut();
        }
        let c = class(l.size(), l.align());
        count(l.size() as i64);
        let free = addr_of_mut!(FREE) as *mut usize;
        let head = *free.add(c);
        if head != 0 {
            *free.add(c) = *(head as *const usize);
            return head as *mut u8;
        }
        let sz = 1usize << c;
        let al = sz.min(4096);
        let p = (NEXT + al - 1) & !(al - 1);
        if p + sz > BASE + CAP {
            return null_mut();
        }
        NEXT = p + sz;
        p as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let fresh = NEXT;
        let p = self.alloc(l);
        // memory that was never handed out is still zero
        if !p.is_null() && !(ON && (p as usize >= fresh || is_giant(p as usize))) {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if is_giant(a) {
            libc::madvise(p as *mut _, (l.size() + 4095) & !4095, libc::MADV_DONTNEED);
            return;
        }
        if a < BASE || a >= BASE + SPACE {
            if !ON {
                System.dealloc(p, l);
            }
            // memory of the time before the run is simply kept
            return;
        }
        let c = class(l.size(), l.align());
        count(-(l.size() as i64));
        let free = addr_of_mut!(FREE) as *mut usize;
        *(p as *mut usize) = *free.add(c);
        *free.add(c) = a;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        if a >= BASE && a < BASE + SPACE && class(l.size(), l.align()) == class(n, l.align()) {
            count(n as i64 - l.size() as i64);
            return p;
        }
        if !ON {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
