//! The seam: C library entry points defined by this binary, so that std and tokio running on a
//! simulated thread reach the simulator instead of the kernel. Calls from other threads, and on
//! paths or descriptors that are not simulated, go to the kernel unchanged.
#![allow(clippy::missing_safety_doc)]
use crate::disk::ROOT;
use crate::sim::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn err(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
unsafe fn real(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r = sys(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return err(-r as i32);
    }
    r
}
fn sim_path(p: *const c_char) -> Option<String> {
    if !in_sim() || p.is_null() {
        return None;
    }
    let b = unsafe { CStr::from_ptr(p) }.to_bytes();
    if b.is_empty() {
        return None; // ENOENT, also from the kernel
    }
    if b[0] != b'/' || b.starts_with(ROOT.as_bytes()) && (b.len() == ROOT.len() || b[ROOT.len()] == b'/') {
        Some(crate::disk::absolute(&String::from_utf8_lossy(b)))
    } else {
        None
    }
}
fn sim_fd(fd: c_int) -> bool {
    fd >= crate::disk::FIRST_FD && exists()
}
/// (inode, path, is a directory, flags) of an open simulated descriptor
fn info(fd: c_int) -> Result<(u64, String, bool, i32), i32> {
    let d = &s().disk;
    let f = d.fds.get(&fd).ok_or(libc::EBADF)?;
    Ok((f.ino, f.path.clone(), d.inodes[&f.ino].is_dir, f.flags))
}
type Res = Result<i64, i32>;
unsafe fn fin(r: Res) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => err(e),
    }
}
fn logged(op: Op, path: &str, a: u64, b: u64, f: Option<Fault>, r: Res) -> Res {
    let v = match r {
        Ok(v) => v,
        Err(e) => -(e as i64),
    };
    leave(op, path, a, b, v, f);
    r
}
fn fault_err(f: &Option<Fault>) -> Option<i32> {
    match f {
        Some(Fault::Errno(e)) => Some(*e),
        Some(Fault::Eintr) => Some(libc::EINTR),
        Some(Fault::FsyncLost) => Some(libc::EIO),
        _ => None,
    }
}

// ---------------------------------------------------------------- files
fn do_open(path: String, flags: c_int) -> Res {
    let is_dir = s().disk.lookup(&path).map(|i| s().disk.inodes[&i].is_dir).unwrap_or(false);
    let f = enter(Op::Open, &path, is_dir, 0, 0);
    let r = match fault_err(&f) {
        Some(e) => Err(e),
        None => s().disk.open(&path, flags).map(|x| x as i64),
    };
    logged(Op::Open, &path, flags as u64, 0, f, r)
}
fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> Res {
    let (ino, path, is_dir, flags) = info(fd)?;
    if is_dir || flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    // the request keeps the open file, whatever becomes of its descriptor
    let pos = s().disk.fds[&fd].pos.clone();
    let off0 = at.unwrap_or(pos.get());
    let f = enter(Op::Write, &path, false, off0, buf.len() as u64);
    let d = &mut s().disk;
    let off = if flags & libc::O_APPEND != 0 {
        d.inodes[&ino].size()
    } else {
        at.unwrap_or(pos.get())
    };
    let r = match fault_err(&f) {
        Some(e) => Err(e),
        None => {
            let n = match f {
                Some(Fault::Short(n)) => (n as usize).min(buf.len()),
                _ => buf.len(),
            };
            d.write_at(ino, off, &buf[..n]).map(|n| n as i64)
        }
    };
    if let (Ok(n), None) = (&r, at) {
        pos.set(off + *n as u64);
        if flags & (libc::O_SYNC | libc::O_DSYNC) != 0 {
            d.fsync(ino);
        }
    }
    if r == Err(libc::ENOSPC) && !f.as_ref().is_some_and(Fault::hard) {
        *s().stats.faults.entry("disk full".into()).or_insert(0) += 1;
        let step = s().steps;
        s().faults.push(FaultEv { op: Op::Write, path: path.clone(), off, step, fault: Fault::Errno(libc::ENOSPC) });
    }
    logged(Op::Write, &path, off, buf.len() as u64, f, r)
}
fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>) -> Res {
    let (ino, path, is_dir, flags) = info(fd)?;
    if is_dir {
        return Err(libc::EISDIR);
    }
    if flags & libc::O_ACCMODE == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    let pos = s().disk.fds[&fd].pos.clone();
    let off = at.unwrap_or(pos.get());
    if let Some(cb) = s().on_pread {
        cb(fd, off);
    }
    let f = enter(Op::Read, &path, false, off, buf.len() as u64);
    let off = at.unwrap_or(pos.get());
    let r = match fault_err(&f) {
        Some(e) => Err(e),
        None => {
            let n = match f {
                Some(Fault::Short(n)) => (n as usize).min(buf.len()),
                _ => buf.len(),
            };
            Ok(s().disk.read_at(ino, off, &mut buf[..n]) as i64)
        }
    };
    if let (Ok(n), None) = (&r, at) {
        pos.set(off + *n as u64);
    }
    logged(Op::Read, &path, off, buf.len() as u64, f, r)
}
fn do_sync(fd: c_int) -> Res {
    let (ino, path, is_dir, _) = info(fd)?;
    let f = enter(Op::Fsync, &path, is_dir, 0, 0);
    let d = &mut s().disk;
    let r = match (&f, fault_err(&f)) {
        (Some(Fault::FsyncLost), Some(e)) => {
            let mut rng = crate::rng::Rng::new(s().steps ^ 0x5157);
            d.fsync_failed(ino, &mut rng);
            Err(e)
        }
        (_, Some(e)) => Err(e),
        _ => {
            d.fsync(ino);
            Ok(0)
        }
    };
    logged(Op::Fsync, &path, 0, 0, f, r)
}
fn do_trunc(fd: c_int, len: u64) -> Res {
    let (ino, path, _, _) = info(fd)?;
    let f = enter(Op::Trunc, &path, false, len, 0);
    let r = match fault_err(&f) {
        Some(e) => Err(e),
        None => {
            s().disk.truncate(ino, len);
            Ok(0)
        }
    };
    logged(Op::Trunc, &path, len, 0, f, r)
}
fn do_close(fd: c_int) -> Res {
    if !in_sim() {
        return s().disk.fds.remove(&fd).map(|_| 0).ok_or(libc::EBADF);
    }
    let (_, path, is_dir, _) = info(fd)?;
    enter(Op::Close, &path, is_dir, 0, 0);
    s().disk.fds.remove(&fd);
    logged(Op::Close, &path, 0, 0, None, Ok(0))
}
fn do_seek(fd: c_int, off: i64, whence: c_int) -> Res {
    let (ino, path, _, _) = info(fd)?;
    enter(Op::Seek, &path, false, 0, 0);
    let size = s().disk.inodes[&ino].size() as i64;
    let x = s().disk.fds.get_mut(&fd).ok_or(libc::EBADF)?;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => x.pos.get() as i64,
        libc::SEEK_END => size,
        _ => return Err(libc::EINVAL),
    };
    let p = base + off;
    if p < 0 {
        return Err(libc::EINVAL);
    }
    x.pos.set(p as u64);
    logged(Op::Seek, &path, off as u64, whence as u64, None, Ok(p))
}
/// directory operations that change names
fn do_dir(name: &'static str, path: &str, f: impl FnOnce(&mut crate::disk::Disk) -> Result<(), i32>) -> Res {
    let fa = enter(Op::Dir, path, false, 0, 0);
    let r = match fault_err(&fa) {
        Some(e) => Err(e),
        None => f(&mut s().disk).map(|_| 0),
    };
    let _ = name;
    logged(Op::Dir, path, 0, 0, fa, r)
}
fn do_stat(ino: Result<u64, i32>, path: &str) -> Result<(u64, bool, u64, u64), i32> {
    let is_dir = ino.map(|i| s().disk.inodes[&i].is_dir).unwrap_or(false);
    let f = enter(Op::Stat, path, is_dir, 0, 0);
    let r = match fault_err(&f) {
        Some(e) => Err(e),
        None => ino.map(|i| {
            let n = &s().disk.inodes[&i];
            (n.num, n.is_dir, n.size(), n.mtime)
        }),
    };
    let _ = logged(Op::Stat, path, 0, 0, f, r.map(|x| x.2 as i64));
    r
}
unsafe fn fill_stat(r: Result<(u64, bool, u64, u64), i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Err(e) => err(e) as c_int,
        Ok((ino, dir, size, mtime)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_ino = ino;
            (*st).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
            (*st).st_nlink = 1;
            (*st).st_size = size as i64;
            (*st).st_mtime = (mtime / 1_000_000_000) as i64;
            (*st).st_mtime_nsec = (mtime % 1_000_000_000) as i64;
            (*st).st_blksize = 4096;
            (*st).st_blocks = size.div_ceil(512) as i64;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(path) => fin(do_open(path, flags)) as c_int,
        None => real(libc::SYS_openat, libc::AT_FDCWD as i64 as u64, p as u64, flags as u64, mode as u64, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(path) => fin(do_open(path, flags)) as c_int,
        None if in_sim() && sim_fd(dir) => match info(dir) {
            Ok((_, base, _, _)) => {
                let rel = CStr::from_ptr(p).to_string_lossy().into_owned();
                fin(do_open(format!("{base}/{rel}"), flags)) as c_int
            }
            Err(e) => err(e) as c_int,
        },
        None => real(libc::SYS_openat, dir as i64 as u64, p as u64, flags as u64, mode as u64, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return fin(do_close(fd)) as c_int;
    }
    real(libc::SYS_close, fd as u64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        return fin(do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None)) as ssize_t;
    }
    real(libc::SYS_read, fd as u64, buf as u64, n as u64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        if off < 0 {
            return err(libc::EINVAL) as ssize_t;
        }
        return fin(do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64))) as ssize_t;
    }
    real(libc::SYS_pread64, fd as u64, buf as u64, n as u64, off as u64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
unsafe fn first_iov<'a>(iov: *const libc::iovec, n: c_int) -> Option<&'a libc::iovec> {
    std::slice::from_raw_parts(iov, n as usize).iter().find(|v| v.iov_len > 0)
}
// vectored transfers: legally short after their first non-empty buffer
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        return match first_iov(iov, n) {
            Some(v) => read(fd, v.iov_base, v.iov_len),
            None => 0,
        };
    }
    real(libc::SYS_readv, fd as u64, iov as u64, n as u64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const libc::iovec, n: c_int, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        return match first_iov(iov, n) {
            Some(v) => pread64(fd, v.iov_base, v.iov_len, off),
            None => 0,
        };
    }
    real(libc::SYS_preadv, fd as u64, iov as u64, n as u64, off as u64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const libc::iovec, n: c_int, off: off64_t) -> ssize_t {
    preadv64(fd, iov, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        return fin(do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None)) as ssize_t;
    }
    real(libc::SYS_write, fd as u64, buf as u64, n as u64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        if off < 0 {
            return err(libc::EINVAL) as ssize_t;
        }
        return fin(do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64))) as ssize_t;
    }
    real(libc::SYS_pwrite64, fd as u64, buf as u64, n as u64, off as u64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        return match first_iov(iov, n) {
            Some(v) => write(fd, v.iov_base, v.iov_len),
            None => 0,
        };
    }
    real(libc::SYS_writev, fd as u64, iov as u64, n as u64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const libc::iovec, n: c_int, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        return match first_iov(iov, n) {
            Some(v) => pwrite64(fd, v.iov_base, v.iov_len, off),
            None => 0,
        };
    }
    real(libc::SYS_pwritev, fd as u64, iov as u64, n as u64, off as u64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const libc::iovec, n: c_int, off: off64_t) -> ssize_t {
    pwritev64(fd, iov, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if sim_fd(fd) {
        return fin(do_seek(fd, off, whence));
    }
    real(libc::SYS_lseek, fd as u64, off as u64, whence as u64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return fin(do_sync(fd)) as c_int;
    }
    real(libc::SYS_fsync, fd as u64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return fin(do_sync(fd)) as c_int;
    }
    real(libc::SYS_fdatasync, fd as u64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, a: off64_t, b: off64_t, c: c_uint) -> c_int {
    if sim_fd(fd) {
        return 0; // starts write-back, makes nothing durable
    }
    real(libc::SYS_sync_file_range, fd as u64, a as u64, b as u64, c as u64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sim_fd(fd) {
        return fin(do_trunc(fd, len as u64)) as c_int;
    }
    real(libc::SYS_ftruncate, fd as u64, len as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    -(sys(libc::SYS_fadvise64, fd as u64, a as u64, b as u64, c as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    posix_fadvise64(fd, a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    real(libc::SYS_flock, fd as u64, op as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    if sim_fd(a) || sim_fd(c) {
        return err(libc::EXDEV) as ssize_t;
    }
    real(libc::SYS_copy_file_range, a as u64, b as u64, c as u64, d as u64, n as u64, f as u64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut off64_t, n: size_t) -> ssize_t {
    if sim_fd(a) || sim_fd(b) {
        return err(libc::EINVAL) as ssize_t;
    }
    real(libc::SYS_sendfile, a as u64, b as u64, c as u64, n as u64, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    if sim_fd(fd) {
        let r = match info(fd) {
            Err(e) => Err(e),
            Ok((_, _, _, flags)) => match cmd {
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                    let d = &mut s().disk;
                    let n = d.free_fd();
                    let f = d.fds[&fd].clone();
                    d.fds.insert(n, f);
                    Ok(n as i64)
                }
                libc::F_GETFL => Ok(flags as i64),
                libc::F_GETFD => Ok(libc::FD_CLOEXEC as i64),
                _ => Ok(0),
            },
        };
        return fin(r) as c_int;
    }
    real(libc::SYS_fcntl, fd as u64, cmd as u64, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if sim_fd(fd) {
        return match info(fd) {
            Ok((ino, path, _, _)) => fill_stat(do_stat(Ok(ino), &path), st),
            Err(e) => err(e) as c_int,
        };
    }
    real(libc::SYS_fstat, fd as u64, st as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(path) => {
            let ino = s().disk.lookup(&path);
            fill_stat(do_stat(ino, &path), st)
        }
        None => real(libc::SYS_newfstatat, libc::AT_FDCWD as i64 as u64, p as u64, st as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(_) => stat64(p, st),
        None => real(
            libc::SYS_newfstatat, libc::AT_FDCWD as i64 as u64, p as u64, st as u64,
            libc::AT_SYMLINK_NOFOLLOW as u64, 0, 0,
        ) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
unsafe fn do_statx(fd: c_int, p: *const c_char, stx: *mut libc::statx) -> Option<c_int> {
    let r = if let Some(path) = sim_path(p) {
        let ino = s().disk.lookup(&path);
        do_stat(ino, &path)
    } else if sim_fd(fd) {
        match info(fd) {
            Ok((ino, path, _, _)) => do_stat(Ok(ino), &path),
            Err(e) => Err(e),
        }
    } else {
        return None;
    };
    Some(match r {
        Err(e) => err(e) as c_int,
        Ok((ino, dir, size, mtime)) => {
            std::ptr::write_bytes(stx, 0, 1);
            (*stx).stx_mask = libc::STATX_BASIC_STATS;
            (*stx).stx_ino = ino;
            (*stx).stx_mode = (if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
            (*stx).stx_nlink = 1;
            (*stx).stx_size = size;
            (*stx).stx_mtime.tv_sec = (mtime / 1_000_000_000) as i64;
            (*stx).stx_mtime.tv_nsec = (mtime % 1_000_000_000) as u32;
            (*stx).stx_blksize = 4096;
            (*stx).stx_blocks = size.div_ceil(512);
            0
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: c_uint, stx: *mut libc::statx) -> c_int {
    match do_statx(fd, p, stx) {
        Some(r) => r,
        None => real(libc::SYS_statx, fd as i64 as u64, p as u64, flags as u64, mask as u64, stx as u64, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match sim_path(p) {
        Some(path) => {
            let ino = s().disk.lookup(&path);
            fin(do_stat(ino, &path).map(|_| 0)) as c_int
        }
        None => real(libc::SYS_faccessat, libc::AT_FDCWD as i64 as u64, p as u64, mode as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(path) => fin(do_dir("mkdir", &path, |d| d.mkdir(&path))) as c_int,
        None => real(libc::SYS_mkdirat, libc::AT_FDCWD as i64 as u64, p as u64, mode as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(path) => fin(do_dir("unlink", &path, |d| d.unlink(&path))) as c_int,
        None => real(libc::SYS_unlinkat, libc::AT_FDCWD as i64 as u64, p as u64, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => fin(do_dir("rename", &b, |d| d.rename(&a, &b))) as c_int,
        _ => {
            let cwd = libc::AT_FDCWD as i64 as u64;
            real(libc::SYS_renameat2, cwd, a as u64, cwd, b as u64, 0, 0) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => fin(do_dir("link", &b, |d| d.link(&a, &b))) as c_int,
        _ => {
            let cwd = libc::AT_FDCWD as i64 as u64;
            real(libc::SYS_linkat, cwd, a as u64, cwd, b as u64, 0, 0) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, fl: c_int) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(_), Some(_)) => link(a, b),
        _ => real(libc::SYS_linkat, fa as i64 as u64, a as u64, fb as i64 as u64, b as u64, fl as u64, 0) as c_int,
    }
}
/// A path given relative to a directory descriptor.
fn path_at(fd: c_int, p: *const c_char) -> Option<String> {
    if let Some(path) = sim_path(p) {
        return Some(path);
    }
    if !sim_fd(fd) || p.is_null() {
        return None;
    }
    let rel = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    let (_, dir, _, _) = info(fd).ok()?;
    Some(if rel.is_empty() { dir } else { format!("{}/{rel}", dir.trim_end_matches('/')) })
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(path) => fin(do_dir("rmdir", &path, |d| d.rmdir(&path))) as c_int,
        None => real(
            libc::SYS_unlinkat, libc::AT_FDCWD as i64 as u64, p as u64, libc::AT_REMOVEDIR as u64, 0, 0, 0,
        ) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, flags: c_int) -> c_int {
    match path_at(fd, p) {
        Some(path) if flags & libc::AT_REMOVEDIR != 0 => fin(do_dir("rmdir", &path, |d| d.rmdir(&path))) as c_int,
        Some(path) => fin(do_dir("unlink", &path, |d| d.unlink(&path))) as c_int,
        None => real(libc::SYS_unlinkat, fd as i64 as u64, p as u64, flags as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(fd: c_int, p: *const c_char, mode: mode_t) -> c_int {
    match path_at(fd, p) {
        Some(path) => fin(do_dir("mkdir", &path, |d| d.mkdir(&path))) as c_int,
        None => real(libc::SYS_mkdirat, fd as i64 as u64, p as u64, mode as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, flags: c_uint) -> c_int {
    match (path_at(fa, a), path_at(fb, b)) {
        (Some(x), Some(y)) => {
            let exists = s().disk.lookup(&y).is_ok();
            if flags & libc::RENAME_NOREPLACE != 0 && exists {
                return err(libc::EEXIST) as c_int;
            }
            fin(do_dir("rename", &y, |d| d.rename(&x, &y))) as c_int
        }
        _ => real(libc::SYS_renameat2, fa as i64 as u64, a as u64, fb as i64 as u64, b as u64, flags as u64, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char) -> c_int {
    renameat2(fa, a, fb, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    match path_at(fd, p) {
        Some(path) => {
            let ino = s().disk.lookup(&path);
            fill_stat(do_stat(ino, &path), st)
        }
        None => real(libc::SYS_newfstatat, fd as i64 as u64, p as u64, st as u64, flags as u64, 0, 0) as c_int,
    }
}
/// permissions and times are accepted and ignored
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sim_fd(fd) {
        return fin(info(fd).map(|_| 0)) as c_int;
    }
    real(libc::SYS_fchmod, fd as u64, mode as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(path) => {
            let ino = s().disk.lookup(&path);
            fin(do_stat(ino, &path).map(|_| 0)) as c_int
        }
        None => real(libc::SYS_fchmodat, libc::AT_FDCWD as i64 as u64, p as u64, mode as u64, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    if sim_fd(fd) {
        return fin(info(fd).map(|_| 0)) as c_int;
    }
    real(libc::SYS_utimensat, fd as u64, 0, ts as u64, 0, 0, 0) as c_int
}
unsafe fn next(name: &CStr) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    assert!(p != 0);
    p
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(path) = sim_path(p) {
        if let Err(e) = s().disk.lookup(&path) {
            err(e);
            return std::ptr::null_mut();
        }
        let dst = if out.is_null() { libc::malloc(path.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(path.as_ptr(), dst as *mut u8, path.len());
        *dst.add(path.len()) = 0;
        return dst;
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(c"realpath"));
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !in_sim() {
        let f: unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char = std::mem::transmute(next(c"getcwd"));
        return f(buf, n);
    }
    let path = crate::plan::DIR;
    let dst = if buf.is_null() { libc::malloc(path.len() + 1) as *mut c_char } else { buf };
    if !buf.is_null() && n <= path.len() {
        err(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(path.as_ptr(), dst as *mut u8, path.len());
    *dst.add(path.len()) = 0;
    dst
}
struct SimDir {
    names: Vec<(String, u64, bool)>,
    at: usize,
    ent: libc::dirent64,
}
static mut DIRS: Vec<usize> = Vec::new();
#[allow(static_mut_refs)]
fn is_sim_dir(d: *mut c_void) -> bool {
    in_sim() && unsafe { DIRS.contains(&(d as usize)) }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if let Some(path) = sim_path(p) {
        let f = enter(Op::Open, &path, true, 0, 0);
        let r = match fault_err(&f) {
            Some(e) => Err(e),
            None => s().disk.lookup(&path),
        };
        leave(Op::Open, &path, 0, 0, 0, f);
        return match r {
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
            Ok(ino) => {
                let d = &s().disk;
                let names =
                    d.inodes[&ino].entries.iter().map(|(n, i)| (n.clone(), *i, d.inodes[i].is_dir)).collect();
                let b = Box::into_raw(Box::new(SimDir { names, at: 0, ent: std::mem::zeroed() }));
                DIRS.push(b as usize);
                b as *mut c_void
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(next(c"opendir"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if is_sim_dir(d) {
        let d = &mut *(d as *mut SimDir);
        let Some((n, ino, dir)) = d.names.get(d.at) else { return std::ptr::null_mut() };
        d.at += 1;
        d.ent.d_ino = *ino;
        d.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        let b = n.as_bytes();
        let k = b.len().min(254);
        for (i, c) in b[..k].iter().enumerate() {
            d.ent.d_name[i] = *c as c_char;
        }
        d.ent.d_name[k] = 0;
        return &mut d.ent;
    }
    let f: unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64 = std::mem::transmute(next(c"readdir64"));
    f(d)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if is_sim_dir(d) {
        DIRS.retain(|x| *x != d as usize);
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next(c"closedir"));
    f(d)
}

// ---------------------------------------------------------------- threads, time, randomness
unsafe fn do_futex(addr: u64, op: c_int, val: u32, ts: *const libc::timespec) -> i64 {
    let cmd = op & 127;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let deadline = if ts.is_null() {
                None
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                Some(if cmd == libc::FUTEX_WAIT {
                    s().now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    t.saturating_sub(s().wall)
                } else {
                    t
                })
            };
            match futex_wait(addr as usize, val, deadline) {
                Ok(()) => 0,
                Err(e) => err(e),
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => futex_wake(addr as usize, val) as i64,
        _ => panic!("unsupported futex operation {op}"),
    }
}
unsafe fn fill_entropy(p: *mut u8, n: usize) {
    let r = s().entropy();
    for i in 0..n {
        *p.add(i) = r.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return do_futex(a, b as c_int, c as u32, d as *const libc::timespec);
        }
        if n == libc::SYS_getrandom {
            fill_entropy(a as *mut u8, b as usize);
            return b as c_long;
        }
        if n == libc::SYS_statx {
            if let Some(r) = do_statx(a as c_int, b as *const c_char, e as *mut libc::statx) {
                return r as c_long;
            }
        }
        if n == libc::SYS_copy_file_range {
            return copy_file_range(a as c_int, b as *mut _, c as c_int, d as *mut _, e as usize, f as c_uint) as c_long;
        }
    }
    real(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if in_sim() {
        fill_entropy(p as *mut u8, n);
        return n as ssize_t;
    }
    real(libc::SYS_getrandom, p as u64, n as u64, flags as u64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sim() {
        let wall = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
        let t = if wall { crate::sim::wall_clock() } else { s().now };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    real(libc::SYS_clock_gettime, clk as u64, ts as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if in_sim() {
        let t = s().now + (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        sleep_until(t);
        return 0;
    }
    real(libc::SYS_nanosleep, a as u64, b as u64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int, flags: c_int, a: *const libc::timespec, b: *mut libc::timespec,
) -> c_int {
    if in_sim() {
        let mut t = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME == 0 {
            t += s().now;
        } else if clk == libc::CLOCK_REALTIME {
            t = t.saturating_sub(s().wall);
        }
        sleep_until(t);
        return 0;
    }
    -(sys(libc::SYS_clock_nanosleep, clk as u64, flags as u64, a as u64, b as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        spin_yield();
        return 0;
    }
    real(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut u64, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void,
) -> c_int {
    if in_sim() {
        let (p, _) = spawn(f, arg);
        *t = p;
        yield_point();
        return 0;
    }
    real_create(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, r: *mut *mut c_void) -> c_int {
    if in_sim() && join(t) {
        if !r.is_null() {
            *r = std::ptr::null_mut();
        }
        return 0;
    }
    real_join(t, r)
}
/// Stacks of simulated threads are mapped by the simulator, with one guard page below.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const libc::pthread_attr_t, n: *mut size_t) -> c_int {
    if in_sim() {
        *n = 4096;
        return 0;
    }
    let f: unsafe extern "C" fn(*const libc::pthread_attr_t, *mut size_t) -> c_int =
        std::mem::transmute(next(c"pthread_attr_getguardsize"));
    f(a, n)
}
