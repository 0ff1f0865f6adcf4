//! The seam: libc entry points std, dirs and bellframe use, defined here so that the linker binds them to
//! the simulator.  On a simulated thread they act on the simulated world; elsewhere they are plain system
//! calls.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::core::{ACTOR, IN_SIM};
use crate::world;
use core::arch::asm;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::ffi::CStr;

#[inline]
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    }
    r
}
#[inline]
pub unsafe fn raw3(n: c_long, a: usize, b: usize, c: usize) -> isize {
    unsafe { raw6(n, a, b, c, 0, 0, 0) }
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as c_int };
        -1
    } else {
        r
    }
}
macro_rules! raw {
    ($n:expr $(, $a:expr)*) => {{
        let v = [$($a as usize,)* 0,0,0,0,0,0];
        ret(raw6($n, v[0], v[1], v[2], v[3], v[4], v[5]))
    }};
}
/// The simulated actor on whose behalf this call happens, if any.
#[inline]
fn sim() -> Option<usize> {
    if IN_SIM.get() {
        return None;
    }
    match ACTOR.get() {
        0 => None,
        n => Some(n as usize - 1),
    }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() { b"" } else { unsafe { CStr::from_ptr(p).to_bytes() } }
}
fn simfd(fd: c_int) -> bool {
    fd >= world::FD_BASE
}
fn set(r: Result<usize, c_int>) -> isize {
    match r {
        Ok(v) => v as isize,
        Err(e) => unsafe { ret(-(e as isize)) },
    }
}

// ---- files -------------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim() {
        Some(a) => set(world::open(a, bytes(p), flags, mode)) as c_int,
        None => raw!(libc::SYS_openat, libc::AT_FDCWD as isize, p, flags | libc::O_LARGEFILE, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { open64(p, flags, mode) }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim() {
        Some(a) => set(world::open(a, &world::at(a, d, bytes(p)), flags, mode)) as c_int,
        None => raw!(libc::SYS_openat, d as isize, p, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { openat64(d, p, flags, mode) }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::close(a, fd)) as c_int,
        _ if simfd(fd) => 0,
        _ => raw!(libc::SYS_close, fd as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => set(world::read(a, fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None)),
        _ => raw!(libc::SYS_read, fd as isize, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => set(world::read(a, fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as usize))),
        _ => raw!(libc::SYS_pread64, fd as isize, b, n, off),
    }
}
/// The first buffer with room (a vectored call may transfer less than asked).
unsafe fn first_full<'a>(iov: *const libc::iovec, cnt: c_int) -> Option<&'a libc::iovec> {
    (0..cnt.max(0) as usize).map(|i| unsafe { &*iov.add(i) }).find(|v| v.iov_len > 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => {
            let Some(v) = first_full(iov, cnt) else { return 0 };
            set(world::read(a, fd, std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len), None))
        }
        _ => raw!(libc::SYS_readv, fd as isize, iov, cnt as isize),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => set(world::write(a, fd, std::slice::from_raw_parts(b as *const u8, n), None)),
        // Output of the code under test (stdout/stderr) goes nowhere.
        Some(a) if fd == 1 || fd == 2 => set(world::console(a, n)),
        _ => raw!(libc::SYS_write, fd as isize, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => set(world::write(a, fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as usize))),
        _ => raw!(libc::SYS_pwrite64, fd as isize, b, n, off),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    match sim() {
        Some(a) if simfd(fd) => {
            let Some(v) = first_full(iov, cnt) else { return 0 };
            set(world::write(a, fd, std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len), None))
        }
        Some(a) if fd == 1 || fd == 2 => set(world::console(a, (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum())),
        _ => raw!(libc::SYS_writev, fd as isize, iov, cnt as isize),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match sim() {
        Some(a) if simfd(fd) => set(world::lseek(a, fd, off, whence)) as i64,
        _ => raw!(libc::SYS_lseek, fd as isize, off, whence as isize) as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::ftruncate(a, fd, len as usize)) as c_int,
        _ => raw!(libc::SYS_ftruncate, fd as isize, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::fsync(a, fd)) as c_int,
        _ => raw!(libc::SYS_fsync, fd as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::fsync(a, fd)) as c_int,
        _ => raw!(libc::SYS_fdatasync, fd as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::flock(a, fd, op)) as c_int,
        _ => raw!(libc::SYS_flock, fd as isize, op as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if crate::core::have_ctx() {
        crate::core::aborted();
    }
    unsafe {
        let pid = raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0);
        raw6(libc::SYS_kill, pid as usize, libc::SIGABRT as usize, 0, 0, 0, 0);
        raw6(libc::SYS_exit_group, 134, 0, 0, 0, 0, 0);
    }
    loop {}
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim() {
        _ if !simfd(fd) => raw!(libc::SYS_fcntl, fd as isize, cmd as isize, arg) as c_int,
        Some(a) => set(world::fcntl(a, fd, cmd)) as c_int,
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::fcntl(a, fd, libc::F_DUPFD_CLOEXEC)) as c_int,
        _ => raw!(libc::SYS_dup, fd as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: i64, n: i64, adv: c_int) -> c_int {
    match sim() {
        Some(_) if simfd(fd) => 0,
        _ => raw!(libc::SYS_fadvise64, fd as isize, off, n, adv as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: i64, n: i64, f: c_uint) -> c_int {
    match sim() {
        Some(a) if simfd(fd) => set(world::fsync(a, fd)) as c_int,
        _ => raw!(libc::SYS_sync_file_range, fd as isize, off, n, f) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    match sim() {
        Some(_) if simfd(fd) => 0,
        _ => raw!(libc::SYS_fchmod, fd as isize, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: c_uint) -> c_int {
    match sim() {
        Some(_) => 0,
        None => raw!(libc::SYS_chmod, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match sim() {
        Some(s) => set(world::rename(s, bytes(a), bytes(b))) as c_int,
        None => raw!(libc::SYS_rename, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_: c_int, a: *const c_char, _: c_int, b: *const c_char) -> c_int {
    unsafe { rename(a, b) }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim() {
        Some(s) => set(world::unlink(s, bytes(p))) as c_int,
        None => raw!(libc::SYS_unlink, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    match sim() {
        Some(s) if fl & libc::AT_REMOVEDIR != 0 => set(world::rmdir(s, &world::at(s, d, bytes(p)))) as c_int,
        Some(s) => set(world::unlink(s, &world::at(s, d, bytes(p)))) as c_int,
        None => raw!(libc::SYS_unlinkat, d as isize, p, fl as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match sim() {
        Some(s) => set(world::rmdir(s, bytes(p))) as c_int,
        None => raw!(libc::SYS_rmdir, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    match sim() {
        Some(s) => set(world::mkdir(s, bytes(p))) as c_int,
        None => raw!(libc::SYS_mkdir, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match sim() {
        Some(s) => set(world::link(s, bytes(a), bytes(b))) as c_int,
        None => raw!(libc::SYS_link, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    match sim() {
        Some(s) => set(world::link(s, &world::at(s, d, bytes(a)), &world::at(s, e, bytes(b)))) as c_int,
        None => raw!(libc::SYS_linkat, d as isize, a, e as isize, b, fl as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    match sim() {
        Some(_) => set(Err(libc::EPERM)) as c_int,
        None => raw!(libc::SYS_symlink, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match sim() {
        Some(s) => set(world::read_link(s, bytes(p)).map(|t| {
            let k = t.len().min(n);
            unsafe { std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, b, k) };
            k
        })),
        None => raw!(libc::SYS_readlink, p, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match sim() {
        Some(s) => set(world::stat_path(s, bytes(p), true).map(|_| 0)) as c_int,
        None => raw!(libc::SYS_access, p, m as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    match sim() {
        Some(s) => set(world::stat_path(s, &world::at(s, d, bytes(p)), true).map(|_| 0)) as c_int,
        None => raw!(libc::SYS_faccessat, d as isize, p, m as isize, fl as isize) as c_int,
    }
}
unsafe fn fill_stat(st: *mut libc::stat64, s: &world::Stat) {
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        (*st).st_mode = s.mode;
        (*st).st_size = s.size as i64;
        (*st).st_ino = s.ino;
        (*st).st_nlink = 1;
        (*st).st_blksize = 4096;
        (*st).st_mtime = s.mtime;
        (*st).st_mtime_nsec = s.mtime_ns;
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim() {
        Some(s) => set(world::stat_path(s, bytes(p), true).map(|v| { fill_stat(st, &v); 0 })) as c_int,
        None => raw!(libc::SYS_stat, p, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim() {
        Some(s) => set(world::stat_path(s, bytes(p), false).map(|v| { fill_stat(st, &v); 0 })) as c_int,
        None => raw!(libc::SYS_lstat, p, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match sim() {
        Some(s) if simfd(fd) => set(world::stat_fd(s, fd).map(|v| { fill_stat(st, &v); 0 })) as c_int,
        _ => raw!(libc::SYS_fstat, fd as isize, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    match sim() {
        Some(s) => {
            if out.is_null() {
                // std probes with null pointers to see whether statx exists at all
                return set(Err(libc::EFAULT)) as c_int;
            }
            let path = &world::at(s, d, bytes(p))[..];
            let r = if bytes(p).is_empty() && simfd(d) { world::stat_fd(s, d) } else { world::stat_path(s, path, fl & libc::AT_SYMLINK_NOFOLLOW == 0) };
            set(r.map(|v| {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = 0x7ff;
                (*out).stx_mode = v.mode as u16;
                (*out).stx_size = v.size as u64;
                (*out).stx_ino = v.ino;
                (*out).stx_nlink = 1;
                (*out).stx_blksize = 4096;
                (*out).stx_mtime.tv_sec = v.mtime;
                (*out).stx_mtime.tv_nsec = v.mtime_ns as u32;
                0
            })) as c_int
        }
        None => raw!(libc::SYS_statx, d as isize, p, fl as isize, mask, out) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    // Only ever used through std::fs::canonicalize in the code under test.
    match sim() {
        Some(s) => match world::real_path(s, bytes(p)) {
            Ok(r) => {
                let q = if out.is_null() { unsafe { libc::malloc(r.len() + 1) as *mut c_char } } else { out };
                unsafe {
                    std::ptr::copy_nonoverlapping(r.as_ptr() as *const c_char, q, r.len());
                    *q.add(r.len()) = 0;
                }
                q
            }
            Err(e) => { ret(-(e as isize)); std::ptr::null_mut() }
        },
        None => { ret(-(libc::ENOSYS as isize)); std::ptr::null_mut() }
    }
}
/// A directory being listed.
struct Dir {
    entries: Vec<(Vec<u8>, u64, u8)>,
    next: usize,
    ent: libc::dirent64,
    fd: Option<c_int>,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    unsafe { opendir_as(bytes(p)) }
}
unsafe fn opendir_as(p: &[u8]) -> *mut libc::DIR {
    let r = match sim() {
        Some(s) => world::list(s, p),
        None => Err(libc::EACCES), // the harness lists no directories once it runs
    };
    match r {
        Ok(entries) => Box::into_raw(Box::new(Dir { entries, next: 0, ent: unsafe { std::mem::zeroed() }, fd: None })) as *mut libc::DIR,
        Err(e) => {
            ret(-(e as isize));
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    match sim() {
        Some(s) if simfd(fd) => {
            let p = world::at(s, fd, b".");
            let d = unsafe { opendir_as(&p) };
            if !d.is_null() {
                // (the stream owns the descriptor from now on)
                unsafe { (*(d as *mut Dir)).fd = Some(fd) };
            }
            d
        }
        _ => {
            ret(-(libc::ENOSYS as isize));
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let d = unsafe { &mut *(d as *mut Dir) };
    let Some((n, ino, kind)) = d.entries.get(d.next) else { return std::ptr::null_mut() };
    d.next += 1;
    d.ent.d_ino = *ino;
    d.ent.d_off = d.next as i64;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    d.ent.d_type = *kind;
    let len = n.len().min(255);
    for (i, b) in n[..len].iter().enumerate() {
        d.ent.d_name[i] = *b as c_char;
    }
    d.ent.d_name[len] = 0;
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    unsafe { readdir64(d) }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let d = unsafe { Box::from_raw(d as *mut Dir) };
    match d.fd {
        Some(fd) => unsafe { close(fd) },
        None => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    match unsafe { (*(d as *mut Dir)).fd } {
        Some(fd) => fd,
        None => set(Err(libc::ENOTSUP)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if sim().is_some() {
        if n < 5 || b.is_null() {
            ret(-(libc::ERANGE as isize));
            return std::ptr::null_mut();
        }
        unsafe { std::ptr::copy_nonoverlapping(c"/cwd".as_ptr(), b, 5) };
        return b;
    }
    if raw!(libc::SYS_getcwd, b, n) < 0 { std::ptr::null_mut() } else { b }
}
unsafe fn mtime_of(ts: *const libc::timespec) -> Option<i64> {
    if ts.is_null() {
        return Some(world::wall());
    }
    let t = unsafe { &*ts.add(1) };
    match t.tv_nsec {
        libc::UTIME_OMIT => None,
        libc::UTIME_NOW => Some(world::wall()),
        ns => Some(t.tv_sec.wrapping_mul(1_000_000_000).wrapping_add(ns)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    match sim() {
        Some(s) if simfd(fd) => set(world::set_times(s, b"", Some(fd), mtime_of(ts))) as c_int,
        _ => raw!(libc::SYS_utimensat, fd as isize, 0usize, ts, 0usize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, ts: *const libc::timespec, fl: c_int) -> c_int {
    match sim() {
        Some(s) => set(world::set_times(s, &world::at(s, d, bytes(p)), None, mtime_of(ts))) as c_int,
        None => raw!(libc::SYS_utimensat, d as isize, p, ts, fl as isize) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    match sim() {
        Some(_) => set(Err(libc::ENOSYS)),
        None => raw!(libc::SYS_copy_file_range, a as isize, b, c as isize, d, n, f),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut i64, n: size_t) -> ssize_t {
    match sim() {
        Some(_) => set(Err(libc::ENOSYS)),
        None => raw!(libc::SYS_sendfile, a as isize, b as isize, c, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    match sim() {
        Some(_) => set(Err(libc::ENOSYS)),
        None => raw!(libc::SYS_splice, a as isize, b, c as isize, d, n, f),
    }
}

// ---- sockets: the code under test must not reach a real network ---------------------------------
#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    match sim() {
        Some(_) => set(Err(libc::EACCES)) as c_int,
        None => raw!(libc::SYS_socket, a as isize, b as isize, c as isize) as c_int,
    }
}

// ---- environment, identity, randomness, time -----------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    match sim() {
        Some(a) => world::getenv(a, bytes(name)),
        None => {
            extern "C" {
                static environ: *const *mut c_char;
            }
            unsafe {
                let n = bytes(name);
                let mut e = environ;
                if e.is_null() {
                    return std::ptr::null_mut();
                }
                while !(*e).is_null() {
                    let s = bytes(*e);
                    if s.len() > n.len() && s.starts_with(n) && s[n.len()] == b'=' {
                        return (*e).add(n.len() + 1);
                    }
                    e = e.add(1);
                }
                std::ptr::null_mut()
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(_uid: c_uint, pw: *mut libc::passwd, buf: *mut c_char, n: size_t, res: *mut *mut libc::passwd) -> c_int {
    unsafe { *res = std::ptr::null_mut() };
    if let Some(a) = sim() {
        if let Some(h) = world::pw_home(a) {
            if h.len() + 2 > n {
                return libc::ERANGE;
            }
            unsafe {
                std::ptr::write_bytes(pw, 0, 1);
                std::ptr::copy_nonoverlapping(h.as_ptr() as *const c_char, buf, h.len());
                *buf.add(h.len()) = 0;
                *buf.add(h.len() + 1) = 0;
                (*pw).pw_dir = buf;
                (*pw).pw_name = buf.add(h.len());
                (*pw).pw_passwd = buf.add(h.len());
                (*pw).pw_gecos = buf.add(h.len());
                (*pw).pw_shell = buf.add(h.len());
                *res = pw;
            }
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match sim() {
        Some(a) => world::getpid(a),
        None => raw!(libc::SYS_getpid) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> c_uint {
    match sim() {
        Some(_) => 1000,
        None => raw!(libc::SYS_getuid) as c_uint,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if crate::world::sim_random_on() {
        world::random(unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) });
        return n as ssize_t;
    }
    raw!(libc::SYS_getrandom, b, n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    unsafe { if getrandom(b, n, 0) == n as ssize_t { 0 } else { -1 } }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    match sim() {
        Some(a) => {
            let ns = world::clock(a, id == libc::CLOCK_REALTIME);
            unsafe {
                (*ts).tv_sec = (ns / 1_000_000_000) as i64;
                (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            }
            0
        }
        None => raw!(libc::SYS_clock_gettime, id as isize, ts) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, rq: *const libc::timespec, rm: *mut libc::timespec) -> c_int {
    match sim() {
        Some(a) => {
            let (s, n) = unsafe { ((*rq).tv_sec as u64, (*rq).tv_nsec as u64) };
            let mut d = s.saturating_mul(1_000_000_000).saturating_add(n);
            if fl & libc::TIMER_ABSTIME != 0 {
                d = d.saturating_sub(world::clock(a, id == libc::CLOCK_REALTIME));
            }
            world::sleep(a, d);
            0
        }
        None => -(raw6(libc::SYS_clock_nanosleep, id as usize, fl as usize, rq as usize, rm as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rm: *mut libc::timespec) -> c_int {
    match sim() {
        Some(a) => {
            let (s, n) = unsafe { ((*rq).tv_sec as u64, (*rq).tv_nsec as u64) };
            world::sleep(a, s.saturating_mul(1_000_000_000).saturating_add(n));
            0
        }
        None => raw!(libc::SYS_nanosleep, rq, rm) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match sim() {
        Some(a) => { world::yield_now(a); 0 }
        None => raw!(libc::SYS_sched_yield) as c_int,
    }
}

// ---- thread synchronisation: std's mutexes, parkers and condition variables are futexes -----------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if let Some(me) = sim() {
        if n == libc::SYS_futex {
            let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            let r = match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let ts = d as *const libc::timespec;
                    let dl = if ts.is_null() { None } else {
                        let t = unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 };
                        Some((t, op == libc::FUTEX_WAIT))
                    };
                    world::futex_wait(me, a, c as u32, dl)
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => world::futex_wake(me, a, c),
                _ => Err(libc::ENOSYS),
            };
            return set(r) as c_long;
        }
        if n == libc::SYS_getrandom {
            world::random(unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b) });
            return b as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

// ---- threads started by the code under test become actors of the same process --------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    f: Start,
    arg: *mut c_void,
    actor: usize,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    world::thread_started(t.actor);
    let r = (t.f)(t.arg);
    world::thread_done(t.actor);
    r
}
type PCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
type PJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<PCreate> = None;
static mut REAL_JOIN: Option<PJoin> = None;
pub fn init() {
    unsafe {
        REAL_CREATE = Some(std::mem::transmute::<*mut c_void, PCreate>(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(std::mem::transmute::<*mut c_void, PJoin>(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real = unsafe { REAL_CREATE.unwrap() };
    match sim() {
        None => unsafe { real(t, at, f, arg) },
        Some(a) => {
            let g = crate::core::SimGuard::new();
            let actor = world::thread_new(a);
            let b = Box::into_raw(Box::new(Tramp { f, arg, actor }));
            let r = unsafe { real(t, at, tramp, b as *mut c_void) };
            if r == 0 {
                world::thread_id(actor, unsafe { *t } as usize);
            } else {
                crate::core::harness_error("pthread_create failed");
            }
            drop(g);
            world::yield_now(a);
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if let Some(a) = sim() {
        world::join(a, t as usize);
    }
    unsafe { REAL_JOIN.unwrap()(t, r) }
}
