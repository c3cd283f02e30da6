//! The seam: libc entry points, defined here so that the code under test (through std, tempfile,
//! rustix, ...) reaches the simulator. On threads that are not simulated, or while harness code
//! runs, every call is forwarded unchanged.

#![allow(non_snake_case, unused_variables, clippy::missing_safety_doc)]

use crate::arena::{Host, SEAM};
use crate::sim::*;
use crate::tape::splitmix;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, off_t, pid_t, size_t, ssize_t};
use std::ffi::CStr;

#[inline]
fn on() -> bool {
    SEAM.with(|a| a.get())
}

unsafe fn err(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}
unsafe fn ret<T: From<i8>>(r: Result<T, c_int>) -> T {
    match r {
        Ok(v) => v,
        Err(e) => {
            *libc::__errno_location() = e;
            T::from(-1)
        }
    }
}
unsafe fn cs(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

fn cur_proc() -> usize {
    sim().callers[me()].proc
}
fn cur_solve() -> Option<usize> {
    sim().callers[me()].solve
}

fn effect() {
    if let Some(k) = cur_solve() {
        sim().solves[k].effects += 1;
    }
}

const EIO: c_int = libc::EIO;

// ------------------------------------------------------------------ files

pub fn at(dirfd: c_int, path: &str) -> String {
    let s = sim();
    let p = cur_proc();
    if path.starts_with('/') || dirfd == libc::AT_FDCWD {
        s.resolve(p, path)
    } else {
        match s.procs[p].fds.get(&dirfd) {
            Some(f) => norm(&format!("{}/{}", f.path, path)),
            None => s.resolve(p, path),
        }
    }
}

pub fn new_fd(ino: usize, flags: c_int, path: String) -> c_int {
    let sol = cur_solve();
    let s = sim();
    let p = cur_proc();
    let pr = &mut s.procs[p];
    pr.next_fd += 1;
    let fd = pr.next_fd;
    pr.fds.insert(fd, Fd { ino, pos: 0, flags, solve: sol, path });
    fd
}

fn sys_open(full: String, flags: c_int, _mode: mode_t) -> Result<c_int, c_int> {
    if !yield_point("open") {
        return Err(EIO);
    }
    let s = sim();
    let c = s.canon(&full);
    s.logs(&format!("c{} open {} {:#x}", me(), c, flags));
    let creat = flags & libc::O_CREAT != 0;
    if full != "/dev/null" {
        if s.fault(F::EintrOpen) {
            return Err(libc::EINTR);
        }
    }
    if flags & libc::O_DIRECTORY == 0 && s.fault(F::OpenErr) {
        let es = [libc::EMFILE, libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EIO];
        return Err(*s.tape.pick(&es));
    }
    if creat && s.lookup(&full).is_none() && s.faults.rate[F::NameTaken as usize] > 0 {
        // somebody else's file of that very name may already be there
        let base = full.rsplit('/').next().unwrap_or("").to_string();
        for d in s.name_taken_dirs.clone() {
            let q = format!("{}/{}", d, base);
            if s.lookup(&q).is_none() && s.fault(F::NameTaken) {
                let body = format!("bystander {} of {}\n  0 x_0 77 1\n", s.fired[F::NameTaken as usize], base.len());
                s.put_file(&q, body.into_bytes());
                let cq = s.canon(&q);
                s.logs(&format!("env: bystander {}", cq));
                crate::cmd::note_bystander(&q);
            }
        }
    }
    let ino = match s.lookup(&full) {
        Some(i) => {
            if creat && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            if s.fs.nodes[i].kind == Kind::Dir && flags & (libc::O_WRONLY | libc::O_RDWR) != 0 {
                return Err(libc::EISDIR);
            }
            if s.fs.nodes[i].kind != Kind::Dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            i
        }
        None => {
            if !creat {
                return Err(libc::ENOENT);
            }
            if !s.parent_ok(&full) {
                return Err(libc::ENOENT);
            }
            effect();
            let owner = match cur_solve() {
                Some(k) => Owner::Solve(k),
                None => Owner::Env,
            };
            let i = s.fs.nodes.len();
            s.fs.nodes.push(Inode { data: vec![], kind: Kind::File, owner, version: 0, mtime: s.mtime_now() });
            s.fs.paths.insert(full.clone(), i);
            i
        }
    };
    if flags & libc::O_TRUNC != 0 && s.fs.nodes[ino].kind == Kind::File {
        effect();
        s.fs.nodes[ino].data.clear();
        s.fs.nodes[ino].version += 1;
        s.fs.nodes[ino].mtime = s.mtime_now();
    }
    Ok(new_fd(ino, flags, full))
}

fn sys_read(fd: c_int, buf: *mut u8, n: usize) -> Result<ssize_t, c_int> {
    if !yield_point("read") {
        return Err(EIO);
    }
    let s = sim();
    let p = cur_proc();
    let (ino, pos, flags) = match s.procs[p].fds.get(&fd) {
        Some(f) => (f.ino, f.pos, f.flags),
        None => return Err(libc::EBADF),
    };
    s.logs(&format!("c{} read", me()));
    if let Kind::PipeR(k) = s.fs.nodes[ino].kind {
        return pipe_read(ino, k, buf, n, flags & libc::O_NONBLOCK == 0);
    }
    if s.fault(F::EintrRead) {
        return Err(libc::EINTR);
    }
    if s.fault(F::ReadErr) {
        return Err(EIO);
    }
    let len = s.fs.nodes[ino].data.len();
    let mut m = n.min(len.saturating_sub(pos));
    if m > 1 && s.fault(F::ShortRead) {
        m = 1 + s.tape.draw(m as u32 - 1) as usize;
    }
    unsafe { std::ptr::copy_nonoverlapping(s.fs.nodes[ino].data.as_ptr().add(pos.min(len)), buf, m) };
    if let Some(f) = s.procs[p].fds.get_mut(&fd) {
        f.pos += m;
    }
    s.logs(&format!("  = {}", m));
    Ok(m as ssize_t)
}

fn pipe_read(ino: usize, pipe: usize, buf: *mut u8, n: usize, wait: bool) -> Result<ssize_t, c_int> {
    loop {
        let s = sim();
        if !s.fs.nodes[ino].data.is_empty() {
            let m = n.min(s.fs.nodes[ino].data.len());
            unsafe { std::ptr::copy_nonoverlapping(s.fs.nodes[ino].data.as_ptr(), buf, m) };
            s.fs.nodes[ino].data.drain(..m);
            return Ok(m as ssize_t);
        }
        // end of file once no writer is left (solver processes keep it open until they end)
        if s.pipe_ready(pipe) {
            return Ok(0);
        }
        if !wait {
            return Err(libc::EAGAIN);
        }
        block_current(CState::Pipe(pipe, pipe));
        if dead() {
            return Err(EIO);
        }
    }
}

fn sys_write(fd: c_int, buf: *const u8, n: usize) -> Result<ssize_t, c_int> {
    if !yield_point("write") {
        return Err(EIO);
    }
    let s = sim();
    let p = cur_proc();
    let (ino, pos, flags) = match s.procs[p].fds.get(&fd) {
        Some(f) => (f.ino, f.pos, f.flags),
        None => return Err(libc::EBADF),
    };
    s.logs(&format!("c{} write {}", me(), n));
    if s.fs.nodes[ino].kind == Kind::Null {
        return Ok(n as ssize_t);
    }
    if s.fault(F::EintrWrite) {
        return Err(libc::EINTR);
    }
    let mut m = n;
    if s.fault(F::WriteErr) {
        // a failing disk may still have taken part of the data
        let es = [libc::ENOSPC, libc::EIO, libc::EDQUOT];
        let e = *s.tape.pick(&es);
        let mut part = if n > 0 { s.tape.draw(n as u32) as usize } else { 0 };
        if s.tape.one_in(2) {
            part = 0; // this once
        } else {
            s.faults.rate[F::WriteErr as usize] = 1; // a full disk stays full for a while
        }
        if part == 0 {
            return Err(e);
        }
        m = part;
    } else if n > 1 && s.fault(F::ShortWrite) {
        m = 1 + s.tape.draw(n as u32 - 1) as usize;
    }
    effect();
    let d = &mut s.fs.nodes[ino].data;
    let at = if flags & libc::O_APPEND != 0 { d.len() } else { pos };
    if d.len() < at + m {
        d.resize(at + m, 0);
    }
    unsafe { std::ptr::copy_nonoverlapping(buf, d.as_mut_ptr().add(at), m) };
    s.fs.nodes[ino].version += 1;
    s.fs.nodes[ino].mtime = s.mtime_now();
    if let Some(f) = s.procs[p].fds.get_mut(&fd) {
        f.pos = at + m;
    }
    if m < n {
        s.logs(&format!("  = {}", m));
    }
    Ok(m as ssize_t)
}

fn sys_close(fd: c_int) -> Result<c_int, c_int> {
    if dead() {
        return Err(EIO);
    }
    let s = sim();
    let p = cur_proc();
    match s.procs[p].fds.remove(&fd) {
        Some(f) => {
            s.logs(&format!("c{} close", me()));
            if f.solve != cur_solve() {
                s.violate(&["C08"], "foreign-close", format!("a descriptor of {} that the solve does not own was closed", f.path));
            }
            if s.fault(F::CloseErr) {
                return Err(EIO);
            }
            Ok(0)
        }
        None => {
            s.logs(&format!("c{} close of a descriptor that is not open", me()));
            if fd >= FD_BASE {
                s.violate(&["C08"], "double-close", "a descriptor was closed twice".into());
            }
            Err(libc::EBADF)
        }
    }
}

fn sys_unlink(full: String) -> Result<c_int, c_int> {
    if !yield_point("unlink") {
        return Err(EIO);
    }
    let s = sim();
    let c = s.canon(&full);
    s.logs(&format!("c{} unlink {}", me(), c));
    match s.lookup(&full) {
        None => Err(libc::ENOENT),
        Some(i) => {
            if s.fs.nodes[i].kind == Kind::Dir {
                return Err(libc::EISDIR);
            }
            if s.fault(F::UnlinkErr) {
                if let Some(k) = cur_solve() {
                    s.solves[k].unlink_failed.push(full);
                }
                let es = [libc::EACCES, libc::EBUSY, libc::EIO, libc::EROFS];
                return Err(*s.tape.pick(&es));
            }
            effect();
            crate::cmd::on_remove(&full, i);
            s.fs.paths.remove(&full);
            Ok(0)
        }
    }
}

fn sys_rename(a: String, b: String) -> Result<c_int, c_int> {
    if !yield_point("rename") {
        return Err(EIO);
    }
    let s = sim();
    let (ca, cb) = (s.canon(&a), s.canon(&b));
    s.logs(&format!("c{} rename {} {}", me(), ca, cb));
    match s.lookup(&a) {
        None => Err(libc::ENOENT),
        Some(i) => {
            if !s.parent_ok(&b) {
                return Err(libc::ENOENT);
            }
            effect();
            if let Some(j) = s.lookup(&b) {
                crate::cmd::on_remove(&b, j);
            }
            crate::cmd::on_remove(&a, i);
            s.fs.paths.remove(&a);
            s.fs.paths.insert(b, i);
            Ok(0)
        }
    }
}

fn sys_link(a: String, b: String) -> Result<c_int, c_int> {
    if !yield_point("link") {
        return Err(EIO);
    }
    let s = sim();
    match (s.lookup(&a), s.lookup(&b)) {
        (None, _) => Err(libc::ENOENT),
        (_, Some(_)) => Err(libc::EEXIST),
        (Some(i), None) => {
            effect();
            s.fs.paths.insert(b, i);
            Ok(0)
        }
    }
}

struct St {
    mode: u32,
    size: i64,
    ino: u64,
    mtime: i64,
}
fn sys_stat(full: &str) -> Result<St, c_int> {
    if !yield_point("stat") {
        return Err(EIO);
    }
    let s = sim();
    let c = s.canon(full);
    s.logs(&format!("c{} stat {}", me(), c));
    match s.lookup(full) {
        None => Err(libc::ENOENT),
        Some(i) => Ok(st_of(i)),
    }
}
fn st_of(i: usize) -> St {
    let n = &sim().fs.nodes[i];
    let mode = match n.kind {
        Kind::File => libc::S_IFREG | 0o644,
        Kind::Dir => libc::S_IFDIR | 0o777,
        Kind::Null => libc::S_IFCHR | 0o666,
        _ => libc::S_IFIFO | 0o600,
    };
    St { mode, size: n.data.len() as i64, ino: i as u64 + 100, mtime: n.mtime }
}
fn fd_st(fd: c_int) -> Result<St, c_int> {
    if dead() {
        return Err(EIO);
    }
    match sim().procs[cur_proc()].fds.get(&fd) {
        Some(f) => Ok(st_of(f.ino)),
        None => Err(libc::EBADF),
    }
}
unsafe fn fill_stat(b: *mut libc::stat64, st: St) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*b).st_mode = st.mode;
    (*b).st_size = st.size;
    (*b).st_ino = st.ino;
    (*b).st_nlink = 1;
    (*b).st_dev = 7;
    (*b).st_uid = libc::getuid();
    (*b).st_blksize = 4096;
    (*b).st_mtime = st.mtime.div_euclid(1_000_000_000);
    (*b).st_mtime_nsec = st.mtime.rem_euclid(1_000_000_000);
    (*b).st_atime = (*b).st_mtime;
    (*b).st_atime_nsec = (*b).st_mtime_nsec;
    (*b).st_ctime = (*b).st_mtime;
    (*b).st_ctime_nsec = (*b).st_mtime_nsec;
}

// ------------------------------------------------------------------ exported symbols

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int;
    }
    let _h = Host::enter();
    let f = at(libc::AT_FDCWD, &cs(path));
    ret(sys_open(f, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_openat, d, path, flags, mode) as c_int;
    }
    let _h = Host::enter();
    let f = at(d, &cs(path));
    ret(sys_open(f, flags, mode))
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE && on()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    let _h = Host::enter();
    ret64(sys_read(fd, buf as *mut u8, n))
}
unsafe fn ret64(r: Result<ssize_t, c_int>) -> ssize_t {
    match r {
        Ok(v) => v,
        Err(e) => err(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let _h = Host::enter();
    ret64(sys_write(fd, buf as *const u8, n))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    let _h = Host::enter();
    let mut v: Vec<u8> = Vec::new();
    for i in 0..n as usize {
        let x = *iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    ret64(sys_write(fd, v.as_ptr(), v.len()))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t;
    }
    let _h = Host::enter();
    for i in 0..n as usize {
        let x = *iov.add(i);
        if x.iov_len > 0 {
            return ret64(sys_read(fd, x.iov_base as *mut u8, x.iov_len));
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    }
    let _h = Host::enter();
    let p = cur_proc();
    let save = match sim().procs[p].fds.get_mut(&fd) {
        Some(f) => std::mem::replace(&mut f.pos, off as usize),
        None => return err(libc::EBADF) as ssize_t,
    };
    let r = sys_read(fd, buf as *mut u8, n);
    if let Some(f) = sim().procs[p].fds.get_mut(&fd) {
        f.pos = save;
    }
    ret64(r)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
    }
    let _h = Host::enter();
    let p = cur_proc();
    let save = match sim().procs[p].fds.get_mut(&fd) {
        Some(f) => std::mem::replace(&mut f.pos, off as usize),
        None => return err(libc::EBADF) as ssize_t,
    };
    let r = sys_write(fd, buf as *const u8, n);
    if let Some(f) = sim().procs[p].fds.get_mut(&fd) {
        f.pos = save;
    }
    ret64(r)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_lseek, fd, off, wh) as off64_t;
    }
    let _h = Host::enter();
    if dead() {
        return err(EIO) as off64_t;
    }
    let s = sim();
    let p = cur_proc();
    let (ino, pos) = match s.procs[p].fds.get(&fd) {
        Some(f) => (f.ino, f.pos),
        None => return err(libc::EBADF) as off64_t,
    };
    let base = match wh {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => pos as i64,
        _ => s.fs.nodes[ino].data.len() as i64,
    };
    let np = base + off;
    if np < 0 {
        return err(libc::EINVAL) as off64_t;
    }
    s.procs[p].fds.get_mut(&fd).unwrap().pos = np as usize;
    np
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    let _h = Host::enter();
    ret(sys_close(fd))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    }
    let _h = Host::enter();
    if !yield_point("ftruncate") {
        return err(EIO);
    }
    let s = sim();
    let p = cur_proc();
    match s.procs[p].fds.get(&fd) {
        Some(f) => {
            let i = f.ino;
            s.fs.nodes[i].data.resize(len as usize, 0);
            s.fs.nodes[i].version += 1;
            0
        }
        None => err(libc::EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_fsync, fd) as c_int;
    }
    let _h = Host::enter();
    if !yield_point("fsync") {
        return err(EIO);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_fdatasync, fd) as c_int;
    }
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_fchmod, fd, m) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    }
    let _h = Host::enter();
    let s = sim();
    let p = cur_proc();
    let (ino, pos, flags, path) = match s.procs[p].fds.get(&fd) {
        Some(f) => (f.ino, f.pos, f.flags, f.path.clone()),
        None if s.procs[p].crashed || s.draining => return 0,
        None => return err(libc::EBADF),
    };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let n = new_fd(ino, flags, path);
            sim().procs[p].fds.get_mut(&n).unwrap().pos = pos;
            n
        }
        libc::F_GETFL => flags,
        libc::F_SETFL => {
            let keep = libc::O_NONBLOCK | libc::O_APPEND;
            sim().procs[p].fds.get_mut(&fd).unwrap().flags = (flags & !keep) | (arg as c_int & keep);
            0
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_dup, fd) as c_int;
    }
    fcntl(fd, libc::F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int;
    }
    if req == libc::TCGETS as libc::c_ulong {
        return err(libc::ENOTTY);
    }
    if req == libc::FIONBIO as libc::c_ulong {
        let _h = Host::enter();
        let nb = *(arg as *const c_int) != 0;
        if let Some(f) = sim().procs[cur_proc()].fds.get_mut(&fd) {
            f.flags = if nb { f.flags | libc::O_NONBLOCK } else { f.flags & !libc::O_NONBLOCK };
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !on() || n == 0 || (*fds).fd < FD_BASE {
        return libc::syscall(libc::SYS_poll, fds, n, t) as c_int;
    }
    let _h = Host::enter();
    if !yield_point("poll") {
        return err(EIO);
    }
    let mut late = false;
    loop {
        let s = sim();
        let p = cur_proc();
        let mut waits = Vec::new();
        let mut ready = 0;
        for i in 0..n as usize {
            let f = &mut *fds.add(i);
            let pipe = s.procs[p].fds.get(&f.fd).and_then(|d| match s.fs.nodes[d.ino].kind {
                Kind::PipeR(k) => Some(k),
                _ => None,
            });
            f.revents = 0;
            match pipe {
                Some(k) if !s.pipe_ready(k) => waits.push(k),
                _ => {
                    f.revents = f.events;
                    ready += 1;
                }
            }
        }
        if ready > 0 || t == 0 || late || waits.is_empty() {
            return ready;
        }
        if t > 0 {
            nap(t as u64 * 1_000_000);
            late = true;
        } else {
            block_current(CState::Pipe(waits[0], *waits.last().unwrap()));
        }
        if dead() {
            return err(EIO);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_unlink, path) as c_int;
    }
    let _h = Host::enter();
    ret(sys_unlink(at(libc::AT_FDCWD, &cs(path))))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_unlinkat, d, path, flags) as c_int;
    }
    let _h = Host::enter();
    let f = at(d, &cs(path));
    if flags & libc::AT_REMOVEDIR != 0 {
        return ret(sys_rmdir(f));
    }
    ret(sys_unlink(f))
}
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_unlink, path) as c_int;
    }
    unlink(path)
}
fn sys_rmdir(f: String) -> Result<c_int, c_int> {
    if !yield_point("rmdir") {
        return Err(EIO);
    }
    let s = sim();
    let pre = format!("{}/", f);
    if s.fs.paths.keys().any(|k| k.starts_with(&pre)) {
        return Err(libc::ENOTEMPTY);
    }
    match s.fs.paths.remove(&f) {
        Some(_) => {
            effect();
            Ok(0)
        }
        None => Err(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_rmdir, path) as c_int;
    }
    let _h = Host::enter();
    ret(sys_rmdir(at(libc::AT_FDCWD, &cs(path))))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_mkdir, path, mode) as c_int;
    }
    let _h = Host::enter();
    let f = at(libc::AT_FDCWD, &cs(path));
    if !yield_point("mkdir") {
        return err(EIO);
    }
    let s = sim();
    if s.lookup(&f).is_some() {
        return err(libc::EEXIST);
    }
    if !s.parent_ok(&f) {
        return err(libc::ENOENT);
    }
    if s.fault(F::OpenErr) {
        return err(libc::EACCES);
    }
    effect();
    s.mkdir(&f);
    if let Some(k) = cur_solve() {
        let i = s.lookup(&f).unwrap();
        s.fs.nodes[i].owner = Owner::Solve(k);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_rename, a, b) as c_int;
    }
    let _h = Host::enter();
    ret(sys_rename(at(libc::AT_FDCWD, &cs(a)), at(libc::AT_FDCWD, &cs(b))))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_renameat, da, a, db, b) as c_int;
    }
    let _h = Host::enter();
    ret(sys_rename(at(da, &cs(a)), at(db, &cs(b))))
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_renameat2, da, a, db, b, fl) as c_int;
    }
    let _h = Host::enter();
    let (x, y) = (at(da, &cs(a)), at(db, &cs(b)));
    if fl & 1 != 0 && sim().lookup(&y).is_some() {
        return err(libc::EEXIST);
    }
    ret(sys_rename(x, y))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_link, a, b) as c_int;
    }
    let _h = Host::enter();
    ret(sys_link(at(libc::AT_FDCWD, &cs(a)), at(libc::AT_FDCWD, &cs(b))))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_linkat, da, a, db, b, fl) as c_int;
    }
    let _h = Host::enter();
    ret(sys_link(at(da, &cs(a)), at(db, &cs(b))))
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_access, path, mode) as c_int;
    }
    let _h = Host::enter();
    ret(sys_stat(&at(libc::AT_FDCWD, &cs(path))).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, fl: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_faccessat, d, path, mode) as c_int;
    }
    let _h = Host::enter();
    ret(sys_stat(&at(d, &cs(path))).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, b: *mut libc::stat64) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, b, 0) as c_int;
    }
    let _h = Host::enter();
    match sys_stat(&at(libc::AT_FDCWD, &cs(path))) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, b: *mut libc::stat64) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, b, libc::AT_SYMLINK_NOFOLLOW) as c_int;
    }
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, b: *mut libc::stat64) -> c_int {
    lstat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    if !simfd(fd) {
        return libc::syscall(libc::SYS_fstat, fd, b) as c_int;
    }
    let _h = Host::enter();
    match fd_st(fd) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat64) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, b: *mut libc::stat64, fl: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_newfstatat, d, path, b, fl) as c_int;
    }
    let _h = Host::enter();
    match sys_stat(&at(d, &cs(path))) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_statx, d, path, fl, mask, b) as c_int;
    }
    let _h = Host::enter();
    let p = cs(path);
    let r = if p.is_empty() && d >= FD_BASE { fd_st(d) } else { sys_stat(&at(d, &p)) };
    match r {
        Ok(s) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*b).stx_mask = 0x7ff;
            (*b).stx_mode = s.mode as u16;
            (*b).stx_size = s.size as u64;
            (*b).stx_ino = s.ino;
            (*b).stx_nlink = 1;
            (*b).stx_blksize = 4096;
            (*b).stx_mtime.tv_sec = s.mtime.div_euclid(1_000_000_000);
            (*b).stx_mtime.tv_nsec = s.mtime.rem_euclid(1_000_000_000) as u32;
            (*b).stx_atime = (*b).stx_mtime;
            (*b).stx_ctime = (*b).stx_mtime;
            (*b).stx_btime = (*b).stx_mtime;
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, m: mode_t) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_chmod, path, m) as c_int;
    }
    let _h = Host::enter();
    ret(sys_stat(&at(libc::AT_FDCWD, &cs(path))).map(|_| 0))
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !on() {
        let r = libc::syscall(libc::SYS_getcwd, buf, n);
        return if r < 0 { std::ptr::null_mut() } else { buf };
    }
    let _h = Host::enter();
    let c = sim().procs[cur_proc()].cwd.clone();
    if c.len() + 1 > n {
        err(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
    *buf.add(c.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_chdir, path) as c_int;
    }
    let _h = Host::enter();
    let f = at(libc::AT_FDCWD, &cs(path));
    match sys_stat(&f) {
        Ok(_) => {
            sim().procs[cur_proc()].cwd = f;
            0
        }
        Err(e) => err(e),
    }
}
unsafe fn next(name: &'static [u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if !on() {
        let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(b"realpath\0"));
        return f(path, out);
    }
    let _h = Host::enter();
    let f = at(libc::AT_FDCWD, &cs(path));
    match sys_stat(&f) {
        Ok(_) => {
            let o = if out.is_null() { libc::malloc(f.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(f.as_ptr(), o as *mut u8, f.len());
            *o.add(f.len()) = 0;
            o
        }
        Err(e) => {
            err(e);
            std::ptr::null_mut()
        }
    }
}
// directory listing: only fd-less opendir is offered
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if !on() {
        let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(next(b"opendir\0"));
        return f(path);
    }
    let _h = Host::enter();
    let f = at(libc::AT_FDCWD, &cs(path));
    match sys_open(f, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0) {
        Ok(fd) => list_dir(fd),
        Err(e) => {
            err(e);
            std::ptr::null_mut()
        }
    }
}
unsafe fn list_dir(fd: c_int) -> *mut c_void {
    let s = sim();
    let Some((f, ino)) = s.procs[cur_proc()].fds.get(&fd).map(|x| (x.path.clone(), x.ino)) else {
        err(libc::EBADF);
        return std::ptr::null_mut();
    };
    if s.fs.nodes[ino].kind != Kind::Dir {
        err(libc::ENOTDIR);
        return std::ptr::null_mut();
    }
    let pre = if f == "/" { "/".to_string() } else { format!("{}/", f) };
    let names: Vec<(String, u8)> = s
        .fs
        .paths
        .iter()
        .filter(|(k, _)| k.starts_with(&pre) && k.len() > pre.len() && !k[pre.len()..].contains('/'))
        .map(|(k, i)| (k[pre.len()..].to_string(), if s.fs.nodes[*i].kind == Kind::Dir { libc::DT_DIR } else { libc::DT_REG }))
        .collect();
    Box::into_raw(Box::new(SimDir { fd, names, i: 0, ent: std::mem::zeroed() })) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !on() || fd < FD_BASE {
        let f: extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(next(b"fdopendir\0"));
        return f(fd);
    }
    let _h = Host::enter();
    list_dir(fd)
}
#[repr(C)]
struct SimDir {
    fd: c_int,
    names: Vec<(String, u8)>,
    i: usize,
    ent: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if !on() {
        let f: extern "C" fn(*mut c_void) -> *mut libc::dirent64 = std::mem::transmute(next(b"readdir64\0"));
        return f(d);
    }
    let _h = Host::enter();
    let d = &mut *(d as *mut SimDir);
    if d.i >= d.names.len() {
        return std::ptr::null_mut();
    }
    let (n, ty) = &d.names[d.i];
    d.i += 1;
    d.ent.d_ino = d.i as u64;
    d.ent.d_type = *ty;
    for (k, b) in n.bytes().chain(std::iter::once(0)).enumerate() {
        d.ent.d_name[k] = b as c_char;
    }
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next(b"closedir\0"));
        return f(d);
    }
    let _h = Host::enter();
    let d = Box::from_raw(d as *mut SimDir);
    sim().procs[cur_proc()].fds.remove(&d.fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next(b"dirfd\0"));
        return f(d);
    }
    (*(d as *mut SimDir)).fd
}

// ------------------------------------------------------------------ processes

#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if !on() {
        return libc::syscall(libc::SYS_getpid) as pid_t;
    }
    sim().procs[cur_proc()].pid
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if !on() {
        return libc::syscall(libc::SYS_gettid) as pid_t;
    }
    sim().procs[cur_proc()].pid + 100_000 * (1 + me() as i32)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if !on() {
        let f: extern "C" fn() -> pid_t = std::mem::transmute(next(b"fork\0"));
        return f();
    }
    err(libc::EAGAIN)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, fl: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_pipe2, p, fl) as c_int;
    }
    let _h = Host::enter();
    if !yield_point("pipe2") {
        return err(EIO);
    }
    let s = sim();
    if s.fault(F::OpenErr) {
        return err(libc::EMFILE);
    }
    let id = s.fs.nodes.len();
    s.fs.nodes.push(Inode { data: vec![], kind: Kind::PipeR(id), owner: Owner::Env, version: 0, mtime: s.mtime_now() });
    s.fs.nodes.push(Inode { data: vec![], kind: Kind::PipeW(id), owner: Owner::Env, version: 0, mtime: s.mtime_now() });
    *p = new_fd(id, 0, "pipe".into());
    *p.add(1) = new_fd(id + 1, 1, "pipe".into());
    0
}

thread_local! { static DUPS: std::cell::RefCell<Vec<(c_int, c_int)>> = const { std::cell::RefCell::new(Vec::new()) }; }

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int = std::mem::transmute(next(b"posix_spawn_file_actions_init\0"));
        return f(fa);
    }
    let _h = Host::enter();
    DUPS.with(|d| d.borrow_mut().clear());
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int = std::mem::transmute(next(b"posix_spawn_file_actions_destroy\0"));
        return f(fa);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut libc::posix_spawn_file_actions_t, a: c_int, b: c_int) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int = std::mem::transmute(next(b"posix_spawn_file_actions_adddup2\0"));
        return f(fa, a, b);
    }
    let _h = Host::enter();
    DUPS.with(|d| d.borrow_mut().push((a, b)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addclose(fa: *mut libc::posix_spawn_file_actions_t, a: c_int) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int) -> c_int = std::mem::transmute(next(b"posix_spawn_file_actions_addclose\0"));
        return f(fa, a);
    }
    0
}
thread_local! { static CHDIR: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, p: *const c_char) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut libc::posix_spawn_file_actions_t, *const c_char) -> c_int = std::mem::transmute(next(b"posix_spawn_file_actions_addchdir_np\0"));
        return f(fa, p);
    }
    let _h = Host::enter();
    CHDIR.with(|d| *d.borrow_mut() = Some(cs(p)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut pid_t, *const c_char, *const libc::posix_spawn_file_actions_t, *const libc::posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> c_int =
            std::mem::transmute(next(b"posix_spawnp\0"));
        return f(pid, file, fa, attr, argv, envp);
    }
    let _h = Host::enter();
    if !yield_point("spawn") {
        return EIO;
    }
    let s = sim();
    let prog = cs(file);
    let mut args = Vec::new();
    let mut k = 0;
    while !(*argv.add(k)).is_null() {
        args.push(cs(*argv.add(k)));
        k += 1;
    }
    let dups = DUPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    let cd = CHDIR.with(|d| d.borrow_mut().take());
    if s.fault(F::SpawnErr) {
        let es = [libc::ENOENT, libc::EAGAIN, libc::ENOMEM, libc::EACCES];
        return *s.tape.pick(&es);
    }
    let base = prog.rsplit('/').next().unwrap_or("").to_string();
    if base != "cbc" && base != "clp" {
        s.logs(&format!("c{} spawn of unknown program {}", me(), base));
        return libc::ENOENT;
    }
    effect();
    *pid = crate::child::spawn(s, &base, args, dups, cd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if !on() {
        let f: extern "C" fn(*mut pid_t, *const c_char, *const libc::posix_spawn_file_actions_t, *const libc::posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> c_int =
            std::mem::transmute(next(b"posix_spawn\0"));
        return f(pid, file, fa, attr, argv, envp);
    }
    posix_spawnp(pid, file, fa, attr, argv, envp)
}

fn sys_wait(pid: pid_t, flags: c_int) -> Result<(pid_t, c_int), c_int> {
    if !yield_point("wait") {
        return Err(libc::ECHILD);
    }
    let s = sim();
    let p = cur_proc();
    s.logs(&format!("c{} wait", me()));
    let mine = |c: &crate::child::Child| c.parent == p && !c.reaped && (pid == -1 || c.pid == pid);
    if !s.children.iter().any(mine) {
        return Err(libc::ECHILD);
    }
    if flags & libc::WNOHANG != 0 {
        if !s.children.iter().any(|c| mine(c) && c.exit.is_some()) {
            // a polling caller: let time pass
            nap(1_000_000);
            return Ok((0, 0));
        }
    } else if s.fault(F::EintrWait) {
        return Err(libc::EINTR);
    }
    // SIGCHLD ignored: the wait lasts until the child ends and then reports that it is gone
    let lost = s.fault(F::WaitErr);
    block_current(CState::Blocked(pid));
    if dead() {
        return Err(libc::ECHILD);
    }
    let s = sim();
    match s.children.iter().position(|c| c.parent == p && !c.reaped && c.exit.is_some() && (pid == -1 || c.pid == pid)) {
        Some(k) => {
            if flags & libc::WNOWAIT != 0 {
                return Ok((s.children[k].pid, s.children[k].exit.unwrap()));
            }
            s.children[k].reaped = true;
            s.logs(&format!("c{} reaped s{}", me(), k));
            if lost {
                return Err(libc::ECHILD);
            }
            Ok((s.children[k].pid, s.children[k].exit.unwrap()))
        }
        None => Err(libc::ECHILD),
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, flags: c_int) -> pid_t {
    if !on() {
        return libc::syscall(libc::SYS_wait4, pid, st, flags, 0) as pid_t;
    }
    let _h = Host::enter();
    match sys_wait(pid, flags) {
        Ok((p, s)) => {
            if !st.is_null() {
                *st = s;
            }
            p
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitid(t: libc::idtype_t, id: libc::id_t, info: *mut libc::siginfo_t, flags: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_waitid, t, id, info, flags, 0) as c_int;
    }
    let _h = Host::enter();
    let pid = if t == libc::P_ALL { -1 } else { id as pid_t };
    match sys_wait(pid, flags) {
        Ok((p, st)) => {
            if !info.is_null() {
                std::ptr::write_bytes(info as *mut u8, 0, std::mem::size_of::<libc::siginfo_t>());
                if p != 0 {
                    (*info).si_signo = libc::SIGCHLD;
                    (*info).si_code = if st & 0x7f == 0 { libc::CLD_EXITED } else { libc::CLD_KILLED };
                    let w = info as *mut c_int; // si_pid, si_uid, si_status
                    *w.add(4) = p;
                    *w.add(6) = if st & 0x7f == 0 { st >> 8 } else { st & 0x7f };
                }
            }
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_kill, pid, sig) as c_int;
    }
    let _h = Host::enter();
    if !yield_point("kill") {
        return err(EIO);
    }
    let s = sim();
    match s.children.iter().position(|c| c.pid == pid) {
        Some(k) => {
            if s.children[k].exit.is_none() && sig != 0 {
                s.logs(&format!("s{} killed by its parent", k));
                s.children[k].exit = Some(sig);
                s.children[k].killed = true;
            }
            0
        }
        None => err(libc::ESRCH),
    }
}

// ------------------------------------------------------------------ time and randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int;
    }
    let s = sim();
    s.now += 100;
    let t = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE { s.wall() } else { s.now as i64 };
    (*ts).tv_sec = t / 1_000_000_000;
    (*ts).tv_nsec = t % 1_000_000_000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_gettimeofday, tv, tz) as c_int;
    }
    let s = sim();
    (*tv).tv_sec = s.wall() / 1_000_000_000;
    (*tv).tv_usec = s.wall() / 1000 % 1_000_000;
    0
}
unsafe fn sleep_ns(ts: *const libc::timespec) {
    let _h = Host::enter();
    if yield_point("sleep") {
        nap(((*ts).tv_sec as u64).min(1 << 33) * 1_000_000_000 + (*ts).tv_nsec as u64);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_nanosleep, ts, rem) as c_int;
    }
    sleep_ns(ts);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !on() {
        let r = libc::syscall(libc::SYS_clock_nanosleep, id, fl, ts, rem);
        return if r < 0 { *libc::__errno_location() } else { 0 };
    }
    if fl & libc::TIMER_ABSTIME != 0 {
        let now = if id == libc::CLOCK_REALTIME { sim().wall() } else { sim().now as i64 };
        let d = ((*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec - now).max(0);
        sleep_ns(&libc::timespec { tv_sec: d / 1_000_000_000, tv_nsec: d % 1_000_000_000 });
    } else {
        sleep_ns(ts);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !on() {
        return libc::syscall(libc::SYS_sched_yield) as c_int;
    }
    let _h = Host::enter();
    yield_point("sched_yield");
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if !IS_SIM.with(|x| x.get()) {
        return libc::syscall(libc::SYS_getrandom, buf, n, fl) as ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    RAND.with(|r| {
        let mut s = r.get();
        for x in b.iter_mut() {
            *x = splitmix(&mut s) as u8;
        }
        r.set(s);
    });
    n as ssize_t
}

// ------------------------------------------------------------------ threads and locks

unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

/// Locks, condition variables and thread parking of the standard library arrive here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n != libc::SYS_futex || !on() {
        return raw_syscall(n, a, b, c, d, e, f);
    }
    let _h = Host::enter();
    let op = b as c_int & 0x7f;
    let word = a as *const u32;
    match op {
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            raw_syscall(n, a, b, c, d, e, f); // threads that are not simulated
            futex_wake(a as usize)
        }
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let same = || std::ptr::read_volatile(word) == c as u32;
            if !same() {
                return err(libc::EAGAIN) as c_long;
            }
            let ts = d as *const libc::timespec;
            let until = if ts.is_null() {
                u64::MAX
            } else {
                let t = ((*ts).tv_sec as u64).min(1 << 33) * 1_000_000_000 + (*ts).tv_nsec as u64;
                if op == libc::FUTEX_WAIT {
                    sim().now + t
                } else if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (t as i64).saturating_sub(EPOCH + sim().wall_set).max(0) as u64
                } else {
                    t
                }
            };
            extern "C" {
                static __executable_start: u8;
                static _end: u8;
            }
            let exe = &raw const __executable_start as usize..&raw const _end as usize;
            if exe.contains(&(a as usize)) && !crate::statics::owns(a as usize) {
                // A lock of the standard library itself: a thread that has left the simulation
                // may hold it for a moment.
                let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
                raw_syscall(n, a, libc::FUTEX_WAIT as c_long | libc::FUTEX_PRIVATE_FLAG as c_long, c, &ts as *const _ as c_long, 0, 0);
                if !same() {
                    return 0;
                }
            }
            if futex_wait(a as usize, same, until) {
                0
            } else {
                err(libc::ETIMEDOUT) as c_long
            }
        }
        _ => raw_syscall(n, a, b, c, d, e, f),
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Begin {
    f: Start,
    arg: *mut c_void,
    k: usize,
    slot: usize,
    pk: std::sync::Arc<Parker>,
    seed: u64,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Begin) };
    let mut r = std::ptr::null_mut();
    thread_main(b.k, b.slot, &b.pk, b.seed, || r = (b.f)(b.arg));
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int = std::mem::transmute(next(b"pthread_create\0"));
    if !on() {
        return real(t, attr, f, arg);
    }
    let _h = Host::enter();
    let Some((k, pk, seed)) = new_caller() else {
        return libc::EAGAIN;
    };
    let b = Box::into_raw(Box::new(Begin { f, arg, k, slot: crate::arena::SLOT.with(|s| s.get()), pk, seed }));
    let r = real(t, attr, tramp, b as *mut c_void);
    if r != 0 {
        crate::worker::harness_error("cannot start a thread");
    }
    sim().callers[k].tid = *t as u64;
    yield_point("thread start");
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next(b"pthread_join\0"));
    if !on() {
        return real(t, out);
    }
    let _h = Host::enter();
    let p = cur_proc();
    let k = sim().callers.iter().position(|c| c.tid == t as u64 && c.proc == p);
    if let Some(k) = k {
        join(k);
        sim().callers[k].tid = 0;
    }
    real(t, out)
}

// The standard library keeps a process-wide table of thread stacks unless somebody else handles
// memory faults. Its nodes would end up in the arena: handle them here, by dying.
unsafe extern "C" fn on_fault(sig: c_int) {
    libc::signal(sig, libc::SIG_DFL);
}
unsafe extern "C" fn before_main() {
    libc::signal(libc::SIGSEGV, on_fault as *const () as libc::sighandler_t);
    libc::signal(libc::SIGBUS, on_fault as *const () as libc::sighandler_t);
}
#[used]
#[link_section = ".init_array"]
static BEFORE_MAIN: unsafe extern "C" fn() = before_main;
