//! The seam: the libc entry points the Rust standard library calls, defined again in this executable.
//! Threads that are simulator clients are served by the simulated machine, all others by the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::sim::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off64_t, off_t, size_t, ssize_t, timespec, timeval};
use std::ffi::CStr;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static INTERPOSED: AtomicU64 = AtomicU64::new(0);

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn fail(e: i32) -> c_int {
    set_errno(e);
    -1
}
#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r as c_long
}
/// The standard library waits for locks with futex calls made here: inside library code of a client the simulator
/// schedules the others instead, so a client that lost the processor while it holds a lock can never block the run.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && lock_wait() {
            return 0;
        }
    }
    raw(n, a, b, c, d, e, f)
}
pub fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd(), p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}
unsafe fn path_of(p: *const c_char) -> String {
    norm(&String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()))
}
unsafe fn path_at(w: &World, id: usize, dirfd: c_int, p: *const c_char) -> String {
    let s = String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).to_string();
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        norm(&s)
    } else if let Some(OpenFile { dir: Some(d), .. }) = w.clients[id].fds.get(&dirfd) {
        norm(&format!("{}/{}", d, s))
    } else {
        norm(&s)
    }
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].to_string(),
    }
}
/// a component of a path has at most 255 bytes
fn too_long(p: &str) -> bool {
    p.split('/').any(|c| c.len() > 255)
}
fn is_vfd(fd: c_int) -> bool {
    fd >= FD_BASE
}
fn short(p: &str) -> &str {
    p.strip_prefix("/simfs/work/").unwrap_or(p)
}

// ---------------------------------------------------------------- open / close
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> Option<c_int> {
    let (m, id) = ctx()?;
    let _g = Inside::new();
    let p = { path_at(&m.lock(), id, dirfd, path) };
    let (mut w, act) = m.begin(id, Sys::Open, short(&p), 0);
    if let Act::Err(e) = act {
        w.note(id, "open", short(&p), -(e as i64));
        return Some(fail(e));
    }
    let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let r: Result<c_int, i32> = (|| {
        if too_long(&p) {
            return Err(libc::ENAMETOOLONG);
        }
        if w.disk.dirs.contains(&p) || p == "/" {
            if wr {
                return Err(libc::EISDIR);
            }
            let c = &mut w.clients[id];
            let fd = FD_BASE + (id as i32) * 100_000 + c.next_fd;
            c.next_fd += 1;
            c.fds.insert(fd, OpenFile { ino: usize::MAX, dir: Some(p.clone()), pos: 0, append: false, write: false, read: false, path: p.clone() });
            return Ok(fd);
        }
        if flags & libc::O_DIRECTORY != 0 && flags & libc::O_TMPFILE != libc::O_TMPFILE {
            return Err(if w.disk.names.contains_key(&p) { libc::ENOTDIR } else { libc::ENOENT });
        }
        let ino = match w.disk.names.get(&p).cloned() {
            Some(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if wr && flags & libc::O_TRUNC != 0 {
                    w.disk.trunc(i, 0);
                    w.touch(id, &p);
                    w.push_version(&p, id);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                if !w.disk.dirs.contains(&parent(&p)) {
                    return Err(libc::ENOENT);
                }
                let i = w.disk.inodes.len();
                let t = w.now_ns / 1_000_000_000;
                w.disk.inodes.push(Inode { mode: mode & 0o777, mtime: t, ..Default::default() });
                w.disk.meta(Meta::Set(p.clone(), i));
                w.touch(id, &p);
                w.push_version(&p, id);
                i
            }
        };
        let c = &mut w.clients[id];
        let fd = FD_BASE + (id as i32) * 100_000 + c.next_fd;
        c.next_fd += 1;
        c.fds.insert(
            fd,
            OpenFile {
                ino,
                dir: None,
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                write: wr,
                read: flags & libc::O_ACCMODE != libc::O_WRONLY,
                path: p.clone(),
            },
        );
        Ok(fd)
    })();
    let res = match r {
        Ok(fd) => fd as i64,
        Err(e) => -(e as i64),
    };
    w.note(id, if wr { "open-w" } else { "open" }, short(&p), res);
    Some(match r {
        Ok(fd) => fd,
        Err(e) => fail(e),
    })
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    INTERPOSED.fetch_or(1, Relaxed);
    if let Some(r) = do_open(libc::AT_FDCWD, path, flags, mode) {
        return r;
    }
    raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(r) = do_open(d, path, flags, mode) {
        return r;
    }
    raw(libc::SYS_openat, d as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_vfd(fd) {
        if let Some((m, id)) = ctx() {
            let _g = Inside::new();
            let (mut w, _) = m.begin(id, Sys::Close, "", 0);
            let f = w.clients[id].fds.remove(&fd);
            let p = f.as_ref().map(|f| f.path.clone()).unwrap_or_default();
            w.note(id, "close", short(&p), 0);
            if f.is_none() && !w.clients[id].dead {
                return fail(libc::EBADF);
            }
            return 0;
        }
        return 0;
    }
    raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- read / write
unsafe fn sim_read(fd: c_int, bufs: &[(*mut u8, usize)], at: Option<u64>) -> Option<ssize_t> {
    if !is_vfd(fd) {
        return None;
    }
    let (m, id) = ctx()?;
    let _g = Inside::new();
    let total: usize = bufs.iter().map(|b| b.1).sum();
    let (name, avail) = {
        let w = m.lock();
        match w.clients[id].fds.get(&fd) {
            Some(f) if f.dir.is_none() => {
                let l = w.disk.inodes[f.ino].data.len() as u64;
                (f.path.clone(), l.saturating_sub(at.unwrap_or(f.pos)) as usize)
            }
            _ => (String::new(), 0),
        }
    };
    let (mut w, act) = m.begin(id, Sys::Read, short(&name), total.min(avail));
    let mut lim = total;
    match act {
        Act::Err(e) => {
            w.note(id, "read", short(&name), -(e as i64));
            return Some(fail(e) as ssize_t);
        }
        Act::Short(n) => lim = lim.min(n),
        Act::Go => {}
    }
    let f = match w.clients[id].fds.get(&fd).cloned() {
        Some(f) if f.dir.is_none() && f.read => f,
        _ => {
            if !w.clients[id].dead {
                w.clients[id].bad_calls.push("read on a descriptor that is not open for reading".into());
            }
            return Some(fail(libc::EBADF) as ssize_t);
        }
    };
    let data = w.disk.inodes[f.ino].data.clone();
    let mut pos = at.unwrap_or(f.pos) as usize;
    let mut done = 0;
    for (b, l) in bufs {
        if pos >= data.len() || done >= lim {
            break;
        }
        let n = (*l).min(data.len() - pos).min(lim - done);
        std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), *b, n);
        pos += n;
        done += n;
    }
    if at.is_none() {
        w.clients[id].fds.get_mut(&fd).unwrap().pos = pos as u64;
    }
    w.note(id, "read", short(&name), done as i64);
    Some(done as ssize_t)
}
unsafe fn sim_write(fd: c_int, bufs: &[(*const u8, usize)], at: Option<u64>) -> Option<ssize_t> {
    let total: usize = bufs.iter().map(|b| b.1).sum();
    if !is_vfd(fd) {
        if (fd == 1 || fd == 2) && ctx().is_some() {
            return Some(total as ssize_t); // the library's log lines
        }
        return None;
    }
    let (m, id) = ctx()?;
    let _g = Inside::new();
    let name = {
        let w = m.lock();
        w.clients[id].fds.get(&fd).map(|f| f.path.clone()).unwrap_or_default()
    };
    let (mut w, act) = m.begin(id, Sys::Write, short(&name), total);
    let mut lim = total;
    match act {
        Act::Err(e) => {
            w.note(id, "write", short(&name), -(e as i64));
            return Some(fail(e) as ssize_t);
        }
        Act::Short(n) => lim = lim.min(n),
        Act::Go => {}
    }
    let f = match w.clients[id].fds.get(&fd).cloned() {
        Some(f) if f.dir.is_none() && f.write => f,
        _ => {
            if !w.clients[id].dead {
                w.clients[id].bad_calls.push("write on a descriptor that is not open for writing".into());
            }
            return Some(fail(libc::EBADF) as ssize_t);
        }
    };
    if let Some(cap) = w.disk.capacity {
        if w.faults_on {
            let used = w.disk.used();
            let size = w.disk.inodes[f.ino].data.len() as u64;
            let pos = if f.append { size } else { at.unwrap_or(f.pos) };
            let grow_free = cap.saturating_sub(used) + size.saturating_sub(pos);
            if (lim as u64) > grow_free {
                lim = grow_free as usize;
                w.fire(id, "disk_full", short(&name));
                if lim == 0 {
                    w.note(id, "write", short(&name), -(libc::ENOSPC as i64));
                    return Some(fail(libc::ENOSPC) as ssize_t);
                }
            }
        }
    }
    let mut pos = if f.append { w.disk.inodes[f.ino].data.len() as u64 } else { at.unwrap_or(f.pos) };
    let mut done = 0;
    for (b, l) in bufs {
        let n = (*l).min(lim - done);
        if n == 0 {
            continue;
        }
        let s = std::slice::from_raw_parts(*b, n);
        w.disk.write(f.ino, pos, s);
        pos += n as u64;
        done += n;
    }
    if at.is_none() {
        w.clients[id].fds.get_mut(&fd).unwrap().pos = pos;
    }
    let t = w.now_ns / 1_000_000_000;
    w.disk.inodes[f.ino].mtime = t;
    let paths: Vec<String> = w.disk.names.iter().filter(|(_, i)| **i == f.ino).map(|(p, _)| p.clone()).collect();
    for p in paths {
        w.touch(id, &p);
        w.push_version(&p, id);
    }
    w.note(id, "write", short(&name), done as i64);
    Some(done as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    INTERPOSED.fetch_or(2, Relaxed);
    if let Some(r) = sim_read(fd, &[(buf as *mut u8, n)], None) {
        return r;
    }
    raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    INTERPOSED.fetch_or(4, Relaxed);
    if let Some(r) = sim_write(fd, &[(buf as *const u8, n)], None) {
        return r;
    }
    raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if is_vfd(fd) {
        let b: Vec<(*mut u8, usize)> = (0..n as usize).map(|i| ((*v.add(i)).iov_base as *mut u8, (*v.add(i)).iov_len)).collect();
        if let Some(r) = sim_read(fd, &b, None) {
            return r;
        }
    }
    raw(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let b: Vec<(*const u8, usize)> = (0..n as usize).map(|i| ((*v.add(i)).iov_base as *const u8, (*v.add(i)).iov_len)).collect();
    if let Some(r) = sim_write(fd, &b, None) {
        return r;
    }
    raw(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if let Some(r) = sim_read(fd, &[(buf as *mut u8, n)], Some(off as u64)) {
        return r;
    }
    raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if let Some(r) = sim_write(fd, &[(buf as *const u8, n)], Some(off as u64)) {
        return r;
    }
    raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if is_vfd(fd) {
        if let Some((m, id)) = ctx() {
            let _g = Inside::new();
            let (mut w, act) = m.begin(id, Sys::Seek, "", 0);
            if let Act::Err(e) = act {
                return fail(e) as off64_t;
            }
            let Some(f) = w.clients[id].fds.get(&fd).cloned() else { return fail(libc::EBADF) as off64_t };
            if f.dir.is_some() {
                return 0;
            }
            let len = w.disk.inodes[f.ino].data.len() as i64;
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                _ => len,
            };
            let np = base + off;
            if np < 0 {
                return fail(libc::EINVAL) as off64_t;
            }
            w.clients[id].fds.get_mut(&fd).unwrap().pos = np as u64;
            w.note(id, "seek", "", np);
            return np;
        }
    }
    raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _l: size_t, _f: c_uint) -> ssize_t {
    if ctx().is_some() {
        return fail(libc::ENOSYS) as ssize_t;
    }
    raw(libc::SYS_copy_file_range, _a as usize, _b as usize, _c as usize, _d as usize, _l, _f as usize) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if ctx().is_some() {
        return fail(libc::EINVAL) as ssize_t;
    }
    raw(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if ctx().is_some() {
        return fail(libc::EINVAL) as ssize_t;
    }
    raw(libc::SYS_splice, a as usize, b as usize, c as usize, d as usize, n, f as usize) as ssize_t
}

// ---------------------------------------------------------------- metadata
enum What {
    Path(String),
    Fd(c_int),
}
struct St {
    dir: bool,
    size: u64,
    ino: u64,
    mode: u32,
    mtime: i64,
    dev: u64,
}
unsafe fn sim_stat(what: What) -> Option<Result<St, i32>> {
    let (m, id) = ctx()?;
    let _g = Inside::new();
    let name = match &what {
        What::Path(p) => p.clone(),
        What::Fd(fd) => m.lock().clients[id].fds.get(fd).map(|f| f.path.clone()).unwrap_or_default(),
    };
    let (mut w, act) = m.begin(id, Sys::Stat, short(&name), 0);
    if let Act::Err(e) = act {
        w.note(id, "stat", short(&name), -(e as i64));
        return Some(Err(e));
    }
    let ino = match &what {
        What::Path(p) => {
            if w.disk.dirs.contains(p) || p == "/" {
                usize::MAX
            } else {
                match w.disk.names.get(p) {
                    Some(i) => *i,
                    None => {
                        w.note(id, "stat", short(&name), -(libc::ENOENT as i64));
                        return Some(Err(libc::ENOENT));
                    }
                }
            }
        }
        What::Fd(fd) => match w.clients[id].fds.get(fd) {
            Some(f) => f.ino,
            None => return Some(Err(libc::EBADF)),
        },
    };
    w.note(id, "stat", short(&name), 0);
    let dev = if name.starts_with("/tmp") { 7 } else { 9 };
    Some(Ok(if ino == usize::MAX {
        St { dir: true, size: 4096, ino: 1, mode: 0o755, mtime: 1_600_000_000, dev }
    } else {
        let n = &w.disk.inodes[ino];
        St { dir: false, size: n.data.len() as u64, ino: ino as u64 + 100, mode: n.mode, mtime: n.mtime, dev }
    }))
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    INTERPOSED.fetch_or(8, Relaxed);
    if let Some((m, id)) = ctx() {
        if path.is_null() && flags & libc::AT_EMPTY_PATH == 0 {
            return fail(libc::EFAULT); // std's probe for the call; not an action of the library
        }
        let empty = path.is_null() || *path == 0;
        let what = if empty && flags & libc::AT_EMPTY_PATH != 0 {
            if is_vfd(dirfd) {
                Some(What::Fd(dirfd))
            } else {
                None
            }
        } else {
            let _g = Inside::new();
            let w = m.lock();
            Some(What::Path(path_at(&w, id, dirfd, path)))
        };
        if let Some(what) = what {
            match sim_stat(what) {
                Some(Ok(s)) => {
                    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    let b = &mut *buf;
                    b.stx_mask = libc::STATX_BASIC_STATS;
                    b.stx_mode = (if s.dir { libc::S_IFDIR } else { libc::S_IFREG } | s.mode) as u16;
                    b.stx_size = s.size;
                    b.stx_ino = s.ino;
                    b.stx_nlink = 1;
                    b.stx_blksize = 4096;
                    b.stx_mtime.tv_sec = s.mtime;
                    b.stx_dev_major = 0;
                    b.stx_dev_minor = s.dev as u32;
                    return 0;
                }
                Some(Err(e)) => return fail(e),
                None => {}
            }
        }
    }
    raw(libc::SYS_statx, dirfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0) as c_int
}
unsafe fn fill_stat(s: St, buf: *mut libc::stat64) {
    std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let b = &mut *buf;
    b.st_mode = if s.dir { libc::S_IFDIR } else { libc::S_IFREG } | s.mode;
    b.st_size = s.size as i64;
    b.st_ino = s.ino;
    b.st_nlink = 1;
    b.st_blksize = 4096;
    b.st_mtime = s.mtime;
    b.st_dev = s.dev;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if ctx().is_some() {
        return match sim_stat(What::Path(path_of(path))) {
            Some(Ok(s)) => {
                fill_stat(s, buf);
                0
            }
            Some(Err(e)) => fail(e),
            None => fail(libc::EIO),
        };
    }
    raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, path as usize, buf as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    if ctx().is_some() {
        return stat64(path, buf);
    }
    raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, path as usize, buf as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if is_vfd(fd) && ctx().is_some() {
        return match sim_stat(What::Fd(fd)) {
            Some(Ok(s)) => {
                fill_stat(s, buf);
                0
            }
            Some(Err(e)) => fail(e),
            None => fail(libc::EIO),
        };
    }
    raw(libc::SYS_fstat, fd as usize, buf as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if ctx().is_some() {
        return match sim_stat(What::Path(path_of(path))) {
            Some(Ok(_)) => 0,
            Some(Err(e)) => fail(e),
            None => fail(libc::EIO),
        };
    }
    raw(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0) as c_int
}
unsafe fn sim_meta(sys: Sys, name: &'static str, path: String, f: impl FnOnce(&mut World, usize) -> Result<(), i32>) -> Option<c_int> {
    let (m, id) = ctx()?;
    let _g = Inside::new();
    let (mut w, act) = m.begin(id, sys, short(&path), 0);
    if let Act::Err(e) = act {
        w.note(id, name, short(&path), -(e as i64));
        return Some(fail(e));
    }
    let r = if path.split(" -> ").any(too_long) { Err(libc::ENAMETOOLONG) } else { f(&mut w, id) };
    w.note(id, name, short(&path), r.err().map(|e| -(e as i64)).unwrap_or(0));
    Some(match r {
        Ok(()) => 0,
        Err(e) => fail(e),
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    INTERPOSED.fetch_or(16, Relaxed);
    if ctx().is_some() {
        let p = path_of(path);
        let q = p.clone();
        if let Some(r) = sim_meta(Sys::Unlink, "unlink", p, move |w, id| {
            if !w.disk.names.contains_key(&q) {
                return Err(if w.disk.dirs.contains(&q) { libc::EISDIR } else { libc::ENOENT });
            }
            w.disk.meta(Meta::Del(q.clone()));
            w.touch(id, &q);
            w.push_version(&q, id);
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    if ctx().is_some() && flags == 0 {
        return unlink(path);
    }
    raw(libc::SYS_unlinkat, d as usize, path as usize, flags as usize, 0, 0, 0) as c_int
}
unsafe fn do_rename(a: *const c_char, b: *const c_char, noreplace: bool) -> Option<c_int> {
    ctx()?;
    let (p, q) = (path_of(a), path_of(b));
    let label = format!("{} -> {}", short(&p), short(&q));
    sim_meta(Sys::Rename, "rename", label, move |w, id| {
        if w.disk.dirs.contains(&p) || w.disk.dirs.contains(&q) {
            return Err(libc::EISDIR);
        }
        if !w.disk.names.contains_key(&p) {
            return Err(libc::ENOENT);
        }
        if !w.disk.dirs.contains(&parent(&q)) {
            return Err(libc::ENOENT);
        }
        if p.starts_with("/tmp") != q.starts_with("/tmp") {
            return Err(libc::EXDEV);
        }
        if noreplace && w.disk.names.contains_key(&q) {
            return Err(libc::EEXIST);
        }
        if p == q {
            return Ok(());
        }
        w.disk.meta(Meta::Ren(p.clone(), q.clone()));
        w.touch(id, &p);
        w.touch(id, &q);
        w.push_version(&p, id);
        w.push_version(&q, id);
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    INTERPOSED.fetch_or(32, Relaxed);
    if let Some(r) = do_rename(a, b, false) {
        return r;
    }
    raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    if let Some(r) = do_rename(a, b, false) {
        return r;
    }
    raw(libc::SYS_renameat, da as usize, a as usize, db as usize, b as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if let Some(r) = do_rename(a, b, fl & libc::RENAME_NOREPLACE != 0) {
        return r;
    }
    raw(libc::SYS_renameat2, da as usize, a as usize, db as usize, b as usize, fl as usize, 0) as c_int
}
unsafe fn do_link(a: *const c_char, b: *const c_char) -> Option<c_int> {
    ctx()?;
    let (p, q) = (path_of(a), path_of(b));
    let label = format!("{} -> {}", short(&p), short(&q));
    sim_meta(Sys::Link, "link", label, move |w, id| {
        let Some(i) = w.disk.names.get(&p).cloned() else { return Err(libc::ENOENT) };
        if w.disk.names.contains_key(&q) {
            return Err(libc::EEXIST);
        }
        if !w.disk.dirs.contains(&parent(&q)) {
            return Err(libc::ENOENT);
        }
        w.disk.meta(Meta::Set(q.clone(), i));
        w.touch(id, &q);
        w.push_version(&q, id);
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(r) = do_link(a, b) {
        return r;
    }
    raw(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    if let Some(r) = do_link(a, b) {
        return r;
    }
    raw(libc::SYS_linkat, da as usize, a as usize, db as usize, b as usize, fl as usize, 0) as c_int
}
unsafe fn do_sync(fd: c_int) -> Option<c_int> {
    if !is_vfd(fd) {
        return None;
    }
    let (m, id) = ctx()?;
    let p = {
        let _g = Inside::new();
        let w = m.lock();
        w.clients[id].fds.get(&fd).map(|f| f.path.clone()).unwrap_or_default()
    };
    sim_meta(Sys::Fsync, "fsync", p, move |w, id| {
        let Some(f) = w.clients[id].fds.get(&fd).cloned() else { return Err(libc::EBADF) };
        if f.dir.is_some() {
            w.disk.sync_dirs();
        } else {
            w.disk.sync(f.ino);
        }
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Some(r) = do_sync(fd) {
        return r;
    }
    raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Some(r) = do_sync(fd) {
        return r;
    }
    raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    do_sync(fd).unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if is_vfd(fd) && ctx().is_some() {
        if let Some(r) = sim_meta(Sys::Trunc, "ftruncate", String::new(), move |w, id| {
            let Some(f) = w.clients[id].fds.get(&fd).cloned() else { return Err(libc::EBADF) };
            if !f.write {
                return Err(libc::EINVAL);
            }
            w.disk.trunc(f.ino, len as u64);
            let paths: Vec<String> = w.disk.names.iter().filter(|(_, i)| **i == f.ino).map(|(p, _)| p.clone()).collect();
            for p in paths {
                w.touch(id, &p);
                w.push_version(&p, id);
            }
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if is_vfd(fd) {
        return fail(libc::EOPNOTSUPP);
    }
    raw(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if ctx().is_some() {
        let p = path_of(path);
        let q = p.clone();
        if let Some(r) = sim_meta(Sys::Mkdir, "mkdir", p, move |w, id| {
            if w.disk.dirs.contains(&q) || w.disk.names.contains_key(&q) {
                return Err(libc::EEXIST);
            }
            if !w.disk.dirs.contains(&parent(&q)) {
                return Err(libc::ENOENT);
            }
            w.disk.dirs.insert(q.clone());
            w.touch(id, &q);
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if ctx().is_some() {
        let p = path_of(path);
        let q = p.clone();
        if let Some(r) = sim_meta(Sys::Unlink, "rmdir", p, move |w, id| {
            if !w.disk.dirs.contains(&q) {
                return Err(libc::ENOENT);
            }
            let pre = format!("{}/", q);
            if w.disk.names.keys().any(|k| k.starts_with(&pre)) || w.disk.dirs.iter().any(|k| k.starts_with(&pre)) {
                return Err(libc::ENOTEMPTY);
            }
            w.disk.dirs.remove(&q);
            w.touch(id, &q);
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_rmdir, path as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if ctx().is_some() {
        let p = path_of(path);
        let q = p.clone();
        if let Some(r) = sim_meta(Sys::Chmod, "chmod", p, move |w, id| {
            let Some(i) = w.disk.names.get(&q).cloned() else { return Err(libc::ENOENT) };
            w.disk.inodes[i].mode = mode & 0o777;
            w.touch(id, &q);
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_chmod, path as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if is_vfd(fd) && ctx().is_some() {
        return sim_meta(Sys::Chmod, "fchmod", String::new(), |_, _| Ok(())).unwrap_or(0);
    }
    raw(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_vfd(fd) {
        return 0;
    }
    raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
    if is_vfd(fd) {
        return 0;
    }
    raw(libc::SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: off64_t, _l: off64_t, _a: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_vfd(fd) {
        if let Some((m, id)) = ctx() {
            let _g = Inside::new();
            if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
                let (mut w, _) = m.begin(id, Sys::Dup, "", 0);
                let c = &mut w.clients[id];
                let Some(f) = c.fds.get(&fd).cloned() else { return fail(libc::EBADF) };
                let n = FD_BASE + (id as i32) * 100_000 + c.next_fd;
                c.next_fd += 1;
                c.fds.insert(n, f);
                return n;
            }
            return match m.lock().clients[id].fds.get(&fd) {
                Some(f) if cmd == libc::F_GETFL => {
                    if f.write && f.read {
                        libc::O_RDWR
                    } else if f.write {
                        libc::O_WRONLY
                    } else {
                        0
                    }
                }
                Some(_) => 0,
                None => fail(libc::EBADF),
            };
        }
        return 0;
    }
    raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if ctx().is_some() {
        return fail(libc::EINVAL) as ssize_t;
    }
    raw(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn symlink(_a: *const c_char, _b: *const c_char) -> c_int {
    if ctx().is_some() {
        return fail(libc::EPERM);
    }
    raw(libc::SYS_symlink, _a as usize, _b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let p = if ctx().is_some() {
        match sim_stat(What::Path(path_of(path))) {
            Some(Ok(_)) => path_of(path),
            Some(Err(e)) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
            None => path_of(path),
        }
    } else {
        // only std's start-up may come here outside a client; resolve textually
        norm(&String::from_utf8_lossy(CStr::from_ptr(path).to_bytes()))
    };
    let c = std::ffi::CString::new(p).unwrap();
    if out.is_null() {
        libc::strdup(c.as_ptr())
    } else {
        libc::strcpy(out, c.as_ptr());
        out
    }
}
/// The working folder belongs to the process: one session that changes it changes what the relative paths of all mean
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if ctx().is_some() {
        let p = path_of(path);
        let q = p.clone();
        if let Some(r) = sim_meta(Sys::Stat, "chdir", p, move |w, _| {
            if !w.disk.dirs.contains(&q) {
                return Err(if w.disk.names.contains_key(&q) { libc::ENOTDIR } else { libc::ENOENT });
            }
            *w.cwd.lock().unwrap() = q.clone();
            Ok(())
        }) {
            return r;
        }
    }
    raw(libc::SYS_chdir, path as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if ctx().is_some() && !buf.is_null() {
        let _g = Inside::new();
        let d = cwd();
        if n <= d.len() {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
        *buf.add(d.len()) = 0;
        return buf;
    }
    let r = raw(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
// ---------------------------------------------------------------- directory listing
struct SimDir {
    list: Vec<(String, bool)>,
    at: usize,
    ent: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if let Some((m, id)) = ctx() {
        let p = path_of(path);
        let _g = Inside::new();
        let (mut w, act) = m.begin(id, Sys::ReadDir, short(&p), 0);
        if let Act::Err(e) = act {
            set_errno(e);
            return std::ptr::null_mut();
        }
        if !w.disk.dirs.contains(&p) {
            set_errno(libc::ENOENT);
            return std::ptr::null_mut();
        }
        w.note(id, "opendir", short(&p), 0);
        let pre = format!("{}/", p);
        let mut list: Vec<(String, bool)> = vec![];
        for k in w.disk.names.keys() {
            if let Some(r) = k.strip_prefix(&pre) {
                if !r.contains('/') {
                    list.push((r.into(), false));
                }
            }
        }
        for k in w.disk.dirs.iter() {
            if let Some(r) = k.strip_prefix(&pre) {
                if !r.contains('/') {
                    list.push((r.into(), true));
                }
            }
        }
        return Box::into_raw(Box::new(SimDir { list, at: 0, ent: std::mem::zeroed() })) as *mut c_void;
    }
    // harness code never lists directories through this entry
    set_errno(libc::ENOSYS);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut SimDir);
    if d.at >= d.list.len() {
        return std::ptr::null_mut();
    }
    let (n, dir) = d.list[d.at].clone();
    d.at += 1;
    d.ent = std::mem::zeroed();
    d.ent.d_ino = 500 + d.at as u64;
    d.ent.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
    for (i, b) in n.bytes().take(254).enumerate() {
        d.ent.d_name[i] = b as c_char;
    }
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    drop(Box::from_raw(d as *mut SimDir));
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_d: *mut c_void) -> c_int {
    fail(libc::ENOTSUP)
}
// ---------------------------------------------------------------- clock and entropy
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if let Some((m, id)) = ctx() {
        INTERPOSED.fetch_or(64, Relaxed);
        let _g = Inside::new();
        let mut w = m.lock();
        let ns = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            let n = w.now_ns;
            let s = w.seq;
            w.clients[id].clock_reads.push((s, n));
            n
        } else {
            w.mono_ns += 1000;
            w.mono_ns
        };
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if ctx().is_some() {
        let mut ts: timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if let Some((m, id)) = ctx() {
        let _g = Inside::new();
        let w = m.lock();
        let mut w = m.yield_point(w, id);
        let d = (*a).tv_sec * 1_000_000_000 + (*a).tv_nsec;
        w.mono_ns += d;
        w.now_ns += d;
        return 0;
    }
    raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, f: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if ctx().is_some() {
        if f == 0 {
            return nanosleep(a, b);
        }
        return 0;
    }
    raw(libc::SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let Some((m, id)) = ctx() {
        INTERPOSED.fetch_or(128, Relaxed);
        let _g = Inside::new();
        let mut w = m.lock();
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in s.chunks_mut(8) {
            let x = w.rand(id).to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        return n as ssize_t;
    }
    raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    // temporary names derived from the process id must be the same in a replay
    if ctx().is_some() {
        return 4000;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
