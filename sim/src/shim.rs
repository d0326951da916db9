//! C library symbols replaced by the simulator.  Paths below /sim and the
//! descriptors made from them are simulated, everything else goes to the kernel.
use crate::rt::*;
use crate::sys::*;
use crate::vfs::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;

const FD_BASE: i32 = 1 << 20;

pub struct OpenFile {
    pub ino: u64,
    pub pos: u64,
    pub flags: i32,
    pub path: String,
}
pub struct SimDir {
    fd: i32,
    items: Vec<(Vec<u8>, u64, bool)>,
    i: usize,
    path: String,
    buf: libc::dirent64,
}
pub struct Tables {
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub dirs: Vec<*mut SimDir>,
}
pub static mut TAB: Tables = Tables { fds: BTreeMap::new(), next_fd: FD_BASE, dirs: vec![] };
/// fds 1 and 2 are silenced inside incarnations
pub static mut MUTE: bool = true;

pub fn tab() -> &'static mut Tables {
    unsafe { &mut TAB }
}
fn is_sim_path(p: &[u8]) -> bool {
    p.starts_with(b"/sim") && (p.len() == 4 || p[4] == b'/')
}
unsafe fn cbytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
unsafe fn sim_path<'a>(p: *const c_char) -> Option<&'a [u8]> {
    if !live() || p.is_null() {
        return None;
    }
    let b = cbytes(p);
    if is_sim_path(b) {
        Some(b)
    } else {
        None
    }
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && live()
}
unsafe fn fail(e: i32) -> c_int {
    fs_leave();
    set_errno(e);
    -1
}
macro_rules! dl {
    ($name:literal, $t:ty) => {{
        let f: $t = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const _));
        f
    }};
}
/// base inode and components for an *at() call
unsafe fn at_path(dirfd: c_int, path: *const c_char) -> Option<(u64, Vec<Vec<u8>>, String)> {
    if !live() {
        return None;
    }
    let b = if path.is_null() { &b""[..] } else { cbytes(path) };
    if b.first() == Some(&b'/') {
        if is_sim_path(b) {
            return Some((1, Vfs::comps(b), lossy(b)));
        }
        return None;
    }
    if dirfd >= FD_BASE {
        let (base, bp) = match tab().fds.get(&dirfd) {
            Some(f) => (f.ino, f.path.clone()),
            None => (u64::MAX, String::new()),
        };
        let comps = b.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect();
        let full = if b.is_empty() { bp } else { format!("{}/{}", bp, lossy(b)) };
        return Some((base, comps, full));
    }
    None
}
/// the time a file gets; some file systems keep it only roughly
fn now() -> i64 {
    let t = rt().realtime();
    t - t.rem_euclid(grain())
}
pub fn grain() -> i64 {
    match rt().policy.seed / 5 % 8 {
        0 => 4_000_000,
        1 => 2_000_000_000,
        _ => 1,
    }
}
/// errno for an injected fault which is a plain error
fn err_of(a: &Option<Act>) -> Option<i32> {
    match a {
        Some(Act::Err(e)) => Some(*e),
        _ => None,
    }
}

unsafe fn do_open(base: u64, comps: Vec<Vec<u8>>, full: String, flags: c_int) -> c_int {
    let acc = flags & libc::O_ACCMODE;
    let w = acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let a = fs_enter(if w { C_OPEN_W } else { C_OPEN_R }, &full);
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    if a == Some(Act::Eintr) {
        return fail(libc::EINTR);
    }
    let r = rt();
    if base == u64::MAX {
        return fail(libc::EBADF);
    }
    let ino = match r.vfs.walk(base, &comps) {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(libc::EEXIST);
            }
            let n = r.vfs.get(i);
            if n.dir && (w || flags & libc::O_CREAT != 0) {
                return fail(libc::EISDIR);
            }
            if !n.dir && flags & libc::O_DIRECTORY != 0 {
                return fail(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 {
                let t = now();
                let n = r.vfs.get_mut(i);
                n.data.clear();
                n.mtime = t;
            }
            i
        }
        Err(e) => {
            if e != libc::ENOENT || flags & libc::O_CREAT == 0 {
                return fail(e);
            }
            match r.vfs.walk_parent(base, &comps) {
                Ok((p, name)) => {
                    if r.vfs.quota != u64::MAX && r.vfs.used() + 64 > r.vfs.quota {
                        r.cnt.add("fault.disk_full.open_w", 1);
                        r.fired += 1;
                        return fail(libc::ENOSPC);
                    }
                    let t = now();
                    r.vfs.add(p, &name, false, t)
                }
                Err(e) => return fail(e),
            }
        }
    };
    let t = tab();
    let fd = t.next_fd;
    t.next_fd += 1;
    if !r.vfs.get(ino).dir && !w {
        r.opened.push(full.clone());
    }
    r.logf(|| format!("open {} flags={:#x} -> {}", full, flags, fd - FD_BASE));
    t.fds.insert(fd, OpenFile { ino, pos: 0, flags, path: full });
    fs_leave();
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(path) {
        Some(b) => do_open(1, Vfs::comps(b), lossy(b), flags),
        None => raw_errno(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, (flags | libc::O_LARGEFILE) as usize, mode as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match at_path(dirfd, path) {
        Some((b, c, f)) => do_open(b, c, f, flags),
        None => raw_errno(libc::SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !is_sim_fd(fd) {
        if fd >= FD_BASE {
            return 0;
        }
        return raw_errno(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    fs_enter(C_CLOSE, &path);
    match tab().fds.remove(&fd) {
        Some(f) => {
            let open = tab().fds.values().any(|o| o.ino == f.ino);
            rt().vfs.reap(f.ino, open);
            fs_leave();
            0
        }
        None => fail(libc::EBADF),
    }
}
unsafe fn do_read(fd: c_int, bufs: &[(*mut u8, usize)], at: Option<u64>) -> ssize_t {
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    let a = fs_enter(C_READ, &path);
    if let Some(e) = err_of(&a) {
        return fail(e) as ssize_t;
    }
    if a == Some(Act::Eintr) {
        return fail(libc::EINTR) as ssize_t;
    }
    let f = match tab().fds.get_mut(&fd) {
        Some(f) => f,
        None => return fail(libc::EBADF) as ssize_t,
    };
    let n = rt().vfs.get(f.ino);
    if n.dir {
        return fail(libc::EISDIR) as ssize_t;
    }
    let pos = at.unwrap_or(f.pos) as usize;
    let avail = n.data.len().saturating_sub(pos);
    let want: usize = bufs.iter().map(|b| b.1).sum();
    let mut len = want.min(avail);
    if let Some(Act::Short(p)) = a {
        if len > 1 {
            len = (len * p as usize / 1000).max(1).min(len - 1);
        }
    }
    let mut done = 0;
    for (p, l) in bufs {
        let k = (*l).min(len - done);
        std::ptr::copy_nonoverlapping(n.data.as_ptr().add(pos + done), *p, k);
        done += k;
    }
    if at.is_none() {
        f.pos += len as u64;
    }
    rt().event(0x70, len as u64, 0);
    fs_leave();
    len as ssize_t
}
unsafe fn do_write(fd: c_int, data: Vec<u8>, at: Option<u64>) -> ssize_t {
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    let a = fs_enter(C_WRITE, &path);
    if let Some(e) = err_of(&a) {
        return fail(e) as ssize_t;
    }
    if a == Some(Act::Eintr) {
        return fail(libc::EINTR) as ssize_t;
    }
    let f = match tab().fds.get_mut(&fd) {
        Some(f) => f,
        None => return fail(libc::EBADF) as ssize_t,
    };
    if f.flags & libc::O_ACCMODE == libc::O_RDONLY {
        return fail(libc::EBADF) as ssize_t;
    }
    let r = rt();
    let mut len = data.len();
    match a {
        Some(Act::Short(p)) if len > 1 => len = (len * p as usize / 1000).max(1).min(len - 1),
        Some(Act::CrashTorn(p)) => len = len * p as usize / 1000,
        _ => {}
    }
    let size = r.vfs.get(f.ino).data.len() as u64;
    let pos = if f.flags & libc::O_APPEND != 0 { size } else { at.unwrap_or(f.pos) };
    if r.vfs.quota != u64::MAX {
        let grow = (pos + len as u64).saturating_sub(size);
        let room = r.vfs.quota.saturating_sub(r.vfs.used());
        if grow > room {
            r.cnt.add("fault.disk_full.write", 1);
            r.fired += 1;
            let l = len as u64 - (grow - room).min(len as u64);
            if l == 0 && len > 0 {
                return fail(libc::ENOSPC) as ssize_t;
            }
            len = l as usize;
        }
    }
    let t = now();
    let n = r.vfs.get_mut(f.ino);
    let end = pos as usize + len;
    if n.data.len() < end {
        n.data.resize(end, 0);
    }
    n.data[pos as usize..end].copy_from_slice(&data[..len]);
    n.mtime = t;
    if at.is_none() {
        f.pos = end as u64;
    }
    let h = fnv(5, &data[..len]);
    r.event(0x71, len as u64, h);
    r.logf(|| format!("write {} {} bytes at {}", path, len, pos));
    if let Some(Act::CrashTorn(_)) = a {
        crash();
    }
    fs_leave();
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        do_read(fd, &[(buf as *mut u8, n)], None)
    } else {
        raw_errno(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim_fd(fd) {
        let v: Vec<(*mut u8, usize)> = (0..n as usize).map(|i| ((*iov.add(i)).iov_base as *mut u8, (*iov.add(i)).iov_len)).collect();
        do_read(fd, &v, None)
    } else {
        raw_errno(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if is_sim_fd(fd) {
        do_read(fd, &[(buf as *mut u8, n)], Some(off as u64))
    } else {
        raw_errno(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)
    }
}
unsafe fn muted(fd: c_int) -> bool {
    MUTE && (fd == 1 || fd == 2) && active()
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        do_write(fd, std::slice::from_raw_parts(buf as *const u8, n).to_vec(), None)
    } else if muted(fd) {
        n as ssize_t
    } else {
        raw_errno(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim_fd(fd) || muted(fd) {
        let mut v = vec![];
        for i in 0..n as usize {
            let b = &*iov.add(i);
            v.extend_from_slice(std::slice::from_raw_parts(b.iov_base as *const u8, b.iov_len));
        }
        if muted(fd) {
            return v.len() as ssize_t;
        }
        do_write(fd, v, None)
    } else {
        raw_errno(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if is_sim_fd(fd) {
        do_write(fd, std::slice::from_raw_parts(buf as *const u8, n).to_vec(), Some(off as u64))
    } else {
        raw_errno(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if !is_sim_fd(fd) {
        return raw_errno(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) as off64_t;
    }
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    let a = fs_enter(C_OTHER, &path);
    if let Some(e) = err_of(&a) {
        return fail(e) as off64_t;
    }
    let f = match tab().fds.get_mut(&fd) {
        Some(f) => f,
        None => return fail(libc::EBADF) as off64_t,
    };
    let size = rt().vfs.get(f.ino).data.len() as i64;
    let p = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => f.pos as i64 + off,
        _ => size + off,
    };
    if p < 0 {
        return fail(libc::EINVAL) as off64_t;
    }
    f.pos = p as u64;
    fs_leave();
    p
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !is_sim_fd(fd) {
        return raw_errno(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int;
    }
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    let a = fs_enter(C_WRITE, &path);
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    let ino = match tab().fds.get(&fd) {
        Some(f) => f.ino,
        None => return fail(libc::EBADF),
    };
    rt().vfs.get_mut(ino).data.resize(len as usize, 0);
    fs_leave();
    0
}
unsafe fn do_sync(fd: c_int, n: i64) -> c_int {
    if !is_sim_fd(fd) {
        return raw_errno(n, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let path = tab().fds.get(&fd).map_or(String::new(), |f| f.path.clone());
    let a = fs_enter(C_OTHER, &path);
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    fs_leave();
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    raw_errno(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !is_sim_fd(fd) {
        return raw_errno(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int;
    }
    let t = tab();
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            // note: a real dup shares the offset; nobody relies on that here
            let (ino, pos, flags, path) = match t.fds.get(&fd) {
                Some(f) => (f.ino, f.pos, f.flags, f.path.clone()),
                None => {
                    set_errno(libc::EBADF);
                    return -1;
                }
            };
            let n = t.next_fd;
            t.next_fd += 1;
            t.fds.insert(n, OpenFile { ino, pos, flags, path });
            n
        }
        libc::F_GETFL => t.fds.get(&fd).map_or(-1, |f| f.flags),
        _ => 0,
    }
}

// ---- stat ----
unsafe fn stat_ino(class_path: &str, f: impl FnOnce(&Vfs) -> Result<u64, i32>) -> Result<(u64, Inode), i32> {
    let a = fs_enter(C_STAT, class_path);
    if let Some(e) = err_of(&a) {
        return Err(e);
    }
    let r = rt();
    let ino = f(&r.vfs)?;
    let n = r.vfs.get(ino);
    Ok((ino, Inode { dir: n.dir, data: vec![0; n.data.len()], mtime: n.mtime, btime: n.btime, nlink: n.nlink, parent: n.parent, entries: BTreeMap::new() }))
}
unsafe fn fill_stat(st: *mut libc::stat64, ino: u64, n: &Inode) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let s = &mut *st;
    s.st_ino = ino;
    s.st_dev = 77;
    s.st_nlink = n.nlink;
    s.st_mode = if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    s.st_size = n.data.len() as i64;
    s.st_blksize = 4096;
    s.st_mtime = n.mtime.div_euclid(1_000_000_000);
    s.st_mtime_nsec = n.mtime.rem_euclid(1_000_000_000);
    s.st_ctime = s.st_mtime;
    s.st_ctime_nsec = s.st_mtime_nsec;
    s.st_atime = s.st_mtime;
}
unsafe fn fin_stat(st: *mut libc::stat64, r: Result<(u64, Inode), i32>) -> c_int {
    match r {
        Ok((i, n)) => {
            fill_stat(st, i, &n);
            fs_leave();
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(path) {
        Some(b) => fin_stat(st, stat_ino(&lossy(b), |v| v.walk(1, &Vfs::comps(b)))),
        None => raw_errno(libc::SYS_stat, path as usize, st as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(path) {
        Some(_) => stat64(path, st),
        None => raw_errno(libc::SYS_lstat, path as usize, st as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !is_sim_fd(fd) {
        return raw_errno(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    let (ino, path) = tab().fds.get(&fd).map_or((None, String::new()), |f| (Some(f.ino), f.path.clone()));
    fin_stat(st, stat_ino(&path, |_| ino.ok_or(libc::EBADF)))
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    match at_path(dirfd, path) {
        Some((b, c, f)) => fin_stat(st, stat_ino(&f, |v| if b == u64::MAX { Err(libc::EBADF) } else { v.walk(b, &c) })),
        None => raw_errno(libc::SYS_newfstatat, dirfd as usize, path as usize, st as usize, flags as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    match at_path(dirfd, path) {
        Some((b, c, f)) => match stat_ino(&f, |v| if b == u64::MAX { Err(libc::EBADF) } else { v.walk(b, &c) }) {
            Ok((ino, n)) => {
                std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
                let s = &mut *st;
                s.stx_mask = libc::STATX_BASIC_STATS | libc::STATX_BTIME;
                s.stx_blksize = 4096;
                s.stx_nlink = n.nlink as u32;
                s.stx_mode = (if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
                s.stx_ino = ino;
                s.stx_size = n.data.len() as u64;
                let ts = |t: i64, d: &mut libc::statx_timestamp| {
                    d.tv_sec = t.div_euclid(1_000_000_000);
                    d.tv_nsec = t.rem_euclid(1_000_000_000) as u32;
                };
                ts(n.mtime, &mut s.stx_mtime);
                ts(n.mtime, &mut s.stx_ctime);
                ts(n.mtime, &mut s.stx_atime);
                ts(n.btime, &mut s.stx_btime);
                fs_leave();
                0
            }
            Err(e) => fail(e),
        },
        None => raw_errno(libc::SYS_statx, dirfd as usize, path as usize, flags as usize, mask as usize, st as usize, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match sim_path(path) {
        Some(b) => match stat_ino(&lossy(b), |v| v.walk(1, &Vfs::comps(b))) {
            Ok(_) => {
                fs_leave();
                0
            }
            Err(e) => fail(e),
        },
        None => raw_errno(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    match sim_path(path) {
        Some(_) => 0,
        None => raw_errno(libc::SYS_chmod, path as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    raw_errno(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) as c_int
}

// ---- directory changes ----
unsafe fn do_mkdir(b: u64, c: Vec<Vec<u8>>, full: String) -> c_int {
    let a = fs_enter(C_MKDIR, &full);
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    let r = rt();
    match r.vfs.walk_parent(b, &c) {
        Ok((p, name)) => {
            if r.vfs.get(p).entries.contains_key(&name) {
                return fail(libc::EEXIST);
            }
            if r.vfs.quota != u64::MAX && r.vfs.used() + 64 > r.vfs.quota {
                r.cnt.add("fault.disk_full.mkdir", 1);
                r.fired += 1;
                return fail(libc::ENOSPC);
            }
            let t = now();
            r.vfs.add(p, &name, true, t);
            r.logf(|| format!("mkdir {}", full));
            fs_leave();
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    match sim_path(path) {
        Some(b) => do_mkdir(1, Vfs::comps(b), lossy(b)),
        None => raw_errno(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dirfd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    match at_path(dirfd, path) {
        Some((b, c, f)) => do_mkdir(b, c, f),
        None => raw_errno(libc::SYS_mkdirat, dirfd as usize, path as usize, mode as usize, 0, 0, 0) as c_int,
    }
}
unsafe fn do_unlink(b: u64, c: Vec<Vec<u8>>, full: String, dir: bool) -> c_int {
    let a = fs_enter(C_UNLINK, &full);
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    let r = rt();
    let t = now();
    let res = r.vfs.walk_parent(b, &c).and_then(|(p, name)| r.vfs.unlink(p, &name, dir, t));
    match res {
        Ok(ino) => {
            let open = tab().fds.values().any(|o| o.ino == ino);
            r.vfs.reap(ino, open);
            r.logf(|| format!("unlink {}", full));
            fs_leave();
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match sim_path(path) {
        Some(b) => do_unlink(1, Vfs::comps(b), lossy(b), false),
        None => raw_errno(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    match sim_path(path) {
        Some(b) => do_unlink(1, Vfs::comps(b), lossy(b), true),
        None => raw_errno(libc::SYS_rmdir, path as usize, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    match at_path(dirfd, path) {
        Some((b, c, f)) => do_unlink(b, c, f, flags & libc::AT_REMOVEDIR != 0),
        None => raw_errno(libc::SYS_unlinkat, dirfd as usize, path as usize, flags as usize, 0, 0, 0) as c_int,
    }
}
unsafe fn do_rename(o: (u64, Vec<Vec<u8>>, String), n: (u64, Vec<Vec<u8>>, String), noreplace: bool) -> c_int {
    let a = fs_enter(C_RENAME, &format!("{} -> {}", o.2, n.2));
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    let r = rt();
    let t = now();
    let res = (|| -> Result<(), i32> {
        let (op, on) = r.vfs.walk_parent(o.0, &o.1)?;
        let ino = *r.vfs.get(op).entries.get(&on).ok_or(libc::ENOENT)?;
        let (np, nn) = r.vfs.walk_parent(n.0, &n.1)?;
        let is_dir = r.vfs.get(ino).dir;
        if is_dir && r.vfs.is_ancestor(ino, np) {
            return Err(libc::EINVAL);
        }
        if let Some(&old) = r.vfs.get(np).entries.get(&nn) {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if old == ino {
                return Ok(());
            }
            let od = r.vfs.get(old).dir;
            if od && !is_dir {
                return Err(libc::EISDIR);
            }
            if !od && is_dir {
                return Err(libc::ENOTDIR);
            }
            r.vfs.unlink(np, &nn, od, t)?;
            let open = tab().fds.values().any(|f| f.ino == old);
            r.vfs.reap(old, open);
        }
        r.vfs.get_mut(op).entries.remove(&on);
        r.vfs.get_mut(np).entries.insert(nn, ino);
        r.vfs.get_mut(op).mtime = t;
        r.vfs.get_mut(np).mtime = t;
        r.vfs.get_mut(ino).parent = np;
        Ok(())
    })();
    r.logf(|| format!("rename {} -> {}: {:?}", o.2, n.2, res));
    match res {
        Ok(()) => {
            fs_leave();
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(old: *const c_char, new: *const c_char) -> c_int {
    match (sim_path(old), sim_path(new)) {
        (Some(a), Some(b)) => do_rename((1, Vfs::comps(a), lossy(a)), (1, Vfs::comps(b), lossy(b)), false),
        (None, None) => raw_errno(libc::SYS_rename, old as usize, new as usize, 0, 0, 0, 0) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(od: c_int, old: *const c_char, nd: c_int, new: *const c_char, flags: c_uint) -> c_int {
    match (at_path(od, old), at_path(nd, new)) {
        (Some(a), Some(b)) => do_rename(a, b, flags & 1 != 0),
        (None, None) => raw_errno(libc::SYS_renameat2, od as usize, old as usize, nd as usize, new as usize, flags as usize, 0) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, old: *const c_char, nd: c_int, new: *const c_char) -> c_int {
    renameat2(od, old, nd, new, 0)
}
unsafe fn do_link(o: (u64, Vec<Vec<u8>>, String), n: (u64, Vec<Vec<u8>>, String)) -> c_int {
    let a = fs_enter(C_RENAME, &format!("{} => {}", o.2, n.2));
    if let Some(e) = err_of(&a) {
        return fail(e);
    }
    let r = rt();
    let res = (|| -> Result<(), i32> {
        let ino = r.vfs.walk(o.0, &o.1)?;
        let (np, nn) = r.vfs.walk_parent(n.0, &n.1)?;
        if r.vfs.get(ino).dir {
            return Err(libc::EPERM);
        }
        if r.vfs.get(np).entries.contains_key(&nn) {
            return Err(libc::EEXIST);
        }
        r.vfs.get_mut(np).entries.insert(nn, ino);
        r.vfs.get_mut(ino).nlink += 1;
        Ok(())
    })();
    match res {
        Ok(()) => {
            fs_leave();
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, old: *const c_char, nd: c_int, new: *const c_char, flags: c_int) -> c_int {
    match (at_path(od, old), at_path(nd, new)) {
        (Some(a), Some(b)) => do_link(a, b),
        (None, None) => raw_errno(libc::SYS_linkat, od as usize, old as usize, nd as usize, new as usize, flags as usize, 0) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(old: *const c_char, new: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(old: *const c_char, new: *const c_char) -> c_int {
    if sim_path(new).is_some() {
        set_errno(libc::EPERM);
        return -1;
    }
    raw_errno(libc::SYS_symlink, old as usize, new as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if sim_path(path).is_some() {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw_errno(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match sim_path(path) {
        Some(b) => {
            match stat_ino(&lossy(b), |v| v.walk(1, &Vfs::comps(b))) {
                Ok(_) => fs_leave(),
                Err(e) => {
                    fail(e);
                    return std::ptr::null_mut();
                }
            }
            let mut st: Vec<Vec<u8>> = vec![];
            for c in Vfs::comps(b) {
                if c == b".." {
                    st.pop();
                } else {
                    st.push(c);
                }
            }
            let mut s = b"/sim".to_vec();
            for c in st {
                s.push(b'/');
                s.extend_from_slice(&c);
            }
            s.push(0);
            let p = if out.is_null() { libc::malloc(s.len()) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, p, s.len());
            p
        }
        None => dl!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out),
    }
}

// ---- directory reading ----
unsafe fn make_dir(ino: u64, path: String, fd: Option<i32>) -> *mut libc::DIR {
    let r = rt();
    let mut items: Vec<(Vec<u8>, u64, bool)> = r.vfs.get(ino).entries.iter().map(|(k, v)| (k.clone(), *v, r.vfs.get(*v).dir)).collect();
    items.push((b".".to_vec(), ino, true));
    items.push((b"..".to_vec(), r.vfs.get(ino).parent, true));
    // seeded enumeration order
    for i in (1..items.len()).rev() {
        let j = r.aux.below(i + 1);
        items.swap(i, j);
    }
    let t = tab();
    let fd = fd.unwrap_or_else(|| {
        let n = t.next_fd;
        t.next_fd += 1;
        t.fds.insert(n, OpenFile { ino, pos: 0, flags: 0, path: path.clone() });
        n
    });
    let d = Box::into_raw(Box::new(SimDir { fd, items, i: 0, path, buf: std::mem::zeroed() }));
    t.dirs.push(d);
    d as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    match sim_path(path) {
        Some(b) => {
            let full = lossy(b);
            let a = fs_enter(C_DIR, &full);
            if let Some(e) = err_of(&a) {
                fail(e);
                return std::ptr::null_mut();
            }
            match rt().vfs.walk(1, &Vfs::comps(b)) {
                Ok(i) if rt().vfs.get(i).dir => {
                    let d = make_dir(i, full, None);
                    fs_leave();
                    d
                }
                Ok(_) => {
                    fail(libc::ENOTDIR);
                    std::ptr::null_mut()
                }
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => dl!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if !is_sim_fd(fd) {
        return dl!("fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR)(fd);
    }
    let (ino, path) = match tab().fds.get(&fd) {
        Some(f) => (f.ino, f.path.clone()),
        None => {
            set_errno(libc::EBADF);
            return std::ptr::null_mut();
        }
    };
    let a = fs_enter(C_DIR, &path);
    if let Some(e) = err_of(&a) {
        fail(e);
        return std::ptr::null_mut();
    }
    let d = make_dir(ino, path, Some(fd));
    fs_leave();
    d
}
unsafe fn sim_dir(d: *mut libc::DIR) -> Option<&'static mut SimDir> {
    let p = d as *mut SimDir;
    if tab().dirs.contains(&p) {
        Some(&mut *p)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    match sim_dir(d) {
        Some(s) => {
            if !live() {
                return std::ptr::null_mut();
            }
            let a = fs_enter(C_DIR, &s.path);
            if let Some(e) = err_of(&a) {
                // the next call goes on behind the unreadable entry
                s.i += 1;
                fail(e);
                return std::ptr::null_mut();
            }
            if s.i >= s.items.len() {
                fs_leave();
                return std::ptr::null_mut();
            }
            let (name, ino, dir) = s.items[s.i].clone();
            s.i += 1;
            s.buf = std::mem::zeroed();
            s.buf.d_ino = ino;
            s.buf.d_off = s.i as i64;
            // some file systems do not tell
            s.buf.d_type = if rt().policy.seed % 5 == 0 { libc::DT_UNKNOWN } else if dir { libc::DT_DIR } else { libc::DT_REG };
            for (k, b) in name.iter().enumerate() {
                s.buf.d_name[k] = *b as c_char;
            }
            s.buf.d_reclen = (std::mem::size_of::<libc::dirent64>() - 256 + name.len() + 1) as u16;
            rt().event(0x72, ino, name.len() as u64);
            fs_leave();
            &mut s.buf
        }
        None => dl!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    match sim_dir(d) {
        Some(s) => {
            tab().fds.remove(&s.fd);
            tab().dirs.retain(|x| *x != d as *mut SimDir);
            drop(Box::from_raw(d as *mut SimDir));
            0
        }
        None => dl!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    match sim_dir(d) {
        Some(s) => s.fd,
        None => dl!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d),
    }
}

// ---- kernel-side copies: not available, callers fall back to read/write ----
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if a >= FD_BASE || b >= FD_BASE || live() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    raw_errno(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, n, f as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if o >= FD_BASE || i >= FD_BASE {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw_errno(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if a >= FD_BASE || b >= FD_BASE {
        set_errno(libc::EINVAL);
        return -1;
    }
    raw_errno(libc::SYS_splice, a as usize, ao as usize, b as usize, bo as usize, n, f as usize)
}

// ---- time, randomness, threads ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !active() {
        return raw_errno(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    point(K::Sys);
    let r = rt();
    let t = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { r.realtime() } else { r.now as i64 };
    (*ts).tv_sec = t.div_euclid(1_000_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !live() {
        return raw_errno(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    sleep_sim((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !live() {
        return -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as c_int;
    }
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if flags & libc::TIMER_ABSTIME != 0 {
        let base = if clk == libc::CLOCK_REALTIME { rt().realtime() as u64 } else { rt().now };
        sleep_sim(t.saturating_sub(base));
    } else {
        sleep_sim(t);
    }
    0
}
/// The number of processors is the same in every run and on every machine.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, mask: *mut libc::cpu_set_t) -> c_int {
    let r = raw6(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    std::ptr::write_bytes((mask as *mut u8).add(r as usize), 0, size.saturating_sub(r as usize));
    if live() {
        std::ptr::write_bytes(mask as *mut u8, 0, size);
        *(mask as *mut u8) = 0xf;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if live() {
        point(K::Yield);
        return 0;
    }
    raw_errno(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
unsafe fn fill_random(buf: *mut c_void, n: size_t) {
    let r = rt();
    for i in 0..n {
        *(buf as *mut u8).add(i) = r.aux.u64() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        fill_random(buf, n);
        return n as ssize_t;
    }
    raw_errno(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    thread_create(th, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    thread_join(th, ret)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        match n {
            libc::SYS_futex if live() => {
                let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
                match op {
                    libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                        let dl = if d == 0 {
                            None
                        } else {
                            let ts = &*(d as *const libc::timespec);
                            let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                            Some(if op == libc::FUTEX_WAIT {
                                rt().now + t
                            } else if b as i32 & libc::FUTEX_CLOCK_REALTIME != 0 {
                                rt().now + t.saturating_sub(rt().realtime() as u64)
                            } else {
                                t
                            })
                        };
                        let bits = if op == libc::FUTEX_WAIT { u32::MAX } else { f as u32 };
                        let r = futex_wait_sim(a as *const u32, c as u32, bits, dl);
                        if r != 0 {
                            set_errno(r);
                            return -1;
                        }
                        return 0;
                    }
                    libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                        let bits = if op == libc::FUTEX_WAKE { u32::MAX } else { f as u32 };
                        return futex_wake_sim(a as *const u32, c as u32, bits) as c_long;
                    }
                    _ => {
                        let r = rt();
                        (r.finish)(Status::Harness(format!("futex op {}", op)));
                    }
                }
            }
            libc::SYS_getrandom => {
                fill_random(a as *mut c_void, b);
                return b as c_long;
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            libc::SYS_copy_file_range => return copy_file_range(a as c_int, b as *mut _, c as c_int, d as *mut _, e, f as c_uint) as c_long,
            libc::SYS_renameat2 => return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
            libc::SYS_splice if a as i32 >= FD_BASE || c as i32 >= FD_BASE => {
                set_errno(libc::EINVAL);
                return -1;
            }
            _ => {}
        }
    }
    raw_errno(n, a, b, c, d, e, f) as c_long
}

/// the same in every run of a seed
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if active() {
        return (rt().policy.seed % 30000) as libc::pid_t + 2;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

/// The process giving up is a result of the run, not the end of the harness.
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if active() {
        BUSY = true;
        let m = rt().panics.join("; ");
        (rt().finish)(Status::Violation("abort".into(), format!("the process aborted: {}", m)));
    }
    raw6(libc::SYS_kill, raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize, libc::SIGABRT as usize, 0, 0, 0, 0);
    exit_now(134)
}
