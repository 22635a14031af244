//! libc seams.  While a simulated run is active, every file-system call on the
//! simulated workspace, every clock read and every request for randomness made
//! in this process is answered by the simulator; calls that would modify any
//! file are recorded and refused.  Nothing here touches the real workspace.
#![allow(clippy::missing_safety_doc)]
use crate::rng::Rng;
use crate::vfs::{norm, FsOp, Node, Vfs, ROOT};
use libc::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
/// Virtual monotonic time in nanoseconds.
pub static NOW: AtomicU64 = AtomicU64::new(0);
/// Number of the scheduling step.
pub static POLL: AtomicU64 = AtomicU64::new(0);
pub const BASE: u64 = 1_000_000 * 1_000_000_000;

pub struct Env {
    pub vfs: Vfs,
    pub rand: Rng,
    pub fds: Option<HashMap<i32, String>>,
    pub stall: u64,
    pub virtual_calls: u64,
}

pub static ENV: Mutex<Option<Env>> = Mutex::new(None);

pub fn with_vfs<T>(f: impl FnOnce(&mut Vfs) -> T) -> T {
    let mut g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut g.as_mut().expect("no run active").vfs)
}

/// Virtual milliseconds of injected stalls so far.
pub fn stalled() -> u64 {
    ENV.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map_or(0, |e| e.stall)
}

fn active() -> bool {
    ACTIVE.load(SeqCst)
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// Some(path) when the simulator owns this path.
unsafe fn ours(dirfd: i32, p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s.is_empty() {
        return None;
    }
    if !s.starts_with('/') {
        if dirfd == AT_FDCWD {
            return Some(s.to_string());
        }
        return None;
    }
    if s == ROOT || s.starts_with(&format!("{ROOT}/")) || norm(s).starts_with(ROOT) {
        return Some(s.to_string());
    }
    None
}

fn enter(op: FsOp, path: &str) -> Result<Option<usize>, i32> {
    let mut g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let env = g.as_mut().unwrap();
    env.virtual_calls += 1;
    let (err, short, stall) = env.vfs.enter(op, path);
    env.stall += stall;
    drop(g);
    if stall > 0 {
        tokio::sim::stall(std::time::Duration::from_millis(stall));
    }
    match err {
        Some(e) => Err(e),
        None => Ok(short),
    }
}

fn refuse(what: &str, path: *const c_char) -> c_int {
    let p = if path.is_null() {
        String::new()
    } else {
        unsafe { CStr::from_ptr(path).to_string_lossy().into_owned() }
    };
    if let Some(env) = ENV.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        env.vfs.writes.push(format!("{what} {p}"));
    }
    set_errno(EROFS);
    -1
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return syscall(SYS_openat, dirfd, p, flags, mode) as c_int;
    }
    let writes = (flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    let Some(path) = ours(dirfd, p) else {
        let s = CStr::from_ptr(p).to_string_lossy();
        if writes && !s.starts_with("/dev/") {
            return refuse("open-for-write", p);
        }
        return syscall(SYS_openat, dirfd, p, flags, mode) as c_int;
    };
    if writes {
        return refuse("open-for-write", p);
    }
    if let Err(e) = enter(FsOp::Open, &path) {
        set_errno(e);
        return -1;
    }
    let mut g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let env = g.as_mut().unwrap();
    let real = match env.vfs.resolve(&path, true) {
        Ok(r) => r,
        Err(e) => {
            set_errno(e);
            return -1;
        }
    };
    match env.vfs.nodes.get(&real) {
        Some(Node::File { unreadable: true, .. }) | Some(Node::Dir { unreadable: true }) => {
            set_errno(EACCES);
            -1
        }
        Some(Node::File { data, .. }) => {
            let name = CString::new("simws").unwrap();
            let fd = syscall(SYS_memfd_create, name.as_ptr(), MFD_CLOEXEC) as c_int;
            if fd < 0 {
                return -1;
            }
            let mut off = 0;
            while off < data.len() {
                let n = syscall(SYS_write, fd, data.as_ptr().add(off), data.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            syscall(SYS_lseek, fd, 0, SEEK_SET);
            env.fds.get_or_insert_with(HashMap::new).insert(fd, path);
            fd
        }
        Some(Node::Dir { .. }) => syscall(SYS_openat, AT_FDCWD, c"/".as_ptr(), O_RDONLY | O_DIRECTORY | O_CLOEXEC) as c_int,
        _ => {
            set_errno(ENOENT);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if active() {
        let path = {
            let g = ENV.lock().unwrap_or_else(|e| e.into_inner());
            g.as_ref()
                .and_then(|e| e.fds.as_ref())
                .and_then(|m| m.get(&fd).cloned())
        };
        if let Some(path) = path {
            match enter(FsOp::Read, &path) {
                Err(e) => {
                    set_errno(e);
                    return -1;
                }
                Ok(Some(cap)) => n = n.min(cap.max(1)),
                Ok(None) => {}
            }
        }
    }
    syscall(SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        if let Some(m) = ENV
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .as_mut()
            .and_then(|e| e.fds.as_mut())
        {
            m.remove(&fd);
        }
    }
    syscall(SYS_close, fd) as c_int
}

struct St {
    mode: u32,
    size: u64,
    ino: u64,
    mtime: u64,
}

fn vstat(path: &str, follow: bool) -> Result<St, i32> {
    enter(FsOp::Stat, path)?;
    let g = ENV.lock().unwrap_or_else(|e| e.into_inner());
    let env = g.as_ref().unwrap();
    let real = env.vfs.resolve(path, follow)?;
    let mut ino = 1469598103934665603u64;
    for b in real.bytes() {
        ino = (ino ^ b as u64).wrapping_mul(1099511628211);
    }
    let mtime = env.vfs.mtime(&real);
    Ok(match env.vfs.nodes.get(&real) {
        Some(Node::File { data, unreadable }) => St {
            mode: S_IFREG | if *unreadable { 0 } else { 0o644 },
            size: data.len() as u64,
            ino,
            mtime,
        },
        Some(Node::Link { target }) => St {
            mode: S_IFLNK | 0o777,
            size: target.len() as u64,
            ino,
            mtime,
        },
        _ => St {
            mode: S_IFDIR | 0o755,
            size: 4096,
            ino,
            mtime,
        },
    })
}

unsafe fn fill(st: St, out: *mut stat64) {
    std::ptr::write_bytes(out, 0, 1);
    (*out).st_mode = st.mode;
    (*out).st_size = st.size as i64;
    (*out).st_ino = st.ino;
    (*out).st_dev = 7777;
    (*out).st_nlink = 1;
    for t in [&raw mut (*out).st_mtime, &raw mut (*out).st_ctime, &raw mut (*out).st_atime] {
        *t = (st.mtime / 1_000_000_000) as i64;
    }
    (*out).st_mtime_nsec = (st.mtime % 1_000_000_000) as i64;
}

unsafe fn stat_common(d: c_int, p: *const c_char, out: *mut stat64, flags: c_int) -> c_int {
    if let Some(path) = ours(d, p) {
        return match vstat(&path, flags & AT_SYMLINK_NOFOLLOW == 0) {
            Ok(s) => {
                fill(s, out);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    syscall(SYS_newfstatat, d, p, out, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, out, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, out, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, out: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, out, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, out: *mut stat64) -> c_int {
    stat_common(AT_FDCWD, p, out, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, out: *mut stat64, f: c_int) -> c_int {
    stat_common(d, p, out, f)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut statx) -> c_int {
    if let Some(path) = ours(d, p) {
        return match vstat(&path, flags & AT_SYMLINK_NOFOLLOW == 0) {
            Ok(s) => {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = STATX_BASIC_STATS;
                (*out).stx_mode = s.mode as u16;
                (*out).stx_size = s.size;
                (*out).stx_ino = s.ino;
                (*out).stx_nlink = 1;
                (*out).stx_dev_major = 77;
                for t in [&raw mut (*out).stx_mtime, &raw mut (*out).stx_ctime, &raw mut (*out).stx_atime] {
                    (*t).tv_sec = (s.mtime / 1_000_000_000) as i64;
                    (*t).tv_nsec = (s.mtime % 1_000_000_000) as u32;
                }
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    syscall(SYS_statx, d, p, flags, mask, out) as c_int
}

unsafe fn next(name: &CStr) -> *mut c_void {
    dlsym(RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, buf: *mut c_char) -> *mut c_char {
    if let Some(path) = ours(AT_FDCWD, p) {
        if let Err(e) = enter(FsOp::Realpath, &path) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let r = with_vfs(|v| v.resolve(&path, true));
        return match r {
            Ok(s) => {
                let n = s.len();
                let dst = if buf.is_null() { malloc(n + 1) as *mut c_char } else { buf };
                std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, dst, n);
                *dst.add(n) = 0;
                dst
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(next(c"realpath"));
    f(p, buf)
}

#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(path) = ours(AT_FDCWD, p) {
        let r = with_vfs(|v| v.resolve(&path, false).map(|r| v.nodes.get(&r).cloned()));
        return match r {
            Ok(Some(Node::Link { target })) => {
                let k = target.len().min(n);
                std::ptr::copy_nonoverlapping(target.as_ptr() as *const c_char, buf, k);
                k as ssize_t
            }
            Ok(_) => {
                set_errno(EINVAL);
                -1
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    syscall(SYS_readlinkat, AT_FDCWD, p, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(path) = ours(AT_FDCWD, p) {
        return match vstat(&path, true) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    syscall(SYS_faccessat, AT_FDCWD, p, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() && !buf.is_null() && n > ROOT.len() {
        std::ptr::copy_nonoverlapping(ROOT.as_ptr() as *const c_char, buf, ROOT.len());
        *buf.add(ROOT.len()) = 0;
        return buf;
    }
    let r = syscall(SYS_getcwd, buf, n);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}

const MAGIC: u64 = 0x51d1_d1e5_0fd1_7e57;
#[repr(C)]
struct VDir {
    magic: u64,
    path: String,
    items: Vec<(String, Node)>,
    pos: usize,
    ent: dirent64,
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if let Some(path) = ours(AT_FDCWD, p) {
        if let Err(e) = enter(FsOp::OpenDir, &path) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let r = with_vfs(|v| {
            let real = v.resolve(&path, true)?;
            match v.nodes.get(&real) {
                Some(Node::Dir { unreadable: true }) => Err(EACCES),
                Some(Node::Dir { .. }) => {
                    let mut items = v.list(&real);
                    if let Some(r) = v.dir_rng.as_mut() {
                        r.shuffle(&mut items);
                    }
                    Ok(items)
                }
                Some(_) => Err(ENOTDIR),
                None => Err(ENOENT),
            }
        });
        return match r {
            Ok(items) => Box::into_raw(Box::new(VDir {
                magic: MAGIC,
                path,
                items,
                pos: 0,
                ent: std::mem::zeroed(),
            })) as *mut DIR,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(next(c"opendir"));
    f(p)
}

unsafe fn vdir<'a>(d: *mut DIR) -> Option<&'a mut VDir> {
    let v = d as *mut VDir;
    if !v.is_null() && (*v).magic == MAGIC {
        Some(&mut *v)
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if let Some(v) = vdir(d) {
        match enter(FsOp::ReadDir, &v.path) {
            Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
            Ok(_) => {}
        }
        if v.pos >= v.items.len() {
            return std::ptr::null_mut();
        }
        let (name, node) = &v.items[v.pos];
        v.pos += 1;
        let n = name.len().min(255);
        v.ent = std::mem::zeroed();
        std::ptr::copy_nonoverlapping(name.as_ptr() as *const c_char, v.ent.d_name.as_mut_ptr(), n);
        v.ent.d_ino = 100 + v.pos as u64;
        v.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        v.ent.d_type = match node {
            Node::File { .. } => DT_REG,
            Node::Dir { .. } => DT_DIR,
            Node::Link { .. } => DT_LNK,
        };
        return &mut v.ent;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent64 = std::mem::transmute(next(c"readdir64"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if let Some(v) = vdir(d) {
        v.magic = 0;
        drop(Box::from_raw(d as *mut VDir));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(next(c"closedir"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if vdir(d).is_some() {
        set_errno(ENOTSUP);
        return -1;
    }
    let f: unsafe extern "C" fn(*mut DIR) -> c_int = std::mem::transmute(next(c"dirfd"));
    f(d)
}

// ---- calls that modify files: recorded and refused while a run is active ----
macro_rules! refused {
    ($($name:ident ( $($a:ident : $t:ty),* ) path $p:ident => $sys:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if active() {
                return refuse(stringify!($name), $p);
            }
            ($sys) as c_int
        }
    )*};
}

refused! {
    unlink(p: *const c_char) path p => syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    unlinkat(d: c_int, p: *const c_char, f: c_int) path p => syscall(SYS_unlinkat, d, p, f);
    rmdir(p: *const c_char) path p => syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
    mkdir(p: *const c_char, m: mode_t) path p => syscall(SYS_mkdirat, AT_FDCWD, p, m);
    rename(p: *const c_char, q: *const c_char) path p => syscall(SYS_renameat2, AT_FDCWD, p, AT_FDCWD, q, 0);
    symlink(q: *const c_char, p: *const c_char) path p => syscall(SYS_symlinkat, q, AT_FDCWD, p);
    link(q: *const c_char, p: *const c_char) path p => syscall(SYS_linkat, AT_FDCWD, q, AT_FDCWD, p, 0);
    truncate64(p: *const c_char, n: off64_t) path p => syscall(SYS_truncate, p, n);
    chmod(p: *const c_char, m: mode_t) path p => syscall(SYS_fchmodat, AT_FDCWD, p, m);
    chdir(p: *const c_char) path p => syscall(SYS_chdir, p);
    execvp(p: *const c_char, v: *const *const c_char) path p => { let _ = v; -1 };
    linkat(d: c_int, q: *const c_char, e: c_int, p: *const c_char, f: c_int) path p => syscall(SYS_linkat, d, q, e, p, f);
    renameat(d: c_int, p: *const c_char, e: c_int, q: *const c_char) path p => syscall(SYS_renameat2, d, p, e, q, 0);
    symlinkat(q: *const c_char, d: c_int, p: *const c_char) path p => syscall(SYS_symlinkat, q, d, p);
    mkdirat(d: c_int, p: *const c_char, m: mode_t) path p => syscall(SYS_mkdirat, d, p, m);
    fchmodat(d: c_int, p: *const c_char, m: mode_t, f: c_int) path p => { let _ = f; syscall(SYS_fchmodat, d, p, m) };
    utimensat(d: c_int, p: *const c_char, t: *const timespec, f: c_int) path p => syscall(SYS_utimensat, d, p, t, f);
    lchown(p: *const c_char, u: uid_t, g: gid_t) path p => syscall(SYS_lchown, p, u, g);
    chown(p: *const c_char, u: uid_t, g: gid_t) path p => syscall(SYS_fchownat, AT_FDCWD, p, u, g, 0);
}

// ---- other processes: none are started by a simulated server ----
type Spawn = unsafe extern "C" fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int;

unsafe fn spawn(name: &CStr, pid: *mut pid_t, p: *const c_char, a: *const c_void, b: *const c_void, v: *const *mut c_char, e: *const *mut c_char) -> c_int {
    if active() {
        refuse("spawn", p);
        return EPERM;
    }
    let f: Spawn = std::mem::transmute(next(name));
    f(pid, p, a, b, v, e)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, p: *const c_char, a: *const c_void, b: *const c_void, v: *const *mut c_char, e: *const *mut c_char) -> c_int {
    spawn(c"posix_spawnp", pid, p, a, b, v, e)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut pid_t, p: *const c_char, a: *const c_void, b: *const c_void, v: *const *mut c_char, e: *const *mut c_char) -> c_int {
    spawn(c"posix_spawn", pid, p, a, b, v, e)
}

#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if active() {
        refuse("fork", c"".as_ptr());
        return -1;
    }
    let f: unsafe extern "C" fn() -> pid_t = std::mem::transmute(next(c"fork"));
    f()
}

// ---- time and randomness ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if active() && (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME || clk == CLOCK_BOOTTIME || clk == CLOCK_MONOTONIC_COARSE) {
        let t = NOW.load(SeqCst) + BASE;
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    syscall(SYS_clock_gettime, clk, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if !tokio::sim::stall(std::time::Duration::from_nanos(ns)) {
            NOW.fetch_add(ns, SeqCst);
        }
        return 0;
    }
    syscall(SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        if let Some(env) = ENV.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            for i in 0..n {
                *(buf as *mut u8).add(i) = env.rand.next() as u8;
            }
            return n as ssize_t;
        }
    }
    syscall(SYS_getrandom, buf, n, flags) as ssize_t
}
