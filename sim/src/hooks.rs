//! The libc symbols that std and the crates under test call, defined here so that every call reaches the simulated kernel.
//! Outside a simulated run (and inside the kernel itself) they go straight to the real system.
#![allow(clippy::missing_safety_doc, static_mut_refs)]
use crate::kernel::*;
use crate::real;
use crate::sys::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, off_t, size_t, ssize_t};
use std::ffi::CString;

struct K;
impl K {
    fn new() -> K {
        enter();
        K
    }
}
impl Drop for K {
    fn drop(&mut self) {
        leave();
    }
}

macro_rules! bail {
    ($e:expr) => {{
        set_errno($e);
        return -1;
    }};
}

// ---- files by path ------------------------------------------------------------------------------------------------------

unsafe fn path_call(op: &str, p: *const c_char, mutating: Option<&str>, f: impl FnOnce(*const c_char) -> isize) -> c_int {
    schedule();
    match resolve(p as *const i8) {
        Where::Host(h, v) => {
            if let Some(e) = s().fs_fault(op, &v) {
                bail!(e);
            }
            if let Some(m) = mutating {
                mutation(m, &v);
            }
            let r = f(h.as_ptr());
            if r < 0 {
                bail!(-r as i32);
            }
            r as c_int
        }
        Where::Special(x) => {
            if mutating.is_some() {
                bail!(libc::EACCES);
            }
            let c = match x {
                "/" => c"/",
                "/dev/null" => c"/dev/null",
                _ => c"/proc/cpuinfo",
            };
            let r = f(c.as_ptr());
            if r < 0 {
                bail!(-r as i32);
            }
            r as c_int
        }
        Where::Err(e) => bail!(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return scl(libc::SYS_open, p as usize, flags as usize, mode as usize, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    k_open(p as *const i8, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !active() {
        return scl(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int;
    }
    let _k = K::new();
    if d == libc::AT_FDCWD || *p == b'/' as c_char {
        return k_open(p as *const i8, flags, mode);
    }
    schedule();
    let v = at_path(d, p);
    if let Some(e) = s().fs_fault(if flags & libc::O_DIRECTORY != 0 { "opendir" } else { "open" }, &v) {
        bail!(e);
    }
    if flags & libc::O_CREAT != 0 {
        mutation("create", &v);
    }
    let r = sc(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0);
    if r < 0 {
        bail!(-r as i32);
    }
    s().real_fds.insert(r as i32, v);
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat(d, p, flags, mode)
}
unsafe fn at_path(d: c_int, p: *const c_char) -> String {
    let base = s().real_fds.get(&d).cloned().unwrap_or_else(|| "?".into());
    format!("{}/{}", base, String::from_utf8_lossy(cstr(p)))
}

macro_rules! stat_fn {
    ($name:ident, $sysflag:expr, $op:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, st: *mut libc::stat64) -> c_int {
            let f = |q: *const c_char| sc(libc::SYS_newfstatat, libc::AT_FDCWD as usize, q as usize, st as usize, $sysflag as usize, 0, 0);
            if !active() {
                let r = f(p);
                if r < 0 {
                    bail!(-r as i32);
                }
                return 0;
            }
            let _k = K::new();
            path_call($op, p, None, f)
        }
    };
}
stat_fn!(stat, 0, "stat");
stat_fn!(stat64, 0, "stat");
stat_fn!(lstat, libc::AT_SYMLINK_NOFOLLOW, "stat");
stat_fn!(lstat64, libc::AT_SYMLINK_NOFOLLOW, "stat");

#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if !active() || (d != libc::AT_FDCWD && *p != b'/' as c_char) {
        return scl(libc::SYS_newfstatat, d as usize, p as usize, st as usize, flags as usize, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("stat", p, None, |q| sc(libc::SYS_newfstatat, libc::AT_FDCWD as usize, q as usize, st as usize, flags as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    fstatat64(d, p, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    if !active() || p.is_null() || (d != libc::AT_FDCWD && *p != b'/' as c_char) {
        return scl(libc::SYS_statx, d as usize, p as usize, flags as usize, mask as usize, st as usize, 0) as c_int;
    }
    let _k = K::new();
    path_call("stat", p, None, |q| sc(libc::SYS_statx, libc::AT_FDCWD as usize, q as usize, flags as usize, mask as usize, st as usize, 0))
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("stat", p, None, |q| sc(libc::SYS_access, q as usize, mode as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if !active() || (d != libc::AT_FDCWD && *p != b'/' as c_char) {
        return scl(libc::SYS_faccessat2, d as usize, p as usize, mode as usize, flags as usize, 0, 0) as c_int;
    }
    access(p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return scl(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("mkdir", p, Some("mkdir"), |q| sc(libc::SYS_mkdir, q as usize, mode as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("unlink", p, Some("rmdir"), |q| sc(libc::SYS_rmdir, q as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("unlink", p, Some("unlink"), |q| sc(libc::SYS_unlink, q as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_unlinkat, d as usize, p as usize, flags as usize, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    if d == libc::AT_FDCWD || *p == b'/' as c_char {
        return path_call("unlink", p, Some("unlink"), |q| sc(libc::SYS_unlinkat, libc::AT_FDCWD as usize, q as usize, flags as usize, 0, 0, 0));
    }
    schedule();
    let v = at_path(d, p);
    if let Some(e) = s().fs_fault("unlink", &v) {
        bail!(e);
    }
    mutation("unlink", &v);
    let r = sc(libc::SYS_unlinkat, d as usize, p as usize, flags as usize, 0, 0, 0);
    if r < 0 {
        bail!(-r as i32);
    }
    0
}
unsafe fn two_paths(a: *const c_char, b: *const c_char, op: &str, sysno: c_long) -> c_int {
    schedule();
    match (resolve(a as *const i8), resolve(b as *const i8)) {
        (Where::Host(x, v), Where::Host(y, w)) => {
            mutation(op, &v);
            mutation(op, &w);
            let r = sc(sysno, x.as_ptr() as usize, y.as_ptr() as usize, 0, 0, 0, 0);
            if r < 0 {
                bail!(-r as i32);
            }
            0
        }
        _ => bail!(libc::EACCES),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    two_paths(a, b, "rename", libc::SYS_rename)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    two_paths(a, b, "link", libc::SYS_link)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, flags: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_linkat, d as usize, a as usize, e as usize, b as usize, flags as usize, 0) as c_int;
    }
    link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("create", b, Some("symlink"), |q| sc(libc::SYS_symlink, a as usize, q as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if !active() {
        return scl(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("chmod", p, Some("chmod"), |q| sc(libc::SYS_chmod, q as usize, mode as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: off64_t) -> c_int {
    if !active() {
        return scl(libc::SYS_truncate, p as usize, n as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    path_call("open", p, Some("truncate"), |q| sc(libc::SYS_truncate, q as usize, n as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return scl(libc::SYS_readlink, p as usize, buf as usize, n, 0, 0, 0);
    }
    let _k = K::new();
    let mut tmp = [0u8; 4096];
    let r = path_call("realpath", p, None, |q| sc(libc::SYS_readlink, q as usize, tmp.as_mut_ptr() as usize, tmp.len(), 0, 0, 0));
    if r < 0 {
        return -1;
    }
    let t = s().virt_of(&String::from_utf8_lossy(&tmp[..r as usize]));
    let k = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
    k as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        return real!(c"realpath", fn(*const c_char, *mut c_char) -> *mut c_char, p, out);
    }
    let _k = K::new();
    schedule();
    match resolve(p as *const i8) {
        Where::Host(h, v) => {
            if let Some(e) = s().fs_fault("realpath", &v) {
                set_errno(e);
                return std::ptr::null_mut();
            }
            let r = real!(c"realpath", fn(*const c_char, *mut c_char) -> *mut c_char, h.as_ptr(), std::ptr::null_mut());
            if r.is_null() {
                return r;
            }
            let t = s().virt_of(&String::from_utf8_lossy(cstr(r)));
            libc::free(r as *mut c_void);
            let c = CString::new(t).unwrap();
            if out.is_null() {
                libc::strdup(c.as_ptr())
            } else {
                libc::strcpy(out, c.as_ptr());
                out
            }
        }
        Where::Special("/") => libc::strdup(c"/".as_ptr()),
        Where::Special(_) => libc::strdup(c"/dev/null".as_ptr()),
        Where::Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        return real!(c"getcwd", fn(*mut c_char, size_t) -> *mut c_char, buf, n);
    }
    let _k = K::new();
    schedule();
    let lp = s().lp();
    let c = s().lps[lp].cwd.clone();
    if let Some(e) = s().fs_fault("getcwd", &c) {
        set_errno(e);
        return std::ptr::null_mut();
    }
    if c.len() + 1 > n {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
    *buf.add(c.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !active() {
        return scl(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    schedule();
    match resolve(p as *const i8) {
        Where::Host(h, v) => {
            if !std::path::Path::new(h.to_str().unwrap()).is_dir() {
                bail!(libc::ENOENT);
            }
            let lp = s().lp();
            s().lps[lp].cwd = lexical(&v);
            0
        }
        _ => bail!(libc::ENOENT),
    }
}

// ---- directories -----------------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if !active() {
        return real!(c"opendir", fn(*const c_char) -> *mut c_void, p);
    }
    let _k = K::new();
    schedule();
    let null = std::ptr::null_mut();
    match resolve(p as *const i8) {
        Where::Host(h, v) => {
            if let Some(e) = s().fs_fault("opendir", &v) {
                set_errno(e);
                return null;
            }
            let fd = sc(libc::SYS_open, h.as_ptr() as usize, (libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) as usize, 0, 0, 0, 0);
            if fd < 0 {
                set_errno(-fd as i32);
                return null;
            }
            s().real_fds.insert(fd as i32, v.clone());
            let d = open_dir(fd as c_int, v);
            VDIRS.push(d as usize);
            d as *mut c_void
        }
        Where::Err(e) => {
            set_errno(e);
            null
        }
        _ => {
            set_errno(libc::EACCES);
            null
        }
    }
}
static mut VDIRS: Vec<usize> = Vec::new();
unsafe fn vdir(d: *mut c_void) -> Option<&'static mut VDir> {
    if VDIRS.contains(&(d as usize)) {
        Some(&mut *(d as *mut VDir))
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !active() {
        return real!(c"fdopendir", fn(c_int) -> *mut c_void, fd);
    }
    let _k = K::new();
    schedule();
    let v = s().real_fds.get(&fd).cloned().unwrap_or_default();
    let d = open_dir(fd, v);
    VDIRS.push(d as usize);
    d as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if !active() {
        return real!(c"readdir64", fn(*mut c_void) -> *mut libc::dirent64, d);
    }
    let _k = K::new();
    let Some(v) = vdir(d) else {
        return real!(c"readdir64", fn(*mut c_void) -> *mut libc::dirent64, d);
    };
    schedule();
    if let Some(e) = s().fs_fault("readdir", &v.vpath) {
        set_errno(e);
        return std::ptr::null_mut();
    }
    if v.pos >= v.ents.len() {
        set_errno(0);
        return std::ptr::null_mut();
    }
    let (name, ty) = &v.ents[v.pos];
    v.pos += 1;
    v.buf.d_ino = fnv(name) | 1;
    v.buf.d_off = v.pos as i64;
    v.buf.d_type = if s().cfg.env.dt_unknown { 0 } else { *ty };
    v.buf.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    for (i, b) in name.iter().enumerate() {
        v.buf.d_name[i] = *b as c_char;
    }
    v.buf.d_name[name.len()] = 0;
    &mut v.buf
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if let Some(v) = vdir(d) {
        return v.fd;
    }
    real!(c"dirfd", fn(*mut c_void) -> c_int, d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if let Some(v) = vdir(d) {
        VDIRS.retain(|x| *x != d as usize);
        sc(libc::SYS_close, v.fd as usize, 0, 0, 0, 0, 0);
        if active() {
            s().real_fds.remove(&v.fd);
        }
        drop(Box::from_raw(d as *mut VDir));
        return 0;
    }
    real!(c"closedir", fn(*mut c_void) -> c_int, d)
}

// ---- descriptors -----------------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !active() {
        return scl(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0);
    }
    let _k = K::new();
    if fd >= VFD0 {
        return k_read_pipe(fd, buf as *mut u8, n);
    }
    schedule();
    if s().noise("read_EINTR") {
        bail!(libc::EINTR);
    }
    if let Some(v) = s().real_fds.get(&fd).cloned() {
        if let Some(e) = s().fs_fault("read", &v) {
            bail!(e);
        }
    } else if fd == 0 {
        return 0;
    }
    let mut k = n;
    if n > 1 && s().noise("read_short") {
        let d = s().choose(4, 0);
        k = [1, 2, n / 2, n.min(17)][d].clamp(1, n);
    }
    scl(libc::SYS_read, fd as usize, buf as usize, k, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !active() {
        return scl(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0);
    }
    if n == 0 {
        return 0;
    }
    read(fd, (*iov).iov_base, (*iov).iov_len)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !active() {
        return scl(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
    }
    let _k = K::new();
    if fd == 1 || fd == 2 {
        return k_write_host(fd, std::slice::from_raw_parts(buf as *const u8, n));
    }
    if fd >= VFD0 {
        return k_write_pipe(fd, buf as *const u8, n);
    }
    schedule();
    if let Some(v) = s().real_fds.get(&fd).cloned() {
        if let Some(e) = s().fs_fault("write", &v) {
            bail!(e);
        }
    }
    scl(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !active() {
        return scl(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0);
    }
    let mut all = vec![];
    for i in 0..n as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    write(fd, all.as_ptr() as *const c_void, all.len())
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    schedule();
    if fd >= VFD0 {
        if !s().close_vfd(fd) {
            bail!(libc::EBADF);
        }
        return 0;
    }
    s().real_fds.remove(&fd);
    scl(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn dup_v(fd: c_int) -> c_int {
    let sim = s();
    match sim.fds.get(&fd).cloned() {
        Some(v) => sim.new_vfd(v),
        None => bail!(libc::EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if active() && fd >= VFD0 {
        let _k = K::new();
        return dup_v(fd);
    }
    scl(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if active() && fd >= VFD0 {
        let _k = K::new();
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup_v(fd),
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_SETFD => 0,
            libc::F_GETFL => match s().fds.get(&fd) {
                Some(VFd::R(_, nb)) => libc::O_RDONLY | if *nb { libc::O_NONBLOCK } else { 0 },
                Some(VFd::W(_, nb)) => libc::O_WRONLY | if *nb { libc::O_NONBLOCK } else { 0 },
                None => bail!(libc::EBADF),
            },
            libc::F_SETFL => {
                set_nb(fd, arg as c_int & libc::O_NONBLOCK != 0);
                0
            }
            _ => 0,
        };
    }
    scl(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
unsafe fn set_nb(fd: c_int, on: bool) {
    match s().fds.get_mut(&fd) {
        Some(VFd::R(_, nb)) | Some(VFd::W(_, nb)) => *nb = on,
        None => {}
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: usize) -> c_int {
    if active() {
        let _k = K::new();
        if fd >= VFD0 {
            if req == libc::FIONBIO as usize {
                set_nb(fd, *(arg as *const c_int) != 0);
                return 0;
            }
            if req == libc::FIONREAD as usize {
                let n = match s().fds.get(&fd) {
                    Some(VFd::R(p, _)) => s().pipes[*p].buf.len(),
                    _ => 0,
                };
                *(arg as *mut c_int) = n as c_int;
                return 0;
            }
            bail!(libc::ENOTTY);
        }
        if fd <= 2 {
            bail!(libc::ENOTTY);
        }
    }
    scl(libc::SYS_ioctl, fd as usize, req, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    if !active() {
        return real!(c"isatty", fn(c_int) -> c_int, _fd);
    }
    set_errno(libc::ENOTTY);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_pipe2, fds as usize, flags as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    k_pipe2(fds, flags)
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_poll, fds as usize, n as usize, t as usize, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    k_poll(fds, n, t)
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, t: *const libc::timespec, m: *const c_void) -> c_int {
    if !active() {
        return scl(libc::SYS_ppoll, fds as usize, n as usize, t as usize, m as usize, 8, 0) as c_int;
    }
    let _k = K::new();
    let ms = if t.is_null() { -1 } else { ((*t).tv_sec * 1000 + (*t).tv_nsec / 1_000_000) as c_int };
    k_poll(fds, n, ms)
}

// ---- processes ---------------------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut c_void) -> c_int {
    if !active() {
        return real!(c"posix_spawn_file_actions_init", fn(*mut c_void) -> c_int, a);
    }
    let _k = K::new();
    s().actions.insert(a as usize, vec![]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: *mut c_void) -> c_int {
    if !active() {
        return real!(c"posix_spawn_file_actions_destroy", fn(*mut c_void) -> c_int, a);
    }
    let _k = K::new();
    s().actions.remove(&(a as usize));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut c_void, x: c_int, y: c_int) -> c_int {
    if !active() {
        return real!(c"posix_spawn_file_actions_adddup2", fn(*mut c_void, c_int, c_int) -> c_int, a, x, y);
    }
    let _k = K::new();
    s().actions.entry(a as usize).or_default().push(FileAct::Dup2(x, y));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addclose(a: *mut c_void, x: c_int) -> c_int {
    if !active() {
        return real!(c"posix_spawn_file_actions_addclose", fn(*mut c_void, c_int) -> c_int, a, x);
    }
    let _k = K::new();
    s().actions.entry(a as usize).or_default().push(FileAct::Close(x));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut c_void, p: *const c_char) -> c_int {
    if !active() {
        return real!(c"posix_spawn_file_actions_addchdir_np", fn(*mut c_void, *const c_char) -> c_int, a, p);
    }
    let _k = K::new();
    let d = String::from_utf8_lossy(cstr(p)).into_owned();
    s().actions.entry(a as usize).or_default().push(FileAct::Chdir(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(a: *mut c_void, p: *const c_char) -> c_int {
    posix_spawn_file_actions_addchdir_np(a, p)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut c_int, file: *const c_char, acts: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if !active() {
        return real!(c"posix_spawnp", fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int, pid, file, acts, attr, argv, envp);
    }
    let _k = K::new();
    k_spawn(pid, file as *const i8, acts as usize, argv as *const *const i8, envp as *const *const i8)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut c_int, file: *const c_char, acts: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if !active() {
        return real!(c"posix_spawn", fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int, pid, file, acts, attr, argv, envp);
    }
    let _k = K::new();
    k_spawn(pid, file as *const i8, acts as usize, argv as *const *const i8, envp as *const *const i8)
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(fd: *mut c_int, file: *const c_char, acts: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if !active() {
        return real!(c"pidfd_spawnp", fn(*mut c_int, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int, fd, file, acts, attr, argv, envp);
    }
    s().unsupported.push("pidfd_spawnp".into());
    libc::ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if !active() {
        return real!(c"fork", fn() -> c_int,);
    }
    let _k = K::new();
    s().unsupported.push("fork".into());
    bail!(libc::EAGAIN)
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, st: *mut c_int, o: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_wait4, pid as usize, st as usize, o as usize, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    k_waitpid(pid, st, o)
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: c_int, st: *mut c_int, o: c_int, ru: *mut c_void) -> c_int {
    if !active() {
        return scl(libc::SYS_wait4, pid as usize, st as usize, o as usize, ru as usize, 0, 0) as c_int;
    }
    let _k = K::new();
    k_waitpid(pid, st, o)
}
#[no_mangle]
pub unsafe extern "C" fn waitid(t: c_int, id: c_uint, info: *mut libc::siginfo_t, o: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_waitid, t as usize, id as usize, info as usize, o as usize, 0, 0) as c_int;
    }
    let _k = K::new();
    s().unsupported.push("waitid".into());
    bail!(libc::ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if !active() {
        return scl(libc::SYS_kill, pid as usize, sig as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    schedule();
    let sim = s();
    match sim.procs.iter().position(|p| p.pid == pid && p.state != PState::Reaped) {
        Some(i) => {
            if sig != 0 {
                sim.log(format!("run sends signal {sig} to {pid}"));
                sim.end_proc(i, sig);
            }
            0
        }
        None => bail!(libc::ESRCH),
    }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if !active() {
        real!(c"exit", fn(c_int) -> (), code);
        exit_group(code);
    }
    enter();
    unlock_exit();
    k_exit(code)
}
extern "C" {
    static mut __bss_start: u64;
    static mut _end: u64;
}
/// std lets only one thread of a process exit and remembers it by the address of its errno; here several logical
/// processes share one real process, so that mark is wiped.
unsafe fn unlock_exit() {
    let me = libc::__errno_location() as u64;
    let mut p = (&raw mut __bss_start as usize + 7) & !7;
    while p < &raw const _end as usize {
        if *(p as *const u64) == me {
            *(p as *mut u64) = 0;
        }
        p += 8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if !active() {
        return scl(libc::SYS_pause, 0, 0, 0, 0, 0, 0) as c_int;
    }
    enter();
    park_forever()
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if !active() {
        exit_group(code);
    }
    enter();
    k_exit(code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if !active() {
        let _ = real!(c"abort", fn() -> (),);
        exit_group(134);
    }
    enter();
    s().log("abort".into());
    k_exit(134)
}

// ---- threads, time, randomness -----------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    if !active() {
        return real!(c"pthread_create", fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int, t, attr, f, arg);
    }
    let _k = K::new();
    k_pthread_create(t, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, ret: *mut *mut c_void) -> c_int {
    if !active() {
        return real!(c"pthread_join", fn(u64, *mut *mut c_void) -> c_int, t, ret);
    }
    let _k = K::new();
    k_pthread_join(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return scl(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    schedule();
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        match n {
            libc::SYS_futex => {
                let _k = K::new();
                return k_futex(a, b as c_int, c as u32, d as *const libc::timespec) as c_long;
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            libc::SYS_gettid => {
                return s().cur as c_long + 1;
            }
            _ => {}
        }
    }
    scl(n, a, b, c, d, e, f) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if active() {
        return s().cur as c_int + 1;
    }
    sc(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if active() {
        return 500 + s().lp() as c_int;
    }
    sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !active() {
        return scl(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0);
    }
    let _k = K::new();
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for x in b.iter_mut() {
        *x = s().rng_hash.next() as u8;
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !active() {
        return scl(libc::SYS_clock_gettime, c as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    let _k = K::new();
    let now = if c == libc::CLOCK_REALTIME || c == libc::CLOCK_REALTIME_COARSE { s().wall_clock() } else { s().now };
    (*ts).tv_sec = (now / 1_000_000_000) as i64;
    (*ts).tv_nsec = (now % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return -sc(libc::SYS_clock_nanosleep, c as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int;
    }
    let _k = K::new();
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let dl = if flags & libc::TIMER_ABSTIME != 0 { ns } else { s().now + ns };
    block(Wait::Sleep(dl));
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return scl(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut c_void) -> c_int {
    if !active() {
        let r = sc(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
        if r < 0 {
            bail!(-r as i32);
        }
        // glibc clears what the kernel did not fill in
        let used = r as usize;
        if used < n {
            std::ptr::write_bytes((set as *mut u8).add(used), 0, n - used);
        }
        return 0;
    }
    let b = std::slice::from_raw_parts_mut(set as *mut u8, n);
    b.fill(0);
    for i in 0..s().cfg.ncpu.min(n * 8) {
        b[i / 8] |= 1 << (i % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if active() && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return s().cfg.ncpu as c_long;
    }
    real!(c"sysconf", fn(c_int) -> c_long, name)
}

#[allow(unused)]
fn _types(_: off_t) {}
