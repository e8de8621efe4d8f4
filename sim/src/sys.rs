//! Raw system calls and the real libc entry points behind the interposed ones.
#![allow(dead_code)]
use std::arch::asm;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

#[inline]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// Raw syscall with libc's return convention.
pub unsafe fn scl(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = sc(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// dlsym(RTLD_NEXT, name), cached by the caller.
pub unsafe fn next(cache: &AtomicUsize, name: &CStr) -> usize {
    let p = cache.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
    cache.store(p, Ordering::Relaxed);
    p
}

#[macro_export]
macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        static CACHE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = $crate::sys::next(&CACHE, $name);
        assert!(p != 0);
        let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(p);
        f($($a),*)
    }};
}

pub fn sem_post(s: &AtomicU32) {
    s.store(1, Ordering::SeqCst);
    unsafe {
        sc(libc::SYS_futex, s as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}

pub fn sem_wait(s: &AtomicU32) {
    // the hand-over is usually quick, but the lanes share the cores: no spinning
    while s.swap(0, Ordering::SeqCst) != 1 {
        unsafe {
            sc(libc::SYS_futex, s as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
        }
    }
}

pub unsafe fn exit_group(code: i32) -> ! {
    sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    loop {}
}

pub unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

pub fn write_all(fd: c_int, mut data: &[u8]) -> bool {
    while !data.is_empty() {
        let r = unsafe { sc(libc::SYS_write, fd as usize, data.as_ptr() as usize, data.len(), 0, 0, 0) };
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        data = &data[r as usize..];
    }
    true
}

pub type Ptr = *mut c_void;

/// splitmix64 / xoshiro-like small PRNG; the only source of randomness in the simulator.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability `num` in `den`
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    fnv_add(0xcbf2_9ce4_8422_2325, data)
}
pub fn fnv_add(mut h: u64, data: &[u8]) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
