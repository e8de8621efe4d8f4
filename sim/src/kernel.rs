//! The simulated operating system: threads under a baton, virtual time, processes, pipes, a confined file system, faults.
#![allow(static_mut_refs)]
use crate::sys::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{c_int, c_void, CString};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const VROOT: &str = "/sim";
pub const VFD0: i32 = 1 << 20;

/// Everything about a run that is not the scenario: schedules, delays, seeds, noise.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct EnvSeeds {
    pub sched: u64,
    pub timing: u64,
    pub hash: u64,
    pub dir: u64,
    /// EINTR / short transfer noise, per 1000 calls
    pub noise: u32,
    /// probability (per 1000) of leaving the running thread at a scheduling point
    pub switch: u32,
    /// largest delay between two steps of a process, in microseconds
    pub jitter_us: u64,
    /// directory entries without a type (DT_UNKNOWN)
    pub dt_unknown: bool,
    /// the wall clock: 0 for a steady one, else the seed of its offset and jumps
    #[serde(default, skip_serializing_if = "crate::model::is_zero")]
    pub wall: u64,
    /// replayed choices; beyond the end every choice is 0
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u16>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FsFault {
    /// open, read, opendir, readdir, stat, realpath, mkdir, unlink, getcwd
    pub op: String,
    /// virtual path; a leading '*' matches any prefix
    pub path: String,
    pub errno: i32,
    /// how many matching calls succeed first
    #[serde(default)]
    pub skip: u32,
    /// how many calls fail (0: all that follow)
    #[serde(default)]
    pub times: u32,
}

#[derive(Clone, Debug)]
pub enum Op {
    Delay(u64),
    Out(u8, Vec<u8>),
    Mark(String),
    Append(String, Vec<u8>),
    Remove(String),
    Mkdir(String),
    CloseOut(u8),
    Barrier,
    Exit(i32),
    Signal(i32),
    /// run something real (the Python worker) and splice the resulting steps in
    Real,
}

const WALL: u64 = 1_700_000_000_000_000_000;

impl Sim {
    /// The wall clock, which is set and corrected while the run goes on.
    pub fn wall_clock(&mut self) -> u64 {
        if self.cfg.env.wall != 0 && self.rng_wall.below(3) == 0 {
            let by = [1_000_000, 1_000_000_000, 3_600_000_000_000, 86_400_000_000_000_000][self.rng_wall.below(4) as usize] * (1 + self.rng_wall.below(3));
            self.wall = if self.rng_wall.below(2) == 0 { WALL + by } else { WALL - by };
            *self.fired.entry("clock_jump".into()).or_insert(0) += 1;
        }
        self.wall + self.now
    }
}

pub struct SpawnReq {
    pub program: String,
    pub argv: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub cwd: String,
    pub lp: usize,
    pub index: usize,
}

pub struct Plan {
    pub err: i32,
    pub ops: Vec<Op>,
    pub kill_after_us: Option<(u64, i32)>,
    pub key: String,
    pub meta: serde_json::Value,
    pub weight: usize,
}

#[derive(Clone, Debug)]
pub enum ChildFd {
    None,
    PipeW(usize),
    PipeR(usize),
    Host(i32, usize),
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PState {
    Running,
    Zombie,
    Reaped,
}

pub struct Proc {
    pub pid: i32,
    pub program: String,
    pub argv: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub cwd: String,
    pub lp: usize,
    pub fds: [ChildFd; 3],
    pub script: VecDeque<Op>,
    pub state: PState,
    pub status: i32,
    pub start: u64,
    pub end: u64,
    pub start_step: u64,
    pub end_step: u64,
    pub written: [Vec<u8>; 2],
    pub marks: Vec<String>,
    pub blocked: bool,
    pub at_barrier: bool,
    pub rng: Rng,
    pub key: String,
    pub meta: serde_json::Value,
    pub weight: usize,
    pub pending: Option<(u8, Vec<u8>)>,
}

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub writers: usize,
    pub readers: usize,
    pub peak: usize,
}

#[derive(Clone, Debug)]
pub enum VFd {
    R(usize, bool),
    W(usize, bool),
}

#[derive(Clone, Debug)]
pub enum Wait {
    None,
    Futex(usize, u64),
    Join(usize),
    Poll(Vec<(i32, i16)>, u64),
    Child(i32),
    Sleep(u64),
    Read(i32),
    Write(i32),
    Dead,
}

pub struct Thr {
    pub sem: AtomicU32,
    pub wait: Wait,
    pub woken: bool,
    pub done: bool,
    pub lp: usize,
    pub real: u64,
    pub name: String,
}

#[derive(Default)]
pub struct Lp {
    pub cwd: String,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub exit: Option<i32>,
    pub exit_step: u64,
    pub mutations: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct SpawnFail {
    pub argv: Vec<String>,
    pub cwd: String,
    pub env: BTreeMap<String, String>,
    pub errno: i32,
    pub lp: usize,
    pub key: String,
    #[serde(default)]
    pub meta: serde_json::Value,
}

pub struct KCfg {
    pub root: String,
    pub env: EnvSeeds,
    pub faults: Vec<FsFault>,
    pub pipe_cap: usize,
    pub ncpu: usize,
    pub nphys: usize,
    pub max_steps: u64,
    pub trace: bool,
    pub barrier: usize,
    pub plan: fn(&mut Sim, &SpawnReq) -> Plan,
    pub real: fn(&mut Sim, usize) -> Vec<Op>,
    pub finish: fn(&mut Sim, &str) -> !,
    pub nlps: usize,
    pub thread_fail: Option<u32>,
}

pub struct Sim {
    pub cfg: KCfg,
    pub now: u64,
    pub steps: u64,
    pub thr: Vec<Box<Thr>>,
    pub cur: usize,
    pub events: BTreeMap<(u64, u64), Ev>,
    pub seq: u64,
    pub procs: Vec<Proc>,
    pub pipes: Vec<Pipe>,
    pub fds: BTreeMap<i32, VFd>,
    pub next_fd: i32,
    pub real_fds: BTreeMap<i32, String>,
    pub rng_sched: Rng,
    pub rng_hash: Rng,
    pub rng_wall: Rng,
    /// what the wall clock is ahead of the steady one
    pub wall: u64,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
    pub hash: u64,
    pub lps: Vec<Lp>,
    pub failed_spawns: Vec<SpawnFail>,
    pub fault_hits: Vec<u32>,
    pub fired: BTreeMap<String, u64>,
    pub actions: BTreeMap<usize, Vec<FileAct>>,
    pub outside: Vec<String>,
    pub unsupported: Vec<String>,
    pub threads_made: u32,
    pub done: bool,
    pub max_live: usize,
    pub spawn_count: usize,
    pub switches: u64,
    pub failed_weight: usize,
    /// logical process of the next thread, if not the creator's
    pub next_lp: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum FileAct {
    Dup2(i32, i32),
    Close(i32),
    Chdir(String),
}

#[derive(Clone, Debug)]
pub enum Ev {
    Step(usize),
    Kill(usize, i32),
    Dummy,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static IN_KERNEL: AtomicBool = AtomicBool::new(false);
static mut SIM: *mut Sim = std::ptr::null_mut();

#[inline]
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed) && !IN_KERNEL.load(Ordering::Relaxed)
}
pub fn enter() {
    IN_KERNEL.store(true, Ordering::SeqCst)
}
pub fn leave() {
    IN_KERNEL.store(false, Ordering::SeqCst)
}
pub fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

pub fn install(cfg: KCfg) {
    let n = cfg.nlps.max(1);
    let env = cfg.env.clone();
    let nf = cfg.faults.len();
    let sim = Sim {
        now: 1_000_000_000,
        steps: 0,
        thr: vec![Box::new(Thr { sem: AtomicU32::new(0), wait: Wait::None, woken: false, done: false, lp: 0, real: 0, name: "main".into() })],
        cur: 0,
        events: BTreeMap::new(),
        seq: 0,
        procs: vec![],
        pipes: vec![],
        fds: BTreeMap::new(),
        next_fd: VFD0,
        real_fds: BTreeMap::new(),
        rng_sched: Rng::new(env.sched),
        rng_hash: Rng::new(env.hash ^ 0x5151),
        rng_wall: Rng::new(env.wall),
        wall: WALL,
        choices: vec![],
        log: vec![],
        hash: 0xcbf2_9ce4_8422_2325,
        lps: (0..n).map(|_| Lp::default()).collect(),
        failed_spawns: vec![],
        fault_hits: vec![0; nf],
        fired: BTreeMap::new(),
        actions: BTreeMap::new(),
        outside: vec![],
        unsupported: vec![],
        threads_made: 0,
        done: false,
        max_live: 0,
        spawn_count: 0,
        switches: 0,
        failed_weight: 0,
        next_lp: None,
        cfg,
    };
    unsafe { SIM = Box::into_raw(Box::new(sim)) };
}

impl Sim {
    pub fn log(&mut self, line: String) {
        self.hash = fnv_add(self.hash, line.as_bytes());
        self.hash = fnv_add(self.hash, b"\n");
        if self.cfg.trace {
            self.log.push(line);
        }
    }
    pub fn fire(&mut self, kind: &str) {
        *self.fired.entry(kind.to_string()).or_insert(0) += 1;
    }
    /// One recorded choice out of n; 0 is the quiet default.
    pub fn choose(&mut self, n: usize, stay_per_1000: u32) -> usize {
        if n <= 1 {
            return 0;
        }
        let c = match &self.cfg.env.choices {
            Some(list) => (list.get(self.choices.len()).copied().unwrap_or(0) as usize) % n,
            None => {
                if self.rng_sched.below(1000) < stay_per_1000 as u64 {
                    0
                } else {
                    self.rng_sched.below(n as u64) as usize
                }
            }
        };
        self.choices.push(c as u16);
        c
    }
    /// Something unusual but legal, with the configured noise rate.
    pub fn noise(&mut self, kind: &str) -> bool {
        let rate = self.cfg.env.noise;
        if rate == 0 && self.cfg.env.choices.is_none() {
            return false;
        }
        if rate == 0 {
            return false;
        }
        let hit = self.choose(2, 1000 - (2 * rate).min(1000)) == 1;
        if hit {
            self.fire(kind);
        }
        hit
    }
    pub fn at(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.events.insert((t, self.seq), ev);
    }
    pub fn lp(&mut self) -> usize {
        self.thr[self.cur].lp
    }

    fn ready(&self, i: usize) -> bool {
        let t = &self.thr[i];
        if t.done {
            return false;
        }
        match &t.wait {
            Wait::None => true,
            Wait::Futex(_, d) => t.woken || *d <= self.now,
            Wait::Join(j) => self.thr[*j].done,
            Wait::Poll(f, d) => *d <= self.now || f.iter().any(|(fd, ev)| self.revents(*fd, *ev) != 0),
            Wait::Child(pid) => self.zombie(*pid, t.lp).is_some() || !self.has_child(*pid, t.lp),
            Wait::Sleep(d) => *d <= self.now,
            Wait::Read(fd) => self.revents(*fd, libc::POLLIN) != 0,
            Wait::Write(fd) => self.revents(*fd, libc::POLLOUT) != 0,
            Wait::Dead => false,
        }
    }
    fn deadline(&self, i: usize) -> u64 {
        match &self.thr[i].wait {
            Wait::Futex(_, d) | Wait::Poll(_, d) | Wait::Sleep(d) if !self.thr[i].done => *d,
            _ => u64::MAX,
        }
    }
    pub fn revents(&self, fd: i32, ev: i16) -> i16 {
        match self.fds.get(&fd) {
            Some(VFd::R(p, _)) => {
                let pipe = &self.pipes[*p];
                let mut r = 0;
                if !pipe.buf.is_empty() {
                    r |= libc::POLLIN & ev;
                }
                if pipe.writers == 0 {
                    r |= libc::POLLHUP;
                }
                r
            }
            Some(VFd::W(p, _)) => {
                let pipe = &self.pipes[*p];
                let mut r = 0;
                if pipe.readers == 0 {
                    r |= libc::POLLERR;
                }
                if pipe.buf.len() < self.cfg.pipe_cap {
                    r |= libc::POLLOUT & ev;
                }
                r
            }
            None => {
                if fd >= VFD0 {
                    libc::POLLNVAL
                } else {
                    ev
                }
            }
        }
    }
    fn zombie(&self, pid: i32, lp: usize) -> Option<usize> {
        self.procs.iter().position(|p| p.state == PState::Zombie && p.lp == lp && (pid == -1 || pid == 0 || p.pid == pid))
    }
    fn has_child(&self, pid: i32, lp: usize) -> bool {
        self.procs.iter().any(|p| p.state != PState::Reaped && p.lp == lp && (pid == -1 || pid == 0 || p.pid == pid))
    }

    // ---- processes -------------------------------------------------------------------------------------------------

    fn step_delay(&mut self, p: usize) -> u64 {
        let j = self.cfg.env.jitter_us.max(1);
        1000 * self.procs[p].rng.range(1, j)
    }

    pub fn end_proc(&mut self, p: usize, status: i32) {
        if self.procs[p].state != PState::Running {
            return;
        }
        self.procs[p].state = PState::Zombie;
        self.procs[p].status = status;
        self.procs[p].end = self.now;
        self.procs[p].end_step = self.steps;
        for k in 0..3 {
            self.close_child(p, k);
        }
        let (pid, key) = (self.procs[p].pid, self.procs[p].key.clone());
        self.log(format!("proc {pid} [{key}] ends status={status:#x}"));
        // a barrier that can no longer be reached must not hold the others for ever
        self.release_barrier();
    }
    fn close_child(&mut self, p: usize, k: usize) {
        match std::mem::replace(&mut self.procs[p].fds[k], ChildFd::None) {
            ChildFd::PipeW(i) => {
                self.pipes[i].writers -= 1;
            }
            ChildFd::PipeR(i) => {
                self.pipes[i].readers -= 1;
                self.wake_writers(i);
            }
            _ => {}
        }
    }
    fn release_barrier(&mut self) {
        let n = self.cfg.barrier;
        if n == 0 {
            return;
        }
        let arrived: usize = self.procs.iter().filter(|p| p.at_barrier || p.state != PState::Running).map(|p| p.weight).sum::<usize>()
            + self.failed_weight;
        if arrived >= n {
            for i in 0..self.procs.len() {
                if self.procs[i].at_barrier && self.procs[i].state == PState::Running && self.procs[i].blocked {
                    self.procs[i].blocked = false;
                    let t = self.now + 1000;
                    self.at(t, Ev::Step(i));
                }
            }
        }
    }
    pub fn wake_writers(&mut self, pipe: usize) {
        for i in 0..self.procs.len() {
            if self.procs[i].state == PState::Running && self.procs[i].blocked && self.procs[i].pending.is_some() {
                let waits = self.procs[i].fds.iter().any(|f| matches!(f, ChildFd::PipeW(q) if *q == pipe));
                if waits {
                    self.procs[i].blocked = false;
                    let t = self.now + 1000;
                    self.at(t, Ev::Step(i));
                }
            }
        }
    }

    /// Write as much as fits; the remainder stays pending. True when everything was written.
    fn proc_write(&mut self, p: usize, fd: u8, data: Vec<u8>) -> bool {
        let k = fd as usize;
        match self.procs[p].fds[k].clone() {
            ChildFd::PipeW(i) => {
                if self.pipes[i].readers == 0 {
                    self.fire("sigpipe");
                    self.end_proc(p, libc::SIGPIPE);
                    return false;
                }
                let cap = self.cfg.pipe_cap;
                let room = cap.saturating_sub(self.pipes[i].buf.len());
                let n = room.min(data.len());
                self.pipes[i].buf.extend(&data[..n]);
                let l = self.pipes[i].buf.len();
                self.pipes[i].peak = self.pipes[i].peak.max(l);
                self.procs[p].written[k - 1].extend_from_slice(&data[..n]);
                if n < data.len() {
                    self.fire("pipe_full");
                    self.procs[p].pending = Some((fd, data[n..].to_vec()));
                    self.procs[p].blocked = true;
                    return false;
                }
                true
            }
            ChildFd::Host(h, lp) => {
                self.procs[p].written[k - 1].extend_from_slice(&data);
                if h == 1 {
                    self.lps[lp].stdout.extend_from_slice(&data);
                } else if h == 2 {
                    self.lps[lp].stderr.extend_from_slice(&data);
                }
                true
            }
            // closed by the process itself: EBADF, the text goes nowhere
            ChildFd::None => true,
            _ => {
                self.procs[p].written[k - 1].extend_from_slice(&data);
                true
            }
        }
    }

    fn proc_step(&mut self, p: usize) {
        if self.procs[p].state != PState::Running || self.procs[p].blocked {
            return;
        }
        let pid = self.procs[p].pid;
        if let Some((fd, data)) = self.procs[p].pending.take() {
            if self.proc_write(p, fd, data) {
                let t = self.now + 1000;
                self.at(t, Ev::Step(p));
            }
            return;
        }
        let op = match self.procs[p].script.pop_front() {
            Some(op) => op,
            None => Op::Exit(0),
        };
        let mut delay = self.step_delay(p);
        match op {
            Op::Delay(us) => delay += us * 1000,
            Op::Out(fd, data) => {
                self.log(format!("proc {pid} writes {} bytes to {fd}", data.len()));
                if !self.proc_write(p, fd, data) {
                    return;
                }
            }
            Op::Mark(t) => {
                self.log(format!("proc {pid} runs {t}"));
                self.procs[p].marks.push(t);
            }
            Op::Append(path, data) => {
                self.log(format!("proc {pid} appends {} bytes to {}", data.len(), self.norm_tmp(&path)));
                if let Some(h) = self.host_of(&path) {
                    use std::io::Write;
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&h) {
                        let _ = f.write_all(&data);
                    }
                }
            }
            Op::Remove(path) => {
                if let Some(h) = self.host_of(&path) {
                    let _ = std::fs::remove_file(&h);
                }
            }
            Op::Mkdir(path) => {
                if let Some(h) = self.host_of(&path) {
                    let _ = std::fs::create_dir(&h);
                }
            }
            Op::CloseOut(fd) => self.close_child(p, fd as usize),
            Op::Barrier => {
                self.procs[p].at_barrier = true;
                self.procs[p].blocked = true;
                self.log(format!("proc {pid} at barrier"));
                self.release_barrier();
                return;
            }
            Op::Exit(code) => {
                self.end_proc(p, (code & 0xff) << 8);
                return;
            }
            Op::Signal(sig) => {
                self.fire("process_killed");
                self.end_proc(p, sig);
                return;
            }
            Op::Real => {
                let f = self.cfg.real;
                let ops = f(self, p);
                for op in ops.into_iter().rev() {
                    self.procs[p].script.push_front(op);
                }
            }
        }
        let t = self.now + delay;
        self.at(t, Ev::Step(p));
    }

    fn run_event(&mut self, key: (u64, u64), ev: Ev) {
        if key.0 > self.now {
            self.now = key.0;
        }
        match ev {
            Ev::Step(p) => self.proc_step(p),
            Ev::Kill(p, sig) => {
                if self.procs[p].state == PState::Running {
                    self.fire("process_killed_async");
                    self.end_proc(p, sig);
                }
            }
            Ev::Dummy => {}
        }
    }

    pub fn live(&self) -> usize {
        self.procs.iter().filter(|p| p.state == PState::Running).count()
    }

    // ---- paths -----------------------------------------------------------------------------------------------------

    pub fn host_of(&self, v: &str) -> Option<String> {
        let n = lexical(v);
        if n == VROOT || n.starts_with("/sim/") {
            // keep the spelling (symlinks and `..` are resolved by the kernel), but only if it cannot leave the root
            Some(format!("{}{}", self.cfg.root, &v_strip(v, &n)))
        } else {
            None
        }
    }
    pub fn virt_of(&self, host: &str) -> String {
        match host.strip_prefix(self.cfg.root.as_str()) {
            Some(rest) => format!("{VROOT}{rest}"),
            None => host.to_string(),
        }
    }
    /// Temporary names replaced, for logs and comparisons.
    pub fn norm_tmp(&self, p: &str) -> String {
        norm_tmp(p)
    }
    pub fn fs_fault(&mut self, op: &str, v: &str) -> Option<i32> {
        for i in 0..self.cfg.faults.len() {
            let f = &self.cfg.faults[i];
            if f.op != op {
                continue;
            }
            let m = match f.path.strip_prefix('*') {
                Some(suf) => v.ends_with(suf),
                None => v == f.path || lexical(v) == f.path,
            };
            if !m {
                continue;
            }
            let h = self.fault_hits[i];
            self.fault_hits[i] += 1;
            let f = &self.cfg.faults[i];
            if h < f.skip || (f.times != 0 && h >= f.skip + f.times) {
                continue;
            }
            let e = f.errno;
            let kind = format!("fs_{op}_{}", errname(e));
            self.fire(&kind);
            self.fire(&format!("fault@{}", norm_tmp(v)));
            self.log(format!("fault {op} {} -> {}", norm_tmp(v), errname(e)));
            return Some(e);
        }
        None
    }
}

pub fn norm_tmp(p: &str) -> String {
    // rtest-XXXXXX -> rtest-*
    let mut out = String::new();
    let mut rest = p;
    while let Some(i) = rest.find("/tmp/") {
        let (a, b) = rest.split_at(i + 5);
        out.push_str(a);
        let end = b.find('/').unwrap_or(b.len());
        out.push('*');
        rest = &b[end..];
        if !rest.contains("/tmp/") {
            break;
        }
    }
    out.push_str(rest);
    out
}

pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::EMFILE => "EMFILE",
        libc::ENOMEM => "ENOMEM",
        libc::EAGAIN => "EAGAIN",
        libc::EINTR => "EINTR",
        libc::ENOSPC => "ENOSPC",
        libc::EEXIST => "EEXIST",
        libc::E2BIG => "E2BIG",
        libc::ELOOP => "ELOOP",
        libc::EPERM => "EPERM",
        libc::ENFILE => "ENFILE",
        _ => "E?",
    }
}

fn v_strip(v: &str, n: &str) -> String {
    // v resolved lexically stays inside; if the raw spelling starts with /sim keep it raw, else use the normal form
    match v.strip_prefix(VROOT) {
        Some(rest) if !escapes(rest) => rest.to_string(),
        _ => n[VROOT.len()..].to_string(),
    }
}
fn escapes(rest: &str) -> bool {
    let mut depth: i32 = 0;
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                depth -= 1;
                if depth < 0 {
                    return true;
                }
            }
            _ => depth += 1,
        }
    }
    false
}
pub fn lexical(p: &str) -> String {
    let mut parts: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    format!("/{}", parts.join("/"))
}

// ---- scheduling ------------------------------------------------------------------------------------------------------

/// Give the scheduler a chance; returns when the calling thread holds the baton again and its wait condition is satisfied.
pub fn schedule() {
    loop {
        let me = s().cur;
        let sim = s();
        sim.steps += 1;
        sim.now += 1000;
        if sim.steps > sim.cfg.max_steps {
            let f = sim.cfg.finish;
            f(sim, "step_limit");
        }
        let mut cands: Vec<usize> = vec![];
        if sim.ready(me) {
            cands.push(me);
        }
        for i in 0..sim.thr.len() {
            if i != me && sim.ready(i) {
                cands.push(i);
            }
        }
        let has_ev = !sim.events.is_empty();
        if cands.is_empty() {
            let dl = (0..sim.thr.len()).map(|i| sim.deadline(i)).min().unwrap_or(u64::MAX);
            let ev = sim.events.keys().next().copied();
            match ev {
                Some(k) if k.0 <= dl => {
                    let e = sim.events.remove(&k).unwrap();
                    sim.run_event(k, e);
                }
                _ if dl != u64::MAX => sim.now = sim.now.max(dl),
                _ => {
                    let f = sim.cfg.finish;
                    f(sim, "deadlock");
                }
            }
            continue;
        }
        let n = cands.len() + has_ev as usize;
        let stay = 1000 - sim.cfg.env.switch.min(1000);
        let c = sim.choose(n, stay);
        if c == cands.len() {
            let k = *sim.events.keys().next().unwrap();
            let e = sim.events.remove(&k).unwrap();
            sim.run_event(k, e);
            continue;
        }
        let nxt = cands[c];
        sim.thr[nxt].wait = match std::mem::replace(&mut sim.thr[nxt].wait, Wait::None) {
            _ => Wait::None,
        };
        if nxt == me {
            return;
        }
        sim.switches += 1;
        sim.log(format!("thread {me} -> {nxt}"));
        sim.cur = nxt;
        let mine: *const AtomicU32 = &sim.thr[me].sem;
        let theirs: *const AtomicU32 = &sim.thr[nxt].sem;
        let dead = sim.thr[me].done;
        sem_post(unsafe { &*theirs });
        if dead {
            return;
        }
        sem_wait(unsafe { &*mine });
        // resumed: `cur` is this thread again
        return;
    }
}

pub fn block(w: Wait) {
    let sim = s();
    let c = sim.cur;
    sim.thr[c].woken = false;
    sim.thr[c].wait = w;
    schedule();
}

pub fn park_forever() -> ! {
    loop {
        block(Wait::Dead);
    }
}

// ---- threads ---------------------------------------------------------------------------------------------------------

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    /// the new thread has no baton yet: it must not look at the simulator's tables
    sem: *const AtomicU32,
}

extern "C" {
    fn __cxa_thread_atexit_impl(d: unsafe extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}

unsafe extern "C" fn thread_end(_o: *mut c_void) {
    enter();
    let sim = s();
    let c = sim.cur;
    sim.thr[c].done = true;
    sim.log(format!("thread {c} ends"));
    schedule(); // hands the baton on and returns at once
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    sem_wait(unsafe { &*st.sem });
    unsafe { __cxa_thread_atexit_impl(thread_end, std::ptr::null_mut(), &__dso_handle as *const u8 as *mut c_void) };
    leave();
    (st.f)(st.arg)
}

pub unsafe fn k_pthread_create(t: *mut u64, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let sim = s();
    if sim.next_lp.is_none() {
        sim.threads_made += 1;
    }
    if sim.next_lp.is_none() && sim.cfg.thread_fail == Some(sim.threads_made) {
        sim.fire("thread_create_EAGAIN");
        sim.log("pthread_create fails".to_string());
        return libc::EAGAIN;
    }
    let lp = match sim.next_lp.take() {
        Some(l) => l,
        None => sim.lp(),
    };
    let id = sim.thr.len();
    sim.thr.push(Box::new(Thr { sem: AtomicU32::new(0), wait: Wait::None, woken: false, done: false, lp, real: 0, name: format!("t{id}") }));
    let st = Box::into_raw(Box::new(Start { f, arg, sem: &sim.thr[id].sem }));
    let r = crate::real!(c"pthread_create", fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int, t, attr, trampoline, st as *mut c_void);
    if r != 0 {
        sim.thr.pop();
        return r;
    }
    sim.thr[id].real = *t;
    sim.log(format!("thread {id} created"));
    schedule();
    0
}

pub unsafe fn k_pthread_join(t: u64, ret: *mut *mut c_void) -> c_int {
    if let Some(i) = s().thr.iter().position(|x| x.real == t && t != 0) {
        block(Wait::Join(i));
        s().log(format!("join {i}"));
        s().thr[i].real = 0;
    }
    crate::real!(c"pthread_join", fn(u64, *mut *mut c_void) -> c_int, t, ret)
}

// ---- futex -----------------------------------------------------------------------------------------------------------

pub unsafe fn k_futex(addr: usize, op: c_int, val: u32, timeout: *const libc::timespec) -> isize {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            schedule();
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let dl = if timeout.is_null() {
                u64::MAX
            } else {
                let ns = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    s().now + ns
                } else {
                    ns
                }
            };
            let me = s().cur;
            s().log(format!("thread {me} futex wait"));
            if s().noise("futex_spurious") {
                schedule();
                return 0;
            }
            block(Wait::Futex(addr, dl));
            let me = s().cur;
            if s().thr[me].woken {
                s().thr[me].woken = false;
                0
            } else {
                set_errno(libc::ETIMEDOUT);
                -1
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let sim = s();
            let mut waiting: Vec<usize> = (0..sim.thr.len()).filter(|i| matches!(sim.thr[*i].wait, Wait::Futex(a, _) if a == addr) && !sim.thr[*i].woken).collect();
            let mut n = 0;
            while n < val as usize && !waiting.is_empty() {
                let c = sim.choose(waiting.len(), 700);
                let w = waiting.remove(c);
                sim.thr[w].woken = true;
                n += 1;
            }
            schedule();
            n as isize
        }
        _ => {
            s().unsupported.push(format!("futex op {op}"));
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

// ---- descriptors -------------------------------------------------------------------------------------------------------

impl Sim {
    pub fn new_vfd(&mut self, f: VFd) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        match &f {
            VFd::R(p, _) => self.pipes[*p].readers += 1,
            VFd::W(p, _) => self.pipes[*p].writers += 1,
        }
        self.fds.insert(fd, f);
        fd
    }
    pub fn close_vfd(&mut self, fd: i32) -> bool {
        match self.fds.remove(&fd) {
            Some(VFd::R(p, _)) => {
                self.pipes[p].readers -= 1;
                if self.pipes[p].readers == 0 {
                    self.wake_writers(p);
                }
                true
            }
            Some(VFd::W(p, _)) => {
                self.pipes[p].writers -= 1;
                true
            }
            None => false,
        }
    }
}

pub unsafe fn k_pipe2(out: *mut c_int, flags: c_int) -> c_int {
    schedule();
    let sim = s();
    if let Some(e) = sim.fs_fault("pipe", "pipe") {
        set_errno(e);
        return -1;
    }
    let nb = flags & libc::O_NONBLOCK != 0;
    sim.pipes.push(Pipe::default());
    let p = sim.pipes.len() - 1;
    *out = sim.new_vfd(VFd::R(p, nb));
    *out.add(1) = sim.new_vfd(VFd::W(p, nb));
    0
}

pub unsafe fn k_read_pipe(fd: c_int, buf: *mut u8, n: usize) -> isize {
    loop {
        schedule();
        let sim = s();
        if sim.noise("read_EINTR") {
            set_errno(libc::EINTR);
            return -1;
        }
        let (p, nb) = match sim.fds.get(&fd) {
            Some(VFd::R(p, nb)) => (*p, *nb),
            _ => {
                set_errno(libc::EBADF);
                return -1;
            }
        };
        let avail = sim.pipes[p].buf.len();
        if avail > 0 && n > 0 {
            let mut k = avail.min(n);
            if k > 1 && sim.noise("read_short") {
                // a short transfer of an arbitrary size
                let d = sim.choose(7, 0);
                k = [1, 2, 3, k / 2, k - 1, k.min(7), k.min(4095)][d].clamp(1, k);
            }
            for (i, b) in sim.pipes[p].buf.drain(..k).enumerate() {
                *buf.add(i) = b;
            }
            sim.wake_writers(p);
            sim.log(format!("read {k} of {avail} from pipe {p}"));
            return k as isize;
        }
        if sim.pipes[p].writers == 0 || n == 0 {
            sim.log(format!("eof on pipe {p}"));
            return 0;
        }
        if nb {
            set_errno(libc::EAGAIN);
            return -1;
        }
        block(Wait::Read(fd));
    }
}

pub unsafe fn k_write_pipe(fd: c_int, buf: *const u8, n: usize) -> isize {
    loop {
        schedule();
        let sim = s();
        let (p, nb) = match sim.fds.get(&fd) {
            Some(VFd::W(p, nb)) => (*p, *nb),
            _ => {
                set_errno(libc::EBADF);
                return -1;
            }
        };
        if sim.pipes[p].readers == 0 {
            set_errno(libc::EPIPE);
            return -1;
        }
        let room = sim.cfg.pipe_cap.saturating_sub(sim.pipes[p].buf.len());
        if room > 0 || n == 0 {
            let k = room.min(n);
            sim.pipes[p].buf.extend(std::slice::from_raw_parts(buf, k));
            return k as isize;
        }
        if nb {
            set_errno(libc::EAGAIN);
            return -1;
        }
        block(Wait::Write(fd));
    }
}

pub unsafe fn k_write_host(fd: c_int, data: &[u8]) -> isize {
    schedule();
    let sim = s();
    if sim.noise("write_EINTR") {
        set_errno(libc::EINTR);
        return -1;
    }
    let mut k = data.len();
    if k > 1 && sim.noise("write_short") {
        let d = sim.choose(4, 0);
        k = [1, k / 2, k - 1, k.min(13)][d].clamp(1, k);
    }
    let lp = sim.lp();
    if sim.lps[lp].exit.is_none() {
        if fd == 1 {
            sim.lps[lp].stdout.extend_from_slice(&data[..k]);
        } else {
            sim.lps[lp].stderr.extend_from_slice(&data[..k]);
        }
    }
    k as isize
}

pub unsafe fn k_poll(fds: *mut libc::pollfd, n: u64, timeout_ms: c_int) -> c_int {
    schedule();
    if s().noise("poll_EINTR") {
        set_errno(libc::EINTR);
        return -1;
    }
    let list: Vec<(i32, i16)> = (0..n as usize).map(|i| ((*fds.add(i)).fd, (*fds.add(i)).events)).collect();
    let any = |sim: &Sim| list.iter().any(|(f, e)| sim.revents(*f, *e) != 0);
    if !any(s()) && timeout_ms != 0 {
        let dl = if timeout_ms < 0 { u64::MAX } else { s().now + timeout_ms as u64 * 1_000_000 };
        block(Wait::Poll(list.clone(), dl));
    }
    let mut k = 0;
    for i in 0..n as usize {
        let r = s().revents((*fds.add(i)).fd, (*fds.add(i)).events);
        (*fds.add(i)).revents = r;
        if r != 0 {
            k += 1;
        }
    }
    k
}

// ---- processes ---------------------------------------------------------------------------------------------------------

pub unsafe fn k_waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int {
    schedule();
    if s().noise("waitpid_EINTR") {
        set_errno(libc::EINTR);
        return -1;
    }
    let sim = s();
    let lp = sim.lp();
    if !sim.has_child(pid, lp) {
        set_errno(libc::ECHILD);
        return -1;
    }
    if sim.zombie(pid, lp).is_none() {
        if opts & libc::WNOHANG != 0 {
            return 0;
        }
        block(Wait::Child(pid));
    }
    let sim = s();
    let lp = sim.lp();
    match sim.zombie(pid, lp) {
        Some(i) => {
            sim.procs[i].state = PState::Reaped;
            // SIGCHLD was ignored when the run was started: the status is lost
            if let Some(e) = sim.fs_fault("wait", "wait") {
                set_errno(e);
                return -1;
            }
            if !status.is_null() {
                *status = sim.procs[i].status;
            }
            let p = sim.procs[i].pid;
            sim.log(format!("reaped {p}"));
            p
        }
        None => {
            set_errno(libc::ECHILD);
            -1
        }
    }
}

unsafe fn strv(p: *const *const i8) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while !(*p.add(i)).is_null() {
        v.push(crate::model::from_bytes(cstr(*p.add(i) as *const _)));
        i += 1;
    }
    v
}

extern "C" {
    static environ: *const *const i8;
}

pub unsafe fn k_spawn(pid: *mut c_int, file: *const i8, acts: usize, argv: *const *const i8, envp: *const *const i8) -> c_int {
    schedule();
    let sim = s();
    let lp = sim.lp();
    let program = String::from_utf8_lossy(cstr(file as *const _)).into_owned();
    let argv = strv(argv);
    let envp = if envp.is_null() { environ } else { envp };
    let mut env = BTreeMap::new();
    for e in strv(envp) {
        if let Some((k, v)) = e.split_once('=') {
            env.entry(k.to_string()).or_insert(v.to_string());
        }
    }
    let mut cwd = sim.lps[lp].cwd.clone();
    let mut fds = [ChildFd::Host(0, lp), ChildFd::Host(1, lp), ChildFd::Host(2, lp)];
    let mut err = 0;
    for a in sim.actions.get(&acts).cloned().unwrap_or_default() {
        match a {
            FileAct::Chdir(d) => cwd = join(&cwd, &d),
            FileAct::Close(fd) => {
                if (0..3).contains(&fd) {
                    fds[fd as usize] = ChildFd::None;
                }
            }
            FileAct::Dup2(src, dst) if (0..3).contains(&dst) => {
                fds[dst as usize] = match sim.fds.get(&src) {
                    Some(VFd::R(p, _)) => ChildFd::PipeR(*p),
                    Some(VFd::W(p, _)) => ChildFd::PipeW(*p),
                    None if (0..3).contains(&src) => fds[src as usize].clone(),
                    None => ChildFd::Other,
                };
            }
            _ => {}
        }
    }
    match sim.host_of(&cwd) {
        Some(h) => {
            if !std::path::Path::new(&h).is_dir() {
                err = libc::ENOENT;
            }
        }
        None => err = libc::EACCES,
    }
    if err == 0 {
        let found = if program.contains('/') {
            let v = join(&cwd, &program);
            sim.host_of(&v).map(|h| std::path::Path::new(&h).is_file()).unwrap_or(false)
        } else {
            let path = std::env::var("PATH").unwrap_or_default();
            path.split(':').any(|d| sim.host_of(&format!("{d}/{program}")).map(|h| std::path::Path::new(&h).is_file()).unwrap_or(false))
        };
        if !found {
            err = libc::ENOENT;
        }
    }
    let index = sim.spawn_count;
    sim.spawn_count += 1;
    let req = SpawnReq { program: program.clone(), argv: argv.clone(), env: env.clone(), cwd: cwd.clone(), lp, index };
    let planner = sim.cfg.plan;
    let plan = planner(sim, &req);
    if err == 0 {
        err = plan.err;
        if err != 0 {
            let k = format!("spawn_{}", errname(err));
            sim.fire(&k);
        }
    }
    if err != 0 {
        sim.log(format!("spawn of [{}] fails {}", plan.key, errname(err)));
        sim.failed_spawns.push(SpawnFail { argv, cwd, env, errno: err, lp, key: plan.key, meta: plan.meta });
        sim.failed_weight += plan.weight;
        sim.release_barrier();
        return err;
    }
    for f in &fds {
        match f {
            ChildFd::PipeW(p) => sim.pipes[*p].writers += 1,
            ChildFd::PipeR(p) => sim.pipes[*p].readers += 1,
            _ => {}
        }
    }
    let i = sim.procs.len();
    let vpid = 1000 + i as i32;
    let rng = Rng::new(sim.cfg.env.timing ^ fnv(plan.key.as_bytes()));
    sim.log(format!("spawn {vpid} [{}] cwd={cwd}", plan.key));
    sim.procs.push(Proc {
        pid: vpid,
        program,
        argv,
        env,
        cwd,
        lp,
        fds,
        script: plan.ops.into_iter().collect(),
        state: PState::Running,
        status: 0,
        start: sim.now,
        end: 0,
        start_step: sim.steps,
        end_step: 0,
        written: [vec![], vec![]],
        marks: vec![],
        blocked: false,
        at_barrier: false,
        rng,
        key: plan.key,
        meta: plan.meta,
        weight: plan.weight,
        pending: None,
    });
    sim.max_live = sim.max_live.max(sim.live());
    let t = sim.now + sim.step_delay(i);
    sim.at(t, Ev::Step(i));
    if let Some((us, sig)) = plan.kill_after_us {
        let t = sim.now + us * 1000;
        sim.at(t, Ev::Kill(i, sig));
    }
    if !pid.is_null() {
        *pid = vpid;
    }
    schedule();
    0
}

pub fn join(cwd: &str, p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{}/{}", cwd.trim_end_matches('/'), p)
    }
}

/// `exit` called by the code under test: this logical process is over.
pub fn k_exit(code: c_int) -> ! {
    let sim = s();
    let lp = sim.lp();
    if sim.lps[lp].exit.is_none() {
        sim.lps[lp].exit = Some(code & 0xff);
        sim.lps[lp].exit_step = sim.steps;
        sim.log(format!("run {lp} exits {code}"));
    }
    for t in sim.thr.iter_mut() {
        if t.lp == lp {
            t.wait = Wait::Dead;
        }
    }
    if sim.lps.iter().all(|l| l.exit.is_some()) {
        let f = sim.cfg.finish;
        f(sim, "exit");
    }
    park_forever()
}

// ---- paths and files -----------------------------------------------------------------------------------------------------

pub enum Where {
    Host(CString, String),
    Special(&'static str),
    Err(i32),
}

/// Where a path given by the code under test leads.
pub unsafe fn resolve(p: *const i8) -> Where {
    let raw = String::from_utf8_lossy(cstr(p as *const _)).into_owned();
    let sim = s();
    if raw == "/dev/null" {
        return Where::Special("/dev/null");
    }
    if raw == "/proc/cpuinfo" {
        return Where::Special("cpuinfo");
    }
    let lp = sim.lp();
    let v = join(&sim.lps[lp].cwd.clone(), &raw);
    if raw.is_empty() {
        return Where::Err(libc::ENOENT);
    }
    match sim.host_of(&v) {
        Some(h) => Where::Host(CString::new(h).unwrap(), v),
        None => {
            if lexical(&v) == "/" {
                return Where::Special("/");
            }
            if !v.starts_with("/proc/") && !v.starts_with("/sys/") && !v.starts_with("/etc/") {
                sim.outside.push(v);
            }
            Where::Err(libc::ENOENT)
        }
    }
}

pub unsafe fn mutation(op: &str, v: &str) {
    let sim = s();
    let lp = sim.lp();
    sim.lps[lp].mutations.push((op.to_string(), v.to_string()));
    sim.log(format!("{op} {}", norm_tmp(v)));
}

pub unsafe fn k_open(path: *const i8, flags: c_int, mode: u32) -> c_int {
    schedule();
    if s().noise("open_EINTR") {
        set_errno(libc::EINTR);
        return -1;
    }
    let (host, v) = match resolve(path) {
        Where::Host(h, v) => (h, v),
        Where::Special("/dev/null") => (c"/dev/null".to_owned(), "/dev/null".to_string()),
        Where::Special("cpuinfo") => {
            let text = cpuinfo(s().cfg.ncpu, s().cfg.nphys);
            let fd = sc(libc::SYS_memfd_create, c"cpuinfo".as_ptr() as usize, 0, 0, 0, 0, 0) as c_int;
            write_all(fd, text.as_bytes());
            sc(libc::SYS_lseek, fd as usize, 0, 0, 0, 0, 0);
            return fd;
        }
        Where::Special(_) => {
            set_errno(libc::EACCES);
            return -1;
        }
        Where::Err(e) => {
            set_errno(e);
            return -1;
        }
    };
    if let Some(e) = s().fs_fault(if flags & libc::O_DIRECTORY != 0 { "opendir" } else { "open" }, &v) {
        set_errno(e);
        return -1;
    }
    if flags & libc::O_CREAT != 0 && v != "/dev/null" {
        if let Some(e) = s().fs_fault("create", &v) {
            set_errno(e);
            return -1;
        }
        mutation("create", &v);
    } else if flags & libc::O_ACCMODE != libc::O_RDONLY && v != "/dev/null" {
        mutation("open-write", &v);
    }
    let r = sc(libc::SYS_open, host.as_ptr() as usize, flags as usize, mode as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    s().real_fds.insert(r as i32, v);
    r as c_int
}

pub fn cpuinfo(ncpu: usize, nphys: usize) -> String {
    let mut t = String::new();
    for i in 0..ncpu {
        t.push_str(&format!("processor\t: {i}\nphysical id\t: 0\ncpu cores\t: {nphys}\ncore id\t: {}\n\n", i % nphys.max(1)));
    }
    t
}

pub struct VDir {
    pub fd: c_int,
    pub vpath: String,
    pub ents: Vec<(Vec<u8>, u8)>,
    pub pos: usize,
    pub buf: libc::dirent64,
}

pub unsafe fn list_fd(fd: c_int) -> Vec<(Vec<u8>, u8)> {
    let mut out = vec![];
    let mut buf = vec![0u8; 32768];
    sc(libc::SYS_lseek, fd as usize, 0, 0, 0, 0, 0);
    loop {
        let n = sc(libc::SYS_getdents64, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
        if n <= 0 {
            break;
        }
        let mut o = 0;
        while o < n as usize {
            let reclen = u16::from_ne_bytes([buf[o + 16], buf[o + 17]]) as usize;
            let ty = buf[o + 18];
            let name = &buf[o + 19..o + reclen];
            let e = name.iter().position(|b| *b == 0).unwrap_or(name.len());
            out.push((name[..e].to_vec(), ty));
            o += reclen;
        }
    }
    out.sort();
    out
}

pub unsafe fn open_dir(fd: c_int, vpath: String) -> *mut VDir {
    let mut ents = list_fd(fd);
    let sim = s();
    let mut r = Rng::new(sim.cfg.env.dir ^ fnv(lexical(&norm_tmp(&vpath)).as_bytes()));
    if sim.cfg.env.dir != 0 {
        r.shuffle(&mut ents);
        sim.fire("dir_shuffled");
    }
    Box::into_raw(Box::new(VDir { fd, vpath, ents, pos: 0, buf: std::mem::zeroed() }))
}
