//! rtsim: deterministic simulation of rtest.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
mod exec;
mod gen;
mod hooks;
mod kernel;
mod model;
mod oracle;
mod sys;

use kernel::EnvSeeds;
use model::Scenario;
use oracle::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use sys::fnv;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    msg: String,
    seed: u64,
    index: u64,
    scenario: Scenario,
    envs: Vec<EnvSeeds>,
    hashes: Vec<u64>,
    #[serde(default)]
    trace: Vec<Vec<String>>,
    #[serde(default)]
    minimised: Value,
}

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    scenarios: u64,
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    procs: u64,
    nontrivial: u64,
    fired: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    exits: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    nt_hashes: BTreeSet<u64>,
    unsupported: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    max_live: usize,
    max_threads: u32,
    other: BTreeMap<String, u64>,
    barrier: u64,
    fingerprint: u64,
    /// scenarios about which nothing could be decided (a simulated process died, an unsupported call)
    undecided: u64,
    /// scenarios run a second time from the same seeds, and how many of them took another course
    repeated: u64,
    not_repeatable: u64,
    /// violations that did not come back in any of three more runs of the same scenario
    not_reproduced: BTreeMap<String, u64>,
    samples: Vec<Value>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.scenarios += o.scenarios;
        self.runs += o.runs;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.procs += o.procs;
        self.nontrivial += o.nontrivial;
        self.barrier += o.barrier;
        for (a, b) in [(&mut self.fired, o.fired), (&mut self.ends, o.ends), (&mut self.exits, o.exits), (&mut self.unsupported, o.unsupported), (&mut self.known, o.known), (&mut self.other, o.other), (&mut self.not_reproduced, o.not_reproduced)] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.hashes.extend(o.hashes);
        self.nt_hashes.extend(o.nt_hashes);
        self.max_live = self.max_live.max(o.max_live);
        self.max_threads = self.max_threads.max(o.max_threads);
        self.fingerprint ^= o.fingerprint;
        self.undecided += o.undecided;
        self.repeated += o.repeated;
        self.not_repeatable += o.not_repeatable;
        self.samples.extend(o.samples);
    }
}

#[derive(Clone)]
struct Known {
    class: String,
    contains: String,
    what: String,
}

struct Opts {
    prop: String,
    runs: u64,
    secs: u64,
    seed: u64,
    lanes: u64,
    out: String,
    replays: String,
    known: Vec<Known>,
    first: u64,
    keep: bool,
}

fn scenario_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = fnv(prop.as_bytes());
    h = sys::fnv_add(h, &seed.to_le_bytes());
    sys::fnv_add(h, &i.to_le_bytes())
}

fn undecided(obs: &[Obs]) -> bool {
    obs.iter().any(|o| o.end.starts_with("died") || !o.unsupported.is_empty())
}

fn judge(prop: &str, sc: &Scenario, obs: &[Obs]) -> Vec<Violation> {
    // a child that died or met an unsupported call says nothing about the property
    if undecided(obs) {
        return vec![];
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(prop, sc, obs))) {
        Ok(v) => v,
        Err(_) => vec![],
    }
}

fn known_of<'a>(known: &'a [Known], v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| k.class == v.class && v.msg.contains(&k.contains))
}

fn lane(o: &Opts, k: u64, best: &AtomicU64, root: &str, out: &str) {
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut found: Option<(u64, Violation)> = None;
    let mut i = o.first + k;
    while i < o.first + o.runs && t0.elapsed() < Duration::from_secs(o.secs) {
        if i > best.load(Ordering::SeqCst) {
            break;
        }
        let mut g = gen::G::new(scenario_seed(o.seed, &o.prop, i));
        let (sc0, envs) = gen::gen(&o.prop, &mut g);
        let (sc, obs) = exec::run_all(&sc0, &envs, root, false);
        st.scenarios += 1;
        let mut h = 0u64;
        for ob in &obs {
            st.runs += 1;
            st.steps += ob.steps;
            st.switches += ob.switches;
            st.sim_ns += ob.now;
            st.procs += (ob.procs.len() + ob.failed.len()) as u64;
            st.max_live = st.max_live.max(ob.max_live);
            st.max_threads = st.max_threads.max(ob.threads);
            for (k, v) in &ob.fired {
                if !k.starts_with("fault@") {
                    *st.fired.entry(k.clone()).or_insert(0) += v;
                }
            }
            for u in &ob.unsupported {
                *st.unsupported.entry(u.clone()).or_insert(0) += 1;
            }
            *st.ends.entry(ob.end.clone()).or_insert(0) += 1;
            for l in &ob.lps {
                *st.exits.entry(format!("{:?}", l.exit)).or_insert(0) += 1;
            }
            for p in &ob.procs {
                if p.status != 0 {
                    *st.fired.entry(if p.status & 0x7f != 0 { "process_died_by_signal".into() } else { "process_nonzero_exit".to_string() }).or_insert(0) += 1;
                }
            }
            h = sys::fnv_add(h, &ob.hash.to_le_bytes());
            st.hashes.insert(ob.hash);
            if o.keep {
                eprintln!("{i} {:016x} {} exit={:?} procs={}", ob.hash, ob.end, ob.lps.iter().map(|l| l.exit).collect::<Vec<_>>(), ob.procs.len());
            }
        }
        st.fingerprint ^= sys::fnv_add(h, &i.to_le_bytes());
        if sc.barrier {
            st.barrier += 1;
        }
        if (i / o.lanes) % 50 == 7 {
            let (_, again) = exec::run_all(&sc0, &envs, root, false);
            st.repeated += 1;
            if again.iter().map(|o| o.hash).ne(obs.iter().map(|o| o.hash)) {
                st.not_repeatable += 1;
            }
        }
        if undecided(&obs) {
            st.undecided += 1;
        } else if nontrivial(&o.prop, &sc, &obs) {
            if k == 0 && st.samples.len() < 2 {
                let runs: Vec<Value> = obs
                    .iter()
                    .map(|o| json!({"end": o.end, "exit": o.lps.iter().map(|l| l.exit).collect::<Vec<_>>(), "processes": o.procs.len(), "not_started": o.failed.len(), "simulated_ms": o.now / 1_000_000, "context_switches": o.switches, "faults_fired": o.fired, "execution_hash": format!("{:016x}", o.hash)}))
                    .collect();
                st.samples.push(json!({"index": i, "scenario": sc, "seeds": envs, "runs": runs}));
            }
            st.nontrivial += 1;
            st.nt_hashes.insert(h);
        }
        for v in judge(&o.prop, &sc, &obs) {
            if let Some(k) = known_of(&o.known, &v) {
                *st.known.entry(k.what.clone()).or_insert(0) += 1;
                continue;
            }
            *st.other.entry(v.class.clone()).or_insert(0) += 1;
            if found.is_none() {
                if std::env::var("RTSIM_SURVEY").is_ok() {
                    eprintln!("seed-index {i}: {}: {}", v.class, v.msg);
                    break;
                }
                // a simulated run is a function of its seeds: what does not come back was not the simulation
                let back = (0..3).any(|_| {
                    let (s2, o2) = exec::run_all(&sc0, &envs, root, false);
                    judge(&o.prop, &s2, &o2).iter().any(|w| w.class == v.class)
                });
                if !back {
                    let n = st.not_reproduced.entry(v.class.clone()).or_insert(0);
                    *n += 1;
                    if *n < 3 {
                        continue;
                    }
                }
                found = Some((i, v));
            }
        }
        if found.is_some() {
            best.fetch_min(i, Ordering::SeqCst);
            break;
        }
        i += o.lanes;
    }
    let v = json!({"stats": st, "found": found.map(|(i, v)| json!([i, v.class, v.msg]))});
    std::fs::write(out, v.to_string()).unwrap();
}

// ---- minimising -------------------------------------------------------------------------------------------------------------

struct Min<'a> {
    o: &'a Opts,
    class: String,
    root: String,
    tries: u32,
    t0: Instant,
    secs: u64,
}
impl Min<'_> {
    fn spent(&self) -> bool {
        self.tries == 0 || self.t0.elapsed() > Duration::from_secs(self.secs)
    }
    fn fails(&mut self, sc: &Scenario, envs: &[EnvSeeds]) -> Option<(Violation, Vec<Obs>)> {
        self.tries = self.tries.saturating_sub(1);
        let (s2, obs) = exec::run_all(sc, envs, &self.root, false);
        if obs.iter().any(|o| o.end == "hang") && self.class != "no_end" {
            return None;
        }
        let v = judge(&self.o.prop, &s2, &obs).into_iter().find(|v| v.class == self.class && known_of(&self.o.known, v).is_none())?;
        Some((v, obs))
    }
    fn scenario(&mut self, sc: Scenario, envs: &[EnvSeeds]) -> Scenario {
        let mut cur = serde_json::to_value(&sc).unwrap();
        loop {
            let mut progress = false;
            let mut paths = vec![];
            edits(&cur, &mut vec![], &mut paths);
            paths.sort_by_key(|p| p.0.len());
            for (path, kind) in paths {
                if self.spent() {
                    return serde_json::from_value(cur).unwrap();
                }
                let mut cand = cur.clone();
                if !apply(&mut cand, &path, kind) || cand == cur {
                    continue;
                }
                let Ok(s2) = serde_json::from_value::<Scenario>(cand.clone()) else { continue };
                if s2.runs.is_empty() || s2.ncpu == 0 || s2.pipe_cap == 0 || s2.tree.is_empty() {
                    continue;
                }
                if self.fails(&s2, envs).is_some() {
                    cur = cand;
                    progress = true;
                }
            }
            if !progress {
                return serde_json::from_value(cur).unwrap();
            }
        }
    }
    fn choices(&mut self, sc: &Scenario, mut envs: Vec<EnvSeeds>) -> Vec<EnvSeeds> {
        for e in 0..envs.len() {
            // quiet altogether?
            let try_with = |me: &mut Self, envs: &mut Vec<EnvSeeds>, c: Vec<u16>| -> bool {
                if me.spent() {
                    return false;
                }
                let mut cand = envs.clone();
                cand[e].choices = Some(c);
                if me.fails(sc, &cand).is_some() {
                    *envs = cand;
                    return true;
                }
                false
            };
            if try_with(self, &mut envs, vec![]) {
                continue;
            }
            let mut n = envs[e].choices.clone().unwrap_or_default().len();
            // shortest prefix by halving
            let mut step = n / 2;
            while step > 0 {
                let c = envs[e].choices.clone().unwrap();
                if c.len() > step && try_with(self, &mut envs, c[..c.len() - step].to_vec()) {
                    continue;
                }
                step /= 2;
            }
            n = envs[e].choices.as_ref().unwrap().len();
            // zero blocks
            let mut size = (n / 2).max(1);
            loop {
                let mut at = 0;
                while at < n {
                    let mut c = envs[e].choices.clone().unwrap();
                    let end = (at + size).min(c.len());
                    if at < end && c[at..end].iter().any(|x| *x != 0) {
                        c[at..end].fill(0);
                        try_with(self, &mut envs, c);
                    }
                    at += size;
                }
                if size == 1 || self.spent() {
                    break;
                }
                size /= 2;
            }
        }
        envs
    }
}
#[derive(Clone, Copy)]
enum Edit {
    Remove,
    Null,
    One,
    Halve,
}
type Path = Vec<Value>;
fn edits(v: &Value, at: &mut Path, out: &mut Vec<(Path, Edit)>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().rev() {
                at.push(json!(i));
                out.push((at.clone(), Edit::Remove));
                edits(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(json!(k));
                out.push((at.clone(), Edit::Remove));
                if !x.is_null() && !x.is_object() && !x.is_array() {
                    out.push((at.clone(), Edit::Null));
                }
                edits(x, at, out);
                at.pop();
            }
        }
        Value::Number(_) => out.push((at.clone(), Edit::One)),
        Value::String(s) if s.len() > 40 => out.push((at.clone(), Edit::Halve)),
        _ => {}
    }
}
fn apply(v: &mut Value, path: &[Value], e: Edit) -> bool {
    let mut cur = v;
    for (d, k) in path.iter().enumerate() {
        let last = d + 1 == path.len();
        match (cur, k) {
            (Value::Array(a), Value::Number(n)) => {
                let i = n.as_u64().unwrap() as usize;
                if i >= a.len() {
                    return false;
                }
                if last && matches!(e, Edit::Remove) {
                    a.remove(i);
                    return true;
                }
                cur = &mut a[i];
            }
            (Value::Object(m), Value::String(s)) => {
                if last && matches!(e, Edit::Remove) {
                    return m.remove(s).is_some();
                }
                match m.get_mut(s) {
                    Some(x) => cur = x,
                    None => return false,
                }
            }
            _ => return false,
        }
        if last {
            match e {
                Edit::Null => *cur = Value::Null,
                Edit::One => match cur.as_u64() {
                    Some(n) if n > 1 => *cur = json!(1),
                    _ => return false,
                },
                Edit::Halve => {
                    let s: Vec<char> = cur.as_str().unwrap_or("").chars().collect();
                    *cur = json!(s[..s.len() / 2].iter().collect::<String>());
                }
                Edit::Remove => {}
            }
            return true;
        }
    }
    false
}

fn report(o: &Opts, index: u64, first: Violation, root: &str) -> String {
    let mut g = gen::G::new(scenario_seed(o.seed, &o.prop, index));
    let (sc, envs) = gen::gen(&o.prop, &mut g);
    let mut m = Min { o, class: first.class.clone(), root: root.to_string(), tries: 600, t0: Instant::now(), secs: 30 };
    let size0 = serde_json::to_string(&sc).unwrap().len();
    let (mut sc2, mut envs2) = (sc.clone(), envs.clone());
    let mut nonzero = (0, 0);
    if first.class != "no_end" || m.fails(&sc, &envs).map(|x| x.1.iter().all(|o| o.end != "hang")).unwrap_or(false) {
        sc2 = m.scenario(sc2, &envs);
        m.tries = 300;
        m.t0 = Instant::now();
        m.secs = 15;
        // record the choices of the reduced scenario, then reduce those
        let (_, obs) = exec::run_all(&sc2, &envs2, root, false);
        for (e, ob) in envs2.iter_mut().zip(&obs) {
            e.choices = Some(ob.choices.clone());
        }
        nonzero.0 = envs2.iter().map(|e| e.choices.as_ref().unwrap().iter().filter(|c| **c != 0).count()).sum();
        if m.fails(&sc2, &envs2).is_some() {
            envs2 = m.choices(&sc2, envs2);
        } else {
            envs2 = envs.clone();
        }
        nonzero.1 = envs2.iter().map(|e| e.choices.as_ref().map(|c| c.iter().filter(|c| **c != 0).count()).unwrap_or(0)).sum();
    }
    let (s3, obs) = exec::run_all(&sc2, &envs2, root, true);
    let v = judge(&o.prop, &s3, &obs).into_iter().find(|v| v.class == first.class && known_of(&o.known, v).is_none());
    let (sc2, envs2, obs, v) = match v {
        Some(v) => (sc2, envs2, obs, v),
        None => {
            let (_, obs) = exec::run_all(&sc, &envs, root, true);
            (sc.clone(), envs.clone(), obs, first)
        }
    };
    let r = Replay {
        property: o.prop.clone(),
        class: v.class.clone(),
        msg: v.msg.clone(),
        seed: o.seed,
        index,
        minimised: json!({"scenario_bytes": [size0, serde_json::to_string(&sc2).unwrap().len()], "nonzero_choices": [nonzero.0, nonzero.1]}),
        scenario: sc2,
        envs: envs2,
        hashes: obs.iter().map(|o| o.hash).collect(),
        trace: obs
            .iter()
            .map(|o| {
                let mut t = o.log.clone();
                for (i, l) in o.lps.iter().enumerate() {
                    t.push(format!("run {i}: exit {:?}", l.exit));
                    t.extend(text(&l.out).lines().take(200).map(|x| format!("run {i} stdout: {x}")));
                    t.extend(text(&l.err).lines().take(200).map(|x| format!("run {i} stderr: {x}")));
                }
                t
            })
            .collect(),
    };
    let _ = std::fs::create_dir_all(&o.replays);
    let path = format!("{}/{}-{}-{}.json", o.replays, o.prop, o.seed, index);
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    eprintln!("{}: {}: {}", o.prop, v.class, v.msg);
    path
}

fn scratch() -> String {
    let p = format!("/dev/shm/rtsim.{}", std::process::id());
    let p = if std::path::Path::new("/dev/shm").is_dir() { p } else { format!("{}/rtsim.{}", std::env::temp_dir().display(), std::process::id()) };
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
    match a.first().map(|s| s.as_str()) {
        Some("run") => {
            let mut known = vec![];
            if let Ok(t) = std::fs::read_to_string(get("--known", "/nonexistent")) {
                for l in t.lines() {
                    if let Ok(v) = serde_json::from_str::<Value>(l) {
                        if v["property"] == json!(a[1]) && v["status"] == json!("known") {
                            known.push(Known { class: v["class"].as_str().unwrap_or("").into(), contains: v["contains"].as_str().unwrap_or("").into(), what: v["what"].as_str().unwrap_or("").into() });
                        }
                    }
                }
            }
            let o = Opts {
                prop: a[1].clone(),
                runs: get("--runs", "1000").parse().unwrap(),
                secs: get("--secs", "600").parse().unwrap(),
                seed: get("--seed", "1").parse().unwrap(),
                lanes: get("--lanes", "8").parse().unwrap(),
                first: get("--first", "0").parse().unwrap(),
                out: get("--out", "/dev/stdout"),
                replays: get("--replays", "/tmp/rtsim-replays"),
                keep: a.iter().any(|x| x == "--hashes"),
                known,
            };
            std::process::exit(search(&o));
        }
        Some("feed") => feed(),
        Some("replay") => std::process::exit(replay(&a[1], a.iter().any(|x| x == "--trace"))),
        Some("gen") => {
            let mut g = gen::G::new(scenario_seed(get("--seed", "1").parse().unwrap(), &a[1], get("--index", "0").parse().unwrap()));
            let (sc, envs) = gen::gen(&a[1], &mut g);
            println!("{}", serde_json::to_string_pretty(&json!({"scenario": sc, "envs": envs})).unwrap());
            if a.iter().any(|x| x == "--run") {
                let root = scratch();
                let (sc, obs) = exec::run_all(&sc, &envs, &format!("{root}/r"), true);
                for o in &obs {
                    println!("{}", serde_json::to_string_pretty(o).unwrap());
                    for l in &o.lps {
                        println!("exit {:?}\n--- out\n{}\n--- err\n{}", l.exit, text(&l.out), text(&l.err));
                    }
                }
                println!("{:?}", judge(&a[1], &sc, &obs));
                let _ = std::fs::remove_dir_all(&root);
            }
        }
        _ => {
            eprintln!("usage: rtsim feed | run PROP [--runs N --secs S --seed X --lanes L --out F --known F --replays DIR] | replay FILE [--trace] | gen PROP --index I [--run]");
            std::process::exit(2);
        }
    }
}

fn search(o: &Opts) -> i32 {
    let root = scratch();
    let t0 = Instant::now();
    let best = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    best.store(u64::MAX, Ordering::SeqCst);
    let mut pids = vec![];
    for k in 0..o.lanes {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            lane(o, k, best, &format!("{root}/l{k}"), &format!("{root}/l{k}.json"));
            unsafe { sys::exit_group(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut st = Stats::default();
    let mut found: Option<(u64, Violation)> = None;
    for k in 0..o.lanes {
        let Ok(t) = std::fs::read_to_string(format!("{root}/l{k}.json")) else {
            eprintln!("lane {k} left no result");
            continue;
        };
        let v: Value = serde_json::from_str(&t).unwrap();
        st.merge(serde_json::from_value(v["stats"].clone()).unwrap());
        if let Some(f) = v["found"].as_array() {
            let i = f[0].as_u64().unwrap();
            if found.as_ref().map(|x| i < x.0).unwrap_or(true) {
                found = Some((i, Violation { class: f[1].as_str().unwrap().into(), msg: f[2].as_str().unwrap().into() }));
            }
        }
    }
    let mut code = 0;
    let mut rep = Value::Null;
    let mut viol = Value::Null;
    if let Some((i, v)) = found {
        code = 1;
        viol = json!({"index": i, "class": v.class, "msg": v.msg});
        rep = json!(report(o, i, v, &format!("{root}/m")));
    }
    let distinct = st.hashes.len();
    let nt = st.nt_hashes.len();
    st.hashes.clear();
    st.nt_hashes.clear();
    let res = json!({"property": o.prop, "seed": o.seed, "wall_s": wall, "stats": st, "distinct": distinct, "distinct_nontrivial": nt, "violation": viol, "replay": rep});
    std::fs::write(&o.out, format!("{res}\n")).unwrap();
    let _ = std::fs::remove_dir_all(&root);
    code
}

fn replay(path: &str, trace: bool) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let root = scratch();
    let (sc, obs) = exec::run_all(&r.scenario, &r.envs, &format!("{root}/r"), true);
    let _ = std::fs::remove_dir_all(&root);
    let same = obs.iter().map(|o| o.hash).collect::<Vec<_>>() == r.hashes;
    if trace {
        for (i, o) in obs.iter().enumerate() {
            for l in &o.log {
                println!("[{i}] {l}");
            }
        }
    }
    let vs = judge(&r.property, &sc, &obs);
    let hit = vs.iter().find(|v| v.class == r.class);
    println!("recorded: {}: {}", r.class, r.msg);
    match hit {
        Some(v) => {
            println!("replayed: {}: {}", v.class, v.msg);
            println!("execution {}", if same { "identical" } else { "differs" });
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("replayed: no violation of this kind ({} others)", vs.len());
            0
        }
    }
}

/// Runs the native runner over workers whose results and ends are given, one request a line.
fn feed() {
    use std::io::{BufRead, Write};
    let root = scratch();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).unwrap();
        let mut g = gen::G::new(v["seed"].as_u64().unwrap());
        let (sc, envs) = gen::fed(&mut g, v["workers"].as_array().unwrap());
        let (_, obs) = exec::run_all(&sc, &envs, &format!("{root}/f"), false);
        let o = &obs[0];
        let l = o.lps.first();
        let ans = json!({"end": o.end, "exit": l.and_then(|l| l.exit), "unsupported": o.unsupported, "hash": format!("{:016x}", o.hash), "procs": o.procs.len(),
            "out": l.map(|l| text(&l.out)), "err": l.map(|l| text(&l.err)), "steps": o.steps, "switches": o.switches, "sim_ns": o.now});
        println!("{ans}");
        let _ = std::io::stdout().flush();
    }
    let _ = std::fs::remove_dir_all(&root);
}
