//! One simulated run in one forked child.
use crate::kernel::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::*;
use std::sync::atomic::{AtomicI32, Ordering};

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
pub const MAX_STEPS: u64 = 3_000_000;
pub const WALL: i32 = 60;

fn walk(base: &str, rel: &str, out: &mut Vec<String>) {
    let d = if rel.is_empty() { base.to_string() } else { format!("{base}/{rel}") };
    if let Ok(rd) = std::fs::read_dir(&d) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let r = if rel.is_empty() { n } else { format!("{rel}/{n}") };
            out.push(r.clone());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                walk(base, &r, out);
            }
        }
    }
}

fn observe(sim: &mut Sim, why: &str) -> Obs {
    let mut tmp = vec![];
    walk(&format!("{}/tmp", sim.cfg.root), "", &mut tmp);
    tmp.sort();
    Obs {
        end: why.to_string(),
        lps: sim.lps.iter().map(|l| LObs { exit: l.exit, out: latin(&l.stdout), err: latin(&l.stderr), muts: l.mutations.clone() }).collect(),
        procs: sim
            .procs
            .iter()
            .map(|p| PObs {
                pid: p.pid,
                program: p.program.clone(),
                argv: p.argv.clone(),
                env: p.env.clone(),
                cwd: p.cwd.clone(),
                lp: p.lp,
                status: p.status,
                ended: p.state != PState::Running,
                reaped: p.state == PState::Reaped,
                out: [latin(&p.written[0]), latin(&p.written[1])],
                meta: p.meta.clone(),
                start: p.start_step,
                end: p.end_step,
            })
            .collect(),
        failed: sim.failed_spawns.clone(),
        tmp,
        outside: sim.outside.clone(),
        unsupported: sim.unsupported.clone(),
        hash: sim.hash,
        steps: sim.steps,
        now: sim.now - 1_000_000_000,
        switches: sim.switches,
        threads: sim.threads_made,
        max_live: sim.max_live,
        fired: sim.fired.clone(),
        choices: sim.choices.clone(),
        log: std::mem::take(&mut sim.log),
    }
}

fn finish(sim: &mut Sim, why: &str) -> ! {
    enter();
    if why != "exit" && sim.cfg.trace {
        for i in 0..sim.thr.len() {
            let l = format!("at the end: thread {i} done={} waits for {:?}", sim.thr[i].done, sim.thr[i].wait);
            sim.log.push(l);
        }
    }
    let o = observe(sim, why);
    let fd = OUT_FD.load(Ordering::SeqCst);
    write_all(fd, &serde_json::to_vec(&o).unwrap());
    unsafe { exit_group(0) }
}

fn no_real(_: &mut Sim, _: usize) -> Vec<Op> {
    vec![]
}

/// The code under test, as one process would run it.
fn entry(sc: &Scenario, lp: usize) -> i32 {
    let run = &sc.runs[lp];
    #[cfg(feature = "api")]
    {
        let direct = sc.api || !cfg!(feature = "cli");
        if direct && run.native {
            return drive_native(sc, run);
        }
        if direct {
            return drive_pytest(sc, run);
        }
    }
    #[cfg(feature = "cli")]
    {
        let _ = pyo3::EXECUTABLE.set(Some(PY.to_string()));
        let m = pyo3::Bound::<pyo3::PyModule>::new_module("_rtest");
        rtest::pyo3::_rtest(&m).unwrap();
        let py = pyo3::Python::assume();
        for f in m.value.functions.borrow().iter() {
            if let (Some(e), pyo3::Callable::Run(c)) = (&run.embed, f.call) {
                return c(py, e.args.clone());
            }
            if run.embed.is_none() && f.name == "main_cli_with_args" {
                return match f.call {
                    pyo3::Callable::Cli(c) => {
                        c(py, run.argv());
                        0
                    }
                    pyo3::Callable::CliStatus(c) => c(py, run.argv()),
                    pyo3::Callable::Run(_) => 97,
                };
            }
        }
    }
    #[allow(unreachable_code)]
    98
}

#[cfg(feature = "api")]
fn env_vars(run: &Run) -> Vec<(String, String)> {
    rtest::PytestRunner::new(run.env.clone()).env_vars
}

#[cfg(feature = "api")]
fn drive_pytest(sc: &Scenario, run: &Run) -> i32 {
    let nodes: Vec<String> = collect_model(sc, run)
        .tests
        .into_iter()
        .map(|(f, t)| {
            let abs = format!("{W}/{f}");
            let rel = abs.strip_prefix(&format!("{}/", run.cwd)).unwrap_or(&abs).to_string();
            format!("{rel}::{t}")
        })
        .collect();
    let n = run.n.as_deref().map(|x| match x {
        "auto" => rtest::cli::NumProcesses::Auto,
        "logical" => rtest::cli::NumProcesses::Logical,
        x => rtest::cli::NumProcesses::Count(x.parse().unwrap_or(1)),
    });
    let args = vec!["-m".to_string(), "pytest".to_string()];
    let vars = env_vars(run);
    let cfg = rtest::ParallelExecutionConfig {
        program: PY,
        initial_args: &args,
        worker_count: rtest::determine_worker_count(n, run.max),
        dist_mode: run.dist.as_deref().unwrap_or("load"),
        rootpath: std::path::Path::new(&run.cwd),
        use_subprojects: !sc.flat,
        env_vars: &vars,
    };
    rtest::execute_tests_parallel(&cfg, nodes)
}

#[cfg(feature = "api")]
fn drive_native(sc: &Scenario, run: &Run) -> i32 {
    let or = |v: &Vec<String>, d: Vec<String>| if v.is_empty() { d } else { v.clone() };
    let c = sc.cfg.clone().unwrap_or_default();
    let files = or(&c.python_files, rtest::default_python_files());
    let root = std::path::PathBuf::from(&run.cwd);
    let paths = if run.paths.is_empty() { c.testpaths.clone() } else { run.paths.clone() };
    let list = rtest::collect_test_files(&root, &paths, &files);
    let n = run.n.as_deref().map(|x| match x {
        "auto" => rtest::cli::NumProcesses::Auto,
        "logical" => rtest::cli::NumProcesses::Logical,
        x => rtest::cli::NumProcesses::Count(x.parse().unwrap_or(1)),
    });
    let cfg = rtest::NativeRunnerConfig {
        python_executable: PY.into(),
        root_path: root,
        num_workers: rtest::determine_worker_count(n, run.max),
        python_files: files,
        python_classes: or(&c.python_classes, rtest::default_python_classes()),
        python_functions: or(&c.python_functions, rtest::default_python_functions()),
    };
    rtest::execute_native(&cfg, list)
}

fn process(sc: &Scenario, lp: usize) -> ! {
    let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(sc, lp))) {
        Ok(c) => c,
        Err(_) => 101,
    };
    std::process::exit(code)
}

fn child(sc: &Scenario, env: &EnvSeeds, root: &str, trace: bool) -> ! {
    build(sc, root);
    set_scenario(sc);
    for (k, _) in std::env::vars_os() {
        std::env::remove_var(k);
    }
    let mut vars = base_env();
    vars.extend(sc.env.clone());
    for (k, v) in vars {
        use std::os::unix::ffi::OsStringExt;
        let os = |s: &str| std::ffi::OsString::from_vec(to_bytes(s));
        std::env::set_var(os(&k), os(&v));
    }
    let total: usize = if sc.runs[0].native { native_model(sc, &sc.runs[0]).len() } else { collect_model(sc, &sc.runs[0]).tests.len() };
    install(KCfg {
        root: root.to_string(),
        env: env.clone(),
        faults: sc.faults.clone(),
        pipe_cap: sc.pipe_cap,
        ncpu: sc.ncpu,
        nphys: sc.nphys,
        max_steps: MAX_STEPS,
        trace,
        barrier: if sc.barrier { total.max(1) } else { 0 },
        plan,
        real: no_real,
        finish,
        nlps: sc.runs.len(),
        thread_fail: sc.thread_fail,
    });
    for (i, r) in sc.runs.iter().enumerate() {
        s().lps[i].cwd = r.embed.as_ref().map_or(r.cwd.clone(), |e| e.from.clone());
    }
    ACTIVE.store(true, Ordering::SeqCst);
    leave();
    for lp in 1..sc.runs.len() {
        let scc = sc.clone();
        s().next_lp = Some(lp);
        std::mem::forget(std::thread::spawn(move || process(&scc, lp)));
    }
    process(sc, 0)
}

pub fn run_once(sc: &Scenario, env: &EnvSeeds, root: &str, trace: bool) -> Obs {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            // out of the way of descriptors 0..2 and of anything the program closes
            let fd = libc::syscall(libc::SYS_dup3, fds[1], 500, 0) as i32;
            libc::close(fds[1]);
            OUT_FD.store(fd, Ordering::SeqCst);
            child(sc, env, root, trace);
        }
        libc::close(fds[1]);
        let mut data = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let t0 = std::time::Instant::now();
        let mut hang = false;
        loop {
            let left = WALL as i64 * 1000 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                hang = true;
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.min(1000) as i32);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n < 0 {
                continue;
            }
            if n == 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        if hang {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match serde_json::from_slice::<Obs>(&data) {
            Ok(o) if !hang => o,
            _ => Obs {
                end: if hang { "hang".into() } else { format!("died {st:#x}") },
                lps: sc.runs.iter().map(|_| LObs::default()).collect(),
                ..Default::default()
            },
        }
    }
}

/// All environments of a scenario; returns the scenario as it was finally run.
pub fn run_all(sc: &Scenario, envs: &[EnvSeeds], root: &str, trace: bool) -> (Scenario, Vec<Obs>) {
    let mut sc = sc.clone();
    if sc.stale && !envs.is_empty() {
        let mut e = envs[0].clone();
        e.choices = None;
        let o = run_once(&sc, &e, root, false);
        let line = "{\"nodeid\": \"stale\", \"outcome\": \"failed\", \"duration_ms\": 1.0, \"error\": null}\n";
        for l in &o.lps {
            for (op, p) in &l.muts {
                let Some(rel) = p.strip_prefix("/sim/tmp/") else { continue };
                if op == "mkdir" {
                    for i in 0..8 {
                        sc.tmp.insert(format!("{rel}/worker-{i}.jsonl"), Node::Text(line.into()));
                    }
                }
            }
        }
        // whatever the workers were told to write exists as well
        for p in &o.procs {
            if let Some(out) = p.meta["args"]["out"].as_str() {
                if let Some(rel) = lexical(&join(&p.cwd, out)).strip_prefix("/sim/tmp/") {
                    sc.tmp.insert(rel.to_string(), Node::Text(line.into()));
                }
            }
        }
    }
    let obs = envs.iter().map(|e| run_once(&sc, e, root, trace)).collect();
    (sc, obs)
}
