//! Seeded scenario generators, one per property.
use crate::kernel::{join, lexical, EnvSeeds, FsFault};
use crate::model::*;
use crate::sys::Rng;
use std::collections::BTreeMap;

pub struct G {
    pub r: Rng,
    pub uid: u32,
}
impl G {
    pub fn new(seed: u64) -> G {
        G { r: Rng::new(seed), uid: 0 }
    }
    pub fn n(&mut self, lo: u64, hi: u64) -> u64 {
        self.r.range(lo, hi)
    }
    pub fn p(&mut self, per_100: u64) -> bool {
        self.r.below(100) < per_100
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.r.below(v.len() as u64) as usize]
    }
    pub fn pick2<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.r.below(v.len() as u64) as usize]
    }
    pub fn num(&mut self, v: &[u64]) -> u64 {
        v[self.r.below(v.len() as u64) as usize]
    }
    fn id(&mut self) -> u32 {
        self.uid += 1;
        self.uid
    }
}

/// A process that is silent for as long as some test suites take.
fn stall(g: &mut G, sc: &mut Scenario) {
    let us = g.num(&[12, 35, 95, 330, 700, 4300]) * 1_000_000;
    if sc.runs[0].native {
        let ks: Vec<String> = sc.files.keys().cloned().collect();
        if !ks.is_empty() {
            let k = &ks[g.r.below(ks.len() as u64) as usize];
            sc.files.get_mut(k).unwrap().delay_us = us;
        }
    } else {
        let ks = keys(sc);
        if !ks.is_empty() {
            let (f, t) = &ks[g.r.below(ks.len() as u64) as usize];
            sc.tests.entry(format!("{f}::{t}")).or_default().delay_us = us;
        }
    }
}

pub fn env(g: &mut G) -> EnvSeeds {
    EnvSeeds {
        sched: g.r.next(),
        timing: g.r.next(),
        hash: g.r.next(),
        dir: g.r.next() | 1,
        noise: g.num(&[0, 0, 3, 20, 80]) as u32,
        switch: g.num(&[0, 30, 200, 500, 1000]) as u32,
        jitter_us: g.num(&[1, 30, 400, 5000]),
        dt_unknown: g.p(10),
        wall: if g.p(30) { g.r.next() | 1 } else { 0 },
        choices: None,
    }
}

const DIRS: [&str; 14] = ["tests", "pkg/tests/unit/tests", "n/e/s/t/e/d/a/s/m/a/n/y/l/e/v/e/l/s/a/s/t/h/i/s", "pkg", "sub", "a b", "x.y", "mod-1", "pkg/deep", "sub/in/ner", "sub/in/ner/so/deep/down", "é", "zz", "Tests"];
const FILES: [&str; 12] = ["test_a.py", "test_b.py", "c_test.py", "test_d e.py", "test_é.py", "test_z.py", "b_test.py", "test_10.py", "test_9.py", "test_A.py", "test_[x].py", "test_.py"];
const PARAMS: [&str; 18] = ["1", "x.py::y", "sub/test_a.py", "a b", "a::b", "x-y", "é漢", "--opt", "k=v", "*?", "'q'", "\"d\"", "[x]", "::", "$HOME", "a\\b", "-n 3", "😀::C::d"];

fn parts(g: &mut G, n: u64, plain: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut t = match g.r.below(6) {
            5 => format!("TestAB::test_{i}"),
            0 | 1 => format!("test_{i}"),
            2 => format!("TestA::test_{i}"),
            3 => format!("TestB::test_{i}"),
            _ => format!("TestB::TestIn::test_{i}"),
        };
        if !plain && g.p(35) {
            t.push_str(&format!("[{}]", g.pick(&PARAMS)));
            if g.p(3) {
                t = format!("{}{}]", &t[..t.len() - 1], "long".repeat(g.num(&[20, 70, 300, 1100]) as usize));
            }
            if g.p(30) && v.last().is_some() {
                // several cases of one test
                let last = v.last().unwrap().split('[').next().unwrap().to_string();
                t = format!("{last}[{}{i}]", g.pick(&PARAMS));
            }
        }
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v
}

pub struct Shape {
    pub files: u64,
    pub tests: u64,
    pub projects: u64,
    pub links: bool,
    pub plain: bool,
    pub dirs: u64,
}

fn tree(g: &mut G, sh: &Shape) -> BTreeMap<String, Node> {
    let mut t = BTreeMap::new();
    t.insert("proj/README".to_string(), Node::Text("x".into()));
    let nd = g.n(0, sh.dirs);
    let mut dirs = vec!["proj".to_string()];
    for _ in 0..nd {
        let d = format!("proj/{}", g.pick(&DIRS));
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    if g.p(20) {
        // a chain of projects
        dirs.push("proj/sub".into());
        dirs.push("proj/sub/in".into());
        dirs.push("proj/sub/in/ner".into());
        if g.p(40) {
            dirs.push("proj/sub/in/ner/so/deep/down".into());
        }
        dirs.dedup();
    }
    // now and then a project far larger than the others
    let many = g.p(2);
    let nf = if many { g.num(&[30, 70, 140, 300]) } else { g.n(1, sh.files.max(1)) };
    for i in 0..nf {
        let d = dirs[g.r.below(dirs.len() as u64) as usize].clone();
        let f = if many { format!("{d}/test_{i}.py") } else { format!("{d}/{}", g.pick(&FILES)) };
        let k = if !many && g.p(2) { g.num(&[30, 70, 140, 270]) } else { g.n(0, sh.tests) };
        let p = parts(g, k, sh.plain);
        t.insert(f, Node::Py(p));
    }
    if !t.values().any(|n| matches!(n, Node::Py(p) if !p.is_empty())) {
        let k = g.n(1, sh.tests.max(1));
        let mut p = parts(g, k, sh.plain);
        if p.is_empty() {
            p.push("test_0".into());
        }
        t.insert("proj/test_a.py".into(), Node::Py(p));
    }
    if g.p(12) {
        // a directory named like the file beside it, tests in both
        let files: Vec<String> = t.iter().filter(|(_, n)| matches!(n, Node::Py(p) if !p.is_empty())).map(|(p, _)| p.clone()).collect();
        let f = any(g, &files);
        let k = g.n(1, 3);
        let p = parts(g, k, sh.plain);
        t.entry(format!("{}/{}", &f[..f.len() - 3], g.pick(&["test_a.py", "test_in.py", "zz/test_in.py"]))).or_insert(Node::Py(p));
    }
    if g.p(6) {
        // hidden, yet named like a test
        let d = any(g, &dirs);
        t.insert(format!("{d}/{}", g.pick(&[".h_test.py", ".test_h.py", "._test.py"])), Node::Py(vec!["test_hidden".into()]));
    }
    for _ in 0..g.n(0, sh.projects) {
        let d = dirs[g.r.below(dirs.len() as u64) as usize].clone();
        if d != "proj" {
            let text = g.pick(&["[project]\nname='s'\n", "[project]\nname='s'\n", "", "not [ toml", "[tool.pytest.ini_options]\npython_files = [\"nothing_*.py\"]\n"]);
            t.insert(format!("{d}/pyproject.toml"), Node::Text(text.into()));
        }
    }
    if g.p(30) {
        t.insert("proj/pyproject.toml".into(), Node::Text("[project]\nname='r'\n".into()));
    }
    if g.p(40) {
        // what else lies about in a project
        for _ in 0..g.n(1, 4) {
            let d = dirs[g.r.below(dirs.len() as u64) as usize].clone();
            let f = g.pick(&["setup.py", "setup.cfg", "pytest.ini", "tox.ini", "conftest.py", "__init__.py", "requirements.txt", ".git/HEAD", "poetry.lock", "Pyproject.toml", "pyproject.toml.bak", "pyproject"]);
            t.entry(format!("{d}/{f}")).or_insert(Node::Text("".into()));
        }
    }
    if sh.links {
        links(g, &mut t, &dirs);
    }
    t
}

fn links(g: &mut G, t: &mut BTreeMap<String, Node>, dirs: &[String]) {
    let py: Vec<String> = t.iter().filter(|(_, n)| matches!(n, Node::Py(_))).map(|(p, _)| p.clone()).collect();
    for i in 0..g.n(0, 3) {
        let d = dirs[g.r.below(dirs.len() as u64) as usize].clone();
        let target = if g.p(60) || dirs.len() < 2 {
            py[g.r.below(py.len() as u64) as usize].clone()
        } else {
            dirs[1 + g.r.below(dirs.len() as u64 - 1) as usize].clone()
        };
        let name = if target.ends_with(".py") { format!("{d}/test_l{i}.py") } else if g.p(15) {
            // named like what is not walked
            format!("{d}/{}", g.pick(&["venv", ".venv", "node_modules", "build", "dist", "l.egg", ".tox", "__pycache__"]))
        } else { format!("{d}/link{i}") };
        if t.keys().any(|k| *k == name || k.starts_with(&format!("{name}/"))) {
            continue;
        }
        if g.p(12) {
            // back to where one came from, or to each other's
            let to = if g.p(50) { d.clone() } else { dirs[g.r.below(dirs.len() as u64) as usize].clone() };
            let n = match to == d && g.p(50) {
                true => Node::Link(".".into()),
                false => Node::Link(format!("/sim/w/{to}")),
            };
            t.insert(format!("{d}/{}", g.pick(&["loop", "up", "a loop"])), n);
            continue;
        }
        // no cycles: a directory link never sits below its target
        if !target.ends_with(".py") && (name.starts_with(&format!("{target}/")) || t.iter().any(|(p, n)| p.starts_with(&format!("{target}/")) && matches!(n, Node::Link(_)))) {
            continue;
        }
        if t.iter().any(|(_, n)| matches!(n, Node::Link(l) if l.starts_with("/sim/") && name.starts_with(&l[7..]))) {
            continue;
        }
        t.insert(name, Node::Link(format!("/sim/w/{target}")));
    }
    if g.p(15) {
        t.insert("proj/test_broken.py".into(), Node::Link("nowhere.py".into()));
    }
}

fn base(g: &mut G, tree: BTreeMap<String, Node>) -> Scenario {
    let ncpu = g.num(&[1, 2, 3, 4, 8, 12, 16]) as usize;
    let nphys = if g.p(50) { ncpu } else { (ncpu / 2).max(1) };
    let mut tree = tree;
    if g.p(12) {
        // what lies above the root is none of rtest's business
        let text = g.pick(&["[project]\nname='up'\n", "", "[tool.pytest.ini_options]\ntestpaths = [\"elsewhere\"]\npython_files = [\"nothing_*.py\"]\n"]);
        tree.insert("pyproject.toml".into(), Node::Text(text.into()));
    }
    let mut e = BTreeMap::new();
    if g.p(50) {
        e.insert("KEEP_ME".to_string(), "kept value".to_string());
        e.insert("EMPTY".to_string(), String::new());
    }
    Scenario {
        tree,
        runs: vec![Run { cwd: "/sim/w/proj".into(), style: g.r.next() as u8 & 0x7f, ..Default::default() }],
        ncpu,
        nphys,
        pipe_cap: g.num(&[64, 512, 4096, 65536]) as usize,
        env: e,
        ..Default::default()
    }
}

fn count(g: &mut G) -> Option<String> {
    Some(match g.r.below(10) {
        0 => return None,
        1 => "0".into(),
        2 => "1".into(),
        3 => "auto".into(),
        4 => "logical".into(),
        5 => if g.p(15) { g.num(&[33, 70, 150, 256, 300, 1000]) } else { g.n(11, 24) }.to_string(),
        _ => g.n(2, 6).to_string(),
    })
}
const DISTS: [&str; 5] = ["load", "loadscope", "loadfile", "worksteal", "no"];

fn options(g: &mut G, run: &mut Run, parallel: bool) {
    run.n = count(g);
    if parallel {
        run.n = Some(if g.p(20) { g.n(11, 20).to_string() } else { g.n(2, 8).to_string() });
    }
    if g.p(20) {
        run.max = Some(g.num(&[0, 1, 2, 3, 5, 20]) as usize);
        if parallel {
            run.max = Some(g.n(2, 9) as usize);
        }
    }
    if g.p(75) {
        run.dist = Some(g.pick(&DISTS).to_string());
        if parallel && run.dist.as_deref() == Some("no") {
            run.dist = None;
        }
    }
}

fn paths(g: &mut G, sc: &Scenario, odd: bool) -> Vec<String> {
    let all: Vec<String> = sc.tree.keys().filter(|k| k.starts_with("proj/") && k.ends_with(".py")).map(|k| k[5..].to_string()).collect();
    let mut dirs: Vec<String> = all.iter().filter_map(|f| f.rsplit_once('/').map(|x| x.0.to_string())).collect();
    dirs.sort();
    dirs.dedup();
    let mut v = vec![];
    for _ in 0..g.n(1, 4) {
        let mut p = if !dirs.is_empty() && g.p(40) { dirs[g.r.below(dirs.len() as u64) as usize].clone() } else { all[g.r.below(all.len() as u64) as usize].clone() };
        if odd {
            match g.r.below(8) {
                0 => p = format!("./{p}"),
                1 => p = format!("/sim/w/proj/{p}"),
                2 => p = ".".into(),
                3 if dirs.iter().any(|d| !d.contains('/')) => {
                    let d = dirs.iter().find(|d| !d.contains('/')).unwrap().clone();
                    p = format!("{d}/../{p}");
                }
                _ => {}
            }
        }
        v.push(p);
    }
    v
}

/// Configure which names are tests, and rename some of what is there so that it matters. Before behaviours are assigned.
fn patterns(g: &mut G, sc: &mut Scenario) {
    let mut c = sc.cfg.take().unwrap_or_default();
    c.strings = g.num(&[0, 0, 0, 1, 2]);
    if g.p(60) && c.python_files.is_empty() {
        c.python_files = match g.r.below(6) {
            0 => vec!["check_*.py".into(), "test_*.py".into()],
            1 => vec!["check_*.py".into()],
            2 => vec!["*_spec.py".into(), "*_test.py".into()],
            3 => vec!["*".into()],
            4 => vec!["test_*".into(), "check_?.py".into()],
            _ => vec!["[a-cs-z]*.py".into()],
        };
    }
    if g.p(60) {
        c.python_classes = (0..g.n(1, 3)).map(|_| g.pick(&["Test*", "Check*", "*Suite", "T?st*", "Tést*", "A B*", "[A-Z]*", "TestB", "*In", "*"]).to_string()).collect();
    }
    if g.p(60) {
        c.python_functions = (0..g.n(1, 3)).map(|_| g.pick(&["test*", "check_*", "it_*", "*_spec", "should *", "[a-z]*", "test_[0-2]*", "*"]).to_string()).collect();
    }
    let old = std::mem::take(&mut sc.tree);
    for (p, n) in old {
        let mut q = p.clone();
        if p.ends_with(".py") && g.p(30) && matches!(n, Node::Py(_)) {
            let (d, f) = p.rsplit_once('/').unwrap();
            q = format!("{d}/{}", match g.r.below(4) {
                0 => format!("check_{}", f.trim_start_matches("test_")),
                1 => format!("{}_spec.py", f.trim_end_matches(".py")),
                2 => "check_1.py".to_string(),
                _ => format!("{f}.py"),
            });
        }
        let n = match n {
            Node::Py(v) => {
                let mut w: Vec<String> = vec![];
                for t in v {
                    let t = match g.r.below(5) {
                        0 => t.replacen("test_", "check_", 1),
                        1 => t.replacen("test_", "it_", 1),
                        2 => t.replacen("TestA::", "CheckA::", 1).replacen("TestB::", "BSuite::", 1),
                        _ => t,
                    };
                    if !w.contains(&t) {
                        w.push(t);
                    }
                }
                Node::Py(w)
            }
            n => n,
        };
        // a link keeps naming something that exists, or not: both happen
        sc.tree.entry(q).or_insert(n);
    }
    if g.p(40) {
        let f = g.pick(&["proj/test_note.txt", "proj/test_0.py.orig", "proj/check_1"]);
        sc.tree.insert(f.into(), Node::Text("#@test test_h\n".into()));
    }
    sc.tree.remove("proj/pyproject.toml");
    if g.p(25) && c.testpaths.is_empty() {
        c.testpaths = paths(g, sc, false);
        if g.p(20) {
            c.testpaths.push("no_such_dir".into());
        }
    }
    sc.cfg = Some(c);
    keep_nonempty(sc);
    let run = sc.runs[0].clone();
    if collect_model(sc, &run).tests.is_empty() {
        sc.cfg = None;
        keep_nonempty(sc);
    }
}

fn keys(sc: &Scenario) -> Vec<(String, String)> {
    let mut v = vec![];
    for (f, n) in &sc.tree {
        if let Node::Py(t) | Node::Warn(t) = n {
            for x in t {
                v.push((f.clone(), x.clone()));
            }
        }
    }
    v
}

pub fn blob(g: &mut G, tag: &str, big: bool) -> Vec<Chunk> {
    let mut v = vec![];
    for _ in 0..g.n(0, 5) {
        let fd = if g.p(60) { 1 } else { 2 };
        let i = g.id();
        let mut c = Chunk { fd, ..Default::default() };
        match g.r.below(10) {
            0 => c.s = format!("{tag}.{i} no newline"),
            1 => c.s = format!("{tag}.{i}\n\n  \n"),
            2 => {
                // one character over two writes
                let b = "é漢😀".as_bytes();
                let k = g.n(1, b.len() as u64 - 1) as usize;
                c.hex = hex(&b[..k]);
                v.push(c.clone());
                c.hex = hex(&b[k..]);
            }
            3 => c.hex = format!("{}{}", hex(format!("{tag}.{i}").as_bytes()), g.pick(&["fffe", "c3", "e282", "f09f98", "00", "0d0a", "80"])),
            4 => c.s = format!("{tag}.{i} {}\n", "\u{fffd}é漢😀 \x1b[31mred\x1b[0m\r\n\t"),
            5 if big => {
                c.s = format!("{tag}.{i} line of output\n");
                c.rep = g.num(&[40, 400, 3000, 9000]) as u32;
                if g.p(2) {
                    c.rep = 60000;
                }
            }
            7 if g.p(50) => c.s = format!("{}{tag}.{i} after blanks", g.pick(&[" ", "\n", "\n\n\n", "\t  ", "\r\n"])),
            8 if big && g.p(60) => {
                // multi-byte text whose characters lie across every power of two
                c.s = format!("{}{}", "x".repeat(g.n(0, 2) as usize), "é漢😀");
                c.rep = g.num(&[500, 3700, 7400, 14700]) as u32;
            }
            6 => c.s = format!("{tag}.{i} FAILURES:\n==== 3 passed ====\n"),
            _ => c.s = format!("{tag}.{i} line\n"),
        }
        v.push(c);
    }
    v
}

fn pytest_behaviour(g: &mut G, sc: &mut Scenario, bad: u64, out: u64, big: bool, spawn: bool, kill: bool) {
    let ks = keys(sc);
    let only_one = g.p(40);
    let unlucky = g.r.below(ks.len() as u64) as usize;
    for (i, (f, t)) in ks.iter().enumerate() {
        let mut b = TestBeh::default();
        if g.p(out) {
            b.out = blob(g, &format!("o{i}"), big);
        }
        if g.p(20) {
            b.delay_us = g.n(1, 4000);
        }
        let hit = if only_one { i == unlucky && bad > 0 } else { g.p(bad) };
        if hit {
            match g.r.below(7) {
                0 | 1 => b.fail = true,
                2 => b.exit = Some(g.num(&[1, 2, 3, 4, 5, 77, 127, 255]) as i32),
                3 => b.crash = Some(-(g.num(&[1, 2, 3, 6, 7, 8, 9, 10, 11, 13, 14, 15, 24, 25, 31]) as i32)),
                4 => b.crash = Some(g.num(&[0, 1, 2, 134, 139]) as i32),
                5 if spawn => b.spawn = Some(g.num(&[2, 11, 12, 13, 7]) as i32),
                6 if kill => b.kill_us = g.n(1, 30000),
                _ => b.fail = true,
            }
        }
        if b.out.is_empty() && !hit && b.delay_us == 0 {
            continue;
        }
        sc.tests.insert(format!("{f}::{t}"), b);
    }
}

// ---- native ---------------------------------------------------------------------------------------------------------------

fn rec(g: &mut G, file: &str, i: u64, fail: u64, odd: bool) -> Rec {
    let tok = g.id();
    let rel = file.strip_prefix("proj/").unwrap_or(file);
    let mut id = match g.r.below(4) {
        0 => format!("{rel}::Test{tok}::test_{i}"),
        _ => format!("{rel}::test_{i}_{tok}"),
    };
    if g.p(25) {
        id.push_str(&format!("[{}]", g.pick(&PARAMS)));
    }
    let mut r = Rec { id, ascii: g.p(50), dur: g.n(0, 100000) as f64 / 8.0, ..Default::default() };
    r.outcome = if g.p(fail) {
        let o: &[&str] = if odd { &["failed", "error", "failed", "error", "weird", "Passed", ""] } else { &["failed", "error"] };
        g.pick(o).to_string()
    } else {
        g.pick(&["passed", "passed", "passed", "skipped"]).to_string()
    };
    if r.outcome == "failed" || r.outcome == "error" {
        match g.r.below(8) {
            0 => {
                r.reason = Some(match g.r.below(5) {
                    0 => format!("reason {tok} {}end {tok}", "and more ".repeat(g.num(&[20, 60, 300, 3000]) as usize)),
                    _ => format!("reason {tok}"),
                })
            }
            6 => {
                let lines = g.num(&[20, 60, 130, 350, 1200]);
                r.tb = Some((0..lines).map(|i| format!("{}line {i} {tok}\n", " ".repeat(i as usize % 7))).collect());
            }
            7 => r.tb = Some(format!("tb {tok} {}\n\tend {tok}", "long ".repeat(g.num(&[20, 60, 300, 3000]) as usize))),
            1 => {
                r.tb = Some(format!("tb {tok}\n\n  indented {tok}\n    deep é漢\n"));
                r.reason = Some(format!("not shown {tok}"));
            }
            2 => {}
            3 => {
                r.tb = Some(match g.r.below(5) {
                    0 => String::new(),
                    1 => format!("\n\n  lead {tok}\n"),
                    2 => format!("    deeply {tok}\n  less\n"),
                    3 => format!("tb {tok}  \n\n\n"),
                    _ => format!("\ttab {tok}\r\n \n"),
                })
            }
            4 => r.tb = Some(format!("tb {tok}\nFAILURES:\nERRORS:\n  other::id\n1 passed {tok}")),
            _ => r.tb = Some(format!("Traceback (most recent call last):\n  File \"x\"\nAssertionError: {tok}\n")),
        }
    } else if r.outcome == "skipped" && g.p(60) {
        r.reason = Some(format!("skip {tok}"));
    }
    if g.p(20) {
        r.out = format!("out {tok} é😀\"\\ \u{0} \u{7f}");
    }
    if g.p(4) {
        r.err = "x".repeat(if g.p(3) { 1200000 } else { g.num(&[100, 9000, 70000]) as usize });
    }
    r
}

fn native_files(sc: &Scenario) -> Vec<String> {
    sc.tree.iter().filter(|(_, n)| matches!(n, Node::Py(_))).map(|(p, _)| p.clone()).collect()
}

fn native_behaviour(g: &mut G, sc: &mut Scenario, fail: u64, odd: bool, noise: bool) {
    let all_good = g.p(25);
    let mut shared: Option<Rec> = None;
    for f in native_files(sc) {
        let mut b = FileBeh::default();
        let recs = if g.p(3) { g.num(&[20, 70, 140, 270, 600]) } else { g.n(0, 6) };
        for i in 0..recs {
            b.recs.push(rec(g, &f, i, if all_good { 0 } else { fail }, odd));
        }
        if g.p(6) && !b.recs.is_empty() {
            // the same id twice: in this file, or in several
            let k = g.r.below(b.recs.len() as u64) as usize;
            let mut r = b.recs[k].clone();
            if g.p(50) {
                r.outcome = g.pick(&["passed", "failed", "error", "skipped"]).to_string();
            }
            if g.p(50) {
                let s = shared.get_or_insert_with(|| r.clone()).clone();
                b.recs.push(s);
            } else {
                b.recs.push(r);
            }
        }
        if noise && g.p(30) {
            b.out = blob(g, "w", true);
        }
        if g.p(30) {
            b.delay_us = g.n(1, 9000);
        }
        sc.files.insert(f, b);
    }
}

fn native(g: &mut G, files: u64) -> Scenario {
    let plain = g.p(40);
    let t = tree(g, &Shape { files, tests: 4, projects: 1, links: false, plain, dirs: 4 });
    let mut sc = base(g, t);
    sc.runs[0].native = true;
    options(g, &mut sc.runs[0], false);
    if g.p(60) {
        sc.runs[0].n = Some(g.n(2, 14).to_string());
    }
    if g.p(1) {
        // very many workers
        let n = g.num(&[34, 66, 102, 130]);
        for i in 0..n + g.n(0, 5) {
            sc.tree.insert(format!("proj/many/test_{i}.py"), Node::Py(vec!["test_0".into()]));
        }
        sc.runs[0].n = Some(n.to_string());
        sc.runs[0].max = None;
    }
    sc.runs[0].dist = None;
    sc
}

fn native_fault(g: &mut G) -> NFault {
    let st = |g: &mut G| g.num(&[0, 1, 2, 3, 5, 70, 120, 134, 139, 255]) as i32;
    let sig = |g: &mut G| -(g.num(&[6, 9, 11, 15, 7, 1, 2, 3, 8, 13, 14, 24, 25, 31]) as i32);
    match g.r.below(14) {
        12 | 13 => NFault::Mangle(g.n(0, 11) as u32, g.n(0, 7) as u32),
        0 => NFault::CrashBefore(st(g)),
        1 => NFault::CrashBefore(sig(g)),
        2 => NFault::CrashWriting(g.n(0, 1000) as u32, sig(g)),
        3 => NFault::CrashWriting(g.n(0, 1000) as u32, st(g)),
        4 | 5 => NFault::Cut(g.n(1, 999) as u32),
        6 => NFault::Garbage(g.pick(&["garbage", "{\"nodeid\": \"x\"}", "null", "[]", "{}", "{\"nodeid\": 3, \"outcome\": \"passed\", \"duration_ms\": 1}", "Traceback (most recent call last):", "{\"nodeid\": \"x\", \"outcome\": \"passed\", \"duration_ms\": NaN}"]).to_string()),
        7 => NFault::NoFile,
        8 => NFault::Exit(st(g)),
        9 => NFault::Removed,
        10 => NFault::IsDir,
        _ => NFault::ReadErr(g.pick(&["open", "read"]).to_string(), g.num(&[5, 13, 12]) as i32, g.n(0, 1) as u32),
    }
}

// ---- the properties ---------------------------------------------------------------------------------------------------------

/// The scenario, and the environments to run it under.
pub fn gen(prop: &str, g: &mut G) -> (Scenario, Vec<EnvSeeds>) {
    let mut sc = match prop {
        "C01" => c01(g),
        "C02" => c02(g),
        "C03" => c03(g),
        "C04" => c04(g),
        "C05" | "C06" => c05(g, prop == "C06"),
        "C07" => c07(g),
        "C08" => c08(g),
        "C09" => c09(g),
        "C10" => c10(g),
        "C11" => c11(g),
        "C12" => c12(g),
        "C13" => c13(g),
        "C19" => c19(g),
        other => panic!("no generator for {other}"),
    };
    if matches!(prop, "C05" | "C07" | "C09" | "C10" | "C13" | "C19") && !sc.api && !sc.runs[0].native && sc.runs.len() == 1 && g.p(6) {
        embed(g, &mut sc);
    } else if matches!(prop, "C06" | "C07" | "C08" | "C09" | "C11" | "C13") && sc.runs.len() == 1 && !sc.runs[0].native && g.p(if prop == "C13" { 20 } else { 8 }) {
        sc.api = true;
    }
    if g.p(5) {
        stall(g, &mut sc);
    }
    let mut envs = vec![env(g)];
    if matches!(prop, "C03" | "C04" | "C10" | "C19" | "C08") {
        envs.push(env(g));
    }
    if prop == "C04" || prop == "C19" {
        // one listing in plain order to compare with
        if g.p(30) {
            envs[1].dir = 0;
        }
    }
    if sc.pipe_cap < 512 {
        // tiny pipes with a lot of output only cost steps
        for b in sc.tests.values_mut() {
            for c in b.out.iter_mut() {
                c.rep = c.rep.min(100);
            }
        }
        for b in sc.files.values_mut() {
            for c in b.out.iter_mut() {
                c.rep = c.rep.min(100);
            }
        }
    }
    (sc, envs)
}

/// A native run whose workers, one file each, leave given results and end in a given way.
pub fn fed(g: &mut G, workers: &[serde_json::Value]) -> (Scenario, Vec<EnvSeeds>) {
    let mut t = BTreeMap::new();
    for i in 0..workers.len() {
        t.insert(format!("proj/test_{i:03}.py"), Node::Py(vec!["test_0".into()]));
    }
    let mut sc = base(g, t);
    sc.runs[0].native = true;
    sc.runs[0].n = Some((workers.len() as u64 + g.n(0, 2)).to_string());
    for (i, w) in workers.iter().enumerate() {
        let mut b = FileBeh { delay_us: g.num(&[0, 0, 500, 20000]), ..Default::default() };
        if let Some(e) = w["err"].as_str().filter(|e| !e.is_empty()) {
            b.out.push(Chunk { fd: 2, s: e.to_string(), hex: String::new(), rep: 1 });
        }
        b.fault = Some(NFault::Raw(w["hex"].as_str().map(|h| h.to_string()), w["status"].as_i64().unwrap() as i32));
        sc.files.insert(format!("proj/test_{i:03}.py"), b);
    }
    (sc, vec![env(g)])
}

fn any(g: &mut G, v: &[String]) -> String {
    v[g.r.below(v.len() as u64) as usize].clone()
}

/// While the files are looked up for the first, second or third time, something cannot be read.
fn lookup_fault(g: &mut G, sc: &mut Scenario) {
    let mut dirs: Vec<String> = Vfs::new(sc).dirs.iter().filter(|d| *d == "proj" || d.starts_with("proj/")).cloned().collect();
    dirs.push("proj".into());
    let files = native_files(sc);
    let errno = g.num(&[5, 12, 23, 24, 116]) as i32;
    let (op, path) = match if sc.cfg.is_some() && g.p(50) { 5 } else { g.r.below(6) } {
        0 | 1 => ("opendir", any(g, &dirs)),
        2 => ("readdir", any(g, &dirs)),
        3 => ("stat", any(g, &dirs)),
        4 => ("stat", any(g, &files)),
        _ => {
            if sc.cfg.is_none() && !sc.tree.contains_key("proj/pyproject.toml") {
                sc.tree.insert("proj/pyproject.toml".into(), Node::Text("[project]\nname='r'\n".into()));
            }
            (g.pick(&["open", "read", "stat"]), "proj/pyproject.toml".to_string())
        }
    };
    sc.faults.push(FsFault { op: op.into(), path: format!("{W}/{path}"), errno, skip: g.num(&[0, 1, 1, 1, 2, 2, 3, 4, 6, 9]) as u32, times: g.num(&[0, 1, 1, 2]) as u32 });
}

fn c01(g: &mut G) -> Scenario {
    let mut sc = native(g, 9);
    let own = g.p(14);
    if own {
        patterns(g, &mut sc);
    }
    let fail = if g.p(75) { 0 } else { 10 };
    native_behaviour(g, &mut sc, fail, false, g.uid % 2 == 0);
    let files = native_files(&sc);
    // usually one broken worker among healthy ones, sometimes none, sometimes many
    let k = g.num(&[0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..k {
        let f = files[g.r.below(files.len() as u64) as usize].clone();
        let fault = native_fault(g);
        let b = sc.files.get_mut(&f).unwrap();
        match g.r.below(6) {
            0 => b.spawn = Some(g.num(&[2, 11, 12, 13, 7]) as i32),
            1 => b.kill_us = g.n(1, 40000),
            _ => b.fault = Some(fault),
        }
        if b.recs.is_empty() && g.p(80) {
            let r = rec(g, &f, 0, 0, false);
            sc.files.get_mut(&f).unwrap().recs.push(r);
        }
    }
    if g.p(if own { 25 } else { 7 }) {
        lookup_fault(g, &mut sc);
    }
    if g.p(6) {
        sc.thread_fail = Some(g.n(1, 4) as u32);
    }
    if g.p(5) {
        sc.faults.push(FsFault { op: "mkdir".into(), path: "*".into(), errno: g.num(&[28, 13, 17]) as i32, skip: 0, times: g.num(&[0, 1, 3]) as u32 });
    }
    if g.p(8) {
        sc.faults.push(FsFault { op: "pipe".into(), path: "pipe".into(), errno: 24, skip: g.n(0, 5) as u32, times: 1 });
    }
    if g.p(5) {
        sc.faults.push(FsFault { op: "wait".into(), path: "wait".into(), errno: 10, skip: g.n(0, 3) as u32, times: g.num(&[0, 1]) as u32 });
    }
    sc
}

fn c02(g: &mut G) -> Scenario {
    let mut sc = native(g, 10);
    let fail = g.num(&[10, 30, 60]);
    native_behaviour(g, &mut sc, fail, true, true);
    if g.p(8) {
        // a worker whose status forgets its failures
        let files = native_files(&sc);
        let f = files[g.r.below(files.len() as u64) as usize].clone();
        if sc.files[&f].recs.iter().any(|r| r.outcome == "failed") {
            sc.files.get_mut(&f).unwrap().fault = Some(NFault::Exit(0));
        }
    }
    sc
}

fn c03(g: &mut G) -> Scenario {
    let mut sc = native(g, 16);
    sc.runs[0].n = count(g);
    if g.p(40) {
        sc.runs[0].paths = paths(g, &sc, false);
        keep_nonempty(&mut sc);
    }
    native_behaviour(g, &mut sc, 10, false, false);
    let files = native_files(&sc);
    if g.p(40) {
        for _ in 0..g.n(1, 3) {
            let f = files[g.r.below(files.len() as u64) as usize].clone();
            let e = g.num(&[2, 11, 12, 13]) as i32;
            let fault = native_fault(g);
            let b = sc.files.get_mut(&f).unwrap();
            if g.p(60) {
                b.spawn = Some(e)
            } else {
                b.fault = Some(fault)
            }
        }
    }
    sc
}

/// Make sure the command line gets past collection.
fn keep_nonempty(sc: &mut Scenario) {
    let run = sc.runs[0].clone();
    if collect_model(sc, &run).tests.is_empty() {
        sc.runs[0].paths.clear();
        if collect_model(sc, &sc.runs[0].clone()).tests.is_empty() {
            sc.tree.insert("proj/test_a.py".into(), Node::Py(vec!["test_0".into()]));
        }
    }
}

fn c04(g: &mut G) -> Scenario {
    let mut sc = native(g, 12);
    let extra: [(&str, Node); 38] = [
        ("proj/test_x.py.bak", Node::Text("#@test test_h\n".into())),
        ("proj/test_x.PY", Node::Text("#@test test_h\n".into())),
        ("proj/test_noext", Node::Text("#@test test_h\n".into())),
        ("proj/pkg/test_py", Node::Text("#@test test_h\n".into())),
        ("proj/__tests__/test_u.py", Node::Py(vec!["test_u".into()])),
        ("proj/__init__.py", Node::Text("".into())),
        ("proj/__test_.py/test__.py", Node::Py(vec!["test_u".into()])),
        ("proj/d1/d2/d3/d4/d5/d6/d7/test_deepest.py", Node::Py(vec!["test_u".into()])),
        ("proj/.hidden/test_h.py", Node::Py(vec!["test_h".into()])),
        ("proj/.test_dot.py", Node::Py(vec!["test_h".into()])),
        ("proj/__pycache__/test_p.py", Node::Py(vec!["test_h".into()])),
        ("proj/pkg/__pycache__/test_p.py", Node::Py(vec!["test_h".into()])),
        ("proj/notatest.py", Node::Text("".into())),
        ("proj/test_x.txt", Node::Text("#@test test_h\n".into())),
        ("proj/test_x.pyc", Node::Text("".into())),
        ("proj/testing.py", Node::Text("".into())),
        ("proj/check_a.py", Node::Text("".into())),
        ("proj/pkg/check_b.py", Node::Text("".into())),
        ("proj/sub/x_test.py", Node::Text("".into())),
        ("proj/sub/test_dir.py/test_in.py", Node::Text("".into())),
        ("proj/empty", Node::Dir),
        ("proj/a/b/c/d/test_deep.py", Node::Text("".into())),
        ("proj/a-b/test_q.py", Node::Text("".into())),
        ("proj/a/test_q.py", Node::Text("".into())),
        ("proj/test_l.py", Node::Link("/sim/w/proj/notatest.py".into())),
        ("proj/linked.py", Node::Link("/sim/w/proj/test_a.py".into())),
        ("proj/d1/test_m.py", Node::Link("../test_a.py".into())),
        ("proj/test_gone.py", Node::Link("nowhere.py".into())),
        ("proj/test_pyd.py", Node::Link("/sim/w/proj/a".into())),
        ("proj/zl", Node::Link("/sim/w/proj/a-b".into())),
        ("proj/.zl", Node::Link("/sim/w/proj/a-b".into())),
        ("proj/.venv", Node::Link("/sim/w/proj/a".into())),
        ("proj/pkg/node_modules", Node::Link("/sim/w/proj/a-b".into())),
        ("proj/build/test_i.py", Node::Py(vec!["test_h".into()])),
        ("proj/pkg/venv/lib/test_i.py", Node::Py(vec!["test_h".into()])),
        ("proj/node_modules/x/test_i.py", Node::Py(vec!["test_h".into()])),
        ("proj/x.egg/test_i.py", Node::Py(vec!["test_h".into()])),
        ("proj/dist/test_i.py", Node::Py(vec!["test_h".into()])),
    ];
    for (p, n) in extra.iter() {
        if g.p(30) {
            sc.tree.insert(p.to_string(), n.clone());
        }
    }
    if g.p(25) {
        let mut dirs: Vec<String> = sc.tree.keys().filter(|k| k.ends_with(".py")).map(|k| k.rsplit_once('/').unwrap().0.to_string()).collect();
        dirs.sort();
        dirs.dedup();
        dirs.retain(|d| d != "proj" && !d.contains("/a") && !d.contains("zl"));
        dirs.insert(0, "proj".into());
        let mut t = std::mem::take(&mut sc.tree);
        links(g, &mut t, &dirs);
        sc.tree = t;
    }
    sc.tree.entry("proj/test_a.py".into()).or_insert(Node::Py(vec!["test_0".into()]));
    if let Some(Node::Py(v)) = sc.tree.get_mut("proj/test_a.py") {
        if v.is_empty() {
            v.push("test_0".into());
        }
    }
    if g.p(45) {
        sc.runs[0].paths = paths(g, &sc, true);
        if g.p(20) && sc.tree.contains_key("proj/.hidden/test_h.py") {
            sc.runs[0].paths.push(".hidden".into());
        }
        if g.p(20) && sc.tree.contains_key("proj/__pycache__/test_p.py") {
            sc.runs[0].paths.push("__pycache__/test_p.py".into());
        }
        if g.p(30) && sc.tree.contains_key("proj/build/test_i.py") {
            sc.runs[0].paths.push("build".into());
        }
        if g.p(15) {
            sc.runs[0].paths.push("test_a.py".into());
            sc.runs[0].paths.push("test_a.py".into());
        }
    }
    if g.p(30) {
        let mut c = ProjCfg::default();
        if g.p(60) {
            c.python_files = match g.r.below(6) {
                0 => vec!["check_*.py".into(), "test_*.py".into()],
                1 => vec!["*.py".into()],
                2 => vec!["test_*.py".into()],
                3 => vec!["test_*".into()],
                4 => vec!["*".into()],
                _ => vec!["*_test.py".into(), "test_?.py".into()],
            };
        }
        if g.p(50) && sc.runs[0].paths.is_empty() {
            let p = paths(g, &sc, false);
            c.testpaths = p;
        }
        c.strings = g.num(&[0, 0, 0, 1, 2]);
        sc.tree.remove("proj/pyproject.toml");
        sc.cfg = Some(c);
        if g.p(50) {
            patterns(g, &mut sc);
        }
    }
    if g.p(10) {
        // the project itself lives in a directory that would be skipped further down
        let name = g.pick(&[".proj", "build", "venv", "__pycache__", ".a/proj"]);
        let old = std::mem::take(&mut sc.tree);
        for (p, n) in old {
            let n = match n {
                Node::Link(t) => Node::Link(t.replace("/sim/w/proj/", &format!("/sim/w/{name}/"))),
                n => n,
            };
            sc.tree.insert(p.replacen("proj/", &format!("{name}/"), 1), n);
        }
        sc.runs[0].cwd = format!("/sim/w/{name}");
        for p in sc.runs[0].paths.iter_mut() {
            *p = p.replace("/sim/w/proj/", &format!("/sim/w/{name}/"));
        }
    }
    let run = sc.runs[0].clone();
    if collect_model(&sc, &run).tests.is_empty() {
        sc.runs[0].paths.clear();
        if let Some(c) = sc.cfg.as_mut() {
            c.testpaths.clear();
        }
    }
    sc
}

/// The same through the function `run_tests`: everything below the root, one process per project.
fn embed(g: &mut G, sc: &mut Scenario) {
    let cwd = sc.runs[0].cwd.clone();
    let (up, name) = cwd.rsplit_once('/').map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
    let e = match g.n(0, 10) {
        // the same directory, spelled through a link or '..'
        6 | 7 => {
            let at = if g.p(50) { "/sim/w".to_string() } else { up.clone() };
            let link = format!("{at}/link to it");
            let target = if at == up && g.p(50) { name } else { cwd.clone() };
            sc.tree.insert(link["/sim/w/".len()..].to_string(), Node::Link(target));
            match g.n(0, 4) {
                0 => Embed { from: up, args: Some(vec![link]) },
                1 => Embed { from: at, args: Some(vec!["link to it".into()]) },
                2 => Embed { from: at, args: Some(vec!["link to it/".into()]) },
                _ => Embed { from: cwd.clone(), args: Some(vec![link]) },
            }
        }
        8 => Embed { from: cwd.clone(), args: Some(vec![format!("../{name}")]) },
        9 => Embed { from: up, args: Some(vec![format!("{name}/../{name}/.")]) },
        0 => Embed { from: cwd.clone(), args: None },
        1 => Embed { from: cwd.clone(), args: Some(vec![]) },
        2 => Embed { from: cwd.clone(), args: Some(vec![".".into()]) },
        3 => Embed { from: up, args: Some(vec![cwd.clone()]) },
        4 => Embed { from: up, args: Some(vec![format!("./{name}")]) },
        _ => Embed { from: up, args: Some(vec![name]) },
    };
    sc.runs[0] = Run { cwd, embed: Some(e), ..Default::default() };
}

fn c05(g: &mut G, scope: bool) -> Scenario {
    let with_patterns = g.p(15);
    let plain = g.p(30);
    let projects = g.num(&[0, 0, 1, 3]);
    let (files, tests) = if g.p(20) { (1, 30) } else { (10, 6) };
    let t = tree(g, &Shape { files, tests, projects, links: false, plain, dirs: 4 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], scope);
    if scope && g.p(85) {
        let m: &[&str] = if g.p(75) { &["loadscope", "loadfile"] } else { &["load", "worksteal"] };
        sc.runs[0].dist = Some(g.pick(m).to_string());
    }
    if g.p(25) {
        sc.runs[0].paths = paths(g, &sc, !scope);
        keep_nonempty(&mut sc);
    }
    if with_patterns {
        patterns(g, &mut sc);
    }
    let bad = if scope { 0 } else { g.num(&[0, 10, 40]) };
    pytest_behaviour(g, &mut sc, bad, 5, false, true, true);
    if !scope && !with_patterns && g.p(15) {
        sc.api = true;
        sc.flat = g.p(50);
        sc.runs[0].max = None;
    }
    sc
}

fn c07(g: &mut G) -> Scenario {
    let plain = g.p(60);
    let projects = g.num(&[0, 0, 1, 3]);
    let tests = g.num(&[1, 3, 6]);
    let t = tree(g, &Shape { files: 6, tests, projects, links: false, plain, dirs: 3 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], false);
    let bad = g.num(&[0, 5, 20, 60]);
    pytest_behaviour(g, &mut sc, bad, 10, false, true, true);
    if g.p(5) {
        sc.thread_fail = Some(g.n(1, 4) as u32);
    }
    if g.p(8) {
        sc.faults.push(FsFault { op: "pipe".into(), path: "pipe".into(), errno: 24, skip: g.n(0, 5) as u32, times: 1 });
    }
    if g.p(5) {
        sc.faults.push(FsFault { op: "wait".into(), path: "wait".into(), errno: 10, skip: g.n(0, 3) as u32, times: g.num(&[0, 1]) as u32 });
    }
    sc
}

fn c08(g: &mut G) -> Scenario {
    let projects = g.num(&[0, 0, 2]);
    let tests = g.num(&[3, 8, 20]);
    let t = tree(g, &Shape { files: 6, tests, projects, links: false, plain: true, dirs: 3 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], true);
    if g.p(50) {
        sc.runs[0].dist = None;
        sc.runs[0].n = Some(g.n(2, 24).to_string());
        sc.runs[0].max = None;
    }
    let big = g.p(50);
    let bad = g.num(&[0, 0, 8]);
    let spawn = g.p(50);
    pytest_behaviour(g, &mut sc, bad, 90, big, spawn, false);
    // every process says something that is its own
    for (i, (f, t)) in keys(&sc).iter().enumerate() {
        let b = sc.tests.entry(format!("{f}::{t}")).or_default();
        let nl = if i % 3 == 0 { "" } else { "\n" };
        let at = if g.p(70) { 0 } else { b.out.len() };
        b.out.insert(at, Chunk { fd: 1, s: format!("<{i}>{nl}"), ..Default::default() });
        if i % 2 == 0 {
            b.out.push(Chunk { fd: 2, s: format!("<<{i}>>{nl}"), ..Default::default() });
        }
        if g.p(3) {
            b.close = Some(g.n(1, 2) as u8);
        }
    }
    sc
}

fn c09(g: &mut G) -> Scenario {
    let plain = g.p(60);
    let l = g.p(45);
    let t = tree(g, &Shape { files: 8, tests: 3, projects: 5, links: l, plain, dirs: 6 });
    let mut sc = base(g, t);
    if g.p(60) && !sc.tree.keys().any(|k| k.ends_with("/sub/pyproject.toml")) {
        sc.tree.insert("proj/sub/pyproject.toml".into(), Node::Text("[project]\n".into()));
        sc.tree.insert("proj/sub/test_s.py".into(), Node::Py(vec!["test_s".into(), "TestS::test_t[a/b::c]".into(), "TestS::test_t[x.py::y]".into(), "test_u[sub/z.py]".into()]));
    }
    if g.p(15) {
        // links that lead out of the project
        for (p, n) in [
            ("proj2/test_o.py", Node::Py(vec!["test_o".into(), "TestO::test_p[a::b]".into()])),
            ("proj2/in/test_q.py", Node::Py(vec!["test_q".into()])),
            ("proj2/pyproject.toml", Node::Text("[project]\n".into())),
            ("proj/ext", Node::Link("/sim/w/proj2/in".into())),
            ("proj/test_ext.py", Node::Link("../proj2/test_o.py".into())),
            ("proj/sub/ext", Node::Link("/sim/w/proj2".into())),
        ] {
            if g.p(75) || p == "proj2/test_o.py" {
                sc.tree.insert(p.into(), n);
            }
        }
    }
    options(g, &mut sc.runs[0], false);
    if g.p(30) {
        let odd = g.p(50);
        sc.runs[0].paths = paths(g, &sc, odd);
        keep_nonempty(&mut sc);
    }
    if g.p(25) {
        let ks = keys(&sc);
        let (f, _) = ks[g.r.below(ks.len() as u64) as usize].clone();
        sc.faults.push(FsFault { op: "realpath".into(), path: format!("{W}/{f}"), errno: g.num(&[5, 13, 40]) as i32, skip: g.n(0, 2) as u32, times: g.num(&[0, 1]) as u32 });
    }
    pytest_behaviour(g, &mut sc, 3, 3, false, false, false);
    sc
}

fn c10(g: &mut G) -> Scenario {
    if g.p(40) {
        let mut sc = native(g, 9);
        native_behaviour(g, &mut sc, 20, true, true);
        let files = native_files(&sc);
        for _ in 0..g.num(&[0, 0, 1, 2, 4]) {
            let f = files[g.r.below(files.len() as u64) as usize].clone();
            let fault = native_fault(g);
            let b = sc.files.get_mut(&f).unwrap();
            if g.p(15) {
                b.spawn = Some(g.num(&[2, 11, 12]) as i32);
            } else if !matches!(fault, NFault::ReadErr(..)) {
                b.fault = Some(fault);
                if g.p(50) {
                    b.out.push(Chunk { fd: 2, s: format!("trouble in {f}\n"), ..Default::default() });
                }
            }
        }
        return sc;
    }
    let plain = g.p(60);
    let projects = g.num(&[0, 2, 5]);
    let t = tree(g, &Shape { files: 9, tests: 5, projects, links: false, plain, dirs: 6 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], false);
    if g.p(12) {
        // a collection with errors and warnings
        let files = native_files(&sc);
        for f in &files {
            match g.r.below(6) {
                0 | 1 => {
                    sc.tree.insert(f.clone(), Node::Bad(format!("invalid syntax {}", g.id())));
                }
                2 => {
                    sc.tree.insert(f.clone(), Node::Warn(vec!["test_w".into(), "test_v".into()]));
                }
                3 => sc.faults.push(FsFault { op: "open".into(), path: format!("{W}/{f}"), errno: 13, skip: 0, times: 0 }),
                _ => {}
            }
        }
        sc.runs[0].collect_only = g.p(30);
        if !keys(&sc).is_empty() {
            pytest_behaviour(g, &mut sc, 0, 20, false, false, false);
        }
        return sc;
    }
    let bad = g.num(&[0, 15]);
    pytest_behaviour(g, &mut sc, bad, 40, false, true, false);
    sc
}

fn c11(g: &mut G) -> Scenario {
    if g.p(35) {
        let mut sc = native(g, 9);
        native_behaviour(g, &mut sc, 10, false, true);
        for f in native_files(&sc) {
            let b = sc.files.get_mut(&f).unwrap();
            if g.p(50) {
                b.out = heavy(g);
            }
        }
        sc.barrier = g.p(50);
        if !sc.barrier && g.p(30) {
            let files = native_files(&sc);
            let f = files[g.r.below(files.len() as u64) as usize].clone();
            let b = sc.files.get_mut(&f).unwrap();
            match g.r.below(3) {
                0 => b.spawn = Some(11),
                1 => b.kill_us = g.n(1, 20000),
                _ => b.fault = Some(NFault::CrashBefore(-9)),
            }
        }
        if !sc.barrier {
            creation_fails(g, &mut sc);
        }
        return sc;
    }
    let projects = g.num(&[0, 0, 2]);
    let tests = g.num(&[2, 6]);
    let t = tree(g, &Shape { files: 5, tests, projects, links: false, plain: true, dirs: 3 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], true);
    if g.p(25) {
        sc.runs[0].n = count(g);
    }
    pytest_behaviour(g, &mut sc, 4, 10, false, true, true);
    for (f, t) in keys(&sc) {
        if g.p(40) {
            let b = sc.tests.entry(format!("{f}::{t}")).or_default();
            b.out = heavy(g);
            if g.p(5) {
                b.close = Some(g.n(1, 2) as u8);
            }
        }
    }
    // within one project its processes may wait for one another
    let single = !sc.tree.keys().any(|k| k != "proj/pyproject.toml" && k.ends_with("pyproject.toml"));
    let par = sc.runs[0].workers(sc.ncpu, sc.nphys) > 1 && sc.runs[0].dist.as_deref() != Some("no");
    sc.barrier = single && par && g.p(60);
    if !sc.barrier {
        creation_fails(g, &mut sc);
    }
    sc
}

/// A thread or a pipe that cannot be created.
fn creation_fails(g: &mut G, sc: &mut Scenario) {
    if g.p(8) {
        sc.thread_fail = Some(g.n(1, 6) as u32);
    }
    if g.p(8) {
        sc.faults.push(FsFault { op: "pipe".into(), path: "pipe".into(), errno: 24, skip: g.n(0, 9) as u32, times: g.num(&[0, 1, 2]) as u32 });
    }
}

fn heavy(g: &mut G) -> Vec<Chunk> {
    let mut v = vec![];
    for _ in 0..g.n(1, 6) {
        let fd = if g.p(50) { 1 } else { 2 };
        let i = g.id();
        v.push(Chunk { fd, s: format!("{i} a line of output that fills the pipe\n"), rep: g.num(&[1, 20, 200, 4000]) as u32, ..Default::default() });
    }
    v
}

fn c12(g: &mut G) -> Scenario {
    let mut sc = native(g, 8);
    // always enough files for the two runs to differ
    for f in ["proj/test_a.py", "proj/test_b.py", "proj/test_z.py"] {
        sc.tree.insert(f.into(), Node::Py(vec!["test_0".into()]));
    }
    let fail = g.num(&[0, 30]);
    native_behaviour(g, &mut sc, fail, false, false);
    for b in sc.files.values_mut() {
        if b.recs.is_empty() {
            b.delay_us = 1;
        }
    }
    let files = native_files(&sc);
    if g.p(40) {
        let f = files[g.r.below(files.len() as u64) as usize].clone();
        let fault = native_fault(g);
        let b = sc.files.get_mut(&f).unwrap();
        match g.r.below(4) {
            0 => b.kill_us = g.n(1, 20000),
            1 => b.spawn = Some(11),
            _ => b.fault = Some(fault),
        }
    }
    if g.p(75) {
        let mut second = sc.runs[0].clone();
        second.n = Some(g.n(1, 6).to_string());
        if g.p(70) {
            second.paths = vec!["test_a.py".into()];
            if g.p(50) {
                sc.runs[0].paths = vec!["test_b.py".into(), "test_z.py".into()];
            }
        }
        sc.runs.push(second);
    }
    if g.p(6) {
        sc.thread_fail = Some(g.n(1, 6) as u32);
    }
    match g.r.below(5) {
        0 => sc.stale = true,
        1 => sc.faults.push(FsFault { op: "mkdir".into(), path: "*".into(), errno: g.num(&[17, 17, 13, 28, 30]) as i32, skip: 0, times: g.n(1, 3) as u32 }),
        _ => {}
    }
    if g.p(30) {
        let line = format!("{{\"nodeid\": \"stale\", \"outcome\": \"failed\", \"duration_ms\": 1.0, \"error\": null}}\n");
        for n in ["rtest-old/worker-0.jsonl", "rtest/worker-0.jsonl", "rtest-/worker-1.jsonl", "worker-0.jsonl", "rtest-500/worker-0.jsonl", "rtest-501/worker-0.jsonl"] {
            sc.tmp.insert(n.into(), Node::Text(line.clone()));
        }
    }
    if g.p(15) {
        // the pytest runner leaves the project alone, too
        sc.runs.truncate(1);
        sc.runs[0].native = false;
        sc.files.clear();
        sc.faults.clear();
        pytest_behaviour(g, &mut sc, 10, 20, false, true, false);
    }
    sc
}

fn c13(g: &mut G) -> Scenario {
    let native_run = g.p(35);
    let t = tree(g, &Shape { files: 7, tests: 5, projects: 2, links: false, plain: false, dirs: 5 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], false);
    sc.env.insert("INHERITED".into(), g.pick(&["x", "a=b", "", "é 漢", "two words"]).to_string());
    sc.env.insert("PYTHONPATH".into(), "/sim/home/lib:/x".into());
    if g.p(25) {
        // an environment need not be UTF-8
        let (k, x) = *g.pick2(&[("LATIN", &b"caf\xe9"[..]), ("B\u{10ffe9}", b"v"), ("RAW", b"\xff\xfe=\x80 \xc3"), ("MULTI", b"a\nb=c\n")]);
        sc.env.insert(k.into(), from_bytes(x));
    }
    if native_run {
        sc.runs[0].native = true;
        sc.runs[0].dist = None;
        if g.p(70) {
            patterns(g, &mut sc);
        }
        native_behaviour(g, &mut sc, 10, false, false);
    } else {
        let pool = ["A=1", "B=two words", "C=a=b=c", "D=", "PATHLIKE=/a:/b", "É=ü", "Q='\"`$HOME`", "A=2", "KEEP_ME=changed", "INHERITED=over", "INHERITED=p=q", "KEEP_ME=", "INHERITED=", "EMPTY=now set", "LANG=", "PYTHONPATH=", "PYTHONPATH=/o=1:/p", "KEEP_ME==", "A=1=2", "E=--flag", "F= lead", "NOEQUALS", "bad entry", "G=x\ty", "lower=1", "T=trail  ", "NL=x\n", " K=v", "K =w", "U\u{a0}=\u{a0}v\u{a0}", "QUOTED=\"q\"", "EXP=${A}%B%~"];
        for _ in 0..g.num(&[0, 1, 3, 6]) {
            sc.runs[0].env.push(g.pick(&pool).to_string());
        }
        pytest_behaviour(g, &mut sc, 5, 5, false, false, false);
    }
    if g.p(20) {
        sc.runs[0].paths = paths(g, &sc, true);
        keep_nonempty(&mut sc);
    }
    if g.p(20) {
        let name = g.pick(&["my proj", "pröj", "p'q", "a=b", "x;y"]);
        let old = std::mem::take(&mut sc.tree);
        for (p, n) in old {
            sc.tree.insert(p.replacen("proj/", &format!("{name}/"), 1), n);
        }
        for m in [&mut sc.runs[0].paths] {
            for p in m.iter_mut() {
                *p = p.replace("/sim/w/proj/", &format!("/sim/w/{name}/"));
            }
        }
        let old = std::mem::take(&mut sc.tests);
        for (p, n) in old {
            sc.tests.insert(p.replacen("proj/", &format!("{name}/"), 1), n);
        }
        let old = std::mem::take(&mut sc.files);
        for (p, n) in old {
            sc.files.insert(p.replacen("proj/", &format!("{name}/"), 1), n);
        }
        sc.runs[0].cwd = format!("/sim/w/{name}");
    }
    sc
}

fn c19(g: &mut G) -> Scenario {
    let plain = g.p(40);
    let links = g.p(20);
    let t = tree(g, &Shape { files: 10, tests: 3, projects: 1, links, plain, dirs: 6 });
    let mut sc = base(g, t);
    options(g, &mut sc.runs[0], false);
    sc.runs[0].native = g.p(30);
    if sc.runs[0].native {
        sc.runs[0].dist = None;
    }
    if g.p(20) {
        patterns(g, &mut sc);
    }
    let files = native_files(&sc);
    let dirs: Vec<String> = Vfs::new(&sc).dirs.iter().filter(|d| d.starts_with("proj/")).cloned().collect();
    for _ in 0..g.num(&[0, 1, 1, 2, 3]) {
        let f = files[g.r.below(files.len() as u64) as usize].clone();
        match g.r.below(7) {
            0 => {
                sc.tree.insert(f, Node::Bad(format!("invalid syntax {}", g.id())));
            }
            1 => {
                sc.tree.insert(f, Node::Hex("ff23407465737420780a".into()));
            }
            2 | 3 => {
                let op = g.pick(&["open", "read"]).to_string();
                sc.faults.push(FsFault { op, path: format!("{W}/{f}"), errno: g.num(&[5, 13, 24, 12]) as i32, skip: 0, times: 0 });
            }
            4 | 5 if !dirs.is_empty() => {
                let d = dirs[g.r.below(dirs.len() as u64) as usize].clone();
                let op = g.pick(&["opendir", "readdir"]).to_string();
                let skip = if op == "readdir" { g.n(0, 2) as u32 } else { 0 };
                let e = g.num(&[5, 24, 12]) as i32;
                if skip == 0 || op == "opendir" || sc.tree.keys().filter(|k| k.starts_with(&format!("{d}/"))).count() as u32 >= skip {
                    sc.faults.push(FsFault { op, path: format!("{W}/{d}"), errno: e, skip, times: 0 });
                }
            }
            _ => {
                sc.tree.insert(format!("proj/test_bad{}.py", g.uid), Node::Bad("unexpected EOF".into()));
            }
        }
    }
    if g.p(25) {
        sc.tree.insert("proj/test_warn.py".into(), Node::Warn(vec!["test_w".into()]));
    }
    for (p, n) in [("proj/build/test_skip.py", 15), ("proj/.git/test_skip.py", 15), ("proj/node_modules/x/test_skip.py", 15), ("proj/x.egg/test_skip.py", 10), ("proj/__pycache__/test_c.py", 10)] {
        if g.p(n) {
            sc.tree.insert(p.into(), Node::Py(vec!["test_skipped".into()]));
        }
    }
    if g.p(35) {
        let odd = g.p(30);
        sc.runs[0].paths = paths(g, &sc, odd);
        if g.p(25) {
            sc.runs[0].paths.push("no/such/file.py".into());
        }
        if g.p(20) && sc.tree.contains_key("proj/build/test_skip.py") {
            sc.runs[0].paths.push("build".into());
        }
    }
    sc.runs[0].collect_only = g.p(30);
    if g.p(8) {
        // something cannot even be examined
        let mut all: Vec<String> = dirs.clone();
        all.extend(native_files(&sc));
        all.push("proj/sub".into());
        let path = format!("{W}/{}", any(g, &all));
        let mut dim = vec![path];
        if g.p(50) {
            // or some of what was asked for
            dim = sc.runs[0].paths.iter().map(|p| lexical(&join(&sc.runs[0].cwd, p))).collect();
            dim.dedup();
        }
        let (skip, times) = (g.num(&[0, 0, 1, 2, 3]) as u32, g.num(&[0, 0, 1, 2]) as u32);
        for path in dim {
            if !sc.faults.iter().any(|f| f.path == path) {
                sc.faults.push(FsFault { op: "stat".into(), path, errno: g.num(&[5, 12, 116]) as i32, skip, times });
            }
        }
    }
    if g.p(6) {
        // the configuration is of no use
        if g.p(50) {
            let c = sc.cfg.get_or_insert_with(Default::default);
            c.broken = Some(g.pick(&["\n[unclosed\n", "\n[tool.pytest.ini_options]\n", "\nx = \n", "\ny = [\"a\"\n", "\n<<<<<<< HEAD\n", "\nz = \"\u{1}\"\n", "\nk = 'a\n"]).to_string());
            sc.tree.remove("proj/pyproject.toml");
        } else if sc.cfg.is_some() || sc.tree.contains_key("proj/pyproject.toml") {
            let op = g.pick(&["open", "read"]).to_string();
            sc.faults.push(FsFault { op, path: format!("{W}/proj/pyproject.toml"), errno: g.num(&[5, 13, 12, 24]) as i32, skip: 0, times: g.num(&[0, 1]) as u32 });
        }
    }
    if g.p(50) {
        native_behaviour(g, &mut sc, 5, false, false);
    }
    sc
}
