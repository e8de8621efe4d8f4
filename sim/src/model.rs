//! Scenarios (what is on disk, what is asked for, how the test processes behave), the stand-in processes, and the
//! reference model of what a run over a scenario has to do.
use crate::kernel::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const W: &str = "/sim/w";
pub const PY: &str = "/sim/venv/bin/python";

fn is_false(b: &bool) -> bool {
    !*b
}
const BYTE: u32 = 0x10ff00;

/// Bytes as text, each byte that is no UTF-8 as a character of its own.
pub fn from_bytes(b: &[u8]) -> String {
    let mut t = String::new();
    for c in b.utf8_chunks() {
        t.push_str(c.valid());
        t.extend(c.invalid().iter().map(|x| char::from_u32(BYTE + *x as u32).unwrap()));
    }
    t
}
pub fn to_bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        match c as u32 {
            x @ BYTE..=0x10ffff => v.push((x - BYTE) as u8),
            _ => v.extend(c.to_string().bytes()),
        }
    }
    v
}

pub fn is_zero(n: &u64) -> bool {
    *n == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Chunk {
    pub fd: u8,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub s: String,
    /// bytes that are not text
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub hex: String,
    #[serde(default)]
    pub rep: u32,
}
impl Chunk {
    pub fn bytes(&self) -> Vec<u8> {
        let one = if self.hex.is_empty() { self.s.as_bytes().to_vec() } else { unhex(&self.hex) };
        let n = self.rep.max(1) as usize;
        let mut v = Vec::with_capacity(one.len() * n);
        for _ in 0..n {
            v.extend_from_slice(&one);
        }
        v
    }
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Node {
    /// test ids as the stand-in parser sees them
    Py(Vec<String>),
    Warn(Vec<String>),
    Bad(String),
    Text(String),
    Hex(String),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct TestBeh {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub out: Vec<Chunk>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub fail: bool,
    /// the process ends with this status after its last test
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub exit: Option<i32>,
    /// the process dies here: negative = signal, otherwise exit status
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<i32>,
    /// the process that would run this test cannot be started
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub spawn: Option<i32>,
    /// the process is killed from outside after this many microseconds
    #[serde(default, skip_serializing_if = "is_zero")]
    pub kill_us: u64,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub delay_us: u64,
    /// closes a standard stream
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub close: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Rec {
    pub id: String,
    pub outcome: String,
    pub dur: f64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tb: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub reason: Option<String>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub out: String,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub err: String,
    /// escape everything outside ASCII, as Python's json does
    #[serde(default)]
    pub ascii: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum NFault {
    /// dies before any result is written
    CrashBefore(i32),
    /// dies while writing: this many per mille of the results are on disk
    CrashWriting(u32, i32),
    /// the results end in the middle of a record although the worker ends normally
    Cut(u32),
    Garbage(String),
    /// (how, which record): what a lost or doubled write makes of one line
    Mangle(u32, u32),
    NoFile,
    /// ends with this status whatever the records say
    Exit(i32),
    Removed,
    IsDir,
    /// reading the results fails: operation, errno, successful calls before
    ReadErr(String, i32, u32),
    /// leaves exactly these results (hex; nothing: no file) and ends like this
    Raw(Option<String>, i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FileBeh {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub recs: Vec<Rec>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub out: Vec<Chunk>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub delay_us: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fault: Option<NFault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub spawn: Option<i32>,
    #[serde(default, skip_serializing_if = "is_zero")]
    pub kill_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Run {
    pub cwd: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub paths: Vec<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub n: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub max: Option<usize>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dist: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<String>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub collect_only: bool,
    #[serde(default)]
    pub native: bool,
    /// spelling of the options
    #[serde(default)]
    pub style: u8,
    /// called through the Python function `run_tests`, by a process that is elsewhere
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub embed: Option<Embed>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Embed {
    /// where the calling process is
    pub from: String,
    pub args: Option<Vec<String>>,
}

impl Run {
    pub fn argv(&self) -> Vec<String> {
        let mut a = vec![];
        let st = self.style;
        if let Some(n) = &self.n {
            match st % 4 {
                0 => a.extend(["-n".into(), n.clone()]),
                1 => a.push(format!("-n{n}")),
                2 => a.push(format!("--numprocesses={n}")),
                _ => a.extend(["--numprocesses".into(), n.clone()]),
            }
        }
        if let Some(m) = self.max {
            if st & 4 == 0 {
                a.push(format!("--maxprocesses={m}"))
            } else {
                a.extend(["--maxprocesses".into(), m.to_string()])
            }
        }
        if let Some(d) = &self.dist {
            if st & 8 == 0 {
                a.push(format!("--dist={d}"))
            } else {
                a.extend(["--dist".into(), d.clone()])
            }
        }
        for e in &self.env {
            if st & 16 == 0 {
                a.push(format!("--env={e}"))
            } else {
                a.push(format!("-e{e}"))
            }
        }
        if self.collect_only {
            a.push("--collect-only".into());
        }
        if self.native {
            a.extend(["--runner".into(), "native".into()]);
        } else if st & 32 != 0 {
            a.push("--runner=pytest".into());
        }
        if st & 64 != 0 {
            let p: Vec<String> = self.paths.clone();
            let mut b = p;
            if !a.is_empty() {
                b.extend(a);
            }
            return b;
        }
        a.extend(self.paths.clone());
        a
    }
    /// The number of workers in effect, given the machine.
    pub fn workers(&self, ncpu: usize, nphys: usize) -> usize {
        let want = match self.n.as_deref() {
            None => 1,
            Some("auto") => nphys,
            Some("logical") => ncpu,
            Some(x) => x.parse().unwrap_or(1),
        };
        let w = match self.max {
            Some(m) => want.min(m),
            None => want,
        };
        w.max(1)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ProjCfg {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub testpaths: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub python_files: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub python_classes: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub python_functions: Vec<String>,
    /// written as strings instead of lists where that means the same
    #[serde(default, skip_serializing_if = "is_zero")]
    pub strings: u64,
    /// what follows makes the whole file unparsable
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub broken: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Scenario {
    pub runs: Vec<Run>,
    /// paths relative to /sim/w
    pub tree: BTreeMap<String, Node>,
    /// keyed by "file::test", the file relative to /sim/w, links resolved
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub tests: BTreeMap<String, TestBeh>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub files: BTreeMap<String, FileBeh>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cfg: Option<ProjCfg>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<FsFault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub thread_fail: Option<u32>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub env: BTreeMap<String, String>,
    /// entries already in the temporary directory
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub tmp: BTreeMap<String, Node>,
    /// names the run created in the temporary directory in a rehearsal exist beforehand, with stale contents
    #[serde(default, skip_serializing_if = "is_false")]
    pub stale: bool,
    pub ncpu: usize,
    pub nphys: usize,
    pub pipe_cap: usize,
    #[serde(default, skip_serializing_if = "is_false")]
    pub barrier: bool,
    /// drive the library functions instead of the command line
    #[serde(default, skip_serializing_if = "is_false")]
    pub api: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub flat: bool,
}

// ---- building ----------------------------------------------------------------------------------------------------------

pub fn py_text(tests: &[String], warns: &[String]) -> String {
    let mut t = String::from("import rtest\n");
    for x in tests {
        t.push_str(&format!("#@test {x}\n"));
    }
    for x in warns {
        t.push_str(&format!("#@warn {x}\n"));
    }
    t
}

fn toml_list(v: &[String]) -> String {
    serde_json::to_string(v).unwrap()
}
pub fn cfg_text(c: &ProjCfg) -> String {
    let mut t = String::from("[project]\nname = \"p\"\n\n[tool.pytest.ini_options]\n");
    for (k, v) in [("testpaths", &c.testpaths), ("python_files", &c.python_files), ("python_classes", &c.python_classes), ("python_functions", &c.python_functions)] {
        if v.is_empty() {
            continue;
        }
        let one = v.iter().all(|x| !x.is_empty() && !x.contains(|c: char| c.is_whitespace() || "\"'\\".contains(c)));
        match c.strings {
            1 if one => t.push_str(&format!("{k} = \"{}\"\n", v.join(" "))),
            2 if one => t.push_str(&format!("{k} = \"\"\"\n    {}\n\"\"\"\n", v.join("\n    "))),
            _ => t.push_str(&format!("{k} = {}\n", toml_list(v))),
        }
    }
    if let Some(b) = &c.broken {
        t.push_str(b);
    }
    t
}

fn put(host: &str, n: &Node) {
    use std::fs;
    if let Some(d) = std::path::Path::new(host).parent() {
        let _ = fs::create_dir_all(d);
    }
    let _ = match n {
        Node::Py(t) => fs::write(host, py_text(t, &[])),
        Node::Warn(t) => fs::write(host, py_text(&[], t)),
        Node::Bad(m) => fs::write(host, format!("#@parse-error {m}\n")),
        Node::Text(t) => fs::write(host, t),
        Node::Hex(h) => fs::write(host, unhex(h)),
        Node::Dir => fs::create_dir_all(host),
        Node::Link(_) => Ok(()),
    };
}

pub fn build(sc: &Scenario, root: &str) {
    use std::fs;
    let _ = fs::remove_dir_all(root);
    for d in ["w", "tmp", "venv/bin", "home"] {
        fs::create_dir_all(format!("{root}/{d}")).unwrap();
    }
    fs::write(format!("{root}/venv/bin/python"), "").unwrap();
    for (p, n) in &sc.tree {
        put(&format!("{root}/w/{p}"), n);
    }
    for (p, n) in &sc.tree {
        if let Node::Link(t) = n {
            let host = format!("{root}/w/{p}");
            if let Some(d) = std::path::Path::new(&host).parent() {
                let _ = fs::create_dir_all(d);
            }
            // relative links stay relative, absolute ones point into the scratch root
            let t = if t.starts_with("/sim/") { format!("{root}{}", &t[4..]) } else { t.clone() };
            let _ = std::os::unix::fs::symlink(t, host);
        }
    }
    if let Some(c) = &sc.cfg {
        for r in &sc.runs {
            if let Some(rel) = r.cwd.strip_prefix("/sim/") {
                put(&format!("{root}/{rel}/pyproject.toml"), &Node::Text(cfg_text(c)));
            }
        }
    }
    for r in &sc.runs {
        if let Some(rel) = r.cwd.strip_prefix("/sim/") {
            let _ = fs::create_dir_all(format!("{root}/{rel}"));
        }
    }
    for (p, n) in &sc.tmp {
        put(&format!("{root}/tmp/{p}"), n);
    }
}

// ---- a small file system model --------------------------------------------------------------------------------------------

pub struct Vfs<'a> {
    sc: &'a Scenario,
    pub dirs: BTreeSet<String>,
}
impl<'a> Vfs<'a> {
    pub fn new(sc: &'a Scenario) -> Vfs<'a> {
        let mut dirs = BTreeSet::new();
        let mut add = |p: &str| {
            let mut i = 0;
            while let Some(k) = p[i..].find('/') {
                dirs.insert(p[..i + k].to_string());
                i += k + 1;
            }
        };
        for p in sc.tree.keys() {
            add(p);
        }
        for r in &sc.runs {
            if let Some(p) = r.cwd.strip_prefix("/sim/w/") {
                add(&format!("{p}/"));
            }
        }
        for (p, n) in &sc.tree {
            if matches!(n, Node::Dir) {
                dirs.insert(p.clone());
            }
        }
        dirs.insert(String::new());
        Vfs { sc, dirs }
    }
    /// Resolve links; the path is relative to /sim/w. None if it does not exist or leaves it.
    pub fn canon(&self, p: &str) -> Option<String> {
        self.canon_n(p, 0)
    }
    fn canon_n(&self, p: &str, depth: u32) -> Option<String> {
        if depth > 20 {
            return None;
        }
        let mut cur = String::new();
        let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        for (i, c) in parts.iter().enumerate() {
            if *c == ".." {
                if !self.dirs.contains(&cur) || cur.is_empty() {
                    return None;
                }
                cur = cur.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
                continue;
            }
            let next = if cur.is_empty() { c.to_string() } else { format!("{cur}/{c}") };
            if let Some(Node::Link(t)) = self.sc.tree.get(&next) {
                let base = match t.strip_prefix("/sim/w/") {
                    Some(r) => r.to_string(),
                    None if t.starts_with('/') => return None,
                    None => format!("{cur}/{t}"),
                };
                let rest = parts[i + 1..].join("/");
                let full = if rest.is_empty() { base } else { format!("{base}/{rest}") };
                return self.canon_n(&full, depth + 1);
            }
            if !self.dirs.contains(&next) && !self.has_file(&next) {
                return None;
            }
            cur = next;
        }
        Some(cur)
    }
    fn has_file(&self, p: &str) -> bool {
        match self.sc.tree.get(p) {
            Some(Node::Dir) | Some(Node::Link(_)) => false,
            Some(_) => true,
            None => self.sc.cfg.is_some() && self.sc.runs.iter().any(|r| format!("{}/pyproject.toml", r.cwd.trim_start_matches("/sim/w/")) == p),
        }
    }
    /// A link back to a directory on the way to it leads in circles.
    fn is_link(&self, p: &str) -> bool {
        let (dir, name) = p.rsplit_once('/').unwrap_or(("", p));
        match self.canon(dir) {
            Some(c) => matches!(self.sc.tree.get(format!("{c}/{name}").trim_start_matches('/')), Some(Node::Link(_))),
            None => false,
        }
    }
    pub fn is_dir(&self, p: &str) -> bool {
        self.canon(p).map(|c| self.dirs.contains(&c)).unwrap_or(false)
    }
    pub fn is_file(&self, p: &str) -> bool {
        self.canon(p).map(|c| self.has_file(&c)).unwrap_or(false)
    }
    pub fn node(&self, p: &str) -> Option<&'a Node> {
        self.canon(p).and_then(|c| self.sc.tree.get(&c))
    }
    pub fn list(&self, dir: &str) -> Vec<String> {
        let c = match self.canon(dir) {
            Some(c) => c,
            None => return vec![],
        };
        let pre = if c.is_empty() { String::new() } else { format!("{c}/") };
        let mut out = BTreeSet::new();
        for p in self.sc.tree.keys().chain(self.dirs.iter()) {
            if let Some(r) = p.strip_prefix(&pre) {
                if !r.is_empty() {
                    out.insert(r.split('/').next().unwrap().to_string());
                }
            }
        }
        out.into_iter().collect()
    }
}

pub fn rel_w(v: &str) -> Option<String> {
    let n = lexical(v);
    if n == W {
        return Some(String::new());
    }
    n.strip_prefix("/sim/w/").map(|s| s.to_string())
}

// ---- what collection has to find -------------------------------------------------------------------------------------------

#[derive(Default, Debug)]
pub struct Collected {
    /// (file relative to /sim/w with links resolved, test part), as often as it is listed
    pub tests: Vec<(String, String)>,
    pub not_found: bool,
    /// files and directories that have to be named as errors (path as spelled below the root, canonical path)
    pub errors: Vec<(String, String)>,
    /// files whose listing is not constrained (they lie in an unreadable directory)
    pub free: BTreeSet<String>,
    pub warns: usize,
}

pub fn glob(pat: &str, name: &str) -> bool {
    // '*', '?' and '[a-z]', which is all the generators use
    fn go(p: &[char], n: &[char]) -> bool {
        match p.first() {
            None => n.is_empty(),
            Some('*') => (0..=n.len()).any(|i| go(&p[1..], &n[i..])),
            Some('?') => !n.is_empty() && go(&p[1..], &n[1..]),
            Some('[') => {
                let end = match p.iter().position(|c| *c == ']') {
                    Some(e) if e > 1 => e,
                    _ => return false,
                };
                let set = &p[1..end];
                let c = match n.first() {
                    Some(c) => *c,
                    None => return false,
                };
                let (mut i, mut hit) = (0, false);
                while i < set.len() {
                    if i + 2 < set.len() && set[i + 1] == '-' {
                        hit |= set[i] <= c && c <= set[i + 2];
                        i += 3;
                    } else {
                        hit |= set[i] == c;
                        i += 1;
                    }
                }
                hit && go(&p[end + 1..], &n[1..])
            }
            Some(c) => n.first() == Some(c) && go(&p[1..], &n[1..]),
        }
    }
    let (p, n): (Vec<char>, Vec<char>) = (pat.chars().collect(), name.chars().collect());
    go(&p, &n)
}
fn pats(sc: &Scenario, which: fn(&ProjCfg) -> &Vec<String>, default: &[&str]) -> Vec<String> {
    match &sc.cfg {
        Some(c) if !which(c).is_empty() => which(c).clone(),
        _ => default.iter().map(|s| s.to_string()).collect(),
    }
}
fn file_selected(sc: &Scenario, name: &str) -> bool {
    name.ends_with(".py") && name != ".py" && pats(sc, |c| &c.python_files, &["test_*.py", "*_test.py"]).iter().any(|g| glob(g, name))
}
/// Is the test one of those the configured names select?
pub fn test_selected(sc: &Scenario, test: &str) -> bool {
    let base = test.split('[').next().unwrap();
    let mut parts: Vec<&str> = base.split("::").collect();
    let name = parts.pop().unwrap();
    let (cp, fp) = (pats(sc, |c| &c.python_classes, &["Test*"]), pats(sc, |c| &c.python_functions, &["test*"]));
    parts.iter().all(|c| cp.iter().any(|g| glob(g, c))) && fp.iter().any(|g| glob(g, name))
}
const NORECURSE: [&str; 9] = ["*.egg", ".*", "_darcs", "build", "CVS", "dist", "node_modules", "venv", "{arch}"];

pub fn start_paths(sc: &Scenario, run: &Run) -> Vec<String> {
    if !run.paths.is_empty() {
        return run.paths.iter().map(|p| join(&run.cwd, p)).collect();
    }
    match &sc.cfg {
        Some(c) if !c.testpaths.is_empty() => c.testpaths.iter().map(|p| join(&run.cwd, p)).collect(),
        _ => vec![run.cwd.clone()],
    }
}

/// An I/O fault planned for this path and operation (any position in the call sequence).
fn faulted(sc: &Scenario, ops: &[&str], v: &str) -> Option<i32> {
    sc.faults.iter().find(|f| ops.contains(&f.op.as_str()) && f.path == lexical(v)).map(|f| f.errno)
}

/// Is the configuration itself of no use?
pub fn cfg_unusable(sc: &Scenario, run: &Run) -> bool {
    let v = format!("{}/pyproject.toml", run.cwd);
    sc.cfg.as_ref().map_or(false, |c| c.broken.is_some()) || sc.faults.iter().any(|f| f.skip == 0 && ["open", "read"].contains(&f.op.as_str()) && f.path == v)
}

pub fn collect_model(sc: &Scenario, run: &Run) -> Collected {
    let vfs = Vfs::new(sc);
    let mut out = Collected::default();
    for p in start_paths(sc, run) {
        let rel = match rel_raw(&p) {
            Some(r) if vfs.canon(&r).is_some() => r,
            _ => {
                if !run.paths.is_empty() {
                    out.not_found = true;
                }
                continue;
            }
        };
        if vfs.is_dir(&rel) {
            walk(sc, &vfs, &rel, &mut out, &mut vec![], false);
        } else {
            file(sc, &vfs, &rel, &mut out, false);
        }
    }
    out
}
/// Relative to /sim/w without collapsing `..` (links matter).
fn rel_raw(v: &str) -> Option<String> {
    if v == W {
        return Some(String::new());
    }
    v.strip_prefix("/sim/w/").map(|s| s.trim_end_matches('/').to_string())
}
fn walk(sc: &Scenario, vfs: &Vfs, rel: &str, out: &mut Collected, above: &mut Vec<String>, free: bool) {
    let canon = vfs.canon(rel).unwrap();
    if above.contains(&canon) && vfs.is_link(rel) {
        return;
    }
    above.push(canon.clone());
    let mut free = free;
    let v = format!("{W}/{rel}");
    let v = v.trim_end_matches('/').to_string();
    if !free {
        if let Some(e) = faulted(sc, &["opendir", "readdir"], &v) {
            if e == libc::EACCES {
                free = true;
            } else {
                out.errors.push((rel.to_string(), canon.clone()));
                free = true;
            }
        }
    }
    for name in vfs.list(rel) {
        let p = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
        if name == "__pycache__" {
            continue;
        }
        if vfs.is_dir(&p) {
            if NORECURSE.iter().any(|g| glob(g, &name)) {
                continue;
            }
            walk(sc, vfs, &p, out, above, free);
        } else if vfs.is_file(&p) {
            file(sc, vfs, &p, out, free);
        }
    }
    above.pop();
}
fn file(sc: &Scenario, vfs: &Vfs, rel: &str, out: &mut Collected, free: bool) {
    let name = rel.rsplit('/').next().unwrap();
    if !file_selected(sc, name) {
        return;
    }
    let canon = match vfs.canon(rel) {
        Some(c) => c,
        None => return,
    };
    if free {
        out.free.insert(canon);
        return;
    }
    if faulted(sc, &["open", "read"], &format!("{W}/{rel}")).is_some() {
        out.errors.push((rel.to_string(), canon));
        return;
    }
    match vfs.node(rel) {
        Some(Node::Py(t)) => {
            for x in t.iter().filter(|x| test_selected(sc, x)) {
                out.tests.push((canon.clone(), x.clone()));
            }
        }
        Some(Node::Warn(t)) => {
            for x in t.iter().filter(|x| test_selected(sc, x)) {
                out.tests.push((canon.clone(), x.clone()));
                out.warns += 1;
            }
        }
        Some(Node::Bad(_)) => out.errors.push((rel.to_string(), canon)),
        Some(Node::Hex(h)) if String::from_utf8(unhex(h)).is_err() => out.errors.push((rel.to_string(), canon)),
        _ => {}
    }
}

/// The files the native runner has to execute.
pub fn native_model(sc: &Scenario, run: &Run) -> BTreeSet<String> {
    let vfs = Vfs::new(sc);
    let mut out = BTreeSet::new();
    let ok = |name: &str| file_selected(sc, name);
    fn down(vfs: &Vfs, rel: &str, ok: &dyn Fn(&str) -> bool, out: &mut BTreeSet<String>, above: &mut Vec<String>) {
        let canon = vfs.canon(rel).unwrap();
        if above.contains(&canon) && vfs.is_link(rel) {
            return;
        }
        above.push(canon);
        for name in vfs.list(rel) {
            if name.starts_with('.') || name == "__pycache__" {
                continue;
            }
            let p = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
            if vfs.is_dir(&p) {
                if !NORECURSE.iter().any(|g| glob(g, &name)) {
                    down(vfs, &p, ok, out, above);
                }
            } else if vfs.is_file(&p) && ok(&name) {
                out.insert(vfs.canon(&p).unwrap());
            }
        }
        above.pop();
    }
    for p in start_paths(sc, run) {
        let rel = match rel_raw(&p).and_then(|r| vfs.canon(&r)) {
            Some(c) => c,
            None => continue,
        };
        if vfs.is_dir(&rel) {
            down(&vfs, &rel, &ok, &mut out, &mut vec![]);
        } else if vfs.is_file(&rel) && ok(p.rsplit('/').next().unwrap()) {
            out.insert(rel);
        }
    }
    out
}

/// The project a file belongs to: nearest directory with a pyproject.toml strictly inside the root, else the root.
pub fn project_of(sc: &Scenario, root: &str, canon: &str) -> String {
    let root = root.trim_start_matches("/sim/w").trim_start_matches('/');
    let mut d = canon.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    let vfs = Vfs::new(sc);
    while d.starts_with(&format!("{root}/")) {
        if vfs.canon(&format!("{d}/pyproject.toml")).is_some() {
            return format!("{W}/{d}");
        }
        d = d.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
    }
    format!("{W}/{root}")
}

// ---- stand-in processes -----------------------------------------------------------------------------------------------------

static mut SC: *const Scenario = std::ptr::null();
pub fn set_scenario(sc: &Scenario) {
    unsafe { SC = Box::into_raw(Box::new(sc.clone())) }
}
fn sc() -> &'static Scenario {
    #[allow(static_mut_refs)]
    unsafe {
        &*SC
    }
}

/// Canonical path (relative to /sim/w) of a path given to a process.
fn canon_host(sim: &Sim, cwd: &str, p: &str) -> Option<String> {
    let v = join(cwd, p);
    let h = sim.host_of(&v)?;
    let c = std::fs::canonicalize(h).ok()?;
    let v = sim.virt_of(c.to_str()?);
    v.strip_prefix("/sim/w/").map(|s| s.to_string())
}

pub fn parse_pytest(argv: &[String]) -> Option<(Vec<String>, Vec<String>, Vec<String>)> {
    // (ids, rootdirs, other options)
    if argv.len() < 3 || argv[1] != "-m" || argv[2] != "pytest" {
        return None;
    }
    let (mut ids, mut roots, mut opts) = (vec![], vec![], vec![]);
    let mut i = 3;
    let mut only_pos = false;
    while i < argv.len() {
        let a = &argv[i];
        if only_pos {
            ids.push(a.clone());
        } else if a == "--" {
            only_pos = true;
        } else if a == "--rootdir" && i + 1 < argv.len() {
            i += 1;
            roots.push(argv[i].clone());
        } else if let Some(r) = a.strip_prefix("--rootdir=") {
            roots.push(r.to_string());
        } else if a.starts_with('-') && a.len() > 1 {
            opts.push(a.clone());
        } else {
            ids.push(a.clone());
        }
        i += 1;
    }
    Some((ids, roots, opts))
}

#[derive(Default, Debug, Clone, Serialize, Deserialize)]
pub struct NativeArgs {
    pub root: Option<String>,
    pub out: Option<String>,
    pub classes: Option<Vec<String>>,
    pub functions: Option<Vec<String>>,
    pub files: Vec<String>,
    pub bad: Option<String>,
}
/// As argparse reads the worker's command line.
pub fn parse_native(argv: &[String]) -> Option<NativeArgs> {
    if argv.len() < 3 || argv[1] != "-m" || argv[2] != "rtest.worker" {
        return None;
    }
    let mut n = NativeArgs::default();
    let mut i = 3;
    let mut only_pos = false;
    let opt = |a: &str| a.starts_with('-') && a.len() > 1;
    while i < argv.len() {
        let a = argv[i].clone();
        if only_pos || !opt(&a) {
            n.files.push(a);
            i += 1;
            continue;
        }
        if a == "--" {
            only_pos = true;
            i += 1;
            continue;
        }
        let (name, inline) = match a.split_once('=') {
            Some((x, y)) => (x.to_string(), Some(y.to_string())),
            None => (a.clone(), None),
        };
        i += 1;
        match name.as_str() {
            "--root" | "--out" => {
                let v = match inline {
                    Some(v) => Some(v),
                    None if i < argv.len() && !opt(&argv[i]) => {
                        i += 1;
                        Some(argv[i - 1].clone())
                    }
                    None => None,
                };
                if v.is_none() {
                    n.bad = Some(format!("{name} without a value"));
                }
                if name == "--root" {
                    n.root = v
                } else {
                    n.out = v
                }
            }
            "--python-classes" | "--python-functions" => {
                let mut v = vec![];
                match inline {
                    Some(x) => v.push(x),
                    None => {
                        while i < argv.len() && !opt(&argv[i]) {
                            v.push(argv[i].clone());
                            i += 1;
                        }
                    }
                }
                if v.is_empty() {
                    n.bad = Some(format!("{name} without a value"));
                }
                if name == "--python-classes" {
                    n.classes = Some(v)
                } else {
                    n.functions = Some(v)
                }
            }
            _ => n.bad = Some(format!("unknown option {a}")),
        }
    }
    if n.root.is_none() || n.out.is_none() || n.files.is_empty() {
        n.bad.get_or_insert("missing argument".into());
    }
    Some(n)
}

fn ascii_json(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) < 0x7f {
            o.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        }
    }
    o
}
pub fn rec_line(r: &Rec) -> String {
    let error = if r.tb.is_none() && r.reason.is_none() {
        Value::Null
    } else {
        let mut m = serde_json::Map::new();
        if let Some(t) = &r.tb {
            m.insert("traceback".into(), json!(t));
        }
        if let Some(t) = &r.reason {
            m.insert("reason".into(), json!(t));
        }
        Value::Object(m)
    };
    let ty = if r.outcome == "failed" { json!("AssertionError") } else { Value::Null };
    let v = json!({"nodeid": r.id, "outcome": r.outcome, "duration_ms": r.dur, "stdout": r.out, "stderr": r.err, "error": error, "error_type": ty});
    let s = v.to_string();
    if r.ascii {
        ascii_json(&s)
    } else {
        s
    }
}

fn chunk_ops(out: &[Chunk], ops: &mut Vec<Op>) {
    for c in out {
        ops.push(Op::Out(c.fd, c.bytes()));
    }
}
fn die(status: i32) -> Op {
    if status < 0 {
        Op::Signal(-status)
    } else {
        Op::Exit(status)
    }
}

pub fn plan(sim: &mut Sim, req: &SpawnReq) -> Plan {
    if let Some((ids, _, _)) = parse_pytest(&req.argv) {
        return plan_pytest(sim, req, ids);
    }
    if let Some(n) = parse_native(&req.argv) {
        return plan_native(sim, req, n);
    }
    Plan { err: 0, ops: vec![Op::Exit(0)], kill_after_us: None, key: format!("? {}", req.argv.join(" ")), meta: json!({"kind": "?"}), weight: 0 }
}

fn plan_pytest(sim: &mut Sim, req: &SpawnReq, ids: Vec<String>) -> Plan {
    let mut ops = vec![];
    let mut canon = vec![];
    let (mut err, mut kill, mut code, mut fail) = (0, None, None, false);
    if sc().barrier {
        ops.push(Op::Barrier);
    }
    let mut done = false;
    for id in &ids {
        let (file, part) = match id.split_once("::") {
            Some((a, b)) => (a, b),
            None => (id.as_str(), ""),
        };
        let c = canon_host(sim, &req.cwd, file);
        canon.push(json!([c, part]));
        let beh = c.as_ref().and_then(|c| sc().tests.get(&format!("{c}::{part}"))).cloned().unwrap_or_default();
        if let Some(e) = beh.spawn {
            err = e;
        }
        if beh.kill_us > 0 {
            kill = Some((beh.kill_us, libc::SIGKILL));
        }
        if done {
            continue;
        }
        if beh.delay_us > 0 {
            ops.push(Op::Delay(beh.delay_us));
        }
        ops.push(Op::Mark(id.clone()));
        chunk_ops(&beh.out, &mut ops);
        if let Some(fd) = beh.close {
            ops.push(Op::CloseOut(fd));
        }
        fail |= beh.fail;
        if beh.exit.is_some() {
            code = beh.exit;
        }
        if let Some(st) = beh.crash {
            ops.push(die(st));
            done = true;
        }
    }
    let status = code.unwrap_or(if ids.is_empty() { 5 } else { fail as i32 });
    ops.push(Op::Exit(status));
    Plan { err, ops, kill_after_us: kill, key: format!("{} {}", req.cwd, ids.join(" ")), meta: json!({"kind": "pytest", "tests": canon}), weight: ids.len() }
}

fn plan_native(sim: &mut Sim, req: &SpawnReq, n: NativeArgs) -> Plan {
    let files: Vec<Option<String>> = n.files.iter().map(|f| canon_host(sim, &req.cwd, f)).collect();
    let mut meta = json!({"kind": "native", "args": n, "files": files});
    let key = format!("native {}", n.files.join(" "));
    if n.bad.is_some() {
        return Plan { err: 0, ops: vec![Op::Out(2, b"usage: python -m rtest.worker\n".to_vec()), Op::Exit(2)], kill_after_us: None, key, meta, weight: files.len() };
    }
    let out = join(&req.cwd, n.out.as_deref().unwrap());
    let mut ops = vec![];
    if sc().barrier {
        ops.push(Op::Barrier);
    }
    let (mut err, mut kill) = (0, None);
    let mut fault: Option<NFault> = None;
    let mut blob: Vec<u8> = vec![];
    let mut failing = false;
    let mut recs = vec![];
    let mut crashed = None;
    for f in files.iter() {
        let beh = f.as_ref().and_then(|c| sc().files.get(c)).cloned().unwrap_or_default();
        if let Some(e) = beh.spawn {
            err = e;
        }
        if beh.kill_us > 0 {
            kill = Some((beh.kill_us, libc::SIGKILL));
        }
        if crashed.is_some() {
            continue;
        }
        if let Some(NFault::CrashBefore(st)) = &beh.fault {
            crashed = Some(*st);
        }
        if beh.delay_us > 0 {
            ops.push(Op::Delay(beh.delay_us));
        }
        ops.push(Op::Mark(f.clone().unwrap_or_default()));
        chunk_ops(&beh.out, &mut ops);
        if fault.is_none() {
            fault = beh.fault.clone();
        }
        for r in &beh.recs {
            blob.extend_from_slice(rec_line(r).as_bytes());
            blob.push(b'\n');
            if !matches!(r.outcome.as_str(), "passed" | "skipped") {
                failing = true;
            }
            recs.push(r.clone());
        }
    }
    let normal = failing as i32;
    let mut bad: Option<String> = None;
    // results are written in pieces, like a buffered file
    let pieces = |data: &[u8], ops: &mut Vec<Op>| {
        ops.push(Op::Append(out.clone(), vec![]));
        for c in data.chunks(8192) {
            let cut = if c.len() > 10 { c.len() * 3 / 5 } else { c.len() };
            ops.push(Op::Append(out.clone(), c[..cut].to_vec()));
            if cut < c.len() {
                ops.push(Op::Append(out.clone(), c[cut..].to_vec()));
            }
        }
    };
    ops.push(Op::Remove(out.clone())); // opened with "w"
    if let Some(st) = crashed {
        // a crash before anything was written leaves no file at all
        ops.pop();
        ops.push(die(st));
        bad = Some(format!("ended with {st} before writing results"));
    } else {
        match &fault {
            None | Some(NFault::CrashBefore(_)) => {
                pieces(&blob, &mut ops);
                ops.push(Op::Exit(normal));
            }
            Some(NFault::CrashWriting(pm, st)) => {
                let k = blob.len() * (*pm as usize).min(1000) / 1000;
                pieces(&blob[..k], &mut ops);
                ops.push(die(*st));
                let kept_all = k == blob.len();
                let status_ok = *st == 0 || *st == 1;
                // a missing newline alone takes nothing away from the record
                let boundary = k == 0 || k == blob.len() || blob[k - 1] == b'\n' || blob[k] == b'\n';
                if !status_ok {
                    bad = Some(format!("died with {st} while writing"));
                } else if !kept_all && !boundary {
                    bad = Some("results end inside a record".into());
                } else if *st == 1 {
                    // status 1 while none of the delivered records says so
                    let seen = blob[..k].split(|b| *b == b'\n').filter(|l| !l.is_empty()).count();
                    if !recs[..seen.min(recs.len())].iter().any(|r| !matches!(r.outcome.as_str(), "passed" | "skipped")) {
                        bad = Some("reports failure through its status only".into());
                    } else {
                        bad = Some("partial".into());
                    }
                } else if !kept_all {
                    bad = Some("?undecidable".into());
                }
            }
            Some(NFault::Cut(pm)) => {
                // strictly inside a record
                let mut k = blob.len() * (*pm as usize).min(999) / 1000;
                while k > 0 && (blob[k - 1] == b'\n' || k < blob.len() && blob[k] == b'\n') {
                    k -= 1;
                }
                pieces(&blob[..k], &mut ops);
                ops.push(Op::Exit(normal));
                bad = if k == 0 || blob[k - 1] == b'\n' { Some("?undecidable".into()) } else { Some("results end inside a record".into()) };
            }
            Some(NFault::Garbage(g)) => {
                let cut = blob.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
                let mut b = blob[..cut].to_vec();
                b.extend_from_slice(g.as_bytes());
                b.push(b'\n');
                b.extend_from_slice(&blob[cut..]);
                pieces(&b, &mut ops);
                ops.push(Op::Exit(normal));
                bad = Some("a line that is no record".into());
            }
            Some(NFault::Mangle(how, which)) => {
                let mut lines: Vec<Vec<u8>> = blob.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                if lines.is_empty() {
                    lines.push(b"lost\n".to_vec());
                } else {
                    let n = lines.len();
                    let l = &mut lines[*which as usize % n];
                    let len = l.len();
                    match how % 6 {
                        0 if n > 1 && *which as usize % n + 1 < n => {
                            l.pop();
                        }
                        1 => {
                            l.remove(0);
                        }
                        2 => {
                            l.remove(len - 2);
                        }
                        3 => l[len / 2..(len / 2 + 9).min(len - 1)].fill(0),
                        4 => {
                            let again = l[len / 2..].to_vec();
                            l.truncate(len - 1);
                            l.extend_from_slice(&again);
                        }
                        _ => {
                            l.pop();
                            l.extend_from_slice(b"{}\n");
                        }
                    }
                }
                pieces(&lines.concat(), &mut ops);
                ops.push(Op::Exit(normal));
                bad = Some("a line that is no record".into());
            }
            Some(NFault::NoFile) => {
                ops.push(Op::Exit(normal));
                bad = Some("no results file".into());
            }
            Some(NFault::Exit(c)) => {
                pieces(&blob, &mut ops);
                ops.push(die(*c));
                if *c != normal {
                    bad = Some(if *c == 0 { "failing records".into() } else { format!("status {c}") });
                }
            }
            Some(NFault::Removed) => {
                pieces(&blob, &mut ops);
                ops.push(Op::Remove(out.clone()));
                ops.push(Op::Exit(normal));
                bad = Some("results removed".into());
            }
            Some(NFault::IsDir) => {
                ops.push(Op::Mkdir(out.clone()));
                ops.push(Op::Exit(normal));
                bad = Some("results are a directory".into());
            }
            Some(NFault::Raw(data, st)) => {
                match data {
                    Some(h) => pieces(&unhex(h), &mut ops),
                    None => {
                        ops.pop();
                    }
                }
                ops.push(die(*st));
            }
            Some(NFault::ReadErr(op, e, skip)) => {
                pieces(&blob, &mut ops);
                ops.push(Op::Exit(normal));
                sim.cfg.faults.push(FsFault { op: op.clone(), path: out.clone(), errno: *e, skip: *skip, times: 0 });
                sim.fault_hits.push(0);
                bad = Some(format!("?readerr {out}"));
            }
        }
    }
    meta["bad"] = json!(bad);
    meta["recs"] = json!(recs);
    if let Some(f) = &fault {
        let k = format!("worker_{}", serde_json::to_value(f).ok().map(|v| match v {
            Value::String(s) => s,
            Value::Object(o) => o.keys().next().cloned().unwrap_or_default(),
            _ => String::new(),
        }).unwrap_or_default());
        if err == 0 {
            sim.fire(&k);
        }
    }
    Plan { err, ops, kill_after_us: kill, key, meta, weight: files.len() }
}
