//! What has to be true of a finished run, property by property.
use crate::kernel::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct PObs {
    pub pid: i32,
    pub program: String,
    pub argv: Vec<String>,
    pub env: BTreeMap<String, String>,
    pub cwd: String,
    pub lp: usize,
    pub status: i32,
    pub ended: bool,
    pub reaped: bool,
    /// bytes as latin-1
    pub out: [String; 2],
    pub meta: Value,
    pub start: u64,
    pub end: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct LObs {
    pub exit: Option<i32>,
    pub out: String,
    pub err: String,
    pub muts: Vec<(String, String)>,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Obs {
    pub end: String,
    pub lps: Vec<LObs>,
    pub procs: Vec<PObs>,
    pub failed: Vec<SpawnFail>,
    pub tmp: Vec<String>,
    pub outside: Vec<String>,
    pub unsupported: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub now: u64,
    pub switches: u64,
    pub threads: u32,
    pub max_live: usize,
    pub fired: BTreeMap<String, u64>,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
}

pub fn latin(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
pub fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
pub fn text(s: &str) -> String {
    String::from_utf8_lossy(&bytes(s)).into_owned()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
fn v(class: &str, msg: impl Into<String>) -> Violation {
    Violation { class: class.to_string(), msg: msg.into() }
}
type Out = Vec<Violation>;

/// One process handed out by the run, started or not.
struct Handed<'a> {
    argv: &'a [String],
    cwd: &'a str,
    env: &'a BTreeMap<String, String>,
    meta: &'a Value,
    proc: Option<&'a PObs>,
    lp: usize,
}
fn handed(o: &Obs) -> Vec<Handed<'_>> {
    let mut h: Vec<Handed> = o.procs.iter().map(|p| Handed { argv: &p.argv, cwd: &p.cwd, env: &p.env, meta: &p.meta, proc: Some(p), lp: p.lp }).collect();
    h.extend(o.failed.iter().map(|f| Handed { argv: &f.argv, cwd: &f.cwd, env: &f.env, meta: &f.meta, proc: None, lp: f.lp }));
    h
}
fn kind<'a>(h: &Handed<'a>) -> &'a str {
    h.meta["kind"].as_str().unwrap_or("?")
}
/// (canonical file or None, test part) of every id a pytest process was given
fn ids(meta: &Value) -> Vec<(Option<String>, String)> {
    meta["tests"].as_array().map(|a| a.iter().map(|t| (t[0].as_str().map(String::from), t[1].as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
}
fn files(meta: &Value) -> Vec<Option<String>> {
    meta["files"].as_array().map(|a| a.iter().map(|t| t.as_str().map(String::from)).collect()).unwrap_or_default()
}
fn recs(meta: &Value) -> Vec<Rec> {
    serde_json::from_value(meta["recs"].clone()).unwrap_or_default()
}
fn completed(p: &PObs) -> bool {
    p.status == 0 || p.status == 1 << 8
}
fn status_text(st: i32) -> String {
    if st & 0x7f != 0 {
        format!("killed by signal {}", st & 0x7f)
    } else {
        format!("exit status {}", st >> 8 & 0xff)
    }
}
fn failing(r: &Rec) -> bool {
    !matches!(r.outcome.as_str(), "passed" | "skipped")
}

/// Does the command line get as far as running tests?
fn executes(sc: &Scenario, run: &Run) -> bool {
    if run.collect_only || !sc.faults.iter().all(|f| !matches!(f.op.as_str(), "getcwd")) {
        return false;
    }
    let c = collect_model(sc, run);
    !cfg_unusable(sc, run) && !c.not_found && c.errors.is_empty() && !c.tests.is_empty()
}

fn not_ended(o: &Obs, out: &mut Out) -> bool {
    if o.end != "exit" {
        out.push(v("no_end", format!("the run does not end: {}", o.end)));
        return true;
    }
    false
}

/// What makes a native run unsuccessful, if anything.
fn native_trouble(sc: &Scenario, o: &Obs, lp: usize) -> Vec<(String, String)> {
    let mut t = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for h in handed(o).iter().filter(|h| h.lp == lp) {
        for f in files(h.meta).into_iter().flatten() {
            seen.insert(f);
        }
        match h.proc {
            None => t.push(("spawn".to_string(), "a worker could not be started".to_string())),
            Some(p) => {
                if kind(h) != "native" {
                    t.push(("argv".into(), format!("a process that is no worker: {:?}", p.argv)));
                    continue;
                }
                if !p.ended {
                    t.push(("running".into(), format!("worker {} has not ended", p.pid)));
                } else if !completed(p) {
                    t.push(("status".into(), format!("a worker {}", status_text(p.status))));
                } else if let Some(b) = p.meta["bad"].as_str() {
                    if let Some(path) = b.strip_prefix("?readerr ") {
                        let hit = sc_read_fault_fired(o, path);
                        if let Some(e) = hit {
                            t.push(("read".into(), format!("the results of a worker could not be read: {e}")));
                        }
                    } else if !b.starts_with('?') {
                        t.push(("results".into(), format!("a worker's results: {b}")));
                    }
                }
                if completed(p) && recs(&p.meta).iter().any(failing) && p.meta["bad"].as_str().map(|b| b.starts_with("?readerr")).unwrap_or(true) {
                    t.push(("failing".into(), "a test failed".into()));
                }
            }
        }
    }
    for f in native_model(sc, &sc.runs[lp]) {
        if !seen.contains(&f) {
            t.push(("lost".into(), format!("{f} was handed to no worker")));
        }
    }
    t
}
fn sc_read_fault_fired(o: &Obs, path: &str) -> Option<String> {
    let want = norm_tmp(path);
    // the kernel logs planned faults as it injects them
    o.fired.keys().find(|k| k.starts_with("fault@") && k.contains(&want)).map(|k| k.clone())
}

fn c01(sc: &Scenario, o: &Obs, out: &mut Out) {
    if not_ended(o, out) {
        return;
    }
    // errors met while the files are looked up change nothing about what success means
    let mut calm = sc.clone();
    calm.faults.retain(|f| !matches!(f.op.as_str(), "opendir" | "readdir" | "stat" | "open" | "read"));
    for (lp, run) in sc.runs.iter().enumerate() {
        if !run.native || !executes(&calm, run) {
            continue;
        }
        let t = native_trouble(sc, o, lp);
        if let (Some(0), Some((class, why))) = (o.lps[lp].exit, t.first()) {
            out.push(v(&format!("exit0_{class}"), format!("exit status 0 although {why}")));
        }
    }
}

#[derive(Default, Debug, PartialEq)]
struct Summary {
    status: String,
    counts: BTreeMap<String, usize>,
    section: String,
}
fn parse_summary(out: &str) -> Option<Summary> {
    // the last line framed by equal signs that carries a verdict
    let mut found = None;
    let mut pos = 0;
    for line in out.split_inclusive('\n') {
        let l = line.trim_end_matches('\n');
        if l.starts_with("===") && l.ends_with("===") {
            let mid = l.trim_matches('=').trim();
            if mid.starts_with("PASSED") || mid.starts_with("FAILED") {
                found = Some((pos, mid.to_string()));
            }
        }
        pos += line.len();
    }
    let (at, mid) = found?;
    let mut s = Summary { status: mid[..6].to_string(), ..Default::default() };
    let rest = mid[6..].rsplit_once(" in ").map(|x| x.0).unwrap_or(&mid[6..]).to_string();
    for part in rest.split(',') {
        let w: Vec<&str> = part.split_whitespace().collect();
        if w.len() == 2 {
            if let Ok(n) = w[0].parse::<usize>() {
                *s.counts.entry(w[1].trim_end_matches('s').to_string()).or_insert(0) += n;
            }
        }
    }
    let head = out[..at].rfind(" SUMMARY ").and_then(|i| out[i..at].find('\n').map(|k| i + k + 1)).unwrap_or(0);
    s.section = out[head..at].to_string();
    Some(s)
}
fn block(r: &Rec) -> String {
    let mut t = format!("  {}\n", r.id);
    if let Some(tb) = &r.tb {
        for l in tb.lines() {
            t.push_str(&format!("    {l}\n"));
        }
    } else if let Some(x) = &r.reason {
        t.push_str(&format!("    {x}\n"));
    }
    t
}
/// The listing is made of exactly these blocks, each once.
fn listing(section: &str, blocks: &[String], optional: &[String]) -> Result<(), String> {
    let mut left: Vec<&String> = blocks.iter().collect();
    let mut opt: Vec<&String> = optional.iter().collect();
    let mut s = section;
    while !s.is_empty() {
        let best = |l: &Vec<&String>| l.iter().enumerate().filter(|(_, b)| s.starts_with(b.as_str())).max_by_key(|(_, b)| b.len()).map(|(i, b)| (i, b.len()));
        if let Some((i, n)) = best(&left) {
            left.remove(i);
            s = &s[n..];
        } else if let Some((i, n)) = best(&opt) {
            opt.remove(i);
            s = &s[n..];
        } else {
            return Err(format!("unexpected text in the listing: {:?}", s.lines().next().unwrap_or("")));
        }
    }
    match left.first() {
        Some(b) => Err(format!("not listed: {:?}", b)),
        None => Ok(()),
    }
}

fn summary_check(sc: &Scenario, o: &Obs, lp: usize, out: &mut Out) {
    let run = &sc.runs[lp];
    let hs: Vec<Handed> = handed(o).into_iter().filter(|h| h.lp == lp).collect();
    // only when all workers complete
    for h in &hs {
        match h.proc {
            Some(p) if kind(h) == "native" && p.ended && completed(p) && (p.meta["bad"].is_null() || p.meta["bad"] == json!("failing records")) => {}
            _ => return,
        }
    }
    if !executes(sc, run) || hs.is_empty() {
        return;
    }
    let text_out = text(&o.lps[lp].out);
    let s = match parse_summary(&text_out) {
        Some(s) => s,
        None => {
            out.push(v("no_summary", "no summary line"));
            return;
        }
    };
    let all: Vec<Rec> = hs.iter().flat_map(|h| recs(h.meta)).collect();
    let count = |k: &str| all.iter().filter(|r| r.outcome == k).count();
    let other = all.iter().filter(|r| !matches!(r.outcome.as_str(), "passed" | "failed" | "error" | "skipped")).count();
    for (k, n) in [("passed", count("passed")), ("failed", count("failed")), ("error", count("error") + other), ("skipped", count("skipped"))] {
        let got = s.counts.get(k).copied().unwrap_or(0);
        if got != n {
            out.push(v("count", format!("the summary counts {got} {k}, the workers recorded {n}")));
        }
    }
    let bad = all.iter().any(failing);
    if (s.status == "FAILED") != bad {
        out.push(v("verdict", format!("the summary says {} although {}", s.status, if bad { "tests failed" } else { "nothing failed" })));
    }
    let e = o.lps[lp].exit.unwrap_or(-1);
    if (e == 0) == bad {
        out.push(v("status", format!("exit status {e} although {}", if bad { "tests failed" } else { "nothing failed" })));
    }
    // the listing
    let fb: Vec<String> = all.iter().filter(|r| r.outcome == "failed").map(block).collect();
    let eb: Vec<String> = all.iter().filter(|r| r.outcome == "error").map(block).collect();
    let ob: Vec<String> = all.iter().filter(|r| !matches!(r.outcome.as_str(), "passed" | "failed" | "error" | "skipped")).map(block).collect();
    let sec = s.section.trim_start_matches('\n');
    let sec = sec.strip_suffix('\n').unwrap_or(sec); // the blank line before the verdict
    let (mut fs, mut es) = ("", "");
    let mut rest = sec;
    if !fb.is_empty() || rest.starts_with("FAILURES:\n") {
        match rest.strip_prefix("FAILURES:\n") {
            Some(r) => {
                let end = if eb.is_empty() && ob.is_empty() { r.len() } else { r.find("\nERRORS:\n").map(|i| i + 1).filter(|i| *i == 0 || r[..*i].ends_with("\n\n") || r[..*i].ends_with('\n')).unwrap_or(r.len()) };
                fs = &r[..end];
                rest = &r[end..];
                fs = fs.strip_suffix("\n\n").map(|_| &fs[..fs.len() - 1]).unwrap_or(fs);
            }
            None => {
                out.push(v("listing", "no FAILURES section although tests failed"));
                return;
            }
        }
    }
    rest = rest.trim_start_matches('\n');
    if !eb.is_empty() {
        match rest.strip_prefix("ERRORS:\n") {
            Some(r) => es = r,
            None => {
                out.push(v("listing", "no ERRORS section although tests had errors"));
                return;
            }
        }
    } else if let Some(r) = rest.strip_prefix("ERRORS:\n") {
        es = r;
    }
    let trim = |x: &str| -> String { x.to_string() };
    for (sec, blocks, opt, name) in [(trim(fs), &fb, &vec![], "FAILURES"), (trim(es), &eb, &ob, "ERRORS")] {
        if let Err(e) = listing(&sec, blocks, opt) {
            out.push(v("listing", format!("{name}: {e}")));
        }
    }
}

fn c02(sc: &Scenario, o: &Obs, out: &mut Out) {
    if not_ended(o, out) {
        return;
    }
    for (lp, run) in sc.runs.iter().enumerate() {
        if run.native {
            summary_check(sc, o, lp, out);
        }
    }
}

fn file_lists(o: &Obs, lp: usize) -> Vec<Vec<String>> {
    let mut l: Vec<Vec<String>> = handed(o).iter().filter(|h| h.lp == lp).map(|h| files(h.meta).into_iter().map(|f| f.unwrap_or_else(|| "?".into())).collect()).collect();
    l.sort();
    l
}

fn c03(sc: &Scenario, os: &[Obs], out: &mut Out) {
    for o in os {
        for (lp, run) in sc.runs.iter().enumerate() {
            if !run.native || !executes(sc, run) || sc.thread_fail.is_some() {
                continue;
            }
            let hs: Vec<Handed> = handed(o).into_iter().filter(|h| h.lp == lp).collect();
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            let mut outs: BTreeSet<String> = BTreeSet::new();
            let mut sizes = vec![];
            for h in &hs {
                if kind(h) != "native" {
                    out.push(v("argv", format!("not a worker command: {:?}", h.argv)));
                    continue;
                }
                let fs = files(h.meta);
                if fs.is_empty() {
                    out.push(v("empty", "a worker without files"));
                }
                sizes.push(fs.len());
                for f in &fs {
                    match f {
                        Some(f) => *seen.entry(f.clone()).or_insert(0) += 1,
                        None => out.push(v("unknown", format!("a worker is given a file that does not exist: {:?}", h.argv))),
                    }
                }
                if let Some(p) = h.meta["args"]["out"].as_str() {
                    if !outs.insert(lexical(&join(h.cwd, p))) {
                        out.push(v("shared", "two workers share a results file"));
                    }
                }
            }
            let want = native_model(sc, run);
            for f in &want {
                match seen.get(f).copied().unwrap_or(0) {
                    1 => {}
                    0 => out.push(v("lost", format!("{f} was handed to no worker"))),
                    n => out.push(v("twice", format!("{f} was handed out {n} times"))),
                }
            }
            for (f, n) in &seen {
                if !want.contains(f) {
                    out.push(v("extra", format!("{f} is no selected file")));
                } else if *n > 1 {
                    out.push(v("twice", format!("{f} was handed out {n} times")));
                }
            }
            let w = run.workers(sc.ncpu, sc.nphys);
            if hs.len() > w {
                out.push(v("too_many", format!("{} workers started, {w} allowed", hs.len())));
            }
            let least = w.min(want.len());
            if hs.len() < least {
                out.push(v("too_few", format!("{} workers started for {} files, {least} are asked for", hs.len(), want.len())));
            }
            if let (Some(a), Some(b)) = (sizes.iter().min(), sizes.iter().max()) {
                if b - a > 1 {
                    out.push(v("uneven", format!("workers get between {a} and {b} files")));
                }
            }
        }
    }
    if os.len() == 2 && sc.thread_fail.is_none() {
        for lp in 0..sc.runs.len() {
            if file_lists(&os[0], lp) != file_lists(&os[1], lp) {
                out.push(v("assignment", "two runs over the same inputs assign files differently"));
            }
        }
    }
}

fn c04(sc: &Scenario, os: &[Obs], out: &mut Out) {
    for o in os {
        let run = &sc.runs[0];
        if !executes(sc, run) {
            continue;
        }
        let want = native_model(sc, run);
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        for h in handed(o) {
            let fs = files(h.meta);
            for f in &fs {
                *got.entry(f.clone().unwrap_or_else(|| "?".into())).or_insert(0) += 1;
            }
            let raw: Vec<String> = serde_json::from_value(h.meta["args"]["files"].clone()).unwrap_or_default();
            let by_text = raw.windows(2).all(|w| w[0] <= w[1]);
            let by_path = raw.windows(2).all(|w| std::path::Path::new(&w[0]) <= std::path::Path::new(&w[1]));
            let c: Vec<&String> = fs.iter().flatten().collect();
            let by_canon = c.windows(2).all(|w| std::path::Path::new(w[0]) <= std::path::Path::new(w[1]));
            if !by_text && !by_path && !by_canon {
                out.push(v("order", format!("a worker's files are not sorted: {raw:?}")));
            }
        }
        for f in &want {
            if !got.contains_key(f) {
                out.push(v("missing", format!("{f} is selected but not executed")));
            }
        }
        for (f, n) in &got {
            if !want.contains(f) {
                out.push(v("extra", format!("{f} is executed but not selected")));
            } else if *n > 1 {
                out.push(v("twice", format!("{f} is executed {n} times")));
            }
        }
    }
    if os.len() == 2 {
        // a worker process lists its files in argv order: the two runs must agree on the lists themselves
        if file_lists(&os[0], 0) != file_lists(&os[1], 0) {
            out.push(v("listing_order", "the files or their order depend on the directory listing order"));
        }
    }
}

fn multiset<T: Ord + Clone>(v: &[T]) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.clone()).or_insert(0) += 1;
    }
    m
}

fn c05(sc: &Scenario, o: &Obs, out: &mut Out) {
    let run = &sc.runs[0];
    if !executes(sc, run) || sc.thread_fail.is_some() {
        return;
    }
    let want = multiset(&collect_model(sc, run).tests);
    let mut got: Vec<(String, String)> = vec![];
    let mut per: BTreeMap<String, (usize, BTreeSet<(String, String)>)> = BTreeMap::new();
    for h in handed(o) {
        if kind(&h) != "pytest" {
            out.push(v("argv", format!("not a pytest command: {:?}", h.argv)));
            continue;
        }
        let t = ids(h.meta);
        if t.is_empty() {
            out.push(v("empty", "a process without tests"));
        }
        let p = per.entry(h.cwd.to_string()).or_default();
        p.0 += 1;
        for (f, x) in t {
            let f = f.unwrap_or_else(|| "?".into());
            // what is given out together
            p.1.insert(match run.dist.as_deref() {
                Some("loadfile") => (f.clone(), String::new()),
                // (the outermost class: its inner classes may go with it)
                Some("loadscope") => (f.clone(), class_of(&x).split("::").next().unwrap_or("").to_string()),
                _ => (f.clone(), x.clone()),
            });
            got.push((f, x));
        }
    }
    let got = multiset(&got);
    for (t, n) in &want {
        let k = got.get(t).copied().unwrap_or(0);
        if k < *n {
            out.push(v("lost", format!("{}::{} was collected {n} times but handed out {k} times", t.0, t.1)));
        } else if k > *n {
            out.push(v("twice", format!("{}::{} was collected {n} times but handed out {k} times", t.0, t.1)));
        }
    }
    for t in got.keys() {
        if !want.contains_key(t) {
            out.push(v("extra", format!("{}::{} was not collected", t.0, t.1)));
        }
    }
    let w = run.workers(sc.ncpu, sc.nphys);
    let one = w == 1 || run.dist.as_deref() == Some("no");
    for (d, (n, units)) in per {
        let max = if one { 1 } else { w };
        if n > max {
            out.push(v("too_many", format!("{n} processes in {d}, {max} allowed")));
        }
        let least = max.min(units.len());
        if n < least {
            out.push(v("too_few", format!("{n} processes in {d}, {least} are asked for")));
        }
    }
}

fn class_of(part: &str) -> String {
    let name = part.split('[').next().unwrap_or(part);
    match name.rsplit_once("::") {
        Some((c, _)) => c.to_string(),
        None => String::new(),
    }
}

fn c06(sc: &Scenario, o: &Obs, out: &mut Out) {
    let run = &sc.runs[0];
    if !executes(sc, run) {
        return;
    }
    let dist = run.dist.clone().unwrap_or_else(|| "load".into());
    let hs = handed(o);
    let order = collect_model(sc, run).tests;
    let mut pos: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (i, t) in order.iter().enumerate() {
        pos.entry(t.clone()).or_insert(i);
    }
    let once = pos.len() == order.len();
    let mut home: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut sizes: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, h) in hs.iter().enumerate() {
        let t = ids(h.meta);
        sizes.entry(h.cwd.to_string()).or_default().push(t.len());
        let mut last: BTreeMap<String, usize> = BTreeMap::new();
        for (f, x) in &t {
            let f = f.clone().unwrap_or_else(|| "?".into());
            if once {
                if let Some(p) = pos.get(&(f.clone(), x.clone())) {
                    // the unit that stays together: the class or the plain functions with loadscope, the file otherwise
                    let unit = if dist == "loadscope" { format!("{f} {}", class_of(x)) } else { f.clone() };
                    if last.get(&unit).map(|q| q > p).unwrap_or(false) {
                        out.push(v("order", format!("tests of {f} are given to a process out of order")));
                    }
                    last.insert(unit, *p);
                }
            }
            let key = match dist.as_str() {
                "loadfile" => (f.clone(), String::new()),
                "loadscope" => (f.clone(), class_of(x)),
                _ => continue,
            };
            if let Some(j) = home.get(&key) {
                if *j != i && once {
                    out.push(v("split", format!("{dist}: {} {} is split over two processes", key.0, key.1)));
                }
            }
            home.insert(key, i);
        }
    }
    if dist == "load" || dist == "worksteal" {
        for (d, s) in sizes {
            let (a, b) = (s.iter().min().unwrap(), s.iter().max().unwrap());
            if b - a > 1 {
                out.push(v("uneven", format!("{dist}: processes in {d} get between {a} and {b} tests")));
            }
        }
    }
}

fn c07(sc: &Scenario, o: &Obs, out: &mut Out) {
    if not_ended(o, out) {
        return;
    }
    let run = &sc.runs[0];
    if !executes(sc, run) {
        return;
    }
    let mut why: Option<String> = None;
    let mut got = BTreeSet::new();
    for h in handed(o) {
        match h.proc {
            None => why = Some("a process could not be started".into()),
            Some(p) => {
                if p.status != 0 || !p.ended {
                    why.get_or_insert(format!("a process ended with {}", status_text(p.status)));
                }
                for (f, x) in ids(h.meta) {
                    got.insert((f.unwrap_or_default(), x));
                }
            }
        }
    }
    let mut lost: Option<String> = None;
    if o.fired.contains_key("thread_create_EAGAIN") {
        lost = Some("a worker thread could not be started".into());
    }
    if o.fired.keys().any(|k| k.starts_with("fs_pipe")) {
        lost = Some("a pipe could not be made".into());
    }
    for t in collect_model(sc, run).tests {
        if !got.contains(&t) {
            lost = Some(format!("{}::{} was not run", t.0, t.1));
        }
    }
    let why = why.or(lost.clone());
    let e = o.lps[0].exit.unwrap_or(-1);
    if o.fired.keys().any(|k| k.starts_with("fs_wait")) {
        // how a process ended was kept from the run: all it can do is not to claim success for one that failed
        if let (Some(w), 0) = (&why, e) {
            out.push(v("exit0", format!("exit status 0 although {w}")));
        }
        return;
    }
    match (&why, e) {
        (Some(w), 0) => out.push(v("exit0", format!("exit status 0 although {w}"))),
        (None, e) if e != 0 => out.push(v("exit_nonzero", format!("exit status {e} although every process succeeded"))),
        _ => {}
    }
    // the only process of the run (and every test was given to it)
    if o.procs.len() == 1 && o.failed.is_empty() && lost.is_none() && o.procs[0].status & 0x7f == 0 {
        let c = o.procs[0].status >> 8 & 0xff;
        if c != 0 && c != e {
            out.push(v("changed", format!("the only process exited with {c}, the run with {e}")));
        }
    }
}

fn c08(sc: &Scenario, os: &[Obs], out: &mut Out) {
    let run = &sc.runs[0];
    for o in os {
        if not_ended(o, out) {
            return;
        }
        let w = run.workers(sc.ncpu, sc.nphys);
        if !executes(sc, run) || w == 1 || run.dist.as_deref() == Some("no") || o.lps[0].exit == Some(101) {
            return;
        }
        let so = text(&o.lps[0].out);
        let se = text(&o.lps[0].err);
        let hs = handed(o);
        let n = hs.len();
        let mut at = match so.find("=== Worker 0 ===\n") {
            Some(i) => i,
            None => {
                out.push(v("heading", "no heading for worker 0"));
                return;
            }
        };
        let mut blocks = vec![];
        for k in 0..n {
            let head = format!("=== Worker {k} ===\n");
            let rest = &so[at..];
            if !rest.starts_with(&head) {
                out.push(v("heading", format!("heading for worker {k} expected at {:?}", rest.chars().take(40).collect::<String>())));
                return;
            }
            let body = at + head.len();
            let next = format!("=== Worker {} ===\n", k + 1);
            let end = if k + 1 < n {
                match so[body..].find(&next) {
                    Some(i) => body + i,
                    None => {
                        out.push(v("heading", format!("no heading for worker {}", k + 1)));
                        return;
                    }
                }
            } else {
                so.len()
            };
            blocks.push(so[body..end].to_string());
            at = end;
        }
        let outs: Vec<Option<(String, String)>> = hs.iter().map(|h| h.proc.map(|p| (text(&p.out[0]), text(&p.out[1])))).collect();
        let fits = |k: usize, i: usize| -> bool {
            match &outs[i] {
                Some((a, _)) => blocks[k] == *a || blocks[k].strip_suffix('\n') == Some(a.as_str()),
                None => blocks[k].is_empty() || blocks[k] == "\n",
            }
        };
        for k in 0..n {
            if !(0..n).any(|i| fits(k, i)) {
                out.push(v("stdout", format!("the text under worker {k} is no process's standard output: {:?}", blocks[k].chars().take(80).collect::<String>())));
                return;
            }
        }
        // a permutation under which both streams are complete
        struct S<'a> {
            n: usize,
            outs: &'a [Option<(String, String)>],
            fits: &'a dyn Fn(usize, usize) -> bool,
            se: &'a str,
            budget: u32,
        }
        fn go(s: &mut S, k: usize, used: &mut Vec<bool>, at: usize) -> bool {
            if s.budget == 0 {
                return true;
            }
            s.budget -= 1;
            if k == s.n {
                return at == s.se.len();
            }
            for i in 0..s.n {
                if used[i] || !(s.fits)(k, i) {
                    continue;
                }
                used[i] = true;
                match &s.outs[i] {
                    Some((_, e)) => {
                        if s.se[at..].starts_with(e.as_str()) && go(s, k + 1, used, at + e.len()) {
                            return true;
                        }
                        let nl = at + e.len();
                        if s.se[at..].starts_with(e.as_str()) && !e.is_empty() && s.se[nl..].starts_with('\n') && go(s, k + 1, used, nl + 1) {
                            return true;
                        }
                    }
                    None => {
                        // some message of the run's own
                        let mut p = at;
                        while p <= s.se.len() {
                            if s.se.is_char_boundary(p) && go(s, k + 1, used, p) {
                                return true;
                            }
                            p += 1;
                            if p - at > 300 {
                                break;
                            }
                        }
                    }
                }
                used[i] = false;
            }
            false
        }
        let mut s = S { n, outs: &outs, fits: &fits, se: &se, budget: 20000 };
        if !go(&mut s, 0, &mut vec![false; n], 0) {
            out.push(v("stderr", "standard error is not the workers' texts, complete and in worker order"));
        }
    }
    if os.len() == 2 && out.is_empty() && os[0].lps[0].out != os[1].lps[0].out {
        out.push(v("order", "the same workers are shown in a different order under another schedule"));
    }
}

fn c09(sc: &Scenario, o: &Obs, out: &mut Out) {
    let run = &sc.runs[0];
    if !executes(sc, run) {
        return;
    }
    let want = multiset(&collect_model(sc, run).tests);
    let mut got = vec![];
    // ids below links may be run from the root or from the linked project
    let linked = sc.tree.values().any(|n| matches!(n, Node::Link(_)));
    let faulted: BTreeSet<String> = sc.faults.iter().map(|f| f.path.trim_start_matches("/sim/w/").to_string()).collect();
    for h in handed(o) {
        if kind(&h) != "pytest" {
            continue;
        }
        let roots = parse_pytest(h.argv).map(|x| x.1).unwrap_or_default();
        if roots.len() != 1 || real(sc, &join(h.cwd, &roots[0])) != real(sc, h.cwd) {
            out.push(v("rootdir", format!("--rootdir {roots:?} for a process in {}", h.cwd)));
        }
        for (f, x) in ids(h.meta) {
            match f {
                None => out.push(v("path", format!("{:?} in {} names no file", h.argv, h.cwd))),
                Some(f) => {
                    let home = project_of(sc, &run.cwd, &f);
                    if real(sc, h.cwd) != home && !faulted.contains(&f) {
                        let via_link = linked && h.argv.iter().any(|a| is_linked_id(sc, h.cwd, a, &f) && real(sc, h.cwd) == spelled_home(sc, run, h.cwd, a));
                        if !via_link {
                            out.push(v("home", format!("{f} belongs to {home} but is run in {}", h.cwd)));
                        }
                    }
                    got.push((f, x));
                }
            }
        }
    }
    let got = multiset(&got);
    for (t, n) in &want {
        let k = got.get(t).copied().unwrap_or(0);
        if k != *n {
            out.push(v(if k < *n { "dropped" } else { "twice" }, format!("{}::{} was collected {n} times but handed out {k} times", t.0, t.1)));
        }
    }
    for t in got.keys() {
        if !want.contains_key(t) {
            out.push(v("extra", format!("{}::{} was not collected", t.0, t.1)));
        }
    }
}
/// A directory without links and '..', however it is spelled.
fn real(sc: &Scenario, p: &str) -> String {
    match p.strip_prefix("/sim/w/").and_then(|rel| Vfs::new(sc).canon(rel)) {
        Some(c) => format!("{W}/{c}").trim_end_matches('/').to_string(),
        None => lexical(p),
    }
}
/// The project in which the spelling of an id lies, links or not.
fn spelled_home(sc: &Scenario, run: &Run, cwd: &str, id: &str) -> String {
    let abs = lexical(&join(cwd, id.split("::").next().unwrap_or(id)));
    project_of(sc, &run.cwd, abs.strip_prefix("/sim/w/").unwrap_or(""))
}
/// Is this id spelled through a link (so that its spelling and its file lie in different places)?
fn is_linked_id(sc: &Scenario, cwd: &str, id: &str, canon: &str) -> bool {
    let file = id.split("::").next().unwrap_or(id);
    let abs = join(cwd, file);
    let vfs = Vfs::new(sc);
    match abs.strip_prefix("/sim/w/") {
        Some(rel) => vfs.canon(rel).as_deref() == Some(canon) && lexical(&abs) != format!("{W}/{canon}"),
        None => false,
    }
}

fn norm_out(s: &str) -> String {
    // durations
    let mut o = String::new();
    for l in s.split_inclusive('\n') {
        match (l.starts_with("==="), l.rfind(" in ")) {
            (true, Some(i)) if l.contains("s ===") => o.push_str(&format!("{} in *\n", &l[..i])),
            _ => o.push_str(&norm_tmp(l)),
        }
    }
    o
}
fn spawn_set(o: &Obs) -> Vec<String> {
    let mut s: Vec<String> = handed(o).iter().map(|h| format!("{} | {:?} | {:?}", h.cwd, h.argv.iter().map(|a| norm_tmp(a)).collect::<Vec<_>>(), h.env)).collect();
    s.sort();
    s
}
fn c10(sc: &Scenario, os: &[Obs], out: &mut Out) {
    for o in os {
        if not_ended(o, out) {
            return;
        }
    }
    if os.len() < 2 {
        return;
    }
    let (a, b) = (&os[0], &os[1]);
    if spawn_set(a) != spawn_set(b) {
        out.push(v("spawns", "two runs over the same inputs start different processes"));
    }
    for lp in 0..sc.runs.len() {
        if a.lps[lp].exit != b.lps[lp].exit {
            out.push(v("exit", format!("exit status {:?} and {:?} for the same inputs", a.lps[lp].exit, b.lps[lp].exit)));
        }
        let (x, y) = (norm_out(&text(&a.lps[lp].out)), norm_out(&text(&b.lps[lp].out)));
        if x != y {
            let d = x.lines().zip(y.lines()).find(|(p, q)| p != q).map(|(p, q)| format!("{p:?} / {q:?}")).unwrap_or_else(|| "one is longer".into());
            out.push(v("report", format!("two runs over the same inputs print different reports: {d}")));
        }
        let (x, y) = (norm_out(&text(&a.lps[lp].err)), norm_out(&text(&b.lps[lp].err)));
        if x != y {
            let d = x.lines().zip(y.lines()).find(|(p, q)| p != q).map(|(p, q)| format!("{p:?} / {q:?}")).unwrap_or_else(|| "one is longer".into());
            out.push(v("stderr", format!("two runs over the same inputs print different errors: {d}")));
        }
    }
}

fn c11(_sc: &Scenario, o: &Obs, out: &mut Out) {
    if not_ended(o, out) {
        return;
    }
    for p in &o.procs {
        if !p.ended {
            out.push(v("early", format!("the run ended before process {}", p.pid)));
        } else if !p.reaped {
            out.push(v("not_waited", format!("process {} was never waited for", p.pid)));
        }
    }
}

fn c12(sc: &Scenario, o: &Obs, out: &mut Out) {
    if not_ended(o, out) {
        return;
    }
    let mut outs: BTreeMap<String, usize> = BTreeMap::new();
    for h in handed(o) {
        if let Some(p) = h.meta["args"]["out"].as_str() {
            let path = lexical(&join(h.cwd, p));
            if let Some(other) = outs.insert(path.clone(), h.lp) {
                if other != h.lp {
                    out.push(v("shared", format!("two runs use the same results file {}", norm_tmp(&path))));
                }
            }
        }
    }
    for (lp, run) in sc.runs.iter().enumerate() {
        if run.native {
            let mut got = vec![];
            if sc.thread_fail.is_none() {
                summary_check(sc, o, lp, &mut got);
            }
            for g in got {
                out.push(v("foreign", format!("run {lp} does not report exactly its own results: {}", g.msg)));
            }
            let t = native_trouble(sc, o, lp);
            if t.is_empty() && executes(sc, run) && o.lps[lp].exit != Some(0) && !sc.faults.iter().any(|f| f.op == "mkdir" && f.errno != 17) && sc.thread_fail.is_none() {
                out.push(v("disturbed", format!("run {lp} fails although all its workers succeeded")));
            }
        }
        for (op, p) in &o.lps[lp].muts {
            if lexical(p).starts_with("/sim/w/") || lexical(p) == W {
                out.push(v("project", format!("the run did '{op}' on {p} in the project")));
            }
        }
    }
    let mut before: BTreeSet<String> = sc.tmp.keys().flat_map(|p| {
        let mut v = vec![p.clone()];
        let mut q = p.as_str();
        while let Some((a, _)) = q.rsplit_once('/') {
            v.push(a.to_string());
            q = a;
        }
        v
    }).collect();
    let gone: Vec<&String> = before.iter().filter(|p| !o.tmp.contains(p)).collect();
    if let Some(g) = gone.first() {
        out.push(v("removed_foreign", format!("{g} in the temporary directory does not belong to the run but is gone")));
    }
    before.extend(std::iter::empty());
    for p in &o.tmp {
        if !before.contains(p) {
            out.push(v("left", format!("left in the temporary directory: {}", norm_tmp(&format!("/tmp/{p}")))));
            break;
        }
    }
    for p in &o.outside {
        out.push(v("outside", format!("access outside project and temporary directory: {p}")));
    }
}

fn c13(sc: &Scenario, o: &Obs, out: &mut Out) {
    let run = &sc.runs[0];
    if !executes(sc, run) {
        return;
    }
    let mut base: BTreeMap<String, String> = sc.env.clone();
    for (k, x) in base_env() {
        base.entry(k).or_insert(x);
    }
    let mut set: BTreeMap<String, String> = BTreeMap::new();
    if !run.native {
        for e in &run.env {
            match e.split_once('=') {
                Some((k, x)) => {
                    set.insert(k.into(), x.into());
                }
                None => {
                    // (the library only logs it)
                    let all = format!("{}{}", text(&o.lps[0].out), text(&o.lps[0].err));
                    if !sc.api && !all.contains(e.as_str()) {
                        out.push(v("warning", format!("no warning about the malformed {e:?}")));
                    }
                }
            }
        }
    }
    let mut want_env = base.clone();
    want_env.extend(set.clone());
    let tests: BTreeSet<(String, String)> = collect_model(sc, run).tests.into_iter().collect();
    let wanted_files = native_model(sc, run);
    for h in handed(o) {
        let prog = h.proc.map(|p| p.program.clone()).unwrap_or_else(|| h.argv[0].clone());
        if prog != PY || h.argv[0] != PY {
            out.push(v("interpreter", format!("started {prog:?} as {:?} instead of {PY}", h.argv[0])));
        }
        for (k, x) in &want_env {
            match h.env.get(k) {
                Some(y) if y == x => {}
                other => out.push(v("env", format!("{k} is {other:?} in a worker, {x:?} is asked for"))),
            }
        }
        for k in h.env.keys() {
            if !want_env.contains_key(k) && run.env.iter().any(|e| e.split('=').next() == Some(k.as_str())) {
                out.push(v("env", format!("{k} is set in a worker although its entry is malformed")));
            }
        }
        if run.native {
            let a: NativeArgs = serde_json::from_value(h.meta["args"].clone()).unwrap_or_default();
            if kind(&h) != "native" || a.bad.is_some() {
                out.push(v("argv", format!("the worker cannot read its command line ({:?}): {:?}", a.bad, h.argv)));
                continue;
            }
            let root = a.root.unwrap_or_default();
            if lexical(&join(h.cwd, &root)) != run.cwd || h.cwd != run.cwd {
                out.push(v("root", format!("--root {root:?} in {}", h.cwd)));
            }
            let c = sc.cfg.clone().unwrap_or_default();
            let or = |v: &Vec<String>, d: &str| if v.is_empty() { vec![d.to_string()] } else { v.clone() };
            let (wc, wf) = (or(&c.python_classes, "Test*"), or(&c.python_functions, "test*"));
            if a.classes.clone().unwrap_or_else(|| vec!["Test*".into()]) != wc {
                out.push(v("patterns", format!("class patterns {:?} instead of {wc:?}", a.classes)));
            }
            if a.functions.clone().unwrap_or_else(|| vec!["test*".into()]) != wf {
                out.push(v("patterns", format!("function patterns {:?} instead of {wf:?}", a.functions)));
            }
            for f in files(h.meta) {
                if !f.as_ref().map(|f| wanted_files.contains(f)).unwrap_or(false) {
                    out.push(v("file", format!("a file argument is not a selected file: {:?}", h.argv)));
                }
            }
        } else {
            let (_, roots, opts) = match parse_pytest(h.argv) {
                Some(x) => x,
                None => {
                    out.push(v("argv", format!("not '-m pytest': {:?}", h.argv)));
                    continue;
                }
            };
            if roots.len() != 1 || real(sc, &join(h.cwd, &roots[0])) != real(sc, h.cwd) {
                out.push(v("rootdir", format!("--rootdir {roots:?} for a process in {}", h.cwd)));
            }
            if !opts.is_empty() {
                out.push(v("argv", format!("unexpected options {opts:?}")));
            }
            for (f, x) in ids(h.meta) {
                let ok = f.as_ref().map(|f| tests.contains(&(f.clone(), x.clone()))).unwrap_or(false);
                if !ok {
                    out.push(v("id", format!("a process is given {f:?}::{x}, which was not collected")));
                }
            }
            let proj: BTreeSet<String> = ids(h.meta).into_iter().filter_map(|(f, _)| f).map(|f| project_of(sc, &run.cwd, &f)).collect();
            if proj.len() == 1 && proj.iter().next().unwrap() != &real(sc, h.cwd) {
                out.push(v("cwd", format!("tests of {proj:?} run in {}", h.cwd)));
            }
        }
    }
}
pub fn base_env() -> BTreeMap<String, String> {
    [("PATH", "/sim/venv/bin"), ("HOME", "/sim/home"), ("TMPDIR", "/sim/tmp"), ("LANG", "C.UTF-8")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn c19(sc: &Scenario, os: &[Obs], out: &mut Out) {
    let run = &sc.runs[0];
    let m = collect_model(sc, run);
    for o in os {
        if not_ended(o, out) {
            return;
        }
        let so = text(&o.lps[0].out);
        let se = text(&o.lps[0].err);
        let e = o.lps[0].exit.unwrap_or(-1);
        let spawned = !o.procs.is_empty() || !o.failed.is_empty();
        let error_on = |what: &str| so.lines().chain(se.lines()).any(|l| l.to_lowercase().contains("error") && l.contains(what) || l.starts_with("FATAL") && l.contains(what));
        // what cannot be examined is listed all the same or named
        let dim: Vec<String> = sc.faults.iter().filter(|f| f.op == "stat").map(|f| f.path.trim_start_matches("/sim/w/").to_string()).collect();
        let named: Vec<&String> = dim.iter().filter(|d| error_on(d.strip_prefix(run.cwd.trim_start_matches("/sim/w/")).unwrap_or(d).trim_start_matches('/'))).collect();
        let told = !named.is_empty();
        // what was asked for and cannot be examined may also be taken as not there
        let asked = |d: &String| run.embed.is_some() || run.paths.iter().any(|p| lexical(&join(&run.cwd, p)) == format!("{W}/{d}"));
        if e == 4 && told && !spawned && dim.iter().any(asked) {
            continue;
        }
        if cfg_unusable(sc, run) {
            if e == 0 || spawned {
                out.push(v("config", "a configuration that cannot be read is taken as none"));
            } else if !error_on("pyproject.toml") {
                out.push(v("config", "no error names the configuration that cannot be read"));
            }
            continue;
        }
        if m.not_found {
            if e != 4 {
                out.push(v("usage", format!("exit status {e} although a given path does not exist")));
            }
            if spawned {
                out.push(v("executed", "tests are executed although a given path does not exist"));
            }
            continue;
        }
        if spawned && (run.collect_only || !m.errors.is_empty()) {
            out.push(v("executed", if run.collect_only { "collect-only executes tests" } else { "tests are executed although collection had errors" }));
        }
        // what the collection lists
        let listed: Vec<String> = so.lines().filter(|l| l.starts_with("  ") && l.contains("::")).map(|l| l[2..].to_string()).collect();
        let vfs = Vfs::new(sc);
        let mut got: BTreeMap<(String, String), usize> = BTreeMap::new();
        for l in &listed {
            if let Some((f, x)) = l.split_once("::") {
                let abs = join(&run.cwd, f);
                if let Some(c) = abs.strip_prefix("/sim/w/").and_then(|r| vfs.canon(r)) {
                    *got.entry((c, x.to_string())).or_insert(0) += 1;
                }
            }
        }
        let mut named: Vec<String> = named.into_iter().flat_map(|d| vfs.canon(d).into_iter().chain([d.clone()])).collect();
        let within = |c: &str, of: &[String]| of.iter().any(|d| c == d || c.starts_with(&format!("{d}/")));
        // links below it lead elsewhere
        let below: Vec<String> = sc.tree.iter().filter(|(p, n)| matches!(n, Node::Link(_)) && within(p, &named)).filter_map(|(p, _)| vfs.canon(p)).collect();
        named.extend(below);
        let under = |c: &str| within(c, &named);
        let want = multiset(&m.tests);
        for (t, n) in &want {
            if got.get(t).copied().unwrap_or(0) < *n && !under(&t.0) {
                out.push(v("hidden", format!("{}::{} is not listed", t.0, t.1)));
            }
        }
        for t in got.keys() {
            if !want.contains_key(t) && !m.free.contains(&t.0) && !within(&t.0, &dim) && m.errors.iter().all(|e| e.1 != t.0) && !spawned {
                out.push(v("extra", format!("{}::{} is listed but should not be", t.0, t.1)));
            }
        }
        for (path, canon) in &m.errors {
            let rel = path.strip_prefix(run.cwd.trim_start_matches("/sim/w/")).unwrap_or(path).trim_start_matches('/');
            let name = canon.strip_prefix(run.cwd.trim_start_matches("/sim/w/")).unwrap_or(canon).trim_start_matches('/');
            let plain = lexical(&format!("/{rel}"));
            let plain = plain.trim_start_matches('/');
            let named = |l: &str| plain.is_empty() || l.contains(rel) || l.contains(plain) || l.contains(name) || lexical(&format!("/{l}")).contains(name);
            let hit = so.lines().chain(se.lines()).any(|l| l.to_lowercase().contains("error") && named(l));
            if !hit && !under(canon) {
                out.push(v("unnamed", format!("{canon} could not be read or parsed, but no error names it")));
            }
        }
        if (!m.errors.is_empty() || told) && e == 0 {
            out.push(v("exit0", "exit status 0 although collection had errors"));
        }
        if m.errors.is_empty() && !told && (run.collect_only || m.tests.is_empty()) && e != 0 {
            out.push(v("exit_nonzero", format!("exit status {e} although collection succeeded and nothing was run")));
        }
    }
    if os.len() == 2 {
        let list = |o: &Obs| -> Vec<String> { text(&o.lps[0].out).lines().filter(|l| l.starts_with("  ") && l.contains("::")).map(String::from).collect() };
        if m.errors.is_empty() && !m.not_found && list(&os[0]) != list(&os[1]) {
            out.push(v("listing_order", "the order of the listed tests depends on the directory listing order"));
        }
    }
}

pub fn check(prop: &str, sc: &Scenario, os: &[Obs]) -> Out {
    let mut out = vec![];
    match prop {
        "C01" => os.iter().for_each(|o| c01(sc, o, &mut out)),
        "C02" => os.iter().for_each(|o| c02(sc, o, &mut out)),
        "C03" => c03(sc, os, &mut out),
        "C04" => c04(sc, os, &mut out),
        "C05" => os.iter().for_each(|o| c05(sc, o, &mut out)),
        "C06" => os.iter().for_each(|o| c06(sc, o, &mut out)),
        "C07" => os.iter().for_each(|o| c07(sc, o, &mut out)),
        "C08" => c08(sc, os, &mut out),
        "C09" => os.iter().for_each(|o| c09(sc, o, &mut out)),
        "C10" => c10(sc, os, &mut out),
        "C11" => os.iter().for_each(|o| c11(sc, o, &mut out)),
        "C12" => os.iter().for_each(|o| c12(sc, o, &mut out)),
        "C13" => os.iter().for_each(|o| c13(sc, o, &mut out)),
        "C19" => c19(sc, os, &mut out),
        _ => {}
    }
    out
}

/// Did the property's own rule have anything to judge in this run?
pub fn nontrivial(prop: &str, sc: &Scenario, os: &[Obs]) -> bool {
    let o = &os[0];
    let n = o.procs.len() + o.failed.len();
    match prop {
        "C01" => n > 0,
        "C02" => n > 1 && o.procs.iter().any(|p| !recs(&p.meta).is_empty()),
        "C03" => n > 1,
        "C04" => n > 0 && native_model(sc, &sc.runs[0]).len() > 1,
        "C05" => n > 0,
        "C06" | "C08" => n > 1,
        "C07" => n > 0,
        "C09" => n > 0 && sc.tree.keys().any(|k| k.ends_with("pyproject.toml") && k != "proj/pyproject.toml"),
        "C10" | "C11" => n > 1,
        "C12" => n > 0,
        "C13" => n > 0,
        "C19" => !o.lps[0].out.is_empty() || o.lps[0].exit == Some(4),
        _ => true,
    }
}
