//! Worker (runs the cases of one suite shard in this process) and parent (spawns workers, watches for crashes,
//! shrinks, writes evidence and replay files).

use crate::engine::*;
use crate::guided::{tail_seed, Guide};
use crate::suites::{all, Kind, Suite};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// the build with coverage feedback
const GUIDED: &str = "guided";
/// marks the progress file of a guided worker: the start of the choices follows
const GUIDED_CASE: u64 = u64::MAX - 2;
pub const SHRINK_BUDGET: usize = 3000;
/// a case that makes no progress for this long is taken to hang (native builds, Miri)
const HANG_S: u64 = 45;
const HANG_MIRI_S: u64 = 200;
const MAX_HASHES: usize = 1_000_000;

fn hang_limit(miri: bool) -> Duration {
    Duration::from_secs(if miri { HANG_MIRI_S } else { HANG_S })
}

/// Runaway allocation in the code under test ends the worker by itself instead of exhausting the machine.
fn limit_memory() {
    if cfg!(miri) {
        return;
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let lim = [6u64 << 30, 6u64 << 30];
    unsafe {
        setrlimit(RLIMIT_AS, &lim);
    }
}

pub fn find_suite(name: &str) -> Option<Suite> {
    all().into_iter().find(|s| s.name == name)
}

pub fn case_seed(seed: u64, suite: &str, profile: &str, index: u64) -> u64 {
    hash64(&[seed, hash_str(suite), hash_str(profile), index])
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn csv(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn uncsv(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.trim().is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

pub struct Args(Vec<String>);
impl Args {
    pub fn new() -> Self {
        Args(std::env::args().skip(1).collect())
    }
    pub fn pos(&self, i: usize) -> &str {
        self.0.get(i).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        let key = format!("--{}", k);
        self.0.iter().position(|a| *a == key).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.opt(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn known_from_env() -> Vec<String> {
    std::env::var("VH_KNOWN").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

pub fn run_choices(s: &Suite, rec: &[u64], scale: u8, known: &[String], verbose: bool) -> (Res, Vec<u64>, Vec<String>) {
    let mut src = Src::replay(rec);
    src.scale = scale;
    src.known = known;
    src.verbose = verbose;
    let r = run_case(s.run, &mut src);
    (r, std::mem::take(&mut src.rec), std::mem::take(&mut src.log))
}

/// Runs one shard of one suite. Exit code 0 = all cases passed, 10 = failure recorded in the output file.
pub fn worker(a: &Args) -> i32 {
    limit_memory();
    let suite = match find_suite(a.pos(1)) {
        Some(s) => s,
        None => return 2,
    };
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let cases = a.num("cases", 1000);
    let scale = a.num("scale", 0) as u8;
    let profile = a.opt("profile").unwrap_or("dev").to_string();
    let out = a.opt("out").unwrap_or("/dev/stdout").to_string();
    let progress = a.opt("progress").and_then(|p| fs::File::create(p).ok());
    let known = known_from_env();

    let mut evals = 0u64;
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut fail: Option<(u64, Vec<u64>, String)> = None;
    let mut beat = 0u64;
    let mut exhaustive_done = false;
    let mut kept = 0u64;
    let tag = hash_str(suite.name);

    let mut account = |src: &Src, evals: &mut u64, samples: &mut Vec<String>| {
        *evals += 1;
        for l in &src.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        for (k, n) in &src.known_hits {
            *hits.entry(k.clone()).or_insert(0) += n;
        }
        if src.nontrivial {
            let mut h = hash64(&src.rec);
            h = hash64(&[tag, h]);
            if hashes.len() < MAX_HASHES {
                hashes.push(h);
            }
            // a few samples from the middle of the run, not only the first
            if samples.len() < 2 && (*evals > cases / shards / 3 || cases < 100) && src.rec.len() < 400 {
                let mut v = Src::replay(&src.rec);
                v.scale = scale;
                v.verbose = true;
                v.known = &known;
                let _ = run_case(suite.run, &mut v);
                let mut t = v.log.join("; ");
                if t.len() > 700 {
                    let mut cut = 700;
                    while !t.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    t.truncate(cut);
                    t.push_str(" ...");
                }
                samples.push(t);
            }
        }
    };

    match suite.kind {
        Kind::Random if profile == GUIDED => {
            let mut guide = Guide::new(case_seed(seed, suite.name, &profile, shard));
            let mut i = shard;
            while i < cases {
                let start = guide.next();
                if let Some(p) = &progress {
                    beat += 1;
                    let mut b = Vec::with_capacity(24 + 8 * start.len());
                    b.extend_from_slice(&GUIDED_CASE.to_le_bytes());
                    b.extend_from_slice(&beat.to_le_bytes());
                    b.extend_from_slice(&(start.len() as u64).to_le_bytes());
                    start.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
                    let _ = p.write_at(&b, 0);
                }
                let mut src = Src::guided(&start, tail_seed(&start));
                src.scale = scale;
                src.known = &known;
                guide.begin();
                let r = run_case(suite.run, &mut src);
                guide.end(&src);
                if let Err(m) = r {
                    evals += 1;
                    fail = Some((i, std::mem::take(&mut src.rec), m));
                    break;
                }
                account(&src, &mut evals, &mut samples);
                i += shards;
            }
            kept = guide.kept;
        }
        Kind::Random => {
            let mut i = shard;
            while i < cases {
                if let Some(p) = &progress {
                    beat += 1;
                    let mut b = [0u8; 16];
                    b[..8].copy_from_slice(&i.to_le_bytes());
                    b[8..].copy_from_slice(&beat.to_le_bytes());
                    let _ = p.write_at(&b, 0);
                }
                let mut src = Src::random(case_seed(seed, suite.name, &profile, i));
                src.scale = scale;
                src.known = &known;
                let r = run_case(suite.run, &mut src);
                if let Err(m) = r {
                    evals += 1;
                    fail = Some((i, std::mem::take(&mut src.rec), m));
                    break;
                }
                account(&src, &mut evals, &mut samples);
                i += shards;
            }
        }
        Kind::Exhaustive => {
            let mut prefix: Vec<u64> = vec![shard];
            let mut idx = 0u64;
            loop {
                if let Some(p) = &progress {
                    beat += 1;
                    let mut b = [0u8; 16];
                    b[..8].copy_from_slice(&idx.to_le_bytes());
                    b[8..].copy_from_slice(&beat.to_le_bytes());
                    let _ = p.write_at(&b, 0);
                }
                let (next, failed) = {
                    let mut src = Src::replay(&prefix);
                    src.scale = scale;
                    src.known = &known;
                    let r = run_case(suite.run, &mut src);
                    if src.rec.first().copied() != Some(shard) && prefix.len() == 1 && prefix[0] == shard {
                        // fewer first choices than shards
                        if src.rec.is_empty() && shard == 0 {
                            // a suite without choices: a single case
                        } else {
                            exhaustive_done = true;
                            break;
                        }
                    }
                    if let Err(m) = r {
                        evals += 1;
                        (None, Some((idx, std::mem::take(&mut src.rec), m)))
                    } else {
                        account(&src, &mut evals, &mut samples);
                        let mut rec = std::mem::take(&mut src.rec);
                        let mut lim = std::mem::take(&mut src.lim);
                        let mut nx = None;
                        while let (Some(v), Some(n)) = (rec.pop(), lim.pop()) {
                            let step = if rec.is_empty() { shards } else { 1 };
                            if v + step < n {
                                rec.push(v + step);
                                nx = Some(rec);
                                break;
                            }
                        }
                        (nx, None)
                    }
                };
                if failed.is_some() {
                    fail = failed;
                    break;
                }
                idx += 1;
                match next {
                    Some(p) => prefix = p,
                    None => {
                        exhaustive_done = true;
                        break;
                    }
                }
            }
        }
    }

    if let Some((i, rec, m)) = fail.take() {
        let mut n = 0u64;
        let sr = shrink(rec, m, SHRINK_BUDGET, |cand| {
            n += 1;
            if let Some(p) = &progress {
                let mut b = [0u8; 16];
                b[..8].copy_from_slice(&(u64::MAX - 1).to_le_bytes());
                b[8..].copy_from_slice(&(beat + n).to_le_bytes());
                let _ = p.write_at(&b, 0);
                let _ = p.write_at(csv(cand).as_bytes(), 32);
            }
            let (r, rec, _) = run_choices(&suite, cand, scale, &known, false);
            r.err().map(|m| (rec, m))
        });
        fail = Some((i, sr.rec, sr.msg));
    }

    let mut f = match fs::File::create(&out) {
        Ok(f) => f,
        Err(_) => return 2,
    };
    let mut text = String::new();
    text.push_str(&format!("evals {}\n", evals));
    text.push_str(&format!("exhaustive {}\n", if exhaustive_done { 1 } else { 0 }));
    for (l, n) in &labels {
        text.push_str(&format!("label {} {}\n", n, l));
    }
    for (k, n) in &hits {
        text.push_str(&format!("known {} {}\n", n, k));
    }
    if kept > 0 {
        text.push_str(&format!("label {} kept by the coverage guidance\n", kept));
    }
    for s in &samples {
        text.push_str(&format!("sample {}\n", esc(s)));
    }
    for h in &hashes {
        text.push_str(&format!("h {:x}\n", h));
    }
    let code = if let Some((i, rec, m)) = &fail {
        text.push_str(&format!("fail {}\t{}\t{}\n", i, csv(rec), esc(m)));
        10
    } else {
        0
    };
    if f.write_all(text.as_bytes()).is_err() {
        return 2;
    }
    code
}

/// Runs one random case writing every choice to a file as it is drawn (to learn the choices of a crashing case).
pub fn trace(a: &Args) -> i32 {
    limit_memory();
    let suite = match find_suite(a.pos(1)) {
        Some(s) => s,
        None => return 2,
    };
    let profile = a.opt("profile").unwrap_or("dev");
    let start = a.opt("start").map(|p| uncsv(&fs::read_to_string(p).unwrap_or_default()));
    let mut src = match &start {
        Some(v) => Src::guided(v, tail_seed(v)),
        None => Src::random(case_seed(a.num("seed", 1), suite.name, profile, a.num("index", 0))),
    };
    src.scale = a.num("scale", 0) as u8;
    let known = known_from_env();
    src.known = &known;
    if let Ok(f) = fs::File::create(a.opt("out").unwrap_or("/dev/null")) {
        src.trace_to(f);
    }
    match run_case(suite.run, &mut src) {
        Ok(()) => 0,
        Err(_) => 10,
    }
}

/// Runs given choices: exit 0 passes, 10 fails (message on stdout).
pub fn raw(a: &Args) -> i32 {
    limit_memory();
    let suite = match find_suite(a.pos(1)) {
        Some(s) => s,
        None => return 2,
    };
    let rec = match a.opt("file") {
        Some(p) => uncsv(&fs::read_to_string(p).unwrap_or_default()),
        None => uncsv(a.opt("choices").unwrap_or("")),
    };
    let known = known_from_env();
    let (r, _, log) = run_choices(&suite, &rec, a.num("scale", 0) as u8, &known, true);
    for l in &log {
        println!("  {}", l);
    }
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("FAIL {}", m);
            10
        }
    }
}

// ---------------------------------------------------------------------------------------------------------

#[derive(Clone)]
struct Launcher {
    profile: String,
    cmd: Vec<String>,
    scale: u64,
    miri: bool,
}

struct Unit {
    suite: Suite,
    launcher: Launcher,
    shard: u64,
    shards: u64,
    cases: u64,
}

struct Running {
    unit: usize,
    child: Child,
    out: PathBuf,
    progress: PathBuf,
    stderr: PathBuf,
    last: (u64, Instant),
    hung: bool,
}

struct Violation {
    suite: String,
    launcher: Launcher,
    choices: Vec<u64>,
    msg: String,
    /// parameters of the shard, when only the whole shard reproduces it
    shard: Option<String>,
}

fn wait_at_most(c: &mut Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(_) => return None,
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn base_command(l: &Launcher, known: &str) -> Command {
    let mut c = Command::new(&l.cmd[0]);
    c.args(&l.cmd[1..]);
    c.env("VH_KNOWN", known);
    c.env_remove("RUST_BACKTRACE");
    c.stdin(Stdio::null());
    c
}

fn read_progress(p: &Path) -> (u64, u64) {
    match fs::File::open(p) {
        Ok(f) => {
            let mut b = [0u8; 16];
            match f.read_at(&mut b, 0) {
                Ok(16) => (
                    u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]),
                    u64::from_le_bytes([b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]),
                ),
                _ => (0, 0),
            }
        }
        Err(_) => (0, 0),
    }
}

enum Outcome {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
    Error(String),
}

/// Runs choices in a child process and classifies the outcome.
fn probe(l: &Launcher, suite: &str, rec: &[u64], dir: &Path, known: &str, limit: Duration) -> Outcome {
    let f = dir.join("probe.choices");
    let _ = fs::write(&f, csv(rec));
    let out = dir.join("probe.out");
    let err = dir.join("probe.err");
    let (of, ef) = match (fs::File::create(&out), fs::File::create(&err)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Outcome::Error("cannot create probe files".into()),
    };
    let mut c = base_command(l, known);
    c.args(["raw", suite, "--file", f.to_str().unwrap(), "--scale", &l.scale.to_string()]);
    let mut ch = match c.stdout(of).stderr(ef).spawn() {
        Ok(c) => c,
        Err(e) => return Outcome::Error(format!("spawn: {}", e)),
    };
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Outcome::Hang;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => return Outcome::Error(format!("wait: {}", e)),
        }
    };
    let so = fs::read_to_string(&out).unwrap_or_default();
    let se = String::from_utf8_lossy(&fs::read(&err).unwrap_or_default()).to_string();
    classify(st.code(), st.signal(), &so, &se, l.miri)
}

fn classify(code: Option<i32>, sig: Option<i32>, so: &str, se: &str, miri: bool) -> Outcome {
    if miri {
        if let Some(p) = se.find("error: Undefined Behavior") {
            let line = se[p..].lines().next().unwrap_or("").to_string();
            let at = se[p..].lines().find(|l| l.contains("--> ")).unwrap_or("").trim().to_string();
            return Outcome::Crash(format!("Miri: {} {}", line, at));
        }
        if let Some(p) = se.find("error: memory leaked") {
            return Outcome::Crash(format!("Miri: {}", se[p..].lines().next().unwrap_or("")));
        }
        if se.contains("error: abnormal termination") {
            return Outcome::Crash("Miri: program aborted".into());
        }
    }
    match (code, sig) {
        (Some(0), _) => Outcome::Pass,
        (Some(10), _) => {
            let m = so.lines().find(|l| l.starts_with("FAIL ")).map(|l| l[5..].to_string()).unwrap_or_default();
            Outcome::Fail(m)
        }
        // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: the process crashed by itself
        (None, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
            let tail = se.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").to_string();
            let over = if se.contains("overflowed its stack") { "stack overflow, " } else { "" };
            Outcome::Crash(format!("process crashed: {}signal {} ({})", over, s, tail.trim()))
        }
        (c, s) => Outcome::Error(format!("worker ended with code {:?} signal {:?}: {}", c, s, se.chars().rev().take(600).collect::<String>().chars().rev().collect::<String>())),
    }
}

fn shrink_crash(l: &Launcher, suite: &str, rec: Vec<u64>, msg: String, dir: &Path, known: &str) -> (Vec<u64>, String) {
    let budget = if l.miri { 25 } else { 400 };
    let sr = shrink(rec, msg, budget, |cand| match probe(l, suite, cand, dir, known, hang_limit(l.miri)) {
        Outcome::Crash(m) | Outcome::Fail(m) => Some((cand.to_vec(), m)),
        _ => None,
    });
    (sr.rec, sr.msg)
}

/// Shrinks a case that does not terminate, trying candidates for a few seconds each.
fn shrink_hang(l: &Launcher, suite: &str, rec: Vec<u64>, msg: String, dir: &Path, known: &str) -> (Vec<u64>, String) {
    if l.miri {
        return (rec, msg);
    }
    let sr = shrink(rec.clone(), msg.clone(), 25, |cand| match probe(l, suite, cand, dir, known, Duration::from_secs(4)) {
        Outcome::Hang => Some((cand.to_vec(), msg.clone())),
        _ => None,
    });
    match probe(l, suite, &sr.rec, dir, known, hang_limit(false)) {
        Outcome::Hang => (sr.rec, sr.msg),
        _ => (rec, msg),
    }
}

fn worker_command(u: &Unit, seed: u64, out: &Path, progress: &Path, known: &str) -> Command {
    let mut c = base_command(&u.launcher, known);
    c.args(["worker", u.suite.name]);
    c.args(["--seed", &seed.to_string(), "--shard", &u.shard.to_string(), "--shards", &u.shards.to_string()]);
    c.args(["--cases", &u.cases.to_string(), "--scale", &u.launcher.scale.to_string(), "--profile", &u.launcher.profile]);
    c.args(["--out", out.to_str().unwrap(), "--progress", progress.to_str().unwrap()]);
    c
}

pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.pos(1).to_string();
    let tier = a.opt("tier").unwrap_or("quick").to_string();
    let seed = a.num("seed", 1);
    let verif = PathBuf::from(a.opt("verif").unwrap_or("/verif"));
    let jobs = a.num("jobs", 8) as usize;
    let thorough = tier == "thorough";
    let scale = if thorough { 1 } else { 0 };
    let mut launchers: Vec<Launcher> = Vec::new();
    for p in ["dev", "release", GUIDED] {
        if let Some(b) = a.opt(p) {
            launchers.push(Launcher { profile: p.into(), cmd: vec![b.into()], scale, miri: false });
        }
    }
    let miri = a.opt("miri").map(|m| Launcher {
        profile: "miri".into(),
        cmd: m.split(' ').map(|s| s.to_string()).collect(),
        scale: 2,
        miri: true,
    });
    let suites: Vec<Suite> = all().into_iter().filter(|s| s.prop == prop).filter(|s| a.opt("only").map_or(true, |o| s.name == o)).collect();
    if suites.is_empty() || launchers.is_empty() {
        eprintln!("no suite for {} or no binaries", prop);
        return 2;
    }
    let known_list = crate::known::parse(&fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default());
    let known: Vec<&crate::known::Known> = known_list.iter().filter(|k| k.prop == prop).collect();
    let known_env = known.iter().map(|k| k.sig.clone()).collect::<Vec<_>>().join(";");

    let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    let _ = fs::create_dir_all(&dir);

    let mut units: Vec<Unit> = Vec::new();
    for s in &suites {
        let total = if thorough { s.thorough } else { s.quick };
        let plain = launchers.iter().filter(|l| l.profile != GUIDED).count() as u64;
        for l in &launchers {
            let guided = l.profile == GUIDED;
            if guided && (s.kind == Kind::Exhaustive || total < 20_000) {
                continue;
            }
            let cases = match s.kind {
                Kind::Random if guided => total * a.num("guided-percent", 10) / 100,
                Kind::Random => (total / plain).max(1),
                Kind::Exhaustive => 0,
            };
            let shards = match s.kind {
                Kind::Random => (jobs as u64 / 2).min(cases).max(1),
                Kind::Exhaustive => if total == 0 { 1 } else { jobs as u64 / 2 },
            };
            for k in 0..shards {
                units.push(Unit { suite: s.clone(), launcher: l.clone(), shard: k, shards, cases });
            }
        }
        if let (Some(m), true) = (&miri, s.miri > 0) {
            let cases = if thorough { s.miri * 8 } else { s.miri };
            let shards = jobs as u64;
            for k in 0..shards {
                units.push(Unit { suite: s.clone(), launcher: m.clone(), shard: k, shards, cases });
            }
        }
    }
    // slow launchers first
    units.sort_by_key(|u| !u.launcher.miri);

    let mut next = 0;
    let mut running: Vec<Running> = Vec::new();
    let mut violation: Option<Violation> = None;
    let mut errors: Vec<String> = Vec::new();
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut per_suite: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut exhaustive_ok: BTreeMap<String, bool> = BTreeMap::new();

    loop {
        while running.len() < jobs && next < units.len() && violation.is_none() && errors.is_empty() {
            let u = &units[next];
            let out = dir.join(format!("u{}.out", next));
            let progress = dir.join(format!("u{}.progress", next));
            let stderr = dir.join(format!("u{}.err", next));
            let mut c = worker_command(u, seed, &out, &progress, &known_env);
            let ef = match fs::File::create(&stderr) {
                Ok(f) => f,
                Err(e) => {
                    errors.push(format!("cannot create {}: {}", stderr.display(), e));
                    break;
                }
            };
            match c.stdout(Stdio::null()).stderr(ef).spawn() {
                Ok(child) => running.push(Running { unit: next, child, out, progress, stderr, last: (0, Instant::now()), hung: false }),
                Err(e) => errors.push(format!("cannot start worker: {}", e)),
            }
            next += 1;
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let done = {
                let r = &mut running[i];
                match r.child.try_wait() {
                    Ok(Some(st)) => Some(st),
                    Ok(None) => {
                        let (_, beat) = read_progress(&r.progress);
                        if beat != r.last.0 {
                            r.last = (beat, Instant::now());
                        } else if !r.hung && r.last.1.elapsed() > hang_limit(units[r.unit].launcher.miri) {
                            r.hung = true;
                            let _ = r.child.kill();
                        }
                        None
                    }
                    Err(e) => {
                        errors.push(format!("wait: {}", e));
                        None
                    }
                }
            };
            let st = match done {
                Some(st) => st,
                None => {
                    i += 1;
                    continue;
                }
            };
            let r = running.swap_remove(i);
            let u = &units[r.unit];
            let text = fs::read_to_string(&r.out).unwrap_or_default();
            let se = String::from_utf8_lossy(&fs::read(&r.stderr).unwrap_or_default()).to_string();
            let key = format!("{} [{}]", u.suite.name, u.launcher.profile);
            let mut failed: Option<(Vec<u64>, String)> = None;
            for line in text.lines() {
                let (k, v) = line.split_once(' ').unwrap_or((line, ""));
                match k {
                    "evals" => {
                        let n: u64 = v.parse().unwrap_or(0);
                        evals += n;
                        *per_suite.entry(u.suite.name.into()).or_default().entry(u.launcher.profile.clone()).or_insert(0) += n;
                    }
                    "exhaustive" => {
                        if u.suite.kind == Kind::Exhaustive {
                            let e = exhaustive_ok.entry(key.clone()).or_insert(true);
                            *e = *e && v == "1";
                        }
                    }
                    "label" => {
                        if let Some((n, l)) = v.split_once(' ') {
                            *labels.entry(u.suite.name.into()).or_default().entry(l.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "known" => {
                        if let Some((n, l)) = v.split_once(' ') {
                            *hits.entry(l.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "sample" => {
                        let e = samples.entry(u.suite.name.into()).or_default();
                        if e.len() < 3 {
                            e.push(unesc(v));
                        }
                    }
                    "h" => {
                        hashes.insert(u64::from_str_radix(v, 16).unwrap_or(0));
                    }
                    "fail" => {
                        let mut p = v.splitn(3, '\t');
                        let _ = p.next();
                        let c = uncsv(p.next().unwrap_or(""));
                        failed = Some((c, unesc(p.next().unwrap_or(""))));
                    }
                    _ => {}
                }
            }
            if violation.is_some() || !errors.is_empty() {
                continue;
            }
            let outcome = if r.hung { Outcome::Hang } else { classify(st.code(), st.signal(), "", &se, u.launcher.miri) };
            match outcome {
                Outcome::Pass => {
                    if text.is_empty() {
                        errors.push(format!("worker for {} left no result", key));
                    }
                }
                Outcome::Fail(_) => match failed {
                    Some((c, m)) => violation = Some(Violation { suite: u.suite.name.into(), launcher: u.launcher.clone(), choices: c, msg: m, shard: None }),
                    None => errors.push(format!("worker for {} failed without a result: {}", key, se)),
                },
                Outcome::Crash(_) | Outcome::Hang => {
                    let m = match outcome {
                        Outcome::Crash(m) => m,
                        _ => format!("the case does not terminate (no result after {} s)", hang_limit(u.launcher.miri).as_secs()),
                    };
                    // find the choices of the crashing case
                    for q in running.iter_mut() {
                        let _ = q.child.kill();
                    }
                    let (idx, _) = read_progress(&r.progress);
                    let rec = if idx == u64::MAX - 1 {
                        // crashed while shrinking an ordinary failure
                        let b = fs::read(&r.progress).unwrap_or_default();
                        let t: String = b.iter().skip(32).map(|&c| c as char).take_while(|c| c.is_ascii_digit() || *c == ',').collect();
                        Some(uncsv(&t))
                    } else if u.suite.kind == Kind::Exhaustive {
                        enumerate_nth(&u.suite, u.shard, u.shards, idx, u.launcher.scale as u8, &dir, &u.launcher, &known_env)
                    } else {
                        let tf = dir.join("trace.choices");
                        // Miri cases are traced natively: the choices do not depend on the interpreter
                        let l = if u.launcher.miri { &launchers[0] } else { &u.launcher };
                        let mut c = base_command(l, &known_env);
                        c.args(["trace", u.suite.name, "--seed", &seed.to_string(), "--index", &idx.to_string()]);
                        c.args(["--scale", &u.launcher.scale.to_string(), "--profile", &u.launcher.profile, "--out", tf.to_str().unwrap()]);
                        if idx == GUIDED_CASE {
                            let b = fs::read(&r.progress).unwrap_or_default();
                            let word = |i: usize| b.get(i..i + 8).map_or(0, |w| u64::from_le_bytes(w.try_into().unwrap_or([0; 8])));
                            let start: Vec<u64> = (0..word(16) as usize).map(|k| word(24 + 8 * k)).collect();
                            let sf = dir.join("start.choices");
                            let _ = fs::write(&sf, csv(&start));
                            c.args(["--start", sf.to_str().unwrap()]);
                        }
                        wait_at_most(c.stdout(Stdio::null()).stderr(Stdio::null()), Duration::from_secs(10));
                        Some(uncsv(&fs::read_to_string(&tf).unwrap_or_default()))
                    };
                    let hit = match &rec {
                        Some(rec) => probe(&u.launcher, u.suite.name, rec, &dir, &known_env, hang_limit(u.launcher.miri)),
                        None => Outcome::Pass,
                    };
                    let rec = rec.unwrap_or_default();
                    let found = match hit {
                        Outcome::Crash(m2) | Outcome::Fail(m2) => Some(shrink_crash(&u.launcher, u.suite.name, rec, m2, &dir, &known_env)),
                        Outcome::Hang => Some(shrink_hang(&u.launcher, u.suite.name, rec, m.clone(), &dir, &known_env)),
                        _ => None,
                    };
                    match found {
                        Some((c, m3)) => violation = Some(Violation { suite: u.suite.name.into(), launcher: u.launcher.clone(), choices: c, msg: m3, shard: None }),
                        None => {
                            // what earlier cases of the shard left behind matters: the shard is the reproduction, if it is one
                            let (o, p) = (dir.join("again.out"), dir.join("again.progress"));
                            let se2 = dir.join("again.err");
                            let mut c = worker_command(u, seed, &o, &p, &known_env);
                            let st2 = fs::File::create(&se2).ok().and_then(|f| c.stdout(Stdio::null()).stderr(f).spawn().ok()).and_then(|mut ch| {
                                let (mut beat, mut since) = (0, Instant::now());
                                loop {
                                    match ch.try_wait() {
                                        Ok(Some(st)) => return Some(Some(st)),
                                        Ok(None) => {
                                            let b = read_progress(&p).1;
                                            if b != beat {
                                                beat = b;
                                                since = Instant::now();
                                            } else if since.elapsed() > hang_limit(u.launcher.miri) {
                                                let _ = ch.kill();
                                                let _ = ch.wait();
                                                return Some(None);
                                            }
                                            std::thread::sleep(Duration::from_millis(10));
                                        }
                                        Err(_) => return None,
                                    }
                                }
                            });
                            let text2 = fs::read(&se2).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
                            let again = match st2 {
                                Some(Some(st)) => match classify(st.code(), st.signal(), "", &text2, u.launcher.miri) {
                                    Outcome::Crash(m) | Outcome::Fail(m) => Some(m),
                                    _ => None,
                                },
                                Some(None) => Some(m.clone()),
                                None => None,
                            };
                            match again {
                                Some(m2) => {
                                    violation = Some(Violation {
                                        suite: u.suite.name.into(),
                                        launcher: u.launcher.clone(),
                                        choices: Vec::new(),
                                        msg: if m2.is_empty() { m.clone() } else { m2 },
                                        shard: Some(format!("seed={}\nshard={}\nshards={}\ncases={}", seed, u.shard, u.shards, u.cases)),
                                    })
                                }
                                None => errors.push(format!("{}: case {} failed once and did not again: {}", key, idx, m)),
                            }
                        }
                    }
                }
                Outcome::Error(m) => errors.push(format!("{}: {}", key, m)),
            }
        }
        if violation.is_some() || !errors.is_empty() {
            for q in running.iter_mut() {
                let _ = q.child.kill();
                let _ = q.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    // replay file
    let mut replay_path = String::new();
    let mut vio_json = String::new();
    if let Some(v) = &violation {
        let rd = verif.join("replays");
        let _ = fs::create_dir_all(&rd);
        let name = format!("{}-{}-{:08x}.txt", prop, v.suite.replace('/', "_"), hash64(&v.choices) & 0xffff_ffff);
        let p = rd.join(name);
        let shard = v.shard.as_ref().map(|s| format!("{}\n", s)).unwrap_or_default();
        let mut t = format!(
            "property={}\nsuite={}\nprofile={}\nscale={}\n{}message={}\nchoices={}\n\n# replay with: bin/replay {}\n# case:\n",
            prop, v.suite, v.launcher.profile, v.launcher.scale, shard, esc(&v.msg), csv(&v.choices), p.display()
        );
        let mut c = base_command(if v.launcher.miri { &launchers[0] } else { &v.launcher }, &known_env);
        c.args(["raw", &v.suite, "--choices", &csv(&v.choices), "--scale", &v.launcher.scale.to_string()]);
        let desc = dir.join("case.txt");
        if let (None, Ok(f)) = (&v.shard, fs::File::create(&desc)) {
            wait_at_most(c.stdout(f).stderr(Stdio::null()), Duration::from_secs(10));
            for l in String::from_utf8_lossy(&fs::read(&desc).unwrap_or_default()).lines().take(400) {
                t.push_str(&format!("# {}\n", l));
            }
        }
        let _ = fs::write(&p, t);
        replay_path = p.display().to_string();
        vio_json = format!(", \"violation\": {}", json_str(&format!("{} [{}]: {}", v.suite, v.launcher.profile, v.msg)));
    }

    // evidence
    let rules: Vec<String> = suites.iter().map(|s| format!("{}: {}", s.name, s.about)).collect();
    let mut sj: Vec<String> = Vec::new();
    for (s, v) in &samples {
        for x in v {
            sj.push(json_str(&format!("{}: {}", s, x)));
        }
    }
    let nested = |m: &BTreeMap<String, BTreeMap<String, u64>>| {
        m.iter()
            .map(|(k, v)| format!("{}: {{{}}}", json_str(k), v.iter().map(|(a, b)| format!("{}: {}", json_str(a), b)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let all_ex = suites.iter().all(|s| s.kind == Kind::Exhaustive) && exhaustive_ok.values().all(|b| *b) && errors.is_empty() && violation.is_none();
    let ex_list: Vec<String> = exhaustive_ok.iter().filter(|(_, b)| **b).map(|(k, _)| json_str(k)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"exhaustive\": {},\n  \"exhaustively_enumerated_suites\": [{}],\n  \"cases_per_suite_and_build\": {{{}}},\n  \"case_classes\": {{{}}},\n  \"known_finding_hits\": {{{}}}{}\n }},\n \"assumptions\": [\"the reference model in the harness states the property correctly\", \"cases outside the generated domain are not covered\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(&prop),
        json_str(&tier),
        seed,
        evals,
        hashes.len(),
        json_str(&rules.join(" | ")),
        sj.join(", "),
        all_ex,
        ex_list.join(", "),
        nested(&per_suite),
        nested(&labels),
        hits.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect::<Vec<_>>().join(", "),
        vio_json,
        t0.elapsed().as_secs_f64(),
        if violation.is_some() { 1 } else { 0 }
    );
    let _ = fs::create_dir_all(verif.join("evidence"));
    if fs::write(verif.join("evidence").join(format!("{}.json", prop)), ev).is_err() {
        errors.push("cannot write evidence".into());
    }
    let _ = fs::remove_dir_all(&dir);

    println!("{} {} seed={} cases={} distinct_nontrivial={} wall={:.1}s", prop, tier, seed, evals, hashes.len(), t0.elapsed().as_secs_f64());
    if let Some(v) = violation {
        println!("  suite {} [{}]: {}", v.suite, v.launcher.profile, v.msg);
        println!("VIOLATION property={} replay={}", prop, replay_path);
        return 1;
    }
    for k in &known {
        if hits.get(&k.sig).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {} ({})", prop, k.text, k.sig);
        }
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {}", e);
            println!("ERROR {}", e.lines().next().unwrap_or(""));
        }
        return 2;
    }
    0
}

/// Choices of the n-th case of an exhaustive shard, learnt in child processes (the case itself crashes).
fn enumerate_nth(s: &Suite, shard: u64, shards: u64, n: u64, scale: u8, dir: &Path, l: &Launcher, known: &str) -> Option<Vec<u64>> {
    let out = dir.join("nth.choices");
    let mut c = base_command(l, known);
    c.args(["nth", s.name, "--shard", &shard.to_string(), "--shards", &shards.to_string(), "--n", &n.to_string()]);
    c.args(["--scale", &scale.to_string(), "--out", out.to_str().unwrap()]);
    wait_at_most(c.stdout(Stdio::null()).stderr(Stdio::null()), Duration::from_secs(200));
    let t = fs::read_to_string(&out).ok()?;
    Some(uncsv(&t))
}

/// Child side of `enumerate_nth`: enumerates up to case n, writing the prefix that leads to it.
pub fn nth(a: &Args) -> i32 {
    let suite = match find_suite(a.pos(1)) {
        Some(s) => s,
        None => return 2,
    };
    let (shard, shards, n) = (a.num("shard", 0), a.num("shards", 1), a.num("n", 0));
    let known = known_from_env();
    let mut prefix = vec![shard];
    for k in 0..=n {
        if k == n {
            let _ = fs::write(a.opt("out").unwrap_or("/dev/null"), csv(&prefix));
            return 0;
        }
        let mut src = Src::replay(&prefix);
        src.scale = a.num("scale", 0) as u8;
        src.known = &known;
        let _ = run_case(suite.run, &mut src);
        let mut rec = std::mem::take(&mut src.rec);
        let mut lim = std::mem::take(&mut src.lim);
        drop(src);
        let mut nx = None;
        while let (Some(v), Some(m)) = (rec.pop(), lim.pop()) {
            let step = if rec.is_empty() { shards } else { 1 };
            if v + step < m {
                rec.push(v + step);
                nx = Some(rec);
                break;
            }
        }
        match nx {
            Some(p) => prefix = p,
            None => return 2,
        }
    }
    2
}

/// Replays a replay file in this process.
pub fn replay(a: &Args) -> i32 {
    let text = match fs::read_to_string(a.pos(1)) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", a.pos(1), e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default();
    let suite = match find_suite(&get("suite")) {
        Some(s) => s,
        None => {
            eprintln!("unknown suite");
            return 2;
        }
    };
    let known = known_from_env();
    if !get("shards").is_empty() {
        // the whole shard is the reproduction: it crashes, hangs or reports a failure
        let mut v = vec!["worker".to_string(), suite.name.to_string()];
        for k in ["seed", "shard", "shards", "cases", "scale", "profile"] {
            v.push(format!("--{}", k));
            v.push(get(k));
        }
        v.push("--out".into());
        v.push("/dev/stdout".into());
        return if worker(&Args(v)) == 0 { 0 } else { 1 };
    }
    let (r, _, log) = run_choices(&suite, &uncsv(&get("choices")), get("scale").parse().unwrap_or(0), &known, true);
    for l in log {
        println!("  {}", l);
    }
    match r {
        Ok(()) => {
            println!("not reproduced: the property holds on this case");
            0
        }
        Err(m) => {
            println!("FAIL {}", m);
            println!("VIOLATION property={} replay={}", suite.prop, a.pos(1));
            1
        }
    }
}
