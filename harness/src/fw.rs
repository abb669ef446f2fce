//! Monitoring framework: deterministic case generation, process isolation of
//! workers, three-valued verdicts, evidence and replay files.
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Seek, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, v: &[T], pct: u64) -> Vec<T> {
        v.iter().filter(|_| self.chance(pct)).cloned().collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Debug, Clone)]
pub enum Bad {
    /// The property is broken: (signature, detail)
    Viol(String, String),
    /// The monitor could not decide
    Inconclusive(String),
}
pub type R<T = ()> = Result<T, Bad>;
pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Bad::Viol(sig.into(), detail.into()))
}
pub fn inconclusive<T>(why: impl Into<String>) -> R<T> {
    Err(Bad::Inconclusive(why.into()))
}

pub struct Ctx {
    pub idx: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub verbose: bool,
    pub counts: BTreeMap<String, u64>,
    pub input: String,
    pub key: Option<u64>,
}
impl Ctx {
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_insert(0) += n;
    }
    /// Marks the case as non-trivial, identified by the hash of its input.
    pub fn nontrivial(&mut self) {
        self.key = Some(hash(&self.input));
    }
    pub fn input(&mut self, s: String) {
        if self.verbose {
            println!("--- input ---\n{s}\n-------------");
        }
        self.input = s;
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub type CaseFn = fn(&mut Ctx) -> R;
pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    /// named fixed inputs; a listed known finding is keyed on the probe name
    pub probes: &'static [(&'static str, CaseFn)],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    /// whether a crash (abort, stack overflow) of the worker refutes the property
    pub crash_is_violation: bool,
    /// counters that must be reached (non-zero) for the run to be conclusive
    pub must_see: &'static [&'static str],
    pub workers: usize,
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some((loc, msg));
        }
    }));
}

/// Runs code under test; a panic is turned into Err((location, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let g = LAST_PANIC.lock().ok().and_then(|mut g| g.take());
            Err(g.unwrap_or_default())
        },
    }
}

fn strip_line(loc: &str) -> String {
    loc.rsplit_once(':').map(|(f, _)| f.to_string()).unwrap_or_else(|| loc.to_string())
}

fn run_one(p: &Prop, f: CaseFn, seed: u64, idx: u64, tier: Tier, verbose: bool) -> Value {
    let mut ctx = Ctx {
        idx,
        tier,
        rng: Rng::new(seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(idx.wrapping_mul(7919)) ^ hash(p.id)),
        verbose,
        counts: BTreeMap::new(),
        input: String::new(),
        key: None,
    };
    let r = guarded(|| f(&mut ctx));
    let mut o = json!({"i": idx, "c": ctx.counts, "k": ctx.key});
    let m = o.as_object_mut().unwrap();
    match r {
        Ok(Ok(())) => {
            if idx < 24 {
                m.insert("in".into(), json!(ctx.input));
            }
        },
        Ok(Err(Bad::Viol(sig, detail))) => {
            m.insert("v".into(), json!(sig));
            m.insert("d".into(), json!(detail));
            m.insert("in".into(), json!(ctx.input));
        },
        Ok(Err(Bad::Inconclusive(w))) => {
            m.insert("u".into(), json!(w));
            m.insert("in".into(), json!(ctx.input));
        },
        Err((loc, msg)) => {
            m.insert("in".into(), json!(ctx.input));
            if loc.contains("src/") && !loc.starts_with('/') {
                // panic inside the harness itself: never a violation
                m.insert("u".into(), json!(format!("harness panic at {loc}: {msg}")));
            } else {
                m.insert("v".into(), json!(format!("panic in {}", strip_line(&loc))));
                m.insert("d".into(), json!(format!("panicked at {loc}: {msg}")));
            }
        },
    }
    o
}

pub fn worker(p: &'static Prop, tier: Tier, seed: u64, start: u64, step: u64, end: u64, out: &str) {
    install_panic_hook();
    let out = out.to_string();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
            let mut i = start;
            while i < end {
                writeln!(f, "B {i}").unwrap();
                let (func, idx) = if i < p.probes.len() as u64 {
                    (p.probes[i as usize].1, i)
                } else {
                    (p.case, i)
                };
                let v = run_one(p, func, seed, idx, tier, false);
                writeln!(f, "R {v}").unwrap();
                i += step;
            }
            writeln!(f, "DONE").unwrap();
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}

pub fn replay_case(p: &'static Prop, tier: Tier, seed: u64, idx: u64) -> i32 {
    install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let func = if idx < p.probes.len() as u64 { p.probes[idx as usize].1 } else { p.case };
            run_one(p, func, seed, idx, tier, true)
        })
        .unwrap();
    let mut v = h.join().unwrap();
    v.as_object_mut().unwrap().remove("in");
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
    if v.get("v").is_some() { 1 } else { 0 }
}

#[derive(Default)]
struct Agg {
    evals: u64,
    keys: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    viols: Vec<(u64, String, String, String)>,
    inconcl: Vec<(u64, String)>,
    harness: Vec<(u64, String)>,
    samples: BTreeMap<u64, String>,
}

pub fn known_findings(root: &Path) -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            // known: property=C01 probe=<name> <text>
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
                let n = it.next().unwrap_or("").strip_prefix("probe=").unwrap_or("").to_string();
                let t = it.next().unwrap_or("").to_string();
                v.push((p, n, t));
            }
        }
    }
    v
}

/// Parent: shards the cases over worker processes and judges the outcome.
pub fn run(p: &'static Prop, tier: Tier, seed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let budget = match tier {
        Tier::Quick => Duration::from_secs(env_u64("VERIF_BUDGET", 240)),
        Tier::Thorough => Duration::from_secs(env_u64("VERIF_BUDGET", 3000)),
    };
    let hang = Duration::from_secs(90);
    let n = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let n = env_u64("VERIF_CASES", n) + p.probes.len() as u64;
    let nw = p.workers.max(1) as u64;
    let dir = root.join("run").join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().unwrap();
    let agg = Mutex::new(Agg::default());
    std::thread::scope(|s| {
        for w in 0..nw {
            let dir = dir.clone();
            let exe = exe.clone();
            let agg = &agg;
            s.spawn(move || {
                let mut start = w;
                let mut round = 0;
                let mut crashes = 0;
                while start < n && t0.elapsed() < budget && crashes < 40 {
                    let out = dir.join(format!("w{w}.{round}"));
                    let err = dir.join(format!("w{w}.{round}.err"));
                    round += 1;
                    let scratch = dir.join(format!("scratch{w}"));
                    let _ = std::fs::create_dir_all(&scratch);
                    let mut child = Command::new(&exe)
                        .args(["worker", p.id, tier.name(), &seed.to_string(), &start.to_string(), &nw.to_string(), &n.to_string()])
                        .arg(&out)
                        .env("TMPDIR", &scratch)
                        .env("RUST_BACKTRACE", "0")
                        .env("NO_COLOR", "1")
                        .current_dir(&scratch)
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(Stdio::from(std::fs::File::create(&err).unwrap()))
                        .spawn()
                        .unwrap();
                    let mut last = Instant::now();
                    let mut last_len = 0u64;
                    let mut killed = None;
                    let status = loop {
                        match child.try_wait().unwrap() {
                            Some(st) => break Some(st),
                            None => {
                                std::thread::sleep(Duration::from_millis(25));
                                let len = std::fs::metadata(&out).map(|m| m.len()).unwrap_or(0);
                                if len != last_len {
                                    last_len = len;
                                    last = Instant::now();
                                }
                                if t0.elapsed() > budget {
                                    let _ = child.kill();
                                    let _ = child.wait();
                                    killed = Some("budget");
                                    break None;
                                }
                                if last.elapsed() > hang {
                                    let _ = child.kill();
                                    let _ = child.wait();
                                    killed = Some("hang");
                                    break None;
                                }
                            },
                        }
                    };
                    let (done, open) = collect(&out, agg);
                    let _ = std::fs::remove_file(&out);
                    if done {
                        break;
                    }
                    let Some(open) = open else {
                        if killed == Some("budget") {
                            break;
                        }
                        // died before the first case: harness problem
                        agg.lock().unwrap().harness.push((start, format!("worker died early {status:?}")));
                        break;
                    };
                    let errtxt = std::fs::read_to_string(&err).unwrap_or_default();
                    let tail: String = errtxt.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                    match killed {
                        Some("budget") => break,
                        Some(_) => {
                            agg.lock().unwrap().inconcl.push((open, "no progress for 90 s".into()));
                        },
                        None => {
                            use std::os::unix::process::ExitStatusExt;
                            let sig = status.and_then(|s| s.signal());
                            if sig == Some(9) {
                                agg.lock().unwrap().inconcl.push((open, "worker was killed (memory?)".into()));
                            } else if p.crash_is_violation {
                                let so = if tail.contains("overflowed its stack") { "stack overflow" } else { "abort" };
                                agg.lock().unwrap().viols.push((
                                    open,
                                    format!("crash: {so}"),
                                    format!("worker ended with {status:?}: {tail}"),
                                    String::new(),
                                ));
                            } else {
                                agg.lock().unwrap().inconcl.push((open, format!("worker crashed {status:?}: {tail}")));
                            }
                        },
                    }
                    crashes += 1;
                    start = open + nw;
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    finish(p, tier, seed, root, &mut a, t0, n)
}

fn collect(out: &Path, agg: &Mutex<Agg>) -> (bool, Option<u64>) {
    let Ok(f) = std::fs::File::open(out) else { return (false, None) };
    let mut done = false;
    let mut open = None;
    let mut g = agg.lock().unwrap();
    for line in std::io::BufReader::new(f).lines().map_while(Result::ok) {
        if let Some(i) = line.strip_prefix("B ") {
            open = i.parse().ok();
        } else if let Some(j) = line.strip_prefix("R ") {
            let Ok(v) = serde_json::from_str::<Value>(j) else { continue };
            open = None;
            g.evals += 1;
            let i = v["i"].as_u64().unwrap_or(0);
            if let Some(k) = v["k"].as_u64() {
                g.keys.insert(k);
            }
            if let Some(c) = v["c"].as_object() {
                for (k, n) in c {
                    *g.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
            let input = v["in"].as_str().unwrap_or("").to_string();
            if let Some(sig) = v["v"].as_str() {
                g.viols.push((i, sig.into(), v["d"].as_str().unwrap_or("").into(), input));
            } else if let Some(u) = v["u"].as_str() {
                if u.starts_with("harness panic") {
                    g.harness.push((i, u.into()));
                } else {
                    g.inconcl.push((i, u.into()));
                }
            } else if !input.is_empty() {
                g.samples.insert(i, input);
            }
        } else if line == "DONE" {
            done = true;
        }
    }
    (done, open)
}

fn finish(p: &Prop, tier: Tier, seed: u64, root: &Path, a: &mut Agg, t0: Instant, n: u64) -> i32 {
    let known = known_findings(root);
    let probe_name = |i: u64| p.probes.get(i as usize).map(|x| x.0);
    a.viols.sort_by_key(|v| v.0);
    let mut real = Vec::new();
    let mut known_hit = BTreeSet::new();
    for v in &a.viols {
        if let Some(name) = probe_name(v.0)
            && let Some(k) = known.iter().find(|k| k.0 == p.id && k.1 == name)
        {
            if known_hit.insert(name.to_string()) {
                println!("KNOWN-FINDING: property={} {} {}", p.id, name, k.2);
            }
            continue;
        }
        real.push(v.clone());
    }
    if env_u64("VERIF_ALL", 0) == 1 {
        for (i, sig, detail, _) in &real {
            println!("ALL {i} | {sig} | {}", clip(&detail.replace('\n', " "), 200));
        }
    }
    let mut code = 0;
    let mut reported = BTreeSet::new();
    let rdir = root.join("replays");
    for (i, sig, detail, input) in &real {
        if !reported.insert(sig.clone()) || reported.len() > 12 {
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let path: PathBuf = rdir.join(format!("{}-s{}-i{}.json", p.id, seed, i));
        let j = json!({"property": p.id, "tier": tier.name(), "seed": seed, "case": i,
            "probe": probe_name(*i), "signature": sig, "detail": detail, "input": input,
            "replay": format!("./check.sh replay {} {} {}", p.id, seed, i)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("case {i}: {sig}\n{}", clip(detail, 3000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }
    let missing: Vec<&str> = p.must_see.iter().copied().filter(|k| a.counts.get(*k).copied().unwrap_or(0) == 0).collect();
    let mut samples: Vec<Value> = a.samples.iter().filter(|(i, _)| **i >= p.probes.len() as u64).take(3)
        .map(|(i, s)| json!({"case": i, "input": clip(s, 1500)})).collect();
    if samples.is_empty() {
        samples = a.samples.iter().take(3).map(|(i, s)| json!({"case": i, "input": clip(s, 1500)})).collect();
    }
    if samples.is_empty() && let Some(v) = a.viols.first() {
        samples.push(json!({"case": v.0, "input": clip(&v.3, 1500)}));
    }
    let inc: Vec<Value> = a.inconcl.iter().take(10).map(|(i, w)| json!({"case": i, "why": clip(w, 300)})).collect();
    let ev = json!({
        "property": p.id, "tier": tier.name(), "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": a.evals,
            "planned": n,
            "distinct_nontrivial": a.keys.len(),
            "rule": p.rule,
            "observed": a.counts,
            "inconclusive": a.inconcl.len(),
            "inconclusive_samples": inc,
            "known_findings_seen": known_hit,
            "samples": samples,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": real.len(),
    });
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} inconclusive, {} violations, {:.1}s",
        p.id, a.evals, a.keys.len(), a.inconcl.len(), real.len(), t0.elapsed().as_secs_f64()
    );
    if !a.harness.is_empty() {
        for h in a.harness.iter().take(5) {
            println!("HARNESS-ERROR case {}: {}", h.0, h.1);
        }
        if code == 0 {
            return 2;
        }
    }
    if code == 0 && (!missing.is_empty() || a.evals * 10 < n * 3) {
        println!("INCONCLUSIVE: evaluations {} of {}, never observed: {:?}", a.evals, n, missing);
        return 2;
    }
    code
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

pub fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

#[allow(dead_code)]
pub fn seek_unused(_: &mut dyn Seek) {}
