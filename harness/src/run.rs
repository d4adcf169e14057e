//! The runner: plans, cases, reports, supervision of the worker process, evidence.
//!
//! A plan is a list of (workload, number of cases, size) and a function that runs one case: it
//! drives the real library and reports what its monitors saw. The parent process starts a worker
//! process and watches it, so that an abort, a stack overflow or a run that does not end is
//! attributed to the case that caused it and confirmed on its own before it is reported.
macro_rules! say {
    ($($t:tt)*) => { say_line(format!($($t)*)) };
}
use crate::input::Input;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// pick a number by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Work {
    pub name: &'static str,
    pub size: usize,
    pub cases: u64,
}
pub fn work(name: &'static str, size: usize, cases: u64) -> Work {
    Work { name, size, cases }
}

pub struct Plan {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub work: fn(Tier) -> Vec<Work>,
    pub run: fn(&mut Case),
    /// the run is only conclusive if each of these counters reached the given value
    pub need: &'static [(&'static str, u64)],
}

pub struct Viol {
    /// what identifies this violation in the known-findings file
    pub sig: String,
    pub msg: String,
}
#[derive(Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    pub fn bad(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        if self.viols.len() < 6 {
            self.viols.push(Viol { sig: sig.into(), msg: msg.into() });
        }
    }
}

pub struct Case {
    pub seed: u64,
    pub tier: Tier,
    pub work: Work,
    pub idx: u64,
    pub rng: Rng,
    pub rep: Report,
    /// replaces the generated input while shrinking and in replays
    pub over: Option<Input>,
    /// the input used, for the replay file
    pub used: Option<Input>,
}
impl Case {
    pub fn new(seed: u64, tier: Tier, work: &Work, idx: u64, over: Option<Input>) -> Case {
        Case {
            seed,
            tier,
            rng: Rng::new(seed, &format!("{}/{}", work.name, work.size), idx),
            work: work.clone(),
            idx,
            rep: Report::default(),
            over,
            used: None,
        }
    }
    /// the input of this case: from the generator family of the workload
    pub fn input(&mut self) -> Input {
        let r = self.rng.clone();
        if self.work.name == "findings" || self.work.name == "fixed" {
            use crate::plans::geom::{FINDINGS, FIXED};
            let (p, s) = (if self.work.name == "fixed" { FIXED } else { FINDINGS })[self.idx as usize];
            let i = self.over.clone().unwrap_or_else(|| Input::new(p, s));
            // the same draws for every seed: what is listed shows every time
            self.rng = Rng::new(1, "check", i.hash64());
            return self.use_input(i);
        }
        if self.work.name.starts_with("e_") {
            let i = self.over.clone().unwrap_or_else(|| crate::gen::enumerated(self.work.name, self.idx));
            self.rng = Rng::new(self.seed, "check", i.hash64());
            return self.use_input(i);
        }
        let gen = || {
            let i = (crate::gen::family(self.work.name).f)(&r, self.work.size);
            if self.work.name.starts_with("z_") {
                i
            } else {
                crate::gen::vary(&r, i)
            }
        };
        let gen = (0..20).map(|_| gen()).find(|i| i.in_range()).expect("a generator leaves the range");
        let inp = match &self.over {
            Some(i) => i.clone(),
            None => gen,
        };
        // the checks draw from their own stream, independent of how the input was made
        self.rng = Rng::new(self.seed, "check", inp.hash64());
        self.use_input(inp)
    }
    pub fn use_input(&mut self, inp: Input) -> Input {
        self.rep.key = inp.hash64();
        self.used = Some(inp.clone());
        self.rep.sample = format!("{}#{}: {}", self.work.name, self.idx, clip(&inp.text(), 400));
        inp
    }
    pub fn bad(&mut self, msg: impl Into<String>) {
        let sig = match &self.used {
            Some(i) => format!("input-{:016x}", i.hash64()),
            None => format!("{}/{}/{}", self.work.name, self.work.size, self.idx),
        };
        self.rep.bad(sig, msg);
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + " ..."
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}
/// message and location of the last panic of this thread
pub fn last_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// run library code; a panic comes back as "message @ location"
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = last_panic();
            Err(format!("{} @ {}", clip(&m, 200), l))
        }
    }
}

pub enum Outcome {
    Done,
    /// the harness itself failed
    Harness(String),
}
pub fn run_case(p: &Plan, c: &mut Case) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(c)));
    if r.is_err() {
        let (m, l) = last_panic();
        if l.starts_with("src/") {
            return Outcome::Harness(format!("{m} @ {l} in {}/{}#{}", c.work.name, c.work.size, c.idx));
        }
        c.bad(format!("panic: {} @ {}", clip(&m, 300), l));
    }
    Outcome::Done
}

/// drop geometry while the case still fails
fn shrink(p: &Plan, seed: u64, tier: Tier, w: &Work, idx: u64, first: &Input, until: Instant) -> Input {
    let fails = |i: &Input| {
        if !i.valid() {
            return false;
        }
        let mut c = Case::new(seed, tier, w, idx, Some(i.clone()));
        matches!(run_case(p, &mut c), Outcome::Done) && !c.rep.viols.is_empty()
    };
    let mut cur = first.clone();
    if !fails(&cur) {
        return cur;
    }
    let mut chunk = (cur.n() / 2).max(1);
    while chunk >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < cur.n() && Instant::now() < until {
            let keep = |k: usize| k < i || k >= i + chunk;
            let np = cur.points.len();
            let t = Input {
                points: cur.points.iter().enumerate().filter(|(k, _)| keep(*k)).map(|x| *x.1).collect(),
                segs: cur.segs.iter().enumerate().filter(|(k, _)| keep(*k + np)).map(|x| *x.1).collect(),
            };
            if t.n() < cur.n() && fails(&t) {
                cur = t;
                any = true;
            } else {
                i += chunk;
            }
        }
        if Instant::now() >= until {
            break;
        }
        if !any || chunk > 1 {
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
    }
    cur
}

pub struct Env {
    pub verif: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    /// stop starting new cases after this
    pub budget: Duration,
    pub threads: usize,
    pub case_limit: Duration,
}
impl Env {
    pub fn get() -> Env {
        let verif = PathBuf::from(std::env::var("VERIF").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { Tier::Thorough } else { Tier::Quick };
        let b = std::env::var("BVMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.n(150, 720));
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
        Env { verif, seed, tier, budget: Duration::from_secs(b), threads, case_limit: Duration::from_secs(60) }
    }
    pub fn out(&self, id: &str) -> PathBuf {
        let d = self.verif.join("out").join(id);
        let _ = std::fs::create_dir_all(&d);
        d
    }
    /// signatures of the known findings of a property
    pub fn known(&self, id: &str) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(self.verif.join("known_findings.txt")) {
            for l in t.lines() {
                let Some(rest) = l.strip_prefix("finding: ") else { continue };
                let mut it = rest.splitn(3, ' ');
                let (Some(p), Some(s), Some(d)) = (it.next(), it.next(), it.next()) else { continue };
                if p == format!("property={id}") {
                    if let Some(s) = s.strip_prefix("sig=") {
                        m.insert(s.to_string(), d.to_string());
                    }
                }
            }
        }
        m
    }
}

const STUCK: i32 = 77;

/// the worker process: runs all cases of a plan
pub fn child(p: &Plan, env: &Env) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let out = env.out(p.id);
    let works = (p.work)(env.tier);
    let total: u64 = works.iter().map(|w| w.cases).sum();
    // spread the workloads over the run, so that a run cut short has seen all of them
    let locate = |n: u64| -> (usize, u64) {
        let mut rest = n;
        for (i, w) in works.iter().enumerate() {
            if rest < w.cases {
                return (i, rest);
            }
            rest -= w.cases;
        }
        unreachable!()
    };
    // n -> n * step mod total is a permutation when step is coprime to total
    let step = {
        let mut s = (total as f64 * 0.618_033_9) as u64 | 1;
        fn gcd(a: u64, b: u64) -> u64 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        while total > 1 && gcd(s, total) != 1 {
            s += 1;
        }
        s.max(1)
    };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let known = env.known(p.id);
    struct Acc {
        evaluations: u64,
        keys: HashSet<u64>,
        counts: BTreeMap<String, u64>,
        maxima: BTreeMap<String, f64>,
        samples: BTreeMap<(usize, u64), String>,
        viols: BTreeMap<u64, (usize, u64, String, String, Option<Input>)>,
        known_seen: BTreeSet<String>,
        harness: Vec<String>,
        per_work: BTreeMap<String, u64>,
    }
    let acc = Mutex::new(Acc { evaluations: 0, keys: HashSet::new(), counts: BTreeMap::new(), maxima: BTreeMap::new(), samples: BTreeMap::new(), viols: BTreeMap::new(), known_seen: BTreeSet::new(), harness: vec![], per_work: BTreeMap::new() });
    let clock: Vec<AtomicU64> = (0..env.threads).map(|_| AtomicU64::new(0)).collect();
    let tids: Vec<_> = (0..env.threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let stuck = AtomicBool::new(false);
    std::thread::scope(|sc| {
        // watchdog: a case that runs for too long ends this process; the parent looks into it
        sc.spawn(|| {
            // per thread: the case it was seen in, and the CPU time it had used by then
            let mut seen = vec![(0, 0.0); clock.len()];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for ((c, t), e) in clock.iter().zip(&tids).zip(&mut seen) {
                    let s = c.load(Ordering::Relaxed);
                    if s == 0 {
                        continue;
                    }
                    let tid = t.load(Ordering::Relaxed);
                    if e.0 != s {
                        *e = (s, cpu_time(tid));
                    } else if now > s + env.case_limit.as_millis() as u64 && (now > s + 6 * env.case_limit.as_millis() as u64 || cpu_time(tid) > e.1 + env.case_limit.as_secs_f64()) {
                        stuck.store(true, Ordering::Relaxed);
                        std::process::exit(STUCK);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..env.threads)
            .map(|th| {
                let (acc, next, stop, known, works, out, clock, tids) = (&acc, &next, &stop, &known, &works, &out, &clock, &tids);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok());
                        tids[th].store(me.unwrap_or(0), Ordering::Relaxed);
                        let cur = std::fs::File::create(out.join(format!("cur.{th}"))).expect("out directory is writable");
                        let mut l = Acc { evaluations: 0, keys: HashSet::new(), counts: BTreeMap::new(), maxima: BTreeMap::new(), samples: BTreeMap::new(), viols: BTreeMap::new(), known_seen: BTreeSet::new(), harness: vec![], per_work: BTreeMap::new() };
                        loop {
                            let n = next.fetch_add(1, Ordering::Relaxed);
                            if n >= total || stop.load(Ordering::Relaxed) || t0.elapsed() > env.budget {
                                break;
                            }
                            let n = ((n as u128 * step as u128) % total as u128) as u64;
                            let (wi, idx) = locate(n);
                            let _ = cur.write_at(&(n + 1).to_le_bytes(), 0);
                            clock[th].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut c = Case::new(env.seed, env.tier, &works[wi], idx, None);
                            let o = run_case(p, &mut c);
                            clock[th].store(0, Ordering::Relaxed);
                            if let Outcome::Harness(m) = o {
                                l.harness.push(m);
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            l.evaluations += 1;
                            if let Some(v) = l.per_work.get_mut(works[wi].name) {
                                *v += 1;
                            } else {
                                l.per_work.insert(works[wi].name.to_string(), 1);
                            }
                            for (k, v) in &c.rep.counts {
                                if let Some(x) = l.counts.get_mut(k) {
                                    *x += v;
                                } else {
                                    l.counts.insert(k.clone(), *v);
                                }
                            }
                            for (k, v) in &c.rep.maxima {
                                let e = l.maxima.entry(k.clone()).or_insert(*v);
                                *e = e.max(*v);
                            }
                            if c.rep.nontrivial {
                                l.keys.insert(c.rep.key);
                                if idx < 1 && !c.rep.sample.is_empty() {
                                    l.samples.insert((wi, idx), c.rep.sample.clone());
                                }
                            }
                            let used = c.used.take();
                            for v in c.rep.viols {
                                if known.contains_key(&v.sig) {
                                    l.known_seen.insert(v.sig);
                                } else {
                                    l.viols.entry(n).or_insert((wi, idx, v.sig, v.msg, used.clone()));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let _ = cur.write_at(&0u64.to_le_bytes(), 0);
                        let mut g = acc.lock().unwrap();
                        g.evaluations += l.evaluations;
                        g.keys.extend(l.keys);
                        for (k, v) in l.counts {
                            *g.counts.entry(k).or_default() += v;
                        }
                        for (k, v) in l.per_work {
                            *g.per_work.entry(k).or_default() += v;
                        }
                        for (k, v) in l.maxima {
                            let e = g.maxima.entry(k).or_insert(v);
                            *e = e.max(v);
                        }
                        g.samples.extend(l.samples);
                        g.viols.extend(l.viols);
                        g.known_seen.extend(l.known_seen);
                        g.harness.extend(l.harness);
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if let Err(_e) = h.join() {
                let (m, l) = last_panic();
                acc.lock().unwrap().harness.push(format!("worker thread died: {m} {l}"));
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let a = acc.into_inner().unwrap();
    if !a.harness.is_empty() {
        say!("ERROR: the harness failed: {}", a.harness[0]);
        return 2;
    }
    for s in &a.known_seen {
        say!("KNOWN-FINDING: property={} {}", p.id, known[s]);
    }
    let mut nviol = 0;
    if let Some((_, (wi, idx, sig, msg, used))) = a.viols.iter().next() {
        nviol = a.viols.len();
        let mut inp = used.clone();
        let mut msg = msg.clone();
        if let Some(i) = &inp {
            if i.valid() {
                let s = shrink(p, env.seed, env.tier, &works[*wi], *idx, i, Instant::now() + Duration::from_secs(20));
                let mut c = Case::new(env.seed, env.tier, &works[*wi], *idx, Some(s.clone()));
                let _ = run_case(p, &mut c);
                if let Some(v) = c.rep.viols.first() {
                    msg = v.msg.clone();
                    inp = Some(s);
                }
            }
        }
        report_violation(p, env, &works[*wi], *idx, sig, &msg, inp.as_ref());
    }
    let short: Vec<String> = p.need.iter().filter(|(k, n)| a.counts.get(*k).copied().unwrap_or(0) < *n).map(|(k, n)| format!("{k} {} < {n}", a.counts.get(*k).copied().unwrap_or(0))).collect();
    let keys = a.keys.len() as u64;
    let cov = serde_json::json!({
        "evaluations": a.evaluations,
        "distinct_nontrivial": keys,
        "rule": p.rule,
        "samples": a.samples.values().take(12).map(|s| clip(s, 500)).collect::<Vec<_>>(),
        "planned_cases": total,
        "cases_per_workload": a.per_work,
        "observed": a.counts,
        "largest": a.maxima.iter().map(|(k, v)| (k.clone(), if v.is_finite() { serde_json::json!(v) } else { serde_json::json!(v.to_string()) })).collect::<BTreeMap<_, _>>(),
    });
    write_evidence(p, env, cov, t0.elapsed().as_secs_f64(), nviol);
    say!("{}: {} cases, {} distinct non-trivial, {:.1} s{}", p.id, a.evaluations, keys, t0.elapsed().as_secs_f64(), if nviol > 0 { ", VIOLATED" } else { "" });
    if nviol > 0 {
        return 1;
    }
    if !short.is_empty() {
        say!("ERROR: inconclusive, too little was observed: {}", short.join(", "));
        return 2;
    }
    0
}

pub fn write_evidence(p: &Plan, env: &Env, coverage: serde_json::Value, wall: f64, nviol: usize) {
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}.json", p.id));
    // a check made of several runs (profiles, sanitizers) keeps what the earlier ones observed
    let mut coverage = coverage;
    if let Ok(part) = std::env::var("BVMON_PART") {
        let pf = env.out(p.id).join("parts.json");
        let mut parts: serde_json::Value = std::fs::read_to_string(&pf).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(serde_json::json!({}));
        parts[&part] = coverage.clone();
        let _ = std::fs::write(&pf, parts.to_string());
        let sum = |k: &str| parts.as_object().unwrap().values().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
        // the parts run the same cases: what is distinct is not added up
        let dist = parts.as_object().unwrap().values().map(|v| v["distinct_nontrivial"].as_u64().unwrap_or(0)).max().unwrap_or(0);
        let ev = sum("evaluations");
        coverage["evaluations"] = ev.into();
        coverage["distinct_nontrivial"] = dist.into();
        coverage["parts"] = parts;
    }
    let v = serde_json::json!({
        "property": p.id,
        "tier": env.tier.name(),
        "seed": env.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::write(f, serde_json::to_string_pretty(&v).unwrap() + "\n");
}

pub fn report_violation(p: &Plan, env: &Env, w: &Work, idx: u64, sig: &str, msg: &str, inp: Option<&Input>) {
    let f = env.out(p.id).join(format!("replay-{}-{}-{}-{}.json", w.name, w.size, env.seed, idx));
    let v = serde_json::json!({
        "property": p.id,
        "message": msg,
        "signature": sig,
        "seed": env.seed,
        "tier": env.tier.name(),
        "workload": w.name,
        "size": w.size,
        "case": idx,
        "points": inp.map(|i| i.points.clone()),
        "segments": inp.map(|i| i.segs.clone()),
        "replay": format!("/verif/check.sh replay {}", f.display()),
    });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n");
    say!("{}", clip(msg, 600));
    if let Some(i) = inp {
        say!("input: {}", clip(&i.text(), 600));
    }
    say!("VIOLATION property={} replay={}", p.id, f.display());
    let _ = std::io::stdout().flush();
}

/// seconds of CPU time a thread of this process has used
fn cpu_time(tid: u64) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).unwrap_or_default();
    t.split(' ').next().and_then(|n| n.parse::<f64>().ok()).unwrap_or(f64::INFINITY) / 1e9
}

/// what this program says goes to descriptor 3 in the worker: the library prints on its own there
pub fn say_line(t: String) {
    use std::os::fd::FromRawFd;
    let t = t + "\n";
    if std::env::var_os("BVMON_FD3").is_some() {
        // SAFETY: `limited` has opened it for this process, and it is not closed here
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(3) });
        let _ = f.write_all(t.as_bytes());
    } else {
        print!("{t}");
    }
}

fn limited(args: &[String], cpu: Option<u64>) -> Command {
    let mut c = Command::new("bash");
    let quiet = if args[1] == "C22" { "exec 3>&1 >/dev/null 2>&1;" } else { "exec 3>&1 >/dev/null;" };
    c.env("BVMON_FD3", "1");
    // address space bounded: a run-away allocation ends the worker, not the sandbox
    let lim = match cpu {
        Some(s) => format!("ulimit -c 0; ulimit -v 3000000; ulimit -t {s}; {quiet} exec \"$0\" \"$@\""),
        None => format!("ulimit -c 0; ulimit -v 12000000; {quiet} exec \"$0\" \"$@\""),
    };
    c.arg("-c").arg(lim).arg(std::env::current_exe().unwrap());
    c.args(args);
    c
}

/// run one case by itself; the exit code says what happened
pub fn one(p: &Plan, env: &Env, name: &str, size: usize, idx: u64) -> i32 {
    install_hook();
    let works = (p.work)(env.tier);
    let Some(w) = works.iter().find(|w| w.name == name && w.size == size) else {
        return 2;
    };
    // on a thread of the size the worker uses
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || {
                let mut c = Case::new(env.seed, env.tier, w, idx, None);
                match run_case(p, &mut c) {
                    Outcome::Harness(m) => {
                        say!("ERROR: {m}");
                        2
                    }
                    Outcome::Done => {
                        for v in &c.rep.viols {
                            say!("{}", v.msg);
                        }
                        (!c.rep.viols.is_empty()) as i32
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    })
}

/// the parent: starts the worker process and makes sense of how it ended
pub fn supervise(p: &Plan, env: &Env) -> i32 {
    let out = env.out(p.id);
    for e in std::fs::read_dir(&out).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("cur.") {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let st = limited(&["child".into(), p.id.into()], None).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            say!("ERROR: cannot start the worker: {e}");
            return 2;
        }
    };
    match (st.code(), st.signal()) {
        (Some(c @ (0 | 1 | 2)), _) => return c,
        (Some(STUCK), _) => say!("a case ran for more than {} s of CPU time", env.case_limit.as_secs()),
        (c, s) => say!("the worker ended with code {c:?} signal {s:?}"),
    }
    let works = (p.work)(env.tier);
    let mut cand = vec![];
    for th in 0..env.threads {
        if let Ok(b) = std::fs::read(out.join(format!("cur.{th}"))) {
            if b.len() >= 8 {
                let n = u64::from_le_bytes(b[..8].try_into().unwrap());
                if n > 0 {
                    let mut rest = n - 1;
                    for w in &works {
                        if rest < w.cases {
                            cand.push((w.clone(), rest));
                            break;
                        }
                        rest -= w.cases;
                    }
                }
            }
        }
    }
    let mut kids: Vec<_> = cand
        .iter()
        .map(|(w, i)| limited(&["one".into(), p.id.into(), w.name.into(), w.size.to_string(), i.to_string()], Some(70)).spawn())
        .collect();
    let mut found = None;
    for ((w, i), k) in cand.iter().zip(kids.iter_mut()) {
        let Ok(k) = k else { continue };
        let Ok(st) = k.wait() else { continue };
        let m = match (st.code(), st.signal()) {
            (Some(0), _) | (Some(2), _) => continue,
            (Some(1), _) => "violated when run by itself".to_string(),
            (_, Some(24)) | (_, Some(9)) => "did not finish within 70 s of CPU time".to_string(),
            (_, Some(6)) => "aborted (stack overflow, allocation failure or abort)".to_string(),
            (_, Some(s)) => format!("killed by signal {s}"),
            (c, _) => format!("ended the process with code {c:?}"),
        };
        found.get_or_insert((w.clone(), *i, m));
    }
    match found {
        Some((w, i, m)) => {
            let inp = crate::gen::FAMILIES.iter().any(|f| f.name == w.name).then(|| {
                let mut c = Case::new(env.seed, env.tier, &w, i, None);
                c.input()
            });
            report_violation(p, env, &w, i, &format!("{}/{}/{}", w.name, w.size, i), &format!("case {}/{}#{} {}", w.name, w.size, i, m), inp.as_ref());
            write_evidence(p, env, serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [format!("{}/{}#{i} {m}", w.name, w.size)]}), 0.0, 1);
            1
        }
        None => {
            say!("ERROR: inconclusive: the worker died and no single case reproduces it");
            3
        }
    }
}

pub fn replay(plans: &[Plan], env: &Env, file: &Path) -> i32 {
    install_hook();
    let Some(v) = std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) else {
        say!("cannot read {}", file.display());
        return 2;
    };
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = plans.iter().find(|p| p.id == id) else { return 2 };
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let works = (p.work)(tier);
    let Some(w) = works.iter().find(|w| v["workload"] == w.name && v["size"].as_u64() == Some(w.size as u64)) else { return 2 };
    let over = v["points"].as_array().map(|_| Input {
        points: serde_json::from_value(v["points"].clone()).unwrap_or_default(),
        segs: serde_json::from_value(v["segments"].clone()).unwrap_or_default(),
    });
    let mut c = Case::new(v["seed"].as_u64().unwrap_or(env.seed), tier, w, v["case"].as_u64().unwrap_or(0), over);
    match run_case(p, &mut c) {
        Outcome::Harness(m) => {
            say!("ERROR: {m}");
            2
        }
        Outcome::Done => {
            for x in &c.rep.viols {
                say!("{}", x.msg);
            }
            if c.rep.viols.is_empty() {
                say!("held");
                0
            } else {
                say!("VIOLATION property={} replay={}", p.id, file.display());
                1
            }
        }
    }
}
