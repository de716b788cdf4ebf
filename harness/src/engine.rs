use crate::src::{mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default)]
pub struct Ctx {
    pub tags: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
    pub known: Vec<(String, String)>,
    pub evals: u64,
}

impl Ctx {
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t)
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tags.push(t)
        }
    }
    pub fn show(&mut self, label: &str, s: &str) {
        self.desc.push_str(&format!("--- {label}\n{s}\n"));
    }
    pub fn known(&mut self, id: &str, what: String) {
        self.known.push((id.to_string(), what));
    }
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: CaseFn,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {l}: {m}")));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// keys of the recorded findings of this property, from known_findings.txt
static LISTED: std::sync::OnceLock<HashSet<(String, String)>> = std::sync::OnceLock::new();

pub fn load_findings(verif: &str) {
    let t = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let mut s = HashSet::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut w = r.split_whitespace();
            if let (Some(p), Some(k)) = (w.next(), w.next()) {
                s.insert((p.to_string(), k.trim_end_matches(':').to_string()));
            }
        }
    }
    let _ = LISTED.set(s);
}

pub fn listed(id: &str, key: &str) -> bool {
    LISTED.get().is_some_and(|l| l.contains(&(id.to_string(), key.to_string())))
}

fn run_one(p: &Prop, src: &mut Src) -> (Ctx, CaseResult) {
    let mut ctx = Ctx::default();
    let mut r = match guarded(|| (p.case)(src, &mut ctx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    };
    if r.is_ok() {
        if let Some((k, w)) = ctx.known.iter().find(|(k, _)| !LISTED.get().is_some_and(|l| l.contains(&(p.id.to_string(), k.clone())))) {
            r = Err(format!("unlisted finding {k}: {w}"));
        }
    }
    (ctx, r)
}

fn kind(m: &str) -> String {
    m.split([':', '\n']).next().unwrap_or("").chars().take(60).collect()
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn case_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    case_seed_id(p.id, seed, idx)
}

pub fn case_seed_id(id: &str, seed: u64, idx: u64) -> u64 {
    let mut h = 1469598103934665603u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    mix(mix(seed ^ h).wrapping_add(idx.wrapping_mul(0x2545F4914F6CDD1D)))
}

/// generic choice-sequence shrinker; `test` returns true when the failure (same kind) persists
pub fn shrink(mut best: Vec<u64>, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>, max_execs: usize, max_secs: f64) -> Vec<u64> {
    let t0 = Instant::now();
    let mut execs = 0usize;
    let mut improved = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            execs += 1;
            if execs > max_execs || t0.elapsed().as_secs_f64() > max_secs {
                return best;
            }
            let cand: Vec<u64> = $cand;
            if let Some(rec) = test(&cand) {
                // keep the recorded (normalised) sequence when it is no worse
                let next = if (rec.len(), &rec) <= (cand.len(), &cand) { rec } else { cand };
                if (next.len(), &next) < (best.len(), &best) {
                    best = next;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    while improved {
        improved = false;
        let mut size = best.len().next_power_of_two().min(512).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best[..lo].to_vec();
                    c.extend_from_slice(&best[hi..]);
                    if attempt!(c) {
                        improved = true;
                    }
                }
                i = lo;
            }
            size /= 2;
        }
        for size in [16usize, 4] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    if attempt!(c) {
                        improved = true;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if attempt!(c) {
                    improved = true;
                } else {
                    for nv in [v / 2, v - 1] {
                        if i < best.len() && nv < best[i] {
                            let mut c = best.clone();
                            c[i] = nv;
                            if attempt!(c) {
                                improved = true;
                            }
                        }
                    }
                    // delete a value here while lowering (length-prefix patterns)
                    if i + 1 < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(i + 1);
                        if attempt!(c) {
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub verif: String,
    pub cases: Option<u64>,
    pub threads: usize,
}

pub fn write_replay(id: &str, o: &Opts, choices: &[u64], msg: &str, desc: &str) -> String {
    let dir = format!("{}/evidence/replay", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", id);
    let j = serde_json::json!({"property": id, "seed": o.seed, "message": msg, "choices": choices, "inputs": desc});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
    path
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(id: &str, o: &Opts, evals: u64, distinct: u64, rule: &str, samples: &[String], tags: &BTreeMap<String, u64>, known: &BTreeMap<String, (u64, String)>, assumptions: &[&str], wall: f64, violations: u64) {
    let mut cov = serde_json::json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": rule,
        "samples": samples,
        "classification": tags,
    });
    if !known.is_empty() {
        cov["known_findings_hit"] = serde_json::json!(known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>());
    }
    let j = serde_json::json!({
        "property": id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": violations,
    });
    let dir = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&j).unwrap()).expect("write evidence");
}

/// The in-process run. Exits the process.
pub fn run_worker(p: &'static Prop, o: &Opts, slots: Option<&str>) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let n = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let next = AtomicU64::new(0);
    let stop = AtomicUsize::new(0);
    let fail: Mutex<Option<(u64, Vec<u64>, String, String)>> = Mutex::new(None);
    struct Acc {
        evals: u64,
        distinct: HashSet<u64>,
        tags: BTreeMap<String, u64>,
        known: BTreeMap<String, (u64, String)>,
        samples: Vec<(u64, String)>,
    }
    let acc = Mutex::new(Acc { evals: 0, distinct: HashSet::new(), tags: BTreeMap::new(), known: BTreeMap::new(), samples: vec![] });
    let slotf = slots.map(|s| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(s).expect("slots"));
    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (next, stop, fail, acc, slotf) = (&next, &stop, &fail, &acc, &slotf);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut l = Acc { evals: 0, distinct: HashSet::new(), tags: BTreeMap::new(), known: BTreeMap::new(), samples: vec![] };
                    while stop.load(Ordering::Relaxed) == 0 {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        if let Some(f) = slotf {
                            let _ = f.write_at(&(i + 1).to_le_bytes(), (t * 8) as u64);
                        }
                        let mut src = Src::from_seed(case_seed(p, o.seed, i));
                        let (ctx, r) = run_one(p, &mut src);
                        l.evals += ctx.evals.max(1);
                        for t in &ctx.tags {
                            *l.tags.entry(t.to_string()).or_default() += 1;
                        }
                        for (k, w) in ctx.known {
                            l.known.entry(k).or_insert((0, w)).0 += 1;
                        }
                        if ctx.nontrivial {
                            *l.tags.entry("nontrivial".into()).or_default() += 1;
                            l.distinct.insert(hash_str(&ctx.desc));
                            if i < 40 && l.samples.len() < 3 {
                                l.samples.push((i, ctx.desc.chars().take(1500).collect()));
                            }
                        }
                        if let Err(m) = r {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.0 > i) {
                                *f = Some((i, src.record.clone(), m, ctx.desc));
                            }
                            stop.store(1, Ordering::Relaxed);
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.evals += l.evals;
                    a.distinct.extend(l.distinct);
                    for (k, v) in l.tags {
                        *a.tags.entry(k).or_default() += v;
                    }
                    for (k, v) in l.known {
                        a.known.entry(k).or_insert((0, v.1)).0 += v.0;
                    }
                    a.samples.extend(l.samples);
                })
                .unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.samples.sort();
    let samples: Vec<String> = a.samples.into_iter().take(3).map(|x| x.1).collect();
    let f = fail.into_inner().unwrap();
    let viol = f.is_some() as u64;
    let mut code = 0;
    if let Some((i, choices, msg, _desc)) = f {
        let k = kind(&msg);
        println!("case {i} fails: {msg}");
        let best = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    shrink(
                        choices,
                        |c| {
                            let mut s = Src::from_choices(c.to_vec());
                            let (_, r) = run_one(p, &mut s);
                            match r {
                                Err(m) if kind(&m) == k => Some(s.record),
                                _ => None,
                            }
                        },
                        20_000,
                        40.0,
                    )
                })
                .unwrap()
                .join()
                .unwrap()
        });
        let mut s = Src::from_choices(best.clone());
        let (ctx, r) = run_one(p, &mut s);
        let m = r.err().unwrap_or(msg);
        println!("shrunk to {} choices\n{}\n=> {}", best.len(), ctx.desc, m);
        let path = write_replay(p.id, o, &best, &m, &ctx.desc);
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    for (k, (c, w)) in &a.known {
        println!("KNOWN-FINDING: property={} {k}: {w} (hit {c} times)", p.id);
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p.id, o, a.evals, a.distinct.len() as u64, p.rule, &samples, &a.tags, &a.known, p.assumptions, wall, viol);
    if code == 0 {
        println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, a.evals, a.distinct.len(), wall);
        for (k, v) in &a.tags {
            println!("  {k}: {v}");
        }
    }
    code
}

pub fn replay(p: &'static Prop, src: Src, o: &Opts) -> i32 {
    install_hook();
    let mut src = src;
    let (ctx, r) = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || run_one(p, &mut src))
            .unwrap()
            .join()
            .unwrap()
    });
    println!("{}", ctx.desc);
    println!("tags: {:?} nontrivial: {}", ctx.tags, ctx.nontrivial);
    for (k, w) in &ctx.known {
        println!("KNOWN-FINDING: property={} {k}: {w}", p.id);
    }
    match r {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(m) => {
            println!("=> {m}");
            println!("VIOLATION property={} replay={}/evidence/replay/{}.json", p.id, o.verif, p.id);
            1
        }
    }
}

/// Run the worker as a child; isolate crashes.
pub fn supervise(p: &'static Prop, o: &Opts) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("bjcheck-{}-{}", p.id, std::process::id()));
    let slots_s = slots.to_str().unwrap().to_string();
    let _ = std::fs::remove_file(&slots);
    let mut cmd = std::process::Command::new(&exe);
    cmd.args([p.id, "--worker", &slots_s]).args(["--seed", &o.seed.to_string(), "--tier", &o.tier]);
    if let Some(c) = o.cases {
        cmd.args(["--cases", &c.to_string()]);
    }
    let st = cmd.status().expect("spawn worker");
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() {
        return if c == 0 || c == 1 { c } else { 2 };
    }
    let sig = st.signal().unwrap_or(0);
    println!("worker ended by signal {sig}; isolating");
    if sig == 9 || sig == 15 {
        return 2;
    }
    let t0 = Instant::now();
    for ch in data.chunks(8) {
        if ch.len() < 8 {
            continue;
        }
        let v = u64::from_le_bytes(ch.try_into().unwrap());
        if v == 0 {
            continue;
        }
        let i = v - 1;
        let crashes = |choices: Option<&[u64]>| -> bool {
            let mut c = std::process::Command::new(&exe);
            c.arg(p.id).args(["--seed", &o.seed.to_string()]);
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            if let Some(ch) = choices {
                let f = format!("{slots_s}.json");
                std::fs::write(&f, serde_json::json!({ "choices": ch }).to_string()).unwrap();
                c.args(["--replay", &f]);
            } else {
                c.args(["--one", &i.to_string()]);
            }
            let st = c.status().unwrap();
            matches!(st.signal(), Some(6 | 11 | 7 | 4 | 8))
        };
        if crashes(None) && crashes(None) {
            // the choices a case drew are streamed to a file, which survives the crash
            let log = format!("{slots_s}.log");
            let _ = std::process::Command::new(&exe)
                .arg(p.id)
                .args(["--seed", &o.seed.to_string(), "--one", &i.to_string(), "--log", &log])
                .output();
            let raw = std::fs::read(&log).unwrap_or_default();
            let _ = std::fs::remove_file(&log);
            let rec: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let best = if !rec.is_empty() && crashes(Some(&rec)) {
                shrink(rec, |c| if crashes(Some(c)) { Some(c.to_vec()) } else { None }, 400, 120.0)
            } else {
                rec
            };
            let _ = std::fs::remove_file(format!("{slots_s}.json"));
            let path = write_replay(p.id, o, &best, &format!("process crash (signal {sig}) on case {i}"), "the process is killed by this case; see choices");
            println!("case {i} kills the process (signal {sig})");
            println!("VIOLATION property={} replay={}", p.id, path);
            write_evidence(p.id, o, i + 1, 0, p.rule, &[format!("case {i} crashes the process")], &BTreeMap::new(), &BTreeMap::new(), p.assumptions, t0.elapsed().as_secs_f64(), 1);
            return 1;
        }
    }
    println!("crash not reproduced in isolation");
    2
}
