//! Runs generated cases of a property, counts them, shrinks the first failure
//! and writes the replay and evidence files.
use {
    crate::tape::{shrink, splitmix, Tape},
    serde_json::{json, Value},
    std::{
        collections::{BTreeMap, HashSet},
        panic::{catch_unwind, AssertUnwindSafe},
        path::{Path, PathBuf},
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
            Mutex,
        },
        time::{Duration, Instant},
    },
};

/// The check's own standard output. The code under test logs to file
/// descriptor 1 when it runs natively, which `mute` sends to /dev/null.
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub fn mute() {
    use std::os::fd::FromRawFd;
    if std::env::var_os("VERIF_LOGS").is_some() {
        return;
    }
    unsafe {
        let keep = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        if keep >= 0 && null >= 0 && libc::dup2(null, 1) == 1 {
            libc::close(null);
            let _ = OUT.set(std::fs::File::from_raw_fd(keep));
        }
    }
}

pub fn say(line: &str) {
    use std::io::Write;
    match OUT.get() {
        Some(mut f) => {
            let _ = writeln!(f, "{line}");
        }
        None => println!("{line}"),
    }
}

macro_rules! say {
    ($($a:tt)*) => { say(&format!($($a)*)) };
}

pub struct Case {
    pub t: Tape,
    pub record: bool,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    digest: u64,
    /// Working directory of the worker, for parts that need files.
    pub scratch: PathBuf,
}

impl Case {
    pub fn new(t: Tape, record: bool) -> Self {
        Case {
            t,
            record,
            labels: vec![],
            notes: vec![],
            nontrivial: false,
            digest: 0xcbf2_9ce4_8422_2325,
            scratch: PathBuf::new(),
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            self.notes.push(f());
        }
    }
    /// Marks the case non-trivial.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Adds to the identity of the case (for counting distinct ones).
    pub fn feed(&mut self, d: &[u8]) {
        let mut h = self.digest;
        for c in d.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
        }
        self.digest = h ^ d.len() as u64;
    }
}

pub type CaseFn = fn(&mut Case) -> Result<(), String>;

#[derive(Clone, Copy)]
pub enum Mode {
    /// quick and thorough numbers of random cases
    Random(u64, u64),
    /// every value of the first choice below the bound, the rest of the tape random
    Enumerate(u64),
}

#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    pub mode: Mode,
    pub threads: usize,
    /// least percentage of cases that must be non-trivial
    pub floor: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub hang_is_violation: bool,
    pub parts: Vec<Part>,
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub only_part: Option<String>,
    /// multiplies the number of random cases (percent)
    pub scale: u64,
    /// suffix for evidence notes, e.g. the build profile
    pub profile: String,
}

fn case_seed(seed: u64, id: &str, part: &str, index: u64) -> u64 {
    let mut x = seed ^ 0xA5A5_5A5A;
    let mut h = splitmix(&mut x);
    for b in id.bytes().chain([0]).chain(part.bytes()) {
        x ^= (b as u64).wrapping_mul(0x1000_0000_01B3);
        h ^= splitmix(&mut x);
    }
    x ^= index.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    h ^ splitmix(&mut x)
}

enum Ran {
    Ok,
    Violation(String),
    Harness(String),
}

fn run_case(f: CaseFn, c: &mut Case) -> Ran {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(m)) if m.starts_with("HARNESS:") => Ran::Harness(m),
        Ok(Err(m)) => Ran::Violation(m),
        Err(p) => Ran::Harness(format!(
            "harness panic: {}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn tape_for(part: &Part, seed: u64, id: &str, i: u64) -> Tape {
    match part.mode {
        Mode::Random(..) => Tape::random(case_seed(seed, id, part.name, i)),
        Mode::Enumerate(_) => {
            let mut r = crate::tape::Rng::new(case_seed(seed, id, part.name, i));
            let mut v = vec![i];
            v.extend((0..512).map(|_| r.next()));
            Tape::replay(v)
        }
    }
}

#[derive(Default)]
struct Totals {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    first: Vec<u64>,
}

pub fn run(p: &Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let mut parts_json = vec![];
    let mut samples = vec![];
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut code = 0;
    let mut violations = 0;
    let mut lines = vec![];
    for part in &p.parts {
        if o.only_part.as_deref().is_some_and(|n| n != part.name) {
            continue;
        }
        let t0 = Instant::now();
        let n = match part.mode {
            Mode::Random(q, t) => (if o.thorough { t } else { q }) * o.scale / 100,
            Mode::Enumerate(k) => k,
        };
        if n == 0 {
            continue;
        }
        let next = AtomicU64::new(0);
        let fail_at = AtomicU64::new(u64::MAX);
        let fails: Mutex<BTreeMap<u64, Ran>> = Mutex::new(BTreeMap::new());
        let broken: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let totals: Mutex<Totals> = Mutex::new(Totals::default());
        let done = AtomicBool::new(false);
        let beats: Vec<AtomicU64> = (0..part.threads).map(|_| AtomicU64::new(0)).collect();
        let cases: Vec<AtomicU64> = (0..part.threads).map(|_| AtomicU64::new(0)).collect();
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..part.threads {
                let (next, fail_at, fails, broken, totals, beats, cases) =
                    (&next, &fail_at, &fails, &broken, &totals, &beats, &cases);
                hs.push(s.spawn(move || {
                    let scratch = scratch_dir(w);
                    let mut mine = Totals::default();
                    let batch = (n / (part.threads as u64 * 8)).clamp(1, 64);
                    loop {
                        let from = next.fetch_add(batch, SeqCst);
                        if from >= n {
                            break;
                        }
                        for i in from..(from + batch).min(n) {
                            if i > fail_at.load(SeqCst) {
                                break;
                            }
                            cases[w].store(i, SeqCst);
                            beats[w].store(start.elapsed().as_secs() + 1, SeqCst);
                            let mut c = Case::new(tape_for(part, o.seed, p.id, i), false);
                            c.scratch = scratch.clone();
                            let r = run_case(part.f, &mut c);
                            mine.evals += 1;
                            if c.nontrivial {
                                mine.nontrivial += 1;
                                mine.distinct.insert(c.digest);
                                if mine.first.len() < 2 {
                                    mine.first.push(i);
                                }
                            }
                            for l in c.labels {
                                *mine.labels.entry(l).or_default() += 1;
                            }
                            match r {
                                Ran::Ok => (),
                                Ran::Violation(_) => {
                                    fail_at.fetch_min(i, SeqCst);
                                    fails.lock().unwrap().insert(i, r);
                                }
                                // no verdict on this case; others may have one
                                Ran::Harness(m) => {
                                    let mut b = broken.lock().unwrap();
                                    b.insert(i, m);
                                    if b.len() > 20 {
                                        fail_at.fetch_min(i, SeqCst);
                                    }
                                }
                            }
                        }
                    }
                    beats[w].store(u64::MAX, SeqCst);
                    let _ = std::fs::remove_dir_all(&scratch);
                    let mut t = totals.lock().unwrap();
                    t.evals += mine.evals;
                    t.nontrivial += mine.nontrivial;
                    t.distinct.extend(mine.distinct);
                    for (l, k) in mine.labels {
                        *t.labels.entry(l).or_default() += k;
                    }
                    t.first.extend(mine.first);
                }));
            }
            let (done, beats, cases) = (&done, &beats, &cases);
            let watch = s.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = start.elapsed().as_secs();
                    for (b, i) in beats.iter().zip(cases) {
                        let b = b.load(SeqCst);
                        if b == 0 || b == u64::MAX {
                            continue;
                        }
                        // in-process cases take microseconds
                        if p.hang_is_violation && now > b + 60 {
                            stuck(p, part, o, i.load(SeqCst));
                        }
                        if now > b + 150 {
                            eprintln!("HARNESS: a case of {} has run for more than 150 s; no verdict", p.id);
                            std::process::exit(3);
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, SeqCst);
            watch.join().unwrap();
        });
        let mut t = totals.into_inner().unwrap();
        let fails = fails.into_inner().unwrap();
        t.first.sort();
        for i in t.first.iter().take(2) {
            let mut c = Case::new(tape_for(part, o.seed, p.id, *i), true);
            c.scratch = scratch_dir(999);
            let _ = run_case(part.f, &mut c);
            let _ = std::fs::remove_dir_all(&c.scratch);
            let mut text = c.notes.join("\n");
            if text.len() > 3000 {
                let mut cut = 3000;
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
                text.push_str(" ...");
            }
            samples.push(json!({"part": part.name, "case": i, "labels": c.labels, "what": text}));
        }
        evals += t.evals;
        distinct += t.distinct.len() as u64;
        let mut labels: Vec<(String, u64)> = t.labels.into_iter().collect();
        labels.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
        labels.truncate(80);
        parts_json.push(json!({
            "part": part.name, "evaluations": t.evals, "nontrivial": t.nontrivial,
            "distinct_nontrivial": t.distinct.len(),
            "enumerated": matches!(part.mode, Mode::Enumerate(_)),
            "classes": labels.iter().map(|(l, k)| (l.clone(), json!(k))).collect::<serde_json::Map<_, _>>(),
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        say!(
            "{} {}: {} cases, {} non-trivial ({} distinct), {:.1} s",
            p.id, part.name, t.evals, t.nontrivial, t.distinct.len(), t0.elapsed().as_secs_f64()
        );
        if let Some((i, m)) = broken.into_inner().unwrap().into_iter().next() {
            eprintln!("HARNESS ERROR in {} {} case {i}: {m}", p.id, part.name);
            code = 2;
        }
        if let Some((i, Ran::Violation(m))) = fails.into_iter().next() {
            let tape = consumed(part, tape_for(part, o.seed, p.id, i));
            let path = shrink_and_save(p, part, o, &i.to_string(), tape, m);
            lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
            violations += 1;
            code = 1;
            break;
        }
        if t.nontrivial * 100 < t.evals * part.floor {
            eprintln!(
                "HARNESS ERROR: only {} of {} cases of {} {} are non-trivial; the check would be vacuous",
                t.nontrivial, t.evals, p.id, part.name
            );
            code = 2;
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "parts": parts_json,
            "profile": o.profile,
        },
        "assumptions": p.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let mut dir = o.root.join("evidence");
    if o.profile == "deployed" && code == 0 {
        // the run of the other profile follows and writes the main file
        dir = dir.join("deployed");
    }
    let _ = std::fs::create_dir_all(&dir);
    let mut text = serde_json::to_string_pretty(&ev).unwrap();
    if text.len() > 60_000 {
        let mut e = ev.clone();
        e["coverage"]["samples"] = json!(samples_short(&ev["coverage"]["samples"]));
        text = serde_json::to_string_pretty(&e).unwrap();
    }
    if code != 2 {
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), text) {
            eprintln!("HARNESS: cannot write evidence: {e}");
            code = 2;
        }
    }
    for l in lines {
        say!("{l}");
    }
    code
}

/// A case does not end: saves it and gives up.
fn stuck(p: &Prop, part: &Part, o: &Opts, i: u64) -> ! {
    let mut t = tape_for(part, o.seed, p.id, i);
    let tape: Vec<u64> = (0..256).map(|_| t.u64()).collect();
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", p.id, part.name, o.seed, i));
    let v = json!({
        "property": p.id, "part": part.name, "seed": o.seed, "case": i, "tape": tape,
        "violation": "the case does not end (60 s)",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    let ev = json!({
        "property": p.id, "tier": if o.thorough { "thorough" } else { "quick" }, "seed": o.seed,
        "level": "exploration",
        "coverage": {"evaluations": i + 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": ["see the replay file"]},
        "wall_s": 30, "violations": 1,
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
    say!("{}: case {i} of part {} does not end", p.id, part.name);
    say!("VIOLATION property={} replay={}", p.id, path.display());
    std::process::exit(1);
}

fn samples_short(v: &Value) -> Vec<Value> {
    v.as_array().map(|a| a.iter().take(2).cloned().collect()).unwrap_or_default()
}

fn scratch_dir(w: usize) -> PathBuf {
    std::env::temp_dir().join(format!("slashprops-{}-{w}", std::process::id()))
}

/// The choices that a case makes of its tape.
fn consumed(part: &Part, t: Tape) -> Vec<u64> {
    let mut c = Case::new(t, false);
    c.scratch = scratch_dir(998);
    let _ = run_case(part.f, &mut c);
    c.t.consumed()
}

fn shrink_and_save(p: &Prop, part: &Part, o: &Opts, i: &str, tape: Vec<u64>, first: String) -> PathBuf {
    let mut c;
    let t0 = Instant::now();
    let min = shrink(tape, 3000, |cand| {
        if t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let mut c = Case::new(Tape::replay(cand.to_vec()), false);
        c.scratch = scratch_dir(998);
        match run_case(part.f, &mut c) {
            Ran::Violation(_) => {
                let mut used = c.t.consumed();
                // consumed() is shorter than what was asked when zeros were implied
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some(used)
            }
            _ => None,
        }
    });
    c = Case::new(Tape::replay(min.clone()), true);
    c.scratch = scratch_dir(998);
    let msg = match run_case(part.f, &mut c) {
        Ran::Violation(m) => m,
        _ => first,
    };
    let _ = std::fs::remove_dir_all(&c.scratch);
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", p.id, part.name, o.seed, i));
    let v = json!({
        "property": p.id, "part": part.name, "seed": o.seed, "case": i,
        "tape": min, "violation": msg, "labels": c.labels, "case_description": c.notes,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    say!("{}: violated in part {}, case {i}: {msg}", p.id, part.name);
    for n in c.notes.iter().take(40) {
        say!("    {n}");
    }
    path
}

// --- coverage-guided search ---------------------------------------------------

/// The counters of the instrumented program; empty in ordinary builds.
static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);

/// Called by the start-up code of every instrumented module.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
    let r = (start as usize, stop as usize);
    if r.0 < r.1 && !c.contains(&r) {
        c.push(r);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

fn counters() -> Vec<&'static mut [u8]> {
    let c = COUNTERS.lock().unwrap();
    c.iter().map(|(a, b)| unsafe { std::slice::from_raw_parts_mut(*a as *mut u8, b - a) }).collect()
}

fn mutate(r: &mut crate::tape::Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    let pick = |r: &mut crate::tape::Rng, n: usize| (r.next() % n.max(1) as u64) as usize;
    // half of the time one of the latest
    let base = if r.next() & 1 == 0 { corpus.len() - 1 - pick(r, corpus.len().min(8)) } else { pick(r, corpus.len()) };
    let mut v = corpus[base].clone();
    for _ in 0..1 + pick(r, 4) {
        if v.is_empty() {
            v.push(r.next());
            continue;
        }
        let i = pick(r, v.len());
        match pick(r, 9) {
            0 => v[i] = r.next(),
            1 => v[i] = r.next() % 16,
            2 => v[i] = v[i].wrapping_add(1),
            3 => v[i] = v[i].wrapping_sub(1),
            4 => v[i] = 1 << (r.next() % 64),
            5 => {
                v.remove(i);
            }
            6 => v.insert(i, r.next() % 8),
            // the rest anew
            7 => v.truncate(i),
            _ => {
                let o = &corpus[pick(r, corpus.len())];
                let j = pick(r, o.len());
                v.truncate(i);
                v.extend_from_slice(&o[j.min(o.len())..]);
            }
        }
    }
    v.truncate(4096);
    v
}

/// One process of the search: prints what it found as a line of JSON.
pub fn guided_worker(p: &Prop, o: &Opts, worker: u64, execs: u64) -> i32 {
    let Some(part) = p.parts.iter().find(|q| o.only_part.as_deref() == Some(q.name)) else { return 2 };
    let mut cs = counters();
    let edges: usize = cs.iter().map(|c| c.len()).sum();
    let mut seen = vec![0u8; edges];
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut r = crate::tape::Rng::new(case_seed(o.seed, p.id, "guided", worker) ^ part.name.len() as u64);
    let mut distinct = HashSet::new();
    let (mut nontrivial, mut done, mut last_new) = (0u64, 0u64, 0u64);
    let mut failed = Value::Null;
    let start = Instant::now();
    while done < execs && start.elapsed() < Duration::from_secs(240) {
        let tape = if corpus.is_empty() || done < 500 || r.next() % 8 == 0 {
            Tape::random(r.next())
        } else {
            let v = mutate(&mut r, &corpus);
            Tape::mixed(v, r.next())
        };
        cs.iter_mut().for_each(|c| c.fill(0));
        let mut c = Case::new(tape, false);
        c.scratch = scratch_dir(worker as usize);
        let out = run_case(part.f, &mut c);
        done += 1;
        let mut new = false;
        let mut at = 0;
        for c in cs.iter() {
            for x in c.iter() {
                if *x != 0 {
                    // how often, roughly
                    let b = 1u8 << (7 - (*x).min(127).leading_zeros().clamp(1, 7)).min(7);
                    new |= seen[at] & b == 0;
                    seen[at] |= b;
                }
                at += 1;
            }
        }
        if c.nontrivial {
            nontrivial += 1;
            distinct.insert(c.digest);
        }
        if new {
            last_new = done;
            corpus.push(c.t.consumed());
        }
        match out {
            Ran::Ok => (),
            Ran::Violation(m) => {
                failed = json!({"violation": m, "tape": c.t.consumed(), "case": done});
                break;
            }
            Ran::Harness(m) => {
                eprintln!("HARNESS ERROR in {} {}: {m}", p.id, part.name);
                return 2;
            }
        }
    }
    let _ = std::fs::remove_dir_all(scratch_dir(worker as usize));
    let reached = seen.iter().filter(|x| **x != 0).count();
    let ours: Vec<Value> = seen.iter().enumerate().filter(|x| *x.1 != 0).map(|x| json!(x.0)).collect();
    say!(
        "{}",
        json!({
            "part": part.name, "worker": worker, "evaluations": done, "nontrivial": nontrivial,
            "distinct_nontrivial": distinct.len(), "counters": edges, "reached": reached, "corpus": corpus.len(),
            "last_new_at": last_new, "wall_s": start.elapsed().as_secs(), "failed": failed, "edges": ours,
        })
    );
    0
}

/// Coverage-guided search over the tapes of every random part, in processes.
pub fn guided(p: &Prop, o: &Opts, execs: u64) -> i32 {
    let parts: Vec<&Part> = p.parts.iter().filter(|q| matches!(q.mode, Mode::Random(..)) && q.name != "cluster").collect();
    let each = (8 / parts.len().max(1)).max(1) as u64;
    let exe = std::env::current_exe().unwrap();
    let jobs: Vec<(&Part, u64)> = parts.iter().flat_map(|q| (0..each).map(move |k| (*q, k))).collect();
    let mut rows = vec![];
    let mut code = 0;
    let mut reached: HashSet<u64> = HashSet::new();
    let mut lines = vec![];
    for chunk in jobs.chunks(8) {
        let kids: Vec<_> = chunk
            .iter()
            .map(|(q, k)| {
                std::process::Command::new(&exe)
                    .args(["guided-worker", p.id, q.name, &k.to_string(), &execs.to_string()])
                    .stdout(std::process::Stdio::piped())
                    .spawn()
            })
            .collect();
        for ((q, k), kid) in chunk.iter().zip(kids) {
            let out = kid.and_then(|c| c.wait_with_output());
            let v: Option<Value> = out.ok().filter(|x| x.status.success()).and_then(|x| serde_json::from_slice(&x.stdout).ok());
            let Some(mut v) = v else {
                eprintln!("HARNESS ERROR: worker {k} of {} {} gave no answer", p.id, q.name);
                code = code.max(2);
                continue;
            };
            for e in v["edges"].as_array().into_iter().flatten() {
                reached.insert(e.as_u64().unwrap_or(0));
            }
            v.as_object_mut().unwrap().remove("edges");
            if v["counters"] == 0 {
                eprintln!("HARNESS ERROR: the program is not instrumented");
                code = 2;
            }
            if !v["failed"].is_null() {
                let tape = v["failed"]["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
                let m = v["failed"]["violation"].as_str().unwrap_or("").to_string();
                let path = shrink_and_save(p, q, o, &format!("guided{k}"), tape, m);
                lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
            }
            say!(
                "{} {} guided: {} cases, {} non-trivial, {} of {} counters, corpus {}, {} s",
                p.id, q.name, v["evaluations"], v["nontrivial"], v["reached"], v["counters"], v["corpus"], v["wall_s"]
            );
            rows.push(v);
        }
    }
    if !lines.is_empty() {
        code = 1;
    }
    let dir = o.root.join("evidence/guided");
    let _ = std::fs::create_dir_all(&dir);
    let ev = json!({"property": p.id, "seed": o.seed, "counters_reached": reached.len(), "workers": rows});
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
    if let Some(l) = lines.first() {
        say!("{l}");
    }
    code
}

/// Re-runs a replay file; exit code 1 and the violation when it still fails.
pub fn replay(props: &[Prop], path: &Path) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let Some(p) = props.iter().find(|p| Some(p.id) == v["property"].as_str()) else { return 2 };
    let Some(part) = p.parts.iter().find(|q| Some(q.name) == v["part"].as_str()) else { return 2 };
    let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let mut c = Case::new(Tape::replay(tape), true);
    c.scratch = scratch_dir(997);
    let r = run_case(part.f, &mut c);
    let _ = std::fs::remove_dir_all(&c.scratch);
    for n in &c.notes {
        say!("    {n}");
    }
    match r {
        Ran::Ok => {
            say!("{} {}: holds on this case", p.id, part.name);
            0
        }
        Ran::Violation(m) => {
            say!("{} {}: {m}", p.id, part.name);
            say!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        Ran::Harness(m) => {
            eprintln!("HARNESS ERROR: {m}");
            2
        }
    }
}
