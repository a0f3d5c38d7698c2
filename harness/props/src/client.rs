//! P20 - P23: the command line client, as a process, against the stand-in node.
use {
    crate::{
        cluster,
        rpc::{Chain, Fault, Kind, Node, Sent, RECORD},
        world::*,
    },
    serde_json::Value,
    slashkit::{
        crypto::Key,
        engine::Case,
        shred::{self, Pair},
        svm::{ids, Account, Svm, TopIx},
        tape::{blob, Tape},
    },
    solana_program::{instruction::Instruction, pubkey::Pubkey},
    std::{
        cell::RefCell,
        collections::{BTreeMap, BTreeSet},
        path::{Path, PathBuf},
        process::{Command, Stdio},
        sync::{
            atomic::{AtomicUsize, Ordering},
            Arc, Mutex, MutexGuard,
        },
        time::{Duration, Instant},
    },
};

// --- running the client -------------------------------------------------------

pub struct Worker {
    dir: PathBuf,
    node: Node,
    tool: Option<cluster::Tool>,
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// Scratch directory of this process, removed by `cleanup`.
pub fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("slashprops-{}", std::process::id()))
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch());
}

fn signer() -> Key {
    Key::new(0xC11E)
}

fn other_payer() -> Key {
    Key::new(0xC11F)
}

fn start_worker() -> std::io::Result<Worker> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let dir = scratch().join(format!("w{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir)?;
    let node = Node::start()?;
    for (name, k) in [("id.json", signer()), ("other.json", other_payer())] {
        std::fs::write(dir.join(name), serde_json::to_string(&k.keypair_bytes()).unwrap())?;
    }
    std::fs::write(
        dir.join("config.yml"),
        format!(
            "---\njson_rpc_url: {}\nwebsocket_url: ''\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
            node.url,
            dir.join("id.json").display()
        ),
    )?;
    Ok(Worker { dir, node, tool: None })
}

fn with_worker<T>(f: impl FnOnce(&mut Worker) -> Result<T, String>) -> Result<T, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(start_worker().map_err(|e| format!("HARNESS: {e}"))?);
        }
        f(w.as_mut().unwrap())
    })
}

struct Out {
    code: Option<i32>,
    stdout: String,
    stderr: String,
}

impl Out {
    fn tail(&self) -> String {
        let cut = |s: &str| {
            let v: Vec<char> = s.chars().collect();
            v[v.len().saturating_sub(600)..].iter().collect::<String>()
        };
        format!("exit {:?}; stdout: {:?}; stderr: {:?}", self.code, cut(&self.stdout), cut(&self.stderr))
    }
}

/// The longest a run may take: a hundred times what one takes.
const PATIENCE: Duration = Duration::from_secs(45);

fn binary() -> String {
    std::env::var("VERIF_CLIENT").unwrap_or_else(|_| "/repo/target/debug/spl-slashing".into())
}

fn run_until(dir: &Path, args: &[String], done: impl FnMut(&Path) -> bool) -> Result<Out, String> {
    let config = ["-C".to_string(), dir.join("config.yml").display().to_string()];
    run_with(dir, &[&config, args].concat(), done)
}

fn run_plain(dir: &Path, args: &[String]) -> Result<Out, String> {
    run_with(dir, args, |_| false)
}

fn run_with(dir: &Path, args: &[String], mut done: impl FnMut(&Path) -> bool) -> Result<Out, String> {
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let file = |p: &Path| std::fs::File::create(p).map_err(|e| format!("HARNESS: {e}"));
    let mut child = Command::new(binary())
        .args(args)
        .env_clear()
        .env("HOME", dir)
        .env("PATH", "/usr/bin:/bin")
        .env("LD_PRELOAD", cluster::path().with_file_name("nofile.so"))
        .env("RAYON_NUM_THREADS", "1")
        .env("TOKIO_WORKER_THREADS", "2")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(file(&o)?)
        .stderr(file(&e)?)
        .spawn()
        .map_err(|e| format!("HARNESS: cannot start {}: {e}", binary()))?;
    let start = Instant::now();
    let mut killed = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => (),
            Err(e) => return Err(format!("HARNESS: {e}")),
        }
        let late = start.elapsed() > PATIENCE;
        if late || (!killed && done(&o)) {
            killed = true;
            let _ = child.kill();
            let s = child.wait().map_err(|e| format!("HARNESS: {e}"))?;
            if late {
                return Err(format!("the client did not finish within {PATIENCE:?}: {args:?}"));
            }
            break s;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Ok(Out { code: if killed { Some(0) } else { status.code() }, stdout: read(&o), stderr: read(&e) })
}

fn run(dir: &Path, args: &[String]) -> Result<Out, String> {
    run_until(dir, args, |_| false)
}

fn lock(c: &Arc<Mutex<Chain>>) -> MutexGuard<'_, Chain> {
    c.lock().unwrap_or_else(|e| e.into_inner())
}

// --- common choices -------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Plain,
    Verbose,
    Json,
    Compact,
}

impl Format {
    fn gen(t: &mut Tape) -> Format {
        [Format::Json, Format::Plain, Format::Verbose, Format::Compact][t.below(4) as usize]
    }
    fn args(&self) -> Vec<String> {
        match self {
            Format::Plain => vec![],
            Format::Verbose => vec!["--verbose".into()],
            Format::Json => vec!["--output".into(), "json".into()],
            Format::Compact => vec!["--output".into(), "json-compact".into()],
        }
    }
    fn json(&self) -> bool {
        matches!(self, Format::Json | Format::Compact)
    }
}

/// A report on chain.
#[derive(Clone, Debug)]
struct Report {
    address: Pubkey,
    node: Pubkey,
    slot: u64,
    reporter: Pubkey,
    destination: Pubkey,
    epoch: u64,
    lamports: u64,
    proof: Vec<u8>,
    refused: bool,
    views: Option<(shred::View, shred::View)>,
}

impl Report {
    fn data(&self) -> Vec<u8> {
        let mut v = vec![1];
        v.extend_from_slice(self.reporter.as_ref());
        v.extend_from_slice(self.destination.as_ref());
        v.extend_from_slice(&self.epoch.to_le_bytes());
        v.extend_from_slice(self.node.as_ref());
        v.extend_from_slice(&self.slot.to_le_bytes());
        v.push(1);
        v.extend_from_slice(&self.proof);
        v
    }
}

fn gen_epoch(t: &mut Tape) -> u64 {
    match t.below(5) {
        0 => t.below(6),
        1 => 800,
        2 => t.range(0, 1 << 20),
        3 => t.edgy(60),
        _ => 3,
    }
}

fn fund(chain: &mut Chain) {
    for k in [signer(), other_payer()] {
        chain.svm.accounts.insert(k.pubkey(), Account::wallet(1 << 50));
    }
}

fn nodes(t: &mut Tape) -> Key {
    Key::new(900 + t.below(3))
}

fn parties(t: &mut Tape) -> Pubkey {
    match t.below(8) {
        0 => signer().pubkey(),
        1 => nodes(t).pubkey(),
        _ => wallet(100 + t.below(3)),
    }
}

fn gen_reports(t: &mut Tape, chain: &mut Chain, now: u64, real: bool) -> Vec<Report> {
    let n = match t.below(6) {
        0 => 0,
        1 => 1,
        2 if t.chance(1, 6) => t.usize(30, 150),
        2 => t.usize(8, 20),
        _ => t.usize(2, 7),
    };
    let mut v: Vec<Report> = vec![];
    let base = gen_slot(t).min(u64::MAX - 2000);
    for _ in 0..n {
        let key = nodes(t);
        let slot = match t.below(4) {
            0 => gen_slot(t),
            _ => base + t.below(40 + n as u64),
        };
        let address = pda(&key.pubkey(), slot);
        if v.iter().any(|r| r.address == address) {
            continue;
        }
        let mut views = None;
        let proof = if real {
            let mut p = gen_proof(t, &key, slot);
            if t.chance(1, 6) {
                let (n, s) = (t.usize(1, 25), t.seed());
                p.a.payload.extend(blob(s, n));
            }
            views = p.views();
            pack(&p.a.payload, &p.b.payload)
        } else {
            let (a, b, s) = (t.usize(0, 40), t.usize(0, 40), t.seed());
            pack(&blob(s, a), &blob(s + 1, b))
        };
        let r = Report {
            address,
            node: key.pubkey(),
            slot,
            reporter: parties(t),
            // nobody can credit these: the report cannot be closed
            destination: if !real && t.chance(1, 12) {
                *t.pick(&[ids::SYSTEM, solana_program::sysvar::clock::ID])
            } else {
                parties(t)
            },
            epoch: match t.below(8) {
                0 => now,
                1 => now.saturating_sub(1),
                2 => now.saturating_sub(2),
                3 | 4 => now.saturating_sub(3),
                5 => now.saturating_sub(4),
                6 => t.range(0, now),
                _ => now.saturating_sub(t.below(6)),
            },
            lamports: match t.below(8) {
                0 | 1 => 2_000_000 + t.below(40_000_000),
                2 => t.range(1 << 40, 1 << 54),
                _ => 2_000_000 + t.range(0, 1 << 40),
            },
            proof,
            refused: false,
            views,
        };
        chain.svm.accounts.insert(
            address,
            Account { lamports: r.lamports, data: r.data(), owner: SLASHING, executable: false },
        );
        v.push(r);
    }
    v
}

/// A destination that no transaction may credit.
fn reserved_destination(r: &Report) -> Option<Pubkey> {
    [ids::SYSTEM, solana_program::sysvar::clock::ID].into_iter().find(|k| *k == r.destination)
}

/// A pair that the slashing program accepts.
fn gen_proof(t: &mut Tape, key: &Key, slot: u64) -> Pair {
    let version = t.below(65536) as u16;
    for _ in 0..4 {
        let p = match t.below(3) {
            0 => shred::gen_near_pair(t, slot, version, key),
            1 => shred::gen_dense_pair(t, slot, version, key),
            _ => shred::gen_conflict_pair(t, slot, version, key),
        };
        if let Some((a, b)) = p.views() {
            if matches!(shred::verdict(&a, &b, slot), shred::Verdict::Conflict(_)) {
                return p;
            }
        }
    }
    let s = shred::gen_set(t, slot, version);
    let mut o = s.clone();
    o.seed = s.seed + 1;
    Pair {
        a: shred::build_one(&s.data(0), s.seed, key),
        b: shred::build_one(&o.data(0), o.seed, key),
        class: "plain conflict",
    }
}

/// Accounts that anybody can make the program own: blank ones of any length.
fn gen_blanks(t: &mut Tape, chain: &mut Chain) -> Vec<Pubkey> {
    let n = if t.bool() { 0 } else { t.usize(1, 3) };
    (0..n)
        .map(|i| {
            let len = match t.below(7) {
                0 => 0,
                1 => 1,
                2 => REPORT_HEADER - 1,
                3 => REPORT_HEADER,
                4 => REPORT_HEADER + 8,
                5 => t.usize(0, REPORT_HEADER),
                _ => t.usize(REPORT_HEADER, 3000),
            };
            let k = wallet(7000 + i as u64);
            let lamports = chain.svm.rent.minimum_balance(len) + t.below(1000);
            chain.svm.accounts.insert(k, Account { lamports, data: vec![0; len], owner: SLASHING, executable: false });
            k
        })
        .collect()
}

fn healthy(chain: &Chain) -> Result<(), String> {
    match chain.odd.first() {
        Some(o) => Err(o.clone()),
        None => Ok(()),
    }
}

fn number_after<'a>(out: &'a str, label: &str) -> Option<&'a str> {
    out.lines().find_map(|l| l.trim().strip_prefix(label)).map(|s| s.trim())
}

fn same_ix(a: &Instruction, b: &Instruction) -> bool {
    a.program_id == b.program_id
        && a.data == b.data
        && a.accounts.len() == b.accounts.len()
        && a.accounts.iter().zip(&b.accounts).all(|(x, y)| x.pubkey == y.pubkey)
}

fn global(t: &mut Tape, dir: &Path, dry: bool) -> (Vec<String>, Pubkey, Format) {
    let f = Format::gen(t);
    let mut a = f.args();
    let payer = if t.chance(1, 3) {
        a.push("--fee-payer".into());
        a.push(dir.join("other.json").display().to_string());
        other_payer().pubkey()
    } else {
        signer().pubkey()
    };
    if dry {
        a.push(if t.bool() { "--dry-run" } else { "--dryrun" }.into());
    }
    (a, payer, f)
}

// --- close --------------------------------------------------------------------

fn close_case(c: &mut Case, dry: bool, faulty: bool) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let now = gen_epoch(t);
        fresh.svm.clock.epoch = now;
        fresh.svm.clock.slot = now.saturating_mul(432_000).saturating_add(t.below(432_000));
        fresh.order = t.seed();
        let reports = gen_reports(t, &mut fresh, now, false);
        let blanks = gen_blanks(t, &mut fresh);
        if faulty && dry {
            sim_faults(t, &mut fresh);
        } else if faulty {
            for _ in 0..t.usize(1, 2) {
                let n = t.below(4) as usize;
                fresh.faults.insert((Kind::CloseReport, n), *t.pick(&[Fault::Refuse, Fault::Fail, Fault::Drop]));
            }
        }
        for k in 100..103 {
            if t.bool() {
                fresh.svm.accounts.insert(wallet(k), Account::wallet(1_000_000 + t.below(1000)));
            }
        }
        let (globals, payer, format) = global(t, &w.dir, dry);
        let mut args = vec!["close".to_string()];
        let mut only: Option<Pubkey> = None;
        if t.chance(1, 4) {
            let k = match (t.below(8), reports.is_empty(), blanks.is_empty()) {
                (0, _, false) => blanks[0],
                (1, _, _) => wallet(4242),
                (_, false, _) => reports[t.below(reports.len() as u64) as usize].address,
                _ => wallet(4243),
            };
            args.push(k.to_string());
            only = Some(k);
        }
        let mut filter = |t: &mut Tape, name: &str, k: fn(&mut Tape) -> Pubkey| -> Option<Pubkey> {
            t.chance(1, 3).then(|| {
                let k = if t.chance(1, 10) { wallet(4244) } else { k(t) };
                args.push(format!("--{name}"));
                args.push(k.to_string());
                k
            })
        };
        let node = filter(t, "node-pubkey", |t| nodes(t).pubkey());
        let reporter = filter(t, "reporter", parties);
        let destination = filter(t, "destination", parties);
        if t.bool() {
            args = [globals, args].concat();
        } else {
            args = [args, globals].concat();
        }

        let matches = |r: &Report| {
            only.is_none_or(|k| k == r.address)
                && node.is_none_or(|k| k == r.node)
                && reporter.is_none_or(|k| k == r.reporter)
                && destination.is_none_or(|k| k == r.destination)
        };
        let ripe = |r: &Report| now as u128 >= r.epoch as u128 + 3;
        let want: Vec<&Report> = reports.iter().filter(|r| ripe(r) && matches(r)).collect();
        let young = reports.iter().filter(|r| !ripe(r)).count();
        if !reports.is_empty() {
            c.nontrivial();
        }
        c.feed(args.join(" ").as_bytes());
        for r in &reports {
            c.feed(&r.data());
        }
        c.labels.push(format!("{format:?}"));
        c.labels.push(match want.len() {
            0 => "none eligible".into(),
            1 => "one eligible".into(),
            _ => "several eligible".to_string(),
        });
        if want.len() < reports.iter().filter(|r| ripe(r)).count() {
            c.labels.push("a ripe report is filtered out".into());
        }
        if !blanks.is_empty() {
            c.labels.push("blank accounts".into());
        }
        if faulty {
            c.note(|| format!("faults {:?} {:?}", fresh.faults, fresh.sim_faults));
        }
        c.note(|| format!("epoch {now}; spl-slashing {}", args.join(" ")));
        for r in &reports {
            c.note(|| format!("  report {} node {} slot {} reporter {} destination {} epoch {} lamports {}", r.address, r.node, r.slot, r.reporter, r.destination, r.epoch, r.lamports));
        }
        for b in &blanks {
            c.note(|| format!("  blank account {b} of {} bytes", fresh.svm.get(b).data.len()));
        }

        let before = fresh.svm.clone();
        *lock(&w.node.chain) = fresh;
        let out = run(&w.dir, &args)?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        if dry && !chain.sent.is_empty() {
            return Err(format!("a dry run sent a transaction: {:?}", chain.sent[0].ixs));
        }
        if out.code != Some(0) {
            return Err(format!("close failed: {}", out.tail()));
        }
        if !dry && !chain.simulated.is_empty() {
            c.labels.push("simulated too".into());
        }
        let acted: &Vec<Sent> = if dry { &chain.simulated } else { &chain.sent };
        // exactly one close per eligible report, nothing else
        let mut left: Vec<&Report> = want.clone();
        // what the summary must and may list
        let (mut must, mut may): (Vec<&Report>, Vec<&Report>) = (vec![], vec![]);
        let injected = |s: &Sent| s.result.as_ref().is_err_and(|e| e.starts_with("injected"));
        let mut signatures = BTreeMap::new();
        for s in acted {
            let ours = s.of(&SLASHING);
            let other: Vec<_> =
                s.ixs.iter().filter(|i| i.program_id != SLASHING && i.program_id != ids::COMPUTE_BUDGET).collect();
            if ours.is_empty() || !other.is_empty() {
                return Err(format!("close submitted something else: {:?}", s.ixs));
            }
            for i in ours {
                let hit = left.iter().position(|r| same_ix(i, &close_ix(r.address, r.destination)));
                let Some(p) = hit else {
                    return Err(format!("a close that must not be submitted: {i:?}"));
                };
                let r = left.remove(p);
                signatures.insert(r.address, s.signature.clone());
                let stuck = reserved_destination(r).is_some();
                match s.ok() {
                    true if stuck => return Err("HARNESS: a reserved account was credited".into()),
                    true => must.push(r),
                    false if !stuck && !injected(s) => return Err(format!("a submitted close failed: {:?}", s.result)),
                    false => {
                        c.labels.push("a close was refused".into());
                        // a simulation may be listed for what it was to close
                        if dry {
                            may.push(r);
                        }
                    }
                }
            }
            if s.payer != payer || s.signers != [payer] {
                return Err(format!("paid and signed by {:?}, not {payer}", s.signers));
            }
        }
        if let Some(r) = left.first() {
            return Err(format!("no close was submitted for {}", r.address));
        }
        // the ledger
        let mut model = before.clone();
        if !dry {
            for r in &must {
                model.accounts.remove(&r.address);
                model.accounts.entry(r.destination).or_default().lamports += r.lamports;
            }
        }
        if let Some((_, d)) = diff(&model, &chain.svm).first() {
            return Err(format!("ledger differs: {d}"));
        }
        // the summary
        if format.json() {
            let v = parsed(&out, format)?;
            let list = v["commandOutput"][1].as_array().ok_or("no list of closed reports")?;
            if v["commandName"] != "Close" || v["commandOutput"][0].as_u64() != Some(young as u64) {
                return Err(format!("{young} reports are too young; the summary says {}", v["commandOutput"][0]));
            }
            let want_json = |want: &[&Report]| -> Vec<String> {
                want.iter()
                    .map(|r| {
                        serde_json::json!({
                        "reportAccount": r.address.to_string(), "pubkey": r.node.to_string(),
                        "reporter": r.reporter.to_string(), "destination": r.destination.to_string(),
                        "lamports": r.lamports,
                            "signature": if dry { Value::Null } else { Value::String(signatures[&r.address].clone()) },
                        })
                        .to_string()
                    })
                    .collect()
            };
            let got: Vec<String> = list.iter().map(|x| x.to_string()).collect();
            listed(&got, &want_json(&must), &want_json(&may))?;
        } else {
            let got: Vec<String> =
                out.stdout.lines().filter_map(|l| l.strip_prefix("Closed report account ")).map(String::from).collect();
            let exp = |v: &[&Report]| -> Vec<String> { v.iter().map(|r| r.address.to_string()).collect() };
            listed(&got, &exp(&must), &exp(&may))?;
            let shown: Vec<&Report> = want.iter().copied().filter(|r| got.contains(&r.address.to_string())).collect();
            for r in &shown {
                let mut lines =
                    out.stdout.lines().skip_while(|l| *l != format!("Closed report account {}", r.address)).skip(1);
                let mut rest = vec![
                    format!("  Violator: {}", r.node),
                    format!("  Reporter: {}", r.reporter),
                    format!("  Reclaimed {} to destination {}", r.lamports, r.destination),
                ];
                if !dry {
                    rest.push(format!("  Signature: {}", signatures[&r.address]));
                }
                for x in rest {
                    let l = lines.next().unwrap_or("");
                    if l != x {
                        return Err(format!("the summary says {l:?} where {x:?} is due"));
                    }
                }
            }
            let total: u128 = shown.iter().map(|r| r.lamports as u128).sum();
            for (label, n) in [
                ("Reports too soon to close:", young.to_string()),
                ("Closed reports:", shown.len().to_string()),
                ("Total lamports recovered:", total.to_string()),
            ] {
                if number_after(&out.stdout, label) != Some(&n) {
                    return Err(format!("{label} {:?} instead of {n}", number_after(&out.stdout, label)));
                }
            }
        }
        if dry {
            outcomes(&out, format, &chain.simulated)?;
        }
        Ok(())
    })
}

/// The list has all of `must`, and otherwise only some of `may`, each once.
fn listed(got: &[String], must: &[String], may: &[String]) -> Result<(), String> {
    let mut left: Vec<&String> = must.iter().chain(may).collect();
    for g in got {
        match left.iter().position(|x| *x == g) {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("the summary lists {g}, not only {must:?}")),
        }
    }
    match left.iter().find(|x| must.contains(x)) {
        Some(x) => Err(format!("the summary lacks {x}")),
        None => Ok(()),
    }
}

/// The machine-readable output: one document, on one line if compact is asked for.
fn parsed(out: &Out, format: Format) -> Result<Value, String> {
    let v = serde_json::from_str(&out.stdout).map_err(|e| format!("not JSON ({e}): {}", out.tail()))?;
    if (out.stdout.trim().lines().count() == 1) != (format == Format::Compact) {
        return Err(format!("{format:?} was asked for: {}", out.tail()));
    }
    Ok(v)
}

/// What a dry run says about its simulations.
fn outcomes(out: &Out, format: Format, simulated: &[Sent]) -> Result<(), String> {
    if format.json() {
        return Ok(());
    }
    let refused = simulated.iter().filter(|s| s.result.as_ref().is_err_and(|e| e == "injected refusal")).count();
    let ok = simulated.iter().filter(|s| s.ok()).count();
    let n = |l: &str| out.stdout.lines().filter(|x| x.starts_with(l)).count();
    let (good, bad) = (n("Simulation succeeded"), n("Simulation failed"));
    if (good, bad) != (ok, simulated.len() - ok - refused) {
        return Err(format!(
            "{good} simulations are said to have succeeded and {bad} to have failed; {ok} of {} did, {refused} were refused",
            simulated.len()
        ));
    }
    Ok(())
}

pub fn p20_faults(c: &mut Case) -> Result<(), String> {
    close_case(c, false, true)
}

pub fn p20(c: &mut Case) -> Result<(), String> {
    close_case(c, false, false)
}

pub fn p23_close(c: &mut Case) -> Result<(), String> {
    close_case(c, true, false)
}

pub fn p23_close_faults(c: &mut Case) -> Result<(), String> {
    close_case(c, true, true)
}

/// A congested cluster: ten transactions take as long as a blockhash lives.
fn congest(t: &mut Tape, chain: &mut Chain) {
    if t.chance(1, 6) {
        chain.lifetime = 10;
    }
}

/// The node answers some calls with an error.
fn read_faults(t: &mut Tape, chain: &mut Chain, calls: &[(&'static str, u64)]) {
    for _ in 0..t.usize(1, 3) {
        let (method, n) = *t.pick(calls);
        let n = t.below(n);
        chain.read_faults.insert((method, n));
    }
}

/// Reading from the node fails now and then: the command may give up, and says
/// so; it closes nothing that it should not, and its summary is no lie.
pub fn p20_reads(c: &mut Case) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let now = gen_epoch(t);
        fresh.svm.clock.epoch = now;
        fresh.order = t.seed();
        let reports = gen_reports(t, &mut fresh, now, false);
        read_faults(t, &mut fresh, &[("getLatestBlockhash", 6), ("getLatestBlockhash", 3), ("getProgramAccounts", 1), ("getEpochInfo", 1)]);
        let due: Vec<&Report> =
            reports.iter().filter(|r| now as u128 >= r.epoch as u128 + 3 && reserved_destination(r).is_none()).collect();
        if !due.is_empty() {
            c.nontrivial();
        }
        for r in &reports {
            c.feed(&r.data());
        }
        c.note(|| format!("epoch {now}; faults {:?}", fresh.read_faults));
        for r in &reports {
            c.note(|| format!("  report {} destination {} epoch {} lamports {}", r.address, r.destination, r.epoch, r.lamports));
        }
        let before = fresh.svm.clone();
        *lock(&w.node.chain) = fresh;
        let out = run(&w.dir, &["--output".into(), "json".into(), "close".into()])?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        let mut model = before;
        let mut closed = vec![];
        for s in chain.sent.iter() {
            for i in s.of(&SLASHING) {
                let Some(r) = reports.iter().find(|r| same_ix(i, &close_ix(r.address, r.destination))) else {
                    return Err(format!("a close that must not be submitted: {i:?}"));
                };
                if (now as u128) < r.epoch as u128 + 3 {
                    return Err(format!("{} is too young, and its close was submitted", r.address));
                }
                if s.ok() {
                    model.accounts.remove(&r.address);
                    model.accounts.entry(r.destination).or_default().lamports += r.lamports;
                    closed.push(r.address.to_string());
                }
            }
        }
        if let Some((_, d)) = diff(&model, &chain.svm).first() {
            return Err(format!("ledger differs: {d}"));
        }
        for (m, _) in &chain.failed_reads {
            c.labels.push(format!("{m} failed"));
        }
        if out.code != Some(0) {
            c.labels.push("gave up".into());
            if chain.failed_reads.is_empty() {
                return Err(format!("close failed, and the node answered everything: {}", out.tail()));
            }
            return Ok(());
        }
        if due.len() - closed.len().min(due.len()) > chain.failed_reads.len() {
            return Err(format!("{} of {} reports were closed, with {} reads failed; {}", closed.len(), due.len(), chain.failed_reads.len(), out.tail()));
        }
        let v = parsed(&out, Format::Json)?;
        let mut listed: Vec<String> = v["commandOutput"][1]
            .as_array()
            .ok_or("no list of closed reports")?
            .iter()
            .map(|x| x["reportAccount"].as_str().unwrap_or("").to_string())
            .collect();
        listed.sort();
        closed.sort();
        if listed != closed {
            return Err(format!("closed {closed:?}, the summary lists {listed:?}"));
        }
        Ok(())
    })
}

/// However the node answers, a dry run only simulates, and what it says it
/// would close or report is something that it could.
pub fn p23_reads(c: &mut Case) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let attach = t.chance(1, 3);
        let mut reports = vec![];
        let mut dups = vec![];
        if attach {
            dups = gen_dups(t, &mut fresh, false);
        } else {
            let now = gen_epoch(t);
            fresh.svm.clock.epoch = now;
            fresh.order = t.seed();
            reports = gen_reports(t, &mut fresh, now, false);
        }
        let now = fresh.svm.clock.epoch;
        read_faults(
            t,
            &mut fresh,
            &[
                ("getAccountInfo", 9),
                ("getLatestBlockhash", 24),
                ("getLatestBlockhash", 4),
                ("getSlotLeaders", 4),
                ("getProgramAccounts", 1),
                ("getEpochInfo", 1),
                ("simulateTransaction", 8),
            ],
        );
        let (globals, payer, _) = global(t, &w.dir, true);
        let mut args = vec![if attach { "attach" } else { "close" }.to_string()];
        if attach {
            let path = ledger(w, &dups)?;
            args.extend(["--ledger".into(), path.display().to_string()]);
        }
        let t = &mut c.t;
        args = if t.bool() { [globals, args].concat() } else { [args, globals].concat() };
        let ripe = |r: &&Report| now as u128 >= r.epoch as u128 + 3;
        let due: BTreeSet<u64> = dups.iter().filter(|d| d.entry == Entry::Good).map(|d| d.slot).collect();
        if !due.is_empty() || reports.iter().any(|r| ripe(&r)) {
            c.nontrivial();
        }
        for r in &reports {
            c.feed(&r.data());
        }
        for d in &dups {
            c.feed(&d.pair.a.payload);
        }
        c.feed(args.join(" ").as_bytes());
        c.note(|| format!("epoch {now}; spl-slashing {}; faults {:?}", args.join(" "), fresh.read_faults));
        let before = fresh.svm.clone();
        *lock(&w.node.chain) = fresh;
        let out = run(&w.dir, &args)?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        if let Some(s) = chain.sent.first() {
            return Err(format!("a dry run sent a transaction: {:?}", s.ixs));
        }
        if let Some((_, d)) = diff(&before, &chain.svm).first() {
            return Err(format!("ledger differs: {d}"));
        }
        for (m, _) in &chain.failed_reads {
            c.labels.push(format!("{m} failed"));
        }
        if out.code != Some(0) {
            c.labels.push("gave up".into());
            if chain.failed_reads.is_empty() {
                return Err(format!("failed, and the node answered everything: {}", out.tail()));
            }
        }
        for s in &chain.simulated {
            if s.payer != payer {
                return Err(format!("{:?} would be paid by {}, not {payer}", s.kind, s.payer));
            }
            for i in s.of(&SLASHING) {
                let ok = match attach {
                    true => i.data.get(9..17).is_some_and(|b| due.contains(&u64::from_le_bytes(b.try_into().unwrap()))),
                    false => reports.iter().any(|r| ripe(&r) && same_ix(i, &close_ix(r.address, r.destination))),
                };
                if !ok {
                    return Err(format!("simulated something that must not be sent: {i:?}"));
                }
            }
        }
        Ok(())
    })
}

/// The node refuses or fails some of the first simulations.
fn sim_faults(t: &mut Tape, chain: &mut Chain) {
    for _ in 0..t.usize(1, 2) {
        let n = t.below(6) as usize;
        chain.sim_faults.insert(n, *t.pick(&[Fault::Refuse, Fault::Fail]));
    }
}

// --- display --------------------------------------------------------------------

fn display_case(c: &mut Case, dry: bool, faulty: bool) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let now = gen_epoch(t);
        fresh.svm.clock.epoch = now;
        fresh.order = t.seed();
        let mut reports = gen_reports(t, &mut fresh, now, true);
        let blanks = gen_blanks(t, &mut fresh);
        if faulty {
            read_faults(t, &mut fresh, &[("getProgramAccounts", 1), ("getProgramAccounts", 2), ("getVersion", 1), ("getEpochInfo", 1)]);
        }
        let (globals, _, format) = global(t, &w.dir, dry);
        let mut args = vec!["display".to_string()];
        let node = t.chance(1, 3).then(|| if t.chance(1, 10) { wallet(4244) } else { nodes(t).pubkey() });
        if let Some(k) = node {
            args.push(k.to_string());
        }
        let reporter = t.chance(1, 3).then(|| if t.chance(1, 10) { wallet(4245) } else { parties(t) });
        if let Some(k) = reporter {
            args.extend(["--reporter".into(), k.to_string()]);
        }
        let epoch = t.chance(1, 3).then(|| match (t.below(4), reports.is_empty()) {
            (0, _) => now,
            (1, _) => 0,
            (_, false) => reports[t.below(reports.len() as u64) as usize].epoch,
            _ => now.saturating_sub(1),
        });
        if let Some(e) = epoch {
            args.extend(["--epoch".into(), e.to_string()]);
        }
        args = if t.bool() { [globals, args].concat() } else { [args, globals].concat() };

        if format == Format::Verbose {
            let tool = cluster::get(&mut w.tool)?;
            for r in reports.iter_mut() {
                let (a, b) = unpack(&r.proof);
                r.refused = !(tool.parses(a, &r.node)? && tool.parses(b, &r.node)?);
            }
        }
        let mut want: Vec<&Report> = reports
            .iter()
            .filter(|r| {
                node.is_none_or(|k| k == r.node)
                    && reporter.is_none_or(|k| k == r.reporter)
                    && epoch.is_none_or(|e| e == r.epoch)
            })
            .collect();
        want.sort_by_key(|r| r.slot);
        if !want.is_empty() {
            c.nontrivial();
        }
        c.feed(args.join(" ").as_bytes());
        for r in &reports {
            c.feed(&r.data());
        }
        c.labels.push(format!("{format:?}"));
        if want.len() < reports.len() {
            c.labels.push("a report is filtered out".into());
        }
        if !blanks.is_empty() {
            c.labels.push("blank accounts".into());
        }
        if format == Format::Verbose && want.iter().any(|r| r.refused) {
            c.labels.push("verbose, with a shred that the cluster's software refuses".into());
        }
        c.note(|| format!("epoch {now}; spl-slashing {}", args.join(" ")));
        for r in &reports {
            c.note(|| format!("  report {} node {} slot {} reporter {} epoch {} refused {}", r.address, r.node, r.slot, r.reporter, r.epoch, r.refused));
        }
        for b in &blanks {
            c.note(|| format!("  blank account {b} of {} bytes", fresh.svm.get(b).data.len()));
        }

        let before = fresh.svm.clone();
        *lock(&w.node.chain) = fresh;
        let out = run(&w.dir, &args)?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        if !chain.sent.is_empty() || !diff(&before, &chain.svm).is_empty() {
            return Err("display submitted a transaction".into());
        }
        for (m, _) in &chain.failed_reads {
            c.labels.push(format!("{m} failed"));
        }
        if out.code != Some(0) {
            // it may give up only when it was not answered
            c.labels.push("gave up".into());
            return match chain.failed_reads.is_empty() {
                true => Err(format!("display failed: {}", out.tail())),
                false => Ok(()),
            };
        }
        if dry {
            if let Some(s) = chain.simulated.first() {
                return Err(format!("display simulated a transaction: {:?}", s.ixs));
            }
        }
        if format.json() {
            let v = parsed(&out, format)?;
            let list = v["commandOutput"].as_array().ok_or("no list of reports")?;
            let slots: Vec<Option<u64>> = list.iter().map(|x| x["slot"].as_u64()).collect();
            let due: Vec<Option<u64>> = want.iter().map(|r| Some(r.slot)).collect();
            if v["commandName"] != "Display" || slots != due {
                return Err(format!("shows the slots {slots:?}, not {due:?}"));
            }
            let mut exp: Vec<String> = want
                .iter()
                .map(|r| {
                    serde_json::json!({
                        "reportAddress": r.address.to_string(), "reporter": r.reporter.to_string(),
                        "destination": r.destination.to_string(), "epoch": r.epoch,
                        "pubkey": r.node.to_string(), "slot": r.slot,
                        "violationType": list.first().map(|x| x["violationType"].clone()), "proof": r.proof,
                    })
                    .to_string()
                })
                .collect();
            let mut got: Vec<String> = list.iter().map(|x| x.to_string()).collect();
            got.sort();
            exp.sort();
            for (g, e) in got.iter().zip(&exp) {
                if g != e {
                    let cut = |s: &str| s.chars().take(700).collect::<String>();
                    return Err(format!("shows {}, not {}", cut(g), cut(e)));
                }
            }
            if list.iter().any(|x| x["violationType"] != "DuplicateBlockProof" && x["violationType"] != "duplicateBlockProof" && !x["violationType"].as_str().unwrap_or("").to_lowercase().contains("duplicate")) {
                return Err(format!("violation type shown as {}", list[0]["violationType"]));
            }
        } else {
            check_plain(&out.stdout, &want, format == Format::Verbose)?;
            let n = want.len().to_string();
            if number_after(&out.stdout, "Open reports:") != Some(&n) {
                return Err(format!("Open reports: {:?} instead of {n}", number_after(&out.stdout, "Open reports:")));
            }
        }
        Ok(())
    })
}

fn unpack(proof: &[u8]) -> (&[u8], &[u8]) {
    let n = u32::from_le_bytes(proof[..4].try_into().unwrap()) as usize;
    (&proof[4..4 + n], &proof[8 + n..])
}

fn check_plain(stdout: &str, want: &[&Report], verbose: bool) -> Result<(), String> {
    let parts: Vec<&str> = stdout.split("\nSlashing violation report\n").skip(1).collect();
    if parts.len() != want.len() {
        return Err(format!("shows {} reports, not {}", parts.len(), want.len()));
    }
    let mut left: Vec<&&Report> = want.iter().collect();
    for (p, at) in parts.iter().zip(want) {
        if !p.lines().any(|l| l == format!("  Violation Slot: {}", at.slot)) {
            return Err(format!("the report for slot {} is not shown in its place", at.slot));
        }
        let head = |r: &Report| {
            [
                format!("  Report account address: {}", r.address),
                format!("  Violator: {}", r.node),
                format!("  Violation Slot: {}", r.slot),
                format!("  Reporter: {}", r.reporter),
                format!("  Reported Epoch: {}", r.epoch),
                format!("  Destination: {}", r.destination),
            ]
        };
        let lines: BTreeSet<&str> = p.lines().collect();
        let Some(i) = left.iter().position(|r| head(r).iter().all(|l| lines.contains(l.as_str()))) else {
            return Err(format!("no report has these values: {}", p.chars().take(600).collect::<String>()));
        };
        let r = left.remove(i);
        if !p.lines().any(|l| l.starts_with("  Violation Type:") && l.to_lowercase().contains("duplicate")) {
            return Err("the violation type is not shown".into());
        }
        if verbose && !r.refused {
            let (a, b) = r.views.as_ref().unwrap();
            let (pa, pb) = unpack(&r.proof);
            for (n, v, payload) in [(1, a, pa), (2, b, pb)] {
                let first = format!(
                    "    Shred{n}: fec_set_index {}, index {}, shred_type {}",
                    v.spec.fec,
                    v.spec.index,
                    if v.spec.data { "Data" } else { "Code" },
                );
                if !p.lines().any(|l| l.trim_end() == first.trim_end()) {
                    return Err(format!("verbose display lacks {first:?}"));
                }
                let second = format!("version {}, merkle_root Some({}),", v.spec.version, bs58::encode(v.root).into_string());
                let chained = match v.spec.chained {
                    true => {
                        let end = v.spec.proof_offset();
                        format!("Some({})", bs58::encode(&payload[end - 32..end]).into_string())
                    }
                    false => "None".into(),
                };
                let last = format!("chained_merkle_root {chained}, last_in_slot {}", v.last());
                if !p.lines().any(|l| l.contains(&second) && l.ends_with(&last)) {
                    return Err(format!("verbose display lacks {second:?} .. {last:?}"));
                }
                // bytes past the end are not part of the shred
                let shown = format!("{:?}", &payload[..v.spec.nominal()]);
                if !p.contains(shown.trim_end_matches(']')) {
                    return Err(format!("verbose display lacks the payload of shred {n}"));
                }
            }
            let same = (!a.spec.data && !b.spec.data).then(|| a.spec.fec == b.spec.fec && a.erasure() == b.erasure());
            let shown = p.lines().find_map(|l| l.trim().strip_prefix("Erasure consistency "));
            if shown.map(|x| x == "true") != same {
                return Err(format!("verbose display of the erasure configurations: {shown:?}, they are the same: {same:?}"));
            }
        }
    }
    Ok(())
}

pub fn p21(c: &mut Case) -> Result<(), String> {
    display_case(c, false, false)
}

/// The node fails to answer: what is shown in spite of it is complete.
pub fn p21_reads(c: &mut Case) -> Result<(), String> {
    display_case(c, false, true)
}

pub fn p23_display(c: &mut Case) -> Result<(), String> {
    display_case(c, true, false)
}

// --- attach ---------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    /// the program accepts it
    Good,
    /// its report exists already
    Reported,
    /// the shreds do not conflict
    Innocent,
    /// signed by somebody else than the slot's leader
    Forged,
    /// too old
    Late,
    /// not shreds at all
    Garbage,
    /// the node cannot tell the slot's leader
    Unknown,
}

struct Dup {
    slot: u64,
    leader: Key,
    pair: Pair,
    entry: Entry,
    /// a fault was injected into its submission
    faulted: bool,
}

const SPE: u64 = 432_000;

fn gen_dups(t: &mut Tape, chain: &mut Chain, odd: bool) -> Vec<Dup> {
    let n = match t.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => 3,
        // more than any one transaction or buffer would hold
        _ if t.chance(1, 12) => t.usize(6, 40),
        _ => t.usize(2, 5),
    };
    let top = match t.below(4) {
        0 => t.below(10),
        1 => SPE * 3 + t.below(SPE),
        2 => t.range(0, 1 << 40),
        _ => 53_084_100,
    };
    chain.svm.clock.slot = top + t.below(1000);
    chain.svm.clock.epoch = chain.svm.clock.slot / SPE;
    set_schedule(&mut chain.svm, SPE);
    let mut v: Vec<Dup> = vec![];
    let mut slot = top.saturating_sub(t.below(60));
    for _ in 0..n {
        let entry = if odd && t.chance(1, 3) {
            [Entry::Reported, Entry::Innocent, Entry::Forged, Entry::Late, Entry::Garbage, Entry::Unknown]
                [t.below(6) as usize]
        } else if t.chance(1, 5) {
            Entry::Reported
        } else {
            Entry::Good
        };
        let seed = 900 + t.below(3);
        let leader = Key::new(seed);
        let mut at = slot;
        slot += match t.below(3) {
            0 => 1,
            1 => t.range(1, 4),
            _ => t.range(1, 40),
        };
        if entry == Entry::Late {
            let oldest = chain.svm.clock.slot.saturating_sub(SPE);
            if oldest == 0 {
                continue;
            }
            at = oldest.saturating_sub(1 + t.below(100));
        }
        if v.iter().any(|d| d.slot == at) || at > chain.svm.clock.slot {
            continue;
        }
        let key = Key::new(if entry == Entry::Forged { 990 } else { seed });
        let mut pair = gen_proof(t, &key, at);
        if entry == Entry::Innocent {
            pair = shred::gen_honest_pair(t, at, 1, &key);
        }
        if entry == Entry::Garbage {
            for p in [&mut pair.a, &mut pair.b] {
                let (n, s) = (t.usize(0, 1228), t.seed());
                match t.below(4) {
                    0 => p.payload = blob(s, n),
                    1 => p.payload.truncate(n),
                    2 => p.payload[64] = t.below(256) as u8,
                    _ => p.payload[64] = *t.pick(&[0xa5, 0x5a]),
                }
            }
        }
        if entry == Entry::Unknown {
            chain.unknown_leaders.insert(at);
        }
        chain.leaders.insert(at, leader.pubkey());
        let address = pda(&leader.pubkey(), at);
        if entry == Entry::Reported {
            let r = Report {
                address,
                node: leader.pubkey(),
                slot: at,
                reporter: wallet(1),
                destination: wallet(2),
                epoch: chain.svm.clock.epoch.saturating_sub(t.below(3)),
                lamports: 50_000_000,
                proof: pack(&pair.a.payload, &pair.b.payload),
                refused: false,
                views: None,
            };
            chain.svm.accounts.insert(
                address,
                Account { lamports: r.lamports, data: r.data(), owner: SLASHING, executable: false },
            );
        } else if t.chance(1, 5) {
            // somebody sent lamports there before
            let x = t.below(40_000_000).max(890_880);
            chain.svm.accounts.insert(address, Account::wallet(x));
        }
        v.push(Dup { slot: at, leader, pair, entry, faulted: false });
    }
    v.sort_by_key(|d| d.slot);
    v
}

struct Range {
    start: Option<u64>,
    end: Option<u64>,
}

impl Range {
    fn holds(&self, s: u64) -> bool {
        self.start.is_none_or(|a| a <= s) && self.end.is_none_or(|b| s <= b)
    }
    fn gen(t: &mut Tape, dups: &[Dup]) -> Range {
        let near = |t: &mut Tape| {
            let s = if dups.is_empty() { t.below(100) } else { dups[t.below(dups.len() as u64) as usize].slot };
            match t.below(4) {
                0 => s.saturating_sub(1),
                1 => s.saturating_add(1),
                _ => s,
            }
        };
        let start = t.chance(1, 2).then(|| near(t));
        let end = t.chance(1, 2).then(|| near(t));
        Range { start, end }
    }
}

fn ledger(w: &mut Worker, dups: &[Dup]) -> Result<PathBuf, String> {
    let path = w.dir.join("ledger");
    let fresh = !path.exists();
    if fresh {
        std::fs::create_dir_all(&path).map_err(|e| format!("HARNESS: {e}"))?;
    }
    let tool = cluster::get(&mut w.tool)?;
    if fresh {
        tool.must(&format!("open {}", path.display()))?;
    }
    tool.must("clear")?;
    for d in dups {
        put(w, d)?;
    }
    Ok(path)
}

fn put(w: &mut Worker, d: &Dup) -> Result<(), String> {
    let h = |b: &[u8]| if b.is_empty() { "-".to_string() } else { hex(b) };
    cluster::get(&mut w.tool)?
        .must(&format!("put {} {} {}", d.slot, h(&d.pair.a.payload), h(&d.pair.b.payload)))
        .map(|_| ())
}

fn attach_case(c: &mut Case, dry: bool, odd: bool, faulty: bool, later: bool) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let mut dups = gen_dups(t, &mut fresh, odd);
        let (mut args, payer, format) = global(t, &w.dir, dry);
        if later && format.json() {
            // machine readable output does not say when a scan ends
            args.drain(..2);
        }
        args.push("attach".into());
        let range = if later { Range { start: None, end: None } } else { Range::gen(t, &dups) };
        let (mut reporter, mut destination) = (signer().pubkey(), signer().pubkey());
        if t.chance(1, 2) {
            reporter = parties(t);
            args.extend(["--reporter".into(), reporter.to_string()]);
        }
        if t.chance(1, 2) {
            destination = parties(t);
            args.extend(["--destination".into(), destination.to_string()]);
        }
        for (name, v) in [("start-slot", range.start), ("end-slot", range.end)] {
            if let Some(v) = v {
                args.extend([format!("--{name}"), v.to_string()]);
            }
        }
        // the slots to be dealt with, in the order of the scan
        let due: Vec<usize> =
            (0..dups.len()).filter(|i| range.holds(dups[*i].slot) && dups[*i].entry != Entry::Reported).collect();
        let mut close_faults = 0;
        if faulty && dry {
            sim_faults(t, &mut fresh);
        } else if faulty {
            for _ in 0..t.usize(1, 2) {
                let kind = *t.pick(&[Kind::Create, Kind::Write, Kind::Report, Kind::CloseRecord, Kind::Create]);
                let fault = *t.pick(&[Fault::Refuse, Fault::Fail, Fault::Drop]);
                // the first few of each kind; which slot that is follows from the run
                let n = t.below(match kind {
                    Kind::Write => 8,
                    _ => 3,
                }) as usize;
                close_faults += (kind == Kind::CloseRecord) as usize;
                fresh.faults.insert((kind, n), fault);
            }
        }
        congest(t, &mut fresh);
        // the second half of the ledger is written after the first scan
        let split = if later { t.below(dups.len() as u64 + 1) as usize } else { dups.len() };
        if later {
            args.extend(["--continuous".into(), "--scan-interval".into(), "0".into()]);
        }
        if !due.is_empty() {
            c.nontrivial();
        }
        c.feed(args.join(" ").as_bytes());
        for d in &dups {
            c.feed(&d.pair.a.payload);
            c.feed(&d.pair.b.payload);
            c.labels.push(format!("{:?}", d.entry));
        }
        if due.len() < dups.len() {
            c.labels.push("some slots out of range or reported".into());
        }
        if c.record {
            c.notes.push(format!("now {} epoch {}; spl-slashing {}", fresh.svm.clock.slot, fresh.svm.clock.epoch, args.join(" ")));
            c.notes.push(format!("faults {:?} {:?}; ledger written after the first scan from entry {split}", fresh.faults, fresh.sim_faults));
            for d in &dups {
                c.notes.push(format!("  slot {} leader {} {:?} ({})", d.slot, d.leader.pubkey(), d.entry, d.pair.class));
            }
        }
        let before = fresh.svm.clone();
        fresh.order = 0;
        *lock(&w.node.chain) = fresh;
        let path = ledger(w, &dups[..split])?;
        args.extend(["--ledger".into(), path.display().to_string()]);
        let out = if later {
            let dir = w.dir.clone();
            let mut scans = 0;
            let mut added = false;
            let rest: Vec<String> = dups[split..]
                .iter()
                .map(|d| format!("put {} {} {}", d.slot, hex(&d.pair.a.payload), hex(&d.pair.b.payload)))
                .collect();
            let tool = cluster::get(&mut w.tool)?;
            let mut trouble = None;
            let out = run_until(&dir, &args, |o| {
                let text = std::fs::read_to_string(o).unwrap_or_default();
                let n = text.matches("Scanning again").count();
                if n >= 1 && !added {
                    added = true;
                    scans = n;
                    for l in &rest {
                        if let Err(e) = tool.must(l) {
                            trouble = Some(e);
                        }
                    }
                }
                // the scan under way when the entries were written may have
                // opened the ledger before: wait for two more to finish
                added && n >= scans + 2
            })?;
            if let Some(e) = trouble {
                return Err(e);
            }
            out
        } else {
            run(&w.dir, &args)?
        };
        let chain = lock(&w.node.chain);
        if let Some(o) = chain.odd.iter().find(|o| o.starts_with("HARNESS")) {
            return Err(o.clone());
        }
        if dry && !chain.sent.is_empty() {
            return Err(format!("a dry run sent a transaction: {:?}", chain.sent[0].ixs));
        }
        if dry && !diff(&before, &chain.svm).is_empty() {
            return Err("HARNESS: a simulation changed the ledger".into());
        }
        if !faulty && out.code != Some(0) {
            return Err(format!("attach failed: {}", out.tail()));
        }
        // what a dry run simulates is judged by what it would have come to
        let mut end = &chain.svm;
        let replayed;
        let acted: &Vec<Sent> = if dry && !faulty {
            replayed = replay(&before, &chain.simulated);
            end = &replayed.1;
            &replayed.0
        } else if dry {
            &chain.simulated
        } else {
            &chain.sent
        };
        // which slots a fault hit: by the proof account that it concerned
        let record_of = |s: &Sent| -> Option<Pubkey> {
            s.of(&RECORD).first().and_then(|i| i.accounts.first()).map(|m| m.pubkey)
        };
        let proof_of = |s: &Sent| -> Option<Pubkey> {
            s.of(&SLASHING).first().and_then(|i| i.accounts.first()).map(|m| m.pubkey)
        };
        let injected = |s: &Sent| s.result.as_ref().is_err_and(|e| e.starts_with("injected"));
        let created: Vec<Pubkey> = acted.iter().filter(|s| s.kind == Kind::Create).filter_map(record_of).collect();
        {
            let mut u = created.clone();
            u.sort();
            u.dedup();
            if u.len() != created.len() {
                return Err("one proof account was used twice".into());
            }
        }
        // proof accounts are made one per due slot, in slot order
        for s in acted.iter().filter(|s| injected(s)) {
            let k = match s.kind {
                Kind::Create | Kind::Write => record_of(s),
                Kind::Report => proof_of(s),
                _ => None,
            };
            if let Some(i) = k.and_then(|k| created.iter().position(|x| *x == k)) {
                // entries that fail before their account is created shift the
                // numbering; find the slot by elimination below
                c.labels.push(format!("fault in {:?}", s.kind));
                let with_account: Vec<usize> =
                    due.iter().copied().filter(|d| !matches!(dups[*d].entry, Entry::Unknown)).collect();
                if let Some(d) = with_account.get(i) {
                    dups[*d].faulted = true;
                }
            }
        }
        // every report transaction, by slot
        let mut tries: BTreeMap<u64, Vec<&Sent>> = BTreeMap::new();
        for s in acted {
            if s.payer != payer {
                return Err(format!("{:?} is paid by {}, not {payer}", s.kind, s.payer));
            }
            match s.kind {
                Kind::Report => {
                    let i = s.of(&SLASHING);
                    if i.len() != 1 || i[0].data.len() != IX_LEN {
                        return Err(format!("an odd report transaction: {:?}", s.ixs));
                    }
                    let slot = u64::from_le_bytes(i[0].data[9..17].try_into().unwrap());
                    tries.entry(slot).or_default().push(s);
                }
                Kind::Create | Kind::Write | Kind::CloseRecord => {
                    if !s.of(&SLASHING).is_empty() {
                        return Err(format!("{:?} touches the slashing program", s.kind));
                    }
                }
                _ => return Err(format!("attach submitted something else: {:?}", s.ixs)),
            }
        }
        for (slot, v) in &tries {
            match dups.iter().find(|d| d.slot == *slot) {
                None => return Err(format!("slot {slot} is not a duplicate slot, and was reported")),
                Some(d) if !range.holds(*slot) => {
                    return Err(format!("slot {slot} ({:?}) is out of range, and was reported", d.entry))
                }
                Some(d) if d.entry == Entry::Reported => {
                    return Err(format!("slot {slot} was already reported, and is reported again"))
                }
                Some(_) => (),
            }
            if v.len() > 1 {
                return Err(format!("slot {slot} was submitted {} times", v.len()));
            }
        }
        if dry {
            outcomes(&out, format, &chain.simulated)?;
        }
        if dry && faulty && chain.simulated.iter().any(injected) {
            c.labels.push("a simulation failed".into());
            return Ok(());
        }
        let mut model = before.clone();
        for i in &due {
            let d = &dups[*i];
            let tried = tries.get(&d.slot).and_then(|v| v.first());
            if d.entry != Entry::Good {
                if let Some(s) = tried {
                    if s.ok() && !(dry && faulty) {
                        return Err(format!("slot {} ({:?}): a report was accepted", d.slot, d.entry));
                    }
                }
                continue;
            }
            if d.faulted {
                if tried.is_some_and(|s| s.ok()) {
                    return Err(format!("HARNESS: slot {} was faulted and accepted", d.slot));
                }
                continue;
            }
            let Some(s) = tried else {
                return Err(format!("slot {} was not reported; {}", d.slot, out.tail()));
            };
            let call = s.of(&SLASHING)[0];
            let mut sub = Sub::new(&d.pair, &d.leader, d.slot);
            sub.reporter = reporter;
            sub.destination = destination;
            sub.proof_key = call.accounts[0].pubkey;
            sub.offset = u64::from_le_bytes(call.data[1..9].try_into().unwrap());
            if !same_ix(call, &sub.ix()) {
                return Err(format!("slot {}: reported with {call:?}, not {:?}", d.slot, sub.ix()));
            }
            if dry && faulty {
                continue;
            }
            if !s.ok() {
                return Err(format!("slot {}: the report was refused: {:?}", d.slot, s.result));
            }
            let held = s.before.get(&sub.proof_key).map(|a| a.data.clone()).unwrap_or_default();
            let packed = pack(&sub.p1, &sub.p2);
            if held.get(sub.offset as usize..).is_none_or(|h| !h.starts_with(&packed)) {
                return Err(format!("slot {}: the proof account does not hold the packed proof", d.slot));
            }
            let k = sub.report_key();
            let need = chain.svm.rent.minimum_balance(sub.report_len());
            let has = before.lamports(&k);
            // how much it is given beyond its rent is P11's business
            let given = end.lamports(&k);
            if given < need.max(has) {
                return Err(format!("slot {}: the report account holds {given}, needs {need}, had {has}", d.slot));
            }
            model.accounts.insert(
                k,
                Account {
                    lamports: given,
                    data: sub.expected_report(before.clock.epoch),
                    owner: SLASHING,
                    executable: false,
                },
            );
            model.accounts.get_mut(&payer).unwrap().lamports -= given - has;
        }
        if dry && faulty {
            return Ok(());
        }
        // every proof account is closed again, except where its own close failed
        let stuck: Vec<Pubkey> = acted
            .iter()
            .filter(|s| s.kind == Kind::CloseRecord && injected(s))
            .filter_map(record_of)
            .collect();
        if stuck.len() > close_faults {
            return Err("HARNESS: more faults than injected".into());
        }
        for k in &created {
            let left = end.accounts.contains_key(k);
            if left && !stuck.contains(k) {
                return Err(format!("the proof account {k} was not closed; {}", out.tail()));
            }
            if left {
                c.labels.push("fault in a close".into());
                let a = end.get(k);
                model.accounts.get_mut(&payer).unwrap().lamports -= a.lamports;
                model.accounts.insert(*k, a);
            }
        }
        if let Some((_, d)) = diff(&model, end).first() {
            return Err(format!("ledger differs: {d}; {}", out.tail()));
        }
        if dry {
            return Ok(());
        }
        if !format.json() {
            // every failure comes with the command that tries that slot again
            let hints = hints(&out)?;
            let lost: BTreeSet<u64> = due
                .iter()
                .map(|i| dups[*i].slot)
                .filter(|s| !tries.get(s).is_some_and(|v| v[0].ok()))
                .collect();
            if hints != lost {
                return Err(format!("the slots {lost:?} were not reported, the client says {hints:?}; {}", out.tail()));
            }
        }
        if !later && out.code == Some(0) {
            let accepted = acted.iter().filter(|s| s.kind == Kind::Report && s.ok()).count();
            let line = format!("Reported {accepted} violations");
            if !out.stdout.lines().any(|l| l == line) {
                return Err(format!("the summary lacks {line:?}: {}", out.tail()));
            }
        }
        Ok(())
    })
}

/// The transactions of a dry run, executed after all, on the ledger that it found.
fn replay(before: &Svm, simulated: &[Sent]) -> (Vec<Sent>, Svm) {
    let mut svm = before.clone();
    let sent = simulated
        .iter()
        .map(|s| {
            let mut s = s.clone();
            for m in s.ixs.iter().flat_map(|i| &i.accounts) {
                s.before.insert(m.pubkey, svm.get(&m.pubkey));
            }
            let tx: Vec<TopIx> = s.ixs.iter().cloned().map(Into::into).collect();
            s.result = svm.execute(&tx).result.map_err(|e| format!("{e:?}"));
            s
        })
        .collect();
    (sent, svm)
}

/// Reading from the node fails now and then: that costs at most one slot each
/// time, or leaves one proof account open, and what the client says of every
/// slot is what happened to it.
pub fn p22_reads(c: &mut Case) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let dups = gen_dups(t, &mut fresh, false);
        read_faults(
            t,
            &mut fresh,
            &[("getAccountInfo", 9), ("getLatestBlockhash", 24), ("getLatestBlockhash", 8), ("getSlotLeaders", 4)],
        );
        let due: BTreeSet<u64> = dups.iter().filter(|d| d.entry == Entry::Good).map(|d| d.slot).collect();
        if !due.is_empty() {
            c.nontrivial();
        }
        for d in &dups {
            c.feed(&d.pair.a.payload);
            c.feed(&d.pair.b.payload);
        }
        c.note(|| format!("faults {:?}", fresh.read_faults));
        for d in &dups {
            c.note(|| format!("  slot {} leader {} {:?} ({})", d.slot, d.leader.pubkey(), d.entry, d.pair.class));
        }
        *lock(&w.node.chain) = fresh;
        let path = ledger(w, &dups)?;
        let out = run(&w.dir, &["attach".into(), "--ledger".into(), path.display().to_string()])?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        let failed = |m: &str| chain.failed_reads.iter().filter(|f| m.is_empty() || f.0 == m).count();
        for (m, _) in &chain.failed_reads {
            c.labels.push(format!("{m} failed"));
        }
        if out.code != Some(0) {
            c.labels.push("gave up".into());
            // it needs the rent before it can do anything
            if failed("") == 0 || !chain.sent.is_empty() {
                return Err(format!("attach failed: {}", out.tail()));
            }
            return Ok(());
        }
        let mut accepted = BTreeSet::new();
        let mut open = BTreeSet::new();
        for s in &chain.sent {
            let missing = |k: &Pubkey| !chain.svm.accounts.contains_key(k);
            if let Err(e) = &s.result {
                // the proof account may never have come to be
                if s.kind == Kind::CloseRecord && missing(&s.of(&RECORD)[0].accounts[0].pubkey) {
                    continue;
                }
                return Err(format!("{:?} was refused: {e}", s.kind));
            }
            match s.kind {
                Kind::Report => {
                    let slot = u64::from_le_bytes(s.of(&SLASHING)[0].data[9..17].try_into().unwrap());
                    if !due.contains(&slot) || !accepted.insert(slot) {
                        return Err(format!("slot {slot} must not be reported"));
                    }
                }
                Kind::Create => {
                    open.extend(s.of(&RECORD).first().map(|i| i.accounts[0].pubkey));
                }
                Kind::CloseRecord => {
                    open.remove(&s.of(&RECORD)[0].accounts[0].pubkey);
                }
                Kind::Write => (),
                _ => return Err(format!("attach submitted something else: {:?}", s.ixs)),
            }
        }
        let lost: BTreeSet<u64> = due.difference(&accepted).copied().collect();
        if lost.len() > failed("") {
            return Err(format!("slots {lost:?} were not reported, with {} reads failed; {}", failed(""), out.tail()));
        }
        if open.len() > failed("getLatestBlockhash") {
            return Err(format!("{} proof accounts are left, with {} reads failed; {}", open.len(), failed("getLatestBlockhash"), out.tail()));
        }
        let hints = hints(&out)?;
        // a slot whose report might exist already is tried again, too
        let reported: BTreeSet<u64> = dups.iter().filter(|d| d.entry == Entry::Reported).map(|d| d.slot).collect();
        if hints.difference(&reported).copied().collect::<BTreeSet<_>>() != lost {
            return Err(format!("the slots {lost:?} were not reported, the client says {hints:?}; {}", out.tail()));
        }
        let line = format!("Reported {} violations", accepted.len());
        if !out.stdout.lines().any(|l| l == line) {
            return Err(format!("the summary lacks {line:?}: {}", out.tail()));
        }
        Ok(())
    })
}

/// The slots that the client says how to try again.
fn hints(out: &Out) -> Result<BTreeSet<u64>, String> {
    let mut hints = BTreeSet::new();
    for l in out.stderr.lines().filter(|l| l.contains("spl-slashing attach ")) {
        let words: Vec<&str> = l.split_whitespace().collect();
        let value = |name: &str| -> Option<u64> {
            words.iter().position(|w| *w == name).and_then(|i| words.get(i + 1)).and_then(|w| w.parse().ok())
        };
        match (value("--start-slot"), value("--end-slot")) {
            (Some(a), Some(b)) if a == b => hints.insert(a),
            _ => return Err(format!("not a command that tries a slot again: {l:?}")),
        };
    }
    Ok(hints)
}

// --- configuration --------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wallet {
    Absent,
    Good,
    Missing,
    Garbage,
}

impl Wallet {
    fn gen(t: &mut Tape) -> Wallet {
        [Wallet::Good, Wallet::Good, Wallet::Absent, Wallet::Missing, Wallet::Garbage][t.below(5) as usize]
    }
    fn path(&self, dir: &Path, good: &str) -> String {
        match self {
            Wallet::Good => dir.join(good),
            Wallet::Garbage => dir.join("garbage.json"),
            _ => dir.join("missing.json"),
        }
        .display()
        .to_string()
    }
}

/// Which node, wallet and payer the client uses.
pub fn p24(c: &mut Case) -> Result<(), String> {
    with_worker(|w| {
        let t = &mut c.t;
        let mut fresh = Chain::new();
        fund(&mut fresh);
        let command = *t.pick(&["close", "attach", "display"]);
        let dry = t.chance(1, 8);
        let mut dups = vec![];
        let mut reports = vec![];
        match command {
            "attach" => {
                dups = gen_dups(t, &mut fresh, false);
                dups.retain(|d| d.entry == Entry::Good);
            }
            _ => {
                let now = 3 + gen_epoch(t);
                fresh.svm.clock.epoch = now;
                reports = gen_reports(t, &mut fresh, now, false);
                reports.retain(|r| reserved_destination(r).is_none());
                let keep: BTreeSet<Pubkey> = reports.iter().map(|r| r.address).collect();
                fresh.svm.accounts.retain(|k, a| a.owner != SLASHING || keep.contains(k));
                for k in 100..103 {
                    fresh.svm.accounts.insert(wallet(k), Account::wallet(1_000_000));
                }
            }
        }
        // the node: named by the configuration, the command line or both
        let dead = "http://127.0.0.1:1".to_string();
        let live = w.node.url.clone();
        let (in_config, by_option, reachable) = match t.below(5) {
            0 => (&dead, Some(&live), true),
            1 => (&live, Some(&dead), false),
            2 => (&dead, None, false),
            3 => (&live, Some(&live), true),
            _ => (&live, None, true),
        };
        let default = match Wallet::gen(t) {
            Wallet::Absent => Wallet::Good,
            x => x,
        };
        let payer = Wallet::gen(t);
        // a key whose secret the client does not have is no payer either
        let only_public = payer == Wallet::Missing && t.bool();
        let config = w.dir.join("other.yml");
        std::fs::write(
            &config,
            format!(
                "---\njson_rpc_url: {in_config}\nwebsocket_url: ''\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n",
                default.path(&w.dir, "id.json")
            ),
        )
        .and_then(|_| std::fs::write(w.dir.join("garbage.json"), "[1,2,3]"))
        .map_err(|e| format!("HARNESS: {e}"))?;
        let config_file = match t.below(12) {
            0 => w.dir.join("no-such.yml"),
            1 => w.dir.join("garbage.json"),
            _ => config.clone(),
        };
        let mut globals: Vec<String> = vec!["-C".into(), config_file.display().to_string()];
        if let Some(u) = by_option {
            globals.extend([if t.bool() { "-u" } else { "--url" }.into(), u.clone()]);
        }
        if payer != Wallet::Absent {
            let source = match only_public {
                true => other_payer().pubkey().to_string(),
                false => payer.path(&w.dir, "other.json"),
            };
            globals.extend(["--fee-payer".into(), source]);
        }
        if dry {
            globals.push("--dry-run".into());
        }
        // how it reports changes nothing of what it uses
        globals.extend(Format::gen(t).args());
        let mut args = vec![command.to_string()];
        let (mut reporter, mut destination) = (None, None);
        if command == "attach" {
            let ledger = ledger(w, &dups)?;
            args.extend(["--ledger".into(), ledger.display().to_string()]);
            let t = &mut c.t;
            if t.bool() {
                let k = parties(t);
                reporter = Some(k);
                args.extend(["--reporter".into(), k.to_string()]);
            }
            if t.bool() {
                let k = parties(t);
                destination = Some(k);
                args.extend(["--destination".into(), k.to_string()]);
            }
        }
        let t = &mut c.t;
        args = if t.bool() { [globals, args].concat() } else { [args, globals].concat() };

        // what is to be used
        let wallet_key = (default == Wallet::Good).then(|| signer().pubkey());
        let pays = match payer {
            Wallet::Good => Some(other_payer().pubkey()),
            Wallet::Absent => wallet_key,
            _ => None,
        };
        let configured = config_file == config;
        let complete = match command {
            "display" => true,
            "close" => pays.is_some(),
            _ => pays.is_some() && (wallet_key.is_some() || (reporter.is_some() && destination.is_some())),
        };
        let works = configured && reachable && complete;
        let reporter = reporter.or(wallet_key);
        let destination = destination.or(wallet_key);
        c.nontrivial();
        c.feed(args.join(" ").as_bytes());
        c.feed(format!("{in_config} {default:?}").as_bytes());
        for d in &dups {
            c.feed(&d.pair.a.payload);
        }
        for r in &reports {
            c.feed(&r.data());
        }
        c.labels.push(command.into());
        c.labels.push(if works { "usable" } else { "unusable" }.into());
        c.labels.push(format!("wallet {default:?}"));
        c.labels.push(format!("fee payer {payer:?}"));
        c.note(|| format!("configuration: node {in_config}, wallet {default:?}; spl-slashing {}; usable {works}", args.join(" ")));

        let before = fresh.svm.clone();
        let ripe = reports.iter().filter(|r| before.clock.epoch >= r.epoch + 3).count();
        *lock(&w.node.chain) = fresh;
        let out = run_plain(&w.dir, &args)?;
        let chain = lock(&w.node.chain);
        healthy(&chain)?;
        if !works {
            if !chain.sent.is_empty() || !chain.simulated.is_empty() {
                let s = chain.sent.iter().chain(&chain.simulated).next().unwrap();
                return Err(format!("not everything it was told to use can be used, yet it submitted a transaction signed by {:?}", s.signers));
            }
            if out.code == Some(0) {
                return Err(format!("not everything it was told to use can be used, yet it ended well: {}", out.tail()));
            }
            if !(configured && reachable) && !chain.methods.is_empty() {
                return Err(format!("asked a node that it was not told to use: {:?}", chain.methods));
            }
            return Ok(());
        }
        if out.code != Some(0) && command == "display" && pays.is_none() {
            // it needs no payer, but may refuse one that cannot be used
            c.labels.push("display refused the payer".into());
            return match chain.sent.is_empty() && chain.simulated.is_empty() {
                true => Ok(()),
                false => Err("a display submitted a transaction".into()),
            };
        }
        if out.code != Some(0) {
            return Err(format!("failed, though everything it needs can be used: {}", out.tail()));
        }
        if dry && !chain.sent.is_empty() {
            return Err("a dry run sent a transaction".into());
        }
        let acted: &Vec<Sent> = if dry { &chain.simulated } else { &chain.sent };
        let created: BTreeSet<Pubkey> = acted
            .iter()
            .filter(|s| s.kind == Kind::Create)
            .flat_map(|s| s.of(&RECORD).into_iter().map(|i| i.accounts[0].pubkey))
            .collect();
        for s in acted {
            if Some(s.payer) != pays {
                return Err(format!("{:?} is paid by {}, not {pays:?}", s.kind, s.payer));
            }
            if let Some(k) = s.signers.iter().find(|k| Some(**k) != pays && !(s.kind == Kind::Create && created.contains(k))) {
                return Err(format!("{:?} is signed by {k}", s.kind));
            }
            if s.kind == Kind::Report {
                let i = s.of(&SLASHING)[0];
                let field = |a: usize| i.data.get(a..a + 32).and_then(|b| Pubkey::try_from(b).ok());
                // type, offset, slot, node, reporter, destination
                if (field(49), field(81)) != (reporter, destination) {
                    return Err(format!("reported for {:?} and {:?}, not {reporter:?} and {destination:?}", field(49), field(81)));
                }
            }
        }
        let n = |k: Kind| acted.iter().filter(|s| s.kind == k && (dry || s.ok())).count();
        let (want_closes, want_reports) = match command {
            "close" => (ripe, 0),
            "attach" => (0, dups.len()),
            _ => (0, 0),
        };
        if (n(Kind::CloseReport), n(Kind::Report)) != (want_closes, want_reports) {
            return Err(format!(
                "{} closes and {} reports instead of {want_closes} and {want_reports}; {}",
                n(Kind::CloseReport),
                n(Kind::Report),
                out.tail()
            ));
        }
        // only the payer's money moves out, apart from what is closed
        for k in [signer().pubkey(), other_payer().pubkey()] {
            if Some(k) != pays && chain.svm.lamports(&k) < before.lamports(&k) {
                return Err(format!("{k} is not the payer, and paid"));
            }
        }
        Ok(())
    })
}

pub fn p22_scan(c: &mut Case) -> Result<(), String> {
    attach_case(c, false, false, false, false)
}

pub fn p22_odd(c: &mut Case) -> Result<(), String> {
    attach_case(c, false, true, false, false)
}

pub fn p22_faults(c: &mut Case) -> Result<(), String> {
    attach_case(c, false, false, true, false)
}

pub fn p22_later(c: &mut Case) -> Result<(), String> {
    attach_case(c, false, false, false, true)
}

pub fn p23_attach(c: &mut Case) -> Result<(), String> {
    attach_case(c, true, true, false, false)
}

pub fn p23_attach_faults(c: &mut Case) -> Result<(), String> {
    attach_case(c, true, true, true, false)
}
