//! P07 - P14 and P18: what reports and closes do to the ledger.
use {
    crate::world::*,
    slashkit::{
        crypto::Key,
        engine::Case,
        shred::{self, *},
        svm::{ids, Account, Svm, TopIx, TxErr, TxOut},
        tape::{blob32, Tape},
    },
    solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
    },
    solana_slashing_program::{
        get_violation_report_address,
        instruction::{close_violation_report, duplicate_block_proof_with_sigverify_and_prefund},
        duplicate_block_proof::DuplicateBlockProofData,
        state::{ProofType, ViolationReport},
    },
    std::collections::{BTreeMap, BTreeSet},
};

fn good(t: &mut Tape) -> (Key, Sub, Svm) {
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let svm = gen_env(t, slot);
    let pair = gen_conflict_pair(t, slot, version, &key);
    let mut s = Sub::new(&pair, &key, slot);
    vary(t, &mut s);
    (key, s, svm)
}

/// As above; the shreds may have bytes behind them, which belong to the proof.
fn good_long(t: &mut Tape) -> (Key, Sub, Svm) {
    let (key, mut s, svm) = good(t);
    trail(t, &mut s);
    (key, s, svm)
}

fn another(t: &mut Tape, s: &Sub, key: &Key) -> Sub {
    let version = t.edgy(16) as u16;
    let pair = gen_conflict_pair(t, s.slot, version, key);
    let mut o = Sub::new(&pair, key, s.slot);
    vary(t, &mut o);
    trail(t, &mut o);
    o
}

fn feed(c: &mut Case, s: &Sub, extra: &[u64]) {
    c.feed(&s.root1);
    c.feed(&s.root2);
    c.feed(&s.slot.to_le_bytes());
    for e in extra {
        c.feed(&e.to_le_bytes());
    }
}

/// The whole ledger is as it was.
fn same(before: &Svm, after: &Svm, what: &str) -> Result<(), String> {
    let d = diff(before, after);
    if d.is_empty() {
        return Ok(());
    }
    Err(format!("{what} changed {}", d.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ")))
}

fn must_accept(out: &TxOut, what: &str) -> Result<(), String> {
    match &out.result {
        Ok(()) => Ok(()),
        Err(e) => Err(format!("HARNESS: {what} was not accepted: {e:?}")),
    }
}

/// Own arithmetic for the rent-exempt minimum.
fn rent_for(svm: &Svm, len: usize) -> u64 {
    (((128 + len as u64) * svm.rent.lamports_per_byte_year) as f64 * svm.rent.exemption_threshold) as u64
}

// ---------------------------------------------------------------- P07

pub fn p07(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good_long(&mut c.t);
    let t = &mut c.t;
    let spe = match t.below(4) {
        0 => gen_spe(t),
        1 => t.range(1, 40),
        2 => t.edgy(64).max(1),
        _ => 432_000,
    };
    svm.epoch_schedule.slots_per_epoch = spe;
    svm.epoch_schedule.leader_schedule_slot_offset = if t.bool() { spe } else { t.edgy(32) };
    svm.epoch_schedule.warmup = t.bool();
    svm.epoch_schedule.first_normal_epoch = if t.bool() { 14 } else { t.edgy(20) };
    svm.epoch_schedule.first_normal_slot = if t.bool() { 524_256 } else { t.edgy(64) };
    let edge = s.slot as i128 + spe as i128;
    let now: i128 = match t.below(8) {
        0 => s.slot as i128,
        1 => s.slot as i128 - 1 - t.below(3) as i128,
        2 => edge,
        3 => edge + 1,
        4 => edge - 1 - t.below(3) as i128,
        5 => edge + t.edgy(40) as i128,
        6 => s.slot as i128 + t.edgy(40) as i128,
        _ => t.edgy(64) as i128,
    };
    svm.clock.slot = now.clamp(0, u64::MAX as i128) as u64;
    svm.clock.epoch = match t.below(3) {
        0 => svm.clock.slot / spe,
        1 => t.below(10),
        _ => t.edgy(64),
    };
    svm.clock.unix_timestamp = t.edgy(64) as i64;
    let now = svm.clock.slot;
    let elapsed = now as i128 - s.slot as i128;
    let inside = elapsed >= 0 && elapsed <= spe as i128;
    c.label(match elapsed - spe as i128 {
        _ if elapsed < 0 => "in the future",
        -1 => "one slot before the end",
        0 => "last slot",
        1 => "one slot too old",
        x if x > 1 => "too old",
        _ if elapsed == 0 => "this slot",
        _ => "inside",
    });
    c.nontrivial();
    feed(c, &s, &[now, spe]);
    describe(c, &s, &svm);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let before = svm.clone();
    let out = svm.execute(&s.tx());
    if out.ok() != inside {
        return Err(format!(
            "{elapsed} slots after the violation, with {spe} slots in an epoch, the report was {:?}",
            out.result
        ));
    }
    if !inside {
        same(&before, &svm, "the rejected report")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P08

pub fn p08(c: &mut Case) -> Result<(), String> {
    let (key, mut s, mut svm) = good_long(&mut c.t);
    let t = &mut c.t;
    match t.below(12) {
        // contents of the first report at the edges of their types
        0 => s.reporter = ids::SYSTEM,
        1 => s.destination = ids::SYSTEM,
        2 => s.reporter = Pubkey::new_from_array([255; 32]),
        3 => s.reporter = s.node,
        4 => svm.clock.epoch = u64::MAX,
        5 => svm.clock.epoch = 0,
        6 => svm.clock.epoch = t.edgy(64),
        _ => (),
    }
    must_accept(&s.go(&mut svm), "the first report")?;
    let k = s.report_key();
    if c.t.chance(1, 4) {
        // somebody is generous
        let extra = c.t.edgy(58);
        svm.accounts.get_mut(&k).unwrap().lamports += extra;
    }
    let first = svm.get(&k);
    let n = 1 + c.t.below(3);
    for _ in 0..n {
        let t = &mut c.t;
        // time passes, within the window
        if t.bool() {
            let end = s.slot.saturating_add(svm.epoch_schedule.slots_per_epoch);
            svm.clock.slot = t.range(svm.clock.slot, end);
            svm.clock.epoch = svm.clock.epoch.saturating_add(t.below(3));
        }
        let kind = t.below(5);
        let mut o = match kind {
            0 => s.clone(),
            1 => s.swapped(),
            2 => Sub { reporter: wallet(700 + t.below(9)), destination: wallet(720 + t.below(9)), ..s.clone() },
            3 => Sub { reporter: s.node, destination: s.destination, ..s.clone() },
            _ => another(t, &s, &key),
        };
        c.labels.push(format!("again {kind}"));
        let t = &mut c.t;
        if t.chance(1, 8) {
            o.destination = k;
        }
        // more lamports arrive, by the bundle's transfer, by anybody's, or not at all
        o.stage(&mut svm);
        let need = rent_for(&svm, o.report_len());
        let mut tx: Vec<TopIx> = vec![];
        let mut added = 0;
        let funding = t.below(4);
        let payer = if o.reporter == ids::SYSTEM { wallet(0) } else { o.reporter };
        if svm.lamports(&payer) < 1 << 49 {
            svm.accounts.insert(payer, Account::wallet(1 << 50));
        }
        match funding {
            0 => {
                let have = svm.lamports(&k);
                if have < need {
                    added = need - have;
                    tx.push(transfer_ix(payer, k, added).into());
                }
            }
            1 => (),
            _ => {
                added = need + t.below(1000);
                tx.push(transfer_ix(payer, k, added).into());
            }
        }
        let at = tx.len() as u16;
        tx.push(ed25519_for(at + 1).into());
        tx.push(o.ix().into());
        let funded = svm.lamports(&k) + added >= need;
        let lax = o.destination == k || !funded;
        let before = svm.clone();
        let out = svm.execute(&tx);
        match custom(&out) {
            Some(code::DUPLICATE_REPORT) => (),
            Some(code::NOT_PREFUNDED) if !funded => (),
            Some(code::DESTINATION_IS_REPORT) if lax => (),
            _ => {
                describe(c, &o, &svm);
                return Err(format!("a further report of the same violation (kind {kind}) ended with {:?}", out.result));
            }
        }
        same(&before, &svm, "the rejected further report")?;
        // the transfer alone may still happen
        if added > 0 && t_bool(c) {
            let r = svm.execute(&[transfer_ix(payer, k, added).into()]);
            must_accept(&r, "a transfer")?;
            let now = svm.get(&k);
            if now.data != first.data || now.owner != first.owner {
                return Err("the report changed".into());
            }
        }
    }
    // the same thing within one transaction
    if c.t.bool() {
        let t = &mut c.t;
        let mut fresh = svm.clone();
        fresh.accounts.remove(&k);
        let mut o = another(t, &s, &key);
        if o.proof_key == s.proof_key {
            o.proof_key = wallet(399);
        }
        s.stage(&mut fresh);
        o.stage(&mut fresh);
        s.prefund(&mut fresh);
        o.prefund(&mut fresh);
        let before = fresh.clone();
        let tx: Vec<TopIx> = vec![ed25519_for(1).into(), s.ix().into(), ed25519_for(3).into(), o.ix().into()];
        let out = fresh.execute(&tx);
        c.label("twice in one transaction");
        if !matches!(&out.result, Err((3, TxErr::Program(_)))) || custom(&out) != Some(code::DUPLICATE_REPORT) {
            return Err(format!("two reports of one violation in one transaction ended with {:?}", out.result));
        }
        same(&before, &fresh, "the rejected transaction")?;
    }
    // other violations are unaffected
    let t = &mut c.t;
    let stored = svm.get(&k);
    if stored.data != first.data || stored.owner != first.owner {
        return Err("the stored report changed".into());
    }
    let (okey, oslot) = match t.below(3) {
        0 => (Key::new(900 + t.below(8)), s.slot),
        1 => (key, if s.slot == 0 { 1 } else { s.slot - 1 }),
        _ => (key, s.slot ^ (1 << t.below(63))),
    };
    let version = t.edgy(16) as u16;
    let pair = gen_conflict_pair(t, oslot, version, &okey);
    let mut o = Sub::new(&pair, &okey, oslot);
    vary(t, &mut o);
    if oslot > svm.clock.slot || svm.clock.slot - oslot > svm.epoch_schedule.slots_per_epoch {
        svm.clock.slot = oslot;
    }
    let out = o.go(&mut svm);
    if !out.ok() {
        describe(c, &o, &svm);
        return Err(format!("a report of another violation was affected by the first: {:?}", out.result));
    }
    if svm.get(&k) != stored {
        return Err("a report of another violation changed the first".into());
    }
    c.nontrivial();
    feed(c, &s, &[n]);
    describe(c, &s, &svm);
    Ok(())
}

fn t_bool(c: &mut Case) -> bool {
    c.t.bool()
}

// ---------------------------------------------------------------- P09

pub fn p09(c: &mut Case) -> Result<(), String> {
    let (_, mut s, mut svm) = good_long(&mut c.t);
    let t = &mut c.t;
    s.reporter = Pubkey::new_from_array(blob32(t.seed()));
    if t.bool() {
        s.destination = Pubkey::new_from_array(blob32(t.seed()));
    }
    match t.below(10) {
        0 => s.destination = s.reporter,
        1 => s.destination = s.node,
        2 => s.reporter = s.report_key(),
        3 => s.destination = ids::SYSTEM,
        4 => s.reporter = s.node,
        5 => {
            s.reporter = s.node;
            s.destination = s.node;
        }
        _ => (),
    }
    svm.clock.epoch = t.edgy(64);
    svm.clock.leader_schedule_epoch = t.edgy(64);
    if s.p1.len().max(s.p2.len()) > shred::CODE_LEN {
        c.labels.push("long proof".into());
    }
    let t = &mut c.t;
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let extra = t.edgy(58);
    let k = s.report_key();
    svm.accounts.get_mut(&k).unwrap().lamports += extra;
    let before = svm.clone();
    let mut ix = s.ix();
    if t.chance(1, 4) {
        // further accounts do not matter
        ix.accounts.push(AccountMeta::new(wallet(5), false));
        ix.accounts.push(AccountMeta::new(s.reporter, false));
    }
    describe(c, &s, &svm);
    let out = svm.execute(&[ed25519_for(1).into(), ix.into()]);
    must_accept(&out, "a valid report")?;
    c.nontrivial();
    feed(c, &s, &[svm.clock.epoch, extra]);
    let r = svm.get(&k);
    let want = s.expected_report(svm.clock.epoch);
    if r.owner != SLASHING {
        return Err(format!("the report is owned by {}", r.owner));
    }
    if r.data != want {
        let at = r.data.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!(
            "the report holds {} bytes, expected {}; first difference at {at:?}",
            r.data.len(),
            want.len()
        ));
    }
    for (k2, text) in diff(&before, &svm) {
        if k2 != k {
            return Err(format!("the submission also changed {text}"));
        }
    }
    if svm.lamports(&k) != before.lamports(&k) {
        return Err("the balance of the report account changed".into());
    }
    // so does the library read it
    let head = &r.data[..REPORT_HEADER];
    let v: &ViolationReport =
        spl_pod::bytemuck::pod_from_bytes(head).map_err(|e| format!("the library cannot read a report: {e:?}"))?;
    let read = (
        ViolationReport::version(&r.data),
        v.version,
        v.reporter,
        v.destination,
        v.epoch(),
        v.pubkey,
        v.slot(),
        v.violation_type(),
    );
    let due = (1, 1, s.reporter, s.destination, svm.clock.epoch, s.node, s.slot, ProofType::DuplicateBlockProof);
    if read != due {
        return Err(format!("the library reads {read:?}, stored was {due:?}"));
    }
    let proof = DuplicateBlockProofData { shred1: &s.p1, shred2: &s.p2 };
    if ViolationReport::packed_len(&proof) != want.len() {
        return Err(format!("the library expects {} bytes, stored are {}", ViolationReport::packed_len(&proof), want.len()));
    }
    // the stored proof demonstrates the violation by itself
    let mut again = svm.clone();
    again.accounts.remove(&k);
    let mut o = s.clone();
    o.proof_key = wallet(398);
    o.prefix = r.data[..REPORT_HEADER].to_vec();
    o.offset = REPORT_HEADER as u64;
    o.suffix = vec![];
    o.prefund(&mut again);
    again.accounts.insert(
        o.proof_key,
        Account { lamports: 1 << 50, data: r.data.clone(), owner: SLASHING, executable: false },
    );
    let out = again.execute(&o.tx());
    if !out.ok() || again.get(&k).data != r.data {
        return Err(format!("the stored proof does not demonstrate the violation again: {:?}", out.result));
    }
    Ok(())
}

/// The byte and the name of a violation type name the same type.
pub fn p09_types(c: &mut Case) -> Result<(), String> {
    let b = c.t.below(256) as u8;
    c.nontrivial();
    c.feed(&[b]);
    c.note(|| format!("type byte {b}"));
    let known = [(0u8, ProofType::InvalidType, "invalid"), (1, ProofType::DuplicateBlockProof, "duplicate block")];
    let ty = ProofType::from(b);
    let due = known.iter().find(|k| k.0 == b).unwrap_or(&known[0]);
    if ty != due.1 {
        return Err(format!("byte {b} is read as {ty:?}"));
    }
    if u8::from(ty) != due.0 {
        return Err(format!("{ty:?} is written as {}", u8::from(ty)));
    }
    if ty.to_string() != due.2 || ty.violation_str() != due.2 {
        return Err(format!("{ty:?} is called {:?}", ty.to_string()));
    }
    if due.2.parse::<ProofType>().ok() != Some(due.1) {
        return Err(format!("{:?} is read as {:?}", due.2, due.2.parse::<ProofType>().ok()));
    }
    // no other name is one
    let mut name = due.2.as_bytes().to_vec();
    let at = b as usize % (name.len() + 1);
    match b as usize / (name.len() + 1) % 4 {
        0 => name.truncate(at),
        1 => name.insert(at, b'a' + b % 26),
        2 if at < name.len() => name[at] ^= 0x20,
        _ => name.extend([b' '; 1]),
    }
    let name = String::from_utf8(name).unwrap();
    if name != due.2 {
        if let Ok(t) = name.parse::<ProofType>() {
            return Err(format!("{name:?} is read as {t:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P10

fn bumped(seeds: &[&[u8]], program: &Pubkey, skip: u64) -> Option<Pubkey> {
    let mut left = skip;
    for b in (0..=255u8).rev() {
        let b = [b];
        let mut v = seeds.to_vec();
        v.push(&b);
        if let Ok(k) = Pubkey::create_program_address(&v, program) {
            if left == 0 {
                return Some(k);
            }
            left -= 1;
        }
    }
    None
}

pub fn p10_accounts(c: &mut Case) -> Result<(), String> {
    let (key, s, mut svm) = good_long(&mut c.t);
    let t = &mut c.t;
    let node = s.node;
    let le = s.slot.to_le_bytes();
    let be = s.slot.to_be_bytes();
    let right = s.report_key();
    let kind = t.below(16);
    let mut signer = false;
    let mut owned_blank = false;
    let (name, wrong): (&str, Pubkey) = match kind {
        0 => ("address for another validator", pda(&Key::new(500 + t.below(9)).pubkey(), s.slot)),
        1 => ("address for the next slot", pda(&node, s.slot.wrapping_add(1))),
        2 => ("address for another slot", pda(&node, s.slot ^ (1 << t.below(64)))),
        3 => ("address for another violation type", bumped(&[node.as_ref(), &le, &[*t.pick(&[0, 2, 255])]], &SLASHING, 0).unwrap()),
        4 => ("address for the big-endian slot", bumped(&[node.as_ref(), &be, &[1]], &SLASHING, 0).unwrap()),
        5 => ("non-canonical bump", bumped(&[node.as_ref(), &le, &[1]], &SLASHING, 1 + t.below(3)).unwrap()),
        6 => ("address under another program", bumped(&[node.as_ref(), &le, &[1]], t.pick(&[ids::SYSTEM, ids::FORWARDER, node]), 0).unwrap()),
        7 => ("address without the type", bumped(&[node.as_ref(), &le], &SLASHING, 0).unwrap()),
        8 => ("seeds in another order", bumped(&[&le, node.as_ref(), &[1]], &SLASHING, 0).unwrap()),
        9 => {
            signer = true;
            ("a signing wallet", wallet(5))
        }
        10 => {
            signer = true;
            ("the accused itself", node)
        }
        11 => ("the destination", s.destination),
        12 => ("the reporter", s.reporter),
        13 => {
            signer = true;
            owned_blank = true;
            ("a blank account of the program", wallet(640 + t.below(4)))
        }
        14 => ("the address for the reporter", pda(&s.reporter, s.slot)),
        _ => ("an existing report", pda(&node, s.slot ^ 1)),
    };
    c.label(name);
    if wrong == right {
        c.label("coincides");
        return Ok(());
    }
    let t = &mut c.t;
    if kind == 15 {
        // a genuine report of the neighbouring slot
        let version = t.edgy(16) as u16;
        let pair = gen_conflict_pair(t, s.slot ^ 1, version, &key);
        let o = Sub::new(&pair, &key, s.slot ^ 1);
        let mut w = svm.clone();
        w.clock.slot = w.clock.slot.max(s.slot ^ 1);
        w.epoch_schedule.slots_per_epoch = w.epoch_schedule.slots_per_epoch.max(2);
        if !o.go(&mut w).ok() {
            c.labels.push("neighbour outside the window".into());
        } else {
            svm.accounts.insert(wrong, w.get(&wrong));
        }
    }
    s.stage(&mut svm);
    let need = svm.rent.minimum_balance(s.report_len());
    if owned_blank {
        let n = *t.pick(&[0usize, 1, 113, 114, s.report_len()]);
        svm.accounts.insert(wrong, Account { lamports: need * 4, data: vec![0; n], owner: SLASHING, executable: false });
    } else if kind != 15 || svm.lamports(&wrong) == 0 {
        let l = svm.lamports(&wrong).max(need * 2);
        let mut a = svm.get(&wrong);
        a.lamports = l;
        svm.accounts.insert(wrong, a);
    }
    if t.bool() {
        s.prefund(&mut svm);
    }
    let before = svm.clone();
    let mut ix = s.ix();
    ix.accounts[1] = AccountMeta::new(wrong, signer);
    // the right account may be among the others
    if t.bool() {
        ix.accounts.push(AccountMeta::new(right, false));
    }
    c.nontrivial();
    feed(c, &s, &[kind]);
    describe(c, &s, &svm);
    let out = svm.execute(&[ed25519_for(1).into(), ix.into()]);
    if out.ok() {
        return Err(format!("a report was accepted in {name} ({wrong}) instead of {right}"));
    }
    same(&before, &svm, "the rejected report")
}

pub fn p10_address(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let node = Pubkey::new_from_array(blob32(t.seed()));
    let slot = t.edgy(64);
    let types = [ProofType::DuplicateBlockProof, ProofType::InvalidType];
    let ty = types[t.weighted(&[4, 1])];
    let (k, bump) = get_violation_report_address(&node, slot, ty);
    let want = Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[u8::from(ty)]], &SLASHING);
    if c.record {
        c.notes.push(format!("node {node} slot {slot} type {ty}: {k} bump {bump}"));
    }
    let num: u8 = match ty {
        ProofType::DuplicateBlockProof => 1,
        ProofType::InvalidType => 0,
    };
    if u8::from(ty) != num {
        return Err(format!("violation type {ty} is numbered {}", u8::from(ty)));
    }
    if (k, bump) != want {
        return Err(format!("the published address of {node} slot {slot} is {k}, expected {}", want.0));
    }
    // neighbours differ
    let mut seen = BTreeSet::from([k]);
    let mut other_node = node.to_bytes();
    other_node[t.usize(0, 31)] ^= 1 << t.below(8);
    let other_node = Pubkey::new_from_array(other_node);
    for (n, s, y) in [
        (other_node, slot, ty),
        (node, slot ^ (1 << t.below(64)), ty),
        (node, slot.swap_bytes(), ty),
        (node, slot, types[1 - num as usize % 2].min_other(ty)),
    ] {
        if (n, s, u8::from(y)) == (node, slot, num) {
            continue;
        }
        let (k2, _) = get_violation_report_address(&n, s, y);
        if !seen.insert(k2) {
            return Err(format!("the address of {n} slot {s} type {y} is also another one's"));
        }
    }
    c.nontrivial();
    c.feed(node.as_ref());
    c.feed(&slot.to_le_bytes());
    Ok(())
}

trait Other {
    fn min_other(self, not: ProofType) -> ProofType;
}
impl Other for ProofType {
    fn min_other(self, not: ProofType) -> ProofType {
        match not {
            ProofType::DuplicateBlockProof => ProofType::InvalidType,
            ProofType::InvalidType => ProofType::DuplicateBlockProof,
        }
    }
}

// ---------------------------------------------------------------- P11

fn gen_rent(t: &mut Tape, svm: &mut Svm) {
    if t.bool() {
        svm.rent.lamports_per_byte_year = match t.below(4) {
            0 => t.range(1, 20),
            1 => t.range(1, 100_000),
            // up to 2^50 lamports for a report
            2 => 1 << t.range(0, 35),
            _ => 3480,
        };
        svm.rent.exemption_threshold = *t.pick(&[2.0, 1.0, 0.5, 3.25, 10.0]);
        svm.rent.burn_percent = t.below(101) as u8;
    }
}

pub fn p11_rent(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good_long(&mut c.t);
    let t = &mut c.t;
    gen_rent(t, &mut svm);
    let need = rent_for(&svm, s.report_len());
    if need == 0 || need != svm.rent.minimum_balance(s.report_len()) {
        return Err("HARNESS: rent arithmetic".into());
    }
    let lamports = match t.below(9) {
        0 => need,
        1 => need - 1,
        2 => need + 1,
        3 => need - t.below(need),
        4 => need + t.edgy(40),
        5 => 0,
        // rent of nearby sizes
        6 => rent_for(&svm, s.report_len() - t.usize(1, 120)),
        7 => rent_for(&svm, s.packed_len()),
        _ => rent_for(&svm, s.report_len() + t.usize(0, 20)),
    };
    let enough = lamports >= need;
    c.label(if lamports == need { "exact" } else if enough { "more than enough" } else if lamports + 1 == need { "one short" } else { "too little" });
    s.stage(&mut svm);
    let k = s.report_key();
    if lamports > 0 {
        svm.accounts.insert(k, Account::wallet(lamports));
    }
    // underfunded accounts can only be met through an earlier rent regime
    svm.lax_rent = true;
    for w in [s.reporter, s.destination] {
        svm.accounts.entry(w).or_insert(Account::wallet(1 << 50));
    }
    let before = svm.clone();
    let mut ix = s.ix();
    let t = &mut c.t;
    if t.chance(1, 3) {
        // possible payers are at hand
        ix.accounts.push(AccountMeta::new(s.reporter, true));
        ix.accounts.push(AccountMeta::new(s.destination, false));
    }
    if t.chance(1, 3) && s.proof_owner == SLASHING {
        ix.accounts[0].is_writable = true;
    }
    c.nontrivial();
    feed(c, &s, &[lamports, need]);
    describe(c, &s, &svm);
    c.note(|| format!("  {lamports} lamports of {need} needed"));
    let out = svm.execute(&[ed25519_for(1).into(), ix.into()]);
    if out.ok() != enough {
        return Err(format!("with {lamports} of {need} lamports prefunded the report was {:?}", out.result));
    }
    if !enough {
        if custom(&out) != Some(code::NOT_PREFUNDED) {
            return Err(format!("an underfunded report was rejected with {:?}", out.result));
        }
        return same(&before, &svm, "the rejected report");
    }
    for (k2, a) in &before.accounts {
        if svm.lamports(k2) != a.lamports {
            return Err(format!("the submission changed the balance of {k2} from {} to {}", a.lamports, svm.lamports(k2)));
        }
    }
    if svm.total_lamports() != before.total_lamports() {
        return Err("the submission changed the total of all balances".into());
    }
    Ok(())
}

pub fn p11_bundle(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    gen_rent(&mut c.t, &mut svm);
    s.stage(&mut svm);
    let funder = wallet(51);
    svm.accounts.insert(funder, Account::wallet(1 << 60));
    // a funder with exactly the amount is enough, too
    let ixs = duplicate_block_proof_with_sigverify_and_prefund(
        &s.proof_key,
        &crate::evidence::builder_data(&s),
        Some(&funder),
        &svm.rent,
    );
    c.nontrivial();
    feed(c, &s, &[svm.rent.lamports_per_byte_year]);
    c.label(format!("{} bytes", s.report_len()));
    describe(c, &s, &svm);
    let amount = u64::from_le_bytes(ixs[0].data[4..12].try_into().unwrap());
    svm.accounts.insert(funder, Account::wallet(amount));
    let before = svm.clone();
    let tx: Vec<TopIx> = ixs.into_iter().map(Into::into).collect();
    let out = svm.execute(&tx);
    if !out.ok() {
        return Err(format!(
            "the bundle's transfer of {amount} does not suffice for a report of {} bytes: {:?}",
            s.report_len(),
            out.result
        ));
    }
    if svm.lamports(&s.report_key()) != amount || svm.total_lamports() != before.total_lamports() {
        return Err("the bundle moved other money than its transfer".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- P12

/// Creates a report for real.
fn reported(c: &mut Case, epoch: u64) -> Result<(Sub, Svm), String> {
    let (_, mut s, mut svm) = good_long(&mut c.t);
    match c.t.below(12) {
        0 => s.reporter = Pubkey::new_from_array([1; 32]),
        1 => s.reporter = s.destination,
        2 => s.reporter = s.node,
        3 => s.destination = s.node,
        _ => (),
    }
    svm.clock.epoch = epoch;
    must_accept(&s.go(&mut svm), "the report to close")?;
    Ok((s, svm))
}

pub fn p12(c: &mut Case) -> Result<(), String> {
    let e = match c.t.below(4) {
        0 => c.t.below(5),
        1 => c.t.range(0, 2000),
        2 => u64::MAX - c.t.below(8),
        _ => c.t.edgy(64),
    };
    let (s, mut svm) = reported(c, e)?;
    let t = &mut c.t;
    let now = match t.below(8) {
        0 => e,
        1 => e.saturating_add(1),
        2 => e.saturating_add(2),
        3 => e.saturating_add(3),
        4 => e.saturating_add(4),
        5 => e.saturating_add(t.edgy(40)),
        6 => t.below(e.saturating_add(3).max(1)),
        _ => t.edgy(64),
    };
    svm.clock.epoch = now;
    svm.clock.slot = t.edgy(64);
    // nothing else about the clock matters
    svm.clock.leader_schedule_epoch = match t.below(3) {
        0 => now.saturating_add(1),
        1 => now,
        _ => t.edgy(64),
    };
    svm.clock.unix_timestamp = t.edgy(62) as i64;
    svm.clock.epoch_start_timestamp = t.edgy(62) as i64;
    let open = now < e.saturating_add(3);
    c.label(match now as i128 - e as i128 {
        x if x < 0 => "before it was reported",
        0 => "same epoch",
        1 => "next epoch",
        2 => "second epoch after",
        3 => "third epoch after",
        _ => "later",
    });
    c.nontrivial();
    feed(c, &s, &[e, now]);
    describe(c, &s, &svm);
    let k = s.report_key();
    let before = svm.clone();
    let t = &mut c.t;
    let tx: Vec<TopIx> = if t.bool() {
        vec![close_ix(k, s.destination).into()]
    } else {
        vec![close_violation_report(&k, &s.destination).into()]
    };
    let out = svm.execute(&tx);
    if now == u64::MAX && e > now - 3 {
        // there is no third epoch to wait for
        return Ok(());
    }
    if open {
        if out.ok() {
            return Err(format!("a report of epoch {e} was closed in epoch {now}"));
        }
        return same(&before, &svm, "the early close");
    }
    if !out.ok() {
        return Err(format!("a report of epoch {e} could not be closed in epoch {now}: {:?}", out.result));
    }
    if svm.accounts.contains_key(&k) {
        return Err("the closed report still exists".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- P13

pub fn p13_close(c: &mut Case) -> Result<(), String> {
    let e = c.t.edgy(32);
    let (mut s, mut svm);
    (s, svm) = reported(c, e)?;
    let t = &mut c.t;
    svm.clock.epoch = e + 3 + t.edgy(30);
    let k = s.report_key();
    // lamports received after creation
    let extra = if t.bool() { t.edgy(58) } else { 0 };
    svm.accounts.get_mut(&k).unwrap().lamports += extra;
    // the destination may not exist, be rich, or belong to somebody
    let dest = s.destination;
    match t.below(5) {
        0 => {
            svm.accounts.remove(&dest);
        }
        1 => {
            svm.accounts.insert(dest, Account { lamports: 1 << 40, data: t.bytes(50), owner: wallet(9), executable: false });
        }
        2 => {
            svm.accounts.insert(dest, Account { lamports: 1 << 40, data: vec![0; 50], owner: SLASHING, executable: false });
        }
        _ => {
            svm.accounts.insert(dest, Account::wallet(t.edgy(50).max(1_000_000)));
        }
    }
    s.destination = dest;
    let wrong = match t.below(9) {
        0 => Some(("the reporter", s.reporter)),
        1 => Some(("the accused", s.node)),
        2 => Some(("the report itself", k)),
        3 => Some(("anybody", wallet(5))),
        4 => {
            let mut b = dest.to_bytes();
            b[t.usize(0, 31)] ^= 1 << t.below(8);
            Some(("nearly the destination", Pubkey::new_from_array(b)))
        }
        _ => None,
    };
    let wrong = wrong.filter(|w| w.1 != dest);
    c.nontrivial();
    feed(c, &s, &[extra, wrong.is_some() as u64]);
    describe(c, &s, &svm);
    let before = svm.clone();
    let lamports = before.lamports(&k);
    let t = &mut c.t;
    if let Some((name, w)) = wrong {
        c.labels.push(format!("to {name}"));
        let mut ix = close_ix(k, w);
        if c.t.bool() {
            ix.accounts.push(AccountMeta::new(dest, false));
        }
        let out = svm.execute(&[ix.into()]);
        if out.ok() {
            return Err(format!("a report was closed to {name}"));
        }
        return same(&before, &svm, "the misdirected close");
    }
    let mut ix = close_ix(k, dest);
    if t.chance(1, 4) {
        ix.accounts.push(AccountMeta::new(wallet(5), t.bool()));
        ix.accounts.push(AccountMeta::new(s.reporter, false));
    }
    let mode = t.below(4);
    c.labels.push(["plain", "refunded within the transaction", "closed twice", "through another program"][mode as usize].into());
    match mode {
        1 => {
            // leave something behind so that the account survives the transaction
            let back = 1_000_000;
            let out = svm.execute(&[ix.into(), transfer_ix(wallet(0), k, back).into()]);
            must_accept_p13(&out)?;
            let a = svm.get(&k);
            if a.owner != ids::SYSTEM || !a.data.is_empty() || a.lamports != back {
                return Err(format!("the closed account is left with {} lamports, {} bytes, owner {}", a.lamports, a.data.len(), a.owner));
            }
        }
        2 => {
            let mut twice = svm.clone();
            let out = twice.execute(&[ix.clone().into(), ix.clone().into()]);
            if out.ok() {
                return Err("a report was closed twice in one transaction".into());
            }
            same(&before, &twice, "the double close")?;
            let out = svm.execute(&[ix.clone().into()]);
            must_accept_p13(&out)?;
            let once = svm.clone();
            let out = svm.execute(&[ix.into()]);
            if out.ok() {
                return Err("a closed report was closed again".into());
            }
            same(&once, &svm, "the second close")?;
        }
        3 => {
            let mut outer = ix.clone();
            outer.program_id = ids::FORWARDER;
            outer.accounts.push(AccountMeta::new_readonly(SLASHING, false));
            let out = svm.execute(&[TopIx { ix: outer, inner: vec![ix] }]);
            must_accept_p13(&out)?;
        }
        _ => {
            let out = svm.execute(&[ix.into()]);
            must_accept_p13(&out)?;
        }
    }
    if mode != 1 && svm.accounts.contains_key(&k) {
        return Err("the closed report still exists".into());
    }
    let got = svm.lamports(&dest) - before.lamports(&dest);
    if got != lamports {
        return Err(format!("the destination received {got} of {lamports} lamports"));
    }
    for (k2, text) in diff(&before, &svm) {
        if k2 != k && k2 != dest && !(mode == 1 && k2 == wallet(0)) {
            return Err(format!("the close also changed {text}"));
        }
    }
    let (a, b) = (before.get(&dest), svm.get(&dest));
    if a.data != b.data || a.owner != b.owner {
        return Err("the close changed more of the destination than its balance".into());
    }
    Ok(())
}

fn must_accept_p13(out: &TxOut) -> Result<(), String> {
    match &out.result {
        Ok(()) => Ok(()),
        Err(e) => Err(format!("an eligible report could not be closed to its destination: {e:?}")),
    }
}

pub fn p13_self(c: &mut Case) -> Result<(), String> {
    let (_, mut s, mut svm) = good_long(&mut c.t);
    s.destination = s.report_key();
    match c.t.below(6) {
        0 => s.reporter = s.report_key(),
        1 => s.reporter = s.node,
        2 => s.reporter = s.proof_key,
        _ => (),
    }
    c.nontrivial();
    feed(c, &s, &[]);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    describe(c, &s, &svm);
    let before = svm.clone();
    let out = svm.execute(&s.tx());
    if out.ok() {
        return Err("a report was created whose destination is the report account".into());
    }
    same(&before, &svm, "the self-destined report")
}

pub fn p13_many(c: &mut Case) -> Result<(), String> {
    let (key, s0, mut svm) = good_long(&mut c.t);
    let spe = svm.epoch_schedule.slots_per_epoch;
    let e = c.t.below(1000);
    svm.clock.epoch = e;
    let n = 2 + c.t.below(3);
    let mut subs: Vec<Sub> = vec![];
    for i in 0..n {
        let t = &mut c.t;
        let who = if t.bool() { Key::new(800 + i) } else { Key::new(800) };
        let slot = svm.clock.slot.saturating_sub(i.min(spe));
        let version = t.edgy(16) as u16;
        let pair = gen_conflict_pair(t, slot, version, &who);
        let mut s = Sub::new(&pair, &who, slot);
        vary(t, &mut s);
        s.destination = wallet(200 + t.below(2));
        if subs.iter().any(|x| x.report_key() == s.report_key()) {
            continue;
        }
        must_accept(&s.go(&mut svm), "a report")?;
        let extra = t.edgy(56);
        svm.accounts.get_mut(&s.report_key()).unwrap().lamports += extra;
        subs.push(s);
    }
    let _ = (key, s0);
    svm.clock.epoch = e + 3;
    let before = svm.clone();
    let tx: Vec<TopIx> = subs.iter().map(|s| close_ix(s.report_key(), s.destination).into()).collect();
    c.label(format!("{} reports in one transaction", subs.len()));
    c.nontrivial();
    for s in &subs {
        feed(c, s, &[]);
    }
    let out = svm.execute(&tx);
    must_accept_p13(&out)?;
    let mut want: BTreeMap<Pubkey, u64> = BTreeMap::new();
    for s in &subs {
        *want.entry(s.destination).or_insert(before.lamports(&s.destination)) += before.lamports(&s.report_key());
        if svm.accounts.contains_key(&s.report_key()) {
            return Err("a closed report still exists".into());
        }
    }
    for (d, w) in want {
        if svm.lamports(&d) != w {
            return Err(format!("{d} has {} lamports, expected {w}", svm.lamports(&d)));
        }
    }
    if svm.total_lamports() != before.total_lamports() {
        return Err("the total of all balances changed".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

pub fn p14_close(c: &mut Case) -> Result<(), String> {
    let e = c.t.below(100);
    let (s, mut svm) = reported(c, e)?;
    let t = &mut c.t;
    svm.clock.epoch = e + 3 + t.below(100);
    let k = s.report_key();
    let report = svm.get(&k);
    let target = wallet(660 + t.below(5));
    let kind = t.below(7);
    let blank = |n: usize| vec![0u8; n];
    let mut program_must_refuse = true;
    let (name, acct) = match kind {
        0 => ("a copy of a report owned by somebody else", Account { owner: *t.pick(&[wallet(9), ids::FORWARDER, ids::SYSTEM]), ..report.clone() }),
        1 => ("a wallet", Account::wallet(1 << 40)),
        2 => ("an empty account of the program", Account { lamports: 1 << 40, owner: SLASHING, ..Account::default() }),
        3 => {
            let n = match t.below(3) {
                0 => REPORT_HEADER - 1,
                1 => t.usize(1, 4),
                _ => t.usize(1, REPORT_HEADER - 1),
            };
            ("a blank account of the program, shorter than a report", Account { lamports: 1 << 40, data: blank(n), owner: SLASHING, executable: false })
        }
        4 => {
            program_must_refuse = false;
            let n = REPORT_HEADER + t.usize(0, 3000);
            ("a blank account of the program", Account { lamports: 1 << 40, data: blank(n), owner: SLASHING, executable: false })
        }
        5 => {
            let n = t.usize(1, REPORT_HEADER - 1);
            ("the beginning of a report", Account { lamports: 1 << 40, data: report.data[..n].to_vec(), owner: SLASHING, executable: false })
        }
        _ => ("an account that does not exist", Account::default()),
    };
    c.label(name);
    if acct.lamports > 0 {
        svm.accounts.insert(target, acct);
    } else {
        svm.accounts.remove(&target);
    }
    let t = &mut c.t;
    let dest = match t.below(4) {
        0 => ids::SYSTEM,
        1 => target,
        2 => wallet(5),
        _ => s.destination,
    };
    c.nontrivial();
    let id = c.t.seed();
    feed(c, &s, &[kind, id]);
    c.note(|| format!("close of {name} to {dest}, {} bytes", svm.get(&target).data.len()));
    let before = svm.clone();
    let mut ix = close_ix(target, dest);
    if c.t.chance(1, 4) {
        ix.accounts[0].is_signer = true;
    }
    if c.t.chance(1, 4) {
        ix.accounts.push(AccountMeta::new(k, false));
    }
    let out = svm.execute(&[ix.into()]);
    if out.ok() {
        return Err(format!("{name} was closed"));
    }
    if program_must_refuse && out.last_call(&SLASHING).is_some_and(|r| r.is_ok()) {
        return Err(format!("the program itself did not reject the close of {name}, only the runtime did"));
    }
    same(&before, &svm, "the rejected close")
}

/// No instruction changes anything but the report and, on close, the destination.
pub fn p14_frame(c: &mut Case) -> Result<(), String> {
    let e = c.t.below(100);
    let (first, mut svm) = reported(c, e)?;
    let k1 = first.report_key();
    let t = &mut c.t;
    let close = t.bool();
    let mut allowed = vec![k1];
    let mut ix: Instruction;
    let pre: Option<TopIx>;
    if close {
        svm.clock.epoch = e + t.below(6);
        let dest = if t.chance(1, 5) { wallet(5) } else { first.destination };
        ix = close_ix(k1, dest);
        allowed.push(first.destination);
        pre = None;
    } else {
        let key = Key::new(950 + t.below(4));
        let slot = first.slot;
        let version = t.edgy(16) as u16;
        let pair = if t.chance(1, 4) { gen_near_pair(t, slot, version, &key) } else { gen_conflict_pair(t, slot, version, &key) };
        let mut s = Sub::new(&pair, &key, slot);
        vary(t, &mut s);
        // a proof can lie in an existing report, too
        if t.chance(1, 3) {
            svm.clock.slot = svm.clock.slot.max(slot);
            let mut w = svm.clone();
            let out = s.go(&mut w);
            if out.ok() {
                // another report holding the same proof, under another key
                let holder = wallet(670);
                svm.accounts.insert(holder, w.get(&s.report_key()));
                s.proof_key = holder;
                s.offset = REPORT_HEADER as u64;
                c.labels.push("proof inside a report".into());
            } else {
                s.stage(&mut svm);
            }
        } else {
            s.stage(&mut svm);
        }
        s.prefund(&mut svm);
        allowed = vec![s.report_key()];
        ix = s.ix();
        pre = Some(ed25519_for(1).into());
        describe(c, &s, &svm);
    }
    let t = &mut c.t;
    // every account is writable, and further ones are passed
    for m in &mut ix.accounts {
        m.is_writable = true;
    }
    for _ in 0..t.below(4) {
        let k = *t.pick(&[k1, wallet(5), wallet(6), first.reporter, first.destination, first.proof_key]);
        let at = if t.chance(3, 4) { ix.accounts.len() } else { t.usize(0, ix.accounts.len()) };
        ix.accounts.insert(at, AccountMeta::new(k, t.bool()));
    }
    let mut tx: Vec<TopIx> = vec![];
    tx.extend(pre);
    tx.push(ix.into());
    let before = svm.clone();
    let out = svm.execute(&tx);
    c.labels.push(format!("{} {}", if close { "close" } else { "report" }, if out.ok() { "accepted" } else { "rejected" }));
    c.nontrivial();
    let id = c.t.seed();
    feed(c, &first, &[id]);
    let d = diff(&before, &svm);
    if !out.ok() && !d.is_empty() {
        return Err("HARNESS: a failed transaction had effects".into());
    }
    for (k, text) in d {
        if !allowed.contains(&k) {
            return Err(format!("a {} also changed {text}", if close { "close" } else { "report" }));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

#[derive(Clone)]
struct Open {
    destination: Pubkey,
    epoch: u64,
    data: Vec<u8>,
}

/// The abstract register: what was ever reported, what is open, and the ledger
/// that this makes.
#[derive(Clone)]
struct Register {
    ever: BTreeSet<(usize, u64)>,
    open: BTreeMap<(usize, u64), Open>,
    ledger: Svm,
}

enum Op {
    Report { who: (usize, u64), s: Box<Sub>, conflict: bool, fund: u64, need: u64, bundle: bool },
    Close { who: (usize, u64), account: Pubkey, dest: Pubkey },
    Transfer { from: Pubkey, to: Pubkey, amount: u64 },
}

impl Op {
    /// The instructions, the first of which has index `at` in its transaction.
    fn instructions(&self, at: usize, svm: &Svm) -> Vec<TopIx> {
        match self {
            Op::Report { s, fund, bundle, .. } => {
                if *bundle {
                    return duplicate_block_proof_with_sigverify_and_prefund(&s.proof_key, &crate::evidence::builder_data(s), None, &svm.rent)
                        .into_iter()
                        .map(Into::into)
                        .collect();
                }
                if *fund == 0 {
                    return vec![ed25519_for(at as u16 + 1).into(), s.ix().into()];
                }
                vec![transfer_ix(s.reporter, s.report_key(), *fund).into(), ed25519_for(at as u16 + 2).into(), s.ix().into()]
            }
            Op::Close { account, dest, .. } => vec![close_ix(*account, *dest).into()],
            Op::Transfer { from, to, amount } => vec![transfer_ix(*from, *to, *amount).into()],
        }
    }
    fn text(&self) -> String {
        match self {
            Op::Report { who, s, conflict, fund, need, .. } => format!(
                "report validator {} slot {} ({}conflict), funded {fund} of {need}, for {}",
                who.0, who.1, if *conflict { "" } else { "no " }, s.destination
            ),
            Op::Close { who, dest, .. } => format!("close validator {} slot {} into {dest}", who.0, who.1),
            Op::Transfer { to, amount, .. } => format!("{amount} lamports to {to}"),
        }
    }
}

impl Register {
    fn add(&mut self, k: Pubkey, lamports: u64) {
        let mut a = self.ledger.get(&k);
        a.lamports += lamports;
        self.ledger.accounts.insert(k, a);
    }
    fn take(&mut self, k: Pubkey, lamports: u64) -> bool {
        let mut a = self.ledger.get(&k);
        let enough = a.lamports >= lamports;
        a.lamports = a.lamports.saturating_sub(lamports);
        self.ledger.accounts.insert(k, a);
        enough
    }
    fn apply(&mut self, op: &Op, spe: u64) -> bool {
        let (now, epoch) = (self.ledger.clock.slot, self.ledger.clock.epoch);
        match op {
            Op::Transfer { from, to, amount } => {
                let ok = self.take(*from, *amount);
                self.add(*to, *amount);
                ok
            }
            Op::Report { who, s, conflict, fund, need, .. } => {
                let rk = s.report_key();
                if !self.take(s.reporter, *fund) {
                    return false;
                }
                let total = self.ledger.lamports(&rk) + fund;
                if !conflict || self.ever.contains(who) || who.1 > now || now - who.1 > spe || total < *need || s.destination == rk {
                    return false;
                }
                let data = s.expected_report(epoch);
                self.ever.insert(*who);
                self.ledger.accounts.insert(rk, Account { lamports: total, data: data.clone(), owner: SLASHING, executable: false });
                self.open.insert(*who, Open { destination: s.destination, epoch, data });
                true
            }
            Op::Close { who, account, dest } => {
                if !self.open.get(who).is_some_and(|o| o.destination == *dest && epoch >= o.epoch + 3) {
                    return false;
                }
                self.open.remove(who);
                let l = self.ledger.accounts.remove(account).unwrap().lamports;
                self.add(*dest, l);
                true
            }
        }
    }
}

pub fn p18(c: &mut Case) -> Result<(), String> {
    let mut svm = new_svm();
    let t = &mut c.t;
    let spe = *t.pick(&[4u64, 8, 32, 100]);
    set_schedule(&mut svm, spe);
    let start = t.below(3) * spe + t.below(spe);
    svm.clock.slot = start;
    svm.clock.epoch = start / spe;
    let keys: Vec<Key> = (0..2).map(|i| Key::new(30 + i)).collect();
    for i in 0..6 {
        svm.accounts.insert(wallet(i), Account::wallet(1 << 40));
    }
    let mut reg = Register { ever: BTreeSet::new(), open: BTreeMap::new(), ledger: svm.clone() };
    let mut proofs: BTreeMap<(usize, u64, u64), Pair> = BTreeMap::new();
    let steps = 6 + c.t.below(25);
    let mut log: Vec<String> = vec![];
    let (mut n_rep, mut n_close, mut n_rej, mut n_reuse, mut n_chain, mut n_multi) = (0, 0, 0, 0, 0, 0);
    let mut staged = 0u64;
    for _ in 0..steps {
        if c.t.chance(5, 17) {
            let t = &mut c.t;
            let d = match t.below(5) {
                0 => t.below(3),
                1 => t.below(spe),
                2 => spe - svm.clock.slot % spe,
                3 => spe,
                _ => spe * (1 + t.below(4)) + t.below(spe),
            };
            svm.clock.slot += d;
            svm.clock.epoch = svm.clock.slot / spe;
            reg.ledger.clock = svm.clock.clone();
            log.push(format!("{d} slots pass"));
            continue;
        }
        // a transaction of one to three operations, all or nothing
        let n = 1 + c.t.weighted(&[6, 2, 1]);
        let mut next = reg.clone();
        let mut accept = true;
        let mut tx: Vec<TopIx> = vec![];
        let mut texts = vec![];
        let (mut reports, mut closes) = (0, 0);
        for _ in 0..n {
            let t = &mut c.t;
            let op = match t.weighted(&[6, 4, 2]) {
                0 => {
                    let v = t.usize(0, 1);
                    let slot = match t.below(4) {
                        0 if next.ever.iter().any(|x| x.0 == v) => {
                            let all: Vec<u64> = next.ever.iter().filter(|x| x.0 == v).map(|x| x.1).collect();
                            *t.pick(&all)
                        }
                        1 => svm.clock.slot,
                        2 => svm.clock.slot.saturating_sub(t.below(spe + 3)),
                        _ => svm.clock.slot + t.below(2),
                    };
                    let which = t.below(3);
                    let key = &keys[v];
                    let pair = proofs
                        .entry((v, slot, which))
                        .or_insert_with(|| match which {
                            2 => shred::gen_near_pair(t, slot, 7, key),
                            _ => shred::gen_conflict_pair(t, slot, 7, key),
                        })
                        .clone();
                    let mut s = Sub::new(&pair, key, slot);
                    s.reporter = wallet(t.below(3));
                    let others: Vec<_> = next.ever.iter().copied().collect();
                    s.destination = match t.below(6) {
                        // another report, open, closed or yet to come
                        0 if !others.is_empty() => {
                            let (v, slot) = *t.pick(&others);
                            pda(&keys[v].pubkey(), slot)
                        }
                        1 => pda(&keys[t.usize(0, 1)].pubkey(), svm.clock.slot),
                        2 => wallet(50 + t.below(3)),
                        _ => wallet(3 + t.below(3)),
                    };
                    s.proof_key = wallet(100 + staged);
                    staged += 1;
                    if t.bool() {
                        s = s.swapped();
                    }
                    s.stage(&mut svm);
                    for r in [&mut reg, &mut next] {
                        r.ledger.accounts.insert(s.proof_key, svm.get(&s.proof_key));
                    }
                    let bundle = tx.is_empty() && t.bool();
                    let rk = s.report_key();
                    let need = rent_for(&svm, s.report_len());
                    let fund = if bundle {
                        rent_for(&svm, REPORT_HEADER + 8 + 2 * 1232)
                    } else {
                        match t.below(3) {
                            0 => 0,
                            1 => need.saturating_sub(next.ledger.lamports(&rk)),
                            _ => need,
                        }
                    };
                    let conflict = s.views().is_some_and(|(a, b)| matches!(shred::verdict(&a, &b, slot), Verdict::Conflict(_)));
                    if next.ever.contains(&(v, slot)) {
                        n_reuse += 1;
                    }
                    reports += 1;
                    Op::Report { who: (v, slot), s: Box::new(s), conflict, fund, need, bundle }
                }
                1 => {
                    let (v, slot) = if !next.ever.is_empty() && t.chance(7, 8) {
                        let all: Vec<_> = next.ever.iter().copied().collect();
                        *t.pick(&all)
                    } else {
                        (t.usize(0, 1), svm.clock.slot)
                    };
                    let dest = match next.open.get(&(v, slot)) {
                        Some(o) if t.chance(4, 5) => o.destination,
                        _ => wallet(t.below(6)),
                    };
                    closes += 1;
                    Op::Close { who: (v, slot), account: pda(&keys[v].pubkey(), slot), dest }
                }
                _ => {
                    let all: Vec<_> = next.ever.iter().copied().collect();
                    let to = if !all.is_empty() && t.chance(3, 4) {
                        let (v, slot) = *t.pick(&all);
                        pda(&keys[v].pubkey(), slot)
                    } else {
                        wallet(t.below(6))
                    };
                    let from = wallet(t.below(6));
                    let amount = 900_000 + if t.chance(1, 6) { t.edgy(48) } else { t.below(2_000_000) };
                    // enough stays for the rest of the history
                    let rich = next.ledger.lamports(&from).saturating_sub(1 << 32);
                    let amount = if amount < 1 << 22 { amount } else { amount.min(rich).max(900_000) };
                    Op::Transfer { from, to, amount }
                }
            };
            if let Op::Close { who, dest, .. } = &op {
                if next.open.get(who).is_some_and(|o| o.destination == *dest) && next.ledger.get(dest).owner == SLASHING {
                    n_chain += 1;
                }
            }
            accept = accept && next.apply(&op, spe);
            tx.extend(op.instructions(tx.len(), &svm));
            texts.push(op.text());
        }
        let out = svm.execute(&tx);
        log.push(format!(
            "slot {} epoch {}: {} -> {}",
            svm.clock.slot,
            svm.clock.epoch,
            texts.join(" + "),
            if out.ok() { "accepted".into() } else { format!("{:?}", out.err().unwrap()) }
        ));
        if out.ok() != accept {
            c.notes = log;
            return Err(format!("the register {} this, the program said {:?}", if accept { "accepts" } else { "refuses" }, out.result));
        }
        if accept {
            reg = next;
            n_rep += reports;
            n_close += closes;
            n_multi += (n > 1) as u64;
        } else {
            n_rej += 1;
        }
        // the ledger is the register's
        let mut problems: Vec<String> = diff(&reg.ledger, &svm).into_iter().map(|d| d.1).collect();
        for ((v, slot), o) in &reg.open {
            if svm.get(&pda(&keys[*v].pubkey(), *slot)).data != o.data {
                problems.push(format!("report of validator {v} slot {slot}"));
            }
        }
        if svm.total_lamports() != reg.ledger.total_lamports() {
            problems.push(format!("total of all balances {} instead of {}", svm.total_lamports(), reg.ledger.total_lamports()));
        }
        if !problems.is_empty() {
            c.notes = log;
            return Err(format!("ledger and register (first value) differ: {}", problems.join("; ")));
        }
    }
    c.label(format!("{} reports", n_rep.min(6)));
    c.label(format!("{} closes", n_close.min(4)));
    if n_reuse > 0 {
        c.label("reported again");
    }
    if n_chain > 0 {
        c.label("closed into another report");
    }
    if n_multi > 0 {
        c.label("several operations in a transaction");
    }
    if n_rep > 0 && n_rej > 0 {
        c.nontrivial();
        let text = log.join("\n");
        c.feed(text.as_bytes());
    }
    if c.record {
        c.notes = log;
    }
    Ok(())
}
