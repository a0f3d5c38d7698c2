//! P15, P16, P17 and P19: what arrives on the wire and how it is refused.
use {
    crate::{evidence::builder_data, world::*},
    slashkit::{
        crypto::Key,
        engine::Case,
        shred::{self, *},
        svm::{ids, quietly, Account, Svm, TopIx, TxErr, TxOut},
        tape::{blob, blob32, Tape},
    },
    solana_program::{
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        pubkey::Pubkey,
    },
    solana_slashing_program::{
        duplicate_block_proof::DuplicateBlockProofData,
        error::SlashingError,
        instruction::{
            close_violation_report, duplicate_block_proof, duplicate_block_proof_with_sigverify_and_prefund,
            DuplicateBlockProofInstructionData,
        },
        state::{ProofType, SlashingProofData, ViolationReport},
    },
};

fn good(t: &mut Tape) -> (Key, Sub, Svm) {
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let svm = gen_env(t, slot);
    let pair = gen_conflict_pair(t, slot, version, &key);
    let mut s = Sub::new(&pair, &key, slot);
    vary(t, &mut s);
    (key, s, svm)
}

// ---------------------------------------------------------------- P15

fn no_crash(c: &mut Case, before: &Svm, after: &Svm, out: &TxOut) -> Result<(), String> {
    if let Some(m) = out.panicked() {
        return Err(format!("the program panicked: {}", m.chars().take(300).collect::<String>()));
    }
    match &out.result {
        Ok(()) => c.label("processed"),
        Err((_, TxErr::Program(e))) => {
            let l = format!("{e:?}");
            c.labels.push(l);
            let d = diff(before, after);
            if !d.is_empty() {
                return Err(format!("the rejected instruction changed {}", d[0].1));
            }
        }
        Err((_, TxErr::Runtime(m))) => c.label(format!("runtime: {m}")),
        Err((_, e)) => c.label(format!("{e:?}")),
    }
    // did the slashing program run at all?
    if out.calls.iter().any(|k| k.program == SLASHING) {
        c.nontrivial();
    }
    Ok(())
}

fn mangle(t: &mut Tape, d: &mut Vec<u8>) {
    for _ in 0..1 + t.below(3) {
        match t.below(7) {
            0 => d.truncate(t.usize(0, d.len())),
            1 => {
                let n = t.usize(0, 64);
                let x = t.bytes(n);
                d.extend(x);
            }
            2 if !d.is_empty() => {
                let i = t.usize(0, d.len() - 1);
                d[i] ^= 1 << t.below(8);
            }
            3 if !d.is_empty() => {
                let i = t.usize(0, d.len() - 1);
                d[i] = *t.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]);
            }
            4 if d.len() >= 8 => {
                let i = t.usize(0, d.len() - 8);
                let v = t.edgy(64);
                d[i..i + 8].copy_from_slice(&v.to_le_bytes());
            }
            5 if d.len() >= 2 => {
                let i = t.usize(0, d.len() - 2);
                let v = t.edgy(16) as u16;
                d[i..i + 2].copy_from_slice(&v.to_le_bytes());
            }
            _ if !d.is_empty() => {
                let i = t.usize(0, d.len() - 1);
                d.remove(i);
            }
            _ => (),
        }
    }
}

/// A shred with arbitrary contents in its header fields, validly signed.
fn odd_spec(t: &mut Tape, slot: u64, version: u16) -> Spec {
    let data = t.bool();
    let (chained, resigned) = gen_variant(t);
    let fec = t.edgy(32) as u32;
    let depth = t.range(0, 15) as u8;
    let room = 1u64 << depth;
    let mut s = Spec {
        data,
        chained,
        resigned,
        depth,
        slot,
        index: t.edgy(32) as u32,
        version,
        fec,
        parent_offset: t.edgy(16) as u16,
        flags: t.below(256) as u8,
        size: t.edgy(16) as u16,
        num_data: 0,
        num_code: t.edgy(16) as u16,
        position: 0,
        body: t.seed(),
        retransmitter: t.seed(),
    };
    let leaf = t.below(room);
    if data {
        s.index = fec.saturating_add(leaf as u32);
        if t.chance(1, 8) {
            s.index = t.edgy(32) as u32;
        }
    } else {
        s.num_data = t.range(0, leaf) as u16;
        s.position = leaf as u16 - s.num_data;
    }
    s
}

pub fn p15_data(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    let t = &mut c.t;
    let mut ix = s.ix();
    match t.below(5) {
        0 => {
            let n = t.usize(0, 400);
            ix.data = t.bytes(n);
            if t.bool() && n > 0 {
                ix.data[0] = 1;
            }
        }
        1 => {
            // exactly the right length
            ix.data = t.bytes(IX_LEN);
            ix.data[0] = 1;
        }
        2 => {
            let v = match t.below(4) {
                0 => u64::MAX - t.below(4000),
                1 => t.below(4000),
                _ => t.edgy(64),
            };
            ix.data[1..9].copy_from_slice(&v.to_le_bytes());
        }
        3 => {
            let v = t.edgy(64);
            ix.data[9..17].copy_from_slice(&v.to_le_bytes());
        }
        _ => mangle(t, &mut ix.data),
    }
    c.feed(&ix.data);
    c.note(|| format!("instruction data of {} bytes: {}", ix.data.len(), hex(&ix.data[..ix.data.len().min(40)])));
    s.stage(&mut svm);
    s.prefund(&mut svm);
    svm.lax_precompile = true;
    let before = svm.clone();
    let alone = c.t.chance(1, 5);
    let out = if alone { svm.execute(&[ix.into()]) } else { svm.execute(&[ed25519_for(1).into(), ix.into()]) };
    no_crash(c, &before, &svm, &out)
}

pub fn p15_accounts(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let t = &mut c.t;
    let close = t.chance(1, 3);
    let mut ix = if close { close_ix(s.report_key(), s.destination) } else { s.ix() };
    if close && t.bool() {
        let o = svm.execute(&s.tx());
        if o.ok() {
            svm.clock.epoch = svm.clock.epoch.saturating_add(t.below(6));
        }
    }
    let pool = [
        s.proof_key, s.report_key(), s.destination, s.reporter, s.node, ids::SYSTEM, ids::INSTRUCTIONS, SLASHING,
        ids::ED25519, solana_program::sysvar::clock::ID, solana_program::sysvar::rent::ID, wallet(1), Pubkey::default(),
    ];
    match t.below(5) {
        0 => ix.accounts.truncate(t.usize(0, ix.accounts.len())),
        1 => {
            for _ in 0..2 {
                let i = t.usize(0, ix.accounts.len() - 1);
                let j = t.usize(0, ix.accounts.len() - 1);
                ix.accounts.swap(i, j);
            }
        }
        2 => {
            let i = t.usize(0, ix.accounts.len() - 1);
            let j = t.usize(0, ix.accounts.len() - 1);
            ix.accounts[i] = ix.accounts[j].clone();
        }
        3 => {
            let n = t.usize(0, 7);
            ix.accounts = (0..n).map(|_| AccountMeta { pubkey: *t.pick(&pool), is_signer: false, is_writable: t.bool() }).collect();
        }
        _ => {
            let i = t.usize(0, ix.accounts.len() - 1);
            ix.accounts[i].pubkey = *t.pick(&pool);
            ix.accounts[i].is_writable = t.bool();
        }
    }
    for a in &ix.accounts {
        c.feed(a.pubkey.as_ref());
    }
    c.feed(&s.root1);
    c.note(|| format!("close={close} accounts={:?}", ix.accounts.iter().map(|a| a.pubkey).collect::<Vec<_>>()));
    let before = svm.clone();
    let out = if close { svm.execute(&[ix.into()]) } else { svm.execute(&[ed25519_for(1).into(), ix.into()]) };
    no_crash(c, &before, &svm, &out)
}

pub fn p15_proof(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let mut svm = gen_env(t, slot);
    let deep = t.bool();
    let pair = if deep {
        let mut a = odd_spec(t, slot, version);
        let mut b = odd_spec(t, slot, version);
        if t.bool() {
            b.data = a.data;
            (b.depth, b.num_data, b.position, b.index) = (a.depth, a.num_data, a.position, a.index);
            b.fec = a.fec;
            if t.bool() && !b.data {
                b.index = t.edgy(32) as u32;
                a.num_code = t.edgy(16) as u16;
            }
        } else if t.bool() {
            b.fec = a.fec.wrapping_add(t.below(5) as u32).wrapping_sub(2);
        }
        for s in [&mut a, &mut b] {
            if s.data && s.leaf_index().is_none_or(|i| i >= 1 << s.depth) {
                s.index = s.fec;
            }
        }
        let seed = t.seed();
        let seed2 = if t.bool() { seed } else { seed + 1 };
        let (x, y) = if seed == seed2 && a.depth == b.depth && a.leaf_index() != b.leaf_index() {
            let mut v = build_tree(&[a, b], seed, &key);
            let y = v.pop().unwrap();
            (v.pop().unwrap(), y)
        } else {
            (build_one(&a, seed, &key), build_one(&b, seed2, &key))
        };
        Pair { a: x, b: y, class: "odd headers" }
    } else {
        gen_conflict_pair(t, slot, version, &key)
    };
    let mut s = Sub::new(&pair, &key, slot);
    vary(t, &mut s);
    if !deep {
        match t.below(6) {
            0 => {
                let n = t.usize(0, s.p1.len());
                s.p1.truncate(n);
            }
            1 => {
                let n = t.usize(0, s.p2.len());
                s.p2.truncate(n);
            }
            2 => {
                let n = t.usize(0, 400);
                s.p1 = t.bytes(n);
                if n > 64 {
                    s.p1[64] = t.below(256) as u8;
                }
            }
            3 => {
                // header bytes
                let p = if t.bool() { &mut s.p1 } else { &mut s.p2 };
                let i = t.usize(64, 89);
                p[i] = *t.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x4f, 0x8f, 0xbf, 0x7f]);
            }
            4 => mangle(t, &mut s.p1),
            _ => mangle(t, &mut s.p2),
        }
    }
    s.stage(&mut svm);
    s.prefund(&mut svm);
    if !deep {
        // and the buffer that holds them
        let a = svm.accounts.get_mut(&s.proof_key).unwrap();
        let at = s.prefix.len();
        match t.below(6) {
            0 => {
                let v = match t.below(3) {
                    0 => a.data.len() as u64 - t.below(16).min(a.data.len() as u64),
                    _ => t.edgy(32),
                } as u32;
                a.data[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            1 => {
                let v = t.edgy(32) as u32;
                let at = at + 4 + s.p1.len();
                a.data[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            2 => {
                let n = t.usize(0, a.data.len());
                a.data.truncate(n);
            }
            3 => {
                let n = t.usize(0, 3000);
                a.data = t.bytes(n);
            }
            _ => (),
        }
    }
    c.label(if deep { "odd headers" } else { "mangled" });
    c.feed(&s.p1);
    c.feed(&s.p2);
    c.feed(&svm.get(&s.proof_key).data);
    describe(c, &s, &svm);
    let before = svm.clone();
    let out = svm.execute(&s.tx());
    no_crash(c, &before, &svm, &out)
}

pub fn p15_sigverify(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    svm.lax_precompile = true;
    let t = &mut c.t;
    let mut e = ed25519_for(1);
    match t.below(5) {
        0 => e.data.truncate(t.usize(0, 30)),
        1 => {
            let i = t.usize(0, 14);
            let v = match t.below(3) {
                0 => (IX_LEN as u64 + t.below(4)).wrapping_sub(t.below(80)),
                _ => t.edgy(16),
            } as u16;
            e.data[2 * i..2 * i + 2].copy_from_slice(&v.to_le_bytes());
        }
        2 => {
            let n = t.usize(0, 200);
            e.data = t.bytes(n);
        }
        3 => {
            for i in 0..14 {
                if t.chance(1, 3) {
                    let v = if i % 2 == 0 { t.edgy(16) as u16 } else { t.below(3) as u16 };
                    e.data[2 + 2 * i..4 + 2 * i].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        _ => mangle(t, &mut e.data),
    }
    c.feed(&e.data);
    c.feed(&s.root1);
    c.note(|| format!("ed25519 data {}", hex(&e.data)));
    let before = svm.clone();
    let out = svm.execute(&[e.into(), s.ix().into()]);
    no_crash(c, &before, &svm, &out)
}

pub fn p15_close(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let mut svm = new_svm();
    let k = wallet(9);
    let d = wallet(10);
    let n = match t.below(4) {
        0 => t.usize(0, 3),
        1 => t.usize(REPORT_HEADER - 3, REPORT_HEADER + 3),
        2 => t.usize(0, 300),
        _ => t.usize(0, 2600),
    };
    let mut data = t.bytes(n);
    if n >= 65 && t.bool() {
        data[33..65].copy_from_slice(d.as_ref());
    }
    if n >= 73 && t.bool() {
        data[65..73].copy_from_slice(&t.edgy(64).to_le_bytes());
    }
    if n > 0 && t.bool() {
        data[0] = t.below(4) as u8;
    }
    let owner = if t.chance(3, 4) { SLASHING } else { ids::SYSTEM };
    c.feed(&data);
    let t = &mut c.t;
    svm.accounts.insert(k, Account { lamports: t.edgy(60), data, owner, executable: false });
    svm.accounts.insert(d, Account { lamports: t.edgy(60), data: vec![], owner: ids::SYSTEM, executable: false });
    svm.clock.epoch = t.edgy(64);
    svm.lax_rent = true;
    let who = if t.chance(1, 8) { k } else { d };
    let mut ix = close_ix(k, who);
    let extra = t.usize(0, 3);
    ix.data.extend(t.bytes(extra));
    if t.chance(1, 6) {
        ix.accounts.truncate(t.usize(0, 1));
    }
    c.note(|| format!("closing {n} bytes owned by {owner}"));
    let before = svm.clone();
    let out = svm.execute(&[ix.into()]);
    no_crash(c, &before, &svm, &out)
}

pub fn p15_world(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    let t = &mut c.t;
    svm.epoch_schedule.slots_per_epoch = t.edgy(64);
    svm.epoch_schedule.leader_schedule_slot_offset = t.edgy(64);
    svm.epoch_schedule.warmup = t.bool();
    svm.epoch_schedule.first_normal_epoch = t.edgy(64);
    svm.epoch_schedule.first_normal_slot = t.edgy(64);
    if t.bool() {
        svm.clock.slot = t.edgy(64);
    }
    svm.clock.epoch = t.edgy(64);
    svm.clock.unix_timestamp = t.edgy(64) as i64;
    svm.lax_rent = true;
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let k = s.report_key();
    match t.below(5) {
        0 => svm.accounts.get_mut(&k).unwrap().lamports = t.edgy(64),
        1 => {
            // somebody else's data lies there already
            let n = t.usize(0, 3000);
            let a = svm.accounts.get_mut(&k).unwrap();
            a.data = t.bytes(n);
            a.owner = *t.pick(&[SLASHING, ids::SYSTEM, wallet(4)]);
            a.lamports = 1 << 50;
        }
        _ => (),
    }
    if t.chance(1, 4) {
        // not the bank's accounts, although they look like it
        let a = svm.accounts.get_mut(&s.proof_key).unwrap();
        a.lamports = t.edgy(64);
        a.owner = SLASHING;
    }
    feed_world(c, &svm, &s);
    describe(c, &s, &svm);
    let before = svm.clone();
    let out = svm.execute(&s.tx());
    no_crash(c, &before, &svm, &out)?;
    // whatever is there now: try to close it
    let t = &mut c.t;
    svm.clock.epoch = t.edgy(64);
    if svm.accounts.contains_key(&s.destination) || t.bool() {
        svm.accounts.insert(
            s.destination,
            Account { lamports: t.edgy(64), data: vec![], owner: ids::SYSTEM, executable: false },
        );
    }
    let before = svm.clone();
    let out = svm.execute(&[close_ix(k, s.destination).into()]);
    no_crash(c, &before, &svm, &out)
}

fn feed_world(c: &mut Case, svm: &Svm, s: &Sub) {
    c.feed(&s.root1);
    c.feed(&svm.clock.slot.to_le_bytes());
    c.feed(&svm.clock.epoch.to_le_bytes());
    c.feed(&svm.epoch_schedule.slots_per_epoch.to_le_bytes());
}

/// Own reading of a packed proof.
fn unpack_own(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let a = u32::from_le_bytes(d.get(..4)?.try_into().ok()?) as usize;
    let x = d.get(4..4usize.checked_add(a)?)?;
    let r = &d[4 + a..];
    let b = u32::from_le_bytes(r.get(..4)?.try_into().ok()?) as usize;
    let y = r.get(4..4usize.checked_add(b)?)?;
    Some((x.to_vec(), y.to_vec()))
}

pub fn p15_unpack(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let n = match t.below(3) {
        0 => t.usize(0, 12),
        1 => t.usize(0, 100),
        _ => t.usize(0, 2600),
    };
    let mut d = t.bytes(n);
    if t.bool() && n >= 4 {
        let v = if t.bool() { t.below(n as u64 + 4) } else { t.edgy(32) } as u32;
        d[..4].copy_from_slice(&v.to_le_bytes());
        let at = 4 + v as usize;
        if t.bool() && at + 4 <= n {
            let w = if t.bool() { t.below((n - at) as u64 + 4) } else { t.edgy(32) } as u32;
            d[at..at + 4].copy_from_slice(&w.to_le_bytes());
        }
    }
    c.feed(&d);
    c.nontrivial();
    let want = unpack_own(&d);
    c.label(if want.is_some() { "complete" } else { "cut" });
    let got = quietly(|| DuplicateBlockProofData::unpack_proof(&d).map(|p| (p.shred1.to_vec(), p.shred2.to_vec())))
        .map_err(|m| format!("unpack_proof panicked on {n} bytes: {m}"))?;
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Err(_), None) => Ok(()),
        (g, w) => Err(format!("unpack_proof of {n} bytes: {g:?}, expected {}", if w.is_some() { "two shreds" } else { "a refusal" })),
    }
}

// ---------------------------------------------------------------- P16

fn fields(t: &mut Tape) -> (DuplicateBlockProofInstructionData, Sub) {
    let key = Key::new(1);
    let b = |t: &mut Tape| blob32(t.seed());
    let sig = |t: &mut Tape| -> [u8; 64] { blob(t.seed(), 64).try_into().unwrap() };
    let s = Sub {
        node: if t.bool() { key.pubkey() } else { Pubkey::new_from_array(b(t)) },
        slot: t.edgy(64),
        offset: t.edgy(64),
        reporter: Pubkey::new_from_array(b(t)),
        destination: Pubkey::new_from_array(b(t)),
        root1: b(t),
        sig1: sig(t),
        root2: b(t),
        sig2: sig(t),
        proof_key: Pubkey::new_from_array(b(t)),
        prefix: vec![],
        p1: vec![],
        p2: vec![],
        suffix: vec![],
        proof_owner: ids::SYSTEM,
    };
    (builder_data(&s), s)
}

fn same_ix(got: &Instruction, want: &Instruction, what: &str) -> Result<(), String> {
    if got.program_id != want.program_id {
        return Err(format!("{what}: program {}", got.program_id));
    }
    if got.accounts != want.accounts {
        return Err(format!("{what}: accounts {:?}, documented {:?}", got.accounts, want.accounts));
    }
    if got.data != want.data {
        let at = got.data.iter().zip(&want.data).position(|(a, b)| a != b);
        return Err(format!(
            "{what}: {} bytes, documented {}; first difference at {at:?}",
            got.data.len(),
            want.data.len()
        ));
    }
    Ok(())
}

/// The bytes an ed25519 instruction at position 1 verifies.
fn resolve(ixs: &[Instruction]) -> Option<Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>> {
    let d = &ixs[1].data;
    let n = *d.first()? as usize;
    if d.len() != 2 + 14 * n {
        return None;
    }
    let mut v = vec![];
    for e in d[2..].chunks_exact(14) {
        let f: Vec<usize> = e.chunks_exact(2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize).collect();
        let part = |ix: usize, at: usize, n: usize| ixs.get(ix).and_then(|i| i.data.get(at..at + n)).map(|x| x.to_vec());
        // the published bundle keeps everything in the slashing instruction
        if f[1] != 2 || f[3] != 2 || f[6] != 2 {
            return None;
        }
        v.push((part(f[3], f[2], 32)?, part(f[6], f[4], f[5])?, part(f[1], f[0], 64)?));
    }
    Some(v)
}

pub fn p16_layout(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let (d, s) = fields(t);
    let mut svm = new_svm();
    svm.rent.lamports_per_byte_year = match t.below(3) {
        0 => 3480,
        1 => t.below(100_000),
        _ => t.edgy(30),
    };
    svm.rent.exemption_threshold = *t.pick(&[2.0, 1.0, 0.5, 3.25]);
    let funder = t.bool().then(|| Pubkey::new_from_array(blob32(t.seed())));
    c.feed(&s.root1);
    c.feed(&s.slot.to_le_bytes());
    c.feed(&s.offset.to_le_bytes());
    c.nontrivial();
    c.label(if funder.is_some() { "funder given" } else { "reporter funds" });
    c.note(|| format!("offset={} slot={} node={} funder={funder:?}", s.offset, s.slot, s.node));
    let ix = duplicate_block_proof(&s.proof_key, &d);
    same_ix(&ix, &s.ix(), "duplicate_block_proof")?;
    let b = duplicate_block_proof_with_sigverify_and_prefund(&s.proof_key, &d, funder.as_ref(), &svm.rent);
    same_ix(&b[2], &s.ix(), "the third instruction of the bundle")?;
    let full = REPORT_HEADER + 8 + 2 * 1232;
    let rent = (((128 + full as u64) * svm.rent.lamports_per_byte_year) as f64 * svm.rent.exemption_threshold) as u64;
    same_ix(
        &b[0],
        &transfer_ix(funder.unwrap_or(s.reporter), s.report_key(), rent),
        "the first instruction of the bundle",
    )?;
    if b[1].program_id != ids::ED25519 || !b[1].accounts.is_empty() {
        return Err("the second instruction of the bundle is not an ed25519 verification".into());
    }
    match resolve(&b) {
        None => return Err("the bundle's verification does not point into its slashing instruction".into()),
        Some(v) => {
            let want = [
                (s.node.to_bytes().to_vec(), s.root1.to_vec(), s.sig1.to_vec()),
                (s.node.to_bytes().to_vec(), s.root2.to_vec(), s.sig2.to_vec()),
            ];
            if v != want {
                return Err(format!("the bundle verifies {} triples, not the node's two roots and signatures", v.len()));
            }
        }
    }
    let (r, dst) = (Pubkey::new_from_array(s.root1), Pubkey::new_from_array(s.root2));
    same_ix(&close_violation_report(&r, &dst), &close_ix(r, dst), "close_violation_report")
}

/// What the program does follows the bytes of the instruction, field by field.
pub fn p16_acts(c: &mut Case) -> Result<(), String> {
    let (_, mut s, mut svm) = good(&mut c.t);
    let t = &mut c.t;
    // the proof also lies at a second offset
    let first = s.prefix.len();
    let one = pack(&s.p1, &s.p2);
    let gap = t.usize(0, 9);
    let second = first + one.len() + gap;
    s.suffix = [t.bytes(gap), one.clone(), t.bytes(5)].concat();
    let b = duplicate_block_proof_with_sigverify_and_prefund(&s.proof_key, &builder_data(&s), Some(&wallet(0)), &svm.rent);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let mut tampered = s.clone();
    let mut data = b[2].data.clone();
    let (what, fine) = match t.below(8) {
        0 => ("nothing", true),
        1 => {
            tampered.offset = second as u64;
            ("offset of the copy", true)
        }
        2 => {
            tampered.reporter = Pubkey::new_from_array(blob32(t.seed()));
            ("reporter", true)
        }
        3 => {
            tampered.destination = Pubkey::new_from_array(blob32(t.seed()));
            ("destination", true)
        }
        4 => {
            tampered.slot ^= 1 << t.below(64);
            ("slot", false)
        }
        5 => {
            let i = t.usize(17, 48);
            data[i] ^= 1 << t.below(8);
            ("node", false)
        }
        6 => {
            let i = t.usize(IX_LEN - 192, IX_LEN - 1);
            data[i] ^= 1 << t.below(8);
            ("root or signature", false)
        }
        _ => {
            let o = match t.below(3) {
                0 => t.below(s.proof_data().len() as u64 + 3),
                1 => t.edgy(64),
                _ => (first as u64) ^ (1 << t.below(63)),
            };
            tampered.offset = o;
            // another place of the buffer may happen to hold a proof, too
            let there = usize::try_from(o).ok().and_then(|o| s.proof_data().get(o..).and_then(unpack_own));
            let fine = match there {
                Some((x, y)) => {
                    (tampered.p1, tampered.p2) = (x, y);
                    tampered.views().is_some_and(|(a, b)| {
                        (a.root, a.sig, b.root, b.sig) == (s.root1, s.sig1, s.root2, s.sig2)
                            && matches!(shred::verdict(&a, &b, s.slot), Verdict::Conflict(_))
                    })
                }
                None => false,
            };
            ("offset", fine)
        }
    };
    if matches!(what, "slot" | "reporter" | "destination" | "offset" | "offset of the copy") {
        data = tampered.data();
    }
    c.label(what);
    c.nontrivial();
    c.feed(&data);
    c.note(|| format!("{what} changed; offset {} slot {}", tampered.offset, tampered.slot));
    let t = &mut c.t;
    let mut ix = b[2].clone();
    ix.data = data;
    // with or without the check of the signatures by the ed25519 program, the
    // fields must matter
    svm.lax_precompile = what == "node" || (what == "root or signature" && t.bool());
    let lead = t.bool();
    let tx: Vec<TopIx> = if lead {
        vec![b[0].clone().into(), b[1].clone().into(), ix.into()]
    } else {
        vec![ed25519_for(1).into(), ix.into()]
    };
    let before = svm.clone();
    let out = svm.execute(&tx);
    let k = s.report_key();
    if out.ok() != fine {
        return Err(format!("after changing {what} the outcome is {:?}", out.result));
    }
    if fine {
        let r = svm.get(&k);
        if r.data != tampered.expected_report(svm.clock.epoch) {
            return Err(format!("after changing {what} the report does not hold the instruction's fields"));
        }
    } else if let Some(d) = diff(&before, &svm).first() {
        return Err(format!("after changing {what} the rejected request changed {}", d.1));
    }
    Ok(())
}

/// Every length up to 700 of report data, and every type byte.
pub fn p16_lengths(c: &mut Case) -> Result<(), String> {
    let n = c.t.below(LENGTHS);
    let key = Key::new(3);
    let mut svm = new_svm();
    set_schedule(&mut svm, 432_000);
    svm.clock.slot = 1000;
    let set_slot = 900;
    let mut t = Tape::random(n / 7 + 1);
    let pair = gen_conflict_pair(&mut t, set_slot, 7, &key);
    let s = Sub::new(&pair, &key, set_slot);
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let mut d = s.data();
    c.nontrivial();
    let want: Option<TxErr> = if n < 701 {
        let len = n as usize;
        d.resize(len, 0);
        c.note(|| format!("report data of {len} bytes"));
        c.label(format!("length {}", if len == IX_LEN { "right" } else { "wrong" }));
        (len != IX_LEN).then_some(TxErr::Program(ProgramError::InvalidInstructionData))
    } else {
        let k = (n - 701) % 256;
        let len = [IX_LEN, 1, 2, 33][((n - 701) / 256) as usize];
        d.resize(len, 0);
        d[0] = k as u8;
        c.note(|| format!("type byte {k}, {len} bytes"));
        c.label(if k < 2 { "known type" } else { "unknown type" });
        match k {
            0 => Some(TxErr::Program(ProgramError::Custom(code::INVALID_REPORT_ACCOUNT))),
            1 if len == IX_LEN => None,
            1 => Some(TxErr::Program(ProgramError::InvalidInstructionData)),
            _ => Some(TxErr::Program(ProgramError::Custom(code::INVALID_INSTRUCTION))),
        }
    };
    c.feed(&d);
    c.feed(&n.to_le_bytes());
    let mut ix = s.ix();
    let len = d.len();
    ix.data = d;
    svm.lax_precompile = true;
    let before = svm.clone();
    let out = svm.execute(&[ed25519_for(1).into(), ix.into()]);
    if out.err() != want.as_ref() {
        return Err(format!("instruction of {len} bytes ended with {:?}, expected {want:?}", out.result));
    }
    if want.is_some() {
        if let Some(x) = diff(&before, &svm).first() {
            return Err(format!("the rejected instruction changed {}", x.1));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P17

pub fn p17_roundtrip(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let len = |t: &mut Tape| match t.below(5) {
        0 => t.usize(0, 4),
        1 => 1203,
        2 => 1228,
        3 => t.usize(0, 300),
        _ => t.usize(0, 70_000),
    };
    let (n1, n2) = (len(t), len(t));
    let (a, b) = (t.bytes(n1), t.bytes(n2));
    let proof = DuplicateBlockProofData { shred1: &a, shred2: &b };
    let want = pack(&a, &b);
    c.nontrivial();
    c.feed(&want);
    c.note(|| format!("shreds of {n1} and {n2} bytes"));
    if proof.packed_len() != want.len() {
        return Err(format!("packed_len {} of shreds of {n1} and {n2} bytes", proof.packed_len()));
    }
    if ViolationReport::packed_len(&proof) != REPORT_HEADER + want.len() {
        return Err(format!("report length {} of shreds of {n1} and {n2} bytes", ViolationReport::packed_len(&proof)));
    }
    let got = proof.pack_proof();
    if got != want {
        return Err(format!("packing of shreds of {n1} and {n2} bytes has {} bytes, documented {}", got.len(), want.len()));
    }
    if n1 <= 1232 && n2 <= 1232 && got.len() > ProofType::DuplicateBlockProof.proof_account_length() {
        return Err("a proof of two shreds does not fit in a proof account".into());
    }
    let t = &mut c.t;
    let tail = match t.below(3) {
        0 => 0,
        1 => t.usize(1, 12),
        _ => t.usize(1, 3000),
    };
    let shift = t.usize(0, 9);
    let mut buf = t.bytes(shift);
    buf.extend_from_slice(&want);
    let x = t.bytes(tail);
    buf.extend(x);
    match DuplicateBlockProofData::unpack_proof(&buf[shift..]) {
        Ok(p) if p.shred1 == a && p.shred2 == b => (),
        Ok(p) => return Err(format!("unpacked shreds of {} and {} bytes instead of {n1} and {n2}", p.shred1.len(), p.shred2.len())),
        Err(e) => return Err(format!("a packed proof followed by {tail} bytes was refused: {e:?}")),
    }
    // cut it anywhere
    let every = want.len() <= 400;
    let k = if every { want.len() } else { 40 };
    for i in 0..k {
        let cut = if every {
            i
        } else {
            match i % 4 {
                0 => (4 + n1 + i / 4).min(want.len() - 1),
                1 => want.len() - 1 - (i / 4).min(want.len() - 1),
                2 => (4 + n1).saturating_sub(i / 4),
                _ => c.t.usize(0, want.len() - 1),
            }
        };
        let r = quietly(|| DuplicateBlockProofData::unpack_proof(&want[..cut]).map(|_| ()))
            .map_err(|m| format!("cut after {cut} of {} bytes: {m}", want.len()))?;
        if r != Err(SlashingError::ProofBufferTooSmall) {
            return Err(format!("a proof of {} bytes cut after {cut} gave {r:?}", want.len()));
        }
    }
    Ok(())
}

pub fn p17_position(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let svm = gen_env(t, slot);
    let p = match t.below(3) {
        0 => gen_near_pair(t, slot, version, &key),
        1 => gen_honest_pair(t, slot, version, &key),
        _ => gen_conflict_pair(t, slot, version, &key),
    };
    let mut base = Sub::new(&p, &key, slot);
    if t.chance(1, 10) {
        mangle(t, &mut base.p1);
    }
    let run = |s: &Sub| {
        let mut w = svm.clone();
        s.stage(&mut w);
        s.prefund(&mut w);
        let out = w.execute(&s.tx());
        let r = w.get(&s.report_key());
        (out, r)
    };
    let (o1, r1) = run(&base);
    let mut moved = base.clone();
    // whatever else the proof account may be
    moved.proof_key = match t.below(12) {
        0 => moved.reporter,
        1 => moved.destination,
        2 => moved.node,
        _ => Pubkey::new_from_array(blob32(t.seed())),
    };
    moved.proof_owner = *t.pick(&[ids::SYSTEM, SLASHING, wallet(4), ids::NOOP]);
    let n = match t.below(4) {
        0 => 0,
        1 => t.usize(1, 16),
        2 => t.usize(1, 4000),
        _ => t.usize(60_000, 70_000),
    };
    moved.prefix = t.bytes(n);
    moved.offset = n as u64;
    let n = match t.below(3) {
        0 => 0,
        1 => t.usize(1, 16),
        _ => t.usize(1, 4000),
    };
    moved.suffix = t.bytes(n);
    if t.chance(1, 4) {
        // what surrounds the proof looks like proofs
        moved.prefix = pack(&base.p2, &base.p1);
        moved.offset = moved.prefix.len() as u64;
        moved.suffix = moved.prefix.clone();
    }
    c.label(if o1.ok() { "accepted" } else { "rejected" });
    c.nontrivial();
    c.feed(&base.root1);
    c.feed(&moved.offset.to_le_bytes());
    c.feed(moved.proof_key.as_ref());
    describe(c, &moved, &svm);
    let (o2, r2) = run(&moved);
    if o1.result != o2.result {
        return Err(format!(
            "{:?} at the start of its account, {:?} at offset {} with {} bytes behind",
            o1.result, o2.result, moved.offset, moved.suffix.len()
        ));
    }
    if r1 != r2 {
        return Err("the report depends on where the proof was".into());
    }
    Ok(())
}

pub fn p17_cut(c: &mut Case) -> Result<(), String> {
    let (_, s, mut svm) = good(&mut c.t);
    let t = &mut c.t;
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let whole = s.prefix.len() + s.packed_len();
    let mut sub = s.clone();
    let what;
    match t.below(4) {
        0 => {
            // an offset at or past the end of the account
            let len = svm.get(&s.proof_key).data.len() as u64;
            sub.offset = match t.below(4) {
                0 => len,
                1 => len.saturating_add(1 + t.below(100)),
                // the right offset, and one higher bit
                2 => s.offset | 1 << t.range(17, 63),
                _ => t.range(len, u64::MAX),
            };
            what = format!("offset {} in an account of {len} bytes", sub.offset);
            c.label("offset past the end");
        }
        k => {
            let cut = match k {
                1 => s.prefix.len() + t.usize(0, 8),
                2 => s.prefix.len() + 4 + s.p1.len() + t.usize(0, 4),
                _ => t.usize(0, whole - 1),
            }
            .min(whole - 1);
            svm.accounts.get_mut(&s.proof_key).unwrap().data.truncate(cut);
            what = format!("account cut after {cut} of {whole} bytes");
            c.label("cut");
        }
    }
    c.nontrivial();
    c.feed(&s.root1);
    c.feed(what.as_bytes());
    c.note(|| what.clone());
    let before = svm.clone();
    let out = svm.execute(&sub.tx());
    if custom(&out) != Some(code::PROOF_TOO_SMALL) {
        return Err(format!("{what}: {:?}", out.result));
    }
    match diff(&before, &svm).first() {
        Some(d) => Err(format!("{what}: rejected, yet changed {}", d.1)),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- P19

/// The published numbers of the errors.
fn numbers() -> Vec<(SlashingError, u32)> {
    use SlashingError::*;
    vec![
        (CloseViolationReportTooSoon, 0),
        (DestinationAddressIsReportAccount, 1),
        (DuplicateReport, 2),
        (ExceedsStatuteOfLimitations, 3),
        (InvalidDestinationAccount, 4),
        (InvalidShredVariant, 5),
        (InvalidMerkleShred, 6),
        (InvalidPayloadProof, 7),
        (InvalidErasureMetaConflict, 8),
        (InvalidInstruction, 9),
        (InvalidLastIndexConflict, 10),
        (InvalidViolationReportAcccount, 11),
        (InvalidShredVersion, 12),
        (InvalidSignatureVerification, 13),
        (LegacyShreds, 14),
        (MissingInstructionsSysvar, 15),
        (MissingSignatureVerification, 16),
        (MissingSystemProgramAccount, 17),
        (ProofBufferDeserializationError, 18),
        (ProofBufferTooSmall, 19),
        (ReportAccountNotPrefunded, 20),
        (ShredDeserializationError, 21),
        (ShredTypeMismatch, 22),
        (SignatureVerificationMismatch, 23),
        (SlotMismatch, 24),
    ]
}

enum Want {
    Codes(&'static [u32]),
    Builtin(ProgramError),
    Any,
}

fn expect(out: &TxOut, want: &Want, what: &str) -> Result<(), String> {
    let ok = match (out.err(), want) {
        (Some(_), Want::Any) => true,
        (Some(TxErr::Program(ProgramError::Custom(k))), Want::Codes(l)) => l.contains(k),
        (Some(TxErr::Program(e)), Want::Builtin(b)) => e == b,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let w = match want {
        Want::Codes(l) => format!("error {l:?}"),
        Want::Builtin(b) => format!("{b:?}"),
        Want::Any => "a rejection".into(),
    };
    Err(format!("{what}: expected {w}, got {:?}", out.result))
}

/// The documented error for the first rule that could have applied.
fn no_conflict_code(a: &View, b: &View) -> u32 {
    let (x, y) = (&a.spec, &b.spec);
    if x.data != y.data {
        code::SHRED_TYPE
    } else if x.index == y.index {
        code::INVALID_PAYLOAD_PROOF
    } else if x.data {
        code::INVALID_LAST_INDEX
    } else {
        code::INVALID_ERASURE
    }
}

pub fn p19_rules(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let mut svm = gen_env(t, slot);
    let p = match t.below(3) {
        0 => gen_honest_pair(t, slot, version, &key),
        1 => gen_dense_pair(t, slot, version, &key),
        _ => gen_near_pair(t, slot, version, &key),
    };
    let mut s = Sub::new(&p, &key, slot);
    vary(t, &mut s);
    let Some((a, b)) = s.views() else {
        return Err("HARNESS: generated shreds are unreadable".into());
    };
    let want = match shred::verdict(&a, &b, slot) {
        Verdict::NoConflict => no_conflict_code(&a, &b),
        // exactly one of the two requirements
        Verdict::SlotMismatch if a.spec.version == b.spec.version => code::SLOT_MISMATCH,
        Verdict::VersionMismatch => {
            let mut fixed = b.clone();
            fixed.spec.version = a.spec.version;
            match shred::verdict(&a, &fixed, slot) {
                Verdict::Conflict(_) => code::SHRED_VERSION,
                _ => return Ok(()),
            }
        }
        _ => {
            c.label("conflict");
            return Ok(());
        }
    };
    c.label(format!("code {want}"));
    c.nontrivial();
    c.feed(&s.root1);
    c.feed(&s.root2);
    describe(c, &s, &svm);
    let out = s.go(&mut svm);
    if custom(&out) != Some(want) {
        return Err(format!("{:?}, documented error {want}", out.result));
    }
    Ok(())
}

const FAULTS: u64 = 35;

pub fn p19_faults(c: &mut Case) -> Result<(), String> {
    let (key, mut s, mut svm) = good(&mut c.t);
    if c.t.bool() {
        s = s.swapped();
    }
    let fault = c.t.below(FAULTS);
    let t = &mut c.t;
    let codes = |l: &'static [u32]| Want::Codes(l);
    let spe = svm.epoch_schedule.slots_per_epoch;
    let mut tx: Option<Vec<TopIx>> = None;
    let mut prefund = true;
    let mut staged = false;
    // which shred to damage
    let second = t.bool();
    let (what, want): (&str, Want) = match fault {
        0 => {
            if s.slot > u64::MAX - spe - 1000 {
                return Ok(());
            }
            svm.clock.slot = s.slot + spe + 1 + t.below(3) * t.below(300);
            ("too old", codes(&[code::STATUTE]))
        }
        1 => {
            if s.slot == 0 {
                return Ok(());
            }
            svm.clock.slot = s.slot - 1;
            ("in the future", Want::Any)
        }
        2 => {
            // the request names another slot than the shreds
            let o = if s.slot == 0 { 1 } else { s.slot - 1 };
            s.slot = o;
            svm.clock.slot = svm.clock.slot.clamp(o, o.saturating_add(spe));
            ("other slot", codes(&[code::SLOT_MISMATCH]))
        }
        3 => {
            tx = Some(vec![s.ix().into()]);
            ("no verification", codes(&[code::MISSING_SIGVERIFY]))
        }
        4 => {
            let noop = Instruction { program_id: ids::NOOP, accounts: vec![], data: t.bytes(30) };
            tx = Some(vec![ed25519_for(2).into(), noop.into(), s.ix().into()]);
            ("verification not directly before", codes(&[code::MISSING_SIGVERIFY]))
        }
        5 => {
            let mut e = ed25519_for(1);
            e.data[0] = 1;
            tx = Some(vec![e.into(), s.ix().into()]);
            ("one signature declared", codes(&[code::MISSING_SIGVERIFY, code::INVALID_SIGVERIFY]))
        }
        6 => {
            // the same bytes in another instruction
            let noop = Instruction { program_id: ids::NOOP, accounts: vec![], data: s.data() };
            let mut e = ed25519_for(2);
            let at = *t.pick(&[1usize, 3, 6, 8, 10, 13]);
            e.data[2 + 2 * at..4 + 2 * at].copy_from_slice(&0u16.to_le_bytes());
            tx = Some(vec![noop.into(), e.into(), s.ix().into()]);
            ("verified data elsewhere", codes(&[code::INVALID_SIGVERIFY]))
        }
        7 => {
            // two keys: the second shred is somebody else's
            let other = Key::new(500 + t.below(9));
            let Ok(v) = shred::read(&s.p2) else { return Ok(()) };
            s.sig2 = other.sign(&v.root);
            s.p2[..64].copy_from_slice(&s.sig2);
            s.reporter = other.pubkey();
            let mut e = ed25519_for(1);
            e.data[2 + 14 + 4..2 + 14 + 6].copy_from_slice(&49u16.to_le_bytes());
            tx = Some(vec![e.into(), s.ix().into()]);
            ("two keys", codes(&[code::INVALID_SIGVERIFY]))
        }
        8 => {
            // everything verified belongs to another key than the node named
            let v = s.node;
            s.reporter = v;
            s.node = Key::new(510 + t.below(9)).pubkey();
            let mut e = ed25519_for(1);
            for i in [0, 14] {
                e.data[2 + i + 4..2 + i + 6].copy_from_slice(&49u16.to_le_bytes());
            }
            tx = Some(vec![e.into(), s.ix().into()]);
            ("verified for another key", codes(&[code::SIG_MISMATCH]))
        }
        9 => {
            // verified roots are not those of the shreds
            let r = blob32(t.seed());
            if second {
                s.root2 = r;
                s.sig2 = key.sign(&r);
            } else {
                s.root1 = r;
                s.sig1 = key.sign(&r);
            }
            ("another root verified", codes(&[code::SIG_MISMATCH]))
        }
        10 => {
            if s.root1 == s.root2 {
                return Ok(());
            }
            std::mem::swap(&mut s.p1, &mut s.p2);
            ("shreds exchanged", codes(&[code::SIG_MISMATCH]))
        }
        11 => {
            // the shred carries another signature than the verified one
            let p = if second { &mut s.p2 } else { &mut s.p1 };
            p[t.usize(0, 63)] ^= 1 << t.below(8);
            ("another signature in the shred", codes(&[code::SIG_MISMATCH]))
        }
        12 => {
            let k = t.usize(1, s.packed_len());
            s.stage(&mut svm);
            staged = true;
            let n = s.prefix.len() + s.packed_len() - k;
            svm.accounts.get_mut(&s.proof_key).unwrap().data.truncate(n);
            ("proof cut", codes(&[code::PROOF_TOO_SMALL]))
        }
        13 => {
            s.offset = if t.bool() { s.proof_data().len() as u64 + t.edgy(40) } else { s.offset | 1 << t.range(17, 63) };
            ("offset past the end", codes(&[code::PROOF_TOO_SMALL]))
        }
        14 => {
            let p = if second { &mut s.p2 } else { &mut s.p1 };
            let k = t.usize(1, p.len() - 65);
            let n = p.len() - k;
            p.truncate(n);
            ("shred cut", codes(&[code::SHRED_DESERIALIZE, code::INVALID_MERKLE]))
        }
        15 => {
            let p = if second { &mut s.p2 } else { &mut s.p1 };
            p[64] = loop {
                let v = t.below(256) as u8;
                if !matches!(v >> 4, 4 | 6 | 7 | 8 | 9 | 0xb) && v != LEGACY_CODE && v != LEGACY_DATA {
                    break v;
                }
            };
            ("unknown variant", codes(&[code::INVALID_VARIANT]))
        }
        16 => {
            let p = if second { &mut s.p2 } else { &mut s.p1 };
            p[64] = if t.bool() { LEGACY_CODE } else { LEGACY_DATA };
            ("legacy shred", codes(&[code::LEGACY]))
        }
        17 => {
            // the position lies outside of the Merkle tree
            let p = if second { &mut s.p2 } else { &mut s.p1 };
            let v = p[64];
            if v & 0xf == 15 && v & 0x80 == 0 {
                return Ok(());
            }
            if v & 0x80 != 0 {
                let fec = u32::from_le_bytes(p[79..83].try_into().unwrap());
                let room = 1u32 << (v & 0xf);
                let Some(i) = fec.checked_add(room) else { return Ok(()) };
                p[73..77].copy_from_slice(&i.to_le_bytes());
            } else {
                p[87..89].copy_from_slice(&(1u16 << (v & 0xf)).to_le_bytes());
            }
            ("outside of the tree", codes(&[code::INVALID_MERKLE, code::SHRED_DESERIALIZE]))
        }
        18 => {
            let mut ix = s.ix();
            ix.accounts[2].pubkey = *t.pick(&[solana_program::sysvar::clock::ID, wallet(4), ids::SYSTEM, SLASHING]);
            tx = Some(vec![ed25519_for(1).into(), ix.into()]);
            ("no instructions sysvar", codes(&[code::MISSING_IX_SYSVAR]))
        }
        19 => {
            let mut ix = s.ix();
            ix.accounts[3].pubkey = *t.pick(&[solana_program::sysvar::clock::ID, wallet(4), ids::INSTRUCTIONS, SLASHING]);
            tx = Some(vec![ed25519_for(1).into(), ix.into()]);
            ("no system program", codes(&[code::MISSING_SYSTEM]))
        }
        20 => {
            let mut ix = s.ix();
            ix.accounts.truncate(t.usize(0, 3));
            tx = Some(vec![ed25519_for(1).into(), ix.into()]);
            ("accounts missing", Want::Builtin(ProgramError::NotEnoughAccountKeys))
        }
        21 => {
            let mut ix = s.ix();
            let k = match t.below(3) {
                0 => wallet(44),
                1 => pda(&s.node, s.slot.wrapping_add(1)),
                _ => pda(&s.reporter, s.slot),
            };
            svm.accounts.insert(k, Account::wallet(1 << 50));
            ix.accounts[1].pubkey = k;
            tx = Some(vec![ed25519_for(1).into(), ix.into()]);
            ("wrong report account", codes(&[code::INVALID_REPORT_ACCOUNT]))
        }
        22 => {
            if !s.go(&mut svm).ok() {
                return Ok(());
            }
            ("reported already", codes(&[code::DUPLICATE_REPORT]))
        }
        23 => {
            prefund = false;
            let need = svm.rent.minimum_balance(s.report_len());
            let have = match t.below(3) {
                0 => 0,
                1 => need - 1,
                _ => t.below(need),
            };
            svm.lax_rent = true;
            svm.accounts.insert(s.report_key(), Account::wallet(have));
            ("not prefunded", codes(&[code::NOT_PREFUNDED]))
        }
        24 => {
            s.destination = s.report_key();
            match t.below(4) {
                0 => s.reporter = s.destination,
                1 => s.reporter = s.node,
                _ => (),
            }
            ("destination is the report", codes(&[code::DESTINATION_IS_REPORT]))
        }
        25 => {
            // versions differ
            let mut v = match s.views() {
                Some((a, b)) => [a.spec, b.spec],
                None => return Ok(()),
            };
            v[second as usize].version ^= 1 << t.below(16);
            let seed = t.seed();
            let x = build_one(&v[0], seed, &key);
            let y = build_one(&v[1], seed + 1, &key);
            (s.p1, s.root1, s.sig1) = (x.payload, x.root, x.sig);
            (s.p2, s.root2, s.sig2) = (y.payload, y.root, y.sig);
            ("versions differ", codes(&[code::SHRED_VERSION]))
        }
        26 => {
            let mut ix = s.ix();
            ix.data[0] = 2 + t.below(254) as u8;
            tx = Some(vec![ix.into()]);
            ("unknown instruction", codes(&[code::INVALID_INSTRUCTION]))
        }
        27 => {
            let mut ix = s.ix();
            match t.below(3) {
                0 => ix.data.clear(),
                1 => ix.data.truncate(t.usize(1, IX_LEN - 1)),
                _ => {
                    let n = t.usize(1, 100);
                    ix.data.extend(t.bytes(n));
                }
            }
            svm.lax_precompile = true;
            tx = Some(vec![ed25519_for(1).into(), ix.into()]);
            ("wrong length", Want::Builtin(ProgramError::InvalidInstructionData))
        }
        34 => {
            // called through another program with more or other data than was verified
            let inner = s.ix();
            let mut outer = inner.clone();
            outer.program_id = ids::FORWARDER;
            outer.accounts.push(AccountMeta::new_readonly(SLASHING, false));
            match t.below(3) {
                0 => outer.data.extend([t.below(256) as u8]),
                // the type, the offset or the reporter: nothing that was signed
                1 => outer.data[t.usize(0, 8)] ^= 1 << t.below(8),
                _ => outer.data[t.usize(49, 49 + 63)] ^= 1 << t.below(8),
            }
            tx = Some(vec![ed25519_for(1).into(), TopIx { ix: outer, inner: vec![inner] }]);
            ("data of another program verified", codes(&[code::INVALID_SIGVERIFY]))
        }
        // closes
        _ => {
            svm.clock.epoch = svm.clock.epoch.min(u64::MAX - 10);
            if !s.go(&mut svm).ok() {
                return Ok(());
            }
            let k = s.report_key();
            let d = s.destination;
            let at = svm.clock.epoch;
            svm.clock.epoch = at + 3 + t.below(3);
            staged = true;
            prefund = false;
            match fault {
                28 => {
                    svm.clock.epoch = at + t.below(3);
                    tx = Some(vec![close_ix(k, d).into()]);
                    ("close too soon", codes(&[code::CLOSE_TOO_SOON]))
                }
                29 => {
                    let o = *t.pick(&[wallet(3), s.reporter, k, s.node]);
                    if o == d {
                        return Ok(());
                    }
                    tx = Some(vec![close_ix(k, o).into()]);
                    ("close to another destination", codes(&[code::INVALID_DESTINATION]))
                }
                30 => {
                    svm.accounts.get_mut(&k).unwrap().owner = *t.pick(&[ids::SYSTEM, wallet(3)]);
                    tx = Some(vec![close_ix(k, d).into()]);
                    ("close of a foreign account", codes(&[code::INVALID_REPORT_ACCOUNT]))
                }
                31 => {
                    let n = if t.bool() { 0 } else { t.usize(0, REPORT_HEADER - 1) };
                    svm.accounts.get_mut(&k).unwrap().data.truncate(n);
                    tx = Some(vec![close_ix(k, d).into()]);
                    ("close of an incomplete report", codes(&[code::INVALID_REPORT_ACCOUNT]))
                }
                32 => {
                    let mut ix = close_ix(k, d);
                    ix.accounts.truncate(t.usize(0, 1));
                    tx = Some(vec![ix.into()]);
                    ("close without accounts", Want::Builtin(ProgramError::NotEnoughAccountKeys))
                }
                _ => {
                    // closed twice
                    let o = svm.execute(&[close_ix(k, d).into()]);
                    if !o.ok() {
                        return Ok(());
                    }
                    tx = Some(vec![close_ix(k, d).into()]);
                    ("closed already", codes(&[code::INVALID_REPORT_ACCOUNT]))
                }
            }
        }
    };
    c.label(what);
    c.nontrivial();
    c.feed(&s.root1);
    c.feed(&fault.to_le_bytes());
    c.feed(s.destination.as_ref());
    describe(c, &s, &svm);
    if !staged {
        s.stage(&mut svm);
    }
    if prefund {
        s.prefund(&mut svm);
    }
    let before = svm.clone();
    let out = svm.execute(&tx.unwrap_or_else(|| s.tx()));
    expect(&out, &want, what)?;
    match diff(&before, &svm).first() {
        Some(d) => Err(format!("{what}: rejected, yet changed {}", d.1)),
        None => Ok(()),
    }
}

pub fn p19_numbers(c: &mut Case) -> Result<(), String> {
    let i = c.t.below(ERRORS) as usize;
    let (e, n) = numbers()[i];
    c.nontrivial();
    c.feed(&n.to_le_bytes());
    c.note(|| format!("{e:?} = {n}"));
    if e as u32 != n || ProgramError::from(e) != ProgramError::Custom(n) {
        return Err(format!("{e:?} has number {} instead of {n}", e as u32));
    }
    Ok(())
}

pub const ERRORS: u64 = 25;
pub const LENGTHS: u64 = 701 + 4 * 256;
