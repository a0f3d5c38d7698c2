//! P01 - only shreds signed by the accused convict it.
use {
    crate::world::*,
    slashkit::{
        crypto::{self, Key},
        engine::Case,
        shred,
        svm::{ids, Account, Svm, TopIx, TxOut},
        tape::blob,
    },
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
    },
};

const PK: usize = 1 + 16;
const REPORTER: usize = PK + 32;
const DESTINATION: usize = PK + 64;
const ROOT: [usize; 2] = [PK + 96, PK + 96 + 96];
const SIG: [usize; 2] = [PK + 96 + 32, PK + 96 + 96 + 32];

/// Every report that exists now but did not exist before, with its proof.
fn new_reports(before: &Svm, after: &Svm) -> Vec<(Pubkey, Vec<u8>)> {
    after
        .accounts
        .iter()
        .filter(|(k, a)| a.owner == SLASHING && !a.data.is_empty() && before.get(k).data != a.data)
        .map(|(k, a)| (*k, a.data.clone()))
        .collect()
}

/// The statement of P01 about one executed transaction.
pub fn check_reports(before: &Svm, after: &Svm, out: &TxOut) -> Result<usize, String> {
    let reports = new_reports(before, after);
    for (k, d) in &reports {
        if d.len() < REPORT_HEADER + 8 {
            return Err(format!("{k}: a report without a proof ({} bytes)", d.len()));
        }
        let node: [u8; 32] = d[73..105].try_into().unwrap();
        let proof = &d[REPORT_HEADER..];
        let n1 = u32::from_le_bytes(proof[..4].try_into().unwrap()) as usize;
        let (Some(p1), Some(l2)) = (proof.get(4..4 + n1), proof.get(4 + n1..8 + n1)) else {
            return Err(format!("{k}: the stored proof cannot be read"));
        };
        let n2 = u32::from_le_bytes(l2.try_into().unwrap()) as usize;
        let Some(p2) = proof.get(8 + n1..8 + n1 + n2) else {
            return Err(format!("{k}: the stored proof cannot be read"));
        };
        for (i, p) in [p1, p2].into_iter().enumerate() {
            let view = shred::read(p).map_err(|e| format!("{k}: stored shred {} is not a shred: {e:?}", i + 1))?;
            let sig: [u8; 64] = p[..64].try_into().unwrap();
            let who = Pubkey::new_from_array(node);
            if !crypto::verify(&node, &view.root, &sig) {
                return Err(format!("{who} was convicted by shred {} which it did not sign", i + 1));
            }
            let call = out
                .calls
                .iter()
                .filter(|c| c.program == SLASHING && c.result.is_ok())
                .any(|c| {
                    out.verified.iter().any(|v| {
                        v.top_index + 1 == c.top_index
                            && v.pubkey == node
                            && v.message == view.root
                            && v.signature == sig
                    })
                });
            if !call {
                return Err(format!(
                    "{who} was convicted by shred {} whose signature no directly preceding ed25519 instruction verified",
                    i + 1
                ));
            }
        }
    }
    Ok(reports.len())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Auth {
    /// signed by the accused
    Genuine,
    /// signed by somebody else
    Attacker,
    /// carries the accused's signature over something else
    Spliced,
    /// carries a signature that is nobody's
    Junk,
    /// the accused did sign the root, but the shred carries other bytes as signature
    Unattached,
}

#[derive(Clone, Debug)]
struct Triple {
    pk: [u8; 32],
    sig: [u8; 64],
    msg: Vec<u8>,
}

fn triple(k: &Key, msg: &[u8]) -> Triple {
    Triple { pk: k.pubkey().to_bytes(), sig: k.sign(msg), msg: msg.to_vec() }
}

#[derive(Clone, Copy, PartialEq)]
enum Item {
    Ed,
    OtherEd,
    Filler,
    Decoy,
    FakeEd,
    Slash,
}

fn put(buf: &mut Vec<u8>, at: usize, d: &[u8]) {
    if buf.len() < at + d.len() {
        buf.resize(at + d.len(), 0);
    }
    buf[at..at + d.len()].copy_from_slice(d);
}

pub fn p01(c: &mut Case) -> Result<(), String> {
    let t = &mut c.t;
    let victim = gen_key(t);
    let attacker = Key::new(1000 + t.below(4));
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let mut svm = gen_env(t, slot);
    let mut pair = shred::gen_conflict_pair(t, slot, version, &victim);
    let mut labels: Vec<String> = vec![];

    // half of the cases are one step away from a proper report: only one shred
    // is not genuine, and only what is needed to pretend it is differs
    let focus = t.chance(2, 3);
    let forged = t.usize(0, 1);

    // --- who signed what
    let mut auth: Vec<Auth> = (0..2)
        .map(|_| *t.pick(&[Auth::Genuine, Auth::Attacker, Auth::Spliced, Auth::Attacker, Auth::Junk, Auth::Unattached, Auth::Genuine]))
        .collect();
    if focus {
        auth[1 - forged] = Auth::Genuine;
        if auth[forged] == Auth::Genuine {
            auth[forged] = *t.pick(&[Auth::Attacker, Auth::Spliced, Auth::Unattached, Auth::Junk]);
        }
    }
    // what else the accused has signed: the other root, a root that differs
    // in one bit, only the beginning of the root, or something unrelated
    let elsewhere = |i: usize, seed: u64, root: &[u8; 32], other_root: &[u8; 32]| -> Vec<u8> {
        let r = blob(seed ^ 0xB17, 2);
        let at = r[0] as usize;
        match seed % 5 {
            0 | 1 if auth[1 - i] == Auth::Genuine => other_root.to_vec(),
            2 => {
                let mut near = root.to_vec();
                near[at % 32] ^= 1 << (r[1] & 7);
                near
            }
            3 => root[..at % 32].to_vec(),
            _ => blob(seed ^ 0xE15E, 32),
        }
    };
    let roots = [pair.a.root, pair.b.root];
    let mut known: Vec<Vec<u8>> = vec![];
    for i in 0..2 {
        let seed = t.seed();
        let other = elsewhere(i, seed, &roots[i], &roots[1 - i]);
        known.push(other.clone());
        let b = if i == 0 { &mut pair.a } else { &mut pair.b };
        b.sig = match auth[i] {
            Auth::Genuine => b.sig,
            Auth::Attacker => attacker.sign(&b.root),
            Auth::Spliced => victim.sign(&other),
            Auth::Unattached if seed % 2 == 0 => {
                // the real signature, one bit off
                let mut near = b.sig;
                let r = blob(seed ^ 0xB17, 2);
                near[r[0] as usize % 64] ^= 1 << (r[1] & 7);
                near
            }
            // the real signature of the other shred
            Auth::Unattached if seed % 4 == 1 => victim.sign(&roots[1 - i]),
            Auth::Junk | Auth::Unattached => blob(seed, 64).try_into().unwrap(),
        };
        b.payload[..64].copy_from_slice(&b.sig);
    }
    labels.push(format!("{:?}/{:?}", auth[0], auth[1]));

    let mut s = Sub::new(&pair, &victim, slot);
    vary(t, &mut s);
    match t.below(4) {
        0 | 1 => s.reporter = attacker.pubkey(),
        2 => s.reporter = victim.pubkey(),
        _ => (),
    }
    match t.below(5) {
        0 => s.destination = attacker.pubkey(),
        1 => s.destination = victim.pubkey(),
        _ => (),
    }
    // the instruction's own fields may differ from the shreds
    for i in 0..2 {
        let (root, sig) = if i == 0 { (&mut s.root1, &mut s.sig1) } else { (&mut s.root2, &mut s.sig2) };
        let pick = t.below(6);
        if focus && i != forged {
            continue;
        }
        match pick {
            0 => {
                if let Ok(other) = known[i][..].try_into() {
                    *root = other;
                }
                *sig = victim.sign(&known[i]);
                labels.push("fields name another signed root".into());
            }
            1 if auth[i] == Auth::Unattached => {
                *sig = victim.sign(root);
                labels.push("fields carry the real signature".into());
            }
            _ => (),
        }
    }
    let sdata = s.data();

    // --- how the transaction is arranged
    let cpi = t.chance(1, 5);
    let arrangement = t.weighted(&[14, 4, 2, 3, 3, 2, 2, 2, 2, 3, 2, 1, 2, 3]);
    let mut items = vec![];
    for _ in 0..t.below(3) {
        items.push(Item::Filler);
    }
    let decoy_first = t.bool();
    if decoy_first {
        items.push(Item::Decoy);
    }
    match arrangement {
        5 => items.extend([Item::Ed, Item::Filler, Item::Slash]),
        6 => {
            if t.bool() {
                items.clear();
            }
            items.extend([Item::Slash, Item::Ed]);
        }
        7 => items.extend([Item::FakeEd, Item::Slash]),
        10 => items.extend([Item::OtherEd, Item::Ed, Item::Slash]),
        13 => items.extend([Item::Ed, Item::OtherEd, Item::Slash]),
        _ => items.extend([Item::Ed, Item::Slash]),
    }
    if !items.contains(&Item::Decoy) {
        items.push(Item::Decoy);
    }
    let at = |i: Item| items.iter().position(|x| *x == i).map(|x| x as u16);
    let cur = at(Item::Slash).unwrap();
    let decoy_index = at(Item::Decoy).unwrap();
    labels.push(format!("arrangement {arrangement}{}", if cpi { " through another program" } else { "" }));

    // --- what is verified, and where it lies
    let mut decoy = if t.chance(2, 3) { sdata.clone() } else { vec![] };
    let mut top = sdata.clone(); // data at the current index (differs only for CPI)
    let mut own: Vec<u8> = vec![]; // appended to the ed25519 instruction
    let mut entries: Vec<[u16; 7]> = vec![];
    let n_main = match arrangement {
        3 => 2 + t.usize(1, 3),
        _ => 2,
    };
    let own_base = 2 + 14 * n_main;
    // the ed25519 instruction may look like the slashing instruction, so that
    // what it verifies in itself lies where the slashing instruction has other bytes
    let aligned = t.chance(1, 3);
    if aligned {
        own = sdata[own_base..].to_vec();
        labels.push("lookalike".into());
    }
    for e in 0..n_main {
        let i = e % 2;
        // a triple that really verifies
        let root = roots[i];
        let fields_root: [u8; 32] = sdata[ROOT[i]..ROOT[i] + 32].try_into().unwrap();
        let mut cands = vec![triple(&attacker, &fields_root), triple(&attacker, &root), triple(&victim, &known[i])];
        if matches!(auth[i], Auth::Genuine | Auth::Unattached) {
            cands.push(triple(&victim, &root));
            cands.push(triple(&victim, &root));
        }
        if auth[1 - i] == Auth::Genuine {
            cands.push(triple(&victim, &roots[1 - i]));
        }
        // messages of other lengths
        let n = *t.pick(&[0usize, 31, 33, 64, 96]);
        cands.push(triple(&attacker, &sdata[ROOT[i]..ROOT[i] + n]));
        if n != 32 {
            cands.push(triple(&victim, &sdata[ROOT[i]..ROOT[i] + n.min(31)]));
        }
        // prefer triples that share much with the instruction
        let score = |x: &Triple| {
            (x.pk == s.node.to_bytes()) as u64
                + (x.sig[..] == sdata[SIG[i]..SIG[i] + 64]) as u64
                + (sdata[ROOT[i]..].starts_with(&x.msg)) as u64
        };
        let w: Vec<u64> = cands.iter().map(|x| [1, 4, 16, 60][score(x) as usize]).collect();
        let mut tr = cands[t.weighted(&w)].clone();
        if focus {
            if i != forged {
                tr = triple(&victim, &root);
            } else if t.chance(3, 4) {
                let best = cands.iter().map(score).max().unwrap();
                cands.retain(|x| score(x) == best);
                tr = t.pick(&cands).clone();
            }
        }
        let mut f = [0u16; 7];
        let comps: [(&[u8], usize, usize, usize); 3] = [(&tr.sig, SIG[i], 0, 1), (&tr.pk, PK, 2, 3), (&tr.msg, ROOT[i], 4, 6)];
        for (bytes, canon, fo, fi) in comps {
            let here = sdata[canon..].starts_with(bytes);
            let (off, idx) = if here && (focus || t.chance(7, 8)) {
                (canon, cur)
            } else if fo == 2 && s.reporter.as_ref() == bytes && t.bool() {
                (REPORTER, cur)
            } else {
                match t.below(4) {
                    0 if aligned => {
                        let at = if fo != 2 {
                            canon
                        } else if s.reporter == s.node && own_base <= REPORTER {
                            REPORTER
                        } else {
                            DESTINATION
                        };
                        put(&mut own, at - own_base, bytes);
                        (at, u16::MAX)
                    }
                    0 => {
                        own.extend_from_slice(bytes);
                        (own_base + own.len() - bytes.len(), u16::MAX)
                    }
                    1 if cpi => {
                        put(&mut top, canon, bytes);
                        (canon, cur)
                    }
                    2 if cpi => {
                        let at = top.len();
                        top.extend_from_slice(bytes);
                        (at, cur)
                    }
                    3 => {
                        let at = decoy.len().max(sdata.len());
                        put(&mut decoy, at, bytes);
                        (at, decoy_index)
                    }
                    _ if cpi => {
                        put(&mut top, canon, bytes);
                        (canon, cur)
                    }
                    _ => {
                        put(&mut decoy, canon, bytes);
                        (canon, decoy_index)
                    }
                }
            };
            f[fo] = off as u16;
            f[fi] = idx;
        }
        f[5] = tr.msg.len() as u16;
        entries.push(f);
    }
    if cpi && t.chance(1, 3) {
        // the other program's data contains all of ours
        top.extend_from_slice(&sdata);
        labels.push("the caller's data contains the slashing instruction's".into());
    }
    let mut ed = vec![entries.len() as u8, 0];
    match arrangement {
        1 => {
            // only one signature is verified, the second entry is just there
            ed = vec![1, if t.bool() { 1 } else { t.below(256) as u8 }];
            if t.chance(3, 4) {
                let j = 1;
                entries[j] = [SIG[j] as u16, cur, PK as u16, cur, ROOT[j] as u16, 32, cur];
            }
        }
        2 => ed = vec![if t.bool() { 0 } else { 1 }, t.below(256) as u8],
        4 => {
            if t.bool() {
                entries.swap(0, 1);
            } else {
                let j = t.usize(0, 1);
                entries[1 - j] = entries[j];
            }
        }
        8 => {
            let k = t.usize(0, 1);
            let j = t.usize(0, 6);
            entries[k][j] = match t.below(4) {
                0 => u16::MAX,
                1 => entries[k][j].wrapping_add(1),
                2 => cur,
                _ => t.edgy(16) as u16,
            };
        }
        9 => ed[1] = t.below(256) as u8,
        _ => (),
    }
    let shown = if arrangement == 2 && t.bool() { t.usize(0, 1) } else { entries.len() };
    for f in entries.iter().take(shown) {
        for x in f {
            ed.extend_from_slice(&x.to_le_bytes());
        }
    }
    ed.extend_from_slice(&own);
    let ed_ix = Instruction { program_id: ids::ED25519, accounts: vec![], data: ed.clone() };

    let mut slash = s.ix();
    if arrangement == 12 {
        slash.data.extend(own.iter().copied().chain(blob(7, 40)));
    }
    // a substituted instructions sysvar that tells the program what it wants to hear
    if arrangement == 11 {
        let fake = Pubkey::new_from_array(blob(t.seed(), 32).try_into().unwrap());
        let good = ed25519_for(1);
        let metas: Vec<BorrowedAccountMeta> = vec![];
        let data = solana_instructions_sysvar::construct_instructions_data(&[
            BorrowedInstruction { program_id: &ids::ED25519, accounts: metas, data: &good.data },
            BorrowedInstruction { program_id: &SLASHING, accounts: vec![], data: &slash.data },
        ]);
        let mut data = data;
        let n = data.len();
        data[n - 2..].copy_from_slice(&1u16.to_le_bytes());
        svm.accounts.insert(fake, Account { lamports: 1 << 40, data, owner: ids::SYSTEM, executable: false });
        slash.accounts[2].pubkey = fake;
        match t.below(3) {
            0 => slash.accounts.push(AccountMeta::new_readonly(ids::INSTRUCTIONS, false)),
            1 => slash.accounts.insert(2, AccountMeta::new_readonly(ids::INSTRUCTIONS, false)),
            _ => (),
        }
        if t.bool() && slash.accounts.len() == 5 {
            slash.accounts.swap(2, 3);
        }
    }
    // sometimes the genuine arrangement is simply there as well
    let other_ed = match t.below(3) {
        0 => ed25519_for(cur),
        1 => ed25519_raw(&[[0; 7]; 0]),
        _ => {
            let mut own = vec![];
            let m = blob(t.seed(), 32);
            let tr = triple(&attacker, &m);
            own.extend_from_slice(&tr.sig);
            own.extend_from_slice(&tr.pk);
            own.extend_from_slice(&tr.msg);
            let mut ix = ed25519_raw(&[[30, u16::MAX, 94, u16::MAX, 126, 32, u16::MAX]; 2]);
            ix.data.extend(own);
            ix
        }
    };
    let filler = t.below(3);
    let tx: Vec<TopIx> = items
        .iter()
        .map(|i| match i {
            Item::Ed => ed_ix.clone().into(),
            Item::OtherEd => other_ed.clone().into(),
            Item::FakeEd => Instruction { program_id: ids::NOOP, accounts: vec![], data: ed.clone() }.into(),
            Item::Decoy => Instruction { program_id: ids::NOOP, accounts: vec![], data: decoy.clone() }.into(),
            Item::Filler => match filler {
                0 => Instruction { program_id: ids::COMPUTE_BUDGET, accounts: vec![], data: vec![2, 0, 0, 0, 0] }.into(),
                1 => transfer_ix(wallet(0), wallet(1), 1).into(),
                _ => Instruction { program_id: ids::NOOP, accounts: vec![], data: vec![] }.into(),
            },
            Item::Slash if cpi => TopIx {
                ix: Instruction {
                    program_id: ids::FORWARDER,
                    accounts: slash
                        .accounts
                        .iter()
                        .cloned()
                        .chain([AccountMeta::new_readonly(SLASHING, false)])
                        .collect(),
                    data: top.clone(),
                },
                inner: vec![slash.clone()],
            },
            Item::Slash => slash.clone().into(),
        })
        .collect();

    for l in labels {
        c.labels.push(l);
    }
    describe(c, &s, &svm);
    if c.record {
        c.notes.push(format!("  signed: {auth:?}, entries (sig,ix,key,ix,msg,len,ix): {entries:?}, count bytes {:?}", &ed[..2]));
        c.notes.push(format!(
            "  transaction: {}",
            tx.iter().map(|x| x.ix.program_id.to_string()[..8].to_string()).collect::<Vec<_>>().join(", ")
        ));
    }
    s.stage(&mut svm);
    s.prefund(&mut svm);
    let before = svm.clone();
    let out = svm.execute(&tx);
    if out.calls.iter().any(|x| x.program == SLASHING) {
        c.label("reached the program");
        c.nontrivial();
        c.feed(&ed);
        c.feed(&sdata);
        c.feed(&decoy);
        c.feed(&top);
    }
    let n = check_reports(&before, &svm, &out)?;
    c.label(if n > 0 { "report created" } else { "no report" });
    Ok(())
}
