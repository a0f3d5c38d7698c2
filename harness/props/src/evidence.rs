//! P02 - P06: which pairs of shreds are evidence.
use {
    crate::{cluster, world::*},
    slashkit::{
        crypto::Key,
        engine::Case,
        shred::{self, *},
        svm::{Account, Svm},
        tape::{blob, blob32, Tape},
    },
    solana_slashing_program::instruction::{
        duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData,
    },
};

fn any_pair(t: &mut Tape, slot: u64, version: u16, key: &Key) -> Pair {
    match t.below(4) {
        0 => gen_near_pair(t, slot, version, key),
        1 => gen_conflict_pair(t, slot, version, key),
        _ => gen_dense_pair(t, slot, version, key),
    }
}

fn feed(c: &mut Case, s: &Sub) {
    c.feed(&s.p1[64..100.min(s.p1.len())]);
    c.feed(&s.p2[64..100.min(s.p2.len())]);
    c.feed(&s.root1);
    c.feed(&s.root2);
    c.feed(&s.slot.to_le_bytes());
}

fn setup(t: &mut Tape) -> (Key, u64, u16, Svm) {
    let key = gen_key(t);
    let slot = gen_slot(t);
    let version = t.edgy(16) as u16;
    let env = gen_env(t, slot);
    (key, slot, version, env)
}

fn verdict_of(s: &Sub) -> Option<Verdict> {
    let (a, b) = s.views()?;
    Some(shred::verdict(&a, &b, s.slot))
}

// ---------------------------------------------------------------- P02

fn must_reject(c: &mut Case, s: &Sub, svm: &mut Svm, why: &str) -> Result<(), String> {
    describe(c, s, svm);
    let before = svm.get(&s.report_key());
    let out = s.go(svm);
    if accepted(&out) {
        return Err(format!("a report was created although {why}"));
    }
    let after = svm.get(&s.report_key());
    if after.owner != before.owner || !after.data.is_empty() {
        return Err(format!("the report account changed although {why}"));
    }
    Ok(())
}

pub fn p02_honest(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let p = gen_honest_pair(&mut c.t, slot, version, &key);
    c.label(p.class);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    if c.t.bool() {
        s = s.swapped();
    }
    match verdict_of(&s) {
        Some(Verdict::NoConflict) => (),
        v => return Err(format!("HARNESS: honest block judged {v:?} by the model: {} / {}", p.a.spec.brief(), p.b.spec.brief())),
    }
    c.nontrivial();
    feed(c, &s);
    must_reject(c, &s, &mut svm, "both shreds belong to one honestly produced block")
}

pub fn p02_near(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let p = if c.t.chance(1, 3) {
        gen_dense_pair(&mut c.t, slot, version, &key)
    } else {
        gen_near_pair(&mut c.t, slot, version, &key)
    };
    c.label(p.class);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    trail(&mut c.t, &mut s);
    if c.t.chance(1, 10) {
        // the report names another slot than the shreds
        s.slot = match c.t.below(3) {
            0 => slot.wrapping_sub(1),
            1 => slot ^ (1 << c.t.below(64)),
            _ => slot.saturating_sub(c.t.range(0, 100)),
        };
        if s.slot > svm.clock.slot || svm.clock.slot - s.slot > svm.epoch_schedule.slots_per_epoch {
            svm.clock.slot = s.slot;
        }
    }
    let v = match verdict_of(&s) {
        Some(v) => v,
        None => {
            c.label("unreadable");
            return must_reject(c, &s, &mut svm, "a shred is not a valid Merkle shred");
        }
    };
    c.label(format!("{v:?}"));
    match v {
        Verdict::Conflict(_) | Verdict::OutOfRange => return Ok(()),
        _ => (),
    }
    c.nontrivial();
    feed(c, &s);
    must_reject(c, &s, &mut svm, &format!("the two shreds do not conflict ({v:?})"))
}

// ---------------------------------------------------------------- P03

pub fn builder_data(s: &Sub) -> DuplicateBlockProofInstructionData {
    DuplicateBlockProofInstructionData {
        offset: s.offset.into(),
        slot: s.slot.into(),
        node_pubkey: s.node,
        reporter: s.reporter,
        destination: s.destination,
        shred_1_merkle_root: s.root1.into(),
        shred_1_signature: s.sig1,
        shred_2_merkle_root: s.root2.into(),
        shred_2_signature: s.sig2,
    }
}

fn p03(c: &mut Case, p: Pair, key: &Key, slot: u64, mut svm: Svm) -> Result<(), String> {
    c.label(p.class);
    let mut s = Sub::new(&p, key, slot);
    vary(&mut c.t, &mut s);
    let Some(Verdict::Conflict(rule)) = verdict_of(&s) else {
        c.label("no conflict");
        return Ok(());
    };
    if c.t.chance(1, 6) {
        svm.rent.lamports_per_byte_year = c.t.range(1, 10_000);
    }
    c.label(format!("{rule:?}"));
    c.label(format!("variants {:#04x}/{:#04x}", p.a.spec.variant() & 0xf0, p.b.spec.variant() & 0xf0));
    c.nontrivial();
    feed(c, &s);
    describe(c, &s, &svm);
    s.stage(&mut svm);
    let funder = match c.t.below(3) {
        0 => None,
        1 => Some(s.reporter),
        _ => Some(wallet(50)),
    };
    let payer = funder.unwrap_or(s.reporter);
    svm.accounts.insert(payer, Account::wallet(1 << 50));
    // the report account may already hold something
    if c.t.chance(1, 4) {
        svm.accounts.insert(s.report_key(), Account::wallet(c.t.range(1, 100_000_000)));
    }
    let ixs = duplicate_block_proof_with_sigverify_and_prefund(
        &s.proof_key,
        &builder_data(&s),
        funder.as_ref(),
        &svm.rent,
    );
    let tx: Vec<_> = ixs.into_iter().map(Into::into).collect();
    let out = svm.execute(&tx);
    if !accepted(&out) {
        return Err(format!("a genuine {rule:?} conflict was not accepted: {:?}", out.result));
    }
    let r = svm.get(&s.report_key());
    if r.owner != SLASHING || r.data.is_empty() || r.data[0] == 0 {
        return Err(format!("the accepted {rule:?} conflict left no report: owner {}, {} bytes", r.owner, r.data.len()));
    }
    Ok(())
}

pub fn p03_conflict(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, svm) = setup(&mut c.t);
    let p = gen_conflict_pair(&mut c.t, slot, version, &key);
    p03(c, p, &key, slot, svm)
}

pub fn p03_dense(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, svm) = setup(&mut c.t);
    let p = if c.t.chance(1, 3) {
        gen_near_pair(&mut c.t, slot, version, &key)
    } else {
        gen_dense_pair(&mut c.t, slot, version, &key)
    };
    p03(c, p, &key, slot, svm)
}

// ---------------------------------------------------------------- P04

pub fn p04(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, svm) = setup(&mut c.t);
    let p = any_pair(&mut c.t, slot, version, &key);
    c.label(p.class);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    // occasionally one side is broken, mislabelled or carries unsigned extras
    match c.t.below(12) {
        0 => {
            let i = c.t.usize(64, 100);
            let n = s.p1.len();
            s.p1[i % n] ^= 1 << c.t.below(8);
            c.label("broken shred");
        }
        1 => {
            s.p2.extend(junk(&mut c.t, 40));
            c.label("trailing bytes");
        }
        2 => {
            let n = c.t.usize(0, s.p1.len());
            s.p1.truncate(n);
            c.label("truncated shred");
        }
        3 => {
            s.slot = s.slot.wrapping_add(1);
            svm_clock(&mut c.t);
            c.label("other slot");
        }
        _ => (),
    }
    describe(c, &s, &svm);
    let r = s.swapped();
    let (mut w1, mut w2) = (svm.clone(), svm);
    let (o1, o2) = (s.go(&mut w1), r.go(&mut w2));
    let v = verdict_of(&s);
    c.label(match v {
        Some(v) => format!("{v:?}"),
        None => "unreadable".into(),
    });
    if o1.ok() {
        c.label("accepted");
    }
    if v.is_some() {
        c.nontrivial();
        feed(c, &s);
    }
    if o1.ok() != o2.ok() {
        return Err(format!(
            "the order of the shreds decides: {:?} as given, {:?} exchanged",
            o1.result, o2.result
        ));
    }
    Ok(())
}

fn svm_clock(_t: &mut Tape) {}

// ---------------------------------------------------------------- P05

/// Changes only bytes the leader did not sign; returns false when nothing changed.
fn tamper_unsigned(t: &mut Tape, p: &mut Vec<u8>, spec: &Spec) -> &'static str {
    let what = t.below(if spec.resigned() { 4 } else { 2 });
    let end = spec.proof_end();
    match what {
        0 => {
            let n = *t.pick(&[1usize, 2, 4, 25, 29, 64, 100, 500]);
            let n = if t.bool() { n } else { t.usize(1, 800) };
            let s = t.below(1 << 16);
            p.extend(blob(s, n));
            "trailing bytes"
        }
        1 => {
            p.extend(vec![0; t.usize(1, 64)]);
            "trailing zeros"
        }
        2 => {
            let b = blob(t.seed(), 64);
            p[end..end + 64].copy_from_slice(&b);
            "other retransmitter"
        }
        _ => {
            let i = end + t.usize(0, 63);
            p[i] ^= 1 << t.below(8);
            "retransmitter signature bit"
        }
    }
}

fn verdict_on_chain(s: &Sub, svm: &Svm) -> bool {
    let mut w = svm.clone();
    s.go(&mut w).ok()
}

pub fn p05_copies(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let set = gen_set(&mut c.t, slot, version);
    let x = set.nth(c.t.below(set.len() as u64) as u32);
    let a = build_one(&x, set.seed, &key);
    let p = Pair { a: a.clone(), b: a, class: "copies" };
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    let l1 = if c.t.chance(1, 3) { tamper_unsigned(&mut c.t, &mut s.p1, &p.a.spec) } else { "untouched" };
    let l2 = tamper_unsigned(&mut c.t, &mut s.p2, &p.b.spec);
    c.label(format!("{l1} / {l2}"));
    if c.t.bool() {
        s = s.swapped();
    }
    c.nontrivial();
    feed(c, &s);
    c.feed(&s.p1);
    c.feed(&s.p2);
    must_reject(c, &s, &mut svm, &format!("both shreds are one signed shred that differs only in unsigned bytes ({l1} / {l2})"))
}

pub fn p05_verdict(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, svm) = setup(&mut c.t);
    let p = any_pair(&mut c.t, slot, version, &key);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    let base = verdict_on_chain(&s, &svm);
    let mut m = s.clone();
    let mut what = vec![];
    if c.t.bool() {
        what.push(tamper_unsigned(&mut c.t, &mut m.p1, &p.a.spec));
    }
    if what.is_empty() || c.t.bool() {
        what.push(tamper_unsigned(&mut c.t, &mut m.p2, &p.b.spec));
    }
    c.label(if base { "base accepted" } else { "base rejected" });
    for w in &what {
        c.label(*w);
    }
    if verdict_of(&s).is_some() {
        c.nontrivial();
        feed(c, &s);
        c.feed(&m.p1);
        c.feed(&m.p2);
    }
    describe(c, &m, &svm);
    let now = verdict_on_chain(&m, &svm);
    if now != base {
        return Err(format!(
            "unsigned bytes decide ({}): accepted={base} without the change, accepted={now} with it",
            what.join(", ")
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- P06

fn p06_compare(c: &mut Case, s: &Sub, svm: &mut Svm) -> Result<(), String> {
    describe(c, s, svm);
    let v = verdict_of(s);
    c.label(match v {
        Some(v) => format!("{v:?}"),
        None => "unreadable".into(),
    });
    if v == Some(Verdict::OutOfRange) {
        return Ok(());
    }
    let want = matches!(v, Some(Verdict::Conflict(_)));
    c.nontrivial();
    feed(c, s);
    let out = s.go(svm);
    if out.ok() != want {
        return Err(format!(
            "the cluster reads these shreds as {} but the program said {:?}",
            match v {
                Some(v) => format!("{v:?}"),
                None => "invalid".into(),
            },
            out.result
        ));
    }
    Ok(())
}

/// Accepted exactly when the reference reading of the two shreds conflicts.
pub fn p06_pairs(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let p = any_pair(&mut c.t, slot, version, &key);
    c.label(p.class);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    p06_compare(c, &s, &mut svm)
}

/// One field at a time: a companion shred makes acceptance depend on a single
/// field of the shred under test, which is then changed by one bit.
pub fn p06_fields(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let p = gen_conflict_pair(&mut c.t, slot, version, &key);
    let (mut x, y) = (p.a.spec.clone(), p.b.spec.clone());
    let field = c.t.below(9);
    let name = match field {
        0 => {
            x.slot ^= 1 << c.t.below(64);
            "slot"
        }
        1 => {
            x.index ^= 1 << c.t.below(32);
            "index"
        }
        2 => {
            x.version ^= 1 << c.t.below(16);
            "version"
        }
        3 => {
            x.fec ^= 1 << c.t.below(32);
            "fec set index"
        }
        4 => {
            x.flags ^= 1 << c.t.below(8);
            "flags"
        }
        5 => {
            x.num_data ^= 1 << c.t.below(16);
            "num data"
        }
        6 => {
            x.num_code ^= 1 << c.t.below(16);
            "num code"
        }
        7 => {
            x.position ^= 1 << c.t.below(16);
            "position"
        }
        _ => {
            x.parent_offset ^= 1 << c.t.below(16);
            x.size ^= 1 << c.t.below(16);
            "parent offset and size"
        }
    };
    c.label(name);
    let seed = c.t.seed();
    if x.leaf_index().is_none_or(|i| i >= 1 << x.depth) {
        // out of its tree: the deepest tree may still hold it
        x.depth = 15;
    }
    let (a, b) = if x.depth == y.depth && x.leaf_index() != y.leaf_index() && c.t.bool() {
        let mut v = build_tree(&[x, y], seed, &key);
        let b = v.pop().unwrap();
        (v.pop().unwrap(), b)
    } else {
        (build_one(&x, seed, &key), build_one(&y, seed + 1, &key))
    };
    let p = Pair { a, b, class: "field" };
    let p = if c.t.bool() { p.swapped() } else { p };
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    // sometimes the report follows the changed slot
    if field == 0 && c.t.bool() {
        s.slot = p.a.spec.slot;
        svm.clock.slot = s.slot;
    }
    p06_compare(c, &s, &mut svm)
}

/// The root itself: every bit of the signed content, the proof, the claimed root
/// and the signature counts.
pub fn p06_bits(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let p = gen_conflict_pair(&mut c.t, slot, version, &key);
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    let first = c.t.bool();
    let spec = if first { &p.a.spec } else { &p.b.spec };
    let (payload, root, sig) =
        if first { (&mut s.p1, &mut s.root1, &mut s.sig1) } else { (&mut s.p2, &mut s.root2, &mut s.sig2) };
    let region = c.t.below(5);
    let name = match region {
        0 => {
            let i = c.t.usize(64, spec.proof_offset() - 1);
            payload[i] ^= 1 << c.t.below(8);
            "signed content"
        }
        1 if spec.depth > 0 => {
            let i = c.t.usize(spec.proof_offset(), spec.proof_end() - 1);
            payload[i] ^= 1 << c.t.below(8);
            "Merkle proof"
        }
        2 => {
            // the leader signs a root that is not the shred's
            root[c.t.usize(0, 31)] ^= 1 << c.t.below(8);
            *sig = key.sign(root);
            payload[..64].copy_from_slice(&sig[..]);
            "claimed root"
        }
        3 => {
            payload[c.t.usize(0, 63)] ^= 1 << c.t.below(8);
            "shred signature"
        }
        _ => {
            // a signature over another message, in the instruction and the shred
            *sig = key.sign(b"something else");
            payload[..64].copy_from_slice(&sig[..]);
            "signature over something else"
        }
    };
    c.label(name);
    c.nontrivial();
    feed(c, &s);
    c.feed(&s.p1);
    c.feed(&s.p2);
    must_reject(c, &s, &mut svm, &format!("a bit of the {name} was changed"))
}

/// The root of a payload under a given reading, whatever its variant byte says.
fn lenient_root(p: &[u8], data: bool, chained: bool, resigned: bool, depth: u8, index: usize) -> Option<[u8; 32]> {
    use sha2::{Digest, Sha256};
    let spec = Spec { data, chained, resigned, depth, ..base_spec() };
    let len = p.len().min(spec.nominal());
    let end = len.checked_sub(if spec.resigned() { 64 } else { 0 })?;
    let po = end.checked_sub(20 * depth as usize)?;
    let mut h = Sha256::new();
    h.update(b"\x00SOLANA_MERKLE_SHREDS_LEAF");
    h.update(p.get(64..po)?);
    let mut node: [u8; 32] = h.finalize().into();
    let mut i = index;
    for e in p[po..end].chunks(20) {
        let mut h = Sha256::new();
        h.update(b"\x01SOLANA_MERKLE_SHREDS_NODE");
        let (l, r) = if i % 2 == 0 { (&node[..20], e) } else { (e, &node[..20]) };
        h.update(l);
        h.update(r);
        node = h.finalize().into();
        i /= 2;
    }
    Some(node)
}

fn base_spec() -> Spec {
    Spec {
        data: true,
        chained: false,
        resigned: false,
        depth: 0,
        slot: 0,
        index: 0,
        version: 0,
        fec: 0,
        parent_offset: 0,
        flags: 0,
        size: 0,
        num_data: 0,
        num_code: 0,
        position: 0,
        body: 1,
        retransmitter: 0,
    }
}

/// All 256 variant bytes: only the six Merkle variants are ever evidence, under
/// whatever layout the leader computed the signed root.
pub fn p06_variants(c: &mut Case) -> Result<(), String> {
    let v = c.t.below(256) as u8;
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let known = matches!(v >> 4, 4 | 6 | 7 | 8 | 9 | 0xb);
    let hi = if known { v >> 4 } else { *c.t.pick(&[4u8, 6, 7, 8, 9, 0xb]) };
    let (data, chained, resigned) = match hi {
        4 => (false, false, false),
        6 => (false, true, false),
        7 => (false, true, true),
        8 => (true, false, false),
        9 => (true, true, false),
        _ => (true, true, true),
    };
    let depth = v & 15;
    let mk = |seed: u64| Spec {
        data,
        chained,
        resigned,
        depth,
        slot,
        version,
        fec: 7,
        index: 7,
        num_data: 0,
        num_code: 1,
        position: 0,
        flags: 0,
        body: seed,
        ..base_spec()
    };
    let (s1, s2) = (c.t.seed(), c.t.seed() + (1 << 21));
    let build = |seed: u64| {
        let mut b = build_one(&mk(seed), seed, &key);
        if !known {
            b.payload[64] = v;
            // sign what a lenient reader would recover
            if let Some(r) = lenient_root(&b.payload, data, chained, resigned, depth, 0) {
                b.root = r;
                b.sig = key.sign(&r);
                b.payload[..64].copy_from_slice(&b.sig);
            }
        }
        b
    };
    let x = build(s1);
    let mut y = build(s2);
    if !known && c.t.bool() {
        // the other shred may be a proper one
        y = build_one(&Spec { body: s2, ..mk(s2) }, s2, &key);
    }
    let p = Pair { a: x, b: y, class: "variant" };
    let p = if c.t.bool() { p.swapped() } else { p };
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    c.label(if known { "Merkle variant" } else if v == LEGACY_CODE || v == LEGACY_DATA { "legacy" } else { "unknown variant" });
    let want = verdict_of(&s).is_some_and(|v| matches!(v, Verdict::Conflict(_)));
    if known != want {
        return Err(format!("HARNESS: variant {v:#04x} judged {want} by the model"));
    }
    p06_compare(c, &s, &mut svm)
}

/// Every truncation of both kinds of shreds, signed as a lenient reader would
/// recover them.
pub fn p06_truncated(c: &mut Case) -> Result<(), String> {
    let k = c.t.below(2 * 1228) as usize;
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let data = k % 2 == 0;
    let mut set = gen_set(&mut c.t, slot, version);
    set.slot = slot;
    let x = if data { set.data(0) } else { set.code(0) };
    let len = (k / 2).min(x.nominal() - 1);
    let mut a = build_one(&x, set.seed, &key);
    let b = build_one(&if data { set.data(0) } else { set.code(0) }, set.seed + 5, &key);
    a.payload.truncate(len);
    if c.t.bool() {
        if let Some(r) = lenient_root(&a.payload, x.data, x.chained, x.resigned, x.depth, x.leaf_index().unwrap()) {
            a.root = r;
            a.sig = key.sign(&r);
            let n = len.min(64);
            a.payload[..n].copy_from_slice(&a.sig[..n]);
            c.label("signed as truncated");
        }
    }
    c.label(if x.resigned() && len >= x.proof_end() { "only unsigned bytes missing" } else { "truncated" });
    let mut b = b;
    b.payload[..64].copy_from_slice(&b.sig);
    // make the roots differ even for equal trees
    let p = Pair { a, b, class: "truncated" };
    let p = if c.t.bool() { p.swapped() } else { p };
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    c.nontrivial();
    c.feed(&s.p1);
    c.feed(&s.p2);
    describe(c, &s, &svm);
    if verdict_of(&s).is_some() {
        return Err("HARNESS: truncated shred readable by the model".into());
    }
    must_reject(c, &s, &mut svm, &format!("a shred was cut to {len} bytes"))
}

/// Shreds outside their Merkle tree.
pub fn p06_position(c: &mut Case) -> Result<(), String> {
    let (key, slot, version, mut svm) = setup(&mut c.t);
    let mut set = gen_set(&mut c.t, slot, version);
    set.fec = set.fec.max(1);
    let mut x = set.nth(c.t.below(set.len() as u64) as u32);
    let depth = c.t.below(15) as u8;
    x.depth = depth;
    let what;
    if x.data && c.t.bool() {
        x.index = x.fec - 1 - c.t.below(x.fec.min(40) as u64) as u32;
        what = "index below its set";
    } else {
        let over = (1u64 << depth) + c.t.below(3) * (1 << depth) + c.t.below(1 << depth);
        if x.data {
            x.fec = x.fec.min(1 << 31);
            x.index = x.fec + over as u32;
        } else {
            x.num_data = (over / 2) as u16;
            x.position = (over - over / 2) as u16;
            x.index = x.index.max(x.position as u32);
        }
        what = "position beyond the tree";
    }
    let b = build_one(&set.data(0), set.seed + 9, &key);
    let mut a = build_one(&Spec { index: x.index.max(x.fec), ..x.clone() }, set.seed, &key);
    a.spec = x.clone();
    a.payload[73..77].copy_from_slice(&x.index.to_le_bytes());
    let guess = match x.leaf_index() {
        Some(i) => i,
        None => *c.t.pick(&[0usize, x.index.wrapping_sub(x.fec) as usize, (x.fec - x.index) as usize]),
    };
    let r = lenient_root(&a.payload, x.data, x.chained, x.resigned, x.depth, guess).unwrap();
    a.root = r;
    a.sig = key.sign(&r);
    a.payload[..64].copy_from_slice(&a.sig);
    let mut b = b;
    if b.spec.fec != x.fec {
        let y = Spec { fec: x.fec, index: x.fec, ..b.spec.clone() };
        b = build_one(&y, set.seed + 9, &key);
    }
    c.label(what);
    let p = Pair { a, b, class: "position" };
    let p = if c.t.bool() { p.swapped() } else { p };
    let mut s = Sub::new(&p, &key, slot);
    vary(&mut c.t, &mut s);
    if verdict_of(&s).is_some() {
        return Err("HARNESS: misplaced shred readable by the model".into());
    }
    c.nontrivial();
    feed(c, &s);
    must_reject(c, &s, &mut svm, &format!("a shred's {what}"))
}

// ---------------------------------------------------------------- the cluster's own software

thread_local! {
    static TOOL: std::cell::RefCell<Option<cluster::Tool>> = const { std::cell::RefCell::new(None) };
}

fn with_tool<T>(f: impl FnOnce(&mut cluster::Tool) -> Result<T, String>) -> Result<T, String> {
    TOOL.with(|t| f(cluster::get(&mut t.borrow_mut())?))
}

/// A block (or the first part of one) made by solana-ledger's shredder.
fn real_block(t: &mut Tape, tool: &mut cluster::Tool, key: &Key, slot: u64, version: u16) -> Result<Vec<Vec<u8>>, String> {
    let parent = slot - t.below(slot.min(9) + 1).max((slot > 0) as u64).min(slot);
    let (mut index, mut code_index) = (0u32, 0u32);
    let mut chained = t.chance(3, 4).then(|| blob32(t.seed()));
    let batches = [1, 1, 2, 3][t.below(4) as usize];
    let complete = t.chance(3, 4);
    let mut all: Vec<Vec<u8>> = vec![];
    for i in 0..batches {
        let n = *t.pick(&[1u64, 2, 20, 300, 700]) + t.below(10);
        let last = complete && i + 1 == batches;
        let tick = t.below(64) as u8;
        let v = tool.block(key, slot, parent, version, last, chained, index, code_index, tick, n, t.seed())?;
        for p in &v {
            let s = shred::read(p).map_err(|e| format!("HARNESS: unreadable shred from the shredder: {e:?}"))?;
            if s.spec.data {
                index = index.max(s.spec.index + 1);
            } else {
                code_index = code_index.max(s.spec.index + 1);
            }
            if chained.is_some() {
                chained = Some(s.root);
            }
        }
        all.extend(v);
    }
    Ok(all)
}

fn built(p: &[u8]) -> Result<Built, String> {
    let v = shred::read(p).map_err(|e| format!("HARNESS: {e:?}"))?;
    Ok(Built { spec: v.spec, payload: p.to_vec(), root: v.root, sig: v.sig })
}

/// The model's reading of a shred must be solana-ledger's.
fn same_reading(tool: &mut cluster::Tool, p: &[u8], key: &Key) -> Result<bool, String> {
    let (raw, parsed) = tool.parse(p, &key.pubkey())?;
    let mine = shred::read(p);
    match (&parsed, &mine) {
        (Ok(s), Ok(m)) => {
            let root = hex(&m.root);
            let e = |what: &str| Err(format!("HARNESS: model and solana-ledger differ in the {what} of {}", m.spec.brief()));
            if s.data != m.spec.data {
                return e("type");
            }
            if (s.slot, s.index, s.fec, s.version) != (m.spec.slot, m.spec.index, m.spec.fec, m.spec.version) {
                return e("header");
            }
            if s.last != m.last() {
                return e("last flag");
            }
            if s.root != root || raw != root {
                return e("Merkle root");
            }
            if s.signed != slashkit::crypto::verify(&key.pubkey().to_bytes(), &m.root, &m.sig) {
                return e("signature");
            }
            Ok(true)
        }
        (Ok(s), Err(e)) if s.root != "-" => {
            Err(format!("HARNESS: solana-ledger reads a shred that the model refuses ({e:?})"))
        }
        (Ok(_), Err(_)) => Ok(false),
        (Err(_), _) => Ok(false),
    }
}

/// Submits the pair and compares with what gossip says about it.
fn against_gossip(c: &mut Case, tool: &mut cluster::Tool, p: &Pair, key: &Key, slot: u64, svm: &Svm) -> Result<(), String> {
    let both = same_reading(tool, &p.a.payload, key)? & same_reading(tool, &p.b.payload, key)?;
    if !both {
        c.labels.push("refused by solana-ledger".into());
        return Ok(());
    }
    c.nontrivial();
    let mut svm = svm.clone();
    let elsewhere = p.views().is_none_or(|(a, b)| a.spec.slot != slot || b.spec.slot != slot);
    if elsewhere {
        // evidence about another slot than the reported one
        return must_reject(c, &Sub::new(p, key, slot), &mut svm, "a shred belongs to another slot");
    }
    let gossip = tool.check(&p.a.payload, &p.b.payload, &key.pubkey())?;
    let mut s = Sub::new(p, key, slot);
    vary(&mut c.t, &mut s);
    feed(c, &s);
    describe(c, &s, &svm);
    c.note(|| format!("  gossip: {gossip:?}"));
    let v = verdict_of(&s);
    let out = s.go(&mut svm);
    c.labels.push(match (&gossip, accepted(&out)) {
        (Ok(()), true) => "evidence for both".into(),
        (Err(e), false) => format!("gossip: {}", e.trim_start_matches("error ")),
        _ => "differ".to_string(),
    });
    match (&gossip, accepted(&out)) {
        (Ok(()), false) => Err(format!("gossip takes the pair for evidence, the program refuses it ({:?})", out.result)),
        // the one rule that the program has beyond gossip
        (Err(_), true) if v == Some(Verdict::Conflict(Rule::Overlap)) => Ok(()),
        (Err(e), true) => Err(format!("the program takes the pair for evidence, gossip does not ({e})")),
        _ => Ok(()),
    }
}

/// Two shreds of one block from the cluster's own shredder are no evidence.
pub fn p02_cluster(c: &mut Case) -> Result<(), String> {
    with_tool(|tool| {
        let (key, slot, version, svm) = setup(&mut c.t);
        let block = real_block(&mut c.t, tool, &key, slot, version)?;
        c.labels.push(match block.len() {
            0..=64 => "one set".into(),
            65..=128 => "two sets".into(),
            _ => "more sets".to_string(),
        });
        c.nontrivial();
        for _ in 0..8 {
            let n = block.len() as u64;
            let (i, j) = (c.t.below(n) as usize, c.t.below(n) as usize);
            let p = Pair { a: built(&block[i])?, b: built(&block[j])?, class: "one real block" };
            let mut s = Sub::new(&p, &key, slot);
            vary(&mut c.t, &mut s);
            feed(c, &s);
            if tool.check(&s.p1, &s.p2, &key.pubkey())?.is_ok() || verdict_of(&s) != Some(Verdict::NoConflict) {
                return Err("HARNESS: a real block conflicts with itself".into());
            }
            must_reject(c, &s, &mut svm.clone(), "both shreds belong to one block of the cluster's own shredder")?;
        }
        Ok(())
    })
}

/// Shreds of two blocks from the cluster's own shredder: evidence exactly when
/// gossip says so.
pub fn p03_cluster(c: &mut Case) -> Result<(), String> {
    with_tool(|tool| {
        let (key, slot, version, svm) = setup(&mut c.t);
        let one = real_block(&mut c.t, tool, &key, slot, version)?;
        let two = real_block(&mut c.t, tool, &key, slot, version)?;
        for _ in 0..6 {
            let (i, j) = (c.t.below(one.len() as u64) as usize, c.t.below(two.len() as u64) as usize);
            let mut p = Pair { a: built(&one[i])?, b: built(&two[j])?, class: "two real blocks" };
            if c.t.bool() {
                p = p.swapped();
            }
            against_gossip(c, tool, &p, &key, slot, &svm)?;
        }
        Ok(())
    })
}

/// The reading of generated and damaged shreds.
pub fn p06_cluster(c: &mut Case) -> Result<(), String> {
    with_tool(|tool| {
        let (key, slot, version, svm) = setup(&mut c.t);
        for _ in 0..4 {
            let mut p = any_pair(&mut c.t, slot, version, &key);
            match c.t.below(4) {
                0 => {
                    // any bit of the part that is read
                    let x = if c.t.bool() { &mut p.a } else { &mut p.b };
                    let at = if c.t.bool() { c.t.usize(64, 90) } else { c.t.usize(0, x.payload.len() - 1) };
                    x.payload[at] ^= 1 << c.t.below(8);
                    same_reading(tool, &x.payload.clone(), &key)?;
                    continue;
                }
                1 => {
                    let x = if c.t.bool() { &mut p.a } else { &mut p.b };
                    let n = c.t.usize(0, x.payload.len() + 20);
                    x.payload.resize(n, 7);
                    same_reading(tool, &x.payload.clone(), &key)?;
                    continue;
                }
                _ => (),
            }
            c.label(p.class);
            against_gossip(c, tool, &p, &key, slot, &svm)?;
        }
        Ok(())
    })
}
