//! Reference reading of Merkle shreds and of the duplicate-block rules, and
//! builders for shreds, written from the wire format, not from the program.
use {
    crate::{crypto::Key, tape::{blob, Tape}},
    sha2::{Digest, Sha256},
    std::collections::BTreeMap,
};

pub const DATA_LEN: usize = 1203;
pub const CODE_LEN: usize = 1228;
pub const LEGACY_CODE: u8 = 0x5A;
pub const LEGACY_DATA: u8 = 0xA5;
pub const LAST: u8 = 0b1100_0000;
pub const COMPLETE: u8 = 0b0100_0000;

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn leaf_hash(b: &[u8]) -> [u8; 32] {
    sha(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", b])
}

fn join(l: &[u8], r: &[u8]) -> [u8; 32] {
    sha(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", &l[..20], &r[..20]])
}

/// The fields of a shred and how it is laid out.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub data: bool,
    pub chained: bool,
    pub resigned: bool,
    pub depth: u8,
    pub slot: u64,
    pub index: u32,
    pub version: u16,
    pub fec: u32,
    // data
    pub parent_offset: u16,
    pub flags: u8,
    pub size: u16,
    // code
    pub num_data: u16,
    pub num_code: u16,
    pub position: u16,
    pub body: u64,
    pub retransmitter: u64,
}

impl Spec {
    pub fn variant(&self) -> u8 {
        let hi = match (self.data, self.chained, self.resigned) {
            (false, false, _) => 0x40,
            (false, true, false) => 0x60,
            (false, true, true) => 0x70,
            (true, false, _) => 0x80,
            (true, true, false) => 0x90,
            (true, true, true) => 0xb0,
        };
        hi | self.depth
    }
    pub fn nominal(&self) -> usize {
        if self.data {
            DATA_LEN
        } else {
            CODE_LEN
        }
    }
    pub fn resigned(&self) -> bool {
        self.chained && self.resigned
    }
    pub fn proof_end(&self) -> usize {
        self.nominal() - if self.resigned() { 64 } else { 0 }
    }
    pub fn proof_offset(&self) -> usize {
        self.proof_end() - 20 * self.depth as usize
    }
    /// Position of this shred in its Merkle tree.
    pub fn leaf_index(&self) -> Option<usize> {
        if self.data {
            self.index.checked_sub(self.fec).map(|x| x as usize)
        } else {
            Some(self.num_data as usize + self.position as usize)
        }
    }
    /// The shred without signature and Merkle proof.
    pub fn bare(&self) -> Vec<u8> {
        let mut p = blob(self.body, self.nominal());
        p[..64].fill(0);
        p[64] = self.variant();
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        if self.data {
            p[83..85].copy_from_slice(&self.parent_offset.to_le_bytes());
            p[85] = self.flags;
            p[86..88].copy_from_slice(&self.size.to_le_bytes());
        } else {
            p[83..85].copy_from_slice(&self.num_data.to_le_bytes());
            p[85..87].copy_from_slice(&self.num_code.to_le_bytes());
            p[87..89].copy_from_slice(&self.position.to_le_bytes());
        }
        let end = self.proof_end();
        p[self.proof_offset()..end].fill(0);
        let r = blob(self.retransmitter, p.len() - end);
        p[end..].copy_from_slice(&r);
        p
    }
    pub fn brief(&self) -> String {
        if self.data {
            format!(
                "data slot={} fec={} index={} version={} flags={:#04x} variant={:#04x}",
                self.slot, self.fec, self.index, self.version, self.flags, self.variant()
            )
        } else {
            format!(
                "code slot={} fec={} index={} version={} num_data={} num_code={} position={} variant={:#04x}",
                self.slot, self.fec, self.index, self.version, self.num_data, self.num_code,
                self.position, self.variant()
            )
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Built {
    pub spec: Spec,
    pub payload: Vec<u8>,
    pub root: [u8; 32],
    pub sig: [u8; 64],
}

/// Root and proofs of a Merkle tree of which only the given leaves are known;
/// the rest is filler derived from `seed`.
pub fn sparse_tree(leaves: &[(usize, [u8; 32])], depth: u8, seed: u64) -> ([u8; 32], Vec<Vec<[u8; 20]>>) {
    let mut level: BTreeMap<usize, [u8; 32]> = leaves.iter().cloned().collect();
    let mut at: Vec<usize> = leaves.iter().map(|l| l.0).collect();
    let mut proofs = vec![vec![]; leaves.len()];
    for l in 0..depth as u64 {
        let node = |i: usize, level: &BTreeMap<usize, [u8; 32]>| -> [u8; 32] {
            level.get(&i).copied().unwrap_or_else(|| {
                sha(&[b"filler", &seed.to_le_bytes(), &l.to_le_bytes(), &(i as u64).to_le_bytes()])
            })
        };
        for (k, i) in at.iter_mut().enumerate() {
            let sib = node(*i ^ 1, &level);
            proofs[k].push(sib[..20].try_into().unwrap());
            *i >>= 1;
        }
        let mut up = BTreeMap::new();
        for i in level.keys().map(|i| i >> 1).collect::<Vec<_>>() {
            up.insert(i, join(&node(2 * i, &level), &node(2 * i + 1, &level)));
        }
        level = up;
    }
    (*level.values().next().unwrap(), proofs)
}

/// Builds shreds that all belong to one Merkle tree (same depth) and signs its root.
pub fn build_tree(specs: &[Spec], seed: u64, key: &Key) -> Vec<Built> {
    let bare: Vec<Vec<u8>> = specs.iter().map(|s| s.bare()).collect();
    let leaves: Vec<(usize, [u8; 32])> = specs
        .iter()
        .zip(&bare)
        .map(|(s, b)| (s.leaf_index().unwrap_or(0), leaf_hash(&b[64..s.proof_offset()])))
        .collect();
    let (root, proofs) = sparse_tree(&leaves, specs[0].depth, seed);
    let sig = key.sign(&root);
    specs
        .iter()
        .zip(bare)
        .zip(proofs)
        .map(|((s, mut payload), proof)| {
            payload[..64].copy_from_slice(&sig);
            let mut at = s.proof_offset();
            for e in proof {
                payload[at..at + 20].copy_from_slice(&e);
                at += 20;
            }
            Built { spec: s.clone(), payload, root, sig }
        })
        .collect()
}

pub fn build_one(spec: &Spec, seed: u64, key: &Key) -> Built {
    build_tree(std::slice::from_ref(spec), seed, key).pop().unwrap()
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    TooShort,
    Legacy,
    UnknownVariant,
    BadProof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub spec: Spec,
    pub root: [u8; 32],
    pub sig: [u8; 64],
    /// the bytes the leader's signature covers, with the signature and proof
    pub signed: Vec<u8>,
}

impl View {
    pub fn last(&self) -> bool {
        self.spec.data && self.spec.flags & LAST == LAST
    }
    pub fn erasure(&self) -> (u16, u16, i64) {
        (self.spec.num_data, self.spec.num_code, self.spec.index as i64 - self.spec.position as i64)
    }
}

/// Reads a Merkle shred the way the cluster does: bytes past the nominal length
/// are not part of the shred.
pub fn read(payload: &[u8]) -> Result<View, Bad> {
    let v = *payload.get(64).ok_or(Bad::TooShort)?;
    if v == LEGACY_CODE || v == LEGACY_DATA {
        return Err(Bad::Legacy);
    }
    let (data, chained, resigned) = match v >> 4 {
        0x4 => (false, false, false),
        0x6 => (false, true, false),
        0x7 => (false, true, true),
        0x8 => (true, false, false),
        0x9 => (true, true, false),
        0xb => (true, true, true),
        _ => return Err(Bad::UnknownVariant),
    };
    let len = if data { DATA_LEN } else { CODE_LEN };
    let p = payload.get(..len).ok_or(Bad::TooShort)?;
    let u16_ = |a: usize| u16::from_le_bytes([p[a], p[a + 1]]);
    let u32_ = |a: usize| u32::from_le_bytes(p[a..a + 4].try_into().unwrap());
    let spec = Spec {
        data,
        chained,
        resigned,
        depth: v & 15,
        slot: u64::from_le_bytes(p[65..73].try_into().unwrap()),
        index: u32_(73),
        version: u16_(77),
        fec: u32_(79),
        parent_offset: if data { u16_(83) } else { 0 },
        flags: if data { p[85] } else { 0 },
        size: if data { u16_(86) } else { 0 },
        num_data: if data { 0 } else { u16_(83) },
        num_code: if data { 0 } else { u16_(85) },
        position: if data { 0 } else { u16_(87) },
        body: 0,
        retransmitter: 0,
    };
    let mut i = spec.leaf_index().ok_or(Bad::BadProof)?;
    let (po, pe) = (spec.proof_offset(), spec.proof_end());
    let mut node = leaf_hash(&p[64..po]);
    for e in p[po..pe].chunks(20) {
        node = if i % 2 == 0 { join(&node, e) } else { join(e, &node) };
        i /= 2;
    }
    if i != 0 {
        return Err(Bad::BadProof);
    }
    Ok(View { sig: p[..64].try_into().unwrap(), root: node, signed: p[..pe].to_vec(), spec })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rule {
    MerkleRoot,
    Overlap,
    Payload,
    LastIndex,
    Erasure,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Conflict(Rule),
    NoConflict,
    SlotMismatch,
    VersionMismatch,
    /// The numbers in a coding shred leave the 32-bit range; no shredder emits
    /// such shreds and nothing is required of them.
    OutOfRange,
}

/// Which duplicate-block rule, if any, the two shreds break. The rules are
/// alternatives; the first that applies is named.
pub fn verdict(a: &View, b: &View, slot: u64) -> Verdict {
    let (x, y) = (&a.spec, &b.spec);
    if x.slot != slot || y.slot != slot {
        return Verdict::SlotMismatch;
    }
    if x.version != y.version {
        return Verdict::VersionMismatch;
    }
    let odd = |s: &Spec| {
        !s.data && (s.fec as u64 + s.num_data as u64 > u32::MAX as u64 || s.position as u32 > s.index)
    };
    if x.fec == y.fec && a.root != b.root {
        return Verdict::Conflict(Rule::MerkleRoot);
    }
    if odd(x) || odd(y) {
        return Verdict::OutOfRange;
    }
    let reaches = |c: &Spec, o: &Spec| {
        !c.data && c.fec < o.fec && (c.fec as u64 + c.num_data as u64) > o.fec as u64
    };
    if reaches(x, y) || reaches(y, x) {
        return Verdict::Conflict(Rule::Overlap);
    }
    if x.data != y.data {
        return Verdict::NoConflict;
    }
    if x.index == y.index {
        return if a.signed != b.signed { Verdict::Conflict(Rule::Payload) } else { Verdict::NoConflict };
    }
    if x.data {
        let past = |l: &View, o: &View| l.last() && o.spec.index > l.spec.index;
        if past(a, b) || past(b, a) {
            return Verdict::Conflict(Rule::LastIndex);
        }
    } else if x.fec == y.fec && a.erasure() != b.erasure() {
        return Verdict::Conflict(Rule::Erasure);
    }
    Verdict::NoConflict
}

// ------------------------------------------------------------- generation

/// One erasure set of a block.
#[derive(Clone, Debug)]
pub struct Set {
    pub fec: u32,
    pub nd: u16,
    pub nc: u16,
    pub first_code: u32,
    pub depth: u8,
    pub chained: bool,
    pub resigned: bool,
    pub slot: u64,
    pub version: u16,
    pub last: bool,
    pub seed: u64,
}

fn log2_ceil(n: usize) -> u8 {
    let mut d = 0;
    while (1usize << d) < n {
        d += 1;
    }
    d
}

impl Set {
    pub fn data(&self, pos: u16) -> Spec {
        Spec {
            data: true,
            index: self.fec + pos as u32,
            flags: if self.last && pos + 1 == self.nd { LAST } else if pos + 1 == self.nd { COMPLETE } else { 0 }
                | (self.seed as u8 & 0x3f),
            parent_offset: 1 + (self.seed % 3) as u16,
            size: 88 + (self.seed % 500) as u16,
            ..self.base(pos as u64)
        }
    }
    pub fn code(&self, pos: u16) -> Spec {
        Spec {
            data: false,
            index: self.first_code + pos as u32,
            num_data: self.nd,
            num_code: self.nc,
            position: pos,
            ..self.base(0x10000 + pos as u64)
        }
    }
    fn base(&self, k: u64) -> Spec {
        Spec {
            data: true,
            chained: self.chained,
            resigned: self.resigned,
            depth: self.depth,
            slot: self.slot,
            index: 0,
            version: self.version,
            fec: self.fec,
            parent_offset: 0,
            flags: 0,
            size: 0,
            num_data: 0,
            num_code: 0,
            position: 0,
            body: self.seed.wrapping_mul(0x1_0000_1).wrapping_add(k) | 1,
            retransmitter: 0,
        }
    }
    /// The k-th shred of the set, data first.
    pub fn nth(&self, k: u32) -> Spec {
        if k < self.nd as u32 {
            self.data(k as u16)
        } else {
            self.code((k - self.nd as u32) as u16)
        }
    }
    pub fn len(&self) -> u32 {
        self.nd as u32 + self.nc as u32
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn with_depth(mut self, t: &mut Tape) -> Self {
        let min = log2_ceil(self.len() as usize);
        self.depth = if t.chance(1, 3) { t.range(min as u64, 15) as u8 } else { min };
        self
    }
}

pub fn gen_variant(t: &mut Tape) -> (bool, bool) {
    *t.pick(&[(false, false), (true, false), (true, true)])
}

/// Any erasure set with plausible counts.
pub fn gen_set(t: &mut Tape, slot: u64, version: u16) -> Set {
    let nd = match t.below(8) {
        0 => 1,
        1 => t.range(1, 3) as u16,
        2 => 64,
        3 => t.range(65, 200) as u16,
        4 => t.range(1, 67) as u16,
        _ => 32,
    };
    let nc = match t.below(6) {
        0 => 1,
        1 => t.range(1, 3) as u16,
        2 => t.range(1, 67) as u16,
        _ => nd.max(32),
    };
    let fec = match t.below(8) {
        0 => 0,
        1 => t.range(1, 5) as u32,
        2 => t.range(0, 2000) as u32,
        3 => 32 * t.range(0, 1000) as u32,
        4 => 32767 - t.range(0, 300) as u32,
        5 => 65536 - t.range(0, 300) as u32,
        6 => u32::MAX - 2000 - t.range(0, 300) as u32,
        _ => t.range(0, u32::MAX as u64 - 4000) as u32,
    };
    let first_code = match t.below(4) {
        0 => fec,
        1 => 0,
        2 => t.range(0, 2000) as u32,
        _ => t.range(0, u32::MAX as u64 - 4000) as u32,
    };
    let (chained, resigned) = gen_variant(t);
    Set { fec, nd, nc, first_code, depth: 0, chained, resigned, slot, version, last: t.bool(), seed: t.seed() }
        .with_depth(t)
}

/// A whole block as an honest leader produces it: consecutive erasure sets, one
/// last shred.
pub fn gen_block(t: &mut Tape, slot: u64, version: u16) -> Vec<Set> {
    let n = t.range(1, 6);
    let base = match t.below(4) {
        0 | 1 => 0u32,
        2 => t.range(0, 30000) as u32,
        _ => t.range(0, u32::MAX as u64 - 10_000) as u32,
    };
    let mut fec = base;
    let mut code = base;
    let (chained, resigned) = gen_variant(t);
    let equal = t.bool();
    let mut v = vec![];
    for i in 0..n {
        let nd = if equal { 32 } else { t.range(1, 67) as u16 };
        let nc = if equal { 32 } else { t.range(1, 67) as u16 };
        let last = i + 1 == n;
        let s = Set {
            fec,
            nd,
            nc,
            first_code: code,
            depth: log2_ceil(nd as usize + nc as usize),
            chained,
            // only the last set of a block is signed by retransmitters
            resigned: chained && (resigned && last),
            slot,
            version,
            last,
            seed: t.seed(),
        };
        fec += nd as u32;
        code += nc as u32;
        v.push(s);
    }
    v
}

/// How two generated shreds relate.
#[derive(Clone, Debug)]
pub struct Pair {
    pub a: Built,
    pub b: Built,
    pub class: &'static str,
}

impl Pair {
    pub fn views(&self) -> Option<(View, View)> {
        Some((read(&self.a.payload).ok()?, read(&self.b.payload).ok()?))
    }
    pub fn swapped(self) -> Self {
        Pair { a: self.b, b: self.a, class: self.class }
    }
}

fn two_trees(a: Spec, sa: u64, b: Spec, sb: u64, key: &Key, class: &'static str) -> Pair {
    Pair { a: build_one(&a, sa, key), b: build_one(&b, sb, key), class }
}

/// Two shreds of one tree; falls back to two trees when they are the same leaf
/// with different content.
fn one_tree(a: Spec, b: Spec, seed: u64, key: &Key, class: &'static str) -> Pair {
    if a.depth == b.depth && a.leaf_index() != b.leaf_index() {
        let mut v = build_tree(&[a, b], seed, key);
        let b = v.pop().unwrap();
        Pair { a: v.pop().unwrap(), b, class }
    } else {
        two_trees(a, seed, b, seed, key, class)
    }
}

fn retransmit(t: &mut Tape, s: &mut Spec) {
    if s.resigned() {
        s.retransmitter = if t.bool() { t.seed() } else { 0 };
    }
}

/// Two shreds (possibly the same one) of one honestly produced block.
pub fn gen_honest_pair(t: &mut Tape, slot: u64, version: u16, key: &Key) -> Pair {
    let block = gen_block(t, slot, version);
    let i = t.below(block.len() as u64) as usize;
    let j = match t.below(3) {
        0 => i,
        1 => (i + 1).min(block.len() - 1),
        _ => t.below(block.len() as u64) as usize,
    };
    let pick = |t: &mut Tape, s: &Set| -> Spec {
        let k = match t.below(4) {
            0 => 0,
            1 => s.nd as u64 - 1,
            2 => s.nd as u64,
            _ => t.below(s.len() as u64),
        } as u32;
        let mut sp = s.nth(k.min(s.len() - 1));
        retransmit(t, &mut sp);
        sp
    };
    let a = pick(t, &block[i]);
    let mut b = pick(t, &block[j]);
    if i == j {
        if t.chance(1, 4) {
            let r = b.retransmitter;
            b = a.clone();
            if b.resigned() {
                b.retransmitter = r;
            }
        }
        if a.leaf_index() == b.leaf_index() {
            let x = build_one(&a, block[i].seed, key);
            let y = build_one(&b, block[i].seed, key);
            return Pair { a: x, b: y, class: "honest: one shred twice" };
        }
        one_tree(a, b, block[i].seed, key, "honest: one set")
    } else {
        two_trees(a, block[i].seed, b, block[j].seed, key, "honest: two sets")
    }
}

/// Two shreds of an equivocating leader that break one of the rules.
pub fn gen_conflict_pair(t: &mut Tape, slot: u64, version: u16, key: &Key) -> Pair {
    let class = t.below(7);
    let p = match class {
        0 | 1 => {
            // two versions of one set
            let s = gen_set(t, slot, version);
            let mut o = if t.bool() {
                s.clone()
            } else {
                let mut o = gen_set(t, slot, version);
                o.fec = s.fec;
                o
            };
            o.seed = s.seed + 1 + t.below(1000);
            let x = s.nth(t.below(s.len() as u64) as u32);
            let y = o.nth(t.below(o.len() as u64) as u32);
            two_trees(x, s.seed, y, o.seed, key, "two versions of a set")
        }
        2 => {
            // sets that overlap
            let mut s = gen_set(t, slot, version);
            s.nd = s.nd.max(2);
            let s = s.with_depth(t);
            let mut o = gen_set(t, slot, version);
            let d = match t.below(3) {
                0 => 1,
                1 => s.nd as u32 - 1,
                _ => t.range(1, s.nd as u64 - 1) as u32,
            };
            o.fec = s.fec + d;
            let x = s.code(t.below(s.nc as u64) as u16);
            let y = o.nth(t.below(o.len() as u64) as u32);
            two_trees(x, s.seed, y, o.seed, key, "overlapping sets")
        }
        3 => {
            // one index, two sets
            let data = t.bool();
            let s = gen_set(t, slot, version);
            let mut o = gen_set(t, slot, version);
            if data {
                let k = t.below(s.nd as u64) as u16;
                let x = s.data(k);
                // the other set begins elsewhere but holds the same index
                let d = t.range(0, 60) as u32;
                o.fec = x.index.saturating_sub(d);
                if o.fec == s.fec {
                    o.fec = if s.fec > 0 && x.index - (s.fec - 1) < 4000 { s.fec - 1 } else { (s.fec + 1).min(x.index) };
                }
                let pos = (x.index - o.fec) as u16;
                o.nd = o.nd.max(pos + 1);
                let o = o.with_depth(t);
                let y = o.data(pos);
                two_trees(x, s.seed, y, o.seed + 1, key, "one data index, two sets")
            } else {
                let k = t.below(s.nc as u64) as u16;
                let x = s.code(k);
                let k2 = t.below(o.nc as u64) as u16;
                o.first_code = x.index.saturating_sub(k2 as u32);
                let pos = (x.index - o.first_code) as u16;
                let y = o.code(pos);
                two_trees(x, s.seed, y, o.seed + 1, key, "one code index, two sets")
            }
        }
        4 => {
            // a shred past the last one
            let mut s = gen_set(t, slot, version);
            s.last = true;
            if t.bool() && s.nd > 1 {
                // in the same tree
                let x_pos = t.below(s.nd as u64 - 1) as u16;
                let mut x = s.data(x_pos);
                x.flags |= LAST;
                let mut y = s.data(t.range(x_pos as u64 + 1, s.nd as u64 - 1) as u16);
                if t.bool() {
                    y.flags &= 0x3f;
                }
                one_tree(x, y, s.seed, key, "past the last shred, one set")
            } else {
                let x = s.data(s.nd - 1);
                let mut o = gen_set(t, slot, version);
                o.fec = match t.below(3) {
                    0 => x.index + 1,
                    1 => x.index + 1 + t.below(1000) as u32,
                    _ => x.index.saturating_sub(t.below(30) as u32),
                };
                let lo = (x.index + 1).saturating_sub(o.fec);
                o.nd = o.nd.max(lo as u16 + 1);
                let o = o.with_depth(t);
                let y = o.data(t.range(lo as u64, o.nd as u64 - 1) as u16);
                two_trees(x, s.seed, y, o.seed + 1, key, "past the last shred, two sets")
            }
        }
        5 => {
            // coding shreds of one tree that disagree about the set
            let mut s = gen_set(t, slot, version);
            s.nc = s.nc.max(2);
            s.nd = s.nd.max(2);
            let s = s.with_depth(t);
            let x = s.code(0);
            let mut y = s.code(t.range(1, s.nc as u64 - 1) as u16);
            match t.below(4) {
                0 if t.bool() => y.num_code ^= 1 << t.below(9),
                0 => y.num_code = y.num_code.wrapping_add(1 + t.below(5) as u16),
                1 if t.bool() => {
                    let far = 1u32 << t.below(32);
                    y.index = y.index.checked_add(far).unwrap_or_else(|| y.index - far);
                }
                1 => y.index += 1 + t.below(40) as u32,
                2 => {
                    y.num_data -= 1;
                    y.position += t.below(2) as u16;
                }
                _ => {
                    y.num_data += 1;
                    y.position -= 1;
                    if y.leaf_index() == x.leaf_index() {
                        y.position += 1;
                        if y.leaf_index().unwrap() >= 1 << y.depth {
                            y.num_code += 1;
                            y.num_data -= 1;
                        }
                    }
                }
            }
            y.index = y.index.max(y.position as u32);
            one_tree(x, y, s.seed, key, "one set, two erasure configurations")
        }
        _ => {
            // one index in one tree, two leaves
            let mut s = gen_set(t, slot, version);
            s.nc = s.nc.max(2);
            let s = s.with_depth(t);
            let x = s.code(0);
            let mut y = s.code(1);
            y.index = x.index.max(1);
            let mut x = x;
            x.index = y.index;
            one_tree(x, y, s.seed, key, "one code index, two leaves of one tree")
        }
    };
    let mut p = p;
    if t.chance(1, 4) {
        relay(t, &mut p.a);
        relay(t, &mut p.b);
    }
    if t.bool() {
        p.swapped()
    } else {
        p
    }
}

/// Overwrites the retransmitter's signature.
pub fn relay(t: &mut Tape, b: &mut Built) {
    if b.spec.resigned() {
        b.spec.retransmitter = t.seed();
        let end = b.spec.proof_end();
        let r = blob(b.spec.retransmitter, 64);
        b.payload[end..].copy_from_slice(&r);
    }
}

/// Sometimes the sets' numbers differ in one bit only.
fn distant(t: &mut Tape, s: &Set, o: &mut Set) {
    if t.chance(1, 4) {
        let fec = s.fec ^ (1 << t.below(31));
        if fec < u32::MAX - (1 << 18) {
            o.fec = fec;
        }
    }
}

/// Pairs that come close to breaking a rule, or do; the model tells which.
pub fn gen_near_pair(t: &mut Tape, slot: u64, version: u16, key: &Key) -> Pair {
    let p = match t.below(9) {
        0 => {
            // adjacent or nearly adjacent sets
            let s = gen_set(t, slot, version);
            let mut o = gen_set(t, slot, version);
            o.fec = (s.fec + s.nd as u32).wrapping_add(t.below(3) as u32).wrapping_sub(1);
            let x = if t.bool() { s.code(t.below(s.nc as u64) as u16) } else { s.data(s.nd - 1) };
            let y = o.nth(t.below(o.len() as u64) as u32);
            two_trees(x, s.seed, y, o.seed + 1, key, "adjacent sets")
        }
        1 => {
            // one index, different types
            let mut s = gen_set(t, slot, version);
            let k = t.below(s.nd as u64) as u16;
            let j = t.below(s.nc as u64) as u16;
            s.first_code = (s.fec + k as u32).saturating_sub(j as u32);
            let x = s.data(k);
            let y = s.code(j);
            one_tree(x, y, s.seed, key, "data and code of one set at one index")
        }
        2 => {
            // data shreds around the last index
            let mut s = gen_set(t, slot, version);
            s.last = true;
            let s = s;
            let mut x = s.data(t.below(s.nd as u64) as u16);
            let mut y = s.data(t.below(s.nd as u64) as u16);
            x.flags = (x.flags & 0x3f) | *t.pick(&[0xc0u8, 0x80, 0x40, 0]);
            y.flags = (y.flags & 0x3f) | *t.pick(&[0xc0u8, 0x80, 0x40, 0]);
            if x.index == y.index {
                y = x.clone();
            }
            if t.bool() {
                one_tree(x, y, s.seed, key, "flags in one set")
            } else {
                y.fec = y.fec.saturating_sub(1 + t.below(8) as u32);
                let y2 = y.clone();
                if y2.leaf_index().unwrap() >= 1 << y2.depth {
                    y.depth = 15;
                }
                two_trees(x, s.seed, y, s.seed + 1, key, "flags in two sets")
            }
        }
        3 => {
            // consistent coding shreds
            let mut s = gen_set(t, slot, version);
            if t.chance(1, 3) {
                // positions that need more than a byte
                s.nc = t.range(200, 1900) as u16;
                s = s.with_depth(t);
            }
            let x = s.code(t.below(s.nc as u64) as u16);
            let y = s.code(t.below(s.nc as u64) as u16);
            one_tree(x, y, s.seed, key, "coding shreds of one set")
        }
        4 => {
            // coding shreds of different sets with different configurations
            let s = gen_set(t, slot, version);
            let mut o = gen_set(t, slot, version);
            o.fec = s.fec.saturating_add(s.nd as u32 + t.below(100) as u32);
            distant(t, &s, &mut o);
            let x = s.code(t.below(s.nc as u64) as u16);
            let y = o.code(t.below(o.nc as u64) as u16);
            two_trees(x, s.seed, y, o.seed + 1, key, "coding shreds of two sets")
        }
        5 => {
            // another slot or version
            let p = gen_conflict_pair(t, slot, version, key);
            let (mut x, mut y) = (p.a.spec, p.b.spec);
            match t.below(7) {
                0 => x.slot = x.slot.wrapping_add(1),
                1 => y.slot = y.slot.wrapping_sub(1),
                5 => x.slot ^= 1 << t.below(64),
                6 => y.slot ^= 1 << t.below(64),
                2 => {
                    x.slot ^= 1 << t.below(64);
                    y.slot = x.slot;
                }
                3 => x.version ^= 1 << t.below(16),
                _ => y.version = y.version.wrapping_add(1),
            }
            let s = t.seed();
            return two_trees(x, s, y, s + 1, key, "slot or version differs");
        }
        6 => {
            // two data shreds without a last flag, or a last one with a lower one
            let s = gen_set(t, slot, version);
            let mut o = gen_set(t, slot, version);
            if s.fec == o.fec {
                o.fec += 1;
            }
            distant(t, &s, &mut o);
            let mut x = s.data(t.below(s.nd as u64) as u16);
            let mut y = o.data(t.below(o.nd as u64) as u16);
            if x.index < y.index {
                x.flags &= 0x7f;
            } else if y.index < x.index {
                y.flags &= 0x7f;
            }
            two_trees(x, s.seed, y, o.seed + 1, key, "data shreds of two sets")
        }
        7 => {
            let s = gen_set(t, slot, version);
            let x = s.nth(t.below(s.len() as u64) as u32);
            let mut y = x.clone();
            retransmit(t, &mut y);
            two_trees(x, s.seed, y, s.seed, key, "one shred twice")
        }
        _ => {
            let s = gen_set(t, slot, version);
            let mut o = gen_set(t, slot, version);
            if t.bool() {
                o.fec = s.fec.saturating_add(t.below(80) as u32).saturating_sub(40);
                if o.fec == s.fec {
                    o.fec += 1;
                }
            }
            distant(t, &s, &mut o);
            let x = s.nth(t.below(s.len() as u64) as u32);
            let y = o.nth(t.below(o.len() as u64) as u32);
            two_trees(x, s.seed, y, o.seed + 1, key, "any two shreds")
        }
    };
    let mut p = p;
    if t.chance(1, 4) {
        relay(t, &mut p.b);
    }
    if t.bool() {
        p.swapped()
    } else {
        p
    }
}

/// Two shreds whose numbers come from tiny ranges, so that every relation
/// between them (equal, adjacent, overlapping, beyond) is common.
pub fn gen_dense_pair(t: &mut Tape, slot: u64, version: u16, key: &Key) -> Pair {
    let depth = t.range(2, 4) as u8;
    let base = *t.pick(&[0u32, 1, 30, 1000, 32760, 65530, u32::MAX - 64]);
    let one = |t: &mut Tape| -> Spec {
        let data = t.bool();
        let (chained, resigned) = gen_variant(t);
        let fec = base + t.below(7) as u32;
        Spec {
            data,
            chained,
            resigned,
            depth,
            slot,
            index: if data { fec + t.below(7) as u32 } else { base + 4 + t.below(6) as u32 },
            version,
            fec,
            parent_offset: 1,
            flags: *t.pick(&[0u8, 0xc0, 0x40, 0x80, 0x3f, 0xff]),
            size: 88,
            num_data: t.below(6) as u16,
            num_code: t.below(4) as u16,
            position: t.below(4) as u16,
            body: t.seed(),
            retransmitter: 0,
        }
    };
    let mut a = one(t);
    let mut b = one(t);
    if t.chance(2, 5) {
        b.fec = a.fec;
        if b.data {
            b.index = b.index.max(b.fec);
        }
    }
    let seed = t.seed();
    // keep the leaves inside the tree
    for s in [&mut a, &mut b] {
        if s.leaf_index().is_none_or(|i| i >= 1 << s.depth) {
            s.depth = 4;
            if s.leaf_index().is_none_or(|i| i >= 16) {
                s.index = s.fec;
            }
        }
    }
    if t.bool() {
        let d = a.depth.max(b.depth);
        a.depth = d;
        b.depth = d;
        one_tree(a, b, seed, key, "dense, one tree")
    } else {
        two_trees(a, seed, b, seed + 1, key, "dense, two trees")
    }
}
