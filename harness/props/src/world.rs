//! The slashing program inside the miniature runtime, and independent
//! encodings of everything that is sent to it.
use {
    slashkit::{
        crypto::Key,
        engine::Case,
        shred::{self, Pair, View},
        svm::{ids, Account, Svm, TopIx, TxErr, TxOut},
        tape::{blob, blob32, Tape},
    },
    solana_program::{
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        pubkey::Pubkey,
    },
};

pub const SLASHING: Pubkey = Pubkey::from_str_const("S1ashing11111111111111111111111111111111111");
pub const REPORT_HEADER: usize = 1 + 32 + 32 + 8 + 32 + 8 + 1;
pub const IX_LEN: usize = 1 + 8 + 8 + 3 * 32 + 2 * (32 + 64);

/// The published error numbers.
pub mod code {
    pub const CLOSE_TOO_SOON: u32 = 0;
    pub const DESTINATION_IS_REPORT: u32 = 1;
    pub const DUPLICATE_REPORT: u32 = 2;
    pub const STATUTE: u32 = 3;
    pub const INVALID_DESTINATION: u32 = 4;
    pub const INVALID_VARIANT: u32 = 5;
    pub const INVALID_MERKLE: u32 = 6;
    pub const INVALID_PAYLOAD_PROOF: u32 = 7;
    pub const INVALID_ERASURE: u32 = 8;
    pub const INVALID_INSTRUCTION: u32 = 9;
    pub const INVALID_LAST_INDEX: u32 = 10;
    pub const INVALID_REPORT_ACCOUNT: u32 = 11;
    pub const SHRED_VERSION: u32 = 12;
    pub const INVALID_SIGVERIFY: u32 = 13;
    pub const LEGACY: u32 = 14;
    pub const MISSING_IX_SYSVAR: u32 = 15;
    pub const MISSING_SIGVERIFY: u32 = 16;
    pub const MISSING_SYSTEM: u32 = 17;
    pub const PROOF_TOO_SMALL: u32 = 19;
    pub const NOT_PREFUNDED: u32 = 20;
    pub const SHRED_DESERIALIZE: u32 = 21;
    pub const SHRED_TYPE: u32 = 22;
    pub const SIG_MISMATCH: u32 = 23;
    pub const SLOT_MISMATCH: u32 = 24;
}

pub fn custom(out: &TxOut) -> Option<u32> {
    match out.err() {
        Some(TxErr::Program(ProgramError::Custom(c))) => Some(*c),
        _ => None,
    }
}

pub fn program(_: &Pubkey, a: &[solana_program::account_info::AccountInfo], d: &[u8]) -> solana_program::entrypoint::ProgramResult {
    solana_slashing_program::processor::process_instruction(&SLASHING, a, d)
}

pub fn new_svm() -> Svm {
    let mut s = Svm::new();
    s.register(SLASHING, program);
    s
}

/// The documented address of a report.
pub fn pda(node: &Pubkey, slot: u64) -> Pubkey {
    Pubkey::find_program_address(&[node.as_ref(), &slot.to_le_bytes(), &[1]], &SLASHING).0
}

pub fn wallet(seed: u64) -> Pubkey {
    Pubkey::new_from_array(blob32(seed ^ 0x3A11_0000_0000))
}

pub fn pack(p1: &[u8], p2: &[u8]) -> Vec<u8> {
    let mut v = (p1.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(p1);
    v.extend_from_slice(&(p2.len() as u32).to_le_bytes());
    v.extend_from_slice(p2);
    v
}

/// One report request, all of whose parts can be changed independently.
#[derive(Clone, Debug)]
pub struct Sub {
    pub node: Pubkey,
    pub slot: u64,
    pub offset: u64,
    pub reporter: Pubkey,
    pub destination: Pubkey,
    pub root1: [u8; 32],
    pub sig1: [u8; 64],
    pub root2: [u8; 32],
    pub sig2: [u8; 64],
    pub proof_key: Pubkey,
    /// bytes before the proof in the proof account; the offset skips them
    pub prefix: Vec<u8>,
    pub p1: Vec<u8>,
    pub p2: Vec<u8>,
    pub suffix: Vec<u8>,
    pub proof_owner: Pubkey,
}

impl Sub {
    pub fn new(pair: &Pair, key: &Key, slot: u64) -> Sub {
        Sub {
            node: key.pubkey(),
            slot,
            offset: 0,
            reporter: wallet(1),
            destination: wallet(2),
            root1: pair.a.root,
            sig1: pair.a.sig,
            root2: pair.b.root,
            sig2: pair.b.sig,
            proof_key: wallet(3),
            prefix: vec![],
            p1: pair.a.payload.clone(),
            p2: pair.b.payload.clone(),
            suffix: vec![],
            proof_owner: ids::SYSTEM,
        }
    }
    pub fn swapped(&self) -> Sub {
        Sub {
            root1: self.root2,
            root2: self.root1,
            sig1: self.sig2,
            sig2: self.sig1,
            p1: self.p2.clone(),
            p2: self.p1.clone(),
            ..self.clone()
        }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut d = vec![1];
        d.extend_from_slice(&self.offset.to_le_bytes());
        d.extend_from_slice(&self.slot.to_le_bytes());
        for k in [&self.node, &self.reporter, &self.destination] {
            d.extend_from_slice(k.as_ref());
        }
        d.extend_from_slice(&self.root1);
        d.extend_from_slice(&self.sig1);
        d.extend_from_slice(&self.root2);
        d.extend_from_slice(&self.sig2);
        d
    }
    pub fn report_key(&self) -> Pubkey {
        pda(&self.node, self.slot)
    }
    pub fn ix(&self) -> Instruction {
        Instruction {
            program_id: SLASHING,
            accounts: vec![
                AccountMeta::new_readonly(self.proof_key, false),
                AccountMeta::new(self.report_key(), false),
                AccountMeta::new_readonly(ids::INSTRUCTIONS, false),
                AccountMeta::new_readonly(ids::SYSTEM, false),
            ],
            data: self.data(),
        }
    }
    pub fn proof_data(&self) -> Vec<u8> {
        let mut v = self.prefix.clone();
        v.extend(pack(&self.p1, &self.p2));
        v.extend_from_slice(&self.suffix);
        v
    }
    pub fn packed_len(&self) -> usize {
        8 + self.p1.len() + self.p2.len()
    }
    pub fn report_len(&self) -> usize {
        REPORT_HEADER + self.packed_len()
    }
    /// What the report account must hold afterwards.
    pub fn expected_report(&self, epoch: u64) -> Vec<u8> {
        let mut v = vec![1];
        v.extend_from_slice(self.reporter.as_ref());
        v.extend_from_slice(self.destination.as_ref());
        v.extend_from_slice(&epoch.to_le_bytes());
        v.extend_from_slice(self.node.as_ref());
        v.extend_from_slice(&self.slot.to_le_bytes());
        v.push(1);
        v.extend(pack(&self.p1, &self.p2));
        v
    }
    pub fn views(&self) -> Option<(View, View)> {
        Some((shred::read(&self.p1).ok()?, shred::read(&self.p2).ok()?))
    }
    /// Places the proof account.
    pub fn stage(&self, svm: &mut Svm) {
        svm.accounts.insert(
            self.proof_key,
            Account {
                lamports: 1_000_000_000_000,
                data: self.proof_data(),
                owner: self.proof_owner,
                executable: false,
            },
        );
    }
    /// Gives the report account exactly the rent for the report.
    pub fn prefund(&self, svm: &mut Svm) {
        let need = svm.rent.minimum_balance(self.report_len()).max(1);
        let k = self.report_key();
        let mut a = svm.get(&k);
        a.lamports = a.lamports.max(need);
        svm.accounts.insert(k, a);
    }
    /// ed25519 verification followed by the report, at the given positions.
    pub fn tx(&self) -> Vec<TopIx> {
        vec![ed25519_for(1).into(), self.ix().into()]
    }
    pub fn go(&self, svm: &mut Svm) -> TxOut {
        self.stage(svm);
        self.prefund(svm);
        svm.execute(&self.tx())
    }
}

/// Verification of the two pairs inside the instruction at `index`.
pub fn ed25519_for(index: u16) -> Instruction {
    let pk = 1 + 16;
    let m1 = pk + 96;
    ed25519_raw(&[
        [m1 + 32, index, pk, index, m1, 32, index],
        [m1 + 128, index, pk, index, m1 + 96, 32, index],
    ])
}

pub fn ed25519_raw(entries: &[[u16; 7]]) -> Instruction {
    let mut data = vec![entries.len() as u8, 0];
    for e in entries {
        for f in e {
            data.extend_from_slice(&f.to_le_bytes());
        }
    }
    Instruction { program_id: ids::ED25519, accounts: vec![], data }
}

pub fn close_ix(report: Pubkey, destination: Pubkey) -> Instruction {
    Instruction {
        program_id: SLASHING,
        accounts: vec![AccountMeta::new(report, false), AccountMeta::new(destination, false)],
        data: vec![0],
    }
}

pub fn transfer_ix(from: Pubkey, to: Pubkey, lamports: u64) -> Instruction {
    let mut data = vec![2, 0, 0, 0];
    data.extend_from_slice(&lamports.to_le_bytes());
    Instruction {
        program_id: ids::SYSTEM,
        accounts: vec![AccountMeta::new(from, true), AccountMeta::new(to, false)],
        data,
    }
}

/// A slot number, often near a boundary, that leaves room for a later clock.
pub fn gen_slot(t: &mut Tape) -> u64 {
    match t.below(6) {
        0 => t.below(5),
        1 => 53_084_024,
        2 => t.range(0, 1 << 40),
        3 => u64::MAX - t.below(1000),
        _ => t.edgy(64),
    }
}

pub fn gen_spe(t: &mut Tape) -> u64 {
    match t.below(5) {
        0 => 32,
        1 => 8192,
        2 => t.range(1, 1000),
        _ => 432_000,
    }
}

/// A runtime whose clock lies inside the reporting window of `slot`.
pub fn gen_env(t: &mut Tape, slot: u64) -> Svm {
    let mut s = new_svm();
    let spe = gen_spe(t);
    set_schedule(&mut s, spe);
    let d = match t.below(5) {
        0 => 0,
        1 => spe,
        2 => 1,
        _ => t.range(0, spe),
    };
    s.clock.slot = slot.saturating_add(d);
    s.clock.epoch = match t.below(3) {
        0 => t.below(4),
        1 => (s.clock.slot / spe).min(u64::MAX - 10),
        _ => t.edgy(64).min(u64::MAX - 10),
    };
    s.clock.unix_timestamp = t.range(0, 1 << 40) as i64;
    s.clock.epoch_start_timestamp = t.range(0, 1 << 40) as i64;
    s.clock.leader_schedule_epoch = s.clock.epoch.saturating_add(1);
    for i in 0..8 {
        s.accounts.insert(wallet(i), Account::wallet(1 << 50));
    }
    s
}

pub fn set_schedule(s: &mut Svm, spe: u64) {
    s.epoch_schedule.slots_per_epoch = spe;
    s.epoch_schedule.leader_schedule_slot_offset = spe;
    s.epoch_schedule.warmup = false;
    s.epoch_schedule.first_normal_epoch = 0;
    s.epoch_schedule.first_normal_slot = 0;
}

pub fn gen_key(t: &mut Tape) -> Key {
    Key::new(t.range(1, 64))
}

/// Randomises the parts of a request that must not matter for its acceptance.
pub fn vary(t: &mut Tape, s: &mut Sub) {
    s.reporter = wallet(100 + t.below(20));
    s.destination = wallet(200 + t.below(20));
    s.proof_key = wallet(300 + t.below(20));
    s.proof_owner = *t.pick(&[ids::SYSTEM, wallet(999), SLASHING, ids::FORWARDER]);
    if t.bool() {
        let n = *t.pick(&[1usize, 2, 3, 4, 7, 8, 33, 100]);
        s.prefix = t.bytes(n);
        s.offset = n as u64;
    }
    if t.bool() {
        let n = t.usize(0, 300);
        s.suffix = t.bytes(n);
    }
}

/// Appends bytes to one shred or both; they change nothing about the shreds.
pub fn trail(t: &mut Tape, s: &mut Sub) {
    let which = t.below(16);
    for (bit, p) in [(1, &mut s.p1), (2, &mut s.p2)] {
        // three cases in sixteen
        if which < 4 && which & bit != 0 {
            let n = match t.below(3) {
                0 => t.usize(1, 8),
                1 => t.usize(20, 60),
                _ => t.usize(1, 2000),
            };
            let x = t.bytes(n);
            p.extend(x);
        }
    }
}

pub fn junk(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.usize(0, max);
    let s = t.seed();
    blob(s, n)
}

pub fn describe(c: &mut Case, s: &Sub, svm: &Svm) {
    if !c.record {
        return;
    }
    let f = |p: &[u8]| match shred::read(p) {
        Ok(v) => format!("{} ({} bytes, root {})", v.spec.brief(), p.len(), hex(&v.root[..6])),
        Err(e) => format!("{e:?} ({} bytes)", p.len()),
    };
    let line = format!(
        "report node={} slot={} now={} spe={} epoch={} offset={} reporter={} destination={}",
        s.node, s.slot, svm.clock.slot, svm.epoch_schedule.slots_per_epoch, svm.clock.epoch, s.offset,
        s.reporter, s.destination
    );
    c.notes.push(line);
    c.notes.push(format!("  shred1: {}", f(&s.p1)));
    c.notes.push(format!("  shred2: {}", f(&s.p2)));
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Everything that changed between two states, in words.
pub fn diff(a: &Svm, b: &Svm) -> Vec<(Pubkey, String)> {
    let mut keys: Vec<&Pubkey> = a.accounts.keys().chain(b.accounts.keys()).collect();
    keys.sort();
    keys.dedup();
    let mut v = vec![];
    for k in keys {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            v.push((
                *k,
                format!(
                    "{k}: lamports {} -> {}, owner {} -> {}, {} -> {} bytes",
                    x.lamports, y.lamports, x.owner, y.owner, x.data.len(), y.data.len()
                ),
            ));
        }
    }
    v
}

/// Program panics count as rejections everywhere except in P15.
pub fn accepted(out: &TxOut) -> bool {
    out.ok()
}
