// Shared by the demonstrations: shreds built byte by byte, and a bank.
#![allow(dead_code, unused_imports)]
use {
    solana_program_test::*,
    solana_sdk::{
        account::{Account, AccountSharedData},
        clock::{Clock, Epoch, Slot},
        ed25519_program,
        epoch_schedule::EpochSchedule,
        hash::{hashv, Hash},
        instruction::{AccountMeta, Instruction, InstructionError},
        pubkey::Pubkey,
        rent::Rent,
        signature::{Keypair, Signer},
        transaction::{Transaction, TransactionError},
    },
    solana_slashing_program::{
        duplicate_block_proof::DuplicateBlockProofData,
        error::SlashingError,
        get_violation_report_address, id,
        instruction::{
            close_violation_report, duplicate_block_proof,
            duplicate_block_proof_with_sigverify_and_prefund, DuplicateBlockProofInstructionData,
        },
        processor::process_instruction,
        state::{ProofType, SlashingProofData, ViolationReport},
    },
    solana_system_interface::instruction as system_instruction,
    spl_pod::primitives::PodU64,
};

const SLOT: Slot = 53_084_024;
const EPOCH: Epoch = 42;

/// A shred, with the Merkle proof left to chance.
#[derive(Clone)]
struct S {
    data: bool,
    chained: bool,
    resigned: bool,
    depth: usize,
    slot: u64,
    index: u32,
    version: u16,
    fec: u32,
    flags: u8,
    num_data: u16,
    num_code: u16,
    position: u16,
    fill: u8,
    path: u8,
    retransmitter: u8,
}

impl S {
    fn data(index: u32, fec: u32) -> S {
        S {
            data: true, chained: true, resigned: false, depth: 6, slot: SLOT, index, version: 7, fec,
            flags: 0, num_data: 32, num_code: 32, position: 0, fill: 1, path: 1, retransmitter: 0,
        }
    }
    fn code(index: u32, fec: u32, num_data: u16, num_code: u16, position: u16) -> S {
        S { data: false, num_data, num_code, position, ..S::data(index, fec) }
    }
    fn build(&self, key: &Keypair) -> B {
        let len = if self.data { 1203 } else { 1228 };
        let mut p = vec![self.fill; len];
        let kind: u8 = match (self.data, self.chained, self.resigned) {
            (false, false, _) => 0x40,
            (false, true, false) => 0x60,
            (false, true, true) => 0x70,
            (true, false, _) => 0x80,
            (true, true, false) => 0x90,
            (true, true, true) => 0xb0,
        };
        p[64] = kind | self.depth as u8;
        p[65..73].copy_from_slice(&self.slot.to_le_bytes());
        p[73..77].copy_from_slice(&self.index.to_le_bytes());
        p[77..79].copy_from_slice(&self.version.to_le_bytes());
        p[79..83].copy_from_slice(&self.fec.to_le_bytes());
        if self.data {
            p[83..85].copy_from_slice(&1u16.to_le_bytes());
            p[85] = self.flags;
            p[86..88].copy_from_slice(&100u16.to_le_bytes());
        } else {
            p[83..85].copy_from_slice(&self.num_data.to_le_bytes());
            p[85..87].copy_from_slice(&self.num_code.to_le_bytes());
            p[87..89].copy_from_slice(&self.position.to_le_bytes());
        }
        let end = len - if self.resigned { 64 } else { 0 };
        let start = end - 20 * self.depth;
        for b in &mut p[start..end] {
            *b = self.path;
        }
        for b in &mut p[end..] {
            *b = self.retransmitter;
        }
        let mut at = if self.data {
            (self.index - self.fec) as usize
        } else {
            self.num_data as usize + self.position as usize
        };
        let mut node = hashv(&[b"\x00SOLANA_MERKLE_SHREDS_LEAF", &p[64..start]]);
        for e in p[start..end].chunks(20) {
            let (l, r) = if at % 2 == 0 { (&node.as_ref()[..20], e) } else { (e, &node.as_ref()[..20]) };
            node = hashv(&[b"\x01SOLANA_MERKLE_SHREDS_NODE", l, r]);
            at >>= 1;
        }
        assert_eq!(at, 0, "position does not fit the depth");
        let sig: [u8; 64] = key.sign_message(node.as_ref()).into();
        p[..64].copy_from_slice(&sig);
        B { payload: p, root: node, sig }
    }
}

#[derive(Clone)]
struct B {
    payload: Vec<u8>,
    root: Hash,
    sig: [u8; 64],
}

struct Bank {
    ctx: ProgramTestContext,
    reporter: Pubkey,
    destination: Pubkey,
    proof: Pubkey,
}

impl Bank {
    async fn new() -> Bank {
        Self::with(&[]).await
    }
    async fn with(accounts: &[(Pubkey, Account)]) -> Bank {
        let mut t = ProgramTest::new("solana_slashing_program", id(), processor!(process_instruction));
        for (k, a) in accounts {
            t.add_account(*k, a.clone());
        }
        let ctx = t.start_with_context().await;
        let reporter = ctx.payer.pubkey();
        let mut b = Bank { ctx, reporter, destination: Pubkey::new_unique(), proof: Pubkey::new_unique() };
        b.clock(SLOT, EPOCH).await;
        b
    }
    async fn clock(&mut self, slot: Slot, epoch: Epoch) {
        let mut c: Clock = self.ctx.banks_client.get_sysvar().await.unwrap();
        c.slot = slot;
        c.epoch = epoch;
        self.ctx.set_sysvar(&c);
    }
    fn put(&mut self, key: &Pubkey, data: Vec<u8>, owner: &Pubkey, lamports: u64) {
        let a = Account { lamports, data, owner: *owner, ..Account::default() };
        self.ctx.set_account(key, &AccountSharedData::from(a));
    }
    async fn account(&mut self, key: &Pubkey) -> Option<Account> {
        self.ctx.banks_client.get_account(*key).await.unwrap()
    }
    async fn send(&mut self, ixs: &[Instruction]) -> Result<(), TransactionError> {
        self.send_signed(ixs, &[]).await
    }
    async fn send_signed(&mut self, ixs: &[Instruction], more: &[&Keypair]) -> Result<(), TransactionError> {
        let hash = self.ctx.banks_client.get_new_latest_blockhash(&self.ctx.last_blockhash).await.unwrap();
        self.ctx.last_blockhash = hash;
        let mut signers = vec![&self.ctx.payer];
        signers.extend_from_slice(more);
        let tx = Transaction::new_signed_with_payer(ixs, Some(&self.ctx.payer.pubkey()), &signers, hash);
        self.ctx.banks_client.process_transaction(tx).await.map_err(|e| e.unwrap())
    }
    fn fields(&self, node: &Pubkey, slot: Slot, a: &B, b: &B) -> DuplicateBlockProofInstructionData {
        DuplicateBlockProofInstructionData {
            offset: PodU64::from(0),
            slot: PodU64::from(slot),
            node_pubkey: *node,
            reporter: self.reporter,
            destination: self.destination,
            shred_1_merkle_root: a.root,
            shred_1_signature: a.sig,
            shred_2_merkle_root: b.root,
            shred_2_signature: b.sig,
        }
    }
    fn upload(&mut self, a: &B, b: &B) {
        let proof = DuplicateBlockProofData { shred1: &a.payload, shred2: &b.payload }.pack_proof();
        let at = self.proof;
        self.put(&at, proof, &Pubkey::new_from_array([9; 32]), 1_000_000_000);
    }
    fn bundle(&self, f: &DuplicateBlockProofInstructionData) -> [Instruction; 3] {
        duplicate_block_proof_with_sigverify_and_prefund(&self.proof, f, None, &Rent::default())
    }
    /// The documented bundle for two shreds of `node` in `slot`.
    async fn report(&mut self, node: &Pubkey, slot: Slot, a: &B, b: &B) -> Result<(), TransactionError> {
        self.upload(a, b);
        let f = self.fields(node, slot, a, b);
        let ixs = self.bundle(&f);
        self.send(&ixs).await
    }
}

fn report_address(node: &Pubkey, slot: Slot) -> Pubkey {
    get_violation_report_address(node, slot, ProofType::DuplicateBlockProof).0
}

fn custom(r: Result<(), TransactionError>) -> Option<u32> {
    match r {
        Err(TransactionError::InstructionError(_, InstructionError::Custom(n))) => Some(n),
        _ => None,
    }
}
