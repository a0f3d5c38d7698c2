//! A miniature of the Solana runtime, faithful where the slashing program can
//! tell the difference: atomic transactions, message level account privileges,
//! the aligned program input buffer, account ownership / balance / size rules,
//! cross-program calls into the system program with PDA signers, calls through
//! another program, the ed25519 precompile, the instructions sysvar, the rent
//! state rule and removal of empty accounts. Nothing in it depends on the
//! program under test.

use {
    solana_instruction::{BorrowedAccountMeta, BorrowedInstruction},
    solana_instructions_sysvar::{construct_instructions_data, store_current_index_checked},
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE},
        epoch_schedule::EpochSchedule,
        instruction::{AccountMeta, Instruction},
        program_error::ProgramError,
        program_stubs::{set_syscall_stubs, SyscallStubs},
        pubkey::Pubkey,
        rent::Rent,
        sysvar,
    },
    std::{
        cell::RefCell,
        collections::BTreeMap,
        panic::{catch_unwind, AssertUnwindSafe},
        sync::Once,
    },
};

pub type ProgramFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

pub mod ids {
    use solana_program::pubkey::Pubkey;
    pub const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
    pub const ED25519: Pubkey = solana_program::ed25519_program::ID;
    pub const NATIVE_LOADER: Pubkey =
        Pubkey::from_str_const("NativeLoader1111111111111111111111111111111");
    pub const SYSVAR_OWNER: Pubkey = solana_program::sysvar::ID;
    pub const INSTRUCTIONS: Pubkey = solana_program::sysvar::instructions::ID;
    /// A program that only passes its accounts on to other programs.
    pub const FORWARDER: Pubkey =
        Pubkey::from_str_const("Forwarder1111111111111111111111111111111111");
    /// A program that does nothing.
    pub const NOOP: Pubkey = Pubkey::from_str_const("Noop111111111111111111111111111111111111111");
    pub const COMPUTE_BUDGET: Pubkey =
        Pubkey::from_str_const("ComputeBudget111111111111111111111111111111");
}

fn reserved(key: &Pubkey) -> bool {
    key == &ids::SYSTEM
        || key == &ids::ED25519
        || key == &ids::NATIVE_LOADER
        || key == &ids::SYSVAR_OWNER
        || key == &ids::COMPUTE_BUDGET
        || SYSVARS.contains(key)
}

const SYSVARS: [Pubkey; 5] = [
    sysvar::instructions::ID,
    sysvar::clock::ID,
    sysvar::rent::ID,
    sysvar::epoch_schedule::ID,
    sysvar::slot_hashes::ID,
];

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Account {
    pub fn wallet(lamports: u64) -> Self {
        Account { lamports, ..Self::default() }
    }
}

/// A top level instruction; `inner` is what the forwarder program calls.
#[derive(Clone, Debug)]
pub struct TopIx {
    pub ix: Instruction,
    pub inner: Vec<Instruction>,
}

impl From<Instruction> for TopIx {
    fn from(ix: Instruction) -> Self {
        TopIx { ix, inner: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    Program(ProgramError),
    Panic(String),
    Runtime(&'static str),
    Precompile(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Verified {
    pub top_index: usize,
    pub pubkey: [u8; 32],
    pub message: Vec<u8>,
    pub signature: [u8; 64],
}

#[derive(Clone, Debug)]
pub struct ProgCall {
    pub top_index: usize,
    pub nested: bool,
    pub program: Pubkey,
    /// What the program itself returned (`Err(Panic)` when it unwound).
    pub result: Result<(), TxErr>,
}

#[derive(Clone, Debug)]
pub struct TxOut {
    pub result: Result<(), (usize, TxErr)>,
    pub calls: Vec<ProgCall>,
    pub verified: Vec<Verified>,
}

impl TxOut {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    pub fn panicked(&self) -> Option<&str> {
        self.calls.iter().find_map(|c| match &c.result {
            Err(TxErr::Panic(m)) => Some(m.as_str()),
            _ => None,
        })
    }
    pub fn err(&self) -> Option<&TxErr> {
        self.result.as_ref().err().map(|e| &e.1)
    }
    /// Result of the last call of `program`.
    pub fn last_call(&self, program: &Pubkey) -> Option<&Result<(), TxErr>> {
        self.calls.iter().rev().find(|c| &c.program == program).map(|c| &c.result)
    }
}

#[derive(Clone)]
pub struct Svm {
    pub accounts: BTreeMap<Pubkey, Account>,
    pub clock: Clock,
    pub epoch_schedule: EpochSchedule,
    pub rent: Rent,
    pub programs: Vec<(Pubkey, ProgramFn)>,
    /// Skip the rent state rule (for direct experiments on odd account states).
    pub lax_rent: bool,
    /// failing ed25519 instructions are ignored (for robustness checks only)
    pub lax_precompile: bool,
}

#[derive(Clone)]
struct Pre {
    key: Pubkey,
    signer: bool,
    writable: bool,
    orig_len: usize,
    acct: Account,
}

struct Env {
    clock: Clock,
    epoch_schedule: EpochSchedule,
    rent: Rent,
    program: Pubkey,
    pre: Vec<Pre>,
    abort: Option<&'static str>,
    active: bool,
    log: Option<Vec<String>>,
    cpis: usize,
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env {
        clock: Clock::default(), epoch_schedule: EpochSchedule::default(), rent: Rent::default(),
        program: Pubkey::default(), pre: vec![], abort: None, active: false, log: None, cpis: 0,
    });
    static BUF: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

struct Stubs;

fn check_change(program: &Pubkey, pre: &Pre, post: &Account) -> Result<(), &'static str> {
    let a = &pre.acct;
    if a.lamports != post.lamports {
        if !pre.writable {
            return Err("ReadonlyLamportChange");
        }
        if post.lamports < a.lamports && &a.owner != program {
            return Err("ExternalAccountLamportSpend");
        }
    }
    if a.data != post.data {
        if !pre.writable {
            return Err("ReadonlyDataModified");
        }
        if &a.owner != program {
            return Err("ExternalAccountDataModified");
        }
        if post.data.len() > pre.orig_len + MAX_PERMITTED_DATA_INCREASE {
            return Err("InvalidRealloc");
        }
    }
    if a.owner != post.owner {
        if !pre.writable || &a.owner != program || post.data.iter().any(|b| *b != 0) {
            return Err("ModifiedProgramId");
        }
    }
    Ok(())
}

fn snapshot(info: &AccountInfo) -> Result<Account, &'static str> {
    Ok(Account {
        lamports: **info.lamports.try_borrow().map_err(|_| "AccountBorrowFailed")?,
        data: info.data.try_borrow().map_err(|_| "AccountBorrowFailed")?.to_vec(),
        owner: *info.owner,
        executable: info.executable,
    })
}

/// One account as seen by the system program.
struct SysAcct {
    key: Pubkey,
    signer: bool,
    writable: bool,
    acct: Account,
}

fn rd_u64(d: &[u8], at: usize) -> Option<u64> {
    Some(u64::from_le_bytes(d.get(at..at + 8)?.try_into().unwrap()))
}
fn rd_key(d: &[u8], at: usize) -> Option<Pubkey> {
    Some(Pubkey::new_from_array(d.get(at..at + 32)?.try_into().unwrap()))
}

fn sys_allocate(a: &mut SysAcct, space: u64) -> Result<(), &'static str> {
    if !a.signer {
        return Err("System: MissingRequiredSignature");
    }
    if !a.acct.data.is_empty() || a.acct.owner != ids::SYSTEM {
        return Err("System: AccountAlreadyInUse");
    }
    if space > 10 * 1024 * 1024 {
        return Err("System: InvalidAccountDataLength");
    }
    if space > 0 && !a.writable {
        return Err("ReadonlyDataModified");
    }
    a.acct.data = vec![0; space as usize];
    Ok(())
}

fn sys_assign(a: &mut SysAcct, owner: Pubkey) -> Result<(), &'static str> {
    if a.acct.owner == owner {
        return Ok(());
    }
    if !a.signer {
        return Err("System: MissingRequiredSignature");
    }
    if a.acct.owner != ids::SYSTEM || !a.writable || a.acct.data.iter().any(|b| *b != 0) {
        return Err("ModifiedProgramId");
    }
    a.acct.owner = owner;
    Ok(())
}

fn sys_transfer(v: &mut [SysAcct], from: usize, to: usize, lamports: u64) -> Result<(), &'static str> {
    if !v[from].signer {
        return Err("System: MissingRequiredSignature");
    }
    if !v[from].acct.data.is_empty() {
        return Err("System: from must not carry data");
    }
    if lamports > v[from].acct.lamports {
        return Err("System: ResultWithNegativeLamports");
    }
    if lamports == 0 || v[from].key == v[to].key {
        return Ok(());
    }
    if v[from].acct.owner != ids::SYSTEM {
        return Err("ExternalAccountLamportSpend");
    }
    if !v[from].writable || !v[to].writable {
        return Err("ReadonlyLamportChange");
    }
    v[from].acct.lamports -= lamports;
    v[to].acct.lamports = v[to].acct.lamports.checked_add(lamports).ok_or("ArithmeticOverflow")?;
    Ok(())
}

fn run_system(data: &[u8], v: &mut [SysAcct]) -> Result<(), &'static str> {
    const BAD: &str = "System: InvalidInstructionData";
    let tag = u32::from_le_bytes(data.get(0..4).ok_or(BAD)?.try_into().unwrap());
    let need = |n: usize| if v.len() < n { Err("NotEnoughAccountKeys") } else { Ok(()) };
    match tag {
        0 => {
            need(2)?;
            let (lamports, space, owner) =
                (rd_u64(data, 4).ok_or(BAD)?, rd_u64(data, 12).ok_or(BAD)?, rd_key(data, 20).ok_or(BAD)?);
            if v[1].acct.lamports > 0 {
                return Err("System: AccountAlreadyInUse");
            }
            sys_allocate(&mut v[1], space)?;
            sys_assign(&mut v[1], owner)?;
            sys_transfer(v, 0, 1, lamports)
        }
        1 => {
            need(1)?;
            sys_assign(&mut v[0], rd_key(data, 4).ok_or(BAD)?)
        }
        2 => {
            need(2)?;
            sys_transfer(v, 0, 1, rd_u64(data, 4).ok_or(BAD)?)
        }
        8 => {
            need(1)?;
            sys_allocate(&mut v[0], rd_u64(data, 4).ok_or(BAD)?)
        }
        _ => Err("System: instruction not modelled"),
    }
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        ENV.with(|e| {
            if let Ok(mut e) = e.try_borrow_mut() {
                if let Some(l) = &mut e.log {
                    l.push(message.to_string());
                }
            }
        })
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_stack_height(&self) -> u64 {
        ENV.with(|e| if e.borrow().active { 1 } else { 0 })
    }
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        ENV.with(|e| unsafe { *(addr as *mut Clock) = e.borrow().clock.clone() });
        0
    }
    fn sol_get_epoch_schedule_sysvar(&self, addr: *mut u8) -> u64 {
        ENV.with(|e| unsafe { *(addr as *mut EpochSchedule) = e.borrow().epoch_schedule.clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        ENV.with(|e| unsafe { *(addr as *mut Rent) = e.borrow().rent.clone() });
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = ENV.with(|e| {
            let e = &mut *e.borrow_mut();
            e.cpis += 1;
            let mut signers = vec![];
            for s in seeds {
                signers.push(Pubkey::create_program_address(s, &e.program).map_err(|_| "InvalidSeeds")?);
            }
            if !e.pre.iter().any(|p| p.key == ix.program_id) {
                return Err("CPI: program account not passed");
            }
            // the caller's changes so far become visible, and are checked, now
            for info in infos {
                let Some(i) = e.pre.iter().position(|p| p.key == *info.key) else {
                    return Err("CPI: unknown account");
                };
                let now = snapshot(info)?;
                check_change(&e.program, &e.pre[i], &now)?;
                e.pre[i].acct = now;
            }
            if ix.program_id != ids::SYSTEM {
                return Err("CPI: program not modelled");
            }
            let mut v = vec![];
            for m in &ix.accounts {
                let p = e.pre.iter().find(|p| p.key == m.pubkey).ok_or("CPI: MissingAccount")?;
                if !infos.iter().any(|i| *i.key == m.pubkey) {
                    return Err("CPI: MissingAccount");
                }
                if m.is_writable && !p.writable {
                    return Err("CPI: PrivilegeEscalation");
                }
                if m.is_signer && !(p.signer || signers.contains(&m.pubkey)) {
                    return Err("CPI: PrivilegeEscalation");
                }
                v.push(SysAcct {
                    key: m.pubkey,
                    signer: m.is_signer,
                    writable: m.is_writable,
                    acct: p.acct.clone(),
                });
            }
            run_system(&ix.data, &mut v)?;
            for s in v {
                let info = infos.iter().find(|i| *i.key == s.key).unwrap();
                **info.lamports.borrow_mut() = s.acct.lamports;
                if info.data_len() != s.acct.data.len() {
                    info.realloc(s.acct.data.len(), false).map_err(|_| "InvalidRealloc")?;
                }
                info.data.borrow_mut().copy_from_slice(&s.acct.data);
                info.assign(&s.acct.owner);
                let p = e.pre.iter_mut().find(|p| p.key == s.key).unwrap();
                p.acct = s.acct;
            }
            Ok(())
        });
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                ENV.with(|e| e.borrow_mut().abort = Some(m));
                Err(ProgramError::Custom(0xdead_0000))
            }
        }
    }
}

static INIT: Once = Once::new();

/// Installs the runtime stubs and a panic hook that stays quiet for panics of
/// the program under test.
pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| *q.borrow()) {
                let msg = format!("{info}").replace('\n', " ");
                PANIC_MSG.with(|p| *p.borrow_mut() = Some(msg));
            } else {
                default(info);
            }
        }));
    });
}

/// Runs `f`, turning a panic into `Err(message)` without printing it.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// The ed25519 program: returns what it verified.
pub fn ed25519_precompile(
    top_index: usize,
    data: &[u8],
    all: &[&[u8]],
) -> Result<Vec<Verified>, &'static str> {
    if data.len() < 2 {
        return Err("Ed25519: InvalidInstructionDataSize");
    }
    let n = data[0] as usize;
    if n == 0 && data.len() > 2 {
        return Err("Ed25519: InvalidInstructionDataSize");
    }
    if data.len() < 2 + 14 * n {
        return Err("Ed25519: InvalidInstructionDataSize");
    }
    let mut out = vec![];
    for i in 0..n {
        let o = &data[2 + 14 * i..2 + 14 * (i + 1)];
        let f = |k: usize| u16::from_le_bytes([o[2 * k], o[2 * k + 1]]);
        let slice = |index: u16, off: u16, size: usize| -> Result<&[u8], &'static str> {
            let src = if index == u16::MAX {
                data
            } else {
                all.get(index as usize).ok_or("Ed25519: InvalidDataOffsets")?
            };
            src.get(off as usize..off as usize + size).ok_or("Ed25519: InvalidDataOffsets")
        };
        let signature: [u8; 64] = slice(f(1), f(0), 64)?.try_into().unwrap();
        let pubkey: [u8; 32] = slice(f(3), f(2), 32)?.try_into().unwrap();
        let message = slice(f(6), f(4), f(5) as usize)?.to_vec();
        if !crate::crypto::verify(&pubkey, &message, &signature) {
            return Err("Ed25519: InvalidSignature");
        }
        out.push(Verified { top_index, pubkey, message, signature });
    }
    Ok(out)
}

#[derive(Clone, Copy, PartialEq)]
enum RentState {
    Uninitialized,
    Paying(u64, usize),
    Exempt,
}

impl Svm {
    pub fn new() -> Self {
        init();
        let mut s = Svm {
            accounts: BTreeMap::new(),
            clock: Clock::default(),
            epoch_schedule: EpochSchedule::without_warmup(),
            rent: Rent::default(),
            programs: vec![],
            lax_rent: false,
            lax_precompile: false,
        };
        for k in [ids::SYSTEM, ids::ED25519, ids::FORWARDER, ids::NOOP, ids::COMPUTE_BUDGET] {
            s.accounts.insert(
                k,
                Account { lamports: 1, data: vec![1; 14], owner: ids::NATIVE_LOADER, executable: true },
            );
        }
        s
    }

    pub fn register(&mut self, id: Pubkey, f: ProgramFn) {
        self.programs.push((id, f));
        self.accounts.insert(
            id,
            Account { lamports: 1, data: vec![1; 36], owner: ids::NATIVE_LOADER, executable: true },
        );
    }

    pub fn get(&self, k: &Pubkey) -> Account {
        self.accounts.get(k).cloned().unwrap_or_default()
    }

    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports).unwrap_or(0)
    }

    pub fn total_lamports(&self) -> u128 {
        self.accounts.values().map(|a| a.lamports as u128).sum()
    }

    fn rent_state(&self, a: &Account) -> RentState {
        if a.lamports == 0 {
            RentState::Uninitialized
        } else if self.rent.is_exempt(a.lamports, a.data.len()) {
            RentState::Exempt
        } else {
            RentState::Paying(a.lamports, a.data.len())
        }
    }

    /// Executes a transaction atomically.
    pub fn execute(&mut self, ixs: &[TopIx]) -> TxOut {
        let (out, work) = self.run(ixs);
        if out.ok() {
            for (k, a) in work {
                if a.lamports == 0 {
                    self.accounts.remove(&k);
                } else {
                    self.accounts.insert(k, a);
                }
            }
        }
        out
    }

    /// Executes a transaction without keeping its effects.
    pub fn simulate(&self, ixs: &[TopIx]) -> TxOut {
        self.run(ixs).0
    }

    fn run(&self, ixs: &[TopIx]) -> (TxOut, BTreeMap<Pubkey, Account>) {
        let mut out = TxOut { result: Ok(()), calls: vec![], verified: vec![] };
        let mut work: BTreeMap<Pubkey, Account> = BTreeMap::new();
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for t in ixs {
            for m in &t.ix.accounts {
                work.entry(m.pubkey).or_insert_with(|| self.get(&m.pubkey));
                let f = flags.entry(m.pubkey).or_default();
                f.0 |= m.is_signer;
                f.1 |= m.is_writable && !reserved(&m.pubkey);
            }
        }
        let message: Vec<Instruction> = ixs
            .iter()
            .map(|t| Instruction {
                program_id: t.ix.program_id,
                accounts: t
                    .ix
                    .accounts
                    .iter()
                    .map(|m| AccountMeta {
                        pubkey: m.pubkey,
                        is_signer: flags[&m.pubkey].0,
                        is_writable: flags[&m.pubkey].1,
                    })
                    .collect(),
                data: t.ix.data.clone(),
            })
            .collect();
        let borrowed: Vec<BorrowedInstruction> = message
            .iter()
            .map(|ix| BorrowedInstruction {
                program_id: &ix.program_id,
                accounts: ix
                    .accounts
                    .iter()
                    .map(|m| BorrowedAccountMeta {
                        pubkey: &m.pubkey,
                        is_signer: m.is_signer,
                        is_writable: m.is_writable,
                    })
                    .collect(),
                data: &ix.data,
            })
            .collect();
        let mut sysvar_data = construct_instructions_data(&borrowed);
        let datas: Vec<&[u8]> = message.iter().map(|i| i.data.as_slice()).collect();
        let pre = work.clone();
        for (i, ix) in message.iter().enumerate() {
            store_current_index_checked(&mut sysvar_data, i as u16).unwrap();
            if let Some(a) = work.get_mut(&ids::INSTRUCTIONS) {
                *a = Account {
                    lamports: 0,
                    data: sysvar_data.clone(),
                    owner: ids::SYSVAR_OWNER,
                    executable: false,
                };
            }
            let r = if ix.program_id == ids::ED25519 {
                match ed25519_precompile(i, &ix.data, &datas) {
                    Ok(v) => {
                        out.verified.extend(v);
                        Ok(())
                    }
                    Err(_) if self.lax_precompile => Ok(()),
                    Err(e) => Err(TxErr::Precompile(e)),
                }
            } else if ix.program_id == ids::FORWARDER {
                let mut r = Ok(());
                for inner in &ixs[i].inner {
                    let mut metas = vec![];
                    for m in &inner.accounts {
                        let Some(&(s, w)) = ix
                            .accounts
                            .iter()
                            .any(|x| x.pubkey == m.pubkey)
                            .then(|| &flags[&m.pubkey])
                        else {
                            r = Err(TxErr::Runtime("CPI: MissingAccount"));
                            break;
                        };
                        if (m.is_signer && !s) || (m.is_writable && !w) {
                            r = Err(TxErr::Runtime("CPI: PrivilegeEscalation"));
                            break;
                        }
                        metas.push(m.clone());
                    }
                    if r.is_ok() {
                        r = self.call(&inner.program_id, &metas, &inner.data, &mut work, i, true, &mut out);
                    }
                    if r.is_err() {
                        break;
                    }
                }
                r
            } else {
                self.call(&ix.program_id, &ix.accounts, &ix.data, &mut work, i, false, &mut out)
            };
            if let Err(e) = r {
                out.result = Err((i, e));
                return (out, work);
            }
        }
        work.remove(&ids::INSTRUCTIONS);
        if !self.lax_rent {
            for (k, post) in &work {
                if !flags[k].1 {
                    continue;
                }
                let a = self.rent_state(&pre[k]);
                let ok = match self.rent_state(post) {
                    RentState::Uninitialized | RentState::Exempt => true,
                    RentState::Paying(l, n) => {
                        matches!(a, RentState::Paying(l0, n0) if n0 == n && l <= l0)
                    }
                };
                if !ok {
                    out.result = Err((ixs.len(), TxErr::Runtime("InsufficientFundsForRent")));
                    return (out, work);
                }
            }
        }
        (out, work)
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &self,
        program: &Pubkey,
        metas: &[AccountMeta],
        data: &[u8],
        work: &mut BTreeMap<Pubkey, Account>,
        top_index: usize,
        nested: bool,
        out: &mut TxOut,
    ) -> Result<(), TxErr> {
        if program == &ids::NOOP || program == &ids::COMPUTE_BUDGET {
            return Ok(());
        }
        // privileges of duplicates are merged
        let mut uniq: Vec<Pre> = vec![];
        for m in metas {
            match uniq.iter_mut().find(|p| p.key == m.pubkey) {
                Some(p) => {
                    p.signer |= m.is_signer;
                    p.writable |= m.is_writable;
                }
                None => {
                    let acct = work.get(&m.pubkey).cloned().unwrap_or_default();
                    uniq.push(Pre {
                        key: m.pubkey,
                        signer: m.is_signer,
                        writable: m.is_writable,
                        orig_len: acct.data.len(),
                        acct,
                    });
                }
            }
        }
        if program == &ids::SYSTEM {
            // duplicates only matter for self transfers, which the model handles by key
            let mut v: Vec<SysAcct> = metas
                .iter()
                .map(|m| {
                    let p = uniq.iter().find(|p| p.key == m.pubkey).unwrap();
                    SysAcct { key: p.key, signer: p.signer, writable: p.writable, acct: p.acct.clone() }
                })
                .collect();
            run_system(data, &mut v).map_err(TxErr::Runtime)?;
            for s in v {
                work.insert(s.key, s.acct);
            }
            return Ok(());
        }
        let Some((_, f)) = self.programs.iter().find(|(id, _)| id == program) else {
            return Err(TxErr::Runtime("InvalidProgramForExecution"));
        };
        let (result, post) = run_native(self, *f, program, metas, &uniq, data);
        out.calls.push(ProgCall { top_index, nested, program: *program, result: result.clone() });
        result?;
        let post = post.map_err(TxErr::Runtime)?;
        for (k, a) in post {
            work.insert(k, a);
        }
        Ok(())
    }
}

impl Default for Svm {
    fn default() -> Self {
        Self::new()
    }
}

type Post = Result<Vec<(Pubkey, Account)>, &'static str>;

/// Serialises the accounts into a program input buffer, runs the program and
/// applies the runtime's rules to what it did.
fn run_native(
    svm: &Svm,
    f: ProgramFn,
    program: &Pubkey,
    metas: &[AccountMeta],
    uniq: &[Pre],
    data: &[u8],
) -> (Result<(), TxErr>, Post) {
    let mut size = 8 + 8 + data.len() + 32 + 16;
    for m in metas {
        size += 8;
        let p = uniq.iter().find(|p| p.key == m.pubkey).unwrap();
        size += 88 + p.acct.data.len() + MAX_PERMITTED_DATA_INCREASE + 8 + 8;
    }
    let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
    buf.clear();
    buf.resize(size / 8 + 2, 0);
    let bytes = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    let mut at = 0usize;
    let put = |bytes: &mut [u8], at: &mut usize, d: &[u8]| {
        bytes[*at..*at + d.len()].copy_from_slice(d);
        *at += d.len();
    };
    put(bytes, &mut at, &(metas.len() as u64).to_le_bytes());
    let mut seen: Vec<(Pubkey, u8)> = vec![];
    for (i, m) in metas.iter().enumerate() {
        if let Some((_, first)) = seen.iter().find(|(k, _)| *k == m.pubkey) {
            put(bytes, &mut at, &[*first, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        seen.push((m.pubkey, i as u8));
        let p = uniq.iter().find(|p| p.key == m.pubkey).unwrap();
        put(bytes, &mut at, &[0xff, p.signer as u8, p.writable as u8, p.acct.executable as u8, 0, 0, 0, 0]);
        put(bytes, &mut at, p.key.as_ref());
        put(bytes, &mut at, p.acct.owner.as_ref());
        put(bytes, &mut at, &p.acct.lamports.to_le_bytes());
        put(bytes, &mut at, &(p.acct.data.len() as u64).to_le_bytes());
        put(bytes, &mut at, &p.acct.data);
        at += MAX_PERMITTED_DATA_INCREASE;
        at = (at + 7) & !7;
        put(bytes, &mut at, &u64::MAX.to_le_bytes());
    }
    put(bytes, &mut at, &(data.len() as u64).to_le_bytes());
    put(bytes, &mut at, data);
    put(bytes, &mut at, program.as_ref());

    ENV.with(|e| {
        let e = &mut *e.borrow_mut();
        e.clock = svm.clock.clone();
        e.epoch_schedule = svm.epoch_schedule.clone();
        e.rent = svm.rent.clone();
        e.program = *program;
        e.pre = uniq.to_vec();
        e.abort = None;
        e.active = true;
        e.cpis = 0;
    });
    let (pid, infos, input) =
        unsafe { solana_program::entrypoint::deserialize(buf.as_mut_ptr() as *mut u8) };
    let r = quietly(|| f(pid, &infos, input));
    let mut result = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(TxErr::Program(e)),
        Err(m) => Err(TxErr::Panic(m)),
    };
    let pre = ENV.with(|e| {
        let e = &mut *e.borrow_mut();
        e.active = false;
        if let Some(a) = e.abort.take() {
            if !matches!(result, Err(TxErr::Panic(_))) {
                result = Err(TxErr::Runtime(a));
            }
        }
        std::mem::take(&mut e.pre)
    });
    let post: Post = if result.is_ok() {
        (|| {
            let mut v = vec![];
            let (mut before, mut after) = (0u128, 0u128);
            for p in &pre {
                let info = infos.iter().find(|i| *i.key == p.key).unwrap();
                let now = snapshot(info)?;
                check_change(program, p, &now)?;
                before += uniq.iter().find(|u| u.key == p.key).unwrap().acct.lamports as u128;
                after += now.lamports as u128;
                v.push((p.key, now));
            }
            if before != after {
                return Err("UnbalancedInstruction");
            }
            Ok(v)
        })()
    } else {
        Err("not run")
    };
    drop(infos);
    BUF.with(|b| *b.borrow_mut() = buf);
    (result, post)
}

/// Collects the program's log messages while `f` runs.
pub fn with_logs<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
    ENV.with(|e| e.borrow_mut().log = Some(vec![]));
    let r = f();
    let l = ENV.with(|e| e.borrow_mut().log.take().unwrap_or_default());
    (r, l)
}
