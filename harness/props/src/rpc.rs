//! A stand-in for an RPC node on the loopback interface: JSON-RPC over
//! HTTP/1.1, in front of the miniature runtime. Transactions that arrive are
//! decoded here from their wire form, their signatures are verified, and they
//! are executed against the real slashing and record programs.
use {
    base64::{engine::general_purpose::STANDARD as B64, Engine},
    serde_json::{json, Value},
    slashkit::{
        crypto,
        svm::{ids, Account, Svm, TopIx, TxErr},
        tape::{splitmix, blob32},
    },
    solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        sysvar,
    },
    std::{
        collections::{BTreeMap, HashMap, HashSet},
        io::{BufRead, BufReader, Read, Write},
        net::{TcpListener, TcpStream},
        sync::{Arc, Mutex},
    },
};

use crate::world::{new_svm, SLASHING};

pub const RECORD: Pubkey = Pubkey::from_str_const("recr1L3PCGKLbckBqMNcJhuuyU1zgo8nBhfLVsJNwr5");

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// creates and initialises a record account
    Create,
    Write,
    Report,
    CloseRecord,
    CloseReport,
    Other,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub kind: Kind,
    pub payer: Pubkey,
    pub signers: Vec<Pubkey>,
    pub ixs: Vec<Instruction>,
    pub result: Result<(), String>,
    pub signature: String,
    /// data of the accounts the instructions name, before execution
    pub before: BTreeMap<Pubkey, Account>,
}

impl Sent {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
    /// The only instruction of a program in the transaction.
    pub fn of(&self, program: &Pubkey) -> Vec<&Instruction> {
        self.ixs.iter().filter(|i| &i.program_id == program).collect()
    }
}

/// How the node mistreats a transaction.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the node refuses it
    Refuse,
    /// it lands, and fails
    Fail,
    /// it is accepted, and never lands
    Drop,
}

pub struct Chain {
    pub svm: Svm,
    pub leaders: BTreeMap<u64, Pubkey>,
    pub default_leader: Pubkey,
    /// slots whose leader the node does not know
    pub unknown_leaders: HashSet<u64>,
    pub order: u64,
    pub sent: Vec<Sent>,
    pub simulated: Vec<Sent>,
    pub methods: BTreeMap<String, u64>,
    /// things no node would accept; reported by every check
    pub odd: Vec<String>,
    /// (kind, how many of that kind came before) -> fault
    pub faults: HashMap<(Kind, usize), Fault>,
    /// by the number of the simulation
    pub sim_faults: HashMap<usize, Fault>,
    /// (method, how many calls of it came before): these are answered with an error
    pub read_faults: HashSet<(&'static str, u64)>,
    /// the calls so answered: the method, and how many transactions came before
    pub failed_reads: Vec<(&'static str, usize)>,
    /// how many transactions a blockhash outlives
    pub lifetime: usize,
    issued: HashMap<[u8; 32], usize>,
    dropped: HashSet<[u8; 32]>,
    counts: HashMap<Kind, usize>,
    hashes: HashSet<[u8; 32]>,
    hash_counter: u64,
    statuses: HashMap<String, Result<(), Value>>,
}

impl Chain {
    pub fn new() -> Chain {
        let mut svm = new_svm();
        svm.register(RECORD, spl_record::processor::process_instruction);
        Chain {
            svm,
            leaders: BTreeMap::new(),
            default_leader: Pubkey::new_from_array(blob32(77)),
            unknown_leaders: HashSet::new(),
            order: 0,
            sent: vec![],
            simulated: vec![],
            methods: BTreeMap::new(),
            odd: vec![],
            faults: HashMap::new(),
            sim_faults: HashMap::new(),
            read_faults: HashSet::new(),
            failed_reads: vec![],
            lifetime: usize::MAX,
            issued: HashMap::new(),
            dropped: HashSet::new(),
            counts: HashMap::new(),
            hashes: HashSet::new(),
            hash_counter: 0,
            statuses: HashMap::new(),
        }
    }
}

// --- transactions -----------------------------------------------------------

struct Cursor<'a>(&'a [u8]);

impl<'a> Cursor<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn byte(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.take(32)?.try_into().unwrap()))
    }
    /// compact-u16
    fn len(&mut self) -> Option<usize> {
        let mut v = 0usize;
        for i in 0..3 {
            let b = self.byte()? as usize;
            v |= (b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
}

struct Tx {
    signatures: Vec<[u8; 64]>,
    keys: Vec<Pubkey>,
    signers: usize,
    blockhash: [u8; 32],
    ixs: Vec<Instruction>,
    message: Vec<u8>,
}

fn parse_tx(bytes: &[u8]) -> Option<Tx> {
    let mut c = Cursor(bytes);
    let n = c.len()?;
    let signatures = (0..n).map(|_| c.take(64).map(|s| s.try_into().unwrap())).collect::<Option<Vec<[u8; 64]>>>()?;
    let message = c.0.to_vec();
    let mut first = c.byte()?;
    let versioned = first & 0x80 != 0;
    if versioned {
        if first != 0x80 {
            return None;
        }
        first = c.byte()?;
    }
    let signers = first as usize;
    let ro_signed = c.byte()? as usize;
    let ro_unsigned = c.byte()? as usize;
    let n = c.len()?;
    let keys = (0..n).map(|_| c.key()).collect::<Option<Vec<_>>>()?;
    if signers == 0 || signers > keys.len() || ro_signed >= signers || ro_unsigned > keys.len() - signers {
        return None;
    }
    let meta = |i: usize| -> Option<AccountMeta> {
        let writable = if i < signers { i < signers - ro_signed } else { i < keys.len() - ro_unsigned };
        Some(AccountMeta { pubkey: *keys.get(i)?, is_signer: i < signers, is_writable: writable })
    };
    let blockhash = c.take(32)?.try_into().unwrap();
    let n = c.len()?;
    let mut ixs = vec![];
    for _ in 0..n {
        let program = meta(c.byte()? as usize)?.pubkey;
        let n = c.len()?;
        let accounts = (0..n).map(|_| meta(c.byte()? as usize)).collect::<Option<Vec<_>>>()?;
        let n = c.len()?;
        ixs.push(Instruction { program_id: program, accounts, data: c.take(n)?.to_vec() });
    }
    if versioned && c.len()? != 0 {
        return None;
    }
    if !c.0.is_empty() || signatures.len() != signers {
        return None;
    }
    Some(Tx { signatures, keys, signers, blockhash, ixs, message })
}

fn kind(ixs: &[Instruction]) -> Kind {
    let mut k = Kind::Other;
    for i in ixs {
        let n = if i.program_id == SLASHING {
            match i.data.first() {
                Some(1) => Kind::Report,
                Some(0) => Kind::CloseReport,
                _ => Kind::Other,
            }
        } else if i.program_id == RECORD {
            match i.data.first() {
                Some(0) => Kind::Create,
                Some(1) => Kind::Write,
                Some(3) => Kind::CloseRecord,
                _ => Kind::Other,
            }
        } else {
            continue;
        };
        k = n;
    }
    k
}

fn err_value(e: &(usize, TxErr)) -> Value {
    use solana_program::program_error::ProgramError;
    let inner = match &e.1 {
        TxErr::Program(ProgramError::Custom(c)) => json!({ "Custom": c }),
        TxErr::Program(_) => json!("InvalidArgument"),
        TxErr::Panic(_) => json!("ProgramFailedToComplete"),
        TxErr::Runtime(_) => json!("InvalidArgument"),
        TxErr::Precompile(_) => json!({"Custom": 0}),
    };
    json!({ "InstructionError": [e.0.min(255), inner] })
}

struct RpcErr(i64, String);

impl Chain {
    fn decode(&mut self, params: &Value, verify: bool) -> Result<(Tx, usize), RpcErr> {
        let text = params[0].as_str().unwrap_or("");
        let bytes = match params[1]["encoding"].as_str() {
            Some("base64") => B64.decode(text).map_err(|e| e.to_string()),
            _ => bs58::decode(text).into_vec().map_err(|e| e.to_string()),
        }
        .map_err(|e| RpcErr(-32602, format!("invalid encoding: {e}")))?;
        if bytes.len() > 1232 {
            return Err(RpcErr(-32602, format!("encoded transaction too large: {} bytes", bytes.len())));
        }
        let tx = parse_tx(&bytes).ok_or_else(|| RpcErr(-32602, "failed to deserialize transaction".into()))?;
        if verify {
            for (i, s) in tx.signatures.iter().enumerate() {
                if !crypto::verify(&tx.keys[i].to_bytes(), &tx.message, s) {
                    return Err(RpcErr(-32003, "Transaction signature verification failure".into()));
                }
            }
            if !self.hashes.contains(&tx.blockhash) {
                return Err(RpcErr(-32002, "Transaction simulation failed: Blockhash not found".into()));
            }
        }
        Ok((tx, bytes.len()))
    }

    fn describe(&self, tx: &Tx) -> Sent {
        let mut before = BTreeMap::new();
        for i in &tx.ixs {
            for m in &i.accounts {
                if let Some(a) = self.svm.accounts.get(&m.pubkey) {
                    before.insert(m.pubkey, a.clone());
                }
            }
        }
        Sent {
            kind: kind(&tx.ixs),
            payer: tx.keys[0],
            signers: tx.keys[..tx.signers].to_vec(),
            ixs: tx.ixs.clone(),
            result: Ok(()),
            signature: bs58::encode(&tx.signatures[0]).into_string(),
            before,
        }
    }

    fn tops(tx: &Tx) -> Vec<TopIx> {
        tx.ixs.iter().map(|i| TopIx { ix: i.clone(), inner: vec![] }).collect()
    }

    fn send(&mut self, params: &Value) -> Result<Value, RpcErr> {
        let (tx, _) = match self.decode(params, true) {
            Ok(x) => x,
            Err(e) => {
                self.odd.push(format!("a transaction that no node accepts: {}", e.1));
                return Err(e);
            }
        };
        let mut s = self.describe(&tx);
        if self.statuses.contains_key(&s.signature) {
            return Ok(json!(s.signature));
        }
        let n = self.counts.entry(s.kind).or_default();
        let fault = self.faults.get(&(s.kind, *n)).copied();
        *n += 1;
        match fault {
            Some(Fault::Refuse) => {
                s.result = Err("injected refusal".into());
                self.sent.push(s);
                return Err(RpcErr(-32005, "Node is behind by 42 slots".into()));
            }
            Some(Fault::Fail) => {
                s.result = Err("injected failure".into());
                self.statuses.insert(s.signature.clone(), Err(json!("AccountInUse")));
                let v = json!(s.signature);
                self.sent.push(s);
                return Ok(v);
            }
            Some(Fault::Drop) => {
                s.result = Err("injected loss".into());
                self.dropped.insert(tx.blockhash);
                let v = json!(s.signature);
                self.sent.push(s);
                return Ok(v);
            }
            None => (),
        }
        let age = self.sent.len() - self.issued.get(&tx.blockhash).copied().unwrap_or(0);
        if age > self.lifetime {
            s.result = Err(format!("its blockhash is {age} transactions old"));
            self.sent.push(s);
            return Err(RpcErr(-32002, "Transaction simulation failed: Blockhash not found".into()));
        }
        if self.svm.lamports(&tx.keys[0]) == 0 {
            s.result = Err("the fee payer has no funds".into());
            self.sent.push(s);
            return Err(RpcErr(-32002, "Transaction simulation failed: Attempt to debit an account but found no record of a prior credit.".into()));
        }
        let out = self.svm.execute(&Chain::tops(&tx));
        if let Err(e) = &out.result {
            s.result = Err(format!("{e:?}"));
            self.sent.push(s);
            // preflight
            return Err(RpcErr(-32002, format!("Transaction simulation failed: Error processing Instruction {}: {:?}", e.0, e.1)));
        }
        self.statuses.insert(s.signature.clone(), Ok(()));
        let v = json!(s.signature);
        self.sent.push(s);
        Ok(v)
    }

    fn simulate(&mut self, params: &Value) -> Result<Value, RpcErr> {
        let (tx, _) = self.decode(params, params[1]["sigVerify"].as_bool().unwrap_or(false))?;
        let mut s = self.describe(&tx);
        let fault = self.sim_faults.get(&self.simulated.len()).copied();
        if matches!(fault, Some(Fault::Refuse | Fault::Drop)) {
            s.result = Err("injected refusal".into());
            self.simulated.push(s);
            return Err(RpcErr(-32005, "Node is behind by 42 slots".into()));
        }
        let out = self.svm.simulate(&Chain::tops(&tx));
        let err = match &out.result {
            Ok(()) => Value::Null,
            Err(e) => {
                s.result = Err(format!("{e:?}"));
                err_value(e)
            }
        };
        let err = if fault == Some(Fault::Fail) {
            s.result = Err("injected failure".into());
            json!("BlockhashNotFound")
        } else {
            err
        };
        let logs = match (fault, self.simulated.len() % 2) {
            (None, _) => json!(["Program log: simulated"]),
            (_, 0) => json!([]),
            _ => Value::Null,
        };
        self.simulated.push(s);
        Ok(with_context(json!({
            "err": err, "logs": logs, "accounts": null, "unitsConsumed": if fault.is_none() { 1234 } else { 0 },
            "returnData": null, "innerInstructions": null, "replacementBlockhash": null,
        })))
    }

    fn account(&self, key: &Pubkey) -> Option<Account> {
        if key == &sysvar::rent::ID {
            let r = &self.svm.rent;
            let mut data = r.lamports_per_byte_year.to_le_bytes().to_vec();
            data.extend_from_slice(&r.exemption_threshold.to_le_bytes());
            data.push(r.burn_percent);
            return Some(Account { lamports: 1_009_200, data, owner: ids::SYSVAR_OWNER, executable: false });
        }
        self.svm.accounts.get(key).cloned()
    }

    fn program_accounts(&mut self, params: &Value) -> Result<Value, RpcErr> {
        let program = key_param(&params[0])?;
        let cfg = &params[1];
        let mut list: Vec<(Pubkey, Account)> = self
            .svm
            .accounts
            .iter()
            .filter(|(_, a)| a.owner == program)
            .map(|(k, a)| (*k, a.clone()))
            .collect();
        if let Some(fs) = cfg["filters"].as_array() {
            for f in fs {
                if let Some(n) = f["dataSize"].as_u64() {
                    list.retain(|(_, a)| a.data.len() as u64 == n);
                } else if f["memcmp"].is_object() {
                    let m = &f["memcmp"];
                    let off = m["offset"].as_u64().unwrap_or(0) as usize;
                    let want = match (&m["bytes"], m["encoding"].as_str()) {
                        (Value::String(s), Some("base64")) => B64.decode(s).unwrap_or_default(),
                        (Value::String(s), _) => bs58::decode(s).into_vec().unwrap_or_default(),
                        (Value::Array(v), _) => v.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                        _ => return Err(RpcErr(-32602, "bad memcmp".into())),
                    };
                    list.retain(|(_, a)| a.data.get(off..off.saturating_add(want.len())) == Some(&want[..]));
                } else {
                    self.odd.push(format!("unsupported filter {f}"));
                }
            }
        }
        // a node gives no order
        let mut x = self.order;
        for i in (1..list.len()).rev() {
            list.swap(i, (splitmix(&mut x) % (i as u64 + 1)) as usize);
        }
        let v: Vec<Value> =
            list.iter().map(|(k, a)| json!({"pubkey": k.to_string(), "account": account_value(a, cfg)})).collect();
        Ok(if cfg["withContext"].as_bool() == Some(true) { with_context(json!(v)) } else { json!(v) })
    }

    fn fresh_hash(&mut self) -> [u8; 32] {
        self.hash_counter += 1;
        let h = blob32(self.hash_counter ^ 0xb10c_4a54_0000_0000);
        self.hashes.insert(h);
        self.issued.insert(h, self.sent.len());
        h
    }

    fn call(&mut self, method: &str, params: &Value) -> Result<Value, RpcErr> {
        let n = self.methods.entry(method.into()).or_default();
        *n += 1;
        if let Some((m, _)) = self.read_faults.iter().find(|f| f.0 == method && f.1 == *n - 1) {
            self.failed_reads.push((m, self.sent.len()));
            return Err(RpcErr(-32603, "Internal error".into()));
        }
        let clock = self.svm.clock.clone();
        let spe = self.svm.epoch_schedule.slots_per_epoch.max(1);
        Ok(match method {
            "getVersion" => json!({"solana-core": "2.3.5", "feature-set": 1}),
            "getHealth" => json!("ok"),
            "getSlot" | "getBlockHeight" | "getTransactionCount" => json!(clock.slot),
            "getGenesisHash" => json!(bs58::encode([9u8; 32]).into_string()),
            "getEpochInfo" => json!({
                "absoluteSlot": clock.slot, "blockHeight": clock.slot, "epoch": clock.epoch,
                "slotIndex": clock.slot % spe, "slotsInEpoch": spe, "transactionCount": 1,
            }),
            "getEpochSchedule" => json!({
                "slotsPerEpoch": spe, "leaderScheduleSlotOffset": spe, "warmup": false,
                "firstNormalEpoch": 0, "firstNormalSlot": 0,
            }),
            "getLatestBlockhash" => {
                let h = self.fresh_hash();
                with_context(json!({
                    "blockhash": bs58::encode(h).into_string(), "lastValidBlockHeight": clock.slot.saturating_add(150),
                }))
            }
            "isBlockhashValid" => {
                let h = bs58::decode(params[0].as_str().unwrap_or("")).into_vec().unwrap_or_default();
                with_context(json!(!self.dropped.iter().any(|d| d[..] == h[..])))
            }
            "getFeeForMessage" => with_context(json!(5000)),
            "getRecentPrioritizationFees" => json!([]),
            "getMinimumBalanceForRentExemption" => {
                json!(self.svm.rent.minimum_balance(params[0].as_u64().unwrap_or(0) as usize))
            }
            "getBalance" => {
                let k = key_param(&params[0])?;
                with_context(json!(self.account(&k).map(|a| a.lamports).unwrap_or(0)))
            }
            "getAccountInfo" => {
                let k = key_param(&params[0])?;
                with_context(self.account(&k).map(|a| account_value(&a, &params[1])).unwrap_or(Value::Null))
            }
            "getMultipleAccounts" => {
                let mut v = vec![];
                for k in params[0].as_array().unwrap_or(&vec![]) {
                    let k = key_param(k)?;
                    v.push(self.account(&k).map(|a| account_value(&a, &params[1])).unwrap_or(Value::Null));
                }
                with_context(json!(v))
            }
            "getProgramAccounts" => self.program_accounts(params)?,
            "getSlotLeaders" => {
                let (start, n) = (params[0].as_u64().unwrap_or(0), params[1].as_u64().unwrap_or(0));
                if self.unknown_leaders.contains(&start) {
                    return Err(RpcErr(-32602, "Invalid slot range: leader schedule for epoch is unavailable".into()));
                }
                json!((0..n)
                    .map(|i| {
                        self.leaders.get(&start.wrapping_add(i)).unwrap_or(&self.default_leader).to_string()
                    })
                    .collect::<Vec<_>>())
            }
            "getSlotLeader" => json!(self.leaders.get(&clock.slot).unwrap_or(&self.default_leader).to_string()),
            "sendTransaction" => self.send(params)?,
            "simulateTransaction" => self.simulate(params)?,
            "getSignatureStatuses" => {
                let mut v = vec![];
                for s in params[0].as_array().unwrap_or(&vec![]) {
                    v.push(match self.statuses.get(s.as_str().unwrap_or("")) {
                        None => Value::Null,
                        Some(r) => json!({
                            "slot": clock.slot, "confirmations": null, "confirmationStatus": "finalized",
                            "status": match r { Ok(()) => json!({"Ok": null}), Err(e) => json!({"Err": e}) },
                            "err": match r { Ok(()) => Value::Null, Err(e) => e.clone() },
                        }),
                    });
                }
                with_context(json!(v))
            }
            other => {
                self.odd.push(format!("HARNESS: the stand-in node does not know the method {other}"));
                return Err(RpcErr(-32601, "Method not found".into()));
            }
        })
    }
}

fn with_context(v: Value) -> Value {
    json!({"context": {"slot": 1, "apiVersion": "2.3.5"}, "value": v})
}

fn key_param(v: &Value) -> Result<Pubkey, RpcErr> {
    let b = bs58::decode(v.as_str().unwrap_or("")).into_vec().unwrap_or_default();
    <[u8; 32]>::try_from(b).map(Pubkey::new_from_array).map_err(|_| RpcErr(-32602, format!("Invalid param: {v}")))
}

fn account_value(a: &Account, cfg: &Value) -> Value {
    let mut data = &a.data[..];
    if cfg["dataSlice"].is_object() {
        let off = (cfg["dataSlice"]["offset"].as_u64().unwrap_or(0) as usize).min(data.len());
        let len = cfg["dataSlice"]["length"].as_u64().unwrap_or(0) as usize;
        data = &data[off..data.len().min(off.saturating_add(len))];
    }
    let d = match cfg["encoding"].as_str() {
        Some("base58") => json!([bs58::encode(data).into_string(), "base58"]),
        None => json!(bs58::encode(data).into_string()),
        _ => json!([B64.encode(data), "base64"]),
    };
    json!({
        "lamports": a.lamports, "data": d, "owner": a.owner.to_string(), "executable": a.executable,
        "rentEpoch": u64::MAX, "space": a.data.len(),
    })
}

// --- the server --------------------------------------------------------------

pub struct Node {
    pub url: String,
    pub chain: Arc<Mutex<Chain>>,
}

impl Node {
    pub fn start() -> std::io::Result<Node> {
        let l = TcpListener::bind("127.0.0.1:0")?;
        let url = format!("http://127.0.0.1:{}", l.local_addr()?.port());
        let chain = Arc::new(Mutex::new(Chain::new()));
        let c = chain.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let c = c.clone();
                std::thread::spawn(move || {
                    let _ = serve(s, c);
                });
            }
        });
        Ok(Node { url, chain })
    }
}

fn serve(s: TcpStream, chain: Arc<Mutex<Chain>>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut w = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0usize;
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut close = false;
        loop {
            line.clear();
            if r.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let l = line.trim_end().to_ascii_lowercase();
            if l.is_empty() {
                break;
            }
            if let Some(v) = l.strip_prefix("content-length:") {
                len = v.trim().parse().unwrap_or(0);
            }
            close |= l == "connection: close";
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let one = |req: &Value| {
            let mut c = chain.lock().unwrap_or_else(|e| e.into_inner());
            match c.call(req["method"].as_str().unwrap_or(""), &req["params"]) {
                Ok(v) => json!({"jsonrpc": "2.0", "result": v, "id": req["id"]}),
                Err(RpcErr(code, m)) => json!({"jsonrpc": "2.0", "error": {"code": code, "message": m}, "id": req["id"]}),
            }
        };
        let resp = match &req {
            Value::Array(v) => Value::Array(v.iter().map(one).collect()),
            v => one(v),
        };
        let out = resp.to_string();
        let head = format!(
            "HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n{}\r\n",
            out.len(),
            if close { "connection: close\r\n" } else { "" }
        );
        w.write_all(&[head.as_bytes(), out.as_bytes()].concat())?;
        if close {
            return Ok(());
        }
    }
}

