//! The cluster's own software (solana-ledger), asked through a child process
//! (harness/ledgertool).
use {
    slashkit::crypto::Key,
    solana_program::pubkey::Pubkey,
    std::{
        io::{BufRead, BufReader, Write},
        path::Path,
        process::{Child, ChildStdin, ChildStdout, Command, Stdio},
    },
};

use crate::world::hex;

pub struct Tool {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Tool {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Parsed {
    pub data: bool,
    pub slot: u64,
    pub index: u32,
    pub fec: u32,
    pub version: u16,
    pub last: bool,
    pub root: String,
    pub signed: bool,
}

pub fn path() -> std::path::PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    Path::new(&root).join("harness/target/ledgertool")
}

fn start() -> Result<Tool, String> {
    let mut child = Command::new(path())
        .env_clear()
        .env("RAYON_NUM_THREADS", "1")
        .env("RUST_LOG", "off")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("HARNESS: cannot start the ledger tool: {e}"))?;
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Ok(Tool { child, to, from })
}

pub fn get(t: &mut Option<Tool>) -> Result<&mut Tool, String> {
    if t.is_none() {
        *t = Some(start()?);
    }
    Ok(t.as_mut().unwrap())
}

impl Tool {
    /// One request; an answer that starts with `error` is what solana-ledger said.
    pub fn ask(&mut self, line: &str) -> Result<String, String> {
        let mut a = String::new();
        writeln!(self.to, "{line}")
            .and_then(|_| self.to.flush())
            .and_then(|_| self.from.read_line(&mut a))
            .map_err(|e| format!("HARNESS: ledger tool: {e}"))?;
        if a.is_empty() {
            return Err("HARNESS: the ledger tool ended".into());
        }
        Ok(a.trim_end().into())
    }
    pub fn must(&mut self, line: &str) -> Result<String, String> {
        let a = self.ask(line)?;
        if a.starts_with("error") {
            return Err(format!("HARNESS: ledger tool: {a}"));
        }
        Ok(a)
    }
    /// (the Merkle root as solana-ledger reads it off the raw bytes, the shred
    /// or why it is refused)
    pub fn parse(&mut self, payload: &[u8], leader: &Pubkey) -> Result<(String, Result<Parsed, String>), String> {
        let a = self.ask(&format!("parse {} {}", hex(leader.as_ref()), dash(payload)))?;
        let w: Vec<&str> = a.split(' ').collect();
        Ok(match w[0] {
            "parsed" => (
                w[1].into(),
                Ok(Parsed {
                    data: w[2] == "data",
                    slot: w[3].parse().unwrap(),
                    index: w[4].parse().unwrap(),
                    fec: w[5].parse().unwrap(),
                    version: w[6].parse().unwrap(),
                    last: w[7] == "1",
                    root: w[8].into(),
                    signed: w[10] == "1",
                }),
            ),
            "refused" => (w[1].into(), Err(w[2..].join(" "))),
            _ => return Err(format!("HARNESS: ledger tool: {a}")),
        })
    }
    pub fn parses(&mut self, payload: &[u8], leader: &Pubkey) -> Result<bool, String> {
        Ok(self.parse(payload, leader)?.1.is_ok())
    }
    /// Whether gossip would take the two shreds for a proof; why not otherwise.
    pub fn check(&mut self, a: &[u8], b: &[u8], leader: &Pubkey) -> Result<Result<(), String>, String> {
        let r = self.ask(&format!("check {} {} {}", hex(leader.as_ref()), dash(a), dash(b)))?;
        Ok(if r == "ok" { Ok(()) } else { Err(r) })
    }
    /// The shreds of a block (or a part of one) made by the cluster's shredder.
    #[allow(clippy::too_many_arguments)]
    pub fn block(
        &mut self,
        key: &Key,
        slot: u64,
        parent: u64,
        version: u16,
        last: bool,
        chained: Option<[u8; 32]>,
        index: u32,
        code_index: u32,
        tick: u8,
        entries: u64,
        seed: u64,
    ) -> Result<Vec<Vec<u8>>, String> {
        let line = format!(
            "block {} {slot} {parent} {version} {} {} {index} {code_index} {tick} {entries} {seed}",
            hex(&key.keypair_bytes()),
            last as u8,
            chained.map(|c| hex(&c)).unwrap_or("-".into()),
        );
        Ok(self.must(&line)?.split(' ').map(unhex).collect())
    }
}

fn dash(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
