//! Answers questions about what the cluster's own software (solana-ledger)
//! does with shreds, and keeps ledgers for the client to attach to.
//! One request per line on standard input, one answer per line.

use {
    solana_ledger::{
        blockstore::Blockstore,
        blockstore_meta::ErasureMeta,
        blockstore_options::BlockstoreOptions,
        shred::{layout, ProcessShredsStats, ReedSolomonCache, Shred, ShredType, Shredder},
    },
    solana_sdk::{hash::Hash, pubkey::Pubkey, signature::Keypair},
    std::io::{BufRead, Write},
};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// What the cluster's gossip accepts as a proof that a slot is a duplicate
/// (solana-gossip 2.3.5, duplicate_shred::check_shreds, which is private;
/// every accessor below is solana-ledger's own).
fn check(shred1: &Shred, shred2: &Shred, leader: &Pubkey) -> &'static str {
    if shred1.slot() != shred2.slot() {
        return "SlotMismatch";
    }
    if shred1.version() != shred2.version() {
        return "InvalidShredVersion";
    }
    if !shred1.verify(leader) || !shred2.verify(leader) {
        return "InvalidSignature";
    }
    if shred1.fec_set_index() == shred2.fec_set_index()
        && shred1.merkle_root().ok() != shred2.merkle_root().ok()
    {
        return "ok";
    }
    if shred1.shred_type() != shred2.shred_type() {
        return "ShredTypeMismatch";
    }
    if shred1.index() == shred2.index() {
        if shred1.is_shred_duplicate(shred2) {
            return "ok";
        }
        return "InvalidDuplicateShreds";
    }
    if shred1.shred_type() == ShredType::Data {
        if shred1.last_in_slot() && shred2.index() > shred1.index() {
            return "ok";
        }
        if shred2.last_in_slot() && shred1.index() > shred2.index() {
            return "ok";
        }
        return "InvalidLastIndexConflict";
    }
    if shred1.fec_set_index() == shred2.fec_set_index()
        && !ErasureMeta::check_erasure_consistency(shred1, shred2)
    {
        return "ok";
    }
    "InvalidErasureMetaConflict"
}

fn describe(bytes: Vec<u8>, leader: &Pubkey) -> String {
    let raw = layout::get_merkle_root(&bytes);
    let raw = raw.map(|h| hex(h.as_ref())).unwrap_or("-".into());
    match Shred::new_from_serialized_shred(bytes) {
        Err(e) => format!("refused {raw} {}", format!("{e:?}").replace(' ', "_")),
        Ok(s) => format!(
            "parsed {raw} {} {} {} {} {} {} {} {} {}",
            match s.shred_type() {
                ShredType::Data => "data",
                ShredType::Code => "code",
            },
            s.slot(),
            s.index(),
            s.fec_set_index(),
            s.version(),
            s.last_in_slot() as u8,
            s.merkle_root().map(|h| hex(h.as_ref())).unwrap_or("-".into()),
            s.chained_merkle_root().map(|h| hex(h.as_ref())).unwrap_or("-".into()),
            s.verify(leader) as u8,
        ),
    }
}

fn answer(w: &[&str], store: &mut Option<Blockstore>, rs: &ReedSolomonCache) -> Result<String, String> {
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    let key = |i: usize| Pubkey::try_from(unhex(w[i]).as_slice()).unwrap();
    Ok(match w[0] {
        "open" => {
            *store = None;
            let options = BlockstoreOptions { enforce_ulimit_nofile: false, ..BlockstoreOptions::default() };
            *store = Some(Blockstore::open_with_options(std::path::Path::new(w[1]), options).map_err(|x| e(&x))?);
            "ok".into()
        }
        "put" => {
            store.as_ref().unwrap().store_duplicate_slot(w[1].parse::<u64>().unwrap(), unhex(w[2]), unhex(w[3])).map_err(|x| e(&x))?;
            "ok".into()
        }
        "clear" => {
            let s = store.as_ref().unwrap();
            let slots: Vec<u64> = s.duplicate_slots_iterator(0).map_err(|x| e(&x))?.collect();
            for x in slots {
                s.remove_slot_duplicate_proof(x).map_err(|x| e(&x))?;
            }
            "ok".into()
        }
        "parse" => describe(unhex(w[2]), &key(1)),
        "check" => {
            let a = Shred::new_from_serialized_shred(unhex(w[2])).map_err(|x| e(&x))?;
            let b = Shred::new_from_serialized_shred(unhex(w[3])).map_err(|x| e(&x))?;
            check(&a, &b, &key(1)).into()
        }
        // block keypair slot parent version last chained|- index code_index reference_tick entry-bytes(hex of bincode Vec<Entry>)
        "block" => {
            let kp = Keypair::from_bytes(&unhex(w[1])).map_err(|x| e(&x))?;
            let n = |i: usize| w[i].parse::<u64>().unwrap();
            let chained = (w[6] != "-").then(|| Hash::new_from_array(unhex(w[6]).try_into().unwrap()));
            // `count` ticks whose hashes are derived from the seed
            let (count, seed) = (n(10), n(11));
            let mut bytes = count.to_le_bytes().to_vec();
            for i in 0..count {
                bytes.extend_from_slice(&1u64.to_le_bytes());
                bytes.extend_from_slice(solana_sdk::hash::hashv(&[&seed.to_le_bytes(), &i.to_le_bytes()]).as_ref());
                bytes.extend_from_slice(&0u64.to_le_bytes());
            }
            let entries: Vec<_> = bincode::deserialize(&bytes).map_err(|x| e(&x))?;
            let shredder = Shredder::new(n(2), n(3), n(9) as u8, n(4) as u16).map_err(|x| e(&x))?;
            let shreds: Vec<String> = shredder
                .make_merkle_shreds_from_entries(
                    &kp,
                    &entries,
                    w[5] == "1",
                    chained,
                    n(7) as u32,
                    n(8) as u32,
                    rs,
                    &mut ProcessShredsStats::default(),
                )
                .map(|s| hex(s.payload().as_ref()))
                .collect();
            shreds.join(" ")
        }
        other => return Err(format!("unknown request {other}")),
    })
}

fn main() {
    let mut store = None;
    let rs = ReedSolomonCache::default();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let a = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(&w, &mut store, &rs))) {
            Ok(Ok(a)) => a,
            Ok(Err(e)) => format!("error {e}").replace('\n', " "),
            Err(_) => "error panicked".into(),
        };
        let mut o = out.lock();
        if writeln!(o, "{a}").and_then(|_| o.flush()).is_err() {
            return;
        }
    }
}
