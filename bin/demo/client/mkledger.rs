//! mkledger <path> <slot>...: a ledger with a duplicate proof for each slot
use {
    solana_ledger::{
        blockstore::Blockstore,
        blockstore_options::BlockstoreOptions,
        shred::{ProcessShredsStats, ReedSolomonCache, Shredder},
    },
    solana_sdk::{hash::hashv, signature::Keypair, signer::keypair::keypair_from_seed},
};

fn shred(slot: u64, salt: u64, kp: &Keypair, rs: &ReedSolomonCache) -> Vec<u8> {
    let mut bytes = 1u64.to_le_bytes().to_vec();
    bytes.extend_from_slice(&1u64.to_le_bytes());
    bytes.extend_from_slice(hashv(&[&slot.to_le_bytes(), &salt.to_le_bytes()]).as_ref());
    bytes.extend_from_slice(&0u64.to_le_bytes());
    let entries: Vec<_> = bincode::deserialize(&bytes).unwrap();
    let s = Shredder::new(slot, slot - 1, 0, 1).unwrap();
    let v: Vec<_> = s
        .make_merkle_shreds_from_entries(kp, &entries, true, None, 0, 0, rs, &mut ProcessShredsStats::default())
        .collect();
    v[0].payload().as_ref().to_vec()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let options = BlockstoreOptions { enforce_ulimit_nofile: false, ..BlockstoreOptions::default() };
    let store = Blockstore::open_with_options(std::path::Path::new(&a[1]), options).unwrap();
    let kp = keypair_from_seed(&[7; 32]).unwrap();
    let rs = ReedSolomonCache::default();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    for s in &a[2..] {
        let slot: u64 = s.parse().unwrap();
        let (x, y) = (shred(slot, 1, &kp, &rs), shred(slot, 2, &kp, &rs));
        println!("slot {slot} {} {}", hex(&x), hex(&y));
        store.store_duplicate_slot(slot, x, y).unwrap();
    }
}
