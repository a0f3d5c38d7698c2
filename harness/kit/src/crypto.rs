//! Ed25519 keys derived from small seeds, with a cache.
use {
    ed25519_dalek::{ExpandedSecretKey, PublicKey, SecretKey, Signature},
    solana_program::pubkey::Pubkey,
    std::convert::TryFrom,
};

pub struct Key {
    public: PublicKey,
    expanded: ExpandedSecretKey,
    pub secret: [u8; 32],
}

impl Key {
    pub fn new(seed: u64) -> Self {
        let mut s = crate::tape::blob32(seed ^ 0x5EED_0000_0000_0000);
        s[31] ^= 1;
        let secret = SecretKey::from_bytes(&s).unwrap();
        let expanded = ExpandedSecretKey::from(&secret);
        Key { public: PublicKey::from(&secret), expanded, secret: s }
    }
    pub fn pubkey(&self) -> Pubkey {
        Pubkey::new_from_array(self.public.to_bytes())
    }
    pub fn sign(&self, msg: &[u8]) -> [u8; 64] {
        self.expanded.sign(msg, &self.public).to_bytes()
    }
    /// secret followed by public, as in a Solana keypair file
    pub fn keypair_bytes(&self) -> Vec<u8> {
        [self.secret.as_slice(), self.public.as_bytes()].concat()
    }
}

pub fn verify(pubkey: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let Ok(p) = PublicKey::from_bytes(pubkey) else { return false };
    let Ok(s) = Signature::try_from(&sig[..]) else { return false };
    p.verify_strict(msg, &s).is_ok()
}
