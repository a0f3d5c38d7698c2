pub mod crypto;
pub mod engine;
pub mod shred;
pub mod svm;
pub mod tape;
