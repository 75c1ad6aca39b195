//! Stand-in for `askar-crypto` 0.2 (rev 4f29d43), the crypto backend didcomm-rust is written
//! against, which cannot be fetched in this sandbox. It offers the part of that crate's API that
//! didcomm-rust uses, with the primitives taken from the system OpenSSL, and it is instrumented:
//! every key generation, nonce draw, key derivation, AEAD call, signature and verification is
//! reported to `monitor`, so that a runtime monitor can see what the code above it does with its keys.
//!
//! It is validated by the repository's own 166 unit tests (which include the RFC 7518, ECDH-1PU
//! draft-04 and DIDComm v2 appendix vectors) and by vectors of its own (see `selftest`).

pub mod alg;
pub mod buffer;
pub mod encrypt;
pub mod error;
pub mod jwk;
pub mod kdf;
pub mod monitor;
pub mod random;
pub mod repr;
pub mod sign;
pub mod util;

pub use error::{Error, ErrorKind};
