use crate::{
    buffer::{SecretBytes, WriteBuffer},
    error::Result,
};

pub mod ecdh_1pu;
pub mod ecdh_es;

pub trait KeyExchange<Rhs: ?Sized = Self> {
    fn write_key_exchange(&self, other: &Rhs, out: &mut dyn WriteBuffer) -> Result<()>;

    fn key_exchange_bytes(&self, other: &Rhs) -> Result<SecretBytes> {
        let mut v: Vec<u8> = vec![];
        self.write_key_exchange(other, &mut v)?;
        Ok(SecretBytes::from(v))
    }

    /// Not in askar: lets the monitor name the keys of a derivation.
    fn monitor_public(&self) -> Vec<u8>;
}

pub trait KeyDerivation {
    fn derive_key_bytes(&mut self, key_output: &mut [u8]) -> Result<()>;
}

pub trait FromKeyDerivation {
    fn from_key_derivation<D: KeyDerivation>(derive: D) -> Result<Self>
    where
        Self: Sized;
}

/// NIST SP 800-56A concatenation KDF with SHA-256, as parameterised by RFC 7518 section 4.6.2.
pub(crate) fn concat_kdf(
    z: &[u8],
    alg: &[u8],
    apu: &[u8],
    apv: &[u8],
    pub_info: &[u8],
    priv_info: &[u8],
    out: &mut [u8],
) {
    let mut other = vec![];
    for f in [alg, apu, apv] {
        other.extend_from_slice(&(f.len() as u32).to_be_bytes());
        other.extend_from_slice(f);
    }
    other.extend_from_slice(pub_info);
    other.extend_from_slice(priv_info);
    for (i, chunk) in out.chunks_mut(32).enumerate() {
        let mut h = openssl::sha::Sha256::new();
        h.update(&(i as u32 + 1).to_be_bytes());
        h.update(z);
        h.update(&other);
        let d = h.finish();
        chunk.copy_from_slice(&d[..chunk.len()]);
    }
}
