use crate::{
    buffer::{SecretBytes, WriteBuffer},
    error::Result,
    random::KeyMaterial,
};

pub trait KeyGen: Sized {
    fn generate(rng: impl KeyMaterial) -> Result<Self>;

    fn random() -> Result<Self> {
        Self::generate(crate::random::default_rng())
    }
}

pub trait KeySecretBytes: ToSecretBytes {
    fn from_secret_bytes(key: &[u8]) -> Result<Self>
    where
        Self: Sized;
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O;
}

pub trait ToSecretBytes {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()>;

    fn secret_bytes_length(&self) -> Result<usize> {
        let mut v: Vec<u8> = vec![];
        self.write_secret_bytes(&mut v)?;
        Ok(v.len())
    }

    fn to_secret_bytes(&self) -> Result<SecretBytes> {
        let mut v: Vec<u8> = vec![];
        self.write_secret_bytes(&mut v)?;
        Ok(SecretBytes::from(v))
    }
}

pub trait KeyPublicBytes: ToPublicBytes {
    fn from_public_bytes(key: &[u8]) -> Result<Self>
    where
        Self: Sized;
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O;
}

pub trait ToPublicBytes {
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()>;

    fn public_bytes_length(&self) -> Result<usize> {
        let mut v: Vec<u8> = vec![];
        self.write_public_bytes(&mut v)?;
        Ok(v.len())
    }

    fn to_public_bytes(&self) -> Result<SecretBytes> {
        let mut v: Vec<u8> = vec![];
        self.write_public_bytes(&mut v)?;
        Ok(SecretBytes::from(v))
    }
}
