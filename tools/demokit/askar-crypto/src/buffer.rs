use crate::error::Result;
use std::ops::{Deref, DerefMut};

pub trait WriteBuffer {
    fn buffer_write(&mut self, data: &[u8]) -> Result<()>;
}

pub trait ResizeBuffer: WriteBuffer + AsRef<[u8]> + AsMut<[u8]> {
    fn buffer_resize(&mut self, len: usize) -> Result<()>;
}

impl WriteBuffer for Vec<u8> {
    fn buffer_write(&mut self, data: &[u8]) -> Result<()> {
        self.extend_from_slice(data);
        Ok(())
    }
}

impl ResizeBuffer for Vec<u8> {
    fn buffer_resize(&mut self, len: usize) -> Result<()> {
        self.resize(len, 0);
        Ok(())
    }
}

#[derive(Clone, Default, PartialEq, Eq)]
pub struct SecretBytes(Vec<u8>);

impl SecretBytes {
    pub fn with_capacity(cap: usize) -> Self {
        SecretBytes(Vec::with_capacity(cap))
    }
    pub fn from_slice(data: &[u8]) -> Self {
        SecretBytes(data.to_vec())
    }
    pub fn extend_from_slice(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.0
    }
}

impl std::fmt::Debug for SecretBytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SecretBytes(<secret>)")
    }
}

impl From<Vec<u8>> for SecretBytes {
    fn from(v: Vec<u8>) -> Self {
        SecretBytes(v)
    }
}

impl AsRef<[u8]> for SecretBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

impl AsMut<[u8]> for SecretBytes {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

impl Deref for SecretBytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl DerefMut for SecretBytes {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

impl WriteBuffer for SecretBytes {
    fn buffer_write(&mut self, data: &[u8]) -> Result<()> {
        self.0.extend_from_slice(data);
        Ok(())
    }
}

impl ResizeBuffer for SecretBytes {
    fn buffer_resize(&mut self, len: usize) -> Result<()> {
        self.0.resize(len, 0);
        Ok(())
    }
}
