use crate::{buffer::ResizeBuffer, error::Result};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct KeyAeadParams {
    pub nonce_length: usize,
    pub tag_length: usize,
}

pub trait KeyAeadInPlace {
    /// Encrypts in place and appends the tag; returns the length of the ciphertext without the tag.
    fn encrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize>;

    fn decrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<()>;

    fn aead_params(&self) -> KeyAeadParams;

    fn aead_padding(&self, _msg_len: usize) -> usize {
        0
    }
}

pub trait KeyAeadMeta {
    const NONCE_LENGTH: usize;
    const TAG_LENGTH: usize;
    const AEAD_NAME: &'static str;

    fn random_nonce() -> Vec<u8> {
        let mut v = vec![0u8; Self::NONCE_LENGTH];
        crate::random::fill(&mut v);
        crate::monitor::emit(|| crate::monitor::Event::Nonce {
            alg: Self::AEAD_NAME,
            nonce: v.clone(),
        });
        v
    }
}
