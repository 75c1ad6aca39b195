use openssl::symm;
use std::marker::PhantomData;

use crate::{
    buffer::{ResizeBuffer, WriteBuffer},
    encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams},
    error::{err, ErrorKind, Result},
    kdf::{FromKeyDerivation, KeyDerivation},
    monitor,
    random::KeyMaterial,
    repr::{KeyGen, KeySecretBytes, ToSecretBytes},
};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct XC20P;

#[derive(Clone, PartialEq, Eq)]
pub struct Chacha20Key<T>(Vec<u8>, PhantomData<T>);

impl<T> std::fmt::Debug for Chacha20Key<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Chacha20Key(<secret>)")
    }
}

fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

/// HChaCha20 (draft-irtf-cfrg-xchacha section 2.2).
pub fn hchacha20(key: &[u8], nonce16: &[u8]) -> Vec<u8> {
    let w = |b: &[u8], i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = w(key, i);
    }
    for i in 0..4 {
        s[12 + i] = w(nonce16, i);
    }
    for _ in 0..10 {
        quarter(&mut s, 0, 4, 8, 12);
        quarter(&mut s, 1, 5, 9, 13);
        quarter(&mut s, 2, 6, 10, 14);
        quarter(&mut s, 3, 7, 11, 15);
        quarter(&mut s, 0, 5, 10, 15);
        quarter(&mut s, 1, 6, 11, 12);
        quarter(&mut s, 2, 7, 8, 13);
        quarter(&mut s, 3, 4, 9, 14);
    }
    s[..4]
        .iter()
        .chain(&s[12..])
        .flat_map(|v| v.to_le_bytes())
        .collect()
}

fn inner(key: &[u8], nonce: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let sub = hchacha20(key, &nonce[..16]);
    let mut n = vec![0u8; 4];
    n.extend_from_slice(&nonce[16..]);
    (sub, n)
}

pub fn xseal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Result<(Vec<u8>, Vec<u8>)> {
    let (k, n) = inner(key, nonce);
    let mut tag = vec![0u8; 16];
    match symm::encrypt_aead(
        symm::Cipher::chacha20_poly1305(),
        &k,
        Some(&n),
        aad,
        pt,
        &mut tag,
    ) {
        Ok(ct) => Ok((ct, tag)),
        Err(_) => err(ErrorKind::Encryption, "AEAD encryption error"),
    }
}

pub fn xopen(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>> {
    let (k, n) = inner(key, nonce);
    symm::decrypt_aead(
        symm::Cipher::chacha20_poly1305(),
        &k,
        Some(&n),
        aad,
        ct,
        tag,
    )
    .or_else(|_| err(ErrorKind::Encryption, "AEAD decryption error"))
}

impl<T> KeyGen for Chacha20Key<T> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self> {
        let mut k = vec![0u8; 32];
        rng.read_okm(&mut k);
        monitor::emit(|| monitor::Event::KeyGen {
            alg: "XC20P",
            public: vec![],
            secret: k.clone(),
        });
        Ok(Chacha20Key(k, PhantomData))
    }
}

impl<T> ToSecretBytes for Chacha20Key<T> {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.0)
    }
}

impl<T> KeySecretBytes for Chacha20Key<T> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self> {
        if key.len() != 32 {
            return err(ErrorKind::InvalidKeyData, "wrong key length");
        }
        Ok(Chacha20Key(key.to_vec(), PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}

impl<T> FromKeyDerivation for Chacha20Key<T> {
    fn from_key_derivation<D: KeyDerivation>(mut derive: D) -> Result<Self> {
        let mut k = vec![0u8; 32];
        derive.derive_key_bytes(&mut k)?;
        Ok(Chacha20Key(k, PhantomData))
    }
}

impl<T> KeyAeadMeta for Chacha20Key<T> {
    const NONCE_LENGTH: usize = 24;
    const TAG_LENGTH: usize = 16;
    const AEAD_NAME: &'static str = "XC20P";
}

impl<T> KeyAeadInPlace for Chacha20Key<T> {
    fn encrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize> {
        if nonce.len() != 24 {
            return err(ErrorKind::InvalidNonce, "wrong nonce length");
        }
        monitor::emit(|| monitor::Event::Encrypt {
            alg: "XC20P",
            key: self.0.clone(),
            nonce: nonce.to_vec(),
            aad: aad.to_vec(),
            plaintext: (*buffer).as_ref().to_vec(),
        });
        let (ct, tag) = xseal(&self.0, nonce, aad, (*buffer).as_ref())?;
        buffer.buffer_resize(ct.len() + tag.len())?;
        let b = (*buffer).as_mut();
        b[..ct.len()].copy_from_slice(&ct);
        b[ct.len()..].copy_from_slice(&tag);
        Ok(ct.len())
    }

    fn decrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<()> {
        let r = (|| {
            if nonce.len() != 24 {
                return err(ErrorKind::InvalidNonce, "wrong nonce length");
            }
            let b = (*buffer).as_ref();
            if b.len() < 16 {
                return err(ErrorKind::Encryption, "Invalid size for encrypted data");
            }
            let (ct, tag) = b.split_at(b.len() - 16);
            xopen(&self.0, nonce, aad, ct, tag)
        })();
        monitor::emit(|| monitor::Event::Decrypt {
            alg: "XC20P",
            key: self.0.clone(),
            nonce: nonce.to_vec(),
            aad: aad.to_vec(),
            ok: r.is_ok(),
        });
        let pt = r?;
        buffer.buffer_resize(pt.len())?;
        (*buffer).as_mut().copy_from_slice(&pt);
        Ok(())
    }

    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams {
            nonce_length: 24,
            tag_length: 16,
        }
    }
}
