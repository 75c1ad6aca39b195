use openssl::{
    aes::{unwrap_key, wrap_key, AesKey as RawAes},
    hash::MessageDigest,
    pkey::PKey,
    sign::Signer,
    symm,
};
use std::marker::PhantomData;

use crate::{
    buffer::{ResizeBuffer, WriteBuffer},
    encrypt::{KeyAeadInPlace, KeyAeadMeta, KeyAeadParams},
    error::{err, ErrorKind, Result},
    kdf::{FromKeyDerivation, KeyDerivation},
    monitor,
    random::KeyMaterial,
    repr::{KeyGen, KeySecretBytes, ToSecretBytes},
};

pub trait AesType {
    const KEY_LENGTH: usize;
    const NAME: &'static str;
    const NONCE: usize;
    const TAG: usize;
    fn seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Result<(Vec<u8>, Vec<u8>)>;
    fn open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>>;
}

#[derive(Clone, PartialEq, Eq)]
pub struct AesKey<T>(Vec<u8>, PhantomData<T>);

impl<T: AesType> std::fmt::Debug for AesKey<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "AesKey<{}>(<secret>)", T::NAME)
    }
}

macro_rules! marker {
    ($($n:ident),*) => { $(#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct $n;)* };
}
marker!(A128Gcm, A256Gcm, A128CbcHs256, A256CbcHs512, A128Kw, A256Kw);

impl<T: AesType> KeyGen for AesKey<T> {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self> {
        let mut k = vec![0u8; T::KEY_LENGTH];
        rng.read_okm(&mut k);
        monitor::emit(|| monitor::Event::KeyGen {
            alg: T::NAME,
            public: vec![],
            secret: k.clone(),
        });
        Ok(AesKey(k, PhantomData))
    }
}

impl<T: AesType> ToSecretBytes for AesKey<T> {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.0)
    }
}

impl<T: AesType> KeySecretBytes for AesKey<T> {
    fn from_secret_bytes(key: &[u8]) -> Result<Self> {
        if key.len() != T::KEY_LENGTH {
            return err(ErrorKind::InvalidKeyData, "wrong key length");
        }
        Ok(AesKey(key.to_vec(), PhantomData))
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(Some(&self.0))
    }
}

impl<T: AesType> FromKeyDerivation for AesKey<T> {
    fn from_key_derivation<D: KeyDerivation>(mut derive: D) -> Result<Self> {
        let mut k = vec![0u8; T::KEY_LENGTH];
        derive.derive_key_bytes(&mut k)?;
        Ok(AesKey(k, PhantomData))
    }
}

impl<T: AesType> KeyAeadMeta for AesKey<T> {
    const NONCE_LENGTH: usize = T::NONCE;
    const TAG_LENGTH: usize = T::TAG;
    const AEAD_NAME: &'static str = T::NAME;
}

impl<T: AesType> KeyAeadInPlace for AesKey<T> {
    fn encrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<usize> {
        if nonce.len() != T::NONCE {
            return err(ErrorKind::InvalidNonce, "wrong nonce length");
        }
        monitor::emit(|| monitor::Event::Encrypt {
            alg: T::NAME,
            key: self.0.clone(),
            nonce: nonce.to_vec(),
            aad: aad.to_vec(),
            plaintext: (*buffer).as_ref().to_vec(),
        });
        let (ct, tag) = T::seal(&self.0, nonce, aad, (*buffer).as_ref())?;
        buffer.buffer_resize(ct.len() + tag.len())?;
        let b = (*buffer).as_mut();
        b[..ct.len()].copy_from_slice(&ct);
        b[ct.len()..].copy_from_slice(&tag);
        Ok(ct.len())
    }

    fn decrypt_in_place(
        &self,
        buffer: &mut dyn ResizeBuffer,
        nonce: &[u8],
        aad: &[u8],
    ) -> Result<()> {
        let r = (|| {
            if nonce.len() != T::NONCE {
                return err(ErrorKind::InvalidNonce, "wrong nonce length");
            }
            let b = (*buffer).as_ref();
            if b.len() < T::TAG {
                return err(ErrorKind::Encryption, "Invalid size for encrypted data");
            }
            let (ct, tag) = b.split_at(b.len() - T::TAG);
            T::open(&self.0, nonce, aad, ct, tag)
        })();
        monitor::emit(|| monitor::Event::Decrypt {
            alg: T::NAME,
            key: self.0.clone(),
            nonce: nonce.to_vec(),
            aad: aad.to_vec(),
            ok: r.is_ok(),
        });
        let pt = r?;
        buffer.buffer_resize(pt.len())?;
        (*buffer).as_mut().copy_from_slice(&pt);
        Ok(())
    }

    fn aead_params(&self) -> KeyAeadParams {
        KeyAeadParams {
            nonce_length: T::NONCE,
            tag_length: T::TAG,
        }
    }
}

macro_rules! gcm {
    ($t:ident, $name:literal, $len:literal, $c:ident) => {
        impl AesType for $t {
            const KEY_LENGTH: usize = $len;
            const NAME: &'static str = $name;
            const NONCE: usize = 12;
            const TAG: usize = 16;
            fn seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Result<(Vec<u8>, Vec<u8>)> {
                let mut tag = vec![0u8; 16];
                match symm::encrypt_aead(symm::Cipher::$c(), key, Some(nonce), aad, pt, &mut tag) {
                    Ok(ct) => Ok((ct, tag)),
                    Err(_) => err(ErrorKind::Encryption, "AEAD encryption error"),
                }
            }
            fn open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>> {
                symm::decrypt_aead(symm::Cipher::$c(), key, Some(nonce), aad, ct, tag)
                    .or_else(|_| err(ErrorKind::Encryption, "AEAD decryption error"))
            }
        }
    };
}
gcm!(A128Gcm, "A128GCM", 16, aes_128_gcm);
gcm!(A256Gcm, "A256GCM", 32, aes_256_gcm);

fn cbc_tag(md: MessageDigest, mac_key: &[u8], aad: &[u8], iv: &[u8], ct: &[u8]) -> Vec<u8> {
    let key = PKey::hmac(mac_key).expect("hmac key");
    let mut s = Signer::new(md, &key).expect("hmac");
    for part in [aad, iv, ct, &((aad.len() as u64) * 8).to_be_bytes()] {
        s.update(part).expect("hmac");
    }
    let mut t = s.sign_to_vec().expect("hmac");
    t.truncate(mac_key.len());
    t
}

macro_rules! cbc {
    ($t:ident, $name:literal, $len:literal, $c:ident, $md:ident) => {
        impl AesType for $t {
            const KEY_LENGTH: usize = $len;
            const NAME: &'static str = $name;
            const NONCE: usize = 16;
            const TAG: usize = $len / 2;
            fn seal(key: &[u8], nonce: &[u8], aad: &[u8], pt: &[u8]) -> Result<(Vec<u8>, Vec<u8>)> {
                let (mac, enc) = key.split_at($len / 2);
                let ct = symm::encrypt(symm::Cipher::$c(), enc, Some(nonce), pt)
                    .or_else(|_| err(ErrorKind::Encryption, "AES-CBC encryption error"))?;
                let tag = cbc_tag(MessageDigest::$md(), mac, aad, nonce, &ct);
                Ok((ct, tag))
            }
            fn open(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>> {
                let (mac, enc) = key.split_at($len / 2);
                let exp = cbc_tag(MessageDigest::$md(), mac, aad, nonce, ct);
                if exp.len() != tag.len() || !openssl::memcmp::eq(&exp, tag) {
                    return err(ErrorKind::Encryption, "AEAD decryption error");
                }
                symm::decrypt(symm::Cipher::$c(), enc, Some(nonce), ct)
                    .or_else(|_| err(ErrorKind::Encryption, "AES-CBC decryption error"))
            }
        }
    };
}
cbc!(A128CbcHs256, "A128CBC-HS256", 32, aes_128_cbc, sha256);
cbc!(A256CbcHs512, "A256CBC-HS512", 64, aes_256_cbc, sha512);

macro_rules! kw {
    ($t:ident, $name:literal, $len:literal) => {
        impl AesType for $t {
            const KEY_LENGTH: usize = $len;
            const NAME: &'static str = $name;
            const NONCE: usize = 0;
            const TAG: usize = 8;
            fn seal(key: &[u8], _: &[u8], aad: &[u8], pt: &[u8]) -> Result<(Vec<u8>, Vec<u8>)> {
                if !aad.is_empty() || pt.len() % 8 != 0 || pt.len() < 16 {
                    return err(ErrorKind::Unsupported, "AES-KW input");
                }
                let k = RawAes::new_encrypt(key).expect("aes key");
                let mut out = vec![0u8; pt.len() + 8];
                match wrap_key(&k, None, &mut out, pt) {
                    Ok(n) if n == out.len() => {
                        // the integrity block comes first on the wire; keep the wire order
                        let tag = out.split_off(pt.len());
                        Ok((out, tag))
                    }
                    _ => err(ErrorKind::Encryption, "AES-KW error"),
                }
            }
            fn open(key: &[u8], _: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Result<Vec<u8>> {
                let mut full = ct.to_vec();
                full.extend_from_slice(tag);
                if !aad.is_empty() || full.len() % 8 != 0 || full.len() < 24 {
                    return err(ErrorKind::Encryption, "Invalid size for encrypted data");
                }
                let k = RawAes::new_decrypt(key).expect("aes key");
                let mut out = vec![0u8; full.len() - 8];
                match unwrap_key(&k, None, &mut out, &full) {
                    Ok(n) if n == out.len() => Ok(out),
                    _ => err(ErrorKind::Encryption, "Encryption error"),
                }
            }
        }
    };
}
kw!(A128Kw, "A128KW", 16);
kw!(A256Kw, "A256KW", 32);
