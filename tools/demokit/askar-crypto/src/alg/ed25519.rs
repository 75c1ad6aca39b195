use openssl::{
    pkey::{Id, PKey},
    sign::{Signer, Verifier},
};

use crate::{
    buffer::WriteBuffer,
    error::{err, Error, ErrorKind, Result},
    jwk::{FromJwk, JwkParts, ToJwk},
    monitor,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes, ToPublicBytes, ToSecretBytes},
    sign::{KeySigVerify, KeySign, SignatureType},
    util::{b64e, hex},
};

#[derive(Clone)]
pub struct Ed25519KeyPair {
    secret: Option<[u8; 32]>,
    public: [u8; 32],
}

impl std::fmt::Debug for Ed25519KeyPair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Ed25519KeyPair")
            .field("secret", &self.secret.map(|s| hex(&s)))
            .field("public", &hex(&self.public))
            .finish()
    }
}

impl Ed25519KeyPair {
    fn from_sk(secret: [u8; 32]) -> Result<Self> {
        let k = PKey::private_key_from_raw_bytes(&secret, Id::ED25519)
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "bad Ed25519 secret"))?;
        let public = k
            .raw_public_key()
            .ok()
            .and_then(|p| p.try_into().ok())
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "bad Ed25519 secret"))?;
        Ok(Ed25519KeyPair {
            secret: Some(secret),
            public,
        })
    }
}

impl KeyGen for Ed25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self> {
        let mut sk = [0u8; 32];
        rng.read_okm(&mut sk);
        let k = Self::from_sk(sk)?;
        monitor::emit(|| monitor::Event::KeyGen {
            alg: "Ed25519",
            public: k.public.to_vec(),
            secret: sk.to_vec(),
        });
        Ok(k)
    }
}

impl KeySign for Ed25519KeyPair {
    fn write_signature(
        &self,
        message: &[u8],
        sig_type: Option<SignatureType>,
        out: &mut dyn WriteBuffer,
    ) -> Result<()> {
        if !matches!(sig_type, None | Some(SignatureType::EdDSA)) {
            return err(ErrorKind::Unsupported, "Unsupported signature type");
        }
        let sk = match self.secret {
            Some(s) => s,
            None => return err(ErrorKind::Unsupported, "Undefined secret key"),
        };
        monitor::emit(|| monitor::Event::Sign {
            alg: "EdDSA",
            public: self.public.to_vec(),
            message: message.to_vec(),
        });
        let r = (|| {
            let sk = PKey::private_key_from_raw_bytes(&sk, Id::ED25519)?;
            Signer::new_without_digest(&sk)?.sign_oneshot_to_vec(message)
        })();
        match r {
            Ok(v) => out.buffer_write(&v),
            Err(_) => err(ErrorKind::Unexpected, "Ed25519 signing failed"),
        }
    }
}

impl KeySigVerify for Ed25519KeyPair {
    fn verify_signature(
        &self,
        message: &[u8],
        signature: &[u8],
        sig_type: Option<SignatureType>,
    ) -> Result<bool> {
        if !matches!(sig_type, None | Some(SignatureType::EdDSA)) {
            return err(ErrorKind::Unsupported, "Unsupported signature type");
        }
        let ok = signature.len() == 64
            && (|| {
                let pk = PKey::public_key_from_raw_bytes(&self.public, Id::ED25519)?;
                let mut v = Verifier::new_without_digest(&pk)?;
                v.verify_oneshot(signature, message)
            })()
            .unwrap_or(false);
        monitor::emit(|| monitor::Event::Verify {
            alg: "EdDSA",
            public: self.public.to_vec(),
            message: message.to_vec(),
            ok,
        });
        Ok(ok)
    }
}

impl ToSecretBytes for Ed25519KeyPair {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        match &self.secret {
            Some(s) => out.buffer_write(s),
            None => err(ErrorKind::MissingSecretKey, "no secret key"),
        }
    }
}

impl KeySecretBytes for Ed25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self> {
        let sk: [u8; 32] = key
            .try_into()
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong key length"))?;
        Self::from_sk(sk)
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.secret.as_ref().map(|s| &s[..]))
    }
}

impl ToPublicBytes for Ed25519KeyPair {
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.public)
    }
}

impl KeyPublicBytes for Ed25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self> {
        let public: [u8; 32] = key
            .try_into()
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong key length"))?;
        Ok(Ed25519KeyPair {
            secret: None,
            public,
        })
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.public)
    }
}

impl FromJwk for Ed25519KeyPair {
    // like askar 0.2, `kty` and `crv` are not looked at
    fn from_jwk_parts(jwk: JwkParts) -> Result<Self> {
        let x = JwkParts::bytes32(&jwk.x)?
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "JWK without x"))?;
        match JwkParts::bytes32(&jwk.d)? {
            Some(d) => {
                let k = Self::from_sk(d)?;
                if k.public != x {
                    return err(ErrorKind::InvalidKeyData, "Keypair mismatch");
                }
                Ok(k)
            }
            None => Self::from_public_bytes(&x),
        }
    }
}

impl ToJwk for Ed25519KeyPair {
    fn jwk_members(&self, secret: bool) -> Result<Vec<(&'static str, String)>> {
        let mut m = vec![
            ("crv", "Ed25519".to_string()),
            ("kty", "OKP".to_string()),
            ("x", b64e(&self.public)),
        ];
        if secret {
            if let Some(s) = &self.secret {
                m.push(("d", b64e(s)));
            }
        }
        Ok(m)
    }
}
