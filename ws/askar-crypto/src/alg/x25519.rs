use openssl::{
    derive::Deriver,
    pkey::{Id, PKey},
};

use crate::{
    buffer::WriteBuffer,
    error::{err, Error, ErrorKind, Result},
    jwk::{FromJwk, JwkParts, ToJwk},
    kdf::KeyExchange,
    monitor,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes, ToPublicBytes, ToSecretBytes},
    util::{b64e, hex},
};

#[derive(Clone)]
pub struct X25519KeyPair {
    secret: Option<[u8; 32]>,
    public: [u8; 32],
}

impl std::fmt::Debug for X25519KeyPair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("X25519KeyPair")
            .field("secret", &self.secret.map(|s| hex(&s)))
            .field("public", &hex(&self.public))
            .finish()
    }
}

impl X25519KeyPair {
    fn from_sk(secret: [u8; 32]) -> Result<Self> {
        let k = PKey::private_key_from_raw_bytes(&secret, Id::X25519)
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "bad X25519 secret"))?;
        let public = k
            .raw_public_key()
            .ok()
            .and_then(|p| p.try_into().ok())
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "bad X25519 secret"))?;
        Ok(X25519KeyPair {
            secret: Some(secret),
            public,
        })
    }
}

impl KeyGen for X25519KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self> {
        let mut sk = [0u8; 32];
        rng.read_okm(&mut sk);
        let k = Self::from_sk(sk)?;
        monitor::emit(|| monitor::Event::KeyGen {
            alg: "X25519",
            public: k.public.to_vec(),
            secret: sk.to_vec(),
        });
        Ok(k)
    }
}

impl KeyExchange for X25519KeyPair {
    fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<()> {
        let sk = match self.secret {
            Some(s) => s,
            None => return err(ErrorKind::MissingSecretKey, "no secret key"),
        };
        let r = (|| {
            let sk = PKey::private_key_from_raw_bytes(&sk, Id::X25519)?;
            let pk = PKey::public_key_from_raw_bytes(&other.public, Id::X25519)?;
            let mut d = Deriver::new(&sk)?;
            d.set_peer(&pk)?;
            d.derive_to_vec()
        })();
        match r {
            Ok(v) => out.buffer_write(&v),
            Err(_) => err(ErrorKind::InvalidKeyData, "X25519 exchange failed"),
        }
    }

    fn monitor_public(&self) -> Vec<u8> {
        self.public.to_vec()
    }
}

impl ToSecretBytes for X25519KeyPair {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        match &self.secret {
            Some(s) => out.buffer_write(s),
            None => err(ErrorKind::MissingSecretKey, "no secret key"),
        }
    }
}

impl KeySecretBytes for X25519KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self> {
        let sk: [u8; 32] = key
            .try_into()
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong key length"))?;
        Self::from_sk(sk)
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.secret.as_ref().map(|s| &s[..]))
    }
}

impl ToPublicBytes for X25519KeyPair {
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.public)
    }
}

impl KeyPublicBytes for X25519KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self> {
        let public: [u8; 32] = key
            .try_into()
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong key length"))?;
        Ok(X25519KeyPair {
            secret: None,
            public,
        })
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.public)
    }
}

impl FromJwk for X25519KeyPair {
    // like askar 0.2, `kty` and `crv` are not looked at
    fn from_jwk_parts(jwk: JwkParts) -> Result<Self> {
        let x = JwkParts::bytes32(&jwk.x)?
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "JWK without x"))?;
        match JwkParts::bytes32(&jwk.d)? {
            Some(d) => {
                let k = Self::from_sk(d)?;
                if k.public != x {
                    return err(ErrorKind::InvalidKeyData, "Keypair mismatch");
                }
                Ok(k)
            }
            None => Self::from_public_bytes(&x),
        }
    }
}

impl ToJwk for X25519KeyPair {
    fn jwk_members(&self, secret: bool) -> Result<Vec<(&'static str, String)>> {
        let mut m = vec![
            ("crv", "X25519".to_string()),
            ("kty", "OKP".to_string()),
            ("x", b64e(&self.public)),
        ];
        if secret {
            if let Some(s) = &self.secret {
                m.push(("d", b64e(s)));
            }
        }
        Ok(m)
    }
}
