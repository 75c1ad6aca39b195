use openssl::nid::Nid;

use super::ec::EcPair;
use crate::{
    buffer::WriteBuffer,
    error::{err, Error, ErrorKind, Result},
    jwk::{FromJwk, JwkParts, ToJwk},
    kdf::KeyExchange,
    monitor,
    random::KeyMaterial,
    repr::{KeyGen, KeyPublicBytes, KeySecretBytes, ToPublicBytes, ToSecretBytes},
    sign::{KeySigVerify, KeySign, SignatureType},
    util::{b64e, hex},
};

const NID: Nid = Nid::X9_62_PRIME256V1;
const LOW_S: bool = false;

#[derive(Clone)]
pub struct P256KeyPair(EcPair);

impl std::fmt::Debug for P256KeyPair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("P256KeyPair")
            .field("secret", &self.0.secret.map(|s| hex(&s)))
            .field("public", &hex(&self.0.sec1_compressed()))
            .finish()
    }
}

impl KeyGen for P256KeyPair {
    fn generate(mut rng: impl KeyMaterial) -> Result<Self> {
        loop {
            let mut sk = [0u8; 32];
            rng.read_okm(&mut sk);
            if let Ok(k) = EcPair::from_sk(NID, sk) {
                monitor::emit(|| monitor::Event::KeyGen {
                    alg: "P-256",
                    public: k.sec1_compressed(),
                    secret: sk.to_vec(),
                });
                return Ok(P256KeyPair(k));
            }
        }
    }
}

impl KeyExchange for P256KeyPair {
    fn write_key_exchange(&self, other: &Self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.0.ecdh(NID, &other.0)?)
    }

    fn monitor_public(&self) -> Vec<u8> {
        self.0.sec1_compressed()
    }
}

impl KeySign for P256KeyPair {
    fn write_signature(
        &self,
        message: &[u8],
        sig_type: Option<SignatureType>,
        out: &mut dyn WriteBuffer,
    ) -> Result<()> {
        if !matches!(sig_type, None | Some(SignatureType::ES256)) {
            return err(ErrorKind::Unsupported, "Unsupported signature type");
        }
        if self.0.secret.is_none() {
            return err(ErrorKind::Unsupported, "Undefined secret key");
        }
        monitor::emit(|| monitor::Event::Sign {
            alg: "ES256",
            public: self.0.sec1_compressed(),
            message: message.to_vec(),
        });
        out.buffer_write(&self.0.sign(NID, message, LOW_S)?)
    }
}

impl KeySigVerify for P256KeyPair {
    fn verify_signature(
        &self,
        message: &[u8],
        signature: &[u8],
        sig_type: Option<SignatureType>,
    ) -> Result<bool> {
        if !matches!(sig_type, None | Some(SignatureType::ES256)) {
            return err(ErrorKind::Unsupported, "Unsupported signature type");
        }
        let ok = self.0.verify(NID, message, signature, LOW_S);
        monitor::emit(|| monitor::Event::Verify {
            alg: "ES256",
            public: self.0.sec1_compressed(),
            message: message.to_vec(),
            ok,
        });
        Ok(ok)
    }
}

impl ToSecretBytes for P256KeyPair {
    fn write_secret_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        match &self.0.secret {
            Some(s) => out.buffer_write(s),
            None => err(ErrorKind::MissingSecretKey, "no secret key"),
        }
    }
}

impl KeySecretBytes for P256KeyPair {
    fn from_secret_bytes(key: &[u8]) -> Result<Self> {
        let sk: [u8; 32] = key
            .try_into()
            .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong key length"))?;
        EcPair::from_sk(NID, sk).map(P256KeyPair)
    }
    fn with_secret_bytes<O>(&self, f: impl FnOnce(Option<&[u8]>) -> O) -> O {
        f(self.0.secret.as_ref().map(|s| &s[..]))
    }
}

impl ToPublicBytes for P256KeyPair {
    fn write_public_bytes(&self, out: &mut dyn WriteBuffer) -> Result<()> {
        out.buffer_write(&self.0.sec1_compressed())
    }
}

impl KeyPublicBytes for P256KeyPair {
    fn from_public_bytes(key: &[u8]) -> Result<Self> {
        EcPair::from_sec1(NID, key).map(P256KeyPair)
    }
    fn with_public_bytes<O>(&self, f: impl FnOnce(&[u8]) -> O) -> O {
        f(&self.0.sec1_compressed())
    }
}

impl FromJwk for P256KeyPair {
    // like askar 0.2, `kty` and `crv` are not looked at
    fn from_jwk_parts(jwk: JwkParts) -> Result<Self> {
        let x = JwkParts::bytes32(&jwk.x)?
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "JWK without x"))?;
        let y = JwkParts::bytes32(&jwk.y)?
            .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "JWK without y"))?;
        let pk = EcPair::from_xy(NID, x, y)?;
        match JwkParts::bytes32(&jwk.d)? {
            Some(d) => {
                let k = EcPair::from_sk(NID, d)?;
                if k.x != pk.x || k.y != pk.y {
                    return err(ErrorKind::InvalidKeyData, "Keypair mismatch");
                }
                Ok(P256KeyPair(k))
            }
            None => Ok(P256KeyPair(pk)),
        }
    }
}

impl ToJwk for P256KeyPair {
    fn jwk_members(&self, secret: bool) -> Result<Vec<(&'static str, String)>> {
        let mut m = vec![
            ("crv", "P-256".to_string()),
            ("kty", "EC".to_string()),
            ("x", b64e(&self.0.x)),
            ("y", b64e(&self.0.y)),
        ];
        if secret {
            if let Some(s) = &self.0.secret {
                m.push(("d", b64e(s)));
            }
        }
        Ok(m)
    }
}
