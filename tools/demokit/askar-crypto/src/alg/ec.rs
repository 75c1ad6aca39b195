//! Weierstrass curves: shared code of P-256 and secp256k1.
use openssl::{
    bn::{BigNum, BigNumContext},
    ec::{EcGroup, EcKey, EcPoint},
    ecdsa::EcdsaSig,
    error::ErrorStack,
    nid::Nid,
    pkey::{PKey, Private},
    sha::sha256,
};

use crate::error::{err, Error, ErrorKind, Result};

#[derive(Clone, PartialEq, Eq)]
pub struct EcPair {
    pub secret: Option<[u8; 32]>,
    pub x: [u8; 32],
    pub y: [u8; 32],
}

fn pad(n: &BigNum) -> [u8; 32] {
    let v = n.to_vec_padded(32).expect("field element");
    v.try_into().expect("field element")
}

fn bad<T>(_: T) -> Error {
    Error::new(ErrorKind::InvalidKeyData, "Invalid key data")
}

impl EcPair {
    pub fn group(nid: Nid) -> EcGroup {
        EcGroup::from_curve_name(nid).expect("curve")
    }

    pub fn from_xy(nid: Nid, x: [u8; 32], y: [u8; 32]) -> Result<Self> {
        let g = Self::group(nid);
        let (bx, by) = (
            BigNum::from_slice(&x).map_err(bad)?,
            BigNum::from_slice(&y).map_err(bad)?,
        );
        EcKey::from_public_key_affine_coordinates(&g, &bx, &by).map_err(bad)?;
        Ok(EcPair { secret: None, x, y })
    }

    pub fn from_sec1(nid: Nid, b: &[u8]) -> Result<Self> {
        let g = Self::group(nid);
        let mut ctx = BigNumContext::new().map_err(bad)?;
        let p = EcPoint::from_bytes(&g, b, &mut ctx).map_err(bad)?;
        let (x, y) = Self::affine(&g, &p).map_err(bad)?;
        Ok(EcPair { secret: None, x, y })
    }

    fn affine(
        g: &EcGroup,
        p: &openssl::ec::EcPointRef,
    ) -> std::result::Result<([u8; 32], [u8; 32]), ErrorStack> {
        let mut ctx = BigNumContext::new()?;
        let (mut x, mut y) = (BigNum::new()?, BigNum::new()?);
        p.affine_coordinates(g, &mut x, &mut y, &mut ctx)?;
        Ok((pad(&x), pad(&y)))
    }

    pub fn from_sk(nid: Nid, secret: [u8; 32]) -> Result<Self> {
        let g = Self::group(nid);
        let d = BigNum::from_slice(&secret).map_err(bad)?;
        let mut order = BigNum::new().map_err(bad)?;
        let mut ctx = BigNumContext::new().map_err(bad)?;
        g.order(&mut order, &mut ctx).map_err(bad)?;
        if d.num_bits() == 0 || d >= order {
            return err(ErrorKind::InvalidKeyData, "invalid EC secret");
        }
        let mut p = EcPoint::new(&g).map_err(bad)?;
        p.mul_generator2(&g, &d, &mut ctx).map_err(bad)?;
        let (x, y) = Self::affine(&g, &p).map_err(bad)?;
        Ok(EcPair {
            secret: Some(secret),
            x,
            y,
        })
    }

    fn private(&self, nid: Nid) -> Result<EcKey<Private>> {
        let g = Self::group(nid);
        let sk = match self.secret {
            Some(s) => s,
            None => return err(ErrorKind::MissingSecretKey, "no secret key"),
        };
        let d = BigNum::from_slice(&sk).map_err(bad)?;
        let mut ctx = BigNumContext::new().map_err(bad)?;
        let p = EcPoint::from_bytes(&g, &self.sec1_uncompressed(), &mut ctx).map_err(bad)?;
        EcKey::from_private_components(&g, &d, &p).map_err(bad)
    }

    pub fn sec1_uncompressed(&self) -> Vec<u8> {
        let mut v = vec![4u8];
        v.extend_from_slice(&self.x);
        v.extend_from_slice(&self.y);
        v
    }

    pub fn sec1_compressed(&self) -> Vec<u8> {
        let mut v = vec![2 + (self.y[31] & 1)];
        v.extend_from_slice(&self.x);
        v
    }

    pub fn ecdh(&self, nid: Nid, other: &EcPair) -> Result<Vec<u8>> {
        let sk = PKey::from_ec_key(self.private(nid)?).map_err(bad)?;
        let g = Self::group(nid);
        let (x, y) = (
            BigNum::from_slice(&other.x).map_err(bad)?,
            BigNum::from_slice(&other.y).map_err(bad)?,
        );
        let pk = EcKey::from_public_key_affine_coordinates(&g, &x, &y).map_err(bad)?;
        let pk = PKey::from_ec_key(pk).map_err(bad)?;
        let mut d = openssl::derive::Deriver::new(&sk).map_err(bad)?;
        d.set_peer(&pk).map_err(bad)?;
        let z = d.derive_to_vec().map_err(bad)?;
        Ok(z)
    }

    /// 64-byte r || s; `low_s` normalises s (secp256k1 libraries do).
    pub fn sign(&self, nid: Nid, msg: &[u8], low_s: bool) -> Result<Vec<u8>> {
        let k = self.private(nid)?;
        let sig = EcdsaSig::sign(&sha256(msg), &k).map_err(bad)?;
        let r = sig.r().to_vec_padded(32).map_err(bad)?;
        let mut s = sig.s().to_owned().map_err(bad)?;
        if low_s {
            let order = Self::order(nid)?;
            let mut half = BigNum::new().map_err(bad)?;
            half.rshift1(&order).map_err(bad)?;
            if s > half {
                let mut t = BigNum::new().map_err(bad)?;
                t.checked_sub(&order, &s).map_err(bad)?;
                s = t;
            }
        }
        let mut out = r;
        out.extend_from_slice(&s.to_vec_padded(32).map_err(bad)?);
        Ok(out)
    }

    fn order(nid: Nid) -> Result<BigNum> {
        let mut order = BigNum::new().map_err(bad)?;
        let mut ctx = BigNumContext::new().map_err(bad)?;
        Self::group(nid).order(&mut order, &mut ctx).map_err(bad)?;
        Ok(order)
    }

    pub fn verify(&self, nid: Nid, msg: &[u8], sig: &[u8], low_s: bool) -> bool {
        if sig.len() != 64 {
            return false;
        }
        (|| -> Result<bool> {
            let r = BigNum::from_slice(&sig[..32]).map_err(bad)?;
            let s = BigNum::from_slice(&sig[32..]).map_err(bad)?;
            if low_s {
                let mut half = BigNum::new().map_err(bad)?;
                let order = Self::order(nid)?;
                half.rshift1(&order).map_err(bad)?;
                if s > half {
                    return Ok(false);
                }
            }
            let sig = EcdsaSig::from_private_components(r, s).map_err(bad)?;
            let g = Self::group(nid);
            let (x, y) = (
                BigNum::from_slice(&self.x).map_err(bad)?,
                BigNum::from_slice(&self.y).map_err(bad)?,
            );
            let pk = EcKey::from_public_key_affine_coordinates(&g, &x, &y).map_err(bad)?;
            Ok(sig.verify(&sha256(msg), &pk).unwrap_or(false))
        })()
        .unwrap_or(false)
    }
}
