use crate::{
    error::{Error, ErrorKind, Result},
    util::{b64d, parse_flat_json, JsonVal},
};

/// The JWK members askar looks at.
#[derive(Debug, Default, Clone)]
pub struct JwkParts {
    pub kty: Option<String>,
    pub crv: Option<String>,
    pub x: Option<String>,
    pub y: Option<String>,
    pub d: Option<String>,
}

impl JwkParts {
    pub fn parse(jwk: &str) -> Result<Self> {
        let m = parse_flat_json(jwk)
            .ok_or_else(|| Error::new(ErrorKind::Invalid, "Error deserializing JWK"))?;
        let mut p = JwkParts::default();
        for (k, v) in m {
            let slot = match k.as_str() {
                "kty" => &mut p.kty,
                "crv" => &mut p.crv,
                "x" => &mut p.x,
                "y" => &mut p.y,
                "d" => &mut p.d,
                _ => continue,
            };
            match v {
                JsonVal::Str(s) => *slot = Some(s),
                _ => {
                    return Err(Error::new(ErrorKind::Invalid, "Unexpected JWK member type"));
                }
            }
        }
        if p.kty.is_none() {
            return Err(Error::new(ErrorKind::Invalid, "JWK without kty"));
        }
        Ok(p)
    }

    pub(crate) fn bytes32(v: &Option<String>) -> Result<Option<[u8; 32]>> {
        match v {
            None => Ok(None),
            Some(s) => {
                let b = b64d(s)
                    .ok_or_else(|| Error::new(ErrorKind::InvalidKeyData, "base64 decoding error"))?;
                let b: [u8; 32] = b
                    .try_into()
                    .map_err(|_| Error::new(ErrorKind::InvalidKeyData, "wrong length"))?;
                Ok(Some(b))
            }
        }
    }
}

pub trait FromJwk: Sized {
    fn from_jwk_parts(jwk: JwkParts) -> Result<Self>;

    fn from_jwk(jwk: &str) -> Result<Self> {
        Self::from_jwk_parts(JwkParts::parse(jwk)?)
    }

    fn from_jwk_slice(jwk: &[u8]) -> Result<Self> {
        let s = std::str::from_utf8(jwk)
            .map_err(|_| Error::new(ErrorKind::Invalid, "JWK is not UTF-8"))?;
        Self::from_jwk(s)
    }
}

pub trait ToJwk {
    fn jwk_members(&self, secret: bool) -> Result<Vec<(&'static str, String)>>;

    fn to_jwk_public(&self, _alg: Option<()>) -> Result<String> {
        Ok(render(&self.jwk_members(false)?))
    }

    fn to_jwk_secret(&self) -> Result<crate::buffer::SecretBytes> {
        Ok(crate::buffer::SecretBytes::from(
            render(&self.jwk_members(true)?).into_bytes(),
        ))
    }
}

fn render(m: &[(&'static str, String)]) -> String {
    let body: Vec<String> = m
        .iter()
        .map(|(k, v)| format!("\"{}\":\"{}\"", k, v))
        .collect();
    format!("{{{}}}", body.join(","))
}
