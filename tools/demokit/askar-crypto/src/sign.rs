use crate::{
    buffer::{SecretBytes, WriteBuffer},
    error::Result,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SignatureType {
    EdDSA,
    ES256,
    ES256K,
}

pub trait KeySign {
    fn write_signature(
        &self,
        message: &[u8],
        sig_type: Option<SignatureType>,
        out: &mut dyn WriteBuffer,
    ) -> Result<()>;

    fn create_signature(
        &self,
        message: &[u8],
        sig_type: Option<SignatureType>,
    ) -> Result<SecretBytes> {
        let mut v: Vec<u8> = vec![];
        self.write_signature(message, sig_type, &mut v)?;
        Ok(SecretBytes::from(v))
    }
}

pub trait KeySigVerify {
    fn verify_signature(
        &self,
        message: &[u8],
        signature: &[u8],
        sig_type: Option<SignatureType>,
    ) -> Result<bool>;
}
