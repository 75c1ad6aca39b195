use super::{concat_kdf, KeyDerivation, KeyExchange};
use crate::{error::Result, monitor};

#[derive(Debug)]
pub struct Ecdh1PU<'d, Key: KeyExchange + ?Sized> {
    ephem_key: &'d Key,
    send_key: &'d Key,
    recip_key: &'d Key,
    alg: &'d [u8],
    apu: &'d [u8],
    apv: &'d [u8],
    cc_tag: &'d [u8],
    receive: bool,
}

impl<'d, Key: KeyExchange + ?Sized> Ecdh1PU<'d, Key> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        ephem_key: &'d Key,
        send_key: &'d Key,
        recip_key: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        cc_tag: &'d [u8],
        receive: bool,
    ) -> Self {
        Self {
            ephem_key,
            send_key,
            recip_key,
            alg,
            apu,
            apv,
            cc_tag,
            receive,
        }
    }
}

impl<Key: KeyExchange + ?Sized> KeyDerivation for Ecdh1PU<'_, Key> {
    fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<()> {
        let (ze, zs) = if self.receive {
            (
                self.recip_key.key_exchange_bytes(self.ephem_key)?,
                self.recip_key.key_exchange_bytes(self.send_key)?,
            )
        } else {
            (
                self.ephem_key.key_exchange_bytes(self.recip_key)?,
                self.send_key.key_exchange_bytes(self.recip_key)?,
            )
        };
        let mut z = ze.to_vec();
        z.extend_from_slice(&zs);
        let mut pub_info = ((out.len() * 8) as u32).to_be_bytes().to_vec();
        if !self.cc_tag.is_empty() {
            pub_info.extend_from_slice(&(self.cc_tag.len() as u32).to_be_bytes());
            pub_info.extend_from_slice(self.cc_tag);
        }
        concat_kdf(&z, self.alg, self.apu, self.apv, &pub_info, &[], out);
        monitor::emit(|| monitor::Event::Derive {
            kdf: "ECDH-1PU",
            ephem: self.ephem_key.monitor_public(),
            sender: Some(self.send_key.monitor_public()),
            recip: self.recip_key.monitor_public(),
            alg: self.alg.to_vec(),
            apu: self.apu.to_vec(),
            apv: self.apv.to_vec(),
            cc_tag: self.cc_tag.to_vec(),
            receive: self.receive,
            out: out.to_vec(),
        });
        Ok(())
    }
}
