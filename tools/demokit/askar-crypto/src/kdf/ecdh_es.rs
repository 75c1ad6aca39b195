use super::{concat_kdf, KeyDerivation, KeyExchange};
use crate::{error::Result, monitor};

#[derive(Debug)]
pub struct EcdhEs<'d, Key: KeyExchange + ?Sized> {
    ephem_key: &'d Key,
    recip_key: &'d Key,
    alg: &'d [u8],
    apu: &'d [u8],
    apv: &'d [u8],
    receive: bool,
}

impl<'d, Key: KeyExchange + ?Sized> EcdhEs<'d, Key> {
    pub fn new(
        ephem_key: &'d Key,
        recip_key: &'d Key,
        alg: &'d [u8],
        apu: &'d [u8],
        apv: &'d [u8],
        receive: bool,
    ) -> Self {
        Self {
            ephem_key,
            recip_key,
            alg,
            apu,
            apv,
            receive,
        }
    }
}

impl<Key: KeyExchange + ?Sized> KeyDerivation for EcdhEs<'_, Key> {
    fn derive_key_bytes(&mut self, out: &mut [u8]) -> Result<()> {
        let z = if self.receive {
            self.recip_key.key_exchange_bytes(self.ephem_key)?
        } else {
            self.ephem_key.key_exchange_bytes(self.recip_key)?
        };
        let pub_info = ((out.len() * 8) as u32).to_be_bytes();
        concat_kdf(&z, self.alg, self.apu, self.apv, &pub_info, &[], out);
        monitor::emit(|| monitor::Event::Derive {
            kdf: "ECDH-ES",
            ephem: self.ephem_key.monitor_public(),
            sender: None,
            recip: self.recip_key.monitor_public(),
            alg: self.alg.to_vec(),
            apu: self.apu.to_vec(),
            apv: self.apv.to_vec(),
            cc_tag: vec![],
            receive: self.receive,
            out: out.to_vec(),
        });
        Ok(())
    }
}
