use std::cell::RefCell;

thread_local! {
    static STATE: RefCell<Option<([u8; 32], u64)>> = const { RefCell::new(None) };
}

/// Makes this thread's random source deterministic (`Some(seed)`) or OS-backed (`None`).
pub fn seed_thread(seed: Option<u64>) {
    STATE.with(|s| {
        *s.borrow_mut() = seed.map(|v| {
            let mut k = [0u8; 32];
            k[..8].copy_from_slice(&v.to_le_bytes());
            (k, 0)
        })
    })
}

pub fn fill(buf: &mut [u8]) {
    let done = STATE.with(|s| {
        let mut s = s.borrow_mut();
        if let Some((key, ctr)) = s.as_mut() {
            for chunk in buf.chunks_mut(32) {
                let mut block = [0u8; 40];
                block[..32].copy_from_slice(key);
                block[32..].copy_from_slice(&ctr.to_le_bytes());
                *ctr += 1;
                let h = openssl::sha::sha256(&block);
                chunk.copy_from_slice(&h[..chunk.len()]);
            }
            true
        } else {
            false
        }
    });
    if !done {
        openssl::rand::rand_bytes(buf).expect("OS randomness");
    }
}

/// Source of key material, as accepted by `KeyGen::generate`.
pub trait KeyMaterial {
    fn read_okm(&mut self, buf: &mut [u8]);
}

#[derive(Debug, Default)]
pub struct StdRng(());

impl KeyMaterial for StdRng {
    fn read_okm(&mut self, buf: &mut [u8]) {
        fill(buf)
    }
}

impl<K: KeyMaterial + ?Sized> KeyMaterial for &mut K {
    fn read_okm(&mut self, buf: &mut [u8]) {
        (**self).read_okm(buf)
    }
}

pub fn default_rng() -> StdRng {
    StdRng(())
}

pub fn fill_random(buf: &mut [u8]) {
    fill(buf)
}
