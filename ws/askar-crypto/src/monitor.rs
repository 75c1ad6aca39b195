//! Event log of the crypto boundary. Off unless a thread turns it on; per thread.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Event {
    KeyGen {
        alg: &'static str,
        public: Vec<u8>,
        secret: Vec<u8>,
    },
    Nonce {
        alg: &'static str,
        nonce: Vec<u8>,
    },
    Derive {
        kdf: &'static str,
        ephem: Vec<u8>,
        sender: Option<Vec<u8>>,
        recip: Vec<u8>,
        alg: Vec<u8>,
        apu: Vec<u8>,
        apv: Vec<u8>,
        cc_tag: Vec<u8>,
        receive: bool,
        out: Vec<u8>,
    },
    Encrypt {
        alg: &'static str,
        key: Vec<u8>,
        nonce: Vec<u8>,
        aad: Vec<u8>,
        plaintext: Vec<u8>,
    },
    Decrypt {
        alg: &'static str,
        key: Vec<u8>,
        nonce: Vec<u8>,
        aad: Vec<u8>,
        ok: bool,
    },
    Sign {
        alg: &'static str,
        public: Vec<u8>,
        message: Vec<u8>,
    },
    Verify {
        alg: &'static str,
        public: Vec<u8>,
        message: Vec<u8>,
        ok: bool,
    },
}

thread_local! {
    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
}

pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]))
}

pub fn take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

pub(crate) fn emit(f: impl FnOnce() -> Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(f())
        }
    })
}
