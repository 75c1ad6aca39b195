//! Running the code under test: a polling executor that notices futures nobody will wake,
//! a panic catcher, and a suspension point for resolvers.
use std::{
    cell::RefCell,
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

#[derive(Debug, Clone, PartialEq)]
pub enum Abnormal {
    Panic(String),
    /// The future stayed pending although nothing was left that could wake it.
    Stuck,
}

impl std::fmt::Display for Abnormal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Abnormal::Panic(m) => write!(f, "panic: {m}"),
            Abnormal::Stuck => write!(f, "operation never completes"),
        }
    }
}

pub struct Flag(pub AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

thread_local! {
    static IN_GUARD: RefCell<u32> = const { RefCell::new(0) };
    static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Panics inside `guard` are recorded silently; all others are printed as usual.
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_GUARD.with(|g| *g.borrow()) > 0 {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            prev(info)
        }
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Abnormal> {
    IN_GUARD.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| Abnormal::Panic(LAST.with(|l| l.borrow_mut().take()).unwrap_or_default()))
}

pub fn run<T>(fut: impl Future<Output = T>) -> Result<T, Abnormal> {
    let mut fut = Box::pin(fut);
    guard(move || {
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        loop {
            match fut.as_mut().poll(&mut cx) {
                Poll::Ready(v) => return Ok(v),
                Poll::Pending => {
                    if !flag.0.swap(false, Ordering::SeqCst) {
                        return Err(Abnormal::Stuck);
                    }
                }
            }
        }
    })
    .and_then(|r| r)
}

/// Suspends the caller `n` times, waking it at once each time.
pub async fn suspend(n: usize) {
    struct S(usize);
    impl Future for S {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 == 0 {
                Poll::Ready(())
            } else {
                self.0 -= 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    S(n).await
}

thread_local! {
    static CUR: std::cell::Cell<(*const u8, usize, u64)> = const { std::cell::Cell::new((std::ptr::null(), 0, 0)) };
}

/// Names the case this thread is in, for the crash handler.
pub fn set_current(part: &'static str, case: u64) {
    CUR.with(|c| c.set((part.as_ptr(), part.len(), case)));
}

extern "C" fn on_crash(sig: libc::c_int) {
    let (p, n, mut case) = CUR.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0, 0));
    unsafe {
        let w = |b: *const u8, n: usize| {
            libc::write(2, b as *const libc::c_void, n);
        };
        w(b"\nCRASH ".as_ptr(), 7);
        if p.is_null() {
            w(b"unknown".as_ptr(), 7)
        } else {
            w(p, n)
        }
        let mut d = [b' '; 22];
        let mut i = 21;
        d[i] = b'\n';
        loop {
            i -= 1;
            d[i] = b'0' + (case % 10) as u8;
            case /= 10;
            if case == 0 {
                break;
            }
        }
        w(d.as_ptr().add(i - 1), 22 - (i - 1));
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
        libc::_exit(134);
    }
}

/// A stack overflow or abort in the code under test names its case on stderr before the process dies.
pub fn install_crash_handler() {
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}
