//! A deterministic single-threaded executor that polls a task only when its waker was called,
//! plus in-memory pipes and gates that the harness controls.

use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Shared mutable state for a program with one thread.
pub struct Cell1<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Cell1<T> {}
unsafe impl<T> Send for Cell1<T> {}
impl<T> Cell1<T> {
    pub const fn new(x: T) -> Self {
        Cell1(UnsafeCell::new(x))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// A spawned future. Dropping the task drops the future.
pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
    waker: Waker,
    pub out: Option<T>,
}

/// More wake-ups than this without coming to rest is a livelock.
const MAX_POLLS: u32 = 400;

impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let waker = Waker::from(flag.clone());
        Task { fut: Some(Box::pin(f)), flag, waker, out: None }
    }
    /// Polls the future as long as it asks for it. Returns true when it made progress.
    pub fn run(&mut self) -> bool {
        let mut any = false;
        let mut n = 0;
        while self.fut.is_some() && self.flag.0.swap(false, Ordering::SeqCst) {
            any = true;
            n += 1;
            if n > MAX_POLLS {
                crate::sym::fail("livelock: the task keeps waking itself without finishing");
            }
            let mut cx = Context::from_waker(&self.waker);
            if let Poll::Ready(x) = self.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                self.fut = None;
                self.out = Some(x);
            }
        }
        any
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    pub fn cancel(&mut self) {
        self.fut = None;
    }
}

/// Runs every task until none of them has been woken.
pub fn settle<T>(ts: &mut [Task<T>]) {
    loop {
        let mut any = false;
        for t in ts.iter_mut() {
            any |= t.run();
        }
        if !any {
            return;
        }
    }
}

/// Runs a future that must finish without outside help.
pub fn block<T: 'static>(f: impl Future<Output = T> + 'static) -> T {
    let mut t = Task::new(f);
    t.run();
    match t.out {
        Some(x) => x,
        None => crate::sym::fail("future did not complete"),
    }
}

/// A gate a handler waits on until the harness opens it.
#[derive(Default)]
pub struct Gate {
    pub open: bool,
    pub waiting: bool,
    waker: Option<Waker>,
}
impl Gate {
    pub const fn new() -> Self {
        Gate { open: false, waiting: false, waker: None }
    }
    pub fn release(&mut self) {
        self.open = true;
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
pub struct Wait(pub &'static Cell1<Gate>);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let g = self.0.get();
        if g.open {
            g.waiting = false;
            Poll::Ready(())
        } else {
            g.waiting = true;
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl Drop for Wait {
    fn drop(&mut self) {
        self.0.get().waiting = false;
    }
}

/// The bytes the server will read.
#[derive(Default)]
pub struct In {
    pub data: Vec<u8>,
    pub pos: usize,
    pub eof: bool,
    /// Upper bound for one read; 0 means unlimited.
    pub chunk: usize,
    pub reads: u32,
    /// Reading fails once the data is used up.
    pub fail: bool,
    waker: Option<Waker>,
}
impl In {
    pub const fn new() -> Self {
        In { data: vec![], pos: 0, eof: false, chunk: 0, reads: 0, fail: false, waker: None }
    }
    pub fn push(&mut self, b: &[u8]) {
        self.data.extend_from_slice(b);
        self.wake();
    }
    pub fn close(&mut self) {
        self.eof = true;
        self.wake();
    }
    pub fn fail(&mut self) {
        self.fail = true;
        self.wake();
    }
    fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
pub struct Reader(pub &'static Cell1<In>);
impl In {
    /// How many bytes a read that has room for `n` yields.
    fn poll(&mut self, cx: &mut Context<'_>, n: usize) -> Poll<std::io::Result<usize>> {
        self.reads += 1;
        let left = self.data.len() - self.pos;
        if left == 0 {
            if self.fail {
                return Poll::Ready(Err(broken()));
            }
            if self.eof {
                return Poll::Ready(Ok(0));
            }
            self.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = left.min(n);
        Poll::Ready(Ok(if self.chunk > 0 { n.min(self.chunk) } else { n }))
    }
    fn take(&mut self, n: usize) -> &[u8] {
        self.pos += n;
        &self.data[self.pos - n..self.pos]
    }
}
#[cfg(not(feature = "agnostic"))]
impl tokio::io::AsyncRead for Reader {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        let s = self.0.get();
        s.poll(cx, buf.remaining()).map_ok(|n| buf.put_slice(s.take(n)))
    }
}
#[cfg(feature = "agnostic")]
impl futures::io::AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let s = self.0.get();
        s.poll(cx, buf.len()).map_ok(|n| {
            buf[..n].copy_from_slice(s.take(n));
            n
        })
    }
}

/// The bytes the server has written.
#[derive(Default)]
pub struct Out {
    pub data: Vec<u8>,
    pub flushed: usize,
    /// Bytes the writer still accepts before it reports "would block".
    pub room: Option<usize>,
    pub chunk: usize,
    /// What fails, and (for writes) after how many more bytes.
    pub fault: Option<(Fault, usize)>,
    /// How often something failed.
    pub failed: u32,
    /// Flushing blocks.
    pub hold: bool,
    waker: Option<Waker>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    Write,
    Zero,
    Flush,
    Shutdown,
}
/// An I/O error.
pub fn broken() -> std::io::Error {
    std::io::ErrorKind::BrokenPipe.into()
}
impl Out {
    pub const fn new() -> Self {
        Out { data: vec![], flushed: 0, room: None, chunk: 0, fault: None, failed: 0, hold: false, waker: None }
    }
    pub fn allow(&mut self, n: Option<usize>) {
        self.room = match (self.room, n) {
            (Some(a), Some(b)) => Some(a + b),
            _ => None,
        };
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
    pub fn hold(&mut self, hold: bool) {
        self.hold = hold;
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
pub struct Writer(pub &'static Cell1<Out>);
#[cfg(not(feature = "agnostic"))]
use tokio::io::AsyncWrite;
#[cfg(feature = "agnostic")]
use futures::io::AsyncWrite;
impl AsyncWrite for Writer {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<std::io::Result<usize>> {
        let s = self.0.get();
        let mut n = buf.len();
        if s.chunk > 0 {
            n = n.min(s.chunk);
        }
        if let Some(r) = s.room {
            n = n.min(r);
            if n == 0 && !buf.is_empty() {
                s.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            s.room = Some(r - n);
        }
        if let Some((f @ (Fault::Write | Fault::Zero), left)) = s.fault {
            n = n.min(left);
            if n == 0 && !buf.is_empty() {
                s.failed += 1;
                return Poll::Ready(if f == Fault::Write { Err(broken()) } else { Ok(0) });
            }
            s.fault = Some((f, left - n));
        }
        s.data.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let s = self.0.get();
        if s.hold {
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some((Fault::Flush, _)) = s.fault {
            s.failed += 1;
            return Poll::Ready(Err(broken()));
        }
        s.flushed = s.data.len();
        Poll::Ready(Ok(()))
    }
    #[cfg(not(feature = "agnostic"))]
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.get().close()
    }
    #[cfg(feature = "agnostic")]
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.0.get().close()
    }
}
impl Out {
    fn close(&mut self) -> Poll<std::io::Result<()>> {
        let s = self;
        if let Some((Fault::Shutdown, _)) = s.fault {
            s.failed += 1;
            return Poll::Ready(Err(broken()));
        }
        Poll::Ready(Ok(()))
    }
}
