//! Byte pipes between the editor and the server, with the delivery of bytes
//! decided by the seed: short reads, back-pressure, a reader that stalls.
use crate::rng::Rng;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub struct Inner {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub chunk: usize,
    pub rng: Rng,
    pub closed: bool,
    pub paused: bool,
    pub error: Option<std::io::ErrorKind>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// Times the writer found the pipe full.
    pub full: u64,
    pub short: u64,
}

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<Inner>>);

impl Pipe {
    pub fn new(cap: usize, chunk: usize, rng: Rng) -> Self {
        Pipe(Arc::new(Mutex::new(Inner {
            buf: VecDeque::new(),
            cap,
            chunk,
            rng,
            closed: false,
            paused: false,
            error: None,
            rwaker: None,
            wwaker: None,
            full: 0,
            short: 0,
        })))
    }
    pub fn push(&self, b: &[u8]) {
        let mut g = self.0.lock().unwrap();
        g.buf.extend(b);
        if let Some(w) = g.rwaker.take() {
            w.wake();
        }
    }
    pub fn paused(&self) -> bool {
        self.0.lock().unwrap().paused
    }
    pub fn close(&self) {
        let mut g = self.0.lock().unwrap();
        g.closed = true;
        if let Some(w) = g.rwaker.take() {
            w.wake();
        }
        if let Some(w) = g.wwaker.take() {
            w.wake();
        }
    }
    pub fn pause(&self, on: bool) {
        let mut g = self.0.lock().unwrap();
        g.paused = on;
        if !on {
            if let Some(w) = g.rwaker.take() {
                w.wake();
            }
        }
    }
}

impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        if g.paused || (g.buf.is_empty() && !g.closed) {
            g.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(k) = g.error {
            return Poll::Ready(Err(k.into()));
        }
        let max = out.remaining().min(g.buf.len());
        let chunk = g.chunk;
        let mut n = max;
        if chunk < 4096 {
            n = g.rng.range(1, chunk).min(max);
        }
        if n < max {
            g.short += 1;
        }
        let bytes: Vec<u8> = g.buf.drain(..n).collect();
        out.put_slice(&bytes);
        if let Some(w) = g.wwaker.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        if g.closed {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        let room = g.cap.saturating_sub(g.buf.len());
        if room == 0 {
            g.full += 1;
            g.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = room.min(b.len());
        g.buf.extend(&b[..n]);
        if let Some(w) = g.rwaker.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
