//! `AsyncRead`, `AsyncWrite` and what goes with them, over the same readiness model as `try_read` and `try_write_vectored`.
use crate::net::TcpStream;
use std::io::{self, ErrorKind, IoSlice};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Interest(pub(crate) u8);
impl Interest {
    pub const READABLE: Interest = Interest(1);
    pub const WRITABLE: Interest = Interest(2);
    pub const fn add(self, o: Interest) -> Interest {
        Interest(self.0 | o.0)
    }
    pub const fn is_readable(self) -> bool {
        self.0 & 1 != 0
    }
    pub const fn is_writable(self) -> bool {
        self.0 & 2 != 0
    }
}
impl std::ops::BitOr for Interest {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        self.add(o)
    }
}

#[derive(Debug)]
pub struct ReadBuf<'a> {
    buf: &'a mut [MaybeUninit<u8>],
    filled: usize,
    initialized: usize,
}
impl<'a> ReadBuf<'a> {
    pub fn new(buf: &'a mut [u8]) -> Self {
        let initialized = buf.len();
        let buf = unsafe { &mut *(buf as *mut [u8] as *mut [MaybeUninit<u8>]) };
        ReadBuf { buf, filled: 0, initialized }
    }
    pub fn uninit(buf: &'a mut [MaybeUninit<u8>]) -> Self {
        ReadBuf { buf, filled: 0, initialized: 0 }
    }
    pub fn capacity(&self) -> usize {
        self.buf.len()
    }
    pub fn filled(&self) -> &[u8] {
        unsafe { &*(&self.buf[..self.filled] as *const [MaybeUninit<u8>] as *const [u8]) }
    }
    pub fn filled_mut(&mut self) -> &mut [u8] {
        unsafe { &mut *(&mut self.buf[..self.filled] as *mut [MaybeUninit<u8>] as *mut [u8]) }
    }
    pub fn remaining(&self) -> usize {
        self.buf.len() - self.filled
    }
    pub fn clear(&mut self) {
        self.filled = 0;
    }
    pub fn initialize_unfilled(&mut self) -> &mut [u8] {
        for b in &mut self.buf[self.initialized..] {
            b.write(0);
        }
        self.initialized = self.buf.len();
        unsafe { &mut *(&mut self.buf[self.filled..] as *mut [MaybeUninit<u8>] as *mut [u8]) }
    }
    pub unsafe fn unfilled_mut(&mut self) -> &mut [MaybeUninit<u8>] {
        &mut self.buf[self.filled..]
    }
    pub unsafe fn assume_init(&mut self, n: usize) {
        self.initialized = self.initialized.max(self.filled + n);
    }
    pub fn advance(&mut self, n: usize) {
        self.set_filled(self.filled + n);
    }
    pub fn set_filled(&mut self, n: usize) {
        assert!(n <= self.initialized, "filled must not become larger than initialized");
        self.filled = n;
    }
    pub fn put_slice(&mut self, b: &[u8]) {
        assert!(self.remaining() >= b.len(), "buf.len() must fit in remaining()");
        for (to, from) in self.buf[self.filled..].iter_mut().zip(b) {
            to.write(*from);
        }
        self.filled += b.len();
        self.initialized = self.initialized.max(self.filled);
    }
}

pub trait AsyncRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>>;
}
pub trait AsyncWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>>;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let buf = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
        self.poll_write(cx, buf)
    }
    fn is_write_vectored(&self) -> bool {
        false
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            if let Err(e) = std::task::ready!(self.poll_read_ready(cx)) {
                return Poll::Ready(Err(e));
            }
            match self.try_read(buf.initialize_unfilled()) {
                Ok(n) => {
                    buf.advance(n);
                    return Poll::Ready(Ok(()));
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                Err(e) => return Poll::Ready(Err(e)),
            }
        }
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.poll_write_vectored(cx, &[IoSlice::new(buf)])
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
        loop {
            if let Err(e) = std::task::ready!(self.poll_write_ready(cx)) {
                return Poll::Ready(Err(e));
            }
            match self.try_write_vectored(bufs) {
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                r => return Poll::Ready(r),
            }
        }
    }
    fn is_write_vectored(&self) -> bool {
        true
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shut_down_writing();
        Poll::Ready(Ok(()))
    }
}
