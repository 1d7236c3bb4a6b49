//! Sockets as tokio presents them.
//!
//! A readiness flag is sticky: set by an event of the (modelled) reactor, cleared only when an
//! operation reports WouldBlock. One waker per direction, consumed when it fires.
use crate::vp::{self, Shared};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, IoSlice, IoSliceMut};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Open,
    Eof,
    Err(ErrorKind),
    /// What the operating system says, as an errno
    Os(i32),
}

pub struct Sock {
    /// Bytes the peer has sent that the code has not read yet.
    pub incoming: VecDeque<u8>,
    /// What a read reports once `incoming` is drained.
    pub in_end: End,
    /// Symbolic read lengths.
    pub read_choice: bool,
    /// Fixed maximum of one read.
    pub read_limit: usize,
    /// How many times a read may report WouldBlock although bytes are on the way.
    pub read_blocks: usize,
    pub read_intr: usize,
    /// `poll_read_ready` itself fails (the runtime's driver is gone).
    pub read_ready_err: bool,
    read_ready: bool,
    read_waker: Option<Waker>,
    /// Total bytes read.
    pub pulled: usize,
    /// Reads issued.
    pub reads: usize,

    /// Bytes the code has written.
    pub outgoing: Vec<u8>,
    /// Room in the kernel's send buffer.
    pub out_room: usize,
    pub out_end: End,
    pub write_choice: bool,
    pub write_blocks: usize,
    pub write_intr: usize,
    pub write_ready_err: bool,
    write_ready: bool,
    write_waker: Option<Waker>,
    pub writes: usize,

    pub nodelay: bool,
    pub nodelay_fails: bool,
    /// The code dropped its end.
    pub closed: bool,
    /// Somebody waits for this half to become ready.
    pub addr: SocketAddr,
}

pub fn addr(n: u16) -> SocketAddr {
    SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), n))
}

impl Default for Sock {
    fn default() -> Self {
        Sock {
            incoming: VecDeque::new(),
            in_end: End::Open,
            read_choice: false,
            read_limit: usize::MAX,
            read_blocks: 0,
            read_intr: 0,
            read_ready_err: false,
            read_ready: false,
            read_waker: None,
            pulled: 0,
            reads: 0,
            outgoing: Vec::new(),
            out_room: usize::MAX,
            out_end: End::Open,
            write_choice: false,
            write_blocks: 0,
            write_intr: 0,
            write_ready_err: false,
            write_ready: false,
            write_waker: None,
            writes: 0,
            nodelay: false,
            nodelay_fails: false,
            closed: false,
            addr: addr(1),
        }
    }
}

#[derive(Clone)]
pub struct SockRef(pub Shared<Sock>);

impl SockRef {
    pub fn get(&self) -> std::cell::RefMut<'_, Sock> {
        self.0.get()
    }
    /// The reactor's turn: deliver readiness events for what has become possible. Edge triggered:
    /// only for a direction whose readiness is cleared.
    pub fn events(&self) -> bool {
        let mut wake = Vec::new();
        {
            let mut s = self.get();
            if s.closed {
                return false;
            }
            if !s.read_ready && (!s.incoming.is_empty() || s.in_end != End::Open || s.read_ready_err) {
                s.read_ready = true;
                wake.extend(s.read_waker.take());
            }
            if !s.write_ready && (s.out_room > 0 || s.out_end != End::Open || s.write_ready_err) {
                s.write_ready = true;
                wake.extend(s.write_waker.take());
            }
        }
        let any = !wake.is_empty();
        for w in wake {
            w.wake();
        }
        any
    }
    pub fn push(&self, bytes: &[u8]) {
        self.get().incoming.extend(bytes.iter().copied());
    }
    pub fn stream(&self) -> TcpStream {
        TcpStream { sock: self.clone() }
    }
}

pub fn socket() -> SockRef {
    SockRef(Shared::new(Sock::default()))
}

pub struct TcpStream {
    sock: SockRef,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        self.sock.get().closed = true;
        vp::preempt();
    }
}

struct Connects {
    next: VecDeque<Result<SockRef, ErrorKind>>,
    to: Vec<SocketAddr>,
}
static CONNECTS: vp::Global<Connects> = vp::Global::new(Connects {
    next: VecDeque::new(),
    to: Vec::new(),
});
/// What the next `TcpStream::connect` yields.
pub fn on_connect(r: Result<SockRef, ErrorKind>) {
    CONNECTS.get().next.push_back(r);
}

/// Anything that names an address; only socket addresses are told apart.
pub trait ToSocketAddrs {
    fn named(&self) -> Option<SocketAddr> {
        None
    }
}
impl ToSocketAddrs for SocketAddr {
    fn named(&self) -> Option<SocketAddr> {
        Some(*self)
    }
}
impl ToSocketAddrs for &SocketAddr {
    fn named(&self) -> Option<SocketAddr> {
        Some(**self)
    }
}
impl ToSocketAddrs for (&str, u16) {}
impl ToSocketAddrs for (std::net::IpAddr, u16) {
    fn named(&self) -> Option<SocketAddr> {
        Some((*self).into())
    }
}
impl ToSocketAddrs for &str {
    fn named(&self) -> Option<SocketAddr> {
        self.parse().ok()
    }
}
impl ToSocketAddrs for String {
    fn named(&self) -> Option<SocketAddr> {
        self.parse().ok()
    }
}
impl ToSocketAddrs for &String {
    fn named(&self) -> Option<SocketAddr> {
        self.parse().ok()
    }
}
/// Addresses given to `connect` so far.
pub fn connected() -> Vec<SocketAddr> {
    CONNECTS.get().to.clone()
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        CONNECTS.get().to.extend(addr.named());
        match CONNECTS.get().next.pop_front() {
            Some(Ok(s)) => Ok(s.stream()),
            Some(Err(k)) => Err(k.into()),
            None => Err(ErrorKind::ConnectionRefused.into()),
        }
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        let mut s = self.sock.get();
        if s.nodelay_fails {
            return Err(ErrorKind::InvalidInput.into());
        }
        s.nodelay = v;
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(self.sock.get().nodelay)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.sock.get().addr)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(9))
    }

    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        vp::preempt();
        if vp::coop(cx) {
            return Poll::Pending;
        }
        let mut s = self.sock.get();
        if s.read_ready_err {
            return Poll::Ready(Err(ErrorKind::Other.into()));
        }
        if s.read_ready {
            Poll::Ready(Ok(()))
        } else {
            s.read_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        vp::preempt();
        if vp::coop(cx) {
            return Poll::Pending;
        }
        let mut s = self.sock.get();
        if s.write_ready_err {
            return Poll::Ready(Err(ErrorKind::Other.into()));
        }
        if s.write_ready {
            Poll::Ready(Ok(()))
        } else {
            s.write_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.poll_read_ready(cx)).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.poll_write_ready(cx)).await
    }

    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        vp::preempt();
        let mut s = self.sock.get();
        s.reads += 1;
        if !s.read_ready {
            return Err(ErrorKind::WouldBlock.into());
        }
        if s.read_intr > 0 && nd::bool("read interrupted") {
            s.read_intr -= 1;
            return Err(io::Error::from_raw_os_error(4));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let avail = s.incoming.len();
        if avail == 0 {
            return match s.in_end {
                End::Eof => Ok(0),
                End::Err(k) => Err(k.into()),
                End::Os(e) => Err(io::Error::from_raw_os_error(e)),
                End::Open => {
                    s.read_ready = false;
                    Err(ErrorKind::WouldBlock.into())
                }
            };
        }
        let most = avail.min(buf.len()).min(s.read_limit);
        let n = if s.read_choice {
            nd::pick(if s.read_blocks > 0 { 0 } else { 1 }, most, "read length")
        } else {
            most
        };
        if n == 0 {
            s.read_blocks -= 1;
            s.read_ready = false;
            return Err(ErrorKind::WouldBlock.into());
        }
        let (a, b) = s.incoming.as_slices();
        let k = n.min(a.len());
        buf[..k].copy_from_slice(&a[..k]);
        buf[k..n].copy_from_slice(&b[..n - k]);
        s.incoming.drain(..n);
        s.pulled += n;
        Ok(n)
    }
    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let dst = buf.chunk_mut();
        // the model only writes to it
        let dst = unsafe { std::slice::from_raw_parts_mut(dst.as_mut_ptr(), dst.len()) };
        let n = self.try_read(dst)?;
        unsafe { buf.advance_mut(n) };
        Ok(n)
    }
    /// Run `f` if the direction is ready; WouldBlock clears its readiness.
    pub fn try_io<R>(&self, interest: crate::io::Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
        {
            let s = self.sock.get();
            if !(interest.is_readable() && s.read_ready || interest.is_writable() && s.write_ready) {
                return Err(ErrorKind::WouldBlock.into());
            }
        }
        let r = f();
        if r.as_ref().is_err_and(|e| e.kind() == ErrorKind::WouldBlock) {
            let mut s = self.sock.get();
            if interest.is_readable() {
                s.read_ready = false;
            }
            if interest.is_writable() {
                s.write_ready = false;
            }
        }
        r
    }
    pub(crate) fn shut_down_writing(&self) {
        self.sock.get().out_end = End::Err(ErrorKind::BrokenPipe);
    }
    pub fn try_read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        for b in bufs.iter_mut() {
            if !b.is_empty() {
                return self.try_read(b);
            }
        }
        self.try_read(&mut [])
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        self.try_write_vectored(&[IoSlice::new(buf)])
    }
    pub fn try_write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        vp::preempt();
        let mut s = self.sock.get();
        s.writes += 1;
        if !s.write_ready {
            return Err(ErrorKind::WouldBlock.into());
        }
        // std passes at most IOV_MAX of them on
        let bufs = &bufs[..bufs.len().min(1024)];
        if s.write_intr > 0 && nd::bool("write interrupted") {
            s.write_intr -= 1;
            return Err(io::Error::from_raw_os_error(4));
        }
        match s.out_end {
            End::Eof => return Ok(0),
            End::Err(k) => return Err(k.into()),
            End::Os(e) => return Err(io::Error::from_raw_os_error(e)),
            End::Open => {}
        }
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        if total == 0 {
            return Ok(0);
        }
        let most = total.min(s.out_room);
        if most == 0 {
            s.write_ready = false;
            return Err(ErrorKind::WouldBlock.into());
        }
        let n = if s.write_choice {
            nd::pick(if s.write_blocks > 0 { 0 } else { 1 }, most, "write length")
        } else {
            most
        };
        if n == 0 {
            s.write_blocks -= 1;
            s.write_ready = false;
            return Err(ErrorKind::WouldBlock.into());
        }
        let mut left = n;
        for b in bufs {
            let k = left.min(b.len());
            s.outgoing.extend_from_slice(&b[..k]);
            left -= k;
        }
        if s.out_room != usize::MAX {
            s.out_room -= n;
        }
        Ok(n)
    }
}

pub struct Listener {
    pub queue: VecDeque<Result<SockRef, Fail>>,
    waker: Option<Waker>,
    pub accepted: usize,
    pub dropped: bool,
    pub at: Option<SocketAddr>,
}
static LISTENER: vp::Global<Option<Shared<Listener>>> = vp::Global::new(None);
/// The listener that the last `bind` produced.
pub fn listener() -> Shared<Listener> {
    LISTENER.get().clone().expect("bound")
}
/// A connection (or an accept error) arrives.
/// How an accept fails.
#[derive(Clone, Copy)]
pub enum Fail {
    Kind(ErrorKind),
    Os(i32),
}
pub fn arrive(l: &Shared<Listener>, r: Result<SockRef, Fail>) {
    let w = {
        let mut l = l.get();
        l.queue.push_back(r);
        l.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
pub struct TcpListener {
    l: Shared<Listener>,
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpListener")
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        self.l.get().dropped = true;
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let l = Shared::new(Listener {
            queue: VecDeque::new(),
            waker: None,
            accepted: 0,
            dropped: false,
            at: addr.named(),
        });
        *LISTENER.get() = Some(l.clone());
        Ok(TcpListener { l })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(9))
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        if vp::coop(cx) {
            return Poll::Pending;
        }
        let mut l = self.l.get();
        match l.queue.pop_front() {
            Some(Ok(s)) => {
                l.accepted += 1;
                let a = s.get().addr;
                Poll::Ready(Ok((s.stream(), a)))
            }
            Some(Err(Fail::Kind(k))) => Poll::Ready(Err(k.into())),
            Some(Err(Fail::Os(e))) => Poll::Ready(Err(io::Error::from_raw_os_error(e))),
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
}
