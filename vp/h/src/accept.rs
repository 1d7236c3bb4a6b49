//! What creates connections: the two accept loops, the prost client registry, the rpc client's `connect`.
use crate::codec::{Pb, Pr};
use crate::conn::{frame, same, Codec, Log, Msg, Reactor};
use crate::rpc::*;
use crate::server::{finish, produce, Service, Svc, ECHO, STREAM};
use nd::check;
use protosocket::{MessageReactor, ReactorStatus};
use protosocket_prost::ClientRegistry;
use protosocket_rpc::client::{connect, Configuration};
use protosocket_rpc::server::SocketRpcServer;
use protosocket_server::{ProtosocketServer, ServerConnector};
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use tokio::net::{addr, arrive, listener, on_connect, socket, End, Fail, SockRef};
use tokio::sync::mpsc;
use tokio::vp::{self, Probe, Shared};

/// Bytes arrive in two pieces, so that the length of the message is known before all of it is there.
fn pieces(s: &SockRef, b: &[u8], socks: &[&SockRef]) {
    s.push(&b[..1]);
    check!(3, settle(socks), "a task keeps spinning with nothing to do");
    if !s.get().closed {
        s.push(&b[1..]);
        check!(3, settle(socks), "a task keeps spinning with nothing to do");
    }
}

/// An accept loop and what it has made.
trait Host {
    fn limits(&self, buffer: usize, queue: usize);
    fn ended(&self) -> bool;
    /// Connections for which the application was asked for a handler.
    fn handlers(&self) -> usize;
    /// The peer sends something that is answered; true if the answer is right.
    fn echo(&self, i: usize, s: &SockRef, socks: &[SockRef]) -> bool;
    fn settle(&self, socks: &[SockRef]) -> bool {
        let v: Vec<&SockRef> = socks.iter().collect();
        settle(&v)
    }
}

fn drive<F: Future + Unpin + 'static>(f: F) -> (Shared<F>, Shared<bool>) {
    let f = Shared::new(f);
    let ended = Shared::new(false);
    let (f2, e2) = (f.clone(), ended.clone());
    vp::task(async move {
        std::future::poll_fn(|cx| Pin::new(&mut *f2.get()).poll(cx).map(|_| ())).await;
        *e2.get() = true;
    });
    (f, ended)
}

struct Rpc {
    svc: Shared<Svc>,
    server: Shared<SocketRpcServer<Service>>,
    ended: Shared<bool>,
}
fn rpc_host() -> Rpc {
    let svc = Shared::new(Svc::default());
    let server = match vp::block_on(SocketRpcServer::new(addr(9), Service(svc.clone()))) {
        Some(Ok(s)) => s,
        _ => {
            check!(23, false, "the server does not start");
            unreachable!()
        }
    };
    check!(23, listener().get().at == Some(addr(9)), "the server listens somewhere else");
    let (server, ended) = drive(server);
    Rpc { svc, server, ended }
}
impl Host for Rpc {
    fn limits(&self, buffer: usize, queue: usize) {
        let mut s = self.server.get();
        s.set_max_buffer_length(buffer);
        s.set_max_queued_outbound_messages(queue);
    }
    fn ended(&self) -> bool {
        *self.ended.get()
    }
    fn handlers(&self) -> usize {
        self.svc.get().connections.len()
    }
    fn echo(&self, i: usize, s: &SockRef, socks: &[SockRef]) -> bool {
        let before = s.get().outgoing.len();
        let n = (nd::u8("payload") & 0xfc) | ECHO;
        s.push(&enc(rm(20 + i as u64, NORMAL, n)));
        let quiet = self.settle(socks);
        let out = s.get().outgoing[before..].to_vec();
        quiet && dec(&out) == vec![rm(20 + i as u64, NORMAL, n.wrapping_add(1))]
    }
}

/// Answers each message with itself.
struct Echo {
    inner: Reactor,
    out: mpsc::Sender<Msg>,
}
impl MessageReactor for Echo {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        let mut v = Vec::new();
        for m in messages {
            v.push(m.clone());
            let _ = self.out.try_send(m);
        }
        self.inner.on_inbound_messages(v)
    }
}
struct EchoBindings;
impl protosocket::ConnectionBindings for EchoBindings {
    type Deserializer = Codec;
    type Serializer = Codec;
    type Reactor = Echo;
}
#[derive(Default)]
struct Made {
    logs: Vec<Shared<Log>>,
    outs: Vec<mpsc::Sender<Msg>>,
}
struct Connector(Shared<Made>);
impl ServerConnector for Connector {
    type Bindings = EchoBindings;
    fn serializer(&self) -> Codec {
        Codec::plain()
    }
    fn deserializer(&self) -> Codec {
        Codec::plain()
    }
    fn new_reactor(&self, out: mpsc::Sender<Msg>) -> Echo {
        let log = Shared::new(Log::default());
        let mut m = self.0.get();
        m.logs.push(log.clone());
        m.outs.push(out.clone());
        Echo { inner: Reactor { log }, out }
    }
}
struct Raw {
    made: Shared<Made>,
    server: Shared<ProtosocketServer<Connector>>,
    ended: Shared<bool>,
}
fn raw_host() -> Raw {
    let made = Shared::new(Made::default());
    let h = tokio::runtime::Handle::current();
    let server = match vp::block_on(ProtosocketServer::new(addr(9), h, Connector(made.clone()))) {
        Some(Ok(s)) => s,
        _ => {
            check!(23, false, "the server does not start");
            unreachable!()
        }
    };
    check!(23, listener().get().at == Some(addr(9)), "the server listens somewhere else");
    let (server, ended) = drive(server);
    Raw { made, server, ended }
}
impl Host for Raw {
    fn limits(&self, buffer: usize, queue: usize) {
        let mut s = self.server.get();
        s.set_max_buffer_length(buffer);
        s.set_max_queued_outbound_messages(queue);
    }
    fn ended(&self) -> bool {
        *self.ended.get()
    }
    fn handlers(&self) -> usize {
        self.made.get().logs.len()
    }
    fn echo(&self, _i: usize, s: &SockRef, socks: &[SockRef]) -> bool {
        let before = s.get().outgoing.len();
        let n = nd::u8("payload");
        s.push(&[1, n]);
        let quiet = self.settle(socks);
        let out = s.get().outgoing[before..].to_vec();
        quiet && same(&out, &[1, n])
    }
}

const FAILS: [Fail; 6] = [
    Fail::Kind(ErrorKind::ConnectionAborted),
    Fail::Kind(ErrorKind::Other),
    Fail::Kind(ErrorKind::Interrupted),
    Fail::Kind(ErrorKind::OutOfMemory),
    // no more files
    Fail::Os(24),
    Fail::Os(103),
];
/// The same thing happens again and again, at once or one after the other; then another connection arrives.
fn run_many(h: &dyn Host, n: usize) {
    let mut socks: Vec<SockRef> = Vec::new();
    h.limits(32, 4);
    check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    let what = nd::pick(0, 3, "what happens");
    let fail = FAILS[nd::pick(0, if what == 0 { FAILS.len() - 1 } else { 0 }, "accept error")];
    let burst = nd::bool("at once");
    let quiet = |socks: &[SockRef]| {
        let v: Vec<&SockRef> = socks.iter().collect();
        check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    };
    for i in 0..n {
        let s = socket();
        s.get().addr = addr(100 + i as u16);
        match what {
            0 => arrive(&listener(), Err(fail)),
            1 => {
                s.get().nodelay_fails = true;
                s.get().in_end = End::Err(ErrorKind::ConnectionReset);
                arrive(&listener(), Ok(s.clone()));
            }
            2 => arrive(&listener(), Ok(s.clone())),
            _ => {
                arrive(&listener(), Ok(s.clone()));
                if !burst {
                    quiet(&[s.clone()]);
                }
                s.get().in_end = End::Eof;
            }
        }
        if !burst {
            quiet(&[s.clone()]);
        }
        if what == 2 || burst && what != 0 {
            socks.push(s);
        }
    }
    quiet(&socks);
    check!(23, !h.ended(), "the server stopped accepting");
    check!(23, listener().get().queue.is_empty(), "the server sleeps and does not accept a connection that has arrived");
    if what == 2 {
        check!(23, h.handlers() == n, "an accepted connection does not get exactly one handler");
        for i in [0, n / 2, n - 1] {
            let s = socks[i].clone();
            check!(23, !s.get().closed, "a healthy connection is closed");
            check!(23, h.echo(i % 50, &s, &[s.clone()]), "an accepted connection does not work");
        }
    } else {
        for s in &socks {
            check!(21, s.get().closed, "the socket of an ended connection stays open");
        }
    }
    let s = socket();
    arrive(&listener(), Ok(s.clone()));
    quiet(&[s.clone()]);
    check!(23, h.echo(50, &s, &[s.clone()]), "the server does not serve a new connection");
    check!(24, s.get().nodelay, "an accepted connection has nodelay off");
    nd::trace(h.handlers() as u64);
    nd::witness("served");
}

/// A symbolic sequence of arrivals, failed accepts and connections that are broken or end.
fn run_accept(h: &dyn Host, n: usize) {
    let mut socks: Vec<SockRef> = Vec::new();
    let mut live: Vec<bool> = Vec::new();
    let mut broken = 0;
    h.limits(32, 4);
    check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    for i in 0..n {
        match nd::pick(0, 4, "arrival") {
            // a connection; at once or later
            e @ (0 | 1) => {
                let s = socket();
                s.get().addr = addr(100 + i as u16);
                // its option cannot be set: it was reset before it was accepted
                let bad = e == 1;
                if bad {
                    s.get().nodelay_fails = true;
                    s.get().in_end = End::Err(ErrorKind::ConnectionReset);
                    broken += 1;
                }
                arrive(&listener(), Ok(s.clone()));
                socks.push(s);
                live.push(!bad);
            }
            2 => arrive(&listener(), Err(FAILS[nd::pick(0, FAILS.len() - 1, "accept error")])),
            3 => {
                // a peer goes away
                if let Some(j) = live.iter().position(|l| *l) {
                    socks[j].get().in_end = End::Eof;
                    live[j] = false;
                }
            }
            _ => check!(3, h.settle(&socks), "a task keeps spinning with nothing to do"),
        }
        check!(23, !h.ended(), "the server stopped accepting");
    }
    check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    check!(23, !h.ended(), "the server stopped accepting");
    check!(23, listener().get().queue.is_empty(), "the server sleeps and does not accept a connection that has arrived");
    check!(23, h.handlers() <= socks.len() && h.handlers() + broken >= socks.len(), "an accepted connection does not get exactly one handler");
    for i in 0..socks.len() {
        if live[i] {
            check!(24, socks[i].get().nodelay, "an accepted connection has nodelay off");
            check!(23, !socks[i].get().closed, "a healthy connection is closed");
            check!(23, h.echo(i, &socks[i], &socks), "an accepted connection does not work");
        } else {
            check!(21, socks[i].get().closed, "the socket of an ended connection stays open");
        }
    }
    // whatever happened: the next one is served
    let s = socket();
    arrive(&listener(), Ok(s.clone()));
    socks.push(s.clone());
    check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    check!(23, h.echo(50, &s, &socks), "the server does not serve a new connection");
    nd::trace(socks.len() as u64);
    nd::trace(h.handlers() as u64);
    nd::witness("served");
    if broken > 0 {
        nd::witness("broken connection");
    }
}

/// Limits set on the rpc server apply to the connections accepted afterwards, not before.
fn run_rpc_limits() {
    let h = rpc_host();
    let mut socks = Vec::new();
    let mut cfg = Vec::new();
    for i in 0..2 {
        // frames are three bytes
        let buffer = nd::pick(2, 4, "max_buffer_length");
        let queue = nd::pick(1, 3, "max_queued_outbound");
        h.limits(buffer, queue);
        cfg.push((buffer, queue));
        let s = socket();
        s.get().addr = addr(100 + i);
        s.get().out_room = 0;
        arrive(&listener(), Ok(s.clone()));
        socks.push(s);
        check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    }
    for i in 0..2 {
        let (buffer, queue) = cfg[i];
        let s = &socks[i];
        check!(24, s.get().nodelay, "an accepted connection has nodelay off");
        check!(24, h.svc.get().connections[i] == addr(100 + i as u16), "a handler is told another peer address");
        let before = h.svc.get().rpcs.len();
        pieces(s, &enc(rm(1, NORMAL, STREAM)), &[s]);
        let started = h.svc.get().rpcs.len() == before + 1;
        check!(24, started == (buffer >= 3), "the configured buffer length does not limit the size of a message");
        check!(24, s.get().closed == !started, "a message longer than the configured buffer does not end its connection, or another one does");
        if !started {
            nd::witness("too long");
            continue;
        }
        let slot = h.svc.get().rpcs[before].clone();
        for k in 0..16 {
            produce(&slot, k);
        }
        finish(&slot);
        check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
        // the peer does not read: the queue and what one write takes are full
        let taken = 16 - slot.get().ready.len();
        check!(24, taken >= queue, "fewer messages are queued than configured");
        check!(24, taken <= 2 * queue + 2, "more messages are queued than configured");
        s.get().out_room = usize::MAX;
        check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
        check!(24, sent(s).len() == 17, "a configured limit loses messages");
        nd::trace(taken as u64);
        nd::witness("limited");
    }
}

/// The same for the plain server: what the reactor's sender holds, how many messages arrive in a batch.
fn run_raw_limits() {
    let h = raw_host();
    let mut socks: Vec<SockRef> = Vec::new();
    let mut cfg = Vec::new();
    for i in 0..2 {
        let buffer = nd::pick(3, 6, "max_buffer_length");
        let queue = nd::pick(1, 3, "max_queued_outbound");
        h.limits(buffer, queue);
        cfg.push((buffer, queue));
        let s = socket();
        s.get().addr = addr(100 + i);
        arrive(&listener(), Ok(s.clone()));
        socks.push(s);
        check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
    }
    for i in 0..2 {
        let (buffer, queue) = cfg[i];
        let s = &socks[i];
        check!(24, s.get().nodelay, "an accepted connection has nodelay off");
        let out = h.made.get().outs[i].clone();
        check!(24, out.max_capacity() == queue, "the outbound queue has another length than configured");
        let log = h.made.get().logs[i].clone();
        // small messages: all arrive
        for k in 0..3 {
            s.push(&frame(&[k]));
        }
        check!(3, h.settle(&socks), "a task keeps spinning with nothing to do");
        check!(24, log.get().got.len() == 3 && !s.get().closed, "messages shorter than the configured buffer do not arrive");
        check!(24, log.get().largest_batch <= queue, "a batch is longer than the configured queue");
        let len = nd::pick(2, 8, "message length");
        pieces(s, &frame(&vec![7; len]), &[s]);
        let arrived = log.get().got.len() == 4;
        check!(24, arrived == (1 + len <= buffer), "the configured buffer length does not limit the size of a message");
        check!(24, s.get().closed == !arrived, "a message longer than the configured buffer does not end its connection, or another one does");
        nd::witness(if arrived { "limited" } else { "too long" });
        nd::trace(arrived as u64);
    }
}

/// A reactor for prost responses.
struct Got(Shared<Vec<u32>>);
impl MessageReactor for Got {
    type Inbound = Pr;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Pr>) -> ReactorStatus {
        for m in messages {
            self.0.get().push(m.n);
        }
        ReactorStatus::Continue
    }
}
fn run_registry() {
    let mut r = ClientRegistry::new(tokio::runtime::Handle::current());
    let buffer = nd::pick(2, 5, "max_read_buffer_length");
    let queue = nd::pick(1, 3, "max_queued_outbound");
    r.set_max_read_buffer_length(buffer);
    r.set_max_queued_outbound_messages(queue);
    let r = if nd::bool("cloned") { r.clone() } else { r };
    let s = socket();
    let fails = nd::pick(0, 1, "connect fails") == 1;
    on_connect(if fails { Err(ErrorKind::ConnectionRefused) } else { Ok(s.clone()) });
    let got = Shared::new(Vec::new());
    let c = vp::block_on(r.register_client::<Pb, Pr, Got>("10.0.0.1:7", Got(got.clone())));
    check!(24, tokio::net::connected() == vec![addr(7)], "a client connects to another address");
    let out = match c {
        Some(Ok(out)) => {
            check!(24, !fails, "a failed connect looks like a connection");
            out
        }
        Some(Err(_)) => {
            check!(24, fails, "connecting fails although the connection was established");
            check!(24, vp::live_tasks() == 0, "a failed connect leaves a connection behind");
            nd::witness("refused");
            return;
        }
        None => {
            check!(24, false, "connecting never ends");
            return;
        }
    };
    check!(24, s.get().nodelay, "a client connection has nodelay off");
    check!(24, out.max_capacity() == queue, "the outbound queue has another length than configured");
    let v = [&s];
    check!(3, settle(&v), "a task keeps spinning with nothing to do");
    let id = nd::sym(7, "id");
    nd::assume(id != 0);
    check!(24, out.try_send(Pb { id, code: 0, body: vec![] }).is_ok(), "an idle connection takes no message");
    check!(3, settle(&v), "a task keeps spinning with nothing to do");
    if buffer >= 3 {
        check!(24, same(&s.get().outgoing, &[2, 8, id as u8]), "a message is not sent as encoded");
    } else {
        check!(24, s.get().outgoing.is_empty(), "a message longer than the configured buffer is sent");
    }
    // 05 => tag 5 varint of one to five bytes
    let len = nd::pick(1, 5, "varint length");
    let mut f = vec![1 + len as u8, 5 << 3];
    for _ in 1..len {
        f.push(0x80);
    }
    f.push(1);
    let fits = f.len() <= buffer;
    pieces(&s, &f, &v);
    check!(24, (got.get().len() == 1) == fits, "the configured buffer length does not limit the size of a message");
    check!(24, s.get().closed != fits, "a message longer than the configured buffer does not end its connection, or another one does");
    nd::trace(fits as u64);
    nd::witness(if fits { "limited" } else { "too long" });
}

fn run_connect() {
    let mut cfg = Configuration::default();
    let buffer = nd::pick(2, 5, "max_buffer_length");
    let queue = nd::pick(1, 3, "max_queued_outbound");
    cfg.max_buffer_length(buffer);
    cfg.max_queued_outbound_messages(queue);
    let s = socket();
    let fails = nd::pick(0, 1, "connect fails") == 1;
    on_connect(if fails { Err(ErrorKind::ConnectionRefused) } else { Ok(s.clone()) });
    let c = vp::block_on(connect::<RmCodec, RmCodec>(addr(7), &cfg));
    check!(24, tokio::net::connected() == vec![addr(7)], "a client connects to another address");
    let (client, connection) = match c {
        Some(Ok(c)) => {
            check!(24, !fails, "a failed connect looks like a connection");
            c
        }
        Some(Err(e)) => {
            check!(24, fails, "connecting fails although the connection was established");
            check!(24, matches!(e, protosocket_rpc::Error::IoFailure(_)), "a failed connect is not an io failure");
            nd::witness("refused");
            return;
        }
        None => {
            check!(24, false, "connecting never ends");
            return;
        }
    };
    check!(24, s.get().nodelay, "a client connection has nodelay off");
    check!(24, client.is_alive(), "a new client is not alive");
    // nobody drives the connection yet: as many requests as configured fit
    let mut held = Vec::new();
    let mut n = 0;
    let mut waiting = None;
    for i in 0..8 {
        let mut f = Box::pin(client.send_unary(rm(1 + i, NORMAL, i as u8)));
        let p = Probe::new();
        match p.poll(f.as_mut()) {
            std::task::Poll::Ready(Ok(c)) => {
                held.push(c);
                n += 1;
            }
            std::task::Poll::Ready(Err(_)) => check!(24, false, "a request is refused although the connection is fine"),
            std::task::Poll::Pending => {
                // shut up the borrow checker: the future is dropped here
                waiting = Some(i);
                break;
            }
        }
    }
    check!(24, n == queue && waiting.is_some(), "the outbound queue has another length than configured");
    vp::task(connection);
    let v = [&s];
    check!(3, settle(&v), "a task keeps spinning with nothing to do");
    let fits = buffer >= 3;
    check!(24, sent(&s).len() == if fits { queue } else { 0 }, "a configured limit loses messages, or does not limit their size");
    pieces(&s, &enc(rm(1, NORMAL, 9)), &v);
    check!(24, client.is_alive() == fits && s.get().closed != fits, "the configured buffer length does not limit the size of a message");
    nd::trace(n as u64);
    nd::witness(if fits { "limited" } else { "too long" });
}

mod harness {
    use super::*;
    pub fn vp_acc_rpc() {
        run_accept(&rpc_host(), 3)
    }
    pub fn vp_acc_raw() {
        run_accept(&raw_host(), 3)
    }
    pub fn vp_acc_rpc_deep() {
        run_accept(&rpc_host(), 5)
    }
    pub fn vp_acc_raw_deep() {
        run_accept(&raw_host(), 5)
    }
    pub fn vp_acc_rpc_bulk() {
        run_many(&rpc_host(), 1100)
    }
    pub fn vp_acc_raw_bulk() {
        run_many(&raw_host(), 1100)
    }
    pub fn vp_acc_rpc_bulk_deep() {
        run_many(&rpc_host(), 5000)
    }
    pub fn vp_acc_raw_bulk_deep() {
        run_many(&raw_host(), 5000)
    }
    pub fn vp_acc_rpc_limits() {
        run_rpc_limits()
    }
    pub fn vp_acc_raw_limits() {
        run_raw_limits()
    }
    pub fn vp_acc_registry() {
        run_registry()
    }
    pub fn vp_acc_connect() {
        run_connect()
    }
    /// Addresses that are none are refused, not connected to.
    pub fn vp_acc_registry_address() {
        let r = ClientRegistry::new(tokio::runtime::Handle::current());
        let a = ["", "nowhere", "10.0.0.1", "10.0.0.1:", "10.0.0.1:99999", "10.0.0.1:7 "];
        let a = a[nd::pick(0, a.len() - 1, "address")];
        let s = socket();
        on_connect(Ok(s.clone()));
        let got = Shared::new(Vec::new());
        let c = vp::block_on(r.register_client::<Pb, Pr, Got>(a, Got(got.clone())));
        check!(24, matches!(c, Some(Err(protosocket_prost::Error::AddressError(_)))), "an address that is none is not refused");
        check!(24, tokio::net::connected().is_empty(), "an address that is none is connected to");
        nd::witness("refused");
    }
}

entries!(
    vp_acc_rpc,
    vp_acc_raw,
    vp_acc_rpc_deep,
    vp_acc_raw_deep,
    vp_acc_rpc_bulk,
    vp_acc_raw_bulk,
    vp_acc_rpc_bulk_deep,
    vp_acc_raw_bulk_deep,
    vp_acc_rpc_limits,
    vp_acc_raw_limits,
    vp_acc_registry,
    vp_acc_registry_address,
    vp_acc_connect,
);
