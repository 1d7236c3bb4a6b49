//! The rpc server: `SocketRpcServer` over the real `Connection`, with a scripted service.
use crate::rpc::*;
use futures::Stream;
use nd::check;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use std::collections::VecDeque;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::net::{arrive, listener, socket, End, SockRef};
use tokio::vp::{self, Shared, TaskId};

/// One rpc as the service sees it; the harness releases its results.
pub struct Slot {
    pub id: u64,
    pub n: u8,
    pub stream: bool,
    pub conn: usize,
    pub ready: VecDeque<u8>,
    pub ended: bool,
    pub dropped: bool,
    pub waker: Option<Waker>,
}
#[derive(Default)]
pub struct Svc {
    pub rpcs: Vec<Shared<Slot>>,
    /// Requests given to the service, known or not.
    pub calls: Vec<(usize, Rm)>,
    pub connections: Vec<SocketAddr>,
    pub gone: Vec<usize>,
    pub bad: bool,
}
pub struct Service(pub Shared<Svc>);
pub struct ConnSvc {
    svc: Shared<Svc>,
    conn: usize,
}
impl Drop for ConnSvc {
    fn drop(&mut self) {
        self.svc.get().gone.push(self.conn);
    }
}
impl SocketService for Service {
    type RequestDeserializer = RmCodec;
    type ResponseSerializer = RmCodec;
    type ConnectionService = ConnSvc;
    fn deserializer(&self) -> RmCodec {
        RmCodec
    }
    fn serializer(&self) -> RmCodec {
        RmCodec
    }
    fn new_connection_service(&self, address: SocketAddr) -> ConnSvc {
        let mut s = self.0.get();
        s.connections.push(address);
        ConnSvc { svc: self.0.clone(), conn: s.connections.len() - 1 }
    }
}
/// What a request asks for, by its low bits.
pub const UNARY: u8 = 0;
pub const STREAM: u8 = 1;
pub const UNKNOWN: u8 = 2;
/// Unary, answered at once with n + 1.
pub const ECHO: u8 = 3;
impl ConnectionService for ConnSvc {
    type Request = Rm;
    type Response = Rm;
    type UnaryFutureType = Unary;
    type StreamType = Items;
    fn new_rpc(&mut self, m: Rm) -> RpcKind<Unary, Items> {
        let kind = nd::split((m.n & 3) as u64) as u8;
        let slot = Shared::new(Slot {
            id: m.id,
            n: m.n,
            stream: kind == STREAM,
            conn: self.conn,
            ready: VecDeque::new(),
            ended: false,
            dropped: false,
            waker: None,
        });
        let mut s = self.svc.get();
        s.calls.push((self.conn, m));
        match kind {
            UNKNOWN => RpcKind::Unknown,
            STREAM => {
                s.rpcs.push(slot.clone());
                RpcKind::Streaming(Items { slot, svc: self.svc.clone() })
            }
            k => {
                if k == ECHO {
                    slot.get().ready.push_back(m.n.wrapping_add(1));
                }
                s.rpcs.push(slot.clone());
                RpcKind::Unary(Unary { slot, svc: self.svc.clone(), done: false })
            }
        }
    }
}
pub struct Unary {
    slot: Shared<Slot>,
    svc: Shared<Svc>,
    done: bool,
}
impl Drop for Unary {
    fn drop(&mut self) {
        self.slot.get().dropped = true;
    }
}
impl Future for Unary {
    type Output = Rm;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Rm> {
        if self.done {
            self.svc.get().bad = true;
        }
        let slot = self.slot.clone();
        let mut s = slot.get();
        match s.ready.pop_front() {
            Some(n) => {
                self.done = true;
                Poll::Ready(rm(s.id, NORMAL, n))
            }
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
pub struct Items {
    slot: Shared<Slot>,
    svc: Shared<Svc>,
}
impl Drop for Items {
    fn drop(&mut self) {
        self.slot.get().dropped = true;
    }
}
impl Stream for Items {
    type Item = Rm;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Rm>> {
        let _ = &self.svc;
        let mut s = self.slot.get();
        match s.ready.pop_front() {
            Some(n) => Poll::Ready(Some(rm(s.id, NORMAL, n))),
            None if s.ended => Poll::Ready(None),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
/// The service produces something for an rpc.
pub fn produce(slot: &Shared<Slot>, n: u8) {
    let w = {
        let mut s = slot.get();
        s.ready.push_back(n);
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
pub fn finish(slot: &Shared<Slot>) {
    let w = {
        let mut s = slot.get();
        s.ended = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub struct Sw {
    pub svc: Shared<Svc>,
    pub server: TaskId,
    pub ended: Shared<bool>,
    pub socks: Vec<SockRef>,
}
pub fn world(queue: usize, max: usize) -> Sw {
    let svc = Shared::new(Svc::default());
    let mut server = match vp::block_on(SocketRpcServer::new(tokio::net::addr(9), Service(svc.clone()))) {
        Some(Ok(s)) => s,
        _ => {
            check!(23, false, "the server does not start");
            unreachable!()
        }
    };
    server.set_max_queued_outbound_messages(queue);
    server.set_max_buffer_length(max);
    let ended = Shared::new(false);
    let e2 = ended.clone();
    let server = vp::task(async move {
        let _ = server.await;
        *e2.get() = true;
    });
    Sw { svc, server, ended, socks: Vec::new() }
}
impl Sw {
    pub fn accept(&mut self) -> SockRef {
        let s = socket();
        s.get().addr = tokio::net::addr(100 + self.socks.len() as u16);
        arrive(&listener(), Ok(s.clone()));
        self.socks.push(s.clone());
        s
    }
    pub fn settle(&self) -> bool {
        let v: Vec<&SockRef> = self.socks.iter().collect();
        settle(&v)
    }
    pub fn rpc(&self, i: usize) -> Shared<Slot> {
        self.svc.get().rpcs[i].clone()
    }
}

pub fn ask(s: &SockRef, id: u64, kind: u8, n: u8) -> Rm {
    // the low two bits say what the service does with it
    let m = rm(id, NORMAL, (n & 0xfc) | kind);
    s.push(&enc(m));
    m
}
fn of(wire: &[Rm], id: u64) -> Vec<Rm> {
    wire.iter().copied().filter(|m| m.id == id).collect()
}

/// What one rpc has to have put on the wire.
pub struct Track {
    pub id: u64,
    pub kind: u8,
    pub items: Vec<u8>,
    pub ended: bool,
    pub cancelled: bool,
}
fn wire_ok(got: &[Rm], t: &Track, exact: bool) -> bool {
    let mut want: Vec<Rm> = t.items.iter().map(|n| rm(t.id, NORMAL, *n)).collect();
    if t.kind == STREAM && t.ended {
        want.push(rm(t.id, END, 0));
    }
    if got.len() > want.len() || exact && got.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..got.len() {
        // the payload of an end marker is its own business
        let payload = want[i].code == END || got[i].n == want[i].n;
        ok &= (got[i].code == want[i].code) & payload;
    }
    ok
}

/// What is on the wire and what is kept, once everything is quiet, is what the rpcs produced.
pub fn verify(w: &Sw, s: &SockRef, t: &[Track]) -> Vec<Rm> {
    let wire = sent(s);
    let mut others = 0;
    let some_cancelled = t.iter().any(|t| t.cancelled);
    for (i, t) in t.iter().enumerate() {
        let got = of(&wire, t.id);
        others += got.len();
        if t.cancelled {
            check!(19, wire_ok(&got, t, false), "a cancelled rpc put something on the wire that it did not produce");
            check!(19, w.rpc(i).get().dropped, "a cancelled rpc lives on");
            nd::witness("cancelled");
        } else if t.kind == STREAM {
            check!(20, got.len() >= t.items.len() + t.ended as usize, "there is room but the server does not send what a stream has produced");
            check!(18, wire_ok(&got, t, true), "a stream is not sent in order with exactly one end");
            check!(19, !some_cancelled || wire_ok(&got, t, true), "a stream is disturbed by the cancellation of another rpc");
            check!(18, w.rpc(i).get().dropped == t.ended, "a stream is dropped early, or kept after its end");
            if t.ended && !t.items.is_empty() {
                nd::witness("stream ended");
            }
        } else {
            check!(20, got.len() >= t.items.len(), "there is room but the server does not send a response");
            check!(17, wire_ok(&got, t, true), "a unary rpc is not answered exactly once with its result");
            check!(19, !some_cancelled || wire_ok(&got, t, true), "a unary rpc is disturbed by the cancellation of another one");
            check!(17, w.rpc(i).get().dropped == t.ended, "a unary rpc is dropped early, or kept after its response");
            if t.ended {
                nd::witness("unary answered");
            }
        }
    }
    check!([17, 18], others == wire.len(), "messages nobody asked for were sent");
    check!([17, 18], !w.svc.get().bad, "a finished rpc is polled again");
    check!(21, w.svc.get().gone.is_empty() && !s.get().closed, "a connection ended although nothing ended it");
    wire
}

/// `k` rpcs of symbolic kinds; symbolic events: results, ends, cancellations, time passing.
fn run_mix(k: usize, steps: usize, queue_hi: usize, cancels: bool, room: bool, first: u64) {
    let queue = nd::pick(1, queue_hi, "queue");
    let mut w = world(queue, 32);
    let s = w.accept();
    if room {
        s.get().out_room = nd::pick(0, 3, "kernel room") * 2;
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let mut t: Vec<Track> = Vec::new();
    let payload = nd::u8("request payload");
    for i in 0..k {
        let kind = nd::pick(0, 1, "kind") as u8;
        ask(&s, first + i as u64, kind, payload);
        t.push(Track { id: first + i as u64, kind, items: vec![], ended: false, cancelled: false });
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == k, "a request does not start exactly one rpc");
    for i in 0..k {
        let slot = w.rpc(i);
        let slot = slot.get();
        check!(17, slot.id == t[i].id && slot.n & 0xfc == payload & 0xfc, "the service gets another request than the client sent");
    }
    for _ in 0..steps {
        match nd::pick(0, if cancels { 3 } else { 2 }, "event") {
            0 => check!(3, w.settle(), "a task keeps spinning with nothing to do"),
            e => {
                let i = nd::pick(0, k - 1, "which rpc");
                let slot = w.rpc(i);
                match e {
                    1 => {
                        // unary: one result
                        if t[i].ended || t[i].cancelled {
                            continue;
                        }
                        let n = nd::u8("result");
                        t[i].items.push(n);
                        if t[i].kind != STREAM {
                            t[i].ended = true;
                        }
                        produce(&slot, n);
                    }
                    2 => {
                        if t[i].kind != STREAM || t[i].ended || t[i].cancelled {
                            continue;
                        }
                        t[i].ended = true;
                        finish(&slot);
                    }
                    _ => {
                        s.push(&enc(rm(t[i].id, CANCEL, 0)));
                        t[i].cancelled = true;
                    }
                }
            }
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    if room {
        // what is on the wire so far is a prefix of what belongs there
        let wire = sent(&s);
        for t in &t {
            check!([17, 18], wire_ok(&of(&wire, t.id), t, false), "an rpc put something on the wire that it did not produce, or in another order");
        }
        s.get().out_room = usize::MAX;
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
    }
    let wire = verify(&w, &s, &t);
    nd::trace(wire.len() as u64);
    nd::trace(s.get().writes as u64);
    nd::witness("mix");
}

/// Cancel at a symbolic point; afterwards the rpc is silent and dropped, and nobody else notices.
fn run_cancel() {
    let queue = nd::pick(1, 2, "queue");
    let mut w = world(queue, 32);
    let s = w.accept();
    let id = [1, 4][nd::pick(0, 1, "id")];
    let kind = nd::pick(0, 1, "kind") as u8;
    let other = nd::pick(0, 1, "other kind") as u8;
    // 0: in the same batch, 1: later
    let when = nd::pick(0, 2, "when");
    let before = if kind == STREAM { nd::pick(0, 2, "items before") } else { 0 };
    ask(&s, id, kind, 0);
    ask(&s, 2, other, 0);
    if when == 0 {
        s.push(&enc(rm(id, CANCEL, 0)));
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(19, w.svc.get().rpcs.len() == 2, "a request does not start exactly one rpc");
    let v = w.rpc(0);
    if when > 0 {
        for i in 0..before {
            produce(&v, 10 + i as u8);
        }
        if when == 1 {
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
        // an unknown id, a control code that means nothing to a server, a code from the future
        match nd::pick(0, 3, "noise") {
            0 => {}
            1 => s.push(&enc(rm(9, CANCEL, 0))),
            2 => s.push(&enc(rm(2, END, 0))),
            _ => s.push(&enc(rm(9, 77, 0))),
        }
        s.push(&enc(rm(id, if nd::bool("unknown code") { 77 } else { CANCEL }, 0)));
        if nd::bool("twice") {
            s.push(&enc(rm(id, CANCEL, 0)));
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(19, v.get().dropped, "a cancelled rpc lives on");
    let n = of(&sent(&s), id).len();
    check!(19, n <= before, "a cancelled rpc is answered");
    check!(20, when != 1 || n == before, "there is room but the server does not send what a stream has produced");
    // whatever it would have said
    produce(&v, 99);
    finish(&v);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(19, of(&sent(&s), id).len() == n, "a cancelled rpc goes on sending");
    let o = w.rpc(1);
    check!(19, !o.get().dropped, "cancelling one rpc ends another one");
    produce(&o, 42);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let got = of(&sent(&s), 2);
    check!(19, got.len() == 1 && got[0] == rm(2, NORMAL, 42), "cancelling one rpc disturbs another one");
    // and the connection still takes requests
    ask(&s, 3, ECHO, 8);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(19, of(&sent(&s), 3).len() == 1, "cancelling an rpc breaks the connection");
    nd::trace(n as u64);
    nd::witness("cancelled");
}

/// The same id again, after the first rpc with it is over.
fn run_reuse() {
    let queue = nd::pick(1, 2, "queue");
    let mut w = world(queue, 32);
    let s = w.accept();
    let id = [1, 4][nd::pick(0, 1, "id")];
    let k1 = nd::pick(0, 1, "first kind") as u8;
    let k2 = nd::pick(0, 1, "second kind") as u8;
    let how = nd::pick(0, 1, "cancelled");
    let room = nd::pick(0, 1, "slow peer") == 1;
    ask(&s, id, k1, 0);
    let mut first: Vec<Rm> = Vec::new();
    if how == 1 {
        if nd::bool("started before the cancellation") {
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
        s.push(&enc(rm(id, CANCEL, 0)));
        if nd::bool("cancelled before the next request") {
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
    } else {
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        if room {
            s.get().out_room = 0;
        }
        let a = w.rpc(0);
        produce(&a, 5);
        first.push(rm(id, NORMAL, 5));
        if k1 == STREAM {
            finish(&a);
            first.push(rm(id, END, 0));
        }
        if room {
            // the client reads byte by byte, and asks again as soon as it has the whole answer
            let all = first.len() * 3;
            for _ in 0..all {
                s.get().out_room += 1;
                s.events();
                let mut k = 0;
                while s.get().outgoing.len() < all && k < 6 {
                    k += 1;
                    vp::step();
                }
            }
            check!(20, s.get().outgoing.len() >= all, "there is room but the server does not send");
        } else {
            let mut k = 0;
            while s.get().outgoing.len() < first.len() * 3 && k < 12 {
                k += 1;
                vp::step();
                s.events();
            }
            check!(20, s.get().outgoing.len() >= first.len() * 3, "there is room but the server does not send");
        }
    }
    ask(&s, id, k2, 0);
    s.get().out_room = usize::MAX;
    s.events();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(22, w.svc.get().rpcs.len() == 2, "a request that reuses a finished id does not start an rpc");
    let b = w.rpc(1);
    check!(22, !b.get().dropped, "an rpc that reuses a finished id is killed");
    produce(&b, 6);
    if k2 == STREAM {
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        finish(&b);
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let mut want = first;
    want.push(rm(id, NORMAL, 6));
    if k2 == STREAM {
        want.push(rm(id, END, 0));
    }
    let got = sent(&s);
    check!(22, got == want, "an rpc that reuses a finished id is not answered like any other");
    // it can be cancelled, too
    ask(&s, id, UNARY, 0);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    s.push(&enc(rm(id, CANCEL, 0)));
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(22, w.rpc(2).get().dropped, "an rpc that reuses a finished id cannot be cancelled");
    nd::trace(got.len() as u64);
    nd::witness("reused");
}

/// A peer that does not read, then does.
fn run_backpressure(n: usize) {
    let queue = nd::pick(1, 2, "queue");
    let mut w = world(queue, 64);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    s.get().out_room = nd::pick(0, 2, "kernel room") * 3;
    let stream = nd::pick(0, 2, "stream");
    let mut want = Vec::new();
    for i in 0..n {
        let m = ask(&s, 1 + i as u64, ECHO, 4 * i as u8);
        want.push(rm(m.id, NORMAL, m.n.wrapping_add(1)));
    }
    if stream > 0 {
        ask(&s, 50, STREAM, 0);
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    // requests are taken in although nothing goes out
    check!(20, w.svc.get().calls.len() == n + (stream > 0) as usize, "a peer that does not read blocks its own requests");
    if stream > 0 {
        let slot = w.rpc(n);
        let items = n;
        for i in 0..items {
            produce(&slot, i as u8);
            if nd::bool("let it run") {
                check!(3, w.settle(), "a task keeps spinning with nothing to do");
            }
        }
        if stream == 2 {
            finish(&slot);
        }
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        // a slow reader holds the producer back
        let taken = items - slot.get().ready.len();
        check!(5, taken + sent(&s).len() <= 3 * queue + 3 + n, "results pile up although the peer does not read");
    }
    let step = nd::pick(0, 1, "reads slowly");
    if step == 1 {
        for _ in 0..(6 * n + 12) {
            s.get().out_room += 1;
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
    } else {
        s.get().out_room = usize::MAX;
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
    }
    let wire = sent(&s);
    let mut all = true;
    for m in &want {
        all &= of(&wire, m.id) == vec![*m];
    }
    check!([17, 20], all, "the peer reads again but does not get its responses");
    if stream > 0 {
        let got = of(&wire, 50);
        check!([18, 20], got.len() == n + (stream == 2) as usize, "the peer reads again but a stream does not go on");
        let mut ok = true;
        for i in 0..n.min(got.len()) {
            ok &= got[i] == rm(50, NORMAL, i as u8);
        }
        check!(18, ok, "a stream is not sent in order");
    }
    nd::trace(wire.len() as u64);
    nd::witness("drained");
}

/// Ready results of several rpcs and a peer that reads a few bytes at a time: what there is room for is on the wire, always.
fn run_pressure() {
    let queue = nd::pick(1, 4, "queue");
    let mut w = world(queue, 64);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    s.get().out_room = 0;
    let pace = nd::pick(1, 7, "bytes at a time");
    let unary = nd::pick(0, 2, "unary rpcs") * 3;
    let streams = nd::pick(if unary == 0 { 1 } else { 0 }, 2, "streams");
    let items = nd::pick(0, 2, "items") * 3;
    let ends = nd::bool("streams end");
    let apart = nd::bool("runs in between");
    let mut want = Vec::new();
    let mut t = Vec::new();
    for i in 0..unary {
        let m = ask(&s, i as u64, ECHO, if i == 1 { nd::u8("payload") } else { 0 });
        want.push(rm(m.id, NORMAL, m.n.wrapping_add(1)));
        t.push(Track { id: m.id, kind: UNARY, items: vec![m.n.wrapping_add(1)], ended: true, cancelled: false });
    }
    for i in 0..streams {
        let m = ask(&s, 50 + i as u64, STREAM, 0);
        t.push(Track { id: m.id, kind: STREAM, items: vec![], ended: false, cancelled: false });
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(20, w.svc.get().calls.len() == unary + streams, "a peer that does not read blocks its own requests");
    let mut total = 3 * unary;
    for k in 0..items {
        for i in 0..streams {
            let n = if k == 2 { nd::u8("item") } else { k as u8 };
            produce(&w.rpc(unary + i), n);
            t[unary + i].items.push(n);
            total += 3;
            if apart {
                check!(3, w.settle(), "a task keeps spinning with nothing to do");
            }
        }
    }
    if ends {
        for i in 0..streams {
            finish(&w.rpc(unary + i));
            t[unary + i].ended = true;
            total += 3;
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let mut granted = 0;
    while granted < total {
        granted += pace;
        s.get().out_room += pace;
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        check!([20, 3], s.get().outgoing.len() == granted.min(total), "there is room but the server does not send what it has");
    }
    verify(&w, &s, &t);
    nd::trace(s.get().writes as u64);
    nd::witness("drained");
}

/// More requests at once than any internal batch.
fn run_bulk(n: usize) {
    many();
    let mut w = world(nd::pick(1, 2, "queue") * 16, 4096);
    let s = w.accept();
    s.get().read_limit = nd::pick(1, 2, "read limit") * 300;
    let odd = nd::u8("one symbolic payload");
    let mut want = Vec::new();
    for i in 0..n {
        let p = if i == n / 2 { odd } else { 0 };
        let m = ask(&s, i as u64, ECHO, p);
        want.push(m);
    }
    let v: Vec<&SockRef> = w.socks.iter().collect();
    check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    let wire = sent(&s);
    check!(17, w.svc.get().calls.len() == n, "a request does not start exactly one rpc");
    check!(20, wire.len() >= n, "there is room but the server does not send its responses");
    let mut ok = wire.len() == n;
    let mut seen = vec![false; n];
    for m in &wire {
        let i = m.id as usize;
        ok &= i < n && !seen[i];
        if i < n {
            seen[i] = true;
            ok &= (m.n == want[i].n.wrapping_add(1)) & (m.code == NORMAL);
        }
    }
    check!(17, ok, "a unary rpc is not answered exactly once with its result");
    nd::trace(s.get().writes as u64);
    nd::witness("bulk");
}

/// Streams with many items at once, ended or not.
fn run_bulk_streams(n: usize) {
    let queue = [1, 16, 256][nd::pick(0, 2, "queue")];
    let mut w = world(queue, 4096);
    let s = w.accept();
    let k = nd::pick(1, 3, "streams");
    for i in 0..k {
        ask(&s, 2 + i as u64, STREAM, 0);
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == k, "a request does not start exactly one rpc");
    let ends = nd::bool("they end");
    let slow = nd::bool("the peer starts reading late");
    if slow {
        s.get().out_room = 0;
    }
    let odd = nd::u8("one symbolic item");
    let mut t: Vec<Track> = Vec::new();
    for i in 0..k {
        let items: Vec<u8> = (0..n).map(|j| if j == n / 2 { odd } else { (j + i) as u8 }).collect();
        let slot = w.rpc(i);
        for x in &items {
            produce(&slot, *x);
        }
        if ends {
            finish(&slot);
        }
        t.push(Track { id: 2 + i as u64, kind: STREAM, items, ended: ends, cancelled: false });
    }
    let v: Vec<&SockRef> = w.socks.iter().collect();
    check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    if slow {
        s.get().out_room = usize::MAX;
        check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    }
    let wire = sent(&s);
    for (i, t) in t.iter().enumerate() {
        let got = of(&wire, t.id);
        check!(20, got.len() >= t.items.len() + ends as usize, "there is room but the server does not send its responses");
        check!(18, wire_ok(&got, t, true), "a stream is not sent as its items in order, then its end once");
        check!([18, 21], w.rpc(i).get().dropped == ends, "a finished stream is kept, or a live one is dropped");
    }
    nd::trace(ends as u64);
    nd::witness("bulk");
}

/// Many rpcs outstanding; some are cancelled at once, then the others are all answered at once.
fn run_bulk_pending(n: usize) {
    many();
    let mut w = world([1, 16, 256][nd::pick(0, 2, "queue")], 4096);
    let s = w.accept();
    let every = nd::pick(1, 3, "every how many rpcs one is cancelled");
    let kinds = nd::pick(0, 2, "kinds");
    let kind = |i: usize| if kinds == 2 { (i & 1) as u8 } else { kinds as u8 };
    for i in 0..n {
        ask(&s, i as u64, kind(i), 0);
    }
    let v: Vec<&SockRef> = w.socks.iter().collect();
    check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == n, "a request does not start exactly one rpc");
    let odd = nd::u8("one symbolic result");
    let before = nd::bool("the answers are there before the cancellations are read");
    let answer = || {
        for i in 0..n {
            if i % every != 0 || before {
                let slot = w.rpc(i);
                produce(&slot, if i == n / 2 { odd } else { i as u8 });
                if kind(i) == STREAM {
                    finish(&slot);
                }
            }
        }
    };
    for i in 0..n {
        if i % every == 0 {
            s.push(&enc(rm(i as u64, CANCEL, 0)));
        }
    }
    if before {
        answer();
    }
    check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    if !before {
        for i in 0..n {
            let is = w.rpc(i).get().dropped;
            check!(19, is == (i % every == 0), "a cancelled rpc lives on, or another one is dropped");
        }
        answer();
        check!(3, settle_n(&v, 20 * n), "a task keeps spinning with nothing to do");
    }
    let wire = sent(&s);
    let mut ok = true;
    let mut at = vec![0; n];
    for m in &wire {
        let i = m.id as usize;
        at[i] += 1;
        ok &= match at[i] {
            1 => (m.code == NORMAL) & (m.n == if i == n / 2 { odd } else { i as u8 }),
            2 => (m.code == END) & (kind(i) == STREAM),
            _ => false,
        };
    }
    check!([17, 18], ok, "an rpc is answered with something else than its result");
    for i in 0..n {
        if i % every != 0 {
            check!([17, 18, 19, 20], at[i] == 1 + (kind(i) == STREAM) as usize, "there is room but the server does not send its responses");
        } else if !before {
            check!(19, at[i] == 0, "a cancelled rpc is answered");
        }
        check!([17, 18, 21], w.rpc(i).get().dropped, "a finished rpc is kept");
    }
    nd::trace(wire.len() as u64 & 1);
    nd::witness("bulk");
}

/// A connection ends at a symbolic point: its service and its rpcs go, those of the others stay.
fn run_teardown() {
    let queue = nd::pick(1, 2, "queue");
    let mut w = world(queue, 32);
    let a = w.accept();
    let b = w.accept();
    let swap = nd::pick(0, 1, "which ends") == 1;
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(21, w.svc.get().connections.len() == 2, "a connection does not get exactly one service");
    let (dying, other) = if swap { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) };
    let slow = nd::pick(0, 1, "peer reads") == 0;
    if slow {
        dying.get().out_room = 0;
    }
    let n = nd::pick(0, 2, "rpcs");
    for i in 0..n {
        ask(&dying, 1 + i as u64, nd::pick(0, 1, "kind") as u8, 0);
    }
    ask(&other, 1, nd::pick(0, 1, "other kind") as u8, 0);
    let started = nd::bool("rpcs are started");
    if started {
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
    }
    let produced = started && nd::bool("results are produced");
    if produced {
        let slots: Vec<_> = w.svc.get().rpcs.clone();
        for slot in slots {
            let conn = slot.get().conn;
            if conn == swap as usize {
                produce(&slot, 3);
                produce(&slot, 4);
            }
        }
        if nd::bool("results are taken") {
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
    }
    match nd::pick(0, 4, "cause") {
        0 => dying.get().in_end = End::Eof,
        1 => dying.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset),
        2 => dying.push(&[1, 0xff, 0]),
        3 => dying.get().read_ready_err = true,
        _ => {
            dying.get().out_end = End::Err(std::io::ErrorKind::BrokenPipe);
            // something to write, so that it is noticed
            dying.get().out_room = usize::MAX;
            ask(&dying, 30, ECHO, 0);
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(21, dying.get().closed, "the socket of an ended connection stays open");
    check!(21, w.svc.get().gone == vec![swap as usize], "the service of an ended connection lives on, or that of another one is dropped");
    let slots: Vec<_> = w.svc.get().rpcs.clone();
    for r in slots {
        let r = r.get();
        check!(21, r.dropped || r.conn != swap as usize, "an rpc of an ended connection lives on");
        check!(21, !r.dropped || r.conn == swap as usize, "an rpc of another connection is dropped");
    }
    check!(21, !*w.ended.get() && vp::live_tasks() == 3, "tasks of an ended connection live on, or others end");
    // the other one works
    let slots: Vec<_> = w.svc.get().rpcs.clone();
    for r in slots {
        let conn = r.get().conn;
        if conn != swap as usize {
            produce(&r, 42);
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(21, sent(&other) == vec![rm(1, NORMAL, 42)], "a connection is disturbed by the end of another one");
    nd::trace(n as u64);
    nd::witness("torn down");
}

/// Two connections use the same ids.
fn run_isolation() {
    let mut w = world(2, 32);
    let a = w.accept();
    let b = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let ka = nd::pick(0, 1, "kind") as u8;
    let kb = nd::pick(0, 1, "kind") as u8;
    ask(&a, 1, ka, 4);
    if nd::bool("let it run") {
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
    }
    ask(&b, 1, kb, 8);
    vp::schedule_choices(4);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == 2, "a request does not start exactly one rpc");
    let cancel = nd::pick(0, 2, "cancel");
    if cancel == 1 {
        a.push(&enc(rm(1, CANCEL, 0)));
    } else if cancel == 2 {
        b.push(&enc(rm(1, CANCEL, 0)));
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let (x, y) = (nd::u8("result"), nd::u8("result"));
    for i in 0..2 {
        let slot = w.rpc(i);
        let conn = slot.get().conn;
        produce(&slot, if conn == 0 { x } else { y });
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let (sa, sb) = (sent(&a), sent(&b));
    check!(19, sa.len() == (cancel != 1) as usize && sb.len() == (cancel != 2) as usize, "a cancellation reaches an rpc of another connection");
    if let Some(m) = sa.first() {
        check!(17, m.n == x && m.id == 1, "a connection gets the response to another one's request");
    }
    if let Some(m) = sb.first() {
        check!(17, m.n == y && m.id == 1, "a connection gets the response to another one's request");
    }
    nd::trace(sa.len() as u64);
    nd::witness("isolated");
}

/// A request carries an id that is in use. It is a request like any other.
fn run_duplicate() {
    let mut w = world(nd::pick(1, 3, "queue"), 32);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let n = nd::pick(2, 3, "requests");
    let kinds: Vec<u8> = (0..n).map(|_| nd::pick(0, 1, "kind") as u8).collect();
    for k in &kinds {
        ask(&s, 7, *k, 0);
        if nd::bool("between") {
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == n, "a request does not start exactly one rpc");
    if kinds.iter().all(|k| *k == UNARY) {
        for i in 0..n {
            produce(&w.rpc(i), 40 + i as u8);
            check!(3, w.settle(), "a task keeps spinning with nothing to do");
        }
        let want: Vec<Rm> = (0..n).map(|i| rm(7, NORMAL, 40 + i as u8)).collect();
        check!(17, sent(&s) == want, "a completed rpc is not answered with its result");
        nd::witness("answered");
    }
    ask(&s, 5, ECHO, 8);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!([17, 21], of(&sent(&s), 5) == vec![rm(5, NORMAL, 12)], "a repeated id breaks the connection");
    nd::witness("repeated");
}

mod harness {
    use super::*;
    pub fn vp_srv_mix() {
        run_mix(2, 5, 2, false, false, 3)
    }
    pub fn vp_srv_mix_cancel() {
        run_mix(2, 4, 2, true, false, 2)
    }
    /// Which task runs next is open.
    pub fn vp_srv_sched() {
        vp::schedule_choices(5);
        run_mix(2, 3, 1, true, false, 3)
    }
    pub fn vp_srv_sched_deep() {
        vp::schedule_choices(8);
        run_mix(2, 4, 1, true, false, 3)
    }
    pub fn vp_srv_mix_slow() {
        run_mix(2, 4, 2, true, true, 2)
    }
    pub fn vp_srv_mix_deep() {
        run_mix(3, 4, 2, true, true, 2)
    }
    pub fn vp_srv_cancel() {
        run_cancel()
    }
    pub fn vp_srv_duplicate() {
        run_duplicate()
    }
    pub fn vp_srv_reuse() {
        run_reuse()
    }
    pub fn vp_srv_backpressure() {
        run_backpressure(4)
    }
    pub fn vp_srv_pressure() {
        run_pressure()
    }
    pub fn vp_srv_bulk() {
        run_bulk(4200)
    }
    pub fn vp_srv_bulk_deep() {
        run_bulk(16_000)
    }
    pub fn vp_srv_teardown() {
        run_teardown()
    }
    pub fn vp_srv_bulk_streams() {
        run_bulk_streams(1100)
    }
    pub fn vp_srv_bulk_streams_deep() {
        run_bulk_streams(6000)
    }
    pub fn vp_srv_bulk_pending() {
        run_bulk_pending(1100)
    }
    pub fn vp_srv_bulk_pending_deep() {
        run_bulk_pending(4200)
    }
    pub fn vp_srv_isolation() {
        run_isolation()
    }
    /// Messages the service does not know are not answered and harm nothing.
    pub fn vp_srv_unknown() {
        let mut w = world(2, 32);
        let s = w.accept();
        let n = nd::u8("payload");
        let code = nd::u8("code");
        // not a decoding error of the harness codec
        nd::assume(code != 0xff);
        s.push(&enc(rm(4, code, n)));
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        let normal = code == NORMAL;
        let calls = w.svc.get().calls.len();
        check!(17, calls == normal as usize, "a message that is not a request starts an rpc, or a request does not");
        check!(12, calls == normal as usize, "a byte that is not the normal code starts an rpc, or the normal code does not");
        if calls == 1 && n & 3 == UNKNOWN {
            check!(17, sent(&s).is_empty(), "a message the service does not know is answered");
            nd::witness("unknown");
        }
        ask(&s, 5, ECHO, 8);
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
        check!(17, of(&sent(&s), 5) == vec![rm(5, NORMAL, 12)], "a message the service does not know breaks the connection");
        nd::witness("alive");
    }
}

entries!(
    vp_srv_mix,
    vp_srv_mix_cancel,
    vp_srv_sched,
    vp_srv_sched_deep,
    vp_srv_mix_slow,
    vp_srv_mix_deep,
    vp_srv_cancel,
    vp_srv_reuse,
    vp_srv_duplicate,
    vp_srv_backpressure,
    vp_srv_pressure,
    vp_srv_bulk,
    vp_srv_bulk_deep,
    vp_srv_bulk_streams,
    vp_srv_bulk_streams_deep,
    vp_srv_bulk_pending,
    vp_srv_bulk_pending_deep,
    vp_srv_teardown,
    vp_srv_isolation,
    vp_srv_unknown,
);
