//! `protosocket::Connection` against a symbolic socket, a symbolic peer and a symbolic application.
use nd::check;
use protosocket::{
    Connection, ConnectionBindings, DeserializeError, Deserializer, MessageReactor, ReactorStatus, Serializer,
};
use tokio::net::{socket, SockRef};
use tokio::sync::mpsc;
use tokio::vp::{self, Shared, TaskId};

/// How much the receive buffer grows at a time.
pub const STEP: usize = if cfg!(feature = "verif") { 4 } else { 2 << 20 };

pub const SKIP: u8 = 0x80;
pub const BAD: u8 = 0x7f;

/// What the peer can put on the wire: `len payload`, or `SKIP|len payload` which the deserializer skips.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub body: Vec<u8>,
}

/// How a deserializer hints at the size of an incomplete message.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Hint {
    /// The whole frame, prefix included (like the messagepack bindings).
    Frame,
    /// Only the body (like the prost bindings).
    Body,
}

pub struct Codec {
    pub hint: Hint,
    pub skip: bool,
    /// An empty message encodes to nothing at all.
    pub mute: bool,
    /// Four bytes of length instead of one.
    pub wide: bool,
}
impl Codec {
    pub fn plain() -> Self {
        Codec { hint: Hint::Frame, skip: false, mute: false, wide: false }
    }
}
impl Deserializer for Codec {
    type Message = Msg;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> Result<(usize, Msg), DeserializeError> {
        let avail = buffer.remaining();
        if self.wide {
            if avail < 4 {
                return Err(DeserializeError::IncompleteBuffer { next_message_size: 4 });
            }
            let len = buffer.get_u32() as usize;
            if avail < 4 + len {
                return Err(DeserializeError::IncompleteBuffer { next_message_size: 4 + len });
            }
            let mut body = vec![0; len];
            buffer.copy_to_slice(&mut body);
            return Ok((4 + len, Msg { body }));
        }
        let head = buffer.get_u8();
        if head == BAD {
            return Err(DeserializeError::InvalidBuffer);
        }
        let len = (head & 0x7f) as usize;
        if self.skip && head & SKIP != 0 {
            return Err(DeserializeError::SkipMessage { distance: 1 + len });
        }
        if avail < 1 + len {
            return Err(DeserializeError::IncompleteBuffer {
                next_message_size: match self.hint {
                    Hint::Frame => 1 + len,
                    Hint::Body => len,
                },
            });
        }
        let mut body = vec![0; len];
        buffer.copy_to_slice(&mut body);
        Ok((1 + len, Msg { body }))
    }
}
impl Serializer for Codec {
    type Message = Msg;
    fn encode(&mut self, m: Msg, buffer: &mut Vec<u8>) {
        if self.mute && m.body.is_empty() {
            return;
        }
        buffer.push(m.body.len() as u8);
        buffer.extend_from_slice(&m.body);
    }
}

#[derive(Default)]
pub struct Log {
    pub got: Vec<Vec<u8>>,
    pub largest_batch: usize,
    pub calls: usize,
    pub dropped: bool,
    /// Ask for a disconnect once this many messages have arrived.
    pub disconnect_after: Option<usize>,
    /// Send what arrives back.
    pub echo: Option<mpsc::Sender<Msg>>,
    pub echoed: Vec<Vec<u8>>,
}
pub struct Reactor {
    pub log: Shared<Log>,
}
impl MessageReactor for Reactor {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        let mut log = self.log.get();
        log.calls += 1;
        let before = log.got.len();
        for m in messages {
            let back = log.echo.as_ref().is_some_and(|e| e.try_send(m.clone()).is_ok());
            if back {
                log.echoed.push(m.body.clone());
            }
            log.got.push(m.body);
        }
        log.largest_batch = log.largest_batch.max(log.got.len() - before);
        if log.disconnect_after.is_some_and(|n| log.got.len() >= n) {
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}
impl Drop for Reactor {
    fn drop(&mut self) {
        let echo = {
            let mut log = self.log.get();
            log.dropped = true;
            log.echo.take()
        };
        drop(echo);
    }
}
pub struct B;
impl ConnectionBindings for B {
    type Deserializer = Codec;
    type Serializer = Codec;
    type Reactor = Reactor;
}

pub struct World {
    pub sock: SockRef,
    pub log: Shared<Log>,
    pub send: Option<mpsc::Sender<Msg>>,
    pub task: TaskId,
}

pub fn world(max: usize, queue: usize, channel: usize, codec: Codec) -> World {
    let sock = socket();
    let log = Shared::new(Log::default());
    let (send, recv) = mpsc::channel(channel);
    let mut se = Codec::plain();
    se.mute = codec.mute;
    let de = codec;
    let c: Connection<B> = Connection::new(
        sock.stream(),
        tokio::net::addr(1),
        de,
        se,
        max,
        queue,
        recv,
        Reactor { log: log.clone() },
    );
    let task = vp::task(c);
    World {
        sock,
        log,
        send: Some(send),
        task,
    }
}

impl World {
    /// Let everything happen that can: tasks run, readiness events arrive. False: still busy.
    pub fn settle(&self) -> bool {
        for _ in 0..64 {
            if !vp::run(400) {
                return false;
            }
            if !self.sock.events() {
                return true;
            }
        }
        false
    }
    pub fn done(&self) -> bool {
        vp::done(self.task)
    }
}

/// Symbolic message bodies: up to `n` messages of up to `len` bytes.
pub fn messages(lo: usize, n: usize, len: usize) -> Vec<Vec<u8>> {
    let k = nd::pick(lo, n, "messages");
    (0..k)
        .map(|_| {
            let l = nd::pick(0, len, "body length");
            (0..l).map(|_| nd::u8("body byte")).collect()
        })
        .collect()
}
pub fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub fn all_same(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= same(&a[i], &b[i]);
    }
    ok
}


/// Send now if there is room: what an application does from another task.
pub fn offer(w: &World, m: &[u8]) -> bool {
    match &w.send {
        Some(s) => s.try_send(Msg { body: m.to_vec() }).is_ok(),
        None => false,
    }
}

pub fn wire(msgs: &[Vec<u8>]) -> Vec<u8> {
    msgs.iter().flat_map(|m| frame(m)).collect()
}

/// Inbound frames, each of them possibly one the deserializer skips.
fn run_inbound(n: usize, len: usize, max_hi: usize, skips: bool, blocks: usize, intr: usize, coop: usize) {
    let msgs = messages(1, n, len);
    let hint = if nd::bool("hint") { Hint::Frame } else { Hint::Body };
    let max = nd::pick(len + 1, max_hi, "max_buffer_length");
    let queue = nd::pick(1, 2, "max_queued");
    let w = world(max, queue, 1, Codec { hint, skip: skips, mute: false, wide: false });
    let mut expect = Vec::new();
    {
        let mut s = w.sock.get();
        s.read_choice = true;
        s.read_blocks = blocks;
        s.read_intr = intr;
        for m in &msgs {
            let skip = skips && nd::split(nd::bool("skip") as u64) == 1;
            let mut f = frame(m);
            if skip {
                f[0] |= SKIP;
            } else {
                expect.push(m.clone());
            }
            s.incoming.extend(f);
        }
    }
    vp::coop_choices(coop);
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    let log = w.log.get();
    check!(1, log.got.len() <= expect.len(), "a message was delivered twice or made up");
    check!([1, 3], log.got.len() >= expect.len(), "bytes have arrived but the connection sleeps and does not deliver them");
    check!(1, all_same(&log.got, &expect), "the delivered messages are not the sent messages");
    check!(5, log.largest_batch <= queue, "a batch larger than the configured queue was delivered at once");
    nd::trace(log.got.len() as u64);
    nd::trace(log.calls as u64);
    nd::trace(w.sock.get().reads as u64);
    nd::witness("everything delivered");
    if log.calls > 4 {
        nd::witness("many batches");
    }
    if expect.len() < msgs.len() {
        nd::witness("skipped");
    }
}

fn run_grow(n: usize, lo: usize, hi: usize) {
    let msgs: Vec<Vec<u8>> = (0..n).map(|_| (0..nd::pick(2, 3, "body length")).map(|_| nd::u8("body byte")).collect()).collect();
    let max = nd::pick(lo, hi, "max_buffer_length");
    let queue = nd::pick(1, 2, "max_queued");
    let w = world(max, queue, 1, Codec::plain());
    {
        let mut s = w.sock.get();
        s.read_choice = true;
        s.read_blocks = 1;
        s.incoming.extend(wire(&msgs));
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    let log = w.log.get();
    check!(1, log.got.len() <= msgs.len(), "a message was delivered twice or made up");
    check!(3, log.got.len() >= msgs.len(), "bytes have arrived but the connection sleeps and does not deliver them");
    check!(1, all_same(&log.got, &msgs), "the delivered messages are not the sent messages");
    check!(5, log.largest_batch <= queue, "a batch larger than the configured queue was delivered at once");
    nd::trace(log.calls as u64);
    nd::witness("everything delivered");
}

/// Frames around the growth step of the receive buffer, in reads of up to several steps.
fn run_big() {
    let bodies = [1, STEP - 4, STEP - 3, STEP + STEP / 2];
    let mut msgs = Vec::new();
    for k in 0..3u8 {
        let n = bodies[if k == 2 { 0 } else { nd::pick(0, 3, "size") }].max(1);
        let mut b = vec![k + 1; n];
        b[0] = nd::u8("first byte");
        b[n - 1] = nd::u8("last byte");
        msgs.push(b);
    }
    let max = [2 * STEP, 2 * STEP + 1, 4 * STEP][nd::pick(0, 2, "max_buffer_length")];
    let w = world(max, nd::pick(1, 2, "max_queued"), 1, Codec { hint: Hint::Frame, skip: false, mute: false, wide: true });
    {
        let mut s = w.sock.get();
        s.read_limit = [STEP / 2 + 1, STEP - 1, 3 * STEP][nd::pick(0, 2, "read limit")];
        for m in &msgs {
            s.incoming.extend((m.len() as u32).to_be_bytes());
            s.incoming.extend(m.iter());
        }
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(4, !w.done(), "a message within the limit ends the connection");
    let log = w.log.get();
    check!(1, log.got.len() <= msgs.len(), "a message was delivered twice or made up");
    check!(3, log.got.len() >= msgs.len(), "bytes have arrived but the connection sleeps and does not deliver them");
    for (a, b) in log.got.iter().zip(&msgs) {
        check!(1, a == b, "the delivered messages are not the sent messages");
    }
    nd::trace(log.calls as u64);
    nd::witness("everything delivered");
}

/// Outbound messages offered at symbolic times, written in symbolic pieces.
fn run_outbound(n: usize, len: usize, blocks: usize, intr: usize, coop: usize) {
    let msgs = messages(1, n, len);
    let queue = nd::pick(1, 2, "max_queued");
    let channel = nd::pick(1, 2, "channel");
    let w = world(len + 1, queue, channel, Codec::plain());
    {
        let mut s = w.sock.get();
        s.write_choice = true;
        s.write_blocks = blocks;
        s.write_intr = intr;
    }
    vp::coop_choices(coop);
    let mut sent = 0;
    let mut refused = 0;
    while sent < msgs.len() {
        if !offer(&w, &msgs[sent]) {
            // the channel is full: the application waits for the connection
            refused += 1;
            let quiet = w.settle();
            check!(3, quiet, "the connection keeps spinning with nothing to do");
            check!(3, offer(&w, &msgs[sent]), "the socket is writable but queued messages stay in the channel");
        }
        sent += 1;
        if sent < msgs.len() && nd::bool("let it run") {
            let quiet = w.settle();
            check!(3, quiet, "the connection keeps spinning with nothing to do");
        }
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    let s = w.sock.get();
    let want = wire(&msgs);
    let upto = s.outgoing.len().min(want.len());
    check!(2, s.outgoing.len() <= want.len(), "more bytes written than the messages have");
    check!(2, same(&s.outgoing[..upto], &want[..upto]), "the bytes on the wire are not the encoded messages in order");
    check!([2, 3], s.outgoing.len() >= want.len(), "the socket is writable but messages are never written");
    nd::trace(s.writes as u64);
    nd::trace(s.outgoing.len() as u64);
    nd::witness("everything written");
    if s.writes > n + 1 {
        nd::witness("partial writes");
    }
    if refused > 0 {
        nd::witness("channel was full");
    }
}

/// Both directions at once.
fn run_duplex(n: usize, len: usize, coop: usize) {
    let inb = messages(1, n, len);
    let out = messages(1, n, len);
    let queue = nd::pick(1, 2, "max_queued");
    let w = world(len + 2, queue, n, Codec::plain());
    {
        let mut s = w.sock.get();
        s.read_choice = true;
        s.write_choice = true;
        s.write_blocks = 1;
        s.incoming.extend(wire(&inb));
    }
    vp::coop_choices(coop);
    for m in &out {
        offer(&w, m);
        if nd::bool("step") {
            vp::step();
        }
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    let s = w.sock.get();
    let log = w.log.get();
    check!(3, log.got.len() >= inb.len(), "bytes have arrived but the connection sleeps and does not deliver them");
    check!(3, s.outgoing.len() >= wire(&out).len(), "the socket is writable but messages are never written");
    check!(1, all_same(&log.got, &inb), "the delivered messages are not the sent messages");
    check!(2, same(&s.outgoing, &wire(&out)), "the bytes on the wire are not the encoded messages in order");
    nd::trace(log.calls as u64);
    nd::trace(s.writes as u64);
    nd::witness("both directions complete");
}

/// The reactor itself answers: what it sends while it is called goes out like anything else.
fn run_echo(n: usize) {
    let inb = messages(1, n, 1);
    let queue = nd::pick(1, 2, "max_queued");
    let mut w = world(3, queue, nd::pick(1, 2, "channel"), Codec::plain());
    w.log.get().echo = w.send.clone();
    let send = w.send.take();
    let weak = send.as_ref().map(|s| s.downgrade());
    drop(send);
    let early = nd::bool("the peer reads at once");
    {
        let mut s = w.sock.get();
        s.read_choice = true;
        s.write_choice = true;
        s.out_room = if early { usize::MAX } else { 0 };
        s.incoming.extend(wire(&inb));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    w.sock.get().out_room = usize::MAX;
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    {
        let (s, log) = (w.sock.get(), w.log.get());
        check!(3, log.got.len() >= inb.len(), "bytes have arrived but the connection sleeps and does not deliver them");
        check!(1, all_same(&log.got, &inb), "the delivered messages are not the sent messages");
        let want = wire(&log.echoed);
        check!(3, s.outgoing.len() >= want.len(), "the socket is writable but messages are never written");
        check!(2, same(&s.outgoing, &want), "the bytes on the wire are not the encoded messages in order");
        if early && queue == 1 {
            nd::trace(log.echoed.len() as u64);
        }
    }
    w.sock.get().in_end = tokio::net::End::Eof;
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    check!(6, w.done() && w.log.get().dropped && w.sock.get().closed, "the connection does not end although the peer closed it");
    check!(6, weak.is_some_and(|w| w.upgrade().is_none()), "an ended connection keeps its reactor");
    nd::witness("echoed");
}

/// Many small messages: more than one writev, more than one receive batch.
fn run_bulk(total: usize) {
    let queue = [1, 7, 200, 600, total][nd::pick(0, 4, "max_queued")];
    let w = world(64, queue, total, Codec::plain());
    let stop = nd::pick(0, 3, "kernel room") * 61;
    let msgs: Vec<Vec<u8>> = (0..total)
        .map(|i| if i % 3 == 0 { vec![i as u8, (i >> 8) as u8] } else { vec![i as u8] })
        .collect();
    let odd = nd::u8("one symbolic byte");
    let mut msgs = msgs;
    msgs[total / 2] = vec![odd];
    let want = wire(&msgs);
    {
        let mut s = w.sock.get();
        s.incoming.extend(want.iter().copied());
        s.read_limit = nd::pick(1, 3, "read limit") * 7;
        s.out_room = if stop == 0 { usize::MAX } else { stop };
    }
    for m in &msgs {
        check!(2, offer(&w, m), "the channel refuses a message although it has room");
    }
    let mut ok = true;
    for _ in 0..(want.len() / 61 + 2) {
        ok &= w.settle_long();
        let mut s = w.sock.get();
        if s.out_room != usize::MAX {
            s.out_room += 61;
        }
    }
    check!(3, ok, "the connection keeps spinning with nothing to do");
    check!(6, !w.done(), "the connection ended although nothing ended it");
    let s = w.sock.get();
    let log = w.log.get();
    check!(3, log.got.len() >= msgs.len(), "bytes have arrived but the connection sleeps and does not deliver them");
    check!(3, s.outgoing.len() >= want.len(), "the socket is writable but messages are never written");
    check!(1, all_same(&log.got, &msgs), "the delivered messages are not the sent messages");
    check!(2, same(&s.outgoing, &want), "the bytes on the wire are not the encoded messages in order");
    check!(5, log.largest_batch <= queue, "a batch larger than the configured queue was delivered at once");
    nd::trace(log.calls as u64);
    nd::witness("bulk complete");
}

/// A lot is under way when the connection closes.
fn run_bulk_close(total: usize) {
    let queue = [1, 7, 200, total][nd::pick(0, 3, "max_queued")];
    let mut w = world(64, queue, total, Codec::plain());
    let msgs: Vec<Vec<u8>> = (0..total).map(|i| vec![i as u8, (i >> 8) as u8]).collect();
    let want = wire(&msgs);
    let inbound = nd::bool("inbound");
    let slow = nd::pick(0, 2, "kernel room");
    if inbound {
        let mut s = w.sock.get();
        s.incoming.extend(want.iter().copied());
        s.read_limit = nd::pick(1, 3, "read limit") * 7;
        s.in_end = [tokio::net::End::Eof, tokio::net::End::Err(std::io::ErrorKind::ConnectionReset), tokio::net::End::Open][nd::pick(0, 2, "how it ends")];
        if s.in_end == tokio::net::End::Open {
            s.incoming.push_back(BAD);
        }
    } else {
        for m in &msgs {
            check!(2, offer(&w, m), "the channel refuses a message although it has room");
        }
        w.sock.get().out_room = if slow == 0 { usize::MAX } else { slow * 100 };
        if nd::bool("the connection has run") {
            check!(3, w.settle_long(), "the connection keeps spinning with nothing to do");
        }
        w.send = None;
    }
    for _ in 0..want.len() / 100 + 2 {
        check!(3, w.settle_long(), "the connection keeps spinning with nothing to do");
        let mut s = w.sock.get();
        if s.out_room != usize::MAX {
            s.out_room += 100;
        }
    }
    if inbound {
        let log = w.log.get();
        check!([1, 7], all_same(&log.got, &msgs), "a message received before the end is not delivered");
    } else {
        check!([2, 7], same(&w.sock.get().outgoing, &want), "a message accepted before the last sender went is not written");
    }
    check!([6, 7], w.done(), "the connection outlives what should end it");
    nd::trace(inbound as u64);
    nd::witness("closed");
}

/// One inbound message around the limit, after a message that fits.
fn run_limit_in(skip: bool) {
    let max = nd::pick(2, 6, "max_buffer_length");
    let first = nd::pick(0, 1, "first message");
    let frame_len = nd::pick(1, 9, "frame length");
    let hint = if nd::bool("hint") { Hint::Frame } else { Hint::Body };
    let queue = nd::pick(1, 2, "max_queued");
    let w = world(max, queue, 1, Codec { hint, skip, mute: false, wide: false });
    let mut expect: Vec<Vec<u8>> = Vec::new();
    let mut bytes = Vec::new();
    if first == 1 {
        let m = vec![nd::u8("first body")];
        bytes.extend(frame(&m));
        expect.push(m);
    }
    let body: Vec<u8> = (1..frame_len).map(|_| nd::u8("body")).collect();
    let mut f = frame(&body);
    if skip {
        f[0] |= SKIP;
    }
    bytes.extend(&f);
    let last = vec![nd::u8("last body")];
    bytes.extend(frame(&last));
    {
        let mut s = w.sock.get();
        s.read_choice = true;
        s.incoming.extend(&bytes);
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    let declared = match hint {
        Hint::Frame => frame_len,
        Hint::Body if skip => frame_len,
        Hint::Body => frame_len - 1,
    };
    let log = w.log.get();
    if frame_len <= max {
        if !skip {
            expect.push(body);
        }
        expect.push(last);
        check!(4, !w.done(), "a message within the limit ended the connection");
        check!(4, all_same(&log.got, &expect), "messages within the limit were not delivered");
        nd::witness("fits");
    } else {
        let s = w.sock.get();
        let over: Vec<Vec<u8>> = expect.clone();
        // Too long: the connection may end, and must not sit there without either result.
        let mut through = over.clone();
        if !skip {
            through.push(body);
        }
        through.push(last);
        if !w.done() {
            check!(4, all_same(&log.got, &through), "an over-long message neither ended the connection nor was it handled");
            nd::witness("oversized but handled");
        } else {
            check!(4, log.got.len() <= expect.len() + 2, "made-up messages");
            nd::witness("oversized ends the connection");
        }
        if declared > max && log.got.len() <= expect.len() {
            check!(4, w.done(), "an over-long message is waited for instead of ending the connection");
        }
        check!(5, s.pulled <= expect_bytes(&expect) + max + 2 * STEP, "more than the configured buffer is held for one message");
    }
    nd::trace(log.got.len() as u64);
    nd::trace(w.done() as u64);
}
fn expect_bytes(m: &[Vec<u8>]) -> usize {
    wire(m).len()
}

impl World {
    fn settle_long(&self) -> bool {
        for _ in 0..20_000 {
            if !vp::run(20_000) {
                return false;
            }
            if !self.sock.events() {
                return true;
            }
        }
        false
    }
}

mod harness {
    use super::*;
    use tokio::net::End;

    /// Errors that end a connection: ECONNRESET, EPIPE, ETIMEDOUT, EHOSTUNREACH, ENOMEM, EIO, one std has no kind for.
    fn errno(most: usize) -> i32 {
        [104, 32, 110, 113, 12, 5, 84][nd::pick(0, most, "errno")]
    }

    pub fn vp_conn_inbound() {
        run_inbound(3, 2, 5, false, 1, 0, 0)
    }
    pub fn vp_conn_inbound_skip() {
        run_inbound(3, 2, 4, true, 0, 0, 0)
    }
    pub fn vp_conn_inbound_faults() {
        run_inbound(2, 2, 4, false, 1, 1, 1)
    }
    pub fn vp_conn_inbound_deep() {
        run_inbound(4, 2, 5, false, 1, 0, 0)
    }
    /// Buffers of several growth steps: growth, rotation and batches with something already consumed.
    pub fn vp_conn_inbound_grow() {
        run_grow(3, 9, 13)
    }
    pub fn vp_conn_inbound_grow_deep() {
        run_grow(4, 9, 16)
    }
    pub fn vp_conn_big() {
        run_big()
    }
    pub fn vp_conn_inbound_two() {
        run_inbound(2, 2, 4, false, 1, 0, 0)
    }
    pub fn vp_conn_outbound() {
        run_outbound(3, 2, 1, 0, 0)
    }
    pub fn vp_conn_outbound_faults() {
        run_outbound(2, 2, 1, 1, 1)
    }
    pub fn vp_conn_outbound_deep() {
        run_outbound(4, 2, 1, 0, 0)
    }
    pub fn vp_conn_duplex() {
        run_duplex(2, 1, 0)
    }
    pub fn vp_conn_duplex_deep() {
        run_duplex(2, 1, 1)
    }
    pub fn vp_conn_echo() {
        run_echo(2)
    }
    pub fn vp_conn_echo_deep() {
        run_echo(3)
    }
    pub fn vp_conn_bulk() {
        run_bulk(1100)
    }
    pub fn vp_conn_bulk_close() {
        run_bulk_close(1100)
    }
    pub fn vp_conn_bulk_deep() {
        run_bulk(8000)
    }
    pub fn vp_conn_limit_in() {
        run_limit_in(false)
    }
    pub fn vp_conn_limit_skip() {
        run_limit_in(true)
    }

    /// Outbound messages around the limit.
    pub fn vp_conn_limit_out() {
        let max = nd::pick(1, 4, "max_buffer_length");
        let queue = nd::pick(1, 3, "max_queued");
        let a = nd::pick(1, 6, "first frame");
        let b = nd::pick(1, 6, "second frame");
        let ma: Vec<u8> = (1..a).map(|_| nd::u8("body")).collect();
        let mb: Vec<u8> = (1..b).map(|_| nd::u8("body")).collect();
        let w = world(max, queue, 2, Codec::plain());
        w.sock.get().write_choice = true;
        offer(&w, &ma);
        if nd::bool("let it run") {
            w.settle();
        }
        offer(&w, &mb);
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        let s = w.sock.get();
        let mut want = Vec::new();
        if a <= max {
            want.extend(frame(&ma));
        }
        if a <= max && b <= max {
            want.extend(frame(&mb));
            check!(4, !w.done(), "messages within the limit ended the connection");
            check!(4, same(&s.outgoing, &want), "messages within the limit were not sent as they are");
            nd::witness("both fit");
        } else {
            check!(4, w.done() && s.closed, "an over-long message did not end the connection");
            check!(4, s.outgoing.len() <= want.len() && same(&s.outgoing, &want[..s.outgoing.len()]), "bytes of an over-long message reached the wire");
            nd::witness("oversized");
        }
        nd::trace(s.outgoing.len() as u64);
    }

    /// The socket takes nothing: how much does the connection pull out of the channel?
    pub fn vp_conn_backpressure() {
        let queue = nd::pick(1, 3, "max_queued");
        let channel = nd::pick(1, 3, "channel");
        let room = nd::pick(0, 3, "kernel room");
        let w = world(8, queue, channel, Codec::plain());
        w.sock.get().out_room = room;
        let mut taken = 0;
        let every = nd::pick(1, 4, "offers per round");
        for i in 0..20 {
            let m = [nd::u8("body")];
            if offer(&w, &m) {
                taken += 1;
            }
            if (i + 1) % every == 0 {
                let quiet = w.settle();
                check!(3, quiet, "the connection keeps spinning with nothing to do");
            }
        }
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        check!(6, !w.done(), "a slow peer ended the connection");
        // 2 bytes per message: `room / 2` of them may be gone from the queue
        check!(5, taken <= 2 * queue + channel + room / 2, "a peer that does not read lets messages pile up beyond the configured queue");
        nd::witness("blocked");
        // the peer reads again
        w.sock.get().out_room = usize::MAX;
        w.sock.events();
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        check!(3, w.sock.get().outgoing.len() >= 2 * taken, "the peer reads again but messages stay queued");
        nd::trace(taken as u64);
    }

    /// Everything that ends a connection, at a symbolic point of some traffic; and nothing else does.
    pub fn vp_conn_end() {
        let queue = nd::pick(1, 2, "max_queued");
        let w = world(8, queue, 2, Codec::plain());
        let cause = nd::pick(0, 7, "cause");
        let before = nd::pick(0, 2, "messages before");
        {
            let mut s = w.sock.get();
            s.read_choice = true;
            s.write_choice = true;
            s.read_intr = 1;
            s.write_intr = 1;
            // a peer that does not read keeps neither a read-side cause nor the reactor from ending the connection
            if matches!(cause, 0 | 1 | 4 | 6 | 7) && nd::bool("the peer does not read") {
                s.out_room = nd::pick(0, 1, "kernel room");
            }
            for _ in 0..before {
                s.incoming.extend(frame(&[nd::u8("body")]));
            }
        }
        for _ in 0..before {
            offer(&w, &[nd::u8("body")]);
        }
        if nd::bool("let it run") {
            let quiet = w.settle();
            check!(3, quiet, "the connection keeps spinning with nothing to do");
            check!(6, !w.done(), "the connection ended although nothing ended it");
        }
        let mut w = w;
        let mut expect_end = true;
        let mut send_probe = false;
        match cause {
            0 => w.sock.get().in_end = End::Eof,
            1 => w.sock.get().in_end = End::Os(errno(6)),
            2 => {
                w.sock.get().out_end = End::Os(errno(6));
                send_probe = true;
            }
            3 => {
                w.sock.get().out_end = End::Eof;
                send_probe = true;
            }
            4 => {
                w.log.get().disconnect_after = Some(before + 1);
                w.sock.push(&frame(&[1]));
            }
            5 => w.send = None,
            6 => w.sock.push(&[BAD]),
            _ => expect_end = false,
        }
        if send_probe {
            // something to write, so that the failure can be noticed
            while !offer(&w, &[9]) && !w.done() {
                if !w.settle() {
                    break;
                }
            }
        }
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        if expect_end {
            check!(6, w.done(), "the connection outlives what should end it");
            check!(6, w.sock.get().closed, "the socket outlives the connection");
            check!(6, w.log.get().dropped, "the reactor outlives the connection");
            if let Some(s) = &w.send {
                check!(6, s.is_closed(), "the application can still queue messages on a dead connection");
            }
            nd::witness("ended");
        } else {
            check!(6, !w.done(), "the connection ended although nothing ended it");
            nd::witness("alive");
        }
        nd::trace(w.done() as u64);
    }

    /// The runtime's driver is gone.
    pub fn vp_conn_end_driver() {
        let w = world(8, 1, 1, Codec::plain());
        let read = nd::bool("read side");
        w.settle();
        if read {
            w.sock.get().read_ready_err = true;
        } else {
            w.sock.get().write_ready_err = true;
            offer(&w, &[1]);
        }
        let quiet = w.settle();
        check!(6, quiet && w.done(), "the connection outlives its driver");
        nd::witness("ended");
    }

    /// The peer sends messages and closes: all complete ones reach the reactor.
    pub fn vp_conn_close_in() {
        let msgs = messages(1, 3, 2);
        let cut = nd::pick(0, 2, "bytes of an unfinished message");
        let queue = nd::pick(1, 2, "max_queued");
        let max = nd::pick(3, 4, "max_buffer_length");
        let w = world(max, queue, 1, Codec::plain());
        {
            let mut s = w.sock.get();
            s.read_choice = true;
            s.read_blocks = 1;
            s.incoming.extend(wire(&msgs));
            if cut > 0 {
                s.incoming.push_back(2);
            }
            if cut > 1 {
                s.incoming.push_back(nd::u8("unfinished"));
            }
            match nd::pick(0, if cut == 0 { 2 } else { 1 }, "how it ends") {
                0 => s.in_end = End::Eof,
                1 => s.in_end = End::Os(errno(0)),
                _ => s.incoming.push_back(BAD),
            }
        }
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        check!(6, w.done(), "the connection outlives the peer");
        let log = w.log.get();
        check!(7, all_same(&log.got, &msgs), "messages received before the end of the stream were not delivered");
        nd::witness("delivered then ended");
        nd::trace(log.calls as u64);
    }

    /// Messages that encode to nothing, among others.
    pub fn vp_conn_mute() {
        let n = nd::pick(1, 4, "messages");
        let queue = nd::pick(1, 2, "max_queued");
        let mut c = Codec::plain();
        c.mute = true;
        let w = world(8, queue, n, c);
        w.sock.get().write_choice = true;
        let mut want = Vec::new();
        let mut mute = 0;
        for _ in 0..n {
            if nd::pick(0, 1, "empty") == 1 {
                mute += 1;
                offer(&w, &[]);
            } else {
                let b = nd::u8("body");
                offer(&w, &[b]);
                want.extend(frame(&[b]));
            }
            if nd::bool("let it run") {
                check!(3, w.settle(), "the connection keeps spinning with nothing to do");
            }
        }
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        check!(6, !w.done(), "a message that encodes to nothing ended the connection");
        let s = w.sock.get();
        check!(2, same(&s.outgoing, &want), "the bytes on the wire are not the encoded messages in order");
        nd::trace(s.writes as u64);
        nd::witness(if mute > 0 { "mute" } else { "plain" });
    }

    /// At no moment does the connection hold more received bytes than configured.
    pub fn vp_conn_hold() {
        let max = nd::pick(3, 6, "max_buffer_length");
        let queue = nd::pick(1, 2, "max_queued");
        let w = world(max, queue, 1, Codec { hint: Hint::Frame, skip: false, mute: false, wide: false });
        let len = nd::pick(0, 2, "body length");
        let n = 12;
        {
            let mut s = w.sock.get();
            for i in 0..n {
                let b = if i == 5 { nd::u8("body") } else { i };
                s.incoming.extend(frame(&vec![b; len]));
            }
            s.read_limit = nd::pick(1, 8, "read limit");
        }
        // at some moment, the last message is still on the way
        let late: Vec<u8> = {
            let mut s = w.sock.get();
            let k = nd::pick(0, 1 + len, "bytes that come later");
            (0..k).filter_map(|_| s.incoming.pop_back()).collect()
        };
        for _ in 0..200 {
            if !vp::step() && !w.sock.events() {
                break;
            }
            let delivered = w.log.get().got.len() * (1 + len);
            let pulled = w.sock.get().pulled;
            check!(5, pulled - delivered.min(pulled) <= max + STEP, "more is received ahead of the reactor than the configured buffer holds");
        }
        for b in late.iter().rev() {
            w.sock.push(&[*b]);
        }
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        check!(3, w.log.get().got.len() >= n as usize, "bytes have arrived but the connection sleeps and does not deliver them");
        check!(5, w.log.get().largest_batch <= queue, "a batch larger than the configured queue was delivered at once");
        nd::trace(w.sock.get().reads as u64);
        nd::witness("held");
    }

    /// The application queues messages and lets go of its sender: all of them reach the wire.
    pub fn vp_conn_close_out() {
        let msgs = messages(1, 3, 1);
        let queue = nd::pick(1, 2, "max_queued");
        let mut w = world(8, queue, 3, Codec::plain());
        {
            let mut s = w.sock.get();
            s.write_choice = true;
            s.write_blocks = 1;
        }
        if nd::bool("let it run first") {
            w.settle();
        }
        for m in &msgs {
            check!(7, offer(&w, m), "the channel refuses a message although it has room");
            if nd::bool("step") {
                vp::step();
            }
        }
        w.send = None;
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        let s = w.sock.get();
        check!(7, same(&s.outgoing, &wire(&msgs)), "messages accepted before the sender went away never reached the wire");
        check!(6, w.done(), "the connection outlives its last sender");
        nd::witness("flushed then ended");
        nd::trace(s.writes as u64);
    }

    /// The application fills the queue while the peer reads slowly, a bit at a time, and then may let go of its sender.
    pub fn vp_conn_pressure() {
        let queue = nd::pick(1, 4, "max_queued");
        let channel = nd::pick(1, 4, "channel");
        let mut w = world(8, queue, channel, Codec::plain());
        let pace = nd::pick(1, 5, "bytes at a time");
        w.sock.get().out_room = 0;
        let eager = nd::bool("runs between sends");
        let mut want = Vec::new();
        let mut granted = 0;
        let fill = |w: &World, want: &mut Vec<u8>, most: usize| {
            let mut k = 0;
            for _ in 0..most {
                let m = [nd::u8("body")];
                if !offer(w, &m) {
                    break;
                }
                want.extend(frame(&m));
                k += 1;
                if eager {
                    let quiet = w.settle();
                    check!(3, quiet, "the connection keeps spinning while the peer does not read");
                }
            }
            let quiet = w.settle();
            check!(3, quiet, "the connection keeps spinning while the peer does not read");
            k
        };
        let first = fill(&w, &mut want, nd::pick(1, 12, "messages"));
        // what is in the channel, what was taken out of it in one go, what is encoded
        check!(5, first <= channel + 2 * queue, "a connection whose peer does not read takes messages without bound");
        let now = nd::pick(0, 5, "room");
        w.sock.get().out_room = now;
        granted += now;
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        check!([2, 3], w.sock.get().outgoing.len() == granted.min(want.len()), "there is room and there are messages, but the connection sleeps");
        fill(&w, &mut want, nd::pick(0, 3, "more messages"));
        let lets_go = nd::bool("the sender goes away");
        if lets_go {
            w.send = None;
        }
        for _ in 0..64 {
            let quiet = w.settle();
            check!(3, quiet, "the connection keeps spinning with nothing to do");
            check!([2, 3, 7], w.done() || w.sock.get().outgoing.len() == granted.min(want.len()), "there is room and there are messages, but the connection sleeps");
            if granted >= want.len() {
                break;
            }
            check!([6, 7], !w.done(), "the connection ended before everything that was accepted had been written");
            let mut s = w.sock.get();
            s.out_room += pace;
            granted += pace;
        }
        check!(6, w.done() == lets_go, "the connection did not end exactly when its last sender went away");
        check!([2, 7], same(&w.sock.get().outgoing, &want), "messages accepted before the sender went away never reached the wire");
        nd::witness(if lets_go { "flushed then ended" } else { "flushed" });
        nd::trace(w.sock.get().writes as u64);
    }

    /// Messages arrive a few bytes at a time, for all small buffers and batches; then the stream ends or does not.
    pub fn vp_conn_batches() {
        let queue = nd::pick(1, 5, "max_queued");
        let max = nd::pick(2, 13, "max_buffer_length");
        let pace = nd::pick(1, 7, "bytes at a time");
        let n = nd::pick(4, 5, "messages") * 3 - 2;
        let late = nd::bool("all there at once");
        let w = world(max, queue, 1, Codec { hint: Hint::Frame, skip: true, mute: false, wide: false });
        let odd = 6;
        let skipped = nd::pick(0, 2, "skipped") * 4;
        let mut bytes = Vec::new();
        let mut want = Vec::new();
        let mut ends = Vec::new();
        for i in 0..n {
            // a frame of two bytes; some are skipped
            let m = [if i == odd { nd::u8("body") } else { i as u8 }];
            if skipped > 0 && i % skipped == 1 {
                bytes.extend([SKIP | 1, 7]);
            } else {
                bytes.extend(frame(&m));
                want.push(m.to_vec());
                ends.push(bytes.len());
            }
        }
        if late {
            let mut s = w.sock.get();
            s.read_limit = pace;
            s.incoming.extend(bytes.iter());
        } else {
            let mut at = 0;
            while at < bytes.len() {
                let to = (at + pace).min(bytes.len());
                w.sock.push(&bytes[at..to]);
                at = to;
                let quiet = w.settle();
                check!(3, quiet, "the connection keeps spinning with nothing to do");
                let complete = ends.iter().filter(|e| **e <= at).count();
                check!([1, 3], w.log.get().got.len() == complete, "bytes have arrived but the connection sleeps and does not deliver them");
            }
        }
        let end = nd::bool("the stream ends");
        if end {
            w.sock.get().in_end = End::Eof;
        }
        let quiet = w.settle();
        check!(3, quiet, "the connection keeps spinning with nothing to do");
        check!(6, w.done() == end, "the connection did not end exactly when its peer did");
        let log = w.log.get();
        check!([1, 3, 4, 7], all_same(&log.got, &want), "the reactor did not get exactly the messages that were sent");
        check!(5, log.largest_batch <= queue, "a batch larger than the configured queue was delivered at once");
        nd::witness("delivered");
        nd::trace(log.calls as u64);
    }
}

entries!(
    vp_conn_batches,
    vp_conn_pressure,
    vp_conn_inbound,
    vp_conn_inbound_skip,
    vp_conn_inbound_faults,
    vp_conn_inbound_deep,
    vp_conn_big,
    vp_conn_inbound_two,
    vp_conn_inbound_grow,
    vp_conn_inbound_grow_deep,
    vp_conn_outbound,
    vp_conn_outbound_faults,
    vp_conn_outbound_deep,
    vp_conn_duplex,
    vp_conn_duplex_deep,
    vp_conn_echo,
    vp_conn_echo_deep,
    vp_conn_bulk,
    vp_conn_bulk_deep,
    vp_conn_bulk_close,
    vp_conn_limit_in,
    vp_conn_limit_skip,
    vp_conn_limit_out,
    vp_conn_backpressure,
    vp_conn_end,
    vp_conn_end_driver,
    vp_conn_close_in,
    vp_conn_close_out,
    vp_conn_mute,
    vp_conn_hold,
);
