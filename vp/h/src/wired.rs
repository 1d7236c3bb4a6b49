//! The prost and messagepack bindings inside a connection.
use crate::codec::{bytes, mp_same, pb_same, varint, Framing, Mp, Pb};
use nd::check;
use protosocket::{Connection, ConnectionBindings, Deserializer, MessageReactor, ReactorStatus, Serializer};
use protosocket_messagepack::{ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer};
use protosocket_prost::ProstSerializer;
use std::marker::PhantomData;
use tokio::net::{socket, SockRef};
use tokio::sync::mpsc;
use tokio::vp::{self, Shared, TaskId};

struct Sink<M>(Shared<Vec<M>>);
impl<M: Send + 'static> MessageReactor for Sink<M> {
    type Inbound = M;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = M>) -> ReactorStatus {
        self.0.get().extend(messages);
        ReactorStatus::Continue
    }
}
struct With<D, S>(PhantomData<(D, S)>);
impl<M: Send + Unpin + 'static, D: Deserializer<Message = M> + 'static, S: Serializer<Message = M> + 'static> ConnectionBindings for With<D, S> {
    type Deserializer = D;
    type Serializer = S;
    type Reactor = Sink<M>;
}
struct World<M> {
    sock: SockRef,
    got: Shared<Vec<M>>,
    send: mpsc::Sender<M>,
    task: TaskId,
}
fn world<M, D, S>(max: usize, queue: usize) -> World<M>
where
    M: Send + Unpin + 'static,
    D: Deserializer<Message = M> + Default + Unpin + 'static,
    S: Serializer<Message = M> + Default + Unpin + 'static,
{
    let sock = socket();
    let got = Shared::new(Vec::new());
    let (send, recv) = mpsc::channel(4);
    let c: Connection<With<D, S>> = Connection::new(sock.stream(), tokio::net::addr(1), D::default(), S::default(), max, queue, recv, Sink(got.clone()));
    World { sock, got, send, task: vp::task(c) }
}
impl<M> World<M> {
    fn settle(&self) {
        check!(3, crate::rpc::settle(&[&self.sock]), "the connection keeps spinning with nothing to do");
    }
}

/// A codec and messages for it.
trait Kind {
    type M: Clone + Send + Unpin + 'static;
    type D: Deserializer<Message = Self::M> + Default + Unpin + 'static;
    type S: Serializer<Message = Self::M> + Default + Unpin + 'static;
    fn make(id: u64, body: Vec<u8>) -> Self::M;
    fn same(a: &Self::M, b: &Self::M) -> bool;
    /// What the first bytes of a frame say. `None`: too early to tell.
    fn framing(b: &[u8]) -> Option<Framing>;
    /// Bytes that declare a length of any size.
    fn head() -> Vec<u8>;
}
struct Prost;
impl Kind for Prost {
    type M = Pb;
    type D = ProstSerializer<Pb, Pb>;
    type S = ProstSerializer<Pb, Pb>;
    fn make(id: u64, body: Vec<u8>) -> Pb {
        Pb { id, code: 0, body }
    }
    fn same(a: &Pb, b: &Pb) -> bool {
        pb_same(a, b)
    }
    fn framing(b: &[u8]) -> Option<Framing> {
        Some(varint(b))
    }
    fn head() -> Vec<u8> {
        let k = nd::pick(6, 9, "continuation bytes");
        let b = bytes(k + 1);
        for x in &b[..k] {
            nd::assume(*x >= 0x80);
        }
        b
    }
}
struct Pack;
impl Kind for Pack {
    type M = Mp;
    type D = ProtosocketMessagePackDeserializer<Mp>;
    type S = ProtosocketMessagePackSerializer<Mp>;
    fn make(id: u64, body: Vec<u8>) -> Mp {
        Mp { id, code: 1, body }
    }
    fn same(a: &Mp, b: &Mp) -> bool {
        mp_same(a, b)
    }
    fn framing(b: &[u8]) -> Option<Framing> {
        if b.len() < 5 {
            return if b[0] == 0xce { Some(Framing::More) } else { None };
        }
        if b[0] != 0xce {
            return Some(Framing::Malformed);
        }
        let len = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as u64;
        Some(Framing::Frame { head: 5, len })
    }
    fn head() -> Vec<u8> {
        let mut b = bytes(5);
        b[0] = 0xce;
        b
    }
}

fn messages<K: Kind>(lo: usize, hi: usize, long: usize) -> Vec<K::M> {
    let n = nd::pick(lo, hi, "messages");
    (0..n)
        .map(|_| {
            let id = nd::sym(8, "id");
            let l = if long > 0 && nd::bool("a long body") { long } else { nd::pick(0, 1, "body length") };
            let mut body = vec![3; l];
            if l > 0 {
                body[l - 1] = nd::u8("body byte");
            }
            K::make(id, body)
        })
        .collect()
}
fn encoded<K: Kind>(m: &K::M) -> Vec<u8> {
    let mut b = Vec::new();
    K::S::default().encode(m.clone(), &mut b);
    b
}

/// What the peer sends arrives, however it is cut, under the tightest limit that admits it.
fn run_in<K: Kind>(lo: usize, hi: usize, long: usize, blocks: usize, step: usize) {
    let ms = messages::<K>(lo, hi, long);
    let fs: Vec<Vec<u8>> = ms.iter().map(encoded::<K>).collect();
    let longest = fs.iter().map(|f| f.len()).max().unwrap_or(0);
    let w = world::<K::M, K::D, K::S>(longest + nd::pick(0, 1, "spare room"), nd::pick(1, 2, "max_queued"));
    w.settle();
    {
        let mut s = w.sock.get();
        s.read_choice = step == 0;
        s.read_blocks = blocks;
        if step > 0 {
            s.read_limit = nd::pick(1, step, "bytes per read");
        }
    }
    for f in &fs {
        w.sock.push(f);
    }
    w.settle();
    check!(4, !vp::done(w.task), "messages within the limit end the connection");
    let got = w.got.get();
    check!(1, got.len() == ms.len(), "messages are lost, repeated or stuck");
    let mut ok = true;
    for (a, b) in got.iter().zip(&ms) {
        ok &= K::same(a, b);
    }
    check!(1, ok, "a message arrives altered or out of order");
    nd::trace(got.len() as u64);
    nd::witness("everything delivered");
}

/// What is sent is the encodings, and the other end decodes them.
fn run_out<K: Kind>() {
    let ms = messages::<K>(1, 3, 0);
    let fs: Vec<Vec<u8>> = ms.iter().map(encoded::<K>).collect();
    let longest = fs.iter().map(|f| f.len()).max().unwrap_or(0);
    let w = world::<K::M, K::D, K::S>(longest, nd::pick(1, 2, "max_queued"));
    w.settle();
    let step = nd::pick(1, 5, "bytes per write");
    w.sock.get().out_room = 0;
    for m in &ms {
        check!(2, w.send.try_send(m.clone()).is_ok(), "there is no room although nothing was sent");
    }
    for _ in 0..64 {
        w.sock.get().out_room = step;
        w.settle();
    }
    let want: Vec<u8> = fs.concat();
    let out = w.sock.get().outgoing.clone();
    check!(2, crate::conn::same(&out, &want), "what is written is not the encoded messages in order");
    check!(4, !vp::done(w.task), "messages within the limit end the connection");
    nd::trace(out.len() as u64);
    nd::witness("everything written");
}

/// A frame longer than the limit is not left hanging.
fn run_limit<K: Kind>() {
    let m = K::make(nd::sym(8, "id"), vec![3; nd::pick(0, 8, "body length")]);
    let f = encoded::<K>(&m);
    let max = nd::pick(3, 16, "max_buffer_length");
    let w = world::<K::M, K::D, K::S>(max, 1);
    w.sock.get().read_limit = nd::pick(1, 4, "bytes per read");
    w.sock.push(&f);
    w.settle();
    let got = w.got.get().len();
    if f.len() <= max {
        check!(4, !vp::done(w.task) && got == 1, "a message within the limit is not delivered");
        nd::witness("fits");
    } else {
        check!(4, vp::done(w.task) || got == 1, "a message beyond the limit leaves the connection waiting");
        nd::witness("oversized");
    }
    nd::trace(got as u64);
}

/// Behind a good message, a peer sends what it likes, in whatever pieces.
fn run_hostile<K: Kind>(long: bool) {
    let m = K::make(300, vec![3]);
    let mut f = encoded::<K>(&m);
    let good = f.len();
    let mut b = if long { K::head() } else { Vec::new() };
    if !long {
        b.extend(bytes(nd::pick(1, 3, "bytes")));
    }
    f.extend_from_slice(&b);
    let max = [16, 20, usize::MAX][nd::pick(0, 2, "max_buffer_length")];
    let w = world::<K::M, K::D, K::S>(max, nd::pick(1, 2, "max_queued"));
    w.settle();
    w.sock.get().read_limit = [1, 3, good, 64][nd::pick(0, 3, "bytes per read")];
    w.sock.push(&f);
    w.settle();
    let got = w.got.get();
    let done = vp::done(w.task);
    check!([1, 7], !got.is_empty() && K::same(&got[0], &m), "a complete message in front of other bytes is lost");
    match K::framing(&b) {
        None => {}
        Some(Framing::More) => {
            check!([4, 6], !done && got.len() == 1, "an unfinished length ends the connection");
            nd::witness("unfinished length");
        }
        Some(Framing::Malformed) => {
            check!([6, 10, 11], done && got.len() == 1, "a length that no further byte can repair does not end the connection");
            nd::witness("malformed length");
        }
        Some(Framing::Frame { head, len }) => {
            if len <= (b.len() - head) as u64 {
                check!([6, 10, 11], done || got.len() >= 2, "a complete frame is neither delivered nor rejected");
                nd::witness("complete");
            } else if len > max as u64 {
                check!(4, done && got.len() == 1, "a message beyond the limit leaves the connection waiting");
                nd::witness("too long");
            } else if len.saturating_add(head as u64) <= max as u64 {
                check!([4, 6], !done && got.len() == 1, "an unfinished message within the limit ends the connection");
                nd::witness("unfinished");
            }
        }
    }
    nd::trace(got.len() as u64);
}

mod harness {
    use super::*;
    pub fn vp_wired_prost_in() {
        run_in::<Prost>(1, 2, 0, 0, 0)
    }
    pub fn vp_wired_mp_in() {
        run_in::<Pack>(1, 1, 0, 1, 0)
    }
    pub fn vp_wired_prost_long() {
        run_in::<Prost>(1, 3, 130, 0, 9)
    }
    pub fn vp_wired_mp_long() {
        run_in::<Pack>(1, 3, 130, 0, 9)
    }
    pub fn vp_wired_prost_out() {
        run_out::<Prost>()
    }
    pub fn vp_wired_mp_out() {
        run_out::<Pack>()
    }
    pub fn vp_wired_prost_limit() {
        run_limit::<Prost>()
    }
    pub fn vp_wired_mp_limit() {
        run_limit::<Pack>()
    }
    pub fn vp_wired_prost_hostile() {
        run_hostile::<Prost>(false)
    }
    pub fn vp_wired_mp_hostile() {
        run_hostile::<Pack>(false)
    }
    pub fn vp_wired_prost_hostile_head() {
        run_hostile::<Prost>(true)
    }
    pub fn vp_wired_mp_hostile_head() {
        run_hostile::<Pack>(true)
    }
}
entries!(vp_wired_prost_hostile, vp_wired_mp_hostile, vp_wired_prost_hostile_head, vp_wired_mp_hostile_head, vp_wired_prost_in, vp_wired_mp_in, vp_wired_prost_long, vp_wired_mp_long, vp_wired_prost_out, vp_wired_mp_out, vp_wired_prost_limit, vp_wired_mp_limit);
