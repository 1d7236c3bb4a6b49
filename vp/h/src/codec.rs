//! The prost and messagepack bindings: what they write, and what they make of arbitrary bytes.
use nd::check;
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_messagepack::{ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer};
use protosocket_prost::ProstSerializer;

use crate::conn::same;

#[derive(Clone, PartialEq, Eq, prost::Message)]
pub struct Pb {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(uint32, tag = "2")]
    pub code: u32,
    #[prost(bytes = "vec", tag = "3")]
    pub body: Vec<u8>,
}
/// A response type different from the request type.
#[derive(Clone, PartialEq, Eq, prost::Message)]
pub struct Pr {
    #[prost(uint32, tag = "5")]
    pub n: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Mp {
    pub id: u64,
    pub code: u8,
    pub body: Vec<u8>,
}

pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| nd::u8("byte")).collect()
}
fn pb(id_bits: u32, body: usize) -> Pb {
    let l = nd::pick(0, body, "body length");
    Pb {
        id: nd::sym(id_bits, "id"),
        code: nd::u32("code"),
        body: bytes(l),
    }
}
pub fn pb_same(a: &Pb, b: &Pb) -> bool {
    (a.id == b.id) & (a.code == b.code) & same(&a.body, &b.body)
}
fn mp(id_bits: u32, body: usize) -> Mp {
    let l = nd::pick(0, body, "body length");
    Mp {
        id: nd::sym(id_bits, "id"),
        code: nd::u8("code"),
        body: bytes(l),
    }
}
pub fn mp_same(a: &Mp, b: &Mp) -> bool {
    (a.id == b.id) & (a.code == b.code) & same(&a.body, &b.body)
}

type PbCodec = ProstSerializer<Pb, Pb>;

/// What the framing of a length-delimited protobuf stream says about `b`, independently of prost.
pub enum Framing {
    /// The length itself is not complete yet.
    More,
    Malformed,
    Frame { head: usize, len: u64 },
}
pub fn varint(b: &[u8]) -> Framing {
    let mut v: u64 = 0;
    for i in 0..b.len() {
        if i == 10 {
            return Framing::Malformed;
        }
        if i == 9 && b[i] > 1 {
            return Framing::Malformed;
        }
        v |= ((b[i] & 0x7f) as u64) << (7 * i);
        if b[i] < 0x80 {
            return Framing::Frame { head: i + 1, len: v };
        }
    }
    if b.len() >= 10 {
        return Framing::Malformed;
    }
    Framing::More
}

fn run_prost_round(id_bits: u32, body: usize) {
    let m = pb(id_bits, body);
    let mut c = PbCodec::default();
    let mut buf = Vec::new();
    c.encode(m.clone(), &mut buf);
    let n = buf.len();
    check!(8, n >= 1, "nothing was written for a message");
    // whatever follows on the wire must not matter
    let tail = nd::pick(0, 2, "bytes that follow");
    for _ in 0..tail {
        buf.push(nd::u8("next byte"));
    }
    match c.decode(&buf[..]) {
        Ok((used, got)) => {
            check!(8, used == n, "decoding consumes another length than encoding wrote");
            check!(8, pb_same(&got, &m), "the decoded message differs from the encoded one");
            nd::trace(used as u64);
            nd::witness("round trip");
        }
        Err(_) => check!(8, false, "an encoded message does not decode"),
    }
    // every proper prefix is incomplete, and asks for no more than the frame
    let cut = nd::pick(1, n, "prefix");
    if cut < n {
        match c.decode(&buf[..cut]) {
            Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                check!(8, next_message_size <= n.max(10), "an incomplete message asks for more than its frame");
                nd::witness("prefix incomplete");
            }
            _ => check!(8, false, "a proper prefix of a message is not reported as incomplete"),
        }
    }
}

/// Message lengths around which length prefixes change their size, in the frame and inside of it.
fn large() -> usize {
    let base = [120, 244, 16376, 65524, 2097138][nd::pick(0, 4, "size")];
    base + nd::pick(0, 15, "more")
}
fn filled(n: usize) -> Vec<u8> {
    let mut b = vec![0x55; n];
    b[n - 1] = nd::u8("last byte");
    b
}
fn run_prost_large(n: usize) {
    let m = Pb { id: 0, code: 0, body: filled(n) };
    let mut c = PbCodec::default();
    let mut buf = Vec::new();
    c.encode(m.clone(), &mut buf);
    let n = buf.len();
    for _ in 0..nd::pick(0, 1, "bytes that follow") {
        buf.push(nd::u8("next byte"));
    }
    match c.decode(&buf[..]) {
        Ok((used, got)) => {
            check!(8, used == n, "decoding consumes another length than encoding wrote");
            check!(8, got.body.len() == m.body.len() && got.body == m.body, "the decoded message differs from the encoded one");
            nd::trace(used as u64);
            nd::witness("round trip");
        }
        Err(_) => check!(8, false, "an encoded message does not decode"),
    }
    let cut = [1, 2, 3, 4, 5, n / 2, n - 1][nd::pick(0, 6, "prefix")];
    match c.decode(&buf[..cut]) {
        Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
            check!(8, next_message_size <= n, "an incomplete message asks for more than its frame");
            nd::witness("prefix incomplete");
        }
        _ => check!(8, false, "a proper prefix of a message is not reported as incomplete"),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blob(Vec<u8>);
impl serde::Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
fn run_mp_large(n: usize) {
    let m = Blob(filled(n));
    let mut s = ProtosocketMessagePackSerializer::<Blob>::default();
    let mut d = ProtosocketMessagePackDeserializer::<Blob>::default();
    let mut buf = Vec::new();
    s.encode(m.clone(), &mut buf);
    let n = buf.len();
    for _ in 0..nd::pick(0, 1, "bytes that follow") {
        buf.push(nd::u8("next byte"));
    }
    let cut = [0, 1, 4, 5, 6, n / 2, n - 1][nd::pick(0, 6, "prefix")];
    if cut > 0 {
        match d.decode(&buf[..cut]) {
            Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                check!(9, next_message_size <= n, "an incomplete message asks for more than its frame");
                nd::witness("prefix incomplete");
            }
            _ => check!(9, false, "a proper prefix of a message is not reported as incomplete"),
        }
    }
    match d.decode(&buf[..]) {
        Ok((used, got)) => {
            check!(9, used == n, "decoding consumes another length than encoding wrote");
            check!(9, got.0.len() == m.0.len() && got.0 == m.0, "the decoded message differs from the encoded one");
            nd::trace(used as u64);
            nd::witness("round trip");
        }
        Err(_) => check!(9, false, "an encoded message does not decode"),
    }
}

fn run_prost_hostile(n: usize) {
    let n = nd::pick(1, n, "bytes");
    let b = bytes(n);
    let mut c = PbCodec::default();
    let r = c.decode(&b[..]);
    match varint(&b) {
        Framing::More => {
            check!(10, matches!(r, Err(DeserializeError::IncompleteBuffer { next_message_size }) if next_message_size <= 10), "an unfinished length is not reported as incomplete");
            nd::witness("unfinished length");
        }
        Framing::Malformed => {
            check!(10, matches!(r, Err(DeserializeError::InvalidBuffer)), "a length that no further byte can repair is not rejected");
            nd::witness("malformed length");
        }
        Framing::Frame { head, len } => {
            if len > (n - head) as u64 {
                match r {
                    Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                        check!(10, (next_message_size as u64) >= len, "an incomplete message hides how long it is, so it escapes the size limit");
                        check!(10, (next_message_size as u64) <= len.saturating_add(head as u64), "an incomplete message asks for more than its frame");
                        nd::witness("incomplete");
                    }
                    _ => check!(10, false, "an incomplete frame is not reported as incomplete"),
                }
            } else {
                match r {
                    Ok((used, _)) => {
                        check!(10, used as u64 == head as u64 + len, "decoding does not consume exactly the frame");
                        nd::witness("decoded");
                    }
                    Err(DeserializeError::InvalidBuffer) => nd::witness("invalid body"),
                    Err(DeserializeError::IncompleteBuffer { .. }) => check!(10, false, "a complete frame is reported as incomplete"),
                    Err(DeserializeError::SkipMessage { distance }) => check!(10, distance as u64 == head as u64 + len, "a skip that is not the frame"),
                }
            }
        }
    }
    nd::trace(n as u64);
}

type MpDe = ProtosocketMessagePackDeserializer<Mp>;

fn run_mp_round(id_bits: u32, body: usize) {
    let m = mp(id_bits, body);
    let mut s = ProtosocketMessagePackSerializer::<Mp>::default();
    let mut d = MpDe::default();
    let mut buf = Vec::new();
    s.encode(m.clone(), &mut buf);
    let n = buf.len();
    check!(9, n > 5, "no frame was written for a message");
    let tail = nd::pick(0, 2, "bytes that follow");
    for _ in 0..tail {
        buf.push(nd::u8("next byte"));
    }
    // the receiver may have looked at a part of it before
    let cut = nd::pick(0, n, "prefix");
    if cut > 0 && cut < n {
        match d.decode(&buf[..cut]) {
            Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                check!(9, next_message_size <= n, "an incomplete message asks for more than its frame");
                nd::witness("prefix incomplete");
            }
            _ => check!(9, false, "a proper prefix of a message is not reported as incomplete"),
        }
    }
    match d.decode(&buf[..]) {
        Ok((used, got)) => {
            check!(9, used == n, "decoding consumes another length than encoding wrote");
            check!(9, mp_same(&got, &m), "the decoded message differs from the encoded one");
            nd::trace(used as u64);
            nd::witness("round trip");
        }
        Err(_) => check!(9, false, "an encoded message does not decode"),
    }
    // and the deserializer is ready for the next one
    match d.decode(&buf[..n]) {
        Ok((used, got)) => check!(9, used == n && mp_same(&got, &m), "the message after a decoded message is mangled"),
        Err(_) => check!(9, false, "the message after a decoded message does not decode"),
    }
}

fn run_mp_hostile(lo: usize, hi: usize, complete: bool) {
    let n = nd::pick(lo, hi, "bytes");
    let mut b = bytes(n);
    if complete {
        // frames that are there in full: one path per length, to spend the budget on the body
        let len = nd::pick(0, n - 5, "declared length");
        b[..5].copy_from_slice(&[0xce, 0, 0, 0, len as u8]);
    }
    let mut d = MpDe::default();
    // the receiver may have looked at a part of it before
    let cut = nd::pick(0, n, "prefix");
    let mut dead = false;
    if cut > 0 && cut < n {
        match d.decode(&b[..cut]) {
            Err(DeserializeError::IncompleteBuffer { .. }) => {}
            Err(DeserializeError::InvalidBuffer) => dead = true,
            _ => {
                nd::witness("prefix complete");
                return;
            }
        }
    }
    if n < 5 {
        let r = d.decode(&b[..]);
        match r {
            Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                check!(11, !dead && next_message_size <= 5, "an unfinished length asks for more than a length");
                nd::witness("unfinished length");
            }
            Err(DeserializeError::InvalidBuffer) => check!(11, b[0] != 0xce, "an unfinished length is rejected"),
            _ => check!(11, false, "a message out of nothing"),
        }
        return;
    }
    if dead {
        check!(11, b[0] != 0xce || cut >= 5, "an unfinished message is rejected");
        nd::witness("rejected early");
        return;
    }
    let r = d.decode(&b[..]);
    if b[0] != 0xce {
        check!(11, matches!(r, Err(DeserializeError::InvalidBuffer)), "a length without its marker is not rejected");
        nd::witness("malformed length");
        return;
    }
    let len = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as u64;
    if len > (n - 5) as u64 {
        match r {
            Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                check!(11, next_message_size as u64 >= len, "an incomplete message hides how long it is, so it escapes the size limit");
                check!(11, next_message_size as u64 <= len + 5, "an incomplete message asks for more than its frame");
                nd::witness("incomplete");
            }
            _ => check!(11, false, "an incomplete frame is not reported as incomplete"),
        }
    } else {
        match r {
            Ok((used, _)) => {
                check!(11, used as u64 == 5 + len, "decoding does not consume exactly the frame");
                nd::witness("decoded");
            }
            Err(DeserializeError::InvalidBuffer) => nd::witness("invalid body"),
            Err(DeserializeError::IncompleteBuffer { .. }) => check!(11, false, "a complete frame is reported as incomplete"),
            Err(DeserializeError::SkipMessage { distance }) => check!(11, distance as u64 == 5 + len, "a skip that is not the frame"),
        }
    }
}

mod harness {
    use super::*;
    pub fn vp_prost_round() {
        run_prost_round(64, 2)
    }
    pub fn vp_prost_large() {
        run_prost_large(large())
    }
    pub fn vp_mp_large() {
        run_mp_large(large())
    }
    pub fn vp_prost_hostile() {
        run_prost_hostile(6)
    }
    pub fn vp_prost_hostile_head() {
        // long lengths: only the prefix matters
        let b = bytes(11);
        let k = nd::pick(7, 10, "continuation bytes");
        for x in &b[..k] {
            nd::assume(*x >= 0x80);
        }
        let n = nd::pick(k, 11, "bytes");
        let b = &b[..n];
        let mut c = PbCodec::default();
        let r = c.decode(b);
        match varint(b) {
            Framing::More => check!(10, matches!(r, Err(DeserializeError::IncompleteBuffer { next_message_size }) if next_message_size <= 10), "an unfinished length is not reported as incomplete"),
            Framing::Malformed => {
                check!(10, matches!(r, Err(DeserializeError::InvalidBuffer)), "a length that no further byte can repair is not rejected");
                nd::witness("malformed length");
            }
            Framing::Frame { head, len } => {
                if len > (n - head) as u64 {
                    match r {
                        Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                            check!(10, (next_message_size as u64) >= len, "an incomplete message hides how long it is, so it escapes the size limit");
                            nd::witness("incomplete");
                        }
                        _ => check!(10, false, "an incomplete frame is not reported as incomplete"),
                    }
                } else {
                    check!(10, !matches!(r, Err(DeserializeError::IncompleteBuffer { .. })), "a complete frame is reported as incomplete");
                }
            }
        }
    }
    pub fn vp_mp_round() {
        run_mp_round(64, 2)
    }
    pub fn vp_mp_hostile() {
        run_mp_hostile(1, 6, false)
    }
    pub fn vp_mp_hostile_body() {
        run_mp_hostile(5, 10, true)
    }
    /// Control codes: total, and `as_u8` inverts `from_u8` on the defined codes.
    pub fn vp_control_code() {
        use protosocket_rpc::ProtosocketControlCode as C;
        let v = nd::u8("code");
        let c = C::from_u8(v);
        let kind = match c {
            C::Normal => 0u8,
            C::Cancel => 1,
            C::End => 2,
        };
        check!(12, c.as_u8() == kind, "a control code is written as another one");
        check!(12, if v <= 2 { kind == v } else { kind == 1 }, "a control code byte is read as another one");
        check!(12, C::from_u8(c.as_u8()).as_u8() == c.as_u8(), "a control code does not survive the round trip");
        check!(12, (v == 0) == (kind == 0), "a byte that is not the normal code starts an rpc, or the normal code does not");
        nd::trace(kind as u64);
        nd::witness("code");
    }
}

entries!(
    vp_prost_round,
    vp_prost_large,
    vp_mp_large,
    vp_prost_hostile,
    vp_prost_hostile_head,
    vp_mp_round,
    vp_mp_hostile,
    vp_mp_hostile_body,
    vp_control_code,
);
