//! What the rpc harnesses share: a message type, a codec, a way to let everything happen.
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::{Message, ProtosocketControlCode};
use tokio::net::SockRef;
use tokio::vp;

pub const NORMAL: u8 = 0;
pub const CANCEL: u8 = 1;
pub const END: u8 = 2;

/// Three bytes on the wire.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rm {
    pub id: u64,
    pub code: u8,
    pub n: u8,
}
pub fn rm(id: u64, code: u8, n: u8) -> Rm {
    Rm { id, code, n }
}
/// More than 256 rpcs: the code byte has the upper bits of the id.
static MANY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn many() {
    MANY.store(true, std::sync::atomic::Ordering::Relaxed)
}
fn is_many() -> bool {
    MANY.load(std::sync::atomic::Ordering::Relaxed)
}
/// Harnesses number their rpcs; the code under test sees these as ids: all 64 bits matter, and no id is special.
fn wide(n: u64) -> u64 {
    match n {
        0 => 1 << 63,
        1 => u64::MAX,
        2 => u32::MAX as u64,
        3 => 1 << 40 | u32::MAX as u64,
        4 => 0,
        n => n,
    }
}
fn narrow(id: u64) -> u64 {
    const LAST: u64 = u32::MAX as u64;
    const HIGH: u64 = 1 << 40 | LAST;
    const TOP: u64 = 1 << 63;
    match id {
        TOP => 0,
        u64::MAX => 1,
        LAST => 2,
        HIGH => 3,
        0 => 4,
        id if (5..if is_many() { 0x3eff } else { 0xff }).contains(&id) => id,
        _ => 0x3eff,
    }
}
impl Message for Rm {
    fn message_id(&self) -> u64 {
        wide(self.id)
    }
    fn control_code(&self) -> ProtosocketControlCode {
        ProtosocketControlCode::from_u8(self.code)
    }
    fn set_message_id(&mut self, id: u64) {
        self.id = narrow(id)
    }
    fn cancelled(id: u64) -> Self {
        rm(narrow(id), ProtosocketControlCode::Cancel.as_u8(), 0)
    }
    fn ended(id: u64) -> Self {
        rm(narrow(id), ProtosocketControlCode::End.as_u8(), 0)
    }
}
#[derive(Default)]
pub struct RmCodec;
impl Deserializer for RmCodec {
    type Message = Rm;
    fn decode(&mut self, mut b: impl bytes::Buf) -> Result<(usize, Rm), DeserializeError> {
        if b.remaining() < 3 {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: 3 });
        }
        let (id, code, n) = (b.get_u8(), b.get_u8(), b.get_u8());
        if code == 0xff {
            return Err(DeserializeError::InvalidBuffer);
        }
        Ok((3, wired(id, code, n)))
    }
}
impl Serializer for RmCodec {
    type Message = Rm;
    fn encode(&mut self, m: Rm, b: &mut Vec<u8>) {
        b.extend_from_slice(&enc(m));
    }
}
pub fn enc(m: Rm) -> [u8; 3] {
    if is_many() {
        return [m.id as u8, m.code | ((m.id >> 8) as u8) << 2, m.n];
    }
    [m.id as u8, m.code, m.n]
}
fn wired(id: u8, code: u8, n: u8) -> Rm {
    if is_many() {
        return rm(id as u64 | ((code >> 2) as u64) << 8, code & 3, n);
    }
    rm(id as u64, code, n)
}
/// The complete messages in what was written.
pub fn dec(b: &[u8]) -> Vec<Rm> {
    b.chunks_exact(3).map(|c| wired(c[0], c[1], c[2])).collect()
}
/// Written by the code so far.
pub fn sent(s: &SockRef) -> Vec<Rm> {
    dec(&s.get().outgoing)
}
/// Let everything happen that can. False: still busy.
pub fn settle(socks: &[&SockRef]) -> bool {
    settle_n(socks, 400)
}
pub fn settle_n(socks: &[&SockRef], n: usize) -> bool {
    for _ in 0..n {
        if !vp::run(n) {
            return false;
        }
        let mut any = false;
        for s in socks {
            any |= s.events();
        }
        if !any {
            return true;
        }
    }
    false
}
