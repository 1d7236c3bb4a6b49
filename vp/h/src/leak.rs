//! A connection lives long: what is over leaves nothing behind. Each harness plays the same (symbolic)
//! kind of round again and again and compares the memory held after `WARM` rounds with the memory held
//! after `WARM + MORE`. Tables and queues may keep the capacity that they have needed; three times as
//! many rounds as it takes to warm up must not make them keep more. `slack` is for recycled buffers that end
//! up with a little more capacity than before; a round that leaves 4 bytes behind exceeds it.
use crate::client::{self, Rpc};
use crate::conn::{self, frame, Codec, Hint, Msg, SKIP};
use crate::rpc::*;
use crate::server::{self, finish, produce, ECHO, STREAM, UNARY, UNKNOWN};
use nd::check;
use tokio::net::{End, SockRef};
use tokio::vp::{self, Probe};

const WARM: usize = 16;
const MORE: usize = 32;

/// Plays the rounds; what is held afterwards beyond what was held after the warm-up.
fn rounds(slack: u64, mut round: impl FnMut(usize)) -> bool {
    for i in 0..WARM {
        round(i);
    }
    let held = nd::heap();
    for i in WARM..WARM + MORE {
        round(i);
    }
    let now = nd::heap();
    nd::trace((now > held + slack) as u64);
    nd::witness("rounds");
    now <= held + slack
}
fn start(w: &client::Cw, id: u64, stream: bool) -> Rpc {
    match Rpc::start(&w.client, id, stream, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(13, false, "a live connection refuses a request");
            unreachable!()
        }
    }
}

fn run_client() {
    let w = client::world(4);
    // an rpc that lives on
    let beside = nd::pick(0, 2, "an rpc that lives on");
    let keep = if beside > 0 { Some(start(&w, 200, beside == 2)) } else { None };
    let kinds = [nd::pick(0, 11, "what every other round is"), nd::pick(0, 11, "what the rounds between are")];
    let stream = nd::pick(0, 1, "streaming") == 1;
    let small = rounds(96, |i| {
        let kind = kinds[i % 2];
        let id = 1 + i as u64;
        let n = nd::u8("payload");
        let settle = || check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        match kind {
            // answered (and ended), seen, dropped
            0 => {
                let mut r = start(&w, id, stream);
                settle();
                w.push(rm(id, NORMAL, n));
                if stream {
                    w.push(rm(id, END, 0));
                }
                settle();
                r.turn();
                check!(13, r.seen.len() == if stream { 3 } else { 1 }, "an rpc does not see its end");
            }
            // answered and ended, dropped without a look
            1 => {
                let r = start(&w, id, stream);
                settle();
                w.push(rm(id, NORMAL, n));
                w.push(rm(id, END, 0));
                settle();
                drop(r);
            }
            // dropped before the answer, which comes anyway
            2 => {
                let mut r = start(&w, id, stream);
                settle();
                r.turn();
                drop(r);
                w.push(rm(id, NORMAL, n));
                w.push(rm(id, END, 0));
            }
            // dropped, and no answer
            3 => {
                let mut r = start(&w, id, stream);
                settle();
                r.turn();
                drop(r);
            }
            // dropped before anything was sent
            4 => drop(start(&w, id, stream)),
            // dropped in the middle
            5 => {
                let mut r = start(&w, id, stream);
                settle();
                w.push(rm(id, NORMAL, n));
                settle();
                r.turn();
                w.push(rm(id, NORMAL, n));
                settle();
            }
            // cancelled by the peer
            6 => {
                let mut r = start(&w, id, stream);
                settle();
                w.push(rm(id, CANCEL, 0));
                settle();
                r.turn();
                check!(13, !r.seen.is_empty(), "an rpc does not see its end");
            }
            // messages that belong to no rpc
            7 => {
                w.push(rm(id, NORMAL, n));
                w.push(rm(id, END, 0));
                w.push(rm(id, CANCEL, 0));
            }
            // the answer and the drop meet: the response is on the way, not processed yet
            8 => {
                let mut r = start(&w, id, stream);
                settle();
                r.turn();
                w.push(rm(id, NORMAL, n));
                w.push(rm(id, END, 0));
                drop(r);
            }
            // a caller gives up while it waits for room
            9 => {
                w.sock.get().out_room = 0;
                let mut rs = Vec::new();
                for k in 0..24u64 {
                    let p = Probe::new();
                    let mut f = Box::pin(w.client.send_unary(rm(id, NORMAL, k as u8)));
                    match p.poll(f.as_mut()) {
                        std::task::Poll::Ready(Ok(c)) => rs.push(c),
                        std::task::Poll::Ready(Err(_)) => check!(13, false, "a live connection refuses a request"),
                        std::task::Poll::Pending => {
                            drop(f);
                            break;
                        }
                    }
                    settle();
                }
                drop(rs);
                w.sock.get().out_room = usize::MAX;
            }
            // the same id again and again
            10 => {
                let mut r = start(&w, 1, stream);
                settle();
                w.push(rm(1, NORMAL, n));
                w.push(rm(1, END, 0));
                settle();
                r.turn();
            }
            // a handle is cloned, used and dropped
            _ => {
                let c = w.client.clone();
                let mut r = match Rpc::start(&c, id, stream, 0) {
                    Ok(r) => r,
                    Err(_) => return,
                };
                drop(c);
                settle();
                w.push(rm(id, NORMAL, n));
                w.push(rm(id, END, 0));
                settle();
                r.turn();
            }
        }
        settle();
        w.sock.get().outgoing.clear();
    });
    check!(25, small, "rpcs that are over leave memory behind in the client");
    check!(6, !vp::done(w.task), "the connection ended although nothing ended it");
    drop(keep);
}

/// A client whose connection is gone, and an application that keeps trying.
fn run_dead() {
    let w = client::world(4);
    let stream = nd::pick(0, 1, "streaming") == 1;
    let held: Vec<Rpc> = (0..nd::pick(0, 2, "rpcs outstanding")).map(|i| start(&w, 200 + i as u64, stream)).collect();
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    if nd::bool("the connection is dropped") {
        vp::kill(w.task);
    } else {
        w.sock.get().in_end = End::Eof;
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let small = rounds(96, |i| {
        let r = Rpc::start(&w.client, 1 + i as u64, stream, 0);
        check!(16, r.is_err(), "a client whose connection is gone accepts an rpc");
    });
    check!(25, small, "refused rpcs leave memory behind in the client");
    drop(held);
}

fn run_server() {
    let mut w = server::world(8, 16);
    let s = w.accept();
    check!(3, w.settle(), "the server keeps spinning with nothing to do");
    let beside = nd::pick(0, 2, "an rpc that lives on");
    if beside > 0 {
        s.push(&enc(rm(200, NORMAL, if beside == 1 { UNARY } else { STREAM })));
        check!(3, w.settle(), "the server keeps spinning with nothing to do");
        w.svc.get().rpcs.clear();
    }
    let whats = [nd::pick(0, 7, "what every other round is"), nd::pick(0, 7, "what the rounds between are")];
    let kind = [UNARY, STREAM][nd::pick(0, 1, "streaming")];
    let small = rounds(96, |i| {
        let what = whats[i % 2];
        let id = 1 + i as u64;
        let n = nd::u8("payload");
        let settle = || check!(3, w.settle(), "the server keeps spinning with nothing to do");
        let ask = |id, k| s.push(&enc(rm(id, NORMAL, (n & 0xfc) | k)));
        let slot = || w.svc.get().rpcs.last().cloned();
        match what {
            // served to its end
            0 => {
                ask(id, kind);
                settle();
                if let Some(x) = slot() {
                    produce(&x, n);
                    if kind == STREAM {
                        produce(&x, n);
                        finish(&x);
                    }
                }
                settle();
            }
            // cancelled before the first result
            1 => {
                ask(id, kind);
                settle();
                s.push(&enc(rm(id, CANCEL, 0)));
                settle();
            }
            // cancelled in the same batch
            2 => {
                ask(id, kind);
                s.push(&enc(rm(id, CANCEL, 0)));
                settle();
            }
            // cancelled after a result, or after the end, twice
            3 => {
                ask(id, kind);
                settle();
                if let Some(x) = slot() {
                    produce(&x, n);
                }
                settle();
                s.push(&enc(rm(id, CANCEL, 0)));
                s.push(&enc(rm(id, CANCEL, 0)));
                settle();
            }
            // the result and the cancellation meet
            4 => {
                ask(id, kind);
                settle();
                if let Some(x) = slot() {
                    produce(&x, n);
                    if kind == STREAM {
                        finish(&x);
                    }
                }
                s.push(&enc(rm(id, CANCEL, 0)));
                settle();
            }
            // a request that the service does not know, one that is answered at once
            5 => {
                ask(id, if kind == UNARY { UNKNOWN } else { ECHO });
                settle();
            }
            // messages that belong to no rpc
            6 => {
                s.push(&enc(rm(id, END, 0)));
                s.push(&enc(rm(id, CANCEL, 0)));
                s.push(&enc(rm(id, 7, 0)));
                settle();
            }
            // the same id again and again
            _ => {
                ask(1, kind);
                settle();
                if let Some(x) = slot() {
                    produce(&x, n);
                    finish(&x);
                }
                settle();
            }
        }
        let mut v = w.svc.get();
        check!(25, v.rpcs.iter().all(|r| r.get().dropped), "an rpc that is over is kept by the server");
        v.rpcs.clear();
        v.calls.clear();
        s.get().outgoing.clear();
    });
    check!(25, small, "rpcs that are over leave memory behind in the server");
    check!(6, vp::live_tasks() > 1, "the connection ended although nothing ended it");
}

/// Messages in both directions.
fn run_connection() {
    let mut codec = Codec::plain();
    codec.skip = true;
    codec.hint = if nd::pick(0, 1, "hint") == 0 { Hint::Frame } else { Hint::Body };
    let max = nd::pick(5, 9, "max_buffer_length");
    let q = nd::pick(1, 3, "max_queued");
    let w = conn::world(max, q, 2, codec);
    let kind = nd::pick(0, 3, "what every round is");
    let small = rounds(32 * q as u64, |i| {
        let settle = || check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        let n = i % 4;
        let body: Vec<u8> = (0..n).map(|_| nd::u8("body byte")).collect();
        if kind != 1 {
            let mut f = frame(&body);
            if kind == 3 {
                f[0] |= SKIP;
            }
            // in two pieces
            let k = f.len() / 2;
            w.sock.push(&f[..k]);
            settle();
            w.sock.push(&f[k..]);
            settle();
        }
        if kind != 0 {
            if i % 3 == 0 {
                w.sock.get().out_room = 1;
            }
            for _ in 0..2 {
                if let Some(s) = &w.send {
                    let sent = s.try_send(Msg { body: body.clone() }).is_ok();
                    check!(2, sent, "there is no room although everything was written");
                }
            }
            settle();
            w.sock.get().out_room = usize::MAX;
            settle();
        }
        check!(2, w.sock.get().outgoing.len() == if kind != 0 { 2 * (n + 1) } else { 0 }, "messages are not written");
        check!(1, w.log.get().got.len() == (kind == 0 || kind == 2) as usize, "a message is not delivered");
        w.sock.get().outgoing.clear();
        w.log.get().got.clear();
    });
    check!(25, small, "messages that were delivered or written leave memory behind in the connection");
    check!(6, !w.done(), "the connection ended although nothing ended it");
}

/// Connections come and go.
fn run_accepted() {
    vp::room_for_tasks(2 * (WARM + MORE) + 8);
    let w = server::world(8, 16);
    let l = tokio::net::listener();
    let end = [End::Eof, End::Err(std::io::ErrorKind::ConnectionReset)][nd::pick(0, 1, "how it ends")];
    let rpcs = nd::pick(0, 2, "rpcs");
    let kind = [UNARY, STREAM][nd::pick(0, 1, "streaming")];
    let reads = nd::bool("the peer reads");
    let small = rounds(96, |_| {
        let s: SockRef = tokio::net::socket();
        if !reads {
            s.get().out_room = 0;
        }
        tokio::net::arrive(&l, Ok(s.clone()));
        let settle = || check!(3, crate::rpc::settle(&[&s]), "the server keeps spinning with nothing to do");
        settle();
        for k in 0..rpcs {
            s.push(&enc(rm(k as u64, NORMAL, if k == 0 { kind } else { ECHO })));
        }
        settle();
        if let (true, Some(x)) = (rpcs > 0, w.svc.get().rpcs.first()) {
            produce(x, 5);
        }
        settle();
        s.get().in_end = end;
        settle();
        check!(21, s.get().closed, "a connection whose peer is gone stays");
        let mut v = w.svc.get();
        check!(25, v.rpcs.iter().all(|r| r.get().dropped), "an rpc of a connection that is over is kept by the server");
        v.rpcs.clear();
        v.calls.clear();
        v.connections.clear();
        v.gone.clear();
    });
    check!(25, small, "connections that are over leave memory behind in the server");
    check!(23, !*w.ended.get(), "the server stops");
}

mod harness {
    use super::*;
    pub fn vp_leak_client() {
        run_client()
    }
    pub fn vp_leak_dead() {
        run_dead()
    }
    pub fn vp_leak_server() {
        run_server()
    }
    pub fn vp_leak_connection() {
        run_connection()
    }
    pub fn vp_leak_accepted() {
        run_accepted()
    }
}
entries!(vp_leak_client, vp_leak_dead, vp_leak_server, vp_leak_connection, vp_leak_accepted);
