//! Other threads get in while a task is being polled: applications that send, services that
//! produce, the kernel's events, and the other tasks of the connection on their own threads.
use crate::conn::{self, all_same, frame, offer, same, Codec};
use crate::rpc::*;
use crate::server::{self, ask, finish, produce, verify, Track, STREAM};
use nd::check;
use tokio::vp::{self, Shared};

/// A connection; at up to `n` of its operations something happens elsewhere.
fn run_conn(n: usize) {
    let queue = nd::pick(1, 2, "max_queued");
    let w = conn::world(6, queue, 3, Codec::plain());
    let room = nd::pick(0, 2, "kernel room");
    w.sock.get().out_room = if room == 2 { usize::MAX } else { room };
    let (first, second) = (nd::u8("body"), nd::u8("body"));
    let got: Shared<(Vec<Vec<u8>>, Vec<Vec<u8>>, bool)> = Shared::new((Vec::new(), Vec::new(), false));
    if nd::bool("something to read") {
        w.sock.push(&frame(&[first]));
        got.get().0.push(vec![first]);
    }
    if nd::bool("something to write") {
        offer(&w, &[second]);
        got.get().1.push(vec![second]);
    }
    let (sock, send) = (w.sock.clone(), Shared::new(w.send.clone()));
    let mut w = w;
    w.send = None;
    let acts: Vec<usize> = (0..n).map(|_| nd::pick(0, 3, "what happens meanwhile")).collect();
    let done = Shared::new(0);
    let act = {
        let (got, send, sock, acts, done) = (got.clone(), send.clone(), sock.clone(), acts.clone(), done.clone());
        move || {
            let i = *done.get();
            if i >= acts.len() {
                return;
            }
            *done.get() += 1;
            match acts[i] {
                0 => {
                    let b = 100 + i as u8;
                    let s = send.get().clone();
                    if s.is_some_and(|s| s.try_send(conn::Msg { body: vec![b] }).is_ok()) {
                        got.get().1.push(vec![b]);
                    }
                }
                1 => {
                    let b = 200 + i as u8;
                    sock.push(&frame(&[b]));
                    got.get().0.push(vec![b]);
                    sock.events();
                }
                2 => {
                    sock.get().out_room = usize::MAX;
                    sock.events();
                }
                _ => {
                    let s = send.get().take();
                    drop(s);
                    got.get().2 = true;
                }
            }
        }
    };
    vp::preempt_with(n, act.clone());
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    vp::no_preempt();
    if *done.get() > 0 {
        nd::witness("meanwhile");
    }
    while *done.get() < n {
        act();
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    w.sock.get().out_room = usize::MAX;
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let want = got.get();
    let closed = want.2;
    check!([6, 7], w.done() == closed, "the connection ends although nothing ended it, or does not end");
    let s = w.sock.get();
    let log = w.log.get();
    check!([2, 3], s.outgoing.len() >= conn::wire(&want.1).len(), "the socket is writable but messages are never written");
    check!([2, 7], same(&s.outgoing, &conn::wire(&want.1)), "the bytes on the wire are not the encoded messages in order");
    if !closed {
        check!([1, 3], log.got.len() >= want.0.len(), "bytes have arrived but the connection sleeps and does not deliver them");
        check!(1, all_same(&log.got, &want.0), "the delivered messages are not the sent messages");
    }
    nd::trace(s.outgoing.len() as u64);
    nd::witness("race");
}

/// A server connection; at up to `n` operations of its tasks something happens elsewhere.
fn run_server(n: usize) {
    let mut w = server::world(nd::pick(1, 2, "queue"), 32);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let tracks: Shared<Vec<Track>> = Shared::new(Vec::new());
    for i in 0..2u64 {
        let kind = nd::pick(0, 1, "kind") as u8;
        ask(&s, 2 + i, kind, 0);
        tracks.get().push(Track { id: 2 + i, kind, items: vec![], ended: false, cancelled: false });
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == 2, "a request does not start exactly one rpc");
    if w.svc.get().rpcs.len() != 2 {
        return;
    }
    let slots = [w.rpc(0), w.rpc(1)];
    let give = {
        let tracks = tracks.clone();
        let slots = slots.clone();
        move |i: usize, n: u8| {
            {
                let t = &mut tracks.get()[i];
                if t.ended || t.cancelled {
                    return;
                }
                t.items.push(n);
                t.ended = t.kind != STREAM;
            }
            produce(&slots[i], n);
        }
    };
    s.get().out_room = [0, 3, usize::MAX][nd::pick(0, 2, "kernel room")];
    if nd::bool("something to send") {
        give(0, 7);
    }
    let acts: Vec<usize> = (0..n).map(|_| nd::pick(0, 5, "what happens meanwhile")).collect();
    let steps = nd::pick(0, 1, "the other task runs meanwhile");
    let done = Shared::new(0);
    let act = {
        let (tracks, slots, s, acts, done, give) = (tracks.clone(), slots.clone(), s.clone(), acts.clone(), done.clone(), give.clone());
        move || {
            let i = *done.get();
            if i >= acts.len() {
                return;
            }
            *done.get() += 1;
            match acts[i] {
                0 => give(0, 10 + i as u8),
                1 => give(1, 20 + i as u8),
                2 => {
                    let go = {
                        let t = &mut tracks.get()[0];
                        let go = t.kind == STREAM && !t.ended && !t.cancelled;
                        t.ended |= go;
                        go
                    };
                    if go {
                        finish(&slots[0]);
                    }
                }
                3 => {
                    s.push(&enc(rm(2, CANCEL, 0)));
                    tracks.get()[0].cancelled = true;
                    s.events();
                }
                4 => {
                    s.get().out_room = usize::MAX;
                    s.events();
                }
                _ => {}
            }
            for _ in 0..steps {
                vp::step();
            }
        }
    };
    vp::preempt_with(n, act.clone());
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    vp::no_preempt();
    if *done.get() > 0 {
        nd::witness("meanwhile");
    }
    while *done.get() < n {
        act();
        check!(3, w.settle(), "a task keeps spinning with nothing to do");
    }
    s.get().out_room = usize::MAX;
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let wire = verify(&w, &s, &tracks.get());
    nd::trace(wire.len() as u64);
    nd::witness("race");
}

mod harness {
    use super::*;
    pub fn vp_race_conn() {
        run_conn(1)
    }
    pub fn vp_race_conn_deep() {
        run_conn(2)
    }
    pub fn vp_race_server() {
        run_server(1)
    }
    pub fn vp_race_server_deep() {
        run_server(2)
    }
}
entries!(vp_race_conn, vp_race_conn_deep, vp_race_server, vp_race_server_deep);
