//! Sustained load in one place does not keep the rest waiting.
use crate::client::{self, Rpc, Seen};
use crate::conn::{self, Codec, Msg};
use crate::rpc::*;
use crate::server::{self, finish, produce, ECHO, STREAM, UNARY};
use nd::check;
use tokio::vp;

/// The peer never stops sending: messages the application sends still get out.
fn run_in() {
    let max = [4, 5, 8, 2000][nd::pick(0, 3, "max_buffer_length")];
    let q = nd::pick(1, 3, "max_queued");
    let w = conn::world(max, q, 4, Codec::plain());
    w.sock.get().read_limit = nd::pick(1, 8, "bytes per read");
    let flood: Vec<u8> = (0..400).flat_map(|i| [1u8, i as u8]).collect();
    w.sock.push(&flood);
    let when = nd::pick(0, 6, "polls before the application sends");
    for _ in 0..when {
        w.sock.events();
        vp::step();
    }
    let x = nd::u8("body byte");
    for i in 0..3 {
        if let Some(s) = &w.send {
            check!(2, s.try_send(Msg { body: vec![x ^ i] }).is_ok(), "there is no room although nothing was sent");
        }
    }
    let before = w.log.get().got.len();
    for _ in 0..4000 {
        if w.sock.get().outgoing.len() >= 6 {
            break;
        }
        w.sock.events();
        if !vp::step() && !w.sock.events() {
            break;
        }
    }
    let after = w.log.get().got.len();
    check!(27, crate::conn::same(&w.sock.get().outgoing, &[1, x, 1, x ^ 1, 1, x ^ 2]), "messages are not sent while the peer keeps sending");
    check!(27, after - before <= 100, "messages wait for a peer to stop sending");
    nd::trace((after - before <= 100) as u64);
    nd::witness("sent meanwhile");
}

/// The application never stops sending: messages of the peer still arrive.
fn run_out() {
    let max = nd::pick(4, 8, "max_buffer_length");
    let q = nd::pick(1, 3, "max_queued");
    let w = conn::world(max, q, nd::pick(1, 3, "channel"), Codec::plain());
    let when = nd::pick(0, 6, "polls before the peer sends");
    let x = nd::u8("body byte");
    let mut before = 0;
    let mut sent = 0;
    for i in 0..4000 {
        if let Some(s) = &w.send {
            while sent < 400 && s.try_send(Msg { body: vec![7] }).is_ok() {
                sent += 1;
            }
        }
        if i == when {
            w.sock.push(&[1, x, 1, x ^ 1, 1, x ^ 2]);
            before = w.sock.get().outgoing.len() / 2;
        }
        if w.log.get().got.len() >= 3 {
            break;
        }
        w.sock.events();
        if !vp::step() && !w.sock.events() && i > when {
            break;
        }
    }
    let after = w.sock.get().outgoing.len() / 2;
    let got = w.log.get().got.concat();
    check!(27, crate::conn::same(&got, &[x, x ^ 1, x ^ 2]), "messages do not arrive while the application keeps sending");
    check!(27, after - before <= 100, "messages wait for the application to stop sending");
    nd::trace((after - before <= 100) as u64);
    nd::witness("received meanwhile");
}

/// A stream that always has another item: other rpcs are answered, other streams flow, and it can be cancelled.
fn run_server() {
    let mut w = server::world(nd::pick(1, 3, "queue"), 16);
    let s = w.accept();
    let step = [3, 7, usize::MAX][nd::pick(0, 2, "how the peer reads")];
    let turn = || {
        if step != usize::MAX {
            s.get().out_room = step;
        }
        s.events();
        vp::step() || s.events()
    };
    s.push(&enc(rm(1, NORMAL, STREAM)));
    for _ in 0..200 {
        if !turn() {
            break;
        }
    }
    let endless = w.rpc(0);
    for i in 0..300 {
        produce(&endless, i as u8);
    }
    for _ in 0..nd::pick(0, 12, "polls before the others arrive") {
        turn();
    }
    s.push(&enc(rm(2, NORMAL, STREAM)));
    s.push(&enc(rm(3, NORMAL, ECHO)));
    let before = sent(&s).len();
    let of = |id: u64| sent(&s).iter().filter(|m| m.id == id).count();
    let mut fed = false;
    for _ in 0..6000 {
        if !fed && w.svc.get().rpcs.len() == 3 {
            let x = w.rpc(1);
            produce(&x, 50);
            produce(&x, 51);
            finish(&x);
            fed = true;
        }
        if of(2) == 3 && of(3) == 1 {
            break;
        }
        if !turn() {
            break;
        }
    }
    check!(27, of(3) == 1 && of(2) == 3, "an rpc is not served beside a stream that always has another item");
    check!(27, sent(&s).len() - before <= 80, "an rpc waits for another one to run out of items");
    // and it can be stopped
    let before = of(1);
    s.push(&enc(rm(1, CANCEL, 0)));
    for _ in 0..6000 {
        if !turn() {
            break;
        }
    }
    check!(27, of(1) - before <= 80 && endless.get().dropped, "a stream that always has another item cannot be cancelled");
    nd::trace(before as u64 & 1);
    nd::witness("served meanwhile");
}

/// Requests that are answered at once never stop arriving: streams flow all the same.
fn run_requests() {
    let mut w = server::world(nd::pick(1, 3, "queue"), 16);
    let s = w.accept();
    let step = [3, 6, 12][nd::pick(0, 2, "how the peer reads")];
    s.push(&enc(rm(1, NORMAL, STREAM)));
    s.push(&enc(rm(3, NORMAL, UNARY)));
    check!(3, w.settle(), "the server keeps spinning with nothing to do");
    let x = w.rpc(0);
    let idle = w.rpc(1);
    let wakes = nd::pick(0, 3, "every how many turns an idle rpc wakes");
    let mut turns = 0;
    let mut turn = || {
        turns += 1;
        if wakes > 0 && turns % wakes == 0 {
            if let Some(w) = &idle.get().waker {
                w.wake_by_ref();
            }
        } else {
            s.get().out_room = step;
        }
        s.events();
        vp::step() || s.events() || wakes > 1
    };
    let late = nd::bool("the flood comes first");
    let items = |x| {
        produce(x, 50);
        produce(x, 51);
        finish(x);
    };
    if !late {
        items(&x);
    }
    for _ in 0..400u32 {
        s.push(&enc(rm(2, NORMAL, ECHO)));
    }
    if late {
        for _ in 0..nd::pick(0, 12, "polls before the items are there") {
            turn();
        }
        items(&x);
    }
    let before = sent(&s).len();
    let of = |id: u64| sent(&s).iter().filter(|m| m.id == id).count();
    for _ in 0..6000 {
        if of(1) == 3 || !turn() {
            break;
        }
    }
    check!(27, of(1) == 3, "a stream is not served while requests keep arriving");
    check!(27, sent(&s).len() - before <= 100, "a stream waits for requests to stop arriving");
    nd::witness("served meanwhile");
}

/// Items of one stream never stop arriving: other rpcs are sent and completed.
fn run_client() {
    let w = client::world(nd::pick(2, 4, "queue"));
    w.sock.get().read_limit = nd::pick(1, 16, "bytes per read");
    let mut a = match Rpc::start(&w.client, 1, true, 0) {
        Ok(r) => r,
        Err(_) => return,
    };
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let reader = nd::bool("the stream is read");
    for i in 0..400u32 {
        w.push(rm(1, NORMAL, i as u8));
    }
    let turn = |a: &mut Rpc| {
        w.sock.events();
        let any = vp::step() || w.sock.events();
        if reader {
            a.turn();
        }
        any
    };
    for _ in 0..nd::pick(0, 6, "polls before the other rpc") {
        turn(&mut a);
    }
    let start = w.sock.get().incoming.len();
    let mut b = match Rpc::start(&w.client, 2, false, 5) {
        Ok(r) => r,
        Err(_) => {
            check!(13, false, "a live connection refuses a request");
            return;
        }
    };
    for _ in 0..4000 {
        if sent(&w.sock).len() == 2 {
            break;
        }
        if !turn(&mut a) {
            break;
        }
    }
    check!(27, sent(&w.sock).len() == 2, "a request is not sent while responses keep arriving");
    check!(27, start - w.sock.get().incoming.len() <= 300, "a request waits for responses to stop arriving");
    // its answer is the next thing to arrive
    let n = nd::u8("response");
    let rest: Vec<u8> = w.sock.get().incoming.drain(..).collect();
    // the message that is being read is completed first
    let k = rest.len() % 3;
    w.sock.push(&rest[..k]);
    w.push(rm(2, NORMAL, n));
    w.sock.push(&rest[k..]);
    let start = w.sock.get().incoming.len();
    for _ in 0..4000 {
        b.turn();
        if !b.seen.is_empty() {
            break;
        }
        if !turn(&mut a) {
            break;
        }
    }
    check!(27, b.seen.len() == 1 && b.seen[0] == Seen::Item(n, 2), "an rpc is not completed while a stream keeps arriving");
    check!(27, start - w.sock.get().incoming.len() <= 300, "an rpc waits for a stream to stop arriving");
    nd::witness("completed meanwhile");
}

mod harness {
    use super::*;
    pub fn vp_fair_in() {
        run_in()
    }
    pub fn vp_fair_out() {
        run_out()
    }
    pub fn vp_fair_server() {
        run_server()
    }
    pub fn vp_fair_requests() {
        run_requests()
    }
    pub fn vp_fair_client() {
        run_client()
    }
}
entries!(vp_fair_in, vp_fair_out, vp_fair_server, vp_fair_requests, vp_fair_client);
