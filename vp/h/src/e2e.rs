//! The real client and the real server, joined by a wire.
use crate::client::{self, Comp, Cw, Rpc, Seen};
use crate::rpc::*;
use crate::server::{self, finish, produce, Slot, Sw, ECHO, STREAM, UNARY};
use nd::check;
use tokio::net::{End, SockRef};
use tokio::vp::{self, Shared};

pub struct Wire {
    pub c: Cw,
    pub s: Sw,
    pub cs: SockRef,
    pub ss: SockRef,
}
pub fn wire(cq: usize, sq: usize) -> Wire {
    let mut s = server::world(sq, 16);
    let ss = s.accept();
    let c = client::world(cq);
    let cs = c.sock.clone();
    Wire { c, s, cs, ss }
}
/// Up to `n` bytes that one side wrote reach the other; then the end of the stream, if it closed.
fn carry(from: &SockRef, to: &SockRef, n: usize) -> bool {
    let (b, closed): (Vec<u8>, bool) = {
        let mut f = from.get();
        let n = n.min(f.outgoing.len());
        (f.outgoing.drain(..n).collect(), f.closed && f.outgoing.is_empty())
    };
    let mut t = to.get();
    let end = closed && t.in_end == End::Open;
    if end {
        t.in_end = End::Eof;
    }
    // nobody is left to read
    if !t.closed {
        t.incoming.extend(b.iter().copied());
    }
    !b.is_empty() || end
}
/// Everything happens that can.
pub fn flow(cs: &SockRef, ss: &SockRef) {
    for _ in 0..64 {
        check!(3, settle(&[cs, ss]), "a task keeps spinning with nothing to do");
        let a = carry(cs, ss, usize::MAX);
        let b = carry(ss, cs, usize::MAX);
        if !a && !b {
            return;
        }
    }
    nd::bound!(false, "the wire does not go quiet");
}
impl Wire {
    fn settle(&self) {
        check!(3, settle(&[&self.cs, &self.ss]), "a task keeps spinning with nothing to do");
    }
    pub fn flow(&self) {
        flow(&self.cs, &self.ss)
    }
    fn start(&self, id: u64, stream: bool, n: u8) -> Rpc {
        match Rpc::start(&self.c.client, id, stream, (n & 0xfc) | if stream { STREAM } else { UNARY }) {
            Ok(r) => r,
            Err(_) => {
                check!(26, false, "a live connection refuses a request");
                unreachable!()
            }
        }
    }
    pub fn slot(&self, id: u64) -> Option<Shared<Slot>> {
        let v: Vec<Shared<Slot>> = self.s.svc.get().rpcs.iter().filter(|r| r.get().id == id).cloned().collect();
        check!(26, v.len() <= 1, "one call of a client starts two rpcs on the server");
        v.into_iter().next()
    }
}
/// What the service did for one call.
#[derive(Default)]
struct Served {
    items: Vec<u8>,
    ended: bool,
    dropped: bool,
}

fn run_mix(k: usize, steps: usize) {
    let w = wire(4, nd::pick(1, 2, "server queue"));
    let mut rpcs: Vec<Rpc> = Vec::new();
    let mut served: Vec<Served> = Vec::new();
    let mut asked = Vec::new();
    for i in 0..k {
        let stream = nd::pick(0, 1, "streaming") == 1;
        let n = nd::u8("request");
        asked.push((n & 0xfc) | if stream { STREAM } else { UNARY });
        // no id is special
        rpcs.push(w.start(if k == 1 { 4 } else { 1 + i as u64 }, stream, n));
        served.push(Served::default());
    }
    if nd::bool("the requests arrive first") {
        w.settle();
        carry(&w.cs, &w.ss, usize::MAX);
        w.settle();
    }
    for _ in 0..steps {
        let e = nd::pick(0, 1 + 4 * k, "event");
        if e == 0 {
            w.settle();
            carry(&w.cs, &w.ss, usize::MAX);
            continue;
        }
        if e == 1 {
            w.settle();
            carry(&w.ss, &w.cs, usize::MAX);
            continue;
        }
        let (j, e) = ((e - 2) / 4, (e - 2) % 4);
        let x = w.slot(rpcs[j].id);
        match e {
            0 => {
                if let (Some(x), false) = (x, served[j].ended) {
                    if !x.get().dropped {
                        let n = nd::u8("result");
                        produce(&x, n);
                        served[j].items.push(n);
                        served[j].ended = !rpcs[j].stream;
                    }
                }
            }
            1 => {
                if let (Some(x), false) = (x, served[j].ended) {
                    finish(&x);
                    served[j].ended = rpcs[j].stream;
                }
            }
            2 => rpcs[j].turn(),
            _ => {
                rpcs[j].c = Comp::Gone;
                served[j].dropped = true;
            }
        }
    }
    w.flow();
    let mut last = 0;
    for j in 0..k {
        let (r, s) = (&mut rpcs[j], &served[j]);
        let x = w.slot(r.id);
        check!([13, 17, 26], x.is_some(), "a call does not reach the service");
        let Some(x) = x else { return };
        check!(26, x.get().n == asked[j] && x.get().stream == r.stream, "the service gets another request than the client sent");
        if s.dropped {
            check!([15, 19, 26], x.get().dropped, "a call that its caller dropped lives on in the server");
            nd::witness("dropped");
        } else {
            r.turn();
            let mut want: Vec<Seen> = s.items.iter().map(|n| Seen::Item(*n, r.id)).collect();
            if s.ended && r.stream {
                want.push(Seen::Finished);
                want.push(Seen::None);
            }
            let same = client::seen_same(&r.seen, &want);
            if r.stream {
                check!([14, 18, 26], same, "a caller does not see what the service produced for its call");
            } else {
                check!([13, 17, 26], same, "a caller does not see what the service produced for its call");
            }
            check!([15, 19], same || !served.iter().any(|s| s.dropped), "a call is disturbed by another one that is dropped");
            check!([17, 18, 26], x.get().dropped == s.ended, "a call lives on in the server after its end, or ends early");
            if s.ended {
                nd::witness("served");
            }
            last += r.seen.len();
        }
    }
    check!(6, !vp::done(w.c.task) && !w.ss.get().closed, "the connection ended although nothing ended it");
    // and the connection still works
    let mut r = match Rpc::start(&w.c.client, 90, false, ECHO) {
        Ok(r) => r,
        Err(_) => {
            check!(26, false, "a live connection refuses a request");
            return;
        }
    };
    w.flow();
    r.turn();
    check!(26, r.seen.len() == 1 && r.seen[0] == Seen::Item(ECHO + 1, 90), "a connection that carried other calls does not work any more");
    nd::trace(last as u64);
    nd::witness("mix");
}

/// One end goes away: both ends let go of every call.
fn run_loss() {
    let w = wire(4, 2);
    let k = nd::pick(0, 2, "rpcs");
    let mut rpcs: Vec<Rpc> = Vec::new();
    for i in 0..k {
        let stream = nd::pick(0, 1, "streaming") == 1;
        rpcs.push(w.start(1 + i as u64, stream, 0));
    }
    let stage = nd::pick(0, 3, "how far it gets");
    if stage > 0 {
        w.flow();
    }
    let mut answered = false;
    if stage > 1 && k > 0 {
        if let Some(x) = w.slot(1) {
            produce(&x, 7);
            answered = stage > 2;
            if answered {
                w.flow();
            } else {
                w.settle();
            }
        }
    }
    if nd::bool("callers wait") {
        for r in rpcs.iter_mut() {
            r.turn();
        }
    }
    let Wire { c, s, cs, ss } = w;
    let Cw { client, task, .. } = c;
    let cause = nd::pick(0, 4, "cause");
    match cause {
        // the client's connection is dropped
        0 => vp::kill(task),
        // the network fails
        1 => {
            cs.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset);
            ss.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset);
        }
        // the server receives garbage
        2 => ss.push(&[1, 0xff, 0]),
        // the client receives garbage
        3 => cs.push(&[1, 0xff, 0]),
        // the client is dropped, with all of its completions
        _ => {}
    }
    let client = if cause == 4 {
        rpcs.clear();
        drop(client);
        None
    } else {
        Some(client)
    };
    flow(&cs, &ss);
    check!([16, 26], cs.get().closed, "a client connection stays although the other end is gone");
    check!([21, 26], ss.get().closed, "a server connection stays although the other end is gone");
    check!([21, 26], s.svc.get().rpcs.iter().all(|r| r.get().dropped), "an rpc lives on in the server although its connection is gone");
    check!([21, 26], s.svc.get().gone.len() == 1, "the handler of a connection that is gone is kept");
    for (i, r) in rpcs.iter_mut().enumerate() {
        r.turn();
        let first = match r.seen.first() {
            Some(s) => *s,
            None => {
                check!([16, 26], false, "a call hangs although its connection is gone");
                return;
            }
        };
        if answered && i == 0 {
            check!([16, 26], first == Seen::Item(7, 1), "an answer that arrived is lost with the connection");
        }
        if r.stream {
            check!([16, 26], r.seen.last() == Some(&Seen::None), "a call hangs although its connection is gone");
        }
        nd::witness("ended");
    }
    if let Some(client) = client {
        check!([16, 26], !client.is_alive(), "a client whose connection is gone calls itself alive");
    }
    check!(23, !*s.ended.get(), "the server stops");
    nd::witness("gone");
}

mod harness {
    use super::*;
    pub fn vp_e2e_mix() {
        run_mix(2, 3)
    }
    /// Which task runs next is open.
    pub fn vp_e2e_sched() {
        tokio::vp::schedule_choices(4);
        run_mix(1, 3)
    }
    pub fn vp_e2e_sched_deep() {
        tokio::vp::schedule_choices(7);
        run_mix(1, 3)
    }
    pub fn vp_e2e_one() {
        run_mix(1, 5)
    }
    pub fn vp_e2e_mix_deep() {
        run_mix(2, 4)
    }
    pub fn vp_e2e_loss() {
        run_loss()
    }
}
entries!(vp_e2e_mix, vp_e2e_sched, vp_e2e_sched_deep, vp_e2e_one, vp_e2e_mix_deep, vp_e2e_loss);
