//! The rpc client: `connect`, `RpcClient`, completions, over the real `Connection`.
use crate::rpc::*;
use futures::Stream;
use nd::check;
use protosocket_rpc::client::{connect, Configuration, RpcClient, StreamingCompletion, UnaryCompletion};
use protosocket_rpc::Error;
use std::pin::Pin;
use std::task::Poll;
use tokio::net::{socket, End, SockRef};
use tokio::vp::{self, Probe, Shared, TaskId};

pub struct Cw {
    pub sock: SockRef,
    pub client: RpcClient<Rm, Rm>,
    pub task: TaskId,
}
pub fn world(queue: usize) -> Cw {
    let sock = socket();
    tokio::net::on_connect(Ok(sock.clone()));
    let mut c = Configuration::default();
    c.max_queued_outbound_messages(queue);
    c.max_buffer_length(16);
    let (client, connection) = match vp::block_on(connect::<RmCodec, RmCodec>(tokio::net::addr(7), &c)) {
        Some(Ok(x)) => x,
        _ => {
            check!(13, false, "connecting fails although the connection was established");
            unreachable!()
        }
    };
    let task = vp::task(connection);
    Cw { sock, client, task }
}
impl Cw {
    pub fn settle(&self) -> bool {
        settle(&[&self.sock])
    }
    pub fn push(&self, m: Rm) {
        self.sock.push(&enc(m));
    }
}

/// What an application sees of one rpc.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seen {
    Item(u8, u64),
    Finished,
    None,
    Cancelled,
    Other,
}
pub enum Comp {
    Unary(Pin<Box<UnaryCompletion<Rm, Rm>>>),
    Stream(Pin<Box<StreamingCompletion<Rm, Rm>>>),
    Gone,
}
pub struct Rpc {
    pub id: u64,
    pub stream: bool,
    pub c: Comp,
    pub probe: Probe,
    pub seen: Vec<Seen>,
    /// Polled, pending, and waiting for a wake.
    pub parked: bool,
}
pub fn classify(r: Result<Rm, Error>) -> Seen {
    match r {
        Ok(m) => Seen::Item(m.n, m.id),
        Err(Error::Finished) => Seen::Finished,
        Err(Error::CancelledRemotely) => Seen::Cancelled,
        Err(_) => Seen::Other,
    }
}
impl Rpc {
    pub fn start(client: &RpcClient<Rm, Rm>, id: u64, stream: bool, n: u8) -> Result<Rpc, Error> {
        let probe = Probe::new();
        let c = if stream {
            match vp::block_on(client.send_streaming(rm(id, NORMAL, n))) {
                Some(Ok(c)) => Comp::Stream(Box::pin(c)),
                Some(Err(e)) => return Err(e),
                None => {
                    nd::bound!(false, "the outbound queue is full");
                    unreachable!()
                }
            }
        } else {
            match vp::block_on(client.send_unary(rm(id, NORMAL, n))) {
                Some(Ok(c)) => Comp::Unary(Box::pin(c)),
                Some(Err(e)) => return Err(e),
                None => {
                    nd::bound!(false, "the outbound queue is full");
                    unreachable!()
                }
            }
        };
        Ok(Rpc { id, stream, c, probe, seen: Vec::new(), parked: false })
    }
    fn over(&self) -> bool {
        !self.stream && !self.seen.is_empty() || self.seen.last() == Some(&Seen::None)
    }
    /// Poll once. False: nothing there.
    pub fn poll(&mut self) -> bool {
        if self.over() {
            return false;
        }
        self.parked = false;
        match &mut self.c {
            Comp::Unary(c) => match self.probe.poll(c.as_mut()) {
                Poll::Ready(r) => {
                    self.seen.push(classify(r));
                    true
                }
                Poll::Pending => {
                    self.parked = true;
                    false
                }
            },
            Comp::Stream(c) => match self.probe.with(|cx| c.as_mut().poll_next(cx)) {
                Poll::Ready(Some(r)) => {
                    self.seen.push(classify(r));
                    true
                }
                Poll::Ready(None) => {
                    self.seen.push(Seen::None);
                    true
                }
                Poll::Pending => {
                    self.parked = true;
                    false
                }
            },
            Comp::Gone => false,
        }
    }
    /// What an executor does: poll again if the waker fired (or it was never polled).
    pub fn turn(&mut self) {
        if self.parked && !self.probe.woken() {
            return;
        }
        for _ in 0..100_000 {
            if !self.poll() {
                break;
            }
        }
    }
}

/// The peer's messages for one rpc, and what the application has to see of them.
#[derive(Default)]
struct Expect {
    items: Vec<u8>,
    ended: bool,
}
impl Expect {
    fn add(&mut self, stream: bool, code: u8, n: u8) {
        if self.ended {
            return;
        }
        if code == NORMAL {
            self.items.push(n);
            if !stream {
                self.ended = true;
            }
        } else {
            self.ended = true;
        }
    }
    fn want(&self, stream: bool, id: u64) -> Vec<Seen> {
        let mut v: Vec<Seen> = self.items.iter().map(|n| Seen::Item(*n, id)).collect();
        if self.ended {
            if stream {
                v.push(Seen::Finished);
                v.push(Seen::None);
            } else if v.is_empty() {
                v.push(Seen::Cancelled);
            }
        }
        v
    }
}
pub fn seen_same(a: &[Seen], b: &[Seen]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= match (a[i], b[i]) {
            (Seen::Item(x, i), Seen::Item(y, j)) => (x == y) & (i == j),
            (x, y) => std::mem::discriminant(&x) == std::mem::discriminant(&y),
        };
    }
    ok
}

/// `k` rpcs of symbolic kind, `steps` symbolic events, any codes in any order.
fn run_mix(k: usize, steps: usize, read_choice: bool) {
    let w = world(4);
    w.sock.get().read_choice = read_choice;
    let first = nd::pick(1, 3, "first id") as u64;
    let mut rpcs = Vec::new();
    let mut expect = Vec::new();
    for i in 0..k {
        let stream = nd::pick(0, 1, "streaming") == 1;
        let id = 1 + (first - 1 + i as u64) % 4;
        let n = nd::u8("request");
        match Rpc::start(&w.client, id, stream, n) {
            Ok(r) => rpcs.push(r),
            Err(_) => check!(13, false, "a live connection refuses a request"),
        }
        expect.push(Expect::default());
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    // the peer has the requests
    let got = sent(&w.sock);
    check!(13, got.len() == k, "a request was not sent exactly once");
    for i in 0..k {
        check!(13, got[i].id == rpcs[i].id && got[i].code == NORMAL, "a request reached the wire as another one");
    }
    for _ in 0..steps {
        match nd::pick(0, 4, "event") {
            0 => {
                for r in rpcs.iter_mut() {
                    r.turn();
                }
            }
            1 => {
                let quiet = w.settle();
                check!(3, quiet, "the connection keeps spinning with nothing to do");
            }
            e => {
                let code = [NORMAL, END, CANCEL][e - 2];
                let n = nd::u8("response");
                // an id that no request has, too
                let j = nd::pick(0, k, "to which rpc");
                if j == k {
                    w.push(rm(9, code, n));
                } else {
                    w.push(rm(rpcs[j].id, code, n));
                    expect[j].add(rpcs[j].stream, code, n);
                }
            }
        }
    }
    let quiet = w.settle();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(6, !vp::done(w.task), "the connection ended although nothing ended it");
    let mut some = 0;
    for i in 0..k {
        rpcs[i].turn();
        let want = expect[i].want(rpcs[i].stream, rpcs[i].id);
        if rpcs[i].stream {
            check!(14, rpcs[i].seen.len() >= want.len(), "a stream is not woken for what has arrived");
            check!(14, seen_same(&rpcs[i].seen, &want), "a stream does not yield its items in order, then the end once");
            if want.len() > 2 {
                nd::witness("stream with items");
            }
        } else {
            check!(13, rpcs[i].seen.len() >= want.len(), "a caller is not woken by the response to its request");
            check!(13, seen_same(&rpcs[i].seen, &want), "a caller does not get the response to its own request");
        }
        some += want.len();
    }
    check!(15, sent(&w.sock).len() == k, "messages nobody asked for were sent");
    check!(16, w.client.is_alive(), "a live connection is reported as dead");
    nd::trace(some as u64);
    nd::trace(w.sock.get().reads as u64);
    nd::witness("mix");
    if some >= 2 {
        nd::witness("several outcomes");
    }
}

/// A long stream: more than one internal batch of the completion.
fn run_long_stream(n: usize) {
    let w = world(4);
    let mut r = match Rpc::start(&w.client, 5, true, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(14, false, "a live connection refuses a request");
            return;
        }
    };
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let pollat = nd::pick(0, n, "first poll after");
    let total = nd::pick(n - 2, n, "items");
    let odd = nd::u8("one symbolic item");
    let mut want = Vec::new();
    for i in 0..total {
        let v = if i == n / 2 { odd } else { i as u8 };
        w.push(rm(5, NORMAL, v));
        want.push(Seen::Item(v, 5));
        if i == pollat {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
            r.poll();
        }
    }
    w.push(rm(5, END, 0));
    want.push(Seen::Finished);
    want.push(Seen::None);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    r.turn();
    check!(14, seen_same(&r.seen, &want), "a stream does not yield its items in order, then the end once");
    // and it stays over
    if let Comp::Stream(c) = &mut r.c {
        let again = r.probe.with(|cx| c.as_mut().poll_next(cx));
        check!(14, matches!(again, Poll::Ready(None)), "a finished stream starts again");
    }
    nd::trace(r.seen.len() as u64);
    nd::witness("long stream");
}

/// A stream of hundreds of items, read in various rhythms.
fn run_stream_rhythm(n: usize) {
    let w = world(4);
    let mut r = match Rpc::start(&w.client, 5, true, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(14, false, "a live connection refuses a request");
            return;
        }
    };
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let (batch, every) = (nd::pick(1, 5, "items per read"), nd::pick(1, 5, "batches per turn of the caller"));
    let one = nd::bool("one item per turn");
    let odd = nd::u8("one symbolic item");
    let mut want = Vec::new();
    for i in 0..n {
        let v = if i == n / 2 { odd } else { i as u8 };
        w.push(rm(5, NORMAL, v));
        want.push(Seen::Item(v, 5));
        if i % batch == 0 {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
            if i / batch % every == 0 {
                if one {
                    r.poll();
                } else {
                    r.turn();
                    check!(14, r.seen.len() == want.len(), "a stream item that has arrived does not reach its caller");
                }
            }
        }
    }
    w.push(rm(5, END, 0));
    want.push(Seen::Finished);
    want.push(Seen::None);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    r.turn();
    check!(14, seen_same(&r.seen, &want), "a stream does not yield its items in order, then the end once");
    nd::trace(r.seen.len() as u64);
    nd::witness("long stream");
}

/// Many rpcs outstanding; then all are answered, dropped or lost at once.
fn run_bulk(n: usize) {
    many();
    let queue = nd::split(nd::pick(1, 4, "queue") as u64) as usize;
    let w = world(queue);
    let kinds = nd::split(nd::pick(0, 2, "kinds") as u64);
    let mut v = Vec::new();
    for i in 0..n {
        let stream = if kinds == 2 { i & 1 == 1 } else { kinds == 1 };
        match Rpc::start(&w.client, i as u64, stream, 0) {
            Ok(r) => v.push(r),
            Err(_) => {
                check!(13, false, "a live connection refuses a request");
                return;
            }
        }
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    check!(13, sent(&w.sock).len() == n, "a request is not sent exactly once");
    if nd::bool("they are polled first") {
        for r in &mut v {
            r.turn();
        }
    }
    match nd::pick(0, 2, "what happens to all of them") {
        0 => {
            let back = nd::split(nd::pick(0, 1, "in reverse") as u64) == 1;
            let odd = nd::u8("one symbolic response");
            let value = |i: usize| if i == n / 2 { odd } else { i as u8 };
            for j in 0..n {
                let i = if back { n - 1 - j } else { j };
                w.push(rm(i as u64, NORMAL, value(i)));
                if v[i].stream {
                    w.push(rm(i as u64, END, 0));
                }
            }
            check!(3, settle_n(&[&w.sock], 10 * n), "the connection keeps spinning with nothing to do");
            for (i, r) in v.iter_mut().enumerate() {
                r.turn();
                if r.stream {
                    let want = [Seen::Item(value(i), i as u64), Seen::Finished, Seen::None];
                    check!(14, seen_same(&r.seen, &want), "a stream does not yield its items in order, then the end once");
                } else {
                    check!(13, seen_same(&r.seen, &[Seen::Item(value(i), i as u64)]), "a unary rpc does not complete with its own response");
                }
            }
        }
        1 => {
            // as many at a time as there is room for
            while !v.is_empty() {
                v.drain(..queue.min(v.len()));
                check!(3, w.settle(), "the connection keeps spinning with nothing to do");
            }
            let wire = sent(&w.sock);
            let mut at = vec![0; n];
            for m in &wire[n..] {
                at[m.id as usize] += (m.code == CANCEL) as usize;
            }
            check!(15, at.iter().all(|k| *k == 1) && wire.len() == 2 * n, "dropping an unfinished rpc does not send exactly one cancellation");
        }
        _ => {
            w.sock.get().in_end = End::Eof;
            check!(3, settle_n(&[&w.sock], 10 * n), "the connection keeps spinning with nothing to do");
            for r in &mut v {
                r.turn();
                check!(16, !r.parked && !r.seen.is_empty(), "an rpc outlives its connection");
            }
        }
    }
    nd::witness("bulk");
}

/// Drop one of two rpcs at a symbolic point.
fn run_drop() {
    let w = world(6);
    let stream = nd::pick(0, 1, "streaming") == 1;
    let dropped_first = nd::pick(0, 1, "which") == 0;
    let (a, b) = if dropped_first { (3, 2) } else { (2, 3) };
    let other_stream = nd::pick(0, 1, "other streaming") == 1;
    let mut victim;
    let mut other;
    let start = |id, stream| match Rpc::start(&w.client, id, stream, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(15, false, "a live connection refuses a request");
            unreachable!()
        }
    };
    if dropped_first {
        victim = start(a, stream);
        other = start(b, other_stream);
    } else {
        other = start(b, other_stream);
        victim = start(a, stream);
    }
    let settled = nd::bool("requests are on the wire");
    if settled {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    if nd::bool("polled before") {
        victim.poll();
        other.poll();
    }
    // how far the victim gets
    let arrived = if settled { nd::pick(0, 2, "responses to the victim") } else { 0 };
    let end = settled && nd::bool("the peer ends the victim");
    for i in 0..arrived {
        w.push(rm(a, NORMAL, 10 + i as u8));
    }
    if end {
        w.push(rm(a, if nd::bool("by cancelling") { CANCEL } else { END }, 0));
    }
    let processed = nd::bool("responses are processed");
    if processed {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    let polls = nd::pick(0, 4, "polls");
    for _ in 0..polls {
        victim.poll();
    }
    let observed = if stream { victim.seen.contains(&Seen::Finished) } else { !victim.seen.is_empty() };
    victim.c = Comp::Gone;
    if nd::bool("let it run") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    // late messages for it are ignored
    if settled && nd::bool("late response") {
        w.push(rm(a, NORMAL, 77));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let wire = sent(&w.sock);
    let cancels = wire.iter().filter(|m| m.code == CANCEL && m.id == a).count();
    let concluded = observed || processed && (end || !stream && arrived > 0);
    if observed {
        check!(15, cancels == 0, "a finished rpc is cancelled when its completion is dropped");
        nd::witness("finished then dropped");
    } else if !concluded {
        check!(15, cancels == 1, "an unfinished rpc is not cancelled exactly once when its completion is dropped");
        check!(15, wire.last().map(|m| (m.id, m.code)) == Some((a, CANCEL)), "the cancellation overtakes the request");
        nd::witness("cancelled");
    } else {
        check!(15, cancels <= 1, "an rpc is cancelled more than once");
        nd::witness("dropped unobserved");
    }
    check!(15, wire.len() == 2 + cancels, "messages nobody asked for were sent");
    // the other one is not disturbed
    w.push(rm(b, NORMAL, 42));
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    other.turn();
    check!(15, other.seen.len() == 1 && other.seen[0] == Seen::Item(42, b), "dropping one rpc disturbs another one");
    check!(6, !vp::done(w.task), "the connection ended although nothing ended it");
    nd::trace(wire.len() as u64);
}

/// Every handle to the client is dropped while rpcs are outstanding: they go on, and the connection
/// ends with the last of them.
fn run_handles() {
    let w = world(4);
    let n = nd::pick(0, 2, "rpcs");
    let mut rpcs: Vec<Rpc> = Vec::new();
    for i in 0..n {
        let stream = nd::pick(0, 1, "streaming") == 1;
        match Rpc::start(&w.client, 1 + i as u64, stream, 0) {
            Ok(r) => rpcs.push(r),
            Err(_) => {
                check!(13, false, "a live connection refuses a request");
                return;
            }
        }
    }
    let cloned = nd::bool("a clone is dropped first");
    let Cw { client, sock, task } = w;
    let settle = || settle(&[&sock]);
    if cloned {
        let other = client.clone();
        if nd::bool("it ran before") {
            check!(3, settle(), "the connection keeps spinning with nothing to do");
        }
        drop(other);
        check!(3, settle(), "the connection keeps spinning with nothing to do");
        check!(6, !vp::done(task), "the connection ended although nothing ended it");
    }
    if nd::bool("callers wait") {
        for r in rpcs.iter_mut() {
            r.turn();
        }
    }
    drop(client);
    check!(3, settle(), "the connection keeps spinning with nothing to do");
    let mut cancels = Vec::new();
    let k = rpcs.len();
    for (i, mut r) in rpcs.into_iter().enumerate() {
        let id = r.id;
        check!([6, 13], !vp::done(task), "the connection ended although rpcs are outstanding");
        check!(13, sent(&sock).iter().filter(|m| m.id == id && m.code == NORMAL).count() == 1, "a request was not sent exactly once");
        let answer = nd::u8("response");
        sock.push(&enc(rm(id, NORMAL, answer)));
        check!(3, settle(), "the connection keeps spinning with nothing to do");
        r.turn();
        check!(if r.stream { 14 } else { 13 }, seen_same(&r.seen, &[Seen::Item(answer, id)]), "a response is lost because the handle of the client is gone");
        if r.stream && nd::bool("the stream ends") {
            sock.push(&enc(rm(id, END, 0)));
            check!(3, settle(), "the connection keeps spinning with nothing to do");
            r.turn();
            check!(14, r.seen.len() == 3 && r.seen[1] == Seen::Finished && r.seen[2] == Seen::None, "a stream does not end because the handle of the client is gone");
        } else if r.stream {
            cancels.push(id);
        }
        drop(r);
        if i + 1 < k || nd::bool("it runs") {
            check!(3, settle(), "the connection keeps spinning with nothing to do");
        }
    }
    check!(3, settle(), "the connection keeps spinning with nothing to do");
    let got: Vec<u64> = sent(&sock).iter().filter(|m| m.code == CANCEL).map(|m| m.id).collect();
    check!([7, 15], got == cancels, "the cancellations of the last rpcs are not sent");
    check!(6, vp::done(task) & sock.get().closed, "the connection outlives the last handle and the last rpc");
    nd::trace(sent(&sock).len() as u64);
    nd::witness("let go");
}

/// The connection goes away at a symbolic point; everybody learns of it.
fn run_loss(races: usize) {
    let queue = nd::pick(1, 2, "queue");
    let w = world(queue);
    let cause = nd::pick(0, 4, "cause");
    let n = nd::pick(0, 2, "rpcs");
    let mut rpcs: Vec<Rpc> = Vec::new();
    let stuck = nd::pick(0, 1, "peer reads") == 0;
    if stuck {
        w.sock.get().out_room = 0;
    }
    for i in 0..n {
        let stream = nd::pick(0, 1, "streaming") == 1;
        if i >= queue {
            // make room, if the connection takes some
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        }
        match Rpc::start(&w.client, 1 + i as u64, stream, 0) {
            Ok(r) => rpcs.push(r),
            Err(_) => check!(16, false, "a live connection refuses a request"),
        }
        if nd::bool("polled") {
            rpcs[i].poll();
        }
    }
    if nd::bool("requests are taken") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    let answered = n > 0 && !stuck && nd::bool("one is answered");
    if answered {
        w.push(rm(1, NORMAL, 9));
        if nd::bool("the answer is processed") {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        }
    }
    check!(16, w.client.is_alive(), "a live connection is reported as dead");
    // somebody else sends while the connection goes down
    let raced: Shared<Vec<Result<Rpc, Error>>> = Shared::new(Vec::new());
    if races > 0 {
        let c = w.client.clone();
        let raced = raced.clone();
        vp::preempt_with(races, move || {
            let mut f = Box::pin(c.send_unary(rm(8, NORMAL, 0)));
            // a full queue: this caller gives up
            let p = Probe::new();
            if let Poll::Ready(r) = p.poll(f.as_mut()) {
                raced.get().push(r.map(|c| Rpc {
                    id: 8,
                    stream: false,
                    c: Comp::Unary(Box::pin(c)),
                    probe: Probe::new(),
                    seen: Vec::new(),
                    parked: false,
                }));
            }
        });
    }
    match cause {
        0 => w.sock.get().in_end = End::Eof,
        1 => w.sock.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset),
        2 => w.sock.push(&[1, 0xff, 0]),
        3 => vp::kill(w.task),
        _ => w.sock.get().read_ready_err = true,
    }
    let quiet = w.settle();
    vp::no_preempt();
    check!(3, quiet, "the connection keeps spinning with nothing to do");
    check!(16, vp::done(w.task), "the connection outlives what should end it");
    check!(16, !w.client.is_alive(), "a dead connection is reported as alive");
    for (i, r) in rpcs.iter_mut().enumerate() {
        r.turn();
        let mut want = Vec::new();
        let one = answered && i == 0 && r.seen.first() == Some(&Seen::Item(9, 1));
        if one {
            want.push(Seen::Item(9, 1));
        }
        // the answer may be lost when the runtime drops the connection
        if answered && i == 0 && cause != 3 && cause != 4 {
            check!(16, one, "an answer that arrived before the connection ended is lost");
        }
        if r.stream {
            want.push(Seen::Finished);
            want.push(Seen::None);
        } else if !one {
            want.push(Seen::Cancelled);
        }
        check!(16, !r.seen.is_empty(), "an outstanding rpc hangs after the connection has gone");
        check!(16, seen_same(&r.seen, &want), "an outstanding rpc does not end with the connection");
    }
    for r in raced.get().iter_mut() {
        match r {
            Ok(r) => {
                r.turn();
                check!(16, !r.seen.is_empty(), "an rpc sent while the connection ends hangs");
                nd::witness("raced");
            }
            Err(e) => {
                check!(16, matches!(e, Error::ConnectionIsClosed), "a send on a dying connection fails with another error");
                nd::witness("raced and refused");
            }
        }
    }
    // and later ones fail at once
    match Rpc::start(&w.client, 7, nd::bool("stream"), 0) {
        Ok(_) => check!(16, false, "a dead connection accepts a request"),
        Err(e) => check!(16, matches!(e, Error::ConnectionIsClosed), "a dead connection reports another error"),
    }
    if n > 0 {
        nd::witness("rpcs ended");
    }
    nd::trace(n as u64);
}

/// A caller waiting for room in the outbound queue.
fn run_waiting() {
    let queue = nd::pick(1, 3, "queue");
    let w = world(queue);
    w.sock.get().out_room = 0;
    let lost = nd::pick(0, 1, "the connection is lost") == 1;
    let mut rpcs: Vec<Rpc> = Vec::new();
    let mut waiting = Vec::new();
    let eager = nd::bool("let it run");
    for i in 0..(3 * queue + 2) as u64 {
        let mut f = Box::pin(w.client.send_unary(rm(i, NORMAL, 0)));
        let p = Probe::new();
        match p.poll(f.as_mut()) {
            Poll::Ready(Ok(c)) => rpcs.push(Rpc { id: i, stream: false, c: Comp::Unary(Box::pin(c)), probe: Probe::new(), seen: vec![], parked: false }),
            Poll::Ready(Err(_)) => check!(16, false, "a live connection refuses a request"),
            Poll::Pending => {
                waiting.push((i, f, p));
            }
        }
        if if queue == 1 { nd::bool("let it run") } else { eager } {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        }
    }
    check!(5, !waiting.is_empty(), "requests pile up although the peer does not read");
    // one caller may give up
    if waiting.len() > 1 && nd::bool("one gives up") {
        let (_, f, _) = waiting.remove(nd::pick(0, waiting.len() - 1, "who"));
        drop(f);
        nd::witness("gave up");
    }
    if lost {
        w.sock.get().in_end = End::Eof;
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        for (_, mut f, p) in waiting {
            check!(16, p.woken(), "a caller waiting for room is not woken when the connection ends");
            match p.poll(f.as_mut()) {
                Poll::Ready(Err(Error::ConnectionIsClosed)) => nd::witness("refused"),
                _ => check!(16, false, "a caller waiting for room is not refused when the connection ends"),
            }
        }
    } else {
        let pace = [usize::MAX, 1, 3, 4, 8][nd::pick(0, 4, "the peer reads")];
        for round in 0..64 {
            if pace != usize::MAX {
                w.sock.get().out_room += pace;
            } else if round == 0 {
                w.sock.get().out_room = usize::MAX;
            }
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
            let mut rest = Vec::new();
            for (i, mut f, p) in waiting {
                if !p.woken() {
                    rest.push((i, f, p));
                    continue;
                }
                match p.poll(f.as_mut()) {
                    Poll::Ready(Ok(c)) => rpcs.push(Rpc { id: i, stream: false, c: Comp::Unary(Box::pin(c)), probe: Probe::new(), seen: vec![], parked: false }),
                    Poll::Ready(Err(_)) => check!(16, false, "a live connection refuses a request"),
                    Poll::Pending => rest.push((i, f, p)),
                }
            }
            waiting = rest;
        }
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        check!(13, waiting.is_empty(), "a caller waits for room that is there");
        let wire = sent(&w.sock);
        for r in rpcs.iter_mut() {
            check!(13, wire.iter().filter(|m| m.id == r.id && m.code == NORMAL).count() == 1, "a request was not sent exactly once");
            w.push(rm(r.id, NORMAL, 50 + r.id as u8));
        }
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        for r in rpcs.iter_mut() {
            r.turn();
            check!(13, r.seen.len() == 1 && r.seen[0] == Seen::Item(50 + r.id as u8, r.id), "a caller does not get the response to its own request");
        }
        nd::witness("all answered");
    }
    nd::trace(rpcs.len() as u64);
}

/// The peer answers as fast as physically possible: while the caller is still inside `send`.
fn run_race_response() {
    let w = world(4);
    let stream = nd::pick(0, 1, "streaming") == 1;
    // another rpc, in flight already
    let mut other = match Rpc::start(&w.client, 2, false, 0) {
        Ok(r) => r,
        Err(_) => return,
    };
    if nd::bool("the other one is on the wire") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    let answered: Shared<usize> = Shared::new(0);
    {
        let sock = w.sock.clone();
        let answered = answered.clone();
        vp::preempt_with(2, move || {
            settle(&[&sock]);
            let wire = sent(&sock);
            let from = *answered.get();
            for m in &wire[from..] {
                sock.push(&enc(rm(m.id, NORMAL, 20 + m.id as u8)));
            }
            *answered.get() = wire.len();
            settle(&[&sock]);
        });
    }
    let r = Rpc::start(&w.client, 1, stream, 0);
    vp::no_preempt();
    let mut r = match r {
        Ok(r) => r,
        Err(_) => {
            check!(13, false, "a live connection refuses a request");
            return;
        }
    };
    if *answered.get() > 0 {
        nd::witness("answered during send");
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let wire = sent(&w.sock);
    for m in &wire[*answered.get()..] {
        w.push(rm(m.id, NORMAL, 20 + m.id as u8));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    r.turn();
    other.turn();
    check!(if stream { 14 } else { 13 }, r.seen.len() == 1 && r.seen[0] == Seen::Item(21, 1), "a response that arrives while the request is being sent is lost");
    check!(13, other.seen.len() == 1 && other.seen[0] == Seen::Item(22, 2), "a caller does not get the response to its own request");
    nd::trace(*answered.get() as u64);
    nd::witness("race");
}

/// Application threads start and drop rpcs while the connection processes responses.
fn run_race_reactor() {
    let w = world(6);
    let start = |id, stream| match Rpc::start(&w.client, id, stream, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(13, false, "a live connection refuses a request");
            unreachable!()
        }
    };
    let stream = nd::pick(0, 1, "streaming") == 1;
    let mut a = start(1, stream);
    let victim: Shared<Option<Rpc>> = Shared::new(Some(start(2, stream)));
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    if nd::bool("polled") {
        a.poll();
    }
    let late: Shared<Vec<Rpc>> = Shared::new(Vec::new());
    {
        let (victim, late, c) = (victim.clone(), late.clone(), w.client.clone());
        let what = nd::pick(0, 2, "what the other thread does");
        vp::preempt_with(2, move || {
            if what != 1 {
                let v = victim.get().take();
                drop(v);
            }
            if what != 0 {
                let id = 3 + late.get().len() as u64;
                if let Ok(r) = Rpc::start(&c, id, stream, 0) {
                    late.get().push(r);
                }
            }
        });
    }
    w.push(rm(1, NORMAL, 31));
    let victim_answered = nd::bool("the victim is answered");
    if victim_answered {
        w.push(rm(2, NORMAL, 32));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    vp::no_preempt();
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    a.turn();
    check!(if stream { 14 } else { 13 }, a.seen.len() == 1 && a.seen[0] == Seen::Item(31, 1), "a caller does not get the response to its own request");
    let dropped = victim.get().is_none();
    let cancels = sent(&w.sock).iter().filter(|m| m.id == 2 && m.code == CANCEL).count();
    if !dropped || !victim_answered {
        check!(15, cancels == dropped as usize, "an rpc dropped while responses are processed is not cancelled exactly once");
    } else {
        check!(15, cancels <= 1, "an rpc is cancelled more than once");
    }
    check!(15, sent(&w.sock).iter().all(|m| m.code == NORMAL || m.id == 2), "an rpc that nobody dropped is cancelled");
    for r in late.get().iter_mut() {
        let id = r.id;
        check!(13, sent(&w.sock).iter().filter(|m| m.id == id && m.code == NORMAL).count() == 1, "a request was not sent exactly once");
        w.push(rm(id, NORMAL, 33));
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        r.turn();
        check!(if stream { 14 } else { 13 }, r.seen.len() == 1 && r.seen[0] == Seen::Item(33, id), "an rpc started while responses are processed loses its response");
        nd::witness("started meanwhile");
    }
    check!(6, !vp::done(w.task), "the connection ended although nothing ended it");
    nd::witness("race");
}

/// Responses arrive while a caller is inside `poll`: it sees them or is woken.
fn run_race_poll() {
    let w = world(6);
    let stream = nd::pick(0, 1, "streaming") == 1;
    let mut a = match Rpc::start(&w.client, 1, stream, 0) {
        Ok(r) => r,
        Err(_) => return,
    };
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let items = nd::pick(0, 2, "items");
    let ended = nd::pick(0, 2, "how it ends");
    let came: Shared<usize> = Shared::new(0);
    let sock = w.sock.clone();
    let c2 = came.clone();
    let send = move || {
        let n = *c2.get();
        *c2.get() += 1;
        if n > 0 {
            return;
        }
        for i in 0..items {
            sock.push(&enc(rm(1, NORMAL, 60 + i as u8)));
        }
        match ended {
            0 => {}
            1 => sock.push(&enc(rm(1, END, 0))),
            _ => sock.get().in_end = End::Eof,
        }
        settle(&[&sock]);
    };
    if nd::bool("polled before") {
        a.poll();
    }
    vp::preempt_with(1, send.clone());
    a.poll();
    vp::no_preempt();
    send();
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    a.turn();
    let mut e = Expect::default();
    for i in 0..items {
        e.add(stream, NORMAL, 60 + i as u8);
    }
    if ended > 0 {
        e.add(stream, END, 0);
    }
    let want = e.want(stream, 1);
    check!(if stream { 14 } else { 13 }, seen_same(&a.seen, &want), "a response that arrives while the caller polls is lost, or the caller is not woken");
    if ended == 2 {
        check!(16, !a.seen.is_empty() && (!stream || a.seen.last() == Some(&Seen::None)), "an outstanding rpc hangs after the connection has gone");
    }
    nd::trace(want.len() as u64);
    nd::witness("race");
}

/// An id is used again after its first rpc is over.
fn run_reuse() {
    let w = world(6);
    let id = [1, 4][nd::pick(0, 1, "id")];
    let s1 = nd::pick(0, 1, "first streaming") == 1;
    let s2 = nd::pick(0, 1, "second streaming") == 1;
    let how = nd::pick(0, 2, "how the first ends");
    let keep = nd::pick(0, 2, "when its completion is dropped");
    let mut a = match Rpc::start(&w.client, id, s1, 0) {
        Ok(r) => r,
        Err(_) => return,
    };
    // a drop may come before the connection knows of the rpc, and the reuse before it knows of the drop
    if how != 2 || nd::bool("let it run") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    match how {
        0 => {
            w.push(rm(id, NORMAL, 5));
            if s1 {
                w.push(rm(id, END, 0));
            }
        }
        1 => w.push(rm(id, CANCEL, 0)),
        // the application cancels it
        _ => a.c = Comp::Gone,
    }
    if how != 2 || nd::bool("let it run") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    if how != 2 {
        a.turn();
        check!(22, !a.seen.is_empty(), "an rpc does not end");
    }
    if keep == 0 {
        a.c = Comp::Gone;
        if nd::bool("let it run") {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        }
    }
    let mut b = match Rpc::start(&w.client, id, s2, 0) {
        Ok(r) => r,
        Err(_) => {
            check!(22, false, "a live connection refuses a request");
            return;
        }
    };
    if keep == 1 {
        a.c = Comp::Gone;
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    if keep == 2 {
        a.c = Comp::Gone;
        if nd::bool("let it run") {
            check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        }
    }
    w.push(rm(id, NORMAL, 6));
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    b.turn();
    check!(22, b.seen.len() == 1 && b.seen[0] == Seen::Item(6, id), "an rpc that reuses the id of a finished one does not get its response");
    let cancels = sent(&w.sock).iter().filter(|m| m.code == CANCEL).count();
    check!(22, cancels == (how == 2) as usize, "an rpc that reuses the id of a finished one is cancelled");
    nd::trace(cancels as u64);
    nd::witness("reused");
}

/// A stream whose application reads late has everything the server sent.
fn run_bulk_items(n: usize) {
    let w = world(2);
    let mut rpcs = Vec::new();
    for i in 0..2u64 {
        match Rpc::start(&w.client, 1 + i, true, 0) {
            Ok(r) => rpcs.push(r),
            Err(_) => return check!(14, false, "a live connection refuses a request"),
        }
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let polled = nd::bool("polled first");
    if polled {
        rpcs[0].turn();
    }
    let odd = nd::u8("one symbolic item");
    let value = |i: usize| if i == n / 2 { odd } else { i as u8 };
    for i in 0..n {
        w.push(rm(1, NORMAL, value(i)));
        if i % 100 == 0 {
            w.push(rm(2, NORMAL, i as u8));
        }
    }
    w.push(rm(2, END, 0));
    let how = nd::pick(0, 2, "how it ends");
    match how {
        0 => w.push(rm(1, END, 0)),
        1 => w.sock.get().in_end = End::Eof,
        _ => {}
    }
    check!(3, settle_n(&[&w.sock], 10 * n), "the connection keeps spinning with nothing to do");
    for r in &mut rpcs {
        r.turn();
    }
    let mut want: Vec<Seen> = (0..n).map(|i| Seen::Item(value(i), 1)).collect();
    if how < 2 {
        want.push(Seen::Finished);
        want.push(Seen::None);
    }
    check!([14, 16], seen_same(&rpcs[0].seen, &want), "a stream does not yield its items in order, then the end once");
    let mut other: Vec<Seen> = (0..n).step_by(100).map(|i| Seen::Item(i as u8, 2)).collect();
    other.push(Seen::Finished);
    other.push(Seen::None);
    check!(14, seen_same(&rpcs[1].seen, &other), "a stream is disturbed by one that nobody reads");
    nd::trace(how as u64);
    nd::witness("bulk");
}

mod harness {
    use super::*;
    pub fn vp_cli_mix() {
        run_mix(2, 4, false)
    }
    pub fn vp_cli_mix_deep() {
        run_mix(3, 4, false)
    }
    pub fn vp_cli_mix_segments() {
        run_mix(2, 2, true)
    }
    pub fn vp_cli_long_stream() {
        run_long_stream(40)
    }
    pub fn vp_cli_stream_rhythm() {
        run_stream_rhythm(300)
    }
    pub fn vp_cli_handles() {
        run_handles()
    }
    pub fn vp_cli_drop() {
        run_drop()
    }
    pub fn vp_cli_loss() {
        run_loss(0)
    }
    pub fn vp_cli_loss_race() {
        run_loss(1)
    }
    pub fn vp_cli_bulk() {
        run_bulk(1100)
    }
    pub fn vp_cli_bulk_deep() {
        run_bulk(4200)
    }
    pub fn vp_cli_bulk_items() {
        run_bulk_items(4200)
    }
    pub fn vp_cli_bulk_items_deep() {
        run_bulk_items(70_000)
    }
    pub fn vp_cli_waiting() {
        run_waiting()
    }
    pub fn vp_cli_race_response() {
        run_race_response()
    }
    pub fn vp_cli_race_reactor() {
        run_race_reactor()
    }
    pub fn vp_cli_race_poll() {
        run_race_poll()
    }
    pub fn vp_cli_reuse() {
        run_reuse()
    }
}

entries!(
    vp_cli_mix,
    vp_cli_mix_deep,
    vp_cli_mix_segments,
    vp_cli_long_stream,
    vp_cli_stream_rhythm,
    vp_cli_handles,
    vp_cli_drop,
    vp_cli_loss,
    vp_cli_loss_race,
    vp_cli_bulk,
    vp_cli_bulk_deep,
    vp_cli_bulk_items,
    vp_cli_bulk_items_deep,
    vp_cli_waiting,
    vp_cli_race_response,
    vp_cli_race_reactor,
    vp_cli_race_poll,
    vp_cli_reuse,
);
