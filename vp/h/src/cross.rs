//! Threads in parallel: every thread can be stopped at any synchronisation operation while the
//! others go on from wherever they were.
use crate::client::{self, classify, seen_same, Seen};
use crate::conn::{self, frame, Codec};
use crate::e2e;
use crate::rpc::*;
use crate::server::{self, ask, finish, produce, verify, Track, STREAM};
use futures::Stream;
use nd::check;
use protosocket_rpc::client::RpcClient;
use std::pin::pin;
use tokio::net::{End, SockRef};
use tokio::vp::{self, Shared};

type Body = Box<dyn FnOnce()>;
/// A thread of the runtime: runs whatever task is ready.
fn worker(socks: &[&SockRef]) -> Body {
    let socks: Vec<SockRef> = socks.iter().map(|s| (*s).clone()).collect();
    Box::new(move || {
        let v: Vec<&SockRef> = socks.iter().collect();
        check!(3, settle(&v), "a task keeps spinning with nothing to do");
    })
}

#[derive(Default)]
struct App {
    refused: bool,
    seen: Vec<Seen>,
    done: bool,
}
/// An application task: one rpc to its end.
async fn call(client: RpcClient<Rm, Rm>, id: u64, stream: bool, app: Shared<App>) {
    if stream {
        match client.send_streaming(rm(id, NORMAL, STREAM)).await {
            Ok(c) => {
                let mut c = pin!(c);
                loop {
                    match std::future::poll_fn(|cx| c.as_mut().poll_next(cx)).await {
                        Some(r) => app.get().seen.push(classify(r)),
                        None => break,
                    }
                }
                app.get().seen.push(Seen::None);
            }
            Err(_) => app.get().refused = true,
        }
    } else {
        match client.send_unary(rm(id, NORMAL, 0)).await {
            Ok(c) => {
                let r = classify(c.await);
                app.get().seen.push(r);
            }
            Err(_) => app.get().refused = true,
        }
    }
    app.get().done = true;
}

/// The connection goes down while applications on other threads start rpcs.
fn run_down(switches: usize, apps: usize) {
    let w = client::world(nd::pick(1, 2, "queue"));
    let cause = nd::pick(0, 3, "what ends the connection");
    if nd::bool("the connection has run") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    let mut all = Vec::new();
    for i in 0..apps {
        let stream = nd::pick(0, 1, "streaming") == 1;
        let app = Shared::new(App::default());
        all.push((stream, app.clone()));
        vp::task(call(w.client.clone(), 1 + i as u64, stream, app));
    }
    let mut threads: Vec<Body> = (0..apps).map(|_| worker(&[&w.sock])).collect();
    match cause {
        0 => w.sock.get().in_end = End::Eof,
        1 => w.sock.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset),
        2 => w.sock.push(&[1, 0xff, 0]),
        _ => {}
    }
    if cause == 3 {
        let t = w.task;
        threads.push(Box::new(move || vp::kill(t)));
    } else {
        w.sock.events();
        threads.push(worker(&[&w.sock]));
    }
    vp::threads(switches, threads);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    check!(16, vp::done(w.task), "the connection outlives what should end it");
    check!(16, !w.client.is_alive(), "a dead connection is reported as alive");
    for (stream, a) in &all {
        let a = a.get();
        check!(16, a.done, "an rpc hangs after the connection has gone");
        let want: &[Seen] = match (a.refused, stream) {
            (true, _) => &[],
            (_, true) => &[Seen::Finished, Seen::None],
            _ => &[Seen::Cancelled],
        };
        check!(16, !a.done || seen_same(&a.seen, want), "an rpc of a connection that has gone does not end as cancelled");
        if a.refused {
            nd::witness("refused");
        } else {
            nd::witness("cancelled");
        }
    }
    nd::trace(all.len() as u64);
}

/// Answers come in, rpcs start and completions are dropped, each on a thread of its own.
fn run_answers(switches: usize) {
    let w = client::world(4);
    let stream = nd::pick(0, 1, "streaming") == 1;
    let (items, ends) = if stream { (nd::pick(0, 2, "items"), nd::bool("ends")) } else { (1, false) };
    let first = Shared::new(App::default());
    let a1 = vp::task(call(w.client.clone(), 1, stream, first.clone()));
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    // the other one starts on its own thread while the first is answered
    let stream2 = nd::pick(0, 1, "second streaming") == 1;
    let second = Shared::new(App::default());
    let a2 = vp::task(call(w.client.clone(), 2, stream2, second.clone()));
    for i in 0..items {
        w.push(rm(1, NORMAL, 60 + i as u8));
    }
    if ends {
        w.push(rm(1, END, 0));
    }
    w.sock.events();
    let drops = nd::pick(0, 2, "which is dropped meanwhile");
    let mut threads: Vec<Body> = vec![worker(&[&w.sock]), worker(&[&w.sock])];
    if drops > 0 {
        let t = [a1, a2][drops - 1];
        threads.push(Box::new(move || vp::kill(t)));
    }
    vp::threads(switches, threads);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    // the second is answered once its request is on the wire
    let sent2 = sent(&w.sock).iter().filter(|m| m.id == 2 && m.code == NORMAL).count();
    check!(13, drops == 2 || sent2 == 1, "a request does not go out exactly once");
    w.push(rm(2, NORMAL, 80));
    if stream2 {
        w.push(rm(2, END, 0));
    }
    if stream && !ends {
        w.push(rm(1, END, 0));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    for (i, (app, stream)) in [(&first, stream), (&second, stream2)].into_iter().enumerate() {
        let a = app.get();
        let mut want: Vec<Seen> = if i == 0 { (0..items).map(|k| Seen::Item(60 + k as u8, 1)).collect() } else { vec![Seen::Item(80, 2)] };
        if stream {
            want.push(Seen::Finished);
            want.push(Seen::None);
        }
        if drops == i + 1 {
            want.truncate(a.seen.len());
        } else {
            check!([13, 14, 16], a.done, "an answered rpc hangs");
        }
        check!(if stream { 14 } else { 13 }, !a.refused && seen_same(&a.seen, &want), "an rpc does not see exactly what the server sent for it");
    }
    // a dropped rpc is cancelled once, the others never
    for id in 1..3u64 {
        let n = sent(&w.sock).iter().filter(|m| m.id == id && m.code == CANCEL).count();
        let app = if id == 1 { &first } else { &second };
        let dropped = drops == id as usize && !app.get().done;
        check!(15, n <= dropped as usize, "an rpc that was not given up is cancelled");
        let asked = sent(&w.sock).iter().any(|m| m.id == id && m.code == NORMAL);
        let over = id == 1 && (!stream || ends);
        check!(15, n == 1 || !dropped || !asked || over, "an rpc that was given up is not cancelled");
        if n == 1 {
            nd::witness("cancelled");
        }
    }
    check!(6, !vp::done(w.task), "the connection ended although nothing ended it");
    nd::trace(sent(&w.sock).len() as u64);
    nd::witness("answers");
}

/// The tasks of a server connection on two threads, the service on a third, the peer on a fourth.
fn run_server(switches: usize, acts: usize) {
    let mut w = server::world(nd::pick(1, 2, "queue"), 32);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let mut tracks = Vec::new();
    for i in 0..2u64 {
        let kind = nd::pick(0, 1, "kind") as u8;
        ask(&s, 2 + i, kind, 0);
        tracks.push(Track { id: 2 + i, kind, items: vec![], ended: false, cancelled: false });
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == 2, "a request does not start exactly one rpc");
    if w.svc.get().rpcs.len() != 2 {
        return;
    }
    let slots = [w.rpc(0), w.rpc(1)];
    // what the service does, in order
    let mut script: Vec<(usize, Option<u8>)> = Vec::new();
    for k in 0..acts {
        let i = nd::pick(0, 1, "which rpc");
        let t: &mut Track = &mut tracks[i];
        if t.ended {
            continue;
        }
        if t.kind == STREAM && nd::bool("ends") {
            t.ended = true;
            script.push((i, None));
        } else {
            let n = 10 + k as u8;
            t.items.push(n);
            t.ended = t.kind != STREAM;
            script.push((i, Some(n)));
        }
    }
    let cancel = nd::bool("the peer cancels one");
    tracks[0].cancelled = cancel;
    let mut threads: Vec<Body> = vec![worker(&[&s]), worker(&[&s])];
    threads.push(Box::new(move || {
        for (i, n) in script {
            match n {
                Some(n) => produce(&slots[i], n),
                None => finish(&slots[i]),
            }
            // a service has operations of its own
            vp::preempt();
        }
    }));
    if cancel {
        s.push(&enc(rm(2, CANCEL, 0)));
        s.events();
    }
    vp::threads(switches, threads);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let wire = verify(&w, &s, &tracks);
    nd::trace(wire.len() as u64);
    nd::witness("threads");
}

/// Two applications send on their own threads while the connection writes, reads and may end.
fn run_conn(switches: usize) {
    let queue = nd::pick(1, 2, "max_queued");
    let channel = nd::pick(1, 2, "channel");
    let mut w = conn::world(6, queue, channel, Codec::plain());
    if nd::bool("the connection has run") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    let ok: Shared<[usize; 2]> = Shared::new([0; 2]);
    let done = Shared::new(0);
    for i in 0..2usize {
        let (s, ok, done) = (w.send.clone(), ok.clone(), done.clone());
        vp::task(async move {
            let Some(s) = s else { return };
            for k in 0..2usize {
                if s.send(conn::Msg { body: vec![(10 * i + k) as u8] }).await.is_ok() {
                    ok.get()[i] += 1;
                }
            }
            drop(s);
            *done.get() += 1;
        });
    }
    let over = nd::bool("the last sender goes");
    if over {
        w.send = None;
    }
    let eof = nd::bool("the peer closes");
    if eof {
        w.sock.get().in_end = End::Eof;
        w.sock.events();
    }
    vp::threads(switches, vec![worker(&[&w.sock]), worker(&[&w.sock])]);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    check!([3, 7], *done.get() == 2, "a sender hangs");
    check!([6, 7], w.done() == (over || eof), "the connection ends although nothing ended it, or does not end");
    let out = w.sock.get().outgoing.clone();
    let mut got = [Vec::new(), Vec::new()];
    for f in out.chunks(2) {
        let f: Vec<u8> = f.to_vec();
        let v = f.last().copied().unwrap_or(99);
        check!(2, f == frame(&[v]) && v < 20 && v % 10 < 2, "what is on the wire is not an encoded message");
        got[(v / 10).min(1) as usize].push(v % 10);
    }
    for i in 0..2 {
        // what a closed connection has accepted may be lost
        let all = !eof;
        check!([2, 7], got[i].iter().enumerate().all(|(k, v)| *v as usize == k), "messages of one sender are not sent in order, once each");
        check!([2, 3, 7], got[i].len() <= ok.get()[i] && (!all || got[i].len() == 2), "a message is accepted and never written");
    }
    nd::trace(out.len() as u64);
    nd::witness("threads");
}

/// A server connection ends while its rpcs work and new ones arrive.
fn run_teardown(switches: usize) {
    let mut w = server::world(nd::pick(1, 2, "queue"), 32);
    let a = w.accept();
    let b = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    ask(&a, 2, nd::pick(0, 1, "kind") as u8, 0);
    ask(&b, 2, 0, 0);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let slots: Vec<_> = w.svc.get().rpcs.clone();
    check!(17, slots.len() == 2, "a request does not start exactly one rpc");
    let Some(mine) = slots.iter().find(|s| s.get().conn == 0).cloned() else { return };
    let Some(other) = slots.iter().find(|s| s.get().conn == 1).cloned() else { return };
    if nd::bool("another request arrives") {
        ask(&a, 3, nd::pick(0, 1, "its kind") as u8, 0);
    }
    match nd::pick(0, 3, "cause") {
        0 => a.get().in_end = End::Eof,
        1 => a.get().in_end = End::Err(std::io::ErrorKind::ConnectionReset),
        2 => a.push(&[1, 0xff, 0]),
        _ => {
            a.get().out_end = End::Err(std::io::ErrorKind::BrokenPipe);
            ask(&a, 30, server::ECHO, 0);
        }
    }
    a.events();
    let m2 = mine.clone();
    let mut threads: Vec<Body> = vec![worker(&[&a, &b]), worker(&[&a, &b])];
    threads.push(Box::new(move || {
        produce(&m2, 7);
        vp::preempt();
        produce(&other, 42);
        vp::preempt();
        finish(&m2);
    }));
    vp::threads(switches, threads);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(21, a.get().closed, "the socket of an ended connection stays open");
    check!(21, w.svc.get().gone == vec![0], "the service of an ended connection lives on, or that of another one is dropped");
    check!(21, w.svc.get().rpcs.iter().all(|r| r.get().dropped), "an rpc of an ended connection lives on");
    check!(21, !*w.ended.get() && vp::live_tasks() == 3, "tasks of an ended connection live on, or others end");
    check!([17, 21], sent(&b) == vec![rm(2, NORMAL, 42)], "a connection is disturbed by the end of another one");
    nd::trace(sent(&a).len() as u64 & 1);
    nd::witness("torn down");
}

/// The real client and the real server, every task on whatever thread is free.
fn run_e2e(switches: usize) {
    let w = e2e::wire(2, nd::pick(1, 2, "server queue"));
    let kinds: Vec<bool> = (0..2).map(|_| nd::pick(0, 1, "streaming") == 1).collect();
    if nd::bool("the connection has run") {
        w.flow();
    }
    let apps: Vec<_> = kinds.iter().map(|_| Shared::new(App::default())).collect();
    let mut tasks = Vec::new();
    for i in 0..2 {
        tasks.push(vp::task(call(w.c.client.clone(), 1 + i as u64, kinds[i], apps[i].clone())));
    }
    let drops = nd::bool("one is dropped");
    let early = nd::bool("after the requests arrived");
    if early {
        w.flow();
    }
    let svc = w.s.svc.clone();
    let serve = move || {
        let slots: Vec<_> = svc.get().rpcs.clone();
        for s in slots {
            let (todo, stream, id) = {
                let mut s = s.get();
                let todo = !s.ended;
                // unary ones are answered once too
                s.ended |= !s.stream;
                (todo, s.stream, s.id as u8)
            };
            if todo {
                produce(&s, 10 * id);
                vp::preempt();
                if stream {
                    produce(&s, 10 * id + 1);
                    finish(&s);
                }
            }
        }
    };
    let flow = || -> Body {
        let (cs, ss) = (w.cs.clone(), w.ss.clone());
        Box::new(move || e2e::flow(&cs, &ss))
    };
    let mut threads: Vec<Body> = vec![flow(), flow()];
    let s2 = serve.clone();
    threads.push(Box::new(s2));
    if drops {
        let t = tasks[0];
        threads.push(Box::new(move || vp::kill(t)));
    }
    vp::threads(switches, threads);
    w.flow();
    serve();
    w.flow();
    for i in 0..2 {
        let a = apps[i].get();
        let id = 1 + i as u64;
        let mut want = vec![Seen::Item(10 * id as u8, id)];
        if kinds[i] {
            want.extend([Seen::Item(10 * id as u8 + 1, id), Seen::Finished, Seen::None]);
        }
        if drops && i == 0 {
            want.truncate(a.seen.len());
            let alive = w.slot(id).is_some_and(|x| !x.get().dropped);
            check!([15, 19, 26], !alive, "a call that its caller dropped lives on in the server");
        } else {
            check!([13, 14, 26], a.done, "a call hangs");
        }
        check!(26, !a.refused && seen_same(&a.seen, &want), "a caller does not see what the service produced for its call");
        check!(if kinds[i] { 14 } else { 13 }, !a.refused && seen_same(&a.seen, &want), "a caller does not see what the service produced for its call");
        check!(if kinds[i] { 18 } else { 17 }, seen_same(&a.seen, &want), "a caller does not see what the service produced for its call");
    }
    check!([6, 26], !vp::done(w.c.task) && !w.ss.get().closed, "the connection ended although nothing ended it");
    nd::trace(apps[1].get().seen.len() as u64);
    nd::witness("served");
}

/// An application uses an id again as soon as its rpc is over, while the connection is still busy with
/// the old one on another thread.
fn run_reuse(switches: usize) {
    let w = client::world(nd::pick(2, 6, "queue"));
    let id = 1;
    let (s1, s2) = (nd::pick(0, 1, "first streaming") == 1, nd::pick(0, 1, "second streaming") == 1);
    let how = nd::pick(0, 2, "how the first ends");
    let (first, second) = (Shared::new(App::default()), Shared::new(App::default()));
    let (c, a, b) = (w.client.clone(), first.clone(), second.clone());
    vp::task(async move {
        if how < 2 {
            call(c.clone(), id, s1, a).await;
        } else if s1 {
            drop(c.send_streaming(rm(id, NORMAL, 0)).await);
        } else {
            drop(c.send_unary(rm(id, NORMAL, 0)).await);
        }
        call(c, id, s2, b).await;
    });
    if how < 2 {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        if how == 0 {
            w.push(rm(id, NORMAL, 5));
        }
        if how == 1 || s1 {
            w.push(rm(id, [END, CANCEL][how], 0));
        }
    } else if nd::bool("the connection has run") {
        // nothing of the application yet: its task is behind
        vp::step();
    }
    w.sock.events();
    vp::threads(switches, vec![worker(&[&w.sock]), worker(&[&w.sock])]);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    w.push(rm(id, NORMAL, 6));
    if s2 {
        w.push(rm(id, END, 0));
    }
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    let want: &[Seen] = if s2 { &[Seen::Item(6, 1), Seen::Finished, Seen::None] } else { &[Seen::Item(6, 1)] };
    let b = second.get();
    check!(22, b.done && !b.refused && seen_same(&b.seen, want), "an rpc that reuses the id of a finished one does not get its response");
    let codes: Vec<u8> = sent(&w.sock).iter().map(|m| m.code).collect();
    let order: &[u8] = if how == 2 { &[NORMAL, CANCEL, NORMAL] } else { &[NORMAL, NORMAL] };
    check!([15, 22], codes == order, "an rpc that reuses an id is cancelled, or the one before it is not");
    nd::trace(codes.len() as u64);
    nd::witness("reused");
}

/// The peer cancels an rpc and uses its id again, while the rpc produces and ends on another thread.
fn run_srv_reuse(switches: usize) {
    let mut w = server::world(nd::pick(1, 2, "queue"), 32);
    let s = w.accept();
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let (k1, k2) = (nd::pick(0, 1, "first kind") as u8, nd::pick(0, 1, "second kind") as u8);
    ask(&s, 2, k1, 0);
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!(17, w.svc.get().rpcs.len() == 1, "a request does not start exactly one rpc");
    let a = w.rpc(0);
    s.push(&enc(rm(2, CANCEL, 0)));
    ask(&s, 2, k2, 0);
    s.events();
    let items = nd::pick(0, 2, "items");
    let a2 = a.clone();
    vp::threads(
        switches,
        vec![
            worker(&[&s]),
            worker(&[&s]),
            Box::new(move || {
                for i in 0..items {
                    produce(&a2, 10 + i as u8);
                    vp::preempt();
                    if i == 1 {
                        finish(&a2);
                    }
                }
            }),
        ],
    );
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    check!([19, 22], a.get().dropped, "a cancelled rpc lives on");
    check!([17, 22], w.svc.get().rpcs.len() == 2, "a request that reuses a finished id does not start an rpc");
    if w.svc.get().rpcs.len() != 2 {
        return;
    }
    let before = sent(&s).len();
    let b = w.rpc(1);
    check!(22, !b.get().dropped, "an rpc that reuses a finished id is killed");
    produce(&b, 6);
    if k2 == STREAM {
        finish(&b);
    }
    check!(3, w.settle(), "a task keeps spinning with nothing to do");
    let wire = sent(&s);
    let mut want = vec![rm(2, NORMAL, 6)];
    if k2 == STREAM {
        want.push(rm(2, END, 0));
    }
    let tail: Vec<Rm> = wire[before..].iter().map(|m| if m.code == END { rm(m.id, END, 0) } else { *m }).collect();
    check!(22, tail == want, "an rpc that reuses a finished id is not answered with its own results");
    check!([19, 22], wire[..before].len() <= 3 && wire[..before].iter().enumerate().all(|(i, m)| m.n == 10 + i as u8 || m.code == END), "a cancelled rpc put something on the wire that it did not produce");
    check!([22, 25], b.get().dropped, "a finished rpc is kept");
    nd::trace(before as u64 & 1);
    nd::witness("reused");
}

/// Whatever the threads do to an rpc, nothing of it stays.
fn run_leak(switches: usize) {
    let w = client::world(6);
    let warm = Shared::new(App::default());
    let round = |app: &Shared<App>| {
        vp::task(call(w.client.clone(), 9, true, app.clone()));
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        w.push(rm(9, NORMAL, 1));
        w.push(rm(9, END, 0));
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    };
    round(&warm);
    let held = vp::channels();
    let stream = nd::pick(0, 1, "streaming") == 1;
    let app = Shared::new(App::default());
    let t = vp::task(call(w.client.clone(), 1, stream, app.clone()));
    if nd::bool("it is under way") {
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    }
    if nd::bool("something arrives") {
        w.push(rm(1, NORMAL, 5));
        w.sock.events();
    }
    if nd::bool("it ends") {
        w.push(rm(1, END, 5));
        w.sock.events();
    }
    let (c, s) = (w.client.clone(), w.sock.clone());
    let other = Shared::new(App::default());
    let o2 = other.clone();
    let also = nd::bool("another one starts");
    let mut bodies = vec![worker(&[&w.sock])];
    bodies.push(Box::new(move || vp::kill(t)));
    if also {
        bodies.push(Box::new(move || {
            vp::task(call(c, 2, false, o2));
            settle(&[&s]);
        }));
    } else {
        drop((c, s));
    }
    vp::threads(switches, bodies);
    check!(3, w.settle(), "the connection keeps spinning with nothing to do");
    if also {
        w.push(rm(2, NORMAL, 5));
        check!(3, w.settle(), "the connection keeps spinning with nothing to do");
        check!(13, seen_same(&other.get().seen, &[Seen::Item(5, 2)]), "an rpc does not see exactly what the server sent for it");
    }
    // what follows lets the connection look around
    let last = Shared::new(App::default());
    round(&last);
    check!(14, last.get().done, "an answered rpc hangs");
    check!(25, vp::channels() <= held, "an rpc that is over leaves a channel behind");
    nd::trace(vp::channels() as u64);
    nd::witness("nothing left");
}

mod harness {
    use super::*;
    pub fn vp_cross_down() {
        run_down(3, 1)
    }
    pub fn vp_cross_down_deep() {
        run_down(3, 2)
    }
    pub fn vp_cross_answers() {
        run_answers(1)
    }
    pub fn vp_cross_answers_deep() {
        run_answers(2)
    }
    pub fn vp_cross_server() {
        run_server(1, 1)
    }
    pub fn vp_cross_server_deep() {
        run_server(2, 2)
    }
    pub fn vp_cross_conn() {
        run_conn(1)
    }
    pub fn vp_cross_conn_deep() {
        run_conn(2)
    }
    pub fn vp_cross_teardown() {
        run_teardown(1)
    }
    pub fn vp_cross_teardown_deep() {
        run_teardown(2)
    }
    pub fn vp_cross_reuse() {
        run_reuse(2)
    }
    pub fn vp_cross_reuse_deep() {
        run_reuse(3)
    }
    pub fn vp_cross_srv_reuse() {
        run_srv_reuse(2)
    }
    pub fn vp_cross_srv_reuse_deep() {
        run_srv_reuse(3)
    }
    pub fn vp_cross_leak() {
        run_leak(2)
    }
    pub fn vp_cross_leak_deep() {
        run_leak(3)
    }
    pub fn vp_cross_e2e() {
        run_e2e(1)
    }
    pub fn vp_cross_e2e_deep() {
        run_e2e(2)
    }
}
entries!(
    vp_cross_down,
    vp_cross_down_deep,
    vp_cross_answers,
    vp_cross_answers_deep,
    vp_cross_server,
    vp_cross_server_deep,
    vp_cross_conn,
    vp_cross_conn_deep,
    vp_cross_teardown,
    vp_cross_teardown_deep,
    vp_cross_reuse,
    vp_cross_reuse_deep,
    vp_cross_srv_reuse,
    vp_cross_srv_reuse_deep,
    vp_cross_leak,
    vp_cross_leak_deep,
    vp_cross_e2e,
    vp_cross_e2e_deep,
);
