//! symx: symbolic execution of LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod ll;
mod solver;
use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Found {
    kind: &'static str,
    msg: String,
    tape: Vec<u64>,
    names: Vec<String>,
    bt: Vec<String>,
}
struct Sample {
    tape: Vec<u64>,
    trace: Vec<u64>,
}
#[derive(Default)]
struct Total {
    paths: u64,
    infeasible: u64,
    steps: u64,
    forks: u64,
    checks: u64,
    checks_sym: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    hits: u64,
    time: f64,
    max_time: f64,
    max_path_steps: u64,
    max_syms: usize,
    max_depth: usize,
    found: Vec<Found>,
    incomplete: Vec<String>,
    left: bool,
    witness: BTreeMap<String, (u64, Vec<u64>)>,
    samples: Vec<Sample>,
    funcs: Vec<bool>,
    dump: Vec<(String, bool)>,
}
struct Shared {
    queue: Mutex<VecDeque<Vec<D>>>,
    idle: AtomicUsize,
    queued: AtomicUsize,
    stop: AtomicBool,
    paths: AtomicU64,
    total: Mutex<Total>,
}
struct Opt {
    ll: String,
    entry: String,
    prop: u64,
    threads: usize,
    timeout: f64,
    steps: u64,
    out: String,
    samples: usize,
    seed: u64,
    dump: usize,
    query_ms: u32,
    keep_going: bool,
    values: usize,
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn strs<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|x| esc(x.as_ref())).collect::<Vec<_>>().join(","))
}

fn worker(m: &'static ll::Module, entry: u32, o: &Opt, sh: &Shared, deadline: Instant, me: usize) {
    let cfg = Cfg { prop: o.prop, max_steps: o.steps, max_values: o.values };
    let mut w = Worker::new(m, entry, cfg, solver::Z3::new(o.query_ms, o.dump));
    let mut t = Total::default();
    let mut rng = o.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (me as u64 + 1);
    let mut next = || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let mut is_idle = false;
    'outer: loop {
        let job = {
            let mut q = sh.queue.lock().expect("queue");
            let j = q.pop_front();
            if j.is_some() {
                sh.queued.fetch_sub(1, Ordering::SeqCst);
                if is_idle {
                    is_idle = false;
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
            }
            j
        };
        match job {
            None => {
                if !is_idle {
                    is_idle = true;
                    sh.idle.fetch_add(1, Ordering::SeqCst);
                }
                // everybody idle and nothing queued
                let q = sh.queue.lock().expect("queue");
                if sh.stop.load(Ordering::SeqCst) || (q.is_empty() && sh.idle.load(Ordering::SeqCst) == o.threads) {
                    break;
                }
                drop(q);
                std::thread::sleep(Duration::from_micros(300));
                continue;
            }
            Some(p) => {
                let s = w.start(p);
                w.pending.push(s);
            }
        }
        while let Some(mut st) = w.pending.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                w.pending.push(st);
                break 'outer;
            }
            if Instant::now() > deadline {
                sh.stop.store(true, Ordering::SeqCst);
                t.incomplete.push("time".into());
                break 'outer;
            }
            let stop = w.run(&mut st);
            let stop = match w.ensure_model(&mut st) {
                Ok(()) => stop,
                Err(e) => e,
            };
            t.max_path_steps = t.max_path_steps.max(st.steps);
            t.max_syms = t.max_syms.max(st.syms.len());
            t.max_depth = t.max_depth.max(st.decisions.len());
            let mut bad: Option<(&'static str, String)> = None;
            match stop {
                Stop::Done => {
                    t.paths += 1;
                    sh.paths.fetch_add(1, Ordering::Relaxed);
                    for x in st.witness.iter() {
                        let e = t.witness.entry(x.to_string()).or_insert_with(|| (0, vec![]));
                        if e.0 == 0 {
                            e.1 = w.tape(&st, &[]);
                        }
                        e.0 += 1;
                    }
                    // reservoir of finished paths, replayed natively by the runner
                    let k = next() % t.paths;
                    if t.samples.len() < o.samples || (k as usize) < o.samples {
                        let s = Sample { tape: w.tape(&st, &[]), trace: st.trace.iter().map(|v| w.eval_val(&st, v)).collect() };
                        if t.samples.len() < o.samples {
                            t.samples.push(s);
                        } else {
                            t.samples[k as usize] = s;
                        }
                    }
                }
                Stop::Infeasible => t.infeasible += 1,
                Stop::Check(m) => bad = Some(("check", m)),
                Stop::Bug(m) => bad = Some(("bug", m)),
                Stop::Steps => bad = Some(("steps", format!("no end after {} instructions", st.steps))),
                Stop::Bound(m) => t.incomplete.push(format!("bound: {m}")),
                Stop::Unsupported(m) => t.incomplete.push(format!("unsupported: {m} in {:?}", w.backtrace(&st).first())),
                Stop::Unknown => t.incomplete.push("solver gave up".into()),
            }
            if let Some((kind, msg)) = bad {
                t.paths += 1;
                let tape = w.tape(&st, &[]);
                let names = st.syms.iter().map(|v| w.a.var[*v as usize].2.clone()).collect();
                if t.found.len() < 20 {
                    t.found.push(Found { kind, msg, tape, names, bt: w.backtrace(&st) });
                }
                if !o.keep_going {
                    sh.stop.store(true, Ordering::SeqCst);
                    break 'outer;
                }
            }
            if t.incomplete.len() > 50 {
                sh.stop.store(true, Ordering::SeqCst);
                break 'outer;
            }
            while w.pending.len() > 1 && sh.idle.load(Ordering::Relaxed) > sh.queued.load(Ordering::Relaxed) {
                let s = w.pending.remove(0);
                let mut p = s.decisions;
                p.extend(s.forced);
                sh.queued.fetch_add(1, Ordering::SeqCst);
                sh.queue.lock().expect("queue").push_back(p);
            }
        }
    }
    let left = !w.pending.is_empty();
    let mut g = sh.total.lock().expect("total");
    g.left |= left;
    g.paths += t.paths;
    g.infeasible += t.infeasible;
    g.steps += w.steps;
    g.forks += w.forks;
    g.checks += w.checks;
    g.checks_sym += w.checks_sym;
    g.queries += w.z.queries;
    g.sat += w.z.sat;
    g.unsat += w.z.unsat;
    g.hits += w.z.hits;
    g.time += w.z.time;
    g.max_time = g.max_time.max(w.z.max_time);
    g.max_path_steps = g.max_path_steps.max(t.max_path_steps);
    g.max_syms = g.max_syms.max(t.max_syms);
    g.max_depth = g.max_depth.max(t.max_depth);
    g.found.extend(t.found);
    g.incomplete.extend(t.incomplete);
    for (k, v) in t.witness {
        let e = g.witness.entry(k).or_insert_with(|| (0, v.1));
        e.0 += v.0;
    }
    g.samples.extend(t.samples);
    if g.funcs.is_empty() {
        g.funcs = w.funcs.clone();
    } else {
        for (a, b) in g.funcs.iter_mut().zip(&w.funcs) {
            *a |= *b;
        }
    }
    g.dump.extend(w.z.dump);
}

fn main() {
    let mut o = Opt { ll: String::new(), entry: String::new(), prop: 0, threads: 8, timeout: 600.0, steps: 30_000_000, out: String::new(), samples: 3, seed: 1, dump: 0, query_ms: 60_000, keep_going: false, values: 300 };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if a == "--keep-going" {
            o.keep_going = true;
            continue;
        }
        let v = it.next().unwrap_or_default();
        match a.as_str() {
            "--ll" => o.ll = v,
            "--entry" => o.entry = v,
            "--prop" => o.prop = v.split(',').map(|p| p.parse::<u32>().expect("prop")).filter(|p| *p != 0).fold(0, |m, p| m | 1u64 << p),
            "--threads" => o.threads = v.parse().expect("threads"),
            "--timeout" => o.timeout = v.parse().expect("timeout"),
            "--steps" => o.steps = v.parse().expect("steps"),
            "--out" => o.out = v,
            "--samples" => o.samples = v.parse().expect("samples"),
            "--seed" => o.seed = v.parse().expect("seed"),
            "--dump" => o.dump = v.parse().expect("dump"),
            "--values" => o.values = v.parse().expect("values"),
            "--query-ms" => o.query_ms = v.parse().expect("query-ms"),
            _ => {
                eprintln!("symx: unknown option {a}");
                std::process::exit(64);
            }
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&o.ll).expect("read the .ll file");
    let m: &'static ll::Module = match ll::Module::parse(src) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("symx: {e}");
            std::process::exit(65);
        }
    };
    let entry = match m.fn_by_name.get(&o.entry) {
        Some(e) => *e,
        None => {
            eprintln!("symx: no function {}", o.entry);
            std::process::exit(66);
        }
    };
    let load = t0.elapsed().as_secs_f64();
    let sh = Arc::new(Shared { queue: Mutex::new(VecDeque::from([vec![]])), idle: AtomicUsize::new(0), queued: AtomicUsize::new(1), stop: AtomicBool::new(false), paths: AtomicU64::new(0), total: Mutex::new(Total::default()) });
    let o = Arc::new(o);
    let deadline = Instant::now() + Duration::from_secs_f64(o.timeout);
    let hs: Vec<_> = (0..o.threads)
        .map(|i| {
            let (sh, o) = (sh.clone(), o.clone());
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(m, entry, &o, &sh, deadline, i)).expect("thread")
        })
        .collect();
    // a worker deep inside one solver call does not hold up the verdict of the others for long
    let mut timed_out = false;
    let mut stopping: Option<Instant> = None;
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(2));
        if stopping.is_none() && (sh.stop.load(Ordering::SeqCst) || Instant::now() > deadline) {
            stopping = Some(Instant::now());
            if !sh.stop.load(Ordering::SeqCst) {
                timed_out = true;
            }
            sh.stop.store(true, Ordering::SeqCst);
        }
        if stopping.is_some_and(|s| s.elapsed() > Duration::from_secs(5)) {
            break;
        }
    }
    let mut stuck = 0;
    for h in hs {
        if h.is_finished() {
            h.join().expect("worker");
        } else {
            stuck += 1;
        }
    }
    let mut g = sh.total.lock().expect("total");
    if timed_out {
        g.incomplete.push("time".into());
    }
    // states nobody looked at, without a finding that explains it
    if g.found.is_empty() && g.incomplete.is_empty() && (g.left || !sh.queue.lock().expect("queue").is_empty()) {
        g.incomplete.push("stopped early".into());
    }
    if stuck > 0 {
        g.incomplete.push(format!("{stuck} workers did not stop in time"));
    }
    let wall = t0.elapsed().as_secs_f64();
    let complete = g.incomplete.is_empty() && g.found.is_empty() || (o.keep_going && g.incomplete.is_empty());
    let mut inc: BTreeMap<&str, u64> = BTreeMap::new();
    for i in &g.incomplete {
        *inc.entry(i).or_default() += 1;
    }
    let fns: Vec<&str> = g.funcs.iter().enumerate().filter(|f| *f.1).map(|f| m.funcs[f.0].name.as_str()).collect();
    let mut j = String::from("{\n");
    j += &format!("\"entry\":{},\"prop\":{},\"complete\":{},\n", esc(&o.entry), o.prop, complete);
    j += &format!("\"paths\":{},\"infeasible\":{},\"instructions\":{},\"forks\":{},\"checks\":{},\"symbolic_checks\":{},\n", g.paths, g.infeasible, g.steps, g.forks, g.checks, g.checks_sym);
    j += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\n", g.queries, g.sat, g.unsat, g.hits, g.time, g.max_time);
    j += &format!("\"max_path_instructions\":{},\"max_symbols\":{},\"max_decisions\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"solver\":{},\n", g.max_path_steps, g.max_syms, g.max_depth, load, wall, esc(&solver::version()));
    j += &format!("\"incomplete\":{{{}}},\n", inc.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j += &format!("\"witness\":{{{}}},\n", g.witness.iter().map(|(k, v)| format!("{}:{{\"paths\":{},\"tape\":{}}}", esc(k), v.0, nums(&v.1))).collect::<Vec<_>>().join(","));
    j += &format!("\"found\":[{}],\n", g.found.iter().map(|f| format!("{{\"kind\":{},\"msg\":{},\"tape\":{},\"names\":{},\"backtrace\":{}}}", esc(f.kind), esc(&f.msg), nums(&f.tape), strs(&f.names), strs(&f.bt))).collect::<Vec<_>>().join(",\n"));
    j += &format!("\"samples\":[{}],\n", g.samples.iter().map(|s| format!("{{\"tape\":{},\"trace\":{}}}", nums(&s.tape), nums(&s.trace))).collect::<Vec<_>>().join(",\n"));
    j += &format!("\"functions\":{},\n", strs(&fns));
    j += &format!("\"dump\":[{}]\n}}\n", g.dump.iter().map(|(q, s)| format!("{{\"sat\":{},\"smt2\":{}}}", s, esc(q))).collect::<Vec<_>>().join(",\n"));
    if o.out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&o.out, j).expect("write the result");
    }
    eprintln!(
        "symx {} prop={} complete={} paths={} infeasible={} instr={} queries={} hits={} solver={:.2}s load={:.2}s wall={:.2}s found={} incomplete={:?}",
        o.entry,
        o.prop,
        complete,
        g.paths,
        g.infeasible,
        g.steps,
        g.queries,
        g.hits,
        g.time,
        load,
        wall,
        g.found.len(),
        inc
    );
    // the threads' Z3 contexts are not worth tearing down
    std::process::exit(0);
}
