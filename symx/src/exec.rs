//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::ll::Module;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
    pub heap: bool,
}
const PAGE: usize = 32;
type Page = Vec<Option<Rc<Obj>>>;
pub const STACK: u32 = 0x4000_0000;
/// stack objects of one coroutine: 2^LANE at most
const LANE: u32 = 22;

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
    next: u32,
    /// one stack per coroutine; the first is the entry's own
    stacks: Vec<Vec<Rc<Obj>>>,
    cur: usize,
    pub live: i64,
    /// heap bytes allocated and not freed
    pub bytes: usize,
}
#[derive(Clone)]
pub struct Frame {
    body: &'static Body,
    f: u32,
    pc: u32,
    blk: u32,
    base: u32,
    ret: Option<u32>,
    next: Option<u32>,
    mark: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D {
    pub key: u128,
    pub taken: bool,
    pub forked: bool,
}
pub struct ModelC {
    pub a: Assign,
    cache: RefCell<HashMap<E, u128>>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<ModelC>,
    need_model: bool,
    pub forced: VecDeque<D>,
    pub decisions: Vec<D>,
    i_dec: usize,
    i_pc: usize,
    pub syms: Vec<u32>,
    pub trace: Vec<Val>,
    pub witness: Vec<Rc<str>>,
    pub steps: u64,
    /// the coroutines that are not running now (the entry's own is the first)
    co: Vec<Co>,
}
/// A thread of the program under check: runs until it yields or returns.
#[derive(Clone)]
struct Co {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    done: bool,
}
#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    /// an assertion of the property under check failed
    Check(String),
    /// the code went wrong by itself: panic, memory error, abort
    Bug(String),
    Steps,
    Bound(String),
    Unsupported(String),
    Unknown,
}
pub struct Cfg {
    pub prop: u64,
    pub max_steps: u64,
    pub max_values: usize,
}
pub struct Worker {
    pub m: &'static Module,
    pub a: Arena,
    pub z: Z3,
    pub cfg: Cfg,
    pub pending: Vec<State>,
    pub entry: u32,
    init: Mem,
    pub funcs: Vec<bool>,
    pub checks: u64,
    pub checks_sym: u64,
    pub forks: u64,
    pub steps: u64,
}
type R<X> = Result<X, Stop>;

impl Mem {
    fn top(&mut self) -> &mut Vec<Rc<Obj>> {
        &mut self.stacks[self.cur]
    }
    fn alloc(&mut self, size: usize, fill: u8) -> u32 {
        let id = self.next;
        self.next += 1;
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        while self.pages.len() <= p {
            self.pages.push(Rc::new(vec![None; PAGE]));
        }
        Rc::make_mut(&mut self.pages[p])[i] = Some(Rc::new(Obj { bytes: vec![fill; size], sym: None, ro: false, heap: true }));
        self.live += 1;
        self.bytes += size;
        id
    }
    fn free(&mut self, id: u32) {
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        let o = Rc::make_mut(&mut self.pages[p])[i].take();
        self.bytes -= o.map_or(0, |o| o.bytes.len());
        self.live -= 1;
    }
    fn get(&self, id: u32) -> Option<&Obj> {
        if id >= STACK {
            let k = (id - STACK) as usize;
            return self.stacks.get(k >> LANE)?.get(k & ((1 << LANE) - 1)).map(|r| &**r);
        }
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        self.pages.get(p).and_then(|pg| pg[i].as_deref())
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= STACK {
            let k = (id - STACK) as usize;
            return self.stacks.get_mut(k >> LANE)?.get_mut(k & ((1 << LANE) - 1)).map(Rc::make_mut);
        }
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        let pg = self.pages.get_mut(p)?;
        pg[i].as_ref()?;
        Rc::make_mut(pg)[i].as_mut().map(Rc::make_mut)
    }
}
fn split(p: u64) -> (u32, u32) {
    ((p >> 32) as u32, p as u32)
}
fn kval(k: &K) -> Val {
    match k {
        K::I(v) => Val::C(*v),
        K::A(v) => Val::A(Rc::new(v.iter().map(kval).collect())),
    }
}
fn fop(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn fres(w: u32, v: f64) -> u128 {
    if w == 32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

impl Worker {
    pub fn new(m: &'static Module, entry: u32, cfg: Cfg, z: Z3) -> Worker {
        let mut mem = Mem { pages: vec![], next: 1, stacks: vec![vec![]], cur: 0, live: 0, bytes: 0 };
        for g in &m.globals {
            let id = mem.alloc(g.size as usize, 0);
            let o = mem.get_mut(id).expect("global");
            if let Some(b) = &g.init {
                o.bytes.copy_from_slice(b);
            }
            o.ro = g.constant;
            o.heap = false;
        }
        mem.live = 0;
        mem.bytes = 0;
        Worker { m, a: Arena::new(), z, cfg, pending: vec![], entry, init: mem, funcs: vec![false; m.funcs.len()], checks: 0, checks_sym: 0, forks: 0, steps: 0 }
    }
    pub fn start(&mut self, prefix: Vec<D>) -> State {
        let body = self.m.body(self.entry);
        self.funcs[self.entry as usize] = true;
        State {
            frames: vec![Frame { body, f: self.entry, pc: body.blocks[0].start, blk: 0, base: 0, ret: None, next: None, mark: 0 }],
            regs: vec![Val::C(0); body.nregs as usize],
            mem: self.init.clone(),
            pc: vec![],
            model: Rc::new(ModelC { a: Assign::new(), cache: RefCell::new(HashMap::new()) }),
            need_model: !prefix.is_empty(),
            forced: prefix.into(),
            decisions: vec![],
            i_dec: 0,
            i_pc: 0,
            syms: vec![],
            trace: vec![],
            witness: vec![],
            steps: 0,
            co: vec![Co { frames: vec![], regs: vec![], done: false }],
        }
    }
    // ------------------------------------------------------------ solving
    fn eval_model(&self, st: &State, e: E) -> u128 {
        self.a.eval(e, &st.model.a, &mut st.model.cache.borrow_mut())
    }
    pub fn eval_val(&self, st: &State, v: &Val) -> u64 {
        match v {
            Val::C(c) => *c as u64,
            Val::S(e) => self.eval_model(st, *e) as u64,
            Val::A(_) => 0,
        }
    }
    fn set_model(&mut self, st: &mut State, upd: &[(u32, u64)]) {
        let mut a = st.model.a.clone();
        for (k, v) in upd {
            a.insert(*k, *v);
        }
        st.model = Rc::new(ModelC { a, cache: RefCell::new(HashMap::new()) });
    }
    /// A model for the whole path condition (after replaying a prefix).
    fn remodel(&mut self, st: &mut State) -> R<()> {
        st.need_model = false;
        let mut rest: Vec<E> = st.pc.clone();
        while let Some(e) = rest.last().copied() {
            let sl = slice(&mut self.a, &rest, &[e]);
            match self.z.check(&mut self.a, sl.clone()) {
                Answer::Sat(m) => self.set_model(st, &m),
                Answer::Unsat => return Err(Stop::Infeasible),
                Answer::Unknown => return Err(Stop::Unknown),
            }
            rest.retain(|x| !sl.contains(x));
        }
        Ok(())
    }
    fn take_forced(&mut self, st: &mut State) -> R<Option<D>> {
        match st.forced.pop_front() {
            Some(d) => {
                st.decisions.push(d);
                Ok(Some(d))
            }
            None => {
                if st.need_model {
                    self.remodel(st)?;
                }
                Ok(None)
            }
        }
    }
    fn fork_other(&mut self, st: &State, d: D, upd: &[(u32, u64)]) {
        let mut o = st.clone();
        let mut f: Vec<D> = o.decisions.drain(o.i_dec..).collect();
        f.push(d);
        o.pc.truncate(o.i_pc);
        o.forced = f.into();
        self.set_model(&mut o, upd);
        self.forks += 1;
        self.pending.push(o);
    }
    /// Decide a symbolic condition; both sides are explored if both are feasible.
    fn branch(&mut self, st: &mut State, cond: E) -> R<bool> {
        if let Some(v) = self.a.k(cond) {
            return Ok(v == 1);
        }
        if let Some(d) = self.take_forced(st)? {
            if d.forked {
                let c = if d.taken { cond } else { self.a.not(cond) };
                st.pc.push(c);
            }
            return Ok(d.taken);
        }
        let v = self.eval_model(st, cond) == 1;
        let nc = self.a.not(cond);
        let (mine, other) = if v { (cond, nc) } else { (nc, cond) };
        let sl = slice(&mut self.a, &st.pc, &[other]);
        match self.z.check(&mut self.a, sl) {
            Answer::Unsat => {
                st.decisions.push(D { key: 0, taken: v, forked: false });
            }
            Answer::Sat(m) => {
                self.fork_other(st, D { key: 0, taken: !v, forked: true }, &m);
                st.decisions.push(D { key: 0, taken: v, forked: true });
                st.pc.push(mine);
            }
            Answer::Unknown => return Err(Stop::Unknown),
        }
        Ok(v)
    }
    /// Pin an expression to a value; every other feasible value is explored on another path.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.a.k(e) {
            return Ok(v);
        }
        let w = self.a.w(e);
        let mut tried = 0;
        loop {
            if let Some(d) = self.take_forced(st)? {
                let k = self.a.c(d.key, w);
                let eq = self.a.eq(e, k);
                if d.taken {
                    if d.forked {
                        st.pc.push(eq);
                    }
                    return Ok(d.key);
                }
                if d.forked {
                    let ne = self.a.not(eq);
                    st.pc.push(ne);
                }
                tried += 1;
                if tried > self.cfg.max_values {
                    let at = self.backtrace(st).first().cloned().unwrap_or_default();
                    return Err(Stop::Bound(format!("more than {} values at one place in {at}", self.cfg.max_values)));
                }
                continue;
            }
            let v = self.eval_model(st, e);
            let k = self.a.c(v, w);
            let eq = self.a.eq(e, k);
            let ne = self.a.not(eq);
            let sl = slice(&mut self.a, &st.pc, &[ne]);
            match self.z.check(&mut self.a, sl) {
                Answer::Unsat => {
                    st.decisions.push(D { key: v, taken: true, forked: false });
                }
                Answer::Sat(m) => {
                    self.fork_other(st, D { key: v, taken: false, forked: true }, &m);
                    st.decisions.push(D { key: v, taken: true, forked: true });
                    st.pc.push(eq);
                }
                Answer::Unknown => return Err(Stop::Unknown),
            }
            return Ok(v);
        }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => Err(Stop::Unsupported("aggregate as scalar".into())),
        }
    }
    fn truth(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::S(e) => self.branch(st, *e),
            Val::A(_) => Err(Stop::Unsupported("aggregate condition".into())),
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match self.a.k(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Infeasible),
            None => {}
        }
        if st.forced.is_empty() {
            self.ensure_model(st)?;
            if self.eval_model(st, c) != 1 {
                let sl = slice(&mut self.a, &st.pc, &[c]);
                match self.z.check(&mut self.a, sl) {
                    Answer::Unsat => return Err(Stop::Infeasible),
                    Answer::Sat(m) => self.set_model(st, &m),
                    Answer::Unknown => return Err(Stop::Unknown),
                }
            }
        }
        st.pc.push(c);
        Ok(())
    }
    pub fn tape(&self, st: &State, extra: &[(u32, u64)]) -> Vec<u64> {
        let ex: HashMap<u32, u64> = extra.iter().copied().collect();
        st.syms.iter().map(|v| ex.get(v).copied().unwrap_or_else(|| st.model.a.get(v).copied().unwrap_or(0))).collect()
    }
    pub fn ensure_model(&mut self, st: &mut State) -> R<()> {
        if st.need_model {
            self.remodel(st)?;
        }
        Ok(())
    }
    // ------------------------------------------------------------ values
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.a.c(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expression"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.a.k(e) {
            Some(c) => Val::C(c),
            None => Val::S(e),
        }
    }
    fn opd(&self, st: &State, base: u32, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.regs[(base + r) as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::A(k) => kval(k),
        }
    }
    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(bin(op, w, *x, *y));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.a.bin(op, x, y);
        self.v(r)
    }
    fn cmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            return Val::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            } as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let a = &mut self.a;
        let r = match p {
            Pred::Eq => a.eq(x, y),
            Pred::Ne => {
                let t = a.eq(x, y);
                a.not(t)
            }
            Pred::Ugt => a.ult(y, x),
            Pred::Uge => a.ule(y, x),
            Pred::Ult => a.ult(x, y),
            Pred::Ule => a.ule(x, y),
            Pred::Sgt => a.slt(y, x),
            Pred::Sge => {
                let t = a.slt(x, y);
                a.not(t)
            }
            Pred::Slt => a.slt(x, y),
            Pred::Sle => {
                let t = a.slt(y, x);
                a.not(t)
            }
        };
        self.v(r)
    }
    fn cast1(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(match k {
                CastK::Trunc => x & mask(tw),
                CastK::ZExt => *x,
                CastK::SExt => sx(*x, fw) as u128 & mask(tw),
            }),
            Val::S(e) => {
                let r = match k {
                    CastK::Trunc => self.a.extract(*e, 0, tw),
                    CastK::ZExt => self.a.zext(*e, tw),
                    CastK::SExt => self.a.sext(*e, tw),
                };
                self.v(r)
            }
            Val::A(_) => Val::C(0),
        }
    }
    /// f32 to f64, bit for bit.
    fn fpext(&mut self, e: E) -> E {
        let a = &mut self.a;
        let s = a.extract(e, 31, 1);
        let x = a.extract(e, 23, 8);
        let m = a.extract(e, 0, 23);
        let z29 = a.c(0, 29);
        let m52 = a.concat(m, z29);
        let x11 = a.zext(x, 11);
        let bias = a.c(896, 11);
        let n = a.bin(BinOp::Add, x11, bias);
        let normal = a.concat(n, m52);
        let top = a.c(0x7ff, 11);
        let quiet = a.c(1u128 << 51, 52);
        let qm = a.bin(BinOp::Or, m52, quiet);
        let zero23 = a.c(0, 23);
        let is0 = a.eq(m, zero23);
        let im = a.ite(is0, m52, qm);
        let inf = a.concat(top, im);
        let mut sub = a.c(0, 63);
        let m52z = a.zext(m, 52);
        for k in 0..23u32 {
            let bit = a.extract(m, k, 1);
            let sh = a.c(52 - k as u128, 52);
            let v = a.bin(BinOp::Shl, m52z, sh);
            let ex = a.c(k as u128 + 874, 11);
            let v = a.concat(ex, v);
            sub = a.ite(bit, v, sub);
        }
        let c255 = a.c(255, 8);
        let c0 = a.c(0, 8);
        let i255 = a.eq(x, c255);
        let i0 = a.eq(x, c0);
        let r = a.ite(i255, inf, normal);
        let r = a.ite(i0, sub, r);
        a.concat(s, r)
    }
    fn lanes(v: &Val, i: usize) -> Val {
        match v {
            Val::A(x) => x.get(i).cloned().unwrap_or(Val::C(0)),
            s => s.clone(),
        }
    }
    fn to_bits(&mut self, t: &Ty, v: &Val) -> R<(Val, u32)> {
        match v {
            Val::A(x) => {
                let et = t.elem(0).clone();
                let mut acc = Val::C(0);
                let mut w = 0u32;
                for l in x.iter() {
                    let (b, bw) = self.to_bits(&et, l)?;
                    if w + bw > 128 {
                        return Err(Stop::Unsupported("bitcast wider than 128".into()));
                    }
                    acc = self.cat(&b, bw, &acc, w);
                    w += bw;
                }
                Ok((acc, w))
            }
            s => Ok((s.clone(), t.scalar())),
        }
    }
    /// hi:lo
    fn cat(&mut self, h: &Val, hw: u32, l: &Val, lw: u32) -> Val {
        if lw == 0 {
            return h.clone();
        }
        if let (Val::C(x), Val::C(y)) = (h, l) {
            return Val::C((x << lw) | y);
        }
        let (x, y) = (self.e(h, hw), self.e(l, lw));
        let r = self.a.concat(x, y);
        self.v(r)
    }
    fn sub_bits(&mut self, v: &Val, w: u32, lo: u32, n: u32) -> Val {
        let _ = w;
        match v {
            Val::C(c) => Val::C((c >> lo) & mask(n)),
            Val::S(e) => {
                let r = self.a.extract(*e, lo, n);
                self.v(r)
            }
            Val::A(_) => Val::C(0),
        }
    }
    fn from_bits(&mut self, t: &Ty, v: &Val, w: u32) -> Val {
        match t {
            Ty::Vector(n, et) => {
                let ew = et.scalar();
                let x = (0..*n).map(|i| self.sub_bits(v, w, i * ew, ew)).collect();
                Val::A(Rc::new(x))
            }
            _ => v.clone(),
        }
    }
    // ------------------------------------------------------------ memory
    fn obj<'a>(&self, st: &'a State, p: u64, n: u64, what: &str) -> R<(&'a Obj, usize)> {
        let (id, off) = split(p);
        match st.mem.get(id) {
            Some(o) => {
                if off as u64 + n > o.bytes.len() as u64 {
                    return Err(Stop::Bug(format!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.bytes.len())));
                }
                Ok((o, off as usize))
            }
            None => Err(Stop::Bug(format!("{what} through a dangling or null pointer {p:#x}"))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, p: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (id, off) = split(p);
        match st.mem.get_mut(id) {
            Some(o) => {
                if off as u64 + n > o.bytes.len() as u64 {
                    return Err(Stop::Bug(format!("write of {n} bytes at offset {off} of an object of {} bytes", o.bytes.len())));
                }
                if o.ro {
                    return Err(Stop::Bug("write to constant memory".into()));
                }
                Ok((o, off as usize))
            }
            None => Err(Stop::Bug(format!("write through a dangling or null pointer {p:#x}"))),
        }
    }
    fn load_int(&mut self, st: &State, p: u64, w: u32) -> R<Val> {
        let n = (w as usize).div_ceil(8);
        let (o, off) = self.obj(st, p, n as u64, "read")?;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let parts: Vec<Val> = (0..n).map(|i| if s[off + i] != 0 { Val::S(s[off + i]) } else { Val::C(o.bytes[off + i] as u128) }).collect();
                let mut acc = parts[0].clone();
                for (i, b) in parts.iter().enumerate().skip(1) {
                    acc = self.cat(b, 8, &acc, 8 * i as u32);
                }
                if w % 8 != 0 {
                    acc = self.sub_bits(&acc, 8 * n as u32, 0, w);
                }
                return Ok(acc);
            }
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.bytes[off..off + n]);
        Ok(Val::C(u128::from_le_bytes(b) & mask(w)))
    }
    fn store_int(&mut self, st: &mut State, p: u64, w: u32, v: &Val) -> R<()> {
        let n = (w as usize).div_ceil(8);
        match v {
            Val::C(c) => {
                let (o, off) = self.obj_mut(st, p, n as u64)?;
                o.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                let full = if w % 8 != 0 { self.a.zext(*e, 8 * n as u32) } else { *e };
                let bytes: Vec<E> = (0..n).map(|i| self.a.extract(full, 8 * i as u32, 8)).collect();
                let ks: Vec<Option<u128>> = bytes.iter().map(|b| self.a.k(*b)).collect();
                let (o, off) = self.obj_mut(st, p, n as u64)?;
                let len = o.bytes.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n {
                    match ks[i] {
                        Some(k) => {
                            o.bytes[off + i] = k as u8;
                            s[off + i] = 0;
                        }
                        None => s[off + i] = bytes[i],
                    }
                }
            }
            Val::A(_) => return Err(Stop::Unsupported("aggregate store as scalar".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, p: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Vector(n, et) => {
                let w = et.scalar();
                if w % 8 != 0 {
                    return Err(Stop::Unsupported("vector of sub-byte lanes in memory".into()));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_int(st, p + (i * w / 8) as u64, w)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = vec![];
                for i in 0..t.count() {
                    v.push(self.load(st, p + t.field_offset(i), t.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => self.load_int(st, p, t.scalar()),
        }
    }
    fn store(&mut self, st: &mut State, p: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Vector(..) | Ty::Struct(..) | Ty::Array(..), Val::A(x)) => {
                for i in 0..t.count() {
                    self.store(st, p + t.field_offset(i), t.elem(i), &x[i])?;
                }
                Ok(())
            }
            _ => self.store_int(st, p, t.scalar(), v),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(st, s, n, "read")?;
        let n = n as usize;
        let b = o.bytes[off..off + n].to_vec();
        let y = o.sym.as_ref().and_then(|y| if y[off..off + n].iter().any(|x| *x != 0) { Some(y[off..off + n].to_vec()) } else { None });
        let (o, off) = self.obj_mut(st, d, n as u64)?;
        o.bytes[off..off + n].copy_from_slice(&b);
        match y {
            Some(y) => {
                let len = o.bytes.len();
                let z = o.sym.get_or_insert_with(|| vec![0; len]);
                z[off..off + n].copy_from_slice(&y);
            }
            None => {
                if let Some(z) = &mut o.sym {
                    z[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn byte(&self, st: &State, p: u64) -> R<Val> {
        let (o, off) = self.obj(st, p, 1, "read")?;
        Ok(match &o.sym {
            Some(s) if s[off] != 0 => Val::S(s[off]),
            _ => Val::C(o.bytes[off] as u128),
        })
    }
    fn string(&self, st: &State, p: u64, n: u64) -> String {
        match self.obj(st, p, n, "read") {
            Ok((o, off)) => String::from_utf8_lossy(&o.bytes[off..off + n as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }
    /// A read of a small table at a symbolic index stays symbolic.
    fn table_read(&mut self, st: &mut State, e: E, w: u32) -> R<Option<Val>> {
        if !st.forced.is_empty() || st.need_model {
            // keep it simple while replaying: the same decisions are taken in the same order
        }
        let n = (w / 8) as u64;
        if w % 8 != 0 || w > 64 {
            return Ok(None);
        }
        // constant base: the object of the expression's constant part
        let base = match self.a.n[e as usize].0 {
            N::Bin(BinOp::Add, _, c) => match self.a.k(c) {
                Some(k) => k as u64,
                None => return Ok(None),
            },
            _ => return Ok(None),
        };
        let (id, _) = split(base);
        let (size, ro) = match st.mem.get(id) {
            Some(o) if o.sym.is_none() => (o.bytes.len() as u64, o.ro),
            _ => return Ok(None),
        };
        if !ro || size > 1024 || size < n {
            return Ok(None);
        }
        let hi = self.a.extract(e, 32, 32);
        let idc = self.a.c(id as u128, 32);
        let same = self.a.eq(hi, idc);
        if !self.branch(st, same)? {
            return Ok(None);
        }
        let off = self.a.extract(e, 0, 32);
        let lim = self.a.c((size - n) as u128, 32);
        let inb = self.a.ule(off, lim);
        if !self.branch(st, inb)? {
            return Err(Stop::Bug("read past a constant table".into()));
        }
        let bytes = st.mem.get(id).map(|o| o.bytes.clone()).unwrap_or_default();
        let at = |o: u64| {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&bytes[o as usize..(o + n) as usize]);
            u128::from_le_bytes(b)
        };
        // stride: element size when the offset is a shifted index, else one byte
        let step = if n > 1 && matches!(self.a.n[off as usize].0, N::Concat(..)) { n } else { 1 };
        let mut runs: Vec<(u64, u128)> = vec![];
        let mut o = 0;
        while o + n <= size {
            let v = at(o);
            match runs.last() {
                Some((_, lv)) if *lv == v => {}
                _ => runs.push((o, v)),
            }
            o += step;
        }
        let mut acc = self.a.c(runs.last().map(|r| r.1).unwrap_or(0), w);
        for i in (0..runs.len().saturating_sub(1)).rev() {
            let end = self.a.c(runs[i + 1].0 as u128, 32);
            let c = self.a.ult(off, end);
            let v = self.a.c(runs[i].1, w);
            acc = self.a.ite(c, v, acc);
        }
        Ok(Some(self.v(acc)))
    }

    // ------------------------------------------------------------ running
    fn jump(&mut self, st: &mut State, to: u32) {
        let (from, base, body) = {
            let f = st.frames.last().expect("frame");
            (f.blk, f.base, f.body)
        };
        let b = &body.blocks[to as usize];
        if !b.edges.is_empty() {
            if let Some((_, asg)) = b.edges.iter().find(|e| e.0 == from) {
                if asg.len() == 1 {
                    let v = self.opd(st, base, &asg[0].1);
                    st.regs[(base + asg[0].0) as usize] = v;
                } else {
                    let vals: Vec<Val> = asg.iter().map(|(_, o)| self.opd(st, base, o)).collect();
                    for ((d, _), v) in asg.iter().zip(vals) {
                        st.regs[(base + d) as usize] = v;
                    }
                }
            }
        }
        let f = st.frames.last_mut().expect("frame");
        f.blk = to;
        f.pc = b.start;
    }
    fn done_call(&mut self, st: &mut State, d: Option<u32>, v: Val, next: Option<u32>) {
        let base = st.frames.last().expect("frame").base;
        if let Some(d) = d {
            st.regs[(base + d) as usize] = v;
        }
        match next {
            Some(n) => self.jump(st, n),
            None => st.frames.last_mut().expect("frame").pc += 1,
        }
    }
    /// Run until the path ends.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            if st.steps >= self.cfg.max_steps {
                return Stop::Steps;
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].name.clone()).collect()
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.i_dec = st.decisions.len();
        st.i_pc = st.pc.len();
        st.steps += 1;
        self.steps += 1;
        let (body, pc, base) = {
            let f = &st.frames[st.frames.len() - 1];
            (f.body, f.pc, f.base)
        };
        macro_rules! o {
            ($x:expr) => {
                self.opd(st, base, $x)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[(base + $d) as usize] = v;
                let k = st.frames.len() - 1;
                st.frames[k].pc += 1;
            }};
        }
        match &body.insts[pc as usize] {
            Inst::Bin { d, op, w, n, a, b } => {
                let (x, y) = (o!(a), o!(b));
                if *n == 0 {
                    set!(d, self.bin1(*op, *w, &x, &y))
                } else {
                    let v = (0..*n as usize).map(|i| self.bin1(*op, *w, &Self::lanes(&x, i), &Self::lanes(&y, i))).collect();
                    set!(d, Val::A(Rc::new(v)))
                }
            }
            Inst::Icmp { d, p, w, n, a, b } => {
                let (x, y) = (o!(a), o!(b));
                if *n == 0 {
                    set!(d, self.cmp1(*p, *w, &x, &y))
                } else {
                    let v = (0..*n as usize).map(|i| self.cmp1(*p, *w, &Self::lanes(&x, i), &Self::lanes(&y, i))).collect();
                    set!(d, Val::A(Rc::new(v)))
                }
            }
            Inst::Cast { d, k, fw, tw, n, a } => {
                let x = o!(a);
                if *n == 0 {
                    set!(d, self.cast1(*k, *fw, *tw, &x))
                } else {
                    let v = (0..*n as usize).map(|i| self.cast1(*k, *fw, *tw, &Self::lanes(&x, i))).collect();
                    set!(d, Val::A(Rc::new(v)))
                }
            }
            Inst::Bitcast { d, f, t, a } => {
                let x = o!(a);
                let (b, w) = self.to_bits(f, &x)?;
                set!(d, self.from_bits(t, &b, w))
            }
            Inst::FBin { d, op, w, a, b } => {
                let (x, y) = (o!(a), o!(b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = (fop(*w, x), fop(*w, y));
                let r = match op {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    3 => x / y,
                    4 => x % y,
                    _ => -x,
                };
                set!(d, Val::C(fres(*w, r)))
            }
            Inst::FCmp { d, p, w, a, b } => {
                let (x, y) = (o!(a), o!(b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = (fop(*w, x), fop(*w, y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => x != y,
                    "true" => true,
                    _ => false,
                };
                set!(d, Val::C(r as u128))
            }
            Inst::FCast { d, k, fw, tw, a } => {
                let x = o!(a);
                if let (Val::S(e), "fpext", 32, 64) = (&x, k.as_str(), *fw, *tw) {
                    let r = self.fpext(*e);
                    set!(d, Val::S(r));
                    return Ok(());
                }
                let x = self.conc(st, &x)?;
                let r = match k.as_str() {
                    "fpext" | "fptrunc" => fres(*tw, fop(*fw, x)),
                    "uitofp" => fres(*tw, x as f64),
                    "sitofp" => fres(*tw, sx(x, *fw) as f64),
                    "fptoui" => (fop(*fw, x) as u128) & mask(*tw),
                    _ => (fop(*fw, x) as i128) as u128 & mask(*tw),
                };
                set!(d, Val::C(r))
            }
            Inst::Load { d, ty, w, p } => {
                let q = o!(p);
                let a = match &q {
                    Val::C(c) => *c as u64,
                    Val::S(e) => {
                        if *w > 0 {
                            if let Some(v) = self.table_read(st, *e, *w)? {
                                set!(d, v);
                                return Ok(());
                            }
                        }
                        self.concretize(st, *e)? as u64
                    }
                    _ => return Err(Stop::Unsupported("vector load address".into())),
                };
                let v = if *w > 0 { self.load_int(st, a, *w)? } else { self.load(st, a, ty)? };
                set!(d, v)
            }
            Inst::Store { ty, w, v, p } => {
                let q = o!(p);
                let a = self.conc(st, &q)? as u64;
                let x = o!(v);
                if *w > 0 {
                    self.store_int(st, a, *w, &x)?
                } else {
                    self.store(st, a, ty, &x)?
                }
                st.frames.last_mut().expect("frame").pc += 1;
            }
            Inst::Gep { d, base: b, off, terms } => {
                let mut acc = o!(b);
                let mut k = *off as i128;
                for (t, w, s) in terms {
                    let x = o!(t);
                    match &x {
                        Val::C(c) => k += sx(*c, *w) * (*s as i128),
                        _ => {
                            let y = if *w < 64 { self.cast1(CastK::SExt, *w, 64, &x) } else { x };
                            let y = if *s == 1 {
                                y
                            } else if *s > 0 && (*s as u64).is_power_of_two() {
                                self.bin1(BinOp::Shl, 64, &y, &Val::C((*s as u64).trailing_zeros() as u128))
                            } else {
                                self.bin1(BinOp::Mul, 64, &y, &Val::C((*s as u64) as u128))
                            };
                            acc = self.bin1(BinOp::Add, 64, &acc, &y);
                        }
                    }
                }
                if k != 0 {
                    acc = self.bin1(BinOp::Add, 64, &acc, &Val::C(k as u128 & mask(64)));
                }
                set!(d, acc)
            }
            Inst::Alloca { d, size, n } => {
                let k = match n {
                    Some(x) => {
                        let x = o!(x);
                        self.conc(st, &x)? as u64
                    }
                    None => 1,
                };
                let id = STACK + ((st.mem.cur as u32) << LANE) + st.mem.top().len() as u32;
                st.mem.top().push(Rc::new(Obj { bytes: vec![0xA5; (size * k) as usize], sym: None, ro: false, heap: false }));
                set!(d, Val::C(obj_addr(id) as u128))
            }
            Inst::Select { d, w, n, cn, c, a, b } => {
                let c = o!(c);
                let (x, y) = (o!(a), o!(b));
                if *cn > 0 {
                    let v = (0..*cn as usize)
                        .map(|i| {
                            let (ci, xi, yi) = (Self::lanes(&c, i), Self::lanes(&x, i), Self::lanes(&y, i));
                            self.sel(*w, &ci, &xi, &yi)
                        })
                        .collect();
                    set!(d, Val::A(Rc::new(v)))
                } else {
                    let r = match &c {
                        Val::C(k) => {
                            if *k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::S(e) => {
                            if *w == 0 || *n > 0 {
                                if self.branch(st, *e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.sel(*w, &c, &x, &y)
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    };
                    set!(d, r)
                }
            }
            Inst::Copy { d, a } => {
                let x = o!(a);
                set!(d, x)
            }
            Inst::ExtractValue { d, a, path } => {
                let mut x = o!(a);
                for i in path {
                    x = match &x {
                        Val::A(v) => v[*i as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue of scalar".into())),
                    };
                }
                set!(d, x)
            }
            Inst::InsertValue { d, a, v, path } => {
                let x = o!(a);
                let y = o!(v);
                fn ins(x: &Val, path: &[u32], y: Val) -> Val {
                    match x {
                        Val::A(v) => {
                            let mut v = (**v).clone();
                            let i = path[0] as usize;
                            v[i] = if path.len() == 1 { y } else { ins(&v[i], &path[1..], y) };
                            Val::A(Rc::new(v))
                        }
                        s => s.clone(),
                    }
                }
                set!(d, ins(&x, path, y))
            }
            Inst::ExtractElem { d, a, i } => {
                let x = o!(a);
                let i = o!(i);
                let i = self.conc(st, &i)? as usize;
                set!(d, Self::lanes(&x, i))
            }
            Inst::InsertElem { d, a, v, i } => {
                let x = o!(a);
                let y = o!(v);
                let i = o!(i);
                let i = self.conc(st, &i)? as usize;
                let r = match x {
                    Val::A(v) => {
                        let mut v = (*v).clone();
                        v[i] = y;
                        Val::A(Rc::new(v))
                    }
                    _ => return Err(Stop::Unsupported("insertelement".into())),
                };
                set!(d, r)
            }
            Inst::Shuffle { d, a, b, n, mask } => {
                let (x, y) = (o!(a), o!(b));
                let v = mask
                    .iter()
                    .map(|m| {
                        let m = *m;
                        if m < 0 {
                            Val::C(0)
                        } else if (m as u32) < *n {
                            Self::lanes(&x, m as usize)
                        } else {
                            Self::lanes(&y, m as usize - *n as usize)
                        }
                    })
                    .collect();
                set!(d, Val::A(Rc::new(v)))
            }
            Inst::Rmw { d, op, w, p, v } => {
                let q = o!(p);
                let a = self.conc(st, &q)? as u64;
                let y = o!(v);
                let old = self.load_int(st, a, *w)?;
                let new = match op {
                    0 => y,
                    1 => self.bin1(BinOp::Add, *w, &old, &y),
                    2 => self.bin1(BinOp::Sub, *w, &old, &y),
                    3 => self.bin1(BinOp::And, *w, &old, &y),
                    4 => {
                        let t = self.bin1(BinOp::And, *w, &old, &y);
                        self.bin1(BinOp::Xor, *w, &t, &Val::C(mask(*w)))
                    }
                    5 => self.bin1(BinOp::Or, *w, &old, &y),
                    6 => self.bin1(BinOp::Xor, *w, &old, &y),
                    k => {
                        let pr = [Pred::Sgt, Pred::Slt, Pred::Ugt, Pred::Ult][*k as usize - 7];
                        let c = self.cmp1(pr, *w, &old, &y);
                        self.sel(*w, &c, &old, &y)
                    }
                };
                self.store_int(st, a, *w, &new)?;
                set!(d, old)
            }
            Inst::CmpXchg { d, w, p, c, v } => {
                let q = o!(p);
                let a = self.conc(st, &q)? as u64;
                let (cc, nv) = (o!(c), o!(v));
                let old = self.load_int(st, a, *w)?;
                let eq = self.cmp1(Pred::Eq, *w, &old, &cc);
                let t = self.truth(st, &eq)?;
                if t {
                    self.store_int(st, a, *w, &nv)?;
                }
                set!(d, Val::A(Rc::new(vec![old, Val::C(t as u128)])))
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr(c, t, f) => {
                let c = o!(c);
                let to = if self.truth(st, &c)? { *t } else { *f };
                self.jump(st, to)
            }
            Inst::Switch { w, v, def, cases } => {
                let x = o!(v);
                let to = match &x {
                    Val::C(c) => cases.iter().find(|k| k.0 == *c).map(|k| k.1).unwrap_or(*def),
                    Val::S(e) => {
                        let e = *e;
                        let mut targets: Vec<u32> = vec![];
                        for (_, t) in cases {
                            if !targets.contains(t) && t != def {
                                targets.push(*t)
                            }
                        }
                        let mut r = None;
                        for t in targets {
                            let mut any = self.a.c(0, 1);
                            for (k, ct) in cases {
                                if *ct == t {
                                    let k = self.a.c(*k, *w);
                                    let q = self.a.eq(e, k);
                                    any = self.a.or1(any, q);
                                }
                            }
                            if self.branch(st, any)? {
                                r = Some(t);
                                break;
                            }
                        }
                        r.unwrap_or(*def)
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                };
                self.jump(st, to)
            }
            Inst::Ret(v) => {
                let x = match v {
                    Some(v) => o!(v),
                    None => Val::C(0),
                };
                let f = st.frames.pop().expect("frame");
                st.regs.truncate(f.base as usize);
                st.mem.top().truncate(f.mark as usize);
                if st.frames.is_empty() {
                    let c = st.mem.cur;
                    if c == 0 {
                        return Err(Stop::Done);
                    }
                    self.switch(st, 0);
                    st.co[c].done = true;
                    return Ok(());
                }
                self.done_call(st, f.ret, x, f.next)
            }
            Inst::Unreachable => return Err(Stop::Bug("reached unreachable code".into())),
            Inst::Nop => st.frames.last_mut().expect("frame").pc += 1,
            Inst::Bad(m) => return Err(Stop::Unsupported(m.clone())),
            Inst::Intr { d, id, name, w, n, args, next } => {
                let a: Vec<Val> = args.iter().map(|x| o!(x)).collect();
                let v = self.intr(st, *id, name, *w, *n, &a)?;
                self.done_call(st, *d, v, *next)
            }
            Inst::Call { d, f, args, next } => {
                let fi = match f {
                    Callee::Fn(i) => *i,
                    Callee::Ptr(p) => {
                        let q = o!(p);
                        let a = self.conc(st, &q)? as u64;
                        if a >> 32 != FN_BASE || (a as u32 >> 4) as usize >= self.m.funcs.len() {
                            return Err(Stop::Bug(format!("call through {a:#x}")));
                        }
                        a as u32 >> 4
                    }
                };
                let func = &self.m.funcs[fi as usize];
                if func.panics {
                    let loc = args.last().map(|x| o!(x));
                    let mut at = String::new();
                    if let Some(Val::C(p)) = loc {
                        if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line))) = (self.load_int(st, p as u64, 64), self.load_int(st, p as u64 + 8, 64), self.load_int(st, p as u64 + 16, 32)) {
                            if fl < 300 {
                                at = format!(" at {}:{line}", self.string(st, fp as u64, fl as u64));
                            }
                        }
                    }
                    return Err(Stop::Bug(format!("panic{at} ({})", func.name)));
                }
                let a: Vec<Val> = args.iter().map(|x| o!(x)).collect();
                if func.text.is_none() && func.ext.starts_with("vp_co_") {
                    return self.coroutine(st, &func.ext, &a, *d, *next);
                }
                if func.text.is_none() {
                    let v = self.ext(st, &func.ext, &a)?;
                    self.done_call(st, *d, v, *next);
                    return Ok(());
                }
                let nb = self.m.body(fi);
                self.funcs[fi as usize] = true;
                if st.frames.len() > 2000 {
                    return Err(Stop::Bug("stack overflow".into()));
                }
                let nbase = st.regs.len() as u32;
                st.regs.resize(nbase as usize + nb.nregs as usize, Val::C(0));
                for (i, v) in a.into_iter().enumerate().take(nb.nparams as usize) {
                    st.regs[nbase as usize + i] = v;
                }
                let mark = st.mem.top().len() as u32;
                st.frames.push(Frame { body: nb, f: fi, pc: nb.blocks[0].start, blk: 0, base: nbase, ret: *d, next: *next, mark });
            }
        }
        Ok(())
    }
    fn switch(&mut self, st: &mut State, to: usize) {
        let c = st.mem.cur;
        std::mem::swap(&mut st.frames, &mut st.co[c].frames);
        std::mem::swap(&mut st.regs, &mut st.co[c].regs);
        std::mem::swap(&mut st.frames, &mut st.co[to].frames);
        std::mem::swap(&mut st.regs, &mut st.co[to].regs);
        st.mem.cur = to;
    }
    fn coroutine(&mut self, st: &mut State, name: &str, a: &[Val], d: Option<u32>, next: Option<u32>) -> R<()> {
        match name {
            "vp_co_new" => {
                let f = self.conc(st, &a[0])? as u64;
                if f >> 32 != FN_BASE || (f as u32 >> 4) as usize >= self.m.funcs.len() {
                    return Err(Stop::Bug(format!("coroutine at {f:#x}")));
                }
                let fi = f as u32 >> 4;
                let body = self.m.body(fi);
                self.funcs[fi as usize] = true;
                let mut regs = vec![Val::C(0); body.nregs as usize];
                regs[0] = a[1].clone();
                let id = st.co.len();
                st.co.push(Co { frames: vec![Frame { body, f: fi, pc: body.blocks[0].start, blk: 0, base: 0, ret: None, next: None, mark: 0 }], regs, done: false });
                st.mem.stacks.push(vec![]);
                self.done_call(st, d, Val::C(id as u128), next);
            }
            "vp_co_resume" => {
                let id = self.conc(st, &a[0])? as usize;
                if st.mem.cur != 0 || id == 0 || id >= st.co.len() || st.co[id].done {
                    return Err(Stop::Unsupported("resume".into()));
                }
                self.done_call(st, d, Val::C(0), next);
                self.switch(st, id);
            }
            "vp_co_yield" => {
                if st.mem.cur == 0 {
                    return Err(Stop::Unsupported("yield outside a coroutine".into()));
                }
                self.done_call(st, d, Val::C(0), next);
                self.switch(st, 0);
            }
            "vp_co_done" => {
                let id = self.conc(st, &a[0])? as usize;
                let v = st.co.get(id).is_none_or(|c| c.done);
                self.done_call(st, d, Val::C(v as u128), next);
            }
            "vp_co_id" => {
                let id = st.mem.cur;
                self.done_call(st, d, Val::C(id as u128), next);
            }
            _ => return Err(Stop::Unsupported(name.into())),
        }
        Ok(())
    }
    fn sel(&mut self, w: u32, c: &Val, x: &Val, y: &Val) -> Val {
        match c {
            Val::C(k) => {
                if *k & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::S(e) => {
                let (p, q) = (self.e(x, w), self.e(y, w));
                let r = self.a.ite(*e, p, q);
                self.v(r)
            }
            Val::A(_) => x.clone(),
        }
    }
    fn map1(&mut self, n: u32, a: &[Val], mut f: impl FnMut(&mut Self, &[Val]) -> R<Val>) -> R<Val> {
        if n == 0 {
            return f(self, a);
        }
        let mut out = vec![];
        for i in 0..n as usize {
            let l: Vec<Val> = a.iter().map(|x| Self::lanes(x, i)).collect();
            out.push(f(self, &l)?);
        }
        Ok(Val::A(Rc::new(out)))
    }
    fn intr(&mut self, st: &mut State, id: Intr, name: &str, w: u32, n: u32, a: &[Val]) -> R<Val> {
        match id {
            Intr::Nop => Ok(Val::C(0)),
            Intr::Ident | Intr::Expect => Ok(a[0].clone()),
            Intr::IsConst => Ok(Val::C(0)),
            Intr::ObjectSize => Ok(Val::C(mask(w))),
            Intr::Trap => Err(Stop::Bug("abort".into())),
            Intr::MemCpy => {
                let len = self.alloc_size(st, &a[2], "copy")?;
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                self.copy(st, d, s, len)?;
                Ok(Val::C(0))
            }
            Intr::MemSet => {
                if let (Val::S(e), Val::C(c)) = (&a[2], &a[1]) {
                    // a long fill of symbolic length: byte by byte, conditional on the length
                    let w = self.a.w(*e);
                    let small = self.a.c(64, w);
                    let small = self.a.ule(*e, small);
                    if !self.branch(st, small)? {
                        let d = self.conc(st, &a[0])? as u64;
                        let room = {
                            let (o, off) = self.obj_mut(st, d, 1)?;
                            o.bytes.len() - off
                        };
                        if room <= 1 << 13 {
                            let lim = self.a.c(room as u128, w);
                            let fits = self.a.ule(*e, lim);
                            if !self.branch(st, fits)? {
                                return Err(Stop::Bug(format!("fill of more than the {room} bytes there are")));
                            }
                            let fill = self.a.c(*c & 0xff, 8);
                            for i in 0..room as u64 {
                                let old = self.load_int(st, d + i, 8)?;
                                let old = self.e(&old, 8);
                                let k = self.a.c(i as u128, w);
                                let inside = self.a.ult(k, *e);
                                let b = self.a.ite(inside, fill, old);
                                self.store_int(st, d + i, 8, &Val::S(b))?;
                            }
                            return Ok(Val::C(0));
                        }
                    }
                }
                let len = self.alloc_size(st, &a[2], "fill")?;
                let d = self.conc(st, &a[0])? as u64;
                if len == 0 {
                    return Ok(Val::C(0));
                }
                let (o, off) = self.obj_mut(st, d, len)?;
                let nn = len as usize;
                match &a[1] {
                    Val::C(c) => {
                        o.bytes[off..off + nn].fill(*c as u8);
                        if let Some(z) = &mut o.sym {
                            z[off..off + nn].fill(0);
                        }
                    }
                    Val::S(e) => {
                        let l = o.bytes.len();
                        let z = o.sym.get_or_insert_with(|| vec![0; l]);
                        z[off..off + nn].fill(*e);
                    }
                    _ => {}
                }
                Ok(Val::C(0))
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => self.map1(n, a, |s, a| {
                let p = match id {
                    Intr::UMax => Pred::Ugt,
                    Intr::UMin => Pred::Ult,
                    Intr::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = s.cmp1(p, w, &a[0], &a[1]);
                Ok(s.sel(w, &c, &a[0], &a[1]))
            }),
            Intr::Abs => self.map1(n, a, |s, a| {
                let c = s.cmp1(Pred::Slt, w, &a[0], &Val::C(0));
                let ng = s.bin1(BinOp::Sub, w, &Val::C(0), &a[0]);
                Ok(s.sel(w, &c, &ng, &a[0]))
            }),
            Intr::UAddSat => self.map1(n, a, |s, a| {
                let r = s.bin1(BinOp::Add, w, &a[0], &a[1]);
                let c = s.cmp1(Pred::Ult, w, &r, &a[0]);
                Ok(s.sel(w, &c, &Val::C(mask(w)), &r))
            }),
            Intr::USubSat => self.map1(n, a, |s, a| {
                let r = s.bin1(BinOp::Sub, w, &a[0], &a[1]);
                let c = s.cmp1(Pred::Ult, w, &a[0], &a[1]);
                Ok(s.sel(w, &c, &Val::C(0), &r))
            }),
            Intr::SAddSat | Intr::SSubSat => Err(Stop::Unsupported(name.into())),
            Intr::AddO => {
                let r = self.bin1(BinOp::Add, w, &a[0], &a[1]);
                let c = self.cmp1(Pred::Ult, w, &r, &a[0]);
                Ok(Val::A(Rc::new(vec![r, c])))
            }
            Intr::SubO => {
                let r = self.bin1(BinOp::Sub, w, &a[0], &a[1]);
                let c = self.cmp1(Pred::Ult, w, &a[0], &a[1]);
                Ok(Val::A(Rc::new(vec![r, c])))
            }
            Intr::MulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if w > 64 {
                    return Err(Stop::Unsupported(name.into()));
                }
                let k = if id == Intr::MulO { CastK::ZExt } else { CastK::SExt };
                let x = self.cast1(k, w, 2 * w, &a[0]);
                let y = self.cast1(k, w, 2 * w, &a[1]);
                let op = match id {
                    Intr::SAddO => BinOp::Add,
                    Intr::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin1(op, 2 * w, &x, &y);
                let lo = self.cast1(CastK::Trunc, 2 * w, w, &r);
                let back = self.cast1(k, w, 2 * w, &lo);
                let c = self.cmp1(Pred::Ne, 2 * w, &back, &r);
                Ok(Val::A(Rc::new(vec![lo, c])))
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = w >> 16;
                let w = w & 0xffff;
                let (lt, gt) = if id == Intr::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp1(lt, w, &a[0], &a[1]);
                let g = self.cmp1(gt, w, &a[0], &a[1]);
                let t = self.sel(rw, &g, &Val::C(1), &Val::C(0));
                Ok(self.sel(rw, &l, &Val::C(mask(rw)), &t))
            }
            Intr::Ctlz | Intr::Cttz => self.map1(n, a, |s, a| {
                match &a[0] {
                    Val::C(c) => Ok(Val::C(if *c == 0 {
                        w as u128
                    } else if id == Intr::Cttz {
                        c.trailing_zeros() as u128
                    } else {
                        (c.leading_zeros() - (128 - w)) as u128
                    })),
                    Val::S(e) => {
                        let mut acc = s.a.c(w as u128, w);
                        for i in 0..w {
                            // later iterations take precedence
                            let bit = if id == Intr::Cttz { w - 1 - i } else { i };
                            let b = s.a.extract(*e, bit, 1);
                            let k = if id == Intr::Cttz { bit } else { w - 1 - bit };
                            let k = s.a.c(k as u128, w);
                            acc = s.a.ite(b, k, acc);
                        }
                        Ok(s.v(acc))
                    }
                    _ => Err(Stop::Unsupported("ctlz".into())),
                }
            }),
            Intr::Ctpop => self.map1(n, a, |s, a| match &a[0] {
                Val::C(c) => Ok(Val::C(c.count_ones() as u128)),
                Val::S(e) => {
                    let mut acc = s.a.c(0, w);
                    for i in 0..w {
                        let b = s.a.extract(*e, i, 1);
                        let b = s.a.zext(b, w);
                        acc = s.a.bin(BinOp::Add, acc, b);
                    }
                    Ok(s.v(acc))
                }
                _ => Err(Stop::Unsupported("ctpop".into())),
            }),
            Intr::Bswap => self.map1(n, a, |s, a| {
                let mut acc = Val::C(0);
                let k = w / 8;
                for i in 0..k {
                    let b = s.sub_bits(&a[0], w, 8 * (k - 1 - i), 8);
                    acc = s.cat(&b, 8, &acc, 8 * i);
                }
                Ok(acc)
            }),
            Intr::Bitreverse => self.map1(n, a, |s, a| {
                let mut acc = Val::C(0);
                for i in 0..w {
                    let b = s.sub_bits(&a[0], w, w - 1 - i, 1);
                    acc = s.cat(&b, 1, &acc, i);
                }
                Ok(acc)
            }),
            Intr::Fshl | Intr::Fshr => {
                let sh = self.conc(st, &Self::lanes(&a[2], 0))? as u32 % w;
                self.map1(n, a, |s, a| {
                    // hi:lo shifted
                    let l = if id == Intr::Fshl { sh } else { (w - sh) % w };
                    if sh == 0 {
                        return Ok(if id == Intr::Fshl { a[0].clone() } else { a[1].clone() });
                    }
                    let x = s.bin1(BinOp::Shl, w, &a[0], &Val::C(l as u128));
                    let y = s.bin1(BinOp::LShr, w, &a[1], &Val::C((w - l) as u128));
                    Ok(s.bin1(BinOp::Or, w, &x, &y))
                })
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let op = match id {
                    Intr::VecReduceOr => BinOp::Or,
                    Intr::VecReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                let mut acc = Self::lanes(&a[0], 0);
                for i in 1..n as usize {
                    let x = Self::lanes(&a[0], i);
                    acc = self.bin1(op, w, &acc, &x);
                }
                Ok(acc)
            }
            Intr::Unsupported => Err(Stop::Unsupported(format!("intrinsic {name}"))),
        }
    }
    /// A size: huge values are split off as a failure of their own before the rest is enumerated.
    fn alloc_size(&mut self, st: &mut State, v: &Val, what: &str) -> R<u64> {
        const LIMIT: u128 = 1 << 26;
        match v {
            Val::C(c) => {
                if *c > LIMIT {
                    return Err(Stop::Bug(format!("{what} of {c} bytes")));
                }
                Ok(*c as u64)
            }
            Val::S(e) => {
                let w = self.a.w(*e);
                let lim = self.a.c(LIMIT, w);
                let ok = self.a.ule(*e, lim);
                if !self.branch(st, ok)? {
                    return Err(Stop::Bug(format!("{what} of more than {LIMIT} bytes")));
                }
                // Small sizes exactly, one path each; large ones rounded up to a bucket, so that a
                // symbolic capacity does not cost one path per value.
                if what != "allocation" {
                    return Ok(self.concretize(st, *e)? as u64);
                }
                for b in [64u128, 1 << 12, 1 << 16, 1 << 20] {
                    let lim = self.a.c(b, w);
                    let ok = self.a.ule(*e, lim);
                    if self.branch(st, ok)? {
                        return if b == 64 { Ok(self.concretize(st, *e)? as u64) } else { Ok(b as u64) };
                    }
                }
                Ok(LIMIT as u64)
            }
            _ => Err(Stop::Unsupported("size".into())),
        }
    }
    fn ext(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        match name {
            "vp_sym" => {
                let bits = self.conc(st, &a[0])? as u32;
                let (p, l) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as u64);
                let nm = self.string(st, p, l);
                let (id, e) = self.a.fresh(st.syms.len() as u32, bits, &nm);
                st.syms.push(id);
                let e = self.a.zext(e, 64);
                Ok(Val::S(e))
            }
            "vp_assume" => {
                let c = self.e(&a[0], 1);
                self.assume(st, c)?;
                Ok(Val::C(0))
            }
            "vp_check" => {
                let prop = self.conc(st, &a[0])? as u32;
                if self.cfg.prop != 0 && self.cfg.prop >> prop & 1 == 0 {
                    return Ok(Val::C(0));
                }
                let (p, l) = (self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as u64);
                match &a[1] {
                    Val::C(c) => {
                        self.checks += 1;
                        if c & 1 == 0 {
                            let msg = self.string(st, p, l);
                            return Err(Stop::Check(format!("C{prop:02}: {msg}")));
                        }
                    }
                    Val::S(e) => {
                        self.checks += 1;
                        self.checks_sym += 1;
                        let e = *e;
                        // while replaying a transferred prefix the donor has already decided it
                        if st.forced.is_empty() {
                            self.ensure_model(st)?;
                            let ne = self.a.not(e);
                            let sl = slice(&mut self.a, &st.pc, &[ne]);
                            match self.z.check(&mut self.a, sl) {
                                Answer::Unsat => {}
                                Answer::Sat(m) => {
                                    let msg = self.string(st, p, l);
                                    self.set_model(st, &m);
                                    return Err(Stop::Check(format!("C{prop:02}: {msg}")));
                                }
                                Answer::Unknown => return Err(Stop::Unknown),
                            }
                        }
                    }
                    _ => {}
                }
                Ok(Val::C(0))
            }
            "vp_witness" => {
                let (p, l) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let s = self.string(st, p, l);
                if !st.witness.iter().any(|w| **w == *s) {
                    st.witness.push(Rc::from(s.as_str()));
                }
                Ok(Val::C(0))
            }
            "vp_bound" => {
                let (p, l) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                Err(Stop::Bound(self.string(st, p, l)))
            }
            "vp_trace" => {
                st.trace.push(a[0].clone());
                Ok(Val::C(0))
            }
            "vp_heap" => Ok(Val::C(st.mem.bytes as u128)),
            "vp_fmt_write" => Ok(Val::C(0)),
            "vp_concretize" => Ok(Val::C(self.conc(st, &a[0])?)),
            "malloc" => {
                let n = self.alloc_size(st, &a[0], "allocation")?;
                let id = st.mem.alloc(n as usize, 0xA5);
                Ok(Val::C(obj_addr(id) as u128))
            }
            "calloc" => {
                let x = self.bin1(BinOp::Mul, 64, &a[0], &a[1]);
                let n = self.alloc_size(st, &x, "allocation")?;
                let id = st.mem.alloc(n as usize, 0);
                Ok(Val::C(obj_addr(id) as u128))
            }
            "posix_memalign" => {
                let n = self.alloc_size(st, &a[2], "allocation")?;
                let p = self.conc(st, &a[0])? as u64;
                let id = st.mem.alloc(n as usize, 0xA5);
                self.store_int(st, p, 64, &Val::C(obj_addr(id) as u128))?;
                Ok(Val::C(0))
            }
            "realloc" => {
                let n = self.alloc_size(st, &a[1], "allocation")?;
                let p = self.conc(st, &a[0])? as u64;
                if p == 0 {
                    let id = st.mem.alloc(n as usize, 0xA5);
                    return Ok(Val::C(obj_addr(id) as u128));
                }
                let (id0, off) = split(p);
                let old = match st.mem.get(id0) {
                    Some(o) if off == 0 && o.heap => o.bytes.len() as u64,
                    _ => return Err(Stop::Bug("realloc of a bad pointer".into())),
                };
                let id = st.mem.alloc(n as usize, 0xA5);
                self.copy(st, obj_addr(id), p, old.min(n))?;
                st.mem.free(id0);
                Ok(Val::C(obj_addr(id) as u128))
            }
            "free" => {
                let p = self.conc(st, &a[0])? as u64;
                if p == 0 {
                    return Ok(Val::C(0));
                }
                let (id, off) = split(p);
                match st.mem.get(id) {
                    Some(o) if off == 0 && o.heap => st.mem.free(id),
                    _ => return Err(Stop::Bug(format!("free of a bad pointer {p:#x}"))),
                }
                Ok(Val::C(0))
            }
            "bcmp" | "memcmp" => {
                let n = self.alloc_size(st, &a[2], "compare")?;
                let x = self.conc(st, &a[0])? as u64;
                let y = self.conc(st, &a[1])? as u64;
                let mut pairs = vec![];
                for i in 0..n {
                    let p = self.byte(st, x + i)?;
                    let q = self.byte(st, y + i)?;
                    pairs.push((p, q));
                }
                // from the last byte backwards
                let mut acc = Val::C(0);
                for (p, q) in pairs.iter().rev() {
                    let ne = self.cmp1(Pred::Ne, 8, p, q);
                    let diff = if name == "bcmp" {
                        Val::C(1)
                    } else {
                        let lt = self.cmp1(Pred::Ult, 8, p, q);
                        self.sel(32, &lt, &Val::C(mask(32)), &Val::C(1))
                    };
                    acc = self.sel(32, &ne, &diff, &acc);
                }
                Ok(acc)
            }
            "memcpy" | "memmove" => {
                let len = self.alloc_size(st, &a[2], "copy")?;
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                self.copy(st, d, s, len)?;
                Ok(a[0].clone())
            }
            "strlen" => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    match self.byte(st, p + n)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return Err(Stop::Unsupported("strlen of symbolic bytes".into())),
                    }
                }
                Ok(Val::C(n as u128))
            }
            "syscall" => {
                let nr = self.conc(st, &a[0])?;
                if nr == 318 {
                    // getrandom: fixed bytes
                    let p = self.conc(st, &a[1])? as u64;
                    let n = self.conc(st, &a[2])? as u64;
                    for i in 0..n {
                        self.store_int(st, p + i, 8, &Val::C((17 * i + 3) as u128 & 0xff))?;
                    }
                    return Ok(Val::C(n as u128));
                }
                if nr == 202 {
                    // futex: nobody else runs
                    return Err(Stop::Bug("blocked forever on a lock".into()));
                }
                Err(Stop::Unsupported(format!("syscall {nr}")))
            }
            "__errno_location" => {
                let id = st.mem.alloc(8, 0);
                Ok(Val::C(obj_addr(id) as u128))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "sched_yield" => Ok(Val::C(0)),
            "write" => Ok(a[2].clone()),
            "nanosleep" | "clock_nanosleep" => Ok(Val::C(0)),
            "getenv" | "pthread_getspecific" => Ok(Val::C(0)),
            "pthread_self" => Ok(Val::C(1)),
            "abort" | "exit" | "_exit" => Err(Stop::Bug("abort".into())),
            "clock_gettime" => {
                let p = self.conc(st, &a[1])? as u64;
                self.store_int(st, p, 64, &Val::C(1_000_000))?;
                self.store_int(st, p + 8, 64, &Val::C(0))?;
                Ok(Val::C(0))
            }
            _ => Err(Stop::Unsupported(format!("external function {name}"))),
        }
    }
}
