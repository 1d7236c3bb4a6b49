//! Bit-vector expressions: hash-consed in a per-thread arena, simplified on construction.
use crate::ir::BinOp;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // index into the arena; 0 is reserved

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Nil,
    Const(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    /// high part, low part
    Concat(E, E),
    /// (expr, low bit)
    Extract(E, u32),
    ZExt(E),
    SExt(E),
}
pub struct Arena {
    pub n: Vec<(N, u32)>,
    map: HashMap<(N, u32), E>,
    vars: Vec<Option<Rc<[u32]>>>,
    /// variable id -> (expr, width, name)
    pub var: Vec<(E, u32, String)>,
    var_by_key: HashMap<(u32, u32, String), u32>,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            if b == 0 {
                m
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        BinOp::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sx(a, w);
            if b >= w as u128 {
                (s >> 127) as u128
            } else {
                (s >> b) as u128
            }
        }
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        Arena { n: vec![(N::Nil, 0)], map: HashMap::new(), vars: vec![None], var: vec![], var_by_key: HashMap::new() }
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].1
    }
    pub fn mk(&mut self, n: N, w: u32) -> E {
        let k = (n, w);
        if let Some(e) = self.map.get(&k) {
            return *e;
        }
        let e = self.n.len() as E;
        self.n.push(k.clone());
        self.vars.push(None);
        self.map.insert(k, e);
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn k(&self, e: E) -> Option<u128> {
        match self.n[e as usize].0 {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    /// The `idx`-th symbolic value of a run.
    pub fn fresh(&mut self, idx: u32, w: u32, name: &str) -> (u32, E) {
        let key = (idx, w, name.to_string());
        if let Some(v) = self.var_by_key.get(&key) {
            return (*v, self.var[*v as usize].0);
        }
        let id = self.var.len() as u32;
        let e = self.mk(N::Var(id), w);
        self.var.push((e, w, name.to_string()));
        self.var_by_key.insert(key, id);
        (id, e)
    }
    pub fn vars(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        let kids: Vec<E> = match self.n[e as usize].0 {
            N::Nil | N::Const(_) => vec![],
            N::Var(v) => {
                let r: Rc<[u32]> = Rc::from(vec![v]);
                self.vars[e as usize] = Some(r.clone());
                return r;
            }
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => vec![a, b],
            N::Ite(a, b, c) => vec![a, b, c],
            N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => vec![a],
        };
        let mut out: Vec<u32> = vec![];
        for k in kids {
            out.extend(self.vars(k).iter());
        }
        out.sort_unstable();
        out.dedup();
        let r: Rc<[u32]> = Rc::from(out);
        self.vars[e as usize] = Some(r.clone());
        r
    }

    pub fn not(&mut self, e: E) -> E {
        // width 1
        let t = self.c(1, 1);
        self.bin(BinOp::Xor, e, t)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(bin(op, w, x, y), w);
        }
        let m = mask(w);
        use BinOp::*;
        // constants to the right
        if ka.is_some() && matches!(op, Add | Mul | And | Or | Xor) {
            return self.bin(op, b, a);
        }
        if op == Sub {
            if a == b {
                return self.c(0, w);
            }
            if let Some(y) = kb {
                let n = self.c(y.wrapping_neg(), w);
                return self.bin(Add, a, n);
            }
        }
        if let Some(y) = kb {
            match op {
                Add | Or | Xor | Shl | LShr | AShr if y == 0 => return a,
                And if y == m => return a,
                And | Mul if y == 0 => return b,
                Mul if y == 1 => return a,
                UDiv if y == 1 => return a,
                Or if y == m => return b,
                Shl | LShr if y >= w as u128 => return self.c(0, w),
                _ => {}
            }
            match (op, self.n[a as usize].0.clone()) {
                (o, N::Bin(o2, x, c2)) if o == o2 && matches!(o, Add | And | Or | Xor | Mul) && self.k(c2).is_some() => {
                    let cc = bin(o, w, self.k(c2).unwrap_or(0), y);
                    let cc = self.c(cc, w);
                    return self.bin(o, x, cc);
                }
                (And, N::ZExt(x)) => {
                    let xw = self.w(x);
                    let low = y & mask(xw);
                    if low == mask(xw) {
                        return a;
                    }
                    let c = self.c(low, xw);
                    let r = self.bin(And, x, c);
                    return self.zext(r, w);
                }
                (Or | Xor, N::ZExt(x)) if y & !mask(self.w(x)) == 0 => {
                    let xw = self.w(x);
                    let c = self.c(y, xw);
                    let r = self.bin(op, x, c);
                    return self.zext(r, w);
                }
                (And, _) if (y + 1).is_power_of_two() => {
                    // low mask
                    let bits = y.count_ones();
                    let lo = self.extract(a, 0, bits);
                    return self.zext(lo, w);
                }
                (LShr, _) if y < w as u128 => {
                    let hi = self.extract(a, y as u32, w - y as u32);
                    return self.zext(hi, w);
                }
                (Shl, _) if y < w as u128 => {
                    let lo = self.extract(a, 0, w - y as u32);
                    let z = self.c(0, y as u32);
                    return self.concat(lo, z);
                }
                (o, N::Ite(c, x, z)) if self.k(x).is_some() && self.k(z).is_some() => {
                    let x2 = self.bin(o, x, b);
                    let z2 = self.bin(o, z, b);
                    return self.ite(c, x2, z2);
                }
                _ => {}
            }
            if w == 1 && op == Xor && y == 1 {
                // double negation is folded by the chain rule above
                if let N::Bin(Xor, x, c) = self.n[a as usize].0 {
                    if self.k(c) == Some(1) {
                        return x;
                    }
                }
            }
        }
        if a == b {
            match op {
                And | Or => return a,
                Xor => return self.c(0, w),
                _ => {}
            }
        }
        // disjoint concatenations: or of zext'd low part and shifted high part
        if op == Or {
            if let Some(r) = self.or_concat(a, b) {
                return r;
            }
        }
        if w == 1 && matches!(op, And | Or) {
            // x & !x, x | !x
            let na = self.not(a);
            if na == b {
                return self.c(if op == And { 0 } else { 1 }, 1);
            }
        }
        let (a, b) = if matches!(op, Add | Mul | And | Or | Xor) && kb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Bin(op, a, b), w)
    }
    /// or of two values with non-overlapping non-zero bits, one of them a concat ending in zeros
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            if let N::Concat(h, l) = self.n[x as usize].0 {
                if self.k(l) == Some(0) {
                    let lw = self.w(l);
                    if self.high_zero(y, lw) {
                        let lo = self.extract(y, 0, lw);
                        return Some(self.concat(h, lo));
                    }
                }
            }
            // zext(concat(h,0)) | y
            if let N::ZExt(z) = self.n[x as usize].0 {
                if let N::Concat(h, l) = self.n[z as usize].0 {
                    if self.k(l) == Some(0) {
                        let lw = self.w(l);
                        if self.high_zero(y, lw) {
                            let w = self.w(x);
                            let lo = self.extract(y, 0, lw);
                            let c = self.concat(h, lo);
                            return Some(self.zext(c, w));
                        }
                    }
                }
            }
        }
        None
    }
    fn high_zero(&self, e: E, lw: u32) -> bool {
        match self.n[e as usize].0 {
            N::ZExt(x) => self.w(x) <= lw,
            N::Const(v) => v >> lw == 0,
            _ => false,
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c((x == y) as u128, 1);
        }
        if ka.is_some() {
            return self.eq(b, a);
        }
        let w = self.w(a);
        if let Some(y) = kb {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match self.n[a as usize].0.clone() {
                N::ZExt(x) => {
                    let xw = self.w(x);
                    if y & !mask(xw) != 0 {
                        return self.c(0, 1);
                    }
                    let c = self.c(y, xw);
                    return self.eq(x, c);
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    if sx(y & mask(xw), xw) as u128 & mask(w) != y {
                        return self.c(0, 1);
                    }
                    let c = self.c(y, xw);
                    return self.eq(x, c);
                }
                N::Bin(BinOp::Add, x, c) if self.k(c).is_some() => {
                    let k = y.wrapping_sub(self.k(c).unwrap_or(0));
                    let k = self.c(k, w);
                    return self.eq(x, k);
                }
                N::Bin(BinOp::Xor, x, c) if self.k(c).is_some() => {
                    let k = self.c(y ^ self.k(c).unwrap_or(0), w);
                    return self.eq(x, k);
                }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let hk = self.c(y >> lw, hw);
                    let lk = self.c(y, lw);
                    let e1 = self.eq(h, hk);
                    let e2 = self.eq(l, lk);
                    return self.and1(e1, e2);
                }
                N::Ite(c, x, z) => {
                    let (kx, kz) = (self.k(x), self.k(z));
                    if kx.is_some() || kz.is_some() {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(z, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            if let (N::ZExt(x), N::ZExt(y)) = (&self.n[a as usize].0, &self.n[b as usize].0) {
                let (x, y) = (*x, *y);
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
            if w == 1 {
                let x = self.bin(BinOp::Xor, a, b);
                return self.not(x);
            }
        }
        let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c((x < y) as u128, 1);
        }
        if kb == Some(0) {
            return self.c(0, 1);
        }
        if kb == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if ka == Some(mask(w)) {
            return self.c(0, 1);
        }
        if ka == Some(0) {
            let z = self.c(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if let (N::ZExt(x), Some(y)) = (self.n[a as usize].0.clone(), kb) {
            let xw = self.w(x);
            if y > mask(xw) {
                return self.c(1, 1);
            }
            let c = self.c(y, xw);
            return self.ult(x, c);
        }
        if let (Some(x), N::ZExt(y)) = (ka, self.n[b as usize].0.clone()) {
            let yw = self.w(y);
            if x >= mask(yw) {
                return self.c(0, 1);
            }
            let c = self.c(x, yw);
            return self.ult(c, y);
        }
        if let (N::ZExt(x), N::ZExt(y)) = (&self.n[a as usize].0, &self.n[b as usize].0) {
            let (x, y) = (*x, *y);
            if self.w(x) == self.w(y) {
                return self.ult(x, y);
            }
        }
        if let (N::Ite(c, x, y), Some(_)) = (self.n[a as usize].0.clone(), kb) {
            if self.k(x).is_some() && self.k(y).is_some() {
                let e1 = self.ult(x, b);
                let e2 = self.ult(y, b);
                return self.ite(c, e1, e2);
            }
        }
        if let (Some(_), N::Ite(c, x, y)) = (ka, self.n[b as usize].0.clone()) {
            if self.k(x).is_some() && self.k(y).is_some() {
                let e1 = self.ult(a, x);
                let e2 = self.ult(a, y);
                return self.ite(c, e1, e2);
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        // both known non-negative: unsigned
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if self.nonneg(a) && self.k(b).map(|v| sx(v, w) < 0).unwrap_or(false) {
            return self.c(0, 1);
        }
        if self.nonneg(b) && self.k(a).map(|v| sx(v, w) < 0).unwrap_or(false) {
            return self.c(1, 1);
        }
        if self.k(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.k(a) == Some(mask(w)) {
            // -1 < b
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        self.mk(N::Slt(a, b), 1)
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        match self.n[e as usize].0 {
            N::Const(v) => v >> (w - 1) == 0,
            N::ZExt(_) => true,
            _ => false,
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.k(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        if let N::Bin(BinOp::Xor, x, o) = self.n[c as usize].0 {
            if self.k(o) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if let N::Ite(c2, x, _) = self.n[a as usize].0 {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n[b as usize].0 {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.k(h), self.k(l)) {
            return self.c((x << lw) | y, hw + lw);
        }
        if self.k(h) == Some(0) {
            return self.zext(l, hw + lw);
        }
        if let (N::Extract(x, xl), N::Extract(y, yl)) = (&self.n[h as usize].0, &self.n[l as usize].0) {
            let (x, xl, y, yl) = (*x, *xl, *y, *yl);
            if x == y && xl == yl + lw {
                return self.extract(x, yl, hw + lw);
            }
        }
        // concat(zext(extract(x, k)), low) where low is the part of x below
        if let (N::ZExt(z), N::Extract(y, yl)) = (&self.n[h as usize].0, &self.n[l as usize].0) {
            let (z, y, yl) = (*z, *y, *yl);
            if let N::Extract(x, xl) = self.n[z as usize].0 {
                if x == y && xl == yl + lw {
                    let zw = self.w(z);
                    let j = self.extract(x, yl, zw + lw);
                    return self.zext(j, hw + lw);
                }
            }
        }
        // extract(x,lo) followed by a concat whose low part continues
        if let N::Concat(m, l2) = self.n[l as usize].0 {
            if let (N::Extract(x, xl), N::Extract(y, yl)) = (&self.n[h as usize].0, &self.n[m as usize].0) {
                let (x, xl, y, yl) = (*x, *xl, *y, *yl);
                if x == y && xl == yl + self.w(m) {
                    let mw = self.w(m);
                    let j = self.extract(x, yl, hw + mw);
                    return self.concat(j, l2);
                }
            }
            if let (Some(x), Some(y)) = (self.k(h), self.k(m)) {
                let mw = self.w(m);
                let j = self.c((x << mw) | y, hw + mw);
                return self.concat(j, l2);
            }
        }
        self.mk(N::Concat(h, l), hw + lw)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew && w > 0);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n[e as usize].0.clone() {
            N::Const(v) => self.c(v >> lo, w),
            N::Extract(x, l) => self.extract(x, l + lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let p = self.extract(x, lo, xw - lo);
                    self.zext(p, w)
                }
            }
            N::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::SExt(x) if lo == 0 => self.sext(x, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let a = self.extract(l, lo, lw - lo);
                    let b = self.extract(h, 0, w - (lw - lo));
                    self.concat(b, a)
                }
            }
            N::Ite(c, a, b) if self.k(a).is_some() || self.k(b).is_some() => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.ite(c, x, y)
            }
            N::Bin(op, a, b) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.bin(op, x, y)
            }
            N::Bin(op, a, b) if lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                self.bin(op, x, y)
            }
            _ => self.mk(N::Extract(e, lo), w),
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n[e as usize].0.clone() {
            N::Const(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            N::Ite(c, a, b) if self.k(a).is_some() && self.k(b).is_some() => {
                let x = self.zext(a, w);
                let y = self.zext(b, w);
                self.ite(c, x, y)
            }
            _ => self.mk(N::ZExt(e), w),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n[e as usize].0.clone() {
            N::Const(v) => self.c(sx(v, ew) as u128, w),
            N::ZExt(x) => self.zext(x, w),
            N::SExt(x) => self.sext(x, w),
            N::Ite(c, a, b) if self.k(a).is_some() && self.k(b).is_some() => {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                self.ite(c, x, y)
            }
            _ if ew == 1 => {
                let x = self.c(mask(w), w);
                let y = self.c(0, w);
                self.ite(e, x, y)
            }
            _ => self.mk(N::SExt(e), w),
        }
    }
    /// Evaluate under a variable assignment (missing variables are zero).
    pub fn eval(&self, e: E, m: &HashMap<u32, u64>, cache: &mut HashMap<E, u128>) -> u128 {
        if let N::Const(v) = self.n[e as usize].0 {
            return v;
        }
        if let Some(v) = cache.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let v = match self.n[e as usize].0 {
            N::Nil => 0,
            N::Const(v) => v,
            N::Var(v) => m.get(&v).copied().unwrap_or(0) as u128,
            N::Bin(op, a, b) => {
                let x = self.eval(a, m, cache);
                let y = self.eval(b, m, cache);
                bin(op, w, x, y)
            }
            N::Eq(a, b) => (self.eval(a, m, cache) == self.eval(b, m, cache)) as u128,
            N::Ult(a, b) => (self.eval(a, m, cache) < self.eval(b, m, cache)) as u128,
            N::Slt(a, b) => {
                let aw = self.w(a);
                (sx(self.eval(a, m, cache), aw) < sx(self.eval(b, m, cache), aw)) as u128
            }
            N::Ite(c, a, b) => {
                if self.eval(c, m, cache) == 1 {
                    self.eval(a, m, cache)
                } else {
                    self.eval(b, m, cache)
                }
            }
            N::Concat(h, l) => (self.eval(h, m, cache) << self.w(l)) | self.eval(l, m, cache),
            N::Extract(x, lo) => (self.eval(x, m, cache) >> lo) & mask(w),
            N::ZExt(x) => self.eval(x, m, cache),
            N::SExt(x) => sx(self.eval(x, m, cache), self.w(x)) as u128 & mask(w),
        };
        cache.insert(e, v);
        v
    }
}
