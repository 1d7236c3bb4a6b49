//! Reader for textual LLVM IR (opaque pointers). Function bodies are read when first called.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub struct Module {
    pub src: String,
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>, // object id = index + 1
    pub gl_by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub alias: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Loc(String),
    Glob(String),
    Int(i128),
    Hex(String),
    Flt(f64),
    CStr(Vec<u8>),
    Str,
    Meta,
    Attr,
    P(char),
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(b.len() / 4);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> {
        // b[*i] == '"'
        *i += 1;
        let mut v = Vec::new();
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap_or("");
                if let Ok(x) = u8::from_str_radix(h, 16) {
                    v.push(x);
                    *i += 3;
                    continue;
                } else if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                    continue;
                }
            }
            v.push(b[*i]);
            *i += 1;
        }
        *i += 1;
        v
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(b, &mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                if i < b.len() && b[i] == b'{' {
                    while b[i] != b'}' {
                        i += 1
                    }
                    i += 1;
                }
                out.push(T::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1
                }
                out.push(T::Attr);
            }
            b'"' => {
                quoted(b, &mut i);
                out.push(T::Str);
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                out.push(T::CStr(quoted(b, &mut i)));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                if c == b'0' && i < b.len() && b[i] == b'x' {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_alphanumeric() {
                        i += 1
                    }
                    out.push(T::Hex(s[st + 2..i].to_string()));
                    continue;
                }
                let mut flt = false;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || ((b[i] == b'e' || b[i] == b'E') && flt) || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) {
                    if b[i] == b'.' {
                        flt = true
                    }
                    i += 1
                }
                if flt {
                    out.push(T::Flt(s[st..i].parse().unwrap_or(0.0)));
                } else {
                    out.push(T::Int(s[st..i].parse().unwrap_or_else(|_| {
                        // larger than i128 never happens in practice
                        s[st..i].parse::<u128>().map(|v| v as i128).unwrap_or(0)
                    })));
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1
                }
                out.push(T::Id(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

type Res<X> = Result<X, String>;

struct P<'a> {
    m: &'a Module,
    t: Vec<T>,
    i: usize,
    regs: Option<&'a mut HashMap<String, u32>>,
}
fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Res<T> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn ispn(&self, k: usize, c: char) -> bool {
        self.t.get(self.i + k) == Some(&T::P(c))
    }
    fn eat(&mut self, c: char) -> Res<()> {
        if self.isp(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {c:?}, found {:?} at {}", self.peek(), self.i))
        }
    }
    fn opt(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == s)
    }
    fn optid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> Res<String> {
        match self.next()? {
            T::Id(s) => Ok(s),
            t => Err(format!("expected word, found {t:?}")),
        }
    }
    fn skip_parens(&mut self) -> Res<()> {
        self.eat('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => {
                matches!(s.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::Loc(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Res<Ty> {
        match self.next()? {
            T::Id(s) => Ok(match s.as_str() {
                "ptr" => {
                    if self.optid("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "label" | "metadata" | "token" | "x86_fp80" | "fp128" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {s}"))?),
                _ => return Err(format!("type {s}")),
            }),
            T::Loc(n) => self.m.types.get(&n).cloned().ok_or(format!("type %{n}")),
            T::P('[') => {
                let n = self.int()?;
                self.id()?; // x
                let t = self.ty()?;
                self.eat(']')?;
                Ok(Ty::Array(n as u64, Arc::new(t)))
            }
            T::P('{') => {
                let f = self.tylist('}')?;
                Ok(Ty::Struct(f, false))
            }
            T::P('<') => {
                if self.opt('{') {
                    let f = self.tylist('}')?;
                    self.eat('>')?;
                    Ok(Ty::Struct(f, true))
                } else {
                    let n = self.int()?;
                    self.id()?;
                    let t = self.ty()?;
                    self.eat('>')?;
                    Ok(Ty::Vector(n as u32, Arc::new(t)))
                }
            }
            t => Err(format!("type, found {t:?}")),
        }
    }
    fn tylist(&mut self, end: char) -> Res<Vec<Ty>> {
        let mut f = vec![];
        while !self.isp(end) {
            f.push(self.ty()?);
            if !self.opt(',') {
                break;
            }
        }
        self.eat(end)?;
        Ok(f)
    }
    fn int(&mut self) -> Res<i128> {
        match self.next()? {
            T::Int(v) => Ok(v),
            t => Err(format!("integer, found {t:?}")),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().expect("register in constant context");
        let k = r.len() as u32;
        *r.entry(n.to_string()).or_insert(k)
    }
    fn zero(t: &Ty) -> K {
        match t.count() {
            0 => match t {
                Ty::Array(..) | Ty::Struct(..) => K::A(vec![]),
                _ => K::I(0),
            },
            n => K::A((0..n).map(|i| Self::zero(t.elem(i))).collect()),
        }
    }
    fn gaddr(&self, n: &str) -> Res<u128> {
        let mut n = n;
        while let Some(a) = self.m.alias.get(n) {
            n = a;
        }
        if let Some(g) = self.m.gl_by_name.get(n) {
            return Ok(obj_addr(*g + 1) as u128);
        }
        if let Some(f) = self.m.fn_by_name.get(n) {
            if self.m.funcs[*f as usize].weak {
                return Ok(0);
            }
            return Ok(fn_addr(*f) as u128);
        }
        Err(format!("unknown global @{n}"))
    }
    fn konst(&mut self, t: &Ty) -> Res<K> {
        match self.val(t)? {
            Opd::C(v) => Ok(K::I(v)),
            Opd::A(k) => Ok((*k).clone()),
            Opd::R(_) => Err("register in a constant".into()),
        }
    }
    fn val(&mut self, t: &Ty) -> Res<Opd> {
        let w = t.scalar();
        let agg = |k: K| Opd::A(Arc::new(k));
        match self.next()? {
            T::Loc(n) => Ok(Opd::R(self.reg(&n))),
            T::Int(v) => Ok(Opd::C((v as u128) & mask(w.max(1)))),
            T::Glob(n) => Ok(Opd::C(self.gaddr(&n)?)),
            T::Hex(h) => {
                let h = h.trim_start_matches(['K', 'L', 'M', 'H', 'R']);
                let v = u128::from_str_radix(h, 16).map_err(|_| "hex")?;
                // float constants are printed as the bits of a double
                Ok(Opd::C(if w == 32 { (f64::from_bits(v as u64) as f32).to_bits() as u128 } else { v }))
            }
            T::Flt(f) => Ok(Opd::C(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })),
            T::CStr(b) => Ok(agg(K::A(b.into_iter().map(|c| K::I(c as u128)).collect()))),
            T::P('[') => {
                let mut v = vec![];
                while !self.isp(']') {
                    let et = self.ty()?;
                    v.push(self.konst(&et)?);
                    if !self.opt(',') {
                        break;
                    }
                }
                self.eat(']')?;
                Ok(agg(K::A(v)))
            }
            T::P('{') => {
                let v = self.klist('}')?;
                Ok(agg(K::A(v)))
            }
            T::P('<') => {
                if self.opt('{') {
                    let v = self.klist('}')?;
                    self.eat('>')?;
                    Ok(agg(K::A(v)))
                } else {
                    let v = self.klist('>')?;
                    Ok(agg(K::A(v)))
                }
            }
            T::Id(s) => match s.as_str() {
                "true" => Ok(Opd::C(1)),
                "false" | "null" | "none" => Ok(Opd::C(0)),
                "undef" | "poison" | "zeroinitializer" => {
                    if t.count() > 0 || matches!(t, Ty::Array(..) | Ty::Struct(..)) {
                        Ok(agg(Self::zero(t)))
                    } else {
                        Ok(Opd::C(0))
                    }
                }
                "splat" => {
                    self.eat('(')?;
                    let et = self.ty()?;
                    let k = self.konst(&et)?;
                    self.eat(')')?;
                    Ok(agg(K::A((0..t.count()).map(|_| k.clone()).collect())))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.next()?;
                        if self.isp('(') && matches!(self.t.get(self.i - 1), Some(T::Id(x)) if x == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.eat('(')?;
                    let et = self.ty()?;
                    self.eat(',')?;
                    let bt = self.ty()?;
                    let b = match self.konst(&bt)? {
                        K::I(v) => v,
                        _ => return Err("gep base".into()),
                    };
                    let mut off = 0i128;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.opt(',') {
                        let it = self.ty()?;
                        let k = match self.konst(&it)? {
                            K::I(v) => sx(v, it.scalar()),
                            _ => return Err("gep idx".into()),
                        };
                        if first {
                            off += k * et.size() as i128;
                            first = false;
                        } else {
                            off += cur.field_offset(k as usize) as i128;
                            let c = cur.elem(k as usize).clone();
                            cur = c;
                        }
                    }
                    self.eat(')')?;
                    Ok(Opd::C((b as i128 + off) as u128 & mask(64)))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "sext" => {
                    self.eat('(')?;
                    let ft = self.ty()?;
                    let v = match self.konst(&ft)? {
                        K::I(v) => v,
                        _ => return Err("cast of aggregate".into()),
                    };
                    self.id()?; // to
                    let tt = self.ty()?;
                    self.eat(')')?;
                    let v = if s == "sext" { sx(v, ft.scalar()) as u128 } else { v };
                    Ok(Opd::C(v & mask(tt.scalar())))
                }
                "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.eat('(')?;
                    let at = self.ty()?;
                    let a = self.konst(&at)?;
                    self.eat(',')?;
                    let bt = self.ty()?;
                    let b = self.konst(&bt)?;
                    self.eat(')')?;
                    if let (K::I(a), K::I(b)) = (a, b) {
                        let v = match s.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            "xor" => a ^ b,
                            _ => a << b,
                        };
                        Ok(Opd::C(v & mask(at.scalar())))
                    } else {
                        Err("constant expression".into())
                    }
                }
                _ => Err(format!("value {s}")),
            },
            T::Meta => Ok(Opd::C(0)),
            t => Err(format!("value, found {t:?}")),
        }
    }
    fn klist(&mut self, end: char) -> Res<Vec<K>> {
        let mut v = vec![];
        while !self.isp(end) {
            let et = self.ty()?;
            v.push(self.konst(&et)?);
            if !self.opt(',') {
                break;
            }
        }
        self.eat(end)?;
        Ok(v)
    }
    /// parameter / return attributes
    fn skip_attrs(&mut self) -> Res<()> {
        loop {
            match self.peek() {
                Some(T::Id(s)) => {
                    if matches!(
                        s.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "none" | "asm" | "mul" | "and" | "or" | "xor" | "shl"
                    ) {
                        return Ok(());
                    }
                    let al = s == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(T::Str) => {
                    self.i += 1;
                    if self.opt('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn tyval(&mut self) -> Res<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn emit(k: &K, t: &Ty, off: usize, out: &mut [u8]) {
    match k {
        K::I(v) => {
            let n = t.size().min(16) as usize;
            let n = if let Ty::Int(w) = t { (*w as usize).div_ceil(8).max(1).min(n.max(1)) } else { n };
            let b = v.to_le_bytes();
            for i in 0..n {
                if off + i < out.len() {
                    out[off + i] = b[i];
                }
            }
        }
        K::A(v) => {
            for (i, e) in v.iter().enumerate() {
                emit(e, t.elem(i), off + t.field_offset(i) as usize, out);
            }
        }
    }
}

pub fn is_panic_name(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("rust_begin_unwind")
        || n.contains("9panicking11begin_panic")
        || n.contains("9panicking14rust_panic")
        || n.contains("18handle_alloc_error")
        || n.contains("7raw_vec17capacity_overflow")
        || n.contains("_fail") && (n.contains("5slice5index") || n.contains("5slice16"))
        || n.contains("16slice_index_fail")
        || n.contains("15slice_error_fail")
        || n.contains("7process5abort")
        || n.contains("3str16slice_error_fail")
        || n.contains("panic_already_borrowed")
        || n.contains("panic_already_mutably_borrowed")
        || n.contains("panic_const")
        || n.contains("copy_from_slice17len_mismatch_fail")
}

impl Module {
    pub fn parse(src: String) -> Res<Module> {
        let mut m = Module {
            src: String::new(),
            funcs: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            gl_by_name: HashMap::new(),
            types: HashMap::new(),
            alias: HashMap::new(),
        };
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut pos = 0usize;
        let bytes = src.as_bytes();
        let mut lines: Vec<(usize, usize)> = vec![];
        while pos < bytes.len() {
            let e = src[pos..].find('\n').map(|k| pos + k).unwrap_or(bytes.len());
            lines.push((pos, e));
            pos = e + 1;
        }
        let mut k = 0;
        fn fname(l: &str) -> Res<String> {
            // the first '@' outside an attribute string
            let b = l.as_bytes();
            let mut i = 0;
            let mut q = false;
            while i < b.len() {
                if b[i] == b'"' {
                    q = !q;
                }
                if b[i] == b'@' && !q {
                    break;
                }
                i += 1;
            }
            if i >= b.len() {
                return Err(format!("function name in {l}"));
            }
            let t = lex(&l[i..l.len().min(i + 4000)]);
            match &t[0] {
                T::Glob(n) => Ok(n.clone()),
                _ => Err("function name".into()),
            }
        }
        while k < lines.len() {
            let l = &src[lines[k].0..lines[k].1];
            if l.starts_with('@') {
                glines.push(lines[k]);
            } else if l.starts_with('%') && l.contains(" = type ") {
                let mut p = P { m: &m, t: lex(l), i: 0, regs: None };
                if let T::Loc(n) = p.next()? {
                    p.eat('=')?;
                    p.id()?;
                    let t = if p.isid("opaque") { Ty::Other } else { p.ty()? };
                    m.types.insert(n, t);
                }
            } else if l.starts_with("declare ") {
                let n = fname(l)?;
                let weak = l.contains("extern_weak") && n != "__cxa_thread_atexit_impl";
                m.fn_by_name.insert(n.clone(), m.funcs.len() as u32);
                m.funcs.push(Func { ext: n.clone(), panics: is_panic_name(&n), name: n, text: None, body: OnceLock::new(), weak });
            } else if l.starts_with("define ") {
                let n = fname(l)?;
                let st = lines[k].0;
                while &src[lines[k].0..lines[k].1] != "}" {
                    k += 1;
                }
                let en = lines[k].1;
                m.fn_by_name.insert(n.clone(), m.funcs.len() as u32);
                if n.ends_with("4core3fmt5write") {
                    // formatted text is outside the model: nothing is written
                    m.funcs.push(Func { ext: "vp_fmt_write".into(), panics: false, name: n, text: None, body: OnceLock::new(), weak: false });
                    k += 1;
                    continue;
                }
                m.funcs.push(Func { ext: String::new(), panics: is_panic_name(&n), name: n, text: Some((st, en)), body: OnceLock::new(), weak: false });
            }
            k += 1;
        }
        // names first, so that initialisers can refer to any global
        let mut toks = vec![];
        for (a, b) in &glines {
            let t = lex(&src[*a..*b]);
            let name = match &t[0] {
                T::Glob(n) => n.clone(),
                _ => return Err("global".into()),
            };
            if t.iter().take(12).any(|x| matches!(x, T::Id(s) if s == "alias")) {
                if let Some(T::Glob(g)) = t.iter().skip(1).find(|x| matches!(x, T::Glob(_))) {
                    m.alias.insert(name, g.clone());
                }
                continue;
            }
            m.gl_by_name.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { init: None, constant: false, size: 0 });
            toks.push(t);
        }
        let mut inits = vec![];
        for t in toks {
            let mut p = P { m: &m, t, i: 1, regs: None };
            let mut constant = false;
            let mut external = false;
            loop {
                match p.next()? {
                    T::Id(s) if s == "constant" => {
                        constant = true;
                        break;
                    }
                    T::Id(s) if s == "global" => break,
                    T::Id(s) if s == "external" || s == "extern_weak" => external = true,
                    _ => {}
                }
            }
            let ty = p.ty()?;
            let size = ty.size();
            let init = if external {
                None
            } else {
                let kv = p.konst(&ty)?;
                let mut out = vec![0u8; size as usize];
                emit(&kv, &ty, 0, &mut out);
                Some(out)
            };
            inits.push((init, constant, size));
        }
        for (g, (init, c, size)) in m.globals.iter_mut().zip(inits) {
            g.init = init;
            g.constant = c;
            g.size = size;
        }
        m.src = src;
        Ok(m)
    }

    pub fn body(&self, f: u32) -> &Body {
        let fun = &self.funcs[f as usize];
        fun.body.get_or_init(|| {
            let (a, b) = fun.text.expect("body of a declaration");
            match self.parse_body(&self.src[a..b]) {
                Ok(b) => b,
                Err(e) => Body {
                    insts: vec![Inst::Bad(format!("cannot read {}: {e}", fun.name))],
                    blocks: vec![Block { start: 0, edges: vec![] }],
                    nregs: 64,
                    nparams: 0,
                },
            }
        })
    }

    fn parse_body(&self, text: &str) -> Res<Body> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut lines: Vec<String> = vec![];
        let mut it = text.lines();
        let head = it.next().ok_or("empty")?;
        // parameters
        let toks = lex(head);
        let mut nparams = 0;
        {
            let mut p = P { m: self, t: toks, i: 0, regs: Some(&mut regs) };
            while !matches!(p.peek(), Some(T::Glob(_))) {
                p.next()?;
            }
            p.next()?;
            p.eat('(')?;
            let mut unnamed = 0;
            while !p.isp(')') {
                if p.isp('.') || matches!(p.peek(), Some(T::Id(s)) if s == "...") {
                    p.next()?;
                    continue;
                }
                p.ty()?;
                p.skip_attrs()?;
                let n = match p.peek() {
                    Some(T::Loc(n)) => {
                        let n = n.clone();
                        p.i += 1;
                        n
                    }
                    _ => unnamed.to_string(),
                };
                unnamed += 1;
                p.reg(&n);
                nparams += 1;
                if !p.opt(',') {
                    break;
                }
            }
        }
        for l in it {
            if l == "}" {
                break;
            }
            if l.trim().is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") {
                continue;
            }
            let cont = l.starts_with("    ") || (l.starts_with("  ]"));
            if cont && !lines.is_empty() {
                let x = lines.last_mut().ok_or("continuation")?;
                x.push(' ');
                x.push_str(l.trim());
            } else {
                lines.push(l.to_string());
            }
        }
        // labels
        let mut blocks: Vec<Block> = vec![];
        let mut items: Vec<(u32, Vec<T>)> = vec![];
        let first_is_label = lines.first().map(|l| !l.starts_with(' ')).unwrap_or(false);
        if !first_is_label {
            // the entry block takes the first unnamed number
            labels.insert(nparams.to_string(), 0);
            labels.entry("start".into()).or_insert(0);
            blocks.push(Block::default());
        }
        for l in &lines {
            if !l.starts_with(' ') {
                let lab = l.split(':').next().unwrap_or("").trim();
                let lab = lab.trim_matches('"').to_string();
                labels.insert(lab, blocks.len() as u32);
                blocks.push(Block::default());
            } else {
                items.push((blocks.len() as u32 - 1, lex(l)));
            }
        }
        let mut insts: Vec<Inst> = vec![];
        let mut started: Vec<bool> = vec![false; blocks.len()];
        let mut phis: Vec<(u32, u32, Vec<(u32, Opd)>)> = vec![];
        for (b, toks) in items {
            if !started[b as usize] {
                started[b as usize] = true;
                blocks[b as usize].start = insts.len() as u32;
            }
            let mut p = P { m: self, t: toks, i: 0, regs: Some(&mut regs) };
            match self.inst(&mut p, &labels, b, &mut phis) {
                Ok(Some(i)) => insts.push(i),
                Ok(None) => {}
                Err(e) => {
                    let t = format!("{e} in {:?}", p.t);
                    insts.push(Inst::Bad(t));
                }
            }
        }
        for (b, d, inc) in phis {
            for (pred, v) in inc {
                let es = &mut blocks[b as usize].edges;
                match es.iter_mut().find(|e| e.0 == pred) {
                    Some(e) => {
                        if !e.1.iter().any(|x| x.0 == d) {
                            e.1.push((d, v))
                        }
                    }
                    None => es.push((pred, vec![(d, v)])),
                }
            }
        }
        Ok(Body { insts, blocks, nregs: regs.len() as u32, nparams: nparams as u32 })
    }

    fn inst(&self, p: &mut P, labels: &HashMap<String, u32>, cur: u32, phis: &mut Vec<(u32, u32, Vec<(u32, Opd)>)>) -> Res<Option<Inst>> {
        let mut dst: Option<u32> = None;
        if let Some(T::Loc(n)) = p.peek() {
            let n = n.clone();
            if p.ispn(1, '=') {
                p.i += 2;
                dst = Some(p.reg(&n));
            }
        }
        let lab = |p: &mut P| -> Res<u32> {
            p.id()?; // label
            match p.next()? {
                T::Loc(n) => labels.get(&n).copied().ok_or(format!("label {n}")),
                t => Err(format!("label, found {t:?}")),
            }
        };
        let op = p.id()?;
        let d = dst.unwrap_or(0);
        let skipf = |p: &mut P, fl: &[&str]| {
            while let Some(T::Id(s)) = p.peek() {
                if fl.contains(&s.as_str()) {
                    p.i += 1
                } else {
                    break;
                }
            }
        };
        const FMF: &[&str] = &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        Ok(Some(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                skipf(p, &["nuw", "nsw", "exact", "disjoint"]);
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.eat(',')?;
                let b = p.val(&t)?;
                let (w, n) = t.lanes();
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "urem" => BinOp::URem,
                    "sdiv" => BinOp::SDiv,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Inst::Bin { d, op: o, w, n, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skipf(p, FMF);
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.eat(',')?;
                let b = p.val(&t)?;
                let o = ["fadd", "fsub", "fmul", "fdiv", "frem"].iter().position(|x| *x == op).unwrap_or(0) as u8;
                Inst::FBin { d, op: o, w: t.scalar(), a, b }
            }
            "fneg" => {
                skipf(p, FMF);
                let t = p.ty()?;
                let a = p.val(&t)?;
                Inst::FBin { d, op: 5, w: t.scalar(), b: a.clone(), a }
            }
            "fcmp" => {
                skipf(p, FMF);
                let pr = p.id()?;
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.eat(',')?;
                let b = p.val(&t)?;
                Inst::FCmp { d, p: pr, w: t.scalar(), a, b }
            }
            "icmp" => {
                skipf(p, &["samesign"]);
                let pr = p.id()?;
                let t = p.ty()?;
                let a = p.val(&t)?;
                p.eat(',')?;
                let b = p.val(&t)?;
                let (w, n) = t.lanes();
                let pr = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("icmp {x}")),
                };
                Inst::Icmp { d, p: pr, w, n, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                skipf(p, &["nuw", "nsw", "nneg"]);
                let f = p.ty()?;
                let a = p.val(&f)?;
                p.id()?;
                let t = p.ty()?;
                let (fw, n) = f.lanes();
                let (tw, _) = t.lanes();
                let k = match op.as_str() {
                    "sext" => CastK::SExt,
                    _ if tw < fw => CastK::Trunc,
                    _ => CastK::ZExt,
                };
                if fw == tw {
                    Inst::Copy { d, a }
                } else {
                    Inst::Cast { d, k, fw, tw, n, a }
                }
            }
            "bitcast" => {
                let f = p.ty()?;
                let a = p.val(&f)?;
                p.id()?;
                let t = p.ty()?;
                Inst::Bitcast { d, f, t, a }
            }
            "fpext" | "fptrunc" | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                skipf(p, FMF);
                skipf(p, &["nneg"]);
                let f = p.ty()?;
                let a = p.val(&f)?;
                p.id()?;
                let t = p.ty()?;
                Inst::FCast { d, k: op, fw: f.scalar(), tw: t.scalar(), a }
            }
            "load" => {
                skipf(p, &["atomic", "volatile"]);
                let t = p.ty()?;
                p.eat(',')?;
                let (_, q) = p.tyval()?;
                Inst::Load { d, w: t.scalar(), ty: t, p: q }
            }
            "store" => {
                skipf(p, &["atomic", "volatile"]);
                let (t, v) = p.tyval()?;
                p.eat(',')?;
                let (_, q) = p.tyval()?;
                Inst::Store { w: t.scalar(), ty: t, v, p: q }
            }
            "getelementptr" => {
                skipf(p, &["inbounds", "nuw", "nusw"]);
                let et = p.ty()?;
                p.eat(',')?;
                let (_, base) = p.tyval()?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut first = true;
                let mut ct = et.clone();
                while p.isp(',') && !matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                    p.eat(',')?;
                    let (it, v) = p.tyval()?;
                    let w = it.scalar();
                    if w == 0 {
                        return Err("vector gep".into());
                    }
                    if first {
                        first = false;
                        match v {
                            Opd::C(c) => off += (sx(c, w) as i64).wrapping_mul(et.size() as i64),
                            v => terms.push((v, w, et.size() as i64)),
                        }
                    } else {
                        match v {
                            Opd::C(c) => {
                                let k = sx(c, w) as i64;
                                match &ct {
                                    Ty::Struct(..) => off += ct.field_offset(k as usize) as i64,
                                    _ => off += k.wrapping_mul(ct.elem(0).size() as i64),
                                }
                                let e = ct.elem(if matches!(ct, Ty::Struct(..)) { k as usize } else { 0 }).clone();
                                ct = e;
                            }
                            v => {
                                let e = ct.elem(0).clone();
                                terms.push((v, w, e.size() as i64));
                                ct = e;
                            }
                        }
                    }
                }
                if off == 0 && terms.is_empty() {
                    Inst::Copy { d, a: base }
                } else {
                    Inst::Gep { d, base, off, terms }
                }
            }
            "alloca" => {
                skipf(p, &["inalloca", "swifterror"]);
                let t = p.ty()?;
                let mut n = None;
                if p.isp(',') && !matches!(p.t.get(p.i + 1), Some(T::Id(s)) if s == "align") && !matches!(p.t.get(p.i + 1), Some(T::Meta)) {
                    p.eat(',')?;
                    let (_, v) = p.tyval()?;
                    n = Some(v);
                }
                Inst::Alloca { d, size: t.size(), n }
            }
            "select" => {
                skipf(p, FMF);
                let (ct, c) = p.tyval()?;
                p.eat(',')?;
                let (t, a) = p.tyval()?;
                p.eat(',')?;
                let (_, b) = p.tyval()?;
                let (w, n) = t.lanes();
                Inst::Select { d, w, n, cn: ct.lanes().1, c, a, b }
            }
            "freeze" => {
                let (_, a) = p.tyval()?;
                Inst::Copy { d, a }
            }
            "phi" => {
                skipf(p, FMF);
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.eat('[')?;
                    let v = p.val(&t)?;
                    p.eat(',')?;
                    let l = match p.next()? {
                        T::Loc(n) => *labels.get(&n).ok_or(format!("label {n}"))?,
                        x => return Err(format!("phi label {x:?}")),
                    };
                    p.eat(']')?;
                    inc.push((l, v));
                    if p.isp(',') && p.ispn(1, '[') {
                        p.eat(',')?;
                    } else {
                        break;
                    }
                }
                phis.push((cur, d, inc));
                return Ok(None);
            }
            "br" => {
                if p.isid("label") {
                    Inst::Br(lab(p)?)
                } else {
                    let (_, c) = p.tyval()?;
                    p.eat(',')?;
                    let a = lab(p)?;
                    p.eat(',')?;
                    let b = lab(p)?;
                    if a == b {
                        Inst::Br(a)
                    } else {
                        Inst::CondBr(c, a, b)
                    }
                }
            }
            "switch" => {
                let (t, v) = p.tyval()?;
                p.eat(',')?;
                let def = lab(p)?;
                p.eat('[')?;
                let mut cases = vec![];
                while !p.isp(']') {
                    let (_, k) = p.tyval()?;
                    p.eat(',')?;
                    let l = lab(p)?;
                    match k {
                        Opd::C(c) => cases.push((c, l)),
                        _ => return Err("switch case".into()),
                    }
                }
                Inst::Switch { w: t.scalar(), v, def, cases }
            }
            "ret" => {
                if p.isid("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = p.tyval()?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" | "resume" => Inst::Bad("unwinding".into()),
            "extractvalue" => {
                let (_, a) = p.tyval()?;
                let mut path = vec![];
                while p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::Int(_))) {
                    p.eat(',')?;
                    path.push(p.int()? as u32);
                }
                Inst::ExtractValue { d, a, path }
            }
            "insertvalue" => {
                let (_, a) = p.tyval()?;
                p.eat(',')?;
                let (_, v) = p.tyval()?;
                let mut path = vec![];
                while p.isp(',') && matches!(p.t.get(p.i + 1), Some(T::Int(_))) {
                    p.eat(',')?;
                    path.push(p.int()? as u32);
                }
                Inst::InsertValue { d, a, v, path }
            }
            "extractelement" => {
                let (_, a) = p.tyval()?;
                p.eat(',')?;
                let (_, i) = p.tyval()?;
                Inst::ExtractElem { d, a, i }
            }
            "insertelement" => {
                let (_, a) = p.tyval()?;
                p.eat(',')?;
                let (_, v) = p.tyval()?;
                p.eat(',')?;
                let (_, i) = p.tyval()?;
                Inst::InsertElem { d, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = p.tyval()?;
                p.eat(',')?;
                let (_, b) = p.tyval()?;
                p.eat(',')?;
                let mt = p.ty()?;
                let mask = match p.konst(&mt)? {
                    K::A(v) => v.iter().map(|k| if let K::I(x) = k { *x as i32 } else { 0 }).collect(),
                    _ => vec![0; mt.count()],
                };
                Inst::Shuffle { d, a, b, n: t.count() as u32, mask }
            }
            "atomicrmw" => {
                skipf(p, &["volatile"]);
                let o = p.id()?;
                let (_, q) = p.tyval()?;
                p.eat(',')?;
                let (t, v) = p.tyval()?;
                let o = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"].iter().position(|x| *x == o).ok_or(format!("atomicrmw {o}"))? as u8;
                Inst::Rmw { d, op: o, w: t.scalar(), p: q, v }
            }
            "cmpxchg" => {
                skipf(p, &["weak", "volatile"]);
                let (_, q) = p.tyval()?;
                p.eat(',')?;
                let (t, c) = p.tyval()?;
                p.eat(',')?;
                let (_, v) = p.tyval()?;
                Inst::CmpXchg { d, w: t.scalar(), p: q, c, v }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.id()?;
                }
                let inv = op == "invoke";
                // calling convention, return attributes
                while !p.is_type() {
                    match p.next()? {
                        T::Id(s) => {
                            if p.isp('(') {
                                p.skip_parens()?;
                            } else if s == "align" || s == "cc" {
                                p.i += 1;
                            }
                        }
                        T::P('(') => {
                            p.i -= 1;
                            p.skip_parens()?;
                        }
                        t => return Err(format!("call: {t:?}")),
                    }
                }
                let rt = p.ty()?;
                if p.isp('(') {
                    p.skip_parens()?;
                }
                let callee = match p.next()? {
                    T::Glob(n) => {
                        let mut n = n;
                        while let Some(a) = self.alias.get(&n) {
                            n = a.clone();
                        }
                        Ok(n)
                    }
                    T::Loc(n) => Err(Opd::R(p.reg(&n))),
                    T::Id(s) if s == "asm" => return self.asm(p),
                    T::Id(s) if s == "inttoptr" => {
                        p.i -= 1;
                        Err(p.val(&Ty::Ptr)?)
                    }
                    t => return Err(format!("callee {t:?}")),
                };
                p.eat('(')?;
                let mut args = vec![];
                let mut at0 = Ty::Void;
                let mut first = true;
                while !p.isp(')') {
                    let t = p.ty()?;
                    p.skip_attrs()?;
                    if t == Ty::Other {
                        // metadata
                        let mut depth = 0;
                        loop {
                            match p.peek() {
                                Some(T::P('(')) => depth += 1,
                                Some(T::P(')')) if depth == 0 => break,
                                Some(T::P(')')) => depth -= 1,
                                Some(T::P(',')) if depth == 0 => break,
                                None => return Err("metadata".into()),
                                _ => {}
                            }
                            p.i += 1;
                        }
                    } else {
                        let v = p.val(&t)?;
                        args.push(v);
                    }
                    if first {
                        at0 = t;
                        first = false;
                    }
                    if !p.opt(',') {
                        break;
                    }
                }
                p.eat(')')?;
                let mut next = None;
                if inv {
                    while !p.isid("to") {
                        p.next()?;
                    }
                    p.next()?;
                    next = Some(lab(p)?);
                }
                match callee {
                    Ok(n) => {
                        if let Some(nm) = n.strip_prefix("llvm.") {
                            let id = intr(nm);
                            let lt = match id {
                                Intr::VecReduceAdd | Intr::VecReduceAnd | Intr::VecReduceOr | Intr::UCmp | Intr::SCmp | Intr::AddO | Intr::SubO | Intr::MulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => at0,
                                _ if rt == Ty::Void => at0,
                                _ => rt.clone(),
                            };
                            let (mut w, nn) = lt.lanes();
                            if matches!(id, Intr::UCmp | Intr::SCmp) {
                                w |= rt.scalar() << 16;
                            }
                            Inst::Intr { d: if rt == Ty::Void { None } else { Some(d) }, id, name: n, w, n: nn, args, next }
                        } else {
                            let f = *self.fn_by_name.get(&n).ok_or(format!("unknown function {n}"))?;
                            Inst::Call { d: dst, f: Callee::Fn(f), args, next }
                        }
                    }
                    Err(o) => Inst::Call { d: dst, f: Callee::Ptr(o), args, next },
                }
            }
            x => return Err(format!("instruction {x}")),
        }))
    }
    fn asm(&self, p: &mut P) -> Res<Option<Inst>> {
        // only the empty optimisation barrier is understood
        let _ = p;
        Ok(Some(Inst::Bad("inline assembly".into())))
    }
}

fn intr(n: &str) -> Intr {
    let has = |s: &str| n.starts_with(s);
    if has("lifetime") || has("experimental.noalias") || has("dbg") || has("prefetch") || has("x86.sse2.pause") || has("invariant") || has("assume") || has("donothing") || has("sideeffect") || has("fake.use") {
        Intr::Nop
    } else if has("memcpy") || has("memmove") {
        Intr::MemCpy
    } else if has("memset") {
        Intr::MemSet
    } else if has("ctlz") {
        Intr::Ctlz
    } else if has("cttz") {
        Intr::Cttz
    } else if has("ctpop") {
        Intr::Ctpop
    } else if has("bswap") {
        Intr::Bswap
    } else if has("bitreverse") {
        Intr::Bitreverse
    } else if has("fshl") {
        Intr::Fshl
    } else if has("fshr") {
        Intr::Fshr
    } else if has("umax") {
        Intr::UMax
    } else if has("umin") {
        Intr::UMin
    } else if has("smax") {
        Intr::SMax
    } else if has("smin") {
        Intr::SMin
    } else if has("abs") {
        Intr::Abs
    } else if has("uadd.sat") {
        Intr::UAddSat
    } else if has("usub.sat") {
        Intr::USubSat
    } else if has("sadd.sat") {
        Intr::SAddSat
    } else if has("ssub.sat") {
        Intr::SSubSat
    } else if has("uadd.with.overflow") {
        Intr::AddO
    } else if has("usub.with.overflow") {
        Intr::SubO
    } else if has("umul.with.overflow") {
        Intr::MulO
    } else if has("sadd.with.overflow") {
        Intr::SAddO
    } else if has("ssub.with.overflow") {
        Intr::SSubO
    } else if has("smul.with.overflow") {
        Intr::SMulO
    } else if has("ucmp") {
        Intr::UCmp
    } else if has("scmp") {
        Intr::SCmp
    } else if has("threadlocal.address") || has("ssa.copy") || has("launder") || has("strip.invariant") {
        Intr::Ident
    } else if has("expect") {
        Intr::Expect
    } else if has("is.constant") {
        Intr::IsConst
    } else if has("trap") || has("ubsantrap") || has("debugtrap") {
        Intr::Trap
    } else if has("vector.reduce.or") {
        Intr::VecReduceOr
    } else if has("vector.reduce.and") {
        Intr::VecReduceAnd
    } else if has("vector.reduce.add") {
        Intr::VecReduceAdd
    } else if has("objectsize") {
        Intr::ObjectSize
    } else {
        Intr::Unsupported
    }
}
