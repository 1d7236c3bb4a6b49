//! The program representation the interpreter runs: a direct image of LLVM IR.
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Arc<Ty>),
    Vector(u32, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                // storage size; allocation size rounds up to the alignment
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => ((*n as u64) * w as u64).div_ceil(8),
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        o = o.div_ceil(a) * a;
                    }
                    o += f.size();
                }
                o.div_ceil(al) * al
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// Bit width of a scalar, 0 for anything else.
    pub fn scalar(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    /// (lane width, lanes); lanes = 0 for scalars
    pub fn lanes(&self) -> (u32, u32) {
        match self {
            Ty::Vector(n, t) => (t.scalar(), *n),
            t => (t.scalar(), 0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    A(Vec<K>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u128),
    A(Arc<K>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    MemCpy,
    MemSet,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    AddO,
    SubO,
    MulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    Ident,
    Expect,
    IsConst,
    Trap,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    ObjectSize,
    Unsupported,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opd),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: BinOp, w: u32, n: u32, a: Opd, b: Opd },
    Icmp { d: u32, p: Pred, w: u32, n: u32, a: Opd, b: Opd },
    Cast { d: u32, k: CastK, fw: u32, tw: u32, n: u32, a: Opd },
    Bitcast { d: u32, f: Ty, t: Ty, a: Opd },
    FBin { d: u32, op: u8, w: u32, a: Opd, b: Opd },
    FCmp { d: u32, p: String, w: u32, a: Opd, b: Opd },
    FCast { d: u32, k: String, fw: u32, tw: u32, a: Opd },
    Load { d: u32, ty: Ty, w: u32, p: Opd },
    Store { ty: Ty, w: u32, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, size: u64, n: Option<Opd> },
    Select { d: u32, w: u32, n: u32, cn: u32, c: Opd, a: Opd, b: Opd },
    Copy { d: u32, a: Opd },
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Vec<i32> },
    Rmw { d: u32, op: u8, w: u32, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, c: Opd, v: Opd },
    Call { d: Option<u32>, f: Callee, args: Vec<Opd>, next: Option<u32> },
    Intr { d: Option<u32>, id: Intr, name: String, w: u32, n: u32, args: Vec<Opd>, next: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Bad(String),
}
#[derive(Debug, Default)]
pub struct Block {
    pub start: u32,
    /// per predecessor: the parallel assignment on that edge
    pub edges: Vec<(u32, Vec<(u32, Opd)>)>,
}
#[derive(Debug)]
pub struct Body {
    pub insts: Vec<Inst>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub nparams: u32,
}
pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub body: OnceLock<Body>,
    pub ext: String,
    pub panics: bool,
    pub weak: bool,
}
pub struct Global {
    pub init: Option<Vec<u8>>,
    pub constant: bool,
    pub size: u64,
}
pub const FN_BASE: u64 = 0x7000_0000;
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE << 32) + ((i as u64) << 4)
}
/// Object 0 is never allocated, so that null and small integers are not addresses.
pub fn obj_addr(id: u32) -> u64 {
    (id as u64) << 32
}
