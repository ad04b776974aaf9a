//! Reader for the textual LLVM IR that rustc emits (un-optimised).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum C {
    Int(Ty, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Global(String),
    Agg(Ty, Rc<Vec<C>>),
    Bytes(Rc<Vec<u8>>),
    Gep(Rc<(Ty, C, Vec<C>)>),
    IntToPtr(Rc<C>),
    PtrToInt(Rc<C>, Ty),
    Sub(Rc<(C, C)>, Ty),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(C),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    Freeze,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(String),
    Reg(Op),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum K {
    Alloca { ty: Ty, n: Option<Op>, align: u32 },
    Load { ty: Ty, p: Op, align: u32, volatile: bool, noundef: bool },
    Store { ty: Ty, v: Op, p: Op, align: u32, volatile: bool },
    Gep { ty: Ty, p: Op, idx: Vec<(Ty, Op)>, inbounds: bool },
    Bin { b: Bin, ty: Ty, x: Op, y: Op },
    Icmp { pred: String, ty: Ty, x: Op, y: Op },
    Cast { c: Cast, from: Ty, v: Op, to: Ty },
    Select { cty: Ty, c: Op, ty: Ty, x: Op, y: Op },
    Phi { ty: Ty, inc: Vec<(Op, u32)> },
    ExtractValue { ty: Ty, v: Op, idx: Vec<u32> },
    InsertValue { ty: Ty, v: Op, ety: Ty, e: Op, idx: Vec<u32> },
    ExtractElem { ty: Ty, v: Op, i: Op },
    InsertElem { ty: Ty, v: Op, e: Op, i: Op },
    Shuffle { ty: Ty, x: Op, y: Op, mask: Vec<Option<u32>> },
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, attr: Option<String>, arg_align: Vec<(u32, u64)> },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, d: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub k: K,
    pub dbg: u32,
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub ipdom: Vec<Option<u32>>,
    pub sp: u32,
    pub features: Vec<String>,
    pub noreturn: bool,
}

pub struct FDecl {
    pub header_line: usize,
    pub end_line: usize,
    pub is_def: bool,
    pub attr: Option<String>,
}

pub struct Module {
    pub path: String,
    pub lines: Vec<String>,
    pub funcs: HashMap<String, FDecl>,
    pub globals: HashMap<String, usize>,
    pub types: HashMap<String, usize>,
    pub md: HashMap<u32, usize>,
    pub attrs: HashMap<String, String>,
    pub be: bool,
    pub ptr_bits: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    L(String),
    G(String),
    I(bool, u128),
    W(String),
    S(Vec<u8>),
    CS(Vec<u8>),
    M(String),
    A(String),
    P(char),
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let qstr = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    v.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    i += 1;
                    name = String::from_utf8_lossy(&qstr(&mut i)).into_owned();
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::M(s[st..i].to_string()));
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::A(s[st..i].to_string()));
            }
            b'"' => {
                let v = qstr(&mut i);
                out.push(T::S(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = qstr(&mut i);
                out.push(T::CS(v));
            }
            b'-' | b'0'..=b'9' => {
                let neg = c == b'-';
                let st = if neg { i + 1 } else { i };
                i = st;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') {
                    i += 1;
                }
                match s[st..i].parse::<u128>() {
                    Ok(v) => out.push(T::I(neg, v)),
                    Err(_) => out.push(T::W(s[st..i].to_string())),
                }
            }
            _ if idc(c) => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::W(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct Px<'a> {
    pub t: Vec<T>,
    pub i: usize,
    pub m: &'a Module,
    pub regs: Option<&'a mut HashMap<String, u32>>,
    pub blocks: Option<&'a HashMap<String, u32>>,
}

fn is_int_ty(w: &str) -> Option<u32> {
    if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'a> Px<'a> {
    pub fn new(m: &'a Module, s: &str) -> Self {
        Px { t: lex(s), i: 0, m, regs: None, blocks: None }
    }
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        assert!(self.eat_p(c), "expected {} at {:?} in {:?}", c, self.peek(), self.t);
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => is_int_ty(w).is_some() || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "metadata" | "label" | "token"),
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            T::W(w) => {
                if let Some(n) = is_int_ty(&w) {
                    return Ty::Int(n);
                }
                match w.as_str() {
                    "ptr" => {
                        if self.is_w("addrspace") {
                            self.i += 1;
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    _ => Ty::Other,
                }
            }
            T::P('[') => {
                let n = match self.next() {
                    T::I(_, n) => n as u64,
                    x => panic!("arr {:?}", x),
                };
                self.i += 1; // x
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P('{') => {
                let v = self.tys('}');
                Ty::Struct(Rc::new(v), false)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let v = self.tys('}');
                    self.exp('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match self.next() {
                        T::I(_, n) => n as u32,
                        x => panic!("vec {:?}", x),
                    };
                    self.i += 1;
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::L(n) => {
                let l = self.m.types[&n];
                let line = self.m.lines[l].clone();
                let p = line.find(" = type ").unwrap();
                let body = line[p + 8..].to_string();
                if body.starts_with("opaque") {
                    return Ty::Struct(Rc::new(vec![]), false);
                }
                let mut q = Px::new(self.m, &body);
                q.ty()
            }
            x => panic!("type? {:?} in {:?}", x, self.t),
        }
    }
    fn tys(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat_p(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat_p(end) {
                return v;
            }
            self.exp(',');
        }
    }
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            loop {
                match self.next() {
                    T::P('(') => d += 1,
                    T::P(')') => {
                        d -= 1;
                        if d == 0 {
                            return;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    /// attribute words before a type
    fn skip_attrs_to_ty(&mut self) {
        while !self.is_ty() {
            self.i += 1;
            self.skip_parens();
            if let Some(T::I(..)) = self.peek() {
                self.i += 1;
            }
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> C {
        match self.next() {
            T::I(neg, v) => {
                let v = if neg { v.wrapping_neg() } else { v };
                C::Int(ty.clone(), v)
            }
            T::W(w) => match w.as_str() {
                "true" => C::Int(Ty::Int(1), 1),
                "false" => C::Int(Ty::Int(1), 0),
                "null" => C::Null,
                "undef" | "poison" => C::Undef(ty.clone()),
                "zeroinitializer" => C::Zero(ty.clone()),
                "splat" => {
                    self.exp('(');
                    let et = self.ty();
                    let e = self.konst(&et);
                    self.exp(')');
                    if let Ty::Vec(n, _) = ty {
                        C::Agg(ty.clone(), Rc::new(vec![e; *n as usize]))
                    } else {
                        panic!("splat")
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(T::W(x)) if x == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.exp('(');
                    let et = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty();
                        idx.push(self.konst(&it));
                    }
                    self.exp(')');
                    C::Gep(Rc::new((et, base, idx)))
                }
                "inttoptr" => {
                    self.exp('(');
                    let it = self.ty();
                    let e = self.konst(&it);
                    self.eat_w("to");
                    self.ty();
                    self.exp(')');
                    C::IntToPtr(Rc::new(e))
                }
                "ptrtoint" => {
                    self.exp('(');
                    let it = self.ty();
                    let e = self.konst(&it);
                    self.eat_w("to");
                    let t = self.ty();
                    self.exp(')');
                    C::PtrToInt(Rc::new(e), t)
                }
                "sub" => {
                    while matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                    }
                    self.exp('(');
                    let it = self.ty();
                    let a = self.konst(&it);
                    self.exp(',');
                    let it2 = self.ty();
                    let b = self.konst(&it2);
                    self.exp(')');
                    C::Sub(Rc::new((a, b)), it)
                }
                w => panic!("const word {} in {:?}", w, self.t),
            },
            T::G(n) => C::Global(n),
            T::CS(v) => C::Bytes(Rc::new(v)),
            T::P('<') => {
                if self.eat_p('{') {
                    let v = self.consts('}');
                    self.exp('>');
                    C::Agg(ty.clone(), Rc::new(v))
                } else {
                    let v = self.consts('>');
                    C::Agg(ty.clone(), Rc::new(v))
                }
            }
            T::P('{') => {
                let v = self.consts('}');
                C::Agg(ty.clone(), Rc::new(v))
            }
            T::P('[') => {
                let v = self.consts(']');
                C::Agg(ty.clone(), Rc::new(v))
            }
            x => panic!("const? {:?} in {:?}", x, self.t),
        }
    }
    fn consts(&mut self, end: char) -> Vec<C> {
        let mut v = vec![];
        if self.eat_p(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.eat_p(end) {
                return v;
            }
            self.exp(',');
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let l = r.len() as u32;
        *r.entry(n.to_string()).or_insert(l)
    }
    fn val(&mut self, ty: &Ty) -> Op {
        if let Some(T::L(n)) = self.peek().cloned() {
            self.i += 1;
            return Op::R(self.reg(&n));
        }
        Op::K(self.konst(ty))
    }
    fn block(&mut self) -> u32 {
        // label %bb
        assert!(self.eat_w("label"));
        match self.next() {
            T::L(n) => self.blocks.unwrap()[&n],
            x => panic!("label {:?}", x),
        }
    }
    fn align_dbg(&mut self) -> (u32, u32) {
        let mut al = 1;
        let mut dbg = 0;
        while self.i < self.t.len() {
            if self.is_w("align") {
                self.i += 1;
                if let T::I(_, n) = self.next() {
                    al = n as u32;
                }
                continue;
            }
            if let Some(T::M(m)) = self.peek() {
                if m == "dbg" {
                    if let Some(T::M(n)) = self.t.get(self.i + 1) {
                        dbg = n.parse().unwrap_or(0);
                    }
                }
            }
            self.i += 1;
        }
        (al, dbg)
    }
    fn has_md(&self, name: &str) -> bool {
        self.t.iter().any(|t| matches!(t, T::M(m) if m == name))
    }
    fn inst(&mut self) -> Inst {
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (self.t.first().cloned(), self.t.get(1)) {
            dst = Some(self.reg(&n));
            self.i = 2;
        }
        let w = match self.next() {
            T::W(w) => w,
            x => return Inst { dst, k: K::Unsupported(format!("{:?}", x)), dbg: 0 },
        };
        let bin = |w: &str| {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        let cast = |w: &str| {
            Some(match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                "bitcast" => Cast::Bitcast,
                _ => return None,
            })
        };
        if let Some(b) = bin(&w) {
            while !self.is_ty() {
                self.i += 1;
            }
            let ty = self.ty();
            let x = self.val(&ty);
            self.exp(',');
            let y = self.val(&ty);
            let (_, dbg) = self.align_dbg();
            return Inst { dst, k: K::Bin { b, ty, x, y }, dbg };
        }
        if let Some(c) = cast(&w) {
            while !self.is_ty() {
                self.i += 1;
            }
            let from = self.ty();
            let v = self.val(&from);
            assert!(self.eat_w("to"));
            let to = self.ty();
            let (_, dbg) = self.align_dbg();
            return Inst { dst, k: K::Cast { c, from, v, to }, dbg };
        }
        let (k, dbg) = match w.as_str() {
            "freeze" => {
                let from = self.ty();
                let v = self.val(&from);
                let (_, dbg) = self.align_dbg();
                (K::Cast { c: Cast::Freeze, to: from.clone(), from, v }, dbg)
            }
            "alloca" => {
                let ty = self.ty();
                let mut n = None;
                if self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(T::W(x)) if x == "align") && self.i + 1 < self.t.len() && !matches!(self.t.get(self.i + 1), Some(T::M(_))) {
                    self.exp(',');
                    let t = self.ty();
                    n = Some(self.val(&t));
                }
                let (align, dbg) = self.align_dbg();
                (K::Alloca { ty, n, align }, dbg)
            }
            "load" => {
                self.eat_w("atomic");
                let volatile = self.eat_w("volatile");
                let ty = self.ty();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let noundef = self.has_md("noundef");
                let (align, dbg) = self.align_dbg();
                (K::Load { ty, p, align, volatile, noundef }, dbg)
            }
            "store" => {
                self.eat_w("atomic");
                let volatile = self.eat_w("volatile");
                let ty = self.ty();
                let v = self.val(&ty);
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let (align, dbg) = self.align_dbg();
                (K::Store { ty, v, p, align, volatile }, dbg)
            }
            "getelementptr" => {
                let mut inbounds = false;
                while !self.is_ty() {
                    if self.is_w("inbounds") {
                        inbounds = true;
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                let ty = self.ty();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let mut idx = vec![];
                while self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(T::M(_))) {
                    self.exp(',');
                    let it = self.ty();
                    let v = self.val(&it);
                    idx.push((it, v));
                }
                let (_, dbg) = self.align_dbg();
                (K::Gep { ty, p, idx, inbounds }, dbg)
            }
            "icmp" => {
                self.eat_w("samesign");
                let pred = match self.next() {
                    T::W(w) => w,
                    _ => panic!(),
                };
                let ty = self.ty();
                let x = self.val(&ty);
                self.exp(',');
                let y = self.val(&ty);
                let (_, dbg) = self.align_dbg();
                (K::Icmp { pred, ty, x, y }, dbg)
            }
            "select" => {
                let cty = self.ty();
                let c = self.val(&cty);
                self.exp(',');
                let ty = self.ty();
                let x = self.val(&ty);
                self.exp(',');
                self.ty();
                let y = self.val(&ty);
                let (_, dbg) = self.align_dbg();
                (K::Select { cty, c, ty, x, y }, dbg)
            }
            "phi" => {
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.exp('[');
                    let v = self.val(&ty);
                    self.exp(',');
                    let b = match self.next() {
                        T::L(n) => self.blocks.unwrap()[&n],
                        x => panic!("{:?}", x),
                    };
                    self.exp(']');
                    inc.push((v, b));
                    if !(self.is_p(',') && matches!(self.t.get(self.i + 1), Some(T::P('[')))) {
                        break;
                    }
                    self.exp(',');
                }
                let (_, dbg) = self.align_dbg();
                (K::Phi { ty, inc }, dbg)
            }
            "extractvalue" => {
                let ty = self.ty();
                let v = self.val(&ty);
                let idx = self.idxs();
                let (_, dbg) = self.align_dbg();
                (K::ExtractValue { ty, v, idx }, dbg)
            }
            "insertvalue" => {
                let ty = self.ty();
                let v = self.val(&ty);
                self.exp(',');
                let ety = self.ty();
                let e = self.val(&ety);
                let idx = self.idxs();
                let (_, dbg) = self.align_dbg();
                (K::InsertValue { ty, v, ety, e, idx }, dbg)
            }
            "extractelement" => {
                let ty = self.ty();
                let v = self.val(&ty);
                self.exp(',');
                let it = self.ty();
                let i = self.val(&it);
                let (_, dbg) = self.align_dbg();
                (K::ExtractElem { ty, v, i }, dbg)
            }
            "insertelement" => {
                let ty = self.ty();
                let v = self.val(&ty);
                self.exp(',');
                let et = self.ty();
                let e = self.val(&et);
                self.exp(',');
                let it = self.ty();
                let i = self.val(&it);
                let (_, dbg) = self.align_dbg();
                (K::InsertElem { ty, v, e, i }, dbg)
            }
            "shufflevector" => {
                let ty = self.ty();
                let x = self.val(&ty);
                self.exp(',');
                self.ty();
                let y = self.val(&ty);
                self.exp(',');
                let mt = self.ty();
                let m = self.konst(&mt);
                let n = if let Ty::Vec(n, _) = mt { n } else { 0 };
                let mask = match m {
                    C::Zero(_) => vec![Some(0); n as usize],
                    C::Agg(_, v) => v
                        .iter()
                        .map(|c| match c {
                            C::Int(_, v) => Some(*v as u32),
                            _ => None,
                        })
                        .collect(),
                    C::Undef(_) => vec![None; n as usize],
                    _ => panic!("mask"),
                };
                let (_, dbg) = self.align_dbg();
                (K::Shuffle { ty, x, y, mask }, dbg)
            }
            "tail" | "musttail" | "notail" | "call" => {
                if w != "call" {
                    assert!(self.eat_w("call"));
                }
                self.call()
            }
            "br" => {
                if self.is_w("label") {
                    let b = self.block();
                    let (_, dbg) = self.align_dbg();
                    (K::Br(b), dbg)
                } else {
                    let ty = self.ty();
                    let c = self.val(&ty);
                    self.exp(',');
                    let t = self.block();
                    self.exp(',');
                    let f = self.block();
                    let (_, dbg) = self.align_dbg();
                    (K::CondBr { c, t, f }, dbg)
                }
            }
            "switch" => {
                let ty = self.ty();
                let v = self.val(&ty);
                self.exp(',');
                let d = self.block();
                self.exp('[');
                let mut cases = vec![];
                while !self.is_p(']') {
                    self.ty();
                    let c = match self.konst(&ty) {
                        C::Int(_, v) => v,
                        x => panic!("{:?}", x),
                    };
                    self.exp(',');
                    let b = self.block();
                    cases.push((c, b));
                }
                let (_, dbg) = self.align_dbg();
                (K::Switch { ty, v, d, cases }, dbg)
            }
            "ret" => {
                let ty = self.ty();
                if ty == Ty::Void {
                    let (_, dbg) = self.align_dbg();
                    (K::Ret(None), dbg)
                } else {
                    let v = self.val(&ty);
                    let (_, dbg) = self.align_dbg();
                    (K::Ret(Some((ty, v))), dbg)
                }
            }
            "unreachable" => {
                let (_, dbg) = self.align_dbg();
                (K::Unreachable, dbg)
            }
            "fence" => (K::Fence, 0),
            _ => (K::Unsupported(w.clone()), 0),
        };
        Inst { dst, k, dbg }
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.is_p(',') {
            if let Some(T::I(_, n)) = self.t.get(self.i + 1) {
                v.push(*n as u32);
                self.i += 2;
            } else {
                break;
            }
        }
        v
    }
    fn call(&mut self) -> (K, u32) {
        // calling convention / ret attrs
        self.skip_attrs_to_ty();
        let ret = self.ty();
        // function type in parens (varargs) not expected
        let callee = match self.next() {
            T::G(n) => Callee::Sym(n),
            T::L(n) => Callee::Reg(Op::R(self.reg(&n))),
            T::W(w) if w == "asm" => {
                while !matches!(self.peek(), Some(T::S(_))) {
                    self.i += 1;
                }
                let a = match self.next() {
                    T::S(v) => String::from_utf8_lossy(&v).into_owned(),
                    _ => unreachable!(),
                };
                self.exp(',');
                let c = match self.next() {
                    T::S(v) => String::from_utf8_lossy(&v).into_owned(),
                    x => panic!("{:?}", x),
                };
                Callee::Asm(format!("{}|{}", a, c))
            }
            x => panic!("callee {:?} in {:?}", x, self.t),
        };
        self.exp('(');
        let mut args = vec![];
        let mut arg_align = vec![];
        if !self.eat_p(')') {
            loop {
                let ty = self.ty();
                // attrs
                let mut al = 1u32;
                let mut deref = 0u64;
                loop {
                    match self.peek() {
                        Some(T::W(w)) => {
                            let w = w.clone();
                            if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "sub") {
                                break;
                            }
                            self.i += 1;
                            if w == "align" {
                                if let Some(T::I(_, n)) = self.peek() {
                                    al = *n as u32;
                                    self.i += 1;
                                }
                            } else if w == "dereferenceable" {
                                if let Some(T::I(_, n)) = self.t.get(self.i + 1) {
                                    deref = *n as u64;
                                }
                                self.skip_parens();
                            } else {
                                self.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                let v = if ty == Ty::Other {
                    self.i += 1;
                    Op::K(C::Null)
                } else {
                    self.val(&ty)
                };
                args.push((ty, v));
                arg_align.push((al, deref));
                if self.eat_p(')') {
                    break;
                }
                self.exp(',');
            }
        }
        let attr = match self.peek() {
            Some(T::A(a)) => Some(a.clone()),
            _ => None,
        };
        let (_, dbg) = self.align_dbg();
        (K::Call { ret, callee, args, attr, arg_align }, dbg)
    }
}

fn sym_at(line: &str) -> Option<String> {
    let p = line.find('@')?;
    let b = &line[p + 1..];
    if let Some(r) = b.strip_prefix('"') {
        return r.find('"').map(|e| r[..e].to_string());
    }
    let e = b.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(b.len());
    Some(b[..e].to_string())
}

impl Module {
    pub fn load(path: &str) -> std::io::Result<Module> {
        let text = std::fs::read_to_string(path)?;
        let mut m = Module {
            path: path.to_string(),
            lines: text.lines().map(|s| s.to_string()).collect(),
            funcs: HashMap::new(),
            globals: HashMap::new(),
            types: HashMap::new(),
            md: HashMap::new(),
            attrs: HashMap::new(),
            be: false,
            ptr_bits: 64,
        };
        let mut i = 0;
        while i < m.lines.len() {
            let l = &m.lines[i];
            if l.starts_with("define ") {
                let name = sym_at(l).unwrap();
                let mut e = i;
                while m.lines[e] != "}" {
                    e += 1;
                }
                let attr = l.split(" #").nth(1).map(|s| format!("#{}", s.split(|c: char| !c.is_ascii_digit()).next().unwrap()));
                m.funcs.insert(name, FDecl { header_line: i, end_line: e, is_def: true, attr });
                i = e;
            } else if l.starts_with("declare ") {
                let name = sym_at(l).unwrap();
                let attr = l.rfind(" #").map(|p| l[p + 1..].split_whitespace().next().unwrap().to_string());
                m.funcs.entry(name).or_insert(FDecl { header_line: i, end_line: i, is_def: false, attr });
            } else if l.starts_with('@') {
                let name = sym_at(l).unwrap();
                m.globals.insert(name, i);
            } else if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let n = l[1..p].trim_matches('"').to_string();
                    m.types.insert(n, i);
                }
            } else if l.starts_with('!') {
                if let Some(p) = l.find(" = ") {
                    if let Ok(n) = l[1..p].parse::<u32>() {
                        m.md.insert(n, i);
                    }
                }
            } else if l.starts_with("attributes ") {
                let p = l.find(" = ").unwrap();
                m.attrs.insert(l[11..p].to_string(), l[p + 3..].to_string());
            } else if l.starts_with("target datalayout") {
                let d = l.split('"').nth(1).unwrap();
                m.be = d.starts_with('E');
                m.ptr_bits = if d.split('-').any(|x| x.starts_with("p:32")) { 32 } else { 64 };
            }
            i += 1;
        }
        Ok(m)
    }
    pub fn attr_str(&self, a: &Option<String>) -> &str {
        match a {
            Some(a) => self.attrs.get(a).map(|s| s.as_str()).unwrap_or(""),
            None => "",
        }
    }
    pub fn features_of(&self, a: &Option<String>) -> Vec<String> {
        let s = self.attr_str(a);
        match s.find("\"target-features\"=\"") {
            Some(p) => {
                let r = &s[p + 19..];
                let e = r.find('"').unwrap();
                let mut v: Vec<String> = vec![];
                for f in r[..e].split(',') {
                    if let Some(x) = f.strip_prefix('+') {
                        v.push(x.to_string());
                    } else if let Some(x) = f.strip_prefix('-') {
                        v.retain(|y| y != x);
                    }
                }
                v.sort();
                v.dedup();
                v
            }
            None => vec![],
        }
    }
    pub fn is_noreturn(&self, name: &str) -> bool {
        match self.funcs.get(name) {
            Some(d) => {
                let h = &self.lines[d.header_line];
                self.attr_str(&d.attr).contains("noreturn") || h.contains(" noreturn ")
            }
            None => false,
        }
    }
    pub fn parse_func(&self, name: &str, midx: usize) -> Func {
        let d = &self.funcs[name];
        let header = &self.lines[d.header_line];
        let mut regs: HashMap<String, u32> = HashMap::new();
        // params
        let mut params = vec![];
        let ret;
        let mut sp = 0;
        {
            let mut px = Px::new(self, header);
            // define [linkage..] ret @name(
            px.i = 1;
            px.skip_attrs_to_ty();
            ret = px.ty();
            px.next(); // name
            px.exp('(');
            if !px.eat_p(')') {
                loop {
                    let ty = px.ty();
                    loop {
                        match px.peek() {
                            Some(T::W(_)) => {
                                px.i += 1;
                                px.skip_parens();
                                if let Some(T::I(..)) = px.peek() {
                                    px.i += 1;
                                }
                            }
                            _ => break,
                        }
                    }
                    if let T::L(n) = px.next() {
                        let l = regs.len() as u32;
                        regs.insert(n, l);
                        params.push((ty, l));
                    }
                    if px.eat_p(')') {
                        break;
                    }
                    px.exp(',');
                }
            }
            while px.i < px.t.len() {
                if let T::M(m) = &px.t[px.i] {
                    if m == "dbg" {
                        if let Some(T::M(n)) = px.t.get(px.i + 1) {
                            sp = n.parse().unwrap_or(0);
                        }
                    }
                }
                px.i += 1;
            }
        }
        // blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut lines: Vec<Vec<String>> = vec![];
        let mut i = d.header_line + 1;
        while i < d.end_line {
            let l = &self.lines[i];
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with("#dbg") {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let e = l.find(':').unwrap();
                let n = l[..e].trim_matches('"').to_string();
                labels.insert(n, lines.len() as u32);
                lines.push(vec![]);
                i += 1;
                continue;
            }
            let mut s = l.clone();
            if s.trim_start().starts_with("switch ") && !s.contains(']') {
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(&self.lines[i]);
                    if self.lines[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            if lines.is_empty() {
                labels.insert("0".into(), 0);
                lines.push(vec![]);
            }
            lines.last_mut().unwrap().push(s);
            i += 1;
        }
        let mut blocks = vec![];
        for bl in &lines {
            let mut v = vec![];
            for s in bl {
                let mut px = Px { t: lex(s), i: 0, m: self, regs: Some(&mut regs), blocks: Some(&labels) };
                v.push(px.inst());
            }
            blocks.push(v);
        }
        let ipdom = compute_ipdom(&blocks);
        let feats = self.features_of(&d.attr);
        Func { name: name.to_string(), module: midx, params, ret, nregs: regs.len() as u32, blocks, ipdom, sp, features: feats, noreturn: self.is_noreturn(name) }
    }
    /// (file, line, function, inlinedAt)
    pub fn dbg_loc(&self, id: u32) -> Option<(String, u32, String, Option<u32>)> {
        let l = &self.lines[*self.md.get(&id)?];
        if !l.contains("DILocation") {
            return None;
        }
        let line: u32 = field(l, "line: ")?.parse().ok()?;
        let scope: u32 = field(l, "scope: !")?.parse().ok()?;
        let inl = field(l, "inlinedAt: !").and_then(|s| s.parse().ok());
        let (file, func) = self.scope(scope);
        Some((file, line, func, inl))
    }
    pub fn scope(&self, id: u32) -> (String, String) {
        let mut id = id;
        let mut file = String::new();
        loop {
            let Some(&ln) = self.md.get(&id) else { return (file, String::new()) };
            let l = &self.lines[ln];
            if file.is_empty() {
                if let Some(f) = field(l, "file: !").and_then(|s| s.parse::<u32>().ok()) {
                    if let Some(&fl) = self.md.get(&f) {
                        let t = &self.lines[fl];
                        let name = strfield(t, "filename: \"").unwrap_or_default();
                        let dir = strfield(t, "directory: \"").unwrap_or_default();
                        file = if name.starts_with('/') { name } else { format!("{}/{}", dir, name) };
                    }
                }
            }
            if l.contains("DISubprogram(") {
                return (file, strfield(l, "name: \"").unwrap_or_default());
            }
            match field(l, "scope: !").and_then(|s| s.parse().ok()) {
                Some(s) => id = s,
                None => return (file, String::new()),
            }
        }
    }
}

fn field(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)?;
    let r = &l[p + k.len()..];
    let e = r.find(|c: char| !(c.is_ascii_digit())).unwrap_or(r.len());
    Some(r[..e].to_string())
}
fn strfield(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)?;
    let r = &l[p + k.len()..];
    let e = r.find('"')?;
    Some(r[..e].to_string())
}

pub fn succs(i: &Inst) -> Vec<u32> {
    match &i.k {
        K::Br(b) => vec![*b],
        K::CondBr { t, f, .. } => vec![*t, *f],
        K::Switch { d, cases, .. } => {
            let mut v = vec![*d];
            v.extend(cases.iter().map(|c| c.1));
            v
        }
        _ => vec![],
    }
}

/// immediate post-dominators; blocks that cannot reach a return (diverging) are ignored
fn compute_ipdom(blocks: &[Vec<Inst>]) -> Vec<Option<u32>> {
    let n = blocks.len();
    let exit = n;
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        if let Some(t) = b.last() {
            if matches!(t.k, K::Ret(_)) {
                succ[i].push(exit);
            }
            for s in succs(t) {
                succ[i].push(s as usize);
            }
        }
    }
    // can reach exit
    let mut reach = vec![false; n + 1];
    reach[exit] = true;
    let mut ch = true;
    while ch {
        ch = false;
        for i in 0..n {
            if !reach[i] && succ[i].iter().any(|s| reach[*s]) {
                reach[i] = true;
                ch = true;
            }
        }
    }
    // pdom sets as bitsets
    let words = (n + 1 + 63) / 64;
    let full = vec![u64::MAX; words];
    let mut pd: Vec<Vec<u64>> = vec![full.clone(); n + 1];
    pd[exit] = vec![0; words];
    pd[exit][exit / 64] |= 1 << (exit % 64);
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            if !reach[i] {
                continue;
            }
            let mut s = full.clone();
            for &j in &succ[i] {
                if reach[j] {
                    for k in 0..words {
                        s[k] &= pd[j][k];
                    }
                }
            }
            s[i / 64] |= 1 << (i % 64);
            if s != pd[i] {
                pd[i] = s;
                ch = true;
            }
        }
    }
    let has = |s: &Vec<u64>, i: usize| (s[i / 64] >> (i % 64)) & 1 == 1;
    let mut out = vec![None; n];
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        // the strict post-dominator with the largest pdom set
        let mut best: Option<(u32, usize)> = None;
        for j in 0..n {
            if j != i && reach[j] && has(&pd[i], j) {
                let c: u32 = pd[j].iter().map(|w| w.count_ones()).sum();
                if best.map_or(true, |b| c > b.0) {
                    best = Some((c, j));
                }
            }
        }
        out[i] = best.map(|b| b.1 as u32);
    }
    out
}

pub fn size_align(t: &Ty, ptr_bits: u32) -> (u64, u64) {
    match t {
        Ty::Void | Ty::Other => (0, 1),
        Ty::Int(n) => {
            let b = ((*n as u64) + 7) / 8;
            let b = b.next_power_of_two();
            (b, b.min(16))
        }
        Ty::Float(n) => ((*n / 8) as u64, (*n / 8) as u64),
        Ty::Ptr => ((ptr_bits / 8) as u64, (ptr_bits / 8) as u64),
        Ty::Arr(n, e) => {
            let (s, a) = size_align(e, ptr_bits);
            (s * n, a)
        }
        Ty::Vec(n, e) => {
            let bits = match **e {
                Ty::Int(b) => b as u64 * *n as u64,
                Ty::Float(b) => b as u64 * *n as u64,
                Ty::Ptr => ptr_bits as u64 * *n as u64,
                _ => 0,
            };
            let b = ((bits + 7) / 8).next_power_of_two();
            (b, b)
        }
        Ty::Struct(v, packed) => {
            let mut o = 0;
            let mut al = 1;
            for e in v.iter() {
                let (s, a) = size_align(e, ptr_bits);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((o + al - 1) / al * al, al)
        }
    }
}
pub fn field_off(v: &[Ty], packed: bool, i: usize, ptr_bits: u32) -> u64 {
    let mut o = 0;
    for (j, e) in v.iter().enumerate() {
        let (s, a) = size_align(e, ptr_bits);
        let a = if packed { 1 } else { a };
        o = (o + a - 1) / a * a;
        if j == i {
            return o;
        }
        o += s;
    }
    o
}
