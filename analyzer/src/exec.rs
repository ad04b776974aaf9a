//! Abstract interpreter over the IR: forward, interprocedural, context-sensitive value-number
//! propagation. Branches whose condition is a known constant in the domain are folded
//! (conditional constant propagation); at every other branch both arms are analysed up to
//! the immediate post-dominator and the two abstract states are joined with gated values.
use crate::bv::*;
use crate::ir::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type ObjId = u32;
pub const GBASE: u32 = 1 << 30;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    B(B),
    P(ObjId, B),
    F(Rc<str>, usize),
    Agg(Rc<Vec<Val>>),
    Sel(B, Rc<(Val, Val)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub v: Val,
    pub len: u32,
    pub loc: u32,
    pub volatile: bool,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub name: Rc<str>,
    pub size: u64,
    pub align: u64,
    pub cells: BTreeMap<u32, Cell>,
    pub ro: bool,
    pub dead: bool,
    pub watch: bool,
}

#[derive(Clone)]
pub struct State {
    pub objs: Vec<Rc<Obj>>,
    pub globals: HashMap<ObjId, Rc<Obj>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ek {
    SecretBranch,
    SecretAddr,
    Panic,
    Oob,
    Misalign,
    Uninit,
    ReadOnlyWrite,
    GlobalRead,
    GlobalWrite,
    Feature,
    External,
    Unreachable,
    WatchRead,
    Dead,
    Cpuid,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub k: Ek,
    pub loc: String,
    pub detail: String,
    pub conditional: bool,
}

pub enum Flow {
    Reached,
    Ret(Option<Val>),
    Div,
}

#[derive(Debug)]
pub struct Stop(pub String);
pub type Res<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Cpu {
    pub name: String,
    pub feats: HashSet<String>,
    pub os_avx: bool,
    pub os_avx512: bool,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub defs: HashMap<String, usize>,
    pub gdefs: HashMap<String, usize>,
    pub be: bool,
    pub pb: u32,
    pub dir: String,
    pub static_feats: HashSet<String>,
}

impl Program {
    pub fn load(files: &[String], dir: &str) -> Program {
        let mut modules = vec![];
        let mut defs = HashMap::new();
        let mut gdefs = HashMap::new();
        for f in files {
            let m = Module::load(f).unwrap_or_else(|e| panic!("{}: {}", f, e));
            let i = modules.len();
            for (n, d) in &m.funcs {
                if d.is_def {
                    defs.insert(n.clone(), i);
                }
            }
            for (n, l) in &m.globals {
                if !m.lines[*l].contains(" = external ") {
                    gdefs.insert(n.clone(), i);
                }
            }
            modules.push(m);
        }
        let be = modules[0].be;
        let pb = modules[0].ptr_bits;
        Program { modules, defs, gdefs, be, pb, dir: dir.to_string(), static_feats: HashSet::new() }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Stats {
    pub insts: u64,
    pub calls: u64,
    pub loads: u64,
    pub stores: u64,
    pub branches: u64,
    pub joins: u64,
}

pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Option<Val>>,
}

pub struct Ex<'p> {
    pub p: &'p Program,
    pub t: Store,
    pub st: State,
    pub consts: HashMap<ObjId, Rc<Obj>>,
    gids: HashMap<(usize, String), ObjId>,
    next_gid: u32,
    fcache: HashMap<(usize, String), Rc<Func>>,
    pub events: Vec<Event>,
    evseen: HashSet<(Ek, String, String)>,
    pub cpu: Cpu,
    pub stack: Vec<(Rc<Func>, u32, u32)>, // func, current dbg, repo loc of caller
    pub assume: Vec<(B, bool)>,
    pub depth_cond: u32,
    pub fuel: u64,
    pub stats: Stats,
    pub funcs_seen: HashSet<String>,
    pub repo_funcs: HashSet<String>,
    pub locs: Vec<(String, u32, String)>,
    locmap: HashMap<(String, u32, String), u32>,
    locmemo: HashMap<(usize, u32), u32>,
    spmemo: HashMap<(usize, u32), u32>,
    p2i: HashMap<B, (ObjId, B)>,
    pub fmt_mode: bool,
    pub fmt_depth: u32,
    pub ext_ptr_escape: Vec<(String, ObjId)>,
    pub callseq: Vec<String>,
    pub record_addr_public: bool,
    pub repo_prefix: String,
    pub trace: bool,
    stop_at: Option<u32>,
}

pub fn short(n: &str) -> String {
    n.to_string()
}

impl<'p> Ex<'p> {
    pub fn new(p: &'p Program, cpu: Cpu, t: Store) -> Self {
        Ex {
            p,
            t,
            st: State { objs: vec![], globals: HashMap::new() },
            consts: HashMap::new(),
            gids: HashMap::new(),
            next_gid: GBASE,
            fcache: HashMap::new(),
            events: vec![],
            evseen: HashSet::new(),
            cpu,
            stack: vec![],
            assume: vec![],
            depth_cond: 0,
            fuel: 400_000_000,
            stats: Stats::default(),
            funcs_seen: HashSet::new(),
            repo_funcs: HashSet::new(),
            locs: vec![(String::new(), 0, String::new())],
            locmap: HashMap::new(),
            locmemo: HashMap::new(),
            spmemo: HashMap::new(),
            p2i: HashMap::new(),
            fmt_mode: false,
            fmt_depth: 0,
            ext_ptr_escape: vec![],
            callseq: vec![],
            record_addr_public: false,
            repo_prefix: "/repo/".into(),
            trace: std::env::var("VG_TRACE").is_ok(),
            stop_at: None,
        }
    }
    pub fn reset(&mut self) {
        self.st = State { objs: vec![], globals: HashMap::new() };
        self.stack.clear();
        self.assume.clear();
        self.depth_cond = 0;
    }
    // ---------- locations ----------
    fn mkloc(&mut self, f: String, l: u32, n: String) -> u32 {
        let key = (f, l, n);
        if let Some(x) = self.locmap.get(&key) {
            return *x;
        }
        let id = self.locs.len() as u32;
        self.locs.push(key.clone());
        self.locmap.insert(key, id);
        id
    }
    /// repo location of debug id `d` (0 if none of its inline chain is in the repository)
    fn loc_of(&mut self, m: usize, d: u32) -> u32 {
        if let Some(x) = self.locmemo.get(&(m, d)) {
            return *x;
        }
        let mut cur = Some(d);
        let mut r = 0;
        while let Some(c) = cur {
            match self.p.modules[m].dbg_loc(c) {
                Some((f, l, n, inl)) => {
                    if f.contains(&self.repo_prefix) {
                        r = self.mkloc(f, l, n);
                        break;
                    }
                    cur = inl;
                }
                None => break,
            }
        }
        self.locmemo.insert((m, d), r);
        r
    }
    pub fn here(&mut self) -> u32 {
        let Some((f, d, parent)) = self.stack.last() else { return 0 };
        let (m, d, parent) = (f.module, *d, *parent);
        let r = self.loc_of(m, d);
        if r != 0 {
            r
        } else {
            parent
        }
    }
    pub fn loc_str(&self, l: u32) -> String {
        let (f, n, s) = &self.locs[l as usize];
        if l == 0 {
            return "<no repository frame>".into();
        }
        let f = match f.find(&self.repo_prefix) {
            Some(p) => &f[p + self.repo_prefix.len()..],
            None => f,
        };
        format!("{}:{} in {}", f, n, s.split('<').next().unwrap_or(""))
    }
    pub fn event(&mut self, k: Ek, detail: String) {
        let l = self.here();
        let loc = self.loc_str(l);
        let key = (k.clone(), loc.clone(), detail.clone());
        if self.evseen.insert(key) {
            if k == Ek::Panic && std::env::var("VGDBG").is_ok() {
                eprintln!("panic at {loc} under:");
                for (c, v) in self.assume.iter() {
                    eprintln!("    {} == {v}", self.t.show_d(*c, 6));
                }
            }
            self.events.push(Event { k, loc, detail, conditional: self.depth_cond > 0 });
        }
    }
    pub fn take_events(&mut self) -> Vec<Event> {
        self.evseen.clear();
        std::mem::take(&mut self.events)
    }
    // ---------- objects ----------
    pub fn alloc(&mut self, name: &str, size: u64, align: u64) -> ObjId {
        let id = self.st.objs.len() as u32;
        self.st.objs.push(Rc::new(Obj { name: name.into(), size, align, cells: BTreeMap::new(), ro: false, dead: false, watch: false }));
        id
    }
    pub fn obj(&self, id: ObjId) -> &Rc<Obj> {
        if id >= GBASE {
            self.st.globals.get(&id).or_else(|| self.consts.get(&id)).expect("global")
        } else {
            &self.st.objs[id as usize]
        }
    }
    pub fn obj_mut(&mut self, id: ObjId) -> &mut Obj {
        if id >= GBASE {
            if !self.st.globals.contains_key(&id) {
                let o = self.consts.get(&id).expect("global").clone();
                self.st.globals.insert(id, o);
            }
            Rc::make_mut(self.st.globals.get_mut(&id).unwrap())
        } else {
            Rc::make_mut(&mut self.st.objs[id as usize])
        }
    }
    pub fn ptr(&mut self, id: ObjId, off: u64) -> Val {
        let o = self.t.konst(self.p.pb, off as u128);
        Val::P(id, o)
    }
    pub fn int(&mut self, w: u32, v: u128) -> Val {
        Val::B(self.t.konst(w, v))
    }
    pub fn set_bits(&mut self, id: ObjId, off: u32, b: B) {
        let len = self.t.w(b) / 8;
        self.write_cell(id, off, Cell { v: Val::B(b), len, loc: 0, volatile: false });
    }
    fn write_cell(&mut self, id: ObjId, off: u32, c: Cell) {
        let len = c.len;
        if len == 0 {
            return;
        }
        // fast path
        {
            let o = self.obj_mut(id);
            if let Some(x) = o.cells.get_mut(&off) {
                if x.len == len {
                    *x = c;
                    return;
                }
            }
        }
        self.clear_range(id, off, len);
        self.obj_mut(id).cells.insert(off, c);
    }
    fn clear_range(&mut self, id: ObjId, off: u32, len: u32) {
        let end = off + len;
        let o = self.obj_mut(id);
        let mut hit: Vec<u32> = o.cells.range(off..end).map(|x| *x.0).collect();
        if let Some((s, c)) = o.cells.range(..off).next_back() {
            if s + c.len > off {
                hit.push(*s);
            }
        }
        for s in hit {
            let c = self.obj_mut(id).cells.remove(&s).unwrap();
            let ce = s + c.len;
            if s < off {
                let v = self.slice_val(&c.v, c.len, 0, off - s);
                self.obj_mut(id).cells.insert(s, Cell { v, len: off - s, loc: c.loc, volatile: c.volatile });
            }
            if ce > end {
                let v = self.slice_val(&c.v, c.len, end - s, ce - end);
                self.obj_mut(id).cells.insert(end, Cell { v, len: ce - end, loc: c.loc, volatile: c.volatile });
            }
        }
    }
    /// bytes [lo,lo+n) of a cell value, in memory order
    fn slice_val(&mut self, v: &Val, len: u32, lo: u32, n: u32) -> Val {
        if lo == 0 && n == len {
            return v.clone();
        }
        let b = self.mem_bits(v, len);
        Val::B(self.t.extract(b, lo * 8, n * 8))
    }
    /// cell value as memory-ordered bits (bit 0 = lsb of first byte)
    fn mem_bits(&mut self, v: &Val, len: u32) -> B {
        match v {
            Val::B(b) => *b,
            Val::P(..) | Val::Sel(..) | Val::F(..) => {
                let b = self.ptr_to_int(v);
                if self.p.be {
                    self.t.bswap(b)
                } else {
                    b
                }
            }
            Val::Agg(_) => {
                let _ = len;
                self.t.fresh_undef(len * 8)
            }
        }
    }
    pub fn ptr_to_int(&mut self, v: &Val) -> B {
        let pb = self.p.pb;
        match v {
            Val::B(b) => *b,
            Val::P(id, off) => {
                let o = self.obj(*id).clone();
                let k = o.align.trailing_zeros();
                let nm = format!("addr:{}:{}", id, o.name);
                let s = self.t.sym(&nm, pb - k - 2, false);
                let z = self.t.konst(k, 0);
                let one = self.t.konst(2, 1);
                let base = if k == 0 { self.t.concat(&[s, one]) } else { self.t.concat(&[z, s, one]) };
                let r = self.t.add(base, *off);
                self.p2i.insert(r, (*id, *off));
                r
            }
            Val::F(n, _) => {
                let nm = format!("fn:{}", n);
                self.t.sym(&nm, pb, false)
            }
            Val::Sel(c, ab) => {
                let a = self.ptr_to_int(&ab.0);
                let b = self.ptr_to_int(&ab.1);
                self.t.ite(*c, a, b)
            }
            Val::Agg(_) => self.t.fresh_undef(pb),
        }
    }
    fn int_to_ptr(&mut self, b: B) -> Val {
        if let Some((o, f)) = self.p2i.get(&b) {
            return Val::P(*o, *f);
        }
        Val::B(b)
    }
    fn check_access(&mut self, id: ObjId, off: B, len: u64, align: u64, write: bool) -> Res<()> {
        if id < GBASE && id as usize >= self.st.objs.len() {
            self.event(Ek::Dead, "access through a pointer to a local that no longer exists".into());
            return Err(Stop("access through a dangling pointer".into()));
        }
        let o = self.obj(id).clone();
        if o.dead {
            self.event(Ek::Dead, format!("access to dead object {}", o.name));
        }
        let mx = self.t.umax(off);
        if mx + len as u128 > o.size as u128 {
            self.event(Ek::Oob, format!("{} of {} bytes at offset up to {} in object `{}` of {} bytes", if write { "write" } else { "read" }, len, if mx > 1 << 40 { "unbounded".to_string() } else { mx.to_string() }, o.name, o.size));
            if self.t.as_const(off).is_some() || mx > 1 << 40 {
                return Err(Stop(format!("out-of-bounds access in `{}`", o.name)));
            }
        }
        if align > 1 {
            let k = align.trailing_zeros();
            let low = self.t.extract(off, 0, k);
            if o.align < align || self.t.as_const(low) != Some(0) {
                self.event(Ek::Misalign, format!("{}-byte aligned {} of object `{}` only known to be {}-byte aligned", align, if write { "write" } else { "read" }, o.name, o.align));
            }
        }
        if write && o.ro {
            self.event(Ek::ReadOnlyWrite, format!("write to read-only object {}", o.name));
        }
        if id >= GBASE && (write || !o.ro) {
            let k = if write { Ek::GlobalWrite } else { Ek::GlobalRead };
            self.event(k, o.name.to_string());
        }
        Ok(())
    }
    /// read len bytes at constant offset as memory-order bits / pointer
    pub fn read_val(&mut self, id: ObjId, off: u32, len: u32) -> (Val, bool) {
        if let Some(c) = self.obj(id).cells.get(&off) {
            if c.len == len {
                return (c.v.clone(), false);
            }
        }
        let o = self.obj(id).clone();
        let end = off + len;
        let mut parts: Vec<B> = vec![];
        let mut pos = off;
        let mut undef = false;
        let mut list: Vec<(u32, Cell)> = vec![];
        if let Some((s, c)) = o.cells.range(..off).next_back() {
            if s + c.len > off {
                list.push((*s, c.clone()));
            }
        }
        for (s, c) in o.cells.range(off..end) {
            list.push((*s, c.clone()));
        }
        for (s, c) in list {
            if s > pos {
                parts.push(self.t.fresh_undef((s - pos) * 8));
                undef = true;
                pos = s;
            }
            let lo = pos - s;
            let n = (s + c.len).min(end) - pos;
            let b = self.mem_bits(&c.v, c.len);
            parts.push(self.t.extract(b, lo * 8, n * 8));
            pos += n;
        }
        if pos < end {
            parts.push(self.t.fresh_undef((end - pos) * 8));
            undef = true;
        }
        (Val::B(self.t.concat(&parts)), undef)
    }
    pub fn read_bits(&mut self, id: ObjId, off: u32, len: u32) -> B {
        let (v, _) = self.read_val(id, off, len);
        self.mem_bits(&v, len)
    }
    /// memory-order bits -> value of type ty
    fn from_mem(&mut self, v: Val, ty: &Ty) -> Val {
        match (ty, &v) {
            (Ty::Ptr, Val::B(b)) => {
                let b = if self.p.be { self.t.bswap(*b) } else { *b };
                self.int_to_ptr(b)
            }
            (Ty::Ptr, _) => v,
            (Ty::Int(n), Val::B(b)) => {
                let b = if self.p.be { self.t.bswap(*b) } else { *b };
                if self.t.w(b) != *n {
                    Val::B(self.t.extract(b, 0, *n))
                } else {
                    Val::B(b)
                }
            }
            (Ty::Int(_), _) => {
                let b = self.ptr_to_int(&v);
                Val::B(b)
            }
            (Ty::Vec(n, e), Val::B(b)) => {
                if self.p.be {
                    let ew = int_w(e);
                    let mut parts = vec![];
                    for i in 0..*n {
                        let l = self.t.extract(*b, i * ew, ew);
                        parts.push(self.t.bswap(l));
                    }
                    Val::B(self.t.concat(&parts))
                } else {
                    v
                }
            }
            _ => v,
        }
    }
    fn to_mem(&mut self, v: Val, ty: &Ty) -> Val {
        match (ty, &v) {
            (Ty::Int(n), Val::B(b)) => {
                let bytes = (n + 7) / 8;
                let mut b = *b;
                if self.t.w(b) != bytes * 8 {
                    b = self.t.zext(b, bytes * 8);
                }
                if self.p.be {
                    b = self.t.bswap(b);
                }
                Val::B(b)
            }
            (Ty::Ptr, Val::B(b)) if self.p.be => Val::B(self.t.bswap(*b)),
            (Ty::Vec(n, e), Val::B(b)) if self.p.be => {
                let ew = int_w(e);
                let mut parts = vec![];
                for i in 0..*n {
                    let l = self.t.extract(*b, i * ew, ew);
                    parts.push(self.t.bswap(l));
                }
                Val::B(self.t.concat(&parts))
            }
            _ => v,
        }
    }
    fn load(&mut self, ty: &Ty, p: &Val, align: u64, noundef: bool) -> Res<Val> {
        self.stats.loads += 1;
        match ty {
            Ty::Struct(v, packed) => {
                let mut out = vec![];
                for i in 0..v.len() {
                    let o = field_off(v, *packed, i, self.p.pb);
                    let q = self.gep_const(p, o as i128)?;
                    out.push(self.load(&v[i], &q, 1, noundef)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
            Ty::Arr(n, e) => {
                let (s, _) = size_align(e, self.p.pb);
                let mut out = vec![];
                for i in 0..*n {
                    let q = self.gep_const(p, (i * s) as i128)?;
                    out.push(self.load(e, &q, 1, noundef)?);
                }
                return Ok(Val::Agg(Rc::new(out)));
            }
            _ => {}
        }
        let len = bytes_of(ty, self.p.pb);
        match p {
            Val::P(id, off) => {
                let (id, off) = (*id, *off);
                self.check_access(id, off, len as u64, align, false)?;
                if let Some(o) = self.t.as_const(off) {
                    let (v, undef) = self.read_val(id, o as u32, len);
                    if undef && noundef {
                        let n = self.obj(id).name.clone();
                        self.event(Ek::Uninit, format!("read of uninitialised bytes of `{}` at {}..{}", n, o, o + len as u128));
                    }
                    if self.obj(id).watch {
                        if let Val::B(b) = v {
                            if self.t.as_const(b).is_none() {
                                let n = self.obj(id).name.clone();
                                self.event(Ek::WatchRead, format!("reads state bytes {}..{} of `{}`", o, o + len as u128, n));
                            }
                        }
                    }
                    Ok(self.from_mem(v, ty))
                } else {
                    if self.t.secret(off) {
                        let n = self.obj(id).name.clone();
                        self.event(Ek::SecretAddr, format!("load address in `{}` depends on secret", n));
                    }
                    self.load_sym(id, off, len, ty)
                }
            }
            Val::Sel(c, ab) => {
                let a = self.load(ty, &ab.0, align, noundef)?;
                let b = self.load(ty, &ab.1, align, noundef)?;
                Ok(self.join_val(*c, a, b))
            }
            Val::B(b) => {
                let s = self.t.show(*b);
                self.event(Ek::Oob, format!("load through non-object pointer {}", s));
                Err(Stop(format!("load through integer pointer {}", s)))
            }
            _ => Err(Stop("load through non-pointer".into())),
        }
    }
    fn sym_index(&mut self, off: B, len: u32) -> Option<(u32, B, u128)> {
        // off = r + len*idx
        if !len.is_power_of_two() {
            return None;
        }
        let k = len.trailing_zeros();
        let low = self.t.extract(off, 0, k);
        let r = self.t.as_const(low)? as u32;
        let w = self.t.w(off);
        let idx = self.t.extract(off, k, w - k);
        // element c + i of the object is element i of the part that starts there
        let (idx, c) = self.t.split_const(idx);
        let r = u32::try_from(r as u128 + c * len as u128).ok()?;
        let mx = self.t.umax(idx);
        if mx > 1 << 16 {
            return None;
        }
        Some((r, idx, mx))
    }
    fn load_sym(&mut self, id: ObjId, off: B, len: u32, ty: &Ty) -> Res<Val> {
        let Some((r, idx, mx)) = self.sym_index(off, len) else {
            return Err(Stop(format!("symbolic address {} not an element index", self.t.show(off))));
        };
        // index relative to a constant base: r + len*(base + i)
        let mn = self.t.umin(idx);
        let size = self.obj(id).size;
        let iw = 128 - mx.leading_zeros().max(0);
        let idxs = {
            let n = iw.max(1);
            self.t.extract(idx, 0, n)
        };
        let mut elems = vec![];
        for i in 0..(1u128 << iw) {
            let o = r as u128 + i * len as u128;
            if i < mn || i > mx || o + len as u128 > size as u128 {
                elems.push(self.t.konst(len * 8, 0));
                continue;
            }
            let known_impossible = false;
            if known_impossible {
                continue;
            }
            elems.push(0);
        }
        // only read elements compatible with the known bits of the index
        let en = self.t.enumerate(idxs, 16).ok_or_else(|| Stop("index with too many bits".into()))?;
        let poss: HashSet<u128> = en.into_iter().collect();
        for i in 0..elems.len() {
            let o = r as u128 + i as u128 * len as u128;
            if (i as u128) < mn || (i as u128) > mx || o + len as u128 > size as u128 {
                continue;
            }
            elems[i] = if poss.contains(&(i as u128)) {
                let (v, undef) = self.read_val(id, o as u32, len);
                if undef {
                    let n = self.obj(id).name.clone();
                    self.event(Ek::Uninit, format!("indexed read may hit uninitialised bytes of `{}`", n));
                }
                match self.from_mem(v, ty) {
                    Val::B(b) => b,
                    _ => return Err(Stop("indexed read of pointers".into())),
                }
            } else {
                self.t.konst(len * 8, 0)
            };
        }
        match self.t.read_idx(&elems, idxs) {
            Some(b) => Ok(Val::B(b)),
            None => Err(Stop("index not representable".into())),
        }
    }
    fn store(&mut self, ty: &Ty, v: Val, p: &Val, align: u64, volatile: bool) -> Res<()> {
        self.stats.stores += 1;
        match (ty, &v) {
            (Ty::Struct(tys, packed), Val::Agg(vs)) => {
                for i in 0..tys.len() {
                    let o = field_off(tys, *packed, i, self.p.pb);
                    let q = self.gep_const(p, o as i128)?;
                    self.store(&tys[i], vs[i].clone(), &q, 1, volatile)?;
                }
                return Ok(());
            }
            (Ty::Arr(n, e), Val::Agg(vs)) => {
                let (s, _) = size_align(e, self.p.pb);
                for i in 0..*n {
                    let q = self.gep_const(p, (i * s) as i128)?;
                    self.store(e, vs[i as usize].clone(), &q, 1, volatile)?;
                }
                return Ok(());
            }
            _ => {}
        }
        let len = bytes_of(ty, self.p.pb);
        match p {
            Val::P(id, off) => {
                let (id, off) = (*id, *off);
                self.check_access(id, off, len as u64, align, true)?;
                let loc = self.here();
                let mv = self.to_mem(v.clone(), ty);
                if let Some(o) = self.t.as_const(off) {
                    self.write_cell(id, o as u32, Cell { v: mv, len, loc, volatile });
                    Ok(())
                } else {
                    if self.t.secret(off) {
                        let n = self.obj(id).name.clone();
                        self.event(Ek::SecretAddr, format!("store address in `{}` depends on secret", n));
                    }
                    let Some((r, idx, mx)) = self.sym_index(off, len) else {
                        return Err(Stop(format!("symbolic store address {}", self.t.show(off))));
                    };
                    let mn = self.t.umin(idx);
                    let size = self.obj(id).size;
                    let Val::B(nb) = mv else { return Err(Stop("indexed store of pointer".into())) };
                    let w = self.t.w(idx);
                    for i in mn..=mx {
                        let o = r as u128 + i * len as u128;
                        if o + len as u128 > size as u128 {
                            break;
                        }
                        let ki = self.t.konst(w, i);
                        let c = self.t.eq(idx, ki);
                        if self.t.as_const(c) == Some(0) {
                            continue;
                        }
                        let old = self.read_bits(id, o as u32, len);
                        let nv = self.t.ite(c, nb, old);
                        self.write_cell(id, o as u32, Cell { v: Val::B(nv), len, loc, volatile });
                    }
                    Ok(())
                }
            }
            Val::Sel(c, ab) => {
                let oa = self.load(ty, &ab.0, 1, false)?;
                let ob = self.load(ty, &ab.1, 1, false)?;
                let na = self.join_val(*c, v.clone(), oa);
                let nb = self.join_val(*c, ob, v.clone());
                self.store(ty, na, &ab.0, align, volatile)?;
                self.store(ty, nb, &ab.1, align, volatile)
            }
            Val::B(b) => {
                let s = self.t.show(*b);
                self.event(Ek::Oob, format!("store through non-object pointer {}", s));
                Err(Stop(format!("store through integer pointer {}", s)))
            }
            _ => Err(Stop("store through non-pointer".into())),
        }
    }
    pub fn memcpy(&mut self, d: &Val, s: &Val, n: u64) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let (Val::P(di, doff), Val::P(si, soff)) = (d.clone(), s.clone()) else {
            if !matches!(d, Val::P(..)) || !matches!(s, Val::P(..)) {
                self.event(Ek::Oob, "memcpy through non-object pointer".into());
            }
            return Err(Stop("memcpy with joined or integer pointer".into()));
        };
        self.check_access(si, soff, n, 1, false)?;
        self.check_access(di, doff, n, 1, true)?;
        let (Some(dc), Some(sc)) = (self.t.as_const(doff), self.t.as_const(soff)) else {
            if self.t.secret(doff) || self.t.secret(soff) {
                self.event(Ek::SecretAddr, "block copy address depends on secret".into());
            }
            // small symbolic copies (e.g. one element)
            if n <= 16 && n.is_power_of_two() {
                let ty = Ty::Int(8 * n as u32);
                let v = self.load(&ty, s, 1, false)?;
                return self.store(&ty, v, d, 1, false);
            }
            return Err(Stop("memcpy at symbolic offset".into()));
        };
        let (dc, sc, n) = (dc as u32, sc as u32, n as u32);
        let so = self.obj(si).clone();
        if so.watch {
            let b = self.read_bits(si, sc, n);
            if self.t.secret(b) {
                self.event(Ek::WatchRead, format!("copies secret bytes {}..{} of `{}`", sc, sc + n, so.name));
            }
        }
        let loc = self.here();
        let mut list: Vec<(u32, Cell)> = vec![];
        if let Some((p, c)) = so.cells.range(..sc).next_back() {
            if p + c.len > sc {
                list.push((*p, c.clone()));
            }
        }
        for (p, c) in so.cells.range(sc..sc + n) {
            list.push((*p, c.clone()));
        }
        self.clear_range(di, dc, n);
        for (p, c) in list {
            let lo = sc.max(p);
            let hi = (sc + n).min(p + c.len);
            let v = self.slice_val(&c.v, c.len, lo - p, hi - lo);
            self.write_cell(di, dc + (lo - sc), Cell { v, len: hi - lo, loc, volatile: false });
        }
        Ok(())
    }
    fn gep_const(&mut self, p: &Val, o: i128) -> Res<Val> {
        match p {
            Val::P(id, off) => {
                let n = self.t.addc(*off, o as u128);
                Ok(Val::P(*id, n))
            }
            Val::B(b) => Ok(Val::B(self.t.addc(*b, o as u128))),
            Val::Sel(c, ab) => {
                let a = self.gep_const(&ab.0, o)?;
                let b = self.gep_const(&ab.1, o)?;
                Ok(Val::Sel(*c, Rc::new((a, b))))
            }
            _ => Err(Stop("gep on non-pointer".into())),
        }
    }
    fn gep_sym(&mut self, p: &Val, scale: u64, idx: B) -> Res<Val> {
        let pb = self.p.pb;
        let i = if self.t.w(idx) < pb { self.t.sext(idx, pb) } else { self.t.extract(idx, 0, pb) };
        match p {
            Val::P(id, off) => {
                let n = self.t.lin(pb, vec![(1, *off), (scale as u128, i)], 0);
                Ok(Val::P(*id, n))
            }
            Val::B(b) => Ok(Val::B(self.t.lin(pb, vec![(1, *b), (scale as u128, i)], 0))),
            Val::Sel(c, ab) => {
                let a = self.gep_sym(&ab.0, scale, idx)?;
                let b = self.gep_sym(&ab.1, scale, idx)?;
                Ok(Val::Sel(*c, Rc::new((a, b))))
            }
            _ => Err(Stop("gep on non-pointer".into())),
        }
    }
    // ---------- joins ----------
    pub fn join_val(&mut self, c: B, a: Val, b: Val) -> Val {
        if a == b {
            return a;
        }
        match (&a, &b) {
            (Val::B(x), Val::B(y)) => Val::B(self.t.ite(c, *x, *y)),
            (Val::P(o1, x), Val::P(o2, y)) if o1 == o2 => {
                let n = self.t.ite(c, *x, *y);
                Val::P(*o1, n)
            }
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.join_val(c, x[i].clone(), y[i].clone()));
                }
                Val::Agg(Rc::new(v))
            }
            _ => Val::Sel(c, Rc::new((a, b))),
        }
    }
    /// join of memory contents: on big-endian targets the gated value is built in value order
    fn join_mem(&mut self, c: B, a: Val, b: Val) -> Val {
        if let (true, Val::B(x), Val::B(y)) = (self.p.be, &a, &b) {
            let w = self.t.w(*x);
            if x != y && w == self.t.w(*y) && w % 8 == 0 && w <= 64 {
                let x = self.t.bswap(*x);
                let y = self.t.bswap(*y);
                let r = self.t.ite(c, x, y);
                return Val::B(self.t.bswap(r));
            }
        }
        self.join_val(c, a, b)
    }
    fn join_obj(&mut self, c: B, a: &Rc<Obj>, b: &Rc<Obj>) -> Rc<Obj> {
        if Rc::ptr_eq(a, b) {
            return a.clone();
        }
        let mut cuts: Vec<u32> = vec![];
        for o in [a, b] {
            for (s, x) in &o.cells {
                cuts.push(*s);
                cuts.push(*s + x.len);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut out = Obj { name: a.name.clone(), size: a.size, align: a.align, cells: BTreeMap::new(), ro: a.ro, dead: a.dead || b.dead, watch: a.watch };
        let mut i = 0;
        let find = |o: &Obj, p: u32| -> Option<(u32, Cell)> { o.cells.range(..=p).next_back().filter(|(s, x)| *s + x.len > p).map(|(s, x)| (*s, x.clone())) };
        while i + 1 < cuts.len() {
            let (p, e) = (cuts[i], cuts[i + 1]);
            i += 1;
            let ca = find(a, p);
            let cb = find(b, p);
            match (ca, cb) {
                (Some((sa, xa)), Some((sb, xb))) => {
                    if sa == sb && xa.len == xb.len && sa == p && e == p + xa.len {
                        let v = self.join_mem(c, xa.v.clone(), xb.v.clone());
                        out.cells.insert(p, Cell { v, len: xa.len, loc: if xa.v == xb.v { xa.loc } else { xa.loc.max(xb.loc) }, volatile: xa.volatile && xb.volatile });
                    } else {
                        let va = self.slice_val(&xa.v, xa.len, p - sa, e - p);
                        let vb = self.slice_val(&xb.v, xb.len, p - sb, e - p);
                        let v = self.join_mem(c, va, vb);
                        out.cells.insert(p, Cell { v, len: e - p, loc: xa.loc, volatile: xa.volatile && xb.volatile });
                    }
                }
                _ => {} // uninitialised on one side: uninitialised
            }
        }
        Rc::new(out)
    }
    fn join_state(&mut self, c: B, a: State, b: State) -> State {
        let n = a.objs.len().max(b.objs.len());
        let mut objs = Vec::with_capacity(n);
        for i in 0..n {
            match (a.objs.get(i), b.objs.get(i)) {
                (Some(x), Some(y)) => {
                    let (x, y) = (x.clone(), y.clone());
                    objs.push(self.join_obj(c, &x, &y));
                }
                (Some(x), None) | (None, Some(x)) => objs.push(x.clone()),
                _ => {}
            }
        }
        let mut globals = HashMap::new();
        let keys: HashSet<ObjId> = a.globals.keys().chain(b.globals.keys()).copied().collect();
        for k in keys {
            let x = a.globals.get(&k).or_else(|| self.consts.get(&k)).unwrap().clone();
            let y = b.globals.get(&k).or_else(|| self.consts.get(&k)).unwrap().clone();
            let j = self.join_obj(c, &x, &y);
            globals.insert(k, j);
        }
        State { objs, globals }
    }
    // ---------- constants ----------
    fn gid(&mut self, m: usize, name: &str) -> Res<ObjId> {
        let mm = if self.p.modules[m].globals.contains_key(name) && !self.p.modules[m].lines[self.p.modules[m].globals[name]].contains(" = external ") {
            m
        } else {
            *self.p.gdefs.get(name).ok_or_else(|| Stop(format!("unknown global {}", name)))?
        };
        let key = (mm, name.to_string());
        if let Some(x) = self.gids.get(&key) {
            return Ok(*x);
        }
        let id = self.next_gid;
        self.next_gid += 1;
        self.gids.insert(key, id);
        let line = self.p.modules[mm].lines[self.p.modules[mm].globals[name]].clone();
        let eq = line.find(" = ").unwrap();
        let body = line[eq + 3..].to_string();
        let ro = body.contains(" constant ") || body.starts_with("constant ");
        let kw = if ro { "constant " } else { "global " };
        let pos = body.find(kw).ok_or_else(|| Stop(format!("global {}", body)))?;
        let mut px = Px::new(&self.p.modules[mm], &body[pos + kw.len()..]);
        let ty = px.ty();
        let c = px.konst(&ty);
        let mut align = 1;
        while let Some(t) = px.peek() {
            if let T::W(w) = t {
                if w == "align" {
                    if let Some(T::I(_, n)) = px.t.get(px.i + 1) {
                        align = *n as u64;
                    }
                }
            }
            px.i += 1;
        }
        let (size, _) = size_align(&ty, self.p.pb);
        let o = Obj { name: name.into(), size, align, cells: BTreeMap::new(), ro, dead: false, watch: false };
        self.consts.insert(id, Rc::new(o));
        let mut cells: Vec<(u32, Cell)> = vec![];
        self.init_const(mm, &c, &ty, 0, &mut cells)?;
        let o = Rc::make_mut(self.consts.get_mut(&id).unwrap());
        for (p, x) in cells {
            o.cells.insert(p, x);
        }
        Ok(id)
    }
    fn init_const(&mut self, m: usize, c: &C, ty: &Ty, off: u32, out: &mut Vec<(u32, Cell)>) -> Res<()> {
        match (c, ty) {
            (C::Bytes(v), _) => {
                // chunks
                let mut i = 0;
                while i < v.len() {
                    let n = (v.len() - i).min(16);
                    let mut x = 0u128;
                    for j in 0..n {
                        x |= (v[i + j] as u128) << (8 * j);
                    }
                    let b = self.t.konst(8 * n as u32, x);
                    out.push((off + i as u32, Cell { v: Val::B(b), len: n as u32, loc: 0, volatile: false }));
                    i += n;
                }
                Ok(())
            }
            (C::Agg(_, v), Ty::Arr(_, e)) => {
                let (s, _) = size_align(e, self.p.pb);
                for (i, x) in v.iter().enumerate() {
                    self.init_const(m, x, e, off + i as u32 * s as u32, out)?;
                }
                Ok(())
            }
            (C::Agg(_, v), Ty::Struct(tys, packed)) => {
                for (i, x) in v.iter().enumerate() {
                    let o = field_off(tys, *packed, i, self.p.pb);
                    self.init_const(m, x, &tys[i], off + o as u32, out)?;
                }
                Ok(())
            }
            (C::Undef(_), _) => Ok(()),
            (C::Zero(_), _) => {
                let (s, _) = size_align(ty, self.p.pb);
                if s > 0 {
                    let b = {
                        let z = vec![0u64; (s as usize * 8 + 63) / 64];
                        self.t.konst_limbs(s as u32 * 8, &z)
                    };
                    out.push((off, Cell { v: Val::B(b), len: s as u32, loc: 0, volatile: false }));
                }
                Ok(())
            }
            _ => {
                let v = self.konst(m, c, ty)?;
                let mv = self.to_mem(v, ty);
                let len = bytes_of(ty, self.p.pb);
                out.push((off, Cell { v: mv, len, loc: 0, volatile: false }));
                Ok(())
            }
        }
    }
    fn konst(&mut self, m: usize, c: &C, ty: &Ty) -> Res<Val> {
        Ok(match c {
            C::Int(t, v) => {
                let w = match t {
                    Ty::Int(n) => *n,
                    _ => match ty {
                        Ty::Int(n) => *n,
                        _ => return Err(Stop(format!("int const {:?}", t))),
                    },
                };
                Val::B(self.t.konst(w, *v))
            }
            C::Null => Val::B(self.t.konst(self.p.pb, 0)),
            C::Undef(t) => self.undef(t),
            C::Zero(t) => self.zero(t),
            C::Global(n) => self.global_val(m, n)?,
            C::Agg(t, v) => match t {
                Ty::Vec(_, e) => {
                    let mut parts = vec![];
                    for x in v.iter() {
                        match self.konst(m, x, e)? {
                            Val::B(b) => parts.push(b),
                            _ => return Err(Stop("vector of pointers".into())),
                        }
                    }
                    Val::B(self.t.concat(&parts))
                }
                Ty::Struct(tys, _) => {
                    let mut o = vec![];
                    for (i, x) in v.iter().enumerate() {
                        o.push(self.konst(m, x, &tys[i])?);
                    }
                    Val::Agg(Rc::new(o))
                }
                Ty::Arr(_, e) => {
                    let mut o = vec![];
                    for x in v.iter() {
                        o.push(self.konst(m, x, e)?);
                    }
                    Val::Agg(Rc::new(o))
                }
                _ => return Err(Stop("agg const".into())),
            },
            C::Bytes(_) => return Err(Stop("bytes const operand".into())),
            C::Gep(g) => {
                let p = self.konst(m, &g.1, &Ty::Ptr)?;
                let mut idx = vec![];
                for i in &g.2 {
                    let t = if let C::Int(t, _) = i { t.clone() } else { Ty::Int(64) };
                    idx.push((t.clone(), self.konst(m, i, &t)?));
                }
                self.gep(&g.0, p, &idx)?
            }
            C::IntToPtr(c) => {
                let v = self.konst(m, c, &Ty::Int(self.p.pb))?;
                match v {
                    Val::B(b) => {
                        let b = self.t.resize(b, self.p.pb);
                        self.int_to_ptr(b)
                    }
                    v => v,
                }
            }
            C::PtrToInt(c, t) => {
                let v = self.konst(m, c, &Ty::Ptr)?;
                let b = self.ptr_to_int(&v);
                let w = int_w(t);
                Val::B(self.t.resize(b, w))
            }
            C::Sub(ab, t) => {
                let a = self.konst(m, &ab.0, t)?;
                let b = self.konst(m, &ab.1, t)?;
                match (a, b) {
                    (Val::B(x), Val::B(y)) => Val::B(self.t.sub(x, y)),
                    _ => return Err(Stop("const sub".into())),
                }
            }
        })
    }
    fn global_val(&mut self, m: usize, n: &str) -> Res<Val> {
        if self.p.modules[m].funcs.contains_key(n) {
            return Ok(Val::F(n.into(), m));
        }
        if self.p.defs.contains_key(n) {
            return Ok(Val::F(n.into(), self.p.defs[n]));
        }
        let id = self.gid(m, n)?;
        Ok(self.ptr(id, 0))
    }
    pub fn global_by_suffix(&mut self, pat: &str) -> Vec<(ObjId, String)> {
        let mut v: Vec<(usize, String)> = vec![];
        for (i, m) in self.p.modules.iter().enumerate() {
            for (n, l) in &m.globals {
                if n.contains(pat) && !m.lines[*l].contains(" = external ") {
                    v.push((i, n.clone()));
                }
            }
        }
        v.sort();
        let mut o = vec![];
        for (i, n) in v {
            if let Ok(id) = self.gid(i, &n) {
                o.push((id, n));
            }
        }
        o
    }
    fn undef(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Struct(v, _) => Val::Agg(Rc::new(v.iter().map(|x| self.undef(x)).collect())),
            Ty::Arr(n, e) => Val::Agg(Rc::new((0..*n).map(|_| self.undef(e)).collect())),
            _ => {
                let w = self.width(t);
                Val::B(self.t.fresh_undef(w))
            }
        }
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Struct(v, _) => Val::Agg(Rc::new(v.iter().map(|x| self.zero(x)).collect())),
            Ty::Arr(n, e) => Val::Agg(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            _ => {
                let w = self.width(t);
                let z = vec![0u64; (w as usize + 63) / 64];
                Val::B(self.t.konst_limbs(w, &z))
            }
        }
    }
    fn width(&self, t: &Ty) -> u32 {
        match t {
            Ty::Int(n) => *n,
            Ty::Ptr => self.p.pb,
            Ty::Float(n) => *n,
            Ty::Vec(n, e) => n * self.width(e),
            Ty::Arr(n, e) => *n as u32 * self.width(e),
            _ => 0,
        }
    }
    fn val(&mut self, fr: &Frame, o: &Op, ty: &Ty) -> Res<Val> {
        match o {
            Op::R(r) => match &fr.regs[*r as usize] {
                Some(v) => Ok(v.clone()),
                None => Err(Stop(format!("undefined register in {}", fr.f.name))),
            },
            Op::K(C::Int(Ty::Int(w), v)) => Ok(Val::B(self.t.konst(*w, *v))),
            Op::K(c) => self.konst(fr.f.module, c, ty),
        }
    }
    fn bits(&mut self, fr: &Frame, o: &Op, ty: &Ty) -> Res<B> {
        match self.val(fr, o, ty)? {
            Val::B(b) => Ok(b),
            v @ (Val::P(..) | Val::Sel(..) | Val::F(..)) => Ok(self.ptr_to_int(&v)),
            Val::Agg(_) => Err(Stop("aggregate as bits".into())),
        }
    }
    fn gep(&mut self, ty: &Ty, p: Val, idx: &[(Ty, Val)]) -> Res<Val> {
        let mut cur = p;
        let mut t = ty.clone();
        for (n, (_, v)) in idx.iter().enumerate() {
            let Val::B(i) = v else { return Err(Stop("gep index".into())) };
            if n == 0 {
                let (s, _) = size_align(&t, self.p.pb);
                cur = self.gep_sym(&cur, s, *i)?;
                continue;
            }
            match t.clone() {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    let (s, _) = size_align(&e, self.p.pb);
                    cur = self.gep_sym(&cur, s, *i)?;
                    t = (*e).clone();
                }
                Ty::Struct(v, packed) => {
                    let k = self.t.as_const(*i).ok_or_else(|| Stop("struct index".into()))? as usize;
                    let o = field_off(&v, packed, k, self.p.pb);
                    cur = self.gep_const(&cur, o as i128)?;
                    t = v[k].clone();
                }
                _ => return Err(Stop("gep type".into())),
            }
        }
        Ok(cur)
    }
    // ---------- functions ----------
    fn func(&mut self, m: usize, name: &str) -> Option<Rc<Func>> {
        let mm = match self.p.modules[m].funcs.get(name) {
            Some(d) if d.is_def => m,
            _ => *self.p.defs.get(name)?,
        };
        let key = (mm, name.to_string());
        if let Some(f) = self.fcache.get(&key) {
            return Some(f.clone());
        }
        let f = Rc::new(self.p.modules[mm].parse_func(name, mm));
        self.fcache.insert(key, f.clone());
        Some(f)
    }
    pub fn stop_loc(&self) -> String {
        self.loc_str(self.stop_at.unwrap_or(0))
    }
    pub fn cell_loc(&self, id: ObjId, off: u32) -> u32 {
        match self.obj(id).cells.range(..=off).next_back() {
            Some((s, c)) if s + c.len > off => c.loc,
            _ => 0,
        }
    }
    pub fn call_entry(&mut self, name: &str, args: Vec<Val>) -> Res<Option<Val>> {
        self.stop_at = None;
        self.stack.clear();
        self.assume.clear();
        self.depth_cond = 0;
        let m = *self.p.defs.get(name).ok_or_else(|| Stop(format!("entry {} not found", name)))?;
        let f = self.func(m, name).unwrap();
        match self.call_fn(f, args)? {
            Flow::Ret(v) => Ok(v),
            _ => Err(Stop(format!("{}: every path diverges", name))),
        }
    }
    fn call_fn(&mut self, f: Rc<Func>, args: Vec<Val>) -> Res<Flow> {
        self.stats.calls += 1;
        if self.stack.len() > 200 {
            return Err(Stop("call depth".into()));
        }
        // CPU features
        let missing: Vec<String> = f.features.iter().filter(|x| !self.cpu.feats.contains(*x)).cloned().collect();
        if !missing.is_empty() {
            let d = format!("call of {} which requires +{} on cpu model `{}`", demangle(&f.name), missing.join(",+"), self.cpu.name);
            self.event(Ek::Feature, d);
        }
        if self.funcs_seen.insert(f.name.clone()) {
            let (file, fname) = self.p.modules[f.module].scope(f.sp);
            if file.contains(&self.repo_prefix) {
                let ff = file[file.find(&self.repo_prefix).unwrap() + self.repo_prefix.len()..].to_string();
                self.repo_funcs.insert(format!("{}::{}", ff, fname));
            }
        }
        let parent = self.here();
        // functions of the repository: use their own scope as location
        let own = {
            let key = (f.module, f.sp);
            if let Some(x) = self.spmemo.get(&key) {
                *x
            } else {
                let (file, fname) = self.p.modules[f.module].scope(f.sp);
                let r = if file.contains(&self.repo_prefix) { self.mkloc(file, 0, fname) } else { 0 };
                self.spmemo.insert(key, r);
                r
            }
        };
        let parent = if own != 0 { own } else { parent };
        let base = self.st.objs.len();
        let mut fr = Frame { f: f.clone(), regs: vec![None; f.nregs as usize] };
        for (i, (_, r)) in f.params.iter().enumerate() {
            fr.regs[*r as usize] = Some(args.get(i).cloned().ok_or_else(|| Stop("arity".into()))?);
        }
        self.stack.push((f.clone(), 0, parent));
        let r = self.run(&mut fr, 0, None);
        if r.is_err() && self.stop_at.is_none() {
            self.stop_at = Some(self.here());
        }
        self.stack.pop();
        let r = r?;
        self.st.objs.truncate(base);
        match r {
            Flow::Reached => Err(Stop("fell off".into())),
            x => Ok(x),
        }
    }
    fn enter(&mut self, fr: &mut Frame, from: u32, to: u32) -> Res<usize> {
        // evaluate phis of `to`
        let f = fr.f.clone();
        let bl = &f.blocks[to as usize];
        let mut n = 0;
        let mut upd: Vec<(u32, Val)> = vec![];
        for i in bl {
            if let K::Phi { ty, inc } = &i.k {
                let (o, _) = inc.iter().find(|x| x.1 == from).ok_or_else(|| Stop("phi".into()))?;
                let v = self.val(fr, o, ty)?;
                upd.push((i.dst.unwrap(), v));
                n += 1;
            } else {
                break;
            }
        }
        for (d, v) in upd {
            fr.regs[d as usize] = Some(v);
        }
        Ok(n)
    }
    fn decide(&mut self, c: B) -> Option<bool> {
        if let Some(v) = self.t.as_const(c) {
            return Some(v == 1);
        }
        if self.assume.is_empty() {
            return None;
        }
        let n = self.t.not(c);
        for (a, v) in &self.assume {
            if *a == c {
                return Some(*v);
            }
            if *a == n {
                return Some(!*v);
            }
            if *v && self.t.conjuncts(*a).map_or(false, |xs| xs.contains(&c)) {
                return Some(true);
            }
            if *v && self.t.conjuncts(*a).map_or(false, |xs| xs.contains(&n)) {
                return Some(false);
            }
        }
        for (a, v) in self.assume.clone() {
            if v && self.t.implies_zero(a, c) {
                return Some(true);
            }
            if v && self.t.implies_zero(a, n) {
                return Some(false);
            }
            if !v {
                let na = self.t.not(a);
                if let Some(xs) = self.t.conjuncts(na) {
                    if xs.contains(&c) {
                        return Some(true);
                    }
                    if xs.contains(&n) {
                        return Some(false);
                    }
                }
            }
        }
        // carry out of an increment: the operand is all ones
        if let Some(x) = self.t.overflow_of_increment(c) {
            let z = self.t.not(x);
            let z = self.t.eqz(z);
            return self.decide(z);
        }
        if let Some(x) = self.t.overflow_of_increment(n) {
            let z = self.t.not(x);
            let z = self.t.eqz(z);
            return self.decide(z).map(|v| !v);
        }
        None
    }
    fn run(&mut self, fr: &mut Frame, start: u32, stop: Option<u32>) -> Res<Flow> {
        let mut bb = start;
        let mut ip = 0usize;
        // skip phis when resuming at a block already entered
        {
            let f = fr.f.clone();
            while ip < f.blocks[bb as usize].len() && matches!(f.blocks[bb as usize][ip].k, K::Phi { .. }) {
                ip += 1;
            }
        }
        let f = fr.f.clone();
        loop {
            let inst = &f.blocks[bb as usize][ip];
            self.stats.insts += 1;
            if self.stats.insts > self.fuel {
                return Err(Stop("analysis budget exhausted (loop with statically unknown bound?)".into()));
            }
            self.stack.last_mut().unwrap().1 = inst.dbg;
            match &inst.k {
                K::Br(t) => {
                    let t = *t;
                    ip = self.enter(fr, bb, t)?;
                    if Some(t) == stop {
                        return Ok(Flow::Reached);
                    }
                    bb = t;
                    continue;
                }
                K::CondBr { c, t, f: e } => {
                    self.stats.branches += 1;
                    let cb = self.bits(fr, c, &Ty::Int(1))?;
                    match self.decide(cb) {
                        Some(v) => {
                            let n = if v { *t } else { *e };
                            ip = self.enter(fr, bb, n)?;
                            if Some(n) == stop {
                                return Ok(Flow::Reached);
                            }
                            bb = n;
                            continue;
                        }
                        None => {
                            if *t == *e {
                                let n = *t;
                                ip = self.enter(fr, bb, n)?;
                                if Some(n) == stop {
                                    return Ok(Flow::Reached);
                                }
                                bb = n;
                                continue;
                            }
                            if self.trace {
                                let h = self.here();
                                eprintln!("undecided {} at {} in {} : {}", f.name, self.loc_str(h), bb, self.t.show_d(cb, 3));
                            }
                            if self.t.secret(cb) {
                                let s = self.t.show(cb);
                                self.event(Ek::SecretBranch, format!("branch condition {}", clip(&s)));
                            }
                            match self.fork(fr, bb, vec![(Some(cb), *t), (None, *e)])? {
                                Flow::Reached => {
                                    let p = f.ipdom[bb as usize].unwrap();
                                    if Some(p) == stop {
                                        return Ok(Flow::Reached);
                                    }
                                    bb = p;
                                    ip = 0;
                                    while matches!(f.blocks[bb as usize][ip].k, K::Phi { .. }) {
                                        ip += 1;
                                    }
                                    continue;
                                }
                                x => return Ok(x),
                            }
                        }
                    }
                }
                K::Switch { ty, v, d, cases } => {
                    self.stats.branches += 1;
                    let b = self.bits(fr, v, ty)?;
                    if let Some(x) = self.t.as_const(b) {
                        let w = int_w(ty);
                        let n = cases.iter().find(|c| c.0 & mask128(w) == x).map(|c| c.1).unwrap_or(*d);
                        ip = self.enter(fr, bb, n)?;
                        if Some(n) == stop {
                            return Ok(Flow::Reached);
                        }
                        bb = n;
                        continue;
                    }
                    let w = int_w(ty);
                    let poss = self.t.enumerate(b, 8);
                    let mut arms: Vec<(Option<B>, u32)> = vec![];
                    let mut covered: HashSet<u128> = HashSet::new();
                    for (cv, t) in cases {
                        let cv = cv & mask128(w);
                        let k = self.t.konst(w, cv);
                        let c = self.t.eq(b, k);
                        if self.t.as_const(c) == Some(0) {
                            continue;
                        }
                        if let Some(ps) = &poss {
                            if !ps.contains(&cv) {
                                continue;
                            }
                        }
                        covered.insert(cv);
                        arms.push((Some(c), *t));
                    }
                    let full = poss.as_ref().map_or(false, |ps| ps.iter().all(|x| covered.contains(x)));
                    if full {
                        // last case becomes the default
                        if let Some(l) = arms.last_mut() {
                            l.0 = None;
                        }
                    } else {
                        arms.push((None, *d));
                    }
                    // fold by assumptions
                    let mut red: Vec<(Option<B>, u32)> = vec![];
                    for (c, t) in arms {
                        match c {
                            None => {
                                red.push((None, t));
                                break;
                            }
                            Some(cb) => match self.decide(cb) {
                                Some(true) => {
                                    red.push((None, t));
                                    break;
                                }
                                Some(false) => {}
                                None => red.push((Some(cb), t)),
                            },
                        }
                    }
                    if red.len() > 1 && self.t.secret(b) {
                        let s = self.t.show(b);
                        self.event(Ek::SecretBranch, format!("switch on {}", clip(&s)));
                    }
                    if red.len() == 1 {
                        let n = red[0].1;
                        ip = self.enter(fr, bb, n)?;
                        if Some(n) == stop {
                            return Ok(Flow::Reached);
                        }
                        bb = n;
                        continue;
                    }
                    match self.fork(fr, bb, red)? {
                        Flow::Reached => {
                            let p = f.ipdom[bb as usize].unwrap();
                            if Some(p) == stop {
                                return Ok(Flow::Reached);
                            }
                            bb = p;
                            ip = 0;
                            while matches!(f.blocks[bb as usize][ip].k, K::Phi { .. }) {
                                ip += 1;
                            }
                            continue;
                        }
                        x => return Ok(x),
                    }
                }
                K::Ret(v) => {
                    let r = match v {
                        Some((ty, o)) => Some(self.val(fr, o, ty)?),
                        None => None,
                    };
                    return Ok(Flow::Ret(r));
                }
                K::Unreachable => {
                    self.event(Ek::Unreachable, "control can reach code declared unreachable".into());
                    return Ok(Flow::Div);
                }
                _ => {
                    if !self.step(fr, inst)? {
                        return Ok(Flow::Div);
                    }
                    ip += 1;
                }
            }
        }
    }
    /// analyse all arms up to the immediate post-dominator and join
    fn fork(&mut self, fr: &mut Frame, bb: u32, arms: Vec<(Option<B>, u32)>) -> Res<Flow> {
        self.stats.joins += 1;
        let f = fr.f.clone();
        let stop = f.ipdom[bb as usize];
        let st0 = self.st.clone();
        let regs0 = fr.regs.clone();
        let dbg0 = self.stack.last().unwrap().1;
        let mut outs: Vec<(Option<B>, Flow, State, Vec<Option<Val>>)> = vec![];
        let na = self.assume.len();
        self.depth_cond += 1;
        let mut negs: Vec<B> = vec![];
        for (c, t) in arms {
            self.st = st0.clone();
            fr.regs = regs0.clone();
            self.stack.last_mut().unwrap().1 = dbg0;
            self.assume.truncate(na);
            for n in &negs {
                self.assume.push((*n, false));
            }
            if let Some(cb) = c {
                self.assume.push((cb, true));
                negs.push(cb);
            }
            self.enter(fr, bb, t)?;
            let r = if Some(t) == stop { Flow::Reached } else { self.run(fr, t, stop)? };
            outs.push((c, r, std::mem::replace(&mut self.st, State { objs: vec![], globals: HashMap::new() }), std::mem::take(&mut fr.regs)));
        }
        self.assume.truncate(na);
        self.depth_cond -= 1;
        // fold from the last arm backwards
        let mut acc: Option<(Flow, State, Vec<Option<Val>>)> = None;
        for (c, fl, st, regs) in outs.into_iter().rev() {
            if matches!(fl, Flow::Div) {
                continue;
            }
            acc = Some(match acc {
                None => (fl, st, regs),
                Some((fl2, st2, regs2)) => {
                    let cb = match c {
                        Some(c) => c,
                        None => return Err(Stop("join".into())),
                    };
                    let nfl = match (fl, fl2) {
                        (Flow::Reached, Flow::Reached) => Flow::Reached,
                        (Flow::Ret(None), Flow::Ret(None)) => Flow::Ret(None),
                        (Flow::Ret(Some(a)), Flow::Ret(Some(b))) => Flow::Ret(Some(self.join_val(cb, a, b))),
                        _ => return Err(Stop("mixed join".into())),
                    };
                    let nst = self.join_state(cb, st, st2);
                    let mut nr = Vec::with_capacity(regs.len());
                    for (a, b) in regs.into_iter().zip(regs2) {
                        nr.push(match (a, b) {
                            (Some(x), Some(y)) => Some(self.join_val(cb, x, y)),
                            _ => None,
                        });
                    }
                    (nfl, nst, nr)
                }
            });
        }
        match acc {
            None => {
                self.st = st0;
                fr.regs = regs0;
                Ok(Flow::Div)
            }
            Some((fl, st, regs)) => {
                self.st = st;
                fr.regs = regs;
                Ok(fl)
            }
        }
    }
    fn lanes2(&mut self, ty: &Ty, x: B, y: B, mut g: impl FnMut(&mut Store, B, B) -> B) -> B {
        match ty {
            Ty::Vec(n, e) => {
                let ew = int_w(e);
                let mut parts = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    let a = self.t.extract(x, i * ew, ew);
                    let b = self.t.extract(y, i * ew, ew);
                    parts.push(g(&mut self.t, a, b));
                }
                self.t.concat(&parts)
            }
            _ => g(&mut self.t, x, y),
        }
    }
    fn binop(&mut self, b: Bin, ty: &Ty, x: B, y: B) -> Res<B> {
        let l = self.here();
        self.t.cur_loc = l;
        // bitwise ops need no lane split
        match b {
            Bin::And => return Ok(self.t.and(x, y)),
            Bin::Or => return Ok(self.t.or(x, y)),
            Bin::Xor => return Ok(self.t.xor(x, y)),
            _ => {}
        }
        if matches!(b, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && (self.t.secret(x) || self.t.secret(y)) && !self.t.as_const(y).map_or(false, |v| v.is_power_of_two()) {
            self.event(Ek::SecretBranch, "variable-time division on secret operand".into());
        }
        Ok(self.lanes2(ty, x, y, |t, a, c| {
            let w = t.w(a);
            match b {
                Bin::Add => t.add(a, c),
                Bin::Sub => t.sub(a, c),
                Bin::Mul => t.mul(a, c),
                Bin::Shl | Bin::LShr | Bin::AShr => match t.as_const(c) {
                    Some(n) => {
                        let n = n.min(w as u128) as u32;
                        match b {
                            Bin::Shl => t.shl(a, n),
                            Bin::LShr => t.lshr(a, n),
                            _ => t.ashr(a, n),
                        }
                    }
                    None => {
                        // shift by a few-bit amount: select
                        match t.enumerate(c, 7) {
                            Some(v) => {
                                let mut r: Option<B> = None;
                                for s in v {
                                    let n = s.min(w as u128) as u32;
                                    let sh = match b {
                                        Bin::Shl => t.shl(a, n),
                                        Bin::LShr => t.lshr(a, n),
                                        _ => t.ashr(a, n),
                                    };
                                    let k = t.konst(w, s);
                                    let e = t.eq(c, k);
                                    r = Some(match r {
                                        None => sh,
                                        Some(o) => t.ite(e, sh, o),
                                    });
                                }
                                r.unwrap()
                            }
                            None => {
                                let nm = match b {
                                    Bin::Shl => "shl",
                                    Bin::LShr => "lshr",
                                    _ => "ashr",
                                };
                                t.op(nm, w, vec![a, c])
                            }
                        }
                    }
                },
                Bin::UDiv | Bin::URem => match (t.as_const(a), t.as_const(c)) {
                    (Some(p), Some(q)) if q != 0 => t.konst(w, if b == Bin::UDiv { p / q } else { p % q }),
                    (None, Some(q)) if q.is_power_of_two() => {
                        let k = q.trailing_zeros();
                        if b == Bin::UDiv {
                            t.lshr(a, k)
                        } else {
                            let l = t.extract(a, 0, k.max(1));
                            if k == 0 {
                                t.konst(w, 0)
                            } else {
                                t.zext(l, w)
                            }
                        }
                    }
                    (None, Some(q)) if q != 0 && t.umax(a) < q => {
                        if b == Bin::UDiv {
                            t.konst(w, 0)
                        } else {
                            a
                        }
                    }
                    _ => t.op(if b == Bin::UDiv { "udiv" } else { "urem" }, w, vec![a, c]),
                },
                Bin::SDiv | Bin::SRem => match (t.as_const(a), t.as_const(c)) {
                    (Some(p), Some(q)) if q != 0 => {
                        let s = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                        let (p, q) = (s(p), s(q));
                        t.konst(w, if b == Bin::SDiv { p.wrapping_div(q) } else { p.wrapping_rem(q) } as u128)
                    }
                    _ => t.op(if b == Bin::SDiv { "sdiv" } else { "srem" }, w, vec![a, c]),
                },
                _ => unreachable!(),
            }
        }))
    }
    pub fn cmp(&mut self, pred: &str, x: B, y: B) -> B {
        let t = &mut self.t;
        match pred {
            "eq" => t.eq(x, y),
            "ne" => {
                let e = t.eq(x, y);
                t.not(e)
            }
            "ult" => t.ult(x, y),
            "ugt" => t.ult(y, x),
            "ule" => {
                let e = t.ult(y, x);
                t.not(e)
            }
            "uge" => {
                let e = t.ult(x, y);
                t.not(e)
            }
            "slt" => t.slt(x, y),
            "sgt" => t.slt(y, x),
            "sle" => {
                let e = t.slt(y, x);
                t.not(e)
            }
            "sge" => {
                let e = t.slt(x, y);
                t.not(e)
            }
            _ => panic!("pred {}", pred),
        }
    }
    fn icmp_val(&mut self, pred: &str, a: Val, b: Val) -> Res<B> {
        match (&a, &b) {
            (Val::B(x), Val::B(y)) => Ok(self.cmp(pred, *x, *y)),
            (Val::Sel(c, ab), _) => {
                let p = self.icmp_val(pred, ab.0.clone(), b.clone())?;
                let q = self.icmp_val(pred, ab.1.clone(), b.clone())?;
                Ok(self.t.ite(*c, p, q))
            }
            (_, Val::Sel(c, ab)) => {
                let p = self.icmp_val(pred, a.clone(), ab.0.clone())?;
                let q = self.icmp_val(pred, a.clone(), ab.1.clone())?;
                Ok(self.t.ite(*c, p, q))
            }
            (Val::P(o1, x), Val::P(o2, y)) if o1 == o2 => Ok(self.cmp(pred, *x, *y)),
            (Val::P(..), Val::P(..)) | (Val::F(..), Val::P(..)) | (Val::P(..), Val::F(..)) if pred == "eq" || pred == "ne" => Ok(self.t.konst(1, (pred == "ne") as u128)),
            (Val::F(x, _), Val::F(y, _)) if pred == "eq" || pred == "ne" => Ok(self.t.konst(1, ((x == y) == (pred == "eq")) as u128)),
            (Val::P(..), Val::B(k)) | (Val::B(k), Val::P(..)) | (Val::F(..), Val::B(k)) | (Val::B(k), Val::F(..)) if (pred == "eq" || pred == "ne") && self.t.as_const(*k).is_some() => {
                Ok(self.t.konst(1, (pred == "ne") as u128))
            }
            _ => {
                let x = self.ptr_to_int(&a);
                let y = self.ptr_to_int(&b);
                Ok(self.cmp(pred, x, y))
            }
        }
    }
    fn step(&mut self, fr: &mut Frame, inst: &Inst) -> Res<bool> {
        let pb = self.p.pb;
        let out: Option<Val> = match &inst.k {
            K::Alloca { ty, n, align } => {
                let mut cnt = 1u64;
                if let Some(o) = n {
                    let b = self.bits(fr, o, &Ty::Int(32))?;
                    cnt = self.t.as_const(b).ok_or_else(|| Stop("alloca".into()))? as u64;
                }
                let (s, _) = size_align(ty, pb);
                let nm = format!("local of {}", demangle(&fr.f.name));
                let id = self.alloc(&nm, s * cnt, *align as u64);
                Some(self.ptr(id, 0))
            }
            K::Load { ty, p, align, noundef, .. } => {
                let p = self.val(fr, p, &Ty::Ptr)?;
                Some(self.load(ty, &p, *align as u64, *noundef)?)
            }
            K::Store { ty, v, p, align, volatile } => {
                let undef_store = matches!(v, Op::K(C::Undef(_)));
                let v = self.val(fr, v, ty)?;
                let p = self.val(fr, p, &Ty::Ptr)?;
                if undef_store {
                    return Ok(true);
                }
                self.store(ty, v, &p, *align as u64, *volatile)?;
                None
            }
            K::Gep { ty, p, idx, .. } => {
                let p = self.val(fr, p, &Ty::Ptr)?;
                let mut iv = vec![];
                for (t, o) in idx {
                    let b = self.bits(fr, o, t)?;
                    iv.push((t.clone(), Val::B(b)));
                }
                Some(self.gep(ty, p, &iv)?)
            }
            K::Bin { b, ty, x, y } => {
                let x = self.bits(fr, x, ty)?;
                let y = self.bits(fr, y, ty)?;
                Some(Val::B(self.binop(*b, ty, x, y)?))
            }
            K::Icmp { pred, ty, x, y } => {
                let l = self.here();
                self.t.cur_loc = l;
                match ty {
                    Ty::Vec(n, e) => {
                        let ew = int_w(e);
                        let x = self.bits(fr, x, ty)?;
                        let y = self.bits(fr, y, ty)?;
                        let mut parts = vec![];
                        for i in 0..*n {
                            let a = self.t.extract(x, i * ew, ew);
                            let b = self.t.extract(y, i * ew, ew);
                            parts.push(self.cmp(pred, a, b));
                        }
                        Some(Val::B(self.t.concat(&parts)))
                    }
                    _ => {
                        let x = self.val(fr, x, ty)?;
                        let y = self.val(fr, y, ty)?;
                        Some(Val::B(self.icmp_val(pred, x, y)?))
                    }
                }
            }
            K::Cast { c, from, v, to } => {
                let v = self.val(fr, v, from)?;
                Some(match c {
                    Cast::PtrToInt => {
                        let b = self.ptr_to_int(&v);
                        let w = int_w(to);
                        Val::B(self.t.resize(b, w))
                    }
                    Cast::IntToPtr => match v {
                        Val::B(b) => {
                            let b = self.t.resize(b, pb);
                            self.int_to_ptr(b)
                        }
                        v => v,
                    },
                    Cast::Bitcast | Cast::Freeze => v,
                    _ => {
                        let Val::B(b) = v else { return Err(Stop("cast of pointer".into())) };
                        match (from, to) {
                            (Ty::Vec(n, fe), Ty::Vec(_, te)) => {
                                let (fw, tw) = (int_w(fe), int_w(te));
                                let mut parts = vec![];
                                for i in 0..*n {
                                    let a = self.t.extract(b, i * fw, fw);
                                    parts.push(match c {
                                        Cast::Trunc => self.t.extract(a, 0, tw),
                                        Cast::ZExt => self.t.zext(a, tw),
                                        _ => self.t.sext(a, tw),
                                    });
                                }
                                Val::B(self.t.concat(&parts))
                            }
                            _ => {
                                let tw = int_w(to);
                                Val::B(match c {
                                    Cast::Trunc => self.t.extract(b, 0, tw),
                                    Cast::ZExt => self.t.zext(b, tw),
                                    _ => self.t.sext(b, tw),
                                })
                            }
                        }
                    }
                })
            }
            K::Select { cty, c, ty, x, y } => {
                let l = self.here();
                self.t.cur_loc = l;
                let c = self.bits(fr, c, cty)?;
                let x = self.val(fr, x, ty)?;
                let y = self.val(fr, y, ty)?;
                match (cty, ty) {
                    (Ty::Vec(n, _), Ty::Vec(_, e)) => {
                        let ew = int_w(e);
                        let (Val::B(x), Val::B(y)) = (x, y) else { return Err(Stop("select".into())) };
                        let mut parts = vec![];
                        for i in 0..*n {
                            let cb = self.t.extract(c, i, 1);
                            let a = self.t.extract(x, i * ew, ew);
                            let b = self.t.extract(y, i * ew, ew);
                            parts.push(self.t.ite(cb, a, b));
                        }
                        Some(Val::B(self.t.concat(&parts)))
                    }
                    _ => match self.decide(c) {
                        Some(true) => Some(x),
                        Some(false) => Some(y),
                        None => Some(self.join_val(c, x, y)),
                    },
                }
            }
            K::Phi { .. } => return Err(Stop("phi in body".into())),
            K::ExtractValue { ty, v, idx } => {
                let mut v = self.val(fr, v, ty)?;
                for i in idx {
                    v = self.agg_get(v, *i)?;
                }
                Some(v)
            }
            K::InsertValue { ty, v, ety, e, idx } => {
                let v = self.val(fr, v, ty)?;
                let e = self.val(fr, e, ety)?;
                Some(self.agg_set(v, idx, e)?)
            }
            K::ExtractElem { ty, v, i } => {
                let b = self.bits(fr, v, ty)?;
                let i = self.bits(fr, i, &Ty::Int(64))?;
                let i = self.t.as_const(i).ok_or_else(|| Stop("lane index".into()))? as u32;
                let Ty::Vec(_, e) = ty else { return Err(Stop("extractelement".into())) };
                let ew = int_w(e);
                Some(Val::B(self.t.extract(b, i * ew, ew)))
            }
            K::InsertElem { ty, v, e, i } => {
                let b = self.bits(fr, v, ty)?;
                let Ty::Vec(n, et) = ty else { return Err(Stop("insertelement".into())) };
                let e = self.bits(fr, e, et)?;
                let i = self.bits(fr, i, &Ty::Int(64))?;
                let i = self.t.as_const(i).ok_or_else(|| Stop("lane index".into()))? as u32;
                let ew = int_w(et);
                let mut parts = vec![];
                for j in 0..*n {
                    parts.push(if j == i { e } else { self.t.extract(b, j * ew, ew) });
                }
                Some(Val::B(self.t.concat(&parts)))
            }
            K::Shuffle { ty, x, y, mask } => {
                let x = self.bits(fr, x, ty)?;
                let y = self.bits(fr, y, ty)?;
                let Ty::Vec(n, e) = ty else { return Err(Stop("shuffle".into())) };
                let ew = int_w(e);
                let mut parts = vec![];
                for m in mask {
                    parts.push(match m {
                        None => self.t.fresh_undef(ew),
                        Some(i) if i < n => self.t.extract(x, i * ew, ew),
                        Some(i) => self.t.extract(y, (i - n) * ew, ew),
                    });
                }
                Some(Val::B(self.t.concat(&parts)))
            }
            K::Call { ret, callee, args, attr, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    if *t == Ty::Other {
                        av.push(Val::Agg(Rc::new(vec![])));
                    } else {
                        av.push(self.val(fr, o, t)?);
                    }
                }
                match callee {
                    Callee::Asm(s) => self.asm(s, ret, av)?,
                    Callee::Sym(n) => {
                        let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                        match self.call_sym(fr.f.module, n, ret, av, &tys, attr)? {
                            None => return Ok(false),
                            Some(v) => v,
                        }
                    }
                    Callee::Reg(o) => {
                        let v = self.val(fr, o, &Ty::Ptr)?;
                        match v {
                            Val::F(n, m) => {
                                let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                                match self.call_sym(m, &n.clone(), ret, av, &tys, attr)? {
                                    None => return Ok(false),
                                    Some(v) => v,
                                }
                            }
                            _ => return Err(Stop("indirect call through unknown pointer".into())),
                        }
                    }
                }
            }
            K::Fence => None,
            K::Unsupported(s) => return Err(Stop(format!("unsupported instruction {}", s))),
            _ => unreachable!(),
        };
        if let (Some(d), Some(v)) = (inst.dst, out) {
            fr.regs[d as usize] = Some(v);
        }
        Ok(true)
    }
    fn agg_get(&mut self, v: Val, i: u32) -> Res<Val> {
        match v {
            Val::Agg(a) => Ok(a[i as usize].clone()),
            Val::Sel(c, ab) => {
                let x = self.agg_get(ab.0.clone(), i)?;
                let y = self.agg_get(ab.1.clone(), i)?;
                Ok(self.join_val(c, x, y))
            }
            _ => Err(Stop("extractvalue".into())),
        }
    }
    fn agg_set(&mut self, v: Val, idx: &[u32], e: Val) -> Res<Val> {
        if idx.is_empty() {
            return Ok(e);
        }
        match v {
            Val::Agg(a) => {
                let mut n = (*a).clone();
                let i = idx[0] as usize;
                n[i] = self.agg_set(n[i].clone(), &idx[1..], e)?;
                Ok(Val::Agg(Rc::new(n)))
            }
            _ => Err(Stop("insertvalue".into())),
        }
    }
    fn asm(&mut self, s: &str, ret: &Ty, args: Vec<Val>) -> Res<Option<Val>> {
        if s.contains("cpuid") {
            let mut k = vec![];
            for a in &args {
                if let Val::B(b) = a {
                    k.push(self.t.as_const(*b));
                }
            }
            self.event(Ek::Cpuid, "cpuid".into());
            let leaf = k[0].unwrap_or(0) as u32;
            let sub = k.get(1).copied().flatten().unwrap_or(0) as u32;
            let r = cpuid(&self.cpu, leaf, sub);
            // outputs in constraint order: rbx-scratch, eax, ecx, edx
            // constraint: "=&r,=&{ax},=&{cx},=&{dx},..."
            let c = s.split('|').last().unwrap_or("");
            let mut outs = vec![];
            for o in c.split(',') {
                if o.starts_with('=') {
                    let v = if o.contains("{ax}") || o.contains("{eax}") {
                        r.0
                    } else if o.contains("{cx}") || o.contains("{ecx}") {
                        r.2
                    } else if o.contains("{dx}") || o.contains("{edx}") {
                        r.3
                    } else {
                        r.1
                    };
                    outs.push(v);
                }
            }
            let mut v = vec![];
            if let Ty::Struct(tys, _) = ret {
                for (i, t) in tys.iter().enumerate() {
                    let w = int_w(t);
                    v.push(Val::B(self.t.konst(w, outs[i] as u128)));
                }
            }
            return Ok(Some(Val::Agg(Rc::new(v))));
        }
        if s.contains("xgetbv") {
            let x = xcr0(&self.cpu);
            let mut v = vec![];
            if let Ty::Struct(tys, _) = ret {
                for (i, t) in tys.iter().enumerate() {
                    let w = int_w(t);
                    v.push(Val::B(self.t.konst(w, if i == 0 { x as u128 } else { 0 })));
                }
                return Ok(Some(Val::Agg(Rc::new(v))));
            }
        }
        let body = s.split('|').next().unwrap_or("").trim();
        if (body.is_empty() || body.starts_with('#') || body.starts_with("//") || body.starts_with('@')) && *ret == Ty::Void {
            // optimisation barrier: makes the pointed-to object observable
            for a in &args {
                if let Val::P(id, _) = a {
                    let id = *id;
                    for c in self.obj_mut(id).cells.values_mut() {
                        c.volatile = true;
                    }
                }
            }
            return Ok(None);
        }
        Err(Stop(format!("inline assembly `{}`", clip(s))))
    }
    fn call_sym(&mut self, m: usize, n: &str, ret: &Ty, args: Vec<Val>, tys: &[Ty], attr: &Option<String>) -> Res<Option<Option<Val>>> {
        if n.starts_with("llvm.") {
            return crate::intr::intrinsic(self, n, ret, args, tys);
        }
        if n.contains("precondition_check") {
            return Ok(Some(None));
        }
        if n.contains("is_val_statically_known") {
            return Ok(Some(Some(Val::B(self.t.konst(1, 0)))));
        }
        if self.fmt_mode && n.contains("core3fmt") && self.func(m, n).is_none() {
            return self.external_fmt(n, ret, args);
        }
        if let Some(f) = self.func(m, n) {
            return Ok(match self.call_fn(f, args)? {
                Flow::Ret(v) => Some(v),
                _ => None,
            });
        }
        match n {
            "memcmp" | "bcmp" => {
                let (Val::P(a, ao), Val::P(b, bo)) = (&args[0], &args[1]) else { return Err(Stop("memcmp".into())) };
                let Val::B(k) = args[2] else { return Err(Stop("memcmp".into())) };
                let len = self.t.as_const(k).ok_or_else(|| Stop("memcmp length".into()))? as u64;
                let (a, ao, b, bo) = (*a, *ao, *b, *bo);
                if len == 0 {
                    return Ok(Some(Some(self.int(32, 0))));
                }
                self.check_access(a, ao, len, 1, false)?;
                self.check_access(b, bo, len, 1, false)?;
                let (Some(ac), Some(bc)) = (self.t.as_const(ao), self.t.as_const(bo)) else { return Err(Stop("memcmp offset".into())) };
                let x = self.read_bits(a, ac as u32, len as u32);
                let y = self.read_bits(b, bc as u32, len as u32);
                let e = self.t.eq(x, y);
                // only ==0 is meaningful
                let ne = self.t.not(e);
                let r = self.t.zext(ne, 32);
                Ok(Some(Some(Val::B(r))))
            }
            _ => {
                let mm = &self.p.modules[m];
                let attr_nr = attr.as_ref().map_or(false, |a| mm.attrs.get(a).map_or(false, |s| s.contains("noreturn")));
                let nr = attr_nr || mm.is_noreturn(n);
                if nr {
                    self.event(Ek::Panic, demangle(n));
                    return Ok(None);
                }
                if self.fmt_mode {
                    return self.external_fmt(n, ret, args);
                }
                Err(Stop(format!("call of external function {}", demangle(n))))
            }
        }
    }
    /// Calls into the (pre-compiled) formatting machinery: follow every data pointer paired with a
    /// vtable or formatting function, and record what escapes.
    fn external_fmt(&mut self, n: &str, ret: &Ty, args: Vec<Val>) -> Res<Option<Option<Val>>> {
        let dn = demangle(n);
        self.event(Ek::External, dn.clone());
        if self.fmt_depth < 6 {
            self.fmt_depth += 1;
            // flatten reachable (ptr, fn/vtable) pairs
            let mut vals: Vec<Val> = args.clone();
            let mut seen: HashSet<ObjId> = HashSet::new();
            let mut q: Vec<ObjId> = vec![];
            for a in &args {
                if let Val::P(o, _) = a {
                    q.push(*o);
                }
            }
            while let Some(o) = q.pop() {
                if !seen.insert(o) {
                    continue;
                }
                let ob = self.obj(o).clone();
                if ob.watch {
                    continue;
                }
                for c in ob.cells.values() {
                    vals.push(c.v.clone());
                    if let Val::P(o2, _) = c.v {
                        q.push(o2);
                    }
                }
            }
            // the Formatter handed on: the caller's, or one that core::fmt::write builds around the sink
            let ps = (self.p.pb / 8) as u64;
            let mut fmtr = args.first().cloned();
            let mut built: Option<ObjId> = None;
            if let Some(Val::P(o, _)) = &fmtr {
                if self.obj(*o).size < 8 + 2 * ps && args.len() > 1 {
                    let f = self.alloc("formatter", 8 + 2 * ps, ps);
                    built = Some(f);
                    fmtr = Some(self.ptr(f, 0));
                }
            }
            let mut i = 0;
            let mut consumed: HashSet<usize> = HashSet::new();
            while i + 1 < vals.len() {
                let (a, b) = (vals[i].clone(), vals[i + 1].clone());
                let mut target: Option<(Rc<str>, usize)> = None;
                match &b {
                    Val::F(f, m) => target = Some((f.clone(), *m)),
                    Val::P(o, _) if *o >= GBASE => {
                        let ob = self.obj(*o).clone();
                        if ob.ro {
                            let fs: Vec<(u32, Rc<str>, usize)> = ob
                                .cells
                                .iter()
                                .filter_map(|(p, c)| if let Val::F(f, m) = &c.v { Some((*p, f.clone(), *m)) } else { None })
                                .collect();
                            if let Some((_, f, m)) = fs.last() {
                                if fs.last().unwrap().0 as u64 >= 3 * (self.p.pb / 8) as u64 {
                                    target = Some((f.clone(), *m));
                                }
                            }
                        }
                    }
                    _ => {}
                }
                if let (Some((f, m)), Val::P(..)) = (target, &a) {
                    consumed.insert(i);
                    if let Some(fun) = self.func(m, &f) {
                        let mut av = vec![a.clone()];
                        if let Some(x) = &fmtr {
                            av.push(x.clone());
                        }
                        if fun.params.len() == 2 {
                            if let Some(fo) = built {
                                // the position of the sink in a Formatter is up to the compiler
                                let st = self.st.clone();
                                let ne = self.events.len();
                                let mut last: Res<Flow> = Ok(Flow::Div);
                                for first in [false, true] {
                                    self.st = st.clone();
                                    self.events.truncate(ne);
                                    let at = if first { 0 } else { 8 };
                                    // any flags, width and precision
                                    let opts = self.t.sym("fmt.options", 64, false);
                                    self.set_bits(fo, if first { 2 * ps as u32 } else { 0 }, opts);
                                    for (k, v) in [(0, args[0].clone()), (1, args[1].clone())] {
                                        let off = self.t.konst(self.p.pb, at + k * ps as u128);
                                        let slot = Val::P(fo, off);
                                        self.store(&Ty::Ptr, v, &slot, ps, false)?;
                                    }
                                    let depth = (self.stack.len(), self.fmt_depth, self.depth_cond, self.assume.len());
                                    last = self.call_fn(fun.clone(), av.clone());
                                    if last.is_ok() {
                                        break;
                                    }
                                    self.stack.truncate(depth.0);
                                    self.fmt_depth = depth.1;
                                    self.depth_cond = depth.2;
                                    self.assume.truncate(depth.3);
                                }
                                last?;
                            } else {
                                let _ = self.call_fn(fun, av)?;
                            }
                        }
                    } else if let Val::P(o, _) = &a {
                        if self.reach_watch(*o) {
                            self.event(Ek::WatchRead, format!("passes secret-bearing value to external formatter {}", demangle(&f)));
                        }
                    }
                    i += 2;
                    continue;
                }
                i += 1;
            }
            // direct escape of watched objects
            for (i, a) in vals.iter().enumerate() {
                if consumed.contains(&i) {
                    continue;
                }
                if let Val::P(o, _) = a {
                    if self.obj(*o).watch {
                        // a bare pointer without formatter: only a problem if the callee is known to read it
                        if i < args.len() {
                            // paired case handled above; remaining: raw data pointers
                            let paired = matches!(vals.get(i + 1), Some(Val::F(..))) || matches!(vals.get(i + 1), Some(Val::P(o2, _)) if *o2 >= GBASE);
                            if !paired {
                                self.event(Ek::WatchRead, format!("passes secret-bearing bytes to {}", dn));
                            }
                        }
                    }
                }
            }
            for a in &args {
                if let Val::B(b) = a {
                    if self.t.secret(*b) {
                        self.event(Ek::WatchRead, format!("passes a secret value to {}", dn));
                    }
                }
            }
            self.fmt_depth -= 1;
        }
        let v = match ret {
            Ty::Void => None,
            t => Some(self.undef(t)),
        };
        // result of formatting is unknown but public
        Ok(Some(v))
    }
    fn reach_watch(&self, o: ObjId) -> bool {
        let mut seen = HashSet::new();
        let mut q = vec![o];
        while let Some(o) = q.pop() {
            if !seen.insert(o) {
                continue;
            }
            let ob = self.obj(o);
            if ob.watch {
                return true;
            }
            for c in ob.cells.values() {
                if let Val::P(o2, _) = c.v {
                    q.push(o2);
                }
            }
        }
        false
    }
}

pub fn int_w(t: &Ty) -> u32 {
    match t {
        Ty::Int(n) | Ty::Float(n) => *n,
        Ty::Vec(n, e) => n * int_w(e),
        Ty::Ptr => 64,
        _ => 0,
    }
}
pub fn bytes_of(t: &Ty, pb: u32) -> u32 {
    match t {
        Ty::Int(n) => (n + 7) / 8,
        _ => size_align(t, pb).0 as u32,
    }
}
pub fn clip(s: &str) -> String {
    if s.len() > 160 {
        let mut e = 160;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}..", &s[..e])
    } else {
        s.to_string()
    }
}

/// good-enough reading of v0/legacy mangled names: the identifiers in order
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' {
            // possible disambiguator s<base62>_
            let mut j = i + 1;
            if b[i] == b's' {
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if len > 1 && i + len <= b.len() {
                let s = &n[i..i + len];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(s.to_string());
                }
                i += len;
            }
            continue;
        }
        i += 1;
    }
    out.retain(|s| !matches!(s.as_str(), "UInt" | "UTerm" | "B0" | "B1" | "bit" | "uint" | "typenum"));
    out.truncate(8);
    out.join("::")
}

fn has(c: &Cpu, f: &str) -> u32 {
    c.feats.contains(f) as u32
}
pub fn xcr0(c: &Cpu) -> u64 {
    let mut x = 1 | 2;
    if c.os_avx {
        x |= 4;
    }
    if c.os_avx512 {
        x |= 0xe0;
    }
    x
}
pub fn cpuid(c: &Cpu, leaf: u32, sub: u32) -> (u32, u32, u32, u32) {
    // CPU models may have silicon features the OS does not enable: `hw:` prefix
    let h = |f: &str| has(c, f) | has(c, &format!("hw:{}", f));
    match (leaf, sub) {
        (0, _) => (7, 0x756e6547, 0x6c65746e, 0x49656e69),
        (1, _) => {
            let ecx = h("sse3") | h("ssse3") << 9 | h("fma") << 12 | h("sse4.1") << 19 | h("sse4.2") << 20 | h("popcnt") << 23 | (h("avx") << 26) | (h("avx") << 27) | h("avx") << 28 | h("f16c") << 29;
            let edx = 1 | 1 << 4 | 1 << 8 | 1 << 15 | h("sse") << 24 | h("sse") << 25 | h("sse2") << 26;
            (0x000306a9, 0, ecx, edx)
        }
        (7, 0) => {
            let ebx = h("bmi1") << 3 | h("avx2") << 5 | h("bmi2") << 8 | h("avx512f") << 16 | h("avx512dq") << 17 | h("avx512bw") << 30 | h("avx512vl") << 31;
            (1, ebx, 0, 0)
        }
        _ => (0, 0, 0, 0),
    }
}
