//! Value-number domain: hash-consed canonical bit-vector terms.
//!
//! A value is a sequence of segments; each segment is `const ^ XOR of atom slices`.
//! Atoms are the operators that are not (bit-wise) linear over GF(2): sums (kept as
//! flattened linear combinations mod 2^w), products, comparisons, selects, array reads.
//! Two values with the same id denote the same function of the symbols; the analysis never
//! asks whether two different ids could be equal (no solver).

use std::collections::HashMap;
use std::hash::Hasher;

pub type B = u32;
pub type A = u32;
pub type X = u32;

/// short sequences are kept inline
#[derive(Clone, Debug)]
pub enum Sm<T: Copy + Default, const N: usize> {
    In(u8, [T; N]),
    Out(Box<[T]>),
}
impl<T: Copy + Default, const N: usize> std::ops::Deref for Sm<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        match self {
            Sm::In(n, a) => &a[..*n as usize],
            Sm::Out(b) => b,
        }
    }
}
impl<T: Copy + Default, const N: usize> From<Vec<T>> for Sm<T, N> {
    fn from(v: Vec<T>) -> Self {
        if v.len() <= N {
            let mut a = [T::default(); N];
            a[..v.len()].copy_from_slice(&v);
            Sm::In(v.len() as u8, a)
        } else {
            Sm::Out(v.into())
        }
    }
}
impl<T: Copy + Default + PartialEq, const N: usize> PartialEq for Sm<T, N> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Bits {
    pub w: u32,
    pub k: Sm<u64, 2>,
    pub segs: Sm<(u32, X), 4>,
}

/// open-addressing table from content hash to id; the contents live in the store's vectors
#[derive(Default)]
struct Tab {
    t: Vec<(u32, u32)>,
    n: usize,
}
impl Tab {
    fn find(&self, h: u32, eq: impl Fn(u32) -> bool) -> Option<u32> {
        if self.t.is_empty() {
            return None;
        }
        let m = self.t.len() - 1;
        let mut i = h as usize & m;
        loop {
            let (hh, id) = self.t[i];
            if id == u32::MAX {
                return None;
            }
            if hh == h && eq(id) {
                return Some(id);
            }
            i = (i + 1) & m;
        }
    }
    fn insert(&mut self, h: u32, id: u32) {
        if self.t.len() * 2 <= self.n * 3 + 16 {
            let old = std::mem::take(&mut self.t);
            self.t = vec![(0, u32::MAX); (old.len() * 2).max(64)];
            self.n = 0;
            for (h, id) in old {
                if id != u32::MAX {
                    self.put(h, id);
                }
            }
        }
        self.put(h, id);
    }
    fn put(&mut self, h: u32, id: u32) {
        let m = self.t.len() - 1;
        let mut i = h as usize & m;
        while self.t[i].1 != u32::MAX {
            i = (i + 1) & m;
        }
        self.t[i] = (h, id);
        self.n += 1;
    }
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u32 {
    let mut h = Fx::default();
    x.hash(&mut h);
    mix(h.0)
}
fn smix(v: u64) -> u64 {
    let y = v.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let y = (y ^ (y >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    let y = (y ^ (y >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    y ^ (y >> 31)
}
fn mix(h: u64) -> u32 {
    let h = (h ^ (h >> 32)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (h >> 32) as u32
}
/// all xor lists, end to end
#[derive(Default)]
pub struct Lists {
    flat: Vec<(A, u32)>,
    at: Vec<u64>,
}
impl Lists {
    fn push(&mut self, l: &[(A, u32)]) {
        self.at.push(self.flat.len() as u64);
        self.flat.extend_from_slice(l);
    }
    pub fn len(&self) -> usize {
        self.at.len()
    }
}
impl std::ops::Index<usize> for Lists {
    type Output = [(A, u32)];
    fn index(&self, i: usize) -> &[(A, u32)] {
        let e = self.at.get(i + 1).map_or(self.flat.len(), |x| *x as usize);
        &self.flat[self.at[i] as usize..e]
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Sym { name: Box<str>, w: u32, secret: bool },
    Add { w: u32, terms: Box<[(u128, B)]>, c: u128 },
    /// a sum of more than BIG terms, identified by a homomorphic fingerprint of its linear form
    Big { w: u32, id: u32 },
    Mul { w: u32, a: B, b: B },
    And { w: u32, xs: Box<[B]> },
    Ite { w: u32, c: B, a: B, b: B },
    EqZ { a: B },
    Ult { a: B, b: B },
    Slt { a: B, b: B },
    Sel { w: u32, arr: u32, idx: B },
    Op { name: &'static str, w: u32, args: Box<[B]> },
}

/// sums with more terms are kept as fingerprints
pub const BIG: usize = 64;
const FPW: usize = 48;

pub struct BigSum {
    pub fp: Box<[u64; FPW]>,
    pub c: u128,
    pub parts: Box<[(u128, B)]>,
}

pub struct AtomInfo {
    pub w: u32,
    pub secret: bool,
    pub undef: bool,
    pub loc: u32,
    /// bounds of an unsigned sum that cannot wrap
    pub range: Option<(u128, u128)>,
    /// bounds of a sum whose wrapping is the same for all operand values
    pub srange: Option<(u128, u128)>,
}

#[derive(Default)]
pub struct Store {
    pub bits: Vec<Bits>,
    bmap: Tab,
    pub atoms: Vec<Atom>,
    pub ainfo: Vec<AtomInfo>,
    amap: Tab,
    pub lists: Lists,
    lmap: Tab,
    pub arrays: Vec<Box<[B]>>,
    arrmap: Tab,
    pub bigs: Vec<BigSum>,
    gens: FxMap<B, (Box<[u64; FPW]>, u128)>,
    summap: FxMap<(u32, u128, Box<[u64; FPW]>), A>,
    narrow_memo: FxMap<(A, u32), B>,
    pair_memo: FxMap<(B, B), Option<B>>,
    whole_memo: FxMap<A, B>,
    pub cur_loc: u32,
    fresh: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.write_u64(u64::from_le_bytes(x.try_into().unwrap()));
        }
        for x in c.remainder() {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

fn kget128(k: &[u64], w: u32) -> u128 {
    let mut v = k[0] as u128;
    if k.len() > 1 {
        v |= (k[1] as u128) << 64;
    }
    v & mask128(w)
}
fn set_range(k: &mut [u64], p: u32, n: u32) {
    let e = p + n;
    let mut i = p;
    while i < e {
        let s = i % 64;
        let c = (64 - s).min(e - i);
        let m = if c == 64 { u64::MAX } else { ((1u64 << c) - 1) << s };
        k[(i / 64) as usize] |= m;
        i += c;
    }
}
fn limbs(w: u32) -> usize {
    ((w + 63) / 64) as usize
}
pub fn kget(k: &[u64], lo: u32, len: u32) -> u64 {
    // len <= 64
    if len == 0 {
        return 0;
    }
    let i = (lo / 64) as usize;
    let s = lo % 64;
    let mut v = if i < k.len() { k[i] >> s } else { 0 };
    if s != 0 && i + 1 < k.len() {
        v |= k[i + 1] << (64 - s);
    }
    if len < 64 {
        v &= (1u64 << len) - 1;
    }
    v
}
fn kxor(k: &mut [u64], lo: u32, len: u32, v: u64) {
    if len == 0 {
        return;
    }
    let v = if len < 64 { v & ((1u64 << len) - 1) } else { v };
    let i = (lo / 64) as usize;
    let s = lo % 64;
    k[i] ^= v << s;
    if s != 0 && s + len > 64 {
        k[i + 1] ^= v >> (64 - s);
    }
}
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

struct Bd {
    pos: u32,
    k: Vec<u64>,
    segs: Vec<(u32, X)>,
}

impl Bd {
    fn new(w: u32) -> Self {
        Bd { pos: 0, k: vec![0; limbs(w).max(1)], segs: vec![] }
    }
}

impl Store {
    pub fn new() -> Self {
        let mut s = Store::default();
        s.lists.push(&[]);
        s
    }
    fn list(&mut self, l: Vec<(A, u32)>) -> X {
        if l.is_empty() {
            return 0;
        }
        let mut h = Fx::default();
        l.iter().for_each(|x| h.write_u64((x.0 as u64) << 32 | x.1 as u64));
        let h = mix(h.0);
        if let Some(x) = self.lmap.find(h, |i| self.lists[i as usize] == l[..]) {
            return x;
        }
        let id = self.lists.len() as u32;
        self.lists.push(&l);
        self.lmap.insert(h, id);
        id
    }
    fn intern(&mut self, b: Bits) -> B {
        let mut h = Fx(b.w as u64);
        b.k.iter().for_each(|x| h.write_u64(*x));
        b.segs.iter().for_each(|x| h.write_u64((x.0 as u64) << 32 | x.1 as u64));
        let h = mix(h.0);
        if let Some(x) = self.bmap.find(h, |i| self.bits[i as usize] == b) {
            return x;
        }
        let id = self.bits.len() as u32;
        self.bits.push(b);
        self.bmap.insert(h, id);
        id
    }
    fn finish(&mut self, bd: Bd, w: u32) -> B {
        assert_eq!(bd.pos, w, "builder width");
        let mut k = bd.k;
        k.truncate(limbs(w).max(1));
        self.intern(Bits { w, k: k.into(), segs: bd.segs.into() })
    }
    pub fn w(&self, b: B) -> u32 {
        self.bits[b as usize].w
    }
    pub fn aw(&self, a: A) -> u32 {
        self.ainfo[a as usize].w
    }
    pub fn atom(&mut self, a: Atom) -> A {
        let h = hash_of(&a);
        if let Some(x) = self.amap.find(h, |i| self.atoms[i as usize] == a) {
            return x;
        }
        let (w, secret, undef) = match &a {
            Atom::Sym { w, secret, name } => (*w, *secret, name.starts_with("undef")),
            Atom::Add { w, terms, .. } => (*w, terms.iter().any(|t| self.secret(t.1)), terms.iter().any(|t| self.undef(t.1))),
            Atom::Big { w, id } => {
                let p = &self.bigs[*id as usize].parts;
                (*w, p.iter().any(|t| self.secret(t.1)), p.iter().any(|t| self.undef(t.1)))
            }
            Atom::Mul { w, a, b } => (*w, self.secret(*a) || self.secret(*b), self.undef(*a) || self.undef(*b)),
            Atom::And { w, xs } => (*w, xs.iter().any(|t| self.secret(*t)), xs.iter().any(|t| self.undef(*t))),
            Atom::Ite { w, c, a, b } => (
                *w,
                self.secret(*c) || self.secret(*a) || self.secret(*b),
                self.undef(*c) || self.undef(*a) || self.undef(*b),
            ),
            Atom::EqZ { a } => (1, self.secret(*a), self.undef(*a)),
            Atom::Ult { a, b } | Atom::Slt { a, b } => (1, self.secret(*a) || self.secret(*b), self.undef(*a) || self.undef(*b)),
            Atom::Sel { w, arr, idx } => {
                let s = self.arrays[*arr as usize].iter().any(|t| self.secret(*t));
                let u = self.arrays[*arr as usize].iter().any(|t| self.undef(*t));
                (*w, s || self.secret(*idx), u || self.undef(*idx))
            }
            Atom::Op { w, args, .. } => (*w, args.iter().any(|t| self.secret(*t)), args.iter().any(|t| self.undef(*t))),
        };
        let id = self.atoms.len() as u32;
        let range = self.compute_range(&a);
        let srange = if range.is_some() { range } else { self.compute_srange(&a) };
        self.atoms.push(a);
        self.ainfo.push(AtomInfo { w, secret, undef, loc: self.cur_loc, range, srange });
        self.amap.insert(h, id);
        id
    }
    pub fn secret(&self, b: B) -> bool {
        self.bits[b as usize].segs.iter().any(|s| self.lists[s.1 as usize].iter().any(|x| self.ainfo[x.0 as usize].secret))
    }
    pub fn undef(&self, b: B) -> bool {
        self.bits[b as usize].segs.iter().any(|s| self.lists[s.1 as usize].iter().any(|x| self.ainfo[x.0 as usize].undef))
    }
    pub fn whole(&mut self, a: A) -> B {
        if let Some(b) = self.whole_memo.get(&a) {
            return *b;
        }
        let w = self.aw(a);
        let x = self.list(vec![(a, 0)]);
        let b = self.intern(Bits { w, k: vec![0; limbs(w).max(1)].into(), segs: vec![(w, x)].into() });
        self.whole_memo.insert(a, b);
        b
    }
    pub fn sym(&mut self, name: &str, w: u32, secret: bool) -> B {
        let a = self.atom(Atom::Sym { name: name.into(), w, secret });
        self.whole(a)
    }
    pub fn fresh_undef(&mut self, w: u32) -> B {
        self.fresh += 1;
        let n = format!("undef#{}", self.fresh);
        self.sym(&n, w, false)
    }
    pub fn konst(&mut self, w: u32, v: u128) -> B {
        let mut k = vec![0u64; limbs(w).max(1)];
        let v = v & mask128(w);
        k[0] = v as u64;
        if k.len() > 1 {
            k[1] = (v >> 64) as u64;
        }
        let segs: Vec<(u32, X)> = if w == 0 { vec![] } else { vec![(w, 0)] };
        self.intern(Bits { w, k: k.into(), segs: segs.into() })
    }
    pub fn konst_limbs(&mut self, w: u32, v: &[u64]) -> B {
        let mut k = vec![0u64; limbs(w).max(1)];
        for i in 0..k.len().min(v.len()) {
            k[i] = v[i];
        }
        let r = w % 64;
        if r != 0 {
            let n = k.len();
            k[n - 1] &= (1u64 << r) - 1;
        }
        let segs: Vec<(u32, X)> = if w == 0 { vec![] } else { vec![(w, 0)] };
        self.intern(Bits { w, k: k.into(), segs: segs.into() })
    }
    pub fn is_const(&self, b: B) -> bool {
        let x = &self.bits[b as usize];
        x.segs.is_empty() || (x.segs.len() == 1 && x.segs[0].1 == 0)
    }
    pub fn as_const(&self, b: B) -> Option<u128> {
        if !self.is_const(b) {
            return None;
        }
        let x = &self.bits[b as usize];
        if x.w > 128 {
            if x.k[2..].iter().any(|v| *v != 0) {
                return None;
            }
        }
        let mut v = x.k[0] as u128;
        if x.k.len() > 1 {
            v |= (x.k[1] as u128) << 64;
        }
        Some(v)
    }
    /// the single atom this value is (whole, unmodified)
    pub fn as_atom(&self, b: B) -> Option<A> {
        let x = &self.bits[b as usize];
        if x.segs.len() != 1 || x.k.iter().any(|v| *v != 0) {
            return None;
        }
        let l = &self.lists[x.segs[0].1 as usize];
        if l.len() == 1 && l[0].1 == 0 && self.aw(l[0].0) == x.w {
            Some(l[0].0)
        } else {
            None
        }
    }
    fn narrowable(&self, a: A) -> bool {
        matches!(self.atoms[a as usize], Atom::Add { .. } | Atom::Mul { .. })
    }
    /// width to which atom `a` is narrowed when only its bits below `hi` are needed
    fn nwidth(&self, a: A, hi: u32) -> Option<u32> {
        let w = self.aw(a);
        if w > 16 && hi <= 16 {
            // byte sums computed in wider integers; other sums are not narrowed below 32 bits
            let t = if hi <= 8 { 8 } else { 16 };
            let small = |b: &B| self.sigw(*b) <= t;
            let ok = match &self.atoms[a as usize] {
                Atom::Add { terms, .. } => terms.iter().all(|x| small(&x.1)),
                Atom::Mul { a, b, .. } => small(a) && small(b),
                _ => false,
            };
            if ok {
                return Some(t);
            }
        }
        self.mwidth(a, hi.max(if w > 16 { 32 } else { 8 }))
    }
    /// width able to hold the low `hi` bits
    fn mwidth(&self, a: A, hi: u32) -> Option<u32> {
        let w = self.aw(a);
        if !self.narrowable(a) {
            return None;
        }
        let t = if hi <= 8 {
            8
        } else if hi <= 16 {
            16
        } else if hi <= 32 {
            32
        } else if hi <= 64 {
            64
        } else {
            128
        };
        if t < w {
            Some(t)
        } else {
            None
        }
    }
    fn narrow(&mut self, a: A, hi: u32) -> B {
        if let Some(b) = self.narrow_memo.get(&(a, hi)) {
            return *b;
        }
        let r = match self.atoms[a as usize].clone() {
            Atom::Add { terms, c, .. } => {
                let ts: Vec<(u128, B)> = terms
                    .iter()
                    .map(|(q, t)| {
                        let tw = self.w(*t).min(hi);
                        (*q, self.extract(*t, 0, tw))
                    })
                    .collect();
                self.lin(hi, ts, c)
            }
            Atom::Mul { a: x, b: y, .. } => {
                let xw = self.w(x).min(hi);
                let yw = self.w(y).min(hi);
                let x = self.extract(x, 0, xw);
                let y = self.extract(y, 0, yw);
                self.mul_w(hi, x, y)
            }
            _ => unreachable!(),
        };
        self.narrow_memo.insert((a, hi), r);
        r
    }
    /// append `len` bits: k ^ xor of atom slices
    fn push_x(&mut self, bd: &mut Bd, len: u32, mut l: Vec<(A, u32)>, kv: &dyn Fn(u32, u32) -> u64) {
        if len == 0 {
            return;
        }
        // narrowing
        let mut extra: Option<B> = None;
        let mut i = 0;
        while i < l.len() {
            let (a, lo) = l[i];
            if let Some(tw) = self.nwidth(a, lo + len) {
                let nb = self.narrow(a, tw);
                if let Some(a2) = self.as_atom(nb) {
                    l[i] = (a2, lo);
                    i += 1;
                } else {
                    l.swap_remove(i);
                    let part = self.extract(nb, lo, len);
                    extra = Some(match extra {
                        None => part,
                        Some(e) => self.xor(e, part),
                    });
                }
            } else {
                i += 1;
            }
        }
        if let Some(e) = extra {
            // rest as bits, xor with extra, push pieces
            let mut b2 = Bd::new(len);
            self.push_x(&mut b2, len, l, &|_, _| 0);
            let rest = self.finish(b2, len);
            let sum = self.xor(rest, e);
            let bits = self.bits[sum as usize].clone();
            let mut off = 0;
            for (sl, x) in bits.segs.iter() {
                let li = self.lists[*x as usize].to_vec();
                self.push_raw(bd, *sl, li, &|o, n| kget(&bits.k, off + o, n) ^ kv(off + o, n));
                off += sl;
            }
            return;
        }
        l.sort_unstable();
        // cancel pairs
        let mut out: Vec<(A, u32)> = Vec::with_capacity(l.len());
        for e in l {
            if out.last() == Some(&e) {
                out.pop();
            } else {
                out.push(e);
            }
        }
        self.push_raw(bd, len, out, kv);
    }
    fn push_raw(&mut self, bd: &mut Bd, len: u32, l: Vec<(A, u32)>, kv: &dyn Fn(u32, u32) -> u64) {
        let mut o = 0;
        while o < len {
            let n = (len - o).min(64);
            kxor(&mut bd.k, bd.pos + o, n, kv(o, n));
            o += n;
        }
        // merge with previous segment
        if let Some(&(plen, px)) = bd.segs.last() {
            if px == 0 && l.is_empty() {
                bd.segs.last_mut().unwrap().0 += len;
                bd.pos += len;
                return;
            }
            let pl = self.lists[px as usize].to_vec();
            if pl.len() == l.len() && !l.is_empty() {
                let mut used = vec![false; pl.len()];
                let mut merged: Vec<(A, u32)> = vec![];
                let mut ok = true;
                for &(a2, lo2) in &l {
                    let mut found = false;
                    for (j, &(a1, lo1)) in pl.iter().enumerate() {
                        if used[j] || lo2 != lo1 + plen {
                            continue;
                        }
                        let m = if a1 == a2 {
                            true
                        } else if let Some(tw) = self.mwidth(a2, lo2) {
                            if self.aw(a1) == tw {
                                let nb = self.narrow(a2, tw);
                                self.as_atom(nb) == Some(a1)
                            } else {
                                false
                            }
                        } else {
                            false
                        };
                        if m {
                            used[j] = true;
                            merged.push((a2, lo1));
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    bd.segs.pop();
                    merged.sort_unstable();
                    let x = self.list(merged);
                    bd.segs.push((plen + len, x));
                    bd.pos += len;
                    return;
                }
            }
            // generalised merge: tail of the builder equals the low part of the sum
            if l.len() == 1 && l[0].1 > 0 && l[0].1 <= bd.pos && self.mwidth(l[0].0, l[0].1).is_some() {
                let (a2, lo2) = l[0];
                let tw = self.mwidth(a2, lo2).unwrap();
                let nb = self.narrow(a2, tw);
                let nb = self.extract(nb, 0, lo2);
                let nbits = self.bits[nb as usize].clone();
                let n = nbits.segs.len();
                if n <= bd.segs.len() {
                    let st = bd.segs.len() - n;
                    let tail_ok = bd.segs[st..] == nbits.segs[..];
                    if tail_ok {
                        let base = bd.pos - lo2;
                        let mut o = 0;
                        let mut same = true;
                        while o < lo2 {
                            let m = (lo2 - o).min(64);
                            if kget(&bd.k, base + o, m) != kget(&nbits.k, o, m) {
                                same = false;
                            }
                            o += m;
                        }
                        if same {
                            // replace tail by whole-sum slice [0, lo2+len)
                            let mut o = 0;
                            while o < lo2 {
                                let m = (lo2 - o).min(64);
                                kxor(&mut bd.k, base + o, m, kget(&nbits.k, o, m));
                                o += m;
                            }
                            bd.segs.truncate(st);
                            let x = self.list(vec![(a2, 0)]);
                            bd.segs.push((lo2 + len, x));
                            bd.pos += len;
                            return;
                        }
                    }
                }
            }
        }
        let x = self.list(l);
        bd.segs.push((len, x));
        bd.pos += len;
    }
    fn push_b(&mut self, bd: &mut Bd, b: B, lo: u32, len: u32) {
        let bits = self.bits[b as usize].clone();
        let hi = lo + len;
        let mut p = 0;
        for (sl, x) in bits.segs.iter() {
            let (s, e) = (p, p + sl);
            p = e;
            if e <= lo || s >= hi {
                continue;
            }
            let cs = s.max(lo);
            let ce = e.min(hi);
            let d = cs - s;
            let l: Vec<(A, u32)> = self.lists[*x as usize].iter().map(|(a, o)| (*a, o + d)).collect();
            self.push_x(bd, ce - cs, l, &|o, n| kget(&bits.k, cs + o, n));
        }
    }
    pub fn extract(&mut self, b: B, lo: u32, len: u32) -> B {
        let w = self.w(b);
        assert!(lo + len <= w, "extract {}+{} of {}", lo, len, w);
        if lo == 0 && len == w {
            return b;
        }
        let mut bd = Bd::new(len);
        self.push_b(&mut bd, b, lo, len);
        self.finish(bd, len)
    }
    /// concat, lowest first
    pub fn concat(&mut self, parts: &[B]) -> B {
        if parts.len() == 1 {
            return parts[0];
        }
        let w = parts.iter().map(|p| self.w(*p)).sum();
        let mut bd = Bd::new(w);
        for &p in parts {
            let pw = self.w(p);
            self.push_b(&mut bd, p, 0, pw);
        }
        self.finish(bd, w)
    }
    pub fn zext(&mut self, b: B, w: u32) -> B {
        let bw = self.w(b);
        if bw == w {
            return b;
        }
        let z = self.konst(w - bw, 0);
        self.concat(&[b, z])
    }
    pub fn resize(&mut self, b: B, w: u32) -> B {
        let bw = self.w(b);
        if bw >= w {
            self.extract(b, 0, w)
        } else {
            self.zext(b, w)
        }
    }
    pub fn sext(&mut self, b: B, w: u32) -> B {
        let bw = self.w(b);
        if bw == w {
            return b;
        }
        let s = self.extract(b, bw - 1, 1);
        let mut v = vec![b];
        for _ in 0..(w - bw) {
            v.push(s);
        }
        self.concat(&v)
    }
    fn aligned(&self, a: B, b: B) -> Vec<(u32, u32)> {
        // (pos,len) of aligned pieces
        let mut cuts: Vec<u32> = vec![];
        for x in [a, b] {
            let mut p = 0;
            for s in self.bits[x as usize].segs.iter() {
                p += s.0;
                cuts.push(p);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        let mut out = vec![];
        let mut p = 0;
        for c in cuts {
            out.push((p, c - p));
            p = c;
        }
        out
    }
    fn list_at(&self, b: B, pos: u32) -> Vec<(A, u32)> {
        let mut p = 0;
        for s in self.bits[b as usize].segs.iter() {
            if pos < p + s.0 {
                return self.lists[s.1 as usize].iter().map(|(a, o)| (*a, o + pos - p)).collect();
            }
            p += s.0;
        }
        unreachable!()
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "xor width");
        if w == 0 {
            return a;
        }
        let ka = self.bits[a as usize].k.clone();
        let kb = self.bits[b as usize].k.clone();
        let mut bd = Bd::new(w);
        for (p, n) in self.aligned(a, b) {
            let mut l = self.list_at(a, p);
            l.extend(self.list_at(b, p));
            self.push_x(&mut bd, n, l, &|o, m| kget(&ka, p + o, m) ^ kget(&kb, p + o, m));
        }
        let r = self.finish(bd, w);
        if w == 1 {
            if let Some(c) = self.carry_pair(a, b) {
                return c;
            }
        }
        r
    }
    pub fn ones(&mut self, w: u32) -> B {
        let v = vec![u64::MAX; limbs(w).max(1)];
        self.konst_limbs(w, &v)
    }
    pub fn not(&mut self, a: B) -> B {
        let w = self.w(a);
        let o = self.ones(w);
        self.xor(a, o)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let mut parts: Vec<B> = vec![];
        for (p, n) in self.aligned(a, b) {
            let xa = self.extract(a, p, n);
            let xb = self.extract(b, p, n);
            if xa == xb {
                parts.push(xa);
                continue;
            }
            let (ca, cb) = (self.is_const(xa), self.is_const(xb));
            if ca || cb {
                let (c, x) = if ca { (xa, xb) } else { (xb, xa) };
                // by runs of constant bits
                let k = self.bits[c as usize].k.clone();
                let mut o = 0;
                while o < n {
                    let bit = kget(&k, o, 1);
                    let mut e = o + 1;
                    while e < n && kget(&k, e, 1) == bit {
                        e += 1;
                    }
                    if bit == 1 {
                        parts.push(self.extract(x, o, e - o));
                    } else {
                        parts.push(self.konst(e - o, 0));
                    }
                    o = e;
                }
                continue;
            }
            let nx = self.xor(xa, xb);
            let on = self.ones(n);
            if nx == on {
                parts.push(self.konst(n, 0));
                continue;
            }
            let mut xs: Vec<B> = vec![];
            for x in [xa, xb] {
                match self.as_atom(x).map(|a| self.atoms[a as usize].clone()) {
                    Some(Atom::And { xs: ys, .. }) => xs.extend(ys.iter()),
                    _ => xs.push(x),
                }
            }
            if n == 1 {
                // one set of bits to be zero
                let mut zs: Vec<B> = vec![];
                xs.retain(|x| match self.as_atom(*x).map(|a| &self.atoms[a as usize]) {
                    Some(Atom::EqZ { a }) => {
                        zs.push(*a);
                        false
                    }
                    _ => true,
                });
                match self.zero_set(zs) {
                    None => xs = vec![self.konst(1, 0)],
                    Some(z) if self.w(z) > 0 => xs.push(if self.w(z) == 1 { self.not(z) } else {
                        let at = self.atom(Atom::EqZ { a: z });
                        self.whole(at)
                    }),
                    _ => {}
                }
                if xs.len() == 1 {
                    parts.push(xs[0]);
                    continue;
                }
            }
            xs.sort_unstable();
            xs.dedup();
            let at = self.atom(Atom::And { w: n, xs: xs.into() });
            parts.push(self.whole(at));
        }
        self.concat(&parts)
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        // disjoint supports: xor
        if self.disjoint(a, b) {
            return self.xor(a, b);
        }
        if self.w(a) == 1 {
            if let Some(c) = self.carry_pair(a, b) {
                return c;
            }
        }
        let na = self.not(a);
        let nb = self.not(b);
        let r = self.and(na, nb);
        self.not(r)
    }
    /// x: carry of a sum, y: its low word is all ones: the carry of the sum plus one
    fn carry_last(&mut self, x: B, y: B) -> Option<B> {
        match self.as_atom(y).map(|a| &self.atoms[a as usize]) {
            Some(Atom::EqZ { a }) if self.w(*a) >= 8 => {}
            _ => return None,
        }
        let v = &self.bits[x as usize];
        if v.k[0] & 1 != 0 || v.segs.len() != 1 {
            return None;
        }
        let l = &self.lists[v.segs[0].1 as usize];
        if l.len() != 1 {
            return None;
        }
        let (w, ts, c) = match &self.atoms[l[0].0 as usize] {
            Atom::Add { w, terms, c } if l[0].1 + 1 == *w && *w > 8 && terms.iter().all(|t| t.0 == 1) => (*w, terms.to_vec(), *c),
            _ => return None,
        };
        let mut mx = c.checked_add(1)?;
        for (_, t) in ts.iter() {
            mx = mx.checked_add(self.umax(*t))?;
        }
        if mx > mask128(w) {
            return None;
        }
        let lo = self.lin(w - 1, ts.clone(), c & mask128(w - 1));
        let o = self.ones(w - 1);
        if self.eq(lo, o) != y {
            return None;
        }
        let s = self.lin(w, ts, c + 1);
        Some(self.extract(s, w - 1, 1))
    }
    /// carries out of x+y and of its low half plus e (at most one of the two can occur):
    /// the carry out of x+y+e
    fn carry_pair(&mut self, a: B, b: B) -> Option<B> {
        let key = (a.min(b), a.max(b));
        if let Some(r) = self.pair_memo.get(&key) {
            return *r;
        }
        let r = self.carry_pair_(a, b);
        self.pair_memo.insert(key, r);
        r
    }
    fn carry_pair_(&mut self, a: B, b: B) -> Option<B> {
        let top = |s: &Store, x: B| -> Option<(u32, Vec<(u128, B)>, u128)> {
            let v = &s.bits[x as usize];
            if v.k[0] & 1 != 0 || v.segs.len() != 1 {
                return None;
            }
            let l = &s.lists[v.segs[0].1 as usize];
            if l.len() != 1 {
                return None;
            }
            match &s.atoms[l[0].0 as usize] {
                Atom::Add { w, terms, c } if l[0].1 + 1 == *w && *w > 8 && terms.iter().all(|t| t.0 == 1) => Some((*w, terms.to_vec(), *c)),
                _ => None,
            }
        };
        let (wa, ta, ca) = top(self, a)?;
        let (wb, tb, cb) = top(self, b)?;
        if wa != wb {
            return None;
        }
        for ((t, c), (u, d)) in [((&ta, ca), (&tb, cb)), ((&tb, cb), (&ta, ca))] {
            let low: Vec<(u128, B)> = t.clone();
            let lo = self.lin(wa - 1, low, c & mask128(wa - 1));
            let Some(i) = u.iter().position(|e| e.1 == lo) else { continue };
            let mut mx = c.checked_add(d)?;
            for (_, x) in t.iter().chain(u.iter().enumerate().filter(|e| e.0 != i).map(|e| e.1)) {
                mx = mx.checked_add(self.umax(*x))?;
            }
            if mx > mask128(wa) {
                continue;
            }
            let mut ts = t.clone();
            ts.extend(u.iter().enumerate().filter(|e| e.0 != i).map(|e| *e.1));
            let s = self.lin(wa, ts, c + d);
            return Some(self.extract(s, wa - 1, 1));
        }
        None
    }
    fn disjoint(&self, a: B, b: B) -> bool {
        if self.w(a) <= 128 {
            return self.live128(a) & self.live128(b) == 0;
        }
        let ma = self.live_mask(a);
        let mb = self.live_mask(b);
        ma.iter().zip(mb.iter()).all(|(x, y)| x & y == 0)
    }
    /// bits that may be one
    pub fn live_mask(&self, b: B) -> Vec<u64> {
        let x = &self.bits[b as usize];
        let mut k = x.k.to_vec();
        let mut p = 0;
        for (n, xs) in x.segs.iter() {
            if *xs != 0 {
                set_range(&mut k, p, *n);
            }
            p += n;
        }
        k
    }
    /// same as live_mask for at most 128 bits
    fn live128(&self, b: B) -> u128 {
        let x = &self.bits[b as usize];
        let mut v = x.k[0] as u128;
        if x.k.len() > 1 {
            v |= (x.k[1] as u128) << 64;
        }
        let mut p = 0;
        for (n, xs) in x.segs.iter() {
            if *xs != 0 {
                v |= mask128(*n) << p;
            }
            p += n;
        }
        v
    }
    /// known-one bits of the constant segments (at most 128 bits)
    fn ones128(&self, b: B) -> u128 {
        let x = &self.bits[b as usize];
        let mut kv = x.k[0] as u128;
        if x.k.len() > 1 {
            kv |= (x.k[1] as u128) << 64;
        }
        let mut v = 0;
        let mut p = 0;
        for (n, xs) in x.segs.iter() {
            if *xs == 0 {
                v |= kv & (mask128(*n) << p);
            }
            p += n;
        }
        v
    }
    pub fn shl(&mut self, a: B, n: u32) -> B {
        let w = self.w(a);
        if n == 0 {
            return a;
        }
        if n >= w {
            return self.konst(w, 0);
        }
        let z = self.konst(n, 0);
        let l = self.extract(a, 0, w - n);
        self.concat(&[z, l])
    }
    pub fn lshr(&mut self, a: B, n: u32) -> B {
        let w = self.w(a);
        if n == 0 {
            return a;
        }
        if n >= w {
            return self.konst(w, 0);
        }
        let h = self.extract(a, n, w - n);
        self.zext(h, w)
    }
    pub fn ashr(&mut self, a: B, n: u32) -> B {
        let w = self.w(a);
        let n = n.min(w - 1);
        let h = self.extract(a, n, w - n);
        self.sext(h, w)
    }
    pub fn rotl(&mut self, a: B, n: u32) -> B {
        let w = self.w(a);
        let n = n % w;
        if n == 0 {
            return a;
        }
        let lo = self.extract(a, w - n, n);
        let hi = self.extract(a, 0, w - n);
        self.concat(&[lo, hi])
    }
    pub fn bswap(&mut self, a: B) -> B {
        let w = self.w(a);
        let mut v = vec![];
        for i in (0..w / 8).rev() {
            v.push(self.extract(a, i * 8, 8));
        }
        self.concat(&v)
    }
    pub fn umax(&self, b: B) -> u128 {
        let w = self.w(b);
        if w > 128 {
            return u128::MAX;
        }
        let mut v = self.live128(b);
        // zext of an exact sum
        if let Some((_, mx)) = self.sum_range(b) {
            v = v.min(mx);
        }
        v
    }
    pub fn umin(&self, b: B) -> u128 {
        if self.w(b) > 128 {
            return 0;
        }
        let mut v = self.ones128(b);
        if let Some((mn, _)) = self.sum_range(b) {
            v = v.max(mn);
        }
        v
    }
    fn sum_range(&self, b: B) -> Option<(u128, u128)> {
        // b = [known bits][exact Add atom][zeros]
        let x = &self.bits[b as usize];
        let skip = match x.segs.first() {
            Some((n, 0)) if x.segs.len() > 1 => *n,
            _ => 0,
        };
        let segs = &x.segs[(skip > 0) as usize..];
        let l = match segs.len() {
            1 => &self.lists[segs[0].1 as usize],
            2 if segs[1].1 == 0 => &self.lists[segs[0].1 as usize],
            _ => return None,
        };
        if l.len() != 1 || l[0].1 != 0 || self.aw(l[0].0) != segs[0].0 || x.w > 126 {
            return None;
        }
        let known = self.ones128(b);
        if (0..segs[0].0).any(|i| x.k[((skip + i) / 64) as usize] >> ((skip + i) % 64) & 1 == 1) {
            return None;
        }
        let (mn, mx) = self.ainfo[l[0].0 as usize].srange?;
        Some(((mn << skip) | known, (mx << skip) | known))
    }
    /// b as a sum of unsigned terms that does not wrap
    fn exact_terms(&mut self, b: B) -> (Vec<(u128, B)>, u128) {
        if let Some(v) = self.as_const(b) {
            return (vec![], v);
        }
        let w = self.w(b);
        let x = &self.bits[b as usize];
        let top = match x.segs.last() {
            Some((n, 0)) if kget(&x.k, w - n, (*n).min(64)) == 0 && self.ones128(b) >> (w - n) == 0 => *n,
            _ => 0,
        };
        // constant low bits
        let low = match x.segs.first() {
            Some((n, 0)) => *n,
            _ => 0,
        };
        if top > 0 || low > 0 {
            let lo = self.ones128(b) & mask128(low.max(1)) * (low > 0) as u128;
            let core = self.extract(b, low, w - top - low);
            let (mut t, c) = self.exact_terms(core);
            for e in t.iter_mut() {
                e.0 <<= low;
            }
            return (t, (c << low) | lo);
        }
        if let Some(a) = self.as_atom(b) {
            if self.exact_range(a).is_some() {
                if let Atom::Add { terms, c, .. } = self.atoms[a as usize].clone() {
                    return (terms.to_vec(), c);
                }
            }
        }
        (vec![(1, b)], 0)
    }
    /// the constant part of a sum that does not wrap: b = rest + c
    pub fn split_const(&mut self, b: B) -> (B, u128) {
        if self.as_const(b).is_some() {
            return (b, 0);
        }
        let w = self.w(b);
        let top = match self.bits[b as usize].segs.last() {
            Some((n, 0)) => *n,
            _ => 0,
        };
        let hi = if top > 0 && w <= 128 { (self.ones128(b) >> (w - top)) << (w - top) } else { 0 };
        let core = if hi != 0 {
            let l = self.extract(b, 0, w - top);
            self.zext(l, w)
        } else {
            b
        };
        let c = self.exact_terms(core).1;
        if c == 0 {
            return (core, hi);
        }
        let k = self.konst(w, c);
        (self.sub(core, k), hi + c)
    }
    fn exact_range(&self, a: A) -> Option<(u128, u128)> {
        self.ainfo[a as usize].range
    }
    fn compute_range(&self, a: &Atom) -> Option<(u128, u128)> {
        if let Atom::Add { w, terms, c } = a {
            let mut mx = *c;
            let mut mn = *c;
            for (q, t) in terms.iter() {
                mx = mx.checked_add(q.checked_mul(self.umax(*t))?)?;
                mn = mn.checked_add(q.checked_mul(self.umin(*t))?)?;
            }
            if mx <= mask128(*w) {
                return Some((mn, mx));
            }
        }
        None
    }
    fn compute_srange(&self, a: &Atom) -> Option<(u128, u128)> {
        let Atom::Add { w, terms, c } = a else { return None };
        if *w > 120 || terms.len() > 4 {
            return None;
        }
        Self::signed_offset(*w, terms, *c, self).1
    }
    /// multiple of 2^w the integer sum of the signed form exceeds the value by, and the value's bounds
    fn signed_offset(w: u32, terms: &[(u128, B)], c: u128, s: &Store) -> (i128, Option<(u128, u128)>) {
        let f = || -> Option<(i128, (u128, u128))> {
            let m = 1i128 << w;
            let (mut lo, mut hi) = (c as i128, c as i128);
            for (q, t) in terms.iter() {
                let q = if *q as i128 >= m / 2 { *q as i128 - m } else { *q as i128 };
                let (mn, mx) = (i128::try_from(s.umin(*t)).ok()?, i128::try_from(s.umax(*t)).ok()?);
                let (x, y) = (q.checked_mul(mn)?, q.checked_mul(mx)?);
                lo = lo.checked_add(x.min(y))?;
                hi = hi.checked_add(x.max(y))?;
            }
            let k = lo.div_euclid(m);
            if hi.div_euclid(m) != k {
                return None;
            }
            Some((k, ((lo - k * m) as u128, (hi - k * m) as u128)))
        };
        match f() {
            Some((k, r)) => (k, Some(r)),
            None => (0, None),
        }
    }
    pub fn add(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        self.lin(w, vec![(1, a), (1, b)], 0)
    }
    pub fn sub(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        self.lin(w, vec![(1, a), (mask128(w), b)], 0)
    }
    pub fn addc(&mut self, a: B, c: u128) -> B {
        let w = self.w(a);
        self.lin(w, vec![(1, a)], c)
    }
    /// (c + sum coef*term) mod 2^w; terms are unsigned values of any width <= w
    pub fn lin(&mut self, w: u32, terms: Vec<(u128, B)>, c: u128) -> B {
        assert!(w <= 128 && w > 0);
        let m = mask128(w);
        let mut c = c & m;
        let mut acc: Vec<(u128, B)> = vec![];
        let mut work = terms;
        loop {
            let Some((q, t)) = work.pop() else {
                // merged coefficients may have become even: only the low bits of the term matter
                let mut again = false;
                let mut i = 0;
                while i < acc.len() {
                    let (q, t) = acc[i];
                    if q == 0 || self.w(t) > w - q.trailing_zeros().min(w - 1) {
                        acc.swap_remove(i);
                        if q != 0 {
                            work.push((q, t));
                            again = true;
                        }
                    } else {
                        i += 1;
                    }
                }
                if again {
                    continue;
                }
                break;
            };
            let q = q & m;
            if q == 0 {
                continue;
            }
            let tw = self.w(t);
            debug_assert!(tw <= w);
            if let Some(v) = self.as_const(t) {
                c = c.wrapping_add(q.wrapping_mul(v)) & m;
                continue;
            }
            let bits = self.bits[t as usize].clone();
            // split off constant segments
            let cpart = self.ones128(t);
            if cpart != 0 {
                c = c.wrapping_add(q.wrapping_mul(cpart)) & m;
                let kb = self.konst(tw, cpart);
                let t2 = self.xor(t, kb);
                work.push((q, t2));
                continue;
            }
            // leading zero segments
            if let Some((n, 0)) = bits.segs.last().copied() {
                let t2 = self.extract(t, 0, tw - n);
                work.push((q, t2));
                continue;
            }
            // trailing zero segment
            if let Some((n, 0)) = bits.segs.first().copied() {
                let t2 = self.extract(t, n, tw - n);
                let q2 = if n >= 128 { 0 } else { q << n };
                work.push((q2, t2));
                continue;
            }
            if bits.segs.len() == 1 {
                // complement
                let all1 = kget128(&bits.k, tw) == mask128(tw);
                if all1 {
                    let t2 = self.not(t);
                    c = c.wrapping_add(q.wrapping_mul(mask128(tw))) & m;
                    work.push((q.wrapping_neg() & m, t2));
                    continue;
                }
                if let Some(a) = self.as_atom(t) {
                    if let Atom::Add { w: aw, terms: ts, c: ac } = self.atoms[a as usize].clone() {
                        // flatten when q*2^aw == 0 mod 2^w, or the inner sum is exact
                        let tz = q.trailing_zeros();
                        if aw + tz < w && self.exact_range(a).is_none() && self.ainfo[a as usize].srange.is_some() {
                            // value = c - k*2^aw + sum of signed multiples, without wrapping
                            let (k, _) = Self::signed_offset(aw, &ts, ac, self);
                            let off = (ac as i128 - (k << aw)) as u128;
                            c = c.wrapping_add(q.wrapping_mul(off)) & m;
                            for (q2, t2) in ts.iter() {
                                let s2 = if *q2 as i128 >= 1i128 << (aw - 1) { (*q2 as i128 - (1i128 << aw)) as u128 } else { *q2 };
                                work.push((q.wrapping_mul(s2) & m, *t2));
                            }
                            continue;
                        }
                        if aw + tz >= w || self.exact_range(a).is_some() {
                            c = c.wrapping_add(q.wrapping_mul(ac)) & m;
                            for (q2, t2) in ts.iter() {
                                let mut t2 = *t2;
                                if self.w(t2) > w {
                                    t2 = self.extract(t2, 0, w);
                                }
                                work.push((q.wrapping_mul(*q2) & m, t2));
                            }
                            continue;
                        }
                    }
                }
            }
            // effective truncation: q*t mod 2^w only needs low w - tz(q) bits of t
            let need = w - q.trailing_zeros().min(w - 1);
            if tw > need {
                let t2 = self.extract(t, 0, need);
                work.push((q, t2));
                continue;
            }
            if let Some(e) = acc.iter_mut().find(|e| e.1 == t) {
                e.0 = e.0.wrapping_add(q) & m;
            } else {
                acc.push((q, t));
            }
        }
        acc.retain(|e| e.0 != 0);
        if acc.is_empty() {
            return self.konst(w, c);
        }
        if w <= 64 && (acc.len() > BIG || acc.iter().any(|e| self.as_big(e.1).map_or(false, |b| b.1 == w))) {
            return self.big_sum(w, acc, c);
        }
        // merge disjoint power-of-two terms into one value
        if acc.len() > 1 {
            acc.sort_unstable_by_key(|e| e.1);
            let lives: Vec<u128> = acc
                .iter()
                .map(|(q, t)| if q.is_power_of_two() { (self.live128(*t) << q.trailing_zeros()) & m } else { u128::MAX })
                .collect();
            let mut i = 0;
            while i < acc.len() {
                let mut j = i + 1;
                let mut merged = false;
                while j < acc.len() {
                    let (qi, ti) = acc[i];
                    let (qj, tj) = acc[j];
                    if lives[i] & lives[j] == 0 && qi.is_power_of_two() && qj.is_power_of_two() {
                        let vi = {
                            let z = self.zext(ti, w);
                            self.shl(z, qi.trailing_zeros())
                        };
                        let vj = {
                            let z = self.zext(tj, w);
                            self.shl(z, qj.trailing_zeros())
                        };
                        if self.disjoint(vi, vj) {
                            let v = self.xor(vi, vj);
                            acc.remove(j);
                            acc.remove(i);
                            // re-normalise through recursion
                            acc.push((1, v));
                            merged = true;
                            break;
                        }
                    }
                    j += 1;
                }
                if merged {
                    // strip zeros of merged entry and restart
                    let ts = acc.clone();
                    return self.lin_merged(w, ts, c);
                }
                i += 1;
            }
        }
        self.lin_finish(w, acc, c)
    }
    /// (id, width) of a fingerprinted sum
    fn as_big(&self, t: B) -> Option<(u32, u32)> {
        match self.as_atom(t).map(|a| &self.atoms[a as usize]) {
            Some(Atom::Big { w, id }) => Some((*id, *w)),
            _ => None,
        }
    }
    /// Linear forms over Z/2^w are free modules over their terms; mapping every term to a
    /// pseudo-random vector is linear, so equal forms have equal fingerprints and different
    /// forms have different ones except with negligible probability.
    fn big_sum(&mut self, w: u32, acc: Vec<(u128, B)>, c: u128) -> B {
        let (fp, c) = self.fingerprint(w, &acc, c);
        if fp.iter().all(|e| *e == 0) {
            return self.konst(w, c);
        }
        let key = (w, c, fp);
        if let Some(a) = self.summap.get(&key) {
            return self.whole(*a);
        }
        let id = self.bigs.len() as u32;
        self.bigs.push(BigSum { fp: key.2.clone(), c, parts: acc.into() });
        let a = self.atom(Atom::Big { w, id });
        self.summap.insert(key, a);
        self.whole(a)
    }
    fn fingerprint(&mut self, w: u32, acc: &[(u128, B)], c: u128) -> (Box<[u64; FPW]>, u128) {
        let m = mask128(w);
        let mut c = c;
        let mut fp = Box::new([0u64; FPW]);
        for (q, t) in acc {
            if let Some((id, bw)) = self.as_big(*t) {
                if bw == w {
                    let b = &self.bigs[id as usize];
                    c = c.wrapping_add(q.wrapping_mul(b.c)) & m;
                    for i in 0..FPW {
                        fp[i] = fp[i].wrapping_add((*q as u64).wrapping_mul(b.fp[i]));
                    }
                    continue;
                }
            }
            self.generator(*t);
            let (g, k) = &self.gens[t];
            c = c.wrapping_add(q.wrapping_mul(*k)) & m;
            for i in 0..FPW {
                fp[i] = fp[i].wrapping_add((*q as u64).wrapping_mul(g[i]));
            }
        }
        for e in fp.iter_mut() {
            *e &= m as u64;
        }
        (fp, c)
    }
    /// pseudo-random vector of a term, composed from its bits (x ^ k = k + (1 - 2k) x), so that
    /// truncating, complementing, splitting and merging terms all agree; and the constant part
    fn generator(&mut self, t: B) {
        if self.gens.contains_key(&t) {
            return;
        }
        let mut g = Box::new([0u64; FPW]);
        let mut k = 0u128;
        let bits = self.bits[t as usize].clone();
        let lim = self.w(t).min(64);
        let mut pos = 0;
        for (sl, x) in bits.segs.iter() {
            let mut i = pos;
            pos += sl;
            let n0 = self.lists[*x as usize].len();
            while i < pos && i < lim {
                let d = i - (pos - sl);
                let plain = (0..n0).all(|j| {
                    let (a, o) = self.lists[*x as usize][j];
                    self.nwidth(a, o + d + 1).is_none()
                });
                // the bit's canonical xor list (extracting it may narrow sums), and its constant
                let (list, d, one) = if plain {
                    (*x, d, kget(&bits.k, i, 1) == 1)
                } else {
                    let p = self.extract(t, i, 1);
                    (self.bits[p as usize].segs[0].1, 0, self.bits[p as usize].k[0] & 1 == 1)
                };
                let mut q = 1u64 << i;
                if one {
                    k |= 1 << i;
                    q = q.wrapping_neg();
                }
                i += 1;
                let l = &self.lists[list as usize];
                if l.is_empty() {
                    continue;
                }
                let (mut z, mut z2) = (0x243F_6A88_85A3_08D3u64, 0x1319_8A2E_0370_7344u64);
                for (a, o) in l {
                    let v = (*a as u64) << 32 | (*o + d) as u64;
                    z = smix(z ^ v);
                    z2 = smix(z2.wrapping_add(v.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)));
                }
                for e in g.iter_mut() {
                    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    z2 = z2.rotate_left(23).wrapping_add(z);
                    *e = e.wrapping_add(q.wrapping_mul(smix(z ^ z2)));
                }
            }
        }
        self.gens.insert(t, (g, k));
    }
    fn lin_merged(&mut self, w: u32, ts: Vec<(u128, B)>, c: u128) -> B {
        if ts.len() == 1 && c == 0 && ts[0].0 == 1 {
            return self.zext(ts[0].1, w);
        }
        self.lin(w, ts, c)
    }
    fn lin_finish(&mut self, w: u32, mut acc: Vec<(u128, B)>, c: u128) -> B {
        let m = mask128(w);
        if acc.len() == 1 {
            let (q, t) = acc[0];
            if c == 0 && q.is_power_of_two() {
                let s = q.trailing_zeros();
                let tw = self.w(t);
                let tt = if tw + s > w { self.extract(t, 0, w - s) } else { t };
                let z = self.zext(tt, w);
                return self.shl(z, s);
            }
            if q.is_power_of_two() && w <= 128 {
                let sh = q.trailing_zeros();
                let tw = self.w(t);
                let tt = if tw + sh > w { self.extract(t, 0, w - sh) } else { t };
                let z = self.zext(tt, w);
                let v = self.shl(z, sh);
                let l = self.live128(v);
                if l & c == 0 {
                    let kb = self.konst(w, c);
                    return self.xor(v, kb);
                }
            }
            // -t - 1  == ~t
            if q == m && c == m {
                let z = self.zext(t, w);
                return self.not(z);
            }
            // (2^k-1) - t with k == width(t)
            let tw = self.w(t);
            if q == m && c == mask128(tw) {
                let nt = self.not(t);
                return self.zext(nt, w);
            }
        }
        // minimal width
        let mut mx: Option<u128> = Some(c);
        for (q, t) in &acc {
            mx = mx.and_then(|v| q.checked_mul(self.umax(*t)).and_then(|x| v.checked_add(x)));
        }
        if let Some(v) = mx {
            let k = 128 - v.leading_zeros();
            if k < w {
                let r = self.lin(k.max(1), acc, c);
                return self.zext(r, w);
            }
        }
        // constant high bits
        if w <= 120 && w > 1 && acc.len() <= 4 {
            if let (_, Some((lo, hi))) = Self::signed_offset(w, &acc, c, self) {
                let k = (128 - (lo ^ hi).leading_zeros()).max(1);
                if k < w {
                    let ts: Vec<(u128, B)> = acc
                        .iter()
                        .map(|(q, t)| {
                            let tw = self.w(*t).min(k);
                            (q & mask128(k), self.extract(*t, 0, tw))
                        })
                        .collect();
                    let l = self.lin(k, ts, c & mask128(k));
                    let h = self.konst(w - k, lo >> k);
                    return self.concat(&[l, h]);
                }
            }
        }
        // constant-only prefix (all terms shifted)
        let minz = acc.iter().map(|e| e.0.trailing_zeros()).min().unwrap();
        if minz > 0 {
            let lo = self.konst(minz, c);
            let ts: Vec<(u128, B)> = acc.iter().map(|(q, t)| (q >> minz, *t)).collect();
            // widths: term may exceed w-minz
            let ts2: Vec<(u128, B)> = ts
                .into_iter()
                .map(|(q, t)| {
                    let tw = self.w(t).min(w - minz);
                    (q, self.extract(t, 0, tw))
                })
                .collect();
            let hi = self.lin(w - minz, ts2, c >> minz);
            return self.concat(&[lo, hi]);
        }
        // pass-through prefix: exactly one symbolic term below s, others (>=1 symbolic) above
        if acc.len() > 1 {
            let mut z: Vec<(u32, usize)> = acc.iter().enumerate().map(|(i, e)| (e.0.trailing_zeros(), i)).collect();
            z.sort();
            let s = z[1].0.min(if c == 0 { 128 } else { c.trailing_zeros() });
            let i0 = z[0].1;
            if s > 0 && acc[i0].0 == 1 && z[0].0 == 0 {
                let t = acc[i0].1;
                let tw = self.w(t);
                if tw > s {
                    let lo = self.extract(t, 0, s);
                    let mut ts: Vec<(u128, B)> = vec![];
                    for (i, (q, x)) in acc.iter().enumerate() {
                        if i == i0 {
                            let h = self.extract(t, s, tw - s);
                            ts.push((1, h));
                        } else {
                            let xw = self.w(*x).min(w - s);
                            let x2 = self.extract(*x, 0, xw);
                            ts.push((q >> s, x2));
                        }
                    }
                    let hi = self.lin(w - s, ts, c >> s);
                    return self.concat(&[lo, hi]);
                }
            }
        }
        // carry recognition: x + carry(y+z)  ->  high half of (x:y)+(0:z)
        if acc.len() == 2 && acc.iter().all(|e| e.0 == 1) {
            for i in 0..2 {
                let (cb, x) = (acc[i].1, acc[1 - i].1);
                // (a constant above the bits of x only)
                if c & mask128(self.w(x)) == 0 && self.w(cb) == 1 && (self.w(x) == w || self.w(x) > 8 && self.w(x) != 32 && self.w(x) != 64) {
                    if let Some((y, z, zc, yw)) = self.as_carry(cb) {
                        if yw + w <= 128 {
                            let xz = self.zext(x, w);
                            let cat = self.concat(&[y, xz]);
                            let mut ts = vec![(1, cat)];
                            if let Some(z) = z {
                                ts.push((1, z));
                            }
                            let wide = self.lin_nocarry(yw + w, ts, zc + (c << yw));
                            return self.extract(wide, yw, w);
                        }
                    }
                }
            }
        }
        // two carries of one sum added up
        for i in 0..if acc.len() == 3 && c == 0 && (w == 32 || w == 64) { acc.len() } else { 0 } {
            for j in 0..i {
                let ((p, x), (q, y)) = (acc[i], acc[j]);
                if p != q || self.w(x) != 1 || self.w(y) != 1 {
                    continue;
                }
                let r = match self.carry_pair(x, y) {
                    None => self.carry_last(x, y).or_else(|| self.carry_last(y, x)),
                    r => r,
                };
                if let Some(r) = r {
                    acc.swap_remove(i);
                    acc.swap_remove(j);
                    acc.push((p, r));
                    return self.lin(w, acc, c);
                }
            }
        }
        // the high word of a two-word sum within a longer sum: high words plus carry
        if (w == 32 || w == 64) && (acc.len() > 1 || c != 0) {
            for i in 0..acc.len() {
                if let Some((ts, cc)) = self.as_high(acc[i].1, w) {
                    let q = acc[i].0;
                    let mut l = acc.clone();
                    l.swap_remove(i);
                    let c2 = c.wrapping_add(q.wrapping_mul(cc)) & m;
                    l.extend(ts.into_iter().map(|t| (q, t)));
                    return self.lin(w, l, c2);
                }
            }
        }
        acc.sort_unstable_by_key(|e| e.1);
        let at = Atom::Add { w, terms: acc.into(), c };
        if let Some(a) = self.amap.find(hash_of(&at), |i| self.atoms[i as usize] == at) {
            return self.whole(a);
        }
        if w > 64 {
            let a = self.atom(at);
            return self.whole(a);
        }
        // the same linear form may have been split into terms differently before
        let Atom::Add { terms, .. } = &at else { unreachable!() };
        let (fp, fc) = self.fingerprint(w, &terms.clone(), c);
        let key = (w, fc, fp);
        if let Some(a) = self.summap.get(&key) {
            return self.whole(*a);
        }
        let a = self.atom(at);
        self.summap.insert(key, a);
        self.whole(a)
    }
    fn lin_nocarry(&mut self, w: u32, ts: Vec<(u128, B)>, c: u128) -> B {
        self.lin(w, ts, c)
    }
    /// t = (y + z + c)[w..2w]: its value as a sum of w-bit terms and a constant
    fn as_high(&mut self, t: B, w: u32) -> Option<(Vec<B>, u128)> {
        let x = &self.bits[t as usize];
        if x.w != w || x.segs.len() != 1 || x.k.iter().any(|v| *v != 0) {
            return None;
        }
        let l = &self.lists[x.segs[0].1 as usize];
        if l.len() != 1 || l[0].1 != w {
            return None;
        }
        let Atom::Add { w: aw, terms, c } = self.atoms[l[0].0 as usize].clone() else { return None };
        if aw != 2 * w || terms.iter().any(|q| q.0 != 1) || terms.len() + (c != 0) as usize != 2 {
            return None;
        }
        let mut hi = vec![];
        let mut lo = vec![];
        for (_, t) in terms.iter() {
            let tw = self.w(*t);
            let n = tw.min(w);
            lo.push((1, self.extract(*t, 0, n)));
            if tw > w {
                hi.push(self.extract(*t, w, tw - w));
            }
        }
        let s = self.lin(w + 1, lo, c & mask128(w));
        hi.push(self.extract(s, w, 1));
        Some((hi, c >> w))
    }
    /// if `cb` (1 bit) is the carry-out of y+z (yw-bit operands): (y, Some z, const, yw)
    fn as_carry(&mut self, cb: B) -> Option<(B, Option<B>, u128, u32)> {
        if let Some(at) = self.as_atom(cb) {
            if let Atom::EqZ { a } = self.atoms[at as usize] {
                // y == 2^n-1  <=>  carry of y + 1
                let w = self.w(a);
                let n = self.not(a);
                let all = self.bits[n as usize].k.iter().all(|v| *v == 0) && self.bits[n as usize].segs.iter().all(|s| s.1 != 0);
                if all && w >= 8 {
                    return Some((n, None, 1, w));
                }
                // y + d == 2^n-1 for a small d: the carry of (y + d) + 1
                let b = &self.bits[a as usize];
                if (w == 32 || w == 64) && b.segs.len() == 1 && self.lists[b.segs[0].1 as usize].len() == 1 {
                    let k = kget128(&b.k, w);
                    let d = mask128(w) - k;
                    if d <= 16 {
                        let kb = self.konst(w, k);
                        let t = self.xor(a, kb);
                        let y = self.lin(w, vec![(1, t)], d);
                        return Some((y, None, 1, w));
                    }
                }
            }
        }
        let x = &self.bits[cb as usize];
        if x.w != 1 || x.k[0] != 0 || x.segs.len() != 1 {
            return None;
        }
        let l = &self.lists[x.segs[0].1 as usize];
        if l.len() != 1 {
            return None;
        }
        let (a, lo) = l[0];
        if let Atom::Add { w, terms, c } = &self.atoms[a as usize] {
            if lo + 1 != *w || lo == 0 {
                return None;
            }
            let yw = lo;
            match terms.len() {
                1 if terms[0].0 == 1 && self.w(terms[0].1) == yw && *c <= mask128(yw) => Some((terms[0].1, None, *c, yw)),
                2 if *c == 0 && terms.iter().all(|t| t.0 == 1) => {
                    let (p, q) = (terms[0].1, terms[1].1);
                    if self.w(p) > yw || self.w(q) > yw {
                        None
                    } else if self.w(p) == yw {
                        Some((p, Some(q), 0, yw))
                    } else if self.w(q) == yw {
                        Some((q, Some(p), 0, yw))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        } else {
            None
        }
    }
    fn sigw(&self, b: B) -> u32 {
        let x = &self.bits[b as usize];
        match x.segs.last() {
            Some((n, 0)) if x.segs.len() > 1 => {
                // constant top: count zeros
                let mut w = x.w;
                let lo = x.w - n;
                while w > lo && (x.k[((w - 1) / 64) as usize] >> ((w - 1) % 64)) & 1 == 0 {
                    w -= 1;
                }
                w
            }
            _ => x.w,
        }
    }
    pub fn mul(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        self.mul_w(w, a, b)
    }
    fn mul_w(&mut self, w: u32, a: B, b: B) -> B {
        assert!(w <= 128);
        if let Some(c) = self.as_const(a) {
            return self.lin(w, vec![(c, b)], 0);
        }
        if let Some(c) = self.as_const(b) {
            return self.lin(w, vec![(c, a)], 0);
        }
        let (sa, sb) = (self.sigw(a), self.sigw(b));
        if sa + sb < w {
            let a2 = self.extract(a, 0, sa);
            let b2 = self.extract(b, 0, sb);
            let r = self.mul_w(sa + sb, a2, b2);
            return self.zext(r, w);
        }
        let a2 = {
            let n = sa.min(w);
            self.extract(a, 0, n)
        };
        let b2 = {
            let n = sb.min(w);
            self.extract(b, 0, n)
        };
        let (x, y) = if a2 <= b2 { (a2, b2) } else { (b2, a2) };
        let at = self.atom(Atom::Mul { w, a: x, b: y });
        self.whole(at)
    }
    pub fn eqz(&mut self, a: B) -> B {
        let w = self.w(a);
        if w == 1 {
            return self.not(a);
        }
        if self.is_const(a) {
            let z = self.bits[a as usize].k.iter().all(|v| *v == 0);
            return self.konst(1, z as u128);
        }
        let bits = self.bits[a as usize].clone();
        // known one
        let mut p = 0;
        let mut live: Vec<B> = vec![];
        for (n, xs) in bits.segs.iter() {
            if *xs == 0 {
                for i in p..p + n {
                    if (bits.k[(i / 64) as usize] >> (i % 64)) & 1 == 1 {
                        return self.konst(1, 0);
                    }
                }
            } else {
                live.push(self.extract(a, p, *n));
            }
            p += n;
        }
        if w <= 128 && self.umin(a) > 0 {
            return self.konst(1, 0);
        }
        for l in &live {
            if self.w(*l) <= 128 && self.umin(*l) > 0 {
                return self.konst(1, 0);
            }
        }
        // t + c == k
        for i in 0..live.len() {
            while let Some(x) = self.solved(live[i]) {
                match x {
                    Some(t) => live[i] = t,
                    None => return self.konst(1, 0),
                }
            }
        }
        match self.zero_set(live) {
            None => self.konst(1, 0),
            Some(c) if self.w(c) == 1 => self.not(c),
            Some(c) => {
                let at = self.atom(Atom::EqZ { a: c });
                self.whole(at)
            }
        }
    }
    /// a whole sum of one term xor a constant: what has to be zero instead (None: never zero)
    fn solved(&mut self, x: B) -> Option<Option<B>> {
        let v = &self.bits[x as usize];
        if v.w > 128 || v.segs.len() != 1 {
            return None;
        }
        let [(a, 0)] = self.lists[v.segs[0].1 as usize] else { return None };
        let k = kget128(&v.k, v.w);
        let (t, v) = match &self.atoms[a as usize] {
            Atom::Add { w, terms, c } if *w == v.w && terms.len() == 1 => match terms[0] {
                (1, t) => (t, k.wrapping_sub(*c) & mask128(*w)),
                (q, t) if q == mask128(*w) => (t, c.wrapping_sub(k) & mask128(*w)),
                _ => return None,
            },
            _ => return None,
        };
        let tw = self.w(t);
        if v & !mask128(tw) != 0 {
            return Some(None);
        }
        let kb = self.konst(tw, v);
        Some(Some(self.xor(t, kb)))
    }
    /// the bits that all have to be zero, in canonical order and without repetition
    /// (None: a bit would have to be both)
    fn zero_set(&mut self, parts: Vec<B>) -> Option<B> {
        let mut g: Vec<(Vec<(A, i64)>, u32, u32, B)> = vec![];
        for x in parts {
            let bits = self.bits[x as usize].clone();
            let mut p = 0;
            for (n, xs) in bits.segs.iter() {
                let e = self.extract(x, p, *n);
                let l = &self.lists[*xs as usize];
                let base = l.first().map_or(0, |f| f.1);
                g.push((l.iter().map(|f| (f.0, f.1 as i64 - base as i64)).collect(), base, *n, e));
                p += n;
            }
        }
        g.sort();
        let mut out: Vec<B> = vec![];
        let mut i = 0;
        while i < g.len() {
            // pieces of the same xor of atoms: merge and compare where they overlap
            let (mut start, mut end, mut acc) = (g[i].1, g[i].1 + g[i].2, g[i].3);
            let mut j = i + 1;
            while j < g.len() && g[j].0 == g[i].0 {
                let (b, n, x) = (g[j].1, g[j].2, g[j].3);
                if b >= end {
                    out.push(acc);
                    (start, end, acc) = (b, b + n, x);
                } else {
                    let o = n.min(end - b);
                    if self.extract(acc, b - start, o) != self.extract(x, 0, o) {
                        return None;
                    }
                    if o < n {
                        let r = self.extract(x, o, n - o);
                        acc = self.concat(&[acc, r]);
                        end = b + n;
                    }
                }
                j += 1;
            }
            out.push(acc);
            i = j;
        }
        for x in &out {
            if self.excluded(*x) {
                return None;
            }
        }
        Some(self.concat(&out))
    }
    /// the bits are a sum xor a constant the sum cannot equal
    fn excluded(&self, x: B) -> bool {
        let v = &self.bits[x as usize];
        if v.w > 128 || v.segs.len() != 1 {
            return false;
        }
        let l = &self.lists[v.segs[0].1 as usize];
        let lo = l.first().map_or(0, |e| e.1);
        if l.len() != 1 || lo + v.w != self.aw(l[0].0) || lo >= 128 {
            return false;
        }
        let k = kget128(&v.k, v.w);
        let i = &self.ainfo[l[0].0 as usize];
        [i.range, i.srange].iter().flatten().any(|r| k < r.0 >> lo || k > r.1 >> lo)
    }
    /// c says that some of the bits are zero that a (or a conjunct of it) says are zero
    pub fn implies_zero(&mut self, a: B, c: B) -> bool {
        let z = |s: &Store, x: B| match s.as_atom(x).map(|a| &s.atoms[a as usize]) {
            Some(Atom::EqZ { a }) => Some(*a),
            _ => None,
        };
        let Some(zc) = z(self, c) else { return false };
        let mut from: Vec<B> = z(self, a).into_iter().collect();
        if let Some(xs) = self.conjuncts(a) {
            from.extend(xs.iter().filter_map(|x| z(self, *x)));
        }
        from.into_iter().any(|f| self.w(f) > self.w(zc) && self.zero_set(vec![f, zc]) == Some(f))
    }
    pub fn conjuncts(&self, x: B) -> Option<&[B]> {
        match self.as_atom(x).map(|a| &self.atoms[a as usize]) {
            Some(Atom::And { xs, .. }) => Some(xs),
            _ => None,
        }
    }
    pub fn eq(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(1, 1);
        }
        if w <= 128 {
            if self.umax(a) < self.umin(b) || self.umin(a) > self.umax(b) {
                return self.konst(1, 0);
            }
            let has_add = |s: &Store, x: B| matches!(s.as_atom(x).map(|a| &s.atoms[a as usize]), Some(Atom::Add { .. }));
            if has_add(self, a) || has_add(self, b) {
                let d = self.sub(a, b);
                if let Some(v) = self.as_const(d) {
                    return self.konst(1, (v == 0) as u128);
                }
                if let Some(at) = self.as_atom(d) {
                    if let Atom::Add { w: aw, terms, c } = self.atoms[at as usize].clone() {
                        if terms.len() == 1 && aw == w && (terms[0].0 == 1 || terms[0].0 == mask128(w)) {
                            let v = if terms[0].0 == 1 { c.wrapping_neg() & mask128(w) } else { c };
                            let t = self.zext(terms[0].1, w);
                            let kb = self.konst(w, v);
                            let x = self.xor(t, kb);
                            return self.eqz(x);
                        }
                    }
                }
            }
        }
        let x = self.xor(a, b);
        self.eqz(x)
    }
    pub fn ult(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(1, 0);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if w <= 128 {
            if self.umax(a) < self.umin(b) {
                return self.konst(1, 1);
            }
            if self.umin(a) >= self.umax(b) {
                return self.konst(1, 0);
            }
            // the same high bits on both sides
            let x = self.xor(a, b);
            if let Some((n, 0)) = self.bits[x as usize].segs.last().copied() {
                if kget128(&self.bits[x as usize].k, w) >> (w - n) == 0 {
                    let (p, q) = (self.extract(a, 0, w - n), self.extract(b, 0, w - n));
                    return self.ult(p, q);
                }
            }
            // constant low bits on both sides
            let low = |s: &Store, x: B| s.bits[x as usize].segs.first().map_or(0, |e| if e.1 == 0 { e.0 } else { 0 });
            let n = low(self, a).min(low(self, b));
            if n > 0 && n < w {
                let lt = self.ones128(a) & mask128(n) < self.ones128(b) & mask128(n);
                let (p, q) = (self.extract(a, n, w - n), self.extract(b, n, w - n));
                if lt {
                    let r = self.ult(q, p);
                    return self.not(r);
                }
                return self.ult(p, q);
            }
            // a < 2^k  <=>  high bits zero
            if let Some(v) = self.as_const(b) {
                if v.is_power_of_two() {
                    let k = v.trailing_zeros();
                    let hi = self.extract(a, k, w - k);
                    return self.eqz(hi);
                }
            }
            // a < 2^w-1
            if w > 1 && self.as_const(b) == Some(mask128(w)) {
                let n = self.not(a);
                let z = self.eqz(n);
                return self.not(z);
            }
            // 2^k-1 < b
            if let Some(v) = self.as_const(a) {
                if (v + 1).is_power_of_two() {
                    let k = (v + 1).trailing_zeros();
                    if k < w {
                        let hi = self.extract(b, k, w - k);
                        let z = self.eqz(hi);
                        return self.not(z);
                    }
                }
            }
            // (x + y) < x : carry
            if let Some(at) = self.as_atom(a) {
                if let Atom::Add { w: aw, terms, c } = self.atoms[at as usize].clone() {
                    if aw == w && terms.iter().all(|t| t.0 == 1) && terms.iter().any(|t| t.1 == b) && self.w(b) == w {
                        if (terms.len() == 2 && c == 0) || terms.len() == 1 {
                            let s = self.lin(w + 1, terms.to_vec(), c);
                            return self.extract(s, w, 1);
                        }
                    }
                    // x + c < k  with k <= c (unsigned wrap test): carry as well
                    if let Some(v) = self.as_const(b) {
                        if aw == w && terms.len() == 1 && terms[0].0 == 1 && v == c && self.w(terms[0].1) == w {
                            let s = self.lin(w + 1, terms.to_vec(), c);
                            return self.extract(s, w, 1);
                        }
                    }
                }
            }
            // sums that cannot wrap: every term of b also occurs in a
            {
                let (ta, ca) = self.exact_terms(a);
                let (tb, cb) = self.exact_terms(b);
                let covers = |x: &[(u128, B)], y: &[(u128, B)]| y.iter().all(|(q, t)| x.iter().any(|(p, u)| u == t && p >= q));
                if ca >= cb && covers(&ta, &tb) {
                    return self.konst(1, 0);
                }
                if cb > ca && covers(&tb, &ta) {
                    return self.konst(1, 1);
                }
            }
            // a = b + d, or b = a + d, without wrapping
            if w < 128 {
                let sumlike = |s: &Store, x: B| {
                    let v = &s.bits[x as usize];
                    v.segs.len() <= 2 && v.segs.last().map_or(false, |e| v.segs.len() == 1 || e.1 == 0) && v.segs[0].1 != 0 && {
                        let l = &s.lists[v.segs[0].1 as usize];
                        l.len() == 1 && l[0].1 == 0 && matches!(s.atoms[l[0].0 as usize], Atom::Add { .. })
                    }
                };
                if sumlike(self, a) || sumlike(self, b) {
                    let d = self.sub(a, b);
                    if self.umax(b) + self.umax(d) <= mask128(w) {
                        return self.konst(1, 0);
                    }
                    let d = self.sub(b, a);
                    if self.umax(a) + self.umax(d) <= mask128(w) {
                        let z = self.eqz(d);
                        return self.not(z);
                    }
                }
            }
            // wrap tests on sums: a = b + d mod 2^w, so a < b is the carry out of b + d
            if w >= 8 && w < 128 {
                let is_sum = |s: &Store, x: B| matches!(s.as_atom(x).map(|a| &s.atoms[a as usize]), Some(Atom::Add { .. } | Atom::Big { .. }));
                if let Some((id, bw)) = self.as_big(a) {
                    // a = b + t for one of the parts t of a
                    let ps = if bw == w { self.bigs[id as usize].parts.clone() } else { [].into() };
                    let (tb, cb) = match self.as_atom(b).map(|x| self.atoms[x as usize].clone()) {
                        Some(Atom::Add { w: bw, terms, c }) if bw == w => (terms.to_vec(), c),
                        _ => (vec![(1, b)], 0),
                    };
                    let (fb, cb) = self.fingerprint(w, &tb, cb);
                    for t in ps.iter().filter(|e| e.0 == 1 && self.as_big(e.1).is_none()).map(|e| e.1).collect::<Vec<_>>() {
                        let (ft, ct) = self.fingerprint(w, &[(1, t)], 0);
                        let s = &self.bigs[id as usize];
                        let m = mask128(w);
                        // a = b + t + c with t + c below 2^w
                        let c = s.c.wrapping_sub(ct).wrapping_sub(cb) & m;
                        if self.umax(t).checked_add(c).map_or(false, |v| v <= m) && (0..FPW).all(|i| (ft[i].wrapping_add(fb[i]) ^ s.fp[i]) & m as u64 == 0) {
                            let s = self.lin(w + 1, vec![(1, b), (1, t)], c);
                            return self.extract(s, w, 1);
                        }
                    }
                }
                if is_sum(self, a) {
                    let d = self.sub(a, b);
                    if let Some(v) = self.as_const(d) {
                        if is_sum(self, b) {
                            let s = self.lin(w + 1, vec![(1, b)], v);
                            return self.extract(s, w, 1);
                        }
                    } else {
                        let nt = |s: &Store, x: B| match s.as_atom(x).map(|a| &s.atoms[a as usize]) {
                            Some(Atom::Add { terms, c, .. }) => terms.len() + (*c != 0) as usize,
                            Some(Atom::Big { .. }) => 99,
                            _ => 1,
                        };
                        if nt(self, d) < nt(self, a) {
                            let s = self.lin(w + 1, vec![(1, b), (1, d)], 0);
                            return self.extract(s, w, 1);
                        }
                    }
                }
            }
            // a < a + c: no carry
            if w >= 8 && w < 128 {
                if let Some(Atom::Add { w: bw, c, .. }) = self.as_atom(b).map(|x| &self.atoms[x as usize]) {
                    if *bw == w && *c != 0 {
                        let d = self.sub(b, a);
                        if let Some(v) = self.as_const(d) {
                            let s = self.lin(w + 1, vec![(1, a)], v);
                            let c = self.extract(s, w, 1);
                            return self.not(c);
                        }
                    }
                }
            }
            // bit-wise subset: b within a means b <= a; a within b means a <= b
            let m = self.and(a, b);
            if m == b {
                return self.konst(1, 0);
            }
            if m == a {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        let at = self.atom(Atom::Ult { a, b });
        self.whole(at)
    }
    pub fn slt(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let s = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
            return self.konst(1, (s(x) < s(y)) as u128);
        }
        // both sign bits known equal -> ult
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        match (self.as_const(sa), self.as_const(sb)) {
            (Some(x), Some(y)) if x == y => self.ult(a, b),
            (Some(x), Some(y)) => self.konst(1, (x > y) as u128),
            (None, Some(0)) if self.as_const(b) == Some(0) => sa,
            _ => {
                let at = self.atom(Atom::Slt { a, b });
                self.whole(at)
            }
        }
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        // canonical polarity
        if self.bits[c as usize].k[0] & 1 == 1 {
            let nc = self.not(c);
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        assert_eq!(w, self.w(b), "ite width");
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // linear difference
        if w <= 128 {
            let has_add = |s: &Store, x: B| matches!(s.as_atom(x).map(|a| &s.atoms[a as usize]), Some(Atom::Add { .. }));
            if has_add(self, a) || has_add(self, b) {
                let d = self.sub(a, b);
                if let Some(v) = self.as_const(d) {
                    return self.lin(w, vec![(1, b), (v, c)], 0);
                }
            }
        }
        // b takes the constant a where c pins its operands
        if w <= 128 && self.is_const(a) {
            if let Some(pin) = self.as_point(c) {
                if self.pinned(b, &pin, 2) == a {
                    return b;
                }
            }
        }
        // the then-arm matters only where c holds
        let a2 = self.under(a, c, 4);
        if a2 != a {
            return self.ite(c, a2, b);
        }
        // sel(arr, i) with i==k refinement: ite(i==k, arr[k], sel(arr,i)) = sel(arr,i)
        if let Some(Atom::Sel { .. }) = self.as_atom(b).map(|x| &self.atoms[x as usize]) {
            let v = self.under(b, c, 0);
            if self.under(v, c, 4) == a {
                return b;
            }
        }
        // nested with same condition
        if let Some(aa) = self.as_atom(a) {
            if let Atom::Ite { c: c2, a: a2, .. } = self.atoms[aa as usize].clone() {
                if c2 == c {
                    return self.ite(c, a2, b);
                }
            }
        }
        if let Some(ba) = self.as_atom(b) {
            if let Atom::Ite { c: c2, b: b2, .. } = self.atoms[ba as usize].clone() {
                if c2 == c {
                    return self.ite(c, a, b2);
                }
            }
        }
        // common segments
        let mut parts: Vec<B> = vec![];
        let al = self.aligned(a, b);
        let mut pend: Option<(u32, u32)> = None;
        let mut segs: Vec<(u32, u32, u8)> = vec![]; // pos,len,kind 0=same 1=const-const 2=other
        for (p, n) in al {
            let xa = self.extract(a, p, n);
            let xb = self.extract(b, p, n);
            if xa == xb {
                segs.push((p, n, 0));
            } else if self.is_const(xa) && self.is_const(xb) {
                segs.push((p, n, 1));
            } else {
                segs.push((p, n, 2));
            }
        }
        let flush = |s: &mut Store, parts: &mut Vec<B>, pend: &mut Option<(u32, u32)>| {
            if let Some((p, n)) = pend.take() {
                let xa = s.extract(a, p, n);
                let xb = s.extract(b, p, n);
                if n < w {
                    let r = s.ite(c, xa, xb);
                    parts.push(r);
                } else {
                    let at = s.atom(Atom::Ite { w: n, c, a: xa, b: xb });
                    parts.push(s.whole(at));
                }
            }
        };
        for (p, n, kind) in segs {
            match kind {
                0 => {
                    flush(self, &mut parts, &mut pend);
                    parts.push(self.extract(a, p, n));
                }
                1 => {
                    flush(self, &mut parts, &mut pend);
                    for i in p..p + n {
                        let xa = self.extract(a, i, 1);
                        let xb = self.extract(b, i, 1);
                        let v = if xa == xb {
                            xa
                        } else if self.as_const(xa) == Some(1) {
                            c
                        } else {
                            self.not(c)
                        };
                        parts.push(v);
                    }
                }
                _ => {
                    pend = Some(match pend {
                        None => (p, n),
                        Some((q, m)) => (q, m + n),
                    });
                }
            }
        }
        flush(self, &mut parts, &mut pend);
        self.concat(&parts)
    }
    /// the slices of atoms (first bit, length, value) that c fixes
    fn as_point(&mut self, c: B) -> Option<Vec<(A, u32, u32, u128)>> {
        let z = match self.as_atom(c).map(|a| &self.atoms[a as usize]) {
            Some(Atom::EqZ { a }) => *a,
            _ => {
                let x = self.overflow_of_increment(c)?;
                self.not(x)
            }
        };
        let x = &self.bits[z as usize];
        if x.w > 128 || x.segs.len() > 8 {
            return None;
        }
        let k = kget128(&x.k, x.w);
        let mut out = vec![];
        let mut p = 0;
        for (n, l) in x.segs.iter() {
            match &self.lists[*l as usize] {
                [(a, lo)] => out.push((*a, *lo, *n, k >> p & mask128(*n))),
                _ => return None,
            }
            p += n;
        }
        Some(out)
    }
    /// c is the carry out of x + 1
    pub fn overflow_of_increment(&self, c: B) -> Option<B> {
        let x = &self.bits[c as usize];
        if x.w != 1 || x.k[0] != 0 || x.segs.len() != 1 {
            return None;
        }
        match &self.lists[x.segs[0].1 as usize] {
            [(a, lo)] => match &self.atoms[*a as usize] {
                Atom::Add { w, terms, c: 1 } if lo + 1 == *w && terms.len() == 1 && terms[0].0 == 1 && self.w(terms[0].1) == *lo => Some(terms[0].1),
                _ => None,
            },
            _ => None,
        }
    }
    /// b where the slices in pin have the given values (looking into sums only)
    fn pinned(&mut self, b: B, pin: &[(A, u32, u32, u128)], d: u32) -> B {
        let bits = self.bits[b as usize].clone();
        if bits.w > 128 {
            return b;
        }
        let mut r = b;
        let mut p = 0;
        for (n, l) in bits.segs.iter() {
            for (a, lo) in self.lists[*l as usize].to_vec() {
                let old = {
                    let w = self.whole(a);
                    self.extract(w, lo, *n)
                };
                let new = if let Some(e) = pin.iter().find(|e| e.0 == a && e.1 <= lo && lo + n <= e.1 + e.2) {
                    self.konst(*n, e.3 >> (lo - e.1) & mask128(*n))
                } else if d > 0 {
                    let Atom::Add { w, terms, c } = self.atoms[a as usize].clone() else { continue };
                    if terms.len() > 4 {
                        continue;
                    }
                    let ts: Vec<(u128, B)> = terms.iter().map(|(q, t)| (*q, self.pinned(*t, pin, d - 1))).collect();
                    if ts.iter().zip(terms.iter()).all(|(x, y)| x.1 == y.1) {
                        continue;
                    }
                    let v = self.lin(w, ts, c);
                    self.extract(v, lo, *n)
                } else {
                    continue;
                };
                let x = self.xor(old, new);
                let z = self.konst(bits.w, 0);
                let (l, h) = (self.extract(z, 0, p), self.extract(z, 0, bits.w - p - n));
                let x = self.concat(&[l, x, h]);
                r = self.xor(r, x);
            }
            p += n;
        }
        r
    }
    pub fn array(&mut self, v: Vec<B>) -> u32 {
        let b: Box<[B]> = v.into();
        let h = hash_of(&b);
        if let Some(x) = self.arrmap.find(h, |i| self.arrays[i as usize] == b) {
            return x;
        }
        let id = self.arrays.len() as u32;
        self.arrays.push(b);
        self.arrmap.insert(h, id);
        id
    }
    /// elems[idx]; elems.len() == 2^width(idx)
    pub fn sel(&mut self, elems: Vec<B>, idx: B) -> B {
        assert_eq!(elems.len() as u128, 1u128 << self.w(idx));
        if let Some(i) = self.as_const(idx) {
            return elems[i as usize];
        }
        if elems.iter().all(|e| *e == elems[0]) {
            return elems[0];
        }
        let w = self.w(elems[0]);
        let mut elems = elems;
        // element k matters only when idx == k
        let iw = self.w(idx);
        let mut all: Option<Option<B>> = None;
        for k in 0..elems.len() {
            if let Some(Atom::Ite { .. } | Atom::Sel { .. }) = self.as_atom(elems[k]).map(|a| &self.atoms[a as usize]) {
                let kb = self.konst(iw, k as u128);
                let c = self.eq(idx, kb);
                elems[k] = self.under(elems[k], c, 4);
            }
            all = Some(match all {
                None => Some(elems[k]),
                Some(x) if x == Some(elems[k]) => x,
                _ => None,
            });
        }
        if let Some(Some(v)) = all {
            return v;
        }
        let arr = self.array(elems);
        let at = self.atom(Atom::Sel { w, arr, idx });
        self.whole(at)
    }
    /// e under the assumption that c holds
    fn under(&mut self, e: B, c: B, d: u32) -> B {
        let Some(a) = self.as_atom(e) else { return e };
        if let Atom::Sel { arr, idx: i2, .. } = self.atoms[a as usize] {
            if let Some(Atom::EqZ { a: z }) = self.as_atom(c).map(|a| &self.atoms[a as usize]) {
                let z = *z;
                if self.w(z) == self.w(i2) {
                    let k = self.xor(i2, z);
                    if let Some(k) = self.as_const(k) {
                        return self.arrays[arr as usize][k as usize];
                    }
                }
            }
            return e;
        }
        let Atom::Ite { c: c2, a: x, b: y, .. } = self.atoms[a as usize] else { return e };
        if c2 == c {
            return self.under(x, c, d);
        }
        let n = self.not(c);
        if c2 == n {
            return self.under(y, c, d);
        }
        if d == 0 {
            return e;
        }
        let (x2, y2) = (self.under(x, c, d - 1), self.under(y, c, d - 1));
        if (x2, y2) == (x, y) {
            return e;
        }
        self.ite(c2, x2, y2)
    }
    /// read elems[idx] with idx of any width; splits known index bits. None if out of range possible.
    pub fn read_idx(&mut self, elems: &[B], idx: B) -> Option<B> {
        let w = self.w(idx);
        if let Some(i) = self.as_const(idx) {
            return elems.get(i as usize).copied();
        }
        // known bits
        let bits = self.bits[idx as usize].clone();
        let mut unk: Vec<u32> = vec![];
        let mut base: u128 = 0;
        let mut p = 0;
        for (n, xs) in bits.segs.iter() {
            for i in p..p + n {
                if *xs == 0 {
                    if i < 128 {
                        base |= ((bits.k[(i / 64) as usize] >> (i % 64)) as u128 & 1) << i;
                    } else if (bits.k[(i / 64) as usize] >> (i % 64)) & 1 == 1 {
                        return None;
                    }
                } else {
                    unk.push(i);
                }
            }
            p += n;
        }
        let _ = w;
        if unk.len() > 16 {
            return None;
        }
        let mut sub = Vec::with_capacity(1 << unk.len());
        for v in 0..(1u128 << unk.len()) {
            let mut i = base;
            for (j, u) in unk.iter().enumerate() {
                i |= ((v >> j) & 1) << u;
            }
            sub.push(*elems.get(i as usize)?);
        }
        let mut parts: Vec<B> = vec![];
        let mut p = 0;
        for (n, xs) in bits.segs.iter() {
            if *xs != 0 {
                parts.push(self.extract(idx, p, *n));
            }
            p += n;
        }
        let small = self.concat(&parts);
        Some(self.sel(sub, small))
    }
    pub fn op(&mut self, name: &'static str, w: u32, args: Vec<B>) -> B {
        let at = self.atom(Atom::Op { name, w, args: args.into() });
        self.whole(at)
    }
    /// values the term can take if it has at most `max` unknown bits
    pub fn enumerate(&self, b: B, max: usize) -> Option<Vec<u128>> {
        let bits = &self.bits[b as usize];
        if bits.w > 128 {
            return None;
        }
        let mut unk: Vec<u32> = vec![];
        let mut base = 0u128;
        let mut p = 0;
        let mut groups: HashMap<X, u32> = HashMap::new();
        let mut follow: Vec<(u32, u32, bool)> = vec![]; // bit, leader, inverted
        for (n, xs) in bits.segs.iter() {
            for i in p..p + n {
                let kb = (bits.k[(i / 64) as usize] >> (i % 64)) as u128 & 1;
                if *xs == 0 {
                    base |= kb << i;
                } else if *n == 1 && groups.contains_key(xs) {
                    let l = groups[xs];
                    let kl = (bits.k[(l / 64) as usize] >> (l % 64)) as u128 & 1;
                    follow.push((i, l, kb != kl));
                } else {
                    if *n == 1 {
                        groups.insert(*xs, i);
                    }
                    unk.push(i);
                }
            }
            p += n;
        }
        if unk.len() > max {
            return None;
        }
        let mut out = vec![];
        for v in 0..(1u128 << unk.len()) {
            let mut i = base;
            for (j, u) in unk.iter().enumerate() {
                i |= ((v >> j) & 1) << u;
            }
            for (bit, l, inv) in &follow {
                let lv = (i >> l) & 1;
                i |= (lv ^ (*inv as u128)) << bit;
            }
            out.push(i);
        }
        Some(out)
    }
    /// atoms occurring directly in a term
    pub fn atoms_of(&self, b: B) -> Vec<A> {
        let mut v: Vec<A> = vec![];
        for (_, xs) in self.bits[b as usize].segs.iter() {
            for (a, _) in self.lists[*xs as usize].iter() {
                if v.last() != Some(a) {
                    v.push(*a);
                }
            }
        }
        v
    }
    pub fn children(&self, a: A) -> Vec<A> {
        let mut v = vec![];
        match &self.atoms[a as usize] {
            Atom::Sym { .. } => {}
            Atom::Add { terms, .. } => terms.iter().for_each(|t| v.extend(self.atoms_of(t.1))),
            Atom::Big { id, .. } => self.bigs[*id as usize].parts.iter().for_each(|t| v.extend(self.atoms_of(t.1))),
            Atom::Mul { a, b, .. } | Atom::Ult { a, b } | Atom::Slt { a, b } => {
                v.extend(self.atoms_of(*a));
                v.extend(self.atoms_of(*b));
            }
            Atom::And { xs, .. } => xs.iter().for_each(|t| v.extend(self.atoms_of(*t))),
            Atom::Ite { c, a, b, .. } => {
                v.extend(self.atoms_of(*c));
                v.extend(self.atoms_of(*a));
                v.extend(self.atoms_of(*b));
            }
            Atom::EqZ { a } => v.extend(self.atoms_of(*a)),
            Atom::Sel { arr, idx, .. } => {
                v.extend(self.atoms_of(*idx));
                self.arrays[*arr as usize].iter().for_each(|t| v.extend(self.atoms_of(*t)));
            }
            Atom::Op { args, .. } => args.iter().for_each(|t| v.extend(self.atoms_of(*t))),
        }
        v
    }
    pub fn show(&self, b: B) -> String {
        self.show_d(b, 3)
    }
    pub fn show_d(&self, b: B, d: u32) -> String {
        let x = &self.bits[b as usize];
        if self.is_const(b) {
            if let Some(v) = self.as_const(b) {
                return format!("0x{:x}:{}", v, x.w);
            }
            return format!("const:{}", x.w);
        }
        let mut out = vec![];
        let mut p = 0;
        for (n, xs) in x.segs.iter() {
            let k = if *n <= 64 { kget(&x.k, p, *n) } else { 0 };
            let mut t: Vec<String> = self.lists[*xs as usize]
                .iter()
                .map(|(a, lo)| {
                    let s = self.show_a(*a, d);
                    if *lo == 0 && self.aw(*a) == *n {
                        s
                    } else {
                        format!("{}[{}+{}]", s, lo, n)
                    }
                })
                .collect();
            if k != 0 || t.is_empty() {
                t.push(format!("0x{:x}:{}", k, n));
            }
            out.push(t.join("^"));
            p += n;
            if out.len() > 6 {
                out.push("..".into());
                break;
            }
        }
        if out.len() == 1 {
            out.pop().unwrap()
        } else {
            out.reverse();
            format!("{{{}}}", out.join(" : "))
        }
    }
    pub fn show_a(&self, a: A, d: u32) -> String {
        if let Atom::Sym { name, .. } = &self.atoms[a as usize] {
            return name.to_string();
        }
        if d == 0 {
            return format!("t{}", a);
        }
        let d = d - 1;
        match &self.atoms[a as usize] {
            Atom::Sym { name, .. } => name.to_string(),
            Atom::Add { w, terms, c } => {
                let mut t: Vec<String> = terms
                    .iter()
                    .take(5)
                    .map(|(q, b)| if *q == 1 { self.show_d(*b, d) } else if *q == mask128(*w) { format!("-{}", self.show_d(*b, d)) } else { format!("{}*{}", q, self.show_d(*b, d)) })
                    .collect();
                if terms.len() > 5 {
                    t.push("..".into());
                }
                if *c != 0 {
                    t.push(format!("0x{:x}", c));
                }
                format!("add{}({})", w, t.join(", "))
            }
            Atom::Big { w, id } => {
                let b = &self.bigs[*id as usize];
                format!("sum{}[{} parts, #{}]", w, b.parts.len(), id)
            }
            Atom::Mul { w, a, b } => format!("mul{}({}, {})", w, self.show_d(*a, d), self.show_d(*b, d)),
            Atom::And { xs, .. } => format!("and({})", xs.iter().map(|x| self.show_d(*x, d)).collect::<Vec<_>>().join(", ")),
            Atom::Ite { c, a, b, .. } => format!("ite({}, {}, {})", self.show_d(*c, d), self.show_d(*a, d), self.show_d(*b, d)),
            Atom::EqZ { a } => format!("is0({})", self.show_d(*a, d)),
            Atom::Ult { a, b } => format!("ult({}, {})", self.show_d(*a, d), self.show_d(*b, d)),
            Atom::Slt { a, b } => format!("slt({}, {})", self.show_d(*a, d), self.show_d(*b, d)),
            Atom::Sel { arr, idx, .. } => format!("sel(arr{}, {})", arr, self.show_d(*idx, d)),
            Atom::Op { name, args, .. } => format!("{}({})", name, args.iter().map(|x| self.show_d(*x, d)).collect::<Vec<_>>().join(", ")),
        }
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn nonnull() {
        let mut t = Store::new();
        let s = t.sym("a", 63, false);
        let one = t.konst(1, 1);
        let b = t.concat(&[s, one]);
        println!("{}", t.show_d(b, 5));
        let z = t.konst(64, 0);
        let r = t.add(b, z);
        println!("{}", t.show_d(r, 5));
        let e = t.eq(r, z);
        println!("{}", t.show_d(e, 5));
        let z4 = t.konst(4, 0);
        let s = t.sym("q", 59, false);
        let b = t.concat(&[z4, s, one]);
        println!("{}", t.show_d(b, 5));
        let r = t.add(b, z);
        println!("{}", t.show_d(r, 5));
        let e = t.eq(r, z);
        println!("{}", t.show_d(e, 5));
    }
}
impl Store {
    pub fn stats(&self) -> String {
        let bb: usize = self.bits.iter().map(|b| b.k.len() * 8 + b.segs.len() * 8).sum();
        let ll = self.lists.flat.len() * 8;
        let at: usize = self.atoms.iter().map(|a| match a { Atom::Add { terms, .. } => terms.len() * 32, _ => 0 }).sum();
        let bg: usize = self.bigs.iter().map(|b| 400 + b.parts.len() * 32).sum();
        let ar: usize = self.arrays.iter().map(|a| a.len() * 4).sum();
        format!("bits {} ({} MB x2) lists {} ({} MB x2) atoms {} ({} MB x2) arrays {} ({} MB x2) bigs {} ({} MB) gens {} ({} MB) summap {} ({} MB) narrow {} whole {}", self.bits.len(), bb >> 20, self.lists.len(), ll >> 20, self.atoms.len(), at >> 20, self.arrays.len(), ar >> 20, self.bigs.len(), bg >> 20, self.gens.len(), self.gens.len() * 420 >> 20, self.summap.len(), self.summap.len() * 430 >> 20, self.narrow_memo.len(), self.whole_memo.len())
    }
}

#[cfg(test)]
mod carry_tests {
    use super::*;
    const A: [u128; 8] = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3];
    #[test]
    fn chain() {
        let mut t = Store::new();
        let mut c: Vec<B> = (0..8).map(|i| t.sym(&format!("c{}", i), 32, false)).collect();
        let mut d = c.clone();
        let mut rc = t.konst(1, 0);
        let mut qc = t.konst(1, 0);
        for round in 0..6 {
            for i in 0..8 {
                let k = t.konst(32, A[i]);
                let s = t.lin(64, vec![(1, c[i]), (1, k), (1, rc)], 0);
                c[i] = t.extract(s, 0, 32);
                rc = t.extract(s, 32, 1);
                let s1 = t.lin(33, vec![(1, d[i]), (1, k)], 0);
                let o1 = t.extract(s1, 32, 1);
                let s = t.extract(s1, 0, 32);
                let s2 = t.lin(33, vec![(1, s), (1, qc)], 0);
                let o2 = t.extract(s2, 32, 1);
                d[i] = t.extract(s2, 0, 32);
                let q2 = t.or(o1, o2);
                let (qi, di) = (t.show(qc), t.show(s));
                qc = q2;
                assert!(c[i] == d[i], "{} {}: {} / {}", round, i, t.show(c[i]), t.show(d[i]));
                assert!(rc == qc, "{} {}: {} / {} : {} {} = {} ; {} ", round, i, t.show(rc), t.show(qc), t.show(o1), t.show(o2), di, qi);
            }
        }
    }
}

/// every simplification against concrete values
#[cfg(test)]
mod value_tests {
    use super::*;
    const K: usize = 12;
    type V = [u128; K];
    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            smix(self.0)
        }
        fn below(&mut self, n: usize) -> usize {
            (self.next() >> 33) as usize % n
        }
    }
    struct Eval {
        vals: Vec<V>,
        r: Rng,
    }
    impl Eval {
        fn bits(&self, t: &Store, b: B, j: usize) -> u128 {
            let x = &t.bits[b as usize];
            let mut v = kget128(&x.k, x.w);
            let mut p = 0;
            for (n, l) in x.segs.iter() {
                for (a, o) in &t.lists[*l as usize] {
                    let s = (self.vals[*a as usize][j] >> o) & mask128(*n);
                    v ^= s << p;
                }
                p += n;
            }
            v & mask128(x.w)
        }
        fn all(&self, t: &Store, b: B) -> V {
            std::array::from_fn(|j| self.bits(t, b, j))
        }
        fn sync(&mut self, t: &Store) {
            while self.vals.len() < t.atoms.len() {
                let i = self.vals.len();
                let f = |e: &Self, b: B, j: usize| e.bits(t, b, j);
                let v: V = match &t.atoms[i] {
                    Atom::Sym { w, .. } => {
                        let m = mask128(*w);
                        let mut v = [0; K];
                        for e in v.iter_mut() {
                            let x = (self.r.next() as u128) << 64 | self.r.next() as u128;
                            *e = m & match self.r.below(8) {
                                0 => 0,
                                1 => m,
                                2 => m.wrapping_sub(x & 3),
                                3 => x & 3,
                                4 => 1 << (w - 1),
                                5 => (1 << (w - 1)) - 1,
                                _ => x,
                            };
                        }
                        v
                    }
                    Atom::Add { w, terms, c } => std::array::from_fn(|j| terms.iter().fold(*c, |s, (q, x)| s.wrapping_add(q.wrapping_mul(f(self, *x, j)))) & mask128(*w)),
                    Atom::Big { w, id } => {
                        let b = &t.bigs[*id as usize];
                        let mut c = b.c;
                        for (q, x) in b.parts.iter() {
                            let k = match t.as_big(*x) {
                                Some((i, bw)) if bw == *w => t.bigs[i as usize].c,
                                _ => t.gens[x].1,
                            };
                            c = c.wrapping_sub(q.wrapping_mul(k));
                        }
                        std::array::from_fn(|j| b.parts.iter().fold(c, |s, (q, x)| s.wrapping_add(q.wrapping_mul(f(self, *x, j)))) & mask128(*w))
                    }
                    Atom::Mul { w, a, b } => std::array::from_fn(|j| f(self, *a, j).wrapping_mul(f(self, *b, j)) & mask128(*w)),
                    Atom::And { xs, .. } => std::array::from_fn(|j| xs.iter().fold(u128::MAX, |s, x| s & f(self, *x, j))),
                    Atom::Ite { c, a, b, .. } => std::array::from_fn(|j| f(self, if f(self, *c, j) == 1 { *a } else { *b }, j)),
                    Atom::EqZ { a } => std::array::from_fn(|j| self.wide_zero(t, *a, j) as u128),
                    Atom::Ult { a, b } => std::array::from_fn(|j| (f(self, *a, j) < f(self, *b, j)) as u128),
                    Atom::Slt { a, b } => std::array::from_fn(|j| slt(t.w(*a), f(self, *a, j), f(self, *b, j)) as u128),
                    Atom::Sel { arr, idx, .. } => std::array::from_fn(|j| f(self, t.arrays[*arr as usize][f(self, *idx, j) as usize], j)),
                    Atom::Op { .. } => unreachable!(),
                };
                if let Some((lo, hi)) = t.ainfo[i].range {
                    assert!(v.iter().all(|x| *x >= lo && *x <= hi), "range of {}", t.show_a(i as A, 5));
                }
                if let Some((lo, hi)) = t.ainfo[i].srange {
                    assert!(v.iter().all(|x| *x >= lo && *x <= hi), "range of {}", t.show_a(i as A, 5));
                }
                self.vals.push(v);
            }
        }
        fn wide_zero(&self, t: &Store, b: B, j: usize) -> bool {
            let x = &t.bits[b as usize];
            let mut p = 0;
            x.segs.iter().all(|(n, l)| {
                let mut o = 0;
                let mut z = true;
                while o < *n {
                    let m = (*n - o).min(64);
                    let mut v = kget(&x.k, p + o, m) as u128;
                    for (a, at) in &t.lists[*l as usize] {
                        v ^= self.vals[*a as usize][j] >> (at + o) & mask128(m);
                    }
                    z &= v == 0;
                    o += m;
                }
                p += n;
                z
            })
        }
    }
    fn slt(w: u32, a: u128, b: u128) -> bool {
        let s = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
        s(a) < s(b)
    }
    fn run(seed: u64, steps: usize) {
        let mut t = Store::new();
        let mut r = Rng(seed.wrapping_mul(77777));
        let mut e = Eval { vals: vec![], r: Rng(!seed) };
        let ws = [1u32, 1, 8, 16, 30, 31, 32, 32, 62, 63, 64, 64];
        let mut pool: Vec<B> = vec![];
        for (i, w) in ws.iter().enumerate() {
            pool.push(t.sym(&format!("s{}", i), *w, false));
        }
        for w in [1u32, 8, 32, 33, 64, 65] {
            for v in [0u128, 1, 2, 55, u128::MAX, u128::MAX - 1, 1 << (w - 1)] {
                pool.push(t.konst(w, v & mask128(w)));
            }
        }
        e.sync(&t);
        for step in 0..steps {
            let n = pool.len();
            let mut pick = |r: &mut Rng| pool[if r.below(3) == 0 || n < 60 { r.below(n) } else { n - 1 - r.below(24) }];
            let (a, mut b, mut c) = (pick(&mut r), pick(&mut r), pick(&mut r));
            let w = t.w(a);
            // operands of one width
            let fit = |t: &mut Store, r: &mut Rng, x: B| {
                let xw = t.w(x);
                if xw == w {
                    x
                } else if xw > w {
                    let lo = if r.below(2) == 0 { 0 } else { xw - w };
                    t.extract(x, lo, w)
                } else if r.below(4) == 0 {
                    t.sext(x, w)
                } else {
                    t.zext(x, w)
                }
            };
            let raw = (b, c);
            b = fit(&mut t, &mut r, b);
            c = fit(&mut t, &mut r, c);
            let k = (r.next() as u128 & mask128(w)) >> r.below(w as usize);
            let m = mask128(w);
            e.sync(&t);
            let (va, vb, vc) = (e.all(&t, a), e.all(&t, b), e.all(&t, c));
            let (wb, vraw) = (t.w(raw.0), e.all(&t, raw.0));
            let op = r.below(32);
            let sh = r.below(w as usize) as u32;
            let mut want: V = [0; K];
            let mut set = |f: &dyn Fn(usize) -> u128| {
                for j in 0..K {
                    want[j] = f(j);
                }
            };
            let res = match op {
                0 | 1 => {
                    set(&|j| va[j].wrapping_add(vb[j]) & m);
                    t.add(a, b)
                }
                2 => {
                    set(&|j| va[j].wrapping_sub(vb[j]) & m);
                    t.sub(a, b)
                }
                3 => {
                    set(&|j| va[j].wrapping_add(k) & m);
                    t.addc(a, k)
                }
                4 => {
                    set(&|j| va[j] ^ vb[j]);
                    t.xor(a, b)
                }
                5 => {
                    set(&|j| va[j] & vb[j]);
                    t.and(a, b)
                }
                6 => {
                    set(&|j| va[j] | vb[j]);
                    t.or(a, b)
                }
                7 => {
                    set(&|j| !va[j] & m);
                    t.not(a)
                }
                8 => {
                    let len = 1 + r.below((w - sh) as usize) as u32;
                    set(&|j| va[j] >> sh & mask128(len));
                    t.extract(a, sh, len)
                }
                9 if w + wb <= 128 => {
                    set(&|j| va[j] | vraw[j] << w);
                    t.concat(&[a, raw.0])
                }
                10 => {
                    set(&|j| va[j] << sh & m);
                    t.shl(a, sh)
                }
                11 => {
                    set(&|j| va[j] >> sh);
                    t.lshr(a, sh)
                }
                12 => {
                    set(&|j| if sh == 0 { va[j] } else { (va[j] << sh | va[j] >> (w - sh)) & m });
                    t.rotl(a, sh)
                }
                13 => {
                    set(&|j| va[j].wrapping_mul(vb[j]) & m);
                    t.mul(a, b)
                }
                14 | 15 => {
                    set(&|j| (va[j] == vb[j]) as u128);
                    t.eq(a, b)
                }
                16 => {
                    set(&|j| (va[j] == 0) as u128);
                    t.eqz(a)
                }
                17 | 18 => {
                    set(&|j| (va[j] < vb[j]) as u128);
                    t.ult(a, b)
                }
                19 => {
                    set(&|j| slt(w, va[j], vb[j]) as u128);
                    t.slt(a, b)
                }
                20 => {
                    let q = t.extract(raw.1, 0, 1);
                    e.sync(&t);
                    let vq = e.all(&t, q);
                    set(&|j| if vq[j] == 1 { va[j] } else { vb[j] });
                    t.ite(q, a, b)
                }
                21 if w < 64 => {
                    // add with carry out
                    set(&|j| va[j] + vb[j]);
                    t.lin(w + 1, vec![(1, a), (1, b)], 0)
                }
                22 if w < 64 => {
                    // carry out of the sum by comparison
                    set(&|j| (va[j] + vb[j] > m) as u128);
                    let s = t.add(a, b);
                    t.ult(s, a)
                }
                23 => {
                    // carry of an increment, added to another word
                    set(&|j| vc[j].wrapping_add((va[j] == m) as u128) & m);
                    let s = t.addc(a, 1);
                    let z = t.eqz(s);
                    let z = t.zext(z, w);
                    t.add(c, z)
                }
                24 if w <= 63 => {
                    // two-word increment
                    set(&|j| (va[j] | vb[j] << w).wrapping_add(k) & mask128(2 * w));
                    let lo = t.addc(a, k);
                    let kb = t.konst(w, k);
                    let cy = t.ult(lo, kb);
                    let cy = t.zext(cy, w);
                    let hi = t.add(b, cy);
                    t.concat(&[lo, hi])
                }
                25 if w < 64 => {
                    // two overflowing additions
                    let q = t.extract(c, 0, 1);
                    set(&|j| (va[j] + vb[j] + (vc[j] & 1)) & mask128(w + 1));
                    let s = t.add(a, b);
                    let o1 = t.ult(s, a);
                    let qz = t.zext(q, w);
                    let s2 = t.add(s, qz);
                    let o2 = t.ult(s2, s);
                    let o = t.or(o1, o2);
                    if w == 1 {
                        // the pair of carries is a sum here
                        want = std::array::from_fn(|j| {
                            let (s, q) = ((va[j] + vb[j]) & 1, vc[j] & 1);
                            (s + q) & 1 | ((va[j] + vb[j] > 1 || s + q > 1) as u128) << 1
                        });
                    }
                    t.concat(&[s2, o])
                }
                26 => {
                    let v: Vec<B> = [a, b, c, a].to_vec();
                    let x = t.resize(raw.1, 2);
                    e.sync(&t);
                    let vx = e.all(&t, x);
                    set(&|j| [va[j], vb[j], vc[j], va[j]][vx[j] as usize]);
                    t.sel(v, x)
                }
                27 => {
                    set(&|j| (va[j].wrapping_mul(3).wrapping_add(vb[j].wrapping_mul(m)).wrapping_add(vc[j] << sh).wrapping_add(k)) & m);
                    t.lin(w, vec![(3, a), (m, b), (1 << sh, c)], k)
                }
                28 if w % 8 == 0 => {
                    set(&|j| va[j].swap_bytes() >> (128 - w));
                    t.bswap(a)
                }
                30 => {
                    // wrapping increment by comparison
                    set(&|j| if va[j] == m { k } else { va[j].wrapping_add(1) & m });
                    let o = t.ones(w);
                    let q = t.eq(a, o);
                    let kb = t.konst(w, k);
                    let s = t.addc(a, 1);
                    t.ite(q, kb, s)
                }
                31 => {
                    set(&|j| if va[j] == k { 0 } else { va[j].wrapping_sub(k) & m });
                    let kb = t.konst(w, k);
                    let q = t.eq(a, kb);
                    let z = t.konst(w, 0);
                    let s = t.sub(a, kb);
                    let q = if sh % 2 == 0 { q } else { t.eqz(s) };
                    let r = t.ite(q, z, s);
                    if t.as_atom(a).is_some() && !matches!(t.atoms[t.as_atom(a).unwrap() as usize], Atom::Add { .. }) {
                        assert!(r == s, "{} {}", t.show(r), t.show(s));
                    }
                    r
                }
                29 => {
                    set(&|j| ((((va[j] << (128 - w)) as i128) >> (128 - w) >> sh) as u128) & m);
                    t.ashr(a, sh)
                }
                _ => continue,
            };
            e.sync(&t);
            let got = e.all(&t, res);
            assert!(
                got == want,
                "seed {} step {} op {} w {} sh {} k {:x}\n a {}\n b {}\n c {}\n = {}\n got {:x?}\nwant {:x?}\n a {:x?}\n b {:x?}\n c {:x?}",
                seed, step, op, w, sh, k, t.show_d(a, 4), t.show_d(b, 4), t.show_d(c, 4), t.show_d(res, 4), got, want, va, vb, vc
            );
            let (mn, mx) = (t.umin(res), t.umax(res));
            assert!(got.iter().all(|v| *v >= mn && *v <= mx), "bounds of {}", t.show_d(res, 4));
            if let Some(v) = t.enumerate(res, 4) {
                assert!(got.iter().all(|x| v.contains(x)), "values of {}", t.show_d(res, 4));
            }
            if let Some(xs) = t.conjuncts(res).map(|x| x.to_vec()) {
                for x in xs {
                    let vx = e.all(&t, x);
                    assert!((0..K).all(|j| got[j] & !vx[j] == 0));
                }
            }
            if t.w(res) == 1 && t.w(raw.1) == 1 && t.implies_zero(res, raw.1) {
                let v = e.all(&t, raw.1);
                assert!((0..K).all(|j| got[j] & !v[j] == 0));
            }
            if let Some(p) = if t.w(res) == 1 { t.as_point(res) } else { None } {
                let x = t.pinned(a, &p, 2);
                e.sync(&t);
                let v = e.all(&t, x);
                assert!((0..K).all(|j| got[j] == 0 || v[j] == va[j]));
                if let Some(x) = t.overflow_of_increment(res) {
                    let v = e.all(&t, x);
                    assert!((0..K).all(|j| (got[j] == 1) == (v[j] == mask128(t.w(x)))));
                }
            }
            if t.w(res) <= 100 {
                pool.push(res);
            }
        }
    }
    #[test]
    fn random() {
        let n: u64 = std::env::var("VG_ROUNDS").ok().and_then(|v| v.parse().ok()).unwrap_or(300);
        let from: u64 = std::env::var("VG_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
        for s in from..from + n {
            run(s, 400);
        }
    }
}
