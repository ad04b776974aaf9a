//! The histories that are analysed. All inputs are symbolic; every scenario states the
//! terms the specification prescribes for what the calls return or write.
use crate::bv::*;
use crate::exec::*;
use crate::lab::*;

/// a fresh cipher starts at block 0; the block at any position p is the specified one
pub fn block_at(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} single blocks", a.name));
    let (k, iv) = l.keyiv(a);
    let z = l.k(a.ctr, 0);
    let p = l.sym("pos", a.ctr);
    let w0 = l.ks(a, k, iv, z);
    let wp = l.ks(a, k, iv, p);
    let c = l.cnew(a, k, iv)?;
    let g = l.getpos(a, c);
    l.expect_c(g, 0, "initial block position");
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, w0, "first keystream block of a fresh cipher");
    let g = l.getpos(a, c);
    l.expect_c(g, 1, "block position after one block");
    l.setpos(a, c, p)?;
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, wp, "keystream block at position pos");
    Some(())
}

fn seqname(s: &[u8], p: u32) -> String {
    let v: Vec<String> = s.iter().map(|x| match x {
        1 => "1".into(),
        2 => format!("par{}", p),
        x => format!("tail{}", x & 0x3f),
    }).collect();
    v.join("+")
}

/// every sequence of backend operations yields the blocks at start, start+1, ... and leaves the
/// cipher in the state a fresh cipher has when positioned at start+n (which makes the argument
/// inductive over histories)
pub fn batches(l: &mut Lab, a: &Alg, part: usize, parts: usize) -> Option<()> {
    l.start(&format!("{} parallel width", a.name));
    let (k, iv) = l.keyiv(a);
    let c = l.cnew(a, k, iv)?;
    let (_, n, p) = l.ops(a, c, &[], 1)?;
    l.oblige(n == 0 && p >= 1 && p < 0x40, "parallel width", String::new(), format!("{} blocks", p));
    let mut seqs: Vec<Vec<u8>> = vec![vec![1], vec![2], vec![2, 1], vec![1, 2], vec![1, 1]];
    if l.tier > 0 {
        for t in 0..p as u8 {
            seqs.push(vec![0x40 | t]);
        }
        seqs.push(vec![2, 2]);
        seqs.push(vec![2, 2, 1, 2, 1]);
        for t in 1..p as u8 {
            seqs.push(vec![2, 0x40 | t]);
            seqs.push(vec![0x40 | t, 1]);
        }
    } else {
        for t in 1..p as u8 {
            seqs.push(vec![0x40 | t]);
        }
    }
    for (i, s) in seqs.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        ops_seq(l, a, s, p);
    }
    Some(())
}

pub fn ops_seq(l: &mut Lab, a: &Alg, s: &[u8], p: u32) -> Option<()> {
    l.start(&format!("{} blocks {}", a.name, seqname(s, p)));
    let (k, iv) = l.keyiv(a);
    let pos = l.sym("pos", a.ctr);
    let total: u32 = s.iter().map(|x| match x {
        1 => 1,
        2 => p,
        x => (x & 0x3f) as u32,
    }).sum();
    let mut want = vec![];
    for i in 0..=total {
        let q = l.t().addc(pos, i as u128);
        want.push(l.ks(a, k, iv, q));
    }
    let end = l.t().addc(pos, total as u128);
    let c = l.cnew(a, k, iv)?;
    l.setpos(a, c, pos)?;
    let (o, n, _) = l.ops(a, c, s, total + 1)?;
    l.oblige(n == total, "number of blocks", String::new(), format!("{} of {}", n, total));
    for i in 0..total {
        l.expect_mem(o, i * a.blk, want[i as usize], &format!("keystream block {} of the run", i));
    }
    let g = l.getpos(a, c);
    l.expect_b(g, end, "block position after the run");
    // inductive step: indistinguishable from a fresh cipher positioned there
    let d = l.cnew(a, k, iv)?;
    l.setpos(a, d, end)?;
    if l.snapshot(c) == l.snapshot(d) {
        l.inductive += 1;
    } else {
        let b = l.block(a, c)?;
        l.expect_mem(b, 0, want[total as usize], "block following the run");
    }
    Some(())
}

pub fn hfun(l: &mut Lab, name: &str, rounds: u32, salsa: bool) -> Option<()> {
    l.start(name);
    let k = l.sym("key", 256);
    let i = l.sym("in", 128);
    let want = if salsa { crate::spec::hsalsa(l.t(), k, i, rounds) } else { crate::spec::hchacha(l.t(), k, i, rounds) };
    let kb = l.buf("key", k);
    let ib = l.buf("input", i);
    let o = l.out("subkey", 32, 1);
    let args = [l.p(kb), l.p(ib), l.p(o)];
    l.call(&format!("e_{}", name), &args)?;
    l.expect_mem(o, 0, want, "derived subkey");
    Some(())
}

/// seeking: set/get round trip, remaining count, next block, nothing but the counter changes
pub fn seek_core(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} seek", a.name));
    let (k, iv) = l.keyiv(a);
    let p = l.sym("pos", a.ctr);
    let q = l.sym("pos2", a.ctr);
    let z = l.k(a.ctr, 0);
    let wq = l.ks(a, k, iv, q);
    let w0 = l.ks(a, k, iv, z);
    let wmax = {
        let m = l.k(a.ctr, mask128(a.ctr));
        l.ks(a, k, iv, m)
    };
    let c = l.cnew(a, k, iv)?;
    for (v, s) in [(p, "p"), (q, "q")] {
        l.setpos(a, c, v)?;
        let g = l.getpos(a, c);
        l.expect_b(g, v, &format!("position read back after seeking to {}", s));
        remaining(l, a, c, v)?;
    }
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, wq, "block after two seeks");
    // backwards, to both ends of the counter range
    l.setpos(a, c, z)?;
    remaining(l, a, c, z)?;
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, w0, "block after seeking back to 0");
    let m = l.k(a.ctr, mask128(a.ctr));
    l.setpos(a, c, m)?;
    remaining(l, a, c, m)?;
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, wmax, "block at the last position");
    let g = l.getpos(a, c);
    l.expect_c(g, 0, "position after the last block wraps to 0");
    let b = l.block(a, c)?;
    l.expect_mem(b, 0, w0, "block after wrapping");
    Some(())
}
fn remaining(l: &mut Lab, a: &Alg, c: ObjId, p: B) -> Option<()> {
    let pb = l.pb();
    let ps = pb / 8;
    let rb = l.ex.alloc("rem", ps as u64, ps as u64);
    let nz = l.public("rem.old", pb);
    let m = if l.ex.p.be { l.t().bswap(nz) } else { nz };
    l.ex.set_bits(rb, 0, m);
    let args = [l.p(c), l.p(rb)];
    let f = l.callb(&format!("e_{}_crem", a.name), &args);
    let want = l.t().not(p); // 2^n - 1 - p
    if a.ctr <= pb {
        l.expect_c(f, 1, "remaining_blocks is present");
        let w = l.t().zext(want, pb);
        l.expect_int(rb, 0, w, "remaining_blocks = MAX - position");
    } else {
        // present exactly when it fits
        let hi = l.t().extract(want, pb, a.ctr - pb);
        let fits = l.t().eqz(hi);
        let fw = l.t().zext(fits, 32);
        l.expect_b(f, fw, "remaining_blocks is present iff it fits usize");
        let lo = l.t().extract(want, 0, pb);
        let w = l.t().ite(fits, lo, nz);
        l.expect_int(rb, 0, w, "remaining_blocks = MAX - position");
    }
    Some(())
}

// ------------------------------------------------------------------ Salsa raw state
pub fn salsa_raw(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} from raw state", a.name));
    let w: Vec<B> = (0..16).map(|i| l.sym(&format!("raw{}", i), 32)).collect();
    let o = l.core(a)?;
    let wb = l.ex.alloc("words", 64, 4);
    for (i, x) in w.iter().enumerate() {
        let v = if l.ex.p.be { l.t().bswap(*x) } else { *x };
        l.ex.set_bits(wb, 4 * i as u32, v);
    }
    let args = [l.p(o), l.p(wb)];
    l.call(&format!("e_{}_raw", a.name), &args)?;
    let c0 = l.t().concat(&[w[8], w[9]]);
    let g = l.getpos(a, o);
    l.expect_b(g, c0, "counter of a raw state is words 8 and 9");
    remaining(l, a, o, c0)?;
    for n in 0..3u32 {
        let c = l.t().addc(c0, n as u128);
        let mut x = w.clone();
        x[8] = l.t().extract(c, 0, 32);
        x[9] = l.t().extract(c, 32, 32);
        let rounds = a.rounds;
        let want = crate::spec::salsa_raw(l.t(), &x, rounds);
        let b = l.block(a, o)?;
        l.expect_mem(b, 0, want, &format!("block {} from the raw state", n));
    }
    let c = l.t().addc(c0, 3);
    let g = l.getpos(a, o);
    l.expect_b(g, c, "counter after three blocks");
    let p = l.sym("pos", 64);
    l.setpos(a, o, p)?;
    let mut x = w.clone();
    x[8] = l.t().extract(p, 0, 32);
    x[9] = l.t().extract(p, 32, 32);
    let want = crate::spec::salsa_raw(l.t(), &x, a.rounds);
    let b = l.block(a, o)?;
    l.expect_mem(b, 0, want, "block after seeking a raw state");
    Some(())
}

/// positions given as (upper half symbolic, lower half concrete): the carry between counter words
pub fn carry(l: &mut Lab, a: &Alg, low: u32) -> Option<()> {
    l.start(&format!("{} carry at low word {:#x}", a.name, low));
    let (k, iv) = l.keyiv(a);
    let c = l.cnew(a, k, iv)?;
    let lo = l.k(32, low as u128);
    let q = if a.ctr == 64 {
        let hi = l.sym("pos.hi", 32);
        l.t().concat(&[lo, hi])
    } else {
        lo
    };
    l.setpos(a, c, q)?;
    let (_, _, p) = l.ops(a, c, &[], 1)?;
    let seq: Vec<u8> = if p > 1 { vec![1, 2, 1, 2, 0x43.min(0x40 | (p as u8 - 1))] } else { vec![1, 2, 1] };
    let n: u32 = seq.iter().map(|x| match x {
        1 => 1,
        2 => p,
        x => (x & 63) as u32,
    }).sum();
    let (o, _, _) = l.ops(a, c, &seq, n)?;
    for i in 0..n {
        let w = l.t().addc(q, i as u128);
        let w = l.ks(a, k, iv, w);
        l.expect_mem(o, i * a.blk, w, &format!("keystream block {} of the run", i));
    }
    let w = l.t().addc(q, n as u128);
    let g = l.getpos(a, c);
    l.expect_b(g, w, "position after the run");
    Some(())
}

// ------------------------------------------------------------------ sequential ciphers
pub enum Seq {
    Hc(Box<crate::spec::Hc256>),
    Ra(crate::spec::Rabbit),
    Rc(Box<crate::spec::Rc4>),
}
impl Seq {
    pub fn new(l: &mut Lab, a: &Alg, k: B, iv: B) -> Seq {
        match a.fam {
            Fam::Hc => Seq::Hc(Box::new(crate::spec::Hc256::new(l.t(), k, iv))),
            Fam::Rabbit => {
                let mut r = crate::spec::Rabbit::key_setup(l.t(), k);
                r.iv_setup(l.t(), iv);
                Seq::Ra(r)
            }
            Fam::RabbitK => Seq::Ra(crate::spec::Rabbit::key_setup(l.t(), k)),
            Fam::Rc4 => Seq::Rc(Box::new(crate::spec::Rc4::new(l.t(), k))),
            _ => panic!("seq"),
        }
    }
    pub fn block(&mut self, l: &mut Lab) -> B {
        match self {
            Seq::Hc(h) => h.step(l.t()),
            Seq::Ra(r) => r.block(l.t()),
            Seq::Rc(r) => r.next(l.t()),
        }
    }
    /// state words of the specification
    pub fn words(&self) -> Vec<B> {
        match self {
            Seq::Hc(h) => h.p.iter().chain(h.q.iter()).cloned().collect(),
            Seq::Ra(r) => r.x.iter().chain(r.c.iter()).chain([&r.b]).cloned().collect(),
            Seq::Rc(r) => r.s.iter().chain([&r.j]).cloned().collect(),
        }
    }
    pub fn words_mut(&mut self) -> Vec<&mut B> {
        match self {
            Seq::Hc(h) => h.p.iter_mut().chain(h.q.iter_mut()).collect(),
            Seq::Ra(r) => r.x.iter_mut().chain(r.c.iter_mut()).chain([&mut r.b]).collect(),
            Seq::Rc(r) => r.s.iter_mut().chain([&mut r.j]).collect(),
        }
    }
}

/// Replaces every state word of the cipher object and of the specification by the same fresh
/// symbol (arbitrary state). Fails (None) when the object does not store the specification's
/// state words one to one; the caller then keeps the concrete history only.
pub fn generalise(l: &mut Lab, o: ObjId, s: &mut Seq, tag: &str) -> Option<()> {
    use std::collections::HashMap;
    let mut m: HashMap<B, B> = HashMap::new();
    let mut i = 0;
    for w in s.words() {
        if m.contains_key(&w) || l.ex.t.is_const(w) {
            continue;
        }
        let n = l.ex.t.w(w);
        let f = l.sym(&format!("{}{}", tag, i), n);
        m.insert(w, f);
        i += 1;
    }
    let cells = l.snapshot(o);
    let mut new: Vec<(u32, B)> = vec![];
    for (off, v) in cells {
        let Val::B(b) = v else { return None };
        if l.ex.t.is_const(b) {
            continue;
        }
        let n = l.ex.t.w(b);
        // the cell may hold several words, or a word wider than the specification's
        let mut out = vec![];
        let mut p = 0;
        'o: while p < n {
            for step in [32u32, 8] {
                if p + step <= n {
                    let mut x = l.t().extract(b, p, step);
                    if l.ex.p.be {
                        x = l.t().bswap(x);
                    }
                    let r = if l.ex.t.is_const(x) {
                        Some(x)
                    } else if let Some(f) = m.get(&x) {
                        Some(*f)
                    } else {
                        let x1 = l.t().extract(x, 0, 1);
                        let z = l.t().zext(x1, step);
                        if z == x && m.contains_key(&x1) {
                            let f = m[&x1];
                            Some(l.t().zext(f, step))
                        } else {
                            None
                        }
                    };
                    if let Some(r) = r {
                        let r = if l.ex.p.be { l.t().bswap(r) } else { r };
                        out.push(r);
                        p += step;
                        continue 'o;
                    }
                }
            }
            return None;
        }
        let v = l.t().concat(&out);
        new.push((off, v));
    }
    for (off, v) in new {
        l.ex.set_bits(o, off, v);
    }
    for w in s.words_mut() {
        if let Some(f) = m.get(w) {
            *w = *f;
        }
    }
    Some(())
}

/// sequential cipher through its core: n blocks from the initial state, then m blocks from an
/// arbitrary state
pub fn seq_core(l: &mut Lab, a: &Alg, n: u32, m: u32) -> Option<()> {
    l.start(&format!("{} keystream", a.name));
    let (k, iv) = l.keyiv(a);
    let mut s = Seq::new(l, a, k, iv);
    let c = l.cnew(a, k, iv)?;
    for i in 0..n {
        let w = s.block(l);
        let b = l.block(a, c)?;
        l.expect_mem(b, 0, w, &format!("keystream block {}", i));
    }
    for round in 0..2 {
        if generalise(l, c, &mut s, &format!("st{}.", round)).is_some() {
            l.inductive += 1;
        }
        for i in 0..m {
            let w = s.block(l);
            let b = l.block(a, c)?;
            l.expect_mem(b, 0, w, &format!("keystream block {} from an arbitrary state", i));
        }
        // batches
        let (o, d, _) = l.ops(a, c, &[2, 1, 2], 3)?;
        l.oblige(d == 3, "number of blocks", String::new(), format!("{} of 3", d));
        for i in 0..3 {
            let w = s.block(l);
            l.expect_mem(o, i * a.blk, w, &format!("keystream block {} of a batch", i));
        }
    }
    let ps = (l.pb() / 8) as u64;
    let rb = l.ex.alloc("rem", ps, ps);
    let args = [l.p(c), l.p(rb)];
    let f = l.callb(&format!("e_{}_crem", a.name), &args);
    l.expect_c(f, 0, "remaining_blocks is absent");
    Some(())
}

pub fn rabbit_inner(l: &mut Lab) -> Option<()> {
    l.start("rabbit inner_iv_init");
    let k = l.sym("key", 128);
    let iv = l.sym("iv", 64);
    let c = l.cnew(&RABBITK, k, iv)?;
    let mut s = Seq::new(l, &RABBITK, k, iv);
    // a master state with an arbitrary carry (the state of RabbitKeyOnly after its set-up)
    if generalise(l, c, &mut s, "ms").is_some() {
        l.inductive += 1;
    }
    if let Seq::Ra(r) = &mut s {
        r.iv_setup(&mut l.ex.t, iv);
    }
    let o = l.core(&RABBIT)?;
    let ib = l.buf("iv", iv);
    let args = [l.p(o), l.p(c), l.p(ib)];
    l.call("e_rabbit_inner", &args)?;
    for i in 0..3 {
        let w = s.block(l);
        let b = l.block(&RABBIT, o)?;
        l.expect_mem(b, 0, w, &format!("keystream block {} after IV set-up", i));
    }
    Some(())
}

// ------------------------------------------------------------------ RC4
pub fn rc4_new(l: &mut Lab, key: B) -> Option<ObjId> {
    let o = l.wrap(&RC4)?;
    let n = l.ex.t.w(key) / 8;
    let kb = l.buf("key", key);
    let nn = l.us(n as u64);
    let args = [l.p(o), l.p(kb), nn];
    let f = l.callb("e_rc4_wnews", &args);
    l.expect_c(f, 1, &format!("RC4 accepts a {}-byte key", n));
    Some(o)
}
/// `steps`: (kind, bytes): 0 in place, 1 buffer to buffer, 2 write
pub fn rc4_steps(l: &mut Lab, o: ObjId, s: &mut Seq, steps: &[(u8, u32)]) -> Option<()> {
    let mut n0 = 0;
    for (kind, n) in steps {
        let data = l.fresh("data", 8 * n);
        let mut ks = vec![];
        for _ in 0..*n {
            ks.push(s.block(l));
        }
        let ks = l.t().concat(&ks);
        stream_op(l, "rc4", o, *kind, *n, data, ks, n0)?;
        n0 += n;
    }
    Some(())
}
fn stream_op(l: &mut Lab, name: &str, o: ObjId, kind: u8, n: u32, data: B, ks: B, at: u32) -> Option<()> {
    let nn = l.us(n as u64);
    let x = l.t().xor(data, ks);
    match kind {
        0 => {
            let b = l.buf("message", data);
            let args = [l.p(o), l.p(b), nn];
            let f = l.callb(&format!("e_{}_apply", name), &args);
            l.expect_c(f, 1, "in-place encryption succeeds");
            l.expect_mem(b, 0, x, &format!("message bytes {}..{} are data ^ keystream", at, at + n));
        }
        1 => {
            let b = l.buf("message", data);
            let d = l.out("out", n, 1);
            let args = [l.p(o), l.p(b), l.p(d), nn];
            let f = l.callb(&format!("e_{}_b2b", name), &args);
            l.expect_c(f, 1, "buffer-to-buffer encryption succeeds");
            l.expect_mem(d, 0, x, &format!("output bytes {}..{} are data ^ keystream", at, at + n));
            l.expect_mem(b, 0, data, "input buffer unchanged");
        }
        _ => {
            let b = l.buf("message", data);
            let args = [l.p(o), l.p(b), nn];
            let f = l.callb(&format!("e_{}_write", name), &args);
            l.expect_c(f, 1, "keystream write succeeds");
            l.expect_mem(b, 0, ks, &format!("bytes {}..{} are keystream", at, at + n));
        }
    }
    Some(())
}
pub fn rc4_key(l: &mut Lab, n: u32, out: u32) -> Option<()> {
    l.start(&format!("RC4 {}-byte key", n));
    let key = l.sym(&format!("rkey{}.", n), 8 * n);
    let mut s = Seq::new(l, &RC4, key, 0);
    let o = rc4_new(l, key)?;
    if std::env::var("VGDBG").is_ok() {
        for k in 0..256u32 {
            for at in 0..1u32 {
                let g = l.ex.read_bits(o, k + at, 1);
                let w = s.words()[k as usize];
                if g != w {
                    eprintln!("key {} elem {}:\n  got {}\n  want {}", n, k, l.ex.t.show_d(g, 12), l.ex.t.show_d(w, 12));
                    return None;
                }
            }
        }
    }
    rc4_steps(l, o, &mut s, &[(0, out)])
}
/// arbitrary state: single steps over a whole period of the index, all three operations, splits
pub fn rc4_state(l: &mut Lab, from: u32, n: u32) -> Option<()> {
    l.start(&format!("RC4 arbitrary state, index {}..{}", from, from + n));
    let key = l.sym("rkey1.", 8);
    let mut s = Seq::new(l, &RC4, key, 0);
    let o = rc4_new(l, key)?;
    let mut i = 0;
    while i < from {
        let k = 1.min(from - i);
        rc4_steps(l, o, &mut s, &[(2, k)])?;
        if generalise(l, o, &mut s, &format!("z{}.", i)).is_none() {
            return Some(());
        }
        i += k;
    }
    for i in 0..n {
        if generalise(l, o, &mut s, &format!("g{}.", i)).is_none() {
            return Some(());
        }
        l.inductive += 1;
        rc4_steps(l, o, &mut s, match i % 3 {
            0 => &[(0, 1), (0, 0)],
            1 => &[(1, 1)],
            _ => &[(2, 1), (2, 0)],
        })?;
    }
    generalise(l, o, &mut s, "e.")?;
    rc4_steps(l, o, &mut s, &[(0, 3), (2, 2), (1, 2), (0, 0), (0, 1)])
}

// ------------------------------------------------------------------ lengths
/// construction from slices: every key/nonce length, given as ranges covering all of usize
pub fn lengths(l: &mut Lab, a: &Alg) -> Option<()> {
    let pb = l.pb();
    let has_iv = a.iv > 0;
    let mut classes: Vec<B> = vec![];
    let top = 80u64;
    for n in 0..top {
        classes.push(l.k(pb, n as u128));
    }
    let tail = {
        // top .. : top + sym in a range that cannot wrap (isize::MAX is the language's limit)
        let s = l.public("len", pb - 2);
        let s = l.t().zext(s, pb);
        l.t().addc(s, top as u128)
    };
    let k = l.sym("key", a.key * 8);
    let iv = l.sym("iv", a.iv * 8);
    let big = |l: &mut Lab, nm: &str, b: B, n: B| -> ObjId {
        let len = match l.ex.t.as_const(n) {
            Some(c) => c as u32,
            None => 4096,
        };
        let w = l.ex.t.w(b) / 8;
        let b = if len <= w {
            l.t().extract(b, 0, len * 8)
        } else {
            let x = l.sym(&format!("{}.rest", nm), 8 * (len - w));
            l.t().concat(&[b, x])
        };
        l.buf(nm, b)
    };
    classes.push(tail);
    let kk = l.k(pb, a.key as u128);
    let ki = l.k(pb, a.iv as u128);
    let mut pairs: Vec<(B, B)> = classes.iter().map(|n| (*n, ki)).collect();
    if has_iv {
        pairs.extend(classes.iter().map(|n| (kk, *n)));
        // swapped and equal wrong lengths
        for n in [0u128, 8, 12, 16, 24, 32, 64] {
            let c = l.k(pb, n);
            pairs.push((c, c));
        }
        pairs.push((ki, kk));
    }
    for (nk, ni) in pairs {
        let s = format!("{} from slices of length {} and {}", a.name, l.ex.t.show_d(nk, 2), l.ex.t.show_d(ni, 2));
        l.start(&s);
        let o = l.wrap(a)?;
        let kb = big(l, "key", k, nk);
        let mut args = vec![l.p(o), l.p(kb), Val::B(nk)];
        if has_iv {
            let ib = big(l, "iv", iv, ni);
            args.push(l.p(ib));
            args.push(Val::B(ni));
        }
        let f = l.callb(&format!("e_{}_wnews", a.name), &args);
        let ok = nk == kk && (!has_iv || ni == ki);
        l.expect_c(f, ok as u128, if ok { "exact lengths are accepted" } else { "other lengths are rejected" });
        if ok && !l.stopped {
            // no misread: same object as the fixed-size constructor builds
            let c = l.wnew(a, k, iv)?;
            let same = l.snapshot(o) == l.snapshot(c);
            if same {
                l.oblige(true, "", String::new(), String::new());
            } else {
                let n = a.blk * 2;
                let d = l.fresh("data", 8 * n);
                let (x, y) = (l.buf("m1", d), l.buf("m2", d));
                let nn = l.us(n as u64);
                let args = [l.p(o), l.p(x), nn.clone()];
                l.call(&format!("e_{}_apply", a.name), &args)?;
                let args = [l.p(c), l.p(y), nn];
                l.call(&format!("e_{}_apply", a.name), &args)?;
                let w = l.ex.read_bits(y, 0, n);
                l.expect_mem(x, 0, w, "cipher built from slices equals the one built from arrays");
            }
        }
    }
    Some(())
}
pub fn rc4_lengths(l: &mut Lab, part: u32, parts: u32) -> Option<()> {
    let pb = l.pb();
    for n in 0..=300u32 {
        if n % parts != part {
            continue;
        }
        l.start(&format!("RC4 from a slice of length {}", n));
        let key = l.public("pkey", 8);
        let o = l.wrap(&RC4)?;
        let b = l.k(8 * n, 0);
        let _ = key;
        let kb = l.buf("key", b);
        let nn = l.us(n as u64);
        let args = [l.p(o), l.p(kb), nn];
        let f = l.callb("e_rc4_wnews", &args);
        l.expect_c(f, (1..=256).contains(&n) as u128, "RC4 accepts exactly 1 to 256 bytes");
    }
    if part == 0 {
        l.start("RC4 from a slice longer than 256 bytes");
        let o = l.wrap(&RC4)?;
        let s = l.public("len", pb - 2);
        let s = l.t().zext(s, pb);
        let n = l.t().addc(s, 257);
        let z = l.k(8 * 4096, 0);
        let kb = l.buf("key", z);
        let args = [l.p(o), l.p(kb), Val::B(n)];
        let f = l.callb("e_rc4_wnews", &args);
        l.expect_c(f, 0, "RC4 rejects keys over 256 bytes");
    }
    Some(())
}

// ------------------------------------------------------------------ whole messages
/// a block position q of the form 1^j 0 sym : room for at least 2^(ctr-1-j) blocks
pub fn pos_class(l: &mut Lab, a: &Alg, j: u32) -> B {
    let n = a.ctr - 1 - j;
    let s = l.sym(&format!("q{}.", j), n);
    let z = l.k(1, 0);
    let o = l.k(j, mask128(j));
    l.t().concat(&[s, z, o])
}
/// seek to byte 64*q + r
pub fn seek_to(l: &mut Lab, a: &Alg, o: ObjId, q: B, r: u32) -> Option<B> {
    let sh = 6;
    let rb = l.k(sh, r as u128);
    let b = l.t().concat(&[rb, q]);
    if a.ctr == 32 {
        let v = l.t().zext(b, 64);
        let p = l.p(o);
        l.callb(&format!("e_{}_seek", a.name), &[p, Val::B(v)])
    } else {
        let v = l.t().zext(b, 128);
        let vb = l.ibuf("pos", v);
        let args = [l.p(o), l.p(vb)];
        l.callb(&format!("e_{}_seek128", a.name), &args)
    }
}
/// the byte position the wrapper reports is `64*q + r + n`
pub fn at_pos(l: &mut Lab, a: &Alg, o: ObjId, q: B, off: u32, what: &str) -> Option<()> {
    let z6 = l.k(6, 0);
    let p = l.t().concat(&[z6, q]);
    let p = l.t().zext(p, 128);
    let want = l.t().addc(p, off as u128);
    let rb = l.ex.alloc("pos", 16, 16);
    let z = l.k(128, 0);
    l.ex.set_bits(rb, 0, z);
    let args = [l.p(o), l.p(rb)];
    let f = l.callb(&format!("e_{}_pos128", a.name), &args);
    l.expect_c(f, 1, &format!("byte position is available {}", what));
    l.expect_int(rb, 0, want, &format!("byte position {}", what));
    if a.ctr == 32 {
        let rb = l.ex.alloc("pos", 8, 8);
        let z = l.k(64, 0);
        l.ex.set_bits(rb, 0, z);
        let args = [l.p(o), l.p(rb)];
        let f = l.callb(&format!("e_{}_pos", a.name), &args);
        l.expect_c(f, 1, &format!("64-bit byte position is available {}", what));
        let w = l.t().extract(want, 0, 64);
        l.expect_int(rb, 0, w, &format!("64-bit byte position {}", what));
    }
    Some(())
}
fn bytes_ks(l: &mut Lab, a: &Alg, k: B, iv: B, q: B, from: u32, n: u32) -> B {
    let mut v = vec![];
    let (b0, b1) = (from / 64, (from + n + 63) / 64);
    for i in b0..b1 {
        let c = l.t().addc(q, i as u128);
        v.push(l.ks(a, k, iv, c));
    }
    let all = l.t().concat(&v);
    l.t().extract(all, (from - 64 * b0) * 8, n * 8)
}

/// seekable cipher: start at 64*q + r, process the pieces
pub fn message(l: &mut Lab, a: &Alg, q: Option<B>, r: u32, pieces: &[(u8, u32)]) -> Option<()> {
    l.start(&format!("{} message from {} offset {} pieces {:?}", a.name, if q.is_some() { "seek position" } else { "start" }, r, pieces));
    let (k, iv) = l.keyiv(a);
    let c = l.wnew(a, k, iv)?;
    let z = l.k(a.ctr, 0);
    let start = q.is_none();
    let q = match q {
        Some(q) => {
            let f = seek_to(l, a, c, q, r);
            l.expect_c(f, 1, "seek succeeds");
            at_pos(l, a, c, q, r, "after the seek")?;
            q
        }
        None => z,
    };
    let mut at = r;
    let first: Vec<(u8, u32)> = if start && r > 0 { vec![(0, r)] } else { vec![] };
    if start {
        at = 0;
    }
    for (kind, n) in first.iter().chain(pieces) {
        let d = l.fresh("data", 8 * n);
        let ks = bytes_ks(l, a, k, iv, q, at, *n);
        stream_op(l, a.name, c, *kind, *n, d, ks, at)?;
        at += n;
        at_pos(l, a, c, q, at, "after the piece")?;
    }
    // and back: decrypting from the same position restores the data
    let f = seek_to(l, a, c, q, r);
    l.expect_c(f, 1, "seek back succeeds");
    let d = l.fresh("data", 8 * 70);
    let ks = bytes_ks(l, a, k, iv, q, r, 70);
    let x = l.t().xor(d, ks);
    let b = l.buf("message", x);
    let args = [l.p(c), l.p(b), l.us(70)];
    l.call(&format!("e_{}_apply", a.name), &args)?;
    l.expect_mem(b, 0, d, "applying twice from the same position restores the message");
    Some(())
}

/// message from the first keystream byte, positions are constants
pub fn message_start(l: &mut Lab, a: &Alg, pieces: &[(u8, u32)]) -> Option<()> {
    l.start(&format!("{} first message, pieces {:?}", a.name, pieces));
    let (k, iv) = l.keyiv(a);
    let c = l.wnew(a, k, iv)?;
    let q = l.k(a.ctr, 0);
    let mut at = 0;
    for (kind, n) in pieces {
        let d = l.fresh("data", 8 * n);
        let ks = bytes_ks(l, a, k, iv, q, at, *n);
        stream_op(l, a.name, c, *kind, *n, d, ks, at)?;
        at += n;
    }
    at_pos(l, a, c, q, at, "after the message")
}
pub fn rc4_messages(l: &mut Lab, n: u32) -> Option<()> {
    for pieces in [&[(0u8, 1u32), (1, 2), (2, 1), (0, 0), (1, 3)], &[(2, 2), (0, 3), (1, 0), (1, 1), (2, 1)]] {
        l.start(&format!("RC4 {}-byte key, pieces {:?}", n, pieces));
        let key = l.sym(&format!("rkey{}.", n), 8 * n);
        let mut s = Seq::new(l, &RC4, key, 0);
        let o = rc4_new(l, key)?;
        rc4_steps(l, o, &mut s, pieces)?;
    }
    Some(())
}
/// one long message; the key is a constant so that every table index is known
pub fn rc4_long(l: &mut Lab, kind: u8, n: u32) -> Option<()> {
    l.start(&format!("RC4 constant key, operation {} on {} bytes", kind, n));
    let key = l.k(128, 0x0f0e_0d0c_0b0a_0908_0706_0504_0302_0100);
    let mut s = Seq::new(l, &RC4, key, 0);
    let o = rc4_new(l, key)?;
    rc4_steps(l, o, &mut s, &[(kind, 5), (kind, n), (2 - kind, 7)])
}
/// two instances of everything, used alternately: each keeps to its own keystream
pub fn interleaved(l: &mut Lab) -> Option<()> {
    for a in [SALSA[0], XSALSA[0]] {
        inter_ctr(l, &a);
    }
    for a in [RABBIT, RABBITK, HC, RC4] {
        inter_seq(l, &a);
    }
    Some(())
}
pub fn interleaved_chacha(l: &mut Lab) -> Option<()> {
    for a in [CHACHA[0], XCHACHA[0], LEGACY] {
        inter_ctr(l, &a);
    }
    let a = RNG[0];
    l.start("interleaved generators");
    let mut x = Rng::new(l, &a)?;
    let seed = l.sym("seedB", 256);
    let o = l.wrap(&a)?;
    let sb = l.buf("seed", seed);
    let args = [l.p(o), l.p(sb)];
    l.call(&format!("e_{}_wnew", a.name), &args)?;
    let z = l.k(64, 0);
    let mut y = Rng { a, o, seed, stream: z, base: z, n: 0 };
    let s = l.sym("stream", 64);
    x.u32(l)?;
    y.setstream(l, s)?;
    x.u64(l)?;
    y.fill(l, 9)?;
    x.fill(l, 300)?;
    y.u64(l)?;
    x.check(l)?;
    y.check(l)?;
    let st = x.ser(l)?;
    let d = Rng::de(l, &a, st)?;
    let mut w = Rng { o: d, ..Rng { a, o: d, seed: x.seed, stream: x.stream, base: x.base, n: x.n } };
    w.u32(l)?;
    y.u32(l)?;
    x.u32(l)?;
    w.check(l)?;
    let args = [l.p(w.o)];
    l.call(&format!("e_{}_wdrop", a.name), &args)?;
    x.u64(l)?;
    y.u64(l)
}
fn inter_ctr(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} interleaved instances", a.name));
    let (k1, i1) = l.keyiv(a);
    let k2 = l.sym("keyB", a.key * 8);
    let i2 = l.sym("ivB", a.iv * 8);
    let z = l.k(a.ctr, 0);
    let x = l.wnew(a, k1, i1)?;
    let y = l.wnew(a, k2, i2)?;
    let mut at = [0u32; 2];
    for (w, kind, n) in [(0usize, 0u8, 7u32), (1, 1, 64), (0, 2, 300), (1, 0, 3), (1, 2, 320), (0, 1, 60)] {
        let (c, k, i) = if w == 0 { (x, k1, i1) } else { (y, k2, i2) };
        let d = l.fresh("data", 8 * n);
        let ks = bytes_ks(l, a, k, i, z, at[w], n);
        stream_op(l, a.name, c, kind, n, d, ks, at[w])?;
        at[w] += n;
        at_pos(l, a, x, z, at[0], "of the first instance")?;
        at_pos(l, a, y, z, at[1], "of the second instance")?;
    }
    let args = [l.p(x)];
    l.call(&format!("e_{}_wdrop", a.name), &args)?;
    let d = l.fresh("data", 800);
    let ks = bytes_ks(l, a, k2, i2, z, at[1], 100);
    stream_op(l, a.name, y, 0, 100, d, ks, at[1])
}
fn inter_seq(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} interleaved instances", a.name));
    let kl = if a.fam == Fam::Rc4 { 5 } else { a.key };
    let (k1, k2) = (l.sym("rkA.", kl * 8), l.sym("rkB.", kl * 8));
    let (i1, i2) = if a.iv > 0 { (l.sym("ivA", a.iv * 8), l.sym("ivB", a.iv * 8)) } else { (l.k(0, 0), l.k(0, 0)) };
    let mut s = [Seq::new(l, a, k1, i1), Seq::new(l, a, k2, i2)];
    let o = if a.fam == Fam::Rc4 { [rc4_new(l, k1)?, rc4_new(l, k2)?] } else { [l.wnew(a, k1, i1)?, l.wnew(a, k2, i2)?] };
    let b = if a.blk > 1 { a.blk } else { 1 };
    for (w, kind, n) in [(0usize, 0u8, 1u32), (1, 1, 2), (0, 2, 1), (1, 0, 1), (0, 1, 1)] {
        let mut v = vec![];
        for _ in 0..n {
            v.push(s[w].block(l));
        }
        let ks = l.t().concat(&v);
        let d = l.fresh("data", 8 * n * b);
        stream_op(l, a.name, o[w], kind, n * b, d, ks, 0)?;
    }
    let args = [l.p(o[0])];
    l.call(&format!("e_{}_wdrop", a.name), &args)?;
    let ks = s[1].block(l);
    let d = l.fresh("data", 8 * b);
    stream_op(l, a.name, o[1], 0, b, d, ks, 0)
}

/// sequential cipher through the wrapper
pub fn message_seq(l: &mut Lab, a: &Alg, pieces: &[(u8, u32)]) -> Option<()> {
    l.start(&format!("{} message pieces {:?}", a.name, pieces));
    let (k, iv) = l.keyiv(a);
    let mut s = Seq::new(l, a, k, iv);
    let c = if a.fam == Fam::Rc4 { rc4_new(l, k)? } else { l.wnew(a, k, iv)? };
    let total: u32 = pieces.iter().map(|p| p.1).sum();
    let mut v = vec![];
    for _ in 0..(total + a.blk - 1) / a.blk {
        v.push(s.block(l));
    }
    let all = l.t().concat(&v);
    let mut at = 0;
    for (kind, n) in pieces {
        let d = l.fresh("data", 8 * n);
        let ks = l.t().extract(all, at * 8, n * 8);
        stream_op(l, a.name, c, *kind, *n, d, ks, at)?;
        at += n;
    }
    Some(())
}

/// near the end of the counter: what fits succeeds, what does not fails and changes nothing
pub fn overrun(l: &mut Lab, a: &Alg, d: u32, r: u32) -> Option<()> {
    let (k, iv) = l.keyiv(a);
    let max = mask128(a.ctr);
    let q = l.k(a.ctr, max - d as u128);
    l.start(&format!("{} {} blocks before the end, offset {}", a.name, d, r));
    let c = l.wnew(a, k, iv)?;
    if d == 0 && r > 0 {
        let p = l.k(a.ctr, 7);
        seek_to(l, a, c, p, 5)?;
        let f = seek_to(l, a, c, q, r);
        l.expect_c(f, 0, "seeking inside the unusable last block fails");
        at_pos(l, a, c, p, 5, "unchanged by the failed seek")?;
        let ks = bytes_ks(l, a, k, iv, p, 5, 64);
        let dt = l.fresh("data", 8 * 64);
        return stream_op(l, a.name, c, 0, 64, dt, ks, 5);
    }
    let f = seek_to(l, a, c, q, r);
    l.expect_c(f, 1, "seek succeeds");
    let cap = 64 * d - r;
    let mut at = r;
    let fail = |l: &mut Lab, c: ObjId, n: u32, at: u32, kind: u8| -> Option<()> {
        let dt = l.fresh("data", 8 * n);
        let b = l.buf("message", dt);
        let nn = l.us(n as u64);
        let f = match kind {
            0 => {
                let args = [l.p(c), l.p(b), nn];
                l.callb(&format!("e_{}_apply", a.name), &args)
            }
            1 => {
                let o = l.buf("out", dt);
                let args = [l.p(c), l.p(b), l.p(o), nn];
                let f = l.callb(&format!("e_{}_b2b", a.name), &args);
                l.expect_mem(o, 0, dt, "output untouched by the failing call");
                f
            }
            _ => {
                let args = [l.p(c), l.p(b), nn];
                l.callb(&format!("e_{}_write", a.name), &args)
            }
        };
        l.expect_c(f, 0, &format!("{} bytes with {} left fail", n, cap + r - at));
        l.expect_mem(b, 0, dt, "data untouched by the failing call");
        if at > 0 || d > 0 {
            at_pos(l, a, c, q, at, "after the failing call")?;
        }
        Some(())
    };
    fail(l, c, cap + 1, at, 0)?;
    fail(l, c, cap + 64, at, 1)?;
    fail(l, c, cap + 65, at, 2)?;
    if cap > 1 {
        let n = cap / 2;
        let ks = bytes_ks(l, a, k, iv, q, at, n);
        let dt = l.fresh("data", 8 * n);
        stream_op(l, a.name, c, 0, n, dt, ks, at)?;
        at += n;
        fail(l, c, cap + r - at + 1, at, 2)?;
    }
    let n = cap + r - at;
    if n > 0 {
        let ks = bytes_ks(l, a, k, iv, q, at, n);
        let dt = l.fresh("data", 8 * n);
        stream_op(l, a.name, c, 1, n, dt, ks, at)?;
        at += n;
    }
    fail(l, c, 1, at, 0)?;
    let e = l.k(0, 0);
    stream_op(l, a.name, c, 0, 0, e, e, at)?;
    // still usable after going back
    let z = l.k(a.ctr, 0);
    let f = seek_to(l, a, c, z, 1);
    l.expect_c(f, 1, "seek back succeeds");
    let ks = bytes_ks(l, a, k, iv, z, 1, 64);
    let dt = l.fresh("data", 8 * 64);
    stream_op(l, a.name, c, 0, 64, dt, ks, 1)
}

/// positions past the counter are rejected and change nothing
pub fn bad_seek(l: &mut Lab, a: &Alg) -> Option<()> {
    l.start(&format!("{} seek past the end", a.name));
    let (k, iv) = l.keyiv(a);
    let c = l.wnew(a, k, iv)?;
    let q = l.sym("qq", a.ctr - 1);
    let z1 = l.k(1, 0);
    let q = l.t().concat(&[q, z1]);
    let f = seek_to(l, a, c, q, 9);
    l.expect_c(f, 1, "seek succeeds");
    // 64 * 2^ctr + anything
    let w = 128;
    let lim = a.ctr + 6;
    for j in 0..(w - lim).min(8) {
        let lo = l.sym(&format!("far{}.", j), lim + j);
        let one = l.k(1, 1);
        let b = l.t().concat(&[lo, one]);
        let b = l.t().zext(b, w);
        let vb = l.ibuf("pos", b);
        let args = [l.p(c), l.p(vb)];
        let f = l.callb(&format!("e_{}_seek128", a.name), &args);
        l.expect_c(f, 0, "a position past the counter is rejected");
        at_pos(l, a, c, q, 9, "unchanged by the rejected seek")?;
    }
    let ks = bytes_ks(l, a, k, iv, q, 9, 100);
    let dt = l.fresh("data", 800);
    stream_op(l, a.name, c, 0, 100, dt, ks, 9)
}

// ------------------------------------------------------------------ RNG
pub struct Rng {
    pub a: Alg,
    pub o: ObjId,
    pub seed: B,
    pub stream: B,
    /// block number of the reference point and words read since
    pub base: B,
    pub n: u32,
}
impl Rng {
    pub fn new(l: &mut Lab, a: &Alg) -> Option<Rng> {
        let seed = l.sym("seed", 256);
        let o = l.wrap(a)?;
        let sb = l.buf("seed", seed);
        let args = [l.p(o), l.p(sb)];
        l.call(&format!("e_{}_wnew", a.name), &args)?;
        let stream = l.k(64, 0);
        let base = l.k(64, 0);
        Some(Rng { a: *a, o, seed, stream, base, n: 0 })
    }
    fn word(&self, l: &mut Lab, i: u32) -> B {
        let c = l.t().addc(self.base, (i / 16) as u128);
        let a = self.a;
        let b = l.ks(&a, self.seed, self.stream, c);
        l.t().extract(b, 32 * (i % 16), 32)
    }
    fn f(&self, s: &str) -> String {
        format!("e_{}_{}", self.a.name, s)
    }
    pub fn u32(&mut self, l: &mut Lab) -> Option<()> {
        let w = self.word(l, self.n);
        let p = l.p(self.o);
        let g = l.callb(&self.f("u32"), &[p]);
        l.expect_b(g, w, &format!("word {} of the sequence", self.n));
        self.n += 1;
        g.map(|_| ())
    }
    pub fn u64(&mut self, l: &mut Lab) -> Option<()> {
        let (a, b) = (self.word(l, self.n), self.word(l, self.n + 1));
        let w = l.t().concat(&[a, b]);
        let p = l.p(self.o);
        let g = l.callb(&self.f("u64"), &[p]);
        l.expect_b(g, w, &format!("words {} and {} of the sequence, low word first", self.n, self.n + 1));
        self.n += 2;
        g.map(|_| ())
    }
    pub fn fill(&mut self, l: &mut Lab, bytes: u32) -> Option<()> {
        let words = (bytes + 3) / 4;
        let v: Vec<B> = (0..words).map(|i| self.word(l, self.n + i)).collect();
        let all = l.t().concat(&v);
        let want = l.t().extract(all, 0, 8 * bytes);
        let b = l.out("bytes", bytes, 1);
        let args = [l.p(self.o), l.p(b), l.us(bytes as u64)];
        l.call(&self.f("fill"), &args)?;
        l.expect_mem(b, 0, want, &format!("{} bytes from word {}", bytes, self.n));
        self.n += words;
        Some(())
    }
    /// everything the generator reports about its position
    pub fn check(&self, l: &mut Lab) -> Option<()> {
        let z4 = l.k(4, 0);
        let wp = l.t().concat(&[z4, self.base]); // 68 bits
        let wp = l.t().addc(wp, self.n as u128);
        let want = l.t().zext(wp, 128);
        let rb = l.ex.alloc("wordpos", 16, 16);
        let args = [l.p(self.o), l.p(rb)];
        l.call(&self.f("getword"), &args)?;
        l.expect_int(rb, 0, want, &format!("word position {} words after the reference point", self.n));
        let p = l.p(self.o);
        let g = l.callb(&self.f("getblock"), &[p.clone()]);
        let bp = l.t().addc(self.base, (self.n / 16) as u128);
        l.expect_b(g, bp, &format!("block position {} words after the reference point", self.n));
        let g = l.callb(&self.f("getstream"), &[p.clone()]);
        l.expect_b(g, self.stream, "stream number");
        let sb = l.out("seed", 32, 1);
        let args = [p, l.p(sb)];
        l.call(&self.f("getseed"), &args)?;
        l.expect_mem(sb, 0, self.seed, "seed");
        Some(())
    }
    pub fn setword(&mut self, l: &mut Lab, block: B, n0: u32, top: B) -> Option<()> {
        let lo = l.k(4, n0 as u128);
        let v = l.t().concat(&[lo, block, top]);
        let vb = l.ibuf("word", v);
        let args = [l.p(self.o), l.p(vb)];
        l.call(&self.f("setword"), &args)?;
        self.base = block;
        self.n = n0;
        Some(())
    }
    pub fn setblock(&mut self, l: &mut Lab, block: B) -> Option<()> {
        let args = [l.p(self.o), Val::B(block)];
        l.call(&self.f("setblock"), &args)?;
        self.base = block;
        self.n = 0;
        Some(())
    }
    pub fn setstream(&mut self, l: &mut Lab, s: B) -> Option<()> {
        let args = [l.p(self.o), Val::B(s)];
        l.call(&self.f("setstream"), &args)?;
        self.stream = s;
        self.base = l.k(64, 0);
        self.n = 0;
        Some(())
    }
    pub fn state(&self, l: &mut Lab) -> B {
        let z4 = l.k(4, 0);
        let wp = l.t().concat(&[z4, self.base]);
        let wp = l.t().addc(wp, self.n as u128);
        let wp = l.t().zext(wp, 72);
        l.t().concat(&[self.seed, self.stream, wp])
    }
    pub fn ser(&self, l: &mut Lab) -> Option<ObjId> {
        let want = self.state(l);
        let b = l.out("state", 49, 1);
        let args = [l.p(self.o), l.p(b)];
        l.call(&self.f("ser"), &args)?;
        l.expect_mem(b, 0, want, "serialised state is seed, stream, 68-bit word position");
        Some(b)
    }
    pub fn de(l: &mut Lab, a: &Alg, st: ObjId) -> Option<ObjId> {
        let o = l.wrap(a)?;
        let args = [l.p(o), l.p(st)];
        l.call(&format!("e_{}_de", a.name), &args)?;
        Some(o)
    }
    pub fn op(&mut self, l: &mut Lab, k: i32) -> Option<()> {
        match k {
            -1 => self.u32(l),
            -2 => self.u64(l),
            n => self.fill(l, n as u32),
        }
    }
}
pub fn opname(k: i32) -> String {
    match k {
        -1 => "u32".into(),
        -2 => "u64".into(),
        n => format!("fill{}", n),
    }
}
pub const RNG_FILLS: &[i32] = &[-1, -2, 0, 1, 2, 3, 4, 5, 7, 8, 63, 64, 65, 252, 253, 255, 256, 257, 260, 511, 513, 1025];

/// fresh generator: words from the start of stream 0
pub fn rng_start(l: &mut Lab, a: &Alg, ops: &[i32], pos: bool) -> Option<()> {
    l.start(&format!("{} {}", a.name, ops.iter().map(|k| opname(*k)).collect::<Vec<_>>().join(" ")));
    let mut r = Rng::new(l, a)?;
    if pos {
        r.check(l)?;
    }
    for k in ops {
        r.op(l, *k)?;
        if pos {
            r.check(l)?;
        }
    }
    Some(())
}
/// buffer index i (1..=64 words of a batch consumed) at an arbitrary block and stream, then one
/// operation; the resulting state is that of a generator positioned there directly
pub fn rng_index(l: &mut Lab, a: &Alg, i: u32, ops: &[i32], pos: bool) -> Option<()> {
    for k in ops {
        l.start(&format!("{} after {} words of a batch: {}", a.name, i, opname(*k)));
        let st = l.sym("stream", 64);
        let b = l.sym("block", 64);
        let mut r = Rng::new(l, a)?;
        r.setstream(l, st)?;
        r.setblock(l, b)?;
        if i > 0 {
            r.fill(l, 4 * i)?;
        }
        r.op(l, *k)?;
        if pos {
            r.check(l)?;
        }
        // inductive step: same state as a generator that reached this place by one fill
        let n = r.n;
        let (m, skip) = ((n % 64), (n / 64) * 4);
        let (m, skip) = if m == 0 && n > 0 { (64, skip - 4) } else { (m, skip) };
        let b2 = l.t().addc(b, skip as u128);
        let o1 = r.o;
        let mut q = Rng::new(l, a)?;
        q.setstream(l, st)?;
        q.setblock(l, b2)?;
        if m > 0 {
            q.fill(l, 4 * m)?;
        }
        if l.snapshot(o1) == l.snapshot(q.o) {
            l.inductive += 1;
        } else {
            r.u64(l)?;
            r.fill(l, 300)?;
        }
    }
    Some(())
}
/// setting positions and streams from any buffer index
pub fn rng_set(l: &mut Lab, a: &Alg, i: u32) -> Option<()> {
    l.start(&format!("{} set positions after {} words", a.name, i));
    let (s1, s2) = (l.sym("stream", 64), l.sym("stream2", 64));
    let (b1, b2) = (l.sym("block", 64), l.sym("block2", 64));
    let top = l.sym("topbits", 60);
    let mut r = Rng::new(l, a)?;
    r.setstream(l, s1)?;
    r.check(l)?;
    r.setblock(l, b1)?;
    r.check(l)?;
    if i > 0 {
        r.fill(l, 4 * i)?;
    }
    r.check(l)?;
    // word position with every low nibble, bits above 68 ignored
    let n0 = i % 16;
    r.setword(l, b2, n0, top)?;
    r.check(l)?;
    r.u32(l)?;
    r.check(l)?;
    r.u64(l)?;
    r.check(l)?;
    r.fill(l, 250)?;
    r.check(l)?;
    r.setblock(l, b1)?;
    r.check(l)?;
    r.u64(l)?;
    r.setstream(l, s2)?;
    r.check(l)?;
    r.u32(l)?;
    r.check(l)?;
    r.setword(l, b1, (n0 + 7) % 16, top)?;
    r.check(l)?;
    r.fill(l, 9)?;
    r.check(l)
}
/// every setter directly after i words of a buffer at an arbitrary block, then reads
pub fn rng_set_each(l: &mut Lab, a: &Alg, i: u32) -> Option<()> {
    for op in 0..5u32 {
        l.start(&format!("{} setter {} after {} words", a.name, op, i));
        let (s1, s2) = (l.sym("stream", 64), l.sym("stream2", 64));
        let (b1, b2) = (l.sym("block", 64), l.sym("block2", 64));
        let top = l.sym("topbits", 60);
        let mut r = Rng::new(l, a)?;
        r.setstream(l, s1)?;
        r.setblock(l, b1)?;
        if i > 0 {
            r.fill(l, 4 * i)?;
        }
        match op {
            0 => r.setstream(l, s2)?,
            1 => r.setstream(l, s1)?,
            2 => r.setblock(l, b2)?,
            3 => r.setword(l, b2, (i + 3) % 16, top)?,
            _ => r.setword(l, b1, i % 16, top)?,
        }
        r.check(l)?;
        r.u32(l)?;
        r.fill(l, 260)?;
        r.check(l)?;
    }
    Some(())
}
/// positions around the wrap of the 64-bit block counter
pub fn rng_wrap(l: &mut Lab, a: &Alg, back: u32, n0: u32) -> Option<()> {
    l.start(&format!("{} {} blocks before the counter wraps, word {}", a.name, back, n0));
    let st = l.sym("stream", 64);
    let top = l.sym("topbits", 60);
    let mut r = Rng::new(l, a)?;
    r.setstream(l, st)?;
    let b = l.k(64, (u64::MAX - back as u64) as u128);
    // up to exactly the wrapped position 0, then each setter
    let left = 16 * (back + 1) - n0;
    let (s2, b2) = (l.sym("stream2", 64), l.sym("block2", 64));
    for op in 0..4 {
        r.setstream(l, st)?;
        r.setword(l, b, n0, top)?;
        r.fill(l, 4 * left)?;
        r.check(l)?;
        match op {
            0 => r.setstream(l, s2)?,
            1 => {
                let z = l.k(64, 0);
                r.setword(l, z, 0, top)?
            }
            2 => r.setblock(l, b2)?,
            _ => {}
        }
        r.u32(l)?;
        r.check(l)?;
    }
    r.setstream(l, st)?;
    r.setword(l, b, n0, top)?;
    r.check(l)?;
    for k in [-1, -2, 60, 64, -1, 200, -2, 256] {
        r.op(l, k)?;
        r.check(l)?;
        r.ser(l)?;
    }
    Some(())
}
/// serialise after i words, restore, compare the future; restore any 49 bytes
pub fn rng_state(l: &mut Lab, a: &Alg, i: u32) -> Option<()> {
    l.start(&format!("{} serialise after {} words", a.name, i));
    let st = l.sym("stream", 64);
    let b = l.sym("block", 64);
    let mut r = Rng::new(l, a)?;
    r.setstream(l, st)?;
    r.setblock(l, b)?;
    if i > 0 {
        r.fill(l, 4 * i)?;
    }
    let s = r.ser(l)?;
    let o = Rng::de(l, a, s)?;
    let mut q = Rng { o, ..Rng { a: *a, o, seed: r.seed, stream: r.stream, base: r.base, n: r.n } };
    q.check(l)?;
    let args = [l.p(r.o), l.p(o)];
    let f = l.callb(&r.f("eq"), &args);
    l.expect_c(f, 1, "the restored generator equals the original");
    q.ser(l)?;
    q.fill(l, 5)?;
    q.u64(l)?;
    q.fill(l, 260)?;
    q.check(l)?;
    r.fill(l, 5)?;
    r.u64(l)?;
    r.fill(l, 260)?;
    r.check(l)?;
    let args = [l.p(r.o), l.p(q.o)];
    let f = l.callb(&r.f("eq"), &args);
    l.expect_c(f, 1, "still equal after the same reads");
    // any 49-byte state with this low nibble
    let n0 = i % 16;
    l.start(&format!("{} restore any state, word {}", a.name, n0));
    let seed = l.sym("seed", 256);
    let lo = l.k(4, n0 as u128);
    let hi = l.sym("tophi", 4);
    let stb = l.t().concat(&[seed, st, lo, b, hi]);
    let sb = l.buf("state", stb);
    let o = Rng::de(l, a, sb)?;
    let mut q = Rng { a: *a, o, seed, stream: st, base: b, n: n0 };
    q.check(l)?;
    q.ser(l)?;
    q.u32(l)?;
    q.u64(l)?;
    q.fill(l, 130)?;
    q.check(l)
}
/// equality is exactly seed, stream and word position
pub fn rng_eq(l: &mut Lab, a: &Alg, i: u32, j: u32) -> Option<()> {
    l.start(&format!("{} equality after {} and {} words", a.name, i, j));
    let mut mk = |l: &mut Lab, t: &str, n: u32| -> Option<Rng> {
        let seed = l.sym(&format!("seed{}", t), 256);
        let o = l.wrap(a)?;
        let sb = l.buf("seed", seed);
        let args = [l.p(o), l.p(sb)];
        l.call(&format!("e_{}_wnew", a.name), &args)?;
        let z = l.k(64, 0);
        let mut r = Rng { a: *a, o, seed, stream: z, base: z, n: 0 };
        let s = l.sym(&format!("stream{}", t), 64);
        let b = l.sym(&format!("block{}", t), 64);
        r.setstream(l, s)?;
        r.setblock(l, b)?;
        if n > 0 {
            r.fill(l, 4 * n)?;
        }
        Some(r)
    };
    let x = mk(l, "A", i)?;
    let y = mk(l, "B", j)?;
    let want = {
        let wp = |l: &mut Lab, r: &Rng| {
            let z4 = l.k(4, 0);
            let wp = l.t().concat(&[z4, r.base]);
            l.t().addc(wp, r.n as u128)
        };
        let (p, q) = (wp(l, &x), wp(l, &y));
        let e1 = l.t().eq(x.seed, y.seed);
        let e2 = l.t().eq(x.stream, y.stream);
        let e3 = l.t().eq(p, q);
        let e = l.t().and(e1, e2);
        let e = l.t().and(e, e3);
        l.t().zext(e, 32)
    };
    let args = [l.p(x.o), l.p(y.o)];
    let f = l.callb(&x.f("eq"), &args);
    l.expect_b(f, want, "equality is equality of seed, stream and word position");
    // same everything, different buffers
    l.start(&format!("{} equality, same place, {} and {} words", a.name, i, j));
    let b = l.sym("block", 64);
    let mut x = Rng::new(l, a)?;
    x.setblock(l, b)?;
    if i > 0 {
        x.fill(l, 4 * i)?;
    }
    let mut y = Rng::new(l, a)?;
    let z = l.k(60, 0);
    let nb = l.t().addc(b, (i / 16) as u128);
    y.setword(l, nb, i % 16, z)?;
    let args = [l.p(x.o), l.p(y.o)];
    let f = l.callb(&x.f("eq"), &args);
    l.expect_c(f, 1, "generators at the same place are equal whatever they buffer");
    y.u32(l)?;
    let args = [l.p(x.o), l.p(y.o)];
    let f = l.callb(&x.f("eq"), &args);
    l.expect_c(f, 0, "generators at different places differ");
    Some(())
}

// ------------------------------------------------------------------ drop
/// every byte that depended on a secret is a volatile-written zero afterwards
pub fn wiped(l: &mut Lab, o: ObjId, f: &str, what: &str) -> Option<()> {
    let size = l.ex.obj(o).size as u32;
    let mut secret: Vec<u32> = vec![];
    for i in 0..size {
        let has = l.ex.obj(o).cells.range(..=i).next_back().map_or(false, |(s, c)| i < s + c.len);
        if has {
            let b = l.ex.read_bits(o, i, 1);
            if l.ex.t.secret(b) {
                secret.push(i);
            }
        }
    }
    l.oblige(!secret.is_empty() || what.contains("no secret"), "the value holds secret bytes before the drop", String::new(), what.into());
    let p = l.p(o);
    l.call(f, &[p])?;
    if !l.wipe {
        return Some(());
    }
    let mut left: Vec<(u32, u32)> = vec![];
    let mut plain: Vec<(u32, u32)> = vec![];
    for i in &secret {
        let i = *i;
        let c = l.ex.obj(o).cells.range(..=i).next_back().map(|(s, c)| (*s, c.clone()));
        let (loc, vol, val) = match c {
            Some((s, c)) if i < s + c.len => {
                let b = l.ex.read_bits(o, i, 1);
                (c.loc, c.volatile, l.ex.t.as_const(b))
            }
            _ => (0, false, None),
        };
        if val != Some(0) {
            left.push((i, loc));
        } else if !vol {
            plain.push((i, loc));
        }
    }
    l.obligations += secret.len() as u64;
    l.discharged += (secret.len() - left.len() - plain.len()) as u64;
    let lim = |v: &Vec<(u32, u32)>| format!("{} bytes, first at offset {}", v.len(), v[0].0);
    if !left.is_empty() {
        let s = format!("{}: {}", l.scen, l.hist.join(" ; "));
        let loc = format!("drop of {}", f.trim_start_matches("e_"));
        l.findings.push(Finding { kind: "NotErased".into(), loc, detail: format!("{}: secret bytes survive the drop: {}; last written at {}", what, lim(&left), l.ex.loc_str(left[0].1)), scen: s });
    }
    if !plain.is_empty() {
        let s = format!("{}: {}", l.scen, l.hist.join(" ; "));
        let loc = format!("drop of {}", f.trim_start_matches("e_"));
        l.findings.push(Finding { kind: "NotVolatile".into(), loc, detail: format!("{}: erased by a removable write: {} at {}", what, lim(&plain), l.ex.loc_str(plain[0].1)), scen: s });
    }
    Some(())
}
pub fn drop_core(l: &mut Lab, a: &Alg) -> Option<()> {
    for stage in 0..4 {
        l.start(&format!("{} dropped at stage {}", a.name, stage));
        let (k, iv) = l.keyiv(a);
        let c = l.cnew(a, k, iv)?;
        let st = ["fresh", "after a block", "after a batch", "after a seek"][stage];
        match stage {
            0 => {}
            1 => {
                l.block(a, c)?;
            }
            2 => {
                l.ops(a, c, &[2, 1], 40)?;
            }
            _ => {
                if a.ctr > 0 {
                    let p = l.sym("pos", a.ctr);
                    l.setpos(a, c, p)?;
                } else {
                    continue;
                }
            }
        }
        wiped(l, c, &format!("e_{}_cdrop", a.name), st)?;
    }
    Some(())
}
/// wrapper: the core inside it is erased whatever the wrapper does with its own buffer
pub fn drop_rc4(l: &mut Lab) -> Option<()> {
    for n in [0u32, 1, 5] {
        l.start(&format!("RC4 dropped after {} bytes", n));
        let key = l.sym("rkey5.", 40);
        let o = rc4_new(l, key)?;
        let b = l.out("ks", n.max(1), 1);
        let args = [l.p(o), l.p(b), l.us(n as u64)];
        l.call("e_rc4_write", &args)?;
        // arbitrary state
        if n == 5 {
            let sz = l.ex.obj(o).size as u32;
            let x = l.sym("anystate", 8 * sz);
            l.ex.set_bits(o, 0, x);
        }
        wiped(l, o, "e_rc4_wdrop", "RC4 state")?;
    }
    Some(())
}
pub fn drop_rng(l: &mut Lab, a: &Alg) -> Option<()> {
    for stage in 0..5 {
        l.start(&format!("{} dropped at stage {}", a.name, stage));
        let mut r = Rng::new(l, a)?;
        let st = ["fresh", "after a word", "after a fill", "after set_word_pos", "after set_stream"][stage];
        match stage {
            0 => {}
            1 => r.u32(l)?,
            2 => r.fill(l, 300)?,
            3 => {
                let (b, t) = (l.sym("block", 64), l.k(60, 0));
                r.setword(l, b, 5, t)?
            }
            _ => {
                let s = l.sym("stream", 64);
                r.u64(l)?;
                r.setstream(l, s)?
            }
        }
        let o = r.o;
        wiped(l, o, &format!("e_{}_wdrop", a.name), st)?;
    }
    Some(())
}
/// overwriting by assignment of a whole symbolic object (any reachable or unreachable state)
pub fn drop_any(l: &mut Lab, a: &Alg) -> Option<()> {
    if a.fam != Fam::Hc && a.fam != Fam::Rabbit && a.fam != Fam::RabbitK && a.fam != Fam::Salsa {
        return Some(());
    }
    l.start(&format!("{} dropped in any state", a.name));
    let (k, iv) = l.keyiv(a);
    let c = l.cnew(a, k, iv)?;
    let n = l.ex.obj(c).size as u32;
    for p in 0..n {
        // padding holds nothing
        let b = l.ex.read_bits(c, p, 1);
        if !l.ex.t.undef(b) {
            let x = l.sym(&format!("any{}.", p), 8);
            l.ex.set_bits(c, p, x);
        }
    }
    wiped(l, c, &format!("e_{}_cdrop", a.name), "arbitrary contents")
}

// ------------------------------------------------------------------ debug
pub fn debug_of(l: &mut Lab, a: &Alg) -> Option<()> {
    let rng = a.fam == Fam::Rng;
    for (suffix, core) in [("cdebug", true), ("wdebug", false)] {
        let f = format!("e_{}_{}", a.name, suffix);
        if !l.has(&f) {
            continue;
        }
        l.start(&format!("{} formatted", a.name));
        let o = if rng {
            let mut r = Rng::new(l, a)?;
            r.u32(l)?;
            r.o
        } else {
            let (k, iv) = l.keyiv(a);
            if core {
                let c = l.cnew(a, k, iv)?;
                if l.has(&format!("e_{}_csetpos", a.name)) {
                    let at = l.sym("pos", a.ctr);
                    l.setpos(a, c, at)?;
                }
                c
            } else {
                let w = l.wnew(a, k, iv)?;
                let b = l.out("ks", 3, 1);
                let args = [l.p(w), l.p(b), l.us(3)];
                l.call(&format!("e_{}_write", a.name), &args)?;
                w
            }
        };
        l.ex.obj_mut(o).watch = true;
        l.ex.fmt_mode = true;
        let p = l.p(o);
        l.call(&f, &[p]);
        l.ex.fmt_mode = false;
        l.oblige(true, "", String::new(), String::new());
    }
    Some(())
}
/// ChaCha20's inherent position accessors agree with the trait's
pub fn inherent_pos(l: &mut Lab) -> Option<()> {
    let a = CHACHA[2];
    if !l.has("e_chacha20_igetpos") {
        return Some(());
    }
    l.start("chacha20 inherent block position accessors");
    let (k, iv) = l.keyiv(&a);
    let p = l.sym("pos", 32);
    let w = l.ks(&a, k, iv, p);
    let c = l.cnew(&a, k, iv)?;
    let args = [l.p(c), Val::B(p)];
    l.call("e_chacha20_isetpos", &args)?;
    let v = l.p(c);
    let g = l.callb("e_chacha20_igetpos", &[v]);
    l.expect_b(g, p, "inherent position read back");
    let g = l.getpos(&a, c);
    l.expect_b(g, p, "trait position after the inherent seek");
    let b = l.block(&a, c)?;
    l.expect_mem(b, 0, w, "block after the inherent seek");
    Some(())
}

/// the core used directly as a block generator: four consecutive blocks, counter wraps inside
pub fn generator(l: &mut Lab, name: &str, rounds: u32, ctr: u32) -> Option<()> {
    let a = Alg { name: "gen", fam: if ctr == 32 { Fam::ChaCha } else { Fam::Legacy }, rounds, key: 32, iv: if ctr == 32 { 12 } else { 8 }, ctr, blk: 64 };
    let start: Vec<B> = {
        let s = l.sym("pos", ctr);
        let mut v = vec![s];
        for back in [0u32, 1, 2, 3, 4, 7] {
            let lo = l.k(32, (u32::MAX - back) as u128);
            v.push(if ctr == 64 {
                let hi = l.sym("pos.hi", 32);
                l.t().concat(&[lo, hi])
            } else {
                lo
            });
        }
        v.push(l.k(ctr, mask128(ctr) - 2));
        v
    };
    for q in start {
        l.start(&format!("block generator {} from {}", name, l.ex.t.show_d(q, 2)));
        let seed = l.sym("seed", 256);
        let iv = l.k(8 * a.iv, 0);
        let sz = l.callc(&format!("e_{}_csize", name), &[])?;
        let al = l.callc(&format!("e_{}_calign", name), &[])?;
        let o = l.ex.alloc("core", sz as u64, al as u64);
        let sb = l.buf("seed", seed);
        let args = [l.p(o), l.p(sb)];
        l.call(&format!("e_{}_cnew", name), &args)?;
        let p = l.p(o);
        let g = l.callb(&format!("e_{}_cgetpos", name), &[p.clone()]);
        l.expect_c(g, 0, "a seeded generator starts at block 0");
        l.call(&format!("e_{}_csetpos", name), &[p.clone(), Val::B(q)])?;
        for round in 0..2u32 {
            let out = l.ex.alloc("buffer", 256, 4);
            let args = [p.clone(), l.p(out)];
            l.call(&format!("e_{}_gen", name), &args)?;
            for i in 0..4u32 {
                let c = l.t().addc(q, (4 * round + i) as u128);
                let w = ks_public(l, &a, seed, iv, c);
                for j in 0..16 {
                    let x = l.t().extract(w, 32 * j, 32);
                    l.expect_int(out, 64 * i + 4 * j, x, &format!("word {} of generated block {}", j, 4 * round + i));
                }
            }
            let g = l.callb(&format!("e_{}_cgetpos", name), &[p.clone()]);
            let c = l.t().addc(q, (4 * round + 4) as u128);
            l.expect_b(g, c, "block position after the batch");
        }
    }
    Some(())
}
fn ks_public(l: &mut Lab, a: &Alg, k: B, iv: B, c: B) -> B {
    crate::lab::ks(l.t(), a, k, iv, c)
}
