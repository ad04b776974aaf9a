//! One analysis scenario: a history of public-API calls on symbolic inputs, the obligations
//! stated about it, and what the abstract interpreter reported while following it.
use crate::bv::*;
use crate::exec::*;
use std::collections::{BTreeSet, HashSet};

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub loc: String,
    pub detail: String,
    pub scen: String,
}

pub struct Lab<'p> {
    pub ex: Ex<'p>,
    pub findings: Vec<Finding>,
    pub obligations: u64,
    pub discharged: u64,
    pub stopped: bool,
    pub bad: u32,
    pub scen: String,
    pub events: BTreeSet<(String, String, String, String)>,
    pub hist: Vec<String>,
    pub tier: u8,
    pub inductive: u64,
    pub ncalls: u64,
    nsym: u32,
    pub public_positions: bool,
    /// the property asks for erasure (other properties only run the drops)
    pub wipe: bool,
    ksmemo: std::collections::HashMap<(&'static str, B, B, B), B>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    ChaCha,
    XChaCha,
    Legacy,
    Salsa,
    XSalsa,
    Hc,
    Rabbit,
    RabbitK,
    Rc4,
    Rng,
}
#[derive(Clone, Copy, Debug)]
pub struct Alg {
    pub name: &'static str,
    pub fam: Fam,
    pub rounds: u32,
    pub blk: u32,
    pub key: u32,
    pub iv: u32,
    pub ctr: u32,
}
const fn alg(name: &'static str, fam: Fam, rounds: u32, blk: u32, key: u32, iv: u32, ctr: u32) -> Alg {
    Alg { name, fam, rounds, blk, key, iv, ctr }
}
pub const CHACHA: [Alg; 3] = [alg("chacha8", Fam::ChaCha, 8, 64, 32, 12, 32), alg("chacha12", Fam::ChaCha, 12, 64, 32, 12, 32), alg("chacha20", Fam::ChaCha, 20, 64, 32, 12, 32)];
pub const XCHACHA: [Alg; 3] = [alg("xchacha8", Fam::XChaCha, 8, 64, 32, 24, 32), alg("xchacha12", Fam::XChaCha, 12, 64, 32, 24, 32), alg("xchacha20", Fam::XChaCha, 20, 64, 32, 24, 32)];
pub const LEGACY: Alg = alg("legacy", Fam::Legacy, 20, 64, 32, 8, 64);
pub const SALSA: [Alg; 3] = [alg("salsa8", Fam::Salsa, 8, 64, 32, 8, 64), alg("salsa12", Fam::Salsa, 12, 64, 32, 8, 64), alg("salsa20", Fam::Salsa, 20, 64, 32, 8, 64)];
pub const XSALSA: [Alg; 3] = [alg("xsalsa8", Fam::XSalsa, 8, 64, 32, 24, 64), alg("xsalsa12", Fam::XSalsa, 12, 64, 32, 24, 64), alg("xsalsa20", Fam::XSalsa, 20, 64, 32, 24, 64)];
pub const HC: Alg = alg("hc256", Fam::Hc, 0, 4, 32, 32, 0);
pub const RABBIT: Alg = alg("rabbit", Fam::Rabbit, 0, 16, 16, 8, 0);
pub const RABBITK: Alg = alg("rabbitk", Fam::RabbitK, 0, 16, 16, 0, 0);
pub const RC4: Alg = alg("rc4", Fam::Rc4, 0, 1, 32, 0, 0);
pub const RNG: [Alg; 3] = [alg("rng8", Fam::Rng, 8, 64, 32, 0, 64), alg("rng12", Fam::Rng, 12, 64, 32, 0, 64), alg("rng20", Fam::Rng, 20, 64, 32, 0, 64)];

/// keystream block `ctr` of a seekable cipher, from the specification
pub fn ks(t: &mut Store, a: &Alg, key: B, iv: B, ctr: B) -> B {
    use crate::spec::*;
    match a.fam {
        Fam::ChaCha => chacha_ietf(t, key, iv, ctr, a.rounds),
        Fam::Legacy => chacha_djb(t, key, iv, ctr, a.rounds),
        Fam::XChaCha => {
            let (k, n) = xchacha_setup(t, key, iv, a.rounds);
            chacha_ietf(t, k, n, ctr, a.rounds)
        }
        Fam::Salsa => salsa(t, key, iv, ctr, a.rounds),
        Fam::XSalsa => {
            let (k, n) = xsalsa_setup(t, key, iv, a.rounds);
            salsa(t, k, n, ctr, a.rounds)
        }
        _ => panic!("ks"),
    }
}

impl<'p> Lab<'p> {
    pub fn new(p: &'p Program, cpu: Cpu, tier: u8) -> Self {
        let mut feats = cpu.feats.clone();
        feats.extend(p.static_feats.iter().cloned());
        let cpu = Cpu { feats, ..cpu };
        let ex = Ex::new(p, cpu, Store::new());
        Lab { ex, findings: vec![], obligations: 0, discharged: 0, stopped: false, bad: 0, scen: String::new(), events: BTreeSet::new(), hist: vec![], tier, inductive: 0, ncalls: 0, nsym: 0, ksmemo: Default::default(), public_positions: false, wipe: true }
    }
    /// specified keystream block
    pub fn ks(&mut self, a: &Alg, key: B, iv: B, ctr: B) -> B {
        let q = (a.name, key, iv, ctr);
        if let Some(b) = self.ksmemo.get(&q) {
            return *b;
        }
        let sv = self.ex.t.cur_loc;
        self.ex.t.cur_loc = 0;
        let (k2, i2, a2) = match a.fam {
            Fam::XChaCha | Fam::XSalsa => {
                // sub-key memo
                let e = self.k(1, 0);
                let qk = (a.name, key, iv, u32::MAX);
                let qn = (a.name, key, iv, u32::MAX - 1);
                let _ = e;
                if !self.ksmemo.contains_key(&qk) {
                    let (k, n) = if a.fam == Fam::XChaCha { crate::spec::xchacha_setup(&mut self.ex.t, key, iv, a.rounds) } else { crate::spec::xsalsa_setup(&mut self.ex.t, key, iv, a.rounds) };
                    self.ksmemo.insert(qk, k);
                    self.ksmemo.insert(qn, n);
                }
                (self.ksmemo[&qk], self.ksmemo[&qn], Alg { fam: if a.fam == Fam::XChaCha { Fam::ChaCha } else { Fam::Salsa }, ..*a })
            }
            Fam::Rng => (key, iv, Alg { fam: Fam::Legacy, ..*a }),
            _ => (key, iv, *a),
        };
        let r = ks(&mut self.ex.t, &a2, k2, i2, ctr);
        self.ex.t.cur_loc = sv;
        self.ksmemo.insert(q, r);
        r
    }
    pub fn pb(&self) -> u32 {
        self.ex.p.pb
    }
    /// forget all objects, keep the term store (terms stay shared between scenarios)
    pub fn start(&mut self, scen: &str) {
        self.ex.reset();
        self.scen = scen.to_string();
        self.stopped = false;
        self.bad = 0;
        self.hist.clear();
        self.ex.t.cur_loc = 0;
    }
    pub fn sym(&mut self, n: &str, w: u32) -> B {
        // how much has been produced so far is not a secret, but taints state bytes otherwise
        let position = n.starts_with("pos") || n.starts_with("block");
        self.ex.t.sym(n, w, !(self.public_positions && position))
    }
    pub fn public(&mut self, n: &str, w: u32) -> B {
        self.ex.t.sym(n, w, false)
    }
    pub fn k(&mut self, w: u32, v: u128) -> B {
        self.ex.t.konst(w, v)
    }
    pub fn t(&mut self) -> &mut Store {
        &mut self.ex.t
    }
    pub fn buf(&mut self, name: &str, b: B) -> ObjId {
        let n = self.ex.t.w(b) / 8;
        let o = self.ex.alloc(name, n as u64, 1);
        if n > 0 {
            // byte cells of at most 64 bytes keep reads cheap
            let mut p = 0;
            while p < n {
                let l = 64.min(n - p);
                let x = self.ex.t.extract(b, p * 8, l * 8);
                self.ex.set_bits(o, p, x);
                p += l;
            }
        }
        o
    }
    /// object holding the integer `b` in the target's byte order
    pub fn ibuf(&mut self, name: &str, b: B) -> ObjId {
        let n = self.ex.t.w(b) / 8;
        let o = self.ex.alloc(name, n as u64, n as u64);
        let m = if self.ex.p.be { self.ex.t.bswap(b) } else { b };
        self.ex.set_bits(o, 0, m);
        o
    }
    pub fn out(&mut self, name: &str, n: u32, align: u64) -> ObjId {
        self.ex.alloc(name, n as u64, align)
    }
    pub fn p(&mut self, o: ObjId) -> Val {
        self.ex.ptr(o, 0)
    }
    pub fn po(&mut self, o: ObjId, off: u32) -> Val {
        self.ex.ptr(o, off as u64)
    }
    pub fn us(&mut self, v: u64) -> Val {
        let pb = self.pb();
        self.ex.int(pb, v as u128)
    }
    pub fn has(&self, f: &str) -> bool {
        self.ex.p.defs.contains_key(f)
    }
    pub fn call(&mut self, f: &str, args: &[Val]) -> Option<Val> {
        if self.stopped {
            return None;
        }
        self.hist.push(f.to_string());
        self.ncalls += 1;
        let r = self.ex.call_entry(f, args.to_vec());
        let ev = self.ex.take_events();
        for e in ev {
            let k = format!("{:?}", e.k);
            if self.events.insert((k.clone(), e.loc.clone(), e.detail.clone(), String::new())) {
                let d = format!("{}{}", e.detail, if e.conditional { " (on some inputs)" } else { "" });
                self.findings.push(Finding { kind: k, loc: e.loc, detail: d, scen: format!("{}: {}", self.scen, self.hist.join(" ; ")) });
            }
        }
        self.ex.t.cur_loc = 0;
        match r {
            Ok(v) => Some(v.unwrap_or(Val::B(self.ex.t.konst(1, 0)))),
            Err(Stop(m)) => {
                self.stopped = true;
                let l = self.ex.stop_loc();
                self.findings.push(Finding { kind: "Stop".into(), loc: l, detail: m, scen: format!("{}: {}", self.scen, self.hist.join(" ; ")) });
                None
            }
        }
    }
    pub fn callb(&mut self, f: &str, args: &[Val]) -> Option<B> {
        match self.call(f, args)? {
            Val::B(b) => Some(b),
            _ => None,
        }
    }
    pub fn callc(&mut self, f: &str, args: &[Val]) -> Option<u128> {
        let b = self.callb(f, args)?;
        self.ex.t.as_const(b)
    }
    pub fn oblige(&mut self, ok: bool, what: &str, loc: String, detail: String) {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
        } else {
            self.bad += 1;
            if self.bad > 40 {
                // everything downstream differs too; what is left of the scenario is undischarged
                self.stopped = true;
            }
            let s = format!("{}: {}", self.scen, self.hist.join(" ; "));
            self.findings.push(Finding { kind: "Mismatch".into(), loc, detail: format!("{}: {}", what, detail), scen: s });
        }
    }
    /// the term computed by the code must be the term of the specification
    pub fn expect(&mut self, got: B, want: B, what: &str, cell_loc: String) {
        if got == want {
            self.oblige(true, what, String::new(), String::new());
            return;
        }
        // narrow to the first differing 32-bit word
        let w = self.ex.t.w(got).min(self.ex.t.w(want));
        let mut at = None;
        let mut p = 0;
        while p < w {
            let n = 32.min(w - p);
            let a = self.ex.t.extract(got, p, n);
            let b = self.ex.t.extract(want, p, n);
            if a != b {
                at = Some((p, a, b));
                break;
            }
            p += n;
        }
        let Some((p, a, b)) = at else {
            self.oblige(false, what, cell_loc, "width mismatch".into());
            return;
        };
        let loc = if self.bad < 3 { self.divergence(a, b) } else { None };
        if let Ok(v) = std::env::var("VGD") {
            let n = v.parse().unwrap_or(3);
            eprintln!("C {}\nS {}", self.ex.t.show_d(a, n), self.ex.t.show_d(b, n));
        }
        let d = format!("bits {}..{}: computed {} ; specified {}", p, p + 32.min(w - p), clip(&self.ex.t.show_d(a, 3)), clip(&self.ex.t.show_d(b, 3)));
        let loc = loc.unwrap_or(cell_loc);
        self.oblige(false, what, loc, d);
    }
    pub fn expect_b(&mut self, got: Option<B>, want: B, what: &str) {
        if let Some(g) = got {
            let l = self.hist.last().cloned().unwrap_or_default();
            self.expect(g, want, what, format!("value returned by {}", l));
        }
    }
    pub fn expect_c(&mut self, got: Option<B>, want: u128, what: &str) {
        if let Some(g) = got {
            let w = self.ex.t.w(g);
            let k = self.ex.t.konst(w, want);
            self.expect_b(Some(g), k, what);
        }
    }
    pub fn expect_mem(&mut self, o: ObjId, off: u32, want: B, what: &str) {
        if self.stopped {
            return;
        }
        let n = self.ex.t.w(want) / 8;
        let got = if n == 0 { want } else { self.ex.read_bits(o, off, n) };
        if got == want {
            self.obligations += 1;
            self.discharged += 1;
            return;
        }
        // location of the store that produced the first wrong byte
        let mut loc = 0;
        for i in 0..n {
            let a = self.ex.t.extract(got, i * 8, 8);
            let b = self.ex.t.extract(want, i * 8, 8);
            if a != b {
                loc = self.ex.cell_loc(o, off + i);
                break;
            }
        }
        let l = self.ex.loc_str(loc);
        self.expect(got, want, what, l);
    }
    pub fn read_int(&mut self, o: ObjId, off: u32, n: u32) -> B {
        let b = self.ex.read_bits(o, off, n);
        if self.ex.p.be {
            self.ex.t.bswap(b)
        } else {
            b
        }
    }
    pub fn expect_int(&mut self, o: ObjId, off: u32, want: B, what: &str) {
        if self.stopped {
            return;
        }
        let n = self.ex.t.w(want) / 8;
        let got = self.read_int(o, off, n);
        self.expect(got, want, what, String::from("value stored through out-parameter"));
    }
    /// earliest construct in `got` that has no counterpart in `want` although all its operands do
    fn divergence(&mut self, got: B, want: B) -> Option<String> {
        let t = &self.ex.t;
        let mut spec: HashSet<A> = HashSet::new();
        let mut q: Vec<A> = t.atoms_of(want);
        while let Some(a) = q.pop() {
            if spec.insert(a) {
                if spec.len() > 20000 {
                    return None;
                }
                q.extend(t.children(a));
            }
        }
        let mut seen: HashSet<A> = HashSet::new();
        let mut q: Vec<A> = t.atoms_of(got);
        let mut cand: Vec<A> = vec![];
        while let Some(a) = q.pop() {
            if spec.contains(&a) || !seen.insert(a) {
                continue;
            }
            if seen.len() > 20000 {
                return None;
            }
            let ch = t.children(a);
            if ch.iter().all(|c| spec.contains(c)) {
                cand.push(a);
            }
            q.extend(ch);
        }
        cand.sort();
        for c in &cand {
            let l = t.ainfo[*c as usize].loc;
            if l != 0 {
                return Some(self.ex.loc_str(l));
            }
        }
        None
    }
    pub fn fresh(&mut self, n: &str, w: u32) -> B {
        self.nsym += 1;
        let nm = format!("{}#{}", n, self.nsym);
        self.ex.t.sym(&nm, w, true)
    }
    // ---------- ciphers ----------
    pub fn core(&mut self, a: &Alg) -> Option<ObjId> {
        let s = self.callc(&format!("e_{}_csize", a.name), &[])?;
        let al = self.callc(&format!("e_{}_calign", a.name), &[])?;
        Some(self.ex.alloc("core", s as u64, al as u64))
    }
    pub fn wrap(&mut self, a: &Alg) -> Option<ObjId> {
        let s = self.callc(&format!("e_{}_wsize", a.name), &[])?;
        let al = self.callc(&format!("e_{}_walign", a.name), &[])?;
        Some(self.ex.alloc("cipher", s as u64, al as u64))
    }
    pub fn keyiv(&mut self, a: &Alg) -> (B, B) {
        let k = self.sym("key", a.key * 8);
        let i = if a.iv > 0 { self.sym("iv", a.iv * 8) } else { self.k(0, 0) };
        (k, i)
    }
    fn init(&mut self, a: &Alg, which: &str, o: ObjId, key: B, iv: B) -> Option<()> {
        let kb = self.buf("key", key);
        let mut args = vec![self.p(o), self.p(kb)];
        if a.iv > 0 {
            let ib = self.buf("nonce", iv);
            args.push(self.p(ib));
        }
        self.call(&format!("e_{}_{}", a.name, which), &args)?;
        Some(())
    }
    /// core object initialised with (key, iv)
    pub fn cnew(&mut self, a: &Alg, key: B, iv: B) -> Option<ObjId> {
        let o = self.core(a)?;
        self.init(a, "cnew", o, key, iv)?;
        Some(o)
    }
    pub fn wnew(&mut self, a: &Alg, key: B, iv: B) -> Option<ObjId> {
        let o = self.wrap(a)?;
        self.init(a, "wnew", o, key, iv)?;
        Some(o)
    }
    pub fn setpos(&mut self, a: &Alg, o: ObjId, p: B) -> Option<()> {
        let v = self.p(o);
        self.call(&format!("e_{}_csetpos", a.name), &[v, Val::B(p)])?;
        Some(())
    }
    pub fn getpos(&mut self, a: &Alg, o: ObjId) -> Option<B> {
        let v = self.p(o);
        self.callb(&format!("e_{}_cgetpos", a.name), &[v])
    }
    pub fn block(&mut self, a: &Alg, o: ObjId) -> Option<ObjId> {
        let b = self.out("block", a.blk, 1);
        let v = [self.p(o), self.p(b)];
        self.call(&format!("e_{}_block", a.name), &v)?;
        Some(b)
    }
    /// run a sequence of backend operations; returns (output, blocks done, parallel width)
    pub fn ops(&mut self, a: &Alg, o: ObjId, ops: &[u8], maxblk: u32) -> Option<(ObjId, u32, u32)> {
        let b = self.out("blocks", a.blk * maxblk, 1);
        let mut m: Vec<u64> = vec![0; (ops.len() + 7) / 8];
        for (i, x) in ops.iter().enumerate() {
            m[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        let ob = self.ex.t.konst_limbs(ops.len() as u32 * 8, &m);
        let opb = self.buf("ops", ob);
        let ps = (self.pb() / 8) as u64;
        let d = self.ex.alloc("done", ps, ps);
        let w = self.ex.alloc("par", ps, ps);
        let n = self.us(ops.len() as u64);
        let args = [self.p(o), self.p(b), self.p(opb), n, self.p(d), self.p(w)];
        self.call(&format!("e_{}_ops", a.name), &args)?;
        let dn = self.read_int(d, 0, ps as u32);
        let pn = self.read_int(w, 0, ps as u32);
        Some((b, self.ex.t.as_const(dn)? as u32, self.ex.t.as_const(pn)? as u32))
    }
    pub fn snapshot(&mut self, o: ObjId) -> Vec<(u32, Val)> {
        let n = self.ex.obj(o).size as u32;
        let _ = n;
        self.ex.obj(o).cells.iter().map(|(k, c)| (*k, c.v.clone())).collect()
    }
}
