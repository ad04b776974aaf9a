//! Reference definitions of the algorithms, written from the published specifications as
//! term constructors (they build value-number terms, they do not compute bytes).
use crate::bv::*;

pub const SIGMA: [u32; 4] = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];

/// 32-bit little-endian words of a byte string given as memory-ordered bits
pub fn words(t: &mut Store, b: B) -> Vec<B> {
    let n = t.w(b) / 32;
    (0..n).map(|i| t.extract(b, i * 32, 32)).collect()
}
pub fn bytes_of_words(t: &mut Store, w: &[B]) -> B {
    t.concat(w)
}
pub fn k32(t: &mut Store, v: u32) -> B {
    t.konst(32, v as u128)
}

// ---- ChaCha (RFC 8439 section 2.1-2.3) ----
fn chacha_qr(t: &mut Store, s: &mut [B], a: usize, b: usize, c: usize, d: usize) {
    s[a] = t.add(s[a], s[b]);
    let x = t.xor(s[d], s[a]);
    s[d] = t.rotl(x, 16);
    s[c] = t.add(s[c], s[d]);
    let x = t.xor(s[b], s[c]);
    s[b] = t.rotl(x, 12);
    s[a] = t.add(s[a], s[b]);
    let x = t.xor(s[d], s[a]);
    s[d] = t.rotl(x, 8);
    s[c] = t.add(s[c], s[d]);
    let x = t.xor(s[b], s[c]);
    s[b] = t.rotl(x, 7);
}
pub fn chacha_rounds(t: &mut Store, s: &mut [B], rounds: u32) {
    for _ in 0..rounds / 2 {
        chacha_qr(t, s, 0, 4, 8, 12);
        chacha_qr(t, s, 1, 5, 9, 13);
        chacha_qr(t, s, 2, 6, 10, 14);
        chacha_qr(t, s, 3, 7, 11, 15);
        chacha_qr(t, s, 0, 5, 10, 15);
        chacha_qr(t, s, 1, 6, 11, 12);
        chacha_qr(t, s, 2, 7, 8, 13);
        chacha_qr(t, s, 3, 4, 9, 14);
    }
}
/// 64 bytes for the four last words given
pub fn chacha_block(t: &mut Store, key: B, tail: &[B], rounds: u32) -> B {
    let mut s: Vec<B> = SIGMA.iter().map(|c| t.konst(32, *c as u128)).collect();
    s.extend(words(t, key));
    s.extend_from_slice(tail);
    assert_eq!(s.len(), 16);
    let init = s.clone();
    chacha_rounds(t, &mut s, rounds);
    let out: Vec<B> = (0..16).map(|i| t.add(s[i], init[i])).collect();
    t.concat(&out)
}
/// 32-bit counter, 96-bit nonce
pub fn chacha_ietf(t: &mut Store, key: B, nonce: B, ctr: B, rounds: u32) -> B {
    let mut tail = vec![ctr];
    tail.extend(words(t, nonce));
    chacha_block(t, key, &tail, rounds)
}
/// 64-bit counter, 64-bit nonce
pub fn chacha_djb(t: &mut Store, key: B, nonce: B, ctr: B, rounds: u32) -> B {
    let mut tail = words(t, ctr);
    tail.extend(words(t, nonce));
    chacha_block(t, key, &tail, rounds)
}
pub fn hchacha(t: &mut Store, key: B, input: B, rounds: u32) -> B {
    let mut s: Vec<B> = SIGMA.iter().map(|c| t.konst(32, *c as u128)).collect();
    s.extend(words(t, key));
    s.extend(words(t, input));
    chacha_rounds(t, &mut s, rounds);
    let o = [s[0], s[1], s[2], s[3], s[12], s[13], s[14], s[15]];
    t.concat(&o)
}
/// (subkey, 96-bit nonce) of XChaCha
pub fn xchacha_setup(t: &mut Store, key: B, nonce: B, rounds: u32) -> (B, B) {
    let n16 = t.extract(nonce, 0, 128);
    let sub = hchacha(t, key, n16, rounds);
    let z = t.konst(32, 0);
    let rest = t.extract(nonce, 128, 64);
    let n = t.concat(&[z, rest]);
    (sub, n)
}

// ---- Salsa20 (Bernstein, "Salsa20 specification") ----
fn salsa_qr(t: &mut Store, y: &mut [B], i0: usize, i1: usize, i2: usize, i3: usize) {
    let s = t.add(y[i0], y[i3]);
    let r = t.rotl(s, 7);
    y[i1] = t.xor(y[i1], r);
    let s = t.add(y[i1], y[i0]);
    let r = t.rotl(s, 9);
    y[i2] = t.xor(y[i2], r);
    let s = t.add(y[i2], y[i1]);
    let r = t.rotl(s, 13);
    y[i3] = t.xor(y[i3], r);
    let s = t.add(y[i3], y[i2]);
    let r = t.rotl(s, 18);
    y[i0] = t.xor(y[i0], r);
}
pub fn salsa_rounds(t: &mut Store, y: &mut [B], rounds: u32) {
    for _ in 0..rounds / 2 {
        salsa_qr(t, y, 0, 4, 8, 12);
        salsa_qr(t, y, 5, 9, 13, 1);
        salsa_qr(t, y, 10, 14, 2, 6);
        salsa_qr(t, y, 15, 3, 7, 11);
        salsa_qr(t, y, 0, 1, 2, 3);
        salsa_qr(t, y, 5, 6, 7, 4);
        salsa_qr(t, y, 10, 11, 8, 9);
        salsa_qr(t, y, 15, 12, 13, 14);
    }
}
pub fn salsa_raw(t: &mut Store, x: &[B], rounds: u32) -> B {
    let mut y = x.to_vec();
    salsa_rounds(t, &mut y, rounds);
    let out: Vec<B> = (0..16).map(|i| t.add(y[i], x[i])).collect();
    t.concat(&out)
}
pub fn salsa_matrix(t: &mut Store, key: B, mid: &[B]) -> Vec<B> {
    let k = words(t, key);
    let s: Vec<B> = SIGMA.iter().map(|c| t.konst(32, *c as u128)).collect();
    vec![s[0], k[0], k[1], k[2], k[3], s[1], mid[0], mid[1], mid[2], mid[3], s[2], k[4], k[5], k[6], k[7], s[3]]
}
pub fn salsa(t: &mut Store, key: B, nonce: B, ctr: B, rounds: u32) -> B {
    let mut mid = words(t, nonce);
    mid.extend(words(t, ctr));
    let m = salsa_matrix(t, key, &mid);
    salsa_raw(t, &m, rounds)
}
pub fn hsalsa(t: &mut Store, key: B, input: B, rounds: u32) -> B {
    let mid = words(t, input);
    let mut y = salsa_matrix(t, key, &mid);
    salsa_rounds(t, &mut y, rounds);
    let o = [y[0], y[5], y[10], y[15], y[6], y[7], y[8], y[9]];
    t.concat(&o)
}
pub fn xsalsa_setup(t: &mut Store, key: B, nonce: B, rounds: u32) -> (B, B) {
    let n16 = t.extract(nonce, 0, 128);
    let sub = hsalsa(t, key, n16, rounds);
    let rest = t.extract(nonce, 128, 64);
    (sub, rest)
}

// ---- HC-256 (Wu, "A New Stream Cipher HC-256") ----
fn rotr(t: &mut Store, a: B, n: u32) -> B {
    t.rotl(a, 32 - n)
}
pub struct Hc256 {
    pub p: Vec<B>,
    pub q: Vec<B>,
    pub i: u32,
}
impl Hc256 {
    pub fn expand(t: &mut Store, key: B, iv: B) -> Hc256 {
        let mut w = words(t, key);
        w.extend(words(t, iv));
        for i in 16..2560 {
            let f2 = {
                let x = w[i - 2];
                let (a, b, c) = (rotr(t, x, 17), rotr(t, x, 19), t.lshr(x, 10));
                let y = t.xor(a, b);
                t.xor(y, c)
            };
            let f1 = {
                let x = w[i - 15];
                let (a, b, c) = (rotr(t, x, 7), rotr(t, x, 18), t.lshr(x, 3));
                let y = t.xor(a, b);
                t.xor(y, c)
            };
            let v = t.lin(32, vec![(1, f2), (1, w[i - 7]), (1, f1), (1, w[i - 16])], i as u128);
            w.push(v);
        }
        Hc256 { p: w[512..1536].to_vec(), q: w[1536..2560].to_vec(), i: 0 }
    }
    pub fn new(t: &mut Store, key: B, iv: B) -> Hc256 {
        let mut s = Self::expand(t, key, iv);
        for _ in 0..4096 {
            s.step(t);
        }
        s
    }
    fn g(t: &mut Store, q: &[B], x: B, y: B) -> B {
        let (a, b) = (rotr(t, x, 10), rotr(t, y, 23));
        let l = t.xor(a, b);
        let z = t.xor(x, y);
        let idx = t.extract(z, 0, 10);
        let r = t.read_idx(q, idx).expect("table index");
        t.add(l, r)
    }
    fn h(t: &mut Store, q: &[B], x: B) -> B {
        let mut terms = vec![];
        for k in 0..4u32 {
            let idx = t.extract(x, 8 * k, 8);
            let part = &q[(256 * k) as usize..(256 * k + 256) as usize];
            terms.push((1u128, t.read_idx(part, idx).expect("table index")));
        }
        t.lin(32, terms, 0)
    }
    pub fn step(&mut self, t: &mut Store) -> B {
        let j = (self.i % 1024) as usize;
        let at = |d: usize| (j + 1024 - d) % 1024;
        let first = self.i % 2048 < 1024;
        let (a, b) = if first { (&mut self.p, &self.q) } else { (&mut self.q, &self.p) };
        let g = Self::g(t, b, a[at(3)], a[at(1023)]);
        a[j] = t.lin(32, vec![(1, a[j]), (1, a[at(10)]), (1, g)], 0);
        let h = Self::h(t, b, a[at(12)]);
        self.i += 1;
        t.xor(h, a[j])
    }
}

// ---- Rabbit (RFC 4503) ----
pub struct Rabbit {
    pub x: Vec<B>,
    pub c: Vec<B>,
    pub b: B,
}
impl Rabbit {
    pub fn key_setup(t: &mut Store, key: B) -> Rabbit {
        // K0 = K[15..0] is the least significant: bytes 0,1
        let k: Vec<B> = (0..8).map(|i| t.extract(key, 16 * i, 16)).collect();
        let mut x = vec![];
        let mut c = vec![];
        for j in 0..8usize {
            // concat() is least significant part first
            if j % 2 == 0 {
                x.push(t.concat(&[k[j], k[(j + 1) % 8]]));
                c.push(t.concat(&[k[(j + 5) % 8], k[(j + 4) % 8]]));
            } else {
                x.push(t.concat(&[k[(j + 4) % 8], k[(j + 5) % 8]]));
                c.push(t.concat(&[k[(j + 1) % 8], k[j]]));
            }
        }
        let b = t.konst(1, 0);
        let mut s = Rabbit { x, c, b };
        for _ in 0..4 {
            s.next_state(t);
        }
        for j in 0..8 {
            s.c[j] = t.xor(s.c[j], s.x[(j + 4) % 8]);
        }
        s
    }
    pub fn iv_setup(&mut self, t: &mut Store, iv: B) {
        let p: Vec<B> = (0..4).map(|i| t.extract(iv, 16 * i, 16)).collect();
        let parts = [[p[0], p[1]], [p[1], p[3]], [p[2], p[3]], [p[0], p[2]]];
        for j in 0..8 {
            let v = t.concat(&parts[j % 4]);
            self.c[j] = t.xor(self.c[j], v);
        }
        for _ in 0..4 {
            self.next_state(t);
        }
    }
    pub fn next_state(&mut self, t: &mut Store) {
        const A: [u32; 8] = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3];
        for j in 0..8 {
            let v = t.lin(33, vec![(1, self.c[j]), (1, self.b)], A[j] as u128);
            self.b = t.extract(v, 32, 1);
            self.c[j] = t.extract(v, 0, 32);
        }
        let g: Vec<B> = (0..8)
            .map(|j| {
                let s = t.add(self.x[j], self.c[j]);
                let s = t.zext(s, 64);
                let q = t.mul(s, s);
                let lo = t.extract(q, 0, 32);
                let hi = t.extract(q, 32, 32);
                t.xor(lo, hi)
            })
            .collect();
        let mut x = vec![];
        for j in 0..8usize {
            let (p, q) = (g[(j + 7) % 8], g[(j + 6) % 8]);
            let (p, q) = if j % 2 == 0 { (t.rotl(p, 16), t.rotl(q, 16)) } else { (t.rotl(p, 8), q) };
            x.push(t.lin(32, vec![(1, g[j]), (1, p), (1, q)], 0));
        }
        self.x = x;
    }
    pub fn block(&mut self, t: &mut Store) -> B {
        self.next_state(t);
        let lo = |t: &mut Store, v: B| t.extract(v, 0, 16);
        let hi = |t: &mut Store, v: B| t.extract(v, 16, 16);
        let x = self.x.clone();
        let pairs = [(0, 5), (2, 7), (4, 1), (6, 3)];
        let mut out = vec![];
        for (i, (a, b)) in pairs.iter().enumerate() {
            let (u, v) = (lo(t, x[*a]), hi(t, x[*b]));
            out.push(t.xor(u, v));
            // S[31..16] = X0[31..16] ^ X3[15..0]; next pairs analogous
            let c = [3, 5, 7, 1][i];
            let (u, v) = (hi(t, x[*a]), lo(t, x[c]));
            out.push(t.xor(u, v));
        }
        t.concat(&out)
    }
}

// ---- RC4 ----
pub struct Rc4 {
    pub s: Vec<B>,
    pub i: u32,
    pub j: B,
}
impl Rc4 {
    fn swap(t: &mut Store, s: &mut Vec<B>, i: usize, j: B) {
        let x = s[i];
        let y = t.read_idx(s, j).expect("index");
        for k in 0..256u32 {
            let kk = t.konst(8, k as u128);
            let c = t.eq(j, kk);
            if k as usize == i {
                s[i] = y;
            } else {
                s[k as usize] = t.ite(c, x, s[k as usize]);
            }
        }
    }
    pub fn new(t: &mut Store, key: B) -> Rc4 {
        let n = t.w(key) / 8;
        let mut s: Vec<B> = (0..256u32).map(|v| t.konst(8, v as u128)).collect();
        let mut j = t.konst(8, 0);
        for i in 0..256u32 {
            let k = t.extract(key, 8 * (i % n), 8);
            j = t.lin(8, vec![(1, j), (1, s[i as usize]), (1, k)], 0);
            Self::swap(t, &mut s, i as usize, j);
        }
        let j = t.konst(8, 0);
        Rc4 { s, i: 0, j }
    }
    pub fn next(&mut self, t: &mut Store) -> B {
        self.i = (self.i + 1) % 256;
        let si = self.s[self.i as usize];
        self.j = t.add(self.j, si);
        Self::swap(t, &mut self.s, self.i as usize, self.j);
        let a = self.s[self.i as usize];
        // S[j] after the swap is the old S[i]
        let idx = t.add(a, si);
        t.read_idx(&self.s, idx).expect("index")
    }
}
