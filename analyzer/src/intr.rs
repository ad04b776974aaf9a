//! Models of LLVM intrinsics.
use crate::bv::*;
use crate::exec::*;
use crate::ir::*;
use std::rc::Rc;

fn bitsv(e: &mut Ex, v: &Val) -> Res<B> {
    match v {
        Val::B(b) => Ok(*b),
        Val::Agg(_) => Err(Stop("aggregate intrinsic operand".into())),
        v => Ok(e.ptr_to_int(v)),
    }
}

fn lanes(ty: &Ty) -> (u32, u32) {
    match ty {
        Ty::Vec(n, e) => (*n, int_w(e)),
        Ty::Int(w) => (1, *w),
        _ => (1, 0),
    }
}

/// `Some(None)`: returns no value; `None`: diverges
pub fn intrinsic(e: &mut Ex, n: &str, ret: &Ty, args: Vec<Val>, tys: &[Ty]) -> Res<Option<Option<Val>>> {
    let l = e.here();
    e.t.cur_loc = l;
    let base = n.strip_prefix("llvm.").unwrap();
    if base.starts_with("lifetime.start") {
        for a in &args {
            if let Val::P(id, _) = a {
                let id = *id;
                if !e.obj(id).cells.is_empty() {
                    e.obj_mut(id).cells.clear();
                }
            }
        }
        return Ok(Some(None));
    }
    if base.starts_with("lifetime.end") || base.starts_with("dbg.") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("prefetch") {
        return Ok(Some(None));
    }
    if base.starts_with("expect") {
        return Ok(Some(Some(args[0].clone())));
    }
    if base.starts_with("is.constant") {
        return Ok(Some(Some(e.int(1, 0))));
    }
    if base == "trap" || base == "debugtrap" || base.starts_with("ubsantrap") {
        e.event(Ek::Panic, "trap".into());
        return Ok(None);
    }
    if base.starts_with("memcpy") || base.starts_with("memmove") {
        let k = bitsv(e, &args[2])?;
        let k = e.t.as_const(k).ok_or_else(|| Stop("memcpy of unknown length".into()))? as u64;
        e.memcpy(&args[0], &args[1], k)?;
        return Ok(Some(None));
    }
    if base.starts_with("memset") {
        let v = bitsv(e, &args[1])?;
        let k = bitsv(e, &args[2])?;
        let k = e.t.as_const(k).ok_or_else(|| Stop("memset of unknown length".into()))? as u64;
        let vol = bitsv(e, &args[3])?;
        let vol = e.t.as_const(vol) == Some(1);
        if k > 0 {
            e.memset(&args[0], v, k, vol)?;
        }
        return Ok(Some(None));
    }
    if base.contains(".with.overflow.") {
        let a = bitsv(e, &args[0])?;
        let b = bitsv(e, &args[1])?;
        let w = e.t.w(a);
        let kind = base.split('.').next().unwrap();
        let (v, o) = match kind {
            "uadd" => {
                if w < 128 {
                    let s = e.t.lin(w + 1, vec![(1, a), (1, b)], 0);
                    (e.t.extract(s, 0, w), e.t.extract(s, w, 1))
                } else {
                    let s = e.t.add(a, b);
                    let mx = e.t.umax(a).checked_add(e.t.umax(b));
                    let o = if mx.is_some() { e.t.konst(1, 0) } else { e.t.ult(s, a) };
                    (s, o)
                }
            }
            "usub" => {
                let s = e.t.sub(a, b);
                let o = e.t.ult(a, b);
                (s, o)
            }
            "umul" => {
                let s = e.t.mul(a, b);
                let (ma, mb) = (e.t.umax(a), e.t.umax(b));
                let o = match ma.checked_mul(mb) {
                    Some(p) if p <= mask128(w) => e.t.konst(1, 0),
                    _ => {
                        if let (Some(x), Some(y)) = (e.t.as_const(a), e.t.as_const(b)) {
                            let big = x.checked_mul(y).map_or(true, |p| p > mask128(w));
                            e.t.konst(1, big as u128)
                        } else {
                            e.t.op("umulo", 1, vec![a, b])
                        }
                    }
                };
                (s, o)
            }
            "sadd" | "ssub" | "smul" => {
                let s = match kind {
                    "sadd" => e.t.add(a, b),
                    "ssub" => e.t.sub(a, b),
                    _ => e.t.mul(a, b),
                };
                let o = if let (Some(x), Some(y)) = (e.t.as_const(a), e.t.as_const(b)) {
                    let sg = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                    let (x, y) = (sg(x), sg(y));
                    let r = match kind {
                        "sadd" => x.checked_add(y),
                        "ssub" => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    let ok = r.map_or(false, |r| sg(r as u128 & mask128(w)) == r);
                    e.t.konst(1, !ok as u128)
                } else if kind == "sadd" && e.t.umax(a).checked_add(e.t.umax(b)).map_or(false, |m| m <= mask128(w - 1)) {
                    e.t.konst(1, 0)
                } else if kind == "ssub" && e.t.umax(a) <= mask128(w - 1) && e.t.umax(b) <= mask128(w - 1) {
                    e.t.konst(1, 0)
                } else {
                    e.t.op("sovf", 1, vec![a, b])
                };
                (s, o)
            }
            _ => return Err(Stop(format!("intrinsic {}", n))),
        };
        return Ok(Some(Some(Val::Agg(Rc::new(vec![Val::B(v), Val::B(o)])))));
    }
    // lane-wise integer intrinsics
    let kind2: String = base.split('.').take(2).collect::<Vec<_>>().join(".");
    let kind1 = base.split('.').next().unwrap();
    let lanewise = matches!(kind1, "fshl" | "fshr" | "umin" | "umax" | "smin" | "smax" | "bswap" | "ctpop" | "ctlz" | "cttz" | "abs" | "bitreverse") || matches!(kind2.as_str(), "uadd.sat" | "usub.sat");
    if lanewise {
        let (nl, w) = lanes(ret);
        let mut av = vec![];
        for a in &args {
            av.push(bitsv(e, a)?);
        }
        let mut parts = vec![];
        for i in 0..nl {
            let mut x = vec![];
            for (j, a) in av.iter().enumerate() {
                if nl > 1 && matches!(tys[j], Ty::Vec(..)) {
                    x.push(e.t.extract(*a, i * w, w));
                } else {
                    x.push(*a);
                }
            }
            let t = &mut e.t;
            let r = match kind1 {
                "fshl" | "fshr" => match t.as_const(x[2]) {
                    Some(s) => {
                        let s = (s % w as u128) as u32;
                        let cat = t.concat(&[x[1], x[0]]); // x0:x1
                        if kind1 == "fshl" {
                            t.extract(cat, w - s, w)
                        } else {
                            t.extract(cat, s, w)
                        }
                    }
                    None => t.op(if kind1 == "fshl" { "fshl" } else { "fshr" }, w, x.clone()),
                },
                "umin" => {
                    let c = t.ult(x[0], x[1]);
                    t.ite(c, x[0], x[1])
                }
                "umax" => {
                    let c = t.ult(x[0], x[1]);
                    t.ite(c, x[1], x[0])
                }
                "smin" => {
                    let c = t.slt(x[0], x[1]);
                    t.ite(c, x[0], x[1])
                }
                "smax" => {
                    let c = t.slt(x[0], x[1]);
                    t.ite(c, x[1], x[0])
                }
                "bswap" => t.bswap(x[0]),
                "ctpop" => match t.as_const(x[0]) {
                    Some(v) => t.konst(w, v.count_ones() as u128),
                    None => t.op("ctpop", w, vec![x[0]]),
                },
                "ctlz" => match t.as_const(x[0]) {
                    Some(v) => t.konst(w, (v.leading_zeros() - (128 - w)) as u128),
                    None => t.op("ctlz", w, vec![x[0]]),
                },
                "cttz" => match t.as_const(x[0]) {
                    Some(v) => t.konst(w, if v == 0 { w as u128 } else { v.trailing_zeros() as u128 }),
                    None => t.op("cttz", w, vec![x[0]]),
                },
                "bitreverse" => {
                    let mut b = vec![];
                    for k in (0..w).rev() {
                        b.push(t.extract(x[0], k, 1));
                    }
                    t.concat(&b)
                }
                "abs" => match t.as_const(x[0]) {
                    Some(v) if v >> (w - 1) & 1 == 0 => x[0],
                    Some(v) => t.konst(w, v.wrapping_neg()),
                    None => t.op("abs", w, vec![x[0]]),
                },
                "uadd" => {
                    let s = t.lin(w + 1, vec![(1, x[0]), (1, x[1])], 0);
                    let v = t.extract(s, 0, w);
                    let o = t.extract(s, w, 1);
                    let on = t.ones(w);
                    t.ite(o, on, v)
                }
                "usub" => {
                    let o = t.ult(x[0], x[1]);
                    let v = t.sub(x[0], x[1]);
                    let z = t.konst(w, 0);
                    t.ite(o, z, v)
                }
                _ => unreachable!(),
            };
            parts.push(r);
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    // target intrinsics: feature requirements
    if base.starts_with("x86.") {
        if base == "x86.xgetbv" {
            let x = xcr0(&e.cpu.clone());
            return Ok(Some(Some(e.int(64, x as u128))));
        }
        let need = if base.starts_with("x86.avx512") {
            "avx512f"
        } else if base.starts_with("x86.avx2") {
            "avx2"
        } else if base.starts_with("x86.avx.") {
            "avx"
        } else if base.starts_with("x86.ssse3") {
            "ssse3"
        } else if base.starts_with("x86.sse41") {
            "sse4.1"
        } else {
            "sse2"
        };
        if !e.cpu.feats.contains(need) {
            let d = format!("instruction intrinsic {} requires +{} on cpu model `{}`", n, need, e.cpu.name);
            e.event(Ek::Feature, d);
        }
    }
    if base.contains("pshuf.b") {
        // per 128-bit lane byte shuffle
        let a = bitsv(e, &args[0])?;
        let m = bitsv(e, &args[1])?;
        let w = e.t.w(a);
        let nb = w / 8;
        let mut parts = vec![];
        for i in 0..nb {
            let mb = e.t.extract(m, i * 8, 8);
            let k = e.t.as_const(mb).ok_or_else(|| Stop("shuffle control not constant".into()))? as u32;
            if k & 0x80 != 0 {
                parts.push(e.t.konst(8, 0));
            } else {
                let lane = i / 16 * 16;
                parts.push(e.t.extract(a, (lane + (k & 15)) * 8, 8));
            }
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.contains("vpermi2var") || base.contains("permvar") || base.ends_with("avx2.permd") {
        let (nl, w) = lanes(ret);
        let two = base.contains("vpermi2var");
        let a = bitsv(e, &args[0])?;
        let m = bitsv(e, &args[1])?;
        let mut tab = vec![];
        for i in 0..nl {
            tab.push(e.t.extract(a, i * w, w));
        }
        if two {
            let b = bitsv(e, &args[2])?;
            for i in 0..nl {
                tab.push(e.t.extract(b, i * w, w));
            }
        }
        let ib = (tab.len() as u32).trailing_zeros();
        let mut parts = vec![];
        for i in 0..nl {
            let ix = e.t.extract(m, i * w, ib);
            let k = e.t.as_const(ix).ok_or_else(|| Stop("permutation control not constant".into()))? as usize;
            parts.push(tab[k]);
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.starts_with("x86.sse2.pmulu.dq") || base.starts_with("x86.avx2.pmulu.dq") {
        
        let (a, b) = (bitsv(e, &args[0])?, bitsv(e, &args[1])?);
        let w = e.t.w(a);
        let mut parts = vec![];
        for i in 0..w / 64 {
            let x = e.t.extract(a, i * 64, 32);
            let y = e.t.extract(b, i * 64, 32);
            let (x, y) = (e.t.zext(x, 64), e.t.zext(y, 64));
            parts.push(e.t.mul(x, y));
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.starts_with("x86.sse2.pslli") || base.starts_with("x86.sse2.psrli") || base.starts_with("x86.avx2.pslli") || base.starts_with("x86.avx2.psrli") || base.starts_with("x86.avx512.pslli") || base.starts_with("x86.avx512.psrli") {
        let (nl, w) = lanes(ret);
        let a = bitsv(e, &args[0])?;
        let k = bitsv(e, &args[1])?;
        let k = e.t.as_const(k).ok_or_else(|| Stop("vector shift amount not constant".into()))?.min(w as u128) as u32;
        let left = base.contains("pslli");
        let mut parts = vec![];
        for i in 0..nl {
            let x = e.t.extract(a, i * w, w);
            parts.push(if left { e.t.shl(x, k) } else { e.t.lshr(x, k) });
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.starts_with("aarch64.neon.tbl1") {
        let a = bitsv(e, &args[0])?;
        let m = bitsv(e, &args[1])?;
        let nb = e.t.w(m) / 8;
        let na = e.t.w(a) / 8;
        let mut parts = vec![];
        for i in 0..nb {
            let mb = e.t.extract(m, i * 8, 8);
            let k = e.t.as_const(mb).ok_or_else(|| Stop("table index not constant".into()))? as u32;
            parts.push(if k < na { e.t.extract(a, k * 8, 8) } else { e.t.konst(8, 0) });
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.starts_with("aarch64.neon.vsri") || base.starts_with("aarch64.neon.vsli") {
        let (nl, w) = lanes(ret);
        let a = bitsv(e, &args[0])?;
        let b = bitsv(e, &args[1])?;
        let k = bitsv(e, &args[2])?;
        let k = e.t.as_const(k).ok_or_else(|| Stop("shift amount not constant".into()))? as u32;
        let right = base.contains("vsri");
        let mut parts = vec![];
        for i in 0..nl {
            let x = e.t.extract(a, i * w, w);
            let y = e.t.extract(b, i * w, w);
            if right {
                let lo = e.t.extract(y, k, w - k);
                let hi = e.t.extract(x, w - k, k);
                parts.push(e.t.concat(&[lo, hi]));
            } else {
                let lo = e.t.extract(x, 0, k);
                let hi = e.t.extract(y, 0, w - k);
                parts.push(e.t.concat(&[lo, hi]));
            }
        }
        return Ok(Some(Some(Val::B(e.t.concat(&parts)))));
    }
    if base.starts_with("vector.extract") {
        let a = bitsv(e, &args[0])?;
        let k = bitsv(e, &args[1])?;
        let k = e.t.as_const(k).ok_or_else(|| Stop("vector.extract".into()))? as u32;
        let (nl, w) = lanes(ret);
        return Ok(Some(Some(Val::B(e.t.extract(a, k * w, nl * w)))));
    }
    if base.starts_with("masked.load") || base.starts_with("masked.store") {
        return masked(e, base, ret, args, tys);
    }
    if base.starts_with("threadlocal") {
        return Err(Stop("thread-local access".into()));
    }
    Err(Stop(format!("intrinsic {}", n)))
}

fn masked(e: &mut Ex, base: &str, _ret: &Ty, _args: Vec<Val>, _tys: &[Ty]) -> Res<Option<Option<Val>>> {
    let _ = e;
    Err(Stop(format!("intrinsic {}", base)))
}

impl<'p> Ex<'p> {
    pub fn memset(&mut self, d: &Val, v: B, n: u64, vol: bool) -> Res<()> {
        let Val::P(id, off) = d else {
            self.event(Ek::Oob, "memset through non-object pointer".into());
            return Err(Stop("memset target".into()));
        };
        let o = self.t.as_const(*off).ok_or_else(|| Stop("memset at symbolic offset".into()))?;
        let size = self.obj(*id).size;
        let nm = self.obj(*id).name.clone();
        if o + n as u128 > size as u128 {
            self.event(Ek::Oob, format!("fill of {} bytes at offset {} in object `{}` of {} bytes", n, o, nm, size));
            return Err(Stop("out-of-bounds fill".into()));
        }
        if *id >= GBASE {
            self.event(Ek::GlobalWrite, nm.to_string());
        }
        let mut i = 0;
        while i < n {
            let m = (n - i).min(64);
            let parts = vec![v; m as usize];
            let b = self.t.concat(&parts);
            self.write_at(*id, (o as u64 + i) as u32, b, vol);
            i += m;
        }
        Ok(())
    }
    pub fn write_at(&mut self, id: ObjId, off: u32, b: B, volatile: bool) {
        let len = self.t.w(b) / 8;
        self.set_bits(id, off, b);
        let loc = self.here();
        if let Some(c) = self.obj_mut(id).cells.get_mut(&off) {
            if c.len == len {
                c.loc = loc;
                c.volatile = volatile;
            }
        }
    }
}
