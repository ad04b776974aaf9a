//! Analysis entry points. Every function here only calls the public API of the crates in
//! /repo; the analyzer starts from these functions and follows all calls into the
//! repository's code. Nothing in this crate is ever executed.
#![no_std]
#![allow(clippy::missing_safety_doc, non_snake_case)]

use core::fmt::Write;

pub struct Sink(pub usize);
impl Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// formats a value if its type implements the trait
pub struct Fmt<'a, T>(pub &'a T);
pub trait ViaDebug {
    fn debug(&self, k: &mut Sink);
}
impl<T: core::fmt::Debug> ViaDebug for Fmt<'_, T> {
    #[inline(always)]
    fn debug(&self, k: &mut Sink) {
        let _ = write!(k, "{:?}", self.0);
    }
}
pub trait ViaDisplay {
    fn display(&self, k: &mut Sink);
}
impl<T: core::fmt::Display> ViaDisplay for Fmt<'_, T> {
    #[inline(always)]
    fn display(&self, k: &mut Sink) {
        let _ = write!(k, "{}", self.0);
    }
}
pub trait ViaNone {
    #[inline(always)]
    fn debug(&self, _: &mut Sink) {}
    #[inline(always)]
    fn display(&self, _: &mut Sink) {}
}
impl<T> ViaNone for &Fmt<'_, T> {}

#[cfg(feature = "stream")]
mod stream {
    use super::*;
    use cipher::array::Array;
    use block_buffer::BlockSizes;
    use cipher::common::{Block, BlockSizeUser, ParBlocksSizeUser};
    use cipher::typenum::Unsigned;
    use cipher::*;

    pub trait CoreOf {
        type C: StreamCipherCore;
    }
    impl<T> CoreOf for StreamCipherCoreWrapper<T>
    where
        T: StreamCipherCore,
        T::BlockSize: BlockSizes,
    {
        type C = T;
    }

    /// Drives one backend through a caller-chosen sequence of operations:
    /// each byte of `ops` is 1 (one block), 2 (one parallel batch), 0x40|n (tail of n blocks).
    pub struct Ops<'a, BS: array::ArraySize> {
        pub out: *mut Array<u8, BS>,
        pub ops: *const u8,
        pub nops: usize,
        pub done: &'a mut usize,
        pub par: &'a mut usize,
    }
    impl<BS: array::ArraySize> BlockSizeUser for Ops<'_, BS> {
        type BlockSize = BS;
    }
    impl<BS: array::ArraySize> StreamCipherClosure for Ops<'_, BS> {
        fn call<B: StreamCipherBackend<BlockSize = BS>>(self, backend: &mut B) {
            let p = <B as ParBlocksSizeUser>::ParBlocksSize::USIZE;
            *self.par = p;
            let mut n = 0usize;
            let mut i = 0usize;
            while i < self.nops {
                let op = unsafe { *self.ops.add(i) };
                i += 1;
                unsafe {
                    if op == 1 {
                        backend.gen_ks_block(&mut *self.out.add(n));
                        n += 1;
                    } else if op == 2 {
                        backend.gen_par_ks_blocks(&mut *(self.out.add(n) as *mut ParBlocks<B>));
                        n += p;
                    } else {
                        let k = (op & 0x3f) as usize;
                        backend.gen_tail_blocks(core::slice::from_raw_parts_mut(self.out.add(n), k));
                        n += k;
                    }
                }
            }
            *self.done = n;
        }
    }

    macro_rules! wrapper {
        ($n:literal, $W:ty) => {
            const _: () = {
                type W = $W;
                type C = <$W as CoreOf>::C;
                type Blk = Block<C>;
                #[unsafe(export_name = concat!("e_", $n, "_csize"))]
                pub extern "C" fn f1() -> usize {
                    core::mem::size_of::<C>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_calign"))]
                pub extern "C" fn f2() -> usize {
                    core::mem::align_of::<C>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_wsize"))]
                pub extern "C" fn f3() -> usize {
                    core::mem::size_of::<W>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_walign"))]
                pub extern "C" fn f4() -> usize {
                    core::mem::align_of::<W>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_block"))]
                pub extern "C" fn f5(s: &mut C, out: &mut Blk) {
                    s.write_keystream_block(out);
                }
                #[unsafe(export_name = concat!("e_", $n, "_blocks"))]
                pub unsafe extern "C" fn f6(s: &mut C, out: *mut Blk, n: usize) {
                    unsafe { s.write_keystream_blocks(core::slice::from_raw_parts_mut(out, n)) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_ablocks"))]
                pub unsafe extern "C" fn f7(s: &mut C, out: *mut Blk, n: usize) {
                    unsafe { s.apply_keystream_blocks(core::slice::from_raw_parts_mut(out, n)) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_ops"))]
                pub extern "C" fn f8(s: &mut C, out: *mut Blk, ops: *const u8, nops: usize, done: &mut usize, par: &mut usize) {
                    s.process_with_backend(Ops { out, ops, nops, done, par });
                }
                #[unsafe(export_name = concat!("e_", $n, "_crem"))]
                pub extern "C" fn f9(s: &C, out: &mut usize) -> u32 {
                    match s.remaining_blocks() {
                        Some(v) => {
                            *out = v;
                            1
                        }
                        None => 0,
                    }
                }
                #[unsafe(export_name = concat!("e_", $n, "_cdebug"))]
                pub extern "C" fn d1(s: &C) {
                    let mut k = Sink(0);
                    (&Fmt(s)).debug(&mut k);
                    (&Fmt(s)).display(&mut k);
                }
                #[unsafe(export_name = concat!("e_", $n, "_wdebug"))]
                pub extern "C" fn d2(s: &W) {
                    let mut k = Sink(0);
                    (&Fmt(s)).debug(&mut k);
                    (&Fmt(s)).display(&mut k);
                }
                #[unsafe(export_name = concat!("e_", $n, "_cdrop"))]
                pub unsafe extern "C" fn f10(s: *mut C) {
                    unsafe { core::ptr::drop_in_place(s) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_wdrop"))]
                pub unsafe extern "C" fn f11(s: *mut W) {
                    unsafe { core::ptr::drop_in_place(s) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_apply"))]
                pub unsafe extern "C" fn f12(s: &mut W, buf: *mut u8, n: usize) -> u32 {
                    unsafe { s.try_apply_keystream(core::slice::from_raw_parts_mut(buf, n)).is_ok() as u32 }
                }
                #[unsafe(export_name = concat!("e_", $n, "_b2b"))]
                pub unsafe extern "C" fn f13(s: &mut W, src: *const u8, dst: *mut u8, n: usize) -> u32 {
                    unsafe {
                        let i = core::slice::from_raw_parts(src, n);
                        let o = core::slice::from_raw_parts_mut(dst, n);
                        match InOutBuf::new(i, o) { Ok(b) => s.try_apply_keystream_inout(b).is_ok() as u32, Err(_) => 2 }
                    }
                }
                #[unsafe(export_name = concat!("e_", $n, "_write"))]
                pub unsafe extern "C" fn f14(s: &mut W, buf: *mut u8, n: usize) -> u32 {
                    unsafe { s.try_write_keystream(core::slice::from_raw_parts_mut(buf, n)).is_ok() as u32 }
                }
            };
        };
    }
    macro_rules! keyiv {
        ($n:literal, $W:ty, $K:literal, $I:literal) => {
            wrapper!($n, $W);
            const _: () = {
                type W = $W;
                type C = <$W as CoreOf>::C;
                #[unsafe(export_name = concat!("e_", $n, "_cnew"))]
                pub unsafe extern "C" fn f1(s: *mut C, k: &[u8; $K], i: &[u8; $I]) {
                    unsafe { core::ptr::write(s, <C as KeyIvInit>::new(k.into(), i.into())) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_wnew"))]
                pub unsafe extern "C" fn f2(s: *mut W, k: &[u8; $K], i: &[u8; $I]) {
                    unsafe { core::ptr::write(s, <W as KeyIvInit>::new(k.into(), i.into())) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_wnews"))]
                pub unsafe extern "C" fn f3(s: *mut W, k: *const u8, kn: usize, i: *const u8, inn: usize) -> u32 {
                    unsafe {
                        let k = core::slice::from_raw_parts(k, kn);
                        let i = core::slice::from_raw_parts(i, inn);
                        match <W as KeyIvInit>::new_from_slices(k, i) {
                            Ok(v) => {
                                core::ptr::write(s, v);
                                1
                            }
                            Err(_) => 0,
                        }
                    }
                }
            };
        };
    }
    macro_rules! seek {
        ($n:literal, $W:ty, $Ctr:ty) => {
            const _: () = {
                type W = $W;
                type C = <$W as CoreOf>::C;
                #[unsafe(export_name = concat!("e_", $n, "_cgetpos"))]
                pub extern "C" fn f1(s: &C) -> $Ctr {
                    StreamCipherSeekCore::get_block_pos(s)
                }
                #[unsafe(export_name = concat!("e_", $n, "_csetpos"))]
                pub extern "C" fn f2(s: &mut C, p: $Ctr) {
                    StreamCipherSeekCore::set_block_pos(s, p)
                }
                #[unsafe(export_name = concat!("e_", $n, "_seek"))]
                pub extern "C" fn f3(s: &mut W, p: u64) -> u32 {
                    s.try_seek(p).is_ok() as u32
                }
                #[unsafe(export_name = concat!("e_", $n, "_pos"))]
                pub extern "C" fn f4(s: &W, out: &mut u64) -> u32 {
                    match s.try_current_pos::<u64>() {
                        Ok(v) => {
                            *out = v;
                            1
                        }
                        Err(_) => 0,
                    }
                }
                #[unsafe(export_name = concat!("e_", $n, "_seek128"))]
                pub extern "C" fn f5(s: &mut W, p: &u128) -> u32 {
                    s.try_seek(*p).is_ok() as u32
                }
                #[unsafe(export_name = concat!("e_", $n, "_pos128"))]
                pub extern "C" fn f6(s: &W, out: &mut u128) -> u32 {
                    match s.try_current_pos::<u128>() {
                        Ok(v) => {
                            *out = v;
                            1
                        }
                        Err(_) => 0,
                    }
                }
            };
        };
    }

    #[cfg(feature = "chacha")]
    mod chacha {
        use super::*;
        keyiv!("chacha8", chacha20::ChaCha8, 32, 12);
        keyiv!("chacha12", chacha20::ChaCha12, 32, 12);
        keyiv!("chacha20", chacha20::ChaCha20, 32, 12);
        seek!("chacha8", chacha20::ChaCha8, u32);
        seek!("chacha12", chacha20::ChaCha12, u32);
        seek!("chacha20", chacha20::ChaCha20, u32);
        type C20 = <chacha20::ChaCha20 as CoreOf>::C;
        #[unsafe(export_name = "e_chacha20_igetpos")]
        pub extern "C" fn g1(s: &C20) -> u32 {
            s.get_block_pos()
        }
        #[unsafe(export_name = "e_chacha20_isetpos")]
        pub extern "C" fn g2(s: &mut C20, p: u32) {
            s.set_block_pos(p)
        }
    }
    #[cfg(feature = "xchacha")]
    mod xchacha {
        use super::*;
        keyiv!("xchacha8", chacha20::XChaCha8, 32, 24);
        keyiv!("xchacha12", chacha20::XChaCha12, 32, 24);
        keyiv!("xchacha20", chacha20::XChaCha20, 32, 24);
        seek!("xchacha8", chacha20::XChaCha8, u32);
        seek!("xchacha12", chacha20::XChaCha12, u32);
        seek!("xchacha20", chacha20::XChaCha20, u32);
        #[unsafe(export_name = "e_hchacha8")]
        pub extern "C" fn h8(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = chacha20::hchacha::<chacha20::R8>(k.into(), i.into()).into();
        }
        #[unsafe(export_name = "e_hchacha12")]
        pub extern "C" fn h12(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = chacha20::hchacha::<chacha20::R12>(k.into(), i.into()).into();
        }
        #[unsafe(export_name = "e_hchacha20")]
        pub extern "C" fn h20(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = chacha20::hchacha::<chacha20::R20>(k.into(), i.into()).into();
        }
    }
    #[cfg(feature = "legacy")]
    mod legacy {
        use super::*;
        keyiv!("legacy", chacha20::ChaCha20Legacy, 32, 8);
        seek!("legacy", chacha20::ChaCha20Legacy, u64);
    }
    #[cfg(feature = "salsa")]
    mod salsa {
        use super::*;
        keyiv!("salsa8", salsa20::Salsa8, 32, 8);
        keyiv!("salsa12", salsa20::Salsa12, 32, 8);
        keyiv!("salsa20", salsa20::Salsa20, 32, 8);
        keyiv!("xsalsa8", salsa20::XSalsa8, 32, 24);
        keyiv!("xsalsa12", salsa20::XSalsa12, 32, 24);
        keyiv!("xsalsa20", salsa20::XSalsa20, 32, 24);
        seek!("salsa8", salsa20::Salsa8, u64);
        seek!("salsa12", salsa20::Salsa12, u64);
        seek!("salsa20", salsa20::Salsa20, u64);
        seek!("xsalsa8", salsa20::XSalsa8, u64);
        seek!("xsalsa12", salsa20::XSalsa12, u64);
        seek!("xsalsa20", salsa20::XSalsa20, u64);
        #[unsafe(export_name = "e_salsa8_raw")]
        pub unsafe extern "C" fn r8(s: *mut <salsa20::Salsa8 as CoreOf>::C, w: &[u32; 16]) {
            unsafe { core::ptr::write(s, <salsa20::Salsa8 as CoreOf>::C::from_raw_state(*w)) };
        }
        #[unsafe(export_name = "e_salsa12_raw")]
        pub unsafe extern "C" fn r12(s: *mut <salsa20::Salsa12 as CoreOf>::C, w: &[u32; 16]) {
            unsafe { core::ptr::write(s, <salsa20::Salsa12 as CoreOf>::C::from_raw_state(*w)) };
        }
        #[unsafe(export_name = "e_salsa20_raw")]
        pub unsafe extern "C" fn r20(s: *mut <salsa20::Salsa20 as CoreOf>::C, w: &[u32; 16]) {
            unsafe { core::ptr::write(s, <salsa20::Salsa20 as CoreOf>::C::from_raw_state(*w)) };
        }
        use cipher::consts::{U4, U6, U10};
        #[unsafe(export_name = "e_hsalsa8")]
        pub extern "C" fn h8(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = salsa20::hsalsa::<U4>(k.into(), i.into()).into();
        }
        #[unsafe(export_name = "e_hsalsa12")]
        pub extern "C" fn h12(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = salsa20::hsalsa::<U6>(k.into(), i.into()).into();
        }
        #[unsafe(export_name = "e_hsalsa20")]
        pub extern "C" fn h20(k: &[u8; 32], i: &[u8; 16], out: &mut [u8; 32]) {
            *out = salsa20::hsalsa::<U10>(k.into(), i.into()).into();
        }
    }
    #[cfg(feature = "hc256")]
    mod hc {
        use super::*;
        keyiv!("hc256", hc_256::Hc256, 32, 32);
    }
    #[cfg(feature = "rabbit")]
    mod rabbit_ {
        use super::*;
        keyiv!("rabbit", rabbit::Rabbit, 16, 8);
        wrapper!("rabbitk", rabbit::RabbitKeyOnly);
        type W = rabbit::RabbitKeyOnly;
        type C = <W as CoreOf>::C;
        #[unsafe(export_name = "e_rabbitk_cnew")]
        pub unsafe extern "C" fn f1(s: *mut C, k: &[u8; 16]) {
            unsafe { core::ptr::write(s, <C as KeyInit>::new(k.into())) };
        }
        #[unsafe(export_name = "e_rabbitk_wnew")]
        pub unsafe extern "C" fn f2(s: *mut W, k: &[u8; 16]) {
            unsafe { core::ptr::write(s, <W as KeyInit>::new(k.into())) };
        }
        #[unsafe(export_name = "e_rabbitk_wnews")]
        pub unsafe extern "C" fn f3(s: *mut W, k: *const u8, kn: usize) -> u32 {
            unsafe {
                match <W as KeyInit>::new_from_slice(core::slice::from_raw_parts(k, kn)) {
                    Ok(v) => {
                        core::ptr::write(s, v);
                        1
                    }
                    Err(_) => 0,
                }
            }
        }
        #[unsafe(export_name = "e_rabbit_inner")]
        pub unsafe extern "C" fn f4(s: *mut <rabbit::Rabbit as CoreOf>::C, k: *mut C, iv: &[u8; 8]) {
            unsafe {
                let inner = core::ptr::read(k);
                core::ptr::write(s, <<rabbit::Rabbit as CoreOf>::C as InnerIvInit>::inner_iv_init(inner, iv.into()))
            };
        }
    }
    #[cfg(feature = "rc4")]
    mod rc4_ {
        use super::*;
        use rc4::Rc4;
        #[unsafe(export_name = "e_rc4_wsize")]
        pub extern "C" fn f1() -> usize {
            core::mem::size_of::<Rc4>()
        }
        #[unsafe(export_name = "e_rc4_walign")]
        pub extern "C" fn f2() -> usize {
            core::mem::align_of::<Rc4>()
        }
        #[unsafe(export_name = "e_rc4_wnews")]
        pub unsafe extern "C" fn f3(s: *mut Rc4, k: *const u8, n: usize) -> u32 {
            unsafe {
                match <Rc4 as KeyInit>::new_from_slice(core::slice::from_raw_parts(k, n)) {
                    Ok(v) => {
                        core::ptr::write(s, v);
                        1
                    }
                    Err(_) => 0,
                }
            }
        }
        #[unsafe(export_name = "e_rc4_wnew")]
        pub unsafe extern "C" fn f4(s: *mut Rc4, k: &[u8; 32]) {
            unsafe { core::ptr::write(s, <Rc4 as KeyInit>::new(k.into())) };
        }
        #[unsafe(export_name = "e_rc4_apply")]
        pub unsafe extern "C" fn f5(s: &mut Rc4, buf: *mut u8, n: usize) -> u32 {
            unsafe { s.try_apply_keystream(core::slice::from_raw_parts_mut(buf, n)).is_ok() as u32 }
        }
        #[unsafe(export_name = "e_rc4_b2b")]
        pub unsafe extern "C" fn f6(s: &mut Rc4, src: *const u8, dst: *mut u8, n: usize) -> u32 {
            unsafe {
                let i = core::slice::from_raw_parts(src, n);
                let o = core::slice::from_raw_parts_mut(dst, n);
                match InOutBuf::new(i, o) { Ok(b) => s.try_apply_keystream_inout(b).is_ok() as u32, Err(_) => 2 }
            }
        }
        #[unsafe(export_name = "e_rc4_write")]
        pub unsafe extern "C" fn f7(s: &mut Rc4, buf: *mut u8, n: usize) -> u32 {
            unsafe { s.try_write_keystream(core::slice::from_raw_parts_mut(buf, n)).is_ok() as u32 }
        }
        #[unsafe(export_name = "e_rc4_wdebug")]
        pub extern "C" fn fd(s: &Rc4) {
            let mut k = Sink(0);
            (&Fmt(s)).debug(&mut k);
            (&Fmt(s)).display(&mut k);
        }
        #[unsafe(export_name = "e_rc4_wdrop")]
        pub unsafe extern "C" fn f8(s: *mut Rc4) {
            unsafe { core::ptr::drop_in_place(s) };
        }
    }
}

#[cfg(feature = "rng")]
mod rng {
    use super::*;
    use chacha20::rand_core::{Rng, SeedableRng};
    macro_rules! rng {
        ($n:literal, $R:ty) => {
            const _: () = {
                type R = $R;
                #[unsafe(export_name = concat!("e_", $n, "_wsize"))]
                pub extern "C" fn f1() -> usize {
                    core::mem::size_of::<R>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_walign"))]
                pub extern "C" fn f2() -> usize {
                    core::mem::align_of::<R>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_wnew"))]
                pub unsafe extern "C" fn f3(s: *mut R, seed: &[u8; 32]) {
                    unsafe { core::ptr::write(s, R::from_seed(*seed)) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_u32"))]
                pub extern "C" fn f4(s: &mut R) -> u32 {
                    s.next_u32()
                }
                #[unsafe(export_name = concat!("e_", $n, "_u64"))]
                pub extern "C" fn f5(s: &mut R) -> u64 {
                    s.next_u64()
                }
                #[unsafe(export_name = concat!("e_", $n, "_fill"))]
                pub unsafe extern "C" fn f6(s: &mut R, p: *mut u8, n: usize) {
                    s.fill_bytes(unsafe { core::slice::from_raw_parts_mut(p, n) });
                }
                #[unsafe(export_name = concat!("e_", $n, "_setword"))]
                pub extern "C" fn f7(s: &mut R, p: &u128) {
                    s.set_word_pos(*p);
                }
                #[unsafe(export_name = concat!("e_", $n, "_getword"))]
                pub extern "C" fn f8(s: &R, p: &mut u128) {
                    *p = s.get_word_pos();
                }
                #[unsafe(export_name = concat!("e_", $n, "_setblock"))]
                pub extern "C" fn f9(s: &mut R, p: u64) {
                    s.set_block_pos(p);
                }
                #[unsafe(export_name = concat!("e_", $n, "_getblock"))]
                pub extern "C" fn f10(s: &R) -> u64 {
                    s.get_block_pos()
                }
                #[unsafe(export_name = concat!("e_", $n, "_setstream"))]
                pub extern "C" fn f11(s: &mut R, p: u64) {
                    s.set_stream(p);
                }
                #[unsafe(export_name = concat!("e_", $n, "_getstream"))]
                pub extern "C" fn f12(s: &R) -> u64 {
                    s.get_stream()
                }
                #[unsafe(export_name = concat!("e_", $n, "_getseed"))]
                pub extern "C" fn f13(s: &R, out: &mut [u8; 32]) {
                    *out = s.get_seed();
                }
                #[unsafe(export_name = concat!("e_", $n, "_ser"))]
                pub extern "C" fn f14(s: &R, out: &mut [u8; 49]) {
                    *out = s.serialize_state();
                }
                #[unsafe(export_name = concat!("e_", $n, "_de"))]
                pub unsafe extern "C" fn f15(s: *mut R, st: &[u8; 49]) {
                    unsafe { core::ptr::write(s, R::deserialize_state(st)) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_eq"))]
                pub extern "C" fn f16(a: &R, b: &R) -> u32 {
                    (a == b) as u32
                }
                #[unsafe(export_name = concat!("e_", $n, "_wdebug"))]
                pub extern "C" fn f17(s: &R) {
                    let mut k = Sink(0);
                    (&Fmt(s)).debug(&mut k);
                    (&Fmt(s)).display(&mut k);
                }
                #[unsafe(export_name = concat!("e_", $n, "_wdrop"))]
                pub unsafe extern "C" fn f18(s: *mut R) {
                    unsafe { core::ptr::drop_in_place(s) };
                }
            };
        };
    }
    use chacha20::rand_core::block::Generator;
    use chacha20::variants::{Ietf, Legacy};
    use chacha20::{ChaChaCore, R8, R12, R20};
    macro_rules! generator {
        ($n:literal, $C:ty, $Ctr:ty) => {
            const _: () = {
                type C = $C;
                #[unsafe(export_name = concat!("e_", $n, "_csize"))]
                pub extern "C" fn f1() -> usize {
                    core::mem::size_of::<C>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_calign"))]
                pub extern "C" fn f2() -> usize {
                    core::mem::align_of::<C>()
                }
                #[unsafe(export_name = concat!("e_", $n, "_cnew"))]
                pub unsafe extern "C" fn f3(s: *mut C, seed: &[u8; 32]) {
                    unsafe { core::ptr::write(s, C::from_seed(*seed)) };
                }
                #[unsafe(export_name = concat!("e_", $n, "_gen"))]
                pub extern "C" fn f4(s: &mut C, out: &mut [u32; 64]) {
                    s.generate(out);
                }
                #[unsafe(export_name = concat!("e_", $n, "_cgetpos"))]
                pub extern "C" fn f5(s: &C) -> $Ctr {
                    s.get_block_pos()
                }
                #[unsafe(export_name = concat!("e_", $n, "_csetpos"))]
                pub extern "C" fn f6(s: &mut C, p: $Ctr) {
                    s.set_block_pos(p)
                }
                #[unsafe(export_name = concat!("e_", $n, "_cdrop"))]
                pub unsafe extern "C" fn f7(s: *mut C) {
                    unsafe { core::ptr::drop_in_place(s) };
                }
            };
        };
    }
    generator!("gen8i", ChaChaCore<R8, Ietf>, u32);
    generator!("gen12i", ChaChaCore<R12, Ietf>, u32);
    generator!("gen20i", ChaChaCore<R20, Ietf>, u32);
    generator!("gen8l", ChaChaCore<R8, Legacy>, u64);
    generator!("gen12l", ChaChaCore<R12, Legacy>, u64);
    generator!("gen20l", ChaChaCore<R20, Legacy>, u64);
    rng!("rng8", chacha20::ChaCha8Rng);
    rng!("rng12", chacha20::ChaCha12Rng);
    rng!("rng20", chacha20::ChaCha20Rng);
}
