//! Which scenarios decide which property, on which builds and CPU models.
use crate::config::Env;
use crate::lab::*;
use crate::scen::*;

pub type JobFn = Box<dyn Fn(&mut Lab) + Send + Sync>;
pub struct Job {
    pub cfg: &'static str,
    pub cpu: &'static str,
    pub name: String,
    pub f: JobFn,
}
pub struct Extra {
    pub obligations: u64,
    pub desc: Vec<String>,
    pub findings: Vec<Finding>,
}
pub type ExtraFn = Box<dyn Fn(&Env) -> Result<Extra, String> + Send + Sync>;
pub struct Plan {
    pub jobs: Vec<Job>,
    pub extras: Vec<ExtraFn>,
    pub kinds: &'static [&'static str],
    pub exempt: fn(&Finding) -> bool,
    pub must_build: bool,
    /// counters and positions are not secret
    pub public_positions: bool,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}
pub const FUNC: &[&str] = &["Mismatch", "Panic", "Unreachable", "Stop"];
pub const WIPE: &[&str] = &["Mismatch", "NotErased", "NotVolatile", "Stop"];

/// (build, cpu) pairs that exercise every x86-64 backend
const X86_Q: &[(&str, &str)] = &[("auto512", "base"), ("auto512", "avx2"), ("auto512", "avx512"), ("soft", "base"), ("release", "avx2"), ("nozero", "avx2")];
/// the same without the other profile and feature sets, for the large corpora
const X86_C: &[(&str, &str)] = &[("auto512", "base"), ("auto512", "avx2"), ("auto512", "avx512"), ("soft", "base")];
/// the remaining backend
const NEON: &[(&str, &str)] = &[("aarch64", "none")];
const X86_T: &[(&str, &str)] = &[
    ("auto512", "base"), ("auto512", "sse41"), ("auto512", "avx2"), ("auto512", "avx512"),
    ("auto512", "avx2_noos"), ("auto512", "avx512_noos"), ("auto512", "avx512f"),
    ("auto", "base"), ("auto", "avx2"), ("auto", "avx512"),
    ("soft", "base"), ("sse2", "base"), ("avx2", "avx2"), ("avx512", "avx512"), ("avx512b", "avx512"), ("release", "avx512"), ("release", "avx2"), ("release", "base"), ("nozero", "avx2"),
];
/// other feature sets of chacha20 that contain the generators
const RNG_ONLY: &[(&str, &str)] = &[("rngonly", "base"), ("rngonly", "avx512")];
/// CPU models
const X86_CPU: &[(&str, &str)] = &[
    ("auto512", "base"), ("auto512", "ssse3"), ("auto512", "sse41"), ("auto512", "avx1"), ("auto512", "avx2_noos"), ("auto512", "avx2"),
    ("auto512", "avx512_noos"), ("auto512", "avx512f"), ("auto512", "avx512"), ("auto", "base"), ("auto", "avx2"), ("soft", "base"), ("sse2", "base"), ("avx2", "avx2"), ("avx512", "avx512"),
];
const X86_CPU_T: &[(&str, &str)] = &[
    ("auto512", "base"), ("auto512", "ssse3"), ("auto512", "sse41"), ("auto512", "avx1"), ("auto512", "avx2_noos"), ("auto512", "avx2"),
    ("auto512", "avx512_noos"), ("auto512", "avx512f"), ("auto512", "avx512"),
    ("auto", "base"), ("auto", "ssse3"), ("auto", "sse41"), ("auto", "avx1"), ("auto", "avx2_noos"), ("auto", "avx2"), ("auto", "avx512"),
    ("release", "base"), ("release", "avx1"), ("release", "avx2_noos"), ("release", "avx2"), ("release", "avx512_noos"), ("release", "avx512f"), ("release", "avx512"),
    ("soft", "base"), ("sse2", "base"), ("avx2", "avx2"), ("avx512", "avx512"), ("avx512b", "avx512"),
];
/// code without CPU dispatch
const ONE_Q: &[(&str, &str)] = &[("auto512", "base"), ("release", "base"), ("nozero", "base")];
const ONE_C: &[(&str, &str)] = &[("auto512", "base")];
const ONE_T: &[(&str, &str)] = &[("auto512", "base"), ("release", "base"), ("nozero", "base")];

/// build options: backend selection, profile (overflow checks, debug assertions) and crate features
const OPTIONS: &[(&str, &str)] = &[
    ("auto512", "avx512"), ("auto", "avx512"), ("soft", "base"), ("sse2", "base"), ("avx2", "avx2"), ("avx512", "avx512"), ("avx512b", "avx512"),
    ("release", "avx512"), ("nozero", "avx512"), ("rngonly", "avx512"), ("cipheronly", "avx512"), ("rngzero", "avx2"),
];

/// foreign targets: NEON on both byte orders, 32-bit x86, big-endian 32- and 64-bit, small 32-bit
const TARGETS_Q: &[(&str, &str)] = &[("aarch64", "none"), ("aarch64be", "none"), ("i686", "base"), ("i686", "avx2"), ("powerpc", "none")];
const TARGETS_T: &[(&str, &str)] = &[
    ("aarch64", "none"), ("aarch64be", "none"), ("i686", "avx512"), ("powerpc", "none"),
    ("i686", "base"), ("i686", "avx2"), ("aarch64soft", "none"), ("i686soft", "base"), ("powerpc_rel", "none"), ("s390x", "none"), ("riscv32", "none"), ("armv7", "none"), ("mips", "none"), ("wasm32", "none"), ("thumbv6", "none"),
];

/// a 32-bit target (widths of usize in positions, lengths and remaining counts)
const W32: &[(&str, &str)] = &[("i686", "base")];

fn no_exempt(_: &Finding) -> bool {
    false
}

type Jobs = Vec<Job>;
fn job(v: &mut Jobs, at: (&'static str, &'static str), name: String, f: impl Fn(&mut Lab) + Send + Sync + 'static) {
    v.push(Job { cfg: at.0, cpu: at.1, name, f: Box::new(f) });
}

fn blocks_and_batches(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], parts: usize, single: bool, batch: bool) {
    for c in on {
        for a in algs {
            let a = *a;
            if single {
                job(j, *c, format!("{} block", a.name), move |l| { block_at(l, &a); });
            }
            if batch {
                for part in 0..parts {
                    job(j, *c, format!("{} batches {}", a.name, part), move |l| { batches(l, &a, part, parts); });
                }
            }
        }
    }
}
fn seeks(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg]) {
    for c in on {
        for a in algs {
            let a = *a;
            job(j, *c, format!("{} seek", a.name), move |l| { seek_core(l, &a); });
        }
    }
}
fn carries(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], tier: u8) {
    for c in on {
        for a in algs {
            let a = *a;
            job(j, *c, format!("{} carry", a.name), move |l| {
                let n = if tier > 0 { 20u32 } else { 6 };
                for d in 0..n {
                    carry(l, &a, 0u32.wrapping_sub(1 + d * if tier > 0 { 1 } else { 3 }));
                }
                carry(l, &a, 0x7fff_fffe);
                carry(l, &a, 0);
            });
        }
    }
}
fn messages(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], tier: u8) {
    for c in on {
        for a in algs {
            let a = *a;
            job(j, *c, format!("{} messages", a.name), move |l| {
                let pieces: &[&[(u8, u32)]] = &[
                    &[(0, 1), (1, 62), (2, 1), (0, 64), (1, 65), (0, 0), (2, 130)],
                    &[(1, 300), (0, 5), (2, 64), (0, 59)],
                    &[(2, 63), (0, 2), (1, 127), (0, 640)],
                    &[(0, 1200), (1, 7)],
                ];
                let n = if tier > 0 { 4 } else { 2 };
                for (i, p) in pieces.iter().take(n).enumerate() {
                    message(l, &a, None, [0, 17, 63, 1][i], p);
                }
            });
            job(j, *c, format!("{} message positions", a.name), move |l| {
                let top = a.ctr - 6;
                let js: Vec<u32> = if tier > 0 { (0..top).collect() } else { vec![0, 1, a.ctr / 2, top - 1] };
                for (n, jj) in js.iter().enumerate() {
                    let r = [0u32, 1, 31, 63, 62, 32][n % 6];
                    l.start("position class");
                    let q = pos_class(l, &a, *jj);
                    if n % 2 == 0 {
                        message(l, &a, Some(q), r, &[(0, 3), (1, 64), (2, 200)]);
                    } else {
                        message(l, &a, Some(q), r, &[(2, 64), (0, 129), (1, 63)]);
                    }
                }
                if tier > 0 {
                    l.start("position class");
                    let q = pos_class(l, &a, 0);
                    for r in 0..64 {
                        message(l, &a, Some(q), r, &[(0, 65), (2, 64)]);
                    }
                }
            });
            job(j, *c, format!("{} capacity", a.name), move |l| {
                let ds: &[u32] = if tier > 0 { &[0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 16, 17, 33] } else { &[0, 1, 2, 5] };
                for d in ds {
                    for r in [0u32, 1, 33, 63] {
                        overrun(l, &a, *d, r);
                    }
                }
                bad_seek(l, &a);
            });
        }
    }
}
fn seq_messages(j: &mut Jobs, on: &'static [(&'static str, &'static str)], tier: u8) {
    for c in on {
        for a in [RABBIT, RABBITK, HC] {
            job(j, *c, format!("{} messages", a.name), move |l| {
                message_seq(l, &a, &[(0, 1), (1, 14), (2, 1), (0, 16), (1, 17), (0, 0), (2, 33)]);
                message_seq(l, &a, &[(2, 3), (0, 5), (1, 48), (2, 16)]);
                if tier > 0 {
                    for n in 1..=17 {
                        message_seq(l, &a, &[(0, n), (1, 17 - n), (2, 4)]);
                    }
                }
            });
        }
    }
}
fn rc4_jobs(j: &mut Jobs, on: &'static [(&'static str, &'static str)], tier: u8) {
    for c in on {
        let step = if tier > 0 { 16 } else { 64 };
        for from in (0..256).step_by(step as usize) {
            job(j, *c, format!("rc4 state {}", from), move |l| { rc4_state(l, from, step); });
        }
        let lens: Vec<u32> = if tier > 0 { (1..=256).collect() } else { vec![1, 2, 3, 5, 7, 8, 13, 16, 24, 32, 40, 64, 100, 128, 129, 200, 255, 256] };
        for n in lens {
            job(j, *c, format!("rc4 key {}", n), move |l| { rc4_key(l, n, 3); });
        }
    }
}
fn rng_all(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], tier: u8, what: u8, pos: bool) {
    for c in on {
        for a in algs {
            let a = *a;
            // what: 1 reads, 2 positions, 4 state
            if what & 1 != 0 {
                job(j, *c, format!("{} start", a.name), move |l| {
                    rng_start(l, &a, &[-1, -2, -1, 5, -2, 250, -1, 1, 2, 3, -2], pos);
                    rng_start(l, &a, &[700, -1], pos);
                });
                job(j, *c, format!("{} long fill", a.name), move |l| { rng_start(l, &a, &[-1, LONG as i32 + 3, -2], pos); });
                let parts = if tier > 0 { 8 } else { 2 };
                for part in 0..parts {
                    job(j, *c, format!("{} index {}", a.name, part), move |l| {
                        let is: Vec<u32> = if tier > 0 { (0..=64).collect() } else { vec![0, 1, 15, 16, 17, 31, 48, 60, 61, 62, 63, 64] };
                        for (n, i) in is.iter().enumerate() {
                            if n % parts == part {
                                let ops: &[i32] = if tier > 0 { RNG_FILLS } else { &[-1, -2, 0, 1, 7, 64, 255, 300] };
                                rng_index(l, &a, *i, ops, pos);
                            }
                        }
                    });
                }
            }
            if what & 2 != 0 {
                job(j, *c, format!("{} set", a.name), move |l| {
                    let is: Vec<u32> = if tier > 0 { (0..=64).collect() } else { vec![0, 1, 18, 35, 51, 63, 64] };
                    for i in is {
                        rng_set(l, &a, i);
                    }
                });
                for h in 0..2usize {
                    job(j, *c, format!("{} setters {}", a.name, h), move |l| {
                        let is: Vec<u32> = if tier > 0 { (0..=64).collect() } else { vec![0, 1, 15, 16, 17, 32, 48, 63, 64] };
                        for i in is.iter().skip(h).step_by(2) {
                            rng_set_each(l, &a, *i);
                        }
                    });
                }
                job(j, *c, format!("{} wrap", a.name), move |l| {
                    let bs: &[u32] = if tier > 0 { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 2, 4, 5] };
                    for b in bs {
                        for n0 in [0u32, 1, 15] {
                            rng_wrap(l, &a, *b, n0);
                        }
                    }
                });
            }
            if what & 4 != 0 {
                job(j, *c, format!("{} state", a.name), move |l| {
                    let is: Vec<u32> = if tier > 0 { (0..=64).collect() } else { vec![0, 1, 2, 13, 20, 31, 47, 63, 64] };
                    for i in is {
                        rng_state(l, &a, i);
                    }
                    for (x, y) in [(0, 0), (0, 5), (3, 3), (16, 0), (17, 33), (64, 64), (63, 16)] {
                        rng_eq(l, &a, x, y);
                    }
                });
            }
        }
    }
}
fn hfuns(j: &mut Jobs, on: &'static [(&'static str, &'static str)], salsa: bool, chacha: bool) {
    for c in on {
        for r in [8u32, 12, 20] {
            if chacha {
                job(j, *c, format!("hchacha{}", r), move |l| { hfun(l, &format!("hchacha{}", r), r, false); });
            }
            if salsa {
                job(j, *c, format!("hsalsa{}", r), move |l| { hfun(l, &format!("hsalsa{}", r), r, true); });
            }
        }
    }
}
fn generators(j: &mut Jobs, on: &'static [(&'static str, &'static str)], all: bool) {
    for c in on {
        for (n, r, w) in [("gen8i", 8, 32), ("gen8l", 8, 64), ("gen12i", 12, 32), ("gen12l", 12, 64), ("gen20i", 20, 32), ("gen20l", 20, 64)] {
            if all || r == 8 {
                job(j, *c, format!("{} generator", n), move |l| { generator(l, n, r, w); });
            }
        }
    }
}
fn drops(j: &mut Jobs, chacha_on: &'static [(&'static str, &'static str)], one: &'static [(&'static str, &'static str)]) {
    for c in chacha_on {
        for a in CHACHA.iter().chain(&XCHACHA).chain(&[LEGACY]) {
            let a = *a;
            job(j, *c, format!("{} drop", a.name), move |l| { drop_core(l, &a); });
        }
        for a in RNG {
            job(j, *c, format!("{} drop", a.name), move |l| { drop_rng(l, &a); });
        }
    }
    for c in one {
        for a in SALSA.iter().chain(&XSALSA).chain(&[HC, RABBIT, RABBITK]) {
            let a = *a;
            job(j, *c, format!("{} drop", a.name), move |l| { drop_core(l, &a); drop_any(l, &a); });
        }
        job(j, *c, "rc4 drop".into(), move |l| { drop_rc4(l); });
    }
}
fn seqs(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], tier: u8) {
    for c in on {
        for a in algs {
            let a = *a;
            let (n, m) = match a.fam {
                Fam::Hc => if tier > 0 { (4200, 2100) } else { (30, 2060) },
                _ => if tier > 0 { (40, 20) } else { (5, 4) },
            };
            job(j, *c, format!("{} keystream", a.name), move |l| { seq_core(l, &a, n, m); });
        }
        if algs.iter().any(|a| a.fam == Fam::Rabbit) {
            job(j, *c, "rabbit inner".into(), move |l| { rabbit_inner(l); });
        }
    }
}

/// one message from the start of the keystream, in pieces
fn start_messages(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg]) {
    for c in on {
        for a in algs {
            let a = *a;
            job(j, *c, format!("{} first message", a.name), move |l| {
                message_start(l, &a, &[(0, 1), (1, 62), (2, 1), (0, 64), (1, 65), (0, 0), (2, 130)]);
                message_start(l, &a, &[(1, 300), (0, 5), (2, 64), (0, 1200)]);
            });
        }
    }
}
/// one long call, longer than 2^16 bytes
fn long_messages(j: &mut Jobs, on: &'static [(&'static str, &'static str)], algs: &[Alg], kinds: u8) {
    for c in on {
        for a in algs {
            let a = *a;
            for k in 0..kinds {
                job(j, *c, format!("{} long message {}", a.name, k), move |l| {
                    if a.ctr > 0 {
                        message_start(l, &a, &[(k, 5), (k, LONG), (2 - k, 3)]);
                    } else {
                        message_seq(l, &a, &[(k, 5), (k, LONG), (2 - k, 3)]);
                    }
                });
            }
        }
    }
}
pub const LONG: u32 = 66_000;
/// the histories the event rules look at: construction, seeking, every way of generating,
/// wrap-around, restoring, dropping, wrong lengths, formatting
fn corpus(j: &mut Jobs, x86: &'static [(&'static str, &'static str)], one: &'static [(&'static str, &'static str)], tier: u8) {
    let t = tier > 0;
    let cc: Vec<Alg> = cat(&[&CHACHA, &XCHACHA, &[LEGACY]]);
    blocks_and_batches(j, x86, &cc, 1, true, t);
    blocks_and_batches(j, x86, &[CHACHA[0], LEGACY], 1, false, !t);
    seeks(j, x86, &cc);
    carries(j, x86, &[CHACHA[0], LEGACY], 0);
    messages(j, x86, &if t { vec![CHACHA[0], XCHACHA[0], LEGACY] } else { vec![CHACHA[0], LEGACY] }, 0);
    hfuns(j, x86, false, true);
    generators(j, x86, t);
    rng_all(j, x86, if t { &RNG } else { &RNG[..1] }, tier, 7, true);
    drops(j, x86, one);
    blocks_and_batches(j, one, &cat(&[&SALSA, &XSALSA]), 1, true, true);
    seeks(j, one, &cat(&[&SALSA, &XSALSA]));
    carries(j, one, &SALSA[..1], 0);
    messages(j, one, &[SALSA[0]], 0);
    hfuns(j, one, true, false);
    seqs(j, one, &[RABBIT, RABBITK, HC], 0);
    seq_messages(j, one, tier);
    for c in one {
        for a in SALSA {
            job(j, *c, format!("{} raw", a.name), move |l| { salsa_raw(l, &a); });
        }
        for a in cat(&[&cc, &SALSA, &XSALSA, &[HC, RABBIT, RABBITK]]) {
            job(j, *c, format!("{} lengths", a.name), move |l| { lengths(l, &a); });
        }
        for part in 0..4 {
            job(j, *c, format!("rc4 lengths {}", part), move |l| { rc4_lengths(l, part, 4); });
        }
        for n in if t { vec![1u32, 2, 5, 16, 32, 100, 255, 256] } else { vec![1, 5, 256] } {
            job(j, *c, format!("rc4 messages {}", n), move |l| { rc4_messages(l, n); });
        }
        job(j, *c, "rc4 state".into(), move |l| { rc4_state(l, 250, 10); });
        job(j, *c, "interleaved instances".into(), move |l| { interleaved(l); });
    }
    for c in x86 {
        job(j, *c, "interleaved instances".into(), move |l| { interleaved_chacha(l); });
    }
}

/// what the NEON backend does
fn neon(j: &mut Jobs) {
    blocks_and_batches(j, NEON, &[CHACHA[0], LEGACY], 1, true, true);
    carries(j, NEON, &[CHACHA[0], LEGACY], 0);
    start_messages(j, NEON, &[CHACHA[0], LEGACY]);
    rng_all(j, NEON, &RNG[..1], 0, 1, false);
}
pub fn cat(l: &[&[Alg]]) -> Vec<Alg> {
    l.iter().flat_map(|x| x.iter().cloned()).collect()
}

pub fn plan(prop: &str, tier: u8) -> Option<Plan> {
    let mut j: Jobs = vec![];
    let x86 = if tier > 0 { X86_T } else { X86_Q };
    let one = if tier > 0 { ONE_T } else { ONE_Q };
    let t = tier > 0;
    let mut p = Plan { jobs: vec![], extras: vec![], kinds: FUNC, exempt: no_exempt, must_build: false, public_positions: false, rule: "", level: "proof", assumptions: &[] };
    match prop {
        "C01" => {
            p.rule = "value-number equality of every output word with the RFC 8439 term, for symbolic key, nonce and counter";
            blocks_and_batches(&mut j, x86, &CHACHA, 1, true, false);
            blocks_and_batches(&mut j, NEON, &CHACHA, 1, true, false);
        }
        "C02" => {
            p.rule = "value-number equality of block i with the term at counter start+i; state after the run equals a fresh state at start+n (induction over histories)";
            blocks_and_batches(&mut j, x86, &cat(&[&CHACHA, &[LEGACY, XCHACHA[2]]]), 2, false, true);
            carries(&mut j, x86, &[CHACHA[0], LEGACY], tier);
            generators(&mut j, x86, t);
            blocks_and_batches(&mut j, NEON, &[CHACHA[0], LEGACY], 2, false, true);
            carries(&mut j, NEON, &[CHACHA[0], LEGACY], tier);
        }
        "C03" => {
            p.rule = "value-number equality of derived subkeys and of keystream blocks with the HChaCha and XChaCha terms";
            hfuns(&mut j, x86, false, true);
            blocks_and_batches(&mut j, x86, &XCHACHA, 1, true, t);
            hfuns(&mut j, NEON, false, true);
            blocks_and_batches(&mut j, NEON, &XCHACHA, 1, true, false);
        }
        "C04" => {
            p.rule = "value-number equality of keystream blocks with the term using a 64-bit counter and nonce, in every batch lane";
            blocks_and_batches(&mut j, x86, &[LEGACY], 2, true, true);
            carries(&mut j, x86, &[LEGACY], tier);
            blocks_and_batches(&mut j, NEON, &[LEGACY], 2, true, true);
            carries(&mut j, NEON, &[LEGACY], tier);
        }
        "C05" => {
            p.rule = "value-number equality of reported positions, remaining counts and of the blocks following seeks";
            seeks(&mut j, x86, &cat(&[&CHACHA, &XCHACHA, &[LEGACY]]));
            for c in x86 {
                job(&mut j, *c, "inherent".into(), move |l| { inherent_pos(l); });
            }
            seeks(&mut j, W32, &cat(&[&CHACHA, &XCHACHA[..1], &[LEGACY]]));
            seeks(&mut j, NEON, &[CHACHA[0], LEGACY]);
        }
        "C06" => {
            p.rule = "value-number equality of every output word with the Salsa20 term, induction over single blocks and batches, raw states symbolic";
            blocks_and_batches(&mut j, one, &SALSA, 1, true, true);
            carries(&mut j, one, &SALSA, tier);
            for c in one {
                for a in SALSA {
                    job(&mut j, *c, format!("{} raw", a.name), move |l| { salsa_raw(l, &a); });
                }
            }
        }
        "C07" => {
            p.rule = "value-number equality of derived subkeys and of keystream blocks with the HSalsa and XSalsa terms";
            hfuns(&mut j, one, true, false);
            blocks_and_batches(&mut j, one, &XSALSA, 1, true, true);
        }
        "C08" => {
            p.rule = "value-number equality of reported positions, remaining counts and of the blocks following seeks";
            seeks(&mut j, one, &cat(&[&SALSA, &XSALSA]));
            seeks(&mut j, W32, &cat(&[&SALSA, &XSALSA[..1]]));
            for c in one {
                for a in SALSA {
                    job(&mut j, *c, format!("{} raw", a.name), move |l| { salsa_raw(l, &a); });
                }
            }
        }
        "C09" => {
            p.rule = "value-number equality of table contents after initialisation (through the output) and of every output word over a full table period, from the initial and from an arbitrary table state";
            seqs(&mut j, one, &[HC], tier);
        }
        "C10" => {
            p.rule = "value-number equality of keystream blocks with the RFC 4503 terms, from the initial and from an arbitrary state including the carry";
            seqs(&mut j, one, &[RABBIT, RABBITK], tier);
        }
        "C11" => {
            p.rule = "value-number equality of output bytes with the RC4 terms per key length; single steps from an arbitrary permutation state at each index";
            rc4_jobs(&mut j, one, tier);
            for k in 0..3 {
                job(&mut j, ONE_Q[0], format!("rc4 long message {}", k), move |l| { rc4_long(l, k, LONG); });
            }
        }
        "C12" => {
            p.rule = "the constructor's result is constant-folded for every length class (each length below 80, RC4 below 301, and one symbolic class for all longer ones)";
            for c in if t { X86_T } else { ONE_Q } {
                for a in cat(&[&CHACHA, &XCHACHA, &[LEGACY], &SALSA, &XSALSA, &[HC, RABBIT, RABBITK]]) {
                    job(&mut j, *c, format!("{} lengths", a.name), move |l| { lengths(l, &a); });
                }
                for part in 0..4 {
                    job(&mut j, *c, format!("rc4 lengths {}", part), move |l| { rc4_lengths(l, part, 4); });
                }
            }
        }
        "C13" => {
            p.rule = "value-number equality of every read with the seed's keystream words; inductive over buffer index and operation";
            rng_all(&mut j, if t { x86 } else { X86_C }, &RNG, tier, 1, false);
            if !t {
                rng_all(&mut j, &X86_Q[4..5], &RNG[..1], 0, 1, false);
                rng_all(&mut j, &RNG_ONLY[..1], &RNG[..1], 0, 1, false);
            } else {
                rng_all(&mut j, RNG_ONLY, &RNG, 0, 1, false);
            }
            rng_all(&mut j, NEON, &RNG[..1], tier, 1, false);
        }
        "C14" => {
            p.rule = "value-number equality of reported positions, streams, seeds and of reads after setting them";
            rng_all(&mut j, if t { x86 } else { X86_C }, &RNG, tier, 2, true);
            if !t {
                rng_all(&mut j, &X86_Q[4..5], &RNG[..1], 0, 2, true);
                rng_all(&mut j, &RNG_ONLY[..1], &RNG[..1], 0, 2, true);
            } else {
                rng_all(&mut j, RNG_ONLY, &RNG, 0, 2, true);
            }
            rng_all(&mut j, x86, if t { &RNG } else { &RNG[..1] }, tier, 1, true);
            rng_all(&mut j, NEON, &RNG[..1], 0, 2, true);
            rng_all(&mut j, W32, if t { &RNG } else { &RNG[..1] }, 0, 2, true);
        }
        "C15" => {
            p.rule = "value-number equality of serialised bytes, of everything read from the restored generator, and of the equality result with the specified conjunction";
            rng_all(&mut j, x86, &RNG, tier, 4, true);
            rng_all(&mut j, W32, &RNG[..1], tier, 4, true);
            rng_all(&mut j, NEON, &RNG[..1], tier, 4, true);
            rng_all(&mut j, RNG_ONLY, &RNG, 0, 4, true);
        }
        "C16" => {
            p.rule = "after drop_in_place every byte of the object whose abstract value depended on a secret is the constant 0 stored by a volatile write";
            p.kinds = WIPE;
            drops(&mut j, x86, one);
            // without the feature nothing is promised
            j.retain(|x| x.cfg != "nozero");
        }
        "C17" => {
            p.rule = "no load from the formatted object (and no pointer to it handed to formatting code that would load it) on any path of the Debug/AlgorithmName implementations";
            p.kinds = &["WatchRead", "Stop"];
            for c in one {
                for a in cat(&[&CHACHA, &XCHACHA, &[LEGACY], &SALSA, &XSALSA, &[HC, RABBIT, RABBITK, RC4], &RNG]) {
                    job(&mut j, *c, format!("{} debug", a.name), move |l| { debug_of(l, &a); });
                }
            }
        }
        "C18" => {
            p.rule = "no branch, switch, division or call target and no load or store address depends on a secret symbol (key, nonce, stream, seed, keystream, message) on any analysed path, the block counter being public; table ciphers: control flow only";
            p.kinds = &["SecretBranch", "SecretAddr", "Stop"];
            p.public_positions = true;
            blocks_and_batches(&mut j, x86, &cat(&[&CHACHA, &XCHACHA, &[LEGACY]]), 1, true, t);
            blocks_and_batches(&mut j, x86, &[CHACHA[0], LEGACY], 1, false, !t);
            hfuns(&mut j, x86, false, true);
            hfuns(&mut j, one, true, false);
            blocks_and_batches(&mut j, one, &cat(&[&SALSA, &XSALSA]), 1, true, t);
            generators(&mut j, x86, t);
            rng_all(&mut j, x86, if t { &RNG } else { &RNG[..1] }, 0, 1, false);
            for c in one {
                for a in [RABBIT, RABBITK] {
                    job(&mut j, *c, format!("{} keystream", a.name), move |l| { seq_core(l, &a, 5, 4); });
                }
                job(&mut j, *c, "hc256 keystream".into(), move |l| { seq_core(l, &HC, 3, 2); });
                job(&mut j, *c, "rc4".into(), move |l| { rc4_key(l, 5, 3); rc4_state(l, 0, 4); });
            }
            start_messages(&mut j, x86, &cat(&[&[CHACHA[0], XCHACHA[0], LEGACY]]));
            neon(&mut j);
            start_messages(&mut j, one, &cat(&[&[SALSA[0], XSALSA[0]]]));
            seq_messages(&mut j, one, 0);
            p.exempt = |f| f.kind == "SecretAddr" && (f.scen.starts_with("hc256") || f.scen.starts_with("RC4") || f.scen.starts_with("rc4"));
        }
        "C19" => {
            p.rule = "every access is inside its object, at an alignment the object guarantees, to initialised bytes and to live, writable memory, on every analysed path";
            p.kinds = &["Oob", "Misalign", "Uninit", "ReadOnlyWrite", "Dead", "Stop"];
            corpus(&mut j, if t { x86 } else { X86_C }, if t { one } else { ONE_C }, tier);
            neon(&mut j);
        }
        "C20" => {
            p.rule = "no instruction or function needing a CPU feature is reached unless the compile target or the modelled CPU has it; output terms equal the specification's on every CPU model";
            p.kinds = &["Feature", "Mismatch", "Panic", "Unreachable", "Stop"];
            p.extras.push(Box::new(crate::sources::forced));
            let cpus: &'static [(&'static str, &'static str)] = if t { X86_CPU_T } else { X86_CPU };
            blocks_and_batches(&mut j, cpus, &cat(&[&[CHACHA[0], LEGACY], if t { &CHACHA[1..] } else { &[] }]), 1, true, true);
            blocks_and_batches(&mut j, cpus, &[XCHACHA[0]], 1, true, false);
            hfuns(&mut j, cpus, false, true);
            generators(&mut j, cpus, t);
            rng_all(&mut j, cpus, &RNG[..1], 0, 1, false);
            start_messages(&mut j, cpus, &[CHACHA[0], LEGACY]);
            for c in cpus {
                for a in [CHACHA[0], XCHACHA[0], LEGACY] {
                    job(&mut j, *c, format!("{} drop", a.name), move |l| { drop_core(l, &a); });
                }
            }
            blocks_and_batches(&mut j, cpus, &[SALSA[0]], 1, true, false);
            seqs(&mut j, &cpus[..1], &[RABBIT], 0);
        }
        "C21" => {
            p.rule = "no call that panics, traps or aborts, and no code declared unreachable, is reachable under any analysed history";
            p.kinds = &["Panic", "Unreachable", "Stop"];
            corpus(&mut j, if t { x86 } else { X86_C }, one, tier);
            neon(&mut j);
            seeks(&mut j, W32, &[CHACHA[0], XCHACHA[0], LEGACY, SALSA[0], XSALSA[0]]);
            messages(&mut j, W32, &if t { vec![CHACHA[0], LEGACY, SALSA[0]] } else { vec![CHACHA[0], LEGACY] }, 0);
            rng_all(&mut j, W32, &RNG[..1], 0, 7, true);
        }
        "C22" => {
            p.rule = "no load from or store to a mutable global (other than the CPU-feature cache) and no call out of the analysed program; interleaved instances produce their own specified output";
            p.kinds = &["GlobalRead", "GlobalWrite", "External", "Mismatch", "Stop"];
            p.exempt = |f| f.kind.starts_with("Global") && f.detail.contains("cpuid") && f.detail.contains("STORAGE");
            corpus(&mut j, if t { x86 } else { X86_C }, if t { one } else { ONE_C }, tier);
            neon(&mut j);
        }
        "C25" => {
            p.rule = "value-number equality of every message byte with data ^ keystream at its position, of reported positions, and of the unchanged data and position after refused operations";
            let few: &'static [(&'static str, &'static str)] = if t { X86_T } else { X86_Q };
            messages(&mut j, few, &if t { cat(&[&CHACHA, &XCHACHA, &[LEGACY]]) } else { vec![CHACHA[0], LEGACY] }, tier);
            messages(&mut j, one, &if t { cat(&[&SALSA, &XSALSA]) } else { vec![SALSA[0]] }, tier);
            if t {
                long_messages(&mut j, X86_Q, &[CHACHA[0], LEGACY], 3);
                long_messages(&mut j, ONE_Q, &[SALSA[0], RABBIT, HC], 3);
            } else {
                long_messages(&mut j, &X86_C[2..], &[CHACHA[0]], 1);
                long_messages(&mut j, ONE_Q, &[SALSA[0], RABBIT], 1);
            }
            for k in 0..3 {
                job(&mut j, ONE_Q[0], format!("rc4 long message {}", k), move |l| { rc4_long(l, k, LONG); });
            }
            start_messages(&mut j, one, &cat(&[&CHACHA[1..], &XCHACHA, &SALSA[1..], &XSALSA]));
            seq_messages(&mut j, one, tier);
            messages(&mut j, W32, &if t { vec![CHACHA[0], LEGACY, SALSA[0]] } else { vec![CHACHA[0], LEGACY] }, 0);
            for c in one {
                for n in [5u32, 16, 256] {
                    job(&mut j, *c, format!("rc4 messages {}", n), move |l| { rc4_messages(l, n); });
                }
            }
        }
        "C23" => {
            p.rule = "programs stating each contract are accepted by rustc's type checker and twins stating the opposite are refused; no safe public function hands out internal state";
            p.extras.push(Box::new(crate::sources::type_rules));
            p.extras.push(Box::new(crate::sources::surface));
            p.kinds = &["TypeRule"];
        }
        "C24" => {
            p.rule = "for each foreign target the output terms of the code compiled for it equal the specification's terms";
            p.must_build = true;
            for c in if t { TARGETS_T } else { TARGETS_Q } {
                let one = std::slice::from_ref(c);
                let fast = c.0.starts_with("aarch64") || c.0 == "i686";
                let cc: Vec<Alg> = if t || fast { cat(&[&CHACHA, &[LEGACY]]) } else { vec![CHACHA[0], LEGACY] };
                blocks_and_batches(&mut j, one, &cc, 1, true, true);
                blocks_and_batches(&mut j, one, &XCHACHA, 1, true, false);
                seeks(&mut j, one, &cc);
                carries(&mut j, one, &[CHACHA[0], LEGACY, SALSA[0]], tier);
                blocks_and_batches(&mut j, one, if t { &SALSA } else { &SALSA[..1] }, 1, true, true);
                blocks_and_batches(&mut j, one, &XSALSA[..1], 1, true, false);
                seeks(&mut j, one, &[SALSA[0], XSALSA[0]]);
                seqs(&mut j, one, &[RABBIT, RABBITK], tier);
                if t || *c != ("i686", "avx2") {
                    job(&mut j, *c, "hc256 few blocks".into(), move |l| { seq_core(l, &HC, 20, 20); });
                }
                hfuns(&mut j, one, true, true);
                start_messages(&mut j, one, &[CHACHA[0], XCHACHA[0], LEGACY, SALSA[0], XSALSA[0]]);
                job(&mut j, *c, "rc4".into(), move |l| { rc4_key(l, 5, 3); rc4_state(l, 0, 4); });
                generators(&mut j, one, t);
                rng_all(&mut j, one, if t { &RNG } else { &RNG[..1] }, 0, 7, true);
            }
            if t {
                seqs(&mut j, &TARGETS_T[..4], &[HC], 0);
            } else {
                // the remaining targets, with a smaller set of scenarios
                for c in &TARGETS_T[9..] {
                    let one = std::slice::from_ref(c);
                    blocks_and_batches(&mut j, one, &[CHACHA[0], LEGACY, SALSA[0]], 1, true, true);
                    blocks_and_batches(&mut j, one, &[XCHACHA[0], XSALSA[0]], 1, true, false);
                    seeks(&mut j, one, &[CHACHA[0], LEGACY, SALSA[0]]);
                    seqs(&mut j, one, &[RABBIT, RABBITK], 0);
                    job(&mut j, *c, "hc256 few blocks".into(), move |l| { seq_core(l, &HC, 3, 3); });
                    job(&mut j, *c, "rc4".into(), move |l| { rc4_key(l, 5, 3); });
                    hfuns(&mut j, one, true, true);
                    rng_all(&mut j, one, &RNG[..1], 0, 4, true);
                }
            }
        }
        "C26" => {
            p.rule = "every documented combination type-checks; on every build option the output terms equal the specification's";
            p.must_build = true;
            p.extras.push(Box::new(crate::sources::matrix));
            for c in OPTIONS {
                let cc: Vec<Alg> = if t { cat(&[&CHACHA, &XCHACHA, &[LEGACY]]) } else { vec![CHACHA[0], LEGACY] };
                if c.0 == "cipheronly" {
                    let one = std::slice::from_ref(c);
                    blocks_and_batches(&mut j, one, &CHACHA, 1, true, true);
                    seeks(&mut j, one, &CHACHA);
                    carries(&mut j, one, &CHACHA[..1], 0);
                    start_messages(&mut j, one, &CHACHA[..1]);
                    continue;
                }
                if c.0 != "rngonly" && c.0 != "rngzero" {
                    blocks_and_batches(&mut j, std::slice::from_ref(c), &cc, 1, true, true);
                    seeks(&mut j, std::slice::from_ref(c), &cc);
                    blocks_and_batches(&mut j, std::slice::from_ref(c), if t { &SALSA } else { &SALSA[..1] }, 1, true, true);
                    carries(&mut j, std::slice::from_ref(c), &[LEGACY, SALSA[0]], 0);
                    seqs(&mut j, std::slice::from_ref(c), &[RABBIT, RABBITK], 0);
                    hfuns(&mut j, std::slice::from_ref(c), true, true);
                    start_messages(&mut j, std::slice::from_ref(c), &[CHACHA[0], XCHACHA[0], LEGACY, SALSA[0], XSALSA[0]]);
                    job(&mut j, *c, "rc4".into(), move |l| { rc4_key(l, 5, 3); rc4_state(l, 0, 4); });
                    generators(&mut j, std::slice::from_ref(c), t);
                }
                rng_all(&mut j, std::slice::from_ref(c), if t { &RNG } else { &RNG[..1] }, 0, 7, true);
            }
        }
        _ => return None,
    }
    // bounded corpora and rules over enumerated histories, builds or targets are not called proofs
    if matches!(prop, "C11" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" | "C23" | "C24" | "C25" | "C26") {
        p.level = "other";
    }
    p.jobs = j;
    Some(p)
}
