//! Rules decided by rustc itself: which build options compile, which programs type-check,
//! and what the public surface of the secret-bearing types is (rustdoc's item index).
use crate::checks::Extra;
use crate::config::Env;
use crate::lab::Finding;
use std::path::PathBuf;
use std::process::Command;

fn fresh(env: &Env, name: &str) -> PathBuf {
    let d = env.scratch.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("src")).unwrap();
    let _ = std::fs::copy(env.repo.join("Cargo.lock"), d.join("Cargo.lock"));
    d
}
fn deps(env: &Env, chacha_default: bool) -> String {
    let r = env.repo.display();
    format!(
        "chacha20 = {{ path = \"{r}/chacha20\", default-features = {chacha_default}, optional = true }}\n\
         salsa20 = {{ path = \"{r}/salsa20\", optional = true }}\n\
         hc-256 = {{ path = \"{r}/hc-256\", optional = true }}\n\
         rabbit = {{ path = \"{r}/rabbit\", optional = true }}\n\
         rc4 = {{ path = \"{r}/rc4\", optional = true }}\n"
    )
}
fn run(env: &Env, dir: &PathBuf, args: &[&str], flags: &str, target: &PathBuf) -> Result<(bool, String), String> {
    let mut c = env.cargo();
    c.current_dir(dir).args(args).env("RUSTFLAGS", format!("-Awarnings {}", flags)).env("CARGO_TARGET_DIR", target);
    output(&mut c)
}
fn output(c: &mut Command) -> Result<(bool, String), String> {
    let o = c.output().map_err(|e| e.to_string())?;
    Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned() + &String::from_utf8_lossy(&o.stdout)))
}
/// the first error, with its location in /repo
fn first_error(env: &Env, out: &str) -> (String, String) {
    let mut msg = String::new();
    let mut loc = String::new();
    let mut it = out.lines();
    while let Some(l) = it.next() {
        if msg.is_empty() && l.starts_with("error") && !l.starts_with("error: could not compile") {
            msg = l.to_string();
        } else if !msg.is_empty() && l.trim_start().starts_with("--> ") {
            let p = l.trim_start()[4..].to_string();
            let p = p.strip_prefix(&format!("{}/", env.repo.display())).unwrap_or(&p).to_string();
            // file only: line numbers move
            loc = p.split(':').next().unwrap_or("").to_string();
            break;
        }
    }
    (msg, loc)
}

const CHACHA_FEATURES: &[&str] = &[
    "", "cipher", "rng", "xchacha", "legacy", "cipher,rng", "zeroize", "cipher,zeroize", "rng,zeroize", "xchacha,zeroize", "legacy,zeroize",
    "rng,legacy", "rng,xchacha", "xchacha,legacy", "cipher,rng,xchacha,legacy", "cipher,rng,xchacha,legacy,zeroize",
];
/// flags, and whether the target features the backend needs are enabled
const BACKENDS: &[(&str, &str)] = &[
    ("auto", ""),
    ("soft", "--cfg chacha20_backend=\"soft\""),
    ("sse2", "--cfg chacha20_backend=\"sse2\""),
    ("avx2", "--cfg chacha20_backend=\"avx2\" -C target-feature=+avx2"),
    ("avx512", "--cfg chacha20_backend=\"avx512\" -C target-feature=+avx512f,+avx512vl"),
];

/// every documented combination of crate features and backend options type-checks
pub fn matrix(env: &Env) -> Result<Extra, String> {
    let mut x = Extra { obligations: 0, desc: vec![], findings: vec![] };
    let mut work: Vec<(String, String, Vec<String>)> = vec![];
    for av in ["", "--cfg chacha20_avx512"] {
        for (b, f) in BACKENDS {
            let name = format!("backend {}{}", b, if av.is_empty() { "" } else { " with chacha20_avx512" });
            work.push((name, format!("{} {}", f, av), CHACHA_FEATURES.iter().map(|s| s.to_string()).collect()));
        }
    }
    let d = fresh(env, "matrix");
    let feats = "chacha = [\"dep:chacha20\"]\ncipher = [\"chacha20/cipher\"]\nrng = [\"chacha20/rng\"]\nxchacha = [\"chacha20/xchacha\"]\nlegacy = [\"chacha20/legacy\"]\n\
                 zeroize = [\"chacha20?/zeroize\", \"salsa20?/zeroize\", \"hc-256?/zeroize\", \"rabbit?/zeroize\", \"rc4?/zeroize\"]\n\
                 default_chacha = [\"chacha20/default\"]\nothers = [\"dep:salsa20\", \"dep:hc-256\", \"dep:rabbit\", \"dep:rc4\"]\n";
    std::fs::write(d.join("Cargo.toml"), format!("[package]\nname = \"mx\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[workspace]\n[features]\n{}[dependencies]\n{}", feats, deps(env, false))).unwrap();
    std::fs::write(d.join("src/lib.rs"), "#![no_std]\n").unwrap();
    // resolve once so that the parallel builds find the lock file in place
    let (ok, o) = run(env, &d, &["metadata", "--offline", "--format-version", "1"], "", &d.join("t"))?;
    if !ok {
        return Err(format!("feature matrix: cannot resolve: {}", o));
    }
    let res: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = work
            .iter()
            .enumerate()
            .map(|(i, (name, flags, fs))| {
                let d = &d;
                s.spawn(move || {
                    let t = env.scratch.join(format!("mx-{}", i));
                    let mut v = vec![];
                    let mut all: Vec<String> = fs.iter().map(|f| format!("chacha{}{}", if f.is_empty() { "" } else { "," }, f)).collect();
                    if i == 0 {
                        all.extend(["others".to_string(), "others,zeroize".into(), "default_chacha".into(), "default_chacha,zeroize".into()]);
                    }
                    for f in all {
                        let r = run(env, d, &["check", "--offline", "--lib", "-j", "2", "--features", &f], flags, &t);
                        v.push((format!("{}, features {}", name, f), r));
                    }
                    let _ = std::fs::remove_dir_all(&t);
                    v
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for (name, r) in res {
        x.obligations += 1;
        let (ok, o) = r?;
        if !ok {
            let (m, l) = first_error(env, &o);
            if m.is_empty() {
                return Err(format!("feature matrix: {}: {}", name, o));
            }
            x.findings.push(Finding { kind: "Build".into(), loc: if l.is_empty() { name.clone() } else { l }, detail: m, scen: format!("does not compile: {}\n{}", name, o) });
        }
    }
    x.desc.push(format!("{} combinations of backend options and features type-check", x.obligations));
    Ok(x)
}

/// a forced backend without its target features is rejected
pub fn forced(env: &Env) -> Result<Extra, String> {
    let mut x = Extra { obligations: 0, desc: vec![], findings: vec![] };
    let d = fresh(env, "forced");
    std::fs::write(
        d.join("Cargo.toml"),
        format!("[package]\nname = \"fc\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\nchacha20 = {{ path = \"{}/chacha20\", features = [\"rng\", \"xchacha\", \"legacy\"] }}\n", env.repo.display()),
    )
    .unwrap();
    std::fs::write(d.join("src/lib.rs"), "#![no_std]\n").unwrap();
    let (ok, o) = run(env, &d, &["check", "--offline", "--lib"], "", &d.join("t"))?;
    if !ok {
        return Err(format!("forced backends: the twin without a forced backend does not compile: {}", o));
    }
    for (b, flags) in [
        ("avx2", "--cfg chacha20_backend=\"avx2\""),
        ("avx512", "--cfg chacha20_backend=\"avx512\""),
        ("avx512", "--cfg chacha20_backend=\"avx512\" -C target-feature=+avx2"),
        ("avx512", "--cfg chacha20_backend=\"avx512\" -C target-feature=+avx512f"),
        ("avx512", "--cfg chacha20_backend=\"avx512\" --cfg chacha20_avx512"),
        ("avx512", "--cfg chacha20_backend=\"avx512\" --cfg chacha20_avx512 -C target-feature=+avx512f"),
        ("avx2", "--cfg chacha20_backend=\"avx2\" --cfg chacha20_avx512 -C target-feature=+avx"),
    ] {
        x.obligations += 1;
        let (ok, _) = run(env, &d, &["check", "--offline", "--lib"], flags, &d.join("t2"))?;
        if ok {
            x.findings.push(Finding {
                kind: "Feature".into(),
                loc: "chacha20/src/lib.rs".into(),
                detail: format!("a build forced to the {} backend compiles although the target features it needs are not enabled", b),
                scen: format!("RUSTFLAGS='{}'", flags),
            });
        }
        let _ = std::fs::remove_dir_all(d.join("t2"));
    }
    x.desc.push("forced avx2/avx512 backends without their target features are rejected by rustc (twin builds accepted)".into());
    Ok(x)
}

// ------------------------------------------------------------------ types
struct Ty {
    name: &'static str,
    krate: &'static str,
    traits: &'static str,
    facts: &'static str,
    zeroize: bool,
    rng: bool,
}
fn types() -> Vec<Ty> {
    let mut v = vec![];
    let mut t = |name, krate, traits, facts, zeroize, rng| v.push(Ty { name, krate, traits, facts, zeroize, rng });
    const W: &str = "KeyIvInit StreamCipher";
    const WS: &str = "KeyIvInit StreamCipher StreamCipherSeek";
    const C: &str = "KeyIvInit StreamCipherCore StreamCipherSeekCore";
    const CD: &str = "KeyIvInit StreamCipherCore StreamCipherSeekCore Debug";
    t("rc4::Rc4", "rc4", "KeyInit StreamCipher", "", true, false);
    t("hc_256::Hc256Core", "hc-256", "KeyIvInit StreamCipherCore AlgorithmName Debug", "KeySize=32 IvSize=32 BlockSize=4", true, false);
    t("rabbit::RabbitCore", "rabbit", "InnerIvInit KeyIvInit StreamCipherCore", "KeySize=16 IvSize=8 BlockSize=16", true, false);
    t("rabbit::RabbitKeyOnlyCore", "rabbit", "KeyInit StreamCipherCore", "KeySize=16 BlockSize=16", true, false);
    t("hc_256::Hc256", "hc-256", W, "KeySize=32 IvSize=32", true, false);
    t("rabbit::Rabbit", "rabbit", W, "KeySize=16 IvSize=8", true, false);
    t("rabbit::RabbitKeyOnly", "rabbit", "KeyInit StreamCipher", "KeySize=16", true, false);
    t("chacha20::ChaCha20LegacyCore", "chacha20", CD, "KeySize=32 IvSize=8 BlockSize=64 Counter=u64", true, false);
    t("chacha20::ChaCha20Legacy", "chacha20", WS, "KeySize=32 IvSize=8", false, false);
    for n in ["chacha20::ChaCha8", "chacha20::ChaCha12", "chacha20::ChaCha20"] {
        t(n, "chacha20", WS, "KeySize=32 IvSize=12", false, false);
    }
    for n in ["chacha20::XChaCha8", "chacha20::XChaCha12", "chacha20::XChaCha20"] {
        t(n, "chacha20", WS, "KeySize=32 IvSize=24", false, false);
    }
    for n in ["CoreOf<chacha20::ChaCha8>", "CoreOf<chacha20::ChaCha12>", "CoreOf<chacha20::ChaCha20>"] {
        t(n, "chacha20", CD, "KeySize=32 IvSize=12 BlockSize=64 Counter=u32", true, false);
    }
    for n in ["CoreOf<chacha20::XChaCha8>", "CoreOf<chacha20::XChaCha12>", "CoreOf<chacha20::XChaCha20>"] {
        t(n, "chacha20", C, "KeySize=32 IvSize=24 BlockSize=64 Counter=u32", true, false);
    }
    for n in ["salsa20::Salsa8", "salsa20::Salsa12", "salsa20::Salsa20"] {
        t(n, "salsa20", WS, "KeySize=32 IvSize=8", true, false);
    }
    for n in ["salsa20::XSalsa8", "salsa20::XSalsa12", "salsa20::XSalsa20"] {
        t(n, "salsa20", WS, "KeySize=32 IvSize=24", true, false);
    }
    for n in ["CoreOf<salsa20::Salsa8>", "CoreOf<salsa20::Salsa12>", "CoreOf<salsa20::Salsa20>"] {
        t(n, "salsa20", C, "KeySize=32 IvSize=8 BlockSize=64 Counter=u64", true, false);
    }
    for n in ["CoreOf<salsa20::XSalsa8>", "CoreOf<salsa20::XSalsa12>", "CoreOf<salsa20::XSalsa20>"] {
        t(n, "salsa20", C, "KeySize=32 IvSize=24 BlockSize=64 Counter=u64", true, false);
    }
    for n in ["chacha20::ChaCha8Rng", "chacha20::ChaCha12Rng", "chacha20::ChaCha20Rng"] {
        t(n, "chacha20", "SeedableRng TryRng TryCryptoRng Rng CryptoRng Debug Eq", "", true, true);
    }
    v
}

const PRELUDE: &str = r#"#![no_std]
#![allow(dead_code, unused_imports)]
use cipher::{AlgorithmName, BlockSizeUser, InnerIvInit, IvSizeUser, KeyInit, KeyIvInit, KeySizeUser, StreamCipher, StreamCipherCore, StreamCipherCoreWrapper, StreamCipherSeek, StreamCipherSeekCore};
use cipher::consts::*;
use cipher::typenum::Unsigned;
use core::fmt::Debug;
use rand_core::{CryptoRng, Rng, SeedableRng, TryCryptoRng, TryRng};
trait Wrapped { type C; }
impl<T: StreamCipherCore> Wrapped for StreamCipherCoreWrapper<T> where T::BlockSize: block_buffer::BlockSizes { type C = T; }
type CoreOf<W> = <W as Wrapped>::C;
macro_rules! absent {
    ($t:ty : $($tr:tt)+) => {
        const _: fn() = || {
            trait Amb<A> { fn f() {} }
            impl<T: ?Sized> Amb<()> for T {}
            #[allow(dead_code)] struct Has;
            impl<T: ?Sized + $($tr)+> Amb<Has> for T {}
            let _ = <$t as Amb<_>>::f;
        };
    };
}
macro_rules! present { ($t:ty : $($tr:tt)+) => { const _: fn() = || { fn f<T: ?Sized + $($tr)+>() {} f::<$t>(); }; }; }
macro_rules! size { ($t:ty, $tr:ident, $a:ident, $n:expr) => { const _: [(); $n] = [(); <<$t as $tr>::$a as Unsigned>::USIZE]; }; }
macro_rules! same { ($t:ty, $u:ty) => { const _: fn() = || { trait Id<T> {} impl<T> Id<T> for T {} fn f<T: Id<U>, U>() {} f::<$t, $u>(); }; }; }
"#;
/// traits that would hand out or duplicate internal state
const NEVER: &[&str] = &[
    "Clone", "Copy", "core::ops::Deref", "core::ops::DerefMut", "AsRef<[u8]>", "AsMut<[u8]>", "AsRef<[u32]>", "AsMut<[u32]>", "AsRef<[u32; 16]>", "AsMut<[u32; 16]>", "AsRef<[u8; 256]>",
    "core::borrow::Borrow<[u8]>", "core::borrow::Borrow<[u32]>", "core::ops::Index<usize>", "core::ops::IndexMut<usize>", "Into<[u32; 16]>", "Into<[u8; 32]>", "Into<[u8; 64]>", "Into<[u8; 256]>",
    "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::Binary", "core::fmt::Display", "core::fmt::Pointer", "core::hash::Hash", "Iterator", "PartialOrd", "Default",
];

/// each witness is one line of a program rustc must accept
fn witnesses(zeroize: bool) -> Vec<(String, String, &'static str)> {
    let mut v: Vec<(String, String, &'static str)> = vec![];
    for t in types() {
        let n = t.name;
        for tr in NEVER {
            v.push((format!("absent!({} : {});", n, tr), format!("{} must not implement {}", n, tr), t.krate));
        }
        if !t.rng {
            v.push((format!("absent!({} : PartialEq<{}>);", n, n), format!("{} must not be comparable", n), t.krate));
        }
        for tr in t.traits.split_whitespace() {
            v.push((format!("present!({} : {});", n, tr), format!("{} implements {}", n, tr), t.krate));
        }
        for a in ["Send", "Sync"] {
            v.push((format!("present!({} : {});", n, a), format!("{} is {}", n, a), t.krate));
        }
        if t.rng {
            v.push((format!("same!(<{} as SeedableRng>::Seed, [u8; 32]);", n), format!("{} has a 32-byte seed", n), t.krate));
            v.push((format!("same!(<{} as TryRng>::Error, core::convert::Infallible);", n), format!("{} never fails", n), t.krate));
            v.push((format!("same!(chacha20::SerializedRngState, [u8; 49]); const _: fn(&{}) -> [u8; 49] = |r| r.serialize_state();", n), format!("{} serialises to 49 bytes", n), t.krate));
            v.push((
                format!("const _: fn(&{0}, &mut {0}) = |r, w| {{ let _: u128 = r.get_word_pos(); let _: u64 = r.get_block_pos(); let _: u64 = r.get_stream(); let _: [u8; 32] = r.get_seed(); w.set_word_pos(0u128); w.set_block_pos(0u64); w.set_stream(0u64); *w = {0}::deserialize_state(&[0u8; 49]); }};", n),
                format!("{} keeps its position, stream and state methods", n),
                t.krate,
            ));
        }
        for f in t.facts.split_whitespace() {
            let (k, x) = f.split_once('=').unwrap();
            let l = match k {
                "Counter" => format!("same!(<{} as StreamCipherSeekCore>::Counter, {});", n, x),
                _ => format!("size!({}, {}User, {}, {});", n, k, k, x),
            };
            v.push((l, format!("{}: {}", n, f), t.krate));
        }
        if zeroize && t.zeroize {
            v.push((format!("present!({} : zeroize::ZeroizeOnDrop);", n), format!("{} is erased on drop", n), t.krate));
            v.push((format!("const _: () = assert!(core::mem::needs_drop::<{}>());", n), format!("{} has drop code", n), t.krate));
        }
    }
    for (n, k) in [("chacha20::hchacha::<chacha20::R20>", "chacha20"), ("salsa20::hsalsa::<U10>", "salsa20")] {
        v.push((
            format!("const _: fn(&cipher::array::Array<u8, U32>, &cipher::array::Array<u8, U16>) -> cipher::array::Array<u8, U32> = |k, i| {}(k, i);", n),
            format!("{} maps a 32-byte key and a 16-byte input to a 32-byte subkey", n),
            k,
        ));
    }
    // RC4 has no seek and accepts variable-length keys through the slice constructor only
    for n in ["rc4::Rc4", "hc_256::Hc256", "rabbit::Rabbit", "rabbit::RabbitKeyOnly"] {
        v.push((format!("absent!({} : StreamCipherSeek);", n), format!("{} cannot seek", n), "rc4"));
    }
    v
}
const FEATS: &str = "chacha20/cipher,chacha20/rng,chacha20/xchacha,chacha20/legacy";

/// check one program; returns the lines (1-based) rustc complains about, with messages
fn check(env: &Env, dir: &PathBuf, src: &str, zeroize: bool) -> Result<Vec<(usize, String)>, String> {
    std::fs::write(dir.join("src/lib.rs"), src).unwrap();
    let feats = format!("all,{}{}", FEATS, if zeroize { ",zero" } else { "" });
    let t = dir.join(if zeroize { "tz" } else { "t" });
    let (ok, o) = run(env, dir, &["check", "--offline", "--lib", "--message-format", "short", "--features", &feats], "", &t)?;
    let mut v = vec![];
    for l in o.lines() {
        let Some(r) = l.strip_prefix("src/lib.rs:") else { continue };
        let mut p = r.splitn(3, ':');
        let (Some(n), _, Some(m)) = (p.next(), p.next(), p.next()) else { continue };
        if m.trim_start().starts_with("error") {
            v.push((n.parse().unwrap_or(0), m.trim().to_string()));
        }
    }
    if !ok && v.is_empty() {
        return Err(format!("type witnesses: the crates do not compile: {}", o));
    }
    Ok(v)
}

/// C23: what the types offer, decided by rustc's trait solver
pub fn type_rules(env: &Env) -> Result<Extra, String> {
    let mut x = Extra { obligations: 0, desc: vec![], findings: vec![] };
    let d = fresh(env, "types");
    std::fs::write(
        d.join("Cargo.toml"),
        format!(
            "[package]\nname = \"tw\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[workspace]\n[features]\nall = [\"dep:chacha20\", \"dep:salsa20\", \"dep:hc-256\", \"dep:rabbit\", \"dep:rc4\"]\n\
             zero = [\"chacha20/zeroize\", \"salsa20/zeroize\", \"hc-256/zeroize\", \"rabbit/zeroize\", \"rc4/zeroize\", \"dep:zeroize\"]\n[dependencies]\n{}\
             cipher = {{ version = \"0.5\", features = [\"stream-wrapper\"] }}\nblock-buffer = \"0.12\"\nrand_core = \"0.10\"\nzeroize = {{ version = \"1\", optional = true, default-features = false }}\n",
            deps(env, false)
        ),
    )
    .unwrap();
    for z in [true, false] {
        let ws = witnesses(z);
        let base = PRELUDE.lines().count();
        let src = format!("{}{}\n", PRELUDE, ws.iter().map(|w| w.0.as_str()).collect::<Vec<_>>().join("\n"));
        let errs = check(env, &d, &src, z)?;
        x.obligations += ws.len() as u64;
        for (n, m) in errs {
            let Some(w) = n.checked_sub(base + 1).and_then(|i| ws.get(i)) else {
                return Err(format!("type witnesses: unexpected error at line {}: {}", n, m));
            };
            x.findings.push(Finding { kind: "TypeRule".into(), loc: format!("crate {}", w.2), detail: w.1.clone(), scen: format!("{}   zeroize feature {}   rustc: {}", w.0, z, m) });
        }
        // the twins: programs of the same shape that rustc must refuse
        let twins = ["absent!([u8; 4] : Clone);", "present!(rc4::Rc4 : Clone);", "size!(rc4::Rc4, BlockSizeUser, BlockSize, 77);", "same!(u32, u64);"];
        let tsrc = format!("{}{}\n", PRELUDE, twins.join("\n"));
        let te = check(env, &d, &tsrc, z)?;
        for (i, t) in twins.iter().enumerate() {
            x.obligations += 1;
            // size mismatches are found in a later compiler phase than unsatisfied bounds; checked below
            if i != 2 && !te.iter().any(|e| e.0 == base + 1 + i) {
                return Err(format!("type witnesses: rustc accepted the twin `{}`", t));
            }
        }
        let te = check(env, &d, &format!("{}{}\n", PRELUDE, twins[2]), z)?;
        if te.is_empty() {
            return Err("type witnesses: rustc accepted a wrong size".into());
        }
    }
    x.desc.push(format!("{} type-level witnesses accepted by rustc, with and without zeroize; 4 twin programs refused", x.obligations));
    let _ = std::fs::remove_dir_all(d.join("t"));
    let _ = std::fs::remove_dir_all(d.join("tz"));
    Ok(x)
}

/// what a documented method may hand out
const DOCUMENTED: &[(&str, &str)] = &[
    ("Rng", "get_word_pos"), ("Rng", "get_block_pos"), ("Rng", "get_stream"), ("Rng", "get_seed"), ("Rng", "serialize_state"), ("ChaChaCore", "get_block_pos"),
];
const LEAKY: &[&str] = &[
    "Clone", "Copy", "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Index", "IndexMut", "Hash", "Display", "LowerHex", "UpperHex", "Binary", "Octal", "Serialize", "Into", "TryInto", "ToOwned", "IntoIterator", "Iterator",
];

/// C23: the public surface of every struct with fields, from rustdoc's item index
pub fn surface(env: &Env) -> Result<Extra, String> {
    let mut x = Extra { obligations: 0, desc: vec![], findings: vec![] };
    let d = fresh(env, "surface");
    let r = env.repo.display();
    std::fs::write(
        d.join("Cargo.toml"),
        format!(
            "[package]\nname = \"sf\"\nversion = \"0.0.0\"\nedition = \"2024\"\n[workspace]\n[dependencies]\n\
             chacha20 = {{ path = \"{r}/chacha20\", features = [\"cipher\", \"rng\", \"xchacha\", \"legacy\", \"zeroize\"] }}\n\
             salsa20 = {{ path = \"{r}/salsa20\", features = [\"zeroize\"] }}\nhc-256 = {{ path = \"{r}/hc-256\", features = [\"zeroize\"] }}\n\
             rabbit = {{ path = \"{r}/rabbit\", features = [\"zeroize\"] }}\nrc4 = {{ path = \"{r}/rc4\", features = [\"zeroize\"] }}\n"
        ),
    )
    .unwrap();
    std::fs::write(d.join("src/lib.rs"), "#![no_std]\n").unwrap();
    let t = d.join("t");
    let mut structs = 0;
    for k in ["chacha20", "salsa20", "hc-256", "rabbit", "rc4"] {
        let mut c = env.cargo();
        c.current_dir(&d)
            .args(["rustdoc", "--offline", "-q", "-p", k, "--lib", "--", "-Z", "unstable-options", "--output-format", "json", "--document-hidden-items"])
            .env("RUSTC_BOOTSTRAP", "1")
            .env("RUSTFLAGS", "-Awarnings")
            .env("CARGO_TARGET_DIR", &t);
        let (ok, o) = output(&mut c)?;
        if !ok {
            return Err(format!("public surface of {}: {}", k, o));
        }
        let s = std::fs::read_to_string(t.join("doc").join(format!("{}.json", k.replace('-', "_")))).map_err(|e| e.to_string())?;
        let j = crate::json::parse(&s).ok_or("rustdoc index does not parse")?;
        let idx = j.get("index");
        let root = env.repo.display().to_string();
        let file = |it: &crate::json::J| -> String {
            let f = it.get("span").get("filename").str();
            f.strip_prefix(&format!("{}/", root)).unwrap_or(f).to_string()
        };
        // structs (and unions, enums with fields) of the crate that hold data
        let mut held: Vec<(String, String)> = vec![];
        for (id, it) in idx.obj() {
            let st = it.get("inner").get("struct");
            if st.is_null() || it.get("crate_id").id() != "0" {
                continue;
            }
            let kind = st.get("kind");
            if kind.str() == "unit" {
                continue;
            }
            held.push((id.clone(), it.get("name").str().to_string()));
            structs += 1;
            x.obligations += 1;
            let fields: Vec<String> = kind.get("plain").get("fields").arr().iter().chain(kind.get("tuple").arr().iter()).filter(|f| !f.is_null()).map(|f| f.id()).collect();
            for f in fields {
                let fi = idx.get(&f);
                if fi.get("visibility").str() == "public" {
                    x.findings.push(Finding { kind: "TypeRule".into(), loc: file(it), detail: format!("field `{}` of {} is public", fi.get("name").str(), it.get("name").str()), scen: "safe code can read and write the internal state".into() });
                }
            }
        }
        let of = |ty: &crate::json::J| -> Option<String> {
            let id = ty.get("resolved_path").get("id").id();
            held.iter().find(|h| h.0 == id).map(|h| h.1.clone())
        };
        let mentions = |ty: &crate::json::J| ty.any(&|n| of(n).is_some());
        for (_, it) in idx.obj() {
            if it.get("crate_id").id() != "0" {
                continue;
            }
            let im = it.get("inner").get("impl");
            if im.is_null() || !im.get("blanket_impl").is_null() || im.get("is_synthetic").truth() {
                continue;
            }
            let tr = im.get("trait");
            let me = of(im.get("for"));
            if !tr.is_null() {
                x.obligations += 1;
                let name = tr.get("path").str().rsplit("::").next().unwrap_or("").to_string();
                if let Some(m) = &me {
                    if LEAKY.contains(&name.as_str()) {
                        x.findings.push(Finding { kind: "TypeRule".into(), loc: file(it), detail: format!("{} implements {}", m, name), scen: "duplicates or hands out internal state".into() });
                    }
                }
                // an exported trait of the crate itself is surface like any inherent method
                let local = idx.get(&tr.get("id").id()).get("crate_id").id() == "0";
                if let (Some(m), true) = (&me, local) {
                    for f in im.get("items").arr() {
                        let fi = idx.get(&f.id());
                        x.obligations += 1;
                        method(&mut x, fi, m, &file(fi), &mentions);
                    }
                }
                if (name == "From" || name == "TryFrom") && me.is_none() && mentions(tr.get("args")) {
                    x.findings.push(Finding { kind: "TypeRule".into(), loc: file(it), detail: "a conversion out of a secret-bearing type is provided".into(), scen: String::new() });
                }
                continue;
            }
            let Some(m) = me else { continue };
            for f in im.get("items").arr() {
                let fi = idx.get(&f.id());
                if fi.get("visibility").str() == "public" {
                    x.obligations += 1;
                    method(&mut x, fi, &m, &file(fi), &mentions);
                }
            }
        }
        // free functions
        for (_, it) in idx.obj() {
            if it.get("crate_id").id() == "0" && it.get("visibility").str() == "public" && !it.get("inner").get("function").is_null() {
                let f = it.get("inner").get("function");
                if f.get("sig").get("inputs").arr().iter().any(|p| mentions(&p.arr()[1])) {
                    x.obligations += 1;
                    method(&mut x, it, "", &file(it), &mentions);
                }
            }
        }
    }
    if structs < 8 {
        return Err(format!("public surface: only {} structs found", structs));
    }
    x.desc.push(format!("public surface of {} structs with fields in 5 crates: no public field, no duplicating or state-exposing trait, no undocumented safe accessor", structs));
    let _ = std::fs::remove_dir_all(&t);
    Ok(x)
}
fn method(x: &mut Extra, it: &crate::json::J, owner: &str, file: &str, mentions: &dyn Fn(&crate::json::J) -> bool) {
    let f = it.get("inner").get("function");
    if f.is_null() || f.get("header").get("is_unsafe").truth() {
        return;
    }
    let name = it.get("name").str();
    if DOCUMENTED.iter().any(|(o, n)| owner.ends_with(o) && name == *n) {
        return;
    }
    let sig = f.get("sig");
    let ins = sig.get("inputs").arr();
    let is_self = |t: &crate::json::J| t.any(&|n| n.get("generic").str() == "Self") || mentions(t);
    let takes = ins.iter().any(|p| is_self(&p.arr()[1]));
    if !takes {
        return;
    }
    let by_value = ins.iter().any(|p| p.arr()[1].get("generic").str() == "Self");
    let out = sig.get("output");
    // nothing, a flag, or the value itself handed on
    let plain = out.is_null()
        || out.get("primitive").str() == "bool"
        || matches!(out.get("tuple"), crate::json::J::Arr(v) if v.is_empty())
        || (by_value && out.get("generic").str() == "Self")
        || (!out.get("borrowed_ref").is_null() && out.get("borrowed_ref").get("is_mutable").truth() && out.get("borrowed_ref").get("type").get("generic").str() == "Self")
        || result_of_unit(out);
    let out_param = ins.iter().any(|p| {
        let r = p.arr()[1].get("borrowed_ref");
        !r.is_null() && r.get("is_mutable").truth() && (!r.get("type").get("slice").is_null() || !r.get("type").get("array").is_null())
    });
    if !plain || out_param {
        x.findings.push(Finding {
            kind: "TypeRule".into(),
            loc: file.to_string(),
            detail: format!("public safe function {}{}{} takes the state and returns data", owner, if owner.is_empty() { "" } else { "::" }, name),
            scen: "undocumented access to internal state".into(),
        });
    }
}
fn result_of_unit(o: &crate::json::J) -> bool {
    let r = o.get("resolved_path");
    r.get("path").str().ends_with("Result")
        && r.get("args").get("angle_bracketed").get("args").arr().first().map_or(false, |a| matches!(a.get("type").get("tuple"), crate::json::J::Arr(v) if v.is_empty()))
}
