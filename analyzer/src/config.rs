//! Build configurations of /repo that are analysed, and CPU models.
use crate::exec::{Cpu, Program};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::Command;

pub const ALL: &str = "stream,chacha,xchacha,legacy,rng,salsa,hc256,rabbit,rc4,zeroize";

#[derive(Clone, Debug)]
pub struct Config {
    pub name: &'static str,
    pub flags: &'static str,
    pub features: &'static str,
    pub release: bool,
    pub target: Option<&'static str>,
    pub statics: &'static [&'static str],
}
const AVX2S: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "xsave", "avx", "avx2"];
const AVX512S: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "crc32", "popcnt", "xsave", "avx", "avx2", "fma", "f16c", "avx512f", "avx512vl", "evex512"];

pub fn config(name: &str) -> Config {
    let c = |name, flags, features, release, target, statics| Config { name, flags, features, release, target, statics };
    match name {
        "auto512" => c("auto512", "--cfg chacha20_avx512", ALL, false, None, &[]),
        "auto" => c("auto", "", ALL, false, None, &[]),
        "soft" => c("soft", "--cfg chacha20_backend=\"soft\"", ALL, false, None, &[]),
        "sse2" => c("sse2", "--cfg chacha20_backend=\"sse2\"", ALL, false, None, &[]),
        "avx2" => c("avx2", "--cfg chacha20_backend=\"avx2\" -C target-feature=+avx2", ALL, false, None, AVX2S),
        "avx512" => c("avx512", "--cfg chacha20_avx512 --cfg chacha20_backend=\"avx512\" -C target-feature=+avx512f,+avx512vl", ALL, false, None, AVX512S),
        "avx512b" => c("avx512b", "--cfg chacha20_backend=\"avx512\" -C target-feature=+avx512f,+avx512vl", ALL, false, None, AVX512S),
        "release" => c("release", "--cfg chacha20_avx512", ALL, true, None, &[]),
        "nozero" => c("nozero", "--cfg chacha20_avx512", "stream,chacha,xchacha,legacy,rng,salsa,hc256,rabbit,rc4", false, None, &[]),
        "rngonly" => c("rngonly", "--cfg chacha20_avx512", "rng", false, None, &[]),
        "cipheronly" => c("cipheronly", "--cfg chacha20_avx512", "stream,chacha", false, None, &[]),
        "rngzero" => c("rngzero", "--cfg chacha20_avx512", "rng,zeroize", true, None, &[]),
        "aarch64" => c("aarch64", "", ALL, false, Some("aarch64-unknown-linux-gnu"), &["neon", "fp-armv8"]),
        "aarch64be" => c("aarch64be", "", ALL, false, Some("aarch64_be-unknown-linux-gnu"), &["neon", "fp-armv8"]),
        "aarch64soft" => c("aarch64soft", "--cfg chacha20_backend=\"soft\"", ALL, false, Some("aarch64-unknown-linux-gnu"), &["neon", "fp-armv8"]),
        "i686" => c("i686", "--cfg chacha20_avx512", ALL, false, Some("i686-unknown-linux-gnu"), &[]),
        "i686soft" => c("i686soft", "--cfg chacha20_backend=\"soft\"", ALL, true, Some("i686-unknown-linux-gnu"), &[]),
        "powerpc" => c("powerpc", "", ALL, false, Some("powerpc-unknown-linux-gnu"), &[]),
        "powerpc_rel" => c("powerpc_rel", "", ALL, true, Some("powerpc-unknown-linux-gnu"), &[]),
        "s390x" => c("s390x", "", ALL, false, Some("s390x-unknown-linux-gnu"), &[]),
        "riscv32" => c("riscv32", "", ALL, false, Some("riscv32imac-unknown-none-elf"), &[]),
        "armv7" => c("armv7", "", ALL, false, Some("armv7-unknown-linux-gnueabihf"), &[]),
        "mips" => c("mips", "", ALL, false, Some("mips-unknown-linux-gnu"), &[]),
        "wasm32" => c("wasm32", "", ALL, false, Some("wasm32-unknown-unknown"), &[]),
        "thumbv6" => c("thumbv6", "", ALL, false, Some("thumbv6m-none-eabi"), &[]),
        _ => panic!("unknown config {}", name),
    }
}

pub fn cpu(name: &str) -> Cpu {
    let base = ["x87", "mmx", "cx8", "cmov", "fxsr", "sse", "sse2"];
    let s3 = ["sse3", "ssse3"];
    let s4 = ["sse4.1", "sse4.2", "crc32", "popcnt"];
    let av = ["xsave", "avx", "avx2", "fma", "f16c", "bmi1", "bmi2"];
    let mut f: HashSet<String> = HashSet::new();
    let mut add = |l: &[&str], pre: &str| l.iter().for_each(|x| {
        f.insert(format!("{}{}", pre, x));
    });
    let (mut a, mut b) = (false, false);
    match name {
        "none" => {}
        "base" => add(&base, ""),
        "ssse3" => {
            add(&base, "");
            add(&s3, "");
        }
        "sse41" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
        }
        // the silicon has AVX2 / AVX-512 but the operating system does not save the registers
        "avx2_noos" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&["xsave"], "");
            add(&av, "hw:");
            add(&["avx512f", "avx512vl"], "hw:");
        }
        "avx1" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&["xsave", "avx"], "");
            a = true;
        }
        "avx2" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&av, "");
            a = true;
        }
        "avx512_noos" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&av, "");
            add(&["avx512f", "avx512vl", "avx512bw", "avx512dq"], "hw:");
            a = true;
        }
        "avx512f" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&av, "");
            add(&["avx512f", "evex512"], "");
            a = true;
            b = true;
        }
        "avx512" => {
            add(&base, "");
            add(&s3, "");
            add(&s4, "");
            add(&av, "");
            add(&["avx512f", "avx512vl", "evex512"], "");
            a = true;
            b = true;
        }
        _ => panic!("cpu {}", name),
    }
    Cpu { name: name.to_string(), feats: f, os_avx: a, os_avx512: b }
}

pub struct Env {
    pub repo: PathBuf,
    pub verif: PathBuf,
    pub scratch: PathBuf,
}

fn copy_dir(src: &Path, dst: &Path) {
    std::fs::create_dir_all(dst).unwrap();
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let n = e.file_name();
        if n == "target" || n == "Cargo.lock" {
            continue;
        }
        let d = dst.join(&n);
        if e.path().is_dir() {
            copy_dir(&e.path(), &d);
        } else {
            std::fs::copy(e.path(), d).unwrap();
        }
    }
}

impl Env {
    /// private copy of the harness crate (so nothing is written under /verif or /repo)
    pub fn harness(&self) -> PathBuf {
        let h = self.scratch.join("harness");
        if !h.exists() {
            copy_dir(&self.verif.join("harness"), &h);
            if self.repo != Path::new("/repo") {
                let t = std::fs::read_to_string(h.join("Cargo.toml")).unwrap();
                std::fs::write(h.join("Cargo.toml"), t.replace("/repo/", &format!("{}/", self.repo.display()))).unwrap();
            }
            let _ = std::fs::copy(self.repo.join("Cargo.lock"), h.join("Cargo.lock"));
        }
        h
    }
    pub fn cargo(&self) -> Command {
        let mut c = Command::new("cargo");
        c.arg("+stable");
        c.env_remove("RUSTC_WRAPPER").env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("CARGO_BUILD_TARGET");
        c.env("CARGO_NET_OFFLINE", "true");
        c
    }
    /// compile the harness together with /repo's crates to un-optimised LLVM IR and parse it
    pub fn build(&self, cfg: &Config) -> Result<Program, String> {
        let h = self.harness();
        let out = self.scratch.join(format!("t-{}", cfg.name));
        let mut flags = String::from("--emit=llvm-ir -C no-prepopulate-passes -Awarnings ");
        flags.push_str(cfg.flags);
        let mut c = self.cargo();
        c.current_dir(&h).args(["build", "--offline", "--lib", "--features", cfg.features]);
        if cfg.release {
            c.arg("--release");
        }
        if let Some(t) = cfg.target {
            crate::cross::prepare(self, cfg, &mut c, &mut flags, t)?;
        }
        c.env("RUSTFLAGS", &flags).env("CARGO_TARGET_DIR", &out);
        let o = c.output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(String::from_utf8_lossy(&o.stderr).into_owned());
        }
        let mut d = out.clone();
        if let Some(t) = cfg.target {
            d = d.join(t);
        }
        let d = d.join(if cfg.release { "release" } else { "debug" }).join("deps");
        let mut files = vec![];
        for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
            let p = e.unwrap().path();
            if p.extension().map_or(false, |x| x == "ll") {
                files.push(p.to_string_lossy().into_owned());
            }
        }
        files.sort();
        let mut p = Program::load(&files, &d.to_string_lossy());
        p.static_feats = cfg.statics.iter().map(|s| s.to_string()).collect();
        let _ = std::fs::remove_dir_all(&out);
        Ok(p)
    }
}
