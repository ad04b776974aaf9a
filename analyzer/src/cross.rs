//! Foreign targets: only the host's standard library is installed, so `core` is type-checked
//! from the toolchain's rust-src for the target (metadata with MIR, no code generation, no
//! linking), and /repo is compiled to LLVM IR against it.
use crate::config::*;
use std::path::PathBuf;
use std::process::Command;
use std::sync::Mutex;

static LOCK: Mutex<()> = Mutex::new(());

fn run(mut c: Command) -> Result<String, String> {
    c.env_remove("RUSTC_WRAPPER").env_remove("CARGO_ENCODED_RUSTFLAGS").env("RUSTC_BOOTSTRAP", "1");
    let o = c.output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("toolchain: {}", String::from_utf8_lossy(&o.stderr).chars().take(2000).collect::<String>()));
    }
    Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
}

/// builds a sysroot holding the target's `core`
pub fn sysroot(e: &Env, t: &str) -> Result<PathBuf, String> {
    let root = e.scratch.join("sysroot").join(t);
    let d = root.join("lib/rustlib").join(t).join("lib");
    let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    drop(_g);
    let rustc = || {
        let mut c = Command::new("rustc");
        c.arg("+stable");
        c
    };
    let mut c = rustc();
    c.args(["--print", "sysroot"]);
    let host = run(c)?;
    let core = PathBuf::from(&host).join("lib/rustlib/src/rust/library/core/src/lib.rs");
    if !core.exists() {
        return Err("toolchain: rust-src is not installed".into());
    }
    let mut c = rustc();
    c.args(["--crate-name", "core", "--crate-type", "lib", "--edition", "2024"]).arg(&core);
    c.args(["--target", t, "--emit", "metadata", "-Copt-level=3", "-Cpanic=abort", "-Zalways-encode-mir", "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", "-Cmetadata=vg", "-o"]);
    c.arg(d.join("libcore.rmeta"));
    run(c)?;
    let cb = root.join("cb.rs");
    std::fs::write(&cb, "#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n").map_err(|e| e.to_string())?;
    let mut c = rustc();
    c.args(["--crate-name", "compiler_builtins", "--crate-type", "lib"]).arg(&cb);
    c.args(["--target", t, "--emit", "metadata", "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", "--sysroot"]).arg(&root).arg("-o");
    c.arg(d.join("libcompiler_builtins.rmeta"));
    run(c)?;
    Ok(root)
}

pub fn prepare(e: &Env, _cfg: &Config, c: &mut Command, flags: &mut String, t: &str) -> Result<(), String> {
    let root = sysroot(e, t)?;
    flags.push_str(&format!(" --sysroot {}", root.display()));
    c.args(["--target", t]);
    Ok(())
}
