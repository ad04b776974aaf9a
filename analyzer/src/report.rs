//! Verdict, evidence file, replay files.
use crate::lab::Finding;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<I: IntoIterator<Item = String>>(v: I) -> String {
    format!("[{}]", v.into_iter().map(|x| esc(&x)).collect::<Vec<_>>().join(","))
}

/// one entry of known_findings.txt
/// `finding: property=C16 kind=Mismatch at=<substring> detail=<substring>`
pub struct Known {
    pub prop: String,
    pub kind: String,
    pub at: String,
    pub detail: String,
}
pub fn known(path: &Path) -> Vec<Known> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string(path) else { return v };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let f = |k: &str, next: &str| -> String {
            let Some(i) = r.find(k) else { return String::new() };
            let x = &r[i + k.len()..];
            let e = if next.is_empty() { x.len() } else { x.find(next).unwrap_or(x.len()) };
            x[..e].trim().to_string()
        };
        v.push(Known { prop: f("property=", " kind="), kind: f("kind=", " at="), at: f(" at=", " detail="), detail: f(" detail=", "") });
    }
    v
}

pub struct Item {
    pub cfg: String,
    pub f: Finding,
}

/// prints verdict lines; returns number of (new) violations
pub fn verdict(prop: &str, items: &[Item], known: &[Known], dir: &Path) -> usize {
    // one report per construct
    let mut by: BTreeMap<(String, String, String), Vec<&Item>> = BTreeMap::new();
    for i in items {
        by.entry((i.f.kind.clone(), i.f.loc.clone(), clip_detail(&i.f.detail))).or_default().push(i);
    }
    let rd = dir.join("replay");
    let _ = std::fs::create_dir_all(&rd);
    if let Ok(d) = std::fs::read_dir(&rd) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", prop)) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let mut n = 0;
    let mut shown = BTreeSet::new();
    for ((k, l, d), v) in &by {
        if let Some(kf) = known.iter().find(|x| x.prop == prop && x.kind == *k && l.contains(&x.at) && d.contains(&x.detail)) {
            let key = format!("{} {} {}", kf.kind, kf.at, kf.detail);
            if shown.insert(key) {
                println!("KNOWN-FINDING: property={} {} at {}: {}", prop, k, l, d);
            }
            continue;
        }
        n += 1;
        if n > 25 {
            continue;
        }
        let p = rd.join(format!("{}-{}.txt", prop, n));
        let mut s = format!("property {}\nrule violated: {}\nconstruct: {}\ndetail: {}\n\nreached by:\n", prop, k, l, d);
        for i in v.iter().take(20) {
            s.push_str(&format!("  build {} | {}\n", i.cfg, i.f.scen));
        }
        s.push_str(&format!("\nreproduce: bash /verif/check.sh {} quick   (re-analyses /repo's current source)\n", prop));
        let _ = std::fs::write(&p, s);
        println!("{} at {}: {}", k, l, d);
        println!("VIOLATION property={} replay={}", prop, p.display());
    }
    if n > 25 {
        println!("... {} further constructs", n - 25);
    }
    n
}
fn clip_detail(d: &str) -> String {
    crate::exec::clip(d)
}
