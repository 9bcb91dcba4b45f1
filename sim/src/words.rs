//! Numbers the library's source mentions. Registers are made to hold them now and then, so that values the code treats
//! in a special way are met more often than chance would. They only steer the generator: what is right is never read
//! from the source.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

/// Where the library lies: as in this crate's own manifest.
fn library() -> Option<PathBuf> {
    let toml = std::fs::read_to_string(Path::new(env!("CARGO_MANIFEST_DIR")).join("Cargo.toml")).ok()?;
    let line = toml.lines().find(|l| l.starts_with("pcics"))?;
    let path = line.split("path").nth(1)?.split('"').nth(1)?;
    Some(PathBuf::from(path))
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

/// The integer literals of `src`, without comments, strings and the tests at its end.
pub fn literals(src: &str) -> Vec<u64> {
    let src = src.find("#[cfg(test)]\nmod").map_or(src, |i| &src[..i]);
    let mut out = vec![];
    let mut long = false;
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("/*") {
            long = true;
        }
        if long {
            long = !t.contains("*/");
            continue;
        }
        let line = line.split("//").next().unwrap_or("");
        let mut text = String::new();
        let mut quoted = false;
        for c in line.chars() {
            if c == '"' {
                quoted = !quoted;
            } else if !quoted {
                text.push(c);
            }
        }
        for word in text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
            if !word.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            let mut w = word.replace('_', "");
            for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
                if let Some(x) = w.strip_suffix(suffix) {
                    w = x.to_string();
                    break;
                }
            }
            let v = match (w.strip_prefix("0x"), w.strip_prefix("0b")) {
                (Some(h), _) => u64::from_str_radix(h, 16),
                (_, Some(b)) => u64::from_str_radix(b, 2),
                _ => w.parse(),
            };
            out.extend(v.ok());
        }
    }
    out
}

/// (numbers of more than eight bits, smaller ones of more than one)
pub fn all() -> &'static (Vec<u64>, Vec<u64>) {
    static ALL: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut list = vec![];
        if let Some(p) = library() {
            files(&p.join("src"), &mut list);
        }
        let mut v: Vec<u64> = list.iter().filter_map(|f| std::fs::read_to_string(f).ok()).flat_map(|s| literals(&s)).collect();
        v.extend([0x1000, 0xffff]);
        v.extend([4, 255]);
        v.sort();
        v.dedup();
        v.retain(|x| *x > 1);
        v.into_iter().partition(|x| *x > 255)
    })
}
