//! Dictionary of the literals in the library's sources: values a change may have made special.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub nums: Vec<u32>,
    /// literals up to 100,000: candidate counts, lengths, depths
    pub counts: Vec<usize>,
    pub strings: Vec<String>,
    /// the same, for literals that occur more often than in the baseline
    pub hot_nums: Vec<u32>,
    pub hot_counts: Vec<usize>,
    pub hot_strings: Vec<String>,
}

fn scan(src: &str, nums: &mut BTreeMap<u64, usize>, strs: &mut BTreeMap<String, usize>) {
    let b = src.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            if i <= b.len() && i - s <= 64 {
                if let Ok(t) = std::str::from_utf8(&b[s..i.min(b.len())]) {
                    if !t.contains('\\') {
                        *strs.entry(t.to_string()).or_default() += 1;
                    }
                }
            }
            i += 1;
        } else if c == b'\'' {
            // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] != b'\\' && b[i + 2] == b'\'' {
                *nums.entry(b[i + 1] as u64).or_default() += 1;
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let mut t: String = src[s..i].chars().filter(|c| *c != '_').collect();
            for suf in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"] {
                if !t.starts_with("0x") || !suf.starts_with("u8") {
                    if let Some(p) = t.strip_suffix(suf) {
                        t = p.to_string();
                        break;
                    }
                }
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else if let Some(h) = t.strip_prefix("0o") {
                u64::from_str_radix(h, 8).ok()
            } else {
                t.parse().ok()
            };
            if let Some(v) = v {
                *nums.entry(v).or_default() += 1;
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    // simple products and shifts: `4 * 1024`, `1 << 12`
    let toks: Vec<&str> = src.split(|c: char| c.is_whitespace() || c == '(' || c == ')' || c == ';' || c == ',').filter(|t| !t.is_empty()).collect();
    for w in toks.windows(3) {
        if let (Ok(a), Ok(b)) = (w[0].parse::<u64>(), w[2].parse::<u64>()) {
            let v = match w[1] {
                "*" => a.checked_mul(b),
                "<<" if b < 32 => a.checked_shl(b as u32),
                "+" => a.checked_add(b),
                "-" => a.checked_sub(b),
                _ => None,
            };
            if let Some(v) = v {
                *nums.entry(v).or_default() += 1;
            }
        }
    }
}
fn walk(p: &Path, nums: &mut BTreeMap<u64, usize>, strs: &mut BTreeMap<String, usize>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                if p.file_name().map_or(false, |n| n == "tests") {
                    continue;
                }
                walk(&p, nums, strs)
            } else if p.extension().map_or(false, |e| e == "rs") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    scan(&s, nums, strs)
                }
            }
        }
    }
}
const BASELINE: &str = include_str!("baseline.txt");

fn near(v: u64, nums: &mut BTreeSet<u32>, counts: &mut BTreeSet<usize>) {
    for d in [v.saturating_sub(1), v, v + 1] {
        if d <= u32::MAX as u64 {
            nums.insert(d as u32);
        }
        if d <= 100_000 {
            counts.insert(d as usize);
        }
    }
}
fn harvest() -> (BTreeMap<u64, usize>, BTreeMap<String, usize>) {
    let (mut n, mut s) = (BTreeMap::new(), BTreeMap::new());
    if !cfg!(miri) {
        walk(Path::new(&std::env::var("MF_SRC").unwrap_or("/repo/src".into())), &mut n, &mut s);
    }
    (n, s)
}
/// Text of the baseline file: the literals of the unchanged sources and how often each occurs
pub fn dump() -> String {
    let (n, s) = harvest();
    let mut o = String::new();
    for (v, c) in n {
        o.push_str(&format!("n {} {}\n", c, v));
    }
    for (v, c) in s {
        if !v.contains('\n') {
            o.push_str(&format!("s {} {}\n", c, v));
        }
    }
    o
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (n, s) = harvest();
        let mut bn: BTreeMap<u64, usize> = BTreeMap::new();
        let mut bs: BTreeMap<String, usize> = BTreeMap::new();
        for l in BASELINE.lines() {
            let mut it = l.splitn(3, ' ');
            if let (Some(k), Some(c), Some(v)) = (it.next(), it.next(), it.next()) {
                let c = c.parse().unwrap_or(0);
                if k == "n" {
                    bn.insert(v.parse().unwrap_or(0), c);
                } else {
                    bs.insert(v.to_string(), c);
                }
            }
        }
        let (mut nums, mut counts) = (BTreeSet::new(), BTreeSet::new());
        let (mut hot_nums, mut hot_counts) = (BTreeSet::new(), BTreeSet::new());
        for v in n.keys().copied().chain([0, 1, 255, 256, 65535]) {
            near(v, &mut nums, &mut counts);
        }
        for (v, c) in &n {
            if *c > bn.get(v).copied().unwrap_or(0) {
                near(*v, &mut hot_nums, &mut hot_counts);
            }
        }
        let hot_strings = s.iter().filter(|(t, c)| **c > bs.get(*t).copied().unwrap_or(0) && !t.contains('\0')).map(|x| x.0.clone()).collect();
        Dict {
            nums: nums.into_iter().collect(),
            counts: counts.into_iter().collect(),
            strings: s.into_keys().filter(|t| !t.contains('\0')).collect(),
            hot_nums: hot_nums.into_iter().collect(),
            hot_counts: hot_counts.into_iter().collect(),
            hot_strings,
        }
    })
}
