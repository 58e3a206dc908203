//! Literals of the code under test, used only to steer generation (never to judge).
//! Literals that are not in the committed baseline list get extra weight.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
}
static D: OnceLock<Dict> = OnceLock::new();

pub fn repo() -> String {
    std::env::var("PBT_REPO").unwrap_or_else(|_| "/repo".into())
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for e in v {
            let n = e.file_name().unwrap().to_string_lossy().to_string();
            if e.is_dir() {
                if n != "target" && n != ".git" && n != "tests" && n != "benches" {
                    walk(&e, out);
                }
            } else if n.ends_with(".rs") {
                out.push(e);
            }
        }
    }
}

fn parse_num(t: &str) -> Option<u64> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let (radix, body) = if let Some(b) = t.strip_prefix("0x") {
        (16, b)
    } else if let Some(b) = t.strip_prefix("0b") {
        (2, b)
    } else if let Some(b) = t.strip_prefix("0o") {
        (8, b)
    } else {
        (10, t.as_str())
    };
    let end = body.char_indices().find(|(_, c)| !c.is_digit(radix)).map(|x| x.0).unwrap_or(body.len());
    u64::from_str_radix(&body[..end], radix).ok()
}

pub fn mine() -> (BTreeSet<u64>, BTreeSet<String>) {
    let mut files = vec![];
    walk(Path::new(&format!("{}/stratumv2", repo())), &mut files);
    let (mut nums, mut strs) = (BTreeSet::new(), BTreeSet::new());
    for f in files {
        let text = match std::fs::read_to_string(&f) {
            Ok(t) => t,
            Err(_) => continue,
        };
        for line in text.lines() {
            let l = line.trim_start();
            if l.starts_with("#[cfg(test)]") {
                break;
            }
            if l.starts_with("//") {
                continue;
            }
            // string literals
            let b = l.as_bytes();
            let mut i = 0;
            let mut code = String::new();
            while i < b.len() {
                if b[i] == b'"' {
                    let mut j = i + 1;
                    let mut s = Vec::new();
                    while j < b.len() && b[j] != b'"' {
                        if b[j] == b'\\' && j + 1 < b.len() {
                            j += 1;
                        }
                        s.push(b[j]);
                        j += 1;
                    }
                    if let Ok(s) = String::from_utf8(s) {
                        if !s.is_empty() && s.len() <= 80 {
                            strs.insert(s);
                        }
                    }
                    code.push(' ');
                    i = j + 1;
                } else {
                    code.push(b[i] as char);
                    i += 1;
                }
            }
            // numbers, and simple 1 << n and 2.pow(n)
            let c: Vec<char> = code.chars().collect();
            let mut i = 0;
            let mut prev: Option<(u64, usize)> = None;
            while i < c.len() {
                if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
                    let mut j = i;
                    while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                        j += 1;
                    }
                    let t: String = c[i..j].iter().collect();
                    if let Some(v) = parse_num(&t) {
                        nums.insert(v);
                        if let Some((p, e)) = prev {
                            let between: String = c[e..i].iter().collect();
                            if between.trim() == "<<" && v < 64 {
                                nums.insert(p.wrapping_shl(v as u32));
                            }
                            if between.contains("pow(") && v < 64 {
                                if let Some(x) = p.checked_pow(v as u32) {
                                    nums.insert(x);
                                }
                            }
                            if between.trim() == "*" {
                                nums.insert(p.wrapping_mul(v));
                            }
                        }
                        prev = Some((v, j));
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
        }
    }
    (nums, strs)
}

pub fn get() -> &'static Dict {
    D.get_or_init(|| {
        let (n, s) = mine();
        let base: serde_json::Value = serde_json::from_str(include_str!("../baseline_literals.json")).unwrap_or_default();
        let bn: BTreeSet<u64> = base["nums"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
        let bs: BTreeSet<String> = base["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let mut nums: Vec<u64> = n.iter().copied().filter(|x| *x > 3).collect();
        let mut strs: Vec<String> = s.iter().cloned().collect();
        let fresh: Vec<u64> = n.iter().copied().filter(|x| !bn.contains(x)).collect();
        if !fresh.is_empty() && !bn.is_empty() {
            let k = (nums.len() / fresh.len()).max(1);
            for _ in 0..k {
                nums.extend(fresh.iter());
            }
        }
        let fresh: Vec<String> = s.iter().filter(|x| !bs.contains(*x)).cloned().collect();
        if !fresh.is_empty() && !bs.is_empty() {
            let k = (strs.len() / fresh.len()).max(1);
            for _ in 0..k {
                strs.extend(fresh.iter().cloned());
            }
        }
        Dict { nums, strs }
    })
}
