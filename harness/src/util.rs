//! Generators and small helpers shared by all properties.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn prng_bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut s = seed ^ 0x5bd1_e995_0000_0000;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(len);
    v
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// A byte string in a form that serialises compactly.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Blob {
    /// Pseudo-random (length, seed).
    R(u32, u32),
    /// Constant (length, byte).
    K(u32, u8),
    /// Literal prefix (hex) followed by a constant byte up to a length.
    X(String, u32),
}
impl Blob {
    pub fn len(&self) -> usize {
        match self {
            Blob::R(l, _) | Blob::K(l, _) => *l as usize,
            Blob::X(h, l) => (*l as usize).max(h.len() / 2),
        }
    }
    pub fn get(&self) -> Vec<u8> {
        match self {
            Blob::R(l, s) => prng_bytes(*s as u64, *l as usize),
            Blob::K(l, b) => vec![*b; *l as usize],
            Blob::X(h, l) => {
                let mut v = crate::model::unhex(h);
                while v.len() < *l as usize {
                    v.push(0);
                }
                v
            }
        }
    }
    pub fn empty() -> Blob {
        Blob::K(0, 0)
    }
}

/// Constants that occur in the sources of the code under test: they steer generators
/// towards lengths, counts and byte strings the code treats specially.
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
/// The constants known when this was written: `vp literals`. Those the sources have beyond them
/// belong to what changed since, and are preferred.
const KNOWN: &str = include_str!("literals.txt");
pub fn literals() -> String {
    let (mut nums, mut strs) = found();
    nums.sort();
    nums.dedup();
    strs.sort();
    strs.dedup();
    let nums = nums.iter().map(|n| n.to_string());
    let strs = strs.iter().map(|s| format!("x{}", crate::model::hex(s)));
    nums.chain(strs).collect::<Vec<_>>().join("\n") + "\n"
}
pub fn repo() -> String {
    "/repo".to_string()
}
fn scan(src: &str, nums: &mut Vec<u64>, strs: &mut Vec<Vec<u8>>) {
    let src = match src.find("mod tests") {
        Some(i) => &src[..i],
        None => src,
    };
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("//") {
            continue;
        }
        let code = match line.find(" //") {
            Some(i) => &line[..i],
            None => line,
        };
        let b = code.as_bytes();
        let mut i = 0;
        let mut run: Vec<u64> = Vec::new();
        let mut last: Option<(u64, usize)> = None;
        while i < b.len() {
            if b[i] == b'"' {
                let st = i + 1;
                let mut j = st;
                while j < b.len() && b[j] != b'"' {
                    j += if b[j] == b'\\' { 2 } else { 1 };
                }
                if j <= b.len() && j > st && j - st <= 32 {
                    strs.push(b[st..j.min(b.len())].to_vec());
                }
                i = j + 1;
                continue;
            }
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_' || b[i - 1] == b'.');
            if b[i].is_ascii_digit() && !prev_ident {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let mut tok: String = code[st..i].chars().filter(|c| *c != '_').collect();
                for suf in ["usize", "u64", "u32", "u16", "u8", "i32", "i64"] {
                    if let Some(x) = tok.strip_suffix(suf) {
                        tok = x.to_string();
                    }
                }
                let v = if let Some(h) = tok.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = tok.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    tok.parse::<u64>().ok()
                };
                if let Some(v) = v {
                    nums.push(v);
                    run.push(v);
                    if let Some((p, at)) = last {
                        let between = code[at..st].trim();
                        if between == "<<" && v < 40 {
                            nums.push(p << v);
                        }
                        if between == "*" {
                            nums.push(p.saturating_mul(v));
                        }
                    }
                    last = Some((v, i));
                }
                continue;
            }
            i += 1;
        }
        if run.len() >= 2 && run.len() <= 32 && run.iter().all(|x| *x < 256) {
            strs.push(run.iter().map(|x| *x as u8).collect());
        }
    }
}
fn found() -> (Vec<u64>, Vec<Vec<u8>>) {
    let mut nums = Vec::new();
    let mut strs = Vec::new();
    let mut files = Vec::new();
    for dir in ["protocol/src", "traffic/src"] {
        let mut stack = vec![std::path::PathBuf::from(repo()).join(dir)];
        while let Some(p) = stack.pop() {
            if let Ok(rd) = std::fs::read_dir(&p) {
                for e in rd.flatten() {
                    let q = e.path();
                    if q.is_dir() {
                        stack.push(q);
                    } else if q.extension().map(|x| x == "rs").unwrap_or(false) {
                        files.push(q);
                    }
                }
            }
        }
    }
    files.sort();
    for f in files {
        if let Ok(s) = std::fs::read_to_string(&f) {
            scan(&s, &mut nums, &mut strs);
        }
    }
    (nums, strs)
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut nums, mut strs) = found();
        let known: std::collections::HashSet<&str> = KNOWN.lines().collect();
        let near = |n: u64| [n.saturating_sub(1), n, n.saturating_add(1)];
        let mut news: Vec<u64> = nums.iter().filter(|n| !known.contains(n.to_string().as_str())).flat_map(|n| near(*n)).collect();
        let mut new_strs: Vec<Vec<u8>> = strs.iter().filter(|s| !known.contains(format!("x{}", crate::model::hex(s)).as_str())).cloned().collect();
        news.truncate(60);
        new_strs.truncate(20);
        nums.extend([15, 16, 17, 19, 20, 21, 63, 64, 65, 127, 128, 223, 224, 255, 256, 257, 448, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536]);
        let mut all: Vec<u64> = nums.iter().flat_map(|n| near(*n)).collect();
        all.sort();
        all.dedup();
        strs.push(b"version\0\0\0\0\0".to_vec());
        strs.push(vec![0xf9, 0xbe, 0xb4, 0xd9]);
        strs.push(b"\xf9\xbe\xb4\xd9version\0\0\0\0\0".to_vec());
        strs.sort();
        strs.dedup();
        // Small ones about as often as all the others together; large ones would take time.
        for k in 0..(all.len() / news.len().max(1)).min(40) {
            all.extend(news.iter().filter(|n| k < 3 || **n < 5000));
        }
        for _ in 0..(strs.len() / new_strs.len().max(1)).min(10) {
            strs.extend(new_strs.iter().cloned());
        }
        Dict { nums: all, strs }
    })
}
/// Dictionary numbers usable as a length or count up to `max`.
pub fn dict_upto(max: u64) -> Vec<u32> {
    let v: Vec<u32> = dict().nums.iter().filter(|n| **n <= max).map(|n| *n as u32).collect();
    if v.is_empty() { vec![0] } else { v }
}
pub fn len_upto(max: u32) -> BoxedStrategy<u32> {
    let small = max.min(40);
    let mid = max.min(600);
    prop_oneof![
        3 => 0..=small,
        3 => proptest::sample::select(dict_upto(max as u64)),
        2 => 0..=mid,
        2 => 0..=max,
    ]
    .boxed()
}
pub fn blob_with(len: BoxedStrategy<u32>) -> BoxedStrategy<Blob> {
    let strs = dict().strs.clone();
    prop_oneof![
        7 => (len.clone(), any::<u32>()).prop_map(|(l, s)| Blob::R(l, s)),
        2 => (len.clone(), prop_oneof![Just(0u8), Just(0xff), Just(0x80), any::<u8>()]).prop_map(|(l, b)| Blob::K(l, b)),
        1 => (proptest::sample::select(strs), len, any::<bool>()).prop_map(|(s, l, pad)| {
            let l = if pad { l } else { 0 };
            Blob::X(crate::model::hex(&s), l)
        }),
    ]
    .boxed()
}
/// A blob of at most `max` bytes.
pub fn blob(max: u32) -> BoxedStrategy<Blob> {
    blob_with(len_upto(max)).prop_map(move |b| match b {
        Blob::X(h, l) => {
            let keep = h.len().min(2 * max as usize) & !1;
            Blob::X(h[..keep].to_string(), l.min(max))
        }
        b => b,
    }).boxed()
}
pub fn magic() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        2 => Just([0xF9, 0xBE, 0xB4, 0xD9]),
        1 => Just([0x0a, 0x03, 0xcf, 0x40]),
        1 => Just([0xfa, 0xbf, 0xb5, 0xda]),
        1 => Just([0, 0, 0, 0]),
        3 => any::<[u8; 4]>(),
    ]
    .boxed()
}
/// Split points for delivering a stream: each value is how many bytes at most come at once.
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("lengths {} vs {}, first difference at byte {}", a.len(), b.len(), n)
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 { crate::model::hex(b) } else { format!("{}..({} bytes)", crate::model::hex(&b[..16]), b.len()) }
}
