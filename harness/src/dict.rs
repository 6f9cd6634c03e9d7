//! Workload dictionary: boundary values, and the literals that occur in the sources under test
//! (used only to choose inputs, never to decide anything).

use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub strings: Vec<String>,
    pub fourccs: Vec<[u8; 4]>,
    /// signatures and other byte strings
    pub bytes: Vec<Vec<u8>>,
}

const SIGNATURES: &[&[u8]] = &[
    b"\x89PNG\r\n\x1a\n",
    b"\xff\xd8\xff\xe0\0\x10JFIF\0",
    b"\xff\xd8\xff\xe1",
    b"\xff\xd9",
    b"BM",
    b"GIF89a",
    b"RIFF\0\0\0\0WEBP",
    b"\xef\xbb\xbf",
    b"\xfe\xff",
    b"\xff\xfe",
    b"ID3\x04",
    b"\x1f\x8b",
    b"\0\0\0\x01",
    b"\0\0\0\x10data",
    b"\0\0\0\x08free",
    b"<?xml",
];

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(load)
}

fn load() -> Dict {
    let mut d = Dict { ints: vec![], strings: vec![], fourccs: vec![], bytes: vec![] };
    let repo = crate::engine::repo_dir();
    walk(&repo.join("src"), &mut d);
    walk(&repo.join("proc/src"), &mut d);
    for c in crate::model::KNOWN_FOURCCS {
        d.fourccs.push(**c);
    }
    d.ints.sort_unstable();
    d.ints.dedup();
    d.bytes.extend(SIGNATURES.iter().map(|b| b.to_vec()));
    d.bytes.sort();
    d.bytes.dedup();
    d.strings.sort();
    d.strings.dedup();
    d.fourccs.sort();
    d.fourccs.dedup();
    // `free` is the padding identifier and out of the domain of items
    d.fourccs.retain(|c| c != b"free");
    d
}

fn walk(p: &Path, d: &mut Dict) {
    let mut entries: Vec<_> = match std::fs::read_dir(p) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    entries.sort();
    for e in entries {
        if e.is_dir() {
            walk(&e, d);
        } else if e.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&e) {
                scan(&s, d);
            }
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() {
            match s[i + 1] {
                b'x' if i + 3 < s.len() => {
                    let h = std::str::from_utf8(&s[i + 2..i + 4]).unwrap_or("0");
                    out.push(u8::from_str_radix(h, 16).unwrap_or(0));
                    i += 4;
                    continue;
                }
                b'n' => out.push(b'\n'),
                b't' => out.push(b'\t'),
                b'r' => out.push(b'\r'),
                b'0' => out.push(0),
                c => out.push(c),
            }
            i += 2;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

fn scan(src: &str, d: &mut Dict) {
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("//") {
            continue;
        }
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' {
                    j += if b[j] == b'\\' { 2 } else { 1 };
                }
                let j = j.min(b.len());
                let raw = unescape(&b[i + 1..j]);
                if raw.len() == 4 {
                    d.fourccs.push([raw[0], raw[1], raw[2], raw[3]]);
                }
                if raw.len() > 1 && raw.len() <= 32 && (i > 0 && b[i - 1] == b'b') {
                    d.bytes.push(raw.clone());
                }
                if let Ok(s) = String::from_utf8(raw) {
                    if s.chars().count() == 4 && s.len() > 4 {
                        // latin-1 spelling of a four character code
                        let v: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
                        d.fourccs.push([v[0], v[1], v[2], v[3]]);
                    }
                    if s.len() <= 64 {
                        d.strings.push(s);
                    }
                }
                i = j + 1;
            } else if b[i].is_ascii_digit()
                && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
            {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let tok = t[i..j].replace('_', "");
                let tok = tok
                    .trim_end_matches("usize")
                    .trim_end_matches("isize")
                    .trim_end_matches("u128")
                    .trim_end_matches("i128")
                    .trim_end_matches("u16")
                    .trim_end_matches("u32")
                    .trim_end_matches("u64")
                    .trim_end_matches("i16")
                    .trim_end_matches("i32")
                    .trim_end_matches("i64");
                let v = if let Some(h) = tok.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_end_matches("u8"), 16).ok()
                } else if let Some(h) = tok.strip_prefix("0b") {
                    u64::from_str_radix(h.trim_end_matches("u8"), 2).ok()
                } else {
                    tok.trim_end_matches("u8").parse().ok()
                };
                if let Some(v) = v {
                    d.ints.push(v);
                }
                i = j;
            } else {
                i += 1;
            }
        }
    }
}

pub const LENS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 100,
    127, 128, 129, 200, 239, 240, 241, 247, 248, 249, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513,
    1000, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4079, 4080, 4081, 4087, 4088, 4095,
    4096, 4097, 5000, 8000, 8168, 8175, 8176, 8177, 8184, 8191, 8192, 8193, 10000, 16383, 16384, 16385,
    20000, 32767, 32768, 32769, 50000, 65519, 65520, 65521, 65527, 65528, 65534, 65535, 65536, 65537,
    70000, 100_000, 131_071, 131_072, 131_073, 200_000, 262_143, 262_144, 262_145, 524_288, 1_000_000,
    1_048_575, 1_048_576, 1_048_577,
];

pub const HUGE_LENS: &[usize] =
    &[2_097_152, 4_194_303, 4_194_304, 8_388_607, 8_388_608, 16_777_199, 16_777_200, 16_777_215, 16_777_216, 16_777_217];

use crate::rng::Rng;

/// A length, mostly small, sometimes at a boundary.
pub fn len(r: &mut Rng, max: usize) -> usize {
    let l = match r.below(20) {
        0..=9 => r.below(24),
        10..=13 => r.below(300),
        14 | 15 => *r.pick(LENS),
        16 => r.below(70_000) >> r.below(9),
        17 | 18 => {
            let d = dict();
            if d.ints.is_empty() {
                3
            } else {
                let v = *r.pick(&d.ints);
                (v.min(1 << 22) as usize + r.below(3)).saturating_sub(1)
            }
        }
        _ => LENS[r.below(LENS.len())],
    };
    if l > max {
        r.below(max + 1)
    } else {
        l
    }
}

/// A count of things.
pub fn count(r: &mut Rng, max: usize) -> usize {
    let c = match r.below(16) {
        0..=3 => 1,
        4..=8 => r.below(5),
        9..=12 => r.below(12),
        13 => *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300]),
        14 => {
            let d = dict();
            if d.ints.is_empty() {
                2
            } else {
                (*r.pick(&d.ints)).min(4000) as usize + r.below(2)
            }
        }
        _ => r.below(40),
    };
    if c > max {
        r.below(max + 1)
    } else {
        c
    }
}

/// An integer value.
pub fn int(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => r.u64(),
        1 => r.u32() as u64,
        2 => r.u16() as u64,
        3 => r.u8() as u64,
        4 => r.below(20) as u64,
        5 => (1u64 << r.below(64)).wrapping_sub(r.below(3) as u64).wrapping_add(1),
        6 => *r.pick(&[
            0u64,
            1,
            2,
            0x7f,
            0x80,
            0xff,
            0x100,
            0x7fff,
            0x8000,
            0xffff,
            0x1_0000,
            0xff_ffff,
            0x100_0000,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_ffff,
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            0xffff_ffff_ffff_ffff,
        ]),
        _ => {
            let d = dict();
            if d.ints.is_empty() {
                7
            } else {
                let v = *r.pick(&d.ints);
                v.wrapping_add(r.below(3) as u64).wrapping_sub(1)
            }
        }
    }
}
