//! Independent, strict reader of the MP4 structures the properties speak about. It never uses the
//! crate under test.

use crate::model::{Id, Items, V};

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Atom {
    pub pos: u64,
    pub head: u64,
    pub len: u64,
    pub cc: [u8; 4],
}

impl Atom {
    pub fn end(&self) -> u64 {
        self.pos + self.len
    }
    pub fn body(&self) -> u64 {
        self.pos + self.head
    }
    pub fn name(&self) -> String {
        self.cc.iter().map(|b| b.escape_ascii().to_string()).collect()
    }
}

/// Random access to file contents (memory or a possibly sparse file).
pub trait Src {
    fn len(&self) -> u64;
    fn get(&self, pos: u64, n: usize) -> R<Vec<u8>>;
}

impl Src for [u8] {
    fn len(&self) -> u64 {
        <[u8]>::len(self) as u64
    }
    fn get(&self, pos: u64, n: usize) -> R<Vec<u8>> {
        let p = pos as usize;
        if pos as u128 + n as u128 > <[u8]>::len(self) as u128 {
            return Err(format!("read of {n} bytes at {pos} past the end {}", <[u8]>::len(self)));
        }
        Ok(self[p..p + n].to_vec())
    }
}

impl Src for std::fs::File {
    fn len(&self) -> u64 {
        self.metadata().map(|m| m.len()).unwrap_or(0)
    }
    fn get(&self, pos: u64, n: usize) -> R<Vec<u8>> {
        use std::os::unix::fs::FileExt;
        let mut v = vec![0; n];
        self.read_exact_at(&mut v, pos).map_err(|e| format!("read of {n} bytes at {pos}: {e}"))?;
        Ok(v)
    }
}

pub fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// The gap-free sequence of atoms in `start..end`. When `dangling` is set the last atom may claim
/// to be longer than the available space.
pub fn atoms<S: Src + ?Sized>(s: &S, start: u64, end: u64, dangling: bool) -> R<Vec<Atom>> {
    let mut v = vec![];
    let mut p = start;
    while p < end {
        if end - p < 8 {
            return Err(format!("{} stray bytes at {p} before {end}", end - p));
        }
        let h = s.get(p, 8)?;
        let mut len = be(&h[..4]);
        let cc = [h[4], h[5], h[6], h[7]];
        let mut head = 8;
        if len == 1 {
            if end - p < 16 {
                return Err(format!("extended head at {p} does not fit"));
            }
            len = be(&s.get(p + 8, 8)?);
            head = 16;
        }
        if len < head {
            return Err(format!("atom {} at {p} has size {len} < head", String::from_utf8_lossy(&cc)));
        }
        let a = Atom { pos: p, head, len, cc };
        if len > end - p {
            if dangling {
                v.push(a);
                return Ok(v);
            }
            return Err(format!("atom {} at {p} of size {len} exceeds its parent's end {end}", a.name()));
        }
        p += len;
        v.push(a);
    }
    Ok(v)
}

pub fn find<'a>(v: &'a [Atom], cc: &[u8; 4]) -> Option<&'a Atom> {
    v.iter().find(|a| &a.cc == cc)
}

/// The movie-level metadata hierarchy.
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub top: Vec<Atom>,
    pub moov: Vec<Atom>,
    pub udta: Option<Vec<Atom>>,
    pub meta: Option<Vec<Atom>>,
    pub ilst: Option<Atom>,
}

pub fn tree<S: Src + ?Sized>(s: &S, dangling: bool) -> R<Tree> {
    let top = atoms(s, 0, s.len(), dangling)?;
    let mut t = Tree { top, ..Default::default() };
    let moov = find(&t.top, b"moov").ok_or("no moov")?.clone();
    t.moov = atoms(s, moov.body(), moov.end(), false).map_err(|e| format!("in moov: {e}"))?;
    if let Some(u) = find(&t.moov, b"udta") {
        let kids = atoms(s, u.body(), u.end(), false).map_err(|e| format!("in udta: {e}"))?;
        if let Some(m) = find(&kids, b"meta") {
            if m.len < m.head + 4 {
                return Err("meta without version".into());
            }
            let ks = atoms(s, m.body() + 4, m.end(), false).map_err(|e| format!("in meta: {e}"))?;
            t.ilst = find(&ks, b"ilst").cloned();
            t.meta = Some(ks);
        }
        t.udta = Some(kids);
    }
    Ok(t)
}

/// Decodes an iTunes item list; the items in file order, not merged. Padding is skipped.
pub fn ilst<S: Src + ?Sized>(s: &S, start: u64, end: u64) -> R<Items> {
    let mut out = vec![];
    for a in atoms(s, start, end, false).map_err(|e| format!("in ilst: {e}"))? {
        if &a.cc == b"free" {
            continue;
        }
        let ks = atoms(s, a.body(), a.end(), false).map_err(|e| format!("in item {}: {e}", a.name()))?;
        let mut mean = None;
        let mut name = None;
        let mut vals = vec![];
        for k in &ks {
            let n = (k.len - k.head) as usize;
            match &k.cc {
                b"data" => {
                    if n < 8 {
                        return Err(format!("data of {} too short", a.name()));
                    }
                    let b = s.get(k.body(), n)?;
                    if b[0] != 0 {
                        return Err(format!("data version {}", b[0]));
                    }
                    vals.push(V::decode(be(&b[1..4]) as u32, &b[8..]).map_err(|e| format!("item {}: {e}", a.name()))?);
                }
                b"mean" | b"name" => {
                    if n < 4 {
                        return Err("mean/name too short".into());
                    }
                    let b = s.get(k.body(), n)?;
                    if &a.cc == b"----" {
                        if b[0] != 0 {
                            return Err("mean/name version".into());
                        }
                        let t = String::from_utf8(b[4..].to_vec()).map_err(|_| "mean/name not utf-8")?;
                        if &k.cc == b"mean" {
                            mean = Some(t);
                        } else {
                            name = Some(t);
                        }
                    }
                }
                _ => {}
            }
        }
        if vals.is_empty() {
            return Err(format!("item {} without data", a.name()));
        }
        let id = match (&a.cc, mean, name) {
            (b"----", Some(m), Some(n)) => Id::S(m, n),
            (c, _, _) => Id::F(*c),
        };
        out.push((id, vals));
    }
    Ok(out)
}

/// The decoded item list of the file (empty without a list).
pub fn items<S: Src + ?Sized>(s: &S, dangling: bool) -> R<Items> {
    let t = tree(s, dangling)?;
    match t.ilst {
        None => Ok(vec![]),
        Some(a) => ilst(s, a.body(), a.end()),
    }
}

/// All chunk offset tables, in file order: (track index, wide, entries)
pub fn tables<S: Src + ?Sized>(s: &S, moov: &[Atom]) -> R<Vec<(usize, bool, Vec<u64>)>> {
    let mut out = vec![];
    let mut n = 0;
    for t in moov.iter().filter(|a| &a.cc == b"trak") {
        let mut level = vec![t.clone()];
        for cc in [b"mdia", b"minf", b"stbl"] {
            let mut next = vec![];
            for a in &level {
                next.extend(atoms(s, a.body(), a.end(), false)?.into_iter().filter(|k| &k.cc == cc));
            }
            level = next;
        }
        for st in &level {
            for k in atoms(s, st.body(), st.end(), false)? {
                let wide = match &k.cc {
                    b"stco" => false,
                    b"co64" => true,
                    _ => continue,
                };
                let b = s.get(k.body(), (k.len - k.head) as usize)?;
                if b.len() < 8 {
                    return Err("chunk table too short".into());
                }
                let count = be(&b[4..8]) as usize;
                let w = if wide { 8 } else { 4 };
                if b.len() != 8 + count * w {
                    return Err("chunk table size mismatch".into());
                }
                out.push((n, wide, b[8..].chunks(w).map(be).collect()));
            }
        }
        n += 1;
    }
    Ok(out)
}
