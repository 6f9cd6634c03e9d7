//! Shared by the properties: running the operations, comparing files.

pub use crate::alloc;
pub use crate::dict;
pub use crate::engine::*;
pub use crate::io::{self as mio, Stream};
pub use crate::model::{self, *};
pub use crate::mp4gen::{self, *};
pub use crate::mp4ref::{self, Src};
pub use crate::rng::{fnv, Rng};
pub use mp4ameta::{Data, DataIdent, Error, ErrorKind, Fourcc, FreeformIdent, Tag};
pub use std::fs::File;
pub use std::io::{Cursor, Read, Seek, SeekFrom, Write};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

pub type Res<T> = Result<T, String>;

/// How many elements to pass at once: few, now and then many.
pub fn few(r: &mut Rng) -> usize {
    if r.chance(1, 60) {
        *r.pick(&[8usize, 9, 10, 11, 16, 17, 20, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
    } else {
        r.below(4)
    }
}

/// The elements from iterators of several makes: what they tell about their length differs.
pub fn feed<T: 'static>(how: usize, v: Vec<T>) -> Box<dyn Iterator<Item = T>> {
    match how % 6 {
        0 => Box::new(v.into_iter()),
        // may be empty, as far as its size hint tells
        1 => Box::new(v.into_iter().filter(|_| true)),
        // of unknown length
        2 => {
            let mut i = v.into_iter();
            Box::new(std::iter::from_fn(move || i.next()))
        }
        3 => {
            let mut a = v;
            let b = a.split_off(a.len() / 2);
            Box::new(a.into_iter().chain(b))
        }
        4 => Box::new(v.into_iter().collect::<std::collections::VecDeque<_>>().into_iter()),
        // groups, some of them empty
        _ => Box::new(v.into_iter().flat_map(|x| vec![None, Some(x), None]).flatten()),
    }
}

/// Goes through an iterator in one of the ways the protocol offers and compares what it yields.
pub fn walk<T, W: PartialEq + std::fmt::Debug>(it: impl Iterator<Item = T>, want: &[W], of: impl Fn(T) -> W, how: u64, what: &str) -> Outcome {
    let mut it = it;
    let step = (how >> 8) as usize % 4;
    match how % 8 {
        // one by one; what remains is within the bounds told
        0 | 1 => {
            let mut k = 0;
            loop {
                let (lo, hi) = it.size_hint();
                let left = want.len() - k;
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{what}: {left} values are left, the iterator tells {lo} to {hi:?}");
                match it.next() {
                    None => break,
                    Some(x) => {
                        ensure!(k < want.len(), "{what}: yields more than {} values", want.len());
                        let x = of(x);
                        ensure!(x == want[k], "{what}: value {k} is {x:?}, want {:?}", want[k]);
                        k += 1;
                    }
                }
            }
            ensure!(k == want.len(), "{what}: {k} values, want {}", want.len());
        }
        2 => {
            let g = it.count();
            ensure!(g == want.len(), "{what}: counts {g} values, want {}", want.len());
        }
        3 => {
            let g = it.last().map(of);
            ensure!(g.as_ref() == want.last(), "{what}: the last is {g:?}, want {:?}", want.last());
        }
        // leaps
        4 => {
            let mut k = 0;
            while let Some(w) = want.get(k + step) {
                let g = it.nth(step).map(&of);
                ensure!(g.as_ref() == Some(w), "{what}: value {} is {g:?}, want {w:?}", k + step);
                k += step + 1;
            }
            ensure!(it.nth(step).is_none(), "{what}: yields more than {} values", want.len());
        }
        5 => {
            let g: Vec<W> = it.skip(step).step_by(1 + step).map(of).collect();
            let mut k = step;
            for x in g.iter() {
                ensure!(want.get(k) == Some(x), "{what}: value {k} is {x:?}, want {:?}", want.get(k));
                k += 1 + step;
            }
            ensure!(k >= want.len(), "{what}: value {k} is missing");
        }
        // in two parts
        6 => {
            let mut g: Vec<W> = it.by_ref().take(step).map(&of).collect();
            g.extend(it.map(&of));
            ensure!(g == want, "{what}: is {g:?}, want {want:?}");
        }
        _ => {
            let g = it.fold(vec![], |mut v, x| {
                v.push(of(x));
                v
            });
            ensure!(g == want, "{what}: is {g:?}, want {want:?}");
        }
    }
    Ok(())
}

/// The example files of the repository (workload only).
pub fn samples() -> &'static Vec<(String, Vec<u8>)> {
    static S: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        let d = repo_dir().join("files");
        let mut es: Vec<_> = std::fs::read_dir(&d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        es.sort();
        for p in es {
            let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
            if ["m4a", "mp4", "3gp", "m4b", "m4p", "m4v"].contains(&ext) {
                if let Ok(b) = std::fs::read(&p) {
                    if mp4ref::tree(&b[..], false).is_ok() {
                        v.push((p.file_name().unwrap().to_string_lossy().into_owned(), b));
                    }
                }
            }
        }
        v
    })
}

pub fn read(b: &[u8]) -> Res<mp4ameta::Result<Tag>> {
    call("read_from", || Tag::read_from(&mut Cursor::new(b)))
}

pub fn read_ok(b: &[u8]) -> Res<Tag> {
    read(b)?.map_err(|e| format!("reading a conforming file failed: {e}"))
}

pub fn write_file(t: &Tag, f: &File) -> Res<mp4ameta::Result<()>> {
    call("write_to", || t.write_to(f))
}

/// Writes the tag to a file with this content and returns the result and the content afterwards.
pub fn write(t: &Tag, b: &[u8]) -> Res<(mp4ameta::Result<()>, Vec<u8>)> {
    let f = mio::memfile_with(b);
    let r = write_file(t, &f)?;
    Ok((r, mio::contents(&f)))
}

pub fn write_ok(t: &Tag, b: &[u8]) -> Res<Vec<u8>> {
    let (r, n) = write(t, b)?;
    r.map_err(|e| format!("writing to a conforming file failed: {e}"))?;
    Ok(n)
}

pub fn dump(t: &Tag) -> Res<Vec<u8>> {
    let mut v = vec![];
    call("dump_to", || t.dump_to(&mut v))?.map_err(|e| format!("dumping to memory failed: {e}"))?;
    Ok(v)
}

/// The error kind with the value it carries.
#[allow(unreachable_patterns)]
pub fn kind(e: &Error) -> String {
    match &e.kind {
        ErrorKind::AtomNotFound(f) => format!("AtomNotFound({})", f.0.escape_ascii()),
        ErrorKind::DescriptorNotFound(d) => format!("DescriptorNotFound({d})"),
        ErrorKind::Io(e) => format!("Io({:?})", e.kind()),
        ErrorKind::NoTag => "NoTag".into(),
        ErrorKind::Parsing => "Parsing".into(),
        ErrorKind::UnknownChannelConfig(b) => format!("UnknownChannelConfig({b})"),
        ErrorKind::UnknownDataType(b) => format!("UnknownDataType({b})"),
        ErrorKind::UnknownMediaType(b) => format!("UnknownMediaType({b})"),
        ErrorKind::UnknownVersion(b) => format!("UnknownVersion({b})"),
        ErrorKind::Utf8StringDecoding(e) => format!("Utf8StringDecoding({:?})", e.as_bytes()),
        ErrorKind::Utf16StringDecoding(_) => "Utf16StringDecoding".into(),
        ErrorKind::UnwritableData => "UnwritableData".into(),
        other => format!("{other:?}"),
    }
}

pub fn first_diff(a: &[u8], b: &[u8]) -> Option<String> {
    if a == b {
        return None;
    }
    let k = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Some(format!("lengths {} and {}, first difference at {}", a.len(), b.len(), k))
}

/// A conforming file to write to: mostly generated, sometimes an example file.
pub struct Target {
    pub bytes: Vec<u8>,
    pub spec: Option<Spec>,
    pub desc: String,
}

pub fn target(r: &mut Rng) -> Target {
    let s = samples();
    if !s.is_empty() && r.chance(1, 16) {
        let (n, b) = r.pick(s);
        return Target { bytes: b.clone(), spec: None, desc: n.clone() };
    }
    let c = if r.chance(2, 3) { Cfg::random(r) } else { Cfg::small(r) };
    let spec = gen(r, c);
    let bytes = emit(&spec.top).bytes;
    let desc = spec.describe();
    Target { bytes, spec: Some(spec), desc }
}

/// Applies `f` to every node below (and including) `n`.
pub fn visit(n: &mut N, f: &mut dyn FnMut(&mut N)) {
    f(n);
    if let N::Box { kids, .. } = n {
        for k in kids {
            visit(k, f);
        }
    }
}

pub fn cc_str(cc: &[u8; 4]) -> String {
    cc.escape_ascii().to_string()
}
