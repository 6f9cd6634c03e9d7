//! C23: what an operation costs follows the metadata, not the media.

use super::common::*;
use super::files::{sparse, Part, Sparse};
use crate::io::{with_plan, Plan};

pub const C23: Prop = Prop {
    id: "C23",
    level: "exploration",
    rule: "distinct (file layout, tag) pairs with holes of up to 1 TiB between the atoms",
    assumptions: &[
        "bounds used: bytes read 4 x rest + 72 KiB per atom, bytes written 2 x (rest + tag) + 64 KiB, peak allocation 64 x (rest + tag) + 1 MiB, where the rest is the file without the content of the big top-level atoms",
        "writes are observed on files whose big atoms precede the movie; media behind the movie has to be moved when the metadata changes its length",
    ],
    quick: 120000,
    thorough: 2_000_000,
    single: false,
    exhaustive: false,
    case: c23,
};

const BIG: &[&[u8; 4]] = &[b"mdat", b"mdat", b"mdat", b"free", b"skip", b"wide", b"uuid", b"moof", b"idat", b"\0\0\0\0"];

/// A large atom: a media node numbered 900, 901, ... in the tree, written as a hole.
pub struct Hole {
    pub size: u64,
    pub cc: [u8; 4],
    pub ext: bool,
}

fn hole_size(r: &mut Rng) -> (u64, bool) {
    let ext = r.chance(3, 4);
    let n = match r.below(5) {
        0 => (48 << 20) + r.below(1 << 20) as u64,
        1 => (1 << 32) - 40 + r.below(80) as u64,
        2 => 1 << r.range(26, 40),
        3 => (1 << 36) + r.u64() % (1 << 36),
        _ => (64 << 20) + (r.u64() >> r.range(30, 40)),
    };
    if ext {
        (n, true)
    } else if r.chance(1, 4) {
        (u32::MAX as u64 - 8 - r.below(3) as u64, false)
    } else {
        (n % 0xf000_0000 + (16 << 20), false)
    }
}

/// Adds a large atom somewhere inside the movie; the atoms around it get 64-bit sizes.
pub fn dig_inside(r: &mut Rng, top: &mut [N], id: usize, places: &[&[u8; 4]]) -> Option<Hole> {
    fn paths(v: &[N], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>, places: &[&[u8; 4]]) {
        for (k, n) in v.iter().enumerate() {
            if let N::Box { cc, kids, .. } = n {
                if !places.contains(&cc) {
                    continue;
                }
                at.push(k);
                out.push(at.clone());
                paths(kids, at, out, places);
                at.pop();
            }
        }
    }
    let mut all = vec![];
    paths(top, &mut vec![], &mut all, places);
    if all.is_empty() {
        return None;
    }
    let path = r.pick(&all).clone();
    let (size, ext) = hole_size(r);
    let cc = **r.pick(&[b"free", b"free", b"skip", b"uuid", b"xtra", b"wide", b"\0\0\0\0", b"\xa9cmt"]);
    fn go(r: &mut Rng, v: &mut [N], path: &[usize], n: N) -> [u8; 4] {
        let N::Box { kids, ext, cc, .. } = &mut v[path[0]] else { unreachable!() };
        *ext = true;
        if path.len() > 1 {
            return go(r, kids, &path[1..], n);
        }
        let at = r.below(kids.len() + 1);
        kids.insert(at, n);
        *cc
    }
    let parent = go(r, top, &path, N::Media { id, ext, body: vec![], claim: None });
    Some(Hole { size, cc: if &parent == b"ilst" { *b"free" } else { cc }, ext })
}

/// The emitted file with the (empty) media atoms 900.. turned into holes, and the length of the
/// file without the holes.
pub fn holed(top: &[N], holes: &[Hole]) -> (Sparse, u64) {
    let e = emit(top);
    let mut b = e.bytes.clone();
    let head = |k: usize| if holes[k].ext { 16 } else { 8 };
    let mut ms: Vec<(usize, usize)> = e.media.iter().filter(|m| m.0 >= 900).map(|m| (m.0 - 900, m.1 as usize)).collect();
    ms.sort_by_key(|m| m.1);
    for (k, p) in &ms {
        let start = p - head(*k);
        if holes[*k].ext {
            b[p - 8..*p].copy_from_slice(&(holes[*k].size + 16).to_be_bytes());
        } else {
            b[start..start + 4].copy_from_slice(&((holes[*k].size + 8) as u32).to_be_bytes());
        }
        b[start + 4..start + 8].copy_from_slice(&holes[*k].cc);
        // the atoms around it
        for f in e.fields.iter().filter(|f| f.kind == Kind::Size64) {
            let s = f.pos - 8;
            let len = u64::from_be_bytes(e.bytes[f.pos..f.pos + 8].try_into().unwrap());
            if s < start && s as u64 + len >= *p as u64 {
                let now = u64::from_be_bytes(b[f.pos..f.pos + 8].try_into().unwrap());
                b[f.pos..f.pos + 8].copy_from_slice(&(now + holes[*k].size).to_be_bytes());
            }
        }
    }
    let mut parts = vec![];
    let mut from = 0;
    for (k, p) in ms {
        parts.push(Part::Hole(b[from..p].to_vec(), holes[k].size));
        from = p;
    }
    parts.push(Part::Bytes(b[from..].to_vec()));
    (sparse(&parts, &[]), b.len() as u64)
}

fn c23(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let c = if r.chance(1, 2) { Cfg::small(r) } else { Cfg::random(r) };
    let mut spec = gen(r, c);
    let writing = r.chance(1, 2);
    let n = r.range(1, 3);
    let mut holes = vec![];
    for k in 0..n {
        let moov = spec.top.iter().position(|n| &n.cc() == b"moov").unwrap();
        // the file type stays first
        let first = spec.top.iter().position(|n| &n.cc() == b"ftyp").unwrap() + 1;
        let last = if writing { moov } else { spec.top.len() };
        let at = r.range(first, last);
        let (size, ext) = hole_size(r);
        spec.top.insert(at, N::Media { id: 900 + k, ext, body: vec![], claim: None });
        holes.push(Hole { size, cc: **r.pick(BIG), ext });
    }
    let (s, rest) = holed(&spec.top, &holes);
    let atoms = emit(&spec.top).fields.iter().filter(|f| matches!(f.kind, Kind::Size32 | Kind::Size64)).count() as u64;
    cx.note = format!("{}; large {:?}", spec.describe(), holes.iter().map(|h| (cc_str(&h.cc), h.size, h.ext)).collect::<Vec<_>>());
    let read_bound = 4 * rest + (72 << 10) * (atoms + 16);
    let plan = || Plan { limit: 8 * rest + 64 * (atoms + 16), ..Plan::count() };
    let mem = 64 * rest + (1 << 20);
    let kind_of = r.below(3);
    let (((res, p), u), how) = match kind_of {
        0 => {
            let mut f = &s.file;
            (alloc::measure(4 * mem + (256 << 20), || with_plan(plan(), || call("read_from a file", || Tag::read_from(&mut f)))), "from a file")
        }
        1 => {
            let mut f = std::io::BufReader::new(&s.file);
            (alloc::measure(4 * mem + (256 << 20), || with_plan(plan(), || call("read_from a buffered file", || Tag::read_from(&mut f)))), "from a buffered file")
        }
        _ => {
            use std::os::fd::AsRawFd;
            let path = format!("/proc/self/fd/{}", s.file.as_raw_fd());
            (alloc::measure(4 * mem + (256 << 20), || with_plan(plan(), || call("read_from_path", || Tag::read_from_path(&path)))), "from a path")
        }
    };
    ensure!(!p.overrun, "reading {how}: more than {} file operations ({rest} bytes beside the big atoms)", p.limit);
    ensure!(p.bytes_read <= read_bound, "reading {how}: {} bytes read, {rest} bytes and {atoms} atoms beside the big ones", p.bytes_read);
    ensure!(u.peak <= mem, "reading {how}: {} bytes allocated, {rest} bytes beside the big atoms", u.peak);
    let t = res?.map_err(|e| format!("reading {how} a conforming file failed: {e}"))?;
    if let Some(d) = diff(&tag_items(&t), &spec.model()) {
        fail!("reading {how} a file with large atoms: {d}");
    }
    cx.count("reads", 1);
    cx.max("bytes read per 100 bytes beside the big atoms and 8 KiB per atom", p.bytes_read * 100 / (rest + 8192 * atoms));
    cx.max("file length", s.len);
    if writing {
        let r = &mut cx.r;
        let items = gen_items(r, TagCfg { items: 6, values: 3, val_len: 400, budget: 3000 });
        let tag = build_tag(&items, r);
        let tl: u64 = items.iter().map(|(i, v)| item_plain(i, v).size()).sum();
        use std::io::Seek as _;
        (&s.file).seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
        let mem = 64 * (rest + tl) + (1 << 20);
        let plan = Plan { limit: 8 * (rest + tl) + 64 * (atoms + 16), ..Plan::count() };
        let ((res, p), u) = alloc::measure(4 * mem + (256 << 20), || with_plan(plan, || call("write_to", || tag.write_to(&s.file))));
        ensure!(!p.overrun, "writing: more than {} file operations ({rest} bytes beside the big atoms)", p.limit);
        ensure!(p.bytes_read <= read_bound + 4 * tl, "writing: {} bytes read, {rest} bytes and {atoms} atoms beside the big ones", p.bytes_read);
        ensure!(p.bytes_written <= 2 * (rest + tl) + (64 << 10), "writing: {} bytes written, {rest} bytes beside the big atoms, a tag of {tl}", p.bytes_written);
        ensure!(u.peak <= mem, "writing: {} bytes allocated, {rest} bytes beside the big atoms", u.peak);
        res?.map_err(|e| format!("writing to a conforming file failed: {e}"))?;
        let got = mp4ref::items(&s.file, false)?;
        if let Some(d) = diff(&got, &items) {
            fail!("metadata written to a file with large atoms: {d}");
        }
        cx.count("writes", 1);
        cx.max("bytes written per 100 bytes beside the big atoms and of the tag", p.bytes_written * 100 / (rest + tl));
    }
    let h = fnv(rest, cx.note.as_bytes());
    cx.eval(h, true);
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
