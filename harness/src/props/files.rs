//! C01-C04 (writing), C09/C10 (reading conforming files), C11 (dumping).

use super::common::*;

// ------------------------------------------------------------------------------------------ C01

pub const C01: Prop = Prop {
    id: "C01",
    level: "exploration",
    rule: "distinct (target, tag) pairs where the tag holds at least one value",
    assumptions: &[
        "the identifier `free` is reserved for padding and outside the claim",
        "lists, items and values of about 4 GiB and more are explored in few cases, with a single large image as the content",
    ],
    quick: 48000,
    thorough: 1280000,
    single: false,
    exhaustive: false,
    case: c01,
};

const C01_COUNTS: &[(usize, usize)] = &[
    (1, 255), (1, 256), (1, 257), (1, 1000), (1, 4096), (1, 65_535), (1, 65_536), (1, 65_537),
    (255, 1), (256, 1), (257, 1), (1000, 1), (1024, 2), (4096, 1), (20, 300), (300, 20),
];

fn c01_items(cx: &mut Ctx) -> Items {
    let i = cx.idx as usize;
    let forced = 7 * dict::LENS.len();
    let huge = forced + 2 * dict::HUGE_LENS.len();
    let counts = huge + C01_COUNTS.len();
    let r = &mut cx.r;
    if i < forced {
        let id = if r.chance(1, 3) { Id::S(gen_string(r, 30), gen_string(r, 30)) } else { gen_id(r) };
        let v = val_of_kind(i % 7, dict::LENS[i / 7], r);
        let mut items = vec![(id, vec![v])];
        if r.chance(1, 2) {
            let other = gen_items(r, SMALL);
            let at = r.below(2);
            for o in other {
                if items.iter().all(|x| x.0 != o.0) {
                    items.insert(at.min(items.len()), o);
                }
            }
        }
        cx.count("forced value lengths", 1);
        items
    } else if i < huge {
        let k = i - forced;
        let len = dict::HUGE_LENS[k / 2];
        let v = if k % 2 == 0 { V::Png(r.bytes(len)) } else { V::Utf16(ascii(r, len / 2)) };
        cx.count("values of 2..16 MiB", 1);
        vec![(Id::F(*b"\xa9alb"), vec![V::Utf8("a".into())]), (Id::F(*b"covr"), vec![v]), (Id::S("m".into(), "n".into()), vec![V::Signed(vec![1])])]
    } else if i < counts {
        let (n, k) = C01_COUNTS[i - huge];
        cx.count("forced item and value counts", 1);
        let r = &mut cx.r;
        (0..n)
            .map(|x| {
                let id = if x % 3 == 2 { Id::S(format!("m{}", x % 7), format!("n{x}")) } else { Id::F((x as u32 | 0x4100_0000).to_be_bytes()) };
                (id, (0..k).map(|_| gen_val(r, 6)).collect())
            })
            .collect()
    } else if r.chance(1, 40) {
        // long identifiers
        let l = *r.pick(dict::LENS);
        let l2 = *r.pick(dict::LENS);
        let (m, n) = (gen_string_len(r, l.min(70_000)), gen_string_len(r, l2.min(70_000)));
        vec![(Id::S(m, n), vec![gen_val(r, 20)]), (gen_id(r), vec![gen_val(r, 20)])].into_iter().fold(vec![], |mut a: Items, x| {
            if a.iter().all(|y| y.0 != x.0) {
                a.push(x)
            }
            a
        })
    } else {
        gen_items_any(r)
    }
}

fn count_kinds(cx: &mut Ctx, items: &Items) {
    const K: [(u32, &str); 7] = [
        (0, "values reserved"), (1, "values utf-8"), (2, "values utf-16"), (13, "values jpeg"), (14, "values png"),
        (21, "values be-signed"), (27, "values bmp"),
    ];
    for (c, n) in K {
        let k = items.iter().flat_map(|i| i.1.iter()).filter(|v| v.code() == c).count();
        cx.count(n, k as u64);
    }
    cx.count("freeform identifiers", items.iter().filter(|i| matches!(i.0, Id::S(..))).count() as u64);
    cx.count("four-character identifiers", items.iter().filter(|i| matches!(i.0, Id::F(..))).count() as u64);
    cx.max("items in a tag", items.len() as u64);
    cx.max("values of an item", items.iter().map(|i| i.1.len()).max().unwrap_or(0) as u64);
}

fn c01(cx: &mut Ctx) -> Outcome {
    if cx.idx % 12_000 == 11_999 {
        return c01_huge(cx, cx.idx / 12_000);
    }
    let items = c01_items(cx);
    let t = target(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    cx.note = format!("target: {}\ntag: {}", t.desc, summary(&items));
    if let Some(d) = diff(&tag_items(&tag), &items) {
        fail!("the tag built through the API does not hold what was put in: {d}");
    }
    let new = write_ok(&tag, &t.bytes)?;
    cx.artifact("file before", &t.bytes);
    cx.artifact("file after", &new);
    let back = call("read_from", || Tag::read_from(&mut Cursor::new(&new)))?.map_err(|e| format!("reading back failed: {e}"))?;
    if let Some(d) = diff(&tag_items(&back), &items) {
        fail!("read back differs from what was written: {d}");
    }
    let indep = mp4ref::items(&new[..], false).map_err(|e| format!("the independent reader rejects the written file: {e}"))?;
    if let Some(d) = diff(&indep, &items) {
        fail!("the independent reader decodes something else than what was written: {d}");
    }
    if cx.idx % 4 == 0 {
        // what was read is again a tag that can be written
        let again = write_ok(&back, &t.bytes)?;
        if let Some(d) = first_diff(&again, &new) {
            fail!("writing the tag read back gives a different file: {d}");
        }
        let t2 = read_ok(&again)?;
        ensure!(t2 == back, "two reads of the same content are unequal");
    }
    count_kinds(cx, &items);
    cx.count("files read back and decoded independently", 1);
    cx.eval(fnv(items_hash(&items), t.desc.as_bytes()), !items.is_empty());
    cx.sample(|| format!("{} <- {}", t.desc, summary(&items)));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

pub const C02: Prop = Prop {
    id: "C02",
    level: "exploration",
    rule: "distinct (file, tag history) pairs with at least one chunk offset entry compared after the write",
    assumptions: &[
        "chunk offset entries point into top-level mdat atoms",
        "media data larger than 4 GiB is explored as a sparse file with the movie behind it (quick) and in front of it (thorough)",
    ],
    quick: 240000,
    thorough: 6400000,
    single: false,
    exhaustive: false,
    case: c02,
};

struct MediaStats {
    entries: u64,
    moved: u64,
}

/// Every entry of the new file leads to the bytes the entry of the old file led to.
pub fn check_media<A: Src + ?Sized, B: Src + ?Sized>(old: &A, new: &B, dangling: bool) -> Res<(u64, u64)> {
    let ot = mp4ref::tree(old, dangling).map_err(|e| format!("harness: old file: {e}"))?;
    let nt = mp4ref::tree(new, dangling).map_err(|e| format!("the written file is malformed: {e}"))?;
    let om: Vec<_> = ot.top.iter().filter(|a| &a.cc == b"mdat").collect();
    let nm: Vec<_> = nt.top.iter().filter(|a| &a.cc == b"mdat").collect();
    ensure!(om.len() == nm.len(), "the number of media atoms changed from {} to {}", om.len(), nm.len());
    let otab = mp4ref::tables(old, &ot.moov).map_err(|e| format!("harness: old tables: {e}"))?;
    let ntab = mp4ref::tables(new, &nt.moov).map_err(|e| format!("the chunk tables of the written file are malformed: {e}"))?;
    ensure!(otab.len() == ntab.len(), "the number of chunk tables changed");
    let mut s = MediaStats { entries: 0, moved: 0 };
    for (k, (o, n)) in otab.iter().zip(ntab.iter()).enumerate() {
        ensure!(o.0 == n.0 && o.1 == n.1 && o.2.len() == n.2.len(), "chunk table {k} changed its track, width or length");
        for (j, (a, b)) in o.2.iter().zip(n.2.iter()).enumerate() {
            let Some(m) = om.iter().position(|x| *a >= x.body() && *a < x.end().min(old.len())) else { continue };
            let want = a - om[m].body() + nm[m].body();
            if *b != want {
                fail!(
                    "chunk table {k} (track {}, {} bit) entry {j}: was {a} = media atom {m} + {}, now {b}, but that media byte is at {want}",
                    o.0,
                    if o.1 { 64 } else { 32 },
                    a - om[m].body()
                );
            }
            let len = (om[m].end().min(old.len()) - a).min(48) as usize;
            let (x, y) = (old.get(*a, len)?, new.get(*b, len).map_err(|e| format!("entry {j} of table {k} leads outside of the file: {e}"))?);
            ensure!(x == y, "chunk table {k} entry {j}: the bytes it leads to changed");
            s.entries += 1;
            if a != b {
                s.moved += 1;
            }
        }
    }
    Ok((s.entries, s.moved))
}

fn some_tag(r: &mut Rng, max: usize) -> (Items, Tag) {
    let items = match r.below(8) {
        0 => vec![],
        1 => vec![(Id::F(*b"covr"), vec![V::Png(gen_bytes(r, max))])],
        2 => vec![(Id::F(*b"\xa9nam"), vec![V::Utf8(gen_string(r, max))])],
        _ => gen_items(r, TagCfg { items: 10, values: 3, val_len: max, budget: max * 2 }),
    };
    let t = build_tag(&items, r);
    (items, t)
}

fn c02(cx: &mut Ctx) -> Outcome {
    match cx.idx % 64 {
        3 | 35 => c02_large_tables(cx),
        7 => c02_sparse(cx),
        11 | 43 => c02_overflow(cx),
        15 | 31 | 47 => c02_dangling(cx),
        _ => c02_normal(cx),
    }
}

fn c02_normal(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut c = Cfg::random(r);
    if r.chance(1, 2) {
        c.tag = model::TagCfg { items: 6, values: 2, val_len: 300, budget: 600 };
    }
    let s = samples();
    let (bytes, desc) = if !s.is_empty() && r.chance(1, 24) {
        let (n, b) = r.pick(s);
        (b.clone(), n.clone())
    } else {
        let spec = gen(r, c);
        (emit(&spec.top).bytes, spec.describe())
    };
    cx.note = desc.clone();
    let mut cur = bytes.clone();
    let steps = *r.pick(&[1usize, 1, 2, 3, 5]);
    let mut h = fnv(0, &bytes);
    let mut total = 0;
    for k in 0..steps {
        let r = &mut cx.r;
        let max = if r.chance(1, 10) { 70_000 } else { 600 };
        let (items, tag) = some_tag(r, max);
        cx.note += &format!("\nwrite {k}: {}", summary(&items));
        let before = cur.len();
        cx.artifacts.clear();
        cx.artifact("before the write", &cur);
        cur = write_ok(&tag, &cur)?;
        cx.artifact("after the write", &cur);
        let (e, m) = check_media(&bytes[..], &cur[..], false)?;
        total += e;
        cx.count("entries compared", e);
        cx.count("entries whose position changed", m);
        cx.count(if cur.len() > before { "growing writes" } else if cur.len() < before { "shrinking writes" } else { "writes of equal length" }, 1);
        h = fnv(h, &items_hash(&items).to_le_bytes());
    }
    cx.eval(h, total > 0);
    cx.sample(|| format!("{desc}, {steps} writes, {total} entries compared"));
    Ok(())
}

fn c02_large_tables(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut c = Cfg::small(r);
    c.max_traks = 3;
    let mut spec = gen(r, c);
    if !spec.top.iter().any(|n| matches!(n, N::Media { .. })) {
        spec.top.push(N::Media { id: 0, ext: false, body: r.bytes(5000), claim: None });
    }
    let media: Vec<(usize, usize)> =
        spec.top.iter().filter_map(|n| if let N::Media { id, body, .. } = n { Some((*id, body.len())) } else { None }).filter(|m| m.1 > 0).collect();
    if media.is_empty() {
        return Ok(());
    }
    let n = *r.pick(&[1022usize, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049, 4096, 5000, 10_000, 16_384]);
    let mut seed = r.fork();
    for top in spec.top.iter_mut() {
        visit(top, &mut |x| {
            if let N::Table { entries, .. } = x {
                *entries = (0..n)
                    .map(|_| {
                        let (id, l) = *seed.pick(&media);
                        Entry { media: id, off: seed.below(l) as u64, len: 1 }
                    })
                    .collect();
            }
        });
    }
    let bytes = emit(&spec.top).bytes;
    let (items, tag) = some_tag(r, 20_000);
    cx.note = format!("{}; {}", spec.describe(), summary(&items));
    let new = write_ok(&tag, &bytes)?;
    let (e, m) = check_media(&bytes[..], &new[..], false)?;
    cx.count("entries compared", e);
    cx.count("entries whose position changed", m);
    cx.max("entries of a table", n as u64);
    cx.eval(fnv(items_hash(&items), &bytes[..bytes.len().min(4096)]), e > 0);
    Ok(())
}

/// A movie with the given chunk tables (absolute positions), then the meaning of its udta.
fn movie(r: &mut Rng, tables: &[(bool, Vec<u64>)], items: &Items, meta: bool) -> N {
    let mut kids = vec![mvhd_node(0, 1000, 5000, &[0; 80])];
    for (wide, e) in tables {
        let entries = e.iter().map(|p| Entry { media: usize::MAX, off: *p, len: 1 }).collect();
        let stbl = N::container(b"stbl", vec![N::Table { wide: *wide, ext: false, flags: [0; 3], entries }]);
        kids.push(N::container(b"trak", vec![N::container(b"mdia", vec![N::container(b"minf", vec![stbl])])]));
    }
    if meta {
        let mut ks: Vec<N> = items.iter().map(|(i, v)| item_plain(i, v)).collect();
        if r.chance(1, 3) {
            ks.push(N::leaf(b"free", vec![0; 20]));
        }
        let ilst = N::container(b"ilst", ks);
        let hdlr = N::leaf(b"hdlr", [&[0u8; 8][..], b"mdirappl", &[0; 9]].concat());
        let udta = N::container(b"udta", vec![N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![hdlr, ilst] }]);
        let at = if r.chance(1, 2) { kids.len() } else { r.range(1, kids.len()) };
        kids.insert(at, udta);
    }
    N::container(b"moov", kids)
}

fn ftyp_node() -> N {
    N::leaf(b"ftyp", b"M4A \0\0\x02\0isomiso2".to_vec())
}

/// A file made of parts, where large media data is a hole with a few marked bytes.
pub struct Sparse {
    pub file: File,
    pub len: u64,
}

pub enum Part {
    Bytes(Vec<u8>),
    /// head (given) followed by a hole of this size
    Hole(Vec<u8>, u64),
}

pub fn sparse(parts: &[Part], marks: &[u64]) -> Sparse {
    use std::os::unix::fs::FileExt;
    let f = mio::memfile();
    let mut p = 0;
    let mut end = 0;
    for x in parts {
        match x {
            Part::Bytes(b) => {
                f.write_all_at(b, p).unwrap();
                p += b.len() as u64;
            }
            Part::Hole(h, n) => {
                f.write_all_at(h, p).unwrap();
                p += h.len() as u64 + n;
            }
        }
        end = end.max(p);
    }
    f.set_len(end).unwrap();
    for (k, m) in marks.iter().enumerate() {
        let b = (k as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes();
        let n = ((end - m) as usize).min(8);
        f.write_all_at(&b[..n], *m).unwrap();
    }
    Sparse { file: f, len: end }
}

fn part_len(p: &Part) -> u64 {
    match p {
        Part::Bytes(b) => b.len() as u64,
        Part::Hole(h, n) => h.len() as u64 + n,
    }
}

pub fn mdat_head(ext: bool, body: u64) -> Vec<u8> {
    if ext {
        [&1u32.to_be_bytes()[..], b"mdat", &(body + 16).to_be_bytes()].concat()
    } else {
        [&((body + 8) as u32).to_be_bytes()[..], b"mdat"].concat()
    }
}

/// builds `front + moov + back` where entries are chosen among the media positions
struct Layout {
    parts: Vec<Part>,
    tables: Vec<(bool, Vec<u64>)>,
    marks: Vec<u64>,
}

fn layout(
    r: &mut Rng,
    front: Vec<Part>,
    back: Vec<Part>,
    items: &Items,
    meta: bool,
    pick: &mut dyn FnMut(&mut Rng, &[(u64, u64)]) -> Vec<(bool, Vec<u64>)>,
    spans: &dyn Fn(u64) -> Vec<(u64, u64)>,
) -> Layout {
    // the movie's size does not depend on the values of its entries
    let mut probe = r.clone();
    let t = pick(&mut probe.clone(), &spans(0));
    let m = movie(&mut probe, &t, items, meta);
    let size = m.size();
    let sp = spans(size);
    let tables = pick(&mut r.clone(), &sp);
    let m2 = movie(r, &tables, items, meta);
    assert_eq!(m2.size(), size);
    let mut parts = front;
    parts.push(Part::Bytes(emit(&[m2]).bytes));
    parts.extend(back);
    let mut marks: Vec<u64> = tables.iter().flat_map(|t| t.1.iter().copied()).collect();
    marks.sort_unstable();
    marks.dedup_by(|b, a| *b < *a + 8);
    Layout { parts, tables, marks }
}

fn c02_sparse(cx: &mut Ctx) -> Outcome {
    let thorough = cx.thorough;
    let moov_first = thorough && cx.idx == 7 + 64 * 3;
    let r = &mut cx.r;
    let (items, _) = some_tag(r, 300);
    let meta = r.chance(3, 4);
    let big = match r.below(5) {
        0 => (1u64 << 32) - 16,
        1 => (1u64 << 32) + r.below(100_000) as u64,
        2 => 5 << 30,
        3 => (1u64 << 32) - 40 - r.below(3000) as u64,
        _ => (6 << 30) + r.below(1000) as u64,
    };
    let small = r.range(8, 4000) as u64;
    let f = emit(&[ftyp_node()]).bytes;
    let fl = f.len() as u64;
    let second = r.bytes(small as usize);
    let second_part = || Part::Bytes([mdat_head(false, small), second.clone()].concat());
    let (front, back) = if moov_first {
        (vec![Part::Bytes(f)], vec![Part::Hole(mdat_head(true, big), big), second_part()])
    } else {
        (vec![Part::Bytes(f), Part::Hole(mdat_head(true, big), big)], vec![second_part()])
    };
    let spans = |msize: u64| -> Vec<(u64, u64)> {
        if moov_first {
            let a = fl + msize + 16;
            vec![(a, big), (a + big + 8, small)]
        } else {
            let a = fl + 16;
            vec![(a, big), (a + big + msize + 8, small)]
        }
    };
    let nt = r.range(1, 3);
    let mut pick = |r: &mut Rng, sp: &[(u64, u64)]| {
        (0..nt)
            .map(|_| {
                let wide = true;
                let n = r.range(1, 12);
                let e = (0..n)
                    .map(|_| {
                        let (p, l) = *r.pick(sp);
                        let off = match r.below(4) {
                            0 => 0,
                            1 => l - 8,
                            2 if l > 1 << 32 => (1u64 << 32) - 3 + r.below(6) as u64,
                            _ => r.u64() % (l - 7),
                        };
                        p + off
                    })
                    .collect();
                (wide, e)
            })
            .collect::<Vec<_>>()
    };
    let l = layout(r, front, back, &items, meta, &mut pick, &spans);
    let old = sparse(&l.parts, &l.marks);
    let new = sparse(&l.parts, &l.marks);
    let (ni, tag) = some_tag(r, 5000);
    cx.note = format!("sparse media of {big} bytes, moov first: {moov_first}, tables {:?}; tag {}", l.tables, summary(&ni));
    write_file(&tag, &new.file)?.map_err(|e| format!("writing to a conforming file failed: {e}"))?;
    let (e, m) = check_media(&old.file, &new.file, false)?;
    let got = mp4ref::items(&new.file, false)?;
    if let Some(d) = diff(&got, &ni) {
        fail!("metadata of a large file: {d}");
    }
    cx.count("entries compared", e);
    cx.count("entries whose position changed", m);
    cx.count("files with more than 4 GiB of media", 1);
    cx.max("file length", old.len);
    cx.eval(fnv(big, cx.note.as_bytes()), e > 0);
    Ok(())
}

/// 32-bit tables with positions close to the largest they can hold.
fn c02_overflow(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let (items, _) = some_tag(r, 300);
    let meta = r.chance(3, 4);
    let small = r.range(64, 4000) as u64;
    let f = emit(&[ftyp_node()]).bytes;
    let fl = f.len() as u64;
    let slack = r.range(16, 6000) as u64;
    let second = r.bytes(small as usize);
    let wide_too = r.chance(1, 2);
    let nt = r.range(1, 3);
    // the size of the movie decides how long the first media atom is
    let mut pick = |r: &mut Rng, sp: &[(u64, u64)]| {
        (0..nt)
            .map(|k| {
                let wide = wide_too && k == 0;
                let n = r.range(1, 6);
                let e = (0..n)
                    .map(|_| {
                        let (p, l) = *r.pick(sp);
                        let mut x = p + r.u64() % (l - 7);
                        if !wide {
                            x = x.min(u32::MAX as u64);
                        }
                        x
                    })
                    .collect();
                (wide, e)
            })
            .collect::<Vec<_>>()
    };
    let msize = {
        let t = pick(&mut r.clone(), &[(100, 100)]);
        movie(&mut r.clone(), &t, &items, meta).size()
    };
    // the second media atom starts `slack` bytes before 2^32
    let big = (1u64 << 32) - slack - 8 - msize - 16 - fl;
    let spans = |m: u64| vec![(fl + 16, big), (fl + 16 + big + m + 8, small.min(slack.saturating_sub(8)).max(16))];
    let front = vec![Part::Bytes(f), Part::Hole(mdat_head(true, big), big)];
    let back = vec![Part::Bytes([mdat_head(false, small), second].concat())];
    let l = layout(r, front, back, &items, meta, &mut pick, &spans);
    let old = sparse(&l.parts, &l.marks);
    let new = sparse(&l.parts, &l.marks);
    let (ni, tag) = some_tag(r, 9000);
    cx.note = format!("second media atom {slack} bytes before 2^32; tables {:?}; tag {}", l.tables, summary(&ni));
    match write_file(&tag, &new.file)? {
        Ok(()) => {
            let (e, _) = check_media(&old.file, &new.file, false)?;
            cx.count("entries compared", e);
            cx.count("writes next to the 32-bit limit that fit", 1);
        }
        Err(e) => {
            let grow = needed_growth(&items, meta, &ni);
            let max = l.tables.iter().filter(|t| !t.0).flat_map(|t| t.1.iter()).copied().max().unwrap_or(0);
            ensure!(
                max as i128 + grow as i128 + 80 > u32::MAX as i128,
                "the write failed although every position would still fit (largest 32-bit entry {max}, growth about {grow}): {e}"
            );
            same_sparse(&old, &new).map_err(|d| format!("the write failed ({e}) but the file changed: {d}"))?;
            cx.count("writes rejected because a 32-bit position would overflow", 1);
        }
    }
    cx.eval(fnv(slack, cx.note.as_bytes()), true);
    Ok(())
}

fn list_len(items: &Items) -> u64 {
    N::container(b"ilst", items.iter().map(|(i, v)| item_plain(i, v)).collect()).size()
}

/// an upper bound of how much the metadata grows
fn needed_growth(old: &Items, meta: bool, new: &Items) -> i64 {
    if meta {
        list_len(new) as i64 - list_len(old) as i64
    } else {
        list_len(new) as i64 + 200
    }
}

/// files with holes are equal (data regions compared)
pub fn same_sparse(a: &Sparse, b: &Sparse) -> Res<()> {
    ensure!(Src::len(&a.file) == Src::len(&b.file), "length {} instead of {}", Src::len(&b.file), Src::len(&a.file));
    let n = Src::len(&a.file);
    let mut ranges = data_ranges(&a.file, n);
    ranges.extend(data_ranges(&b.file, n));
    for (s, e) in ranges {
        let mut p = s;
        while p < e {
            let k = (e - p).min(1 << 20) as usize;
            ensure!(a.file.get(p, k)? == b.file.get(p, k)?, "content differs between {p} and {}", p + k as u64);
            p += k as u64;
        }
    }
    Ok(())
}

extern "C" {
    fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
}

fn data_ranges(f: &File, n: u64) -> Vec<(u64, u64)> {
    use std::os::fd::AsRawFd;
    let fd = f.as_raw_fd() as std::ffi::c_long;
    let seek = |o: u64, w: std::ffi::c_long| unsafe { syscall(8, fd, o as std::ffi::c_long, w) };
    let mut v = vec![];
    let mut p = 0;
    while p < n {
        let d = seek(p, 3);
        if d < 0 {
            break;
        }
        let h = seek(d as u64, 4);
        let h = if h < 0 { n } else { h as u64 };
        v.push((d as u64, h));
        p = h;
    }
    v
}

/// The last media atom claims to be longer than the file (a truncated recording).
fn c02_dangling(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut c = Cfg::small(r);
    c.max_entries = 20;
    let mut spec = gen(r, c);
    spec.top.retain(|n| !matches!(n, N::Media { .. }));
    let len = r.range(40, 900);
    let ext = r.chance(2, 3);
    let head = if ext { 16 } else { 8 };
    let claim = head as u64 + len as u64 + match r.below(4) {
        0 => 1,
        1 => r.below(5000) as u64 + 1,
        2 => 3 << 29,
        _ => if ext { 1 << 33 } else { 1 << 30 },
    };
    spec.top.push(N::Media { id: 7, ext, body: r.bytes(len), claim: Some(claim) });
    let mut seed = r.fork();
    for top in spec.top.iter_mut() {
        visit(top, &mut |x| {
            if let N::Table { entries, .. } = x {
                if entries.is_empty() {
                    entries.push(Entry { media: 7, off: 0, len: 1 });
                }
                for e in entries.iter_mut() {
                    *e = Entry { media: 7, off: seed.below(len) as u64, len: 1 };
                }
            }
        });
    }
    let bytes = emit(&spec.top).bytes;
    let (items, tag) = some_tag(r, 3000);
    cx.note = format!("{} (media claims {claim}); {}", spec.describe(), summary(&items));
    cx.artifact("file before", &bytes);
    let (res, new) = write(&tag, &bytes)?;
    cx.artifact("file after", &new);
    match res {
        Ok(()) => {
            let (e, _) = check_media(&bytes[..], &new[..], true)?;
            cx.count("entries compared", e);
            cx.count("writes to files whose last media atom is cut off", 1);
            cx.eval(fnv(items_hash(&items), &bytes), e > 0);
        }
        Err(e) => {
            if let Some(d) = first_diff(&bytes, &new) {
                fail!("the write failed ({e}) but changed the file: {d}");
            }
            cx.count("cut off files rejected unchanged", 1);
            cx.eval(fnv(items_hash(&items), &bytes), true);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03

pub const C03: Prop = Prop {
    id: "C03",
    level: "exploration",
    rule: "distinct (file, tag) pairs with at least one atom besides the metadata hierarchy compared",
    assumptions: &["a metadata hierarchy the write has to create may be inserted anywhere inside its proper container"],
    quick: 270000,
    thorough: 7200000,
    single: false,
    exhaustive: false,
    case: c03,
};

fn same_bytes<A: Src + ?Sized, B: Src + ?Sized>(a: &A, ap: u64, b: &B, bp: u64, n: u64) -> Res<Option<u64>> {
    // long stretches (sparse media) are compared at their ends and at sampled places
    let mut spans = vec![];
    if n > 32 << 20 {
        let step = n / 7;
        for k in 0..8 {
            let s = (k * step).min(n - 4096);
            spans.push((s, 4096));
        }
        spans.push((n - 4096, 4096));
    } else {
        spans.push((0, n));
    }
    for (s, l) in spans {
        let (x, y) = (a.get(ap + s, l as usize)?, b.get(bp + s, l as usize)?);
        if let Some(k) = x.iter().zip(y.iter()).position(|(p, q)| p != q) {
            return Ok(Some(s + k as u64));
        }
    }
    Ok(None)
}

/// zeroes the values of the chunk tables of a track
fn mask_trak(b: &mut [u8]) -> Res<()> {
    let src: Vec<u8> = b.to_vec();
    let top = mp4ref::atoms(&src[..], 0, src.len() as u64, false)?;
    let mut level = top;
    for cc in [b"mdia", b"minf", b"stbl"] {
        let mut next = vec![];
        for a in level.iter().filter(|a| &a.cc == cc || cc == b"mdia" && &a.cc == b"mdia") {
            next.extend(mp4ref::atoms(&src[..], a.body(), a.end(), false)?);
        }
        level = next;
    }
    for a in level.iter().filter(|a| &a.cc == b"stco" || &a.cc == b"co64") {
        let s = (a.body() + 8) as usize;
        let e = a.end() as usize;
        if s < e {
            b[s..e].fill(0);
        }
    }
    Ok(())
}

/// Compares everything that is not the movie-level metadata list. Returns how many atoms were
/// compared.
pub fn check_structure<A: Src + ?Sized, B: Src + ?Sized>(old: &A, new: &B, dangling: bool) -> Res<u64> {
    let ot = mp4ref::tree(old, dangling).map_err(|e| format!("harness: old file: {e}"))?;
    let nt = mp4ref::tree(new, dangling).map_err(|e| format!("the written file is not a gap-free sequence of atoms: {e}"))?;
    let mut n = 0;
    let names = |v: &[mp4ref::Atom]| v.iter().map(|a| a.name()).collect::<Vec<_>>().join(" ");
    ensure!(ot.top.len() == nt.top.len(), "top-level atoms changed from [{}] to [{}]", names(&ot.top), names(&nt.top));
    let mut seen_moov = false;
    for (a, b) in ot.top.iter().zip(nt.top.iter()) {
        ensure!(a.cc == b.cc, "top-level atoms changed from [{}] to [{}]", names(&ot.top), names(&nt.top));
        if &a.cc == b"moov" && !seen_moov {
            seen_moov = true;
            continue;
        }
        ensure!(a.len == b.len && a.head == b.head, "top-level atom {} changed its size from {} to {}", a.name(), a.len, b.len);
        let l = a.len.min(old.len() - a.pos);
        ensure!(new.len() >= b.pos + l, "top-level atom {} was cut off", a.name());
        if let Some(k) = same_bytes(old, a.pos, new, b.pos, l)? {
            fail!("top-level atom {} changed at byte {k} of {}", a.name(), a.len);
        }
        n += 1;
    }
    // inside the movie
    let strip = |v: &[mp4ref::Atom], cc: &[u8; 4], present: bool| -> Vec<mp4ref::Atom> {
        if present {
            v.to_vec()
        } else {
            v.iter().filter(|a| &a.cc != cc).cloned().collect()
        }
    };
    let level = |what: &str, ov: &[mp4ref::Atom], nv: &[mp4ref::Atom], skip: &[u8; 4]| -> Res<u64> {
        let mut n = 0;
        ensure!(ov.len() == nv.len(), "atoms in {what} changed from [{}] to [{}]", names(ov), names(nv));
        let mut skipped = false;
        for (a, b) in ov.iter().zip(nv.iter()) {
            ensure!(a.cc == b.cc, "atoms in {what} changed from [{}] to [{}]", names(ov), names(nv));
            if &a.cc == skip && !skipped {
                skipped = true;
                continue;
            }
            ensure!(a.len == b.len && a.head == b.head, "atom {} in {what} changed its size from {} to {}", a.name(), a.len, b.len);
            if &a.cc == b"trak" && what == "moov" && a.len < 64 << 20 {
                let mut x = old.get(a.body(), (a.len - a.head) as usize)?;
                let mut y = new.get(b.body(), (b.len - b.head) as usize)?;
                mask_trak(&mut x)?;
                mask_trak(&mut y).map_err(|e| format!("a track is malformed: {e}"))?;
                if let Some(d) = first_diff(&x, &y) {
                    fail!("a track changed besides its chunk offsets: {d}");
                }
            } else if let Some(k) = same_bytes(old, a.pos, new, b.pos, a.len)? {
                fail!("atom {} in {what} changed at byte {k}", a.name());
            }
            n += 1;
        }
        Ok(n)
    };
    let new_udta = strip(&nt.moov, b"udta", ot.udta.is_some());
    ensure!(nt.moov.iter().filter(|a| &a.cc == b"udta").count() == ot.moov.iter().filter(|a| &a.cc == b"udta").count().max(1), "user data atoms in moov: [{}]", names(&nt.moov));
    n += level("moov", &ot.moov, &new_udta, b"udta")?;
    let nu = nt.udta.clone().ok_or("the written file has no user data")?;
    let ou = ot.udta.clone().unwrap_or_default();
    ensure!(nu.iter().filter(|a| &a.cc == b"meta").count() == 1, "metadata atoms in udta: [{}]", names(&nu));
    n += level("udta", &ou, &strip(&nu, b"meta", ot.meta.is_some()), b"meta")?;
    let nm = nt.meta.clone().unwrap();
    let om = ot.meta.clone().unwrap_or_default();
    ensure!(nm.iter().filter(|a| &a.cc == b"ilst").count() == 1, "metadata lists in meta: [{}]", names(&nm));
    let had_hdlr = om.iter().any(|a| &a.cc == b"hdlr");
    ensure!(nm.iter().filter(|a| &a.cc == b"hdlr").count() == 1, "metadata handlers in meta: [{}]", names(&nm));
    let nk = strip(&strip(&nm, b"hdlr", had_hdlr), b"ilst", ot.ilst.is_some());
    n += level("meta", &om, &nk, b"ilst")?;
    // version and flags of meta
    let meta_of = |kids: &[mp4ref::Atom]| kids.iter().find(|a| &a.cc == b"meta").cloned();
    let b = meta_of(&nu).unwrap();
    let want = match meta_of(&ou) {
        Some(a) => old.get(a.body(), 4)?,
        None => vec![0; 4],
    };
    ensure!(new.get(b.body(), 4)? == want, "version or flags of meta changed");
    // a created handler declares iTunes metadata
    if !had_hdlr {
        let h = nm.iter().find(|a| &a.cc == b"hdlr").unwrap();
        ensure!(h.len - h.head >= 24, "the created handler is too short: {}", h.len);
        let c = new.get(h.body(), 12)?;
        let m = new.get(h.body() + 12, 12)?;
        ensure!(&m[..4] == b"appl" && m[4..] == [0; 8], "the created handler does not declare the iTunes form: {:02x?}", m);
        ensure!(c[..8] == [0; 8] && &c[8..12] == b"mdir", "the created handler is not a metadata handler: {:02x?}", c);
    }
    Ok(n)
}

fn c03(cx: &mut Ctx) -> Outcome {
    if cx.idx % 128 == 9 {
        return c03_sparse(cx);
    }
    if cx.idx % 128 == 73 {
        return c03_large(cx);
    }
    if cx.idx % 20_000 == 77 {
        return c03_long(cx);
    }
    let t = target(&mut cx.r);
    let r = &mut cx.r;
    let max = if r.chance(1, 10) { 70_000 } else { 800 };
    let (items, tag) = some_tag(r, max);
    cx.note = format!("target: {}\ntag: {}", t.desc, summary(&items));
    cx.artifact("file before", &t.bytes);
    let before = read_ok(&t.bytes)?;
    let new = write_ok(&tag, &t.bytes)?;
    cx.artifact("file after", &new);
    let mut n = check_structure(&t.bytes[..], &new[..], false)?;
    let after = read_ok(&new)?;
    ensure!(after.filetype() == before.filetype(), "the file type read changed from {:?} to {:?}", before.filetype(), after.filetype());
    ensure!(after.audio_info() == before.audio_info(), "the audio information read changed from {:?} to {:?}", before.audio_info(), after.audio_info());
    if let Some(s) = &t.spec {
        ensure!(after.filetype() == s.ftyp, "file type {:?} instead of {:?}", after.filetype(), s.ftyp);
        s.audio.check(after.audio_info())?;
    }
    // a second write, so that the layout a write produces is a starting point as well
    if r_chance(cx, 1, 3) {
        let (items2, tag2) = some_tag(&mut cx.r, 800);
        cx.note += &format!("\nsecond tag: {}", summary(&items2));
        let new2 = write_ok(&tag2, &new)?;
        n += check_structure(&t.bytes[..], &new2[..], false).map_err(|e| format!("after a second write: {e}"))?;
    }
    cx.count("atoms compared", n);
    cx.count("files compared", 1);
    let ot = mp4ref::tree(&t.bytes[..], false)?;
    let k = match (ot.udta.is_some(), ot.meta.is_some(), ot.ilst.is_some()) {
        (false, ..) => "files without user data",
        (_, false, _) => "files without metadata atom",
        (_, _, false) => "files without list",
        _ => "files with a list",
    };
    cx.count(k, 1);
    cx.eval(fnv(items_hash(&items), t.desc.as_bytes()), n > 0);
    cx.sample(|| format!("{}: {} atoms compared", t.desc, n));
    Ok(())
}

/// Much media data behind (or in front of) the metadata.
fn c03_long(cx: &mut Ctx) -> Outcome {
    let k = (cx.idx / 20_000) as usize;
    let r = &mut cx.r;
    let mib = [17usize, 5, 33, 9, 65, 2, 129, 16, 24, 48, 3, 100, 4, 40][k % 14];
    let len = (mib << 20) - r.below(9000) + r.below(2) * 9000;
    let mut c = Cfg::small(r);
    c.max_traks = 2;
    let items = gen_items(r, c.tag);
    let mut spec = gen_with(r, c, items, true);
    let mut body = r.bytes(1 << 20);
    while body.len() < len {
        let l = (body.len()).min(len - body.len());
        body.extend_from_within(..l);
        // no two stretches alike
        for p in (0..body.len()).step_by(4093) {
            body[p] = body[p].wrapping_add((p >> 12) as u8).wrapping_add(p as u8);
        }
    }
    body.truncate(len);
    let id = 1000;
    let body_len = body.len();
    let m = N::Media { id, ext: r.chance(1, 2), body, claim: None };
    if r.chance(3, 4) {
        spec.top.push(m);
    } else {
        spec.top.insert(1, m);
    }
    let mut seed = r.fork();
    for top in spec.top.iter_mut() {
        visit(top, &mut |x| {
            if let N::Table { entries, .. } = x {
                entries.push(Entry { media: id, off: seed.below(body_len) as u64, len: 1 });
            }
        });
    }
    let bytes = emit(&spec.top).bytes;
    let desc = spec.describe();
    drop(spec);
    let (items, tag) = some_tag(&mut cx.r, 3000);
    cx.note = format!("{} bytes: {desc}\ntag: {}", bytes.len(), summary(&items));
    let f = mio::memfile_with(&bytes);
    write_file(&tag, &f)?.map_err(|e| format!("writing to a conforming file failed: {e}"))?;
    let n = check_structure(&bytes[..], &f, false)?;
    let (e, _) = check_media(&bytes[..], &f, false)?;
    // every byte of the media
    let (x, y) = (mp4ref::tree(&bytes[..], false)?, mp4ref::tree(&f, false)?);
    for (a, b) in x.top.iter().zip(y.top.iter()) {
        if &a.cc == b"mdat" {
            let now = mp4ref::Src::get(&f, b.pos, b.len as usize)?;
            if let Some(d) = first_diff(&bytes[a.pos as usize..a.end() as usize], &now) {
                fail!("media data changed: {d}");
            }
        }
    }
    let got = mp4ref::items(&f, false)?;
    if let Some(d) = diff(&got, &items) {
        fail!("metadata after the write: {d}");
    }
    cx.count("atoms compared", n);
    cx.count("files of 2 to 129 MiB", 1);
    cx.count("entries compared", e);
    cx.max("file length", bytes.len() as u64);
    cx.eval(fnv(items_hash(&items), desc.as_bytes()), n > 0);
    Ok(())
}

fn r_chance(cx: &mut Ctx, a: usize, b: usize) -> bool {
    cx.r.chance(a, b)
}

/// Ignorable atoms of up to some TiB inside the movie, before the list.
fn c03_large(cx: &mut Ctx) -> Outcome {
    use super::cost::{dig_inside, holed};
    let r = &mut cx.r;
    let c = Cfg::random(r);
    let mut spec = gen(r, Cfg { scale: None, ..c });
    for n in spec.top.iter_mut() {
        visit(n, &mut |n| {
            if let N::Table { entries, .. } = n {
                entries.clear();
            }
        });
    }
    let places: &[&[u8; 4]] = if r.chance(1, 2) {
        &[b"moov", b"udta", b"meta"]
    } else {
        &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"meta"]
    };
    let Some(hole) = dig_inside(r, &mut spec.top, 900, places) else { return Ok(()) };
    let e = emit(&spec.top);
    let at = e.media.iter().find(|m| m.0 == 900).unwrap().1;
    // what follows the list has to be moved
    let tree = mp4ref::tree(&e.bytes[..], false).map_err(|e| format!("harness: {e}"))?;
    if !tree.ilst.map_or(false, |l| at <= l.pos) {
        return Ok(());
    }
    let (old, rest) = holed(&spec.top, std::slice::from_ref(&hole));
    let (new, _) = holed(&spec.top, std::slice::from_ref(&hole));
    let (ni, tag) = some_tag(r, 4000);
    cx.note = format!("{}; large {:?}, tag {}", spec.describe(), (cc_str(&hole.cc), hole.size, hole.ext), summary(&ni));
    write_file(&tag, &new.file)?.map_err(|e| format!("the write to a movie with a large atom failed: {e}"))?;
    let n = check_structure(&old.file, &new.file, false)?;
    let got = mp4ref::items(&new.file, false)?;
    if let Some(d) = diff(&got, &ni) {
        fail!("metadata after the write: {d}");
    }
    cx.count("atoms compared", n);
    cx.count("writes to movies with a large atom", 1);
    let h = fnv(rest, cx.note.as_bytes());
    cx.eval(h, true);
    Ok(())
}

/// Movies whose size is near the limit of a 32-bit size (padding inside is a hole).
fn c03_sparse(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let (items, _) = some_tag(r, 200);
    let ext = r.chance(1, 2);
    let udta_ext = r.chance(1, 3);
    let list: Vec<N> = items.iter().map(|(i, v)| item_plain(i, v)).collect();
    let hdlr = N::leaf(b"hdlr", [&[0u8; 8][..], b"mdirappl", &[0; 9]].concat());
    let meta = N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![hdlr, N::container(b"ilst", list)] };
    let udta = N::Box { cc: *b"udta", ext: udta_ext, pre: vec![], kids: vec![meta] };
    let ub = emit(&[udta]).bytes;
    let mv = emit(&[mvhd_node(0, 1000, 77, &[0; 80])]).bytes;
    let f = emit(&[ftyp_node()]).bytes;
    let slack = r.range(0, 4000) as u64;
    let head = if ext { 16u64 } else { 8 };
    // total moov size
    let total = if ext && r.chance(1, 2) { (1u64 << 32) + 100_000 - slack } else { u32::MAX as u64 - slack };
    let hole_total = total - head - mv.len() as u64 - ub.len() as u64;
    let hole_head = [&1u32.to_be_bytes()[..], b"free", &hole_total.to_be_bytes()].concat();
    let moov_head = if ext {
        [&1u32.to_be_bytes()[..], b"moov", &total.to_be_bytes()].concat()
    } else {
        [&(total as u32).to_be_bytes()[..], b"moov"].concat()
    };
    let parts = vec![
        Part::Bytes(f),
        Part::Bytes([moov_head, mv].concat()),
        Part::Hole(hole_head, hole_total - 16),
        Part::Bytes(ub),
    ];
    let len: u64 = parts.iter().map(part_len).sum();
    let old = sparse(&parts, &[]);
    let new = sparse(&parts, &[]);
    ensure!(old.len == len, "harness: sparse length");
    let (ni, tag) = some_tag(r, 4000);
    cx.note = format!("moov of {total} bytes (64-bit size: {ext}), tag {}", summary(&ni));
    match write_file(&tag, &new.file)? {
        Ok(()) => {
            let n = check_structure(&old.file, &new.file, false)?;
            let got = mp4ref::items(&new.file, false)?;
            if let Some(d) = diff(&got, &ni) {
                fail!("metadata after the write: {d}");
            }
            cx.count("atoms compared", n);
            cx.count("writes to movies of about 4 GiB", 1);
        }
        Err(e) => {
            let grow = needed_growth(&items, true, &ni);
            ensure!(!ext && total as i128 + grow as i128 > u32::MAX as i128, "the write failed although the sizes fit: {e}");
            same_sparse(&old, &new).map_err(|d| format!("the write failed ({e}) but changed the file: {d}"))?;
            cx.count("writes rejected because a 32-bit size would overflow", 1);
        }
    }
    cx.eval(fnv(slack, cx.note.as_bytes()), true);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04

pub const C04: Prop = Prop {
    id: "C04",
    level: "exploration",
    rule: "distinct (file, history of at least two writes)",
    assumptions: &["every write starts with the handle at the beginning of the file or with a new handle"],
    quick: 150000,
    thorough: 4000000,
    single: false,
    exhaustive: false,
    case: c04,
};

fn c04(cx: &mut Ctx) -> Outcome {
    let t = target(&mut cx.r);
    let r = &mut cx.r;
    let steps = r.range(2, 6);
    let mut pool: Vec<(Items, Tag)> = vec![];
    let f = mio::memfile_with(&t.bytes);
    let mut note = format!("target: {}", t.desc);
    let mut h = fnv(0, &t.bytes);
    let mut last = None;
    for k in 0..steps {
        let r = &mut cx.r;
        let max = if r.chance(1, 12) { 70_000 } else { 500 };
        let (items, tag) = match r.below(8) {
            0 if !pool.is_empty() => pool[r.below(pool.len())].clone(),
            1 if !pool.is_empty() => {
                // same size, other content
                let (mut i, _) = pool[r.below(pool.len())].clone();
                for (_, v) in i.iter_mut() {
                    for x in v.iter_mut() {
                        if let V::Png(b) | V::Reserved(b) | V::Jpeg(b) = x {
                            b.iter_mut().for_each(|y| *y ^= 0x55);
                        }
                    }
                }
                let t = build_tag(&i, r);
                (i, t)
            }
            2 if k > 0 => {
                // what is in the file, slightly edited
                let cur = mio::contents(&f);
                let mut tag = read_ok(&cur)?;
                if r.chance(1, 2) {
                    tag.set_title(gen_string(r, 50));
                }
                (tag_items(&tag), tag)
            }
            3 => (vec![], Tag::default()),
            _ => some_tag(r, max),
        };
        note += &format!("\nwrite {k}: {}", summary(&items));
        cx.note = note.clone();
        (&f).seek(SeekFrom::Start(0)).unwrap();
        write_file(&tag, &f)?.map_err(|e| format!("write {k} failed: {e}"))?;
        h = fnv(h, &items_hash(&items).to_le_bytes());
        pool.push((items, tag));
        last = pool.last().cloned();
        if k > 0 && r.chance(1, 2) || k + 1 == steps {
            let now = mio::contents(&f);
            let want = write_ok(&last.as_ref().unwrap().1, &t.bytes)?;
            if let Some(d) = first_diff(&now, &want) {
                cx.artifact("original", &t.bytes);
                cx.artifact("after the history", &now);
                cx.artifact("after the last write alone", &want);
                fail!("after {} writes the file differs from writing only the last tag: {d}", k + 1);
            }
            cx.count("histories compared", 1);
        }
    }
    // reading and rewriting changes nothing
    let now = mio::contents(&f);
    let tag = read_ok(&now)?;
    let again = write_ok(&tag, &now)?;
    if let Some(d) = first_diff(&again, &now) {
        cx.artifact("before", &now);
        cx.artifact("after", &again);
        fail!("writing the tag just read changed the file: {d}");
    }
    // A, B, A through freshly opened files
    let (a, b) = (&pool[0].1, &last.as_ref().unwrap().1);
    let fa = write_ok(a, &t.bytes)?;
    let faba = write_ok(a, &write_ok(b, &fa)?)?;
    if let Some(d) = first_diff(&faba, &fa) {
        fail!("writing A, B, A differs from writing A: {d}");
    }
    cx.count("A-B-A compared", 1);
    cx.count("read-write rounds compared", 1);
    cx.eval(h, true);
    cx.sample(|| note.replace('\n', "; ").chars().take(400).collect());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09

pub const C09: Prop = Prop {
    id: "C09",
    level: "exploration",
    rule: "distinct generated files with at least one item or one atom that must be ignored",
    assumptions: &[
        "the file type is UTF-8 text, at most one moov/udta/meta/ilst per level, no atom of size 0 (extends to the end of file)",
        "freeform items carry both mean and name",
    ],
    quick: 90000,
    thorough: 2400000,
    single: false,
    exhaustive: false,
    case: c09,
};

/// Ignorable atoms of up to some TiB inside the movie.
fn c09_large(cx: &mut Ctx) -> Outcome {
    use super::cost::{dig_inside, holed};
    let r = &mut cx.r;
    let c = Cfg::random(r);
    let mut spec = gen(r, Cfg { scale: None, ..c });
    let mut holes = vec![];
    for k in 0..r.range(1, 2) {
        holes.extend(dig_inside(r, &mut spec.top, 900 + k, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"meta", b"ilst"]));
    }
    let (s, rest) = holed(&spec.top, &holes);
    cx.note = format!("{}; large {:?}", spec.describe(), holes.iter().map(|h| (cc_str(&h.cc), h.size, h.ext)).collect::<Vec<_>>());
    let tag = call("read_from", || Tag::read_from(&mut &s.file))?.map_err(|e| format!("reading a conforming file with large atoms in the movie failed: {e}"))?;
    if let Some(d) = diff(&tag_items(&tag), &spec.model()) {
        fail!("the tag read differs from the file's item list: {d}");
    }
    ensure!(tag.filetype() == spec.ftyp, "file type {:?} instead of {:?}", tag.filetype(), spec.ftyp);
    spec.audio.check(tag.audio_info())?;
    cx.count("files with large atoms in the movie", 1);
    cx.max("file length", s.len);
    let h = fnv(rest, cx.note.as_bytes());
    cx.eval(h, true);
    Ok(())
}

fn c09(cx: &mut Ctx) -> Outcome {
    if cx.idx % 16 == 9 {
        return c09_large(cx);
    }
    let r = &mut cx.r;
    let mut c = Cfg::random(r);
    if r.chance(1, 30) {
        c.tag = LARGE;
    }
    if r.chance(1, 2) {
        c.decoys = true;
        c.padding = true;
    }
    let spec = gen(r, c);
    let e = emit(&spec.top);
    cx.note = spec.describe();
    cx.artifact("file", &e.bytes);
    let tag = read_ok(&e.bytes)?;
    let want = spec.model();
    if let Some(d) = diff(&tag_items(&tag), &want) {
        fail!("the tag read differs from the file's item list: {d}");
    }
    ensure!(tag.filetype() == spec.ftyp, "file type {:?} instead of {:?}", tag.filetype(), spec.ftyp);
    ensure!(tag.is_empty() == want.is_empty(), "is_empty() = {} with {} items", tag.is_empty(), want.len());
    // the harness's own reader agrees with the generator
    let indep = merge(&mp4ref::items(&e.bytes[..], false).map_err(|e| format!("harness: reference reader: {e}"))?);
    ensure!(indep == want, "harness: the reference reader and the generator disagree");
    count_kinds(cx, &want);
    cx.count("items decoded", want.len() as u64);
    cx.count("repeated items merged", (spec.items.len() - want.len()) as u64);
    cx.count("files with 64-bit sizes", (c.ext > 0) as u64);
    cx.count("files with decoys", c.decoys as u64);
    cx.count("files with padding", c.padding as u64);
    cx.count("files without items", want.is_empty() as u64);
    cx.eval(fnv(0, &e.bytes), !want.is_empty() || c.padding);
    cx.sample(|| spec.describe());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C10

pub const C10: Prop = Prop {
    id: "C10",
    level: "exploration",
    rule: "distinct generated movies (durations, descriptors, tracks) whose audio information was compared; every pair of rate index (but the escape 15) and channel index is included",
    assumptions: &[
        "a sample rate given explicitly (index 15) has no indexed value and reads as absent",
        "a time scale of 0 is not a conforming movie header",
    ],
    quick: 900000,
    thorough: 24000000,
    single: false,
    exhaustive: false,
    case: c10,
};

fn c10(cx: &mut Ctx) -> Outcome {
    let i = cx.idx;
    if i < 16 * 16 {
        // every index pair, several encodings each
        for _ in 0..6 {
            let r = &mut cx.r;
            let (n, mut audio) = mp4a(r, 10, Some((i / 16) as u8), Some((i % 16) as u8));
            let (d, ts, ver) = duration(r, i);
            audio.duration = Some((d, ts));
            c10_movie(cx, vec![n], audio, ver, d, ts)?;
            cx.count("forced index pairs", 1);
        }
        return Ok(());
    }
    c10_random(cx)
}

fn duration(r: &mut Rng, i: u64) -> (u64, u32, u8) {
    let ver = (i % 2) as u8;
    let ts = match r.below(4) {
        0 => *r.pick(&[1u32, 2, 3, 7, 600, 1000, 44100, 48000, 90000, 999_999_999, 1_000_000_000, 1_000_000_001, u32::MAX - 1, u32::MAX]),
        1 => r.u32().max(1),
        _ => (dict::int(r) as u32).max(1),
    };
    let mut d = match r.below(5) {
        0 => u64::MAX - r.below(3) as u64,
        1 => r.u64() >> r.below(64),
        2 => (ts as u64).wrapping_mul(dict::int(r)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        _ => dict::int(r),
    };
    if ver == 0 {
        d &= 0xffff_ffff;
        if r.chance(1, 10) {
            d = 0xffff_ffff;
        }
    }
    (d, ts, ver)
}

fn c10_movie(cx: &mut Ctx, entries: Vec<N>, audio: Audio, ver: u8, d: u64, ts: u32) -> Outcome {
    let r = &mut cx.r;
    let rest = r.below(90);
    let mut kids = vec![];
    let mut tracks: Vec<Option<N>> = entries.into_iter().map(Some).collect();
    while r.chance(1, 8) {
        // a track without MPEG-4 audio
        let at = r.below(tracks.len() + 1);
        tracks.insert(at, None);
    }
    for n in tracks {
        let mut pre = vec![0];
        pre.extend(full_flags(r));
        pre.extend_from_slice(&1u32.to_be_bytes());
        let sound = n.is_some();
        let mut kinds: Vec<N> = n.into_iter().collect();
        while r.chance(1, 8) {
            // another sample description which is not MPEG-4 audio
            let cc = *r.pick(&[b"mp4v", b"alac", b"enca", b"mp4 ", b"ec-3"]);
            let l = r.below(60);
            let x = N::leaf(cc, r.bytes(l));
            let at = r.below(kinds.len() + 1);
            kinds.insert(at, x);
        }
        let stsd = N::Box { cc: *b"stsd", ext: r.chance(1, 10), pre, kids: kinds };
        let stbl = N::container(b"stbl", vec![stsd]);
        let mut trak = vec![];
        let mut mdia = vec![];
        if r.chance(1, 3) {
            // headers with durations of their own
            trak.push(N::leaf(b"tkhd", header(r, &[(0, 84), (1, 96)])));
            mdia.push(N::leaf(b"mdhd", header(r, &[(0, 24), (1, 36)])));
            let mut h = vec![0; 8];
            h.extend_from_slice(if sound { b"soun" } else { *r.pick(&[b"vide", b"text", b"soun"]) });
            h.extend_from_slice(&[0; 13]);
            mdia.push(N::leaf(b"hdlr", h));
        }
        mdia.push(N::container(b"minf", vec![stbl]));
        trak.push(N::container(b"mdia", mdia));
        kids.push(N::container(b"trak", trak));
    }
    let at = r.below(kids.len() + 1);
    let tail = r.bytes(rest);
    let mut mvhd = mvhd_node(ver, ts, d, &tail);
    vary_header(r, &mut mvhd);
    kids.insert(at, mvhd);
    if r.chance(1, 8) {
        let mehd = N::leaf(b"mehd", header(r, &[(0, 8), (1, 12)]));
        let at = r.below(kids.len() + 1);
        kids.insert(at, N::container(b"mvex", vec![mehd]));
    }
    let top = vec![ftyp_node(), N::container(b"moov", kids)];
    let b = emit(&top).bytes;
    cx.note = format!("{audio:?}");
    cx.artifacts.clear();
    cx.artifact("file", &b);
    let t = read_ok(&b)?;
    audio.check(t.audio_info())?;
    check_getters(&t)?;
    cx.eval(fnv(0, &b), true);
    Ok(())
}

fn check_getters(t: &Tag) -> Outcome {
    let a = t.audio_info();
    ensure!(
        t.duration() == a.duration && t.channel_config() == a.channel_config && t.sample_rate() == a.sample_rate
            && t.avg_bitrate() == a.avg_bitrate && t.max_bitrate() == a.max_bitrate,
        "the individual getters disagree with the audio information {a:?}"
    );
    Ok(())
}

fn c10_random(cx: &mut Ctx) -> Outcome {
    let i = cx.idx;
    let r = &mut cx.r;
    match r.below(3) {
        0 => {
            // several tracks, the first audio one decides
            let n = r.range(1, 4);
            let mut audio = Audio::default();
            let mut found = false;
            let mut es = vec![];
            for _ in 0..n {
                if r.chance(1, 4) {
                    let l = r.below(90);
                    let cc = *r.pick(&[b"mp4v", b"tx3g", b"alac", b"avc1", b"Mp4a", b"mp4b"]);
                    es.push(N::leaf(cc, r.bytes(l)));
                } else {
                    let (x, a) = mp4a(r, 10, None, None);
                    if !found {
                        audio = a;
                        found = true;
                    }
                    es.push(x);
                }
            }
            let (d, ts, ver) = duration(r, i);
            audio.duration = Some((d, ts));
            cx.count("multi-track movies", 1);
            c10_movie(cx, es, audio, ver, d, ts)
        }
        1 => {
            let (d, ts, ver) = duration(r, i);
            let audio = Audio { duration: Some((d, ts)), ..Default::default() };
            cx.count("durations", 1);
            c10_movie(cx, vec![], audio, ver, d, ts)
        }
        _ => {
            let c = Cfg { items: false, ..Cfg::random(r) };
            let spec = gen(r, c);
            let b = emit(&spec.top).bytes;
            cx.note = spec.describe();
            cx.artifact("file", &b);
            let t = read_ok(&b)?;
            spec.audio.check(t.audio_info())?;
            check_getters(&t)?;
            cx.count("full files", 1);
            cx.count("files without audio track", spec.audio.max.is_none() as u64);
            cx.count("files without duration", spec.audio.duration.is_none() as u64);
            cx.eval(fnv(0, &b), spec.audio != Audio::default());
            cx.sample(|| format!("{}: {:?}", spec.describe(), spec.audio));
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------ C11

pub const C11: Prop = Prop {
    id: "C11",
    level: "exploration",
    rule: "distinct tags holding at least one value",
    assumptions: &["the identifier `free` is reserved for padding and outside the claim"],
    quick: 36000,
    thorough: 960000,
    single: false,
    exhaustive: false,
    case: c11,
};

/// one at a time: these take memory
static HUGE: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// A value of `n` bytes, all zero but for a few marks; zero pages take no memory.
fn huge_value(kind: usize, n: usize, mark: u8) -> Data {
    let mut b = vec![0u8; n];
    for k in [0, n / 3, n.saturating_sub(1)] {
        if k < n {
            b[k] = mark;
        }
    }
    match kind {
        0 => Data::Reserved(b),
        1 => Data::Utf8(String::from_utf8(b).unwrap()),
        2 => Data::Jpeg(b),
        3 => Data::BeSigned(b),
        4 => Data::Bmp(b),
        _ => Data::Png(b),
    }
}

const HUGE_CODES: [u64; 6] = [0, 1, 13, 21, 27, 14];

/// Checks a list of huge values by its structure and the marks inside the values.
fn check_huge<S: Src + ?Sized>(s: &S, items: &[(Id, Vec<(usize, usize, u8)>)]) -> Outcome {
    let t = mp4ref::tree(s, false).map_err(|e| format!("malformed: {e}"))?;
    let l = t.ilst.ok_or("no metadata list")?;
    let kids: Vec<_> = mp4ref::atoms(s, l.body(), l.end(), false)
        .map_err(|e| format!("the metadata list is malformed: {e}"))?
        .into_iter()
        .filter(|a| &a.cc != b"free")
        .collect();
    ensure!(kids.len() == items.len(), "{} items instead of {}", kids.len(), items.len());
    for (a, (id, vals)) in kids.iter().zip(items) {
        let want = match id {
            Id::F(c) => *c,
            _ => *b"----",
        };
        ensure!(a.cc == want, "item {} instead of {}", a.name(), id.show());
        let parts = mp4ref::atoms(s, a.body(), a.end(), false).map_err(|e| format!("item {} is malformed: {e}", a.name()))?;
        if let Id::S(m, n) = id {
            for (cc, t) in [(b"mean", m), (b"name", n)] {
                let p = mp4ref::find(&parts, cc).ok_or("an identifier is incomplete")?;
                ensure!(s.get(p.body() + 4, (p.len - p.head - 4) as usize)? == t.as_bytes(), "identifier of {}", id.show());
            }
        }
        let data: Vec<_> = parts.iter().filter(|p| &p.cc == b"data").collect();
        ensure!(data.len() == vals.len(), "item {} has {} values instead of {}", id.show(), data.len(), vals.len());
        for (d, (kind, n, mark)) in data.iter().zip(vals) {
            ensure!(d.len - d.head == *n as u64 + 8, "a value of {n} bytes is stored in {} bytes", d.len - d.head);
            let code = mp4ref::be(&s.get(d.body(), 4)?);
            ensure!(code == HUGE_CODES[*kind], "type code {code}");
            for k in [0, n / 3, n.saturating_sub(1)] {
                ensure!(*n == 0 || s.get(d.body() + 8 + k as u64, 1)? == [*mark], "byte {k} of a value of {n} bytes changed");
            }
        }
    }
    Ok(())
}

type HugeItems = Vec<(Id, Vec<(usize, usize, u8)>)>;

/// Lists, items and values around and beyond 4 GiB.
fn huge_items(r: &mut Rng, style: u64) -> HugeItems {
    let total = (1u64 << 32) as i64 + r.range(0, 300) as i64 - 270;
    let id = |r: &mut Rng, k: u8| if r.chance(1, 2) { Id::F([b'h', b'u', b'g', k]) } else { Id::S("huge".into(), format!("{k}")) };
    let mut items: HugeItems = vec![];
    match style {
        // a list around 4 GiB
        0 => {
            for k in 0..4u8 {
                let n = total / 4 - 16 - 8 - (if k == 0 { 30 } else { 0 });
                items.push((id(r, b'0' + k), vec![(r.below(6), n as usize, k + 1)]));
            }
        }
        // well beyond
        1 => {
            for k in 0..5u8 {
                items.push((id(r, b'0' + k), vec![(r.below(6), (1 << 30) + r.below(1000), k + 1)]));
            }
        }
        // an item around and beyond 4 GiB
        2 => {
            let n = if r.chance(1, 2) { total / 4 - 16 } else { (1 << 30) + 7 };
            items.push((id(r, b'i'), (0..4).map(|k| (r.below(6), n as usize, k + 1)).collect()));
        }
        // a value around and beyond 4 GiB
        _ => {
            let n = if r.chance(1, 2) { total } else { (1 << 32) + 12345 };
            items.push((id(r, b'v'), vec![(r.below(6), n as usize, 9)]));
        }
    }
    items.insert(0, (Id::F(*b"\xa9nam"), vec![(1, 3, b'a')]));
    items.push((Id::F(*b"\xa9ART"), vec![(1, 5, b'b'), (0, 2, 7)]));
    items
}

fn huge_tag(items: &HugeItems) -> Tag {
    let mut tag = Tag::default();
    for (i, v) in items {
        tag.set_all_data(i.data_ident(), v.iter().map(|(k, n, m)| huge_value(*k, *n, *m)).collect::<Vec<_>>());
    }
    tag
}

/// Writes more than 4 GiB of metadata into a file.
fn c01_huge(cx: &mut Ctx, which: u64) -> Outcome {
    if std::env::var_os("MON_STAGE").is_some() {
        return Ok(());
    }
    let Ok(_one) = HUGE.try_lock() else { return Ok(()) };
    let r = &mut cx.r;
    let items = huge_items(r, 3 - which % 4);
    let present = r.below(5);
    let wide_heads = which % 4 != 2;
    let mut c = Cfg::small(r);
    c.ext = if wide_heads { 100 } else { 0 };
    c.padding = false;
    c.decoys = false;
    c.max_traks = 1;
    let old = gen_items(r, c.tag);
    let mut spec = gen_with(r, c, old, true);
    let mut narrow = present == 0 && !wide_heads;
    for top in spec.top.iter_mut() {
        visit(top, &mut |x| match x {
            // some of the levels are missing
            N::Box { cc, kids, .. } if cc == b"moov" => {
                if present == 0 {
                    kids.retain(|k| &k.cc() != b"udta");
                }
            }
            N::Box { cc, kids, .. } if cc == b"udta" && present == 1 => kids.clear(),
            N::Box { cc, kids, .. } if cc == b"meta" && present == 2 => kids.retain(|k| &k.cc() != b"ilst"),
            N::Table { wide, entries, .. } if !*wide && !entries.is_empty() => narrow = true,
            _ => {}
        });
    }
    let bytes = emit(&spec.top).bytes;
    cx.note = format!("{} <- {:?}", spec.describe(), items);
    let f = mio::memfile_with(&bytes);
    let tag = huge_tag(&items);
    match write_file(&tag, &f)? {
        Ok(()) => {
            ensure!(wide_heads, "more than 4 GiB were written into a movie with a 32-bit size");
            check_huge(&f, &items).map_err(|e| format!("after writing more than 4 GiB: {e}"))?;
            check_media(&bytes[..], &f, false)?;
            check_structure(&bytes[..], &f, false)?;
            cx.count("files written with about 4 GiB of metadata and more", 1);
        }
        Err(e) => {
            ensure!(!wide_heads || narrow, "writing more than 4 GiB failed: {e}");
            let now = mio::contents(&f);
            if let Some(d) = first_diff(&bytes, &now) {
                fail!("the write failed ({e}) but changed the file: {d}");
            }
            cx.count("writes of about 4 GiB rejected for lack of room in a 32-bit field", 1);
        }
    }
    cx.eval(fnv(which, cx.note.as_bytes()), true);
    Ok(())
}

fn c11_huge(cx: &mut Ctx, which: u64) -> Outcome {
    if std::env::var_os("MON_STAGE").is_some() {
        return Ok(());
    }
    let Ok(_one) = HUGE.try_lock() else { return Ok(()) };
    let items = huge_items(&mut cx.r, which % 4);
    cx.note = format!("{:?}", items);
    let tag = huge_tag(&items);
    let mut out = crate::huge::Sparse::default();
    call("dump_to", || tag.dump_to(&mut out))?.map_err(|e| format!("dumping to memory failed: {e}"))?;
    check_huge(&out, &items).map_err(|e| format!("dump of a tag of {} bytes: {e}", out.len()))?;
    cx.count("dumps of about 4 GiB and more", 1);
    cx.max("dump length", out.len());
    ensure!(out.stored() < 1 << 20, "harness: sparse dump");
    if cx.thorough || which == 1 {
        // reading it back
        drop(tag);
        out.seek(SeekFrom::Start(0)).unwrap();
        let back = call("read_from", || Tag::read_from(&mut out))?.map_err(|e| format!("reading the dump failed: {e}"))?;
        let mut got = back.data();
        for (i, v) in &items {
            for (k, n, m) in v {
                let (gi, g) = got.next().ok_or("the tag read holds too few values")?;
                let want = huge_value(*k, *n, *m);
                ensure!(*gi == i.data_ident() && *g == want, "the value of {} read back differs (length {} instead of {n})", i.show(), g.len());
            }
        }
        ensure!(got.next().is_none(), "the tag read holds too many values");
        cx.count("dumps of about 4 GiB and more read back", 1);
    }
    cx.eval(fnv(which, cx.note.as_bytes()), true);
    Ok(())
}

fn c11(cx: &mut Ctx) -> Outcome {
    if cx.idx % 4000 == 3999 {
        return c11_huge(cx, cx.idx / 4000);
    }
    let items = c01_items(cx);
    let tag = build_tag(&items, &mut cx.r);
    cx.note = summary(&items);
    let d = dump(&tag)?;
    cx.artifact("dump", &d);
    let t = mp4ref::tree(&d[..], false).map_err(|e| format!("the dump is malformed: {e}"))?;
    ensure!(t.top.first().map(|a| a.cc) == Some(*b"ftyp"), "the dump does not start with a file type");
    ensure!(t.ilst.is_some(), "the dump holds no metadata list");
    let got = mp4ref::items(&d[..], false).map_err(|e| format!("the independent reader rejects the dump: {e}"))?;
    if let Some(x) = diff(&got, &items) {
        fail!("the independent reader decodes something else: {x}");
    }
    let back = call("read_from", || Tag::read_from(&mut Cursor::new(&d)))?.map_err(|e| format!("reading the dump failed: {e}"))?;
    if let Some(x) = diff(&tag_items(&back), &items) {
        fail!("reading the dump gives something else: {x}");
    }
    let other = build_tag(&items, &mut cx.r);
    ensure!(other == tag, "tags built from the same content are unequal");
    let d2 = dump(&other)?;
    ensure!(d2 == d, "equal tags dump to different bytes: {}", first_diff(&d, &d2).unwrap());
    let d3 = dump(&tag.clone())?;
    ensure!(d3 == d, "a clone dumps to different bytes");
    let d4 = dump(&back)?;
    ensure!(d4 == d, "the tag read from the dump dumps to different bytes: {}", first_diff(&d, &d4).unwrap());
    // other writers
    let f = mio::memfile();
    call("dump_to a file", || tag.dump_to(&mut &f))?.map_err(|e| format!("dumping to a file failed: {e}"))?;
    ensure!(mio::contents(&f) == d, "dumping to a file gives different bytes");
    count_kinds(cx, &items);
    cx.count("dumps compared", 4);
    cx.max("dump length", d.len() as u64);
    cx.eval(items_hash(&items), !items.is_empty());
    cx.sample(|| summary(&items));
    Ok(())
}
