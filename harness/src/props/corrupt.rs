//! C05 (reading arbitrary bytes), C06 (rejected writes), C18 (documented rejections).

use super::common::*;

// ---------------------------------------------------------------- corruptions

const VALS: &[u64] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 15, 16, 17, 24, 0x1c, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x1_0000, 0xff_ffff, 0x7fff_ffff,
    0x8000_0000, 0xffff_fff7, 0xffff_fff8, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_fff0, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0x8000_0000_0000_0008, 0xffff_ffff_ffff_fff0, 0xffff_ffff_ffff_ffff,
];

pub fn set_field(b: &mut [u8], f: &Field, v: u64) {
    let w = f.width;
    let be = v.to_be_bytes();
    if f.pos + w <= b.len() {
        b[f.pos..f.pos + w].copy_from_slice(&be[8 - w..]);
    }
}

pub fn get_field(b: &[u8], f: &Field) -> u64 {
    if f.pos + f.width > b.len() {
        return 0;
    }
    mp4ref::be(&b[f.pos..f.pos + f.width])
}

pub fn values_for(r: &mut Rng, f: &Field, cur: u64, all: bool) -> Vec<u64> {
    let mask = if f.width >= 8 { u64::MAX } else { (1u64 << (8 * f.width)) - 1 };
    let mut v: Vec<u64> = vec![];
    let mut near: Vec<u64> = [1u64, 4, 8, 12, 16].iter().flat_map(|d| [cur.wrapping_add(*d), cur.wrapping_sub(*d)]).collect();
    near.extend([cur / 2, cur.wrapping_mul(2)]);
    if f.kind == Kind::Cc {
        for _ in 0..if all { 4 } else { 1 } {
            v.push(u32::from_be_bytes(*r.pick(&dict::dict().fourccs)) as u64);
        }
        return v;
    }
    if all {
        v.extend(VALS.iter().filter(|x| **x <= mask));
        v.extend(near.iter().map(|x| x & mask));
        v.push(dict::int(r) & mask);
    } else {
        v.push(*r.pick(VALS) & mask);
        v.push(*r.pick(&near) & mask);
        v.push(dict::int(r) & mask);
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| *x != cur);
    v
}

/// Changes bytes that are not sizes, names or counts: one, some or all of them.
pub fn scramble(r: &mut Rng, b: &mut [u8], fields: &[Field]) {
    let mut keep = vec![false; b.len()];
    for f in fields.iter().filter(|f| !matches!(f.kind, Kind::Scalar)) {
        if r.chance(1, 64) {
            continue;
        }
        for k in f.pos..(f.pos + f.width).min(b.len()) {
            keep[k] = true;
        }
    }
    let ks: Vec<usize> = (0..b.len()).filter(|k| !keep[*k]).collect();
    if ks.is_empty() {
        return;
    }
    let share = *r.pick(&[0, 2, 10, 50, 100]);
    for &k in &ks {
        if r.chance(share, 100) {
            b[k] = if r.chance(1, 2) { *r.pick(&[0u8, 1, 4, 5, 8, 0x10, 0x7f, 0x80, 0xd8, 0xfe, 0xff]) } else { r.u8() };
        }
    }
    for _ in 0..r.range(1, 3) {
        let k = *r.pick(&ks);
        b[k] = r.u8();
    }
}

pub fn random_mutation(r: &mut Rng, base: &[u8], fields: &[Field], other: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    let n = match r.below(4) {
        0 => 1,
        1 => 2,
        _ => r.range(1, 6),
    };
    for _ in 0..n {
        if b.is_empty() {
            b = r.bytes(9);
        }
        match r.below(12) {
            0 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
            }
            1 | 2 | 3 if !fields.is_empty() => {
                let f = r.pick(fields).clone();
                let cur = get_field(&b, &f);
                let vs = values_for(r, &f, cur, false);
                if let Some(v) = vs.first() {
                    set_field(&mut b, &f, *v);
                }
            }
            4 => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
            5 => {
                let k = r.below(b.len());
                b[k] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 3, 4, 5]);
            }
            6 => {
                // delete a stretch
                let k = r.below(b.len());
                let l = r.range(1, 16).min(b.len() - k);
                b.drain(k..k + l);
            }
            7 => {
                let k = r.below(b.len() + 1);
                let l = r.range(1, 16);
                let ins = r.bytes(l);
                b.splice(k..k, ins);
            }
            8 => {
                // copy a stretch elsewhere
                let k = r.below(b.len());
                let l = r.range(1, 64).min(b.len() - k);
                let piece = b[k..k + l].to_vec();
                let at = r.below(b.len() + 1);
                b.splice(at..at, piece);
            }
            9 if !other.is_empty() => {
                let k = r.below(b.len());
                let o = r.below(other.len());
                b.truncate(k);
                b.extend_from_slice(&other[o..]);
            }
            10 => {
                // a plausible head somewhere
                let k = r.below(b.len());
                let len = *r.pick(VALS);
                let mut h = (len as u32).to_be_bytes().to_vec();
                h.extend_from_slice(r.pick(&dict::dict().fourccs));
                for (i, x) in h.iter().enumerate() {
                    if k + i < b.len() {
                        b[k + i] = *x;
                    }
                }
            }
            _ => {
                let k = r.below(b.len());
                let v = dict::int(r).to_be_bytes();
                let w = *r.pick(&[2usize, 4, 8]);
                for i in 0..w {
                    if k + i < b.len() {
                        b[k + i] = v[8 - w + i];
                    }
                }
            }
        }
    }
    b
}

// ------------------------------------------------------------------------------------------ C05

pub const C05: Prop = Prop {
    id: "C05",
    level: "exploration",
    rule: "distinct byte strings that are not a conforming file (hash of the bytes)",
    assumptions: &[
        "bounds used: peak allocation 64 x input + 256 KiB, reader operations 16 x input + 1000, 60 s hang limit",
        "undefined behaviour: the crate has no unsafe code; AddressSanitizer (150 cases and more) and Miri (some hundred small inputs) watch for what a change may bring in",
    ],
    quick: 6000,
    thorough: 240000,
    single: false,
    exhaustive: false,
    case: c05,
};

struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// Uses everything the tag offers for looking at it.
pub fn use_tag(t: &Tag) -> Res<u64> {
    use std::fmt::Write as _;
    call("using the tag read", || {
        let mut s = Sink(0);
        write!(s, "{}", t).map_err(|_| "Display failed".to_string())?;
        let mut n = s.0;
        for (i, d) in t.data() {
            n += i.to_string().len() as u64 + d.len();
            let _ = (d.bytes(), d.string(), d.image(), d.is_empty());
        }
        n += t.bytes().count() as u64 + t.strings().count() as u64 + t.images().count() as u64;
        let _ = (t.album(), t.artist(), t.album_artist(), t.title(), t.year(), t.isrc(), t.lyrics(), t.lyricist(), t.bpm());
        let _ = (t.movement_count(), t.movement_index(), t.tv_episode(), t.tv_season(), t.compilation(), t.gapless_playback());
        let _ = (t.show_movement(), t.media_type(), t.advisory_rating(), t.track(), t.disc(), t.track_number(), t.total_tracks());
        let _ = (t.disc_number(), t.total_discs(), t.genre(), t.genres().count(), t.standard_genres().count(), t.artwork().is_some());
        let _ = (t.artworks().count(), t.audio_info(), t.filetype(), t.duration(), t.is_empty());
        Ok::<u64, String>(n)
    })?
}

fn hostile_read(cx: &mut Ctx, b: &[u8], what: &str) -> Outcome {
    let len = b.len() as u64;
    let mem = 64 * len + (256 << 10);
    let ops = 16 * len + 1000;
    let mut s = Stream::new(Cursor::new(b));
    s.limit = ops;
    let before = std::time::Instant::now();
    let (res, use_) = alloc::measure(4 * mem + (64 << 20), || call("read_from", || Tag::read_from(&mut s)));
    let bad = |cx: &mut Ctx, m: String| {
        cx.artifacts.clear();
        cx.artifact("input", b);
        cx.note = what.to_string();
        Err(format!("{m} ({what}, input of {len} bytes)"))
    };
    let res = match res {
        Ok(r) => r,
        Err(e) => return bad(cx, e),
    };
    if s.overrun {
        return bad(cx, format!("more than {ops} reader operations"));
    }
    if use_.peak > mem {
        return bad(cx, format!("peak allocation of {} bytes", use_.peak));
    }
    if before.elapsed().as_secs() > 45 {
        return bad(cx, format!("took {:?}", before.elapsed()));
    }
    cx.max("peak allocation per input byte (x100, inputs over 4 KiB)", if len > 4096 { use_.peak * 100 / len } else { 0 });
    cx.max("reader operations per input byte (x100, inputs over 200 B)", if len > 200 { s.ops * 100 / len } else { 0 });
    cx.max("allocation beyond 64 x input", use_.peak.saturating_sub(64 * len));
    match res {
        Ok(t) => {
            cx.count("inputs read as a tag", 1);
            match use_tag(&t) {
                Ok(_) => {}
                Err(e) => return bad(cx, e),
            }
            if cx.evaluations % 8 == 0 {
                // a tag is a tag: it can be cloned, compared and dumped
                let c = t.clone();
                if c != t {
                    return bad(cx, "a clone is unequal".into());
                }
                match call("dump_to", || t.dump_to(&mut std::io::sink())) {
                    Ok(_) => {}
                    Err(e) => return bad(cx, e),
                }
            }
        }
        Err(e) => {
            let k = kind(&e);
            let k = k.split('(').next().unwrap().to_string();
            cx.count(&format!("rejected: {k}"), 1);
            let _ = call("formatting the error", || format!("{e} {e:?}"))?;
        }
    }
    cx.eval(fnv(0, b), true);
    Ok(())
}

/// the interpreter is some thousand times slower
const fn few(n: usize) -> usize {
    if cfg!(miri) {
        n / 30 + 1
    } else {
        n
    }
}

fn c05(cx: &mut Ctx) -> Outcome {
    let i = cx.idx;
    if i == 0 {
        return c05_work(cx);
    }
    if (2..2 + NEST.len() as u64).contains(&i) {
        return c05_nesting(cx, NEST[i as usize - 2], (i - 2) as usize);
    }
    if (16..16 + NEST.len() as u64).contains(&i) {
        return flat(cx, i as usize - 16, false);
    }
    if i == 1 {
        for n in 0..40usize {
            for k in 0..8 {
                let b = match k {
                    0 => vec![0; n],
                    1 => vec![0xff; n],
                    2 => [&b"\0\0\0\x10ftypM4A \0\0\0\0"[..], &vec![0; n]].concat(),
                    3 => [&b"\0\0\0\x10ftypM4A \0\0\0\0"[..], &vec![0xff; n]].concat(),
                    _ => cx.r.bytes(n),
                };
                hostile_read(cx, &b, "tiny input")?;
            }
        }
        return Ok(());
    }
    let r = &mut cx.r;
    if i % 16 == 5 {
        // the example files, mutated
        let s = samples();
        if !s.is_empty() {
            for _ in 0..few(12) {
                let r = &mut cx.r;
                let (_, b) = r.pick(s);
                // keep the interesting head and tail, drop most of the media
                let mut b = b.clone();
                if b.len() > 40_000 && r.chance(3, 4) {
                    let k = r.below(b.len());
                    b.truncate(k.max(9000));
                }
                let m = random_mutation(r, &b, &[], &[]);
                hostile_read(cx, &m, "mutated example file")?;
            }
        }
        return Ok(());
    }
    if i % 16 == 6 {
        for _ in 0..few(200) {
            let r = &mut cx.r;
            let l = dict::len(r, 3000);
            let mut b = r.bytes(l);
            if r.chance(1, 2) {
                b = [&b"\0\0\0\x10ftypM4A \0\0\0\0"[..], &b].concat();
            }
            hostile_read(cx, &b, "random bytes")?;
        }
        return Ok(());
    }
    let mut c = if i % 16 == 7 && !cfg!(miri) { Cfg::random(r) } else { Cfg::small(r) };
    c.scale = None;
    if i % 32 == 8 && !cfg!(miri) {
        return c05_long(cx);
    }
    let spec = gen(r, c);
    let e = emit(&spec.top);
    let o = { let c = Cfg::small(r); emit(&gen(r, c).top).bytes };
    cx.note = spec.describe();
    // every truncation (a sample of them for longer files)
    let n = e.bytes.len();
    let step = (n / few(300)).max(1);
    let mut k = cx.r.below(step);
    while k < n {
        hostile_read(cx, &e.bytes[..k], "truncation")?;
        cx.count("truncations", 1);
        k += step;
    }
    // every field with boundary values
    let budget = few(if cx.thorough { 3000 } else { 1200 });
    let mut done = 0;
    let mut order: Vec<usize> = (0..e.fields.len()).collect();
    cx.r.shuffle(&mut order);
    for fi in order {
        let f = &e.fields[fi];
        let cur = get_field(&e.bytes, f);
        for v in values_for(&mut cx.r, f, cur, true) {
            let mut b = e.bytes.clone();
            set_field(&mut b, f, v);
            if cx.r.chance(1, 6) {
                let k = f.pos + cx.r.below(b.len() - f.pos + 1);
                b.truncate(k);
            }
            hostile_read(cx, &b, &format!("{} {:?} set to {v:#x}", f.path, f.kind))?;
            cx.count("field corruptions", 1);
            done += 1;
        }
        if done > budget {
            break;
        }
    }
    // two fields at once
    for _ in 0..few(150) {
        let mut b = e.bytes.clone();
        for _ in 0..2 {
            let f = cx.r.pick(&e.fields).clone();
            let cur = get_field(&b, &f);
            let vs = values_for(&mut cx.r, &f, cur, false);
            if !vs.is_empty() {
                let v = *cx.r.pick(&vs);
                set_field(&mut b, &f, v);
            }
        }
        hostile_read(cx, &b, "two fields")?;
        cx.count("double field corruptions", 1);
    }
    for _ in 0..few(250) {
        let b = random_mutation(&mut cx.r, &e.bytes, &e.fields, &o);
        hostile_read(cx, &b, "random mutation")?;
        cx.count("random mutations", 1);
    }
    for _ in 0..few(150) {
        let mut b = e.bytes.clone();
        scramble(&mut cx.r, &mut b, &e.fields);
        hostile_read(cx, &b, "scrambled content")?;
        cx.count("scrambled contents", 1);
    }
    // structural: nodes moved, duplicated, dropped
    for _ in 0..few(40) {
        let mut top = spec.top.clone();
        restructure(&mut cx.r, &mut top);
        let b = emit(&top).bytes;
        hostile_read(cx, &b, "restructured")?;
        cx.count("restructured files", 1);
    }
    cx.sample(|| spec.describe());
    Ok(())
}

/// Files that are large in one respect and hold long values, whole, cut and with changed fields.
fn c05_long(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut c = Cfg::small(r);
    let items = if r.chance(1, 2) {
        c.scale = Some(mp4gen::Scale::pick(r));
        gen_items(r, SMALL)
    } else {
        // long texts of characters of every width, and long values of every field
        let mut it: Items = vec![];
        for _ in 0..r.range(1, 6) {
            let id = if r.chance(3, 4) { super::fields::field_id(r) } else { gen_id(r) };
            let l = *r.pick(model::BIG_LENS) % 20_011;
            let v = match r.below(4) {
                0 => val_of_kind(r.below(7), l, r),
                1 => V::Utf16(gen_string_len(r, l)),
                _ => V::Utf8(gen_string_len(r, l)),
            };
            if it.iter().all(|x| x.0 != id) {
                it.push((id, vec![v]));
            }
        }
        it
    };
    let spec = if c.scale == Some(mp4gen::Scale::Items) { gen(r, c) } else { gen_with(r, c, items, true) };
    let e = emit(&spec.top);
    cx.note = spec.describe();
    hostile_read(cx, &e.bytes, "long content")?;
    cx.count("files with long content", 1);
    cx.max("bytes of an input", e.bytes.len() as u64);
    let rounds = (400_000 / (e.bytes.len() + 1)).clamp(2, 40);
    for _ in 0..rounds {
        let r = &mut cx.r;
        let mut b = e.bytes.clone();
        match r.below(3) {
            0 => {
                let k = r.below(b.len());
                b.truncate(k);
            }
            1 => b = random_mutation(r, &b, &e.fields, &[]),
            _ => {
                let f = r.pick(&e.fields).clone();
                let cur = get_field(&b, &f);
                let vs = values_for(r, &f, cur, false);
                if !vs.is_empty() {
                    let v = *r.pick(&vs);
                    set_field(&mut b, &f, v);
                }
            }
        }
        hostile_read(cx, &b, "damaged long content")?;
        cx.count("damaged files with long content", 1);
    }
    Ok(())
}

/// Duplicates, drops, moves or nests atoms (sizes stay consistent).
pub fn restructure(r: &mut Rng, top: &mut Vec<N>) {
    fn count(n: &[N]) -> usize {
        n.iter().map(|x| 1 + count(x.kids())).sum()
    }
    fn nth(n: &mut Vec<N>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<N>, usize)) -> bool {
        for i in 0..n.len() {
            if *k == 0 {
                f(n, i);
                return true;
            }
            *k -= 1;
            if let N::Box { kids, .. } = &mut n[i] {
                if nth(kids, k, f) {
                    return true;
                }
            }
        }
        false
    }
    for _ in 0..r.range(1, 4) {
        let c = count(top);
        if c == 0 {
            return;
        }
        let mut k = r.below(c);
        let mut got = None;
        let op = r.below(6);
        nth(top, &mut k, &mut |v, i| match op {
            0 => {
                got = Some(v.remove(i));
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => {
                // empty it
                match &mut v[i] {
                    N::Leaf { body, .. } => body.clear(),
                    N::Box { kids, .. } => kids.clear(),
                    N::Table { entries, .. } => entries.clear(),
                    N::Media { body, .. } => body.clear(),
                }
            }
            3 => {
                let x = v[i].clone();
                v[i] = N::Box { cc: x.cc(), ext: false, pre: vec![], kids: vec![x] };
            }
            4 => {
                if let N::Leaf { body, .. } = &mut v[i] {
                    let l = body.len();
                    body.truncate(l / 2);
                }
            }
            _ => got = Some(v[i].clone()),
        });
        if let Some(x) = got {
            let c = count(top);
            if c == 0 {
                top.push(x);
            } else {
                let mut k = r.below(c);
                nth(top, &mut k, &mut |v, i| v.insert(i, x.clone()));
            }
        }
    }
}

/// where chains of nested atoms are put: below which atoms, with how many bytes in front of the chain
const NEST: &[(&[&[u8; 4]], usize)] = &[
    (&[], 0),
    (&[b"moov"], 0),
    (&[b"moov", b"udta"], 0),
    (&[b"moov", b"udta", b"meta"], 4),
    (&[b"moov", b"udta", b"meta", b"ilst"], 0),
    (&[b"moov", b"udta", b"meta", b"ilst", b"\xa9nam"], 0),
    (&[b"moov", b"udta", b"meta", b"ilst", b"----"], 0),
    (&[b"moov", b"trak"], 0),
    (&[b"moov", b"trak", b"mdia"], 0),
    (&[b"moov", b"trak", b"mdia", b"minf"], 0),
    (&[b"moov", b"trak", b"mdia", b"minf", b"stbl"], 0),
    (&[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd"], 8),
    (&[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a"], 28),
];

/// a file with `chain` below the atoms of `path`; only the atoms of the path get sizes here
fn at_parents(path: &[&[u8; 4]], pre: usize, chain: &[u8]) -> Vec<u8> {
    let mut inner = vec![0; pre];
    inner.extend_from_slice(chain);
    for (k, cc) in path.iter().enumerate().rev() {
        // atoms on the way that have a fixed part
        let fixed = if k + 1 == path.len() {
            0
        } else {
            match &cc[..] {
                b"meta" => 4,
                b"stsd" => 8,
                _ => 0,
            }
        };
        let mut b = ((8 + fixed + inner.len()) as u32).to_be_bytes().to_vec();
        b.extend_from_slice(&cc[..]);
        b.extend(vec![0; fixed]);
        b.append(&mut inner);
        inner = b;
    }
    [&emit(&[N::leaf(b"ftyp", b"M4A ".to_vec())]).bytes[..], &inner].concat()
}

/// 100 000 atoms nested in each other, of every known kind, below every known parent.
fn c05_nesting(cx: &mut Ctx, (path, pre): (&[&[u8; 4]], usize), which: usize) -> Outcome {
    let n = 100_000usize;
    for fixed in [0usize, 4, 8, 28] {
        let mut chain = Vec::with_capacity(n * (8 + fixed));
        let el = 8 + fixed;
        for k in 0..n {
            chain.extend_from_slice(&((el * (n - k)) as u32).to_be_bytes());
            chain.extend_from_slice(b"....");
            chain.extend(std::iter::repeat(0).take(fixed));
        }
        for cc in &dict::dict().fourccs {
            for k in 0..n {
                chain[el * k + 4..el * k + 8].copy_from_slice(cc);
            }
            let b = at_parents(path, pre, &chain);
            hostile_read(cx, &b, &format!("{n} nested {} atoms (case {which}, {fixed} bytes in front)", cc.escape_ascii()))?;
            cx.count("chains of 100 000 nested atoms", 1);
        }
    }
    if which + 1 == NEST.len() {
        // descriptors nested in descriptors, each claiming the greatest length
        let n = 400_000usize;
        for tag in [3u8, 4, 5, 6, 0x0e, 0x10, 0x13, 0x14, 0xfe] {
            for fixed in [0usize, 3, 13, 2] {
                for len in [&[0xff, 0xff, 0xff, 0x7f][..], &[0x7f]] {
                    let mut chain = vec![0u8; 4];
                    for _ in 0..n {
                        chain.push(tag);
                        chain.extend_from_slice(len);
                        chain.extend(std::iter::repeat(0).take(fixed));
                    }
                    let mut es = ((8 + chain.len()) as u32).to_be_bytes().to_vec();
                    es.extend_from_slice(b"esds");
                    es.append(&mut chain);
                    let b = at_parents(path, pre, &es);
                    hostile_read(cx, &b, &format!("{n} nested descriptors with tag {tag} and lengths {len:x?}"))?;
                    cx.count("chains of 400 000 nested descriptors", 1);
                }
            }
        }
        // descriptors nested in descriptors
        for tag in [3u8, 4, 5, 6, 0x10, 0xfe] {
            for fixed in [0usize, 3, 13, 2] {
                let n = 300_000usize;
                let el = 5 + fixed;
                let mut chain = vec![0u8; 4];
                for k in 0..n {
                    let l = (el * (n - k) - 5) as u32;
                    chain.push(tag);
                    chain.extend([0x80 | (l >> 21) as u8, 0x80 | (l >> 14) as u8 & 0xff, 0x80 | (l >> 7) as u8, l as u8 & 0x7f]);
                    chain.extend(std::iter::repeat(0).take(fixed));
                }
                let mut es = ((8 + chain.len()) as u32).to_be_bytes().to_vec();
                es.extend_from_slice(b"esds");
                es.append(&mut chain);
                let b = at_parents(path, pre, &es);
                hostile_read(cx, &b, &format!("{n} nested descriptors with tag {tag}"))?;
                cx.count("chains of 300 000 nested descriptors", 1);
            }
        }
    }
    Ok(())
}

/// The work grows no faster than the input: many items, many distinct identifiers.
fn c05_work(cx: &mut Ctx) -> Outcome {
    for shape in 0..6 {
        let n = 150_000usize;
        let mut ilst = vec![];
        let plain = |id: u32, l: usize| {
            let mut b = (24 + l as u32).to_be_bytes().to_vec();
            b.extend_from_slice(&id.to_be_bytes());
            b.extend_from_slice(&(16 + l as u32).to_be_bytes());
            b.extend_from_slice(b"data\0\0\0\x01\0\0\0\0");
            b.extend(vec![b'x'; l]);
            b
        };
        let mut extra_traks = vec![];
        match shape {
            0 => (0..n).for_each(|k| ilst.extend(plain(0x5000_0000 + k as u32, 0))),
            1 => (0..n).for_each(|_| ilst.extend(plain(0x5000_0000, 0))),
            2 => (0..n / 4).for_each(|k| ilst.extend(emit(&[item_plain(&Id::S("com.apple.iTunes".into(), format!("{k}")), &[V::Utf8("v".into())])]).bytes)),
            3 => (0..n).for_each(|_| ilst.extend_from_slice(b"\0\0\0\x08free")),
            4 => (0..n).for_each(|_| extra_traks.extend_from_slice(b"\0\0\0\x08trak")),
            _ => {
                // one item with very many values
                let mut b = (8 + 16 * n as u32).to_be_bytes().to_vec();
                b.extend_from_slice(b"\xa9nam");
                (0..n).for_each(|_| b.extend_from_slice(b"\0\0\0\x10data\0\0\0\x01\0\0\0\0"));
                ilst.extend(b);
            }
        }
        let meta = N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![N::leaf(b"ilst", ilst)] };
        let mut moov = emit(&[N::container(b"moov", vec![N::container(b"udta", vec![meta])])]).bytes;
        if !extra_traks.is_empty() {
            moov.extend_from_slice(&extra_traks);
            let l = moov.len() as u32;
            moov[..4].copy_from_slice(&l.to_be_bytes());
        }
        let b = [emit(&[N::leaf(b"ftyp", b"M4A ".to_vec())]).bytes, moov].concat();
        let len = b.len() as u64;
        let t0 = thread_cpu();
        let (res, u) = alloc::measure(u64::MAX, || call("read_from", || Tag::read_from(&mut Cursor::new(&b))));
        let cpu = thread_cpu() - t0;
        let t = res?.map_err(|e| format!("many items (shape {shape}): {e}"))?;
        ensure!(u.peak <= 64 * len + (256 << 10), "peak allocation of {} bytes for an input of {len} bytes (shape {shape})", u.peak);
        ensure!(cpu < 12.0, "{cpu:.1} s of CPU time for an input of {len} bytes (shape {shape}): the work is not proportional to the input");
        let t1 = thread_cpu();
        use_tag(&t)?;
        let cpu2 = thread_cpu() - t1;
        ensure!(cpu2 < 12.0, "{cpu2:.1} s of CPU time to use the tag read from {len} bytes (shape {shape})");
        cx.count("inputs with 150 000 elements", 1);
        cx.max("milliseconds of CPU for 150 000 elements", ((cpu + cpu2) * 1000.0) as u64);
        cx.max("peak allocation per input byte (x100, 150 000 elements)", u.peak * 100 / len);
        cx.eval(fnv(shape, &len.to_le_bytes()), true);
    }
    Ok(())
}

/// CPU time for many elements is compared with that for few: it may grow in proportion, with room
/// for caches and page faults, not with the square.
fn growth(cx: &mut Ctx, what: &str, few: usize, many: usize, f: &mut dyn FnMut(usize) -> Res<f64>) -> Outcome {
    const FLOOR: f64 = 0.25;
    let mut t = f(many)?;
    cx.count("growths of CPU time observed", 1);
    cx.max("milliseconds of CPU for 64 000 elements", (t * 1000.0) as u64);
    if t <= FLOOR || many < 64_000 {
        return Ok(());
    }
    let mut base = f64::MAX;
    for _ in 0..7 {
        base = base.min(f(few)?);
    }
    let limit = FLOOR + 4.0 * base * many as f64 / few as f64;
    for _ in 0..3 {
        if t <= limit {
            return Ok(());
        }
        t = t.min(f(many)?);
    }
    ensure!(t <= limit, "the work grows faster than the input: {:.1} ms of CPU time for {few} elements, {:.1} ms for {many} ({what})", base * 1e3, t * 1e3);
    Ok(())
}

/// Very many atoms of every known kind and several contents beside each other, below every known parent,
/// and some structures that are complete.
fn flat(cx: &mut Ctx, which: usize, write: bool) -> Outcome {
    if cfg!(miri) {
        return Ok(());
    }
    let (path, pre) = NEST[which];
    // the sanitizers are after other things than the time
    let many = if std::env::var_os("MON_STAGE").is_some() { 2000 } else { 64_000 };
    let few = 1000;
    let atom = |cc: &[u8; 4], body: &[u8]| {
        let mut b = (8 + body.len() as u32).to_be_bytes().to_vec();
        b.extend_from_slice(cc);
        b.extend_from_slice(body);
        b
    };
    let table = |cc: &[u8; 4], entry: &[u8]| atom(cc, &[&[0, 0, 0, 0, 0, 0, 0, 1], entry].concat());
    let data = atom(b"data", &[0, 0, 0, 1, 0, 0, 0, 0, b'x']);
    let track = |t: Vec<u8>| {
        let stsd = atom(b"stsd", &[&[0, 0, 0, 0, 0, 0, 0, 1][..], &emit(&[mp4a(&mut Rng::new(7), 0, Some(4), Some(2)).0]).bytes].concat());
        let stbl = atom(b"stbl", &[stsd, t].concat());
        atom(b"trak", &atom(b"mdia", &atom(b"minf", &stbl)))
    };
    let mut kids: Vec<(String, Box<dyn Fn(usize) -> Vec<u8>>)> = vec![];
    for cc in dict::dict().fourccs.iter().chain(&[*b"free", *b"data", *b"mean", *b"name", *b"mdat"]) {
        for &body in if write { &[0usize, 8][..] } else { &[0, 4, 8, 100] } {
            let a = atom(cc, &vec![0; body]);
            kids.push((format!("{} atoms of {body} bytes", cc.escape_ascii()), Box::new(move |_| a.clone())));
        }
    }
    match which {
        1 => {
            let (a, b, c) = (track(table(b"stco", &[0, 0, 0, 9])), track(table(b"co64", &[0, 0, 0, 0, 0, 0, 0, 9])), track(vec![]));
            kids.push(("tracks".into(), Box::new(move |k| [&a, &b, &c][k % 3].clone())));
        }
        4 => {
            let d = data.clone();
            kids.push(("items".into(), Box::new(move |k| {
                let mut b = vec![0, 0, 0, 8 + d.len() as u8];
                b.extend_from_slice(&(0x5000_0000 + k as u32).to_be_bytes());
                b.extend_from_slice(&d);
                b
            })));
            let d = data.clone();
            kids.push(("freeform items".into(), Box::new(move |k| {
                let n = format!("\0\0\0\0{k}");
                let inner = [atom(b"mean", b"\0\0\0\0m"), atom(b"name", n.as_bytes()), d.clone()].concat();
                atom(b"----", &inner)
            })));
            let d = data.clone();
            kids.push(("two items in turn".into(), Box::new(move |k| atom([b"\xa9nam", b"\xa9gen"][k % 2], &d))));
            kids.push(("images".into(), Box::new(move |_| atom(b"covr", &atom(b"data", &[0, 0, 0, 14, 0, 0, 0, 0, 1, 2])))));
            kids.push(("genres".into(), Box::new(move |k| atom(b"gnre", &atom(b"data", &[0, 0, 0, 0, 0, 0, 0, 0, 0, k as u8])))));
        }
        5 => {
            let d = data.clone();
            kids.push(("values".into(), Box::new(move |_| d.clone())));
        }
        6 => {
            let d = data.clone();
            kids.push(("values of a freeform item".into(), Box::new(move |k| match k {
                0 => atom(b"mean", b"\0\0\0\0m"),
                1 => atom(b"name", b"\0\0\0\0n"),
                _ => d.clone(),
            })));
        }
        10 => {
            kids.push(("tables".into(), Box::new(move |k| if k % 2 == 0 { table(b"stco", &[0, 0, 0, 9]) } else { table(b"co64", &[0, 0, 0, 0, 0, 0, 0, 9]) })));
        }
        11 => {
            let a = emit(&[mp4a(&mut Rng::new(7), 0, Some(4), Some(2)).0]).bytes;
            kids.push(("sample entries".into(), Box::new(move |_| a.clone())));
        }
        _ => {}
    }
    let f = mio::memfile();
    let mut tag = Tag::default();
    tag.set_title("a title");
    for (name, make) in &kids {
        let what = format!("{name} below {}", path.iter().map(|c| c.escape_ascii().to_string()).collect::<Vec<_>>().join("."));
        let file = |n: usize| {
            let mut chain = vec![];
            (0..n).for_each(|k| chain.extend(make(k)));
            let mut b = at_parents(path, pre, &chain);
            if which == 0 || write {
                // a movie behind them, and media
                b.extend(emit(&[N::container(b"moov", vec![N::container(b"udta", vec![])])]).bytes);
                b.extend(atom(b"mdat", b"media data"));
            }
            b
        };
        if write {
            growth(cx, &what, few, many, &mut |n| {
                let b = file(n);
                f.set_len(0).and_then(|_| std::os::unix::fs::FileExt::write_all_at(&f, &b, 0)).map_err(|e| format!("harness: {e}"))?;
                (&f).seek(SeekFrom::Start(0)).map_err(|e| format!("harness: {e}"))?;
                let t = thread_cpu();
                let _ = call("write_to", || tag.write_to(&f))?;
                Ok(thread_cpu() - t)
            })?;
        } else {
            growth(cx, &what, few, many, &mut |n| {
                let b = file(n);
                let t = thread_cpu();
                let res = call("read_from", || Tag::read_from(&mut Cursor::new(&b)))?;
                if let Ok(t) = res {
                    use_tag(&t)?;
                }
                Ok(thread_cpu() - t)
            })?;
            if which % 3 == 1 {
                hostile_read(cx, &file(4000), &format!("4000 {what}"))?;
            }
        }
        cx.eval(fnv(write as u64, what.as_bytes()), true);
    }
    cx.sample(|| format!("{} kinds of atoms, {many} each, below {path:?}", kids.len()));
    Ok(())
}

extern "C" {
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}

pub fn thread_cpu() -> f64 {
    if cfg!(miri) {
        return 0.0;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

// ------------------------------------------------------------------------------------------ C06

pub const C06: Prop = Prop {
    id: "C06",
    level: "exploration",
    rule: "distinct (file content, fault) pairs whose write was rejected, the file compared byte for byte",
    assumptions: &[
        "bounds used: peak allocation 64 x (file + tag) + 1 MiB, file operations 16 x file + 2000",
        "failures of write, resize and of seeks after the first modification are I/O errors on the output, not a rejection of the content, and outside this claim",
    ],
    quick: 6000,
    thorough: 240000,
    single: false,
    exhaustive: false,
    case: c06,
};

struct Slot {
    f: File,
    content: Vec<u8>,
}

impl Slot {
    fn set(&mut self, b: &[u8]) {
        use std::os::unix::fs::FileExt;
        if self.content.len() > b.len() {
            self.f.set_len(b.len() as u64).unwrap();
        }
        self.f.write_all_at(b, 0).unwrap();
        self.f.set_len(b.len() as u64).unwrap();
        self.f.seek(SeekFrom::Start(0)).unwrap();
        self.content = b.to_vec();
    }
}

fn hostile_write(cx: &mut Ctx, slot: &mut Slot, tag: &Tag, tag_len: u64, b: &[u8], what: &str) -> Outcome {
    slot.set(b);
    let len = b.len() as u64;
    let mem = 64 * (len + tag_len) + (1 << 20);
    let mut plan = mio::Plan::count();
    plan.limit = 16 * len + 2000;
    let ((res, u), p) = mio::with_plan(plan, || alloc::measure(4 * mem + (64 << 20), || call("write_to", || tag.write_to(&slot.f))));
    let after = mio::contents(&slot.f);
    let bad = |cx: &mut Ctx, m: String| {
        cx.artifacts.clear();
        cx.artifact("file before", b);
        cx.artifact("file after", &after);
        Err(format!("{m} ({what}, file of {len} bytes)"))
    };
    let res = match res {
        Ok(r) => r,
        Err(e) => return bad(cx, e),
    };
    if p.overrun {
        return bad(cx, format!("more than {} file operations", p.limit));
    }
    if u.peak > mem {
        return bad(cx, format!("peak allocation of {} bytes", u.peak));
    }
    if after.len() as u64 > len + tag_len + 4096 {
        return bad(cx, format!("the file has {} bytes afterwards", after.len()));
    }
    match res {
        Ok(()) => {
            cx.count("accepted", 1);
            cx.eval(fnv(0, b), false);
        }
        Err(e) => {
            if let Some(d) = first_diff(b, &after) {
                return bad(cx, format!("the write was rejected ({e}) but the file changed: {d}"));
            }
            let k = kind(&e);
            cx.count(&format!("rejected: {}", k.split('(').next().unwrap()), 1);
            cx.eval(fnv(0, b), true);
        }
    }
    Ok(())
}

fn c06(cx: &mut Ctx) -> Outcome {
    let i = cx.idx;
    let r = &mut cx.r;
    let items = match r.below(4) {
        0 => vec![],
        1 => vec![(Id::F(*b"covr"), vec![V::Png(r.bytes(3000))])],
        _ => gen_items(r, TagCfg { items: 4, values: 2, val_len: 60, budget: 300 }),
    };
    let tag = build_tag(&items, r);
    let tl = dump(&tag)?.len() as u64;
    let mut slot = Slot { f: mio::memfile(), content: vec![] };
    if (2..2 + NEST.len() as u64).contains(&i) {
        let (path, pre) = NEST[i as usize - 2];
        let n = 60_000usize;
        for fixed in [0usize, 4] {
            let mut chain = Vec::with_capacity(n * (8 + fixed));
            let el = 8 + fixed;
            for k in 0..n {
                chain.extend_from_slice(&((el * (n - k)) as u32).to_be_bytes());
                chain.extend_from_slice(b"....");
                chain.extend(std::iter::repeat(0).take(fixed));
            }
            for cc in &dict::dict().fourccs {
                for k in 0..n {
                    chain[el * k + 4..el * k + 8].copy_from_slice(cc);
                }
                let b = at_parents(path, pre, &chain);
                hostile_write(cx, &mut slot, &tag, tl, &b, &format!("{n} nested {} atoms", cc.escape_ascii()))?;
                cx.count("chains of 60 000 nested atoms", 1);
            }
        }
        return Ok(());
    }
    if (16..16 + NEST.len() as u64).contains(&i) {
        return flat(cx, i as usize - 16, true);
    }
    if i % 16 == 5 {
        let s = samples();
        for _ in 0..6 {
            if s.is_empty() {
                break;
            }
            let r = &mut cx.r;
            let (_, b) = r.pick(s);
            let b = b.clone();
            let m = random_mutation(r, &b, &[], &[]);
            hostile_write(cx, &mut slot, &tag, tl, &m, "mutated example file")?;
        }
        return Ok(());
    }
    if i % 16 == 6 {
        for _ in 0..100 {
            let r = &mut cx.r;
            let l = dict::len(r, 2000);
            let mut b = r.bytes(l);
            if r.chance(1, 2) {
                b = [&b"\0\0\0\x10ftypM4A \0\0\0\0"[..], &b].concat();
            }
            hostile_write(cx, &mut slot, &tag, tl, &b, "random bytes")?;
        }
        return Ok(());
    }
    let c = Cfg::small(r);
    let mut spec = gen(r, c);
    if i % 16 < 12 {
        // make the chunk tables matter: media behind the movie
        if let Some(k) = spec.top.iter().position(|n| matches!(n, N::Media { .. })) {
            let m = spec.top.remove(k);
            spec.top.push(m);
        }
    }
    let e = emit(&spec.top);
    let o = { let c = Cfg::small(r); emit(&gen(r, c).top).bytes };
    cx.note = format!("{}; tag {}", spec.describe(), summary(&items));
    if i % 4 == 3 {
        return c06_faults(cx, &spec, &e.bytes, &tag);
    }
    let n = e.bytes.len();
    let step = (n / 60).max(1);
    let mut k = cx.r.below(step);
    while k < n {
        hostile_write(cx, &mut slot, &tag, tl, &e.bytes[..k], "truncation")?;
        cx.count("truncations", 1);
        k += step;
    }
    let budget = if cx.thorough { 1500 } else { 500 };
    let mut done = 0;
    let mut order: Vec<usize> = (0..e.fields.len()).collect();
    cx.r.shuffle(&mut order);
    for fi in order {
        let f = &e.fields[fi];
        let cur = get_field(&e.bytes, f);
        let all = f.path.contains("moov") && !f.path.contains("ilst/") || cx.r.chance(1, 4);
        for v in values_for(&mut cx.r, f, cur, all) {
            let mut b = e.bytes.clone();
            set_field(&mut b, f, v);
            hostile_write(cx, &mut slot, &tag, tl, &b, &format!("{} {:?} set to {v:#x}", f.path, f.kind))?;
            cx.count("field corruptions", 1);
            done += 1;
        }
        if done > budget {
            break;
        }
    }
    for _ in 0..60 {
        let mut b = e.bytes.clone();
        for _ in 0..2 {
            let f = cx.r.pick(&e.fields).clone();
            let cur = get_field(&b, &f);
            let vs = values_for(&mut cx.r, &f, cur, false);
            if !vs.is_empty() {
                let v = *cx.r.pick(&vs);
                set_field(&mut b, &f, v);
            }
        }
        hostile_write(cx, &mut slot, &tag, tl, &b, "two fields")?;
    }
    for _ in 0..80 {
        let b = random_mutation(&mut cx.r, &e.bytes, &e.fields, &o);
        hostile_write(cx, &mut slot, &tag, tl, &b, "random mutation")?;
        cx.count("random mutations", 1);
    }
    for _ in 0..40 {
        let mut b = e.bytes.clone();
        scramble(&mut cx.r, &mut b, &e.fields);
        hostile_write(cx, &mut slot, &tag, tl, &b, "scrambled content")?;
        cx.count("scrambled contents", 1);
    }
    for _ in 0..20 {
        let mut top = spec.top.clone();
        restructure(&mut cx.r, &mut top);
        let b = emit(&top).bytes;
        hostile_write(cx, &mut slot, &tag, tl, &b, "restructured")?;
        cx.count("restructured files", 1);
    }
    cx.sample(|| spec.describe());
    Ok(())
}

/// the file is fine but cannot be read
fn c06_faults(cx: &mut Ctx, spec: &Spec, bytes: &[u8], tag: &Tag) -> Outcome {
    let f = mio::memfile_with(bytes);
    let (res, p) = mio::with_plan(mio::Plan::count(), || call("write_to", || tag.write_to(&f)));
    res?.map_err(|e| format!("writing to a conforming file failed: {e}"))?;
    let mut slot = Slot { f: mio::memfile(), content: vec![] };
    for (mask, n) in [(mio::READ, p.reads), (mio::SEEK, p.seeks)] {
        for k in 0..n + 1 {
            slot.set(bytes);
            let errno = *cx.r.pick(&[mio::EIO, 13, 6, 116, 22, 11, 95]);
            let persistent = cx.r.chance(1, 2);
            let (res, q) = mio::with_plan(mio::Plan::fail(mask, k, errno, persistent), || call("write_to", || tag.write_to(&slot.f)));
            let res = res?;
            if q.fired == 0 {
                continue;
            }
            let after = mio::contents(&slot.f);
            let what = if mask == mio::READ { "read" } else { "seek" };
            if mask == mio::SEEK && q.fired_after_mods > 0 {
                continue;
            }
            match res {
                Ok(()) => {
                    cx.artifact("file", bytes);
                    fail!("{what} {k} failed with errno {errno} but the write reported success ({})", spec.describe());
                }
                Err(e) => {
                    if let Some(d) = first_diff(bytes, &after) {
                        cx.artifact("file", bytes);
                        fail!("{what} {k} failed ({e}) and the file changed: {d} ({})", spec.describe());
                    }
                }
            }
            cx.count(&format!("failing {what}s"), 1);
            cx.eval(fnv(k ^ (mask as u64) << 32, bytes), true);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18

pub const C18: Prop = Prop {
    id: "C18",
    level: "exploration",
    rule: "distinct otherwise conforming files with exactly one planted defect",
    assumptions: &[
        "a trailing half UTF-16 unit is ignored, not an invalid text",
        "chunk tables are only interpreted by a write to a file whose media data follows the movie",
    ],
    quick: 900000,
    thorough: 24000000,
    single: false,
    exhaustive: false,
    case: c18,
};

/// finds the nodes at a path of four-character codes below the movie
fn at_path<'a>(n: &'a mut N, path: &[&[u8; 4]], out: &mut Vec<*mut N>) {
    if path.is_empty() {
        out.push(n);
        return;
    }
    if let N::Box { kids, .. } = n {
        for k in kids {
            if &k.cc() == path[0] {
                at_path(k, &path[1..], out);
            }
        }
    }
}

/// Applies `f` to a random node at `path` (below top level); false when there is none.
fn edit(r: &mut Rng, spec: &mut Spec, path: &[&[u8; 4]], f: &mut dyn FnMut(&mut N, &mut Rng)) -> bool {
    let mut found = vec![];
    for t in spec.top.iter_mut() {
        if &t.cc() == path[0] && (path[0] != b"moov" || true) {
            at_path(t, &path[1..], &mut found);
        }
    }
    if found.is_empty() {
        return false;
    }
    let n = *r.pick(&found);
    // the pointers come from exclusive borrows of `spec` that have ended, and only one is used
    f(unsafe { &mut *n }, r);
    true
}

fn ilst_item(r: &mut Rng, spec: &mut Spec, f: &mut dyn FnMut(&mut N, &mut Rng)) -> bool {
    edit(r, spec, &[b"moov", b"udta", b"meta", b"ilst"], &mut |l, r| {
        let kids = l.kids_mut();
        let ks: Vec<usize> = (0..kids.len()).filter(|k| &kids[*k].cc() != b"free" && !kids[*k].kids().is_empty()).collect();
        if ks.is_empty() {
            kids.push(item_plain(&Id::F(*b"\xa9nam"), &[V::Utf8("x".into())]));
            let k = kids.len() - 1;
            f(&mut kids[k], r);
        } else {
            let k = *r.pick(&ks);
            f(&mut kids[k], r);
        }
    })
}

fn data_atom(r: &mut Rng, spec: &mut Spec, f: &mut dyn FnMut(&mut N, &mut Rng)) -> bool {
    ilst_item(r, spec, &mut |it, r| {
        let kids = it.kids_mut();
        let ks: Vec<usize> = (0..kids.len()).filter(|k| &kids[*k].cc() == b"data").collect();
        let k = *r.pick(&ks);
        f(&mut kids[k], r);
    })
}

fn body_mut(n: &mut N) -> &mut Vec<u8> {
    match n {
        N::Leaf { body, .. } => body,
        _ => panic!("harness: not a leaf"),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Read,
    Write,
}

struct Want {
    what: String,
    /// acceptable kinds (prefix match) for each operation it concerns
    read: Option<Vec<String>>,
    write: Option<Vec<String>>,
}

fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let mut v = ascii(r, 6).into_bytes();
    let bad: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xe2\x82", b"\x80", b"\xf8\x88\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xc3"]);
    let k = if bad.len() == 2 && bad[0] == 0xe2 || bad == b"\xc3" { v.len() } else { r.below(v.len() + 1) };
    v.splice(k..k, bad.iter().copied());
    v
}

fn bad_utf16(r: &mut Rng) -> Vec<u8> {
    let mut v = utf16be(&ascii(r, 5));
    let bad: &[u8] = *r.pick(&[&b"\xd8\0"[..], b"\xdc\0", b"\xd8\0\0A", b"\xdf\xff\0A", b"\xd8\0\xd8\0", b"\xdc\0\xd8\0"]);
    let k = 2 * r.below(v.len() / 2 + 1);
    // a high surrogate at the end must not meet a low one
    v.splice(k..k, bad.iter().copied());
    v
}

fn c18(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut c = Cfg::small(r);
    c.items = true;
    if r.chance(1, 3) {
        c = Cfg::random(r);
        c.scale = None;
        c.items = true;
        c.tag = model::TagCfg { items: 5, values: 3, val_len: 40, budget: 300 };
    }
    c.max_traks = 3;
    let mut spec = gen(r, c);
    let s = |x: &[&str]| Some(x.iter().map(|y| y.to_string()).collect::<Vec<_>>());
    let ver = |v: u8| Some(vec![format!("UnknownVersion({v})")]);
    let mut v = r.u8();
    if v == 0 {
        v = 1;
    }
    let mut raw: Option<Vec<u8>> = None;
    let which = cx.idx % 27;
    let r = &mut cx.r;
    let want: Option<Want> = match which {
        0 => {
            // no file type
            match r.below(3) {
                0 => {
                    spec.top.remove(0);
                }
                1 => {
                    let f = spec.top.remove(0);
                    let k = r.range(1, spec.top.len());
                    spec.top.insert(k, f);
                }
                _ => {
                    if let N::Leaf { cc, .. } = &mut spec.top[0] {
                        *cc = **r.pick(&[b"styp", b"ftyq", b"free", b"Ftyp", b"\0typ"]);
                    }
                }
            }
            if spec.top.first().map(|n| n.cc()) == Some(*b"ftyp") {
                None
            } else {
                Some(Want { what: "no file type".into(), read: s(&["NoTag"]), write: s(&["NoTag"]) })
            }
        }
        1 => {
            if r.chance(1, 2) {
                spec.top.retain(|n| &n.cc() != b"moov");
            } else if let N::Box { cc, .. } = spec.moov_mut() {
                *cc = **r.pick(&[b"moof", b"Moov", b"mooV", b"free"]);
            }
            let none = !spec.top.iter().any(|n| &n.cc() == b"moov");
            none.then(|| Want { what: "no movie".into(), read: s(&["AtomNotFound(moov)"]), write: s(&["AtomNotFound(moov)"]) })
        }
        2 => {
            let v = v.max(2);
            edit(r, &mut spec, &[b"moov", b"mvhd"], &mut |n, _| body_mut(n)[0] = v)
                .then(|| Want { what: format!("movie header version {v}"), read: ver(v), write: None })
        }
        3 => edit(r, &mut spec, &[b"moov", b"udta", b"meta"], &mut |n, _| {
            if let N::Box { pre, .. } = n {
                pre[0] = v
            }
        })
        .then(|| Want { what: format!("metadata version {v}"), read: ver(v), write: ver(v) }),
        4 => edit(r, &mut spec, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd"], &mut |n, _| {
            if let N::Box { pre, .. } = n {
                pre[0] = v
            }
        })
        .then(|| Want { what: format!("sample description version {v}"), read: ver(v), write: None }),
        5 => edit(r, &mut spec, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds"], &mut |n, _| body_mut(n)[0] = v)
            .then(|| Want { what: format!("elementary stream version {v}"), read: ver(v), write: None }),
        6 => data_atom(r, &mut spec, &mut |n, _| body_mut(n)[0] = v)
            .then(|| Want { what: format!("data version {v}"), read: ver(v), write: None }),
        7 | 8 => {
            let cc = if which == 7 { *b"mean" } else { *b"name" };
            edit(r, &mut spec, &[b"moov", b"udta", b"meta", b"ilst"], &mut |l, _| {
                let mut it = item_plain(&Id::S("com.apple.iTunes".into(), "X".into()), &[V::Utf8("y".into())]);
                for k in it.kids_mut() {
                    if k.cc() == cc {
                        body_mut(k)[0] = v;
                    }
                }
                l.kids_mut().push(it);
            })
            .then(|| Want { what: format!("{} version {v}", cc_str(&cc)), read: ver(v), write: None })
        }
        9 | 10 => {
            // unknown type code
            let known = [0u32, 1, 2, 13, 14, 21, 27];
            let code = loop {
                let c = match r.below(4) {
                    0 => r.u32() & 0xff_ffff,
                    1 => *r.pick(&[3u32, 4, 5, 22, 23, 24, 28, 65, 66, 67, 70, 74, 75, 76, 77, 78, 79, 0x100, 0x10001, 0xff_ffff]),
                    _ => r.below(256) as u32,
                };
                if !known.contains(&c) {
                    break c;
                }
            };
            data_atom(r, &mut spec, &mut |n, _| body_mut(n)[1..4].copy_from_slice(&code.to_be_bytes()[1..]))
                .then(|| Want { what: format!("type code {code}"), read: Some(vec![format!("UnknownDataType({code})")]), write: None })
        }
        11 | 12 => {
            let b = bad_utf8(r);
            let w = format!("Utf8StringDecoding({:?})", b);
            data_atom(r, &mut spec, &mut |n, _| {
                let x = body_mut(n);
                x[..4].copy_from_slice(&1u32.to_be_bytes());
                x.truncate(8);
                x.extend_from_slice(&b);
            })
            .then(|| Want { what: "invalid UTF-8".into(), read: Some(vec![w]), write: None })
        }
        13 => {
            let b = bad_utf16(r);
            if V::decode(2, &b).is_ok() {
                None
            } else {
                data_atom(r, &mut spec, &mut |n, _| {
                    let x = body_mut(n);
                    x[..4].copy_from_slice(&2u32.to_be_bytes());
                    x.truncate(8);
                    x.extend_from_slice(&b);
                })
                .then(|| Want { what: "invalid UTF-16".into(), read: s(&["Utf16StringDecoding"]), write: None })
            }
        }
        14 => {
            // text of identifiers
            let b = bad_utf8(r);
            let w = format!("Utf8StringDecoding({:?})", b);
            let cc = if r.chance(1, 2) { *b"mean" } else { *b"name" };
            edit(r, &mut spec, &[b"moov", b"udta", b"meta", b"ilst"], &mut |l, _| {
                let mut it = item_plain(&Id::S("com.apple.iTunes".into(), "X".into()), &[V::Utf8("y".into())]);
                for k in it.kids_mut() {
                    if k.cc() == cc {
                        let x = body_mut(k);
                        x.truncate(4);
                        x.extend_from_slice(&b);
                    }
                }
                l.kids_mut().push(it);
            })
            .then(|| Want { what: "identifier with invalid UTF-8".into(), read: Some(vec![w]), write: None })
        }
        15 => {
            let b = bad_utf8(r);
            let w = format!("Utf8StringDecoding({:?})", b);
            if let N::Leaf { body, .. } = &mut spec.top[0] {
                *body = b;
            }
            Some(Want { what: "file type with invalid UTF-8".into(), read: Some(vec![w.clone()]), write: Some(vec![w]) })
        }
        16 => ilst_item(r, &mut spec, &mut |n, r| {
            let k = n.kids_mut();
            k.retain(|x| &x.cc() != b"data");
            if r.chance(1, 3) {
                k.push(N::leaf(b"Data", vec![0; 9]));
            }
        })
        .then(|| Want { what: "item without data".into(), read: s(&["AtomNotFound(data)"]), write: None }),
        17 => {
            edit(r, &mut spec, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a"], &mut |n, r| {
                for k in n.kids_mut() {
                    if let (b"esds", N::Leaf { cc, .. }) = (&k.cc(), k) {
                        *cc = **r.pick(&[b"free", b"Esds", b"wave", b"btrt"]);
                    }
                }
            })
            .then(|| Want { what: "no esds".into(), read: s(&["AtomNotFound(esds)"]), write: None })
        }
        18 => {
            let t = loop {
                let t = r.u8();
                if t != 3 {
                    break t;
                }
            };
            edit(r, &mut spec, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds"], &mut |n, _| body_mut(n)[4] = t)
                .then(|| Want { what: format!("descriptor tag {t} instead of 3"), read: s(&["DescriptorNotFound(3)"]), write: None })
        }
        19 | 20 => {
            // a size smaller than the head, in every interpreted sequence of atoms
            let e = emit(&spec.top);
            let fs: Vec<&Field> = e
                .fields
                .iter()
                .filter(|f| f.kind == Kind::Size32 || f.kind == Kind::Size64)
                .filter(|f| interpreted(&f.path, &e, f.pos))
                .collect();
            let f = (*r.pick(&fs)).clone();
            let mut b = e.bytes.clone();
            let v = if f.kind == Kind::Size32 { r.range(2, 7) as u64 } else { r.below(16) as u64 };
            set_field(&mut b, &f, v);
            raw = Some(b);
            let p = Some(vec!["Parsing".to_string()]);
            let wr = write_interpreted(&f.path);
            Some(Want { what: format!("size of {} set to {v}", f.path), read: p.clone(), write: if wr { p } else { None } })
        }
        21 | 22 | 23 => {
            // chunk tables, interpreted by writes when media follows the movie
            let before = spec.top.len();
            let mut media: Vec<N> = vec![];
            spec.top.retain(|n| {
                if matches!(n, N::Media { .. }) {
                    media.push(n.clone());
                    false
                } else {
                    true
                }
            });
            if media.is_empty() {
                media.push(N::Media { id: 0, ext: false, body: vec![7; 40], claim: None });
            }
            let _ = before;
            spec.top.extend(media);
            let e = emit(&spec.top);
            let path = "moov/trak/mdia/minf/stbl/";
            let k = if which == 21 { Kind::Version } else { Kind::Count };
            let fs: Vec<&Field> = e
                .fields
                .iter()
                .filter(|f| f.kind == k && (f.path == format!("{path}stco") || f.path == format!("{path}co64")))
                .collect();
            if fs.is_empty() {
                None
            } else {
                let f = (*r.pick(&fs)).clone();
                let mut b = e.bytes.clone();
                let cur = get_field(&b, &f);
                let nv = if which == 21 {
                    v as u64
                } else {
                    let x = match r.below(6) {
                        0 => cur + 1,
                        1 => cur.wrapping_sub(1) & 0xffff_ffff,
                        2 => 0xffff_ffff,
                        3 => cur * 2 + 1,
                        4 => cur + 0x4000_0000,
                        _ => cur + 0x2000_0000,
                    } & 0xffff_ffff;
                    if x == cur {
                        cur + 3
                    } else {
                        x
                    }
                };
                set_field(&mut b, &f, nv);
                raw = Some(b);
                let w = if which == 21 { ver(v) } else { s(&["Parsing"]) };
                Some(Want { what: format!("{} {:?} set to {nv}", f.path, k), read: None, write: w })
            }
        }
        24 => {
            // ends inside an atom being interpreted: cut inside the metadata at the end of the file
            let mut moov = spec.top.iter().position(|n| &n.cc() == b"moov").unwrap();
            let m = spec.top.remove(moov);
            spec.top.push(m);
            moov = spec.top.len() - 1;
            // movie ends with udta/meta/ilst
            last_path(&mut spec.top[moov], &[b"udta", b"meta", b"ilst"]);
            let e = emit(&spec.top);
            let t = mp4ref::tree(&e.bytes[..], false).map_err(|x| format!("harness: {x}"))?;
            match t.ilst {
                Some(l) if l.len - l.head > 1 && l.end() == e.bytes.len() as u64 && spec.items.len() > 0 => {
                    // cut strictly inside the last item
                    let items = mp4ref::atoms(&e.bytes[..], l.body(), l.end(), false)?;
                    let last = items.iter().rev().find(|a| &a.cc != b"free");
                    match last {
                        Some(a) if a.end() == l.end() && a.len > 8 => {
                            // sub-atoms that aren't interpreted may be cut without being noticed
                            let kids = mp4ref::atoms(&e.bytes[..], a.body(), a.end(), false)?;
                            let used = kids.iter().filter(|k| matches!(&k.cc, b"data" | b"mean" | b"name")).map(|k| {
                                // nothing is taken from the locale or version that precedes an empty content
                                let empty = k.len - k.head == if &k.cc == b"data" { 8 } else { 4 };
                                k.end() - if empty { 4 } else { 0 }
                            }).max();
                            let end = used.unwrap_or(a.body());
                            let cut = a.pos as usize + 1 + r.below((end - a.pos) as usize - 1);
                            let mut b = e.bytes.clone();
                            b.truncate(cut);
                            raw = Some(b);
                            let k = s(&["Io(UnexpectedEof)", "Parsing"]);
                            Some(Want { what: format!("cut inside item {}", a.name()), read: k.clone(), write: k })
                        }
                        _ => None,
                    }
                }
                _ => None,
            }
        }
        25 => {
            // cut inside the file type or inside a head
            let e = emit(&spec.top);
            let fl = spec.top[0].size() as usize;
            let cut = if r.chance(1, 2) { r.below(fl) } else { r.below(8.min(fl)) };
            let mut b = e.bytes.clone();
            b.truncate(cut);
            raw = Some(b);
            let k = s(&["Io(UnexpectedEof)"]);
            Some(Want { what: format!("cut at {cut}, inside the file type"), read: k.clone(), write: k })
        }
        _ => {
            // a movie header or descriptor that is too short to hold its fields
            match r.below(4) {
                3 => {
                    // an audio configuration of less than two bytes
                    let k = r.below(2);
                    edit(r, &mut spec, &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds"], &mut |n, r| {
                        let mut dc = vec![0x40, 0x15];
                        dc.extend(r.bytes(11));
                        dc.extend([5, k as u8]);
                        dc.extend(r.bytes(k));
                        if r.chance(1, 2) {
                            dc.extend([0x14, 3, 1, 2, 3]);
                        }
                        let mut es = vec![0, 1, 0, 4, dc.len() as u8];
                        es.extend(dc);
                        es.extend([6, 1, 2]);
                        let mut b = vec![0, 0, 0, 0, 3, es.len() as u8];
                        b.extend(es);
                        *body_mut(n) = b;
                    })
                    .then(|| Want { what: format!("audio configuration of {k} bytes"), read: s(&["Parsing"]), write: None })
                }
                0 => data_atom(r, &mut spec, &mut |n, r| {
                    let k = r.below(8);
                    body_mut(n).truncate(k);
                })
                .then(|| Want { what: "data atom too short for its type".into(), read: s(&["Parsing", "Io(UnexpectedEof)"]), write: None }),
                1 => edit(r, &mut spec, &[b"moov", b"mvhd"], &mut |n, r| {
                    let b = body_mut(n);
                    let need = if b[0] == 0 { 20 } else { 32 };
                    let k = r.range(4, need - 1);
                    b.truncate(k);
                })
                .then(|| Want { what: "movie header too short".into(), read: s(&["Parsing", "Io(UnexpectedEof)"]), write: None }),
                _ => edit(r, &mut spec, &[b"moov", b"mvhd"], &mut |n, _| {
                    let b = body_mut(n);
                    let o = if b[0] == 0 { 12 } else { 20 };
                    b[o..o + 4].fill(0);
                })
                .then(|| Want { what: "time scale 0".into(), read: s(&["Parsing"]), write: None }),
            }
        }
    };
    let Some(want) = want else {
        cx.count("not applicable to the generated file", 1);
        return Ok(());
    };
    let b = raw.unwrap_or_else(|| emit(&spec.top).bytes);
    cx.note = format!("{}; {}", want.what, spec.describe());
    cx.artifact("file", &b);
    for (op, w) in [(Op::Read, &want.read), (Op::Write, &want.write)] {
        let Some(w) = w else { continue };
        let name = if op == Op::Read { "reading" } else { "writing" };
        let e = match op {
            Op::Read => read(&b)?.map(|_| ()).err(),
            Op::Write => {
                let (items, tag) = (gen_items(&mut cx.r, TagCfg { items: 3, values: 2, val_len: 40, budget: 200 }), ());
                let _ = tag;
                let tag = build_tag(&items, &mut cx.r);
                let (res, after) = write(&tag, &b)?;
                if res.is_err() {
                    if let Some(d) = first_diff(&b, &after) {
                        fail!("{}: the write was rejected but the file changed: {d}", want.what);
                    }
                }
                res.err()
            }
        };
        let Some(e) = e else { fail!("{}: {name} succeeded, expected {}", want.what, w.join(" or ")) };
        let k = kind(&e);
        ensure!(w.iter().any(|x| *x == k), "{}: {name} failed with {k}, expected {}", want.what, w.join(" or "));
        cx.count(&format!("{name}: {}", k.split('(').next().unwrap()), 1);
    }
    cx.count(&format!("defect {which:02}"), 1);
    cx.eval(fnv(which, &b), true);
    cx.sample(|| format!("{}: {}", want.what, spec.describe()));
    Ok(())
}

/// whether the size at `pos` is read as the head of an atom when a file is read
fn interpreted(path: &str, e: &Emitted, pos: usize) -> bool {
    let parts: Vec<&str> = path.split('/').collect();
    let parents = &parts[..parts.len() - 1];
    let ok = match parents {
        [] => {
            // top-level atoms up to and including the movie
            let m = e.fields.iter().find(|f| f.path == "moov").map(|f| f.pos).unwrap_or(0);
            return path == "moov" || pos < m;
        }
        ["moov"] | ["moov", "udta"] | ["moov", "udta", "meta"] | ["moov", "udta", "meta", "ilst"] => true,
        ["moov", "udta", "meta", "ilst", item] => *item != "free",
        ["moov", "trak"] | ["moov", "trak", "mdia"] | ["moov", "trak", "mdia", "minf"] | ["moov", "trak", "mdia", "minf", "stbl"] => true,
        ["moov", "trak", "mdia", "minf", "stbl", "stsd"] => true,
        ["moov", "trak", "mdia", "minf", "stbl", "stsd", "mp4a"] => parts.last() == Some(&"esds"),
        _ => false,
    };
    ok
}

/// the same for writes
fn write_interpreted(path: &str) -> bool {
    let parts: Vec<&str> = path.split('/').collect();
    matches!(
        &parts[..parts.len() - 1],
        [] | ["moov"] | ["moov", "udta"] | ["moov", "udta", "meta"] | ["moov", "trak"] | ["moov", "trak", "mdia"]
            | ["moov", "trak", "mdia", "minf"] | ["moov", "trak", "mdia", "minf", "stbl"]
    )
}

/// moves the named child to the end, at every level
fn last_path(n: &mut N, path: &[&[u8; 4]]) {
    if path.is_empty() {
        return;
    }
    if let N::Box { kids, .. } = n {
        if let Some(k) = kids.iter().position(|x| &x.cc() == path[0]) {
            let x = kids.remove(k);
            kids.push(x);
            let l = kids.len() - 1;
            last_path(&mut kids[l], &path[1..]);
        }
    }
}
