//! C24 (copies and comparisons), C25 (errors carry and tell their cause).

use super::common::*;
use super::corrupt::{get_field, random_mutation, set_field, values_for};
use super::dataapi::near_miss;
use crate::io::{with_plan, Plan, OPEN, READ, SEEK, TRUNC, WRITE};
use mp4ameta::Img;
use std::error::Error as _;

// ------------------------------------------------------------------------------------------ C24

pub const C24: Prop = Prop {
    id: "C24",
    level: "exploration",
    rule: "distinct pairs of contents (file type, audio information, items) compared as tags, and pairs of values and images",
    assumptions: &["the order of identifiers and values is part of the content"],
    quick: 300000,
    thorough: 8_000_000,
    single: false,
    exhaustive: false,
    case: c24,
};

#[derive(Clone)]
struct Content {
    ftyp: String,
    items: Items,
    mvhd: (u8, u32, u64),
    mp4a: Option<(N, Audio)>,
}

impl Content {
    fn file(&self) -> Vec<u8> {
        let (v, ts, d) = self.mvhd;
        let mut kids = vec![mvhd_node(v, ts, d, &[0; 80])];
        if let Some((n, _)) = &self.mp4a {
            let stsd = N::Box { cc: *b"stsd", ext: false, pre: vec![0, 0, 0, 0, 0, 0, 0, 1], kids: vec![n.clone()] };
            let stbl = N::container(b"stbl", vec![stsd]);
            kids.push(N::container(b"trak", vec![N::container(b"mdia", vec![N::container(b"minf", vec![stbl])])]));
        }
        let ilst = N::container(b"ilst", self.items.iter().map(|(i, v)| item_plain(i, v)).collect());
        let hdlr = N::leaf(b"hdlr", [&[0u8; 8][..], b"mdirappl", &[0; 9]].concat());
        kids.push(N::container(b"udta", vec![N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![hdlr, ilst] }]));
        emit(&[N::leaf(b"ftyp", self.ftyp.as_bytes().to_vec()), N::container(b"moov", kids)]).bytes
    }
    /// what a tag of this content is made of
    fn key(&self) -> (String, Items, Option<u128>, Option<u8>, Option<u8>, Option<u32>, Option<u32>) {
        let a = self.mp4a.as_ref().map(|x| x.1.clone()).unwrap_or_default();
        let (_, ts, d) = self.mvhd;
        let nanos = d as u128 * 1_000_000_000 / ts as u128;
        (
            self.ftyp.clone(),
            self.items.clone(),
            Some(nanos),
            a.channel_cfg.filter(|c| (1..=7).contains(c)),
            a.rate_idx.filter(|c| *c < 13),
            a.max,
            a.avg,
        )
    }
}

fn vary_value(r: &mut Rng, v: &V) -> V {
    let raw = v.raw();
    match r.below(4) {
        // the same bytes as another kind
        0 => match v {
            V::Utf8(s) => V::Utf16(s.clone()),
            V::Utf16(s) => V::Utf8(s.clone()),
            V::Reserved(b) => V::Signed(b.clone()),
            V::Signed(b) => V::Reserved(b.clone()),
            V::Jpeg(b) => V::Png(b.clone()),
            V::Png(b) => V::Bmp(b.clone()),
            V::Bmp(b) => V::Reserved(b.clone()),
        },
        1 => match v {
            V::Utf8(s) => V::Utf8(format!("{s}\0")),
            V::Utf16(s) => V::Utf16(format!("{s} ")),
            V::Reserved(b) => V::Reserved([&b[..], &[0]].concat()),
            V::Signed(b) => V::Signed([&[0], &b[..]].concat()),
            V::Jpeg(b) => V::Jpeg([&b[..], &[0]].concat()),
            V::Png(b) => V::Png([&b[..], &[255]].concat()),
            V::Bmp(b) => V::Bmp(b.iter().rev().copied().collect()),
        },
        _ => {
            let mut b = raw;
            if b.is_empty() {
                b.push(0);
            } else {
                let k = *r.pick(&[0, b.len() - 1, b.len() / 2, r.clone().below(b.len()), r.clone().below(b.len().min(5000))]);
                b[k] ^= 1 << r.below(8);
            }
            if r.chance(1, 2) {
                if let V::Utf8(s) | V::Utf16(s) = v {
                    // one character somewhere
                    let n = s.chars().count();
                    if n > 0 {
                        let k = r.below(n);
                        let t: String = s.chars().enumerate().map(|(i, c)| if i != k { c } else if c == 'q' { 'p' } else { 'q' }).collect();
                        return if v.code() == 1 { V::Utf8(t) } else { V::Utf16(t) };
                    }
                }
            }
            match v {
                V::Utf8(s) | V::Utf16(s) => {
                    // case, or one character more
                    let t: String = s.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap_or(c) } else { c.to_lowercase().next().unwrap_or(c) }).collect();
                    let t = if t == *s { format!("{s}a") } else { t };
                    if v.code() == 1 { V::Utf8(t) } else { V::Utf16(t) }
                }
                V::Reserved(_) => V::Reserved(b),
                V::Signed(_) => V::Signed(b),
                V::Jpeg(_) => V::Jpeg(b),
                V::Png(_) => V::Png(b),
                V::Bmp(_) => V::Bmp(b),
            }
        }
    }
}

fn vary(r: &mut Rng, c: &mut Content) -> &'static str {
    let n = c.items.len();
    for _ in 0..20 {
        match r.below(18) {
            0 => return "nothing",
            1 => {
                c.ftyp = match r.below(3) {
                    0 => c.ftyp.to_lowercase(),
                    1 => format!("{}\0", c.ftyp),
                    _ => mp4gen::gen_ftyp(r),
                };
                return "file type";
            }
            2 => {
                c.mvhd.2 = c.mvhd.2.wrapping_add(1) & 0xffff_ffff;
                return "duration by one unit";
            }
            3 => {
                // the same duration in another form
                let (v, ts, d) = c.mvhd;
                if ts < 1 << 30 && d < 1 << 30 {
                    c.mvhd = (1 - v, ts * 2, d * 2);
                    return "representation of the duration";
                }
            }
            4 => {
                if let Some((_, a)) = &c.mp4a {
                    c.mp4a = Some(mp4a(r, 0, a.rate_idx, a.channel_cfg));
                    return "bitrates";
                }
            }
            5 => {
                c.mp4a = match r.below(2) {
                    0 => None,
                    _ => Some(mp4a(r, 0, None, None)),
                };
                return "audio information";
            }
            6 if n > 0 => {
                let (i, v) = r.pick(&c.items).clone();
                let k = r.below(v.len());
                let x = vary_value(r, &v[k]);
                c.items.iter_mut().find(|o| o.0 == i).unwrap().1[k] = x;
                return "a value";
            }
            7 if n > 0 => {
                let k = r.below(n);
                let v = &mut c.items[k].1;
                let j = r.below(v.len());
                v.remove(j);
                if v.is_empty() {
                    c.items.remove(k);
                }
                return "one value less";
            }
            8 if n > 0 => {
                let k = r.below(n);
                let v = &mut c.items[k].1;
                let j = r.below(v.len());
                let x = v[j].clone();
                v.insert(j, x);
                return "a value repeated";
            }
            9 if n > 1 => {
                let k = r.below(n - 1);
                c.items.swap(k, k + 1);
                return "the order of identifiers";
            }
            10 if n > 0 => {
                let k = r.below(n);
                let v = &mut c.items[k].1;
                if v.len() > 1 {
                    let j = r.below(v.len() - 1);
                    v.swap(j, j + 1);
                    return "the order of values";
                }
            }
            11 if n > 0 => {
                let k = r.below(n);
                let id = near_miss(r, &c.items[k].0.clone());
                if id != Id::F(*b"free") && !c.items.iter().any(|x| x.0 == id) {
                    c.items[k].0 = id;
                    return "an identifier";
                }
            }
            12 if n > 1 => {
                // a value moves to another identifier
                let (k, j) = (r.below(n), r.below(n));
                if k != j {
                    let x = c.items[k].1.pop().unwrap();
                    c.items[j].1.push(x);
                    if c.items[k].1.is_empty() {
                        c.items.remove(k);
                    }
                    return "the identifier of a value";
                }
            }
            13 if n > 1 => {
                // the values in a row stay the same, their identifiers don't
                let k = r.below(n - 1);
                if r.chance(1, 2) {
                    let x = c.items[k].1.pop().unwrap();
                    c.items[k + 1].1.insert(0, x);
                } else {
                    let x = c.items[k + 1].1.remove(0);
                    c.items[k].1.push(x);
                }
                if c.items[k + 1].1.is_empty() {
                    c.items.remove(k + 1);
                }
                if c.items[k].1.is_empty() {
                    c.items.remove(k);
                }
                return "the identifier of a value at the border";
            }
            14 if n > 1 => {
                // the same values for other identifiers
                let (k, j) = (r.below(n), r.below(n));
                if k != j {
                    let (x, y) = (c.items[k].1.clone(), c.items[j].1.clone());
                    if r.chance(1, 2) {
                        c.items[k].1 = y;
                        c.items[j].1 = x;
                        return "the values of two identifiers swapped";
                    }
                    let (p, q) = (r.below(x.len()), r.below(y.len()));
                    c.items[k].1[p] = y[q].clone();
                    c.items[j].1[q] = x[p].clone();
                    return "two values swapped between identifiers";
                }
            }
            15 if n > 1 => {
                if r.chance(1, 2) {
                    c.items.reverse();
                } else {
                    let k = r.below(n);
                    c.items.rotate_left(k);
                }
                return "the order of all identifiers";
            }
            16 if n > 0 => {
                // the bytes in a row stay the same, the values they are part of don't
                let k = r.below(n);
                let v = &mut c.items[k].1;
                if v.len() > 1 {
                    let j = r.below(v.len() - 1);
                    match (v[j].clone(), v[j + 1].clone()) {
                        (V::Utf8(mut a), V::Utf8(b)) => {
                            if let Some(x) = a.pop() {
                                v[j] = V::Utf8(a);
                                v[j + 1] = V::Utf8(format!("{x}{b}"));
                                return "the border between two values";
                            }
                        }
                        (V::Signed(mut a), V::Signed(mut b)) if !a.is_empty() => {
                            b.insert(0, a.pop().unwrap());
                            v[j] = V::Signed(a);
                            v[j + 1] = V::Signed(b);
                            return "the border between two values";
                        }
                        (V::Reserved(mut a), V::Reserved(mut b)) if !a.is_empty() => {
                            b.insert(0, a.pop().unwrap());
                            v[j] = V::Reserved(a);
                            v[j + 1] = V::Reserved(b);
                            return "the border between two values";
                        }
                        _ => {}
                    }
                }
            }
            17 if n > 0 => {
                // the same difference twice
                let k = r.below(n);
                let j = r.below(n);
                let m = 1 << r.below(7);
                let mut hit = 0;
                for i in [k, j].iter() {
                    let v = &mut c.items[*i].1;
                    let l = v.len() - 1;
                    let p = if k == j && hit == 1 { 0 } else { l };
                    if let V::Signed(b) | V::Reserved(b) | V::Jpeg(b) | V::Png(b) | V::Bmp(b) = &mut v[p] {
                        if let Some(x) = b.last_mut() {
                            *x ^= m;
                            hit += 1;
                        }
                    }
                }
                if hit > 0 {
                    return "the same bit in two values";
                }
            }
            _ => {}
        }
    }
    "nothing"
}

fn any_info(r: &mut Rng) -> mp4ameta::AudioInfo {
    use std::convert::TryFrom;
    let opt = |r: &mut Rng| r.chance(4, 5);
    let int = |r: &mut Rng| dict::int(r) as u32;
    mp4ameta::AudioInfo {
        duration: if opt(r) { Some(std::time::Duration::new(r.u64() >> r.below(64), r.below(1_000_000_000) as u32)) } else { None },
        channel_config: mp4ameta::ChannelConfig::try_from(r.below(9) as u8).ok(),
        sample_rate: mp4ameta::SampleRate::try_from(r.below(15) as u8).ok(),
        max_bitrate: if opt(r) { Some(int(r)) } else { None },
        avg_bitrate: if opt(r) { Some(int(r)) } else { None },
    }
}

fn c24(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    let mut items = gen_items(r, TagCfg { items: 6, values: 3, val_len: 40, budget: 400 });
    if cx.idx % 256 == 7 {
        items = big_items(r);
    } else if cx.idx % 32 == 9 {
        let l = r.below(*r.clone().pick(&[300usize, 3000, 20_000]));
        items.push((gen_id(r), vec![val_of_kind(r.below(7), l, &mut r.clone())]));
    }
    let items = merge(&items);
    let ts = *r.pick(&[1u32, 1000, 44100, 1_000_000, 1_000_000_000]);
    let d = r.u64() >> r.range(32, 60);
    let a = Content {
        ftyp: mp4gen::gen_ftyp(r),
        items,
        mvhd: (r.below(2) as u8, ts, d & 0xffff_ffff),
        mp4a: if r.chance(3, 4) { Some(mp4a(r, 0, None, None)) } else { None },
    };
    let mut b = a.clone();
    let what = vary(r, &mut b);
    let equal = a.key() == b.key();
    cx.note = format!("differing in {what}; {}", summary(&a.items));
    let ta = read_ok(&a.file())?;
    let tb = read_ok(&b.file())?;
    let r = &mut cx.r;
    macro_rules! cmp {
        ($x:expr, $y:expr, $w:expr, $what:expr) => {{
            let (x, y) = (&$x, &$y);
            let (e, f, n, m) = call("comparing", || (x == y, y == x, x != y, y != x))?;
            ensure!(e == $w && f == $w && n != $w && m != $w, "{} compare as ==: {e}, reversed {f}, !=: {n}, reversed {m}, want {}", $what, $w);
        }};
    }
    cmp!(ta, tb, equal, format!("tags differing in {what}"));
    cmp!(ta, ta, true, "a tag and itself");
    let ca = call("cloning", || ta.clone())?;
    cmp!(ta, ca, true, "a tag and its clone");
    cmp!(tb, ca, equal, format!("a tag and the clone of another differing in {what}"));
    ensure!(ca.filetype() == ta.filetype() && ca.audio_info() == ta.audio_info(), "a clone has another file type or audio information");
    if let Some(d) = diff(&tag_items(&ca), &a.items) {
        fail!("a clone differs: {d}");
    }
    let infos = a.key().2 == b.key().2 && a.key().3 == b.key().3 && a.key().4 == b.key().4 && a.key().5 == b.key().5 && a.key().6 == b.key().6;
    cmp!(*ta.audio_info(), *tb.audio_info(), infos, format!("audio information of tags differing in {what}"));
    // editing one of the copies
    let mut ea = ca.clone();
    let v = gen_val(r, 20);
    ea.add_data(FreeformIdent::new("com.mon", "copy"), v.data());
    cmp!(ea, ta, false, "a tag and its edited clone");
    ensure!(tag_items(&ca) == a.items && tag_items(&ta) == a.items, "editing a clone changed the original");
    ea.remove_data_of(&FreeformIdent::new("com.mon", "copy"));
    let had = a.items.iter().any(|x| x.0 == Id::S("com.mon".into(), "copy".into()));
    if !had {
        cmp!(ea, ta, true, "a tag and its clone whose edit was undone");
    }
    // tags made by edits alone
    let (x, y) = (build_tag(&a.items, r), build_tag(&b.items, r));
    cmp!(x, y, a.items == b.items, format!("tags built from items differing in {what}"));
    // clear keeps the rest
    let mut z = ta.clone();
    z.clear();
    let mut w = tb.clone();
    w.clear();
    cmp!(z, w, a.ftyp == b.ftyp && infos, format!("cleared tags differing in {what}"));
    // values and images
    for _ in 0..3 {
        let r = &mut cx.r;
        let v = if r.chance(1, 100) {
            let l = *r.pick(model::BIG_LENS) >> r.below(8);
            val_of_kind(r.below(7), l, r)
        } else {
            gen_val(r, 30)
        };
        cx.max("bytes of a compared value", v.raw().len() as u64);
        let r = &mut cx.r;
        let u = match r.below(3) {
            0 => v.clone(),
            1 => vary_value(r, &v),
            _ => gen_val(r, 3),
        };
        let (d, e) = (v.data(), u.data());
        cmp!(d, e, v == u, format!("values {v:?} and {u:?}"));
        cmp!(d, d.clone(), true, format!("the value {v:?} and its clone"));
        if let (Some((f, p)), Some((g, q))) = (v.image(), u.image()) {
            let same = f == g && p == q;
            let (i, j) = (d.image().ok_or("an image value without image")?, e.image().ok_or("an image value without image")?);
            cmp!(i, j, same, format!("image views of {v:?} and {u:?}"));
            cmp!(i, i.clone(), true, format!("the image view of {v:?} and its clone"));
            let (o, q) = (Img::new(i.fmt.clone(), i.data.to_vec()), Img::new(j.fmt.clone(), j.data.to_vec()));
            cmp!(o, q, same, format!("images {v:?} and {u:?}"));
            cmp!(i.fmt, j.fmt, f == g, format!("formats of {v:?} and {u:?}"));
            cx.count("image pairs", 1);
        }
        cx.count("value pairs", 1);
    }
    // audio information made by hand, differing in at most one field by little
    for _ in 0..2 {
        let r = &mut cx.r;
        let x = any_info(r);
        let mut y = x.clone();
        let field = r.below(7);
        match field {
            0 => y.duration = y.duration.map(|d| if d.subsec_nanos() == 0 { d + std::time::Duration::from_nanos(1) } else { d - std::time::Duration::from_nanos(1) }),
            1 => y.duration = y.duration.map(|d| std::time::Duration::new(d.as_secs() ^ 1 << r.below(64), d.subsec_nanos())),
            2 => y.max_bitrate = y.max_bitrate.map(|b| b ^ 1 << r.below(32)),
            3 => y.avg_bitrate = y.avg_bitrate.map(|b| b ^ 1 << r.below(32)),
            4 => y.channel_config = any_info(r).channel_config,
            5 => y.sample_rate = any_info(r).sample_rate,
            _ => std::mem::swap(&mut y.avg_bitrate, &mut y.max_bitrate),
        }
        let same = x.duration.map(|d| d.as_nanos()) == y.duration.map(|d| d.as_nanos())
            && x.max_bitrate == y.max_bitrate
            && x.avg_bitrate == y.avg_bitrate
            && x.channel_config.map(|c| c.channel_count()) == y.channel_config.map(|c| c.channel_count())
            && format!("{:?}", x.channel_config) == format!("{:?}", y.channel_config)
            && x.sample_rate.map(|s| s.hz()) == y.sample_rate.map(|s| s.hz());
        cmp!(x, y, same, format!("audio information {x:?} and {y:?}"));
        cmp!(x, x.clone(), true, format!("audio information {x:?} and its clone"));
        let (t, u) = (Tag::new(String::from("M4A "), x.clone(), vec![]), Tag::new(String::from("M4A "), y.clone(), vec![]));
        cmp!(t, u, same, format!("new tags with audio information {x:?} and {y:?}"));
        cx.count(if same { "equal pairs of audio information" } else { "unequal pairs of audio information" }, 1);
    }
    cx.count(&format!("differing in {what}"), 1);
    cx.count(if equal { "equal pairs of tags" } else { "unequal pairs of tags" }, 1);
    let h = fnv(fnv(items_hash(&a.items), what.as_bytes()), a.ftyp.as_bytes());
    cx.eval(fnv(h, &b.file()), true);
    cx.sample(|| format!("differing in {what}: {}", summary(&a.items)));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25

pub const C25: Prop = Prop {
    id: "C25",
    level: "exploration",
    rule: "distinct errors (their text) returned by operations on damaged files and failing I/O, or made by conversions",
    assumptions: &["what an error says is only required to contain its description and the name of its kind"],
    quick: 60000,
    thorough: 4_000_000,
    single: false,
    exhaustive: false,
    case: c25,
};

fn check_error(cx: &mut Ctx, e: &Error, from: &str) -> Outcome {
    let (disp, dbg) = call("formatting an error", || (e.to_string(), format!("{e:?}")))?;
    let (alt, padded) = call("formatting an error", || (format!("{e:#}"), format!("{e:>40}")))?;
    let name: String = format!("{:?}", e.kind).chars().take_while(|c| c.is_alphanumeric()).collect();
    for (how, s) in [("Display", &disp), ("Debug", &dbg), ("alternate Display", &alt), ("padded Display", &padded)] {
        ensure!(s.contains(&name), "{how} of an error of kind {name} ({from}) is {s:?}");
        ensure!(s.contains(&e.description), "{how} of an error does not contain its description {:?} ({from}): {s:?}", e.description);
    }
    let src = e.source();
    #[allow(deprecated)]
    let cause = e.cause();
    match &e.kind {
        ErrorKind::Io(io) => {
            for (how, s) in [("source", src.map(|s| s.to_string())), ("cause", cause.map(|s| s.to_string()))] {
                ensure!(s.as_deref() == Some(&io.to_string()[..]), "the {how} of an I/O error ({io}, {from}) is {s:?}");
            }
            let s = src.and_then(|s| s.downcast_ref::<std::io::Error>());
            ensure!(s.map(|s| (s.kind(), s.raw_os_error())) == Some((io.kind(), io.raw_os_error())), "the source of an I/O error ({io}, {from}) is {s:?}");
            cx.count("I/O errors", 1);
        }
        _ => cx.count("other errors", 1),
    }
    // walking the chain ends
    let mut n = 0;
    let mut s = src;
    while let Some(x) = s {
        n += 1;
        ensure!(n < 32, "the chain of sources does not end ({from})");
        s = x.source();
    }
    cx.count(&format!("kind {name}"), 1);
    cx.eval(fnv(0, disp.as_bytes()), true);
    cx.sample(|| format!("{from}: {disp}"));
    Ok(())
}

const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::Interrupted,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::Other,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::OutOfMemory,
];

fn conversions(cx: &mut Ctx) -> Outcome {
    let r = &mut cx.r;
    // from I/O errors of every make
    let tok = r.u64();
    let k = *r.pick(KINDS);
    let io = |m: u64| -> std::io::Error {
        match m {
            0 => std::io::Error::new(k, mio::Injected(tok)),
            1 => std::io::Error::from(k),
            2 => std::io::Error::from_raw_os_error((tok % 130) as i32 + 1),
            _ => std::io::Error::new(k, format!("text {tok}")),
        }
    };
    let m = r.below(4) as u64;
    let (want, e) = (io(m), call("converting an I/O error", || Error::from(io(m)))?);
    match &e.kind {
        ErrorKind::Io(g) => {
            ensure!(g.kind() == want.kind() && g.raw_os_error() == want.raw_os_error() && g.to_string() == want.to_string(), "an I/O error {want:?} was converted to {g:?}");
            let t = g.get_ref().and_then(|x| x.downcast_ref::<mio::Injected>()).map(|x| x.0);
            ensure!(t == if m == 0 { Some(tok) } else { None }, "converting an I/O error lost its payload");
        }
        k => fail!("an I/O error was converted to {k:?}"),
    }
    check_error(cx, &e, "conversion of an I/O error")?;
    // from decoding errors
    let r = &mut cx.r;
    let mut b = gen_string(r, 30).into_bytes();
    let at = r.below(b.len() + 1);
    b.splice(at..at, [*r.pick(&[0xff, 0xc0, 0xfe, 0xf8])]);
    let w = b.clone();
    if let Err(u) = String::from_utf8(b) {
        let e = call("converting a UTF-8 error", || Error::from(u))?;
        match &e.kind {
            ErrorKind::Utf8StringDecoding(g) => ensure!(g.as_bytes() == &w[..], "a UTF-8 error lost its data"),
            k => fail!("a UTF-8 error was converted to {k:?}"),
        }
        check_error(cx, &e, "conversion of a UTF-8 error")?;
    }
    if let Err(u) = String::from_utf16(&[0x41, 0xd800 + (tok % 0x400) as u16, 0x42]) {
        let e = call("converting a UTF-16 error", || Error::from(u))?;
        ensure!(matches!(e.kind, ErrorKind::Utf16StringDecoding(_)), "a UTF-16 error was converted to {:?}", e.kind);
        check_error(cx, &e, "conversion of a UTF-16 error")?;
    }
    // made by hand
    let r = &mut cx.r;
    let text = match r.below(4) {
        0 => String::new(),
        1 => "{} {0:?} %s \\ \0\n".to_string(),
        2 if r.chance(1, 8) => {
            let l = *r.pick(model::BIG_LENS) >> r.below(9);
            gen_string_len(r, l)
        }
        2 => gen_string(r, 3000),
        _ => gen_string(r, 60),
    };
    let (x, y) = (r.u8(), r.u32());
    let made = [
        ErrorKind::AtomNotFound(Fourcc(y.to_be_bytes())),
        ErrorKind::DescriptorNotFound(x),
        ErrorKind::NoTag,
        ErrorKind::Parsing,
        ErrorKind::UnknownChannelConfig(x),
        ErrorKind::UnknownDataType(y),
        ErrorKind::UnknownMediaType(x),
        ErrorKind::UnknownVersion(x),
        ErrorKind::UnwritableData,
    ];
    for k in made {
        let before = format!("{k:?}");
        let e = call("Error::new", || Error::new(k, text.clone()))?;
        ensure!(format!("{:?}", e.kind) == before && e.description == text, "Error::new({before}, {text:?}) is {e:?}");
        let s = e.to_string();
        let v = match &e.kind {
            ErrorKind::DescriptorNotFound(_) | ErrorKind::UnknownChannelConfig(_) | ErrorKind::UnknownMediaType(_) | ErrorKind::UnknownVersion(_) => Some(x.to_string()),
            ErrorKind::UnknownDataType(_) => Some(y.to_string()),
            _ => None,
        };
        if let Some(v) = v {
            ensure!(s.contains(&v), "an error of kind {before} says {s:?}, without the value it carries");
        }
        check_error(cx, &e, "Error::new")?;
    }
    Ok(())
}

fn c25(cx: &mut Ctx) -> Outcome {
    if cx.idx % 4 == 0 {
        return conversions(cx);
    }
    let r = &mut cx.r;
    let c = Cfg::small(r);
    let spec = gen(r, c);
    let e = emit(&spec.top);
    cx.note = spec.describe();
    if cx.idx % 4 == 1 {
        // failing I/O
        for _ in 0..6 {
            let r = &mut cx.r;
            let errno = *r.pick(&[5, 28, 13, 22, 9, 27]);
            let mask = *r.pick(&[READ, WRITE, SEEK, TRUNC, OPEN | READ, READ | WRITE | SEEK | TRUNC]);
            let at = r.below(12) as u64;
            let items = gen_items(r, TagCfg { items: 3, values: 2, val_len: 30, budget: 100 });
            let t = build_tag(&items, r);
            let f = mio::memfile_with(&e.bytes);
            let writing = r.chance(1, 2);
            let (res, p) = with_plan(Plan::fail(mask, at, errno, r.chance(1, 2)), || {
                if writing {
                    call("write_to", || t.write_to(&f))
                } else {
                    call("read_from", || Tag::read_from(&mut &f).map(|_| ()))
                }
            });
            if let Err(e) = res? {
                let from = if writing { "a write" } else { "a read" };
                if p.fired > 0 {
                    if let ErrorKind::Io(_) = &e.kind {
                        let got = e.source().and_then(|s| s.downcast_ref::<std::io::Error>()).and_then(|s| s.raw_os_error());
                        ensure!(got == Some(errno), "the source of the error of {from} that failed with error number {errno} is {got:?}");
                    }
                }
                check_error(cx, &e, from)?;
            }
        }
        return Ok(());
    }
    let o = {
        let c = Cfg::small(r);
        emit(&gen(r, c).top).bytes
    };
    for _ in 0..12 {
        let r = &mut cx.r;
        let b = match r.below(3) {
            0 => random_mutation(r, &e.bytes, &e.fields, &o),
            1 => e.bytes[..r.below(e.bytes.len())].to_vec(),
            _ => {
                let mut b = e.bytes.clone();
                let f = r.pick(&e.fields).clone();
                let cur = get_field(&b, &f);
                let vs = values_for(r, &f, cur, true);
                if !vs.is_empty() {
                    let v = *r.pick(&vs);
                    set_field(&mut b, &f, v);
                }
                b
            }
        };
        if let Err(e) = read(&b)? {
            cx.artifacts.clear();
            cx.artifact("input", &b);
            check_error(cx, &e, "reading a damaged file")?;
        }
        let t = Tag::default();
        if let (Err(e), _) = write(&t, &b)? {
            check_error(cx, &e, "writing to a damaged file")?;
        }
    }
    Ok(())
}
