//! C16 the printed form of a tag.

use super::common::*;
use super::fields::*;
use super::tables::RATES;
use mp4ameta::{AudioInfo, ChannelConfig};
use std::convert::TryFrom;
use std::time::Duration;

fn label(name: &str) -> String {
    name.replace('_', " ")
}

fn list(out: &mut Vec<String>, one: &str, many: &str, v: &[String]) {
    match v {
        [] => {}
        [s] => out.push(format!("{one}: {s}\n")),
        v => {
            let mut s = format!("{many}:\n");
            for x in v {
                s += &format!("    {x}\n");
            }
            out.push(s);
        }
    }
}

fn pair(out: &mut Vec<String>, name: &str, v: &[V]) {
    match (half(v, 2), half(v, 4)) {
        (Some(a), Some(b)) => out.push(format!("{name}: {a} of {b}\n")),
        (Some(a), None) => out.push(format!("{name}: {a}\n")),
        (None, Some(b)) => out.push(format!("{name}: ? of {b}\n")),
        (None, None) => {}
    }
}

fn size(n: usize) -> String {
    if n < 1 << 10 {
        format!("{n}")
    } else if n < 1 << 20 {
        format!("{}k", n >> 10)
    } else {
        format!("{}M", n >> 20)
    }
}

fn duration(d: Duration) -> String {
    let n = d.as_nanos();
    let s = n / 1_000_000_000;
    if s == 0 {
        return match n {
            0..=999 => format!("{n}ns"),
            1_000..=999_999 => format!("{}µs", n / 1_000),
            _ => format!("{}ms", n / 1_000_000),
        };
    }
    match s {
        0..=59 => format!("{s}s"),
        60..=3599 => format!("{}:{:02}", s / 60, s % 60),
        _ => format!("{}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60),
    }
}

fn debug(v: &V) -> String {
    match v {
        V::Reserved(b) => format!("Data::Reserved({b:?})"),
        V::Signed(b) => format!("Data::BeSigned({b:?})"),
        V::Utf8(s) => format!("Data::Utf8({s:?})"),
        V::Utf16(s) => format!("Data::Utf16({s:?})"),
        V::Jpeg(_) => "Data::Jpeg".into(),
        V::Png(_) => "Data::Png".into(),
        V::Bmp(_) => "Data::Bmp".into(),
    }
}

/// the blocks that must be printed, in no particular order, and the last line
fn blocks(items: &Items, info: &AudioInfo, ftyp: &str) -> (Vec<String>, String) {
    let mut o = vec![];
    for f in SINGLES {
        if let Some(s) = strings(vals(items, &f.key.id())).first() {
            o.push(format!("{}: {s}\n", label(f.name)));
        }
    }
    for f in MULTIS.iter().filter(|f| f.name != "custom_genre") {
        list(&mut o, &label(f.name), &label(f.plural), &strings(vals(items, &f.key.id())));
    }
    list(&mut o, "genre", "genres", &genre_list(items));
    for f in FLAGS {
        if bytes(vals(items, &f.key.id())).first().map_or(false, |b| b.first() == Some(&1)) {
            o.push(format!("{}\n", label(f.name)));
        }
    }
    for f in INTS {
        if let Some(v) = lead(vals(items, &f.key.id()), 0, f.bytes) {
            o.push(format!("{}: {v}\n", label(f.name)));
        }
    }
    pair(&mut o, "track", vals(items, &TRKN));
    pair(&mut o, "disc", vals(items, &DISK));
    let im: Vec<String> = images(vals(items, &COVR))
        .iter()
        .map(|(f, d)| format!("{} {}", ["bmp", "jpeg", "png"][*f as usize], size(d.len())))
        .collect();
    list(&mut o, "artwork", "artworks", &im);
    if let Some(c) = lead(vals(items, &STIK), 0, 1) {
        if let Some(m) = MEDIA_TYPES.iter().find(|m| m.1 as u64 == c) {
            o.push(format!("media type: {}\n", m.2));
        }
    }
    if let Some(c) = lead(vals(items, &RTNG), 0, 1) {
        let n = match c {
            0 => "Inoffensive",
            2 => "Clean",
            _ => "Explicit",
        };
        o.push(format!("advisory rating: {n}\n"));
    }
    if let Some(d) = info.duration {
        o.push(format!("duration: {}\n", duration(d)));
    }
    if let Some(c) = info.channel_config {
        let n = ["Mono", "Stereo", "3.0", "4.0", "5.0", "5.1", "7.1"];
        let k = (1..=7u8).find(|b| ChannelConfig::try_from(*b).ok() == Some(c)).unwrap_or(1);
        o.push(format!("channel config: {}\n", n[k as usize - 1]));
    }
    if let Some(s) = info.sample_rate {
        let hz = RATES.iter().find(|r| r.0 == s).map_or(0, |r| r.1);
        o.push(format!("sample rate: {hz}Hz\n"));
    }
    if let Some(b) = info.avg_bitrate {
        o.push(format!("average bitrate: {}kbps\n", b / 1024));
    }
    if let Some(b) = info.max_bitrate {
        o.push(format!("maximum bitrate: {}kbps\n", b / 1024));
    }
    for (i, v) in items {
        if let Id::S(..) = i {
            let mut s = format!("{}:\n", i.show());
            for x in v {
                s += &format!("    {}\n", debug(x));
            }
            o.push(s);
        }
    }
    (o, format!("filetype: {ftyp}\n"))
}

/// is `s` a concatenation of the blocks in some order?
fn permutation(s: &str, blocks: &mut Vec<String>, steps: &mut u32) -> bool {
    if blocks.is_empty() {
        return s.is_empty();
    }
    *steps += 1;
    if *steps > 20_000 {
        return true; // undecided: the caller has compared lengths and occurrences
    }
    let mut tried: Vec<usize> = (0..blocks.len()).filter(|k| s.starts_with(blocks[*k].as_str())).collect();
    tried.sort_by_key(|k| std::cmp::Reverse(blocks[*k].len()));
    let mut last = String::new();
    for k in tried {
        if blocks[k] == last {
            continue;
        }
        let b = blocks.remove(k);
        let ok = permutation(&s[b.len()..], blocks, steps);
        last = b.clone();
        blocks.insert(k, b);
        if ok {
            return true;
        }
    }
    false
}

fn check(t: &Tag, items: &Items, info: &AudioInfo, ftyp: &str) -> Res<usize> {
    let s = call("formatting", || {
        use std::fmt::Write;
        let mut s = String::new();
        write!(s, "{t}").map(|_| s)
    })?
    .map_err(|_| "formatting failed".to_string())?;
    let (mut b, last) = blocks(items, info, ftyp);
    for x in b.iter() {
        ensure!(s.contains(x.as_str()), "the output lacks {x:.200?}");
    }
    let Some(head) = s.strip_suffix(last.as_str()) else { fail!("the output does not end with {last:?} but {:?}", tail(&s)) };
    let want: usize = b.iter().map(|x| x.len()).sum();
    if head.len() != want || !permutation(head, &mut b, &mut 0) {
        let extra: Vec<&str> = head.lines().filter(|l| !b.iter().any(|x| x.lines().any(|y| y == *l))).take(4).collect();
        fail!("the output has {} bytes, the present fields need {}; lines of no field: {:.300?}; in {:.300?}", head.len(), want, extra, head);
    }
    ensure!(call("formatting", || format!("{t:>3} {t:.1}"))?.contains("filetype: "), "padded output");
    let _ = call("debug formatting", || format!("{t:?}").len() + format!("{t:#?}").len())?;
    Ok(b.len())
}

fn tail(s: &str) -> String {
    s.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect()
}

/// Accepts some bytes and fails from then on.
struct Full {
    room: usize,
    got: String,
    failed: bool,
}

impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed || s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// The same text whatever the flags; a sink that fails gets a beginning of it and its error is passed on.
fn sinks(t: &Tag, r: &mut Rng) -> Outcome {
    use std::fmt::Write;
    let text = call("Display", || t.to_string())?;
    let other = call("Display with flags", || match r.below(5) {
        0 => format!("{t:#}"),
        1 => format!("{t:4}"),
        2 => format!("{t:.2}"),
        3 => format!("{t:>300.1}"),
        _ => format!("{t:+08}"),
    })?;
    ensure!(other == text, "the text with formatting flags has {} bytes, without {}", other.len(), text.len());
    let mut w = Full { room: r.below(text.len() + 1), got: String::new(), failed: false };
    let ok = call("Display to a sink that fails", || write!(w, "{t}").is_ok())?;
    ensure!(ok != w.failed, "formatting to a sink that {} returned {}", if w.failed { "failed" } else { "did not fail" }, if ok { "Ok" } else { "an error" });
    ensure!(text.starts_with(&w.got), "a sink that fails after {} bytes got another text", w.got.len());
    ensure!(w.failed || w.got == text, "a sink got {} bytes of {}", w.got.len(), text.len());
    Ok(())
}

fn c16(ctx: &mut Ctx) -> Outcome {
    let r = &mut ctx.r;
    let opt = |r: &mut Rng| r.chance(3, 4);
    let dur = |r: &mut Rng| {
        let n: u128 = match r.below(8) {
            0 => *r.pick(&[0u128, 1, 999, 1000, 999_999, 1_000_000, 999_999_999]),
            1 => r.below(1_000_000_000) as u128,
            2 => r.below(60) as u128 * 1_000_000_000 + r.below(1_000_000_000) as u128,
            3 => r.below(3600) as u128 * 1_000_000_000 + r.below(1_000_000_000) as u128,
            4 => *r.pick(&[1u128, 59, 60, 61, 119, 120, 599, 600, 3599, 3600, 3601, 7199, 35_999, 36_000, 86_400, 359_999, 360_000]) * 1_000_000_000 + *r.pick(&[0u128, 1, 999_999_999]),
            5 => u64::MAX as u128 * 1_000_000_000 + 999_999_999,
            _ => (r.u64() >> r.below(64)) as u128 * *r.pick(&[1u128, 1_000, 1_000_000, 1_000_000_000]),
        };
        Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
    };
    let n = *r.pick(&[0usize, 1, 2, 5, 12, 30, 60]);
    let l = if r.chance(1, 40) { 20_000 } else { 80 };
    let mut items = field_items(r, n, l);
    if r.chance(1, 3) {
        // every field at once
        for id in field_ids() {
            if !items.iter().any(|(i, _)| *i == id) {
                let k = r.range(1, 2);
                let v = (0..k).map(|_| field_val(r, &id, 30)).collect();
                items.push((id, v));
            }
        }
    }
    if r.chance(1, 6) {
        let k = *r.pick(&[0usize, 1, 1023, 1024, 1025, 2047, 2048, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (3 << 20) + 5]);
        let v = img_v(r.below(3) as u8, vec![7; k]);
        items.retain(|(i, _)| *i != COVR);
        let mut vs = vec![v];
        while r.chance(1, 3) && vs.len() < 4 {
            let k = *r.pick(&[0usize, 5, 1024, 4000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 5]);
            vs.push(img_v(r.below(3) as u8, vec![7; k]));
        }
        items.push((COVR, vs));
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let id = Id::S(gen_string(r, 12), gen_string(r, 12));
            if !items.iter().any(|(i, _)| *i == id) {
                let v = (0..r.range(1, 3)).map(|_| gen_val(r, 40)).collect();
                items.push((id, v));
            }
        }
    }
    if ctx.idx % 64 == 3 {
        // long texts, many values, many items
        let r = &mut ctx.r;
        if r.chance(1, 4) {
            for x in big_items(r) {
                if x.1.len() <= 20_000 && items.len() < 3000 && !items.iter().take(60).any(|(i, _)| *i == x.0) {
                    items.push(x);
                }
            }
            items = merge(&items);
        } else {
            for _ in 0..r.range(1, 3) {
                let id = field_id(r);
                let l = *r.pick(model::BIG_LENS) % 20_011;
                let v = if r.chance(2, 3) { V::Utf8(gen_string_len(r, l)) } else { V::Utf16(gen_string_len(r, l)) };
                let n = if r.chance(1, 6) { 3 } else { 1 };
                items.retain(|(i, _)| *i != id);
                items.push((id, vec![v; n]));
            }
        }
        ctx.count("tags with long texts or many items", 1);
    }
    let r = &mut ctx.r;
    let info = AudioInfo {
        duration: if opt(r) { Some(dur(r)) } else { None },
        channel_config: ChannelConfig::try_from(r.below(9) as u8).ok(),
        sample_rate: RATES.get(r.below(16)).map(|x| x.0),
        max_bitrate: if opt(r) { Some(dict::int(r) as u32) } else { None },
        avg_bitrate: if opt(r) { Some(dict::int(r) as u32) } else { None },
    };
    let ftyp = if r.chance(1, 2) { gen_ftyp(r) } else { gen_string(r, 20) };
    ctx.note = format!("{}; {:?}", summary(&items), info);
    // the items in a tag with this audio information
    let mut t = Tag::new(ftyp.clone(), info.clone(), vec![]);
    for (i, v) in &items {
        t.set_all_data(i.data_ident(), v.iter().map(V::data).collect::<Vec<_>>());
    }
    ensure!(t.filetype() == ftyp && *t.audio_info() == info, "a new tag has the file type {:?} and {:?}", t.filetype(), t.audio_info());
    let got = (t.duration(), t.channel_config(), t.sample_rate(), t.avg_bitrate(), t.max_bitrate());
    ensure!(got == (info.duration, info.channel_config, info.sample_rate, info.avg_bitrate, info.max_bitrate), "the getters return {:?} of {:?}", got, info);
    let k = check(&t, &items, &info, &ftyp)?;
    ctx.count("tags printed", 1);
    ctx.count("blocks found", k as u64);
    ctx.max("blocks in one output", k as u64);
    ctx.eval(fnv(items_hash(&items), ctx.note.as_bytes()), k > 1);
    if ctx.r.chance(1, 4) {
        sinks(&t, &mut ctx.r)?;
        ctx.count("sinks that fail", 1);
    }
    // after edits through accessors
    if ctx.r.chance(1, 2) {
        let r = &mut ctx.r;
        for _ in 0..r.range(1, 4) {
            match r.below(7) {
                0 => (r.pick(SINGLES).set)(&mut t, "x\ny".into()),
                1 => {
                    let v = gen_string(r, 10);
                    (r.pick(MULTIS).add)(&mut t, v)
                }
                2 => (r.pick(FLAGS).set)(&mut t),
                3 => (r.pick(INTS).remove)(&mut t),
                4 => t.set_track(r.u16(), r.below(2) as u16),
                5 => t.add_standard_genre(r.below(90) as u16),
                _ => (r.pick(SINGLES).remove)(&mut t),
            }
        }
        check(&t, &tag_items(&t), &info, &ftyp).map_err(|e| format!("after edits: {e}"))?;
    }
    // a tag read from a file, also a hostile one that happens to be readable
    if ctx.r.chance(1, 8) {
        let c = Cfg::small(&mut ctx.r);
        let mut s = gen(&mut ctx.r, c);
        if ctx.r.chance(1, 2) {
            let it = field_items(&mut ctx.r, 8, 40);
            let c = Cfg::small(&mut ctx.r);
            s = gen_with(&mut ctx.r, c, it, true);
        }
        let t = read_ok(&emit(&s.top).bytes)?;
        check(&t, &s.model(), &t.audio_info().clone(), &s.ftyp).map_err(|e| format!("of a file: {e}"))?;
        ctx.count("tags of files printed", 1);
    }
    ctx.sample(|| {
        let s = t.to_string();
        s.chars().take(300).collect()
    });
    Ok(())
}

pub const C16: Prop = Prop {
    id: "C16",
    level: "exploration",
    rule: "the output is a concatenation, in any order, of exactly the blocks a reference formatter derives from the stored items, followed by the file type",
    assumptions: &["the order of the blocks is not fixed, except that the file type comes last"],
    quick: 120000,
    thorough: 4800000,
    single: false,
    exhaustive: false,
    case: c16,
};
