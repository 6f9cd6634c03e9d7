//! Reference model of a tag: an ordered list of (identifier, values), independent of the crate.

use crate::dict::{self, dict};
use crate::rng::Rng;
use mp4ameta::{Data, DataIdent, Fourcc, FreeformIdent, Tag};

pub const KNOWN_FOURCCS: &[&[u8; 4]] = &[
    b"rtng", b"\xa9alb", b"aART", b"\xa9ART", b"covr", b"tmpo", b"\xa9cmt", b"cpil", b"\xa9wrt", b"cprt",
    b"\xa9gen", b"disk", b"\xa9too", b"gnre", b"\xa9nam", b"trkn", b"\xa9day", b"\xa9grp", b"stik", b"catg",
    b"keyw", b"pcst", b"egid", b"purl", b"desc", b"\xa9lyr", b"tves", b"tven", b"tvnn", b"tvsn", b"tvsh",
    b"purd", b"pgap", b"\xa9mvn", b"\xa9mvc", b"\xa9mvi", b"\xa9wrk", b"shwm", b"soal", b"sonm", b"soar",
    b"ldes", b"hdvd", b"cnID", b"plID", b"xid ", b"apID", b"akID",
    // structural names are legal item identifiers too
    b"data", b"mean", b"name", b"----", b"ilst", b"meta", b"udta", b"moov", b"mdat", b"hdlr", b"stco",
    b"co64", b"trak", b"ftyp", b"\0\0\0\0", b"\xff\xff\xff\xff", b"\0\0\0\x01", b"FREE", b"fre\0", b"skip",
    b"\xa9ALB", b"\xa9alc", b"Covr", b"wide", b"uuid",
];

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Id {
    F([u8; 4]),
    S(String, String),
}

impl std::fmt::Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Id::F(c) => write!(f, "F({})", c.iter().map(|b| b.escape_ascii().to_string()).collect::<String>()),
            Id::S(m, n) => write!(f, "S({:?},{:?})", clip(m), clip(n)),
        }
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 40 {
        format!("{}..[{}B]", s.chars().take(30).collect::<String>(), s.len())
    } else {
        s.to_owned()
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Reserved(Vec<u8>),
    Utf8(String),
    Utf16(String),
    Jpeg(Vec<u8>),
    Png(Vec<u8>),
    Signed(Vec<u8>),
    Bmp(Vec<u8>),
}

fn clipb(v: &[u8]) -> String {
    if v.len() > 24 {
        format!("{:02x?}..[{}B]", &v[..16], v.len())
    } else {
        format!("{:02x?}", v)
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            V::Reserved(v) => write!(f, "Reserved{}", clipb(v)),
            V::Utf8(s) => write!(f, "Utf8({:?})", clip(s)),
            V::Utf16(s) => write!(f, "Utf16({:?})", clip(s)),
            V::Jpeg(v) => write!(f, "Jpeg{}", clipb(v)),
            V::Png(v) => write!(f, "Png{}", clipb(v)),
            V::Signed(v) => write!(f, "Signed{}", clipb(v)),
            V::Bmp(v) => write!(f, "Bmp{}", clipb(v)),
        }
    }
}

impl V {
    pub fn code(&self) -> u32 {
        match self {
            V::Reserved(_) => 0,
            V::Utf8(_) => 1,
            V::Utf16(_) => 2,
            V::Jpeg(_) => 13,
            V::Png(_) => 14,
            V::Signed(_) => 21,
            V::Bmp(_) => 27,
        }
    }
    pub fn raw(&self) -> Vec<u8> {
        match self {
            V::Reserved(v) | V::Jpeg(v) | V::Png(v) | V::Signed(v) | V::Bmp(v) => v.clone(),
            V::Utf8(s) => s.as_bytes().to_vec(),
            V::Utf16(s) => utf16be(s),
        }
    }
    pub fn decode(code: u32, raw: &[u8]) -> Result<V, String> {
        Ok(match code {
            0 => V::Reserved(raw.to_vec()),
            1 => V::Utf8(std::str::from_utf8(raw).map_err(|e| format!("bad utf-8 in item: {e}"))?.to_owned()),
            2 => {
                if raw.len() % 2 != 0 {
                    return Err("odd utf-16 length".into());
                }
                let mut s = String::new();
                let mut i = 0;
                let unit = |i: usize| (raw[i] as u32) << 8 | raw[i + 1] as u32;
                while i < raw.len() {
                    let u = unit(i);
                    i += 2;
                    let c = if (0xD800..0xDC00).contains(&u) {
                        if i >= raw.len() {
                            return Err("unpaired surrogate".into());
                        }
                        let l = unit(i);
                        i += 2;
                        if !(0xDC00..0xE000).contains(&l) {
                            return Err("unpaired surrogate".into());
                        }
                        0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)
                    } else {
                        u
                    };
                    s.push(char::from_u32(c).ok_or("unpaired surrogate")?);
                }
                V::Utf16(s)
            }
            13 => V::Jpeg(raw.to_vec()),
            14 => V::Png(raw.to_vec()),
            21 => V::Signed(raw.to_vec()),
            27 => V::Bmp(raw.to_vec()),
            c => return Err(format!("unknown type code {c}")),
        })
    }
    pub fn data(&self) -> Data {
        match self.clone() {
            V::Reserved(v) => Data::Reserved(v),
            V::Utf8(s) => Data::Utf8(s),
            V::Utf16(s) => Data::Utf16(s),
            V::Jpeg(v) => Data::Jpeg(v),
            V::Png(v) => Data::Png(v),
            V::Signed(v) => Data::BeSigned(v),
            V::Bmp(v) => Data::Bmp(v),
        }
    }
    pub fn of(d: &Data) -> V {
        match d {
            Data::Reserved(v) => V::Reserved(v.clone()),
            Data::Utf8(s) => V::Utf8(s.clone()),
            Data::Utf16(s) => V::Utf16(s.clone()),
            Data::Jpeg(v) => V::Jpeg(v.clone()),
            Data::Png(v) => V::Png(v.clone()),
            Data::BeSigned(v) => V::Signed(v.clone()),
            Data::Bmp(v) => V::Bmp(v.clone()),
        }
    }
    pub fn bytes(&self) -> Option<&Vec<u8>> {
        match self {
            V::Reserved(v) | V::Signed(v) => Some(v),
            _ => None,
        }
    }
    pub fn bytes_mut(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            V::Reserved(v) | V::Signed(v) => Some(v),
            _ => None,
        }
    }
    pub fn string(&self) -> Option<&String> {
        match self {
            V::Utf8(s) | V::Utf16(s) => Some(s),
            _ => None,
        }
    }
    pub fn string_mut(&mut self) -> Option<&mut String> {
        match self {
            V::Utf8(s) | V::Utf16(s) => Some(s),
            _ => None,
        }
    }
    /// (0 bmp, 1 jpeg, 2 png) and the data
    pub fn image(&self) -> Option<(u8, &Vec<u8>)> {
        match self {
            V::Bmp(v) => Some((0, v)),
            V::Jpeg(v) => Some((1, v)),
            V::Png(v) => Some((2, v)),
            _ => None,
        }
    }
    pub fn image_mut(&mut self) -> Option<(u8, &mut Vec<u8>)> {
        match self {
            V::Bmp(v) => Some((0, v)),
            V::Jpeg(v) => Some((1, v)),
            V::Png(v) => Some((2, v)),
            _ => None,
        }
    }
}

pub fn utf16be(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            out.extend_from_slice(&[(c >> 8) as u8, c as u8]);
        } else {
            let d = c - 0x10000;
            let h = 0xD800 + (d >> 10);
            let l = 0xDC00 + (d & 0x3ff);
            out.extend_from_slice(&[(h >> 8) as u8, h as u8, (l >> 8) as u8, l as u8]);
        }
    }
    out
}

impl Id {
    pub fn data_ident(&self) -> DataIdent {
        match self {
            Id::F(c) => DataIdent::Fourcc(Fourcc(*c)),
            Id::S(m, n) => DataIdent::Freeform { mean: m.clone(), name: n.clone() },
        }
    }
    pub fn of(i: &DataIdent) -> Id {
        match i {
            DataIdent::Fourcc(c) => Id::F(c.0),
            DataIdent::Freeform { mean, name } => Id::S(mean.clone(), name.clone()),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Id::F(c) => c.iter().map(|b| *b as char).collect(),
            Id::S(m, n) => format!("----:{m}:{n}"),
        }
    }
}

pub type Items = Vec<(Id, Vec<V>)>;

/// merges items of equal identifiers, first occurrence keeps its place
pub fn merge(items: &[(Id, Vec<V>)]) -> Items {
    let mut out: Items = vec![];
    let mut at = std::collections::HashMap::new();
    for (i, v) in items {
        match at.get(i) {
            Some(k) => {
                let o: &mut (Id, Vec<V>) = &mut out[*k];
                o.1.extend(v.iter().cloned())
            }
            None => {
                at.insert(i, out.len());
                out.push((i.clone(), v.clone()))
            }
        }
    }
    out
}

/// what the tag contains according to its public iteration
pub fn tag_items(t: &Tag) -> Items {
    let mut out: Items = vec![];
    for (i, d) in t.data() {
        let id = Id::of(i);
        match out.last_mut() {
            Some((l, v)) if *l == id => v.push(V::of(d)),
            _ => out.push((id, vec![V::of(d)])),
        }
    }
    out
}

/// human readable first difference of two item lists
pub fn diff(got: &Items, want: &Items) -> Option<String> {
    if got == want {
        return None;
    }
    for k in 0..got.len().max(want.len()) {
        match (got.get(k), want.get(k)) {
            (Some(g), Some(w)) if g == w => {}
            (g, w) => {
                let f = |x: Option<&(Id, Vec<V>)>| match x {
                    None => "nothing".to_string(),
                    Some((i, v)) => {
                        let other = if x == g { w } else { g };
                        let mut s = format!("{:?} with {} value(s)", i, v.len());
                        for (n, vv) in v.iter().enumerate() {
                            if other.and_then(|o| o.1.get(n)) != Some(vv) {
                                s += &format!(", value[{n}]={:?}", vv);
                                break;
                            }
                        }
                        s
                    }
                };
                return Some(format!(
                    "item {k}: got {}, want {} (items: got {}, want {})",
                    f(g),
                    f(w),
                    got.len(),
                    want.len()
                ));
            }
        }
    }
    Some("differ".into())
}

/// the same as sets of (ident -> values), regardless of the order of identifiers
pub fn sorted(items: &Items) -> Items {
    let mut v = items.clone();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

/// Builds a tag holding exactly `items` (identifiers unique, value lists non-empty), choosing among
/// the different ways the API offers.
pub fn build_tag(items: &Items, r: &mut Rng) -> Tag {
    let mut t = Tag::default();
    let noisy = r.chance(1, 3);
    for (i, vals) in items {
        if noisy && r.chance(1, 2) {
            noise(&mut t, items, r);
        }
        if r.chance(1, 6) && vals.len() < 50 {
            // other values first, changed in place, after a use that may have remembered something
            let before: Vec<V> = vals.iter().map(|v| alike(v, r)).collect();
            t.set_all_data(i.data_ident(), before.iter().map(V::data).collect::<Vec<_>>());
            match r.below(4) {
                0 => drop(t.dump_to(&mut std::io::sink())),
                1 => {
                    let _ = t.data().map(|(_, d)| d.len()).max();
                }
                2 => drop(t.clone()),
                _ => {}
            }
            if r.chance(1, 2) {
                t.data_mut_of(&i.data_ident()).zip(vals).for_each(|(d, v)| change_to(d, v));
            } else {
                let id = i.data_ident();
                t.data_mut().filter(|(x, _)| **x == id).zip(vals).for_each(|((_, d), v)| change_to(d, v));
            }
            continue;
        }
        let data: Vec<Data> = vals.iter().map(V::data).collect();
        match (r.below(4), i) {
            (0, _) => {
                for d in data {
                    t.add_data(i.data_ident(), d);
                }
            }
            (1, Id::F(c)) => {
                let mut it = data.into_iter();
                t.set_data(Fourcc(*c), it.next().unwrap());
                t.add_all_data(Fourcc(*c), it);
            }
            (_, Id::S(m, n)) => {
                t.set_all_data(FreeformIdent::new(m, n), data);
            }
            _ => {
                t.set_all_data(i.data_ident(), data);
            }
        }
    }
    if noisy {
        noise(&mut t, items, r);
    }
    t
}

/// A value of the same kind and mostly of the same length in bytes, but with other content.
pub fn alike(v: &V, r: &mut Rng) -> V {
    let text = |s: &String, r: &mut Rng| -> String {
        if r.chance(1, 5) {
            return gen_string(r, 20);
        }
        // characters of another width, the same number of bytes
        let mut left = s.len();
        let mut o = String::new();
        while left > 0 {
            let c = *r.pick(&['x', 'y', 'é', '日', '😀']);
            if c.len_utf8() <= left {
                left -= c.len_utf8();
                o.push(c);
            }
        }
        o
    };
    let flip = |b: &Vec<u8>, r: &mut Rng| {
        let mut b = b.clone();
        if !b.is_empty() {
            let k = r.below(b.len());
            b[k] ^= 1 << r.below(8);
        }
        if r.chance(1, 5) {
            b.push(7);
        }
        b
    };
    match v {
        V::Reserved(b) => V::Reserved(flip(b, r)),
        V::Signed(b) => V::Signed(flip(b, r)),
        V::Jpeg(b) => V::Jpeg(flip(b, r)),
        V::Png(b) => V::Png(flip(b, r)),
        V::Bmp(b) => V::Bmp(flip(b, r)),
        V::Utf8(s) => V::Utf8(text(s, r)),
        V::Utf16(s) => V::Utf16(text(s, r)),
    }
}

/// changes a stored value in place, without giving up its memory
pub fn change_to(d: &mut Data, v: &V) {
    match (d, v) {
        (Data::Utf8(s), V::Utf8(t)) | (Data::Utf16(s), V::Utf16(t)) => {
            s.clear();
            s.push_str(t);
        }
        (Data::Reserved(b), V::Reserved(c))
        | (Data::BeSigned(b), V::Signed(c))
        | (Data::Jpeg(b), V::Jpeg(c))
        | (Data::Png(b), V::Png(c))
        | (Data::Bmp(b), V::Bmp(c)) => {
            b.clear();
            b.extend_from_slice(c);
        }
        (d, v) => *d = v.data(),
    }
}

/// Edits that leave the tag as it was: values of another identifier that come and go, empty lists.
fn noise(t: &mut Tag, items: &Items, r: &mut Rng) {
    let id = gen_id(r);
    if items.iter().any(|i| i.0 == id) {
        return;
    }
    let d = id.data_ident();
    match r.below(6) {
        0 => t.set_all_data(d, std::iter::empty()),
        1 => t.add_all_data(d, std::iter::empty()),
        2 => {
            t.add_data(d.clone(), Data::Utf8("noise".into()));
            t.remove_data_of(&d);
        }
        3 => {
            t.set_data(d.clone(), Data::Utf8("noise".into()));
            t.retain_data(|i, _| *i != d);
        }
        4 => {
            t.set_all_data(d.clone(), vec![Data::Utf8("noise".into()), Data::BeSigned(vec![1])]);
            let _ = t.take_data_of(&d).count();
        }
        _ => {
            t.set_all_data(d.clone(), vec![Data::Png(vec![1]), Data::Jpeg(vec![2])]);
            t.set_all_data(d, std::iter::empty());
        }
    }
}

pub fn gen_id(r: &mut Rng) -> Id {
    match r.below(12) {
        0..=4 => Id::F(*r.pick(&dict().fourccs)),
        5 => {
            let c = [r.u8(), r.u8(), r.u8(), r.u8()];
            Id::F(if &c == b"free" { *b"frea" } else { c })
        }
        6 => {
            // near miss of a known one
            let mut c = *r.pick(&dict().fourccs);
            let k = r.below(4);
            c[k] ^= *r.pick(&[1u8, 0x20, 0x80, 0xff]);
            Id::F(if &c == b"free" { *b"fref" } else { c })
        }
        7 | 8 => {
            let n = match r.below(6) {
                0 => "ISRC".to_string(),
                1 => "LYRICIST".into(),
                2 => "isrc".into(),
                3 => "iTunNORM".into(),
                _ => gen_string(r, 40),
            };
            Id::S("com.apple.iTunes".into(), n)
        }
        9 => Id::S(r.pick(&dict().strings).clone(), r.pick(&dict().strings).clone()),
        10 => {
            let l = dict::len(r, 3000);
            let m = gen_string_len(r, l);
            let l = dict::len(r, 3000);
            Id::S(m, gen_string_len(r, l))
        }
        _ => Id::S(gen_string(r, 20), gen_string(r, 20)),
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', 'Z', '0', '9', ' ', '-', ':', '/', ',', '.', '\n', '\r', '\t', '\0', '"', '\\', '\u{7f}', '\u{80}',
    'é', 'ü', 'ß', '©', '\u{ff}', '\u{100}', 'Ω', 'я', 'ע', '\u{7ff}', '\u{800}', '日', '本', '語', '’', '\u{200b}', '\u{2028}',
    '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffe}', '\u{ffff}', '\u{fffd}', '\u{10000}', '😀', '𝄞', '\u{10ffff}', '\u{0301}',
];

pub fn gen_string(r: &mut Rng, max: usize) -> String {
    let l = dict::len(r, max);
    gen_string_len(r, l)
}

/// a string of about `l` characters (so up to 4l bytes)
pub fn gen_string_len(r: &mut Rng, l: usize) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 | 1 => {
            for _ in 0..l {
                s.push((b'a' + r.below(26) as u8) as char);
            }
        }
        2 => {
            let c = *r.pick(CHARS);
            for _ in 0..l {
                s.push(c);
            }
        }
        3 => {
            while s.chars().count() < l && s.len() < l * 4 {
                s += r.pick(&dict().strings);
                if r.chance(1, 2) || s.is_empty() {
                    s.push(*r.pick(CHARS));
                }
            }
        }
        4 if l < 40 => {
            s = r.pick(&dict().strings).clone();
        }
        _ => {
            for _ in 0..l {
                if r.chance(1, 8) {
                    if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                        s.push(c);
                        continue;
                    }
                }
                s.push(*r.pick(CHARS));
            }
        }
    }
    s
}

pub fn gen_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let l = dict::len(r, max);
    match r.below(8) {
        0 => vec![0; l],
        1 => vec![0xff; l],
        2 => {
            // looks like an atom
            let mut v = Vec::new();
            v.extend_from_slice(&(l as u32).to_be_bytes());
            v.extend_from_slice(&*r.pick(&dict().fourccs));
            v.resize(l.max(8), 0);
            v.truncate(l);
            v
        }
        3 => {
            let i = dict::int(r).to_be_bytes();
            let k = r.range(1, 8);
            i[8 - k..].to_vec()
        }
        4 => {
            // begins or ends like something well known
            let mut v = r.bytes(l);
            let sig = r.pick(&dict().bytes);
            let k = sig.len().min(l);
            if r.chance(3, 4) {
                v[..k].copy_from_slice(&sig[..k]);
            } else {
                v[l - k..].copy_from_slice(&sig[..k]);
            }
            if l < k || r.chance(1, 8) {
                v = sig.clone();
            }
            v
        }
        _ => r.bytes(l),
    }
}

pub fn gen_val(r: &mut Rng, max: usize) -> V {
    match r.below(10) {
        0 => V::Reserved(gen_bytes(r, max)),
        1 | 2 | 3 => V::Utf8(gen_string(r, max)),
        4 | 5 => V::Utf16(gen_string(r, max / 2)),
        6 => V::Jpeg(gen_bytes(r, max)),
        7 => V::Png(gen_bytes(r, max)),
        8 => V::Signed(gen_bytes(r, max)),
        _ => V::Bmp(gen_bytes(r, max)),
    }
}

pub fn val_of_kind(kind: usize, len: usize, r: &mut Rng) -> V {
    match kind {
        0 => V::Reserved(r.bytes(len)),
        1 => V::Utf8(ascii(r, len)),
        2 => V::Utf16(ascii(r, len)),
        3 => V::Jpeg(r.bytes(len)),
        4 => V::Png(r.bytes(len)),
        5 => V::Signed(r.bytes(len)),
        _ => V::Bmp(r.bytes(len)),
    }
}

pub fn ascii(r: &mut Rng, len: usize) -> String {
    let mut b = r.bytes(len);
    for x in b.iter_mut() {
        *x = 0x20 + (*x % 0x5f);
    }
    String::from_utf8(b).unwrap()
}

#[derive(Clone, Copy)]
pub struct TagCfg {
    pub items: usize,
    pub values: usize,
    pub val_len: usize,
    pub budget: usize,
}

pub const SMALL: TagCfg = TagCfg { items: 8, values: 4, val_len: 200, budget: 2_000 };
pub const MEDIUM: TagCfg = TagCfg { items: 60, values: 20, val_len: 9_000, budget: 40_000 };
pub const LARGE: TagCfg = TagCfg { items: 1100, values: 1100, val_len: 1_100_000, budget: 1_500_000 };

/// random items with unique identifiers and non-empty value lists
pub fn gen_items(r: &mut Rng, c: TagCfg) -> Items {
    let n = if r.chance(1, 16) { 0 } else { dict::count(r, c.items) };
    let mut out: Items = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut budget = c.budget as isize;
    for _ in 0..n {
        let id = gen_id(r);
        if !seen.insert(id.clone()) {
            continue;
        }
        let k = if r.chance(3, 4) { 1 } else { dict::count(r, c.values).max(1) };
        let mut vals = vec![];
        for _ in 0..k {
            let max = if budget > 0 { c.val_len.min(budget as usize) } else { 4 };
            let v = gen_val(r, max);
            budget -= v.raw().len() as isize + 16;
            vals.push(v);
        }
        out.push((id, vals));
    }
    out
}

pub const BIG_COUNTS: &[usize] = &[
    257, 300, 500, 511, 512, 513, 700, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096,
    4097, 4500, 5000, 6000, 8191, 8192, 8193, 10_000,
];

pub const BIG_LENS: &[usize] = &[
    300, 513, 1000, 1025, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000, 12_000, 16_383, 16_384, 16_385, 20_000,
    32_767, 32_768, 32_769, 40_000, 50_000, 65_535, 65_536, 65_537, 70_000, 100_000, 131_072, 131_073, 200_000, 262_145,
    400_000, 524_289, 1_000_001, 1_048_577, 1_500_000, 2_097_153,
];

/// the n-th of many identifiers
pub fn nth_id(k: usize, style: usize) -> Id {
    match style {
        0 => Id::F((k as u32 | 0x4100_0000).to_be_bytes()),
        1 => Id::S("com.apple.iTunes".into(), format!("name {k}")),
        2 => Id::S(format!("mean {k}"), "name".into()),
        _ if k % 3 == 2 => Id::S(format!("m{}", k % 7), format!("n{k}")),
        _ => Id::F((k as u32 | 0x4100_0000).to_be_bytes()),
    }
}

/// Items that are large in one respect.
pub fn big_items(r: &mut Rng) -> Items {
    let mut items = match r.below(8) {
        0 | 1 => {
            let n = *r.pick(BIG_COUNTS);
            let style = r.below(4);
            (0..n).map(|k| (nth_id(k, style), vec![gen_val(r, 6)])).collect()
        }
        2 => {
            let n = if r.chance(1, 6) { *r.pick(&[20_000usize, 40_000, 65_535, 65_536, 65_537, 70_000]) } else { *r.pick(BIG_COUNTS) };
            let one = r.chance(1, 2);
            let first = gen_val(r, 6);
            let v = (0..n).map(|_| if one { first.clone() } else { gen_val(r, 6) }).collect();
            vec![(gen_id(r), v)]
        }
        3 => {
            let l = *r.pick(BIG_LENS) >> 2;
            let s = gen_string_len(r, l);
            vec![(gen_id(r), vec![if r.chance(1, 2) { V::Utf8(s) } else { V::Utf16(s) }])]
        }
        4 => {
            let l = (*r.pick(BIG_LENS)).min(300_000) >> 2;
            let (m, n) = match r.below(3) {
                0 => (gen_string_len(r, l), gen_string(r, 12)),
                1 => (gen_string(r, 12), gen_string_len(r, l)),
                _ => (gen_string_len(r, l), gen_string_len(r, l)),
            };
            vec![(Id::S(m, n), vec![gen_val(r, 20)])]
        }
        5 => {
            // a large list of ordinary items
            let n = r.range(20, 200);
            (0..n).map(|k| { let l = r.below(8000); (nth_id(k, 3), vec![val_of_kind(k % 7, l, r)]) }).collect()
        }
        _ => {
            let l = (*r.pick(BIG_LENS) + r.below(5)).saturating_sub(2);
            let k = r.below(7);
            vec![(gen_id(r), vec![val_of_kind(k, l, r)])]
        }
    };
    if r.chance(1, 2) {
        for x in gen_items(r, TagCfg { items: 5, values: 2, val_len: 60, budget: 300 }) {
            if items.iter().all(|i| i.0 != x.0) {
                let at = if r.chance(1, 2) { 0 } else { items.len() };
                items.insert(at, x);
            }
        }
    }
    items
}

pub fn gen_items_any(r: &mut Rng) -> Items {
    let c = match r.below(40) {
        0 if r.chance(1, 2) => return big_items(r),
        0 => LARGE,
        1..=9 => MEDIUM,
        _ => SMALL,
    };
    gen_items(r, c)
}

pub fn items_hash(items: &Items) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    items.hash(&mut h);
    h.finish()
}

pub fn summary(items: &Items) -> String {
    let mut s = format!("{} items", items.len());
    for (i, v) in items.iter().take(6) {
        s += &format!("; {:?}={:?}", i, v.iter().take(2).collect::<Vec<_>>());
        if v.len() > 2 {
            s += &format!("+{}", v.len() - 2);
        }
    }
    s
}
