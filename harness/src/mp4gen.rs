//! Generator of conforming MP4 files from an abstract description, together with what they mean.

use crate::dict::{self, dict};
use crate::model::{self, merge, Id, Items, V};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum N {
    Leaf { cc: [u8; 4], ext: bool, body: Vec<u8>, marks: Vec<Mark> },
    Box { cc: [u8; 4], ext: bool, pre: Vec<u8>, kids: Vec<N> },
    Table { wide: bool, ext: bool, flags: [u8; 3], entries: Vec<Entry> },
    Media { id: usize, ext: bool, body: Vec<u8>, claim: Option<u64> },
}

/// a chunk: media atom, offset inside its content, length
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Entry {
    pub media: usize,
    pub off: u64,
    pub len: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Size32,
    Size64,
    Cc,
    Version,
    Count,
    DescLen,
    Scalar,
}

/// a field inside a leaf body
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub off: usize,
    pub width: usize,
    pub kind: Kind,
}

/// a field in the emitted file
#[derive(Clone, Debug)]
pub struct Field {
    pub pos: usize,
    pub width: usize,
    pub kind: Kind,
    pub path: String,
}

impl N {
    pub fn cc(&self) -> [u8; 4] {
        match self {
            N::Leaf { cc, .. } | N::Box { cc, .. } => *cc,
            N::Table { wide, .. } => {
                if *wide {
                    *b"co64"
                } else {
                    *b"stco"
                }
            }
            N::Media { .. } => *b"mdat",
        }
    }
    fn ext(&self) -> bool {
        match self {
            N::Leaf { ext, .. } | N::Box { ext, .. } | N::Table { ext, .. } | N::Media { ext, .. } => *ext,
        }
    }
    /// bytes the atom occupies in the file
    pub fn size(&self) -> u64 {
        let head = if self.ext() { 16 } else { 8 };
        head + match self {
            N::Leaf { body, .. } | N::Media { body, .. } => body.len() as u64,
            N::Box { pre, kids, .. } => pre.len() as u64 + kids.iter().map(N::size).sum::<u64>(),
            N::Table { wide, entries, .. } => 8 + entries.len() as u64 * if *wide { 8 } else { 4 },
        }
    }
    pub fn leaf(cc: &[u8; 4], body: Vec<u8>) -> N {
        N::Leaf { cc: *cc, ext: false, body, marks: vec![] }
    }
    pub fn container(cc: &[u8; 4], kids: Vec<N>) -> N {
        N::Box { cc: *cc, ext: false, pre: vec![], kids }
    }
    pub fn kids(&self) -> &[N] {
        match self {
            N::Box { kids, .. } => kids,
            _ => &[],
        }
    }
    pub fn kids_mut(&mut self) -> &mut Vec<N> {
        match self {
            N::Box { kids, .. } => kids,
            _ => panic!("not a box"),
        }
    }
}

fn media_pos(n: &N, pos: u64, out: &mut Vec<(usize, u64, u64)>) {
    let head = if n.ext() { 16 } else { 8 };
    match n {
        N::Media { id, body, .. } => out.push((*id, pos + head, body.len() as u64)),
        N::Box { pre, kids, .. } => {
            let mut p = pos + head + pre.len() as u64;
            for k in kids {
                media_pos(k, p, out);
                p += k.size();
            }
        }
        _ => {}
    }
}

struct Emit<'a> {
    out: Vec<u8>,
    media: &'a [(usize, u64, u64)],
    fields: Vec<Field>,
    path: Vec<String>,
}

impl Emit<'_> {
    fn field(&mut self, pos: usize, width: usize, kind: Kind) {
        let path = self.path.join("/");
        self.fields.push(Field { pos, width, kind, path });
    }
    fn node(&mut self, n: &N) {
        let start = self.out.len();
        let size = match n {
            N::Media { claim: Some(c), .. } => *c,
            _ => n.size(),
        };
        self.path.push(n.cc().iter().map(|b| *b as char).collect());
        if n.ext() {
            self.out.extend_from_slice(&1u32.to_be_bytes());
            self.out.extend_from_slice(&n.cc());
            self.out.extend_from_slice(&size.to_be_bytes());
            self.field(start, 4, Kind::Size32);
            self.field(start + 4, 4, Kind::Cc);
            self.field(start + 8, 8, Kind::Size64);
        } else {
            self.out.extend_from_slice(&(size as u32).to_be_bytes());
            self.out.extend_from_slice(&n.cc());
            self.field(start, 4, Kind::Size32);
            self.field(start + 4, 4, Kind::Cc);
        }
        let b = self.out.len();
        match n {
            N::Leaf { body, marks, .. } => {
                self.out.extend_from_slice(body);
                for m in marks {
                    self.field(b + m.off, m.width, m.kind);
                }
            }
            N::Media { body, .. } => self.out.extend_from_slice(body),
            N::Box { pre, kids, .. } => {
                self.out.extend_from_slice(pre);
                if pre.len() == 4 || pre.len() == 8 {
                    self.field(b, 1, Kind::Version);
                }
                if pre.len() == 8 {
                    self.field(b + 4, 4, Kind::Count);
                }
                for k in kids {
                    self.node(k);
                }
            }
            N::Table { wide, flags, entries, .. } => {
                self.out.push(0);
                self.out.extend_from_slice(flags);
                self.field(b, 1, Kind::Version);
                self.out.extend_from_slice(&(entries.len() as u32).to_be_bytes());
                self.field(b + 4, 4, Kind::Count);
                for e in entries {
                    let base = self.media.iter().find(|m| m.0 == e.media).map_or(0, |m| m.1);
                    let v = base + e.off;
                    if *wide {
                        self.out.extend_from_slice(&v.to_be_bytes());
                    } else {
                        self.out.extend_from_slice(&(v as u32).to_be_bytes());
                    }
                }
                if let Some(_e) = entries.first() {
                    self.field(b + 8, if *wide { 8 } else { 4 }, Kind::Scalar);
                }
            }
        }
        self.path.pop();
    }
}

#[derive(Clone, Debug)]
pub struct Emitted {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
    /// (id, content position, content length)
    pub media: Vec<(usize, u64, u64)>,
}

pub fn emit(top: &[N]) -> Emitted {
    let mut media = vec![];
    let mut p = 0;
    for n in top {
        media_pos(n, p, &mut media);
        p += n.size();
    }
    let mut e = Emit { out: vec![], media: &media, fields: vec![], path: vec![] };
    for n in top {
        e.node(n);
    }
    let (bytes, fields) = (e.out, e.fields);
    Emitted { bytes, fields, media }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Audio {
    /// movie duration, time scale
    pub duration: Option<(u64, u32)>,
    pub channel_cfg: Option<u8>,
    pub rate_idx: Option<u8>,
    pub max: Option<u32>,
    pub avg: Option<u32>,
}

impl Audio {
    pub fn nanos(&self) -> Option<u128> {
        self.duration.map(|(d, t)| d as u128 * 1_000_000_000 / t as u128)
    }
    pub fn check(&self, got: &mp4ameta::AudioInfo) -> Result<(), String> {
        use mp4ameta::{ChannelConfig as C, SampleRate as S};
        const RATES: [S; 13] = [
            S::Hz96000, S::Hz88200, S::Hz64000, S::Hz48000, S::Hz44100, S::Hz32000, S::Hz24000, S::Hz22050,
            S::Hz16000, S::Hz12000, S::Hz11025, S::Hz8000, S::Hz7350,
        ];
        const CH: [C; 7] = [C::Mono, C::Stereo, C::Three, C::Four, C::Five, C::FiveOne, C::SevenOne];
        let nanos = got.duration.map(|d| d.as_nanos());
        if nanos != self.nanos() {
            return Err(format!("duration {:?}ns, want {:?}ns (duration, timescale {:?})", nanos, self.nanos(), self.duration));
        }
        let ch = self.channel_cfg.and_then(|c| if c >= 1 { CH.get(c as usize - 1).copied() } else { None });
        if got.channel_config != ch {
            return Err(format!("channel config {:?}, want {:?} ({:?})", got.channel_config, ch, self.channel_cfg));
        }
        let sr = self.rate_idx.and_then(|c| RATES.get(c as usize).copied());
        if got.sample_rate != sr {
            return Err(format!("sample rate {:?}, want {:?} ({:?})", got.sample_rate, sr, self.rate_idx));
        }
        if got.max_bitrate != self.max {
            return Err(format!("max bitrate {:?}, want {:?}", got.max_bitrate, self.max));
        }
        if got.avg_bitrate != self.avg {
            return Err(format!("avg bitrate {:?}, want {:?}", got.avg_bitrate, self.avg));
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub top: Vec<N>,
    pub ftyp: String,
    pub audio: Audio,
    /// items in file order, not merged
    pub items: Items,
}

impl Spec {
    pub fn model(&self) -> Items {
        merge(&self.items)
    }
    pub fn moov(&self) -> &N {
        self.top.iter().find(|n| &n.cc() == b"moov").unwrap()
    }
    pub fn moov_mut(&mut self) -> &mut N {
        self.top.iter_mut().find(|n| &n.cc() == b"moov").unwrap()
    }
    pub fn describe(&self) -> String {
        fn go(n: &N, depth: usize, s: &mut String) {
            let cc: String = n.cc().iter().map(|b| b.escape_ascii().to_string()).collect();
            s.push_str(&cc);
            if n.ext() {
                s.push('*');
            }
            match n {
                N::Box { kids, .. } if depth < 4 && !kids.is_empty() => {
                    s.push('(');
                    for (i, k) in kids.iter().enumerate().take(14) {
                        if i > 0 {
                            s.push(' ');
                        }
                        go(k, depth + 1, s);
                    }
                    if kids.len() > 14 {
                        s.push_str(" ..");
                    }
                    s.push(')');
                }
                N::Table { entries, .. } => s.push_str(&format!("[{}]", entries.len())),
                N::Media { body, .. } => s.push_str(&format!("[{}B]", body.len())),
                _ => {}
            }
        }
        let mut s = String::new();
        for (i, n) in self.top.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            go(n, 0, &mut s);
        }
        if s.len() > 700 {
            let mut k = 700;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str("..");
        }
        s
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    /// probability (of 100) that an atom has a 64-bit size
    pub ext: usize,
    pub decoys: bool,
    pub padding: bool,
    pub tag: model::TagCfg,
    pub max_traks: usize,
    pub max_entries: usize,
    /// repeat identifiers in the item list
    pub repeats: bool,
    pub items: bool,
    /// make the file large in one respect
    pub scale: Option<Scale>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scale {
    Items,
    Repeats,
    Tracks,
    Entries,
    /// many unknown atoms in one place
    Unknown,
    /// one long unknown atom
    Long,
    Ftyp,
    Media,
    /// many media atoms
    Medias,
    Padding,
}

impl Scale {
    pub fn pick(r: &mut Rng) -> Scale {
        use Scale::*;
        *r.pick(&[Items, Items, Repeats, Tracks, Tracks, Entries, Unknown, Unknown, Long, Ftyp, Media, Medias, Padding])
    }
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            ext: *r.pick(&[0usize, 0, 0, 10, 10, 50, 100]),
            decoys: r.chance(1, 2),
            padding: r.chance(2, 3),
            tag: match r.below(24) {
                0 => model::MEDIUM,
                _ => model::SMALL,
            },
            max_traks: 4,
            max_entries: *r.pick(&[3usize, 10, 10, 40, 40, 300]),
            repeats: r.chance(1, 3),
            items: r.chance(4, 5),
            scale: if r.chance(1, 64) { Some(Scale::pick(r)) } else { None },
        }
    }
    pub fn small(r: &mut Rng) -> Cfg {
        Cfg {
            ext: *r.pick(&[0usize, 0, 15]),
            decoys: r.chance(1, 4),
            padding: r.chance(1, 2),
            tag: model::TagCfg { items: 4, values: 2, val_len: 24, budget: 150 },
            max_traks: 2,
            max_entries: 3,
            repeats: r.chance(1, 4),
            items: r.chance(5, 6),
            scale: None,
        }
    }
}

struct G<'a> {
    r: &'a mut Rng,
    c: Cfg,
}

const UNKNOWN: &[&[u8; 4]] = &[
    b"free", b"skip", b"wide", b"uuid", b"xtra", b"iods", b"elst", b"pnot", b"moof", b"mfra", b"sidx", b"styp", b"Xtra",
    b"cprt", b"titl", b"chpl", b"ctab", b"name", b"prfl", b"tsel", b"iprp", b"\0\0\0\0", b"ftyp", b"\xa9nam", b"data", b"mean",
    b"hinf", b"loci", b"ID32",
];

impl G<'_> {
    fn ext(&mut self) -> bool {
        self.r.chance(self.c.ext, 100)
    }
    fn unknown(&mut self, forbidden: &[&[u8; 4]]) -> N {
        let cc = loop {
            let cc = match self.r.below(4) {
                0 => [self.r.u8(), self.r.u8(), self.r.u8(), self.r.u8()],
                1 => *self.r.pick(&dict().fourccs),
                _ => **self.r.pick(UNKNOWN),
            };
            if !forbidden.contains(&&cc) {
                break cc;
            }
        };
        let body = match self.r.below(6) {
            0 => vec![],
            1 if self.c.decoys => self.fake(),
            2 => self.r.bytes(7),
            _ => {
                let l = dict::len(self.r, 60);
                self.r.bytes(l)
            }
        };
        N::Leaf { cc, ext: self.ext(), body, marks: vec![] }
    }
    fn sprinkle(&mut self, kids: &mut Vec<N>, forbidden: &[&[u8; 4]]) {
        if !self.c.padding {
            return;
        }
        while self.r.chance(1, 3) {
            let n = self.unknown(forbidden);
            let at = self.r.below(kids.len() + 1);
            kids.insert(at, n);
        }
    }
    /// a place for many or long atoms
    fn pick_place(&mut self) -> &'static [u8; 4] {
        *self.r.pick(&[b"\0\0\0\0", b"\0\0\0\0", b"moov", b"moov", b"udta", b"meta", b"ilst", b"trak", b"mdia", b"minf", b"stbl"])
    }
    /// adds `n` ignorable atoms with `l` bytes each to the first container of that name
    fn crowd(&mut self, top: &mut Vec<N>, place: &[u8; 4], n: usize, l: usize, same: bool) {
        fn first<'a>(v: &'a mut Vec<N>, path: &[[u8; 4]]) -> &'a mut Vec<N> {
            if path.is_empty() {
                return v;
            }
            match v.iter().position(|k| k.cc() == path[0] && matches!(k, N::Box { .. })) {
                Some(i) => first(v[i].kids_mut(), &path[1..]),
                None => v,
            }
        }
        let path: &[[u8; 4]] = match place {
            b"moov" => &[*b"moov"],
            b"udta" => &[*b"moov", *b"udta"],
            b"meta" => &[*b"moov", *b"udta", *b"meta"],
            b"ilst" => &[*b"moov", *b"udta", *b"meta", *b"ilst"],
            b"trak" => &[*b"moov", *b"trak"],
            b"mdia" => &[*b"moov", *b"trak", *b"mdia"],
            b"minf" => &[*b"moov", *b"trak", *b"mdia", *b"minf"],
            b"stbl" => &[*b"moov", *b"trak", *b"mdia", *b"minf", *b"stbl"],
            _ => &[],
        };
        let kids = first(top, path);
        let ilst = place == b"ilst";
        let mut add = vec![];
        for _ in 0..n {
            let cc = if ilst || self.r.chance(1, 2) { *b"free" } else { **self.r.pick(&[b"skip", b"wide", b"uuid", b"xtra"]) };
            let k = if same { l } else { self.r.below(l + 1) };
            add.push(N::Leaf { cc, ext: self.ext(), body: self.r.bytes(k), marks: vec![] });
        }
        let spread = kids.len() > 1 && n > 1 && self.r.chance(1, 2);
        if spread {
            let half = add.split_off(n / 2);
            let at = self.r.below(kids.len() + 1);
            kids.splice(at..at, add);
            let at = self.r.below(kids.len() + 1);
            kids.splice(at..at, half);
        } else {
            let at = self.r.below(kids.len() + 1);
            kids.splice(at..at, add);
        }
    }
    /// content that looks like a movie or a metadata hierarchy but is not in the right place
    fn fake(&mut self) -> Vec<u8> {
        let items = vec![(Id::F(*b"\xa9nam"), vec![V::Utf8("decoy".into())]), (Id::F(*b"\xa9ART"), vec![V::Utf8("fake".into())])];
        let ilst = self.ilst_plain(&items);
        let meta = N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![ilst.clone()] };
        let udta = N::container(b"udta", vec![meta.clone()]);
        let n = match self.r.below(5) {
            0 => ilst,
            1 => meta,
            2 => udta,
            3 => N::container(b"moov", vec![mvhd_node(0, 7, 3, &[0; 60]), udta]),
            _ => N::leaf(b"mdat", vec![1; 8]),
        };
        emit(&[n]).bytes
    }
    fn ilst_plain(&mut self, items: &Items) -> N {
        N::container(b"ilst", items.iter().map(|(i, v)| item_plain(i, v)).collect())
    }
    fn item(&mut self, id: &Id, vals: &[V]) -> N {
        let mut kids = vec![];
        for v in vals {
            let mut body = v.code().to_be_bytes().to_vec();
            let loc = if self.r.chance(3, 4) { 0 } else { self.r.u32() };
            body.extend_from_slice(&loc.to_be_bytes());
            body.extend_from_slice(&v.raw());
            let marks = vec![
                Mark { off: 0, width: 1, kind: Kind::Version },
                Mark { off: 0, width: 4, kind: Kind::Scalar },
                Mark { off: 4, width: 4, kind: Kind::Scalar },
            ];
            kids.push(N::Leaf { cc: *b"data", ext: self.ext(), body, marks });
        }
        let cc = match id {
            Id::F(c) => {
                if self.c.padding && c != b"----" && self.r.chance(1, 20) {
                    let mut b = vec![0; 4];
                    b.extend_from_slice(b"display name");
                    let at = self.r.below(kids.len() + 1);
                    kids.insert(at, N::leaf(b"name", b));
                    if self.r.chance(1, 2) {
                        let at = self.r.below(kids.len() + 1);
                        kids.insert(at, N::leaf(b"mean", b"\0\0\0\0com.apple.iTunes".to_vec()));
                    }
                }
                *c
            }
            Id::S(m, n) => {
                let mut parts = vec![];
                for (cc, s) in [(b"mean", m), (b"name", n)] {
                    let mut b = vec![0];
                    b.extend(full_flags(self.r));
                    b.extend_from_slice(s.as_bytes());
                    let marks = vec![Mark { off: 0, width: 1, kind: Kind::Version }];
                    parts.push(N::Leaf { cc: *cc, ext: self.ext(), body: b, marks });
                }
                if self.r.chance(1, 12) {
                    parts.reverse();
                }
                if self.r.chance(1, 16) {
                    kids.extend(parts);
                } else {
                    parts.append(&mut kids);
                    kids = parts;
                }
                *b"----"
            }
        };
        if self.c.padding && self.r.chance(1, 8) {
            let n = self.unknown(&[b"data", b"mean", b"name"]);
            let at = self.r.below(kids.len() + 1);
            kids.insert(at, n);
        }
        N::Box { cc, ext: self.ext(), pre: vec![], kids }
    }
    fn ilst(&mut self, items: &Items) -> N {
        let mut kids: Vec<N> = items.iter().map(|(i, v)| self.item(i, v)).collect();
        if self.c.padding {
            while self.r.chance(1, 4) {
                let l = dict::len(self.r, 100);
                let body = if self.c.decoys && self.r.chance(1, 2) {
                    emit(&[item_plain(&Id::F(*b"\xa9nam"), &[V::Utf8("padding".into())])]).bytes
                } else {
                    vec![0; l]
                };
                let at = self.r.below(kids.len() + 1);
                kids.insert(at, N::Leaf { cc: *b"free", ext: self.ext(), body, marks: vec![] });
            }
        }
        N::Box { cc: *b"ilst", ext: self.ext(), pre: vec![], kids }
    }
    fn hdlr(&mut self, sub: &[u8; 4]) -> N {
        let mut b = vec![0];
        b.extend(full_flags(self.r));
        b.extend_from_slice(if self.r.chance(1, 12) { b"mhlr" } else { b"\0\0\0\0" });
        b.extend_from_slice(sub);
        b.extend_from_slice(*self.r.pick(&[b"appl", b"appl", b"appl", b"\0\0\0\0", b"mp4a"]));
        let rest = if self.r.chance(1, 8) { self.r.bytes(8) } else { vec![0; 8] };
        b.extend(rest);
        let name: &[u8] = *self.r.pick(&[&b"\0"[..], b"\0\0", b"handler\0", b"", b"\x0chandler name", b"hdlr\0\0\0\x08ilst"]);
        b.extend_from_slice(name);
        if self.r.chance(1, 30) {
            let l = dict::len(self.r, 5000);
            let x = self.r.bytes(l);
            b.extend(x);
        }
        N::Leaf { cc: *b"hdlr", ext: self.ext(), body: b, marks: vec![] }
    }
    fn meta(&mut self, items: Option<&Items>) -> N {
        let mut kids = vec![];
        if self.r.chance(3, 4) {
            kids.push(self.hdlr(b"mdir"));
        }
        if let Some(i) = items {
            kids.push(self.ilst(i));
        }
        if self.r.chance(1, 4) {
            self.r.shuffle(&mut kids);
        }
        self.sprinkle(&mut kids, &[b"hdlr", b"ilst"]);
        let mut pre = vec![0];
        pre.extend(full_flags(self.r));
        N::Box { cc: *b"meta", ext: self.ext(), pre, kids }
    }
    fn trak(&mut self, entries: Vec<Entry>, wide: bool, sample: Option<N>) -> N {
        // a track that holds nothing, to some depth
        let hollow = if entries.is_empty() && sample.is_none() && self.r.chance(1, 3) { self.r.range(1, 4) } else { 0 };
        let mut stbl = vec![];
        let mut st_kids = vec![];
        // other tracks are not sound tracks as a rule
        let kind: &[u8; 4] = match sample {
            Some(s) => {
                st_kids.push(s);
                b"soun"
            }
            None => {
                if self.r.chance(1, 3) {
                    let cc = *self.r.pick(&[b"avc1", b"mp4v", b"tx3g", b"text", b"alac", b"ac-3", b"enca", b"mp4s", b"samr"]);
                    let l = self.r.range(8, 60);
                    let body = self.r.bytes(l);
                    st_kids.push(N::Leaf { cc: *cc, ext: self.ext(), body, marks: vec![] });
                }
                *self.r.pick(&[b"soun", b"vide", b"vide", b"text", b"sbtl", b"hint", b"meta", b"tmcd"])
            }
        };
        if self.c.padding && self.r.chance(1, 4) {
            let n = self.unknown(&[b"mp4a"]);
            let at = self.r.below(st_kids.len() + 1);
            st_kids.insert(at, n);
        }
        let mut pre = vec![0];
        pre.extend(full_flags(self.r));
        pre.extend_from_slice(&(st_kids.len() as u32).to_be_bytes());
        stbl.push(N::Box { cc: *b"stsd", ext: self.ext(), pre, kids: st_kids });
        for cc in [b"stts", b"stsc", b"stsz"] {
            if self.r.chance(1, 2) {
                let l = self.r.range(8, 40);
                let b = self.r.bytes(l);
                stbl.push(N::Leaf { cc: *cc, ext: self.ext(), body: b, marks: vec![] });
            }
        }
        if !entries.is_empty() || self.r.chance(1, 2) {
            // now and then tables of both widths
            if self.r.chance(1, 10) {
                let entries = if wide { vec![] } else { entries.clone() };
                stbl.push(N::Table { wide: !wide, ext: self.ext(), flags: full_flags(self.r), entries });
            }
            stbl.push(N::Table { wide, ext: self.ext(), flags: full_flags(self.r), entries });
        }
        if self.r.chance(1, 3) {
            self.r.shuffle(&mut stbl);
        }
        self.sprinkle(&mut stbl, &[b"stsd", b"stco", b"co64"]);
        if hollow == 4 {
            stbl.clear();
        }
        let stbl = N::Box { cc: *b"stbl", ext: self.ext(), pre: vec![], kids: stbl };
        let mut minf = vec![];
        if self.r.chance(1, 2) {
            minf.push(match kind {
                b"soun" => N::leaf(b"smhd", vec![0; 8]),
                b"vide" => N::leaf(b"vmhd", vec![0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]),
                _ => N::leaf(b"nmhd", vec![0; 4]),
            });
            minf.push(N::leaf(b"dinf", vec![0, 0, 0, 28, b'd', b'r', b'e', b'f', 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 12, b'u', b'r', b'l', b' ', 0, 0, 0, 1]));
        }
        minf.push(stbl);
        if hollow == 3 {
            minf.pop();
        }
        if self.r.chance(1, 4) {
            self.r.shuffle(&mut minf);
        }
        self.sprinkle(&mut minf, &[b"stbl"]);
        let minf = N::Box { cc: *b"minf", ext: self.ext(), pre: vec![], kids: minf };
        let mdhd = header(self.r, &[(0, 24), (1, 36)]);
        let mut mdia = vec![N::leaf(b"mdhd", mdhd)];
        mdia.push(self.hdlr(kind));
        mdia.push(minf);
        if hollow == 2 {
            mdia.pop();
        }
        if self.r.chance(1, 4) {
            self.r.shuffle(&mut mdia);
        }
        self.sprinkle(&mut mdia, &[b"minf"]);
        let mdia = N::Box { cc: *b"mdia", ext: self.ext(), pre: vec![], kids: mdia };
        let tkhd = header(self.r, &[(0, 84), (1, 96)]);
        let mut trak = vec![N::leaf(b"tkhd", tkhd), mdia];
        if hollow == 1 {
            trak.pop();
        }
        if self.c.decoys && self.r.chance(1, 3) {
            let items = vec![(Id::F(*b"\xa9nam"), vec![V::Utf8("track title".into())])];
            let ilst = self.ilst_plain(&items);
            let meta = N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![ilst] };
            let n = if self.r.chance(1, 2) { N::container(b"udta", vec![meta]) } else { meta };
            trak.push(n);
        }
        if self.r.chance(1, 4) {
            self.r.shuffle(&mut trak);
        }
        self.sprinkle(&mut trak, &[b"mdia"]);
        N::Box { cc: *b"trak", ext: self.ext(), pre: vec![], kids: trak }
    }
}

pub fn item_plain(id: &Id, vals: &[V]) -> N {
    let mut kids = vec![];
    let cc = match id {
        Id::F(c) => *c,
        Id::S(m, n) => {
            for (cc, s) in [(b"mean", m), (b"name", n)] {
                let mut b = vec![0; 4];
                b.extend_from_slice(s.as_bytes());
                kids.push(N::leaf(cc, b));
            }
            *b"----"
        }
    };
    for v in vals {
        let mut body = v.code().to_be_bytes().to_vec();
        body.extend_from_slice(&[0; 4]);
        body.extend_from_slice(&v.raw());
        kids.push(N::leaf(b"data", body));
    }
    N::Box { cc, ext: false, pre: vec![], kids }
}

/// The flags of an atom that defines none: mostly zero, readers ignore them.
pub fn full_flags(r: &mut Rng) -> [u8; 3] {
    let mut f = [0; 3];
    if r.chance(1, 5) {
        for b in f.iter_mut() {
            *b = *r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 60, 64, 127, 128, 200, 254, 255]);
        }
    }
    f
}

/// The content of a track or media header, which is of no interest: a version and its length, flags,
/// and the fields.
pub fn header(r: &mut Rng, kinds: &[(u8, usize)]) -> Vec<u8> {
    let (v, l) = *r.pick(kinds);
    let mut b = vec![v, 0, 0, *r.pick(&[0u8, 1, 7, 15])];
    let rest = if r.chance(1, 2) { r.bytes(l - 4) } else { vec![0; l - 4] };
    b.extend(rest);
    if l == 24 || l == 36 {
        // the time scale of a media header
        let at = if v == 0 { 12 } else { 20 };
        let t = *r.pick(&[1u32, 25, 600, 1000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 90000, 1_000_000]);
        b[at..at + 4].copy_from_slice(&t.to_be_bytes());
    }
    b
}

/// other flags and times in a movie header
pub fn vary_header(r: &mut Rng, mvhd: &mut N) {
    if let N::Leaf { body, .. } = mvhd {
        let f = full_flags(r);
        body[1..4].copy_from_slice(&f);
        if r.chance(1, 2) {
            let n = if body[0] == 0 { 8 } else { 16 };
            let t = match r.below(3) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => r.bytes(n),
            };
            body[4..4 + n].copy_from_slice(&t);
        }
    }
}

pub fn mvhd_node(version: u8, timescale: u32, duration: u64, rest: &[u8]) -> N {
    let mut b = vec![version, 0, 0, 0];
    let mut marks = vec![Mark { off: 0, width: 1, kind: Kind::Version }];
    if version == 0 {
        b.extend_from_slice(&[0x11; 8]);
        b.extend_from_slice(&timescale.to_be_bytes());
        b.extend_from_slice(&(duration as u32).to_be_bytes());
        marks.push(Mark { off: 12, width: 4, kind: Kind::Scalar });
        marks.push(Mark { off: 16, width: 4, kind: Kind::Scalar });
    } else {
        b.extend_from_slice(&[0x22; 16]);
        b.extend_from_slice(&timescale.to_be_bytes());
        b.extend_from_slice(&duration.to_be_bytes());
        marks.push(Mark { off: 20, width: 4, kind: Kind::Scalar });
        marks.push(Mark { off: 24, width: 8, kind: Kind::Scalar });
    }
    b.extend_from_slice(rest);
    N::Leaf { cc: *b"mvhd", ext: false, body: b, marks }
}

/// descriptor with a length of `enc` (1..=4) bytes, 0 picks the shortest
pub fn desc(tag: u8, body: &[u8], enc: usize, marks: &mut Vec<Mark>) -> Vec<u8> {
    let l = body.len();
    let min = if l < 1 << 7 {
        1
    } else if l < 1 << 14 {
        2
    } else if l < 1 << 21 {
        3
    } else {
        4
    };
    let n = enc.max(min);
    let mut v = vec![tag];
    for i in (0..n).rev() {
        let b = ((l >> (7 * i)) & 0x7f) as u8;
        v.push(if i > 0 { b | 0x80 } else { b });
    }
    for m in marks.iter_mut() {
        m.off += v.len();
    }
    marks.push(Mark { off: 0, width: 1, kind: Kind::Scalar });
    for i in 0..n {
        marks.push(Mark { off: 1 + i, width: 1, kind: Kind::DescLen });
    }
    v.extend_from_slice(body);
    v
}

#[derive(Default)]
struct Bits(Vec<u8>, usize);

impl Bits {
    fn put(&mut self, v: u64, n: usize) {
        for i in (0..n).rev() {
            if self.1 % 8 == 0 {
                self.0.push(0);
            }
            if v >> i & 1 == 1 {
                *self.0.last_mut().unwrap() |= 0x80 >> (self.1 % 8);
            }
            self.1 += 1;
        }
    }
    /// fills the last byte with arbitrary bits
    fn finish(mut self, r: &mut Rng) -> Vec<u8> {
        while self.1 % 8 != 0 {
            let b = r.below(2) as u64;
            self.put(b, 1);
        }
        self.0
    }
}

/// An `mp4a` sample entry and what its decoder configuration says.
pub fn mp4a(r: &mut Rng, ext: usize, rate: Option<u8>, chan: Option<u8>) -> (N, Audio) {
    let mut a = Audio::default();
    let enc = |r: &mut Rng| *r.pick(&[0usize, 0, 1, 2, 3, 4, 4]);
    let mut marks = vec![];
    let mut es = r.bytes(2);
    let mut flags = if r.chance(1, 2) { 0 } else { r.below(32) as u8 };
    if r.chance(1, 6) {
        flags |= (r.u8() & 0xe0) as u8;
    }
    es.push(flags);
    if flags & 0x80 != 0 {
        es.extend(r.bytes(2));
    }
    if flags & 0x40 != 0 {
        let l = *r.pick(&[0usize, 1, 4, 20, 255]);
        es.push(l as u8);
        es.extend(r.bytes(l));
    }
    if flags & 0x20 != 0 {
        es.extend(r.bytes(2));
    }
    if r.chance(14, 15) {
        let mut dc = vec![0x40, 0x15];
        dc.extend(r.bytes(3));
        let (mx, av) = (dict::int(r) as u32, dict::int(r) as u32);
        dc.extend_from_slice(&mx.to_be_bytes());
        dc.extend_from_slice(&av.to_be_bytes());
        a.max = Some(mx);
        a.avg = Some(av);
        if rate.is_some() || r.chance(14, 15) {
            let ri = rate.unwrap_or_else(|| r.below(16) as u8);
            let ch = chan.unwrap_or_else(|| if r.chance(3, 4) { r.below(8) as u8 } else { r.below(16) as u8 });
            let mut bits = Bits::default();
            if r.chance(1, 4) {
                bits.put(31, 5);
                bits.put(r.below(64) as u64, 6);
            } else {
                bits.put(r.range(1, 30) as u64, 5);
            }
            bits.put(ri as u64, 4);
            if ri == 15 {
                let hz = *r.pick(&[44100u64, 48000, 12345, 0, 0xff_ffff, 0x80_0001]);
                bits.put(hz, 24);
            }
            bits.put(ch as u64, 4);
            let mut ds = bits.finish(r);
            let extra = *r.pick(&[0usize, 0, 0, 1, 3, 5, 20, 125, 126, 127, 128, 200, 300, 17000]);
            ds.extend(r.bytes(extra));
            let e = enc(r);
            let mut m = vec![];
            let d = desc(5, &ds, e, &mut m);
            if r.chance(1, 8) {
                // a profile level indication before it
                let mut none = vec![];
                let x = desc(0x14, &r.bytes(3), 0, &mut none);
                dc.extend(x);
            }
            for x in m.iter_mut() {
                x.off += dc.len();
            }
            marks.extend(m);
            dc.extend(d);
            if r.chance(1, 8) {
                let mut none = vec![];
                let x = desc(0x14, &r.bytes(2), 0, &mut none);
                dc.extend(x);
            }
            a.rate_idx = Some(ri);
            a.channel_cfg = Some(ch);
        }
        let e = enc(r);
        let d = desc(4, &dc, e, &mut marks);
        if r.chance(1, 10) {
            let mut none = vec![];
            let x = desc(0x13, &r.bytes(4), 0, &mut none);
            es.extend(x);
        }
        for x in marks.iter_mut() {
            x.off += es.len();
        }
        es.extend(d);
    }
    if r.chance(3, 4) {
        let mut none = vec![];
        let e = enc(r);
        es.extend(desc(6, &[2], e, &mut none));
    }
    if r.chance(1, 8) {
        let mut none = vec![];
        let k = *r.pick(&[0usize, 1, 9, 140]);
        let b = r.bytes(k);
        es.extend(desc(0x0e, &b, 0, &mut none));
    }
    let e = enc(r);
    let es = desc(3, &es, e, &mut marks);
    let mut body = vec![0];
    body.extend(full_flags(r));
    for x in marks.iter_mut() {
        x.off += 4;
    }
    marks.push(Mark { off: 0, width: 1, kind: Kind::Version });
    body.extend(es);
    let esds = N::Leaf { cc: *b"esds", ext: r.chance(ext, 100), body, marks };
    let mut pre = vec![0; 6];
    pre.extend(r.bytes(2));
    pre.extend([0; 8]);
    pre.extend(r.bytes(12));
    let mut kids = vec![esds];
    while r.chance(1, 4) {
        let cc = *r.pick(&[b"btrt", b"chnl", b"srat", b"sinf", b"free"]);
        let l = *r.pick(&[12usize, 0, 4, 30]);
        let n = N::Leaf { cc: *cc, ext: r.chance(ext, 100), body: r.bytes(l), marks: vec![] };
        let at = r.below(kids.len() + 1);
        kids.insert(at, n);
    }
    (N::Box { cc: *b"mp4a", ext: r.chance(ext, 100), pre, kids }, a)
}

pub fn gen_ftyp(r: &mut Rng) -> String {
    match r.below(8) {
        0..=3 => (*r.pick(&["M4A \0\0\u{2}\0isomiso2", "M4A \0\0\0\0M4A mp42isom\0\0\0\0", "isom\0\0\u{2}\0isomiso2mp41", "mp42\0\0\0\0isommp42", "qt  \u{20}\u{5}\u{3}\0qt  ", "3gp4\0\0\0\u{1}3gp4", "dash\0\0\0\0"])).to_string(),
        4 => String::new(),
        5 => model::gen_string(r, 200),
        _ => {
            let mut s = model::ascii(r, 4);
            s += "\0\0\0\0";
            for _ in 0..r.below(6) {
                s += &model::ascii(r, 4);
            }
            s
        }
    }
}

pub fn gen(r: &mut Rng, c: Cfg) -> Spec {
    let mut items: Items = vec![];
    let mut has_list = c.items;
    if has_list {
        items = if c.scale == Some(Scale::Items) { model::big_items(r) } else { model::gen_items(r, c.tag) };
        let many = c.scale == Some(Scale::Repeats);
        if (c.repeats || many) && !items.is_empty() {
            let n = if many { *r.pick(model::BIG_COUNTS) } else { r.range(1, 4) };
            for _ in 0..n {
                let id = items[r.below(items.len())].0.clone();
                let v = vec![model::gen_val(r, 30)];
                let at = r.below(items.len() + 1);
                items.insert(at, (id, v));
            }
        }
    }
    if r.chance(1, 12) {
        has_list = false;
        items.clear();
    }
    gen_with(r, c, items, has_list)
}

pub fn gen_with(r: &mut Rng, c: Cfg, items: Items, has_list: bool) -> Spec {
    let mut audio = Audio::default();
    let ftyp = if c.scale == Some(Scale::Ftyp) {
        let l = *r.pick(model::BIG_LENS);
        model::gen_string_len(r, l >> 2)
    } else {
        gen_ftyp(r)
    };
    let n_media = match c.scale {
        Some(Scale::Medias) => r.range(9, 700),
        Some(Scale::Entries | Scale::Tracks | Scale::Media) => r.range(1, 3),
        _ => *r.pick(&[0usize, 1, 1, 1, 1, 2, 2, 3]),
    };
    let media: Vec<Vec<u8>> = (0..n_media)
        .map(|_| {
            let l = match c.scale {
                Some(Scale::Media) => *r.pick(model::BIG_LENS) + r.below(40),
                _ if r.chance(1, 8) => dict::len(r, 20_000),
                _ => r.below(400),
            };
            r.bytes(l)
        })
        .collect();
    let mut g = G { r, c };
    // tracks
    let n_traks = match c.scale {
        Some(Scale::Tracks) => *g.r.pick(&[16usize, 17, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 600, 1025]),
        Some(Scale::Entries) => g.r.range(1, 3),
        _ => g.r.below(c.max_traks + 1),
    };
    let mut traks = vec![];
    for _ in 0..n_traks {
        let mut entries = vec![];
        let nonempty: Vec<usize> = (0..n_media).filter(|m| !media[*m].is_empty()).collect();
        if !nonempty.is_empty() {
            let n = match c.scale {
                Some(Scale::Entries) => *g.r.pick(&[5000usize, 8192, 8193, 16_383, 16_384, 16_385, 20_000, 32_767, 32_768, 32_769, 40_000, 65_535, 65_536, 65_537, 70_000, 100_000, 131_073]),
                _ => dict::count(g.r, c.max_entries),
            };
            let one = g.r.chance(2, 3).then(|| *g.r.pick(&nonempty));
            for _ in 0..n {
                let m = one.unwrap_or_else(|| *g.r.pick(&nonempty));
                let ml = media[m].len();
                let off = match g.r.below(8) {
                    0 => 0,
                    1 => ml - 1,
                    _ => g.r.below(ml),
                };
                let len = g.r.range(1, (ml - off).min(64));
                entries.push(Entry { media: m, off: off as u64, len: len as u64 });
            }
            if g.r.chance(1, 2) {
                entries.sort_by_key(|e| (e.media, e.off));
            }
        }
        let sample = match g.r.below(8) {
            0 => None,
            1 | 2 => {
                let cc = *g.r.pick(&[b"mp4v", b"text", b"tx3g", b"alac", b"avc1", b"enca", b"sawb"]);
                let l = g.r.range(0, 90);
                Some(N::leaf(cc, g.r.bytes(l)))
            }
            _ => {
                let (n, a) = mp4a(g.r, c.ext, None, None);
                if audio.max.is_none() && !traks.iter().any(|(_, has)| *has) {
                    audio = a;
                }
                Some(n)
            }
        };
        let has = sample.as_ref().map_or(false, |s| &s.cc() == b"mp4a");
        let wide = g.r.chance(1, 2);
        traks.push((g.trak(entries, wide, sample), has));
    }
    // movie
    let mut kids: Vec<N> = vec![];
    if g.r.chance(9, 10) {
        let version = g.r.below(2) as u8;
        let ts = match g.r.below(3) {
            0 => *g.r.pick(&[1u32, 2, 3, 600, 1000, 44100, 48000, 90000, 1_000_000, u32::MAX]),
            _ => (dict::int(g.r) as u32).max(1),
        };
        let mut d = dict::int(g.r);
        if version == 0 {
            d &= 0xffff_ffff;
        }
        audio.duration = Some((d, ts));
        let l = *g.r.pick(&[80usize, 80, 80, 0, 4]);
        let mut n = mvhd_node(version, ts, d, &g.r.bytes(l));
        vary_header(g.r, &mut n);
        if let N::Leaf { ext, .. } = &mut n {
            *ext = g.ext();
        }
        kids.push(n);
    }
    kids.extend(traks.into_iter().map(|t| t.0));
    let with_meta = has_list || g.r.chance(1, 2);
    if with_meta || g.r.chance(1, 2) {
        let mut uk = vec![];
        if with_meta {
            uk.push(g.meta(has_list.then_some(&items)));
        }
        g.sprinkle(&mut uk, &[b"meta"]);
        if c.decoys && g.r.chance(1, 4) {
            let d = vec![(Id::F(*b"\xa9nam"), vec![V::Utf8("udta decoy".into())])];
            let l = g.ilst_plain(&d);
            let at = g.r.below(uk.len() + 1);
            uk.insert(at, l);
        }
        let n = N::Box { cc: *b"udta", ext: g.ext(), pre: vec![], kids: uk };
        kids.push(n);
    }
    if c.decoys && g.r.chance(1, 4) {
        let d = vec![(Id::F(*b"\xa9nam"), vec![V::Utf8("moov decoy".into())])];
        let l = g.ilst_plain(&d);
        let n = match g.r.below(3) {
            0 => l,
            _ => N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![l] },
        };
        let at = g.r.below(kids.len() + 1);
        kids.insert(at, n);
    }
    if g.r.chance(1, 3) {
        // the order of the tracks among themselves must be kept
        let pos: Vec<usize> = (0..kids.len()).filter(|i| &kids[*i].cc() == b"trak").collect();
        let mut others: Vec<N> = vec![];
        let mut tr: Vec<N> = vec![];
        for k in kids.drain(..) {
            if &k.cc() == b"trak" {
                tr.push(k)
            } else {
                others.push(k)
            }
        }
        let _ = pos;
        g.r.shuffle(&mut others);
        kids = tr;
        for o in others {
            let at = g.r.below(kids.len() + 1);
            kids.insert(at, o);
        }
    }
    g.sprinkle(&mut kids, &[b"mvhd", b"trak", b"udta"]);
    let moov = N::Box { cc: *b"moov", ext: g.ext(), pre: vec![], kids };
    let mut top = vec![moov];
    for (id, body) in media.into_iter().enumerate() {
        let n = N::Media { id, ext: g.ext(), body, claim: None };
        let at = g.r.below(top.len() + 1);
        top.insert(at, n);
    }
    g.sprinkle(&mut top, &[b"moov", b"mdat"]);
    if c.decoys && g.r.chance(1, 5) {
        let d = vec![(Id::F(*b"\xa9nam"), vec![V::Utf8("file decoy".into())])];
        let l = g.ilst_plain(&d);
        let n = match g.r.below(3) {
            0 => l,
            1 => N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![l] },
            _ => N::container(b"udta", vec![N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![l] }]),
        };
        let at = g.r.below(top.len() + 1);
        top.insert(at, n);
    }
    match c.scale {
        Some(Scale::Unknown) => {
            let n = *g.r.pick(model::BIG_COUNTS);
            let at = g.pick_place();
            let l = g.r.below(24);
            let each = g.r.chance(1, 2);
            g.crowd(&mut top, at, n, l, each);
        }
        Some(Scale::Long) => {
            let at = g.pick_place();
            let l = *g.r.pick(model::BIG_LENS) + g.r.below(5);
            g.crowd(&mut top, at, 1, l, true);
        }
        Some(Scale::Padding) => {
            let (n, l) = if g.r.chance(1, 2) { (1, *g.r.pick(model::BIG_LENS)) } else { (*g.r.pick(model::BIG_COUNTS), g.r.below(20)) };
            g.crowd(&mut top, b"ilst", n, l, true);
        }
        _ => {}
    }
    let f = N::Leaf { cc: *b"ftyp", ext: g.r.chance(c.ext, 200), body: ftyp.as_bytes().to_vec(), marks: vec![] };
    top.insert(0, f);
    Spec { top, ftyp, audio, items }
}
