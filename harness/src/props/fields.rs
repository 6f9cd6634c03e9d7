//! The documented fields: identifier, encoding, accessors. Written from the documentation of the
//! crate and of the iTunes metadata format, not from its identifier constants.

use super::common::*;
use mp4ameta::{AdvisoryRating, Img, ImgBuf, ImgFmt, MediaType};

#[derive(Clone, Copy)]
pub enum Key {
    F(&'static [u8; 4]),
    S(&'static str),
}

impl Key {
    pub fn id(&self) -> Id {
        match self {
            Key::F(c) => Id::F(**c),
            Key::S(n) => Id::S("com.apple.iTunes".into(), n.to_string()),
        }
    }
}

pub struct Single {
    pub name: &'static str,
    pub key: Key,
    pub get: fn(&Tag) -> Option<String>,
    pub take: fn(&mut Tag) -> Option<String>,
    pub set: fn(&mut Tag, String),
    pub remove: fn(&mut Tag),
}

macro_rules! single {
    ($n:ident $t:ident $s:ident $r:ident $k:expr) => {
        Single {
            name: stringify!($n),
            key: $k,
            get: |t| t.$n().map(str::to_owned),
            take: |t| t.$t(),
            set: |t, v| t.$s(v),
            remove: |t| t.$r(),
        }
    };
}

pub const SINGLES: &[Single] = &[
    single!(album take_album set_album remove_album Key::F(b"\xa9alb")),
    single!(copyright take_copyright set_copyright remove_copyright Key::F(b"cprt")),
    single!(encoder take_encoder set_encoder remove_encoder Key::F(b"\xa9too")),
    single!(lyrics take_lyrics set_lyrics remove_lyrics Key::F(b"\xa9lyr")),
    single!(movement take_movement set_movement remove_movement Key::F(b"\xa9mvn")),
    single!(title take_title set_title remove_title Key::F(b"\xa9nam")),
    single!(tv_episode_name take_tv_episode_name set_tv_episode_name remove_tv_episode_name Key::F(b"tven")),
    single!(tv_network_name take_tv_network_name set_tv_network_name remove_tv_network_name Key::F(b"tvnn")),
    single!(tv_show_name take_tv_show_name set_tv_show_name remove_tv_show_name Key::F(b"tvsh")),
    single!(work take_work set_work remove_work Key::F(b"\xa9wrk")),
    single!(year take_year set_year remove_year Key::F(b"\xa9day")),
    single!(isrc take_isrc set_isrc remove_isrc Key::S("ISRC")),
];

pub struct Multi {
    pub name: &'static str,
    pub plural: &'static str,
    pub key: Key,
    pub get: fn(&Tag) -> Option<String>,
    pub gets: fn(&Tag) -> Vec<String>,
    pub take: fn(&mut Tag) -> Option<String>,
    pub takes: fn(&mut Tag, usize) -> Vec<String>,
    /// goes through the iterators of the tag and of its clone in the given ways
    pub walks: fn(&Tag, &[String], u64, u64) -> Outcome,
    pub set: fn(&mut Tag, String),
    pub sets: fn(&mut Tag, Box<dyn Iterator<Item = String>>),
    pub add: fn(&mut Tag, String),
    pub adds: fn(&mut Tag, Box<dyn Iterator<Item = String>>),
    pub remove: fn(&mut Tag),
}

macro_rules! multi {
    ($n:ident $np:ident $t:ident $tp:ident $s:ident $sp:ident $a:ident $ap:ident $r:ident $k:expr) => {
        Multi {
            name: stringify!($n),
            plural: stringify!($np),
            key: $k,
            get: |t| t.$n().map(str::to_owned),
            gets: |t| t.$np().map(str::to_owned).collect(),
            take: |t| t.$t(),
            takes: |t, k| t.$tp().take(k).collect(),
            walks: |t, w, h, g| {
                walk(t.$np(), w, str::to_owned, h, stringify!($np))?;
                walk(t.clone().$tp(), w, |s| s, g, stringify!($tp))
            },
            set: |t, v| t.$s(v),
            sets: |t, v| t.$sp(v),
            add: |t, v| t.$a(v),
            adds: |t, v| t.$ap(v),
            remove: |t| t.$r(),
        }
    };
}

pub const MULTIS: &[Multi] = &[
    multi!(album_artist album_artists take_album_artist take_album_artists set_album_artist set_album_artists add_album_artist add_album_artists remove_album_artists Key::F(b"aART")),
    multi!(artist artists take_artist take_artists set_artist set_artists add_artist add_artists remove_artists Key::F(b"\xa9ART")),
    multi!(category categories take_category take_categories set_category set_categories add_category add_categories remove_categories Key::F(b"catg")),
    multi!(comment comments take_comment take_comments set_comment set_comments add_comment add_comments remove_comments Key::F(b"\xa9cmt")),
    multi!(composer composers take_composer take_composers set_composer set_composers add_composer add_composers remove_composers Key::F(b"\xa9wrt")),
    multi!(custom_genre custom_genres take_custom_genre take_custom_genres set_custom_genre set_custom_genres add_custom_genre add_custom_genres remove_custom_genres Key::F(b"\xa9gen")),
    multi!(description descriptions take_description take_descriptions set_description set_descriptions add_description add_descriptions remove_descriptions Key::F(b"desc")),
    multi!(grouping groupings take_grouping take_groupings set_grouping set_groupings add_grouping add_groupings remove_groupings Key::F(b"\xa9grp")),
    multi!(keyword keywords take_keyword take_keywords set_keyword set_keywords add_keyword add_keywords remove_keywords Key::F(b"keyw")),
    multi!(lyricist lyricists take_lyricist take_lyricists set_lyricist set_lyricists add_lyricist add_lyricists remove_lyricists Key::S("LYRICIST")),
];

pub struct Flag {
    pub name: &'static str,
    pub key: Key,
    pub get: fn(&Tag) -> bool,
    pub set: fn(&mut Tag),
    pub remove: fn(&mut Tag),
}

macro_rules! flag {
    ($n:ident $s:ident $r:ident $k:expr) => {
        Flag { name: stringify!($n), key: $k, get: |t| t.$n(), set: |t| t.$s(), remove: |t| t.$r() }
    };
}

pub const FLAGS: &[Flag] = &[
    flag!(compilation set_compilation remove_compilation Key::F(b"cpil")),
    flag!(gapless_playback set_gapless_playback remove_gapless_playback Key::F(b"pgap")),
    flag!(show_movement set_show_movement remove_show_movement Key::F(b"shwm")),
];

pub struct Int {
    pub name: &'static str,
    pub key: Key,
    pub bytes: usize,
    pub get: fn(&Tag) -> Option<u64>,
    pub set: fn(&mut Tag, u64),
    pub remove: fn(&mut Tag),
}

macro_rules! int {
    ($n:ident $s:ident $r:ident $b:expr, $t:ty, $k:expr) => {
        Int { name: stringify!($n), key: $k, bytes: $b, get: |t| t.$n().map(u64::from), set: |t, v| t.$s(v as $t), remove: |t| t.$r() }
    };
}

pub const INTS: &[Int] = &[
    int!(bpm set_bpm remove_bpm 2, u16, Key::F(b"tmpo")),
    int!(movement_count set_movement_count remove_movement_count 2, u16, Key::F(b"\xa9mvc")),
    int!(movement_index set_movement_index remove_movement_index 2, u16, Key::F(b"\xa9mvi")),
    int!(tv_episode set_tv_episode remove_tv_episode 4, u32, Key::F(b"tves")),
    int!(tv_season set_tv_season remove_tv_season 4, u32, Key::F(b"tvsn")),
];

pub const MEDIA_TYPES: &[(MediaType, u8, &str)] = &[
    (MediaType::Movie, 0, "Movie"),
    (MediaType::Normal, 1, "Normal"),
    (MediaType::AudioBook, 2, "Audiobook"),
    (MediaType::WhackedBookmark, 5, "Whacked Bookmark"),
    (MediaType::MusicVideo, 6, "Music Video"),
    (MediaType::ShortFilm, 9, "Short Film"),
    (MediaType::TvShow, 10, "TV-Show"),
    (MediaType::Booklet, 11, "Booklet"),
];

pub const RATINGS: &[(AdvisoryRating, u8, &str)] =
    &[(AdvisoryRating::Inoffensive, 0, "Inoffensive"), (AdvisoryRating::Clean, 2, "Clean"), (AdvisoryRating::Explicit, 4, "Explicit")];

pub const TRKN: Id = Id::F(*b"trkn");
pub const DISK: Id = Id::F(*b"disk");
pub const COVR: Id = Id::F(*b"covr");
pub const STIK: Id = Id::F(*b"stik");
pub const RTNG: Id = Id::F(*b"rtng");
pub const GNRE: Id = Id::F(*b"gnre");
pub const CGEN: Id = Id::F(*b"\xa9gen");

/// every identifier that some documented accessor reads
pub fn field_ids() -> Vec<Id> {
    let mut v: Vec<Id> = vec![];
    v.extend(SINGLES.iter().map(|f| f.key.id()));
    v.extend(MULTIS.iter().map(|f| f.key.id()));
    v.extend(FLAGS.iter().map(|f| f.key.id()));
    v.extend(INTS.iter().map(|f| f.key.id()));
    v.extend([TRKN, DISK, COVR, STIK, RTNG, GNRE]);
    v
}

pub fn vals<'a>(items: &'a Items, id: &Id) -> &'a [V] {
    items.iter().find(|(i, _)| i == id).map_or(&[], |(_, v)| v)
}

pub fn strings(v: &[V]) -> Vec<String> {
    v.iter().filter_map(|x| x.string().cloned()).collect()
}

pub fn bytes(v: &[V]) -> Vec<Vec<u8>> {
    v.iter().filter_map(|x| x.bytes().cloned()).collect()
}

pub fn images(v: &[V]) -> Vec<(u8, Vec<u8>)> {
    v.iter().filter_map(|x| x.image().map(|(f, d)| (f, d.clone()))).collect()
}

pub fn lead(v: &[V], off: usize, n: usize) -> Option<u64> {
    let b = bytes(v).into_iter().next()?;
    if b.len() < off + n {
        return None;
    }
    Some(b[off..off + n].iter().fold(0, |a, x| a << 8 | *x as u64))
}

pub fn half(v: &[V], off: usize) -> Option<u16> {
    lead(v, off, 2).map(|x| x as u16).filter(|x| *x != 0)
}

pub fn genre_codes(items: &Items) -> Vec<u16> {
    bytes(vals(items, &GNRE)).iter().filter(|b| b.len() >= 2).map(|b| (b[0] as u16) << 8 | b[1] as u16).collect()
}

/// reference of the combined genre view
pub fn genre_list(items: &Items) -> Vec<String> {
    let mut g: Vec<String> = genre_codes(items)
        .into_iter()
        .filter(|c| (1..=80).contains(c))
        .map(|c| super::tables::GENRES[c as usize - 1].to_string())
        .collect();
    g.extend(strings(vals(items, &CGEN)));
    g
}

pub fn fmt_code(f: &ImgFmt) -> u8 {
    match f {
        ImgFmt::Bmp => 0,
        ImgFmt::Jpeg => 1,
        ImgFmt::Png => 2,
    }
}

pub fn img(f: u8, d: Vec<u8>) -> ImgBuf {
    match f {
        0 => Img::bmp(d),
        1 => Img::jpeg(d),
        _ => Img::png(d),
    }
}

pub fn img_v(f: u8, d: Vec<u8>) -> V {
    match f {
        0 => V::Bmp(d),
        1 => V::Jpeg(d),
        _ => V::Png(d),
    }
}

/// what every documented getter returns
pub fn view(t: &Tag) -> Vec<(&'static str, Id, String)> {
    let mut o: Vec<(&'static str, Id, String)> = vec![];
    for f in SINGLES {
        o.push((f.name, f.key.id(), format!("{:?}", (f.get)(t))));
    }
    for f in MULTIS {
        o.push((f.name, f.key.id(), format!("{:?}", (f.get)(t))));
        o.push((f.plural, f.key.id(), format!("{:?}", (f.gets)(t))));
    }
    for f in FLAGS {
        o.push((f.name, f.key.id(), format!("{:?}", (f.get)(t))));
    }
    for f in INTS {
        o.push((f.name, f.key.id(), format!("{:?}", (f.get)(t))));
    }
    o.push(("track", TRKN, format!("{:?}", (t.track(), t.track_number(), t.total_tracks()))));
    o.push(("disc", DISK, format!("{:?}", (t.disc(), t.disc_number(), t.total_discs()))));
    o.push(("artwork", COVR, format!("{:?}", t.artwork().map(|i| (fmt_code(&i.fmt), i.data.to_vec())))));
    o.push(("artworks", COVR, format!("{:?}", t.artworks().map(|i| (fmt_code(&i.fmt), i.data.to_vec())).collect::<Vec<_>>())));
    o.push(("media_type", STIK, format!("{:?}", t.media_type())));
    o.push(("advisory_rating", RTNG, format!("{:?}", t.advisory_rating())));
    o.push(("standard_genre", GNRE, format!("{:?}", t.standard_genre())));
    o.push(("standard_genres", GNRE, format!("{:?}", t.standard_genres().collect::<Vec<_>>())));
    o
}

/// the same, computed from the stored items
pub fn expected(items: &Items) -> Vec<(&'static str, Id, String)> {
    let mut o: Vec<(&'static str, Id, String)> = vec![];
    let get = |k: &Key| vals(items, &k.id());
    for f in SINGLES {
        o.push((f.name, f.key.id(), format!("{:?}", strings(get(&f.key)).first())));
    }
    for f in MULTIS {
        let s = strings(get(&f.key));
        o.push((f.name, f.key.id(), format!("{:?}", s.first())));
        o.push((f.plural, f.key.id(), format!("{:?}", s)));
    }
    for f in FLAGS {
        let b = bytes(get(&f.key)).first().map_or(false, |b| b.first() == Some(&1));
        o.push((f.name, f.key.id(), format!("{:?}", b)));
    }
    for f in INTS {
        o.push((f.name, f.key.id(), format!("{:?}", lead(get(&f.key), 0, f.bytes))));
    }
    for (n, id) in [("track", TRKN), ("disc", DISK)] {
        let (a, b) = (half(vals(items, &id), 2), half(vals(items, &id), 4));
        o.push((n, id, format!("{:?}", ((a, b), a, b))));
    }
    let im = images(vals(items, &COVR));
    o.push(("artwork", COVR, format!("{:?}", im.first())));
    o.push(("artworks", COVR, format!("{:?}", im)));
    let mt = lead(vals(items, &STIK), 0, 1).and_then(|c| MEDIA_TYPES.iter().find(|m| m.1 as u64 == c).map(|m| m.0));
    o.push(("media_type", STIK, format!("{:?}", mt)));
    let ar = lead(vals(items, &RTNG), 0, 1).map(|c| match c {
        2 => AdvisoryRating::Clean,
        0 => AdvisoryRating::Inoffensive,
        _ => AdvisoryRating::Explicit,
    });
    o.push(("advisory_rating", RTNG, format!("{:?}", ar)));
    let g = genre_codes(items);
    o.push(("standard_genre", GNRE, format!("{:?}", g.first())));
    o.push(("standard_genres", GNRE, format!("{:?}", g)));
    o
}

/// a value of the shape a field of this identifier usually has, or of any other
pub fn field_val(r: &mut Rng, id: &Id, max: usize) -> V {
    if r.chance(1, 4) {
        return gen_val(r, max.min(64));
    }
    let num = |r: &mut Rng, n: usize| {
        let mut b = match r.below(5) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => (dict::int(r).to_be_bytes())[8 - n.min(8)..].to_vec(),
            3 => {
                let mut b = vec![0; n];
                if n > 0 {
                    b[n - 1] = r.below(12) as u8;
                }
                b
            }
            _ => r.bytes(n),
        };
        b.truncate(n);
        b
    };
    let wrap = |r: &mut Rng, b: Vec<u8>| if r.chance(1, 2) { V::Reserved(b) } else { V::Signed(b) };
    let text = SINGLES.iter().any(|f| f.key.id() == *id) || MULTIS.iter().any(|f| f.key.id() == *id);
    if text {
        let s = gen_string(r, max);
        return if r.chance(1, 4) { V::Utf16(s) } else { V::Utf8(s) };
    }
    if *id == COVR {
        let d = gen_bytes(r, max);
        return img_v(r.below(3) as u8, d);
    }
    if *id == TRKN || *id == DISK {
        let n = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 8, 12]);
        let b = num(r, n);
        return wrap(r, b);
    }
    if *id == GNRE {
        let n = *r.pick(&[0, 1, 2, 2, 2, 2, 3, 4]);
        let mut b = num(r, n);
        if n >= 2 && r.chance(3, 4) {
            b[0] = 0;
            b[1] = *r.pick(&[0u8, 1, 2, 79, 80, 81, 255, 8, 61, 72, 17, 40]);
        }
        return wrap(r, b);
    }
    let n = *r.pick(&[0, 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 8]);
    let b = num(r, n);
    wrap(r, b)
}

/// items biased to documented fields, with any stored content
pub fn field_items(r: &mut Rng, n: usize, max: usize) -> Items {
    let ids = field_ids();
    let mut out: Items = vec![];
    for _ in 0..n {
        let id = if r.chance(4, 5) { r.pick(&ids).clone() } else { gen_id(r) };
        let k = *r.pick(&[1, 1, 1, 1, 2, 3, 5]);
        for _ in 0..k {
            let v = field_val(r, &id, max);
            match out.iter_mut().find(|(i, _)| *i == id) {
                Some((_, vs)) => vs.push(v),
                None => out.push((id.clone(), vec![v])),
            }
        }
    }
    out
}

/// the identifier of one of the documented fields
pub fn field_id(r: &mut Rng) -> Id {
    r.pick(&field_ids()).clone()
}
