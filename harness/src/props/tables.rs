//! C21 code tables, exhaustively.

use super::common::*;
use super::fields::{MEDIA_TYPES, RATINGS};
use mp4ameta::{AdvisoryRating, ChannelConfig, MediaType, SampleRate, STANDARD_GENRES};
use std::convert::TryFrom;

pub const GENRES: [&str; 80] = [
    "Blues", "Classic rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop", "Jazz", "Metal", "New Age", "Oldies",
    "Other", "Pop", "Rhythm and Blues", "Rap", "Reggae", "Rock", "Techno", "Industrial", "Alternative", "Ska", "Death metal",
    "Pranks", "Soundtrack", "Euro-Techno", "Ambient", "Trip-Hop", "Vocal", "Jazz & Funk", "Fusion", "Trance", "Classical",
    "Instrumental", "Acid", "House", "Game", "Sound clip", "Gospel", "Noise", "Alternative Rock", "Bass", "Soul", "Punk", "Space",
    "Meditative", "Instrumental Pop", "Instrumental Rock", "Ethnic", "Gothic", "Darkwave", "Techno-Industrial", "Electronic",
    "Pop-Folk", "Eurodance", "Dream", "Southern Rock", "Comedy", "Cult", "Gangsta", "Top 40", "Christian Rap", "Pop/Funk",
    "Jungle", "Native US", "Cabaret", "New Wave", "Psychedelic", "Rave", "Show tunes", "Trailer", "Lo-Fi", "Tribal", "Acid Punk",
    "Acid Jazz", "Polka", "Retro", "Musical", "Rock ’n’ Roll", "Hard Rock",
];

const CHANNELS: [(ChannelConfig, u8, u8, &str); 7] = [
    (ChannelConfig::Mono, 1, 1, "Mono"),
    (ChannelConfig::Stereo, 2, 2, "Stereo"),
    (ChannelConfig::Three, 3, 3, "3.0"),
    (ChannelConfig::Four, 4, 4, "4.0"),
    (ChannelConfig::Five, 5, 5, "5.0"),
    (ChannelConfig::FiveOne, 6, 6, "5.1"),
    (ChannelConfig::SevenOne, 7, 8, "7.1"),
];

pub const RATES: [(SampleRate, u32); 13] = [
    (SampleRate::Hz96000, 96000),
    (SampleRate::Hz88200, 88200),
    (SampleRate::Hz64000, 64000),
    (SampleRate::Hz48000, 48000),
    (SampleRate::Hz44100, 44100),
    (SampleRate::Hz32000, 32000),
    (SampleRate::Hz24000, 24000),
    (SampleRate::Hz22050, 22050),
    (SampleRate::Hz16000, 16000),
    (SampleRate::Hz12000, 12000),
    (SampleRate::Hz11025, 11025),
    (SampleRate::Hz8000, 8000),
    (SampleRate::Hz7350, 7350),
];

/// The public identifier constants with the codes of the iTunes metadata list.
fn idents() -> Vec<(&'static str, Fourcc, &'static [u8; 4])> {
    use mp4ameta::ident::*;
    vec![
        ("FREEFORM", FREEFORM, b"----"),
        ("ADVISORY_RATING", ADVISORY_RATING, b"rtng"),
        ("ALBUM", ALBUM, b"\xa9alb"),
        ("ALBUM_ARTIST", ALBUM_ARTIST, b"aART"),
        ("ARTIST", ARTIST, b"\xa9ART"),
        ("ARTWORK", ARTWORK, b"covr"),
        ("BPM", BPM, b"tmpo"),
        ("COMMENT", COMMENT, b"\xa9cmt"),
        ("COMPILATION", COMPILATION, b"cpil"),
        ("COMPOSER", COMPOSER, b"\xa9wrt"),
        ("COPYRIGHT", COPYRIGHT, b"cprt"),
        ("CUSTOM_GENRE", CUSTOM_GENRE, b"\xa9gen"),
        ("DISC_NUMBER", DISC_NUMBER, b"disk"),
        ("ENCODER", ENCODER, b"\xa9too"),
        ("STANDARD_GENRE", STANDARD_GENRE, b"gnre"),
        ("TITLE", TITLE, b"\xa9nam"),
        ("TRACK_NUMBER", TRACK_NUMBER, b"trkn"),
        ("YEAR", YEAR, b"\xa9day"),
        ("GROUPING", GROUPING, b"\xa9grp"),
        ("MEDIA_TYPE", MEDIA_TYPE, b"stik"),
        ("CATEGORY", CATEGORY, b"catg"),
        ("KEYWORD", KEYWORD, b"keyw"),
        ("PODCAST", PODCAST, b"pcst"),
        ("PODCAST_EPISODE_GLOBAL_UNIQUE_ID", PODCAST_EPISODE_GLOBAL_UNIQUE_ID, b"egid"),
        ("PODCAST_URL", PODCAST_URL, b"purl"),
        ("DESCRIPTION", DESCRIPTION, b"desc"),
        ("LYRICS", LYRICS, b"\xa9lyr"),
        ("TV_EPISODE", TV_EPISODE, b"tves"),
        ("TV_EPISODE_NAME", TV_EPISODE_NAME, b"tven"),
        ("TV_NETWORK_NAME", TV_NETWORK_NAME, b"tvnn"),
        ("TV_SEASON", TV_SEASON, b"tvsn"),
        ("TV_SHOW_NAME", TV_SHOW_NAME, b"tvsh"),
        ("PURCHASE_DATE", PURCHASE_DATE, b"purd"),
        ("GAPLESS_PLAYBACK", GAPLESS_PLAYBACK, b"pgap"),
        ("MOVEMENT", MOVEMENT, b"\xa9mvn"),
        ("MOVEMENT_COUNT", MOVEMENT_COUNT, b"\xa9mvc"),
        ("MOVEMENT_INDEX", MOVEMENT_INDEX, b"\xa9mvi"),
        ("WORK", WORK, b"\xa9wrk"),
        ("SHOW_MOVEMENT", SHOW_MOVEMENT, b"shwm"),
    ]
}

fn constants(ctx: &mut Ctx) -> Outcome {
    let all = idents();
    for (name, c, want) in &all {
        ensure!(c.0 == **want, "ident::{name} is {:?}, documented is {:?}", c.0, want);
    }
    use mp4ameta::ident::{APPLE_ITUNES_MEAN, ISRC, LYRICIST};
    ensure!(APPLE_ITUNES_MEAN == "com.apple.iTunes", "ident::APPLE_ITUNES_MEAN is {APPLE_ITUNES_MEAN:?}");
    for (name, c, want) in [("ISRC", ISRC, "ISRC"), ("LYRICIST", LYRICIST, "LYRICIST")] {
        let i: DataIdent = (&c).into();
        ensure!(i == DataIdent::freeform("com.apple.iTunes", want), "ident::{name} is {i:?}");
        ensure!(c == mp4ameta::FreeformIdent::new("com.apple.iTunes", want), "ident::{name} is {i:?}");
    }
    ctx.count("identifier constants", all.len() as u64 + 3);
    Ok(())
}

fn one(b: u8) -> Outcome {
    let m = MediaType::try_from(b).map_err(|e| kind(&e));
    let w = MEDIA_TYPES.iter().find(|x| x.1 == b).map(|x| x.0).ok_or(format!("UnknownMediaType({b})"));
    ensure!(m == w, "MediaType::try_from({b}) is {m:?}, documented is {w:?}");
    if let Ok(m) = m {
        let n = MEDIA_TYPES.iter().find(|x| x.1 == b).unwrap().2;
        ensure!(m.to_string() == n, "{m:?} prints as {m}");
    }
    let a = AdvisoryRating::from(b);
    let w = match b {
        0 => AdvisoryRating::Inoffensive,
        2 => AdvisoryRating::Clean,
        _ => AdvisoryRating::Explicit,
    };
    ensure!(a == w, "AdvisoryRating::from({b}) is {a:?}, documented is {w:?}");
    let n = RATINGS.iter().find(|x| x.0 == a).unwrap().2;
    ensure!(a.to_string() == n, "{a:?} prints as {a}");
    let c = ChannelConfig::try_from(b).map_err(|e| kind(&e));
    let k = CHANNELS.iter().find(|x| x.1 == b);
    let w = k.map(|x| x.0).ok_or(format!("UnknownChannelConfig({b})"));
    ensure!(c == w, "ChannelConfig::try_from({b}) is {c:?}, documented is {w:?}");
    if let (Ok(c), Some(k)) = (c, k) {
        ensure!(c.channel_count() == k.2, "{c:?} has {} channels", c.channel_count());
        ensure!(c.to_string() == k.3, "{c:?} prints as {c}");
    }
    let s = SampleRate::try_from(b).map_err(|e| kind(&e));
    match (&s, RATES.get(b as usize)) {
        (Ok(s), Some(w)) => {
            ensure!(*s == w.0 && s.hz() == w.1, "SampleRate::try_from({b}) is {s:?} with {} Hz", s.hz());
            ensure!(s.to_string() == format!("{}Hz", w.1), "{s:?} prints as {s}");
        }
        (Err(e), None) => ensure!(e.ends_with(&format!("({b})")), "SampleRate::try_from({b}) is {e}, which does not carry the byte"),
        _ => fail!("SampleRate::try_from({b}) is {s:?}"),
    }
    Ok(())
}

fn c21(ctx: &mut Ctx) -> Outcome {
    let b = (ctx.idx % 256) as u8;
    call("a conversion", || one(b))??;
    ctx.count("byte values converted by four tables", 1);
    constants(ctx)?;
    // through a tag
    let mut t = Tag::default();
    for k in 0..2 {
        let d = |v: Vec<u8>| if k == 0 { Data::Reserved(v) } else { Data::BeSigned(v) };
        t.set_data(Fourcc(*b"stik"), d(vec![b]));
        t.set_data(Fourcc(*b"rtng"), d(vec![b]));
        ensure!(t.media_type() == MEDIA_TYPES.iter().find(|x| x.1 == b).map(|x| x.0), "stik {b} reads as {:?}", t.media_type());
        ensure!(t.advisory_rating() == Some(AdvisoryRating::from(b)), "rtng {b} reads as {:?}", t.advisory_rating());
    }
    // codes of the variants
    for (m, c, _) in MEDIA_TYPES {
        t.set_media_type(*m);
        let g: Vec<V> = t.data_of(&Fourcc(*b"stik")).map(V::of).collect();
        ensure!(g == [V::Reserved(vec![*c])], "{m:?} is stored as {g:?}");
    }
    for (m, c, _) in RATINGS {
        t.set_advisory_rating(*m);
        let g: Vec<V> = t.data_of(&Fourcc(*b"rtng")).map(V::of).collect();
        ensure!(g == [V::Reserved(vec![*c])], "{m:?} is stored as {g:?}");
    }
    // the genre list
    ensure!(STANDARD_GENRES.len() == 80, "{} standard genres", STANDARD_GENRES.len());
    if let Some(k) = (0..80).find(|k| STANDARD_GENRES[*k] != GENRES[*k]) {
        fail!("standard genre code {} is {:?}, ID3v1 has {:?}", k + 1, STANDARD_GENRES[k], GENRES[k]);
    }
    for hi in 0..256u16 {
        let c = hi << 8 | b as u16;
        t.set_standard_genre(c);
        let w = if (1..=80).contains(&c) { Some(GENRES[c as usize - 1]) } else { None };
        ensure!(t.genre() == w, "genre code {c} is named {:?}, want {:?}", t.genre(), w);
    }
    ctx.count("genre codes", 256);
    // sample rate and channel configuration through a file
    let (rate, chan) = (b & 15, b >> 4);
    if rate != 15 {
        let (n, a) = mp4a(&mut ctx.r, 0, Some(rate), Some(chan));
        let f = one_track(n);
        let t = read_ok(&f)?;
        let (r, c) = (a.rate_idx, a.channel_cfg);
        let w = r.and_then(|r| RATES.get(r as usize)).map(|x| x.0);
        ensure!(t.sample_rate() == w, "rate index {r:?} reads as {:?}", t.sample_rate());
        let w = CHANNELS.iter().find(|x| Some(x.1) == c).map(|x| x.0);
        ensure!(t.channel_config() == w, "channel configuration {c:?} reads as {:?}", t.channel_config());
        ctx.count("configurations through a file", 1);
    }
    ctx.eval(b as u64, true);
    ctx.sample(|| format!("byte {b}: {:?}, {:?}, {:?}", MediaType::try_from(b).ok(), ChannelConfig::try_from(b).ok(), SampleRate::try_from(b).ok()));
    Ok(())
}

fn one_track(mp4a: N) -> Vec<u8> {
    let stsd = N::Box { cc: *b"stsd", ext: false, pre: vec![0, 0, 0, 0, 0, 0, 0, 1], kids: vec![mp4a] };
    let trak = N::container(b"trak", vec![N::container(b"mdia", vec![N::container(b"minf", vec![N::container(b"stbl", vec![stsd])])])]);
    emit(&[N::leaf(b"ftyp", b"M4A \0\0\0\0".to_vec()), N::container(b"moov", vec![mvhd_node(0, 1000, 1000, &[0; 80]), trak])]).bytes
}

pub const C21: Prop = Prop {
    id: "C21",
    level: "exploration",
    rule: "every byte value of every conversion, every 16-bit genre code and every public identifier constant is compared with an independently written table",
    assumptions: &["the documented error of an unknown sample rate index is any error carrying that byte"],
    quick: 256,
    thorough: 256,
    single: false,
    exhaustive: true,
    case: c21,
};
