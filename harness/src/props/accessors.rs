//! C13 field accessors, C14 track and disc tuples, C15 genres.

use super::common::*;
use super::fields::*;

fn view_ok(t: &Tag, items: &Items) -> Res<()> {
    let v = call("a getter", || view(t))?;
    for (g, w) in v.iter().zip(expected(items).iter()) {
        ensure!(g == w, "getter {} returns {:.200}, the stored content is {:.200}", g.0, g.2, w.2);
    }
    Ok(())
}

fn without(items: &Items, id: &Id) -> Items {
    items.iter().filter(|(i, _)| i != id).cloned().collect()
}

/// the other fields: getters and stored items
fn others_ok(t: &Tag, before: &Items, id: &Id, what: &str) -> Res<()> {
    let now = tag_items(t);
    if let Some(d) = diff(&without(&now, id), &without(before, id)) {
        fail!("{what} changed other data: {d}");
    }
    for (g, w) in view(t).iter().zip(expected(before).iter()) {
        ensure!(g.1 == *id || g == w, "{what} changed the field {}: {:.100} instead of {:.100}", g.0, g.2, w.2);
    }
    Ok(())
}

fn stored_ok(t: &Tag, id: &Id, want: &[V], what: &str) -> Res<()> {
    let now = tag_items(t);
    let got = vals(&now, id);
    ensure!(got == want, "after {what} {:?} stores {:?}, documented is {:?}", id, got, want);
    ensure!(now.iter().filter(|(i, _)| i == id).count() == (!want.is_empty()) as usize, "{what} stored {:?} more than once", id);
    Ok(())
}

macro_rules! op {
    ($what:expr, $e:expr) => {
        call(&$what, || $e)?
    };
}

/// one operation on one documented field
fn field_op(ctx: &mut Ctx, t: &mut Tag, which: usize) -> Outcome {
    let before = tag_items(t);
    let r = &mut ctx.r;
    let make = r.below(6);
    let (s, m, f, i) = (SINGLES.len(), MULTIS.len(), FLAGS.len(), INTS.len());
    let what;
    let id;
    if which < s {
        let x = &SINGLES[which];
        id = x.key.id();
        match r.below(4) {
            0 | 1 => {
                let v = gen_string(r, 300);
                what = format!("set_{}({:.40?})", x.name, v);
                op!(what, (x.set)(t, v.clone()));
                ensure!((x.get)(t) == Some(v.clone()), "after {what} the getter returns {:?}", (x.get)(t));
                stored_ok(t, &id, &[V::Utf8(v)], &what)?;
            }
            2 => {
                what = format!("take_{}", x.name);
                let want = strings(vals(&before, &id)).into_iter().next();
                let got = op!(what, (x.take)(t));
                ensure!(got == want, "{what} returned {:?}, the first value is {:?}", got, want);
                stored_ok(t, &id, &[], &what)?;
            }
            _ => {
                what = format!("remove_{}", x.name);
                op!(what, (x.remove)(t));
                ensure!((x.get)(t).is_none(), "after {what} the getter returns {:?}", (x.get)(t));
                stored_ok(t, &id, &[], &what)?;
            }
        }
        ctx.count("text field operations", 1);
    } else if which < s + m {
        let x = &MULTIS[which - s];
        id = x.key.id();
        let old = vals(&before, &id).to_vec();
        let many = |r: &mut Rng| (0..few(r)).map(|_| gen_string(r, 60)).collect::<Vec<_>>();
        let utf8 = |v: &[String]| v.iter().cloned().map(V::Utf8).collect::<Vec<_>>();
        match r.below(8) {
            0 | 1 => {
                let v = gen_string(r, 300);
                what = format!("set_{}({:.40?})", x.name, v);
                op!(what, (x.set)(t, v.clone()));
                ensure!((x.get)(t) == Some(v.clone()), "after {what} the getter returns {:?}", (x.get)(t));
                ensure!((x.gets)(t) == [v.clone()], "after {what} the list is {:?}", (x.gets)(t));
                stored_ok(t, &id, &[V::Utf8(v)], &what)?;
            }
            2 => {
                let v = many(r);
                what = format!("set_{}({} values)", x.plural, v.len());
                op!(what, (x.sets)(t, feed(make, v.clone())));
                ensure!((x.gets)(t) == v, "after {what} the list is {:?}", (x.gets)(t));
                ensure!((x.get)(t).as_ref() == v.first(), "after {what} the single getter returns {:?}", (x.get)(t));
                stored_ok(t, &id, &utf8(&v), &what)?;
            }
            3 => {
                let v = gen_string(r, 300);
                what = format!("add_{}({:.40?})", x.name, v);
                op!(what, (x.add)(t, v.clone()));
                let mut w = old;
                w.push(V::Utf8(v));
                stored_ok(t, &id, &w, &what)?;
                ensure!((x.gets)(t) == strings(&w), "after {what} the list is {:?}", (x.gets)(t));
            }
            4 => {
                let v = many(r);
                what = format!("add_{}({} values)", x.plural, v.len());
                op!(what, (x.adds)(t, feed(make, v.clone())));
                let mut w = old;
                w.extend(utf8(&v));
                stored_ok(t, &id, &w, &what)?;
                ensure!((x.gets)(t) == strings(&w), "after {what} the list is {:?}", (x.gets)(t));
            }
            5 => {
                what = format!("take_{}", x.name);
                let got = op!(what, (x.take)(t));
                let want = strings(&old).into_iter().next();
                ensure!(got == want, "{what} returned {:?}, the first value is {:?}", got, want);
                stored_ok(t, &id, &[], &what)?;
            }
            6 => {
                what = format!("take_{}", x.plural);
                // the returned iterator may be dropped early
                let k = if r.chance(1, 2) { usize::MAX } else { r.below(3) };
                let got = op!(what, (x.takes)(t, k));
                let want: Vec<String> = strings(&old).into_iter().take(k).collect();
                ensure!(got == want, "{what} returned {:?} of {:?}", got, old);
                stored_ok(t, &id, &[], &what)?;
            }
            _ => {
                what = format!("remove_{}", x.plural);
                op!(what, (x.remove)(t));
                ensure!((x.gets)(t).is_empty(), "after {what} the list is {:?}", (x.gets)(t));
                stored_ok(t, &id, &[], &what)?;
            }
        }
        ctx.count("multi-value text field operations", 1);
    } else if which < s + m + f {
        let x = &FLAGS[which - s - m];
        id = x.key.id();
        if r.chance(1, 2) {
            what = format!("set_{}", x.name);
            op!(what, (x.set)(t));
            ensure!((x.get)(t), "after {what} the flag is not set");
            stored_ok(t, &id, &[V::Signed(vec![1])], &what)?;
        } else {
            what = format!("remove_{}", x.name);
            op!(what, (x.remove)(t));
            ensure!(!(x.get)(t), "after {what} the flag is set");
            stored_ok(t, &id, &[], &what)?;
        }
        ctx.count("flag operations", 1);
    } else if which < s + m + f + i {
        let x = &INTS[which - s - m - f];
        id = x.key.id();
        if r.chance(3, 4) {
            let mut v = if r.chance(1, 2) { dict::int(r) } else { r.u64() };
            v &= (1u64 << (8 * x.bytes)) - 1;
            what = format!("set_{}({v})", x.name);
            op!(what, (x.set)(t, v));
            ensure!((x.get)(t) == Some(v), "after {what} the getter returns {:?}", (x.get)(t));
            stored_ok(t, &id, &[V::Signed(v.to_be_bytes()[8 - x.bytes..].to_vec())], &what)?;
        } else {
            what = format!("remove_{}", x.name);
            op!(what, (x.remove)(t));
            ensure!((x.get)(t).is_none(), "after {what} the getter returns {:?}", (x.get)(t));
            stored_ok(t, &id, &[], &what)?;
        }
        ctx.count("integer field operations", 1);
    } else {
        match which - s - m - f - i {
            0 => {
                id = STIK;
                if r.chance(3, 4) {
                    let (v, c, _) = *r.pick(MEDIA_TYPES);
                    what = format!("set_media_type({:?})", v);
                    op!(what, t.set_media_type(v));
                    ensure!(t.media_type() == Some(v), "after {what} the getter returns {:?}", t.media_type());
                    stored_ok(t, &id, &[V::Reserved(vec![c])], &what)?;
                } else {
                    what = "remove_media_type".into();
                    op!(what, t.remove_media_type());
                    ensure!(t.media_type().is_none(), "after {what} it is {:?}", t.media_type());
                    stored_ok(t, &id, &[], &what)?;
                }
            }
            1 => {
                id = RTNG;
                if r.chance(3, 4) {
                    let (v, c, _) = *r.pick(RATINGS);
                    what = format!("set_advisory_rating({:?})", v);
                    op!(what, t.set_advisory_rating(v));
                    ensure!(t.advisory_rating() == Some(v), "after {what} the getter returns {:?}", t.advisory_rating());
                    stored_ok(t, &id, &[V::Reserved(vec![c])], &what)?;
                } else {
                    what = "remove_advisory_rating".into();
                    op!(what, t.remove_advisory_rating());
                    ensure!(t.advisory_rating().is_none(), "after {what} it is {:?}", t.advisory_rating());
                    stored_ok(t, &id, &[], &what)?;
                }
            }
            2 => {
                id = COVR;
                let old = vals(&before, &id).to_vec();
                let one = |r: &mut Rng| (r.below(3) as u8, gen_bytes(r, 200));
                match r.below(7) {
                    0 | 1 => {
                        let (c, d) = one(r);
                        what = format!("set_artwork({c}, {}B)", d.len());
                        op!(what, t.set_artwork(img(c, d.clone())));
                        ensure!(t.artwork().map(|i| (fmt_code(&i.fmt), i.data.to_vec())) == Some((c, d.clone())), "after {what} the getter returns {:?}", t.artwork());
                        stored_ok(t, &id, &[img_v(c, d)], &what)?;
                    }
                    2 => {
                        let v: Vec<_> = (0..few(r)).map(|_| one(r)).collect();
                        what = format!("set_artworks({})", v.len());
                        op!(what, t.set_artworks(feed(make, v.iter().map(|(c, d)| img(*c, d.clone())).collect::<Vec<_>>())));
                        stored_ok(t, &id, &v.into_iter().map(|(c, d)| img_v(c, d)).collect::<Vec<_>>(), &what)?;
                    }
                    3 => {
                        let (c, d) = one(r);
                        what = format!("add_artwork({c}, {}B)", d.len());
                        op!(what, t.add_artwork(img(c, d.clone())));
                        let mut w = old;
                        w.push(img_v(c, d));
                        stored_ok(t, &id, &w, &what)?;
                    }
                    4 => {
                        let v: Vec<_> = (0..few(r)).map(|_| one(r)).collect();
                        what = format!("add_artworks({})", v.len());
                        op!(what, t.add_artworks(feed(make, v.iter().map(|(c, d)| img(*c, d.clone())).collect::<Vec<_>>())));
                        let mut w = old;
                        w.extend(v.into_iter().map(|(c, d)| img_v(c, d)));
                        stored_ok(t, &id, &w, &what)?;
                    }
                    5 => {
                        what = "take_artwork(s)".into();
                        let w = images(&old);
                        if r.chance(1, 2) {
                            let g = op!(what, t.take_artwork()).map(|i| (fmt_code(&i.fmt), i.data));
                            ensure!(g == w.first().cloned(), "take_artwork returned {:?}", g);
                        } else {
                            let k = if r.chance(1, 2) { usize::MAX } else { r.below(3) };
                            let g: Vec<_> = op!(what, t.take_artworks().take(k).collect::<Vec<_>>()).into_iter().map(|i| (fmt_code(&i.fmt), i.data)).collect();
                            ensure!(g == w[..k.min(w.len())], "take_artworks returned {} images of {}", g.len(), w.len());
                        }
                        stored_ok(t, &id, &[], &what)?;
                    }
                    _ => {
                        what = "remove_artworks".into();
                        op!(what, t.remove_artworks());
                        stored_ok(t, &id, &[], &what)?;
                    }
                }
            }
            3 | 4 => {
                let disc = which - s - m - f - i == 4;
                id = if disc { DISK } else { TRKN };
                let (n, o) = (ctx.r.u16(), ctx.r.u16());
                what = format!("set_{}({n}, {o})", if disc { "disc" } else { "track" });
                if disc {
                    op!(what, t.set_disc(n, o));
                } else {
                    op!(what, t.set_track(n, o));
                }
                let got = if disc { t.disc() } else { t.track() };
                let nz = |x: u16| if x == 0 { None } else { Some(x) };
                ensure!(got == (nz(n), nz(o)), "after {what} the getter returns {:?}", got);
            }
            _ => {
                id = GNRE;
                let c = ctx.r.u16();
                what = format!("set_standard_genre({c})");
                op!(what, t.set_standard_genre(c));
                ensure!(t.standard_genre() == Some(c), "after {what} the getter returns {:?}", t.standard_genre());
                stored_ok(t, &id, &[V::Reserved(c.to_be_bytes().to_vec())], &what)?;
            }
        }
        ctx.count("other field operations", 1);
    }
    others_ok(t, &before, &id, &what)?;
    view_ok(t, &tag_items(t)).map_err(|e| format!("after {what}: {e}"))
}

/// every iterator of several values, gone through in a way of its own
fn iterators(t: &Tag, r: &mut Rng) -> Outcome {
    let items = tag_items(t);
    for x in MULTIS {
        (x.walks)(t, &strings(vals(&items, &x.key.id())), r.u64(), r.u64())?;
    }
    let w = images(vals(&items, &COVR));
    walk(t.artworks(), &w, |i| (fmt_code(&i.fmt), i.data.to_vec()), r.u64(), "artworks")?;
    walk(t.clone().take_artworks(), &w, |i| (fmt_code(&i.fmt), i.data), r.u64(), "take_artworks")?;
    genre_iterators(t, r)
}

fn genre_iterators(t: &Tag, r: &mut Rng) -> Outcome {
    let items = tag_items(t);
    let w = genre_list(&items);
    walk(t.genres(), &w, str::to_owned, r.u64(), "genres")?;
    walk(t.clone().take_genres(), &w, |s| s, r.u64(), "take_genres")?;
    let w = genre_codes(&items);
    walk(t.standard_genres(), &w, |c| c, r.u64(), "standard_genres")
}

fn c13(ctx: &mut Ctx) -> Outcome {
    let n_fields = SINGLES.len() + MULTIS.len() + FLAGS.len() + INTS.len() + 6;
    let n = ctx.r.below(24);
    let items = field_items(&mut ctx.r, n, 120);
    let mut t = build_tag(&items, &mut ctx.r);
    ctx.note = summary(&items);
    view_ok(&t, &items)?;
    ctx.count("stored field values of arbitrary content", items.iter().map(|x| x.1.len() as u64).sum());
    ctx.eval(items_hash(&items), !items.is_empty());
    // every field once over a range of cases, then random ones
    let first = ctx.idx as usize % n_fields;
    for k in 0..6 {
        let which = if k == 0 { first } else { ctx.r.below(n_fields) };
        field_op(ctx, &mut t, which)?;
    }
    ctx.eval(items_hash(&tag_items(&t)), true);
    if ctx.r.chance(1, 6) {
        call("iteration", || iterators(&t, &mut ctx.r))??;
        ctx.count("tags gone through by nth, count, last, skip, fold and size hints", 1);
    }
    // the same after a round trip
    if ctx.r.chance(1, 4) {
        let items = tag_items(&t);
        let d = dump(&t)?;
        let back = read_ok_dump(&d)?;
        view_ok(&back, &items).map_err(|e| format!("after dumping and reading: {e}"))?;
        ctx.count("round trips", 1);
    }
    // all 16-bit values of the 16-bit fields, over 256 cases
    if ctx.idx < 256 {
        let hi = ctx.idx;
        let mut t = Tag::default();
        for lo in 0..256 {
            let v = hi << 8 | lo;
            for x in INTS.iter().filter(|x| x.bytes == 2) {
                (x.set)(&mut t, v);
                ensure!((x.get)(&t) == Some(v), "set_{}({v}) reads {:?}", x.name, (x.get)(&t));
                stored_ok(&t, &x.key.id(), &[V::Signed((v as u16).to_be_bytes().to_vec())], x.name)?;
            }
        }
        ctx.count("16-bit values set and read on every 16-bit field", 256);
    }
    // all stored single bytes for coded fields, over 256 cases
    let b = (ctx.idx % 256) as u8;
    for v in [vec![], vec![b], vec![b, 0], vec![0, b], vec![b; 4], vec![1, b, 7]] {
        for signed in [false, true] {
            let mk = |v: Vec<u8>| if signed { V::Signed(v) } else { V::Reserved(v) };
            let items: Items = field_ids().into_iter().map(|i| (i, vec![mk(v.clone())])).collect();
            let t = build_tag(&items, &mut ctx.r);
            view_ok(&t, &items)?;
        }
    }
    ctx.count("byte patterns stored under every field", 12);
    ctx.sample(|| summary(&items));
    Ok(())
}

fn read_ok_dump(d: &[u8]) -> Res<Tag> {
    read(d)?.map_err(|e| format!("reading a dump failed: {e}"))
}

pub const C13: Prop = Prop {
    id: "C13",
    level: "exploration",
    rule: "every getter is compared with a reference computed from the stored items; every set/add/take/remove is compared with the documented encoding and must leave other items and getters unchanged",
    assumptions: &[
        "an integer or flag is read from the leading bytes of the first byte value; a value too short for it reads as absent",
    ],
    quick: 75000,
    thorough: 2000000,
    single: false,
    exhaustive: false,
    case: c13,
};

// ---------------------------------------------------------------- C14

struct Tup {
    name: &'static str,
    id: Id,
    both: fn(&Tag) -> (Option<u16>, Option<u16>),
    num: fn(&Tag) -> Option<u16>,
    tot: fn(&Tag) -> Option<u16>,
    set: fn(&mut Tag, u16, u16),
    set_num: fn(&mut Tag, u16),
    set_tot: fn(&mut Tag, u16),
    rm: fn(&mut Tag),
    rm_num: fn(&mut Tag),
    rm_tot: fn(&mut Tag),
}

const TUPS: [Tup; 2] = [
    Tup {
        name: "track",
        id: TRKN,
        both: |t| t.track(),
        num: |t| t.track_number(),
        tot: |t| t.total_tracks(),
        set: |t, a, b| t.set_track(a, b),
        set_num: |t, a| t.set_track_number(a),
        set_tot: |t, a| t.set_total_tracks(a),
        rm: |t| t.remove_track(),
        rm_num: |t| t.remove_track_number(),
        rm_tot: |t| t.remove_total_tracks(),
    },
    Tup {
        name: "disc",
        id: DISK,
        both: |t| t.disc(),
        num: |t| t.disc_number(),
        tot: |t| t.total_discs(),
        set: |t, a, b| t.set_disc(a, b),
        set_num: |t, a| t.set_disc_number(a),
        set_tot: |t, a| t.set_total_discs(a),
        rm: |t| t.remove_disc(),
        rm_num: |t| t.remove_disc_number(),
        rm_tot: |t| t.remove_total_discs(),
    },
];

fn nz(x: u16) -> Option<u16> {
    Some(x).filter(|x| *x != 0)
}

fn first_bytes(v: &[V]) -> Option<usize> {
    v.iter().position(|x| x.bytes().is_some())
}

/// bytes with the two halves masked out and padded to six
fn rest_of(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.len() < 6 {
        b.resize(6, 0);
    }
    b[2..6].fill(0);
    b
}

/// what must hold between the state before and after one operation
fn tuple_step(t: &mut Tag, which: usize, op: usize, a: u16, b: u16) -> Outcome {
    let u = &TUPS[which];
    let o = &TUPS[1 - which];
    let before = tag_items(t);
    let (n0, t0) = (half(vals(&before, &u.id), 2), half(vals(&before, &u.id), 4));
    let other = (o.both)(t);
    let what = match op {
        0 => format!("set_{}({a}, {b})", u.name),
        1 => format!("set_{}_number({a})", u.name),
        2 => format!("set_total_{}s({a})", u.name),
        3 => format!("remove_{}", u.name),
        4 => format!("remove_{}_number", u.name),
        _ => format!("remove_total_{}s", u.name),
    };
    call(&what, || match op {
        0 => (u.set)(t, a, b),
        1 => (u.set_num)(t, a),
        2 => (u.set_tot)(t, a),
        3 => (u.rm)(t),
        4 => (u.rm_num)(t),
        _ => (u.rm_tot)(t),
    })?;
    let want = match op {
        0 => (nz(a), nz(b)),
        1 => (nz(a), t0),
        2 => (n0, nz(a)),
        3 => (None, None),
        4 => (None, t0),
        _ => (n0, None),
    };
    let what = format!("{what} on {:?}", vals(&before, &u.id));
    let got = ((u.both)(t), (u.num)(t), (u.tot)(t));
    ensure!(got == (want, want.0, want.1), "after {what} the getters return {:?}, want {:?}", got, want);
    ensure!((o.both)(t) == other, "{what} changed {} from {:?} to {:?}", o.name, other, (o.both)(t));
    let now = tag_items(t);
    if let Some(d) = diff(&without(&now, &u.id), &without(&before, &u.id)) {
        fail!("{what} changed other data: {d}");
    }
    let (bv, nv) = (vals(&before, &u.id), vals(&now, &u.id));
    ensure!(half(nv, 2) == want.0 && half(nv, 4) == want.1, "after {what} {:?} is stored", nv);
    // removal of the last half
    if op == 3 || (op >= 4 && want == (None, None) && (n0, t0) != (None, None)) {
        ensure!(nv.is_empty(), "after {what} nothing is left, but {:?} is still stored", nv);
        return Ok(());
    }
    if nv.is_empty() {
        // removing from a field with no half present
        ensure!(op >= 3 && (n0, t0) == (None, None), "{what} removed the field");
        return Ok(());
    }
    match first_bytes(bv) {
        Some(k) => {
            ensure!(nv.len() == bv.len(), "{what} changed the number of stored values: {:?}", nv);
            for i in 0..nv.len() {
                if i == k {
                    let (x, y) = (bv[i].raw(), nv[i].raw());
                    ensure!(nv[i].code() == bv[i].code(), "{what} changed the kind of the value to {:?}", nv[i]);
                    ensure!(rest_of(&x) == rest_of(&y), "{what} changed further bytes: {:?} to {:?}", bv[i], nv[i]);
                } else {
                    ensure!(nv[i] == bv[i], "{what} changed another value to {:?}", nv[i]);
                }
            }
        }
        None if op <= 2 => {
            // a new tuple
            let b = bytes(nv);
            ensure!(b.len() == 1 && rest_of(&b[0]).iter().all(|x| *x == 0), "{what} stored {:?}", nv);
            ensure!(nv.last().map(|v| v.code()) == Some(0), "{what} stored a value of another kind than raw data: {:?}", nv);
        }
        None => ensure!(nv == bv, "{what} changed the field to {:?}", nv),
    }
    Ok(())
}

fn c14(ctx: &mut Ctx) -> Outcome {
    // all 16-bit values of each half, over 256 cases
    if ctx.idx < 256 {
        for lo in 0..256u64 {
            let v = (ctx.idx << 8 | lo) as u16;
            for w in 0..2 {
                let mut t = Tag::default();
                let k = v.wrapping_mul(40503) | 1;
                tuple_step(&mut t, w, 1, v, 0)?;
                tuple_step(&mut t, w, 2, k, 0)?;
                tuple_step(&mut t, 1 - w, 0, k, v)?;
                tuple_step(&mut t, w, 2, v, 0)?;
                tuple_step(&mut t, w, 1, k, 0)?;
                tuple_step(&mut t, 1 - w, 4, 0, 0)?;
                tuple_step(&mut t, w, 4 + (v & 1) as usize, 0, 0)?;
                tuple_step(&mut t, w, 5 - (v & 1) as usize, 0, 0)?;
            }
        }
        ctx.count("16-bit values set, read and removed in every half", 256);
        ctx.eval(ctx.idx, true);
    }
    // random histories over any stored content
    let mut items = field_items(&mut ctx.r, 4, 40);
    for id in [TRKN, DISK] {
        if ctx.r.chance(2, 3) {
            let vs: Vec<V> = (0..ctx.r.range(1, 3)).map(|_| field_val(&mut ctx.r, &id, 12)).collect();
            match items.iter_mut().find(|(i, _)| *i == id) {
                Some((_, v)) => *v = vs,
                None => items.push((id, vs)),
            }
        }
    }
    // a stored value that ends in the middle of the number has no defined number
    for (id, v) in items.iter_mut() {
        if *id == TRKN || *id == DISK {
            v.retain(|x| x.bytes().map_or(true, |b| b.len() != 3));
        }
    }
    items.retain(|(_, v)| !v.is_empty());
    ctx.note = summary(&items);
    let mut t = build_tag(&items, &mut ctx.r);
    let mut h = items_hash(&items);
    let n = ctx.r.range(1, 24);
    let edge = [0u16, 1, 2, 255, 256, 257, 0x00ff, 0xff00, 0x7fff, 0x8000, 0xffff];
    for _ in 0..n {
        let w = ctx.r.below(2);
        let op = ctx.r.below(6);
        let a = if ctx.r.chance(1, 2) { *ctx.r.pick(&edge) } else { ctx.r.u16() };
        let b = if ctx.r.chance(1, 2) { *ctx.r.pick(&edge) } else { ctx.r.u16() };
        tuple_step(&mut t, w, op, a, b)?;
        h = fnv(h, &[w as u8, op as u8, a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8]);
        if ctx.r.chance(1, 16) {
            let d = dump(&t)?;
            let back = read_ok_dump(&d)?;
            for u in &TUPS {
                ensure!((u.both)(&back) == (u.both)(&t), "{} is {:?} after dumping and reading {:?}", u.name, (u.both)(&back), (u.both)(&t));
            }
            t = back;
            ctx.count("round trips", 1);
        }
    }
    ctx.count("tuple operations", n as u64);
    ctx.eval(h, n > 1);
    ctx.sample(|| format!("{} operations on {}", n, summary(&items)));
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14",
    level: "exploration",
    rule: "after every operation both halves of both tuples, all further bytes and all other data are compared with a reference",
    assumptions: &[
        "removing a half from a stored value in which neither half is present may keep or remove the value",
        "stored values ending in the middle of the number (3 bytes) are not used",
    ],
    quick: 240000,
    thorough: 6400000,
    single: false,
    exhaustive: false,
    case: c14,
};

// ---------------------------------------------------------------- C15

fn genre_view(t: &Tag) -> Res<()> {
    let items = tag_items(t);
    let want = genre_list(&items);
    let got: Vec<String> = call("genres", || t.genres().map(str::to_owned).collect())?;
    ensure!(got == want, "genres() is {:?}, stored codes {:?}, customs {:?}", got, genre_codes(&items), strings(vals(&items, &CGEN)));
    let g = call("genre", || t.genre().map(str::to_owned))?;
    ensure!(g.as_ref() == want.first(), "genre() is {:?}, the list is {:?}", g, want);
    let codes: Vec<u16> = t.standard_genres().collect();
    ensure!(codes == genre_codes(&items), "standard_genres() is {:?}, stored {:?}", codes, genre_codes(&items));
    ensure!(t.standard_genre() == codes.first().copied(), "standard_genre() is {:?} of {:?}", t.standard_genre(), codes);
    let c: Vec<String> = t.custom_genres().map(str::to_owned).collect();
    ensure!(c == strings(vals(&items, &CGEN)) && t.custom_genre() == c.first().map(|s| s.as_str()), "custom_genres() is {:?}", c);
    Ok(())
}

fn set_items(items: &mut Items, id: &Id, v: Vec<V>) {
    if v.is_empty() {
        items.retain(|(i, _)| i != id);
    } else if let Some((_, old)) = items.iter_mut().find(|(i, _)| i == id) {
        *old = v;
    } else {
        items.push((id.clone(), v));
    }
}

fn c15(ctx: &mut Ctx) -> Outcome {
    if ctx.idx < 256 {
        // every code on its own and with customs
        for lo in 0..256u64 {
            let c = (ctx.idx << 8 | lo) as u16;
            let mut t = Tag::default();
            t.set_standard_genre(c);
            genre_view(&t)?;
            t.add_genre("custom");
            genre_view(&t)?;
            t.add_standard_genre(c ^ 1);
            genre_view(&t)?;
            let i = tag_items(&t);
            ensure!(vals(&i, &GNRE) == [V::Reserved(c.to_be_bytes().to_vec()), V::Reserved((c ^ 1).to_be_bytes().to_vec())], "code {c} is stored as {:?}", vals(&i, &GNRE));
        }
        ctx.count("standard codes", 256);
        ctx.eval(ctx.idx, true);
    }
    let mut items = field_items(&mut ctx.r, 3, 30);
    for id in [GNRE, CGEN] {
        if ctx.r.chance(2, 3) {
            let vs: Vec<V> = (0..ctx.r.range(1, 5)).map(|_| field_val(&mut ctx.r, &id, 20)).collect();
            set_items(&mut items, &id, vs);
        }
    }
    ctx.note = summary(&items);
    let mut t = build_tag(&items, &mut ctx.r);
    genre_view(&t)?;
    let mut h = items_hash(&items);
    let n = ctx.r.range(1, 16);
    for _ in 0..n {
        let op = ctx.r.below(16);
        let make = ctx.r.below(6);
        let before = tag_items(&t);
        let mut want = before.clone();
        let list = genre_list(&before);
        let name = |r: &mut Rng| if r.chance(1, 2) { r.pick(&super::tables::GENRES).to_string() } else { gen_string(r, 30) };
        let names = |r: &mut Rng| (0..few(r)).map(|_| name(r)).collect::<Vec<_>>();
        let code = |r: &mut Rng| if r.chance(3, 4) { r.below(84) as u16 } else { r.u16() };
        let codes = |r: &mut Rng| (0..few(r)).map(|_| code(r)).collect::<Vec<_>>();
        let cv = |c: &[u16]| c.iter().map(|c| V::Reserved(c.to_be_bytes().to_vec())).collect::<Vec<_>>();
        let sv = |s: &[String]| s.iter().cloned().map(V::Utf8).collect::<Vec<_>>();
        let what: String;
        let r = &mut ctx.r;
        match op {
            0 | 1 => {
                let s = name(r);
                what = format!("set_genre({s:?})");
                op!(what, t.set_genre(s.clone()));
                set_items(&mut want, &CGEN, sv(&[s]));
                set_items(&mut want, &GNRE, vec![]);
            }
            2 => {
                let s = names(r);
                what = format!("set_genres({s:?})");
                op!(what, t.set_genres(feed(make, s.clone())));
                set_items(&mut want, &CGEN, sv(&s));
                set_items(&mut want, &GNRE, vec![]);
            }
            3 | 4 => {
                let s = name(r);
                what = format!("add_genre({s:?})");
                op!(what, t.add_genre(s.clone()));
                let mut v = vals(&before, &CGEN).to_vec();
                v.push(V::Utf8(s));
                set_items(&mut want, &CGEN, v);
            }
            5 => {
                what = "remove_genres".into();
                op!(what, t.remove_genres());
                set_items(&mut want, &CGEN, vec![]);
                set_items(&mut want, &GNRE, vec![]);
            }
            6 => {
                what = "take_genre".into();
                let g = op!(what, t.take_genre());
                ensure!(g.as_ref() == list.first(), "take_genre returned {:?}, the genres were {:?}", g, list);
                set_items(&mut want, &CGEN, vec![]);
            }
            7 | 8 => {
                // the returned iterator may be dropped early: the customs are removed all the same
                let k = if r.chance(1, 2) { usize::MAX } else { r.below(list.len() + 1) };
                what = format!("take_genres (first {})", k.min(list.len()));
                let g: Vec<String> = op!(what, t.take_genres().take(k).collect());
                ensure!(g[..] == list[..k.min(list.len())], "take_genres returned {:?}, the genres were {:?}", g, list);
                set_items(&mut want, &CGEN, vec![]);
            }
            9 => {
                let c = code(r);
                what = format!("set_standard_genre({c})");
                op!(what, t.set_standard_genre(c));
                set_items(&mut want, &GNRE, cv(&[c]));
            }
            10 => {
                let c = codes(r);
                what = format!("set_standard_genres({c:?})");
                op!(what, t.set_standard_genres(feed(make, c.clone())));
                set_items(&mut want, &GNRE, cv(&c));
            }
            11 | 12 => {
                let c = code(r);
                what = format!("add_standard_genre({c})");
                op!(what, t.add_standard_genre(c));
                let mut v = vals(&before, &GNRE).to_vec();
                v.extend(cv(&[c]));
                set_items(&mut want, &GNRE, v);
            }
            13 => {
                let c = codes(r);
                what = format!("add_standard_genres({c:?})");
                op!(what, t.add_standard_genres(feed(make, c.clone())));
                let mut v = vals(&before, &GNRE).to_vec();
                v.extend(cv(&c));
                set_items(&mut want, &GNRE, v);
            }
            14 => {
                what = "remove_standard_genres".into();
                op!(what, t.remove_standard_genres());
                set_items(&mut want, &GNRE, vec![]);
            }
            _ => {
                let s = names(r);
                what = format!("set_custom_genres({s:?})");
                op!(what, t.set_custom_genres(feed(make, s.clone())));
                set_items(&mut want, &CGEN, sv(&s));
            }
        }
        if let Some(d) = diff(&sorted(&tag_items(&t)), &sorted(&want)) {
            fail!("after {what}: {d}");
        }
        genre_view(&t).map_err(|e| format!("after {what}: {e}"))?;
        h = fnv(h, what.as_bytes());
    }
    call("iteration", || genre_iterators(&t, &mut ctx.r))??;
    ctx.count("genre operations", n as u64);
    ctx.eval(h, true);
    ctx.sample(|| format!("{} operations on {}", n, summary(&items)));
    Ok(())
}

pub const C15: Prop = Prop {
    id: "C15",
    level: "exploration",
    rule: "after every operation the stored items and every genre getter are compared with a reference",
    assumptions: &["taking genres is documented to remove the custom genres only"],
    quick: 750000,
    thorough: 20000000,
    single: false,
    exhaustive: false,
    case: c15,
};
