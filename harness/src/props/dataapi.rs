//! C12 the tag as an ordered multimap, C17 data values, C22 identifiers.

use super::common::*;
use super::fields::{fmt_code, img, img_v};
use mp4ameta::ident::idents_match;
use mp4ameta::{Ident, Img, ImgFmt};
use std::cell::RefCell;

/// an identifier type of the user's own
struct Custom(Id);

impl PartialEq<DataIdent> for Custom {
    fn eq(&self, other: &DataIdent) -> bool {
        match (&self.0, other) {
            (Id::F(a), DataIdent::Fourcc(b)) => *a == b.0,
            (Id::S(m, n), DataIdent::Freeform { mean, name }) => **m == **mean && **n == **name,
            _ => false,
        }
    }
}

impl Ident for Custom {
    fn fourcc(&self) -> Option<Fourcc> {
        match &self.0 {
            Id::F(c) => Some(Fourcc(*c)),
            _ => None,
        }
    }

    fn freeform(&self) -> Option<FreeformIdent<'_>> {
        match &self.0 {
            Id::S(m, n) => Some(FreeformIdent::new(m, n)),
            _ => None,
        }
    }
}

impl From<Custom> for DataIdent {
    fn from(i: Custom) -> DataIdent {
        i.0.data_ident()
    }
}

/// evaluates an expression with the identifier in one of its representations
macro_rules! by {
    ($id:expr, $how:expr, $i:ident => $e:expr) => {
        match ($id, $how % 3) {
            (Id::F(c), 0) => {
                let $i = Fourcc(*c);
                $e
            }
            (Id::S(m, n), 0) => {
                let $i = FreeformIdent::new(m, n);
                $e
            }
            (id, 1) => {
                let $i = Custom(id.clone());
                $e
            }
            (id, _) => {
                let $i = id.data_ident();
                $e
            }
        }
    };
}

fn at<'a>(m: &'a mut Items, id: &Id) -> Option<&'a mut Vec<V>> {
    m.iter_mut().find(|(i, _)| i == id).map(|x| &mut x.1)
}

fn of<'a>(m: &'a Items, id: &Id) -> &'a [V] {
    m.iter().find(|(i, _)| i == id).map_or(&[], |x| &x.1)
}

fn prune(m: &mut Items) {
    m.retain(|(_, v)| !v.is_empty());
}

/// every query against the model
fn queries(t: &Tag, m: &Items, pool: &[Id], how: usize) -> Outcome {
    if let Some(d) = diff(&tag_items(t), m) {
        fail!("data(): {d}");
    }
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} with {} values", t.is_empty(), m.len());
    for (k, id) in pool.iter().enumerate() {
        let w = of(m, id);
        by!(id, how + k, i => {
            let g: Vec<V> = t.data_of(&i).map(V::of).collect();
            ensure!(g == w, "data_of({id:?}) is {:?}, want {:?}", g, w);
            let g: Vec<Vec<u8>> = t.bytes_of(&i).map(|b| b.to_vec()).collect();
            ensure!(g == w.iter().filter_map(|v| v.bytes().cloned()).collect::<Vec<_>>(), "bytes_of({id:?}) is {:?}, content {:?}", g, w);
            let g: Vec<String> = t.strings_of(&i).map(str::to_owned).collect();
            ensure!(g == w.iter().filter_map(|v| v.string().cloned()).collect::<Vec<_>>(), "strings_of({id:?}) is {:?}, content {:?}", g, w);
            let g: Vec<(u8, Vec<u8>)> = t.images_of(&i).map(|x| (fmt_code(&x.fmt), x.data.to_vec())).collect();
            ensure!(g == w.iter().filter_map(|v| v.image().map(|(f, d)| (f, d.clone()))).collect::<Vec<_>>(), "images_of({id:?}) is {:?}, content {:?}", g, w);
        });
    }
    let flat: Vec<(Id, V)> = m.iter().flat_map(|(i, v)| v.iter().map(move |x| (i.clone(), x.clone()))).collect();
    let g: Vec<(Id, Vec<u8>)> = t.bytes().map(|(i, b)| (Id::of(i), b.to_vec())).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.bytes().map(|b| (i.clone(), b.clone()))).collect::<Vec<_>>(), "bytes() is {:?}", g);
    let g: Vec<(Id, String)> = t.strings().map(|(i, b)| (Id::of(i), b.to_owned())).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.string().map(|b| (i.clone(), b.clone()))).collect::<Vec<_>>(), "strings() is {:?}", g);
    let g: Vec<(Id, u8, Vec<u8>)> = t.images().map(|(i, b)| (Id::of(i), fmt_code(&b.fmt), b.data.to_vec())).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.image().map(|(f, b)| (i.clone(), f, b.clone()))).collect::<Vec<_>>(), "images() is {:?}", g);
    Ok(())
}

/// the owning iterators, on a copy
fn owning(t: &Tag, m: &Items) -> Outcome {
    let flat: Vec<(Id, V)> = m.iter().flat_map(|(i, v)| v.iter().map(move |x| (i.clone(), x.clone()))).collect();
    let g: Vec<(Id, V)> = t.clone().take_data().map(|(i, d)| (Id::of(&i), V::of(&d))).collect();
    ensure!(g == flat, "take_data() yields {} values of {}", g.len(), flat.len());
    let g: Vec<(Id, Vec<u8>)> = t.clone().take_bytes().map(|(i, d)| (Id::of(&i), d)).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.bytes().map(|b| (i.clone(), b.clone()))).collect::<Vec<_>>(), "take_bytes() is {:?}", g);
    let g: Vec<(Id, String)> = t.clone().take_strings().map(|(i, d)| (Id::of(&i), d)).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.string().map(|b| (i.clone(), b.clone()))).collect::<Vec<_>>(), "take_strings() is {:?}", g);
    let g: Vec<(Id, u8, Vec<u8>)> = t.clone().take_images().map(|(i, d)| (Id::of(&i), fmt_code(&d.fmt), d.data)).collect();
    ensure!(g == flat.iter().filter_map(|(i, v)| v.image().map(|(f, b)| (i.clone(), f, b.clone()))).collect::<Vec<_>>(), "take_images() is {:?}", g);
    Ok(())
}

/// every iterator, gone through in a way of its own
fn protocol(t: &Tag, m: &Items, pool: &[Id], r: &mut Rng) -> Outcome {
    type B = Vec<u8>;
    let flat: Vec<(Id, V)> = m.iter().flat_map(|(i, v)| v.iter().map(move |x| (i.clone(), x.clone()))).collect();
    let bytes: Vec<(Id, B)> = flat.iter().filter_map(|(i, v)| v.bytes().map(|b| (i.clone(), b.clone()))).collect();
    let strings: Vec<(Id, String)> = flat.iter().filter_map(|(i, v)| v.string().map(|b| (i.clone(), b.clone()))).collect();
    let images: Vec<(Id, u8, B)> = flat.iter().filter_map(|(i, v)| v.image().map(|(f, b)| (i.clone(), f, b.clone()))).collect();
    let mut c = t.clone();
    walk(t.data(), &flat, |(i, d)| (Id::of(i), V::of(d)), r.u64(), "data()")?;
    walk(t.bytes(), &bytes, |(i, b)| (Id::of(i), b.to_vec()), r.u64(), "bytes()")?;
    walk(t.strings(), &strings, |(i, b)| (Id::of(i), b.to_owned()), r.u64(), "strings()")?;
    walk(t.images(), &images, |(i, x)| (Id::of(i), fmt_code(&x.fmt), x.data.to_vec()), r.u64(), "images()")?;
    walk(c.data_mut(), &flat, |(i, d)| (Id::of(i), V::of(d)), r.u64(), "data_mut()")?;
    walk(c.bytes_mut(), &bytes, |(i, b)| (Id::of(i), b.to_vec()), r.u64(), "bytes_mut()")?;
    walk(c.strings_mut(), &strings, |(i, b)| (Id::of(i), b.to_owned()), r.u64(), "strings_mut()")?;
    walk(c.images_mut(), &images, |(i, x)| (Id::of(i), fmt_code(&x.fmt), x.data.to_vec()), r.u64(), "images_mut()")?;
    walk(t.clone().take_data(), &flat, |(i, d)| (Id::of(&i), V::of(&d)), r.u64(), "take_data()")?;
    walk(t.clone().take_bytes(), &bytes, |(i, b)| (Id::of(&i), b), r.u64(), "take_bytes()")?;
    walk(t.clone().take_strings(), &strings, |(i, b)| (Id::of(&i), b), r.u64(), "take_strings()")?;
    walk(t.clone().take_images(), &images, |(i, x)| (Id::of(&i), fmt_code(&x.fmt), x.data), r.u64(), "take_images()")?;
    for id in pool.iter().chain(m.iter().map(|(i, _)| i)).take(20) {
        let w = of(m, id);
        let bytes: Vec<B> = w.iter().filter_map(|v| v.bytes().cloned()).collect();
        let strings: Vec<String> = w.iter().filter_map(|v| v.string().cloned()).collect();
        let images: Vec<(u8, B)> = w.iter().filter_map(|v| v.image().map(|(f, d)| (f, d.clone()))).collect();
        let (how, h) = (r.below(3), r.u64());
        by!(id, how, i => {
            walk(t.data_of(&i), w, V::of, h, "data_of")?;
            walk(t.bytes_of(&i), &bytes, |b| b.to_vec(), h >> 8, "bytes_of")?;
            walk(t.strings_of(&i), &strings, |b| b.to_owned(), h >> 16, "strings_of")?;
            walk(t.images_of(&i), &images, |x| (fmt_code(&x.fmt), x.data.to_vec()), h >> 24, "images_of")?;
            walk(c.data_mut_of(&i), w, |d| V::of(d), h >> 11, "data_mut_of")?;
            walk(c.bytes_mut_of(&i), &bytes, |b| b.to_vec(), h >> 20, "bytes_mut_of")?;
            walk(c.strings_mut_of(&i), &strings, |b| b.to_owned(), h >> 28, "strings_mut_of")?;
            walk(c.images_mut_of(&i), &images, |x| (fmt_code(&x.fmt), x.data.to_vec()), h >> 36, "images_mut_of")?;
            walk(t.clone().take_data_of(&i), w, |d| V::of(&d), h >> 14, "take_data_of")?;
            walk(t.clone().take_bytes_of(&i), &bytes, |b| b, h >> 23, "take_bytes_of")?;
            walk(t.clone().take_strings_of(&i), &strings, |b| b, h >> 31, "take_strings_of")?;
            walk(t.clone().take_images_of(&i), &images, |x| (fmt_code(&x.fmt), x.data), h >> 39, "take_images_of")?;
        });
    }
    ensure!(&c == t, "iterating over mutable references changed the tag");
    Ok(())
}

/// a predicate over raw content, reproducible from its parameters
fn keep(p: u64, raw: &[u8]) -> bool {
    match p % 6 {
        0 => true,
        1 => false,
        2 => raw.len() % 2 == 0,
        3 => raw.is_empty(),
        _ => fnv(p, raw) & 1 == 0,
    }
}

fn keep_id(p: u64, id: &Id, raw: &[u8]) -> bool {
    match p % 4 {
        0 => fnv(p, id.show().as_bytes()) & 1 == 0,
        _ => keep(p / 4, raw),
    }
}

fn small_val(r: &mut Rng, n: &mut u64) -> V {
    // contents are mostly distinguishable by a running number
    *n += 1;
    let mut raw = n.to_string().into_bytes();
    if r.chance(1, 6) {
        raw = vec![];
    } else if r.chance(1, 6) {
        raw = vec![b'7'];
    } else if r.chance(1, 12) {
        return gen_val(r, 300);
    }
    let s = String::from_utf8(raw.clone()).unwrap();
    match r.below(7) {
        0 => V::Reserved(raw),
        1 => V::Utf8(s),
        2 => V::Utf16(s),
        3 => V::Jpeg(raw),
        4 => V::Png(raw),
        5 => V::Signed(raw),
        _ => V::Bmp(raw),
    }
}

fn raw_of(v: &V) -> Vec<u8> {
    match v {
        V::Utf8(s) | V::Utf16(s) => s.as_bytes().to_vec(),
        v => v.raw(),
    }
}

fn ops(ctx: &mut Ctx, t: &mut Tag, m: &mut Items, pool: &[Id], n: &mut u64, log: &mut u64) -> Outcome {
    let id = ctx.r.pick(pool).clone();
    let how = ctx.r.below(3);
    let r = &mut ctx.r;
    let op = r.below(34);
    let mut what = format!("#{op} on {id:?}");
    let before = m.clone();
    let some = |r: &mut Rng, n: &mut u64| {
        let k = if r.chance(1, 12) { few(r) } else { *r.pick(&[0usize, 0, 1, 1, 2, 3, 7]) };
        (0..k).map(|_| small_val(r, n)).collect::<Vec<V>>()
    };
    let p = r.u64();
    let seen: RefCell<Vec<(Option<Id>, V)>> = RefCell::new(vec![]);
    let is_b = |v: &V| v.bytes().is_some();
    let is_s = |v: &V| v.string().is_some();
    let is_i = |v: &V| v.image().is_some();
    let make = r.below(6);
    match op {
        0..=2 => {
            let v = small_val(r, n);
            what = format!("set_data({id:?}, {v:?})");
            call(&what, || by!(&id, how, i => t.set_data(i, v.data())))?;
            match at(m, &id) {
                Some(o) => *o = vec![v],
                None => m.push((id.clone(), vec![v])),
            }
        }
        3 | 4 => {
            let v = some(r, n);
            what = format!("set_all_data({id:?}, {v:?})");
            call(&what, || by!(&id, how, i => t.set_all_data(i, feed(make, v.iter().map(V::data).collect::<Vec<_>>()))))?;
            match at(m, &id) {
                Some(o) => *o = v,
                None => m.push((id.clone(), v)),
            }
            prune(m);
        }
        5..=8 => {
            let v = small_val(r, n);
            what = format!("add_data({id:?}, {v:?})");
            call(&what, || by!(&id, how, i => t.add_data(i, v.data())))?;
            match at(m, &id) {
                Some(o) => o.push(v),
                None => m.push((id.clone(), vec![v])),
            }
        }
        9 | 10 => {
            let v = some(r, n);
            what = format!("add_all_data({id:?}, {v:?})");
            call(&what, || by!(&id, how, i => t.add_all_data(i, feed(make, v.iter().map(V::data).collect::<Vec<_>>()))))?;
            match at(m, &id) {
                Some(o) => o.extend(v),
                None => m.push((id.clone(), v)),
            }
            prune(m);
        }
        11..=14 => {
            // taking removes the whole item, whatever the kind asked for and however much is consumed
            let k = if r.chance(1, 2) { usize::MAX } else { r.below(3) };
            let w = of(m, &id).to_vec();
            let (g, w): (Vec<V>, Vec<V>) = match op {
                11 => {
                    what = format!("take_bytes_of({id:?}), {k} consumed");
                    let g = call(&what, || by!(&id, how, i => t.take_bytes_of(&i).take(k).collect::<Vec<_>>()))?;
                    (g.into_iter().map(V::Reserved).collect(), w.iter().filter_map(|v| v.bytes().cloned()).map(V::Reserved).take(k).collect())
                }
                12 => {
                    what = format!("take_strings_of({id:?}), {k} consumed");
                    let g = call(&what, || by!(&id, how, i => t.take_strings_of(&i).take(k).collect::<Vec<_>>()))?;
                    (g.into_iter().map(V::Utf8).collect(), w.iter().filter_map(|v| v.string().cloned()).map(V::Utf8).take(k).collect())
                }
                13 => {
                    what = format!("take_images_of({id:?}), {k} consumed");
                    let g = call(&what, || by!(&id, how, i => t.take_images_of(&i).take(k).collect::<Vec<_>>()))?;
                    (g.into_iter().map(|i| img_v(fmt_code(&i.fmt), i.data)).collect(), w.iter().filter(|v| is_i(v)).cloned().take(k).collect())
                }
                _ => {
                    what = format!("take_data_of({id:?}), {k} consumed");
                    let g = call(&what, || by!(&id, how, i => t.take_data_of(&i).take(k).collect::<Vec<_>>()))?;
                    (g.iter().map(V::of).collect(), w.into_iter().take(k).collect())
                }
            };
            ensure!(g == w, "{what} returned {:?}, want {:?}", g, w);
            m.retain(|(i, _)| *i != id);
        }
        15 => {
            what = format!("remove_bytes_of({id:?})");
            call(&what, || by!(&id, how, i => t.remove_bytes_of(&i)))?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_b(x));
            }
            prune(m);
        }
        16 => {
            what = format!("remove_strings_of({id:?})");
            call(&what, || by!(&id, how, i => t.remove_strings_of(&i)))?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_s(x));
            }
            prune(m);
        }
        17 => {
            what = format!("remove_images_of({id:?})");
            call(&what, || by!(&id, how, i => t.remove_images_of(&i)))?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_i(x));
            }
            prune(m);
        }
        18 => {
            what = format!("remove_data_of({id:?})");
            call(&what, || by!(&id, how, i => t.remove_data_of(&i)))?;
            m.retain(|(i, _)| *i != id);
        }
        19 => {
            what = format!("retain_bytes_of({id:?}, {})", p % 6);
            call(&what, || {
                by!(&id, how, i => t.retain_bytes_of(&i, |b| {
                    seen.borrow_mut().push((Some(id.clone()), V::Reserved(b.to_vec())));
                    keep(p, b)
                }))
            })?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_b(x) || keep(p, &raw_of(x)));
            }
            prune(m);
        }
        20 => {
            what = format!("retain_strings_of({id:?}, {})", p % 6);
            call(&what, || {
                by!(&id, how, i => t.retain_strings_of(&i, |s| {
                    seen.borrow_mut().push((Some(id.clone()), V::Utf8(s.to_owned())));
                    keep(p, s.as_bytes())
                }))
            })?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_s(x) || keep(p, &raw_of(x)));
            }
            prune(m);
        }
        21 => {
            what = format!("retain_images_of({id:?}, {})", p % 6);
            call(&what, || {
                by!(&id, how, i => t.retain_images_of(&i, |x| {
                    seen.borrow_mut().push((Some(id.clone()), img_v(fmt_code(&x.fmt), x.data.to_vec())));
                    keep(p, x.data)
                }))
            })?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| !is_i(x) || keep(p, &raw_of(x)));
            }
            prune(m);
        }
        22 => {
            what = format!("retain_data_of({id:?}, {})", p % 6);
            call(&what, || {
                by!(&id, how, i => t.retain_data_of(&i, |d| {
                    seen.borrow_mut().push((Some(id.clone()), V::of(d)));
                    keep(p, &raw_of(&V::of(d)))
                }))
            })?;
            if let Some(v) = at(m, &id) {
                v.retain(|x| keep(p, &raw_of(x)));
            }
            prune(m);
        }
        23 => {
            what = format!("retain_bytes({})", p % 24);
            call(&what, || {
                t.retain_bytes(|i, b| {
                    seen.borrow_mut().push((Some(Id::of(i)), V::Reserved(b.to_vec())));
                    keep_id(p, &Id::of(i), b)
                })
            })?;
            for (i, v) in m.iter_mut() {
                v.retain(|x| !is_b(x) || keep_id(p, i, &raw_of(x)));
            }
            prune(m);
        }
        24 => {
            what = format!("retain_strings({})", p % 24);
            call(&what, || {
                t.retain_strings(|i, s| {
                    seen.borrow_mut().push((Some(Id::of(i)), V::Utf8(s.to_owned())));
                    keep_id(p, &Id::of(i), s.as_bytes())
                })
            })?;
            for (i, v) in m.iter_mut() {
                v.retain(|x| !is_s(x) || keep_id(p, i, &raw_of(x)));
            }
            prune(m);
        }
        25 => {
            what = format!("retain_images({})", p % 24);
            call(&what, || {
                t.retain_images(|i, x| {
                    seen.borrow_mut().push((Some(Id::of(i)), img_v(fmt_code(&x.fmt), x.data.to_vec())));
                    keep_id(p, &Id::of(i), x.data)
                })
            })?;
            for (i, v) in m.iter_mut() {
                v.retain(|x| !is_i(x) || keep_id(p, i, &raw_of(x)));
            }
            prune(m);
        }
        26 => {
            what = format!("retain_data({})", p % 24);
            call(&what, || {
                t.retain_data(|i, d| {
                    seen.borrow_mut().push((Some(Id::of(i)), V::of(d)));
                    keep_id(p, &Id::of(i), &raw_of(&V::of(d)))
                })
            })?;
            for (i, v) in m.iter_mut() {
                v.retain(|x| keep_id(p, i, &raw_of(x)));
            }
            prune(m);
        }
        27 => {
            what = format!("bytes_mut_of({id:?})");
            let k = call(&what, || by!(&id, how, i => t.bytes_mut_of(&i).map(|b| b.push(1)).count()))?;
            let mut w = 0;
            for b in at(m, &id).into_iter().flatten().filter_map(|v| v.bytes_mut()) {
                b.push(1);
                w += 1;
            }
            ensure!(k == w, "{what} yields {k} values, want {w}");
        }
        28 => {
            what = format!("strings_mut_of({id:?})");
            let k = call(&what, || by!(&id, how, i => t.strings_mut_of(&i).map(|b| b.push('é')).count()))?;
            let mut w = 0;
            for b in at(m, &id).into_iter().flatten().filter_map(|v| v.string_mut()) {
                b.push('é');
                w += 1;
            }
            ensure!(k == w, "{what} yields {k} values, want {w}");
        }
        29 => {
            what = format!("images_mut_of({id:?})");
            let g: Vec<u8> = call(&what, || {
                by!(&id, how, i => t.images_mut_of(&i).map(|x| { x.data.push(2); fmt_code(&x.fmt) }).collect::<Vec<_>>())
            })?;
            let mut w = vec![];
            for (f, b) in at(m, &id).into_iter().flatten().filter_map(|v| v.image_mut()) {
                b.push(2);
                w.push(f);
            }
            ensure!(g == w, "{what} yields the formats {g:?}, want {w:?}");
        }
        30 => {
            what = format!("data_mut_of({id:?})");
            // values may be replaced by values of another kind in place
            let k = r.below(3);
            let v = small_val(r, n);
            call(&what, || {
                by!(&id, how, i => if let Some(d) = t.data_mut_of(&i).nth(k) {
                    *d = v.data();
                })
            })?;
            if let Some(x) = at(m, &id).and_then(|o| o.get_mut(k)) {
                *x = v;
            }
        }
        31 => {
            // the mutable iterators over everything
            what = format!("mutable iteration {}", p % 4);
            call(&what, || match p % 4 {
                0 => t.bytes_mut().enumerate().for_each(|(k, (_, b))| b.insert(0, k as u8)),
                1 => t.strings_mut().enumerate().for_each(|(k, (_, s))| s.insert(0, char::from(b'a' + (k % 26) as u8))),
                2 => t.images_mut().enumerate().for_each(|(k, (_, x))| x.data.insert(0, k as u8)),
                _ => t.data_mut().enumerate().for_each(|(k, (_, d))| {
                    if k % 3 == 1 {
                        *d = Data::Utf16(k.to_string())
                    }
                }),
            })?;
            let all = m.iter_mut().flat_map(|(_, v)| v.iter_mut());
            match p % 4 {
                0 => all.filter_map(|v| v.bytes_mut()).enumerate().for_each(|(k, b)| b.insert(0, k as u8)),
                1 => all.filter_map(|v| v.string_mut()).enumerate().for_each(|(k, s)| s.insert(0, char::from(b'a' + (k % 26) as u8))),
                2 => all.filter_map(|v| v.image_mut()).enumerate().for_each(|(k, (_, b))| b.insert(0, k as u8)),
                _ => all.enumerate().for_each(|(k, v)| {
                    if k % 3 == 1 {
                        *v = V::Utf16(k.to_string())
                    }
                }),
            }
        }
        32 if r.chance(1, 4) => {
            what = "clear".into();
            call(&what, || t.clear())?;
            m.clear();
        }
        _ => {
            // through a dump: the content survives
            what = "dump and read".into();
            let d = dump(t)?;
            *t = read(&d)?.map_err(|e| format!("reading a dump failed: {e}"))?;
        }
    }
    // a predicate is asked about values of its kind and identifier only, which were there
    for (i, v) in seen.borrow().iter() {
        let vs = i.as_ref().map(|i| of(&before, i)).unwrap_or(&[]);
        let known = vs.iter().any(|x| match v {
            V::Reserved(b) if op != 22 && op != 26 => x.bytes() == Some(b),
            V::Utf8(s) if op != 22 && op != 26 => x.string() == Some(s),
            v => x == v,
        });
        ensure!(known, "{what} asked its predicate about {:?} {:?}, which is not there", i, v);
    }
    ctx.count("operations", 1);
    ctx.count("predicate calls checked", seen.borrow().len() as u64);
    *log = fnv(*log, what.as_bytes());
    queries(t, m, pool, p as usize % 3).map_err(|e| format!("after {what}: {e}"))
}

fn c12(ctx: &mut Ctx) -> Outcome {
    let mut pool: Vec<Id> = vec![];
    let size = *ctx.r.pick(&[2, 3, 4, 8, 12]);
    while pool.len() < size {
        let id = match ctx.r.below(4) {
            0 if !pool.is_empty() => {
                let k = ctx.r.below(pool.len());
                near_miss(&mut ctx.r, &pool[k].clone())
            }
            _ => gen_id(&mut ctx.r),
        };
        if !pool.contains(&id) && id != Id::F(*b"free") {
            pool.push(id);
        }
    }
    let mut m: Items = vec![];
    let mut t = Tag::default();
    if ctx.r.chance(1, 3) {
        // start from a file
        let c = Cfg::small(&mut ctx.r);
        let s = gen(&mut ctx.r, c);
        t = read_ok(&emit(&s.top).bytes)?;
        m = s.model();
        for (i, _) in m.iter().take(4) {
            if !pool.contains(i) {
                pool.push(i.clone());
            }
        }
    }
    queries(&t, &m, &pool, 0)?;
    let mut n = 0;
    let mut log = 0;
    let len = ctx.r.range(1, 60);
    let mut largest = 0;
    for k in 0..len {
        let before = if k % 8 == 7 { Some((t.clone(), m.clone())) } else { None };
        ops(ctx, &mut t, &mut m, &pool, &mut n, &mut log)?;
        largest = largest.max(m.len());
        if let Some((t0, m0)) = before {
            ensure!((t0.data().eq(t.data())) == (m0 == m), "two tags compare as {} although their contents are {}", t0.data().eq(t.data()), if m0 == m { "equal" } else { "different" });
            if let Some(d) = diff(&tag_items(&t0), &m0) {
                fail!("a clone changed: {d}");
            }
        }
    }
    owning(&t, &m)?;
    if ctx.r.chance(1, 3) {
        call("iteration", || protocol(&t, &m, &pool, &mut ctx.r))??;
        ctx.count("tags gone through by nth, count, last, skip, fold and size hints", 1);
    }
    ctx.max("identifiers in a tag", largest as u64);
    ctx.eval(log, len > 1);
    ctx.sample(|| format!("{len} operations over {:?}, final {}", pool, summary(&m)));
    Ok(())
}

pub const C12: Prop = Prop {
    id: "C12",
    level: "exploration",
    rule: "after every operation every query of the data API equals that of an ordered list model",
    assumptions: &[],
    quick: 240000,
    thorough: 6400000,
    single: false,
    exhaustive: false,
    case: c12,
};

// ---------------------------------------------------------------- C17

fn check_value(v: &V, r: &mut Rng) -> Outcome {
    let d = v.data();
    let k = v.code();
    let c = format!("{v:?}");
    let preds: [(&str, bool, bool); 10] = [
        ("is_reserved", d.is_reserved(), k == 0),
        ("is_utf8", d.is_utf8(), k == 1),
        ("is_utf16", d.is_utf16(), k == 2),
        ("is_jpeg", d.is_jpeg(), k == 13),
        ("is_png", d.is_png(), k == 14),
        ("is_be_signed", d.is_be_signed(), k == 21),
        ("is_bmp", d.is_bmp(), k == 27),
        ("is_bytes", d.is_bytes(), v.bytes().is_some()),
        ("is_string", d.is_string(), v.string().is_some()),
        ("is_image", d.is_image(), v.image().is_some()),
    ];
    for (n, g, w) in preds {
        ensure!(g == w, "{n} is {g} for {c}");
    }
    ensure!(preds[..7].iter().filter(|p| p.1).count() == 1, "{c} is of several kinds");
    let raw = v.raw();
    ensure!(d.len() == raw.len() as u64, "len() is {} for {c}, which occupies {} bytes", d.len(), raw.len());
    ensure!(d.is_empty() == raw.is_empty(), "is_empty() is {} for {c}", d.is_empty());
    // borrowed
    let b = v.bytes().map(|b| &b[..]);
    let s = v.string().map(|s| s.as_str());
    let i = v.image().map(|(f, d)| (f, d.clone()));
    macro_rules! same {
        ($($n:literal $e:expr, $w:expr);* $(;)?) => { $( { let g = $e; let w = $w; ensure!(g == w, "{} is {:.80?} for {c}", $n, g); } )* };
    }
    let only = |code: u32| if k == code { Some(&raw[..]) } else { None };
    let text = |code: u32| if k == code { s } else { None };
    same! {
        "bytes()" d.bytes(), b;
        "string()" d.string(), s;
        "image()" d.image().map(|x| (fmt_code(&x.fmt), x.data.to_vec())), i.clone();
        "image_data()" d.image_data(), i.as_ref().map(|x| &x.1[..]);
        "reserved()" d.reserved(), only(0);
        "utf8()" d.utf8(), text(1);
        "utf16()" d.utf16(), text(2);
        "jpeg()" d.jpeg(), only(13);
        "png()" d.png(), only(14);
        "be_signed()" d.be_signed(), only(21);
        "bmp()" d.bmp(), only(27);
        "into_bytes()" d.clone().into_bytes(), v.bytes().cloned();
        "into_string()" d.clone().into_string(), v.string().cloned();
        "into_image()" d.clone().into_image().map(|x| (fmt_code(&x.fmt), x.data)), i.clone();
        "into_image_data()" d.clone().into_image_data(), i.as_ref().map(|x| x.1.clone());
    }
    // mutable: the change is visible through the borrowed accessors, and only for the right kind
    let add = r.bytes(3);
    let mut e = d.clone();
    ensure!(e.bytes_mut().map(|x| x.extend_from_slice(&add)).is_some() == b.is_some(), "bytes_mut() for {c}");
    ensure!(e.string_mut().map(|x| x.push_str("𝄞é")).is_some() == s.is_some(), "string_mut() for {c}");
    match r.below(2) {
        0 => {
            let f = e.image_mut().map(|x| {
                x.data.extend_from_slice(&add);
                fmt_code(&x.fmt)
            });
            ensure!(f == i.as_ref().map(|x| x.0), "image_mut() is {:?} for {c}", f);
        }
        _ => ensure!(e.image_data_mut().map(|x| x.extend_from_slice(&add)).is_some() == i.is_some(), "image_data_mut() for {c}"),
    }
    let mut w = v.clone();
    match &mut w {
        V::Utf8(s) | V::Utf16(s) => s.push_str("𝄞é"),
        V::Reserved(b) | V::Jpeg(b) | V::Png(b) | V::Signed(b) | V::Bmp(b) => b.extend_from_slice(&add),
    }
    ensure!(V::of(&e) == w, "after mutation {c} is {:?}", V::of(&e));
    ensure!(e.len() == w.raw().len() as u64, "len() is {} after a mutation to {:?}", e.len(), w);
    ensure!(e != d && d == v.data() && e == w.data(), "comparison of {c} and {:?}", w);
    // images
    if let Some((f, data)) = i {
        let x = d.clone().into_image().unwrap();
        ensure!((x.fmt.is_bmp(), x.fmt.is_jpeg(), x.fmt.is_png()) == (f == 0, f == 1, f == 2), "image format of {c} is {:?}", x.fmt);
        ensure!(Data::from(x.clone()) == d && Data::from(img(f, data.clone())) == d, "conversion from an image changes {c}");
        let fm = [ImgFmt::Bmp, ImgFmt::Jpeg, ImgFmt::Png][f as usize].clone();
        ensure!(Data::from(Img::new(fm.clone(), &data[..])) == d, "conversion from a borrowed image changes {c}");
        ensure!(x == Img::new(fm, data), "image() of {c} is not the image");
    }
    Ok(())
}

fn c17(ctx: &mut Ctx) -> Outcome {
    // any kind with any content; lengths around the limits of every size
    let max = if ctx.r.chance(1, 32) { 100_000 } else { 600 };
    let v = gen_val(&mut ctx.r, max);
    ctx.note = format!("{v:?}");
    let v2 = v.clone();
    let mut r2 = ctx.r.fork();
    call("a data accessor", move || check_value(&v2, &mut r2))??;
    ctx.count("values", 1);
    ctx.count("non-ascii or surrogate text", v.string().map_or(0, |s| !s.is_ascii() as u64));
    // in a file: exactly len() bytes, exactly that kind
    let id = gen_id(&mut ctx.r);
    let items: Items = vec![(id.clone(), vec![v.clone(), V::Reserved(vec![9])])];
    let t = build_tag(&items, &mut ctx.r);
    let d = dump(&t)?;
    let tr = mp4ref::items(&d[..], false).map_err(|e| format!("the dump of {v:?} is malformed: {e}"))?;
    if let Some(x) = diff(&tr, &items) {
        fail!("a reader of the dump finds: {x}");
    }
    let stored = tr[0].1[0].raw().len() as u64;
    ensure!(v.data().len() == stored, "len() is {} but {} bytes are stored for {v:?}", v.data().len(), stored);
    // as stored in a file by someone else
    let bytes = emit(&[N::leaf(b"ftyp", b"M4A \0\0\0\0".to_vec()), N::container(b"moov", vec![mvhd_node(0, 1, 1, &[0; 80]), N::container(b"udta", vec![meta_with(item_plain(&id, &[v.clone()]))])])]).bytes;
    let t = read_ok(&bytes)?;
    let got: Vec<Data> = t.data().map(|(_, d)| d.clone()).collect();
    ensure!(got.len() == 1 && V::of(&got[0]) == v, "{v:?} stored in a file reads as {:?}", got.iter().map(V::of).collect::<Vec<_>>());
    ensure!(got[0].len() == v.raw().len() as u64, "len() of the value read is {}", got[0].len());
    ctx.eval(items_hash(&items), true);
    ctx.sample(|| format!("{v:?} under {id:?}"));
    Ok(())
}

fn meta_with(item: N) -> N {
    let mut hdlr = vec![0; 8];
    hdlr.extend_from_slice(b"mdirappl\0\0\0\0\0\0\0\0\0");
    N::Box { cc: *b"meta", ext: false, pre: vec![0; 4], kids: vec![N::leaf(b"hdlr", hdlr), N::container(b"ilst", vec![item])] }
}

pub const C17: Prop = Prop {
    id: "C17",
    level: "exploration",
    rule: "every predicate and accessor of a value is compared with a reference representation, and its length with the bytes an independent reader finds in a file",
    assumptions: &[],
    quick: 2100000,
    thorough: 56000000,
    single: false,
    exhaustive: false,
    case: c17,
};

// ---------------------------------------------------------------- C22

pub fn near_miss(r: &mut Rng, id: &Id) -> Id {
    match id {
        Id::F(c) => match r.below(6) {
            0 => {
                let s: String = c.iter().map(|b| *b as char).collect();
                Id::S(if r.chance(1, 2) { String::new() } else { "com.apple.iTunes".into() }, s)
            }
            1 => {
                let mut d = *c;
                d.reverse();
                Id::F(d)
            }
            2 => {
                let mut d = *c;
                d.rotate_left(1);
                Id::F(d)
            }
            3 => Id::F(c.map(|b| if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() })),
            _ => {
                let mut d = *c;
                let k = r.below(4);
                d[k] ^= 1 << r.below(8);
                Id::F(d)
            }
        },
        Id::S(m, n) => match r.below(13) {
            0 => Id::S(n.clone(), m.clone()),
            1 => Id::S(format!("{m}:"), n.clone()),
            2 => Id::S(m.clone(), format!(":{n}")),
            3 => Id::S(format!("{m}:{n}"), String::new()),
            4 => Id::S(String::new(), format!("{m}:{n}")),
            5 => Id::S(m.to_uppercase(), n.clone()),
            6 => Id::S(m.clone(), n.to_lowercase()),
            7 => Id::S(m.clone(), format!("{n} ")),
            8 => Id::S(format!(" {m}"), n.clone()),
            9 => Id::S(m.clone(), format!("{n}\0")),
            10 => {
                // the boundary moved by one character
                let mut m2 = m.clone();
                let mut n2 = n.clone();
                if let Some(c) = n2.chars().next() {
                    n2.remove(0);
                    m2.push(c);
                } else {
                    m2.push('x');
                }
                Id::S(m2, n2)
            }
            11 => {
                let mut n2 = n.clone();
                if n2.pop().is_none() {
                    n2.push('e');
                }
                Id::S(m.clone(), n2)
            }
            _ => {
                let mut c = [b'-'; 4];
                for (k, b) in n.bytes().take(4).enumerate() {
                    c[k] = b;
                }
                Id::F(c)
            }
        },
    }
}

fn hash_of(d: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}

// identifiers can be hashed in some versions of the crate only: 0 where they cannot
struct Hashed<'a, T>(&'a T);
trait NoHash {
    fn value(&self) -> u64 {
        0
    }
}
impl<T> NoHash for &Hashed<'_, T> {}
impl<T: std::hash::Hash> Hashed<'_, T> {
    fn value(&self) -> u64 {
        hash_of(self.0)
    }
}
macro_rules! maybe_hash {
    ($x:expr) => {
        (&Hashed($x)).value()
    };
}

fn idents(a: &Id, b: &Id) -> Outcome {
    let same = a == b;
    let (da, db) = (a.data_ident(), b.data_ident());
    let w = format!("{a:?} and {b:?}");
    ensure!((da == db) == same && (da != db) == !same && (db == da) == same, "DataIdent == is {} for {w}", da == db);
    ensure!(idents_match(&da, &db) == same && idents_match(&db, &da) == same, "idents_match is {} for {w}", idents_match(&da, &db));
    if same {
        ensure!(maybe_hash!(&da) == maybe_hash!(&db), "equal identifiers {w} hash differently");
        let far = Box::new(db.clone());
        ensure!(maybe_hash!(&da) == maybe_hash!(&*far), "equal identifiers {w} hash differently");
        if let Id::F(c) = a {
            let (near, far) = (Fourcc(*c), Box::new(Fourcc(*c)));
            ensure!(maybe_hash!(&near) == maybe_hash!(&*far), "equal codes {w} hash differently");
        }
    }
    macro_rules! against {
        ($x:expr) => {{
            let x = $x;
            ensure!((x == db) == same && (x != db) == !same, "{:?} == {:?} is {}", x, db, x == db);
            ensure!(idents_match(&x, &db) == same && idents_match(&db, &x) == same, "idents_match({:?}, {:?})", x, db);
            ensure!(idents_match(&x, &x) && x == DataIdent::from(x.clone()) && DataIdent::from(x.clone()) == da, "{:?} does not match its conversion", x);
            ensure!(x.to_string() == a.show(), "{:?} prints as {:?}, want {:?}", x, x.to_string(), a.show());
            match b {
                Id::F(c) => {
                    let y = Fourcc(*c);
                    ensure!(idents_match(&x, &y) == same && idents_match(&y, &x) == same, "idents_match({:?}, {:?})", x, y);
                }
                Id::S(m, n) => {
                    let y = FreeformIdent::new(m, n);
                    ensure!(idents_match(&x, &y) == same && idents_match(&y, &x) == same, "idents_match({:?}, {:?})", x, y);
                }
            }
        }};
    }
    match a {
        Id::F(c) => {
            against!(Fourcc(*c));
            let f = Fourcc(*c);
            ensure!(DataIdent::fourcc(*c) == da && f.fourcc() == Some(f) && f.freeform().is_none(), "parts of {a:?}");
            ensure!(da.fourcc() == Some(f) && da.freeform().is_none(), "parts of {da:?}");
            ensure!(*f == *c && f.0 == *c, "bytes of {a:?}");
            if let Id::F(d) = b {
                ensure!((Fourcc(*c) == Fourcc(*d)) == same && (maybe_hash!(&Fourcc(*c)) == maybe_hash!(&Fourcc(*d)) || !same), "Fourcc == for {w}");
            }
        }
        Id::S(m, n) => {
            against!(FreeformIdent::new(m, n));
            let f = FreeformIdent::new(m, n);
            ensure!(DataIdent::from(&f) == da && DataIdent::freeform(m.clone(), n.as_str()) == da, "conversion of {a:?}");
            ensure!(f.fourcc().is_none() && f.freeform() == Some(f.clone()), "parts of {f:?}");
            ensure!(da.fourcc().is_none() && da.freeform() == Some(f.clone()), "parts of {da:?}");
            if let Id::S(m2, n2) = b {
                ensure!((f == FreeformIdent::new(m2, n2)) == same, "FreeformIdent == for {w}");
            }
        }
    }
    ensure!(da.to_string() == a.show(), "{a:?} prints as {:?}, want {:?}", da.to_string(), a.show());
    Ok(())
}

fn c22(ctx: &mut Ctx) -> Outcome {
    let a = gen_id(&mut ctx.r);
    let mut set: Vec<Id> = vec![a.clone()];
    for _ in 0..ctx.r.range(1, 5) {
        let k = ctx.r.below(set.len());
        let base = set[k].clone();
        let b = near_miss(&mut ctx.r, &base);
        set.push(b);
    }
    set.push(gen_id(&mut ctx.r));
    ctx.note = format!("{set:?}");
    for x in &set {
        for y in &set {
            call("comparing identifiers", || idents(x, y))??;
            ctx.count("pairs compared", 1);
            if x != y {
                ctx.eval(hash_of(&(x, y)), true);
            }
        }
    }
    // distinct identifiers never share data
    let mut uniq: Vec<Id> = vec![];
    for i in set {
        if !uniq.contains(&i) && i != Id::F(*b"free") {
            uniq.push(i);
        }
    }
    let items: Items = uniq.iter().enumerate().map(|(k, i)| (i.clone(), vec![V::Utf8(format!("value {k}"))])).collect();
    let mut t = Tag::default();
    for (k, (i, v)) in items.iter().enumerate() {
        by!(i, k, x => t.add_data(x, v[0].data()));
    }
    let separate = |t: &Tag, items: &Items, wh: &str| -> Outcome {
        if let Some(d) = diff(&tag_items(t), items) {
            fail!("{wh}: {d}");
        }
        for (k, (i, v)) in items.iter().enumerate() {
            let g: Vec<V> = by!(i, k + 1, x => t.data_of(&x).map(V::of).collect());
            ensure!(g == *v, "{wh}: {:?} holds {:?}, want {:?}", i, g, v);
        }
        Ok(())
    };
    separate(&t, &items, "in a tag")?;
    let d = dump(&t)?;
    let back = read(&d)?.map_err(|e| format!("reading a dump failed: {e}"))?;
    separate(&back, &items, "in a dump")?;
    if ctx.r.chance(1, 8) {
        let c = Cfg::small(&mut ctx.r);
        let s = gen(&mut ctx.r, c);
        let f = write_ok(&t, &emit(&s.top).bytes)?;
        separate(&read_ok(&f)?, &items, "in a file")?;
        ctx.count("files", 1);
    }
    // changing or removing one leaves the others
    let k = ctx.r.below(uniq.len());
    let mut left = items.clone();
    let rm = ctx.r.chance(1, 2);
    by!(&uniq[k], ctx.r.below(3), x => {
        if rm {
            t.remove_data_of(&x);
            left.remove(k);
        } else {
            t.set_data(x, Data::BeSigned(vec![1]));
            left[k].1 = vec![V::Signed(vec![1])];
        }
    });
    separate(&t, &left, if rm { "after removing one" } else { "after setting one" })?;
    ctx.count("tags with near-miss identifiers", 1);
    ctx.sample(|| format!("{uniq:?}"));
    Ok(())
}

pub const C22: Prop = Prop {
    id: "C22",
    level: "exploration",
    rule: "every comparison operator, idents_match, hash, conversion and printed form of two identifiers is compared with equality of their characters or strings",
    assumptions: &[],
    quick: 300000,
    thorough: 8000000,
    single: false,
    exhaustive: false,
    case: c22,
};
