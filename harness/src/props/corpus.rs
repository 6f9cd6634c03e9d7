//! Small inputs made by the native monitor, for execution under the interpreter (Miri), where
//! generating them would take most of the time.

use super::common::*;
use super::corrupt::{random_mutation, restructure, scramble, use_tag};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Each input is preceded by its length (4 bytes) and how it is used: 1 = read, use, share between
/// threads, edit, write; 0 = read and use only.
pub fn make(path: &str, n: usize, seed: u64) -> i32 {
    let mut out: Vec<u8> = vec![];
    let mut r = Rng::new(fnv(seed, b"corpus"));
    for k in 0..n {
        let full = k % 12 == 0;
        let b = if full { small(&mut r, (k / 12) % 4) } else { tiny(&mut r) };
        out.extend((b.len() as u32).to_le_bytes());
        // the kinds other than the first are damaged
        out.push(if !full { 0 } else if (k / 12) % 4 == 0 { 2 } else { 1 });
        out.extend(b);
    }
    std::fs::write(path, out).map_or(3, |_| 0)
}

fn small(r: &mut Rng, k: usize) -> Vec<u8> {
    let c = Cfg::small(r);
    let mut spec = gen(r, c);
    // the interpreter has no use for long media
    for x in spec.top.iter_mut() {
        if let N::Media { body, .. } = x {
            body.truncate(64);
        }
    }
    let e = emit(&spec.top);
    match k {
        0 => e.bytes,
        1 => {
            let o = { let c = Cfg::small(r); emit(&gen(r, c).top).bytes };
            random_mutation(r, &e.bytes, &e.fields, &o)
        }
        2 => {
            let mut b = e.bytes;
            for _ in 0..r.range(1, 2) {
                let f = r.pick(&e.fields);
                set_field_any(r, &mut b, f);
            }
            b
        }
        _ => {
            restructure(r, &mut spec.top);
            emit(&spec.top).bytes
        }
    }
}

/// A file of some hundred bytes, conforming or with changes that keep most of its structure.
fn tiny(r: &mut Rng) -> Vec<u8> {
    let mut tries = 0;
    let (mut spec, e) = loop {
        let c = Cfg {
            ext: 5,
            decoys: false,
            padding: r.chance(1, 8),
            tag: model::TagCfg { items: 3, values: 2, val_len: 12, budget: 40 },
            max_traks: 1,
            max_entries: 1,
            repeats: false,
            items: r.chance(3, 4),
            scale: None,
        };
        let mut spec = gen(r, c);
        for x in spec.top.iter_mut() {
            if let N::Media { body, .. } = x {
                body.truncate(4);
            }
        }
        let e = emit(&spec.top);
        tries += 1;
        if e.bytes.len() < 400 || tries > 40 {
            break (spec, e);
        }
    };
    match r.below(8) {
        0 => {
            restructure(r, &mut spec.top);
            emit(&spec.top).bytes
        }
        1 => random_mutation(r, &e.bytes, &e.fields, &e.bytes),
        2 | 3 => {
            let mut b = e.bytes;
            for _ in 0..r.range(1, 2) {
                let f = r.pick(&e.fields);
                set_field_any(r, &mut b, f);
            }
            b
        }
        4 => {
            let mut b = e.bytes;
            let k = r.below(b.len());
            b.truncate(k);
            b
        }
        _ => {
            let mut b = e.bytes;
            scramble(r, &mut b, &e.fields);
            b
        }
    }
}

fn set_field_any(r: &mut Rng, b: &mut Vec<u8>, f: &Field) {
    let cur = super::corrupt::get_field(b, f);
    let vs = super::corrupt::values_for(r, f, cur, false);
    if !vs.is_empty() {
        let v = *r.pick(&vs);
        super::corrupt::set_field(b, f, v);
    }
}

/// Runs the inputs k, k + n, ... and prints what happened.
pub fn run(path: &str, k: usize, n: usize, secs: usize) -> i32 {
    let start = std::time::Instant::now();
    // from standard input, and read only: the memory sanitizer does not know all system calls
    let only_read = path == "-";
    let all = if only_read {
        let mut v = vec![];
        if std::io::Read::read_to_end(&mut std::io::stdin().lock(), &mut v).is_err() {
            return 3;
        }
        #[cfg(mon_msan)]
        {
            extern "C" {
                fn __msan_unpoison(at: *const std::ffi::c_void, len: usize);
            }
            // Safety: the bytes have been read from standard input
            unsafe { __msan_unpoison(v.as_ptr().cast(), v.len()) };
        }
        v
    } else {
        match std::fs::read(path) {
            Ok(v) => v,
            Err(_) => return 3,
        }
    };
    let (mut p, mut i) = (0, 0);
    let (mut inputs, mut tags, mut errors, mut writes, mut failed, mut shared, mut full, mut dumped, mut sum) = (0u64, 0, 0, 0, 0, 0, 0, 0, 0);
    while p + 5 <= all.len() && start.elapsed().as_secs() < secs as u64 {
        let l = u32::from_le_bytes(all[p..p + 4].try_into().unwrap()) as usize;
        let mode = all[p + 4];
        let b = &all[p + 5..p + 5 + l];
        p += 5 + l;
        i += 1;
        if (i - 1) % n != k {
            continue;
        }
        inputs += 1;
        let conforming = mode == 2;
        let mut t = match Tag::read_from(&mut std::io::Cursor::new(b)) {
            Ok(t) => {
                tags += 1;
                let use_ = mode != 0 || only_read || inputs % 4 == 0;
                if !use_ {
                    // displaying goes over all values
                    let _ = t.to_string();
                } else if let Err(e) = use_tag(&t) {
                    eprintln!("{e}");
                    return 1;
                }
                t
            }
            Err(e) => {
                errors += 1;
                let _ = format!("{e} {e:?}");
                Tag::default()
            }
        };
        if mode == 0 || only_read {
            let mut d = vec![];
            if (only_read || inputs % 4 == 1) && t.dump_to(&mut d).is_ok() {
                // every byte is looked at
                sum = fnv(sum, &d);
                dumped += 1;
            }
            continue;
        }
        full += 1;
        if full % 3 == 0 {
            // the same tag seen by two threads, which the interpreter checks for data races
            let seen = AtomicUsize::new(0);
            let t = Any(&t);
            std::thread::scope(|s| {
                for _ in 0..2 {
                    s.spawn(|| {
                        let t = t.get();
                        let c = (*t).clone();
                        if c == **t && use_tag(t).is_ok() {
                            seen.fetch_add(1, SeqCst);
                        }
                        let _ = Tag::read_from(&mut std::io::Cursor::new(b));
                    });
                }
            });
            shared += seen.into_inner() as u64;
        }
        t.set_title("interpreted");
        t.add_artist(format!("artist {i}"));
        t.set_track(3, 4);
        t.remove_genres();
        t.add_data(FreeformIdent::new("com.mon", "x"), Data::Reserved(vec![1, 2, 3]));
        t.set_artwork(mp4ameta::Img::png(vec![7; 40]));
        let f = crate::io::memfile();
        if std::os::unix::fs::FileExt::write_all_at(&f, b, 0).is_err() {
            continue;
        }
        match t.write_to(&f) {
            Ok(()) => {
                writes += 1;
                let mut f = &f;
                let _ = std::io::Seek::seek(&mut f, std::io::SeekFrom::Start(0));
                match Tag::read_from(&mut f) {
                    Ok(u) if u.title() == Some("interpreted") => {}
                    Ok(_) if !conforming => {}
                    Err(_) if !conforming => {}
                    Ok(_) => {
                        eprintln!("input {}: the title written is not read", i - 1);
                        return 1;
                    }
                    Err(e) => {
                        eprintln!("input {}: the file written cannot be read: {e}", i - 1);
                        return 1;
                    }
                }
            }
            Err(e) => {
                failed += 1;
                let _ = format!("{e} {e:?}");
            }
        }
    }
    println!(
        "{{\"inputs\": {inputs}, \"read as a tag\": {tags}, \"rejected\": {errors}, \"written and read back\": {writes}, \"writes refused\": {failed}, \"uses of a shared tag\": {shared}, \"dumped\": {dumped}, \"sum of the dumps\": {sum}}}"
    );
    0
}

struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
