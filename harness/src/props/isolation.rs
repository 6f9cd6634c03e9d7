//! C19 (tags, files and threads are independent), C20 (paths and handles, footprint).

use super::common::*;
use super::fields::{expected, view};
use crate::io::{with_plan, Plan, OPEN, READ, SEEK, TRUNC, WRITE};
use std::sync::{Arc, Barrier};

// ------------------------------------------------------------------------------------------ C19

pub const C19: Prop = Prop {
    id: "C19",
    level: "exploration",
    rule: "distinct sets of scripts run concurrently (hash of all files and operations)",
    assumptions: &[
        "switches are provoked at I/O calls, at operations of the streams passed in, and by running more threads than cores",
        "data races: ThreadSanitizer in both tiers, Miri in the thorough tier",
    ],
    quick: 10500,
    thorough: 280000,
    single: false,
    exhaustive: false,
    case: c19,
};

/// lets the harness build whatever the auto traits of the type are
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct Probe<T>(std::marker::PhantomData<T>);
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    #[allow(dead_code)]
    fn shared(&self) -> bool {
        true
    }
}

/// a stream that gives other threads a chance at its operations
struct Yielding<T>(T, Rng);
impl<T> Yielding<T> {
    fn pause(&mut self) {
        match self.1.below(12) {
            0 | 1 => std::thread::yield_now(),
            2 => {
                for _ in 0..200 {
                    std::hint::spin_loop()
                }
            }
            _ => {}
        }
    }
}
impl<T: Read> Read for Yielding<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.pause();
        self.0.read(b)
    }
}
impl<T: Seek> Seek for Yielding<T> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pause();
        self.0.seek(p)
    }
}
impl<T: Write> Write for Yielding<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.pause();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// read the own file through a stream or the file itself
    Read(bool),
    /// read a damaged copy, which fails
    ReadBad(usize),
    Set(Id, V),
    Add(Id, V),
    Remove(Id),
    /// change the values of an identifier in place
    Change(Id, u64),
    Write,
    /// write to something that is not an MP4 file
    WriteBad,
    Dump,
    Show,
    /// replace the tag by a clone, editing and dropping the old one
    Clone,
}

#[derive(Clone)]
struct Script {
    bytes: Vec<u8>,
    /// what the file contains
    items: Items,
    ftyp: String,
    ops: Vec<Op>,
    seed: u64,
}

/// the same kind and length, other content: `how` says which part of it differs
fn scramble(v: &V, k: u8, how: u8) -> V {
    let b = |b: &Vec<u8>| {
        let n = b.len();
        b.iter().enumerate().map(|(i, x)| if touched(how, i, n) { x ^ k } else { *x }).collect::<Vec<u8>>()
    };
    let s = |s: &String| scramble_text(s, k, how);
    match v {
        V::Reserved(x) => V::Reserved(b(x)),
        V::Signed(x) => V::Signed(b(x)),
        V::Bmp(x) => V::Bmp(b(x)),
        V::Jpeg(x) => V::Jpeg(b(x)),
        V::Png(x) => V::Png(b(x)),
        V::Utf8(x) => V::Utf8(s(x)),
        V::Utf16(x) => V::Utf16(s(x)),
    }
}

fn touched(how: u8, i: usize, n: usize) -> bool {
    match how {
        1 => i == 0,
        2 => i + 1 == n,
        3 => i == n / 2,
        _ => true,
    }
}

fn scramble_text(s: &str, k: u8, how: u8) -> String {
    let n = s.chars().count();
    s.chars()
        .enumerate()
        .map(|(i, c)| match c {
            _ if !touched(how, i, n) => c,
            // case only
            c if how == 4 && c.is_ascii_alphabetic() => {
                if (k >> (i % 3)) & 1 == 1 {
                    (c as u8 ^ 0x20) as char
                } else {
                    c
                }
            }
            'a'..='z' => (b'a' + (c as u8 - b'a' + k) % 26) as char,
            '0'..='9' => (b'0' + (c as u8 - b'0' + k) % 10) as char,
            c => c,
        })
        .collect()
}

/// the names of freeform identifiers differ as well
fn scramble_id(i: &Id, k: u8) -> Id {
    match i {
        Id::S(m, n) => Id::S(scramble_text(m, k, 0), scramble_text(n, k, 0)),
        i => i.clone(),
    }
}

fn gen_op(r: &mut Rng, ids: &[Id]) -> Op {
    let id = |r: &mut Rng| if !ids.is_empty() && r.chance(2, 3) { r.pick(ids).clone() } else { gen_id(r) };
    match r.below(16) {
        0 | 1 => Op::Read(r.chance(1, 2)),
        2 => Op::ReadBad(r.below(1 << 20)),
        3 | 4 | 5 => Op::Set(id(r), gen_val(r, 60)),
        6 | 7 => Op::Add(id(r), gen_val(r, 60)),
        8 => {
            if r.chance(1, 2) {
                Op::Remove(id(r))
            } else {
                Op::Change(id(r), r.u64())
            }
        }
        9 | 10 | 11 => Op::Write,
        12 => Op::WriteBad,
        13 | 14 => Op::Dump,
        _ => {
            if r.chance(1, 2) {
                Op::Show
            } else {
                Op::Clone
            }
        }
    }
}

fn scripts(r: &mut Rng) -> Vec<Script> {
    let n = r.range(2, 6);
    let alike = r.chance(2, 3);
    let how = r.below(6) as u8;
    let names = r.chance(1, 4);
    let other = |i: &Id, k: usize| if names { scramble_id(i, k as u8) } else { i.clone() };
    let cfg = if r.chance(1, 4) { Cfg::random(r) } else { Cfg::small(r) };
    let items = gen_items(r, TagCfg { items: 6, values: 2, val_len: 60, budget: 400 });
    let seed = r.u64();
    let ops_seed = r.u64();
    let mut out = vec![];
    for k in 0..n {
        let spec = if alike {
            // files of the same shape and size with other content
            let it: Items = items.iter().map(|(i, v)| (other(i, k), v.iter().map(|v| scramble(v, k as u8, how)).collect())).collect();
            gen_with(&mut Rng::new(seed), cfg, it, true)
        } else {
            gen(r, cfg)
        };
        let bytes = emit(&spec.top).bytes;
        let model = spec.model();
        let ids: Vec<Id> = model.iter().map(|x| x.0.clone()).collect();
        let mut or = if alike && r.chance(1, 2) { Rng::new(ops_seed) } else { r.fork() };
        let m = or.range(3, 14);
        let mut ops: Vec<Op> = vec![Op::Read(or.chance(1, 2))];
        for _ in 0..m {
            let o = match gen_op(&mut or, &ids) {
                Op::Set(i, v) => Op::Set(i, scramble(&v, k as u8, how)),
                Op::Add(i, v) => Op::Add(i, scramble(&v, k as u8, how)),
                o => o,
            };
            ops.push(o);
        }
        ops.push(Op::Write);
        ops.push(Op::Read(false));
        out.push(Script { bytes, items: model, ftyp: spec.ftyp.clone(), ops, seed: r.u64() });
    }
    out
}

/// what one script is doing, one operation at a time
struct Run<'a> {
    s: &'a Script,
    f: File,
    tag: Tag,
    /// what the tag and the file must contain
    model: Items,
    file: Items,
    at: usize,
    trace: Vec<u64>,
    r: Rng,
}

impl<'a> Run<'a> {
    fn new(s: &'a Script) -> Run<'a> {
        Run {
            s,
            f: mio::memfile_with(&s.bytes),
            tag: Tag::default(),
            model: vec![],
            file: s.items.clone(),
            at: 0,
            trace: vec![],
            r: Rng::new(s.seed),
        }
    }
    fn done(&self) -> bool {
        self.at >= self.s.ops.len()
    }
    fn log(&mut self, b: &[u8]) {
        self.trace.push(fnv(b.len() as u64, b));
    }
    fn check(&self, op: &Op) -> Outcome {
        let got = tag_items(&self.tag);
        if let Some(d) = diff(&got, &self.model) {
            fail!("after operation {} ({op:?}) the tag holds other data: {d}", self.at);
        }
        Ok(())
    }
    fn step(&mut self) -> Outcome {
        let op = self.s.ops[self.at].clone();
        match &op {
            Op::Read(stream) => {
                let t = if *stream {
                    let b = mio::contents(&self.f);
                    let mut y = Yielding(Cursor::new(b), self.r.fork());
                    call("read_from", || Tag::read_from(&mut y))?
                } else {
                    (&self.f).seek(SeekFrom::Start(0)).unwrap();
                    call("read_from", || Tag::read_from(&mut &self.f))?
                };
                self.tag = t.map_err(|e| format!("operation {} (reading) failed: {e}", self.at))?;
                self.model = self.file.clone();
                ensure!(self.tag.filetype() == &self.s.ftyp[..], "file type {:?} read, it is {:?}", self.tag.filetype(), self.s.ftyp);
            }
            Op::ReadBad(k) => {
                let mut b = mio::contents(&self.f);
                let k = k % b.len();
                b.truncate(k);
                let r = call("read_from", || Tag::read_from(&mut Yielding(Cursor::new(&b[..]), Rng::new(1))))?;
                let s = match r {
                    Ok(t) => format!("{:?}", tag_items(&t)),
                    Err(e) => kind(&e),
                };
                self.log(s.as_bytes());
            }
            Op::Set(i, v) => {
                self.tag.set_data(i.data_ident(), v.data());
                match self.model.iter_mut().find(|(x, _)| x == i) {
                    Some((_, o)) => *o = vec![v.clone()],
                    None => self.model.push((i.clone(), vec![v.clone()])),
                }
            }
            Op::Add(i, v) => {
                self.tag.add_data(i.data_ident(), v.data());
                match self.model.iter_mut().find(|(x, _)| x == i) {
                    Some((_, o)) => o.push(v.clone()),
                    None => self.model.push((i.clone(), vec![v.clone()])),
                }
            }
            Op::Remove(i) => {
                self.tag.remove_data_of(&i.data_ident());
                self.model.retain(|(x, _)| x != i);
            }
            Op::Change(i, seed) => {
                let mut r = Rng::new(*seed);
                if let Some((_, vs)) = self.model.iter_mut().find(|(x, _)| x == i) {
                    for v in vs.iter_mut() {
                        *v = alike(v, &mut r);
                    }
                    let vs = vs.clone();
                    self.tag.data_mut_of(&i.data_ident()).zip(&vs).for_each(|(d, v)| change_to(d, v));
                }
                // what a dump says must follow
                let b = dump(&self.tag)?;
                let back = read_any(&b)?;
                if let Some(d) = diff(&back, &self.model) {
                    fail!("operation {} (changing in place): the dump holds other metadata: {d}", self.at);
                }
                self.log(&b);
            }
            Op::Write => {
                (&self.f).seek(SeekFrom::Start(0)).unwrap();
                let r = call("write_to", || self.tag.write_to(&self.f))?;
                r.map_err(|e| format!("operation {} (writing) failed: {e}", self.at))?;
                self.file = self.model.clone();
                let b = mio::contents(&self.f);
                let got = mp4ref::items(&b[..], false).map_err(|e| format!("operation {} wrote a damaged file: {e}", self.at))?;
                if let Some(d) = diff(&merge(&got), &self.file) {
                    fail!("operation {} (writing) wrote other metadata: {d}", self.at);
                }
                self.log(&b);
            }
            Op::WriteBad => {
                let junk = b"\0\0\0\x10junkthis is no\0\0\0\x08moov";
                let f = mio::memfile_with(junk);
                let r = call("write_to", || self.tag.write_to(&f))?;
                ensure!(r.is_err() && mio::contents(&f) == junk, "writing to something that is no MP4 file succeeded");
            }
            Op::Dump => {
                let mut y = Yielding(vec![], self.r.fork());
                call("dump_to", || self.tag.dump_to(&mut y))?.map_err(|e| format!("dumping failed: {e}"))?;
                self.log(&y.0);
                let back = read_any(&y.0)?;
                if let Some(d) = diff(&back, &self.model) {
                    fail!("operation {} (dumping) dumped other metadata: {d}", self.at);
                }
            }
            Op::Show => {
                let s = call("Display", || self.tag.to_string())?;
                self.log(s.as_bytes());
            }
            Op::Clone => {
                let c = self.tag.clone();
                ensure!(c == self.tag, "a clone differs");
                let mut old = std::mem::replace(&mut self.tag, c);
                for (i, _) in &self.model {
                    old.add_data(i.data_ident(), Data::Utf8("changed in the other copy".into()));
                }
                old.set_title("changed");
                let (a, b) = (tag_items(&old), tag_items(&self.tag));
                ensure!(a != b, "editing the original of a clone changed both");
                old.clear();
                drop(old);
            }
        }
        self.check(&op)?;
        if self.at % 3 == 0 {
            let v = call("a getter", || view(&self.tag))?;
            let e = expected(&self.model);
            for (g, w) in v.iter().zip(e.iter()) {
                ensure!(g == w, "getter {} returns {:.200}, want {:.200}", g.0, g.2, w.2);
            }
        }
        self.at += 1;
        Ok(())
    }
    fn finish(&mut self) {
        let b = mio::contents(&self.f);
        self.log(&b);
        let s = format!("{:?}", tag_items(&self.tag));
        self.log(s.as_bytes());
    }
}

/// a dumped file has no media, so it is read like any other
fn read_any(b: &[u8]) -> Res<Items> {
    mp4ref::items(b, false).map(|i| merge(&i)).map_err(|e| format!("dumped a damaged file: {e}"))
}

/// a stream or sink that does something at its n-th operation
struct At<T, F> {
    inner: T,
    left: u32,
    f: F,
}
impl<T, F: FnMut()> At<T, F> {
    fn tick(&mut self) {
        if self.left == 0 {
            (self.f)();
        }
        self.left = self.left.wrapping_sub(1);
    }
}
impl<T: Read, F: FnMut()> Read for At<T, F> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.read(b)
    }
}
impl<T: Seek, F: FnMut()> Seek for At<T, F> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.tick();
        self.inner.seek(p)
    }
}
impl<T: Write, F: FnMut()> Write for At<T, F> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
impl<F: FnMut()> std::fmt::Write for At<String, F> {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        self.tick();
        self.inner.push_str(x);
        Ok(())
    }
}

struct Refuses(usize);
impl Write for Refuses {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Operations that are broken off by the caller's stream, sink, predicate or iterator, on tags and
/// files of their own; what follows on others must not notice.
fn broken_off(r: &mut Rng, s: &Script) -> Outcome {
    let n = *r.pick(&[0, 1, 2, 5, 9, 20, 40]) + r.below(4) as u32;
    let stop = || panic!("stopped by the caller");
    let mut tag = build_tag(&s.items, r);
    let how = r.below(8);
    // whatever becomes of these is nobody's concern
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
        0 | 1 => drop(Tag::read_from(&mut At { inner: Cursor::new(&s.bytes), left: n, f: stop })),
        2 => drop(tag.dump_to(&mut At { inner: vec![], left: n, f: stop })),
        3 | 4 => drop(tag.dump_to(&mut Refuses(n as usize * 7))),
        5 => drop(std::fmt::write(&mut At { inner: String::new(), left: n, f: stop }, format_args!("{tag}"))),
        6 => {
            let left = std::cell::Cell::new(n % 5);
            tag.retain_data(|_, _| {
                if left.get() == 0 {
                    stop();
                }
                left.set(left.get() - 1);
                true
            });
        }
        _ => tag.set_artists((0..5).map(|k| {
            if k == n % 5 {
                stop();
            }
            "x".to_string()
        })),
    }));
    Ok(())
}

/// Operations on one tag or file in the middle of an operation on another, in the same thread.
fn nested(r: &mut Rng, outer: &Script, inner: &Script) -> Outcome {
    let n = *r.pick(&[0, 1, 2, 5, 9, 20, 40]) + r.below(4) as u32;
    let how = r.below(5);
    let what = ["reading", "dumping", "displaying", "retaining", "adding"][how];
    let it = build_tag(&inner.items, r);
    let dumped = dump(&it)?;
    let shown = call("displaying", || it.to_string())?;
    let kind = r.below(5);
    let mut found: Outcome = Ok(());
    let mut done = 0;
    let mut f = || {
        done += 1;
        found = (|| {
            match kind {
                0 => {
                    let t = Tag::read_from(&mut Cursor::new(&inner.bytes)).map_err(|e| format!("{e}"))?;
                    ensure!(tag_items(&t) == inner.items, "reading gives another tag");
                }
                1 => ensure!(dump(&it)? == dumped, "dumping gives other bytes"),
                2 => ensure!(it.to_string() == shown, "displaying gives another text"),
                3 => ensure!(Tag::read_from(&mut Cursor::new(&inner.bytes[..inner.bytes.len() / 2])).map_or(true, |t| t.filetype() == inner.ftyp), "reading half a file gives another file type"),
                _ => {
                    let file = mio::memfile_with(&inner.bytes);
                    it.write_to(&file).map_err(|e| format!("{e}"))?;
                    let t = read_ok(&mio::contents(&file))?;
                    ensure!(tag_items(&t) == inner.items, "writing gives another tag");
                }
            }
            Ok(())
        })();
    };
    let mut t = build_tag(&outer.items, r);
    match how {
        0 => {
            let u = call("reading", || Tag::read_from(&mut At { inner: Cursor::new(&outer.bytes), left: n, f: &mut f }))?.map_err(|e| format!("reading with another operation ({kind}) in between: {e}"))?;
            ensure!(tag_items(&u) == outer.items && u.filetype() == outer.ftyp, "reading with another operation ({kind}) in between gives another tag");
        }
        1 => {
            let want = dump(&t)?;
            let mut sink = At { inner: vec![], left: n, f: &mut f };
            call("dumping", || t.dump_to(&mut sink))?.map_err(|e| format!("dumping with another operation ({kind}) in between: {e}"))?;
            ensure!(sink.inner == want, "dumping with another operation ({kind}) in between gives other bytes");
        }
        2 => {
            let want = call("displaying", || t.to_string())?;
            let mut sink = At { inner: String::new(), left: n, f: &mut f };
            call("displaying", || std::fmt::write(&mut sink, format_args!("{t}")))?.map_err(|_| "displaying failed".to_string())?;
            ensure!(sink.inner == want, "displaying with another operation ({kind}) in between gives another text");
        }
        3 => {
            let c = std::cell::RefCell::new(At { inner: (), left: n % 4, f: &mut f });
            call("retaining", || {
                t.retain_data(|_, _| {
                    c.borrow_mut().tick();
                    true
                })
            })?;
            ensure!(tag_items(&t) == outer.items, "retaining with another operation ({kind}) in between changes the tag");
        }
        _ => {
            let mut c = At { inner: (), left: n % 4, f: &mut f };
            let vs: Vec<String> = (0..5).map(|k| format!("artist {k}")).collect();
            call("setting artists", || {
                t.set_artists(vs.iter().map(|v| {
                    c.tick();
                    v.clone()
                }))
            })?;
            ensure!(t.artists().collect::<Vec<_>>() == vs, "setting artists with another operation ({kind}) in between gives other artists");
        }
    }
    if let Err(e) = found {
        fail!("in the middle of {what} another tag: {e}");
    }
    Ok(())
}

fn whole(s: &Script) -> Res<Vec<u64>> {
    let mut x = Run::new(s);
    while !x.done() {
        x.step()?;
    }
    x.finish();
    Ok(x.trace)
}

fn c19(cx: &mut Ctx) -> Outcome {
    if cx.idx == 0 {
        macro_rules! probe {
            ($($t:ty),*) => { $(
                #[allow(unused_imports)]
                use NotShared as _;
                ensure!((&Probe::<$t>(std::marker::PhantomData)).shared(), "{} can no longer be sent to and shared with other threads", stringify!($t));
            )* };
        }
        probe!(Tag, Data, DataIdent, Error);
        cx.count("types that are Send and Sync", 4);
    }
    if cx.idx % 3 == 2 {
        return c19_shared(cx);
    }
    let ss = scripts(&mut cx.r);
    let mut h = 0;
    let mut note = String::new();
    for (k, s) in ss.iter().enumerate() {
        h = fnv(h, &s.bytes) ^ fnv(1, format!("{:?}", s.ops).as_bytes());
        note += &format!("thread {k}: {} bytes, {:.1500}\n", s.bytes.len(), format!("{:?}", s.ops));
    }
    cx.note = note;
    let alone_first = cx.r.chance(1, 2);
    let mut alone: Vec<Vec<u64>> = vec![];
    if alone_first {
        for (k, s) in ss.iter().enumerate() {
            alone.push(whole(s).map_err(|e| format!("alone, script {k}: {e}"))?);
        }
    }
    // all at once
    let rounds = if cx.thorough { 6 } else { 3 };
    for round in 0..rounds {
        let bar = Barrier::new(ss.len());
        let seed = cx.r.u64();
        let outs: Vec<Res<(Vec<u64>, u64)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = ss
                .iter()
                .enumerate()
                .map(|(k, s)| {
                    let bar = &bar;
                    sc.spawn(move || -> Res<(Vec<u64>, u64)> {
                        bar.wait();
                        let p = Plan { yields: Some(seed ^ (k as u64 * 77)), ..Plan::count() };
                        let (r, p) = with_plan(p, || whole(s));
                        Ok((r?, p.yielded))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        let mut traces = vec![];
        for (k, o) in outs.into_iter().enumerate() {
            let (t, y) = o.map_err(|e| format!("concurrently with {} others, script {k}: {e}", ss.len() - 1))?;
            cx.count("provoked switches", y);
            cx.count("operations run concurrently", ss[k].ops.len() as u64);
            traces.push(t);
        }
        if alone.is_empty() {
            for (k, s) in ss.iter().enumerate() {
                alone.push(whole(s).map_err(|e| format!("alone, script {k}: {e}"))?);
            }
        }
        for k in 0..ss.len() {
            ensure!(traces[k] == alone[k], "script {k} gave other results concurrently than alone (round {round}, first at output {:?})",
                traces[k].iter().zip(alone[k].iter()).position(|(a, b)| a != b));
        }
        cx.count("concurrent runs compared", 1);
    }
    // interleaved in one thread
    for _ in 0..2 {
        let mut runs: Vec<Run> = ss.iter().map(Run::new).collect();
        loop {
            let open: Vec<usize> = (0..runs.len()).filter(|k| !runs[*k].done()).collect();
            if open.is_empty() {
                break;
            }
            let k = *cx.r.pick(&open);
            match cx.r.below(12) {
                0 => {
                    let j = cx.r.below(ss.len());
                    broken_off(&mut cx.r, &ss[j])?;
                    cx.count("operations broken off by the caller", 1);
                }
                1 => {
                    let (i, j) = (cx.r.below(ss.len()), cx.r.below(ss.len()));
                    nested(&mut cx.r, &ss[i], &ss[j])?;
                    cx.count("operations in the middle of others", 1);
                }
                _ => {}
            }
            runs[k].step().map_err(|e| format!("interleaved with {} others, script {k}: {e}", ss.len() - 1))?;
        }
        for (k, x) in runs.iter_mut().enumerate() {
            x.finish();
            ensure!(x.trace == alone[k], "script {k} gave other results interleaved than alone");
        }
        cx.count("interleavings in one thread compared", 1);
    }
    cx.eval(h, true);
    cx.sample(|| format!("{} scripts: {:.300}", ss.len(), format!("{:?}", ss[0].ops)));
    Ok(())
}

/// one tag read by several threads, clones going their own ways
fn c19_shared(cx: &mut Ctx) -> Outcome {
    let n = cx.r.range(2, 6);
    let mut items = super::fields::field_items(&mut cx.r, 12, 40);
    for x in gen_items(&mut cx.r, TagCfg { items: 8, values: 4, val_len: 100, budget: 1500 }) {
        if items.iter().all(|y| y.0 != x.0) {
            items.push(x);
        }
    }
    cx.note = summary(&items);
    // half of the time the tag comes from a file
    let tag = if cx.r.chance(1, 2) {
        build_tag(&items, &mut cx.r)
    } else {
        let cfg = Cfg::small(&mut cx.r);
        let spec = gen_with(&mut cx.r, cfg, items.clone(), true);
        let t = read_ok(&emit(&spec.top).bytes)?;
        items = spec.model();
        t
    };
    let exp = expected(&items);
    let text = call("Display", || tag.to_string())?;
    let bytes = dump(&tag)?;
    let base = emit(&gen(&mut cx.r, Cfg { ext: 0, decoys: false, padding: false, tag: SMALL, max_traks: 1, max_entries: 3, scale: None, repeats: false, items: true }).top).bytes;
    let written = write_ok(&tag, &base)?;
    let shared = Arc::new(Any(tag));
    let bar = Barrier::new(n);
    let seeds: Vec<u64> = (0..n).map(|_| cx.r.u64()).collect();
    let outs: Vec<Outcome> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (shared, bar, exp, text, bytes, items, base, written) = (shared.clone(), &bar, &exp, &text, &bytes, &items, &base, &written);
                sc.spawn(move || -> Outcome {
                    let mut r = Rng::new(*seed);
                    bar.wait();
                    let tag = shared.get();
                    for _ in 0..8 {
                        match r.below(6) {
                            0 | 1 => {
                                let v = call("a getter", || view(tag))?;
                                for (g, w) in v.iter().zip(exp.iter()) {
                                    ensure!(g == w, "getter {} returns {:.200}, want {:.200}", g.0, g.2, w.2);
                                }
                            }
                            2 => ensure!(&call("Display", || tag.to_string())? == text, "the shared tag prints differently"),
                            3 => {
                                let mut y = Yielding(vec![], r.fork());
                                call("dump_to", || tag.dump_to(&mut y))?.map_err(|e| format!("dumping failed: {e}"))?;
                                ensure!(&y.0 == bytes, "the shared tag is dumped differently");
                            }
                            4 => {
                                let (w, _) = with_plan(Plan { yields: Some(r.u64()), ..Plan::count() }, || write_ok(tag, base));
                                ensure!(&w? == written, "the shared tag is written differently");
                            }
                            _ => {
                                let mut c = tag.clone();
                                ensure!(c == *tag, "a clone differs");
                                for (i, v) in items.iter() {
                                    match r.below(4) {
                                        0 => c.remove_data_of(&i.data_ident()),
                                        1 => c.add_data(i.data_ident(), v[0].data()),
                                        2 => c.data_mut_of(&i.data_ident()).for_each(|d| *d = Data::Utf8("mutated".into())),
                                        _ => {}
                                    }
                                }
                                c.set_track(r.u16(), r.u16());
                                c.clear();
                                ensure!(c.data().next().is_none(), "a cleared clone still has data");
                            }
                        }
                        if let Some(d) = diff(&tag_items(tag), items) {
                            fail!("the shared tag holds other data: {d}");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for o in outs {
        o.map_err(|e| format!("with {n} threads sharing a tag: {e}"))?;
    }
    cx.count("operations on shared tags", 8 * n as u64);
    // a tag made here is used and dropped elsewhere
    let t = Any(shared.get().clone());
    let b2 = std::thread::spawn(move || {
        let t = t;
        dump(t.get())
    })
    .join()
    .unwrap_or_else(|_| Err("a thread panicked".into()))?;
    ensure!(b2 == bytes, "a tag sent to another thread is dumped differently");
    cx.eval(items_hash(&items), true);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C20

pub const C20: Prop = Prop {
    id: "C20",
    level: "exploration",
    rule: "distinct (operation, target content, previous content, kind of path)",
    assumptions: &[
        "other files are observed in the directory of the target, the working directory and the temporary directory, by content, length, modification time and inode, and in the log of opened paths",
        "open files are observed by probing all descriptors of the process",
    ],
    quick: 36000,
    thorough: 960000,
    single: true,
    exhaustive: false,
    case: c20,
};

extern "C" {
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
}

fn open_fds() -> Vec<i32> {
    (0..128).filter(|fd| unsafe { fcntl(*fd, 1) } >= 0).collect()
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    name: std::ffi::OsString,
    kind: char,
    content: Vec<u8>,
    mtime: (i64, i64),
    inode: u64,
    mode: u32,
}

fn snapshot(d: &std::path::Path) -> Vec<Seen> {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::MetadataExt;
    fn go(d: &std::path::Path, rel: &std::path::Path, out: &mut Vec<Seen>) {
        let Ok(es) = std::fs::read_dir(d) else { return };
        for e in es.flatten() {
            let p = e.path();
            let r = rel.join(e.file_name());
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let (kind, content) = if m.file_type().is_symlink() {
                ('l', std::fs::read_link(&p).map(|l| l.as_os_str().as_bytes().to_vec()).unwrap_or_default())
            } else if m.is_dir() {
                ('d', vec![])
            } else {
                ('f', std::fs::read(&p).unwrap_or_default())
            };
            let mt = if kind == 'd' { (0, 0) } else { (m.mtime(), m.mtime_nsec()) };
            out.push(Seen { name: r.clone().into_os_string(), kind, content, mtime: mt, inode: m.ino(), mode: m.mode() });
            if kind == 'd' {
                go(&p, &r, out);
            }
        }
    }
    let mut v = vec![];
    go(d, std::path::Path::new(""), &mut v);
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

/// everything but the named entries (the target and its other names) is as it was
fn untouched(before: &[Seen], after: &[Seen], targets: &[&std::ffi::OsStr]) -> Outcome {
    for b in before {
        let Some(a) = after.iter().find(|a| a.name == b.name) else { fail!("{:?} is gone", b.name) };
        if targets.iter().any(|t| *t == b.name) {
            ensure!(a.kind == b.kind && a.inode == b.inode && a.mode == b.mode, "{:?} was replaced instead of written", b.name);
            continue;
        }
        ensure!(a == b, "{:?}, which is not the target, was touched", b.name);
    }
    for a in after {
        ensure!(before.iter().any(|b| b.name == a.name) || targets.iter().any(|t| *t == a.name), "{:?} was created", a.name);
    }
    Ok(())
}

/// directory with decoys; the working directory and the temporary directory are inside while it lives
struct Site {
    dir: Scratch,
    old: Option<std::path::PathBuf>,
}

impl Site {
    fn new() -> Site {
        let dir = Scratch::new("c20");
        let _ = std::fs::create_dir(dir.0.join("tmp"));
        let _ = std::fs::create_dir(dir.0.join("sub"));
        let old = std::env::current_dir().ok();
        let _ = std::env::set_current_dir(dir.0.join("sub"));
        std::env::set_var("TMPDIR", dir.0.join("tmp"));
        Site { dir, old }
    }
}

impl Drop for Site {
    fn drop(&mut self) {
        if let Some(o) = &self.old {
            let _ = std::env::set_current_dir(o);
        }
        std::env::remove_var("TMPDIR");
    }
}

fn same_file(a: &std::path::Path, b: &std::path::Path) -> bool {
    use std::os::unix::fs::MetadataExt;
    match (std::fs::metadata(a), std::fs::metadata(b)) {
        (Ok(a), Ok(b)) => a.ino() == b.ino() && a.dev() == b.dev(),
        _ => false,
    }
}

const O_CREAT: i32 = 0o100;
const O_TRUNC: i32 = 0o1000;

fn opened_ok(p: &Plan, path: &std::path::Path, real: &std::path::Path, writes: bool) -> Outcome {
    for (name, flags) in &p.opened {
        let w = flags & 3 != 0 || flags & (O_CREAT | O_TRUNC) != 0;
        if !w {
            // other files next to the target are none of its business
            let n = std::path::Path::new(name);
            let other = std::fs::canonicalize(n).ok().map_or(false, |c| {
                c.is_file() && real.parent().map_or(false, |d| c.starts_with(d)) && !same_file(&c, real)
            });
            ensure!(!other, "opened {name:?}, the target is {path:?}");
            continue;
        }
        ensure!(writes, "opened {name:?} for writing while reading");
        ensure!(*name == path.to_string_lossy(), "opened {name:?} for writing, the target is {path:?}");
    }
    Ok(())
}

fn c20(cx: &mut Ctx) -> Outcome {
    use std::ffi::{OsStr, OsString};
    use std::os::unix::ffi::OsStringExt;
    let t = target(&mut cx.r);
    let mut bytes = t.bytes.clone();
    let mut what = String::from("conforming");
    if cx.r.chance(1, 5) {
        // often in the file type, so that the file is not one at all
        let far = if cx.r.chance(1, 3) { bytes.len().min(12) } else { bytes.len() };
        let k = cx.r.below(far);
        if cx.r.chance(1, 2) {
            bytes.truncate(k);
        } else {
            let l = cx.r.range(1, 40);
            for i in k..(k + l).min(bytes.len()) {
                bytes[i] = cx.r.u8();
            }
        }
        // what is not a supported file is not always rejected; both entry points must agree
        what = format!("damaged at {k}");
    }
    let items = gen_items(&mut cx.r, TagCfg { items: 8, values: 3, val_len: 300, budget: 3000 });
    let tag = build_tag(&items, &mut cx.r);
    let site = Site::new();
    let root = site.dir.0.clone();
    // the name of the target
    let name: OsString = match cx.r.below(8) {
        0 => OsString::from_vec(vec![b'f', 0xff, 0xfe, b'.', b'm']),
        1 => "with space \u{e9}\u{1F600}.m4a".into(),
        2 => OsString::from("n".repeat(250)),
        3 => ".hidden".into(),
        4 => "noext".into(),
        5 => (*cx.r.pick(&["f.m4a ", " f.m4a", "f.m4a.", "F.M4A", "~", "-f", "f%20.m4a", "a\nb.m4a", "a\\b.m4a", "*.m4a", "\"f\".m4a", "f.m4a\u{301}", "$HOME", "f:m4a", "#f?x"])).into(),
        _ => "f.m4a".into(),
    };
    let op = cx.r.below(3);
    // the way to the target
    let via = cx.r.below(5);
    let real = root.join(&name);
    let (path, mut names): (std::path::PathBuf, Vec<OsString>) = match via {
        0 => (std::path::PathBuf::from("..").join(&name), vec![name.clone()]),
        1 => {
            let l = root.join("link");
            std::os::unix::fs::symlink(&real, &l).map_err(|e| format!("harness: {e}"))?;
            (l, vec![name.clone()])
        }
        _ => (real.clone(), vec![name.clone()]),
    };
    // decoys with names an implementation might use
    let stem = name.to_string_lossy().into_owned();
    let decoy: &[u8] = if cx.r.chance(1, 2) && t.bytes.len() < 20_000 { &t.bytes } else { b"decoy" };
    for d in [".tmp", "~", ".bak", ".part"] {
        let mut n = name.clone();
        n.push(d);
        if n.len() < 255 {
            let _ = std::fs::write(root.join(&n), decoy);
        }
    }
    for d in ["bak", "tmp", "old", "orig", "mp4", "new"] {
        let n = real.with_extension(d);
        if n != real {
            let _ = std::fs::write(n, decoy);
        }
    }
    if stem.len() < 200 {
        let _ = std::fs::write(root.join(format!(".{stem}.tmp")), b"decoy");
        let _ = std::fs::write(root.join(format!(".{stem}")), b"decoy");
    }
    let _ = std::fs::write(root.join("tmp/x"), b"decoy");
    let _ = std::fs::write(root.join("sub/f.m4a"), &t.bytes);
    // the previous content of the target
    let missing = cx.r.chance(1, 6);
    let prev: Vec<u8> = if op == 2 {
        let d = dump(&tag)?.len();
        match cx.r.below(5) {
            0 => vec![],
            1 => cx.r.bytes(d + 1),
            2 => cx.r.bytes(d * 2 + 5000),
            3 => cx.r.bytes(d.saturating_sub(1)),
            _ => bytes.clone(),
        }
    } else {
        bytes.clone()
    };
    if !missing {
        std::fs::write(&real, &prev).map_err(|e| format!("harness: {e}"))?;
        if cx.r.chance(1, 4) {
            let mode = *cx.r.pick(&[0o600u32, 0o644, 0o755, 0o640]);
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode));
        }
        if via == 2 {
            let l = root.join("hard");
            if std::fs::hard_link(&real, &l).is_ok() {
                names.push("hard".into());
            }
        }
        // an old modification time, so that any modification shows
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&real) {
            let _ = f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000));
        }
    }
    let opn = ["read_from_path", "write_to_path", "dump_to_path"][op];
    cx.note = format!("{opn} on {path:?} ({what}, previously {} bytes, missing: {missing})\n{}\ntag: {}", prev.len(), t.desc, summary(&items));
    cx.artifact("previous content", &prev);
    let before = snapshot(&root);
    let fds = open_fds();
    // sometimes with failing system calls
    let fault = cx.r.chance(1, 4);
    let mut plan = Plan::count();
    if fault {
        let far = if cx.r.chance(1, 2) { 6 } else { 60 };
        let at = cx.r.below(far) as u64;
        plan = Plan::fail(READ | WRITE | SEEK | TRUNC | OPEN, at, *cx.r.pick(&[5, 28, 13]), cx.r.chance(1, 2));
    }
    plan.log_opens = true;
    let (res, p) = with_plan(plan, || {
        call(opn, || match op {
            0 => Tag::read_from_path(&path).map(Some),
            1 => tag.write_to_path(&path).map(|_| None),
            _ => tag.dump_to_path(&path).map(|_| None),
        })
    });
    let res = res?;
    let fds2 = open_fds();
    ensure!(fds == fds2, "{opn} left descriptors open: {fds2:?}, before {fds:?}");
    let after = snapshot(&root);
    opened_ok(&p, &path, &real, op != 0)?;
    let os: Vec<&OsStr> = names.iter().map(|n| n.as_os_str()).collect();
    if fault && p.fired > 0 {
        ensure!(res.is_err(), "{opn} reported success although a system call failed");
        untouched(&before, &after, if op == 0 { &[] } else { &os })?;
        if op == 1 && p.mods == 0 {
            let now = std::fs::read(&real).ok();
            ensure!(now == (!missing).then(|| prev.clone()), "a failed write changed the target without having modified it");
        }
        cx.count("operations with failing system calls", 1);
        cx.eval(fnv(op as u64, &prev) ^ items_hash(&items), true);
        return Ok(());
    }
    match op {
        0 | 1 if missing => {
            match &res {
                Err(e) if kind(e) == "Io(NotFound)" => {}
                Err(e) => fail!("{opn} on a missing path: {}", kind(e)),
                Ok(_) => fail!("{opn} on a missing path succeeded"),
            }
            untouched(&before, &after, &[])?;
            ensure!(before == after, "{opn} on a missing path changed the directory");
        }
        0 => {
            untouched(&before, &after, &[])?;
            let via_handle = call("read_from", || Tag::read_from(&mut File::open(&real).unwrap()))?;
            let via_memory = read(&prev)?;
            let n = |r: mp4ameta::Result<Tag>| r.map_err(|e| kind(&e));
            let (a, b, c) = (n(res.map(|t| t.unwrap())), n(via_handle), n(via_memory));
            ensure!(a == b && b == c, "reading the path, the opened file and its content give different results: {:.120} {:.120} {:.120}",
                format!("{a:?}"), format!("{b:?}"), format!("{c:?}"));
        }
        1 => {
            untouched(&before, &after, &os)?;
            let (r2, want) = write(&tag, &prev)?;
            let (a, b) = (res.map(|_| ()).map_err(|e| kind(&e)), r2.map_err(|e| kind(&e)));
            ensure!(a == b, "writing to the path returned {a:?}, to the opened file {b:?}");
            let now = std::fs::read(&real).map_err(|e| format!("harness: {e}"))?;
            if let Some(d) = first_diff(&want, &now) {
                fail!("writing to the path and to the opened file differ: {d}");
            }
            // the same on a real file handle
            std::fs::write(&real, &prev).map_err(|e| format!("harness: {e}"))?;
            let f = std::fs::OpenOptions::new().read(true).write(true).open(&real).map_err(|e| format!("harness: {e}"))?;
            let fds = open_fds();
            let r3 = write_file(&tag, &f)?.map_err(|e| kind(&e));
            ensure!(open_fds() == fds, "write_to changed the open descriptors");
            drop(f);
            ensure!(r3 == a, "writing to the handle returned {r3:?}, to the path {a:?}");
            let now = std::fs::read(&real).map_err(|e| format!("harness: {e}"))?;
            ensure!(now == want, "writing to a handle of a file on disk differs");
            if a.is_ok() {
                for n in &names {
                    let x = std::fs::read(root.join(n)).unwrap_or_default();
                    ensure!(x == want, "another name of the target has other content");
                }
            }
        }
        _ => {
            untouched(&before, &after, &os)?;
            res.map_err(|e| format!("dumping to {path:?} failed: {e}"))?;
            let want = dump(&tag)?;
            for n in &names {
                let now = std::fs::read(root.join(n)).map_err(|e| format!("dumped to {path:?}, then reading {n:?}: {e}"))?;
                if let Some(d) = first_diff(&want, &now) {
                    fail!("the file dumped to (of {} bytes before) is not the dump: {d}", prev.len());
                }
            }
        }
    }
    if cx.r.chance(1, 4) {
        let b4 = snapshot(&root);
        let p = root.join("no such directory").join(&name);
        for (n, r) in [
            ("dump_to_path", call("dump_to_path", || tag.dump_to_path(&p))?),
            ("write_to_path", call("write_to_path", || tag.write_to_path(&p))?),
            ("read_from_path", call("read_from_path", || Tag::read_from_path(&p).map(|_| ()))?),
        ] {
            match r {
                Err(e) => ensure!(kind(&e) == "Io(NotFound)", "{n} in a missing directory: {}", kind(&e)),
                Ok(()) => fail!("{n} in a missing directory succeeded"),
            }
        }
        ensure!(b4 == snapshot(&root), "operations in a missing directory changed something");
        cx.count("operations in a missing directory", 3);
    }
    ensure!(open_fds() == fds, "descriptors were left open: {:?}, before {fds:?}", open_fds());
    cx.count(opn, 1);
    cx.count(if missing { "missing targets" } else { "existing targets" }, 1);
    cx.count("directory entries compared", after.len() as u64);
    cx.eval(fnv(op as u64 | (via as u64) << 4 | (missing as u64) << 8, &prev) ^ items_hash(&items), true);
    cx.sample(|| format!("{opn} on {:.60} with {} bytes before ({what})", format!("{path:?}"), prev.len()));
    Ok(())
}
