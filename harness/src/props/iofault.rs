//! C07 (I/O errors), C08 (chunking of I/O).

use super::common::*;
use crate::io::{with_plan, Chunk, Fault, Injected, Plan, EIO, ENOSPC, OPEN, READ, SEEK, TRUNC, WRITE};
use std::io::{BufReader, ErrorKind as K};

// ------------------------------------------------------------------------------------------ C07

pub const C07: Prop = Prop {
    id: "C07",
    level: "fault_enumeration",
    rule: "distinct (operation, content, failing I/O operation, transient or persistent)",
    assumptions: &[
        "a fault is an operation returning an error other than Interrupted, or a write accepting 0 bytes",
        "position queries (lseek(0, CUR)) made by std as a size hint are not failed",
    ],
    quick: 16000,
    thorough: 720000,
    single: false,
    exhaustive: false,
    case: c07,
};

const KINDS: &[K] = &[
    K::Other,
    K::PermissionDenied,
    K::UnexpectedEof,
    K::InvalidData,
    K::WriteZero,
    K::BrokenPipe,
    K::WouldBlock,
    K::TimedOut,
    K::NotFound,
    K::InvalidInput,
];

const ERRNOS: &[i32] = &[EIO, ENOSPC, EIO, ENOSPC, 13, 116, 6, 27, 122, 22, 11, 1, 9, 12, 28, 29, 30, 32, 38, 95, 110];

fn io_of(e: &Error) -> Option<&std::io::Error> {
    match &e.kind {
        ErrorKind::Io(e) => Some(e),
        _ => None,
    }
}

/// the operations to fail: all of them, or a sample when there are very many
fn picks(r: &mut Rng, n: u64, max: u64) -> Vec<u64> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..max / 4).collect();
    v.extend(n - max / 4..n);
    for _ in 0..max / 2 {
        v.push(r.below(n as usize) as u64);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn must_carry<T>(res: mp4ameta::Result<T>, token: u64, kind: K, what: &str) -> Outcome {
    match res {
        Ok(_) => fail!("{what}: success was reported"),
        Err(e) => {
            let Some(i) = io_of(&e) else { fail!("{what}: reported as {}", kind_of(&e)) };
            ensure!(i.kind() == kind, "{what}: reported as {:?} instead of {:?}", i.kind(), kind);
            let t = i.get_ref().and_then(|x| x.downcast_ref::<Injected>());
            ensure!(t.map(|t| t.0) == Some(token), "{what}: the error reported is not the original one: {e:?}");
            Ok(())
        }
    }
}

fn kind_of(e: &Error) -> String {
    super::common::kind(e)
}

fn must_errno<T>(res: mp4ameta::Result<T>, errno: i32, what: &str) -> Outcome {
    match res {
        Ok(_) => fail!("{what}: success was reported"),
        Err(e) => {
            let Some(i) = io_of(&e) else { fail!("{what}: reported as {}", kind_of(&e)) };
            ensure!(i.raw_os_error() == Some(errno), "{what}: the error reported is {:?}, not errno {errno}", i);
            Ok(())
        }
    }
}

fn some_items(r: &mut Rng) -> Items {
    match r.below(12) {
        0 => gen_items(r, MEDIUM),
        1 => vec![],
        _ => gen_items(r, TagCfg { items: 6, values: 3, val_len: 120, budget: 600 }),
    }
}

fn c07(cx: &mut Ctx) -> Outcome {
    match cx.idx % 8 {
        0 | 1 => c07_read(cx),
        2 => c07_dump(cx),
        3 | 4 | 5 => c07_file(cx),
        6 => c07_path(cx),
        _ => c07_handles(cx),
    }
}

fn c07_read(cx: &mut Ctx) -> Outcome {
    let t = target(&mut cx.r);
    let b = &t.bytes[..];
    cx.note = t.desc.clone();
    cx.artifact("file", b);
    let buffered = cx.r.chance(1, 3);
    let cap = 1 + cx.r.below(300);
    let chunk = *cx.r.pick(&[Chunk::Whole, Chunk::Whole, Chunk::Random, Chunk::One, Chunk::Mixed]);
    let seed = cx.r.u64();
    let mut run = |f: Option<Fault>| -> Res<(mp4ameta::Result<Tag>, u64, u64)> {
        let mut s = Stream::new(Cursor::new(b));
        s.fault = f;
        s.chunk = chunk;
        s.rng = Rng::new(seed);
        let res = if buffered {
            let mut br = BufReader::with_capacity(cap, &mut s);
            call("read_from", || Tag::read_from(&mut br))?
        } else {
            call("read_from", || Tag::read_from(&mut s))?
        };
        Ok((res, s.ops, s.fired))
    };
    let (clean, n, _) = run(None)?;
    clean.map_err(|e| format!("reading a conforming file failed: {e}"))?;
    for at in picks(&mut cx.r, n, 300) {
        let token = cx.r.u64();
        let kind = *cx.r.pick(KINDS);
        let persistent = cx.r.chance(1, 2);
        let (res, _, fired) = run(Some(Fault { at, persistent, kind, token }))?;
        if fired == 0 {
            continue;
        }
        let what = format!("reader operation {at} of {n} failed with {kind:?}{}", if buffered { " below a BufReader" } else { "" });
        must_carry(res, token, kind, &what)?;
        cx.count("failing reader operations", 1);
        cx.eval(fnv(at << 1 | persistent as u64, b), true);
    }
    cx.max("reader operations of one read", n);
    cx.sample(|| format!("read, each of {n} operations failing: {}", t.desc));
    Ok(())
}

fn c07_dump(cx: &mut Ctx) -> Outcome {
    let items = some_items(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    let want = dump(&tag)?;
    cx.note = summary(&items);
    let chunk = *cx.r.pick(&[Chunk::Whole, Chunk::Whole, Chunk::Random, Chunk::Interrupted]);
    let seed = cx.r.u64();
    let make = || {
        let mut s = Stream::new(Vec::new());
        s.chunk = chunk;
        s.rng = Rng::new(seed);
        s
    };
    let mut s = make();
    call("dump_to", || tag.dump_to(&mut s))?.map_err(|e| format!("dumping failed: {e}"))?;
    let n = s.ops;
    for at in picks(&mut cx.r, n, 200) {
        let token = cx.r.u64();
        let kind = *cx.r.pick(KINDS);
        let persistent = cx.r.chance(1, 2);
        let mut s = make();
        s.fault = Some(Fault { at, persistent, kind, token });
        let res = call("dump_to", || tag.dump_to(&mut s))?;
        if s.fired > 0 {
            must_carry(res, token, kind, &format!("writer operation {at} of {n} failed with {kind:?}"))?;
            cx.count("failing writer operations of dumps", 1);
            cx.eval(fnv(at << 1 | persistent as u64, &want), true);
        }
        // a full sink accepts no more bytes
        let mut s = make();
        s.zero_at = Some(at);
        let res = call("dump_to", || tag.dump_to(&mut s))?;
        if s.fired > 0 {
            match res {
                Ok(()) => fail!("the writer accepted no more bytes from operation {at} of {n} on, but success was reported"),
                Err(e) => ensure!(io_of(&e).is_some(), "a write of 0 bytes is reported as {}", kind_of(&e)),
            }
            cx.count("writers accepting no more bytes", 1);
        }
    }
    cx.sample(|| format!("dump, each of {n} operations failing: {}", summary(&items)));
    Ok(())
}

/// write_to and read_from on a file whose system calls fail
fn c07_file(cx: &mut Ctx) -> Outcome {
    let t = target(&mut cx.r);
    let b = &t.bytes[..];
    let items = some_items(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    cx.note = format!("{}\ntag: {}", t.desc, summary(&items));
    cx.artifact("file", b);
    let reading = cx.r.chance(1, 4);
    let chunk = if cx.r.chance(1, 3) { Some(cx.r.u64() | 1) } else { None };
    let run = |p: Plan| -> Res<(mp4ameta::Result<()>, Plan)> {
        let f = mio::memfile_with(b);
        let p = Plan { chunk, ..p };
        let (res, p) = with_plan(p, || {
            if reading {
                call("read_from", || Tag::read_from(&mut &f).map(|_| ()))
            } else {
                call("write_to", || tag.write_to(&f))
            }
        });
        Ok((res?, p))
    };
    let op = if reading { "reading" } else { "writing" };
    let (clean, c) = run(Plan::count())?;
    clean.map_err(|e| format!("{op} failed: {e}"))?;
    let mask = READ | WRITE | SEEK | TRUNC | mio::SYNC;
    let n = c.reads + c.writes + c.seeks + c.truncs + c.others;
    for at in picks(&mut cx.r, n, 260) {
        let errno = *cx.r.pick(ERRNOS);
        let persistent = cx.r.chance(1, 2);
        let (res, p) = run(Plan::fail(mask, at, errno, persistent))?;
        if p.fired == 0 {
            continue;
        }
        let cl = match p.fired_class {
            READ => "read",
            WRITE => "write",
            SEEK => "seek",
            TRUNC => "resize",
            _ => "sync",
        };
        must_errno(res, errno, &format!("{op} to a file: system call {at} of {n} (a {cl}) failed with errno {errno}"))?;
        cx.count(&format!("{op}: failing {cl}s"), 1);
        cx.eval(fnv(at << 2 | (persistent as u64) << 1 | reading as u64, b) ^ items_hash(&items), true);
    }
    cx.max(&format!("system calls of one {op}"), n);
    cx.sample(|| format!("{op}, each of {n} system calls failing: {}", t.desc));
    Ok(())
}

/// the path entry points, including the open
fn c07_path(cx: &mut Ctx) -> Outcome {
    let t = target(&mut cx.r);
    let items = some_items(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    let dir = Scratch::new("c07");
    let file = dir.0.join("f.m4a");
    cx.note = format!("{}\ntag: {}", t.desc, summary(&items));
    cx.artifact("file", &t.bytes);
    let which = cx.r.below(3);
    let name = ["read_from_path", "write_to_path", "dump_to_path"][which];
    let run = |p: Plan| -> Res<(mp4ameta::Result<()>, Plan)> {
        std::fs::write(&file, &t.bytes).map_err(|e| format!("harness: {e}"))?;
        let (res, p) = with_plan(p, || {
            call(name, || match which {
                0 => Tag::read_from_path(&file).map(|_| ()),
                1 => tag.write_to_path(&file),
                _ => tag.dump_to_path(&file),
            })
        });
        Ok((res?, p))
    };
    let (clean, c) = run(Plan::count())?;
    clean.map_err(|e| format!("{name} failed: {e}"))?;
    let mask = READ | WRITE | SEEK | TRUNC | OPEN | mio::SYNC;
    let n = c.reads + c.writes + c.seeks + c.truncs + c.opens + c.others;
    for at in picks(&mut cx.r, n, 120) {
        let errno = *cx.r.pick(ERRNOS);
        let persistent = cx.r.chance(1, 2);
        let (res, p) = run(Plan::fail(mask, at, errno, persistent))?;
        if p.fired == 0 {
            continue;
        }
        must_errno(res, errno, &format!("{name}: system call {at} of {n} failed with errno {errno}"))?;
        cx.count(if p.fired_class == OPEN { "failing opens" } else { "failing system calls of path operations" }, 1);
        cx.eval(fnv(at << 3 | (which as u64) << 1 | persistent as u64, &t.bytes) ^ items_hash(&items), true);
    }
    Ok(())
}

/// real failures: handles and paths that cannot do what is asked
fn c07_handles(cx: &mut Ctx) -> Outcome {
    use std::fs::OpenOptions;
    let t = target(&mut cx.r);
    let mut items = some_items(&mut cx.r);
    items.push((Id::F(*b"mon\0"), vec![V::Utf8("x".into())]));
    let tag = build_tag(&items, &mut cx.r);
    let dir = Scratch::new("c07");
    let file = dir.0.join("f.m4a");
    std::fs::write(&file, &t.bytes).map_err(|e| format!("harness: {e}"))?;
    let io = |what: &str, r: mp4ameta::Result<()>, errno: &[i32]| -> Outcome {
        match r {
            Ok(()) => fail!("{what} reported success"),
            Err(e) => {
                let n = io_of(&e).and_then(|e| e.raw_os_error());
                ensure!(n.map_or(false, |n| errno.contains(&n)), "{what}: reported as {e:?}, want errno {errno:?}");
                Ok(())
            }
        }
    };
    let mut n = 0;
    {
        let f = File::open(&file).unwrap();
        io("writing to a read-only handle", write_file(&tag, &f)?, &[9, 22])?;
        let f = OpenOptions::new().write(true).open(&file).unwrap();
        io("reading a write-only handle", call("read_from", || Tag::read_from(&mut &f).map(|_| ()))?, &[9])?;
        io("writing to a write-only handle", write_file(&tag, &f)?, &[9, 22])?;
        let f = File::open(&file).unwrap();
        io("dumping to a read-only handle", call("dump_to", || tag.dump_to(&mut &f))?, &[9])?;
        n += 4;
    }
    let now = std::fs::read(&file).unwrap_or_default();
    ensure!(now == t.bytes, "a failed operation changed the file");
    let missing = dir.0.join("missing/f.m4a");
    io("reading a missing path", call("read_from_path", || Tag::read_from_path(&missing).map(|_| ()))?, &[2])?;
    io("writing to a missing path", call("write_to_path", || tag.write_to_path(&missing))?, &[2])?;
    io("dumping to a missing directory", call("dump_to_path", || tag.dump_to_path(&missing))?, &[2])?;
    io("reading a directory", call("read_from_path", || Tag::read_from_path(&dir.0).map(|_| ()))?, &[21])?;
    io("writing to a directory", call("write_to_path", || tag.write_to_path(&dir.0))?, &[21])?;
    io("dumping to a directory", call("dump_to_path", || tag.dump_to_path(&dir.0))?, &[21])?;
    io("a path below a file", call("read_from_path", || Tag::read_from_path(file.join("x")).map(|_| ()))?, &[20])?;
    n += 7;
    if std::path::Path::new("/dev/full").exists() {
        io("dumping to a full device", call("dump_to_path", || tag.dump_to_path("/dev/full"))?, &[ENOSPC])?;
        n += 1;
    }
    {
        // a pipe: reads cannot seek, writes to a closed pipe fail
        let (r, w) = std::io::pipe().map_err(|e| format!("harness: {e}"))?;
        drop(r);
        let f = File::from(std::os::fd::OwnedFd::from(w));
        io("dumping to a closed pipe", call("dump_to", || tag.dump_to(&mut &f))?, &[32])?;
        io("writing to a pipe", write_file(&tag, &f)?, &[29, 9, 32])?;
        n += 2;
    }
    cx.count("operations on unsuitable handles and paths", n);
    cx.eval(fnv(0, &t.bytes) ^ items_hash(&items), true);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08

pub const C08: Prop = Prop {
    id: "C08",
    level: "exploration",
    rule: "distinct (content, way of delivering it)",
    assumptions: &[
        "contents that are not conforming files are truncations and changes of 32-bit fields of conforming ones",
        "interruption is injected at reads and writes, at most a few times in a row",
    ],
    quick: 180000,
    thorough: 4800000,
    single: false,
    exhaustive: false,
    case: c08,
};

type R2 = Result<Tag, String>;

fn norm(r: mp4ameta::Result<Tag>) -> R2 {
    r.map_err(|e| kind_of(&e))
}

fn same(a: &R2, b: &R2, what: &str) -> Outcome {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if x != y {
                let d = diff(&tag_items(y), &tag_items(x)).unwrap_or_else(|| "audio information or file type".into());
                fail!("{what}: a different tag is read: {d}");
            }
            Ok(())
        }
        (Err(x), Err(y)) if x == y => Ok(()),
        _ => fail!("{what}: {} instead of {}", show(b), show(a)),
    }
}

fn show(r: &R2) -> String {
    match r {
        Ok(t) => format!("Ok({} items)", t.data().count()),
        Err(e) => format!("Err({e})"),
    }
}

/// content to read: conforming, an example file, or cut or changed in 32-bit fields
fn c08_content(r: &mut Rng) -> (Vec<u8>, String) {
    let t = target(r);
    let mut b = t.bytes;
    let mut what = String::from("conforming");
    if r.chance(1, 2) {
        match r.below(3) {
            0 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
                what = format!("cut at {k}");
            }
            1 => {
                if let Some(s) = &t.spec {
                    let e = emit(&s.top);
                    let fs: Vec<&Field> = e.fields.iter().filter(|f| f.width <= 4).collect();
                    if !fs.is_empty() {
                        let f = r.pick(&fs);
                        let v = *r.pick(&[0u64, 1, 2, 7, 8, 9, 12, 16, 0xff, 0xffff, 0xffff_ffff, 0x7fff_ffff]);
                        let v = v.to_be_bytes();
                        b[f.pos..f.pos + f.width].copy_from_slice(&v[8 - f.width..]);
                        what = format!("{} {:?} changed", f.path, f.kind);
                    }
                }
            }
            _ => {
                for _ in 0..r.range(1, 4) {
                    if !b.is_empty() {
                        let k = r.below(b.len());
                        b[k] = r.u8();
                    }
                }
                what = "bytes changed".into();
            }
        }
    }
    // extended sizes beyond what a stream can address are not used
    let far = b.windows(16).any(|w| w[..4] == [0, 0, 0, 1] && (w[8] != 0 || w[9] != 0 || w[10] != 0));
    if far && what != "conforming" {
        return c08_content(r);
    }
    (b, format!("{what}: {}", t.desc))
}

fn c08(cx: &mut Ctx) -> Outcome {
    match cx.idx % 5 {
        0 | 1 | 2 => c08_read(cx),
        3 => c08_write(cx),
        _ => c08_dump(cx),
    }
}

fn c08_read(cx: &mut Ctx) -> Outcome {
    let (b, desc) = c08_content(&mut cx.r);
    cx.note = desc.clone();
    cx.artifact("content", &b);
    let want = norm(read(&b)?);
    let h = fnv(0, &b);
    let mut n = 0u64;
    for (k, chunk) in [Chunk::One, Chunk::Random, Chunk::Interrupted, Chunk::Mixed].into_iter().enumerate() {
        let mut s = Stream::new(Cursor::new(&b[..]));
        s.chunk = chunk;
        s.rng = cx.r.fork();
        let got = norm(call("read_from", || Tag::read_from(&mut s))?);
        same(&want, &got, &format!("delivered as {chunk:?}"))?;
        cx.count("interrupted reads", s.interruptions);
        cx.count("reads delivered in pieces", s.reads);
        cx.eval(h ^ k as u64, true);
    }
    // buffered
    for k in 0..3u64 {
        let cap = match k {
            0 => 1 + cx.r.below(9),
            1 => 1 + cx.r.below(200),
            _ => 8192,
        };
        let mut s = Stream::new(Cursor::new(&b[..]));
        if cx.r.chance(1, 2) {
            s.chunk = Chunk::Mixed;
            s.rng = cx.r.fork();
        }
        let mut br = BufReader::with_capacity(cap, s);
        let got = norm(call("read_from", || Tag::read_from(&mut br))?);
        same(&want, &got, &format!("through a buffer of {cap} bytes"))?;
        n += 1;
    }
    // at the current position of a stream
    for k in 0..3u64 {
        let l = match k {
            0 => cx.r.range(1, 16),
            1 => cx.r.range(1, 5_000),
            _ => b.len().min(70_000),
        };
        let mut pre = if k == 2 { b[..l].to_vec() } else { cx.r.bytes(l) };
        let at = pre.len() as u64;
        pre.extend_from_slice(&b);
        let mut c = Cursor::new(&pre[..]);
        c.set_position(at);
        let got = if cx.r.chance(1, 2) {
            norm(call("read_from", || Tag::read_from(&mut c))?)
        } else {
            let mut br = BufReader::with_capacity(1 + cx.r.below(64), c);
            norm(call("read_from", || Tag::read_from(&mut br))?)
        };
        same(&want, &got, &format!("starting at position {at} of the stream"))?;
        n += 1;
        if k == 1 {
            let f = mio::memfile_with(&pre);
            (&f).seek(SeekFrom::Start(at)).unwrap();
            let got = norm(call("read_from", || Tag::read_from(&mut &f))?);
            same(&want, &got, &format!("starting at position {at} of a file"))?;
            n += 1;
        }
    }
    // far into a long stream
    for _ in 0..2 {
        let r = &mut cx.r;
        let base = match r.below(4) {
            0 => (1u64 << *r.pick(&[15u32, 16, 24, 31, 32, 33, 40, 53, 62])) - r.below(3000) as u64,
            1 => (1u64 << r.range(12, 62)) + r.below(1 << 20) as u64,
            2 => (1u64 << 32) - r.below(b.len() + 2) as u64,
            _ => (1u64 << 31) - r.below(b.len() + 2) as u64,
        };
        let mut s = mio::Far::new(&b, base);
        let got = if r.chance(2, 3) {
            norm(call("read_from", || Tag::read_from(&mut s))?)
        } else {
            let mut br = BufReader::with_capacity(1 + r.below(200), s);
            norm(call("read_from", || Tag::read_from(&mut br))?)
        };
        same(&want, &got, &format!("starting at position {base} of the stream"))?;
        cx.max("start position in a stream", base);
        n += 1;
    }
    if cx.idx % 640 == 2 {
        // the same in a sparse file
        let at = (1u64 << 32) + cx.r.below(5000) as u64 - 2500;
        let f = mio::memfile();
        std::os::unix::fs::FileExt::write_all_at(&f, &b, at).map_err(|e| format!("harness: {e}"))?;
        (&f).seek(SeekFrom::Start(at)).unwrap();
        let got = norm(call("read_from", || Tag::read_from(&mut &f))?);
        same(&want, &got, &format!("starting at position {at} of a file"))?;
        n += 1;
    }
    // a file
    let f = mio::memfile_with(&b);
    for k in 0..3u64 {
        (&f).seek(SeekFrom::Start(0)).unwrap();
        let plan = match k {
            0 => Plan::count(),
            _ => Plan::chunked(cx.r.u64()),
        };
        let (got, p) = with_plan(plan, || {
            if k == 2 {
                call("read_from", || Tag::read_from(&mut BufReader::new(&f)))
            } else {
                call("read_from", || Tag::read_from(&mut &f))
            }
        });
        same(&want, &norm(got?), if k == 0 { "from a file" } else { "from a file with short and interrupted reads" })?;
        ensure!(p.writes + p.truncs == 0, "reading made {} writes and {} resizes", p.writes, p.truncs);
        cx.count("interrupted read calls", p.interruptions);
        cx.count("short read calls", p.shorts);
        n += 1;
    }
    ensure!(mio::contents(&f) == b, "reading changed the file");
    // a path
    if cx.r.chance(1, 8) {
        let dir = Scratch::new("c08");
        let p = dir.0.join("f.m4a");
        std::fs::write(&p, &b).map_err(|e| format!("harness: {e}"))?;
        let plan = if cx.r.chance(1, 2) { Plan::count() } else { Plan::chunked(cx.r.u64()) };
        let (got, pl) = with_plan(plan, || call("read_from_path", || Tag::read_from_path(&p)));
        same(&want, &norm(got?), "from a path")?;
        ensure!(pl.writes + pl.truncs == 0, "reading a path made {} writes and {} resizes", pl.writes, pl.truncs);
        ensure!(std::fs::read(&p).ok().as_deref() == Some(&b[..]), "reading a path changed the file");
        n += 1;
    }
    cx.count(if want.is_ok() { "contents read as a tag" } else { "contents rejected" }, 1);
    cx.count("other deliveries compared", n);
    cx.evaluations += n;
    cx.sample(|| format!("{desc} -> {}", show(&want)));
    Ok(())
}

fn c08_write(cx: &mut Ctx) -> Outcome {
    let (b, desc) = if cx.r.chance(3, 4) {
        let t = target(&mut cx.r);
        (t.bytes, t.desc)
    } else {
        c08_content(&mut cx.r)
    };
    let items = some_items(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    cx.note = format!("{desc}\ntag: {}", summary(&items));
    cx.artifact("file", &b);
    let (res, want) = write(&tag, &b)?;
    let want_r = res.map_err(|e| kind_of(&e));
    for k in 0..4u64 {
        let dir;
        let f;
        let path;
        let onpath = k == 3 && cx.r.chance(1, 8);
        if onpath {
            dir = Scratch::new("c08");
            path = dir.0.join("f.m4a");
            std::fs::write(&path, &b).map_err(|e| format!("harness: {e}"))?;
            f = File::open(&path).unwrap();
        } else {
            path = Default::default();
            f = mio::memfile_with(&b);
        }
        let (got, p) = with_plan(Plan::chunked(cx.r.u64()), || {
            if onpath {
                call("write_to_path", || tag.write_to_path(&path))
            } else {
                call("write_to", || tag.write_to(&f))
            }
        });
        let got = got?.map_err(|e| kind_of(&e));
        ensure!(got == want_r, "under short and interrupted I/O the write returned {got:?} instead of {want_r:?}");
        let now = mio::contents(&f);
        if let Some(d) = first_diff(&want, &now) {
            cx.artifact("written", &now);
            fail!("under short and interrupted I/O other bytes are written: {d}");
        }
        cx.count("writes compared", 1);
        cx.count("interrupted calls of writes", p.interruptions);
        cx.count("short calls of writes", p.shorts);
        cx.eval(fnv(k + 100, &b) ^ items_hash(&items), true);
    }
    Ok(())
}

fn c08_dump(cx: &mut Ctx) -> Outcome {
    let items = some_items(&mut cx.r);
    let tag = build_tag(&items, &mut cx.r);
    cx.note = summary(&items);
    let want = dump(&tag)?;
    for (k, chunk) in [Chunk::One, Chunk::Random, Chunk::Interrupted, Chunk::Mixed].into_iter().enumerate() {
        let mut s = Stream::new(Vec::new());
        s.chunk = chunk;
        s.rng = cx.r.fork();
        call("dump_to", || tag.dump_to(&mut s))?.map_err(|e| format!("dumping as {chunk:?} failed: {e}"))?;
        if let Some(d) = first_diff(&want, &s.inner) {
            fail!("dumped differently to a writer taking {chunk:?}: {d}");
        }
        cx.count("dumps compared", 1);
        cx.count("interrupted dump writes", s.interruptions);
        cx.eval(items_hash(&items) ^ k as u64, !items.is_empty());
    }
    let f = mio::memfile();
    let (r, p) = with_plan(Plan::chunked(cx.r.u64()), || call("dump_to", || tag.dump_to(&mut &f)));
    r?.map_err(|e| format!("dumping under short and interrupted writes failed: {e}"))?;
    if let Some(d) = first_diff(&want, &mio::contents(&f)) {
        fail!("dumped differently under short and interrupted write calls: {d}");
    }
    cx.count("short dump write calls", p.shorts);
    // a dump appends at the current position of the writer
    let pre = cx.r.range(0, 40);
    let mut v = vec![0xee; pre];
    call("dump_to", || tag.dump_to(&mut v))?.map_err(|e| format!("dumping failed: {e}"))?;
    ensure!(v[..pre].iter().all(|x| *x == 0xee) && v[pre..] == want[..], "a dump to a non-empty writer differs");
    Ok(())
}
