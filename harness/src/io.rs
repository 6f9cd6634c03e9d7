//! I/O monitors: an instrumented reader/writer, and interposition of the C library's file calls
//! (defined in this executable, so that std's File uses them) with per-thread fault plans.

use crate::rng::Rng;
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::fs::File;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;

// ---------------------------------------------------------------- instrumented streams

#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// number of the operation that fails
    pub at: u64,
    pub persistent: bool,
    pub kind: io::ErrorKind,
    pub token: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Whole,
    One,
    Random,
    Interrupted,
    Mixed,
}

pub struct Stream<T> {
    pub inner: T,
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub writes: u64,
    pub bytes: u64,
    pub limit: u64,
    pub overrun: bool,
    pub fault: Option<Fault>,
    pub fired: u64,
    pub chunk: Chunk,
    pub rng: Rng,
    /// a write of 0 bytes at this operation
    pub zero_at: Option<u64>,
    pub flushes: u64,
    pub interruptions: u64,
    streak: u32,
}

impl<T> Stream<T> {
    pub fn new(inner: T) -> Self {
        Stream {
            inner,
            ops: 0,
            reads: 0,
            seeks: 0,
            writes: 0,
            bytes: 0,
            limit: u64::MAX,
            overrun: false,
            fault: None,
            fired: 0,
            chunk: Chunk::Whole,
            rng: Rng::new(1),
            zero_at: None,
            flushes: 0,
            interruptions: 0,
            streak: 0,
        }
    }
    fn step(&mut self) -> io::Result<u64> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > self.limit {
            self.overrun = true;
            return Err(io::Error::new(io::ErrorKind::Other, "operation limit"));
        }
        if let Some(f) = self.fault {
            if k == f.at || (f.persistent && k > f.at) {
                self.fired += 1;
                return Err(io::Error::new(f.kind, Injected(f.token)));
            }
        }
        Ok(k)
    }
    fn portion(&mut self, n: usize) -> io::Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        let interrupted = match self.chunk {
            Chunk::Interrupted => self.streak == 0,
            Chunk::Mixed => self.streak < 4 && self.rng.chance(1, 3),
            _ => false,
        };
        if interrupted {
            self.streak += 1;
            self.interruptions += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.streak = 0;
        Ok(match self.chunk {
            Chunk::One => 1,
            Chunk::Random | Chunk::Mixed => {
                let k = 1 + (1 << self.rng.below(14));
                self.rng.range(1, n.min(k))
            },
            _ => n,
        })
    }
}

impl<T: Read> Read for Stream<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        self.reads += 1;
        let n = self.portion(buf.len())?;
        let k = self.inner.read(&mut buf[..n])?;
        self.bytes += k as u64;
        Ok(k)
    }
}

impl<T: Seek> Seek for Stream<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step()?;
        self.seeks += 1;
        self.inner.seek(p)
    }
}

impl<T: Write> Write for Stream<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.step()?;
        self.writes += 1;
        if self.zero_at.map_or(false, |z| k >= z) && !buf.is_empty() {
            self.fired += 1;
            return Ok(0);
        }
        let n = self.portion(buf.len())?;
        let k = self.inner.write(&buf[..n])?;
        self.bytes += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()?;
        self.flushes += 1;
        self.inner.flush()
    }
}

// ---------------------------------------------------------------- system call interposition

pub const READ: u32 = 1;
pub const WRITE: u32 = 2;
pub const SEEK: u32 = 4;
pub const TRUNC: u32 = 8;
pub const OPEN: u32 = 16;
pub const SYNC: u32 = 32;
pub const META: u32 = 64;

pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const ENOSPC: c_int = 28;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub armed: bool,
    /// operations seen, by order
    pub ops: u64,
    /// which classes count as operations that may fail
    pub mask: u32,
    pub fail_at: Option<u64>,
    pub errno: c_int,
    pub persistent: bool,
    pub fired: u64,
    /// class of the operation that failed
    pub fired_class: u32,
    /// after how many modifications (writes, resizes)
    pub fired_after_mods: u64,
    pub mods: u64,
    pub chunk: Option<u64>,
    pub interruptions: u64,
    pub shorts: u64,
    pub limit: u64,
    pub overrun: bool,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub truncs: u64,
    pub opens: u64,
    pub others: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub log_opens: bool,
    pub opened: Vec<(String, c_int)>,
    pub yields: Option<u64>,
    pub yielded: u64,
}

thread_local! {
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan {
        armed: false, ops: 0, mask: 0, fail_at: None, errno: 0, persistent: false, fired: 0, fired_class: 0,
        fired_after_mods: 0, mods: 0, chunk: None, interruptions: 0, shorts: 0, limit: u64::MAX, overrun: false,
        reads: 0, writes: 0, seeks: 0, truncs: 0, opens: 0, others: 0, bytes_read: 0, bytes_written: 0,
        log_opens: false, opened: Vec::new(), yields: None, yielded: 0,
    }) };
}

impl Plan {
    pub fn count() -> Plan {
        Plan { limit: u64::MAX, ..Default::default() }
    }
    pub fn fail(mask: u32, at: u64, errno: c_int, persistent: bool) -> Plan {
        Plan { mask, fail_at: Some(at), errno, persistent, limit: u64::MAX, ..Default::default() }
    }
    pub fn chunked(seed: u64) -> Plan {
        Plan { chunk: Some(seed | 1), limit: u64::MAX, ..Default::default() }
    }
}

/// Runs `f` with the plan active on this thread and returns what was observed.
pub fn with_plan<T>(mut p: Plan, f: impl FnOnce() -> T) -> (T, Plan) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PLAN.with(|c| c.borrow_mut().armed = false);
        }
    }
    p.armed = true;
    PLAN.with(|c| *c.borrow_mut() = p);
    let off = Off;
    let t = f();
    drop(off);
    let p = PLAN.with(|c| std::mem::take(&mut *c.borrow_mut()));
    (t, p)
}

enum Act {
    Go,
    Fail(c_int),
    Short(usize),
}

fn consult(class: u32, n: usize) -> Act {
    PLAN.try_with(|c| {
        let Ok(mut p) = c.try_borrow_mut() else { return Act::Go };
        if !p.armed {
            return Act::Go;
        }
        match class {
            READ => p.reads += 1,
            WRITE => p.writes += 1,
            SEEK => p.seeks += 1,
            TRUNC => p.truncs += 1,
            OPEN => p.opens += 1,
            _ => p.others += 1,
        }
        if p.reads + p.writes + p.seeks + p.truncs + p.opens + p.others > p.limit {
            p.overrun = true;
            return Act::Fail(EIO);
        }
        if let Some(s) = p.yields {
            let s2 = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            p.yields = Some(s2);
            if (s2 >> 60) < 5 {
                p.yielded += 1;
                drop(p);
                if (s2 >> 56) & 15 == 0 {
                    std::thread::sleep(std::time::Duration::from_micros(20));
                } else {
                    std::thread::yield_now();
                }
                return Act::Go;
            }
        }
        if p.mask & class != 0 {
            let k = p.ops;
            p.ops += 1;
            if let Some(at) = p.fail_at {
                if k == at || (p.persistent && k > at) {
                    if p.fired == 0 {
                        p.fired_class = class;
                        p.fired_after_mods = p.mods;
                    }
                    p.fired += 1;
                    return Act::Fail(p.errno);
                }
            }
        }
        if let Some(s) = p.chunk {
            if class == READ || class == WRITE {
                let s2 = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                p.chunk = Some(s2);
                match (s2 >> 33) % 4 {
                    0 => {
                        p.interruptions += 1;
                        return Act::Fail(EINTR);
                    }
                    1 | 2 if n > 1 => {
                        p.shorts += 1;
                        let k = 1 + ((s2 >> 40) as usize) % (n - 1);
                        return Act::Short(if (s2 >> 61) == 0 { 1 } else { k });
                    }
                    _ => {}
                }
            }
        }
        Act::Go
    })
    .unwrap_or(Act::Go)
}

fn done(class: u32, r: i64) {
    let _ = PLAN.try_with(|c| {
        if let Ok(mut p) = c.try_borrow_mut() {
            if p.armed && r >= 0 {
                match class {
                    READ => p.bytes_read += r as u64,
                    WRITE => {
                        p.bytes_written += r as u64;
                        p.mods += 1;
                    }
                    TRUNC => p.mods += 1,
                    _ => {}
                }
            }
        }
    });
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn memfd_create(name: *const c_char, flags: u32) -> c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_READV: c_long = 19;
const SYS_WRITEV: c_long = 20;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_OPENAT: c_long = 257;

unsafe fn fail(e: c_int) {
    *__errno_location() = e;
}

#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let mut k = n;
    if fd > 2 {
        match consult(READ, n) {
            Act::Fail(e) => {
                fail(e);
                return -1;
            }
            Act::Short(s) => k = s,
            Act::Go => {}
        }
    }
    let r = syscall(SYS_READ, fd as c_long, b, k) as isize;
    if fd > 2 {
        done(READ, r as i64);
    }
    r
}

#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let mut k = n;
    if fd > 2 {
        match consult(WRITE, n) {
            Act::Fail(e) => {
                fail(e);
                return -1;
            }
            Act::Short(s) => k = s,
            Act::Go => {}
        }
    }
    let r = syscall(SYS_WRITE, fd as c_long, b, k) as isize;
    if fd > 2 {
        done(WRITE, r as i64);
    }
    r
}

macro_rules! pos_io {
    ($name:ident, $class:expr, $sys:expr, $ptr:ty) => {
        #[cfg_attr(not(miri), no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int, b: $ptr, n: usize, off: i64) -> isize {
            let mut k = n;
            match consult($class, n) {
                Act::Fail(e) => {
                    fail(e);
                    return -1;
                }
                Act::Short(s) => k = s,
                Act::Go => {}
            }
            let r = syscall($sys, fd as c_long, b, k, off) as isize;
            done($class, r as i64);
            r
        }
    };
}
pos_io!(pread64, READ, SYS_PREAD, *mut c_void);
pos_io!(pread, READ, SYS_PREAD, *mut c_void);
pos_io!(pwrite64, WRITE, SYS_PWRITE, *const c_void);
pos_io!(pwrite, WRITE, SYS_PWRITE, *const c_void);

macro_rules! vec_io {
    ($name:ident, $class:expr, $sys:expr) => {
        #[cfg_attr(not(miri), no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int, v: *const c_void, n: c_int) -> isize {
            if fd > 2 {
                if let Act::Fail(e) = consult($class, 0) {
                    fail(e);
                    return -1;
                }
            }
            let r = syscall($sys, fd as c_long, v, n as c_long) as isize;
            if fd > 2 {
                done($class, r as i64);
            }
            r
        }
    };
}
vec_io!(readv, READ, SYS_READV);
vec_io!(writev, WRITE, SYS_WRITEV);

macro_rules! seek_io {
    ($name:ident) => {
        #[cfg_attr(not(miri), no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int, off: i64, whence: c_int) -> i64 {
            // pure position queries are also made by std as a size hint, whose failure is harmless
            if !(off == 0 && whence == 1) {
                if let Act::Fail(e) = consult(SEEK, 0) {
                    fail(e);
                    return -1;
                }
            }
            syscall(SYS_LSEEK, fd as c_long, off, whence as c_long) as i64
        }
    };
}
seek_io!(lseek64);
seek_io!(lseek);

macro_rules! trunc_io {
    ($name:ident) => {
        #[cfg_attr(not(miri), no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int, len: i64) -> c_int {
            if let Act::Fail(e) = consult(TRUNC, 0) {
                fail(e);
                return -1;
            }
            let r = syscall(SYS_FTRUNCATE, fd as c_long, len) as c_int;
            done(TRUNC, r as i64);
            r
        }
    };
}
trunc_io!(ftruncate64);
trunc_io!(ftruncate);

#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Act::Fail(e) = consult(SYNC, 0) {
        fail(e);
        return -1;
    }
    syscall(SYS_FSYNC, fd as c_long) as c_int
}

#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Act::Fail(e) = consult(SYNC, 0) {
        fail(e);
        return -1;
    }
    syscall(SYS_FDATASYNC, fd as c_long) as c_int
}

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Act::Fail(e) = consult(OPEN, 0) {
        fail(e);
        return -1;
    }
    let _ = PLAN.try_with(|c| {
        if let Ok(mut p) = c.try_borrow_mut() {
            if p.armed && p.log_opens {
                let s = CStr::from_ptr(path).to_string_lossy().into_owned();
                p.opened.push((s, flags));
            }
        }
    });
    syscall(SYS_OPENAT, -100 as c_long, path, flags as c_long, mode as c_long) as c_int
}

// The C prototype is variadic; on x86-64 the mode is passed in the same register either way.
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_impl(path, flags, mode)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_impl(path, flags, mode)
}

// ---------------------------------------------------------------- memory files

/// An anonymous in-memory file (a real file descriptor, nothing on disk).
#[cfg(miri)]
pub fn memfile() -> File {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let p = crate::engine::scratch_root().join(format!("mon-miri-{}-{n}", std::process::id()));
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&p).unwrap();
    let _ = std::fs::remove_file(&p);
    f
}

/// An anonymous in-memory file (a real file descriptor, nothing on disk).
#[cfg(not(miri))]
pub fn memfile() -> File {
    let fd = unsafe { memfd_create(c"mon".as_ptr(), 1) };
    if fd < 0 {
        panic!("memfd_create: {}", io::Error::last_os_error());
    }
    unsafe { File::from_raw_fd(fd) }
}

pub fn memfile_with(bytes: &[u8]) -> File {
    let mut f = memfile();
    f.write_all(bytes).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    f
}

pub fn contents(f: &File) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    let n = f.metadata().unwrap().len() as usize;
    let mut v = vec![0; n];
    f.read_exact_at(&mut v, 0).unwrap();
    v
}

/// A stream holding `data` from position `base` on, something else before.
pub struct Far<'a> {
    data: &'a [u8],
    base: u64,
    pos: u64,
}

impl<'a> Far<'a> {
    /// positioned at the data
    pub fn new(data: &'a [u8], base: u64) -> Far<'a> {
        Far { data, base, pos: base }
    }
}

impl Read for Far<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n;
        if self.pos < self.base {
            n = (self.base - self.pos).min(b.len() as u64) as usize;
            b[..n].fill(0xee);
        } else {
            let k = (self.pos - self.base).min(self.data.len() as u64) as usize;
            n = (self.data.len() - k).min(b.len());
            b[..n].copy_from_slice(&self.data[k..k + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Far<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.base as i128 + self.data.len() as i128 + d as i128,
        };
        if !(0..=u64::MAX as i128).contains(&to) {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = to as u64;
        Ok(self.pos)
    }
}
