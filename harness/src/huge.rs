//! Contents of more than 4 GiB that are mostly zeros: only the other parts take memory.

use crate::mp4ref::{Src, R};
use std::io::{self, Read, Seek, SeekFrom, Write};

const BLOCK: usize = 4096;

/// Collects what is written and can be read; stretches of zeros are not stored.
#[derive(Default)]
pub struct Sparse {
    /// (position, bytes), ascending, not overlapping
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}

impl Sparse {
    fn append(&mut self, b: &[u8]) {
        if let Some((p, v)) = self.parts.last_mut() {
            if *p + v.len() as u64 == self.len && v.len() < 1 << 16 {
                v.extend_from_slice(b);
                self.len += b.len() as u64;
                return;
            }
        }
        self.parts.push((self.len, b.to_vec()));
        self.len += b.len() as u64;
    }
    fn fill(&self, pos: u64, out: &mut [u8]) {
        out.fill(0);
        let end = pos + out.len() as u64;
        let first = self.parts.partition_point(|(p, v)| p + v.len() as u64 <= pos);
        for (p, v) in &self.parts[first..] {
            if *p >= end {
                break;
            }
            let s = pos.max(*p);
            let e = end.min(p + v.len() as u64);
            out[(s - pos) as usize..(e - pos) as usize].copy_from_slice(&v[(s - p) as usize..(e - p) as usize]);
        }
    }
    pub fn stored(&self) -> usize {
        self.parts.iter().map(|p| p.1.len()).sum()
    }
}

impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() < BLOCK {
            if b.len() >= 256 && b.iter().all(|x| *x == 0) {
                self.len += b.len() as u64;
            } else {
                self.append(b);
            }
        } else {
            static ZERO: [u8; BLOCK] = [0; BLOCK];
            for c in b.chunks(BLOCK) {
                if *c == ZERO[..c.len()] {
                    self.len += c.len() as u64;
                } else {
                    self.append(c);
                }
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.len.saturating_sub(self.pos).min(b.len() as u64) as usize;
        self.fill(self.pos, &mut b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if !(0..=u64::MAX as i128).contains(&to) {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = to as u64;
        Ok(self.pos)
    }
}

impl Src for Sparse {
    fn len(&self) -> u64 {
        self.len
    }
    fn get(&self, pos: u64, n: usize) -> R<Vec<u8>> {
        if pos as u128 + n as u128 > self.len as u128 {
            return Err(format!("read of {n} bytes at {pos} past the end {}", self.len));
        }
        let mut v = vec![0; n];
        self.fill(pos, &mut v);
        Ok(v)
    }
}
