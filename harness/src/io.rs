//! Readers and writers with split transfers and injected faults.

use crate::engine::Rng;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
];

/// How transfers are split: at most `max` bytes at a time (0 = unlimited), with a chance of one
/// interrupted call before each transfer.
pub struct Split {
    rng: Rng,
    max: usize,
    interrupts: bool,
    armed: bool,
}

impl Split {
    pub fn new(seed: u64, max: usize, interrupts: bool) -> Split {
        Split { rng: Rng::new(seed), max, interrupts, armed: true }
    }
    pub fn gen(src: &mut crate::engine::Src) -> Split {
        let max = match src.below(12) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 | 5 => 2,
            6 | 7 => src.range(3, 9) as usize,
            11 => src.range(300, 20_000) as usize,
            _ => src.range(10, 300) as usize,
        };
        let int = src.chance(1, 3);
        Split::new(src.below(1 << 32), max, int)
    }
    fn step(&mut self, want: usize) -> Result<usize> {
        if self.interrupts && self.armed && self.rng.next() % 3 == 0 {
            self.armed = false;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.armed = true;
        if self.max == 0 || want == 0 {
            return Ok(want);
        }
        Ok(want.min(1 + (self.rng.next() % self.max as u64) as usize))
    }
}

/// Reads from a buffer; fails with `kind` when byte `at` would have to be delivered.
pub struct SplitReader<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub split: Split,
    pub fault: Option<(usize, ErrorKind)>,
    /// the fault occurs a single time
    pub once: bool,
    pub faulted: bool,
}

impl<'a> SplitReader<'a> {
    pub fn new(b: &'a [u8], split: Split) -> Self {
        SplitReader { b, pos: 0, split, fault: None, once: false, faulted: false }
    }
}

impl Read for SplitReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut avail = self.b.len() - self.pos;
        if let Some((at, kind)) = self.fault {
            if self.pos >= at {
                self.faulted = true;
                if self.once {
                    self.fault = None;
                }
                return Err(Error::from(kind));
            }
            avail = avail.min(at - self.pos);
        }
        let n = self.split.step(buf.len().min(avail))?;
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Collects what is written; fails once `at` bytes were accepted.
pub struct SplitWriter {
    pub out: Vec<u8>,
    pub split: Split,
    pub fault: Option<(usize, Fault)>,
    /// the fault occurs a single time
    pub once: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    Kind(ErrorKind),
    /// write returns Ok(0)
    Zero,
}

impl Write for SplitWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut room = buf.len();
        if let Some((at, f)) = self.fault {
            if self.out.len() >= at {
                if self.once {
                    self.fault = None;
                }
                return match f {
                    Fault::Kind(k) => Err(Error::from(k)),
                    Fault::Zero => Ok(0),
                };
            }
            room = room.min(at - self.out.len());
        }
        let n = self.split.step(room)?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// what is in a virtual file at a position outside the stored part
pub fn virtual_byte(pos: u64) -> u8 {
    (pos.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8
}

/// Seekable reader with faults on the n-th read or seek call. The content is `b` at position `base` of a file of
/// `total` bytes; the rest of it is a function of the position.
pub struct SeekReader<'a> {
    pub b: &'a [u8],
    pub base: u64,
    pub total: u64,
    pub pos: u64,
    pub split: Split,
    pub fail_read: Option<(usize, ErrorKind)>,
    pub fail_seek: Option<(usize, ErrorKind)>,
    pub reads: usize,
    pub seeks: usize,
    /// faults occur a single time
    pub once: bool,
    pub failed: Option<ErrorKind>,
}

impl<'a> SeekReader<'a> {
    pub fn new(b: &'a [u8], pos: u64, split: Split) -> Self {
        SeekReader { b, base: 0, total: b.len() as u64, pos, split, fail_read: None, fail_seek: None, reads: 0, seeks: 0, once: false, failed: None }
    }
}

impl Read for SeekReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.total.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        let n = self.split.step(left)?;
        self.reads += 1;
        if let Some((k, kind)) = self.fail_read {
            if self.reads > k {
                self.failed = Some(kind);
                if self.once {
                    self.fail_read = None;
                }
                return Err(Error::from(kind));
            }
        }
        if let Some(at) = self.pos.checked_sub(self.base) {
            if at as usize as u64 == at && (at as usize).checked_add(n).is_some_and(|e| e <= self.b.len()) {
                buf[..n].copy_from_slice(&self.b[at as usize..at as usize + n]);
                self.pos += n as u64;
                return Ok(n);
            }
        }
        for (i, x) in buf[..n].iter_mut().enumerate() {
            let p = self.pos + i as u64;
            *x = match p.checked_sub(self.base) {
                Some(k) if k < self.b.len() as u64 => self.b[k as usize],
                _ => virtual_byte(p),
            };
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for SeekReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        if let Some((k, kind)) = self.fail_seek {
            if self.seeks > k {
                self.failed = Some(kind);
                if self.once {
                    self.fail_seek = None;
                }
                return Err(Error::from(kind));
            }
        }
        let t = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.total as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        // like files, which hold their position in an i64
        if t < 0 || t > i64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
