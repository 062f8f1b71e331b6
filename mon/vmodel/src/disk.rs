//! The reader the library is given: records every operation, delivers bytes by a chosen policy,
//! injects faults at chosen operations, and enforces an operation budget.
use crate::image::Image;
use crate::prng::Prng;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Delivery {
    Full,
    /// Every read returns at most this many bytes.
    Max(usize),
    /// Random non-empty prefix.
    Random(Prng),
    /// Reads stop at multiples of this size.
    Boundary(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    /// Operation number (reads and seeks counted together, from 0 since `arm`).
    pub at: u64,
    /// Number of consecutive failing operations; u64::MAX is permanent.
    pub count: u64,
    pub kind: ErrorKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Seek(u64),
    /// position, requested, delivered
    Read(u64, u64, u64),
    Fail(u64),
}

/// Panic payload when the operation budget runs out.
pub struct IoBudgetExceeded(pub u64);

#[derive(Clone)]
pub struct MonDisk {
    pub img: Arc<Image>,
    pub pos: u64,
    /// Visible size (<= image size when truncated).
    pub size: u64,
    pub delivery: Delivery,
    pub faults: Vec<Fault>,
    /// (PRNG, one in n reads is interrupted)
    pub interrupts: Option<(Prng, u64)>,
    pub ops: u64,
    pub reads: u64,
    pub bytes: u64,
    pub failed: u64,
    pub zero_reads: u64,
    pub budget: u64,
    pub log: Option<Vec<Op>>,
    last_interrupted: bool,
}

pub const FAULT_MSG: &str = "monitor-injected fault";

impl MonDisk {
    pub fn new(img: Arc<Image>) -> Self {
        let size = img.size;
        MonDisk {
            img,
            pos: 0,
            size,
            delivery: Delivery::Full,
            faults: Vec::new(),
            interrupts: None,
            ops: 0,
            reads: 0,
            bytes: 0,
            failed: 0,
            zero_reads: 0,
            budget: u64::MAX,
            log: None,
            last_interrupted: false,
        }
    }
    pub fn reset_counts(&mut self) {
        self.ops = 0;
        self.reads = 0;
        self.bytes = 0;
        self.failed = 0;
        self.zero_reads = 0;
        if let Some(l) = &mut self.log {
            l.clear();
        }
    }
    fn op(&mut self) -> Result<()> {
        let n = self.ops;
        self.ops += 1;
        if self.ops > self.budget {
            std::panic::panic_any(IoBudgetExceeded(self.ops));
        }
        for f in &self.faults {
            if n >= f.at && (f.count == u64::MAX || n - f.at < f.count) {
                self.failed += 1;
                let k = f.kind;
                if let Some(l) = &mut self.log {
                    l.push(Op::Fail(self.pos));
                }
                return Err(Error::new(k, FAULT_MSG));
            }
        }
        Ok(())
    }
}

impl Read for MonDisk {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op()?;
        if let Some((p, n)) = &mut self.interrupts {
            // Never twice in a row, so that bounded retry loops always make progress.
            if !self.last_interrupted && p.below(*n) == 0 {
                self.last_interrupted = true;
                return Err(Error::new(ErrorKind::Interrupted, "monitor-injected interrupt"));
            }
            self.last_interrupted = false;
        }
        let avail = self.size.saturating_sub(self.pos);
        let mut n = u64::min(buf.len() as u64, avail);
        if n > 0 {
            n = match &mut self.delivery {
                Delivery::Full => n,
                Delivery::Max(m) => u64::min(n, *m as u64),
                Delivery::Random(p) => match p.below(4) {
                    0 => 1,
                    1 => n,
                    _ => p.range(1, n),
                },
                Delivery::Boundary(b) => u64::min(n, *b - self.pos % *b),
            };
        } else if !buf.is_empty() {
            self.zero_reads += 1;
        }
        self.img.read(self.pos, &mut buf[..n as usize]);
        if let Some(l) = &mut self.log {
            l.push(Op::Read(self.pos, buf.len() as u64, n));
        }
        self.pos += n;
        self.reads += 1;
        self.bytes += n;
        Ok(n as usize)
    }
}

impl Seek for MonDisk {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.op()?;
        let (base, off) = match pos {
            SeekFrom::Start(n) => (n, 0i64),
            SeekFrom::End(n) => (self.size, n),
            SeekFrom::Current(n) => (self.pos, n),
        };
        let new = if off >= 0 { base.checked_add(off as u64) } else { base.checked_sub(off.unsigned_abs()) };
        match new {
            // Like a file: positions beyond i64::MAX are refused.
            Some(n) if n <= i64::MAX as u64 => {
                self.pos = n;
                if let Some(l) = &mut self.log {
                    l.push(Op::Seek(n));
                }
                Ok(n)
            }
            _ => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
