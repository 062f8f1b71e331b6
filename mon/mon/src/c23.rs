//! C23: the sector reader of the example is a transparent, sector-aligned view.
use crate::fw::*;
use crate::walk;
use ntfs::Ntfs;
use std::io::{BufReader, ErrorKind, Read, Seek, SeekFrom};
use std::sync::Arc;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::image::Image;
use vmodel::probe::plan;
use vmodel::prng::*;

#[allow(dead_code)]
#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
mod sector_reader;
use sector_reader::SectorReader;

pub static CHECK: Check = Check {
    id: "C23",
    level: "exploration",
    rule: "case = (a) a device of random content and size (whole sectors or not, empty included), a sector size from 1 to 64 KiB, and a random history of reads and seeks (all forms, overflowing ones included, with device errors and interrupts in some), every result compared with the plain device and every operation of the underlying device inspected; or (b) a rich volume asked over its whole API through a buffered sector reader and on the plain device. Non-trivial: distinct (position in sector, length, outcome) of reads",
    cases: (20_000, 2_000_000),
    secs: (30, 900),
    run,
    need: &["reads", "at_the_end", "beyond_the_end", "consecutive_reads", "seek_end_refused", "seek_refused", "device_errors", "volumes", "answers", "bad_sector_sizes"],
    assumptions: &["alignment is judged on devices of whole sectors that deliver what is asked for or whole sectors", "a read may deliver fewer bytes than asked for, as with any reader, but never none before the end"],
    limits: (2_000_000_000, 1 << 30),
};

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    if p.chance(1, 100) { volume(ctx, &mut p) } else { history(ctx, &mut p) }
}

/// Device operations since the last call: whole sectors, and none that is not needed.
fn inspect(ctx: &mut Ctx, d: &mut MonDisk, ss: u64, upto: u64, what: &str) -> Res {
    for op in d.log.replace(vec![]).unwrap() {
        match op {
            Op::Read(pos, len, _) => {
                ensure!(pos % ss == 0 && len % ss == 0, "{what}: the device is asked for {len} bytes at {pos}, sectors are {ss} bytes");
                if len > 0 && pos + len > upto {
                    let m = format!("{what}: the device is asked for {len} bytes at {pos}, but nothing beyond {upto} is needed");
                    // The listed finding: exactly one sector more.
                    if pos + len != upto + ss {
                        return Err(m.into());
                    }
                    ctx.known_or("one-more-sector", m)?;
                }
            }
            Op::Fail(_) => {}
            Op::Seek(n) => ensure!(n % ss == 0, "{what}: the device is positioned at {n}, sectors are {ss} bytes"),
        }
    }
    Ok(())
}

struct Shared(std::rc::Rc<std::cell::RefCell<MonDisk>>);
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}

/// Notes whether a read failed for the end of the device, and reads that follow one another without a seek.
struct Spy<R> {
    r: R,
    seen: std::rc::Rc<std::cell::Cell<(bool, bool)>>,
    was_read: bool,
}
impl<R: Read> Read for Spy<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let r = self.r.read(b);
        let (end, consecutive) = self.seen.get();
        self.seen.set((end || matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), consecutive || self.was_read));
        self.was_read = true;
        r
    }
}
impl<R: Seek> Seek for Spy<R> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.was_read = false;
        self.r.seek(p)
    }
}

fn history(ctx: &mut Ctx, p: &mut Prng) -> Res {
    let ss = 1u64 << *p.pick(&[0, 1, 3, 9, 9, 9, 10, 12, 12, 12, 16]);
    let mut size = match p.below(4) {
        0 => p.below(4) * ss,
        1 => p.below(40) * ss,
        2 => p.skewed(19),
        _ => (1 << p.range(20, 45)) / ss * ss,
    };
    if p.chance(1, 4) {
        size += p.below(ss);
    }
    let mut img = Image::new(size.max(1), p.u64());
    img.add_extent(0, size, p.u64(), 0);
    let img = Arc::new(img);
    let mut d = MonDisk::new(img.clone());
    d.size = size;
    d.log = Some(vec![]);
    d.delivery = match p.below(6) {
        0 => Delivery::Boundary(ss),
        1 => Delivery::Random(p.fork()),
        _ => Delivery::Full,
    };
    let aligned = !matches!(d.delivery, Delivery::Random(_)) && size % ss == 0;
    if p.chance(1, 6) {
        d.interrupts = Some((p.fork(), 4));
    }
    if p.chance(1, 6) {
        d.faults = vec![Fault { at: p.below(60), count: p.range(1, 3), kind: *p.pick(&[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof]) }];
    }
    if p.chance(1, 20) {
        let bad = *p.pick(&[0usize, 3, 6, 511, 513, 4095]);
        ensure!(SectorReader::new(d.clone(), bad).is_err(), "a sector size of {bad} is accepted");
        ctx.count("bad_sector_sizes", 1);
    }
    let d = std::rc::Rc::new(std::cell::RefCell::new(d));
    let mut r = SectorReader::new(Shared(d.clone()), ss as usize).map_err(|e| format!("sector size {ss}: {e}"))?;
    let mut pos = 0u64;
    let mut want = vec![];
    for step in 0..p.range(1, 40) {
        let injected = d.borrow().failed;
        if p.chance(1, 2) {
            let len = match p.below(5) {
                0 => 0,
                1 => ss as usize,
                2 => p.skewed(18) as usize,
                3 => (size.saturating_sub(pos).min(100_000) + p.below(3)) as usize,
                _ => p.skewed(12) as usize,
            };
            let mut b = vec![0xA5; len];
            let what = format!("step {step}: read of {len} bytes at {pos}, device of {size} bytes, sectors of {ss}");
            // The device may have been left somewhere else by an operation before.
            let left = d.borrow().pos;
            let res = r.read(&mut b);
            let hit = d.borrow().failed > injected || matches!(&res, Err(e) if e.kind() == ErrorKind::Interrupted && d.borrow().interrupts.is_some());
            let astray = left != pos / ss * ss && !d.borrow().log.as_ref().unwrap().iter().any(|o| matches!(o, Op::Seek(_)));
            let upto = if !aligned || astray { u64::MAX } else { (pos + len as u64).div_ceil(ss) * ss };
            inspect(ctx, &mut d.borrow_mut(), if aligned { ss } else { 1 }, upto, &what)?;
            let avail = size.saturating_sub(pos).min(len as u64) as usize;
            if avail < len {
                ctx.count(if pos < size { "at_the_end" } else { "beyond_the_end" }, 1);
            }
            if astray {
                ctx.count("consecutive_reads", 1);
            }
            let sectors = (pos % ss + len as u64) / ss * ss + ss;
            match res {
                // The listed finding: what the device has where it was left.
                Ok(n) if astray && n == len && n > 0 && {
                    want.resize(n, 0);
                    img.read(left + pos % ss, &mut want);
                    let there = b[..n] == want[..];
                    want.resize(avail, 0);
                    img.read(pos, &mut want);
                    there && (n > avail || b[..n] != want[..])
                } =>
                {
                    ctx.known_or("consecutive-read", format!("{what}: {n} bytes from {} are delivered", left + pos % ss))?;
                    pos += n as u64;
                }
                Err(e) if astray && !hit && e.kind() == ErrorKind::UnexpectedEof && left + sectors > size => {
                    ctx.known_or("consecutive-read", format!("{what}: {e}; the device was left at {left}"))?;
                }
                // The listed finding: one sector more would be beyond the end.
                Err(e) if !astray && !hit && e.kind() == ErrorKind::UnexpectedEof && pos / ss * ss + sectors > size => {
                    ctx.known_or("end-of-device", format!("{what}: {e}"))?;
                }
                Ok(n) => {
                    ensure!(n <= avail, "{what}: {n} bytes delivered, there are {avail}");
                    ensure!(n > 0 || avail == 0, "{what}: no bytes delivered, there are {avail}");
                    want.resize(n, 0);
                    img.read(pos, &mut want);
                    ensure!(b[..n] == want[..], "{what}: other bytes than the device has");
                    ctx.count("reads", 1);
                    ctx.eval((pos % ss) << 40 | (len as u64) << 20 | n as u64, true);
                    pos += n as u64;
                }
                Err(e) => {
                    ensure!(hit, "{what}: {e}");
                    ctx.count("device_errors", 1);
                }
            }
        } else {
            let to = match p.below(8) {
                0 => SeekFrom::End(-(p.skewed(20) as i64)),
                1 => SeekFrom::Start(*p.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 511])),
                2 => SeekFrom::Current(*p.pick(&[i64::MIN, i64::MAX, -1, 0, 1])),
                3 => SeekFrom::Current(p.below(2 * ss + 2) as i64 - ss as i64),
                4 => SeekFrom::Start(size.saturating_sub(p.skewed(14))),
                5 => SeekFrom::Start(p.below(size + 1)),
                6 => SeekFrom::Start((p.below(size + 1) / ss * ss).wrapping_sub(p.below(2))),
                _ => SeekFrom::Start(p.skewed(20)),
            };
            let target = match to {
                SeekFrom::Start(n) => Some(n),
                SeekFrom::Current(n) => pos.checked_add_signed(n),
                SeekFrom::End(_) => None,
            };
            let what = format!("step {step}: {to:?} from {pos}, device of {size} bytes, sectors of {ss}");
            let res = r.seek(to);
            let hit = d.borrow().failed > injected;
            inspect(ctx, &mut d.borrow_mut(), if aligned { ss } else { 1 }, 0, &what)?;
            match (res, target) {
                (Ok(n), Some(t)) => {
                    ensure!(n == t, "{what}: position {n} reported");
                    pos = n;
                }
                (Ok(n), None) => bail!("{what}: accepted, position {n}"),
                // Like a file, the device has no positions beyond that.
                (Err(e), Some(t)) => {
                    ensure!(hit || t > i64::MAX as u64, "{what}: refused: {e}");
                    ctx.count(if hit { "device_errors" } else { "seek_refused" }, 1);
                }
                (Err(_), None) => ctx.count(if matches!(to, SeekFrom::End(_)) { "seek_end_refused" } else { "seek_refused" }, 1),
            }
        }
        // Where the reader says it is.
        if p.chance(1, 3) {
            let injected = d.borrow().failed;
            match r.seek(SeekFrom::Current(0)) {
                Ok(n) => ensure!(n == pos, "step {step}: at {n} instead of {pos}"),
                Err(e) => ensure!(d.borrow().failed > injected, "step {step}: the position cannot be told: {e}"),
            }
            d.borrow_mut().log = Some(vec![]);
        }
    }
    Ok(())
}

fn volume(ctx: &mut Ctx, p: &mut Prng) -> Res {
    let v = rich(p, &RichOpt { nrec: 60, files: (1, 4), dirs: (0, 1), ents: 40, stream_clusters: 16, ..RichOpt::default() });
    let ss = *p.pick(&[512usize, 4096]);
    let open = |d: &mut MonDisk| -> Result<Ntfs, String> {
        let mut n = Ntfs::new(d).map_err(|e| e.to_string())?;
        n.read_upcase_table(d).map_err(|e| e.to_string())?;
        Ok(n)
    };
    let mut plain = MonDisk::new(v.img.clone());
    let n0 = open(&mut plain)?;
    let d = std::rc::Rc::new(std::cell::RefCell::new(MonDisk::new(v.img.clone())));
    d.borrow_mut().log = Some(vec![]);
    let spy = std::rc::Rc::new(std::cell::Cell::new((false, false)));
    let mut through = BufReader::new(Spy { r: SectorReader::new(Shared(d.clone()), ss).unwrap(), seen: spy.clone(), was_read: false });
    let opened = Ntfs::new(&mut through).and_then(|mut n| n.read_upcase_table(&mut through).map(|_| n));
    let n1 = match opened {
        Ok(n) => n,
        Err(e) => {
            let m = format!("through sectors of {ss}: {e}");
            return if spy.get().0 { ctx.known_or("end-of-device", m) } else { Err(m.into()) };
        }
    };
    spy.take();
    for q in plan(&v, p, 2) {
        let a = walk::render(&walk::ask(&n0, &mut plain, &q));
        let b = walk::render(&walk::ask(&n1, &mut through, &q));
        let (end, consecutive) = spy.take();
        if a != b {
            let m = format!("{q:?}: plain «{a}», through sectors of {ss} «{b}»");
            match (end, consecutive) {
                (_, true) => ctx.known_or("consecutive-read", m)?,
                (true, _) => ctx.known_or("end-of-device", m)?,
                _ => return Err(m.into()),
            }
        }
        ctx.count("answers", 1);
        inspect(ctx, &mut d.borrow_mut(), ss as u64, u64::MAX, &format!("{q:?}"))?;
    }
    ctx.count("volumes", 1);
    Ok(())
}
