//! C04: every value reader is a cursor over its bytes.
use crate::fw::*;
use crate::util::*;
use ntfs::attribute_value::*;
use ntfs::*;
use std::io::{Read, Seek, SeekFrom};
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C04",
    level: "exploration",
    rule: "case = random volume; for every kind of reader (resident, non-resident, connected over an attribute list, single data run, as the enum and as the inner type; also values whose runs lie behind holes of 2^16 or 2^32 clusters) a random history of seeks (start/current/end, borders, extremes, refused ones), reads of 0..64 KiB, read_exact, clones that live on side by side, and passages through attach/detach with std::io::{Read,Seek} is run against a model cursor over the builder's bytes: counts, data, positions, length, emptiness and refusals compared after every step. Non-trivial: the history contains a successful read after a seek",
    cases: (50_000, 3_000_000),
    secs: (60, 1500),
    run,
    need: &["resident", "nonresident", "connected", "inner", "run", "run_sparse", "refused_seeks", "clones", "attached_ops", "reads_past_end", "backward_seeks", "far_connected", "connected_tiny"],
    assumptions: &["reads are compared on a reader that fills every buffer; delivery is C13's subject"],
    limits: (4_000_000_000, 6 << 30),
};

struct Model<'a> {
    len: u64,
    expect: &'a dyn Fn(u64, &mut [u8]),
    borders: Vec<u64>,
    what: String,
}
trait Cur: NtfsReadSeek + Clone {
    /// Hands the reader to `f` in its attached form, if it has one, and gets it back.
    fn attached(self, d: &mut MonDisk, f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol>;
    fn length(&self) -> u64;
}
trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}
impl Cur for NtfsAttributeValue<'_, '_> {
    fn attached(self, d: &mut MonDisk, f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol> {
        let (l, p) = (self.len(), self.data_position());
        let mut a = self.attach(d);
        ensure!(a.len() == l && a.is_empty() == (l == 0) && a.data_position() == p, "attach changes len or data_position");
        f(&mut a)?;
        let p = a.data_position();
        let v = a.detach();
        ensure!(v.data_position() == p, "detach changes data_position");
        Ok((v, true))
    }
    fn length(&self) -> u64 {
        self.len()
    }
}
impl Cur for NtfsNonResidentAttributeValue<'_, '_> {
    fn attached(self, d: &mut MonDisk, f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol> {
        let l = self.len();
        let mut a = self.attach(d);
        ensure!(a.len() == l && a.is_empty() == (l == 0), "attach changes len");
        f(&mut a)?;
        Ok((a.detach(), true))
    }
    fn length(&self) -> u64 {
        self.len()
    }
}
impl Cur for NtfsResidentAttributeValue<'_> {
    fn attached(self, _d: &mut MonDisk, _f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol> {
        Ok((self, false))
    }
    fn length(&self) -> u64 {
        self.len()
    }
}
impl Cur for NtfsAttributeListNonResidentAttributeValue<'_, '_> {
    fn attached(self, _d: &mut MonDisk, _f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol> {
        Ok((self, false))
    }
    fn length(&self) -> u64 {
        self.len()
    }
}
impl Cur for NtfsDataRun {
    fn attached(self, _d: &mut MonDisk, _f: &mut dyn FnMut(&mut dyn ReadSeek) -> Res) -> Result<(Self, bool), Viol> {
        Ok((self, false))
    }
    fn length(&self) -> u64 {
        self.allocated_size()
    }
}

fn target(p: &mut Prng, m: &Model, pos: u64) -> u64 {
    let base = match p.below(8) {
        0 => 0,
        1 => m.len,
        2 => pos,
        3 => return *p.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, 1 << 63]),
        4 | 5 => *p.pick(&m.borders),
        _ => p.range(0, m.len),
    };
    let j = p.skewed(12);
    if p.chance(1, 2) { base.saturating_sub(j) } else { base.saturating_add(j) }
}
fn seek_to(p: &mut Prng, m: &Model, pos: u64) -> (SeekFrom, Option<u64>) {
    let add = |b: u64, n: i64| if n >= 0 { b.checked_add(n as u64) } else { b.checked_sub(n.unsigned_abs()) };
    let t = target(p, m, pos);
    let off = |p: &mut Prng, b: u64| -> i64 {
        match p.below(10) {
            0 => *p.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, -1, 0, 1]),
            1 => -((b.min(i64::MAX as u64 - 9) + p.below(9)) as i64),
            _ => (t as i128 - b as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64,
        }
    };
    match p.below(3) {
        0 => (SeekFrom::Start(t), Some(t)),
        1 => {
            let n = off(p, pos);
            (SeekFrom::Current(n), add(pos, n))
        }
        _ => {
            let n = off(p, m.len);
            (SeekFrom::End(n), add(m.len, n))
        }
    }
}
fn count(p: &mut Prng) -> usize {
    match p.below(8) {
        0 => p.below(3) as usize,
        1 => p.skewed(16) as usize,
        _ => p.skewed(11) as usize,
    }
}
fn judge(m: &Model, pos: u64, n: usize, got: usize, buf: &[u8], hist: &str) -> Res {
    let avail = m.len.saturating_sub(pos).min(n as u64) as usize;
    ensure!(got == avail, "{}: read of {n} at {pos} of {} returns {got}, a cursor returns {avail}; history {hist}", m.what, m.len);
    ensure!(buf[got..].iter().all(|x| *x == 0xA5), "{}: read of {n} at {pos} writes beyond the count {got}; history {hist}", m.what);
    let mut ex = vec![0u8; got];
    (m.expect)(pos, &mut ex);
    if let Some(i) = diff(&buf[..got], &ex) {
        bail!("{}: byte {} is {} expected {}; history {hist}", m.what, pos + i as u64, hex(&buf[i..got]), hex(&ex[i..]));
    }
    Ok(())
}

fn drive<V: Cur>(ctx: &mut Ctx, p: &mut Prng, d: &mut MonDisk, v: V, m: &Model, steps: u64) -> Res {
    let mut live: Vec<(V, u64)> = vec![(v, 0)];
    ensure!(live[0].0.stream_position() == 0, "{}: starts at {}", m.what, live[0].0.stream_position());
    ensure!(live[0].0.length() == m.len, "{}: length {} instead of {}", m.what, live[0].0.length(), m.len);
    let mut hist = String::new();
    let mut seeked = false;
    let mut nontrivial = false;
    let mut sig = Digest::default();
    for _ in 0..steps {
        let k = p.below(live.len() as u64) as usize;
        let pos = live[k].1;
        if hist.len() > 700 {
            hist.drain(..300);
        }
        match p.below(16) {
            0 if live.len() < 3 => {
                let c = live[k].clone();
                ensure!(c.0.stream_position() == pos, "{}: a clone is at {} instead of {pos}", m.what, c.0.stream_position());
                live.push(c);
                hist.push_str(&format!(" clone{k}"));
                ctx.count("clones", 1);
            }
            1 if live.len() > 1 => {
                live.swap_remove(k);
                hist.push_str(&format!(" drop{k}"));
            }
            2 => {
                // read_exact
                let n = count(p).min(4096);
                let avail = m.len.saturating_sub(pos);
                if avail < n as u64 && p.chance(1, 2) {
                    let mut b = vec![0xA5; n];
                    let mut c = live[k].0.clone();
                    ensure!(c.read_exact(d, &mut b).is_err(), "{}: read_exact of {n} at {pos} of {} succeeds", m.what, m.len);
                } else {
                    let n = n.min(avail.min(1 << 20) as usize);
                    let mut b = vec![0xA5; n];
                    live[k].0.read_exact(d, &mut b).map_err(|e| e2v(&format!("{}: read_exact of {n} at {pos}; history {hist}", m.what), e))?;
                    judge(m, pos, n, n, &b, &hist)?;
                    live[k].1 += n as u64;
                    hist.push_str(&format!(" exact{k}:{n}"));
                }
            }
            3 | 4 => {
                // A passage through the attached form.
                let (v, mut pos) = live[k].clone();
                let ops = p.range(0, 5);
                let mut h2 = hist.clone();
                let mut n_att = 0;
                let mut q = p.fork();
                let (v, any) = v.attached(d, &mut |r: &mut dyn ReadSeek| {
                    for _ in 0..ops {
                        n_att += 1;
                        match q.below(5) {
                            0 | 1 => {
                                let (s, want) = seek_to(&mut q, m, pos);
                                h2.push_str(&format!(" A:{s:?}"));
                                match (r.seek(s), want) {
                                    (Ok(g), Some(w)) => {
                                        ensure!(g == w, "{}: attached seek {s:?} from {pos} gives {g} instead of {w}; history {h2}", m.what);
                                        pos = w;
                                    }
                                    (Err(e), None) => ensure!(e.kind() == std::io::ErrorKind::InvalidInput, "{}: attached seek {s:?} from {pos} refused with {e:?}", m.what),
                                    (g, w) => bail!("{}: attached seek {s:?} from {pos} gives {g:?}, a cursor {w:?}; history {h2}", m.what),
                                }
                            }
                            2 => {
                                let g = r.stream_position().map_err(|e| Viol::from(format!("{}: attached stream_position: {e}", m.what)))?;
                                ensure!(g == pos, "{}: attached stream_position {g} instead of {pos}; history {h2}", m.what);
                            }
                            3 if m.len.saturating_sub(pos) < 20_000 => {
                                let mut b = vec![];
                                let g = r.read_to_end(&mut b).map_err(|e| Viol::from(format!("{}: read_to_end: {e}", m.what)))?;
                                let n = m.len.saturating_sub(pos) as usize;
                                judge(m, pos, n, g, &b, &h2)?;
                                pos += g as u64;
                                h2.push_str(" A:toend");
                            }
                            _ => {
                                let n = count(&mut q);
                                let mut b = vec![0xA5; n];
                                let g = r.read(&mut b).map_err(|e| Viol::from(format!("{}: attached read of {n} at {pos}: {e}; history {h2}", m.what)))?;
                                judge(m, pos, n, g, &b, &h2)?;
                                pos += g as u64;
                                h2.push_str(&format!(" A:read{n}"));
                            }
                        }
                    }
                    Ok(())
                })?;
                if any {
                    hist = h2;
                    ctx.count("attached_ops", n_att);
                    ensure!(v.stream_position() == pos, "{}: detached at {} instead of {pos}; history {hist}", m.what, v.stream_position());
                    live[k] = (v, pos);
                }
            }
            5..=9 => {
                let (s, want) = seek_to(p, m, pos);
                hist.push_str(&format!(" {k}:{s:?}"));
                match (live[k].0.seek(d, s), want) {
                    (Ok(g), Some(w)) => {
                        ensure!(g == w, "{}: seek {s:?} from {pos} gives {g} instead of {w}; history {hist}", m.what);
                        ctx.count("backward_seeks", (w < pos) as u64);
                        live[k].1 = w;
                        seeked = true;
                    }
                    (Err(e), None) => {
                        ctx.count("refused_seeks", 1);
                        ensure!(matches!(&e, NtfsError::Io(x) if x.kind() == std::io::ErrorKind::InvalidInput), "{}: seek {s:?} from {pos} refused with {e:?}", m.what);
                    }
                    (g, w) => bail!("{}: seek {s:?} from {pos} of {} gives {g:?}, a cursor {w:?}; history {hist}", m.what, m.len),
                }
            }
            _ => {
                let n = count(p);
                let mut b = vec![0xA5; n];
                let g = live[k].0.read(d, &mut b).map_err(|e| e2v(&format!("{}: read of {n} at {pos} of {}; history {hist}", m.what, m.len), e))?;
                judge(m, pos, n, g, &b, &hist)?;
                hist.push_str(&format!(" {k}:read{n}"));
                live[k].1 += g as u64;
                nontrivial |= seeked && g > 0;
                ctx.count("reads_past_end", (g < n) as u64);
                sig.u(mix(pos) ^ n as u64);
            }
        }
        let (v, pos) = &live[k.min(live.len() - 1)];
        ensure!(v.stream_position() == *pos, "{}: stream_position {} instead of {pos}; history {hist}", m.what, v.stream_position());
        ensure!(v.length() == m.len, "{}: the length changed to {}; history {hist}", m.what, v.length());
    }
    ctx.eval(sig.0, nontrivial);
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 64, files: (1, 3), dirs: (0, 1), ents: 10, upcase: UpKind::Ascii, ..RichOpt::default() };
    let v = if p.chance(1, 4) {
        let mut b = Builder::new(modest_geo(&mut p), Opts { nrec: 64, upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
        rich_into(&mut b, &mut p, &o);
        if let Some(rec) = b.new_rec() {
            let mut s = FileSpec::new(rec, false);
            s.attrs.push(std_attr(&mut p));
            for i in 0..p.range(1, 2) {
                let (body, flags) = far_stream(&mut b);
                let mut a = Attr::non(DATA, if i == 0 { "" } else { "far" }, body);
                a.flags = flags;
                s.attrs.push(a);
            }
            scatter_attrs(&mut b, &mut s);
            write_fitting(&mut b, s);
        }
        b.finish()
    } else {
        rich(&mut p, &o)
    };
    let (mut d, ntfs) = open(&v.img)?;
    let mut cands: Vec<(u64, TAttr)> = vec![];
    for (r, f) in &v.files {
        for a in &f.attrs {
            let dup = f.attrs.iter().filter(|x| x.ty == a.ty && x.name == a.name).count() > 1;
            if !dup && (a.ty == DATA || a.ty == IDXALLOC || p.chance(1, 6)) && (*r >= 16 || p.chance(1, 4)) {
                cands.push((*r, a.clone()));
            }
        }
    }
    p.shuffle(&mut cands);
    let steps = if ctx.thorough() { 80 } else { 36 };
    for (rec, t) in cands.iter().take(4) {
        let img = v.img.clone();
        let ex = |off: u64, b: &mut [u8]| t.expect(&img, off, b);
        let far = t.data_size > 1 << 40;
        let mut borders: Vec<u64> = t.segs.iter().map(|s| s.off + s.len).collect();
        borders.push(t.init_size);
        let mut q = p.fork();
        with_value(&ntfs, &mut d, *rec, t.ty, &t.name, |d, val, _| {
            let mut m = Model { len: t.data_size, expect: &ex, borders, what: format!("record {rec} {:#x} {}", t.ty, crate::walk::value_kind(&val)) };
            ctx.count(crate::walk::value_kind(&val), 1);
            ctx.count("far_connected", (far && matches!(val, NtfsAttributeValue::AttributeListNonResident(_))) as u64);
            drive(ctx, &mut q, d, val.clone(), &m, steps)?;
            m.what.push_str(" (inner type)");
            ctx.count("inner", 1);
            match &val {
                NtfsAttributeValue::Resident(x) => {
                    ensure!(x.is_empty() == (t.data_size == 0) && x.len() == t.data_size, "is_empty or len of a resident value of {} bytes", t.data_size);
                    ensure!(x.data() == &t.bytes[..], "resident data() of record {rec} {:#x}", t.ty);
                    drive(ctx, &mut q, d, x.clone(), &m, steps / 2)?;
                }
                NtfsAttributeValue::AttributeListNonResident(x) => {
                    ensure!(x.is_empty() == (t.data_size == 0) && x.len() == t.data_size, "is_empty or len of a connected value of {} bytes", t.data_size);
                    ctx.count("connected_tiny", (t.data_size < 3) as u64);
                    drive(ctx, &mut q, d, x.clone(), &m, steps / 2)?
                }
                NtfsAttributeValue::NonResident(x) => {
                    ensure!(x.is_empty() == (t.data_size == 0) && x.len() == t.data_size, "is_empty or len of a non-resident value of {} bytes", t.data_size);
                    drive(ctx, &mut q, d, x.clone(), &m, steps / 2)?;
                    if t.segs.is_empty() {
                        ensure!(x.data_runs().next().is_none(), "a value without runs yields a data run");
                        return Ok(());
                    }
                    let k = q.below(t.segs.len() as u64) as usize;
                    let r = x.data_runs().nth(k).ok_or_else(|| Viol::from(format!("no data run {k}")))?.map_err(|e| e2v("data_runs", e))?;
                    let s = &t.segs[k];
                    let ex = |off: u64, b: &mut [u8]| match s.disk {
                        _ if b.is_empty() => {}
                        Some(x) => img.read(x + off, b),
                        None => b.fill(0),
                    };
                    let m = Model { len: s.len, expect: &ex, borders: vec![s.len / 2], what: format!("run {k} of record {rec} {:#x}", t.ty) };
                    ctx.count(if s.disk.is_some() { "run" } else { "run_sparse" }, 1);
                    drive(ctx, &mut q, d, r, &m, steps / 2)?;
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}
