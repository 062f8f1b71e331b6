//! C12: device errors surface, change nothing else, and a retry succeeds.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, ask, render};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::*;
use std::io::{ErrorKind, Read, Seek, SeekFrom};
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::probe::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C12",
    level: "exploration",
    rule: "case = random volume; every kind of question (open, attributes, values, lists, index iteration and lookup, metadata, opening the volume, reading $UpCase) is first asked fault-free, then with the k-th device operation failing once (sampled or all k) and failing for good; answers are compared with the fault-free one. Stateful part: seeks/reads on one value reader, items of iterators and repeated lookups on one finder with random faults, against a reference cursor. Non-trivial: a fault was injected and hit",
    cases: (1800, 60_000),
    secs: (60, 1500),
    run,
    need: &["single_faults", "lasting_faults", "surfaced", "stateful_faults", "retries_equal", "iterator_faults", "finder_faults", "new_faults", "upcase_faults"],
    assumptions: &["a read that already delivered bytes may end short instead of reporting the failure at once (POSIX read semantics)", "iterators need not be resumable after an error, but must not skip, invent or repeat items silently"],
    limits: (4_000_000_000, 6 << 30),
};

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
];

fn is_injected(e: &NtfsError, k: ErrorKind) -> bool {
    match e {
        NtfsError::Io(e) => e.kind() == k && e.to_string().contains(FAULT_MSG),
        _ => false,
    }
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 80, files: (2, 4), dirs: (1, 2), ents: 40, ..RichOpt::default() };
    let v = rich(&mut p, &o);
    let (mut d, ntfs) = open_up(&v.img)?;
    if p.chance(1, 2) {
        d.delivery = Delivery::Random(p.fork());
    }
    let mut probes = plan(&v, &mut p, 2);
    p.shuffle(&mut probes);
    probes.truncate(if ctx.thorough() { 60 } else { 24 });
    for q in &probes {
        let del = d.delivery.clone();
        d.reset_counts();
        let fine = render(&ask(&ntfs, &mut d, q));
        let n = d.ops;
        if n == 0 {
            continue;
        }
        let ks: Vec<u64> = if n <= 12 { (0..n).collect() } else { (0..10).map(|_| p.below(n)).chain([0, n - 1]).collect() };
        for k in ks {
            for lasting in [false, true] {
                let kind = *p.pick(KINDS);
                d.delivery = del.clone();
                d.reset_counts();
                d.faults = vec![Fault { at: k, count: if lasting { u64::MAX } else { 1 }, kind }];
                let r = ask(&ntfs, &mut d, q);
                let hit = d.failed;
                d.faults.clear();
                ctx.eval(mix(seed ^ k ^ ((lasting as u64) << 40) ^ mix(q.kind().len() as u64)), hit > 0);
                if hit == 0 {
                    // With random delivery the number of operations may vary; without a fault
                    // nothing changes.
                    let t = render(&r);
                    ensure!(t == fine, "{q:?} without a fault: {}", text_diff(&t, &fine));
                    continue;
                }
                ctx.count(if lasting { "lasting_faults" } else { "single_faults" }, 1);
                match &r {
                    Err(e) if is_injected(e, kind) => ctx.count("surfaced", 1),
                    // The rest of a partial read was retried: nothing at all is different.
                    Err(_) if !lasting && render(&r) == fine => ctx.count("absorbed_by_short_read", 1),
                    Err(e) => bail!("{q:?}: failure of device operation {k} of {n} ({kind:?}, lasting {lasting}) is reported as {e:?}"),
                    Ok(_) => {
                        let t = render(&r);
                        ensure!(!lasting, "{q:?}: device fails for good from operation {k} of {n} on, but the operation succeeds: {}", t.chars().take(400).collect::<String>());
                        // Only acceptable when nothing at all is different (the rest of a partial read was retried).
                        ensure!(t == fine, "{q:?}: failure of device operation {k} of {n} ({kind:?}) is not reported and changes the result: {}", text_diff(&t, &fine));
                        ctx.count("absorbed_by_short_read", 1);
                    }
                }
                d.delivery = del.clone();
                let again = render(&ask(&ntfs, &mut d, q));
                ensure!(again == fine, "{q:?}: asking again after a failure of operation {k}: {}", text_diff(&again, &fine));
                ctx.count("retries_equal", 1);
            }
        }
    }
    d.delivery = Delivery::Full;
    stateful(ctx, &mut p, &v, &ntfs, &mut d)?;
    iterators(ctx, &mut p, &v, &ntfs, &mut d)?;
    opening(ctx, &mut p, &v, ntfs)?;
    Ok(())
}

/// Random faults while one value reader is used; the reference is a cursor over the model's bytes.
fn stateful(ctx: &mut Ctx, p: &mut Prng, v: &Vol, ntfs: &Ntfs, d: &mut MonDisk) -> Res {
    let cands: Vec<(u64, TAttr)> = v
        .files
        .iter()
        .flat_map(|(r, f)| f.attrs.iter().filter(|a| !a.resident && a.data_size > 0).map(move |a| (*r, a.clone())))
        .collect();
    for _ in 0..3 {
        let (rec, t) = p.pick(&cands).clone();
        d.faults.clear();
        let (attached, mut q) = (p.chance(1, 3), p.fork());
        with_value(ntfs, d, rec, t.ty, &t.name, |d, mut val, _| {
            let mut pos = 0u64;
            for _ in 0..30 {
                d.reset_counts();
                let kind = *q.pick(KINDS);
                if q.chance(1, 2) {
                    d.faults = vec![Fault { at: q.skewed(4), count: q.range(1, 2), kind }];
                } else {
                    d.faults.clear();
                }
                let what = |x: String| format!("stateful read on record {rec} {:#x}, data_size {}, extents {}: {x}", t.ty, t.data_size, t.extents);
                if q.chance(1, 3) {
                    let off = interesting(&t, &mut q);
                    let to = match q.below(3) {
                        0 => SeekFrom::Start(off),
                        1 => SeekFrom::Current((off as i64).wrapping_sub(pos as i64)),
                        _ => SeekFrom::End((off as i64).wrapping_sub(t.data_size as i64)),
                    };
                    let r = val.seek(d, to);
                    match r {
                        Ok(x) => {
                            ensure!(x == off, "{}", what(format!("seek {to:?} gives {x} instead of {off}")));
                            pos = off;
                        }
                        Err(e) => {
                            ensure!(d.failed > 0 && is_injected(&e, kind), "{}", what(format!("seek {to:?} fails with {e:?}, {} faults", d.failed)));
                            ctx.count("stateful_faults", 1);
                        }
                    }
                } else {
                    let n = q.skewed(14) as usize;
                    let mut b = vec![0xA5; n];
                    let avail = t.data_size.saturating_sub(pos).min(n as u64) as usize;
                    let r = if attached {
                        let mut a = val.attach(d);
                        let r = a.read(&mut b);
                        val = a.detach();
                        r.map_err(NtfsError::Io)
                    } else {
                        val.read(d, &mut b)
                    };
                    match r {
                        Ok(g) => {
                            ensure!(g <= avail && (g > 0 || avail == 0), "{}", what(format!("read of {n} at {pos} returns {g}, {avail} are left, {} faults", d.failed)));
                            ensure!(d.failed > 0 || g == avail || g > 0, "{}", what("short".into()));
                            let mut ex = vec![0; g];
                            t.expect(&d.img, pos, &mut ex);
                            if let Some(i) = diff(&b[..g], &ex) {
                                bail!("{}", what(format!("read at {pos} byte {i}: {} expected {}", hex(&b[i..g]), hex(&ex[i..]))));
                            }
                            pos += g as u64;
                            ctx.count("stateful_bytes", g as u64);
                            if d.failed > 0 {
                                ctx.count("stateful_faults", 1);
                            }
                        }
                        Err(e) => {
                            ensure!(d.failed > 0 && is_injected(&e, kind), "{}", what(format!("read at {pos} fails with {e:?}, {} faults", d.failed)));
                            ctx.count("stateful_faults", 1);
                        }
                    }
                }
                ensure!(val.stream_position() == pos, "{}", what(format!("position {} instead of {pos} ({} faults)", val.stream_position(), d.failed)));
            }
            d.faults.clear();
            // Everything still readable from here.
            let off = interesting(&t, &mut q).min(t.data_size);
            let b = walk::read_at(&mut val, d, off, 5000).map_err(|e| e2v("final read", e))?;
            let mut ex = vec![0; (t.data_size - off).min(5000) as usize];
            t.expect(&d.img, off, &mut ex);
            ensure!(b == ex, "after faults: read at {off} of record {rec} {:#x} differs", t.ty);
            Ok(())
        })?;
    }
    d.faults.clear();
    Ok(())
}

/// `items`: the fault-free list. `got`: what came out in spite of errors.
fn ordered_subset(got: &[String], items: &[String]) -> Result<(), String> {
    let mut i = 0;
    for g in got {
        while i < items.len() && &items[i] != g {
            i += 1;
        }
        if i == items.len() {
            return Err(format!("item «{g}» is repeated, out of order or invented"));
        }
        i += 1;
    }
    Ok(())
}

fn iterators(ctx: &mut Ctx, p: &mut Prng, v: &Vol, ntfs: &Ntfs, d: &mut MonDisk) -> Res {
    // Directory iteration and lookups with faults on the same objects.
    for (r, dir) in v.dirs.iter() {
        let f = ntfs.file(d, *r).map_err(|e| e2v("file", e))?;
        let ix = f.directory_index(d).map_err(|e| e2v("directory_index", e))?;
        let mut items = vec![];
        let mut it = ix.entries();
        while let Some(e) = it.next(d) {
            items.push(walk::entry_line(&e.map_err(|e| e2v("entry", e))?).map_err(|e| e2v("entry", e))?);
        }
        let mut it = ix.entries();
        let mut got = vec![];
        let (mut errs, mut nones) = (0, 0);
        for _ in 0..items.len() + 40 {
            d.reset_counts();
            let kind = *p.pick(KINDS);
            d.faults = if p.chance(1, 4) { vec![Fault { at: p.skewed(3), count: *p.pick(&[1, u64::MAX]), kind }] } else { vec![] };
            match it.next(d) {
                None => nones += 1,
                Some(Ok(e)) => {
                    got.push(walk::entry_line(&e).map_err(|e| e2v("entry", e))?);
                    ensure!(d.failed == 0 || d.faults[0].count == 1, "index iteration: an injected failure is swallowed");
                }
                Some(Err(e)) => {
                    ensure!(d.failed > 0 || errs > 0, "index iteration fails without a device failure: {e:?}");
                    ensure!(errs > 0 || is_injected(&e, kind), "index iteration: {e:?} instead of the injected failure");
                    errs += 1;
                    ctx.count("iterator_faults", 1);
                }
            }
            // A single failure may strike in the middle of a buffer: the rest is then read again.
            if d.failed > 0 && nones > 0 && d.faults[0].count != 1 {
                bail!("index iteration: failure reported as end");
            }
            if nones > 2 {
                break;
            }
        }
        d.faults.clear();
        if let Err(m) = ordered_subset(&got, &items) {
            bail!("index of record {r} with faults: {m}");
        }
        ensure!(errs > 0 || got == items || nones == 0, "index of record {r}: entries missing without an error");
        // finder
        let mut fi = ix.finder();
        for _ in 0..6 {
            if dir.names.is_empty() {
                break;
            }
            let n = &p.pick(&dir.names).name;
            let Ok(s) = String::from_utf16(n) else { continue };
            d.reset_counts();
            let fine = match NtfsFileNameIndex::find(&mut fi, ntfs, d, &s) {
                Some(e) => walk::entry_line(&e.map_err(|e| e2v("find", e))?).map_err(|e| e2v("find", e))?,
                None => bail!("find {s:?} in record {r}: not found"),
            };
            let n = d.ops;
            if n == 0 {
                continue;
            }
            for _ in 0..4 {
                d.reset_counts();
                let kind = *p.pick(KINDS);
                d.faults = vec![Fault { at: p.below(n), count: u64::MAX, kind }];
                match NtfsFileNameIndex::find(&mut fi, ntfs, d, &s) {
                    Some(Err(e)) if is_injected(&e, kind) => ctx.count("finder_faults", 1),
                    Some(Err(e)) => bail!("find with a failing device: {e:?}"),
                    Some(Ok(_)) => bail!("find succeeds although the device fails"),
                    None => bail!("find reports absence although the device fails"),
                }
                d.reset_counts();
                d.faults.clear();
                match NtfsFileNameIndex::find(&mut fi, ntfs, d, &s) {
                    Some(Ok(e)) => {
                        let l = walk::entry_line(&e).map_err(|e| e2v("find", e))?;
                        ensure!(l == fine, "find on the same finder after a failure: «{l}» instead of «{fine}»");
                        ctx.count("retries_equal", 1);
                    }
                    Some(Err(e)) => bail!("find on the same finder after a failure: {e:?}"),
                    None => bail!("find on the same finder after a failure: nothing"),
                }
            }
        }
        // raw index records
        if let Some(al) = walk::find_item(&f, d, IDXALLOC, &u16s("$I30")).map_err(|e| e2v("alloc", e))? {
            let a = al.to_attribute().map_err(|e| e2v("alloc", e))?;
            let al = a.structured_value::<_, ntfs::structured_values::NtfsIndexAllocation>(d).map_err(|e| e2v("alloc", e))?;
            let line = |r: &NtfsIndexRecord| format!("{} {} {}", r.vcn().value(), r.index_data_size(), r.has_subnodes());
            let mut items = vec![];
            let mut it = al.records(v.geo.irs);
            while let Some(Ok(r)) = it.next(d) {
                items.push(line(&r));
            }
            let mut it = al.records(v.geo.irs);
            let mut got = vec![];
            while got.len() < items.len() {
                d.reset_counts();
                let kind = *p.pick(KINDS);
                d.faults = if p.chance(1, 2) { vec![Fault { at: p.skewed(3), count: *p.pick(&[1, u64::MAX]), kind }] } else { vec![] };
                match it.next(d) {
                    None => {
                        ensure!(d.failed == 0, "index records: failure reported as end");
                        break;
                    }
                    Some(Ok(r)) => {
                        ensure!(d.failed == 0 || d.faults[0].count == 1, "index records: an injected failure is swallowed");
                        got.push(line(&r))
                    }
                    Some(Err(e)) => {
                        ensure!(d.failed > 0 && is_injected(&e, kind), "index records: {e:?} ({} faults)", d.failed);
                        ctx.count("iterator_faults", 1);
                    }
                }
            }
            d.faults.clear();
            if let Err(m) = ordered_subset(&got, &items) {
                bail!("index records of {r} with faults: {m}");
            }
        }
    }
    // Attributes and attribute list entries.
    for (r, _) in v.files.iter() {
        if !p.chance(1, 2) {
            continue;
        }
        let f = ntfs.file(d, *r).map_err(|e| e2v("file", e))?;
        let line = |i: &NtfsAttributeItem| -> String { i.to_attribute().map(|a| walk::attr_line(&a)).unwrap_or_else(|e| walk::err(&e)) };
        let mut items = vec![];
        let mut it = f.attributes();
        while let Some(i) = it.next(d) {
            items.push(line(&i.map_err(|e| e2v("attributes", e))?));
        }
        let mut it = f.attributes();
        let mut got = vec![];
        let mut errs = 0;
        for _ in 0..items.len() + 30 {
            d.reset_counts();
            let kind = *p.pick(KINDS);
            d.faults = if p.chance(1, 4) { vec![Fault { at: p.skewed(3), count: *p.pick(&[1, u64::MAX]), kind }] } else { vec![] };
            match it.next(d) {
                None => {
                    ensure!(d.failed == 0, "attributes of {r}: failure reported as end");
                    break;
                }
                Some(Ok(i)) => {
                    ensure!(d.failed == 0 || d.faults[0].count == 1, "attributes of {r}: an injected failure is swallowed");
                    got.push(line(&i))
                }
                Some(Err(e)) => {
                    ensure!(errs > 0 || is_injected(&e, kind), "attributes of {r}: {e:?} instead of the injected failure");
                    errs += 1;
                    ctx.count("iterator_faults", 1);
                }
            }
        }
        d.faults.clear();
        if let Err(m) = ordered_subset(&got, &items) {
            bail!("attributes of {r} with faults: {m}; fault-free {items:?} got {got:?}");
        }
        ensure!(errs > 0 || got == items, "attributes of {r}: items missing without an error");
    }
    Ok(())
}

fn opening(ctx: &mut Ctx, p: &mut Prng, v: &Vol, mut ntfs: Ntfs) -> Res {
    let mut d = MonDisk::new(v.img.clone());
    let good = walk::ask_volume(&Ntfs::new(&mut d).map_err(|e| e2v("Ntfs::new", e))?);
    let n = d.ops;
    for k in 0..n {
        let kind = *p.pick(KINDS);
        d.reset_counts();
        d.faults = vec![Fault { at: k, count: u64::MAX, kind }];
        match Ntfs::new(&mut d) {
            Err(e) => ensure!(is_injected(&e, kind), "Ntfs::new with a failing device: {e:?}"),
            Ok(_) => bail!("Ntfs::new succeeds although device operation {k} of {n} fails"),
        }
        ctx.count("new_faults", 1);
        d.faults.clear();
        let again = walk::ask_volume(&Ntfs::new(&mut d).map_err(|e| e2v("Ntfs::new", e))?);
        ensure!(again == good, "Ntfs::new after a failure: {again} instead of {good}");
    }
    // A failing re-read of the table leaves the loaded one in place.
    d.reset_counts();
    ntfs.read_upcase_table(&mut d).map_err(|e| e2v("read_upcase_table", e))?;
    let n = d.ops;
    let (r, dir) = v.dirs.iter().next().unwrap();
    let name = dir.names.iter().find_map(|x| String::from_utf16(&x.name).ok()).unwrap_or("x".into());
    let q = Probe::Find(*r, name);
    d.reset_counts();
    let fine = render(&ask(&ntfs, &mut d, &q));
    for k in [0, p.below(n), n - 1] {
        let kind = *p.pick(KINDS);
        d.reset_counts();
        d.faults = vec![Fault { at: k, count: u64::MAX, kind }];
        match ntfs.read_upcase_table(&mut d) {
            Err(e) => ensure!(is_injected(&e, kind), "read_upcase_table with a failing device: {e:?}"),
            Ok(_) => bail!("read_upcase_table succeeds although device operation {k} of {n} fails"),
        }
        ctx.count("upcase_faults", 1);
        d.faults.clear();
        let t = render(&ask(&ntfs, &mut d, &q));
        ensure!(t == fine, "lookup after a failed read_upcase_table: {}", text_diff(&t, &fine));
    }
    // On a fresh instance: fail, then succeed.
    let mut fresh = Ntfs::new(&mut d).map_err(|e| e2v("Ntfs::new", e))?;
    d.reset_counts();
    d.faults = vec![Fault { at: p.below(n), count: u64::MAX, kind: ErrorKind::Other }];
    ensure!(fresh.read_upcase_table(&mut d).is_err(), "read_upcase_table succeeds on a failing device");
    d.faults.clear();
    fresh.read_upcase_table(&mut d).map_err(|e| e2v("read_upcase_table again", e))?;
    let t = render(&ask(&fresh, &mut d, &q));
    ensure!(t == fine, "lookup after a repeated read_upcase_table: {}", text_diff(&t, &fine));
    let _ = d.seek(SeekFrom::Start(0));
    Ok(())
}
