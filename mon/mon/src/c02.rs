//! C02: every operation ends, with work and memory in proportion to what it has to read.
use crate::c01;
use crate::drive::{Drv, Hints};
use crate::fw::*;
use crate::util::*;
use ntfs::indexes::*;
use ntfs::*;
use std::cmp::Ordering;
use std::sync::Arc;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::hostile::*;
use vmodel::meter;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C02",
    level: "exploration",
    rule: "case = a random rich volume, well-formed or made hostile (index nodes rewired into spines, cycles and dense nets; attribute lists whose entries refer to themselves or repeat forever; run lists and sizes up to the end of the address range; absurd record sizes in boot sector, index roots and arguments; general structure-aware mutants); a random history over all public operations and complete drains of all iterators, every single call metered: control-flow edges executed, heap bytes, device bytes and operations. Each is judged against a bound computed from the sizes of the structures on the volume and the caller's buffer; iterators may not yield more items than their container can hold. Non-trivial: distinct (operation, result) pairs",
    cases: (1500, 120_000),
    secs: (60, 2400),
    run,
    need: &["mutants", "calls", "nets", "lists", "giants", "sizes", "honest", "drained_items"],
    assumptions: &["the constant factors of the bounds are generous (about ten times what the library needs); they catch unbounded and super-proportional work, not slow work"],
    limits: (3_000_000_000, 4 << 30),
};

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    match p.below(6) {
        0 => honest(ctx, &mut p),
        1 => {
            ctx.count("nets", 1);
            nets(ctx, &mut p)
        }
        k => {
            let v = c01::volume(&mut p);
            let h = Hostile::new(&v);
            let mut hints = Hints::new(&v);
            let mut img = Arc::new((*v.img).clone());
            for _ in 0..if ctx.thorough() { 40 } else { 20 } {
                let mut m = vec![];
                let at = match k {
                    2 => {
                        ctx.count("lists", 1);
                        lists(&mut p, &v, &mut m)
                    }
                    3 => {
                        ctx.count("giants", 1);
                        giants(&mut p, &v, &h, &mut m)
                    }
                    4 => {
                        ctx.count("sizes", 1);
                        sizes(&mut p, &v, &mut m)
                    }
                    _ => None,
                };
                if k == 5 || p.chance(1, 3) {
                    for _ in 0..p.range(1, 4) {
                        m.extend(h.mutate(&mut p));
                    }
                }
                ctx.count("mutants", 1);
                let u = apply(Arc::get_mut(&mut img).expect("no other user"), &m);
                let recs = hints.recs.clone();
                if let Some(r) = at {
                    hints.recs.extend(vec![r; 2 * recs.len()]);
                }
                let mut d = MonDisk::new(img.clone());
                if p.chance(1, 3) {
                    c01::device(&mut p, &mut d);
                }
                let r = drive(ctx, &mut p, &hints, &mut d, &m);
                hints.recs = recs;
                drop(d);
                undo(Arc::get_mut(&mut img).expect("no other user"), u);
                r?;
            }
            Ok(())
        }
    }
}

fn drive(ctx: &mut Ctx, p: &mut Prng, hints: &Hints, d: &mut MonDisk, m: &Pieces) -> Res {
    let calls = p.range(60, 500) as i64;
    let img = d.img.clone();
    let mut s = Drv::new(p.fork(), hints, &img, calls);
    s.metered = true;
    let r = guard(|| s.session(d));
    ctx.count("calls", s.calls);
    for x in &s.sigs {
        ctx.eval(*x, true);
    }
    for (n, w) in &s.worst {
        ctx.max(label(n), w.share);
    }
    if let Some(o) = &s.over {
        bail!("{o} ({} bytes changed{})", m.len(), c01::brief(m));
    }
    match r {
        Err(e) if e.harness() => panic!("harness panic in the driver: {} at {}", e.msg, e.loc),
        Err(e) if e.io_budget => bail!("{}: {}; after {} ({} bytes changed{})", s.trail.back().cloned().unwrap_or_default(), e.msg, s.trail(), m.len(), c01::brief(m)),
        // Crashes are C01's.
        Err(_) => ctx.count("panics_left_to_C01", 1),
        Ok(()) => {}
    }
    Ok(())
}
/// Names of counters must be static.
fn label(n: &'static str) -> &'static str {
    n
}

/// Index nodes connected as they never should be.
fn nets(ctx: &mut Ctx, p: &mut Prng) -> Res {
    let mut geo = modest_geo(p);
    geo.irs = *p.pick(&[512, 1024, 4096]);
    let o = RichOpt { geo: Some(geo), nrec: 80, files: (1, 2), dirs: (1, 2), ents: *p.pick(&[60, 200, 400]), huge: false, stream_clusters: 4, ..RichOpt::default() };
    let v = rich(p, &o);
    let hints = Hints::new(&v);
    for dir in v.dirs.values() {
        let f = &v.files[&dir.rec];
        let (Some(al), Some(rt)) = (f.find(IDXALLOC, "$I30"), f.find(IDXROOT, "$I30")) else { continue };
        let nodes: Vec<(u64, u64)> = dir.index.nodes.iter().filter_map(|n| n.slot.map(|s| (s, n.vcn))).collect();
        if nodes.is_empty() {
            continue;
        }
        for _ in 0..6 {
            let style = p.below(7);
            let mut order = nodes.clone();
            p.shuffle(&mut order);
            let mut m = vec![];
            // What the nodes can hold, as bytes of entries: no traversal yields more.
            let mut held = 0u64;
            let mut key = vec![];
            for k in 0..dir.index.nodes.len() {
                let n = &dir.index.nodes[k];
                if n.slot.is_some() && n.ent_len.len() > 1 {
                    let r = Rec::index(&v, al, n.slot.unwrap(), dir.index.irs);
                    let o = 24 + r.u32(24);
                    let kl = r.u16(o + 10);
                    key = r.bytes[o..o + 16 + kl].to_vec();
                    break;
                }
            }
            // Nodes that are not in use are nodes when something refers to them.
            for slot in 0..al.data_size / dir.index.irs as u64 {
                if nodes.iter().all(|n| n.0 != slot) {
                    let r = Rec::index(&v, al, slot, dir.index.irs);
                    if r.bytes.starts_with(b"INDX") {
                        let (mut o, end) = (24 + r.u32(24), (24 + r.u32(28)).min(r.bytes.len()));
                        while o + 16 <= end && r.u16(o + 8) >= 16 {
                            held += 1;
                            o += r.u16(o + 8);
                        }
                    }
                }
            }
            for (k, (slot, _)) in order.iter().enumerate() {
                let mut r = Rec::index(&v, al, *slot, dir.index.irs);
                let old = r.clone();
                let mut o = 24 + r.u32(24);
                let dense = match style {
                    0..=2 => 0,
                    3 => 1,
                    4 | 5 => 1000,
                    _ => p.below(4),
                };
                let child = |p: &mut Prng| match style {
                    // A spine, its end a leaf or going back.
                    0 | 3 => order.get(k + 1).map(|x| x.1),
                    1 => Some(order[(k + 1) % order.len()].1),
                    2 => Some(order.get(k + 1).unwrap_or(p.pick(&order)).1),
                    // Everything refers to the next, or to anything.
                    4 => order.get(k + 1).map(|x| x.1),
                    5 => Some(p.pick(&order).1),
                    _ => Some(if p.chance(1, 10) { p.skewed(63) } else { p.pick(&order).1 }),
                };
                let room = r.bytes.len();
                let mut put = |r: &mut Rec, o: &mut usize, last: bool, c: Option<u64>| {
                    let body = if last { 16 } else { (key.len() + 7) / 8 * 8 };
                    let l = body + if c.is_some() { 8 } else { 0 };
                    if *o + l + if last { 0 } else { 24 } > room {
                        return false;
                    }
                    let mut e = if last { vec![0; 16] } else { key.clone() };
                    e.resize(l, 0);
                    e[8..10].copy_from_slice(&(l as u16).to_le_bytes());
                    e[12] = if last { 2 } else { 0 } | c.is_some() as u8;
                    if let Some(c) = c {
                        e[l - 8..].copy_from_slice(&c.to_le_bytes());
                    }
                    r.bytes[*o..*o + l].copy_from_slice(&e);
                    *o += l;
                    held += !last as u64;
                    true
                };
                if !key.is_empty() {
                    for _ in 0..dense {
                        let c = child(p);
                        if !put(&mut r, &mut o, false, c) {
                            break;
                        }
                    }
                }
                let c = child(p);
                put(&mut r, &mut o, true, c);
                r.bytes[28..32].copy_from_slice(&((o - 24) as u32).to_le_bytes());
                r.bytes[36] = c.is_some() as u8;
                for j in 0..r.bytes.len() {
                    if r.bytes[j] != old.bytes[j] {
                        m.extend(old.put(j, &[r.bytes[j]]));
                    }
                }
            }
            // The root's children.
            let r = Rec::file(&v, rt.rec);
            let mut root_ents = 0;
            for (o, _) in r.attrs() {
                if r.u32(o) as u32 != IDXROOT || r.u16(o + 14) != rt.instance as usize {
                    continue;
                }
                let hdr = o + r.u16(o + 20) + 16;
                let mut e = hdr + r.u32(hdr);
                loop {
                    let l = r.u16(e + 8);
                    root_ents += 1;
                    if r.bytes[e + 12] & 1 != 0 {
                        let c = if root_ents == 1 || style != 5 { order[0].1 } else { p.pick(&order).1 };
                        m.extend(r.put(e + l - 8, &c.to_le_bytes()));
                    }
                    if r.bytes[e + 12] & 2 != 0 {
                        break;
                    }
                    e += l;
                }
            }
            let mut img = (*v.img).clone();
            apply(&mut img, &m);
            let img = Arc::new(img);
            let (mut d, ntfs) = open_up(&img)?;
            // The bounds of this directory: every node once, by its bytes and its runs.
            let per_node = dir.index.irs as u64 * 60 + al.runs.len() as u64 * 300 + (f.list_entries.len() as u64 + 1) * (v.geo.frs as u64 * 60) + 20_000;
            let whole = per_node * (nodes.len() as u64 + 2) + 200_000;
            let step_bytes = (dir.index.irs as u64 + 8192 + f.list_entries.len() as u64 * 2 * v.geo.frs as u64) * (nodes.len() as u64 + 2) * 2;
            let file = ntfs.file(&mut d, dir.rec).map_err(|e| e2v("file", e))?;
            let Ok(ix) = file.directory_index(&mut d) else { continue };
            let (mut items, mut errs) = (0u64, 0u64);
            let b0 = d.bytes;
            meter::note("drain of a rewired index");
            let mt = meter::Meter::start(whole, (2 << 20) + 4 * nodes.len() as u64 * dir.index.irs as u64);
            let mut it = ix.entries();
            while let Some(e) = it.next(&mut d) {
                match e {
                    Ok(_) => items += 1,
                    Err(_) => errs += 1,
                }
                ensure!(items <= held + root_ents, "the index with {} nodes holds {} entries, its iterator yields more: {items} (style {style})", nodes.len(), held + root_ents);
                if errs > held + root_ents + 100 {
                    break;
                }
            }
            let u = mt.stop();
            ctx.max("net_steps_share", u.steps * 100 / whole);
            ctx.count("drained_items", items);
            ctx.count("drained_errors", errs);
            ctx.eval(mix(style * 1000 + nodes.len() as u64) ^ items ^ (errs << 20), true);
            ensure!(d.bytes - b0 <= step_bytes, "draining an index of {} nodes reads {} bytes, allowed {step_bytes} (style {style})", nodes.len(), d.bytes - b0);
            for how in 0..6u64 {
                let st = std::cell::Cell::new(p.u64());
                let b0 = d.bytes;
                meter::note("find in a rewired index");
                let mt = meter::Meter::start(whole, 1 << 20);
                let mut fi = ix.finder();
                let _ = match how {
                    0 => fi.find(&mut d, |_| Ordering::Less).is_some(),
                    1 => fi.find(&mut d, |_| Ordering::Greater).is_some(),
                    2 => fi
                        .find(&mut d, |_| {
                            st.set(mix(st.get()));
                            if st.get() % 3 == 0 { Ordering::Less } else { Ordering::Greater }
                        })
                        .is_some(),
                    _ => NtfsFileNameIndex::find(&mut fi, &ntfs, &mut d, &hints.names.get((st.get() % hints.names.len().max(1) as u64) as usize).cloned().unwrap_or_default()).is_some(),
                };
                let u = mt.stop();
                ctx.max("net_find_share", u.steps * 100 / whole);
                ensure!(d.bytes - b0 <= step_bytes, "find() in an index of {} nodes reads {} bytes, allowed {step_bytes} (style {style})", nodes.len(), d.bytes - b0);
            }
            if p.chance(1, 3) {
                drive(ctx, p, &hints, &mut d, &m)?;
            }
        }
    }
    Ok(())
}

fn write_at(r: &Rec, o: usize, b: &[u8], m: &mut Pieces) {
    let n = b.len().min(r.bytes.len().saturating_sub(o));
    m.extend(r.put(o, &b[..n]));
}

/// Lists whose entries refer to themselves, or all to the same, or never end.
fn lists(p: &mut Prng, v: &Vol, m: &mut Pieces) -> Option<u64> {
    let with: Vec<&TFile> = v.files.values().filter(|f| f.list.is_some()).collect();
    if with.is_empty() {
        return None;
    }
    let f = *p.pick(&with);
    let l = f.list.as_ref().unwrap();
    let recs: Vec<u64> = std::iter::once(f.rec).chain(f.ext.iter().copied()).collect();
    let style = p.below(5);
    let base = Rec::file(v, f.rec);
    let at = base.attrs().into_iter().find(|(o, _)| base.u32(*o) as u32 == ATTRLIST)?.0;
    // A list that repeats one cluster without end, or is sparse.
    if !l.resident && style < 2 {
        let ro = at + base.u16(at + 32);
        let room = base.u32(at + 4) - base.u16(at + 32);
        let c = v.geo.cluster as u64;
        let lcn = (l.disk_pos(0)? / c) as i64;
        let mut b = vec![];
        let mut n = 0u64;
        let mut prev = 0i64;
        while b.len() + 12 < room {
            let d = lcn - prev;
            if d == 0 {
                b.extend([0x11, 1, 0]);
            } else {
                b.push(0x81);
                b.push(1);
                b.extend(d.to_le_bytes());
            }
            prev = lcn;
            n += 1;
        }
        if style == 1 && b.len() + 10 < room {
            b.extend([0x08]);
            b.extend((1u64 << p.range(10, 40)).to_le_bytes());
            n += 1 << 30;
        }
        b.push(0);
        write_at(&base, ro, &b, m);
        let size = n.saturating_mul(c);
        for k in [40, 48, 56] {
            write_at(&base, at + k, &size.to_le_bytes(), m);
        }
    }
    // The entries.
    let mut bytes = vec![0; l.data_size as usize];
    if l.resident {
        bytes.copy_from_slice(&l.bytes);
    } else {
        l.expect(&v.img, 0, &mut bytes);
    }
    let len = if p.chance(1, 2) { 32 } else { 26 + 6 * p.below(2) as usize };
    let target = *p.pick(&recs);
    let tr = Rec::file(v, target);
    let (ty, inst) = match tr.attrs().get(p.below(4) as usize) {
        Some((o, _)) => (tr.u32(*o) as u32, tr.u16(o + 14) as u16),
        None => (DATA, 0),
    };
    let ty = if p.chance(1, 4) { ATTRLIST } else { ty };
    let mut o = 0;
    let mut vcn = 0u64;
    while o + len <= bytes.len() {
        let e = &mut bytes[o..o + len];
        e.fill(0);
        e[0..4].copy_from_slice(&ty.to_le_bytes());
        e[4..6].copy_from_slice(&(len as u16).to_le_bytes());
        e[7] = 26;
        if style == 3 {
            vcn += 1;
        }
        e[8..16].copy_from_slice(&vcn.to_le_bytes());
        let r = if style == 4 { *p.pick(&recs) } else { target };
        e[16..22].copy_from_slice(&r.to_le_bytes()[..6]);
        e[24..26].copy_from_slice(&(if style == 4 { p.below(6) as u16 } else { inst }).to_le_bytes());
        o += len;
    }
    if l.resident {
        let vo = at + base.u16(at + 20);
        write_at(&base, vo, &bytes, m);
    } else {
        for (k, b) in bytes.iter().enumerate() {
            if let Some(x) = l.disk_pos(k as u64) {
                m.push((x, vec![*b]));
            }
        }
    }
    // An extension record that has the list again.
    if p.chance(1, 3) && target != f.rec {
        if let Some((o, _)) = tr.attrs().first() {
            write_at(&tr, *o, &ATTRLIST.to_le_bytes(), m);
        }
    }
    Some(f.rec)
}

/// Values, lists, allocations and the MFT itself with sizes that no device has.
fn giants(p: &mut Prng, v: &Vol, h: &Hostile, m: &mut Pieces) -> Option<u64> {
    let all: Vec<(u64, &TAttr)> = v.files.values().flat_map(|f| f.attrs.iter().chain(&f.list).map(|t| (f.rec, t))).filter(|x| !x.1.resident).collect();
    if all.is_empty() {
        return None;
    }
    // The metadata ones are rare, so: by type first.
    let tys: std::collections::BTreeSet<(u32, bool)> = all.iter().map(|x| (x.1.ty, x.0 == 0)).collect();
    let ty = *p.pick(&tys.into_iter().collect::<Vec<_>>());
    let some: Vec<&(u64, &TAttr)> = all.iter().filter(|x| (x.1.ty, x.0 == 0) == ty).collect();
    let (rec, t) = **p.pick(&some);
    let r = Rec::file(v, t.rec);
    let at = r.attrs().into_iter().find(|(o, _)| r.u32(*o) as u32 == t.ty && r.u16(*o + 14) == t.instance as usize)?.0;
    let ro = at + r.u16(at + 32);
    let room = r.u32(at + 4) - r.u16(at + 32);
    let mut b = vec![];
    match p.below(4) {
        // One huge sparse run, or many.
        0 => {
            while b.len() + 10 < room {
                b.push(8);
                b.extend((1u64 << p.range(8, 62)).to_le_bytes());
                if p.chance(1, 2) {
                    break;
                }
            }
        }
        // As many runs as there is room for.
        1 => {
            while b.len() + 3 < room {
                b.extend([1, 1 + p.below(3) as u8]);
            }
        }
        2 => {
            let lcn = (*p.pick(&h.lcns)).min(i64::MAX as u64);
            b.push(0x81);
            b.push(1);
            b.extend(lcn.to_le_bytes());
            while b.len() + 4 < room {
                b.extend([0x11, 1, p.below(2) as u8]);
            }
        }
        _ => b = h.run_list(p, room),
    }
    if b.len() < room {
        b.push(0);
    }
    if b.len() <= room {
        write_at(&r, ro, &b, m);
    }
    let size = match p.below(4) {
        0 => 1 << p.range(20, 63),
        1 => i64::MAX as u64 - p.skewed(20),
        2 => p.skewed(62),
        _ => u64::MAX - p.skewed(20),
    };
    for k in [40, 48, 56] {
        if p.chance(5, 6) {
            write_at(&r, at + k, &size.to_le_bytes(), m);
        }
    }
    Some(rec)
}

/// Record sizes.
fn sizes(p: &mut Prng, v: &Vol, m: &mut Pieces) -> Option<u64> {
    match p.below(4) {
        0 => {
            let o = if p.chance(1, 2) { 64 } else { 68 };
            m.push((o, vec![if p.chance(1, 2) { p.below(256) as u8 } else { *p.pick(&[0x7f, 0x80, 0x81, 0xe1, 0xe0, 1, 2, 64]) }]));
            None
        }
        1 => {
            m.push((13, vec![*p.pick(&[1, 2, 128, 0x80, 0xf0, 0xf4, 0xe1, 64])]));
            None
        }
        _ => {
            let d: Vec<&TDir> = v.dirs.values().collect();
            let d = *p.pick(&d);
            let rt = v.files[&d.rec].find(IDXROOT, "$I30")?;
            let r = Rec::file(v, rt.rec);
            let at = r.attrs().into_iter().find(|(o, _)| r.u32(*o) as u32 == IDXROOT && r.u16(*o + 14) == rt.instance as usize)?.0;
            let vo = at + r.u16(at + 20);
            let x = match p.below(4) {
                0 => 1u32 << p.below(32),
                1 => u32::MAX - p.below(5000) as u32,
                2 => p.skewed(32) as u32,
                _ => 0,
            };
            write_at(&r, vo + 8, &x.to_le_bytes(), m);
            Some(d.rec)
        }
    }
}

struct Cost<'a, 'b> {
    ctx: &'a mut Ctx,
    d: &'b mut MonDisk,
}
impl Cost<'_, '_> {
    /// One call, its cost against what the structures allow.
    fn call<R>(&mut self, name: &'static str, what: &str, steps: u64, bytes: u64, heap: u64, f: impl FnOnce(&mut MonDisk) -> R) -> Result<R, Viol> {
        meter::note(name);
        // Reading something again, or a bit more, is not what this is about.
        let bytes = 2 * bytes + 8192;
        let b0 = self.d.bytes;
        let m = meter::Meter::start(steps, heap);
        let r = f(self.d);
        let u = m.stop();
        meter::note("");
        let b = self.d.bytes - b0;
        self.ctx.count("metered_honest_calls", 1);
        self.ctx.max(name, (u.steps * 100 / steps).max(b * 100 / bytes.max(1)).max(u.peak * 100 / heap));
        ensure!(u.steps <= steps && b <= bytes && u.peak <= heap, "{name}: {} steps (allowed {steps}), {b} bytes read (allowed {bytes}), {} bytes of memory (allowed {heap}): {what}", u.steps, u.peak);
        Ok(r)
    }
}

/// Well-formed volumes: the work of each call follows from the structures it needs.
fn honest(ctx: &mut Ctx, p: &mut Prng) -> Res {
    let o = RichOpt { nrec: 100, files: (2, 6), dirs: (1, 3), ents: *p.pick(&[20, 100, 500]), huge: true, stream_clusters: 24, ..RichOpt::default() };
    let v = rich(p, &o);
    ctx.count("honest", 1);
    let (mut disk, ntfs) = open_up(&v.img)?;
    let frs = v.geo.frs as u64;
    let mut c = Cost { ctx, d: &mut disk };
    let mft_runs = v.mft_runs.len() as u64;
    let one = frs * 60 + mft_runs * 300 + 20_000;
    c.call("h:new", "", one * 2, 2 * frs + 8192, 4 * frs + 65536, Ntfs::new)?.map_err(|e| e2v("new", e))?;
    for (rec, f) in &v.files {
        let file = c.call("h:file", "", one, 2 * frs + 8192, 4 * frs + 65536, |d| ntfs.file(d, *rec))?.map_err(|e| e2v("file", e))?;
        // Attributes, all of them: the list once, each of its records per entry.
        let list = f.list.as_ref().map_or(0, |l| l.data_size);
        let ents = f.list_entries.len() as u64;
        let lruns = f.list.as_ref().map_or(0, |l| l.runs.len() as u64);
        let all_steps = (ents + 4) * (one * 3 + lruns * 300 + 2000) + frs * 100 + 50_000;
        let all_bytes = (ents + 2) * (2 * frs + 300 + lruns * 16) + 2 * list + 8192;
        let items = c.call("h:attributes", "all", all_steps, all_bytes, (ents + 4) * (3 * frs + 400) + 2 * list + 65536, |d| {
            let mut it = file.attributes();
            let mut v = vec![];
            while let Some(i) = it.next(d) {
                v.push(i);
            }
            v
        })?;
        ensure!(items.len() as u64 <= frs / 16 + ents + 1, "attributes() yields {} items", items.len());
        for i in items {
            let i = i.map_err(|e| e2v("attributes", e))?;
            let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
            let ty = a.ty().map_err(|e| e2v("ty", e))? as u32;
            let (name, inst) = (name_units(&a.name().map_err(|e| e2v("name", e))?), a.instance());
            let Some(t) = f.attrs.iter().chain(&f.list).find(|t| t.ty == ty && t.name == name && t.phys.first().is_none_or(|x| x.3 == inst)) else { continue };
            // A connected attribute: every operation may go through its list again.
            let (nr, ext) = (t.runs.len() as u64, if f.list.is_some() { t.extents.max(2) } else { 1 } as u64);
            let conn = if ext > 1 { (ents + 2) * (one * 2 + 2000) } else { 0 };
            let conn_b = if ext > 1 { (ents + 2) * (2 * frs + 400) + 2 * list } else { 0 };
            let mut val = c.call("h:value", "", nr * 300 + conn + 20_000, conn_b + 4096, 65536 + 4 * frs + list, |d| a.value(d))?.map_err(|e| e2v("value", e))?;
            for _ in 0..p.range(3, 12) {
                let len = t.data_size.max(1);
                let at = if p.chance(1, 4) { p.skewed(63) } else { p.below(len) };
                let what = format!("{ty:#x} with {nr} runs in {ext} pieces of {len} bytes at {at}");
                let s = if p.chance(1, 2) { std::io::SeekFrom::Start(at) } else { std::io::SeekFrom::End(-(at as i64)) };
                let r = c.call("h:seek", &what, nr * 600 + conn + 20_000, conn_b + 64, 65536 + 4 * frs + list, |d| val.seek(d, s))?;
                if r.is_err() {
                    continue;
                }
                let n = if p.chance(1, 4) { p.skewed(18) } else { p.below(3000) };
                let mut b = vec![0; n as usize];
                let r = c.call("h:read", &what, (nr + 2) * 600 + n * 2 + conn + 20_000, conn_b + n + 64, 65536 + 4 * frs + list, |d| val.read(d, &mut b))?;
                ensure!(r.map_err(|e| e2v("read", e))? as u64 <= n, "read() returns more than the buffer holds");
            }
        }
    }
    for dir in v.dirs.values() {
        let f = &v.files[&dir.rec];
        let al = f.find(IDXALLOC, "$I30");
        let (ents, irs, h) = (f.list_entries.len() as u64, dir.index.irs as u64, dir.index.depth() as u64);
        let nr = al.map_or(0, |t| t.runs.len() as u64);
        let conn = al.is_some() && f.list.is_some();
        let list = f.list.as_ref().map_or(0, |l| l.data_size);
        let mut node = irs * 60 + nr * 1000 + 30_000;
        let mut node_b = irs + 512;
        if conn {
            node += 3 * (ents + 2) * (one * 2 + 2000);
            node_b += 3 * ((ents + 2) * (2 * frs + 400) + 2 * list);
        }
        let file = ntfs.file(c.d, dir.rec).map_err(|e| e2v("file", e))?;
        let ix = file.directory_index(c.d).map_err(|e| e2v("directory_index", e))?;
        let n = dir.index.nodes.len() as u64;
        let what = format!("directory with {} entries in {n} nodes of {irs} bytes, {h} levels below the root, {nr} runs{}", dir.names.len(), if conn { ", connected" } else { "" });
        let count = c.call("h:entries", &what, n * node + frs * 60 + 50_000, n * node_b + 4096, 65536 + (h + 2) * (6 * irs + 4096) + 100 * n + 8 * frs, |d| {
            let mut it = ix.entries();
            let mut k = 0u64;
            while let Some(e) = it.next(d) {
                e.is_ok().then(|| k += 1);
            }
            k
        })?;
        ensure!(count == dir.names.len() as u64, "{count} of {} entries: {what}", dir.names.len());
        c.ctx.count("drained_items", count);
        // A single step: at most down to a leaf.
        let mut it = ix.entries();
        for _ in 0..p.below(200) {
            if c.call("h:entries.next", &what, (h + 1) * node + frs * 60 + 50_000, (h + 1) * node_b + 4096, 65536 + 2 * (h + 2) * (6 * irs + 4096) + 8 * frs, |d| it.next(d).is_none())? {
                break;
            }
        }
        for _ in 0..12 {
            let q = if dir.names.is_empty() || p.chance(1, 3) { rand_name(p, 8) } else { p.pick(&dir.names).name.clone() };
            let q = String::from_utf16_lossy(&q);
            // Comparing names: each unit of each entry once.
            let cmp = (irs + frs) * 60;
            let mut fi = ix.finder();
            c.call("h:find", &what, (h + 1) * (node + cmp) + frs * 120 + 50_000, (h + 1) * node_b + 4096, 65536 + 8 * irs + 8 * frs, |d| NtfsFileNameIndex::find(&mut fi, &ntfs, d, &q).is_some())?;
        }
        c.ctx.eval(mix(n * 7 + h) ^ nr, n > 1);
    }
    Ok(())
}
