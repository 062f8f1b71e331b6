//! C18: reported positions are where the bytes are.
use crate::fw::*;
use crate::util::*;
use crate::walk;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::collections::BTreeSet;
use std::io::SeekFrom;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C18",
    level: "exploration",
    rule: "case = random rich volume (any geometry, fragmented MFT, scattered and split attributes, resident and fragmented attribute lists, streams with holes and initialized sizes, index trees); every position the library reports is compared with the device offset the specification gives for those bytes, and the device bytes there with what was returned: file records, attributes (flattened and raw, in base and extension records), list entries, the list, data runs and their headers, the current place of values of all four kinds after random reads and seeks (also inside single runs), index root, index records and every index entry; then address arithmetic (Lcn, Vcn) on extreme operands. Non-trivial: distinct reported position",
    cases: (15_000, 400_000),
    secs: (60, 1500),
    run,
    need: &["files", "attributes", "raw_attributes", "list_entries", "lists_nonresident", "runs", "sparse_runs", "run_headers", "value_places", "place_none", "place_resident", "place_connected", "place_border", "roots", "root_entries", "node_entries", "iterated_entries", "arith", "arith_overflow", "lcn_zero"],
    assumptions: &["at the end of the data, in the allocated space behind it, and in the uninitialized part, a value may report the true place or none; where a data run of a connected value was read to its very end, the place of the following run may not be known yet (none); a place at device offset 0 reports none, as positions are non-zero by type"],
    limits: (4_000_000_000, 2 << 30),
};

fn val(p: NtfsPosition) -> Option<u64> {
    p.value().map(|x| x.get())
}
const SIG: &str = "split-record";

struct Lab<'v> {
    v: &'v Vol,
    seen: BTreeSet<u64>,
}
impl<'v> Lab<'v> {
    /// A byte `off` of record `rec`.
    fn in_rec(&mut self, ctx: &mut Ctx, what: &dyn Fn() -> String, got: NtfsPosition, rec: u64, off: u64) -> Res {
        let want = self.v.rec_pos_at(rec, off);
        let flat = self.v.rec_pos(rec).map(|x| x + off);
        self.judge(ctx, what, got, want, flat)
    }
    fn judge(&mut self, ctx: &mut Ctx, what: &dyn Fn() -> String, got: NtfsPosition, want: Option<u64>, flat: Option<u64>) -> Res {
        let g = val(got);
        if let Some(x) = g {
            self.seen.insert(x);
        }
        if g == want {
            return Ok(());
        }
        if want == Some(0) && g.is_none() {
            ctx.count("lcn_zero", 1);
            return Ok(());
        }
        let msg = format!("{}: reported at {g:x?}, but is at {want:x?}", what());
        if flat != want && g == flat {
            // The record that holds it is not contiguous on the device.
            ctx.count("split_records", 1);
            return ctx.known_or(SIG, msg);
        }
        Err(Viol::from(msg))
    }
}
/// The offset within its record of a place in it.
fn rec_off(v: &Vol, rec: u64, pos: u64) -> u64 {
    let f = v.geo.frs as u64;
    (0..f / 512).find_map(|k| v.rec_pos_at(rec, k * 512).filter(|x| (*x..*x + 512).contains(&pos)).map(|x| k * 512 + pos - x)).expect("place in its record")
}
/// A record with its update sequence undone.
fn fixed(v: &Vol, rec: u64) -> Vec<u8> {
    let mut b = v.rec_raw(rec);
    let o = u16::from_le_bytes([b[4], b[5]]) as usize;
    let n = u16::from_le_bytes([b[6], b[7]]) as usize;
    for k in 1..n {
        let x = [b[o + 2 * k], b[o + 2 * k + 1]];
        b[k * 512 - 2..k * 512].copy_from_slice(&x);
    }
    b
}
/// All attributes in a record: offset, type, instance.
fn headers(b: &[u8]) -> Vec<(usize, u32, u16)> {
    let mut o = u16::from_le_bytes([b[20], b[21]]) as usize;
    let mut v = vec![];
    loop {
        let ty = u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        if ty == 0xffff_ffff {
            return v;
        }
        let l = u32::from_le_bytes(b[o + 4..o + 8].try_into().unwrap()) as usize;
        v.push((o, ty, u16::from_le_bytes([b[o + 14], b[o + 15]])));
        o += l;
    }
}

fn raw_record(ctx: &mut Ctx, l: &mut Lab, n: &Ntfs, d: &mut MonDisk, p: &mut Prng, rec: u64) -> Res {
    let f = n.file(d, rec).map_err(|e| e2v(&format!("file({rec})"), e))?;
    l.in_rec(ctx, &|| format!("record {rec}"), f.position(), rec, 0)?;
    ctx.count("files", 1);
    let b = fixed(l.v, rec);
    let hs = headers(&b);
    let mut k = 0;
    for a in f.attributes_raw() {
        let a = a.map_err(|e| e2v("attributes_raw", e))?;
        ensure!(k < hs.len(), "record {rec}: more raw attributes than stored");
        let (o, ty, inst) = hs[k];
        k += 1;
        ensure!(a.ty().map(|t| t as u32).ok() == Some(ty) && a.instance() == inst, "record {rec}: raw attribute {} is not the stored one", k - 1);
        l.in_rec(ctx, &|| format!("record {rec}: attribute {ty:#x} at offset {o}"), a.position(), rec, o as u64)?;
        ctx.count("raw_attributes", 1);
        if a.is_resident() {
            let vo = u16::from_le_bytes([b[o + 20], b[o + 21]]) as u64;
            let val = a.value(d).map_err(|e| e2v("value", e))?;
            l.in_rec(ctx, &|| format!("record {rec}: value of attribute {ty:#x}"), val.data_position(), rec, o as u64 + vo)?;
            continue;
        }
        // Run headers, decoded from the bytes at the reported places.
        let NtfsAttributeValue::NonResident(val) = a.value(d).map_err(|e| e2v("value", e))? else { bail!("record {rec}: raw non-resident attribute has another kind of value") };
        let mut at = o + u16::from_le_bytes([b[o + 32], b[o + 33]]) as usize;
        let mut lcn = 0i64;
        let mut it = val.data_runs();
        loop {
            l.in_rec(ctx, &|| format!("record {rec}: run header of attribute {ty:#x}"), it.position(), rec, at as u64)?;
            ctx.count("run_headers", 1);
            let h = b[at];
            if h == 0 {
                ensure!(it.next().is_none(), "record {rec}: more runs than stored");
                break;
            }
            let (x, y) = ((h & 15) as usize, (h >> 4) as usize);
            let mut c = [0u8; 8];
            c[..x].copy_from_slice(&b[at + 1..at + 1 + x]);
            let len = u64::from_le_bytes(c);
            let mut c = [if y > 0 && b[at + x + y] & 0x80 != 0 { 0xff } else { 0u8 }; 8];
            c[..y].copy_from_slice(&b[at + 1 + x..at + 1 + x + y]);
            lcn = lcn.wrapping_add(i64::from_le_bytes(c));
            let mut run = it.next().ok_or_else(|| Viol::from(format!("record {rec}: runs end early")))?.map_err(|e| e2v("data_runs", e))?;
            let cl = l.v.geo.cluster as u64;
            ensure!(run.allocated_size() == len * cl, "record {rec}: run of {len} clusters has {} bytes", run.allocated_size());
            let base = (y > 0).then(|| lcn as u64 * cl);
            l.judge(ctx, &|| format!("record {rec}: data run of attribute {ty:#x}"), run.data_position(), base, base)?;
            ctx.count(if y > 0 { "runs" } else { "sparse_runs" }, 1);
            // Places inside the run.
            for _ in 0..3 {
                let to = match p.below(4) {
                    0 => p.skewed(20),
                    1 => run.allocated_size().saturating_add(p.skewed(40)),
                    _ => p.below(run.allocated_size()),
                };
                run.seek(d, SeekFrom::Start(to)).map_err(|e| e2v("seek in a run", e))?;
                let mut here = to;
                if p.chance(1, 2) && to < run.allocated_size() {
                    let mut buf = vec![0; p.usize(1, 700)];
                    here += run.read(d, &mut buf).map_err(|e| e2v("read in a run", e))? as u64;
                }
                ensure!(run.stream_position() == here, "place in a run");
                let want = base.filter(|_| here < run.allocated_size()).map(|b| b + here);
                let g = val_of(run.data_position());
                if here == run.allocated_size() && g.is_some() && g == base.map(|b| b + here) {
                    continue;
                }
                l.judge(ctx, &|| format!("record {rec}: byte {here} of a data run"), run.data_position(), want, want)?;
            }
            at += 1 + x + y;
        }
    }
    ensure!(k == hs.len(), "record {rec}: {k} of {} raw attributes", hs.len());
    Ok(())
}
fn val_of(p: NtfsPosition) -> Option<u64> {
    val(p)
}

/// Random reads and seeks; the place is right after each.
fn places(ctx: &mut Ctx, l: &mut Lab, d: &mut MonDisk, p: &mut Prng, t: &TAttr, v: &mut NtfsAttributeValue, what: &str) -> Res {
    let alloc: u64 = if t.resident { t.data_size } else { t.segs.last().map_or(0, |s| s.off + s.len) };
    let borders: Vec<u64> = t.segs.iter().map(|s| s.off).collect();
    let mut by_read = true;
    let mut here = 0;
    for step in 0..12 {
        if step > 0 {
            let to = match p.below(6) {
                0 => alloc.saturating_add(p.skewed(50)),
                1 if !borders.is_empty() => p.pick(&borders).saturating_add(p.skewed(6)).saturating_sub(p.skewed(6)),
                2 if !borders.is_empty() => *p.pick(&borders),
                3 => t.data_size.saturating_sub(p.skewed(10)),
                _ => p.below(t.data_size.max(1)),
            };
            let rel = to.wrapping_sub(here) as i64;
            let fits = if to >= here { rel >= 0 } else { rel < 0 };
            let from = match p.below(3) {
                0 if fits => SeekFrom::Current(rel),
                1 if i64::try_from(to as i128 - t.data_size as i128).is_ok() => SeekFrom::End((to as i128 - t.data_size as i128) as i64),
                _ => SeekFrom::Start(to),
            };
            v.seek(d, from).map_err(|e| e2v(&format!("{what}: seek to {to}"), e))?;
            by_read &= here == to;
            here = to;
        }
        for reads in 0..p.below(3) + 1 {
            if reads > 0 {
                // Reads that stop at a border, or anywhere.
                let next = borders.iter().copied().find(|b| *b > here);
                let n = match next {
                    Some(b) if b - here < 4000 && p.chance(1, 2) => (b - here) as usize,
                    _ => p.usize(1, 900),
                };
                let mut buf = vec![0; n];
                let got = v.read(d, &mut buf).map_err(|e| e2v(&format!("{what}: read at {here}"), e))?;
                here += got as u64;
                by_read |= got > 0;
            }
            ensure!(v.stream_position() == here, "{what}: stream position");
            let g = val(v.data_position());
            let mapped = t.disk_pos(here).filter(|_| t.resident && here <= t.data_size || !t.resident);
            ctx.count("value_places", 1);
            if here < t.data_size && (t.resident || here < t.init_size) {
                let connected = matches!(v, NtfsAttributeValue::AttributeListNonResident(_));
                let border = by_read && borders.contains(&here);
                if g.is_none() && border && connected {
                    ctx.count("border_none", 1);
                    continue;
                }
                if t.resident {
                    let vo = rec_off(l.v, t.rec, t.value_pos);
                    l.in_rec(ctx, &|| format!("{what}: byte {here}"), v.data_position(), t.rec, vo + here)?;
                    ctx.count("place_resident", 1);
                } else {
                    l.judge(ctx, &|| format!("{what}: byte {here} of {}", t.data_size), v.data_position(), mapped, mapped)?;
                    ctx.count(if mapped.is_some() { "place_mapped" } else { "place_none" }, 1);
                    ctx.count("place_border", border as u64);
                    ctx.count("place_connected", connected as u64);
                }
            } else if here <= alloc && here <= t.data_size.max(alloc) {
                // Uninitialized, or in the allocated space behind the data: the true place or none.
                let mut ok = vec![None, mapped];
                // The end of a run is also one past its last byte.
                if here > 0 {
                    ok.push(t.disk_pos(here - 1).map(|x| x + 1));
                }
                if t.resident {
                    let vo = rec_off(l.v, t.rec, t.value_pos);
                    ok.push(l.v.rec_pos_at(t.rec, vo + here));
                    ok.push(l.v.rec_pos(t.rec).map(|x| x + vo + here));
                }
                ensure!(ok.contains(&g), "{what}: byte {here} behind the data ({}, allocated {alloc}) reported at {g:x?}, allowed {ok:x?}", t.data_size);
            } else {
                ensure!(g.is_none(), "{what}: byte {here} lies behind everything allocated ({alloc}), but is reported at {g:x?}");
                ctx.count("place_none", 1);
            }
        }
    }
    Ok(())
}

fn file(ctx: &mut Ctx, l: &mut Lab, n: &Ntfs, d: &mut MonDisk, p: &mut Prng, t: &TFile) -> Res {
    let v = l.v;
    let rec = t.rec;
    raw_record(ctx, l, n, d, p, rec)?;
    for x in &t.ext {
        raw_record(ctx, l, n, d, p, *x)?;
    }
    let f = n.file(d, rec).map_err(|e| e2v("file", e))?;
    let mut it = f.attributes();
    while let Some(i) = it.next(d) {
        let i = i.map_err(|e| e2v("attributes", e))?;
        let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
        let ty = a.ty().map_err(|e| e2v("ty", e))? as u32;
        let name = name_units(&a.name().map_err(|e| e2v("name", e))?);
        let inst = a.instance();
        let what = format!("record {rec}: attribute {ty:#x} {}", walk::name_hex(&name));
        // The stored attributes this can be; several may share an instance number in different records.
        let cands: Vec<&TAttr> = t.attrs.iter().filter(|x| x.ty == ty && x.name == name && x.instance == inst && x.attr_len == a.attribute_length()).collect();
        ensure!(!cands.is_empty(), "{what}: not stored");
        let at = |c: &TAttr| (c.rec, rec_off(v, c.rec, c.header_pos));
        let g = val(a.position());
        let hit = cands.iter().find(|c| g == v.rec_pos_at(at(c).0, at(c).1)).or_else(|| cands.iter().find(|c| g == v.rec_pos(c.rec).map(|x| x + at(c).1)));
        let Some(&t) = hit else { bail!("{what}: reported at {g:x?}, but is at {:x?}", cands.iter().map(|c| c.header_pos).collect::<Vec<_>>()) };
        l.in_rec(ctx, &|| what.clone(), a.position(), at(t).0, at(t).1)?;
        ctx.count("attributes", 1);
        let mut val = a.value(d).map_err(|e| e2v(&format!("{what}: value"), e))?;
        places(ctx, l, d, p, t, &mut val, &what)?;
        if ty == IDXROOT && a.is_resident() {
            let r = a.resident_structured_value::<NtfsIndexRoot>().map_err(|e| e2v("index root", e))?;
            l.in_rec(ctx, &|| format!("{what}: index root"), r.position(), t.rec, rec_off(v, t.rec, t.value_pos))?;
            ctx.count("roots", 1);
        }
    }
    // The attribute list.
    if let Some(tl) = &t.list {
        for a in f.attributes_raw() {
            let a = a.map_err(|e| e2v("attributes_raw", e))?;
            if a.ty().map_err(|e| e2v("ty", e))? != NtfsAttributeType::AttributeList {
                continue;
            }
            let x = a.structured_value::<_, NtfsAttributeList>(d).map_err(|e| e2v("attribute list", e))?;
            let lo = if tl.resident { rec_off(v, rec, tl.value_pos) } else { 0 };
            let mut place = |ctx: &mut Ctx, what: &dyn Fn() -> String, g: NtfsPosition, off: u64| {
                if tl.resident {
                    l.in_rec(ctx, what, g, rec, lo + off)
                } else {
                    l.judge(ctx, what, g, tl.disk_pos(off), tl.disk_pos(off))
                }
            };
            place(ctx, &|| format!("record {rec}: attribute list"), x.position(), 0)?;
            let mut it = x.entries();
            for te in &t.list_entries {
                let Some(e) = it.next(d) else { bail!("record {rec}: attribute list ends early") };
                let e = e.map_err(|e| e2v("list entry", e))?;
                place(ctx, &|| format!("record {rec}: list entry at {}", te.off), e.position(), te.off)?;
                ctx.count("list_entries", 1);
            }
            ctx.count("lists_nonresident", !tl.resident as u64);
        }
    }
    // The directory index.
    let Some(dir) = v.dirs.get(&rec) else { return Ok(()) };
    let (Some(tr), ta) = (t.find(IDXROOT, "$I30"), t.find(IDXALLOC, "$I30")) else { return Ok(()) };
    let ro = rec_off(v, tr.rec, tr.value_pos);
    let ri = walk::find_item(&f, d, IDXROOT, &u16s("$I30")).map_err(|e| e2v("attributes", e))?;
    let Some(ri) = ri else { bail!("record {rec}: no index root") };
    let ra = ri.to_attribute().map_err(|e| e2v("to_attribute", e))?;
    let root = ra.resident_structured_value::<NtfsIndexRoot>().map_err(|e| e2v("index root", e))?;
    let rn = &dir.index.nodes[dir.index.root];
    let mut k = 0;
    for e in root.entries::<NtfsFileNameIndex>().map_err(|e| e2v("root entries", e))? {
        let e = e.map_err(|e| e2v("root entry", e))?;
        ensure!(k < rn.ent_pos.len(), "record {rec}: more root entries than stored");
        let off = ro + rn.ent_pos[k] - tr.value_pos;
        l.in_rec(ctx, &|| format!("record {rec}: root entry {k}"), e.position(), tr.rec, off)?;
        ctx.count("root_entries", 1);
        k += 1;
    }
    // Start of each index record and its entries.
    let irs = v.geo.irs as u64;
    let slot_flat = |nd: &TNode, i: usize| -> Option<u64> {
        let (ta, slot) = (ta?, nd.slot?);
        let first = ta.disk_pos(slot * irs)?;
        let rel = 24 + u32::from_le_bytes(v.img.get(ta.disk_pos(slot * irs + 24)?, 4).try_into().ok()?) as u64;
        Some(first + rel + nd.ent_len[..i].iter().map(|x| *x as u64).sum::<u64>())
    };
    if let Some(ta) = ta {
        let i = walk::find_item(&f, d, IDXALLOC, &u16s("$I30")).map_err(|e| e2v("attributes", e))?;
        let Some(i) = i else { bail!("record {rec}: no index allocation") };
        let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
        let al = a.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v("index allocation", e))?;
        for (m, nd) in dir.index.nodes.iter().enumerate().filter(|x| x.1.slot.is_some()) {
            let r = al.record_from_vcn(d, v.geo.irs, (nd.vcn as i64).into()).map_err(|e| e2v("record_from_vcn", e))?;
            for (k, e) in r.entries::<NtfsFileNameIndex>().map_err(|e| e2v("entries", e))?.enumerate() {
                let e = e.map_err(|e| e2v("entry", e))?;
                ensure!(k < nd.ent_pos.len(), "record {rec}: more node entries than stored");
                l.judge(ctx, &|| format!("record {rec}: entry {k} of node {m}"), e.position(), Some(nd.ent_pos[k]), slot_flat(nd, k))?;
                ctx.count("node_entries", 1);
            }
        }
        let _ = ta;
    }
    let home = dir.index.node_of_entry();
    let ix = f.directory_index(d).map_err(|e| e2v("directory_index", e))?;
    let mut it = ix.entries();
    for (k, &(m, i)) in home.iter().enumerate() {
        let Some(e) = it.next(d) else { bail!("record {rec}: index ends early") };
        let e = e.map_err(|e| e2v("entry", e))?;
        let nd = &dir.index.nodes[m];
        let what = || format!("record {rec}: iterated entry {k}");
        if m == dir.index.root {
            l.in_rec(ctx, &what, e.position(), tr.rec, ro + nd.ent_pos[i] - tr.value_pos)?;
        } else {
            l.judge(ctx, &what, e.position(), Some(nd.ent_pos[i]), slot_flat(nd, i))?;
        }
        ctx.count("iterated_entries", 1);
    }
    Ok(())
}

fn arith(ctx: &mut Ctx, p: &mut Prng, n: &Ntfs, v: &Vol) -> Res {
    let edge = |p: &mut Prng| -> u64 {
        match p.below(6) {
            0 => p.u64(),
            1 => p.skewed(64),
            2 => u64::MAX - p.skewed(20),
            3 => (1u64 << 63).wrapping_add(p.skewed(10)).wrapping_sub(p.skewed(10)),
            4 => (u64::MAX / v.geo.cluster as u64).wrapping_add(p.skewed(3)).wrapping_sub(p.skewed(3)),
            _ => (i64::MAX as u64 / v.geo.cluster as u64).wrapping_add(p.skewed(3)).wrapping_sub(p.skewed(3)),
        }
    };
    let c = v.geo.cluster;
    for _ in 0..40 {
        let (a, b) = (edge(p), edge(p) as i64);
        let b = if p.chance(1, 4) { (a as i64).wrapping_neg().wrapping_add(p.skewed(2) as i64) } else if p.chance(1, 5) { i64::MIN } else { b };
        let lcn = Lcn::from(a);
        let vcn = Vcn::from(b);
        ensure!(lcn.value() == a && vcn.value() == b, "Lcn or Vcn value");
        let want = u64::try_from(a as i128 + b as i128).ok();
        ensure!(lcn.checked_add(vcn).map(|x| x.value()) == want, "Lcn {a} + Vcn {b} = {:?}", lcn.checked_add(vcn));
        let want = u64::try_from(a as u128 * c as u128).ok();
        match (lcn.position(n), want) {
            (Ok(x), Some(w)) => ensure!(val(x).unwrap_or(0) == w, "Lcn {a}: position {x} instead of {w}"),
            (Err(NtfsError::LcnTooBig { .. }), None) => ctx.count("arith_overflow", 1),
            (x, w) => bail!("Lcn {a}: position {x:?} instead of {w:?}"),
        }
        let want = i64::try_from(b as i128 * c as i128).ok();
        match (vcn.offset(n), want) {
            (Ok(x), Some(w)) => ensure!(x == w, "Vcn {b}: offset {x} instead of {w}"),
            (Err(NtfsError::VcnTooBig { .. }), None) => ctx.count("arith_overflow", 1),
            (x, w) => bail!("Vcn {b}: offset {x:?} instead of {w:?}"),
        }
        ctx.count("arith", 1);
    }
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { upcase: UpKind::Ascii, nrec: 90, ents: 40, files: (2, 5), stream_clusters: 24, wild_names: p.chance(1, 4), ..RichOpt::default() };
    let v = rich(&mut p, &o);
    let (mut d, n) = open(&v.img)?;
    ensure!(val(n.mft_position()) == v.rec_pos(0), "the MFT is reported at {}, but is at {:x?}", n.mft_position(), v.rec_pos(0));
    let mut l = Lab { v: &v, seen: BTreeSet::new() };
    for t in v.files.values() {
        file(ctx, &mut l, &n, &mut d, &mut p, t)?;
    }
    arith(ctx, &mut p, &n, &v)?;
    for x in &l.seen {
        ctx.eval(mix(*x ^ seed), true);
    }
    ctx.sample(|| format!("{} distinct positions reported on a volume with clusters of {} bytes and MFT of {} runs", l.seen.len(), v.geo.cluster, v.mft_runs.len()));
    Ok(())
}
