//! C05: the flattened attribute view does not depend on where attributes are stored.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::NtfsReadSeek;
use std::io::SeekFrom;
use vmodel::gen::*;
use vmodel::image::content;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C05",
    level: "exploration",
    rule: "case = a random set of attributes of one file (names, links, streams, unknown but legal types, resident and not), written to several volumes with different geometry and different physical placement (all in the base record, spread over extension records, non-resident values split over many list entries in base and extension records with equal or different instance numbers, list resident or not; names up to 255 units; extents that start at cluster numbers beyond 2^32); the flattened attribute iteration of each must be exactly the multiset of type, name, flags, length and content that was specified, named lookups (in any case) must give the named stream, and names that differ from it in one place must not. Non-trivial: the placement uses an attribute list",
    cases: (4000, 250_000),
    secs: (60, 1500),
    run,
    need: &["placements", "with_list", "list_nonresident", "split_values", "split_in_base", "extension_records", "lookups", "near_names", "base_only", "far_parts", "long_names", "crowds"],
    assumptions: &["order of the items is not part of the property", "the MFT itself has no attribute list (documented limitation of the library)"],
    limits: (4_000_000_000, 4 << 30),
};

#[derive(Clone)]
struct D {
    ty: u32,
    name: Vec<u16>,
    flags: u16,
    res: Option<Vec<u8>>,
    size: u64,
    init: u64,
    seed: u64,
}
impl D {
    fn bytes(&self) -> Vec<u8> {
        match &self.res {
            Some(b) => b.clone(),
            None => {
                let mut v = vec![0; self.size as usize];
                content(self.seed, 0, &mut v[..self.init as usize]);
                v
            }
        }
    }
    fn line(&self) -> String {
        let b = self.bytes();
        line(self.ty, &self.name, self.flags, self.res.is_some(), b.len() as u64, &b)
    }
}
fn line(ty: u32, name: &[u16], flags: u16, res: bool, len: u64, b: &[u8]) -> String {
    format!("ty={ty:#x} name={} flags={flags:#x} resident={res} len={len} content={}", name_hex(name), walk::bytes_desc(b))
}

fn describe(p: &mut Prng, big: bool) -> Vec<D> {
    let mut v: Vec<D> = vec![];
    let res = |ty: u32, name: Vec<u16>, b: Vec<u8>| D { ty, name, flags: 0, size: 0, init: 0, seed: 0, res: Some(b) };
    let body = |a: Attr| if let Body::Res(b) = a.body { b } else { vec![] };
    v.push(res(STDINFO, vec![], body(std_attr(p))));
    for _ in 0..p.range(1, if big { 9 } else { 2 }) {
        let n = if big { attr_name(p, 60) } else { rand_name(p, 12) };
        v.push(res(FILENAME, vec![], body(name_attr(p, p.clone().below(60), &n))));
    }
    if p.chance(1, 2) {
        v.push(res(OBJID, vec![], body(obj_id(p))));
    }
    if p.chance(1, 3) {
        let n = p.usize(1, 50);
        v.push(res(SECDESC, vec![], p.bytes(n)));
    }
    let mut names: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..p.range(0, if big { 14 } else { 3 }) {
        let n = if big { attr_name(p, 10) } else { rand_name(p, 10) };
        // Distinct in any case.
        let up = |n: &[u16]| String::from_utf16_lossy(n).to_uppercase().to_lowercase();
        if !names.iter().any(|x| up(x) == up(&n)) {
            names.push(n);
        }
    }
    for n in names {
        if n.is_empty() && p.chance(1, 4) {
            continue;
        }
        for ty in [DATA, 0x100] {
            if ty == 0x100 && !p.chance(1, 5) {
                continue;
            }
            if p.chance(1, 3) {
                let k = p.skewed(if big { 8 } else { 6 }) as usize;
                let mut d = res(ty, n.clone(), p.bytes(k));
                d.flags = *p.pick(&[0, 0, 0, 0x4000]);
                v.push(d);
            } else {
                let size = match p.below(4) {
                    0 => p.skewed(18),
                    1 => 4096 * p.range(1, 30),
                    _ => p.range(1, 200_000),
                };
                let init = if p.chance(1, 4) { p.range(0, size) } else { size };
                v.push(D { ty, name: n.clone(), flags: *p.pick(&[0, 0, 0, 0x4000]), res: None, size, init, seed: p.u64() });
            }
        }
    }
    if p.chance(1, 4) {
        let n = p.usize(1, 60);
        v.push(res(0xC0, vec![], p.bytes(n)));
    }
    v
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let big = p.chance(2, 3);
    let ds = describe(&mut p, big);
    let mut want: Vec<String> = ds.iter().map(|d| d.line()).collect();
    want.sort();
    if p.chance(1, 3) {
        far(ctx, &mut p, seed)?;
    }
    if p.chance(1, 60) {
        crowd(ctx, &mut p, seed)?;
    }
    let n = if ctx.thorough() { 6 } else { 4 };
    for k in 0..n {
        place(ctx, &mut p, &ds, &want, k == 0 && !big, seed)?;
    }
    Ok(())
}

/// Parts that start at round cluster numbers far into a sparse stream are parts like all others.
fn far(ctx: &mut Ctx, p: &mut Prng, seed: u64) -> Res {
    let mut b = Builder::new(modest_geo(p), Opts { nrec: 60, upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
    let Some(rec) = b.new_rec() else { return Ok(()) };
    let mut s = FileSpec::new(rec, false);
    s.attrs.push(std_attr(p));
    for n in ["", "b", "c"] {
        if p.chance(2, 3) {
            let (body, flags) = far_stream(&mut b);
            let mut a = Attr::non(*p.pick(&[DATA, 0x100]), n, body);
            a.flags = flags;
            s.attrs.push(a);
        }
    }
    s.attrs.sort_by_key(|a| a.ty);
    scatter_attrs(&mut b, &mut s);
    write_fitting(&mut b, s);
    let v = b.finish();
    streams(ctx, p, &v, rec, seed)
}

/// A file with hundreds of streams and parts.
fn crowd(ctx: &mut Ctx, p: &mut Prng, seed: u64) -> Res {
    let mut geo = modest_geo(p);
    geo.clusters = geo.clusters.max(1 << 18);
    geo.frs = geo.frs.max(1024);
    let mut b = Builder::new(geo, Opts { nrec: 700, upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
    let Some(rec) = b.new_rec() else { return Ok(()) };
    let mut s = FileSpec::new(rec, false);
    s.attrs.push(std_attr(p));
    // Some runs per part, some parts and streams per record.
    let room = b.geo.frs as usize - 200;
    let mut g = 1;
    let mut left = room;
    let mut take = |n: usize| {
        if left < n {
            g += 1;
            left = room;
        }
        left -= n.min(left);
        g
    };
    for n in ["", "b"] {
        let per = p.usize(1, room / 12).min(*p.pick(&[1, 4, 400]));
        let parts = p.usize(2, if n.is_empty() { 330 } else { 40 });
        let m = per * parts;
        let cl = m as u64 * p.range(1, 3);
        let runs = b.runs(cl, m as u64, false);
        let ds = cl * b.geo.cluster as u64 - p.below(b.geo.cluster as u64);
        let mut a = Attr::non(DATA, n, b.stream_body(runs.clone(), ds, ds));
        let place: Vec<(usize, usize)> = runs.chunks(per).map(|c| (take(90 + 9 * c.len()), c.len())).collect();
        if place.len() > 1 {
            a.place = Place::Split(place);
        }
        s.attrs.push(a);
    }
    for k in 0..p.range(0, 300) {
        let n = p.usize(0, 20);
        let mut a = Attr::res(*p.pick(&[DATA, 0x100]), &format!("stream {k}"), p.bytes(n));
        a.place = Place::In(take(90 + n));
        s.attrs.push(a);
    }
    s.attrs.sort_by_key(|a| a.ty);
    s.list_nonres = true;
    if b.write_file(&s).is_none() {
        ctx.count("crowds_that_did_not_fit", 1);
        return Ok(());
    }
    let v = b.finish();
    if let Some(t) = v.files.get(&rec) {
        ctx.count("crowds", 1);
        ctx.max("max_list_entries", t.list_entries.len() as u64);
        ctx.max("max_extension_records", t.ext.len() as u64);
        ctx.max("max_parts", t.attrs.iter().map(|a| a.extents as u64).max().unwrap_or(0));
        ctx.max("max_runs", t.attrs.iter().map(|a| a.runs.len() as u64).max().unwrap_or(0));
    }
    streams(ctx, p, &v, rec, seed)
}

fn streams(ctx: &mut Ctx, p: &mut Prng, v: &Vol, rec: u64, seed: u64) -> Res {
    let (mut d, ntfs) = open_up(&v.img)?;
    let Some(tf) = v.files.get(&rec) else { return Ok(()) };
    let file = ntfs.file(&mut d, rec).map_err(|e| e2v("file", e))?;
    let mut want: Vec<(u32, Vec<u16>, u64)> = tf.attrs.iter().filter(|a| a.ty != 0x20).map(|a| (a.ty, a.name.clone(), a.data_size)).collect();
    let mut got = vec![];
    let mut it = file.attributes();
    while let Some(i) = it.next(&mut d) {
        let i = i.map_err(|e| e2v("attributes", e))?;
        let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
        let name = name_units(&a.name().map_err(|e| e2v("name", e))?);
        let ty = a.ty().map_err(|e| e2v("ty", e))? as u32;
        let mut val = a.value(&mut d).map_err(|e| e2v("value", e))?;
        got.push((ty, name.clone(), val.len()));
        let Some(t) = tf.attrs.iter().find(|t| t.ty == ty && t.name == name && t.data_size > 0) else { continue };
        let mut at: Vec<u64> = t.segs.iter().map(|s| (s.off + s.len).saturating_sub(p.below(40))).collect();
        at.push(p.below(t.data_size));
        p.shuffle(&mut at);
        at.truncate(60);
        for x in at {
            let x = x.min(t.data_size - 1);
            let n = (t.data_size - x).min(90) as usize;
            let (mut g, mut w) = (vec![0xA5; n], vec![0; n]);
            val.seek(&mut d, SeekFrom::Start(x)).map_err(|e| e2v("seek", e))?;
            val.read_exact(&mut d, &mut g).map_err(|e| e2v("read", e))?;
            t.expect(&v.img, x, &mut w);
            ensure!(g == w, "seed {seed:#x}: far stream {ty:#x} {name:x?} differs at {x} of {}: runs {:?}", t.data_size, t.runs);
            ctx.count("far_windows", 1);
        }
    }
    want.sort();
    got.sort();
    ensure!(got == want, "seed {seed:#x}: far streams: attributes {got:x?} instead of {want:x?}; list {:x?}", tf.list_entries.iter().map(|e| (e.ty, e.lowest, e.rec, e.instance)).collect::<Vec<_>>());
    ctx.count("far_parts", tf.list_entries.iter().filter(|e| e.lowest != 0 && e.lowest as u64 & 0xffff_ffff == 0).count() as u64);
    Ok(())
}

fn place(ctx: &mut Ctx, p: &mut Prng, ds: &[D], want: &[String], base_only: bool, seed: u64) -> Res {
    let mut geo = modest_geo(p);
    if base_only {
        geo.frs = 4096;
    }
    geo.clusters = geo.clusters.max(1 << 16);
    let opts = Opts { nrec: 80, upcase: UpKind::Unicode, scatter: p.chance(3, 4), ..Opts::default() };
    let mut b = Builder::new(geo, opts, p.u64());
    let Some(rec) = b.new_rec() else { return Ok(()) };
    let c = b.geo.cluster as u64;
    let frs = b.geo.frs;
    let mut attrs: Vec<Attr> = vec![];
    for d in ds {
        let body = match &d.res {
            Some(x) => Body::Res(x.clone()),
            None => {
                let cl = d.size.div_ceil(c) + if p.chance(1, 4) { p.range(0, 3) } else { 0 };
                if cl == 0 {
                    Body::Non { runs: vec![], data_size: 0, init_size: 0, seed: None }
                } else {
                    let m = p.range(1, if frs == 1024 { 25 } else { 60 });
                    let runs = b.runs(cl, m, false);
                    b.stream_body_seed(runs, d.size, d.init, d.seed)
                }
            }
        };
        let a = Attr { ty: d.ty, name: d.name.clone(), flags: d.flags, body, place: Place::In(0), pad: p.chance(1, 6) };
        attrs.push(a);
    }
    let mut ok = false;
    for attempt in 0..6usize {
        let mut s = FileSpec::new(rec, false);
        s.attrs = attrs.clone();
        s.list_nonres = attempt > 1 || p.chance(1, 2);
        if !base_only {
            // More and more groups until it fits.
            let groups = (1 + p.usize(0, 5)) * (attempt + 1);
            for a in s.attrs.iter_mut() {
                if a.ty == STDINFO {
                    continue;
                }
                let lo = if p.chance(1, 3) { 0 } else { 1 };
                a.place = Place::In(p.usize(lo, groups));
                if let Body::Non { runs, .. } = &a.body {
                    if runs.len() > 1 && p.chance(2, 3) {
                        let most = if p.chance(1, 4) { 20 } else { 4 };
                        let parts = p.usize(2, runs.len().min(most));
                        let mut cuts: Vec<usize> = (1..runs.len()).collect();
                        p.shuffle(&mut cuts);
                        let mut cuts: Vec<usize> = cuts[..parts - 1].to_vec();
                        cuts.sort_unstable();
                        cuts.push(runs.len());
                        let mut at = 0;
                        let mut pl = vec![];
                        for c in cuts {
                            pl.push((p.usize(lo, groups), c - at));
                            at = c;
                        }
                        a.place = Place::Split(pl);
                    }
                }
            }
            s.force_list = true;
            compact_groups(&mut s);
        }
        if b.write_file(&s).is_some() {
            ok = true;
            break;
        }
    }
    if !ok {
        ctx.count("did_not_fit", 1);
        return Ok(());
    }
    let v = b.finish();
    let (mut d, ntfs) = open_up(&v.img)?;
    let tf = &v.files[&rec];
    let layout = || {
        format!(
            "record {rec}, list {:?}, entries {:?}",
            tf.list.as_ref().map(|l| if l.resident { "resident" } else { "non-resident" }),
            tf.list_entries.iter().map(|e| (e.ty, e.lowest, e.rec, e.instance)).collect::<Vec<_>>()
        )
    };
    let mut sig = Digest::default();
    for e in &tf.list_entries {
        sig.u(e.ty as u64 ^ e.lowest << 8);
        sig.u(e.rec << 16 | e.instance as u64);
    }
    ctx.eval(sig.0 ^ mix(ds.len() as u64), tf.list.is_some());
    ctx.count("placements", 1);
    ctx.count("base_only", tf.list.is_none() as u64);
    ctx.count("with_list", tf.list.is_some() as u64);
    ctx.count("list_nonresident", tf.list.as_ref().map_or(false, |l| !l.resident) as u64);
    ctx.count("split_values", tf.attrs.iter().filter(|a| a.extents > 1).count() as u64);
    ctx.count("split_in_base", tf.attrs.iter().filter(|a| a.extents > 1 && a.rec == rec).count() as u64);
    ctx.count("long_names", tf.list_entries.iter().filter(|e| e.name.len() > 127).count() as u64);
    ctx.count("extension_records", tf.ext.len() as u64);
    ctx.sample(|| format!("seed {seed:#x} {}", layout()));
    let file = ntfs.file(&mut d, rec).map_err(|e| e2v("file", e))?;
    let mut got: Vec<String> = vec![];
    let mut it = file.attributes();
    while let Some(i) = it.next(&mut d) {
        let i = i.map_err(|e| e2v(&format!("attributes; {}", layout()), e))?;
        let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
        let mut val = a.value(&mut d).map_err(|e| e2v("value", e))?;
        let ty = a.ty().map_err(|e| e2v("ty", e))? as u32;
        let name = name_units(&a.name().map_err(|e| e2v("name", e))?);
        let len = val.len();
        ensure!(a.value_length() == len, "value_length {} but len {len} of {ty:#x}; {}", a.value_length(), layout());
        ensure!(len < 1 << 22, "length {len} of {ty:#x} {}; {}", name_hex(&name), layout());
        let content = walk::read_at(&mut val, &mut d, 0, len as usize + 5).map_err(|e| e2v(&format!("read of {ty:#x} {}; {}", name_hex(&name), layout()), e))?;
        got.push(line(ty, &name, a.flags().bits(), a.is_resident(), len, &content));
        ensure!(got.len() <= want.len() + 8, "more attributes than stored: {:?}; {}", got.last(), layout());
    }
    got.sort();
    if got != want {
        let miss: Vec<&String> = want.iter().filter(|x| want.iter().filter(|y| y == x).count() != got.iter().filter(|y| y == x).count()).take(3).collect();
        let extra: Vec<&String> = got.iter().filter(|x| want.iter().filter(|y| y == x).count() != got.iter().filter(|y| y == x).count()).take(3).collect();
        bail!("flattened view differs: {} attributes instead of {}; not (equally often) seen {miss:?}; not (equally often) stored {extra:?}; {}", got.len(), want.len(), layout());
    }
    // Named lookups.
    for x in ds.iter().filter(|x| x.ty == DATA) {
        let Ok(s) = String::from_utf16(&x.name) else { continue };
        for s in [s.clone(), s.to_lowercase(), s.to_uppercase()] {
            // Only if lowering keeps the name equal by this volume's table.
            let u: Vec<u16> = s.encode_utf16().map(|c| v.upcase[c as usize]).collect();
            let w: Vec<u16> = x.name.iter().map(|c| v.upcase[*c as usize]).collect();
            if u != w {
                continue;
            }
            ctx.count("lookups", 1);
            let i = file.data(&mut d, &s).ok_or_else(|| Viol::from(format!("data({s:?}) finds nothing; {}", layout())))?.map_err(|e| e2v("data", e))?;
            let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
            let mut val = a.value(&mut d).map_err(|e| e2v("value", e))?;
            let b = walk::read_at(&mut val, &mut d, 0, x.size as usize + 300).map_err(|e| e2v("read", e))?;
            ensure!(name_units(&a.name().map_err(|e| e2v("name", e))?) == x.name, "data({s:?}) gives another stream; {}", layout());
            ensure!(b == x.bytes(), "data({s:?}) has other content: {} bytes; {}", b.len(), layout());
        }
    }
    // Names that almost match.
    let fold = |n: &[u16]| -> Vec<u16> { n.iter().map(|c| v.upcase[*c as usize]).collect() };
    let data: Vec<(Vec<u16>, String)> = ds.iter().filter(|x| x.ty == DATA).map(|x| (fold(&x.name), name_hex(&x.name))).collect();
    for x in ds.iter().filter(|x| x.ty == DATA && !x.name.is_empty()) {
        let mut near = x.name.clone();
        match p.below(5) {
            0 => drop(near.pop()),
            1 => near.push(*p.pick(&[0, 0x20, 0x41, 0x2e])),
            2 => drop(near.remove(0)),
            3 => near.insert(p.usize(0, near.len()), 0x61),
            _ => {
                let k = p.usize(0, near.len() - 1);
                near[k] ^= 1 << p.below(16);
            }
        }
        let Ok(s) = String::from_utf16(&near) else { continue };
        let want: Vec<&String> = data.iter().filter(|d| d.0 == fold(&near)).map(|d| &d.1).collect();
        match file.data(&mut d, &s) {
            None => ensure!(want.is_empty(), "data({s:?}) finds nothing; {}", layout()),
            Some(i) => {
                let i = i.map_err(|e| e2v("data", e))?;
                let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
                let n = name_hex(&name_units(&a.name().map_err(|e| e2v("name", e))?));
                ensure!(want.contains(&&n), "data({s:?}) finds the stream {n}; {}", layout());
            }
        }
        ctx.count("near_names", 1);
    }
    for s in ["nope", ""] {
        let have = ds.iter().any(|x| x.ty == DATA && x.name == u16s(s));
        if !have {
            ensure!(file.data(&mut d, s).is_none(), "data({s:?}) finds something; {}", layout());
        }
    }
    // The standard information and the names.
    let t = tf.attrs.iter().find(|a| a.ty == STDINFO).unwrap();
    let i = file.info().map_err(|e| e2v("info", e))?;
    ensure!(i.creation_time().nt_timestamp() == u64::from_le_bytes(t.bytes[..8].try_into().unwrap()), "info() is of another attribute");
    let n = file.name(&mut d, None, None).ok_or_else(|| Viol::from("name() finds nothing".to_string()))?.map_err(|e| e2v("name", e))?;
    let nn = names_bytes(&name_units(&n.name()));
    ensure!(tf.attrs.iter().any(|a| a.ty == FILENAME && a.bytes[66..] == nn[..]), "name() is not a name of the file; {}", layout());
    Ok(())
}
