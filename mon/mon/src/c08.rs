//! C08: lookups find an entry iff it exists, reading at most one node per level.
use crate::fw::*;
use crate::idx::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::indexes::*;
use ntfs::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C08",
    level: "exploration",
    rule: "case = random volume as for C07 with one of several $UpCase tables; one finder per index answers a random sequence of lookups: stored names exactly and with every unit replaced by another one of equal uppercase, near misses (prefix, extension, one unit changed), random and empty names, through NtfsFileNameIndex::find and through caller-supplied comparisons (exact key, unpaired surrogates, coarse ones that several entries satisfy), with failing device operations in between; the answer must be an entry that compares equal iff the model holds one, and the bytes read from the index allocation at most one record per level. Non-trivial: tree with records below the root",
    cases: (2800, 300_000),
    secs: (60, 1500),
    run,
    need: &["hits", "misses", "case_hits", "below_root", "custom_hits", "custom_misses", "coarse_hits", "surrogates", "after_fault", "to_file", "duplicates"],
    assumptions: &["comparisons are consistent with the order of the tree"],
    limits: (8_000_000_000, 4 << 30),
};

/// Bytes a lookup may read: one record per level (looking twice at a header is no reason for an alarm).
fn may(depth: u64, irs: u32) -> u64 {
    if depth == 0 { 0 } else { depth * (irs as u64 + 32) + irs as u64 / 2 }
}

/// Device extents of an index allocation.
fn extents(t: Option<&TAttr>) -> Vec<(u64, u64)> {
    t.map(|t| t.segs.iter().filter_map(|s| s.disk.map(|d| (d, d + s.len))).collect()).unwrap_or_default()
}
fn node_bytes(d: &MonDisk, ext: &[(u64, u64)]) -> u64 {
    let mut n = 0;
    for o in d.log.as_ref().unwrap() {
        if let Op::Read(p, _, l) = o {
            n += ext.iter().map(|(a, b)| (p + l).min(*b).saturating_sub(*a.max(p))).sum::<u64>();
        }
    }
    n
}

fn fault(p: &mut Prng, d: &mut MonDisk) -> bool {
    d.faults.clear();
    d.reset_counts();
    if p.chance(1, 24) {
        d.faults.push(Fault { at: p.below(6), count: p.range(1, 2), kind: std::io::ErrorKind::Other });
        return true;
    }
    false
}

#[allow(clippy::too_many_arguments)]
fn dir(ctx: &mut Ctx, p: &mut Prng, iv: &IVol, dir: &TDir, rev: &HashMap<u16, Vec<u16>>, ntfs: &Ntfs, d: &mut MonDisk, queries: u64) -> Res {
    let v = &iv.v;
    let up = |n: &[u16]| -> Vec<u16> { n.iter().map(|c| v.upcase[*c as usize]).collect() };
    let mut by: HashMap<Vec<u16>, Vec<usize>> = HashMap::new();
    for (k, n) in dir.names.iter().enumerate() {
        by.entry(up(&n.name)).or_default().push(k);
    }
    let f = ntfs.file(d, dir.rec).map_err(|e| e2v("file", e))?;
    let ix = f.directory_index(d).map_err(|e| e2v("directory_index", e))?;
    let ext = extents(v.files[&dir.rec].find(IDXALLOC, "$I30"));
    let depth = dir.index.depth() as u64;
    let home = dir.index.node_of_entry();
    let mut fi = ix.finder();
    let mut failed_before = false;
    for _ in 0..queries {
        let base = if dir.names.is_empty() { rand_name(p, 6) } else { dir.names[p.below(dir.names.len() as u64) as usize].name.clone() };
        let mut q = base.clone();
        let kind = p.below(10);
        match kind {
            0 | 1 => {}
            2..=4 => {
                for c in q.iter_mut() {
                    let alt = &rev[&v.upcase[*c as usize]];
                    *c = *p.pick(alt);
                }
            }
            5 => {
                q.truncate(q.len().saturating_sub(p.usize(1, 2)));
            }
            6 => {
                let x = rand_name(p, 2);
                q.extend(x);
            }
            7 => {
                let i = p.usize(0, q.len().max(1) - 1);
                if let Some(c) = q.get_mut(i) {
                    *c = match p.below(3) {
                        0 => c.wrapping_add(1),
                        1 => c.wrapping_sub(1),
                        _ => p.u64() as u16,
                    };
                }
            }
            8 => q = rand_name(p, 12),
            _ => q = wild_name(p, 8),
        }
        if p.chance(1, 60) {
            q.clear();
        }
        let uq = up(&q);
        let want = by.get(&uq);
        let armed = fault(p, d);
        let text = String::from_utf16(&q);
        let r = match &text {
            Ok(s) if p.chance(3, 4) => NtfsFileNameIndex::find(&mut fi, ntfs, d, s),
            _ => fi.find(d, |k: &structured_values::NtfsFileName| uq.cmp(&up(&name_units(&k.name())))),
        };
        let what = format!("directory {} ({} entries): looking up {}", dir.rec, dir.names.len(), name_hex(&q));
        if text.is_err() {
            ctx.count("surrogates", 1);
        }
        match r {
            None => {
                ensure!(want.is_none(), "{what}: not found although the tree holds {}", name_hex(&dir.names[want.unwrap()[0]].name));
                ctx.count("misses", 1);
            }
            Some(Err(e)) => {
                if armed && d.failed > 0 {
                    failed_before = true;
                    continue;
                }
                bail!("{what}: {e:?}");
            }
            Some(Ok(e)) => {
                let k = e.key().ok_or_else(|| Viol::from(format!("{what}: entry without key")))?.map_err(|e| e2v("key", e))?;
                let u = name_units(&k.name());
                let Some(want) = want else { bail!("{what}: finds {} although nothing compares equal", name_hex(&u)) };
                let Some(i) = want.iter().find(|i| dir.names[**i].name == u) else { bail!("{what}: finds {}", name_hex(&u)) };
                let i = *i;
                if let Some(x) = fname_diff(&k, &dir.names[i]) {
                    bail!("{what}: {x}");
                }
                let rf = e.file_reference();
                ensure!(rf.file_record_number() == dir.refs[i] & 0xffff_ffff_ffff && rf.sequence_number() as u64 == dir.refs[i] >> 48, "{what}: another reference");
                ensure!(e.index_entry_length() == dir.index.nodes[home[i].0].ent_len[home[i].1], "{what}: another entry length");
                ctx.count("hits", 1);
                if q != u {
                    ctx.count("case_hits", 1);
                }
                if want.len() > 1 {
                    ctx.count("duplicates", 1);
                }
                if home[i].0 != dir.index.root {
                    ctx.count("below_root", 1);
                }
                let nb = node_bytes(d, &ext);
                ensure!(nb <= may(depth, dir.index.irs), "{what}: reads {nb} bytes of index records in a tree with {depth} levels of {} bytes", dir.index.irs);
                if !armed && p.chance(1, 6) {
                    if let Some(tf) = v.files.get(&(dir.refs[i] & 0xffff_ffff_ffff)) {
                        let x = e.to_file(ntfs, d).map_err(|e| e2v(&format!("{what}: to_file"), e))?;
                        ensure!(x.file_record_number() == tf.rec, "{what}: to_file gives another record");
                        ctx.count("to_file", 1);
                    }
                }
                if failed_before {
                    ctx.count("after_fault", 1);
                    failed_before = false;
                }
                ctx.eval(mix(p.0 ^ i as u64), home[i].0 != dir.index.root);
                continue;
            }
        }
        if !armed {
            let nb = node_bytes(d, &ext);
            ensure!(nb <= may(depth, dir.index.irs), "{what}: reads {nb} bytes of index records in a tree with {depth} levels of {} bytes", dir.index.irs);
        }
        ctx.eval(mix(p.0), depth > 0);
    }
    d.faults.clear();
    Ok(())
}

fn custom<E: NtfsIndexEntryType<KeyType = Raw>>(ctx: &mut Ctx, p: &mut Prng, iv: &IVol, x: &XIndex, ntfs: &Ntfs, d: &mut MonDisk, queries: u64) -> Res {
    let f = ntfs.file(d, x.rec).map_err(|e| e2v("file", e))?;
    let (root, alloc) = items(&f, d, &x.name)?;
    let ix = NtfsIndex::<E>::new(root, alloc).map_err(|e| e2v("NtfsIndex::new", e))?;
    let t = &x.index;
    let ext = extents(iv.v.files[&x.rec].find(IDXALLOC, &x.name));
    let depth = t.depth() as u64;
    let mut fi = ix.finder();
    for _ in 0..queries {
        let mut q = if t.entries.is_empty() { vec![1] } else { t.entries[p.below(t.entries.len() as u64) as usize].key.clone() };
        match p.below(5) {
            0 => q = { let n = p.usize(0, 6); p.bytes(n) },
            1 => {
                let i = p.usize(0, q.len() - 1);
                q[i] = q[i].wrapping_add(1);
            }
            2 => q.truncate(p.usize(0, q.len())),
            _ => {}
        }
        let armed = fault(p, d);
        let coarse = p.chance(1, 3);
        let pre = q.len();
        // A class of keys: all that start with q.
        let cmp = |k: &[u8]| -> Ordering { if coarse { q[..].cmp(&k[..k.len().min(pre)]) } else { q[..].cmp(k) } };
        let want = t.entries.iter().any(|e| cmp(&e.key) == Ordering::Equal);
        let what = format!("index {} of {} ({} entries): looking up {}{}", x.name, x.rec, t.entries.len(), hex(&q), if coarse { " as prefix" } else { "" });
        match fi.find(d, |k: &Raw| cmp(&k.bytes)) {
            None => {
                ensure!(!want, "{what}: not found");
                ctx.count("custom_misses", 1);
            }
            Some(Err(_)) if armed && d.failed > 0 => continue,
            Some(Err(e)) => bail!("{what}: {e:?}"),
            Some(Ok(e)) => {
                let k = e.key().ok_or_else(|| Viol::from(format!("{what}: entry without key")))?.map_err(|e| e2v("key", e))?;
                ensure!(cmp(&k.bytes) == Ordering::Equal, "{what}: finds {}", hex(&k.bytes));
                ensure!(t.entries.iter().any(|e| e.key == k.bytes), "{what}: finds {}, which is not stored", hex(&k.bytes));
                ctx.count(if coarse { "coarse_hits" } else { "custom_hits" }, 1);
            }
        }
        if !armed {
            let nb = node_bytes(d, &ext);
            ensure!(nb <= may(depth, t.irs), "{what}: reads {nb} bytes of index records in a tree with {depth} levels of {} bytes", t.irs);
        }
        ctx.eval(mix(p.0), depth > 0);
    }
    d.faults.clear();
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let max_ents = if p.chance(1, 400) { 20_000 } else if ctx.thorough() && p.chance(1, 30) { 3000 } else if p.chance(1, 12) { 500 } else { 90 };
    let up = *p.pick(&[UpKind::Identity, UpKind::Ascii, UpKind::Unicode, UpKind::Unicode, UpKind::Random, UpKind::Permute, UpKind::Deviant]);
    let o = IOpt { max_ents, up, distinct_up: p.chance(1, 2), blank: true };
    let iv = build(&mut p, &o);
    let v = &iv.v;
    let mut rev: HashMap<u16, Vec<u16>> = HashMap::new();
    for (c, u) in v.upcase.iter().enumerate() {
        rev.entry(*u).or_default().push(c as u16);
    }
    let (mut d, ntfs) = open_up(&v.img)?;
    d.log = Some(vec![]);
    for x in v.dirs.values() {
        let n = 12 + x.names.len() as u64 / 3;
        dir(ctx, &mut p, &iv, x, &rev, &ntfs, &mut d, n)?;
    }
    for x in &iv.xs {
        let n = 8 + x.index.entries.len() as u64 / 4;
        if x.has_refs {
            custom::<RawRefIdx>(ctx, &mut p, &iv, x, &ntfs, &mut d, n)?;
        } else {
            custom::<RawIdx>(ctx, &mut p, &iv, x, &ntfs, &mut d, n)?;
        }
    }
    let _ = walk::units;
    ctx.sample(|| format!("volume {:?}, table {:?}: {} directories with {:?} entries", v.geo, up, v.dirs.len(), v.dirs.values().map(|x| x.names.len()).collect::<Vec<_>>()));
    Ok(())
}
