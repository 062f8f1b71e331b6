//! C06: torn or misprotected records are never served as data.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::*;
use std::collections::BTreeSet;
use std::sync::Arc;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::image::Image;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C06",
    level: "exploration",
    rule: "case = random volume whose file and index records are filled so that headers, names, run lists, values and entries lie across the protected block ends. Intact: every attribute and entry shows the original bytes. Then single records are torn - for every 512-byte block of the record its last two bytes become something else (one bit, byte-swapped, the neighbouring sequence number, the original bytes, zero, random), a whole block is replaced by that of an older write, the update sequence number itself changes, or the signature - and everything that needs the record (opening by number, reference, entry, list entry; attribute iteration; connected values; index iteration, lookups, raw records; the $UpCase table; anything at all for the MFT's own record) must report an error and expose nothing of the record, while what does not need it is unaffected. Non-trivial: a torn record was actually needed",
    cases: (2500, 150_000),
    secs: (60, 1500),
    run,
    need: &["intact_attrs", "intact_entries", "torn_file", "torn_ext", "torn_index", "torn_mft", "blocks", "signatures", "lookups_refused", "lookups_unaffected", "values_refused", "straddling"],
    assumptions: &["the update sequence array covers the whole record, as in every record NTFS writes"],
    limits: (6_000_000_000, 4 << 30),
};

/// (offset in the record, new bytes)
fn tear(p: &mut Prng, rec: &[u8], block: usize, kind: u64) -> Option<(&'static str, usize, Vec<u8>)> {
    let uo = u16::from_le_bytes([rec[4], rec[5]]) as usize;
    let usn = [rec[uo], rec[uo + 1]];
    let e = block * 512 + 510;
    let orig = [rec[uo + 2 + 2 * block], rec[uo + 3 + 2 * block]];
    let n = u16::from_le_bytes(usn);
    let t = match kind {
        0 => {
            let bit = p.below(16) as u16;
            ("bit", e, (n ^ (1 << bit)).to_le_bytes().to_vec())
        }
        1 => ("swapped", e, vec![usn[1], usn[0]]),
        2 => ("previous", e, n.wrapping_sub(1).to_le_bytes().to_vec()),
        3 => ("original", e, orig.to_vec()),
        4 => ("zero", e, vec![0, 0]),
        5 => ("random", e, p.bytes(2)),
        6 => {
            // A whole block of an older write.
            let mut b = if block == 0 { rec[..512].to_vec() } else { p.bytes(512) };
            let old = n.wrapping_sub(p.range(1, 3) as u16);
            b[510..].copy_from_slice(&old.to_le_bytes());
            ("old block", block * 512, b)
        }
        7 => ("sequence number", uo, n.wrapping_add(p.range(1, 0xffff) as u16).to_le_bytes().to_vec()),
        _ => {
            let mut s = rec[..4].to_vec();
            match p.below(4) {
                0 => s.copy_from_slice(b"BAAD"),
                1 => s = if s[0] == b'F' { b"INDX".to_vec() } else { b"FILE".to_vec() },
                2 => s[p.below(4) as usize] ^= 1 << p.below(8),
                _ => s.fill(0),
            }
            ("signature", 0, s)
        }
    };
    // No change of what protects the record?
    if t.1 == e && t.2 == usn {
        return None;
    }
    Some(t)
}
const KINDS: u64 = 9;

struct Lab {
    img: Arc<Image>,
}
impl Lab {
    /// Runs f on a device with the patch (given as absolute pieces) and undoes it.
    fn with<R>(&mut self, patch: &[(u64, Vec<u8>)], f: impl FnOnce(&mut MonDisk) -> R) -> R {
        let mut undo = vec![];
        {
            let i = Arc::get_mut(&mut self.img).expect("no other user");
            for (o, b) in patch {
                undo.push((*o, i.get(*o, b.len())));
                i.write(*o, b);
            }
        }
        let mut d = MonDisk::new(self.img.clone());
        let r = f(&mut d);
        drop(d);
        let i = Arc::get_mut(&mut self.img).expect("no other user");
        for (o, b) in undo {
            i.write(o, &b);
        }
        r
    }
}
fn rec_pieces(v: &Vol, rec: u64, off: usize, b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    b.iter().enumerate().map(|(k, x)| (v.rec_pos_at(rec, (off + k) as u64).unwrap(), vec![*x])).collect()
}
fn val_pieces(t: &TAttr, off: u64, b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    b.iter().enumerate().map(|(k, x)| (t.disk_pos(off + k as u64).unwrap(), vec![*x])).collect()
}

fn build(p: &mut Prng) -> Vol {
    let mut geo = modest_geo(p);
    if p.chance(1, 12) {
        geo.irs = *p.pick(&[32768, 65536]);
    }
    let cross = p.chance(1, 3);
    if cross {
        cross_geo(p, &mut geo);
    }
    let opts = Opts { nrec: 90, upcase: UpKind::Unicode, scatter: p.chance(1, 2), cross, ..Opts::default() };
    let mut b = Builder::new(geo, opts, p.u64());
    let o = RichOpt { files: (2, 4), dirs: (1, 2), ents: 80, nrec: 90, stream_clusters: 30, ..RichOpt::default() };
    // Files that fill their record up to the last bytes.
    for _ in 0..p.range(1, 3) {
        let Some(r) = b.new_rec() else { break };
        let mut s = FileSpec::new(r, false);
        s.attrs.push(std_attr(p));
        let mut room = b.geo.frs as usize - 100 - 96;
        let mut k = 0;
        while room > 64 && k < 12 {
            let n = if p.chance(1, 3) { room - 40 } else { p.usize(0, (room - 40).min(400)) };
            s.attrs.push(Attr::res(DATA, &format!("s{k}"), p.bytes(n)));
            room = room.saturating_sub(align8(n) + 40);
            k += 1;
        }
        s.force_list = p.chance(1, 4);
        write_fitting(&mut b, s);
    }
    rich_into(&mut b, p, &o);
    b.finish()
}

fn intact(ctx: &mut Ctx, v: &Vol, ntfs: &Ntfs, d: &mut MonDisk) -> Res {
    for (r, f) in &v.files {
        let file = ntfs.file(d, *r).map_err(|e| e2v(&format!("file({r}) of an intact record"), e))?;
        if v.straddles(*r) {
            ctx.count("straddling", 1);
        }
        for t in f.attrs.iter().filter(|t| t.resident) {
            // Attributes in the same record, straight from it.
            if t.rec != *r {
                continue;
            }
            let mut ok = false;
            for a in file.attributes_raw() {
                let a = a.map_err(|e| e2v("attributes_raw", e))?;
                if a.instance() != t.instance {
                    continue;
                }
                let val = a.value(d).map_err(|e| e2v("value", e))?;
                if let NtfsAttributeValue::Resident(x) = val {
                    ensure!(
                        x.data() == &t.bytes[..],
                        "record {r}: attribute {:#x} {} does not show the original bytes (first difference at {:?})",
                        t.ty,
                        name_hex(&t.name),
                        diff(x.data(), &t.bytes)
                    );
                    ok = true;
                }
            }
            ensure!(ok, "record {r}: attribute {:#x} {} (instance {}) not found", t.ty, name_hex(&t.name), t.instance);
            ctx.count("intact_attrs", 1);
        }
    }
    for (r, dir) in &v.dirs {
        let f = ntfs.file(d, *r).map_err(|e| e2v("file", e))?;
        let Some(i) = walk::find_item(&f, d, IDXALLOC, &u16s("$I30")).map_err(|e| e2v("index allocation", e))? else { continue };
        let a = i.to_attribute().map_err(|e| e2v("index allocation", e))?;
        let al = a.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v("index allocation", e))?;
        for n in dir.index.nodes.iter().filter(|n| n.slot.is_some()) {
            let rec = al.record_from_vcn(d, dir.index.irs, (n.vcn as i64).into()).map_err(|e| e2v(&format!("index record at VCN {}", n.vcn), e))?;
            let mut k = 0;
            for e in rec.entries::<NtfsFileNameIndex>().map_err(|e| e2v("entries", e))? {
                let e = e.map_err(|e| e2v("entry", e))?;
                if let Some(key) = e.key() {
                    let key = key.map_err(|e| e2v("key", e))?;
                    let want = &dir.names[n.ents[k].0];
                    ensure!(
                        name_units(&key.name()) == want.name && key.data_size() == want.size && key.access_time().nt_timestamp() == want.times[3],
                        "index record at VCN {} of {r}, entry {k}: {} instead of {}",
                        n.vcn,
                        name_hex(&name_units(&key.name())),
                        name_hex(&want.name)
                    );
                    k += 1;
                    ctx.count("intact_entries", 1);
                }
            }
            ensure!(k == n.ents.len(), "index record at VCN {} of {r}: {k} entries instead of {}", n.vcn, n.ents.len());
        }
    }
    Ok(())
}

fn torn_record(ctx: &mut Ctx, v: &Vol, f: &TFile, rec: u64, d: &mut MonDisk, what: &str) -> Res {
    let ntfs = Ntfs::new(d).map_err(|e| e2v("Ntfs::new", e))?;
    if let Ok(x) = ntfs.file(d, rec) {
        bail!("{what}: file({rec}) succeeds: {}", walk::file_line(&x));
    }
    if rec == 0 {
        for r in v.files.keys() {
            ensure!(ntfs.file(d, *r).is_err(), "{what}: file({r}) succeeds although the MFT's own record is torn");
        }
        ctx.count("torn_mft", 1);
        return Ok(());
    }
    if rec == 3 {
        ensure!(ntfs.volume_info(d).is_err() && matches!(ntfs.volume_name(d), Some(Err(_))), "{what}: volume information is served");
    }
    if rec == 5 {
        ensure!(ntfs.root_directory(d).is_err(), "{what}: root_directory succeeds");
    }
    if rec == 10 {
        let mut n = Ntfs::new(d).map_err(|e| e2v("Ntfs::new", e))?;
        ensure!(n.read_upcase_table(d).is_err(), "{what}: read_upcase_table succeeds");
    }
    if f.rec == rec {
        ctx.count("torn_file", 1);
        // Through an index entry.
        if let Some((dr, k)) = v.dirs.iter().flat_map(|(r, x)| (0..x.refs.len()).map(move |k| (*r, k))).find(|(r, k)| v.dirs[r].refs[*k] & 0xffff_ffff_ffff == rec) {
            if dr != rec {
                let df = ntfs.file(d, dr).map_err(|e| e2v("file", e))?;
                let ix = df.directory_index(d).map_err(|e| e2v("directory_index", e))?;
                let mut it = ix.entries();
                let mut n = 0;
                while let Some(e) = it.next(d) {
                    let e = e.map_err(|e| e2v("entries of an intact directory", e))?;
                    if n == k {
                        ensure!(e.to_file(&ntfs, d).is_err(), "{what}: to_file() of an entry succeeds");
                        break;
                    }
                    n += 1;
                }
            }
        }
        // Other files are not affected.
        if let Some((r, o)) = v.files.iter().find(|(r, o)| **r != rec && o.ext.is_empty()) {
            let x = ntfs.file(d, *r).map_err(|e| e2v("another file", e))?;
            ensure!(x.sequence_number() == o.seq, "another file changed");
        }
        return Ok(());
    }
    ctx.count("torn_ext", 1);
    // Extension record of f.
    let file = ntfs.file(d, f.rec).map_err(|e| e2v(&format!("{what}: base record {}", f.rec), e))?;
    let homes = f.attrs.iter().filter(|t| t.rec == rec).count();
    let mut errs = 0;
    let mut left = f.attrs.len() + 4;
    let mut it = file.attributes();
    let mut seen: Vec<(u32, Vec<u16>, u64)> = vec![];
    while let Some(i) = it.next(d) {
        match i {
            Err(_) => {
                errs += 1;
            }
            Ok(i) => {
                let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
                let id = (a.ty().map_err(|e| e2v("ty", e))? as u32, name_units(&a.name().map_err(|e| e2v("name", e))?), a.value_length());
                let hit = f.attrs.iter().any(|t| t.rec != rec && t.ty == id.0 && t.name == id.1 && t.data_size == id.2);
                ensure!(hit, "{what}: attribute {:#x} {} is served from it", id.0, name_hex(&id.1));
                seen.push(id);
            }
        }
        left -= 1;
        if left == 0 {
            break;
        }
    }
    ensure!(homes == 0 || errs > 0, "{what}: {homes} attributes vanish without an error");
    ensure!(errs > 0 || seen.len() == f.attrs.len(), "{what}: {} attributes instead of {} without an error", seen.len(), f.attrs.len());
    // Values that need it.
    let cs = v.geo.cluster as u64;
    for t in f.attrs.iter().filter(|t| t.rec != rec && !t.resident && t.phys.iter().any(|x| x.0 == rec)) {
        if t.data_size > 1 << 22 {
            continue;
        }
        let mut needed = false;
        for (k, x) in t.phys.iter().enumerate() {
            let (a, b) = (x.2 * cs, t.phys.get(k + 1).map(|y| y.2 * cs).unwrap_or(u64::MAX));
            if x.0 == rec {
                needed |= t.segs.iter().any(|s| s.disk.is_some() && s.off >= a && s.off < b && s.len > 0 && s.off < t.data_size.min(t.init_size));
            }
        }
        let Ok(Some(i)) = walk::find_item(&file, d, t.ty, &t.name) else { continue };
        let got = (|| -> Result<Vec<u8>, NtfsError> {
            let a = i.to_attribute()?;
            let mut val = a.value(d)?;
            walk::read_at(&mut val, d, 0, t.data_size as usize + 3)
        })();
        match got {
            Err(_) => ctx.count("values_refused", 1),
            Ok(b) => {
                ensure!(!needed, "{what}: a value whose run list is partly in it reads completely");
                ensure!(b == t.all(&v.img), "{what}: a value reads other bytes");
            }
        }
    }
    Ok(())
}

fn torn_node(ctx: &mut Ctx, p: &mut Prng, v: &Vol, dir: &TDir, node: usize, ntfs: &Ntfs, d: &mut MonDisk, what: &str) -> Res {
    ctx.count("torn_index", 1);
    let f = ntfs.file(d, dir.rec).map_err(|e| e2v("file", e))?;
    let ix = f.directory_index(d).map_err(|e| e2v("directory_index", e))?;
    let parents = dir.index.parents();
    let home = dir.index.node_of_entry();
    let inside: BTreeSet<usize> = dir.index.nodes[node].ents.iter().map(|x| x.0).collect();
    let mut it = ix.entries();
    let (mut at, mut errs, mut left) = (0usize, 0, 2 * dir.names.len() + dir.index.nodes.len() + 8);
    while let Some(e) = it.next(d) {
        match e {
            Err(_) => errs += 1,
            Ok(e) => {
                let k = e.key().ok_or_else(|| Viol::from("entry without key".to_string()))?.map_err(|e| e2v("key", e))?;
                let u = name_units(&k.name());
                let Some(n) = (at..dir.names.len()).find(|n| dir.names[*n].name == u) else {
                    bail!("{what}: entry {} is repeated, out of order or invented", name_hex(&u));
                };
                ensure!(!inside.contains(&n), "{what}: entry {} of the torn record is served", name_hex(&u));
                at = n + 1;
            }
        }
        left -= 1;
        if left == 0 {
            break;
        }
    }
    ensure!(errs > 0, "{what}: iteration ends without an error");
    let mut fi = ix.finder();
    for _ in 0..6 {
        if dir.names.is_empty() {
            break;
        }
        let k = p.below(dir.names.len() as u64) as usize;
        let Ok(s) = String::from_utf16(&dir.names[k].name) else { continue };
        let through = dir.index.path(&parents, home[k].0).contains(&node);
        match NtfsFileNameIndex::find(&mut fi, ntfs, d, &s) {
            None => bail!("{what}: looking {s:?} up reports absence"),
            Some(Ok(e)) => {
                ensure!(!through, "{what}: {s:?} is found through the torn record");
                let u = name_units(&e.key().unwrap().map_err(|e| e2v("key", e))?.name());
                ensure!(u == dir.names[k].name, "{what}: another entry is found");
                ctx.count("lookups_unaffected", 1);
            }
            Some(Err(e)) => {
                ensure!(through, "{what}: looking {s:?} up fails although its path is intact: {e:?}");
                ctx.count("lookups_refused", 1);
            }
        }
    }
    if let Some(i) = walk::find_item(&f, d, IDXALLOC, &u16s("$I30")).map_err(|e| e2v("alloc", e))? {
        let a = i.to_attribute().map_err(|e| e2v("alloc", e))?;
        let al = a.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v("alloc", e))?;
        let vcn = dir.index.nodes[node].vcn as i64;
        if al.record_from_vcn(d, v.geo.irs, vcn.into()).is_ok() {
            bail!("{what}: record_from_vcn({vcn}) succeeds");
        }
        let mut it = al.records(v.geo.irs);
        let mut n = 0;
        while let Some(Ok(r)) = it.next(d) {
            ensure!(r.vcn().value() != vcn, "{what}: the raw records include it");
            n += 1;
            ensure!(n <= dir.index.slots, "{what}: more raw records than the allocation holds");
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let v = build(&mut p);
    {
        let (mut d, ntfs) = open(&v.img)?;
        intact(ctx, &v, &ntfs, &mut d)?;
    }
    // A private copy to damage.
    let mut lab = Lab { img: Arc::new((*v.img).clone()) };
    let mut targets: Vec<(u64, u64)> = vec![];
    for (r, f) in &v.files {
        if p.chance(1, 2) || *r == 0 {
            targets.push((*r, *r));
        }
        for e in &f.ext {
            targets.push((*r, *e));
        }
    }
    for (base, rec) in targets {
        let f = &v.files[&base];
        let raw = v.rec_raw(rec);
        for block in 0..raw.len() / 512 {
            ctx.count("blocks", 1);
            for kind in [p.below(KINDS - 2), p.below(KINDS)] {
                let Some((what, off, bytes)) = tear(&mut p, &raw, block, kind) else { continue };
                if what == "signature" {
                    ctx.count("signatures", 1);
                }
                let what = format!("record {rec} torn ({what}, block {block})");
                let pieces = rec_pieces(&v, rec, off, &bytes);
                lab.with(&pieces, |d| torn_record(ctx, &v, f, rec, d, &what))?;
                ctx.eval(seed ^ mix(rec * 64 + block as u64 * 16 + kind), true);
            }
        }
    }
    let mut up = Ntfs::new(&mut MonDisk::new(v.img.clone())).map_err(|e| e2v("Ntfs::new", e))?;
    up.read_upcase_table(&mut MonDisk::new(v.img.clone())).map_err(|e| e2v("read_upcase_table", e))?;
    for dir in v.dirs.values() {
        let Some(t) = v.files[&dir.rec].find(IDXALLOC, "$I30") else { continue };
        let irs = dir.index.irs as u64;
        let mut nodes: Vec<usize> = (0..dir.index.nodes.len()).filter(|n| dir.index.nodes[*n].slot.is_some()).collect();
        p.shuffle(&mut nodes);
        for n in nodes.into_iter().take(6) {
            let base = dir.index.nodes[n].slot.unwrap() * irs;
            let mut raw = vec![0; irs as usize];
            t.expect(&v.img, base, &mut raw);
            let blocks = irs / 512;
            for block in 0..blocks {
                if blocks > 16 && !p.chance(16, blocks) {
                    continue;
                }
                ctx.count("blocks", 1);
                let kind = p.below(KINDS);
                let Some((what, off, bytes)) = tear(&mut p, &raw, block as usize, kind) else { continue };
                if what == "signature" {
                    ctx.count("signatures", 1);
                }
                let what = format!("index record {} of {} torn ({what}, block {block})", dir.index.nodes[n].vcn, dir.rec);
                let pieces = val_pieces(t, base + off as u64, &bytes);
                let mut q = p.fork();
                lab.with(&pieces, |d| torn_node(ctx, &mut q, &v, dir, n, &up, d, &what))?;
                ctx.eval(seed ^ mix(dir.rec << 32 | (n as u64) << 12 | block << 4 | kind), true);
            }
        }
    }
    ctx.sample(|| format!("volume {:?}: {} files, {} directories, records torn block by block", v.geo, v.files.len(), v.dirs.len()));
    Ok(())
}
