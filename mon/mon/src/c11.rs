//! C11: a record number leads to exactly that file record.
use crate::fw::*;
use crate::util::*;
use ntfs::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::image::Image;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C11",
    level: "exploration",
    rule: "case = random volume whose MFT has 1 to 26 data runs in any order on the device (record size above and below the cluster size, records crossing run borders, preallocated tail beyond the data size that holds stale but valid-looking records), every record with its own time stamps; every record number from 0 to beyond the end, in random order, is opened by number, and through directory entries and attribute list references where there are some; number, position, sequence number and the stamps must be those of that slot; the known record numbers 0 to 11 must name the known files; never-used slots and numbers at or beyond the end (next ones, far ones, ones whose byte offset overflows or wraps to a valid one) must give an error. Non-trivial: MFT of more than one run",
    cases: (12000, 600_000),
    secs: (60, 1500),
    run,
    need: &["partial_tail", "opened", "blank_refused", "beyond_refused", "stale_tail_refused", "wrapped_refused", "by_entry", "by_list", "straddling", "ext_records", "mft_of_many_runs"],
    assumptions: &["the MFT's own record holds its complete run list; an MFT with an attribute list is a documented limitation of the library"],
    limits: (4_000_000_000, 2 << 30),
};

fn stamp(rec: u64, k: u64) -> u64 {
    mix(rec.wrapping_mul(4) + k)
}

/// The record numbers that NTFS fixes for its metadata files.
fn known_numbers() -> Res {
    use KnownNtfsFileRecordNumber as K;
    for (k, n) in [K::MFT, K::MFTMirr, K::LogFile, K::Volume, K::AttrDef, K::RootDirectory, K::Bitmap, K::Boot, K::BadClus, K::Secure, K::UpCase, K::Extend].into_iter().zip(0u64..) {
        let k = k as u64;
        ensure!(k == n, "metadata file {n} has the record number {k}");
    }
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    known_numbers()?;
    let mut p = Prng::new(seed);
    let mut geo = modest_geo(&mut p);
    let cross = p.chance(1, 3);
    if cross {
        cross_geo(&mut p, &mut geo);
    }
    let nrec = *p.pick(&[17u64, 20, 40, 64, 100, 200]);
    let opts = Opts { nrec, mft_max_runs: *p.pick(&[1, 3, 8, 26]), cross, upcase: UpKind::Ascii, scatter: p.chance(4, 5), ..Opts::default() };
    let mut b = Builder::new(geo.clone(), opts, p.u64());
    // The data may end inside a record, which does not count.
    let frs = geo.frs as u64;
    let room = b.mft_runs.iter().map(|r| r.clusters).sum::<u64>() * geo.cluster as u64 / frs > b.nrec;
    if room && p.chance(1, 3) {
        b.mft_data_size += if p.chance(1, 2) { frs - 1 } else { p.range(1, frs - 1) };
        ctx.count("partial_tail", 1);
    }
    // Which records exist.
    let mut recs: Vec<u64> = (16..b.nrec.min(400)).filter(|_| p.chance(3, 5)).collect();
    recs.push(b.nrec - 1);
    recs.retain(|r| *r >= 16);
    recs.sort_unstable();
    recs.dedup();
    p.shuffle(&mut recs);
    let mut stamps: BTreeMap<u64, [u64; 4]> = BTreeMap::new();
    let mut names: Vec<(FName, u64)> = vec![];
    for rec in recs {
        if b.files.contains_key(&rec) || b.files.values().any(|f| f.ext.contains(&rec)) {
            continue;
        }
        let mut s = FileSpec::new(rec, false);
        s.seq = p.range(1, 0xffff) as u16;
        let st = [stamp(rec, 0), stamp(rec, 1), stamp(rec, 2), stamp(rec, 3)];
        s.attrs.push(Attr::res(STDINFO, "", Builder::stdinfo(st, 0, None)));
        if p.chance(1, 12) {
            // With an extension record somewhere.
            let n = p.usize(1, 30);
            let mut a = Attr::res(DATA, "x", p.bytes(n));
            a.place = Place::In(1);
            s.attrs.push(a);
        }
        let seq = s.seq;
        if b.write_file(&s).is_some() {
            stamps.insert(rec, st);
            if names.len() < 60 && p.chance(1, 2) {
                // Entries may carry an old sequence number; the record number decides.
                let sq = if p.chance(1, 4) { p.u64() as u16 } else { seq };
                names.push((FName::random(&mut p, mft_ref(5, 5), &u16s(&format!("file{rec}"))), mft_ref(rec, sq)));
            }
        }
    }
    // An entry leading nowhere.
    names.push((FName::random(&mut p, mft_ref(5, 5), &u16s("nowhere")), mft_ref(b.nrec + p.skewed(40), 1)));
    let mut s = FileSpec::new(5, true);
    s.seq = 5;
    let st5 = [stamp(5, 0), stamp(5, 1), stamp(5, 2), stamp(5, 3)];
    s.attrs.push(Attr::res(STDINFO, "", Builder::stdinfo(st5, 0, None)));
    let fill = IdxFill::random(&mut p);
    if b.write_dir(s, names, fill, None).is_none() {
        return Ok(());
    }
    stamps.insert(5, st5);
    let v = b.finish();
    // Stale records in the preallocated tail of the MFT.
    let mut img: Image = (*v.img).clone();
    let slots: u64 = v.mft_runs.iter().map(|r| r.clusters).sum::<u64>() * geo.cluster as u64 / frs;
    let mut stale = vec![];
    for r in v.nrec..slots.min(v.nrec + 30) {
        let src = v.rec_raw(*p.pick(&v.files.keys().copied().collect::<Vec<_>>()));
        for k in 0..frs / 512 {
            if let Some(pos) = v.rec_pos_at(r, k * 512) {
                img.write(pos, &src[k as usize * 512..k as usize * 512 + 512]);
            }
        }
        stale.push(r);
    }
    let img = Arc::new(img);
    let mut d = MonDisk::new(img.clone());
    let n = Ntfs::new(&mut d).map_err(|e| e2v("Ntfs::new", e))?;
    let ext: BTreeMap<u64, (u64, u16)> = v.files.values().flat_map(|f| f.list_entries.iter().filter(|e| e.rec != f.rec).map(|e| (e.rec, (f.rec, e.seq)))).collect();

    let expect = |ctx: &mut Ctx, f: &NtfsFile, rec: u64, how: &str| -> Res {
        ensure!(f.file_record_number() == rec, "{how}: record {rec} reports number {}", f.file_record_number());
        ensure!(f.position().value().map(|x| x.get()) == v.rec_pos(rec), "{how}: record {rec} reports position {} instead of {:x?}", f.position(), v.rec_pos(rec));
        let seq = match v.files.get(&rec) {
            Some(t) => t.seq,
            None => ext[&rec].1,
        };
        ensure!(f.sequence_number() == seq, "{how}: record {rec} reports sequence number {} instead of {seq}", f.sequence_number());
        if let Some(st) = stamps.get(&rec) {
            let i = f.info().map_err(|e| e2v(&format!("{how}: info of record {rec}"), e))?;
            let got = [i.creation_time(), i.modification_time(), i.mft_record_modification_time(), i.access_time()].map(|t| t.nt_timestamp());
            ensure!(got == *st, "{how}: record {rec} holds the time stamps {got:x?} instead of {st:x?}");
        }
        ctx.count("opened", 1);
        ctx.count("straddling", v.straddles(rec) as u64);
        Ok(())
    };
    let mut order: Vec<u64> = (0..v.nrec.min(420)).collect();
    order.push(v.nrec - 1);
    p.shuffle(&mut order);
    for rec in order {
        d.pos = p.skewed(40);
        let r = n.file(&mut d, rec);
        if v.files.contains_key(&rec) || ext.contains_key(&rec) {
            let f = r.map_err(|e| e2v(&format!("file({rec}) of {} records in {} runs", v.nrec, v.mft_runs.len()), e))?;
            expect(ctx, &f, rec, "file")?;
            ctx.count("ext_records", ext.contains_key(&rec) as u64);
        } else {
            ensure!(r.is_err(), "record {rec} was never used, but opens with sequence number {}", r.map(|f| f.sequence_number()).unwrap_or(0));
            ctx.count("blank_refused", 1);
        }
    }
    // Beyond the end.
    let mut bad: Vec<(u64, &'static str)> = stale.iter().map(|r| (*r, "stale_tail_refused")).collect();
    for _ in 0..8 {
        bad.push((v.nrec + p.skewed(20), "beyond_refused"));
        bad.push((v.nrec.saturating_add(p.skewed(64)), "beyond_refused"));
        // Numbers whose byte offset wraps to an existing record, or whose low bits name one.
        let r = *p.pick(&v.files.keys().copied().collect::<Vec<_>>());
        let w = 1u64 << (64 - frs.trailing_zeros());
        bad.push((r + w * p.range(1, frs - 1), "wrapped_refused"));
        bad.push((r + (1u64 << p.range(32, 63)), "wrapped_refused"));
        bad.push((u64::MAX - p.below(3), "beyond_refused"));
        bad.push((u64::MAX / frs + p.below(3) - 1, "beyond_refused"));
    }
    for (rec, what) in bad {
        if rec < v.nrec {
            continue;
        }
        if let Ok(f) = n.file(&mut d, rec) {
            bail!("record {rec} is beyond the {} records of the MFT ({slots} slots), but opens with sequence number {} at {}", v.nrec, f.sequence_number(), f.position());
        }
        ctx.count(what, 1);
    }
    // Through directory entries.
    let root = n.root_directory(&mut d).map_err(|e| e2v("root_directory", e))?;
    expect(ctx, &root, 5, "root_directory")?;
    let ix = root.directory_index(&mut d).map_err(|e| e2v("directory_index", e))?;
    let mut it = ix.entries();
    let mut seen = 0;
    while let Some(e) = it.next(&mut d) {
        let e = e.map_err(|e| e2v("entries", e))?;
        let k = e.key().ok_or_else(|| Viol::from("an entry without key".to_string()))?.map_err(|e| e2v("key", e))?;
        let name = String::from_utf16_lossy(&name_units(&k.name()));
        let r = e.to_file(&n, &mut d);
        let r2 = e.file_reference().to_file(&n, &mut d);
        match name.strip_prefix("file").and_then(|x| x.parse::<u64>().ok()) {
            Some(rec) => {
                expect(ctx, &r.map_err(|e| e2v(&format!("to_file of entry {name}"), e))?, rec, "entry")?;
                expect(ctx, &r2.map_err(|e| e2v(&format!("reference of entry {name}"), e))?, rec, "reference")?;
                ctx.count("by_entry", 1);
            }
            None => ensure!(r.is_err() && r2.is_err(), "an entry that refers beyond the MFT opens a file"),
        }
        seen += 1;
    }
    ensure!(seen > 0, "the root directory yields no entries");
    // Through attribute lists.
    for (rec, f) in v.files.iter().filter(|x| !x.1.ext.is_empty()) {
        let file = n.file(&mut d, *rec).map_err(|e| e2v("file", e))?;
        for a in file.attributes_raw() {
            let a = a.map_err(|e| e2v("attributes_raw", e))?;
            if a.ty().map_err(|e| e2v("ty", e))? != NtfsAttributeType::AttributeList {
                continue;
            }
            let l = a.structured_value::<_, structured_values::NtfsAttributeList>(&mut d).map_err(|e| e2v("attribute list", e))?;
            let mut it = l.entries();
            let mut k = 0;
            while let Some(e) = it.next(&mut d) {
                let e = e.map_err(|e| e2v("list entries", e))?;
                let t = &f.list_entries[k.min(f.list_entries.len() - 1)];
                let g = e.to_file(&n, &mut d).map_err(|e| e2v("list entry to_file", e))?;
                expect(ctx, &g, t.rec, "list entry")?;
                ctx.count("by_list", 1);
                k += 1;
            }
            ensure!(k == f.list_entries.len(), "attribute list of record {rec} yields {k} entries");
        }
    }
    let multi = v.mft_runs.len() > 1;
    ctx.count("mft_of_many_runs", (v.mft_runs.len() > 8) as u64);
    ctx.max("max_mft_runs", v.mft_runs.len() as u64);
    ctx.eval(mix(seed), multi);
    ctx.sample(|| format!("MFT of {} records of {frs} bytes in {} runs, cluster {}, {} files, {} stale records behind the end", v.nrec, v.mft_runs.len(), geo.cluster, v.files.len(), stale.len()));
    Ok(())
}
