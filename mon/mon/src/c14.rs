//! C14: a device that ends early never yields invented data.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, ask, render};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::*;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::probe::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C14",
    level: "exploration",
    rule: "case = random volume; questions are asked on the complete device and on devices that end at random and at structure-related places (within records, runs, index records, the boot sector, the table), also shrinking while objects are in use; each answer must be the complete device's or an error. Non-trivial: the device ends inside what the question reads (an error was given, or the end lies between the first and last byte read)",
    cases: (2200, 80_000),
    secs: (60, 1500),
    run,
    need: &["errors", "unaffected", "cuts", "value_cuts", "shrunk_in_use", "boot_cuts", "upcase_cuts"],
    assumptions: &["the device reports its end by reading zero bytes, as files and cursors do"],
    limits: (4_000_000_000, 6 << 30),
};

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 80, files: (2, 4), dirs: (1, 2), ents: 40, ..RichOpt::default() };
    let v = rich(&mut p, &o);
    let (mut d, ntfs) = open_up(&v.img)?;
    let mut probes = plan(&v, &mut p, 3);
    p.shuffle(&mut probes);
    probes.truncate(if ctx.thorough() { 300 } else { 70 });
    for q in &probes {
        d.size = v.img.size;
        d.delivery = Delivery::Full;
        d.log = Some(vec![]);
        d.reset_counts();
        let full = ask(&ntfs, &mut d, q);
        let text = render(&full);
        let log = d.log.take().unwrap();
        let reads: Vec<(u64, u64)> = log.iter().filter_map(|o| if let Op::Read(a, _, n) = o { Some((*a, *n)) } else { None }).filter(|x| x.1 > 0).collect();
        if reads.is_empty() {
            continue;
        }
        let mut cuts: Vec<u64> = vec![];
        for _ in 0..5 {
            let (a, n) = *p.pick(&reads);
            cuts.push(match p.below(5) {
                0 => a,
                1 => a + n - 1,
                // Ends right behind the last byte ever read, or somewhere in the middle.
                3 => if p.chance(1, 2) { reads.iter().map(|x| x.0 + x.1).max().unwrap() } else { a + n },
                2 => (a + p.below(n)) / 512 * 512,
                _ => a + p.below(n),
            });
        }
        for cut in cuts {
            let del = p.chance(1, 3);
            d.size = cut;
            d.delivery = if del { Delivery::Random(p.fork()) } else { Delivery::Full };
            let r = ask(&ntfs, &mut d, q);
            ctx.eval(mix(seed ^ cut ^ mix(q.kind().len() as u64)), r.is_err());
            ctx.count("cuts", 1);
            match &r {
                Err(_) => ctx.count("errors", 1),
                Ok(_) => {
                    ctx.count("unaffected", 1);
                    let t = render(&r);
                    ensure!(t == text, "{q:?} on a device that ends at {cut:#x} of {:#x}: {}", v.img.size, text_diff(&t, &text));
                }
            }
        }
    }
    d.size = v.img.size;
    // The device shrinks while values and iterators are in use.
    let cands: Vec<(u64, TAttr)> = v
        .files
        .iter()
        .flat_map(|(r, f)| f.attrs.iter().filter(|a| !a.resident && a.data_size > 0).map(move |a| (*r, a.clone())))
        .collect();
    for _ in 0..4 {
        let (rec, t) = p.pick(&cands).clone();
        let mut q = p.fork();
        d.size = v.img.size;
        with_value(&ntfs, &mut d, rec, t.ty, &t.name, |d, mut val, _| {
            let real: Vec<&Seg> = t.segs.iter().filter(|s| s.disk.is_some()).collect();
            for _ in 0..12 {
                let cut = if real.is_empty() || q.chance(1, 5) {
                    q.below(v.img.size)
                } else {
                    let s = *q.pick(&real);
                    s.disk.unwrap() + q.range(0, s.len)
                };
                d.size = cut;
                let off = interesting(&t, &mut q).min(t.data_size);
                let n = q.skewed(14) as usize;
                let want = (t.data_size - off).min(n as u64) as usize;
                ctx.count("value_cuts", 1);
                match walk::read_at(&mut val, d, off, n) {
                    Err(_) => {
                        ctx.count("errors", 1);
                        // Some byte of the range must really be unavailable, unless the run list
                        // itself has to be read from elsewhere.
                        let mut ok = matches!(val, NtfsAttributeValue::NonResident(_));
                        for k in 0..want as u64 {
                            if off + k < t.init_size {
                                if let Some(x) = t.disk_pos(off + k) {
                                    ok &= x < cut;
                                }
                            }
                        }
                        ensure!(!ok, "read of {n} at {off} of record {rec} {:#x} fails although all of it lies before the end {cut:#x} (data_size {}, init {})", t.ty, t.data_size, t.init_size);
                    }
                    Ok(b) => {
                        let mut ex = vec![0; want];
                        t.expect(&d.img, off, &mut ex);
                        ensure!(b.len() == want, "read of {n} at {off} on a device that ends at {cut:#x}: {} bytes instead of {want}, without an error (record {rec} {:#x}, data_size {}, {} extents {:?})", b.len(), t.ty, t.data_size, t.extents, t.phys);
                        ensure!(b == ex, "read of {n} at {off} on a device that ends at {cut:#x}: wrong bytes");
                    }
                }
                // Single read: only right bytes count.
                d.size = v.img.size;
                use ntfs::NtfsReadSeek;
                val.seek(d, std::io::SeekFrom::Start(off)).map_err(|e| e2v("seek", e))?;
                d.size = cut;
                let mut b = vec![0xA5; n];
                if let Ok(g) = val.read(d, &mut b) {
                    let mut ex = vec![0; g];
                    ensure!(g <= want && (g > 0 || want == 0), "one read of {n} at {off} on a device that ends at {cut:#x}: {g} of {want} bytes");
                    t.expect(&d.img, off, &mut ex);
                    ensure!(b[..g] == ex[..], "one read of {n} at {off} on a device that ends at {cut:#x}: wrong bytes");
                }
            }
            Ok(())
        })?;
    }
    d.size = v.img.size;
    for (r, _) in v.dirs.iter() {
        let f = ntfs.file(&mut d, *r).map_err(|e| e2v("file", e))?;
        let ix = f.directory_index(&mut d).map_err(|e| e2v("directory_index", e))?;
        let mut full = vec![];
        let mut it = ix.entries();
        while let Some(e) = it.next(&mut d) {
            full.push(walk::entry_line(&e.map_err(|e| e2v("entry", e))?).map_err(|e| e2v("entry", e))?);
        }
        let mut it = ix.entries();
        let mut n = 0;
        let stop = p.range(0, full.len() as u64) as usize;
        let cut = v.dirs[r].index.nodes.iter().flat_map(|x| x.ent_pos.clone()).nth(p.below(40) as usize).unwrap_or(0);
        loop {
            if n == stop {
                d.size = cut;
                ctx.count("shrunk_in_use", 1);
            }
            match it.next(&mut d) {
                None => {
                    ensure!(n == full.len(), "index iteration on a device that ends at {cut:#x} ends after {n} of {} entries without an error", full.len());
                    break;
                }
                Some(Err(_)) => break,
                Some(Ok(e)) => {
                    let l = walk::entry_line(&e).map_err(|e| e2v("entry", e))?;
                    ensure!(n < full.len() && l == full[n], "index iteration on a device that ends at {cut:#x}: entry {n} is «{l}»");
                    n += 1;
                }
            }
        }
        d.size = v.img.size;
    }
    // Opening.
    let good = walk::ask_volume(&ntfs);
    for cut in [0, 1, 3, 11, 0x40, 0x50, 509, 510, 511, p.below(512), 512, 513] {
        let mut e = MonDisk::new(v.img.clone());
        e.size = cut;
        ctx.count("boot_cuts", 1);
        match Ntfs::new(&mut e) {
            Ok(n) => ensure!(cut >= 512 && walk::ask_volume(&n) == good, "Ntfs::new on a device of {cut} bytes: {}", walk::ask_volume(&n)),
            Err(_) => ensure!(cut < 512, "Ntfs::new on a device of {cut} bytes fails"),
        }
    }
    let t = v.files[&10].find(DATA, "").unwrap().clone();
    for _ in 0..3 {
        let mut e = MonDisk::new(v.img.clone());
        let mut n = Ntfs::new(&mut e).map_err(|x| e2v("new", x))?;
        let k = p.below(t.data_size);
        let cut = t.disk_pos(k).unwrap_or(0);
        e.size = cut;
        ctx.count("upcase_cuts", 1);
        ensure!(n.read_upcase_table(&mut e).is_err(), "read_upcase_table succeeds although byte {k} of the table lies beyond the end of the device");
    }
    Ok(())
}
