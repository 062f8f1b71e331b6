//! C10: the boot sector is accepted exactly when valid and decoded exactly.
use crate::fw::*;
use crate::util::*;
use ntfs::*;
use std::sync::Arc;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::image::Image;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C10",
    level: "exploration",
    rule: "case = (a) a complete random volume over all combinations of sector, cluster (512 bytes to 2 MiB, negative encoding above 128 sectors) and file record size in both encodings: every accessor equal, root directory, $Volume and $UpCase open; (b) boot sectors with every field random, extreme or at the border of its legal range, judged by a validity predicate written from the format (must open with these values, must be refused, or unspecified), including devices shorter than a boot sector and don't-care bytes of any content; thorough and some quick cases enumerate all 256 values of a one-byte field or all 65536 sector sizes. Non-trivial: distinct combination of the judged fields",
    cases: (3500, 400_000),
    secs: (60, 1200),
    run,
    need: &["volumes_opened", "sectors_valid", "sectors_refused", "large_clusters", "enumerated_spc", "enumerated_frs", "enumerated_sector", "bad_signature", "short_device", "lcn_overflow", "size_overflow"],
    assumptions: &["file record sizes that are not a power of two of 1024 to 4096 bytes but given as a cluster count, and total sizes or MFT positions beyond the device, are unspecified as long as nothing worse than an error happens"],
    limits: (2_000_000_000, 2 << 30),
};

#[derive(Clone, Debug)]
struct Bs {
    sector: u16,
    spc: u8,
    frs: u8,
    total: u64,
    lcn: u64,
    serial: u64,
    sig: [u8; 2],
}
#[derive(Debug, PartialEq)]
enum Want {
    Open { cluster: u32, frs: u32, size: u64, mft: u64 },
    Refuse(&'static str),
    Any,
}
fn judge(b: &Bs) -> Want {
    use Want::*;
    if b.sig != [0x55, 0xAA] {
        return Refuse("signature");
    }
    if ![512, 1024, 2048, 4096].contains(&b.sector) {
        return Refuse("sector size");
    }
    let spc: u64 = match b.spc {
        1 | 2 | 4 | 8 | 16 | 32 | 64 | 128 => b.spc as u64,
        0xF4..=0xFF => 1 << (256 - b.spc as u64),
        _ => return Refuse("sectors per cluster"),
    };
    let cluster = spc * b.sector as u64;
    if cluster > 2 << 20 {
        return Refuse("cluster size");
    }
    let mut unspec = false;
    let info = b.frs as i8;
    let frs = if info > 0 {
        let f = cluster * info as u64;
        if f > 65536 {
            return Refuse("file record size");
        }
        unspec |= ![1024, 2048, 4096].contains(&f);
        f
    } else {
        match -(info as i32) {
            e @ 10..=12 => 1u64 << e,
            // Smaller than the headers, or larger than anything sane.
            0..=5 | 17.. => return Refuse("file record size"),
            _ => {
                unspec = true;
                0
            }
        }
    };
    if b.lcn == 0 {
        return Refuse("MFT position");
    }
    let Some(mft) = b.lcn.checked_mul(cluster) else { return Refuse("MFT position") };
    let Some(size) = b.total.checked_mul(b.sector as u64) else { return Refuse("total size") };
    if unspec {
        return Any;
    }
    Open { cluster: cluster as u32, frs: frs as u32, size, mft }
}
fn put(img: &mut [u8], b: &Bs) {
    p16(img, 11, b.sector);
    img[13] = b.spc;
    p64(img, 40, b.total);
    p64(img, 48, b.lcn);
    img[64] = b.frs;
    p64(img, 72, b.serial);
    img[510..512].copy_from_slice(&b.sig);
}
fn try_one(ctx: &mut Ctx, raw: &[u8], b: &Bs) -> Res {
    let mut s = raw.to_vec();
    put(&mut s, b);
    let mut img = Image::new(1 << 20, 7);
    img.write(0, &s);
    let mut d = MonDisk::new(Arc::new(img));
    d.pos = 12345;
    let want = judge(b);
    match (Ntfs::new(&mut d), &want) {
        (Ok(n), Want::Open { cluster, frs, size, mft }) => {
            let got = (n.sector_size(), n.cluster_size(), n.file_record_size(), n.size(), n.serial_number(), n.mft_position().value().map(|x| x.get()));
            let exp = (b.sector, *cluster, *frs, *size, b.serial, Some(*mft));
            ensure!(got == exp, "boot sector {b:x?} decoded as (sector, cluster, file record, size, serial, MFT) = {got:x?}, encoded {exp:x?}");
            ctx.count("sectors_valid", 1);
        }
        (Err(e), Want::Open { .. }) => bail!("valid boot sector {b:x?} refused: {e}"),
        (Ok(n), Want::Refuse(why)) => bail!("boot sector {b:x?} accepted in spite of its {why}: {n:?}"),
        (Err(e), Want::Refuse(why)) => {
            // Whatever is named as wrong is what is there.
            match &e {
                NtfsError::InvalidTwoByteSignature { position, expected, actual } => {
                    let at = position.value().map(|x| x.get());
                    ensure!(b.sig != [0x55, 0xAA] && *actual == b.sig && *expected == [0x55, 0xAA] && at == Some(510), "boot sector {b:x?} refused with a wrong statement about its signature: {e:?}");
                }
                NtfsError::UnsupportedSectorSize { actual, .. } => ensure!(*actual == b.sector, "boot sector {b:x?}: {e:?}"),
                _ => {}
            }
            ctx.count("sectors_refused", 1);
            match *why {
                "signature" => ctx.count("bad_signature", 1),
                "MFT position" if b.lcn != 0 => ctx.count("lcn_overflow", 1),
                "total size" => ctx.count("size_overflow", 1),
                _ => {}
            }
        }
        (_, Want::Any) => ctx.count("unspecified", 1),
    }
    let mut g = Digest::default();
    g.s(&format!("{b:?}"));
    ctx.eval(g.0, want != Want::Any);
    Ok(())
}
fn rnd(p: &mut Prng) -> Bs {
    let sector = match p.below(8) {
        0 => p.u64() as u16,
        1 => *p.pick(&[0, 1, 256, 511, 513, 768, 1536, 3072, 4095, 4097, 8192, 0x8000, 0xFFFF]),
        _ => *p.pick(&[512, 512, 1024, 2048, 4096]),
    };
    let spc = match p.below(6) {
        0 => p.u64() as u8,
        1 => p.range(0xF0, 0xFF) as u8,
        _ => 1 << p.below(8),
    };
    let cl = match spc {
        0xF4.. => (1u64 << (256 - spc as u64)) * sector as u64,
        s => s as u64 * sector as u64,
    }
    .max(1);
    let frs = match p.below(6) {
        0 => p.u64() as u8,
        1 => (-(p.range(0, 32) as i8)) as u8,
        2 => p.range(1, 8) as u8,
        3 => (4096 / cl).clamp(0, 127) as u8,
        _ => (-(p.range(10, 12) as i8)) as u8,
    };
    let big = |p: &mut Prng, unit: u64| -> u64 {
        let lim = u64::MAX / unit.max(1);
        match p.below(6) {
            0 => lim.saturating_add(p.below(3)).saturating_sub(1),
            1 => p.u64(),
            2 => p.below(4),
            _ => p.skewed(44),
        }
    };
    let lcn = big(p, cl);
    let total = big(p, sector as u64);
    let sig = match p.below(10) {
        0 => [p.u64() as u8, p.u64() as u8],
        1 => *p.pick(&[[0xAA, 0x55], [0x55, 0xAB], [0x54, 0xAA], [0, 0], [0x55, 0], [0, 0xAA]]),
        _ => [0x55, 0xAA],
    };
    Bs { sector, spc, frs, total, lcn, serial: p.u64(), sig }
}
fn raw(p: &mut Prng) -> Vec<u8> {
    // Fields nobody should depend on hold anything, but the bytes that mark NTFS stay.
    let mut r = p.bytes(512);
    if p.chance(1, 2) {
        r.fill(0);
    }
    r[3..11].copy_from_slice(b"NTFS    ");
    // The fields that NTFS keeps at zero.
    r[14..21].fill(0);
    r[22..24].fill(0);
    r[32..36].fill(0);
    r[21] = 0xF8;
    r[65..68].fill(0);
    r[69..72].fill(0);
    r
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let r = raw(&mut p);
    for _ in 0..if ctx.thorough() { 120 } else { 40 } {
        let b = rnd(&mut p);
        try_one(ctx, &r, &b)?;
        ctx.sample(|| format!("{b:x?}: {:?}", judge(&b)));
    }
    if ctx.idx % 64 == 0 || ctx.verbose {
        let base = Bs { sector: 512 << p.below(4), spc: 1 << p.below(5), frs: 0xF6, total: 1 << 20, lcn: 4, serial: p.u64(), sig: [0x55, 0xAA] };
        for x in 0..=255u8 {
            try_one(ctx, &r, &Bs { spc: x, ..base.clone() })?;
            try_one(ctx, &r, &Bs { frs: x, ..base.clone() })?;
        }
        ctx.count("enumerated_spc", 1);
        ctx.count("enumerated_frs", 1);
    }
    if ctx.idx % 512 == 0 || ctx.verbose {
        let base = Bs { sector: 512, spc: 1, frs: 0xF6, total: 1 << 20, lcn: 4, serial: p.u64(), sig: [0x55, 0xAA] };
        for x in 0..=65535u16 {
            try_one(ctx, &r, &Bs { sector: x, ..base.clone() })?;
            try_one(ctx, &r, &Bs { sig: x.to_le_bytes(), ..base.clone() })?;
        }
        ctx.count("enumerated_sector", 1);
    }
    {
        // A device that ends within the boot sector.
        let mut s = r.clone();
        put(&mut s, &Bs { sector: 512, spc: 8, frs: 0xF6, total: 1 << 20, lcn: 4, serial: 1, sig: [0x55, 0xAA] });
        let n = p.below(512);
        let mut img = Image::new(n, 7);
        img.write(0, &s);
        let mut d = MonDisk::new(Arc::new(img));
        d.size = n;
        match Ntfs::new(&mut d) {
            Ok(_) => bail!("a device of {n} bytes opens as a volume"),
            Err(NtfsError::Io(_)) => ctx.count("short_device", 1),
            Err(e) => bail!("a device of {n} bytes is refused with {e:?} instead of an I/O error"),
        }
    }
    // A complete volume.
    let g = Geo::random(&mut p);
    let mut b = Builder::new(g.clone(), Opts { nrec: 17 + p.below(20), upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
    if let Some(rec) = b.new_rec() {
        let mut s = FileSpec::new(rec, false);
        s.attrs.push(std_attr(&mut p));
        write_fitting(&mut b, s);
    }
    let v = b.finish();
    let mut d = MonDisk::new(v.img.clone());
    let mut n = Ntfs::new(&mut d).map_err(|e| e2v(&format!("Ntfs::new of a volume {g:?}"), e))?;
    let got = (n.sector_size() as u32, n.cluster_size(), n.file_record_size(), n.size(), n.serial_number(), n.mft_position().value().map(|x| x.get()));
    let exp = (g.sector, g.cluster, g.frs, g.clusters * g.cluster as u64, g.serial, Some(v.mft_runs[0].lcn.unwrap() * g.cluster as u64));
    ensure!(got == exp, "volume {g:?}: accessors {got:x?}, encoded {exp:x?}");
    n.read_upcase_table(&mut d).map_err(|e| e2v(&format!("read_upcase_table of a volume {g:?}"), e))?;
    let root = n.root_directory(&mut d).map_err(|e| e2v(&format!("root_directory of a volume {g:?}"), e))?;
    ensure!(root.file_record_number() == 5 && root.is_directory(), "the root directory of {g:?} is record {}", root.file_record_number());
    ensure!(root.directory_index(&mut d).is_ok(), "the root directory of {g:?} has no index");
    n.volume_info(&mut d).map_err(|e| e2v(&format!("volume_info of a volume {g:?}"), e))?;
    ctx.count("volumes_opened", 1);
    ctx.count("large_clusters", (g.cluster > 65536) as u64);
    let mut h = Digest::default();
    h.s(&format!("{g:?}"));
    ctx.eval(h.0, true);
    Ok(())
}
