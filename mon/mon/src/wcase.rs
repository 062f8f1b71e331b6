//! Cases that two builds of the library answer: a device and what to ask about it. Both builds make
//! the same case of the same seed. Shared with the no_std harness.
use std::io::ErrorKind;
use std::sync::Arc;
use vmodel::disk::{Delivery, Fault, MonDisk};
use vmodel::gen::*;
use vmodel::hostile::{apply, Hostile};
use vmodel::hostile::Rec;
use vmodel::probe::{plan, Probe};
use vmodel::vol::*;
use vmodel::prng::*;

pub struct WCase {
    pub disk: MonDisk,
    pub probes: Vec<Probe>,
    pub kind: &'static str,
}

pub fn wcase(seed: u64, tiny: bool) -> WCase {
    let mut p = Prng::new(seed);
    if p.chance(1, if tiny { 3 } else { 8 }) {
        return wide(&mut p);
    }
    let o = if tiny {
        RichOpt { cross: p.chance(1, 2), ..RichOpt::tiny() }
    } else {
        RichOpt { nrec: 80, files: (1, 5), dirs: (1, 2), ents: *p.pick(&[6, 30, 100]), stream_clusters: 24, wild_names: p.chance(1, 4), ..RichOpt::default() }
    };
    let v = rich(&mut p, &o);
    let mut probes = plan(&v, &mut p, if tiny { 2 } else { 3 });
    if tiny {
        // The table has been read by then.
        p.shuffle(&mut probes);
        probes.truncate(60);
    }
    let mut disk = MonDisk::new(v.img.clone());
    let kind = match p.below(8) {
        0..=2 => "well_formed",
        3..=5 => {
            let h = Hostile::new(&v);
            let mut img = (*v.img).clone();
            if p.chance(1, 2) {
                img.set_poison(0);
            }
            for _ in 0..p.range(1, 4) {
                let m = if p.chance(1, 3) { h.wrap(&mut p) } else { h.mutate(&mut p) };
                apply(&mut img, &m);
            }
            disk.img = Arc::new(img);
            "hostile"
        }
        6 => {
            disk.size = p.below(disk.size + 1);
            if p.chance(2, 3) {
                // Within what is used.
                let pages = v.img.explicit_pages();
                disk.size = (*p.pick(&pages) * 4096 + p.below(4096)).min(v.img.size);
            }
            "truncated"
        }
        _ => {
            match p.below(3) {
                0 => disk.delivery = Delivery::Random(p.fork()),
                1 => disk.interrupts = Some((p.fork(), 4)),
                _ => {
                    let at = p.below(40);
                    let count = if p.chance(1, 2) { 1 } else { u64::MAX };
                    disk.faults = vec![Fault { at, count, kind: *p.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::PermissionDenied]) }];
                }
            }
            "irregular"
        }
    };
    WCase { disk, probes, kind }
}

/// A multiple of 2^32, or almost.
fn about(p: &mut Prng, k: u64, small: u32) -> u64 {
    let (b, j) = (p.range(0, k) << 32, p.skewed(small));
    if p.chance(1, 2) { b + j } else { b.saturating_sub(j) }
}

/// Sizes, positions and numbers around multiples of 2^32.
fn wide(p: &mut Prng) -> WCase {
    let mut g = modest_geo(p);
    g.clusters = g.clusters.max(1 << 40);
    let c = g.cluster as u64;
    let mut b = Builder::new(g.clone(), Opts { nrec: 40, upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
    rich_into(&mut b, p, &RichOpt { files: (0, 1), dirs: (0, 0), ents: 5, stream_clusters: 4, ..RichOpt::tiny() });
    let mut recs = vec![];
    for _ in 0..p.range(1, 3) {
        let Some(r) = b.new_rec() else { break };
        let mut s = FileSpec::new(r, false);
        s.attrs.push(std_attr(p));
        for name in ["", "w"] {
            let mut runs = vec![];
            let mut total = 0;
            for _ in 0..p.range(1, 3) {
                let n = match p.below(3) {
                    0 => p.range(1, 3),
                    // That many bytes or that many clusters.
                    1 => about(p, 3, 14) / c + 1,
                    _ => about(p, 2, 3) + 1,
                };
                let lcn = if p.chance(1, 4) { None } else { Some(b.alloc(n)) };
                runs.push(Run { clusters: n, lcn });
                total += n * c;
            }
            let size = |p: &mut Prng, max: u64| if p.chance(1, 2) { about(p, (max >> 32) + 1, 10).min(max) } else { max - p.skewed(12).min(max) };
            let ds = size(p, total);
            let is = match p.below(6) {
                0 | 1 => size(p, ds),
                2 => p.skewed(30).min(ds),
                _ => ds,
            };
            let mut a = Attr::non(DATA, name, b.stream_body(runs, ds, is));
            a.place = Place::In(0);
            s.attrs.push(a);
        }
        if write_fitting(&mut b, s) {
            recs.push(r);
        }
    }
    let v = b.finish();
    let mut probes = vec![];
    for r in &recs {
        probes.push(Probe::RawAttrs(*r));
        // Numbers that are that of the file in 32 bits, or whose positions are.
        probes.push(Probe::File(*r + (1 << 32)));
        probes.push(Probe::File(*r + (p.range(1, 3) << 32) / g.frs as u64));
        for a in v.files[r].attrs.iter().filter(|a| a.ty == DATA) {
            probes.push(Probe::Runs(*r, a.ty, a.name.clone()));
            for _ in 0..8 {
                // Some multiple of 2^32 before something ends.
                let mut ends = vec![(a.data_size, a.data_size), (a.init_size, a.init_size)];
                for s in &a.segs {
                    let m = (s.off + s.len).min(a.data_size).max(s.off);
                    ends.extend([(m, m - s.off), (s.off + s.len, s.len)]);
                }
                let (e, l) = *p.pick(&ends);
                let d = p.range((l >> 32).min(1), l >> 32) << 32;
                let j = p.skewed(8);
                let off = if p.chance(7, 8) { (e - d).saturating_sub(j) } else { e - d + j };
                let n = p.range(1, 300) as u32;
                probes.push(if p.chance(1, 4) { Probe::Attach(*r, a.ty, a.name.clone(), off, n) } else { Probe::Read(*r, a.ty, a.name.clone(), off, n) });
            }
        }
    }
    let mut more = plan(&v, p, 1);
    p.shuffle(&mut more);
    more.truncate(6);
    probes.extend(more);
    let mut disk = MonDisk::new(v.img.clone());
    if p.chance(1, 2) {
        // Numbers that look right in 32 bits.
        let mut img = (*v.img).clone();
        for (r, f) in &v.files {
            if !p.chance(1, 3) {
                continue;
            }
            let rec = Rec::file(&v, *r);
            for (o, _) in rec.attrs() {
                let high = |p: &mut Prng| (p.range(1, 3) as u32).to_le_bytes();
                if rec.bytes[o + 8] != 0 && p.chance(1, 3) {
                    let k = *p.pick(&[16, 24, 40, 48, 56]);
                    apply(&mut img, &rec.put(o + k + 4, &high(p)));
                    probes.push(Probe::RawAttrs(*r));
                    if let Some(a) = f.attrs.iter().find(|a| !a.resident) {
                        probes.push(Probe::Read(*r, a.ty, a.name.clone(), p.skewed(12), 64));
                    }
                }
                if rec.bytes[o + 8] == 0 && rec.u32(o) as u32 == IDXROOT {
                    // The nodes that the root refers to.
                    let mut e = o + rec.u16(o + 20) + 32;
                    loop {
                        let l = rec.u16(e + 8);
                        if rec.bytes[e + 12] & 1 != 0 && p.chance(1, 2) {
                            apply(&mut img, &rec.put(e + l - 4, &high(p)));
                            probes.push(Probe::Dir(*r));
                        }
                        if rec.bytes[e + 12] & 2 != 0 {
                            break;
                        }
                        e += l;
                    }
                }
            }
        }
        disk.img = Arc::new(img);
    }
    WCase { disk, probes, kind: "wide" }
}
