//! Random volumes and streams shared by the checks.
use crate::prng::Prng;
use crate::vol::*;

pub struct StreamOpt {
    pub max_clusters: u64,
    pub max_runs: u64,
    pub sparse: bool,
    /// Initialized size below the data size is allowed.
    pub uninit: bool,
    /// Allocation may extend beyond the data size by whole clusters.
    pub prealloc: bool,
    /// One stream of the volume may map the boot clusters (a run at cluster 0).
    pub lcn0: bool,
}
impl StreamOpt {
    pub fn small() -> Self {
        StreamOpt { max_clusters: 40, max_runs: 12, sparse: true, uninit: true, prealloc: true, lcn0: true }
    }
}

pub fn stream(b: &mut Builder, o: &StreamOpt) -> (Body, u16) {
    let c = b.geo.cluster as u64;
    let mut n = 1 + b.p.skewed(64 - o.max_clusters.leading_zeros()).min(o.max_clusters - 1);
    n = n.min(b.geo.clusters / 16).max(1);
    let k = if b.p.chance(1, 3) { 1 } else { b.p.range(1, o.max_runs) };
    let sparse = o.sparse && b.p.chance(1, 2);
    let mut runs = b.runs(n, k, sparse);
    if o.lcn0 && !b.boot_mapped && b.p.chance(1, 8) {
        b.boot_mapped = true;
        let at = b.p.usize(0, runs.len());
        let m = u64::max(1, 8192 / c);
        runs.insert(at, Run { clusters: m, lcn: Some(0) });
        n += m;
    }
    let alloc = n * c;
    let mut ds = match b.p.below(6) {
        0 => alloc,
        1 => alloc - c + 1,
        2 => alloc - 1,
        _ => alloc - c + b.p.range(1, c),
    };
    if o.prealloc && b.p.chance(1, 4) {
        ds = if b.p.chance(1, 4) { b.p.range(0, 2) } else { b.p.range(0, alloc) };
    }
    let mut init = ds;
    if o.uninit && b.p.chance(1, 3) {
        init = match b.p.below(4) {
            0 => 0,
            1 => ds.saturating_sub(b.p.range(1, c)),
            _ => b.p.range(0, ds),
        };
    }
    let flags = if runs.iter().any(|r| r.lcn.is_none()) { 0x8000 } else { 0 };
    (b.stream_body(runs, ds, init), flags)
}

pub fn rand_name(p: &mut Prng, max: usize) -> Vec<u16> {
    let n = match p.below(8) {
        0 => 1,
        1 => max,
        _ => p.usize(1, max.min(14)),
    };
    let pairs = p.chance(1, 5);
    let mut v: Vec<u16> = (0..n)
        .map(|_| match p.below(10) {
            0 => p.range(0xC0, 0x17F) as u16,
            1 => p.range(0x3B1, 0x44F) as u16,
            2 => p.range(0x4E00, 0x4EFF) as u16,
            3 => b"._-$ ~1"[p.below(7) as usize] as u16,
            4..=6 => p.range(b'A' as u64, b'Z' as u64) as u16,
            _ => p.range(b'a' as u64, b'z' as u64) as u16,
        })
        .collect();
    // Now and then characters outside the Basic Multilingual Plane.
    if pairs && n >= 2 {
        for _ in 0..p.range(1, 3) {
            let k = p.usize(0, n - 2);
            if (k == 0 || !(0xD800..0xDC00).contains(&v[k - 1])) && !(0xDC00..0xE000).contains(&v[k]) && !(0xD800..0xDC00).contains(&v[k + 1]) {
                v[k] = p.range(0xD800, 0xDBFF) as u16;
                v[k + 1] = p.range(0xDC00, 0xDFFF) as u16;
            }
        }
    }
    v
}

/// A name that now and then is as long as the format allows.
pub fn attr_name(p: &mut Prng, max: usize) -> Vec<u16> {
    if !p.chance(1, 9) {
        return rand_name(p, max);
    }
    let n = match p.below(4) {
        0 => 255,
        1 => p.usize(126, 130),
        _ => p.usize(60, 255),
    };
    let upper = p.chance(1, 2);
    (0..n).map(|_| p.range(b'a' as u64, b'z' as u64) as u16 ^ if upper && p.chance(1, 8) { 32 } else { 0 }).collect()
}

pub fn std_attr(p: &mut Prng) -> Attr {
    let v3 = if p.chance(3, 4) { Some([p.u64(), p.u64(), p.u64(), p.u64(), p.u64(), p.u64(), p.u64()]) } else { None };
    Attr::res(STDINFO, "", Builder::stdinfo([p.skewed(64), p.skewed(64), p.skewed(64), p.skewed(64)], p.u64() as u32, v3))
}
pub fn name_attr(p: &mut Prng, parent: u64, name: &[u16]) -> Attr {
    Attr::res(FILENAME, "", FName::random(p, parent, name).bytes())
}

/// Offsets where something happens in the stream: run borders, initialized size, data size, 2^32.
pub fn interesting(t: &TAttr, p: &mut Prng) -> u64 {
    let base = match p.below(6) {
        0 => t.data_size,
        1 => t.init_size,
        2 | 3 if !t.segs.is_empty() => {
            let s = &t.segs[p.below(t.segs.len() as u64) as usize];
            if p.chance(1, 2) { s.off } else { s.off + s.len }
        }
        4 if t.data_size > 1 << 32 => {
            let k = p.range(1, t.data_size >> 32);
            k << 32
        }
        _ => p.range(0, t.data_size),
    };
    let j = p.skewed(13);
    if p.chance(1, 2) { base.saturating_sub(j) } else { base.saturating_add(j) }
}

/// A random geometry without extreme cluster sizes.
pub fn modest_geo(p: &mut Prng) -> Geo {
    let mut g = Geo::random(p);
    if g.cluster > 65536 {
        g.cluster = 65536;
        g.clusters = g.clusters.min(1 << 40);
    }
    g
}

/// Makes file records larger than clusters.
pub fn cross_geo(p: &mut Prng, g: &mut Geo) {
    if g.sector <= 2048 {
        g.frs = *p.pick(&[2048, 4096, 4096]);
        let lo = g.sector.trailing_zeros() as u64;
        let hi = g.frs.trailing_zeros() as u64 - 1;
        if lo <= hi {
            g.cluster = 1 << p.range(lo, hi);
        }
    }
}

#[derive(Clone, Debug)]
pub struct RichOpt {
    pub geo: Option<Geo>,
    pub files: (u64, u64),
    pub dirs: (u64, u64),
    /// Entries per directory (upper bound).
    pub ents: u64,
    /// Streams may be larger than fits in memory.
    pub huge: bool,
    pub upcase: UpKind,
    pub nrec: u64,
    /// Attribute lists and extension records.
    pub lists: bool,
    /// Names may hold any UTF-16 units (otherwise printable ones that can be typed).
    pub wild_names: bool,
    pub stream_clusters: u64,
    /// Names within a directory are distinct after upcasing.
    pub distinct_up: bool,
    /// Some volumes have file records that cross the borders of the MFT's data runs.
    pub cross: bool,
}
impl Default for RichOpt {
    fn default() -> Self {
        RichOpt {
            geo: None,
            files: (3, 8),
            dirs: (1, 3),
            ents: 60,
            huge: true,
            upcase: UpKind::Unicode,
            nrec: 160,
            lists: true,
            wild_names: false,
            stream_clusters: 64,
            distinct_up: true,
            cross: true,
        }
    }
}
impl RichOpt {
    /// Small enough for slow interpreters.
    pub fn tiny() -> Self {
        RichOpt { files: (2, 3), dirs: (1, 1), ents: 14, huge: true, upcase: UpKind::Ascii, nrec: 48, stream_clusters: 6, ..RichOpt::default() }
    }
}

pub fn wild_name(p: &mut Prng, max: usize) -> Vec<u16> {
    let n = p.usize(1, max.min(10));
    (0..n)
        .map(|_| match p.below(6) {
            0 => p.u64() as u16,
            1 => p.range(0xD7F0, 0xE00F) as u16,
            2 => p.range(0xFFF0, 0xFFFF) as u16,
            3 => p.range(0, 0x20) as u16,
            _ => p.range(b'A' as u64, b'z' as u64) as u16,
        })
        .collect()
}
pub fn obj_id(p: &mut Prng) -> Attr {
    let n = *p.pick(&[16usize, 32, 48, 64, 64]);
    let mut b = p.bytes(n);
    if p.chance(1, 2) {
        // Small fields, to see leading zeros.
        for x in b.iter_mut() {
            if p.chance(1, 2) {
                *x &= 0x0f;
            }
        }
    }
    Attr::res(OBJID, "", b)
}

/// Attributes of one random regular file (without the ones that every file has).
pub fn file_attrs(b: &mut Builder, o: &RichOpt) -> Vec<Attr> {
    let mut p = b.p.fork();
    let mut v = vec![];
    if p.chance(1, 3) {
        v.push(obj_id(&mut p));
    }
    if p.chance(1, 4) {
        let n = p.usize(1, 60);
        v.push(Attr::res(SECDESC, "", p.bytes(n)));
    }
    let ns = p.range(0, 3);
    let mut names: Vec<Vec<u16>> = vec![];
    for i in 0..ns {
        let name = if i == 0 && p.chance(3, 4) {
            vec![]
        } else if o.wild_names && p.chance(1, 3) {
            wild_name(&mut p, 12)
        } else {
            attr_name(&mut p, 12)
        };
        if names.iter().any(|n| b.up(n) == b.up(&name)) {
            continue;
        }
        names.push(name.clone());
        let mut a = if p.chance(1, 3) {
            let n = p.skewed(7) as usize;
            Attr::res(DATA, "", p.bytes(n))
        } else {
            let huge = o.huge && p.chance(1, 8);
            let so = StreamOpt {
                max_clusters: if huge { 1 << 36 } else { o.stream_clusters },
                max_runs: if b.geo.frs == 1024 { 10 } else { 30 },
                ..StreamOpt::small()
            };
            let (body, fl) = if p.chance(1, 12) {
                // Nothing allocated at all.
                (Body::Non { runs: vec![], data_size: 0, init_size: 0, seed: None }, 0)
            } else {
                stream(b, &so)
            };
            let mut a = Attr::non(DATA, "", body);
            a.flags = fl;
            a
        };
        a.name = name;
        a.pad = p.chance(1, 5);
        v.push(a);
    }
    if p.chance(1, 6) {
        let n = p.usize(1, 40);
        v.push(Attr::res(0xC0, "", p.bytes(n)));
    }
    if p.chance(1, 6) {
        let n = p.usize(1, 40);
        v.push(Attr::res(0x100, "$TXF_DATA", p.bytes(n)));
    }
    if p.chance(1, 6) {
        let n = p.usize(8, 24);
        v.push(Attr::res(0xD0, "", p.bytes(8)));
        v.push(Attr::res(0xE0, "", p.bytes(n)));
    }
    v
}
/// A stream with holes so long that runs start at round cluster numbers (2^16, 2^32 and the like).
pub fn far_stream(b: &mut Builder) -> (Body, u16) {
    let c = b.geo.cluster as u64;
    let mut runs = vec![];
    let mut at = 0u64;
    for _ in 0..b.p.range(1, 3) {
        let (k, m) = (b.p.range(1, 12), b.p.range(1, 4));
        for r in b.runs(k, m, true) {
            at += r.clusters;
            runs.push(r);
        }
        let unit = 1u64 << *b.p.pick(&[8u32, 16, 16, 24, 31, 32, 32, 32, 33]);
        let mut to = at.div_ceil(unit) * unit + unit * (b.p.below(4) / 3);
        if b.p.chance(1, 8) {
            to += 1;
        }
        if to > at {
            runs.push(Run { clusters: to - at, lcn: None });
            at = to;
        }
    }
    let (k, m) = (b.p.range(1, 12), b.p.range(1, 4));
    let tail = b.runs(k, m, false);
    runs.extend(tail);
    at += k;
    let ds = at * c - b.p.range(0, c - 1);
    let init = match b.p.below(4) {
        0 => b.p.range(0, ds),
        1 => ds - ds.min(b.p.range(0, c * k)),
        _ => ds,
    };
    (b.stream_body(runs, ds, init), 0x8000)
}
/// Spreads the attributes over base and extension records.
pub fn scatter_attrs(b: &mut Builder, s: &mut FileSpec) {
    let mut p = b.p.fork();
    let groups = p.usize(1, 4);
    for a in s.attrs.iter_mut() {
        if a.ty == STDINFO {
            continue;
        }
        if p.chance(1, 3) {
            a.place = Place::In(p.usize(0, groups));
        }
        if let Body::Non { runs, .. } = &a.body {
            let n = runs.len();
            if n > 1 && p.chance(2, 3) {
                let parts = p.usize(2, n.min(6));
                let mut cuts: Vec<usize> = (1..n).collect();
                p.shuffle(&mut cuts);
                let mut cuts: Vec<usize> = cuts[..parts - 1].to_vec();
                // Parts that start at round cluster numbers.
                let mut vcn = 0u64;
                for (i, r) in runs.iter().enumerate() {
                    if vcn >= 1 << 16 && vcn & 0xffff == 0 && !cuts.contains(&i) {
                        cuts.push(i);
                    }
                    vcn += r.clusters;
                }
                cuts.sort_unstable();
                cuts.push(n);
                let mut pl = vec![];
                let mut at = 0;
                for c in cuts {
                    pl.push((p.usize(0, groups), c - at));
                    at = c;
                }
                a.place = Place::Split(pl);
            }
        }
    }
    compact_groups(s);
    s.list_nonres = p.chance(1, 2);
    s.force_list = p.chance(1, 2);
}
/// Renumbers the groups so that none is empty (apart from the base record).
pub fn compact_groups(s: &mut FileSpec) {
    let mut used: Vec<usize> = vec![0];
    for a in &s.attrs {
        match &a.place {
            Place::In(g) => used.push(*g),
            Place::Split(v) => used.extend(v.iter().map(|x| x.0)),
        }
    }
    used.sort_unstable();
    used.dedup();
    let m = |g: usize| used.iter().position(|x| *x == g).unwrap();
    for a in s.attrs.iter_mut() {
        match &mut a.place {
            Place::In(g) => *g = m(*g),
            Place::Split(v) => v.iter_mut().for_each(|x| x.0 = m(x.0)),
        }
    }
}
/// Writes the file, dropping attributes until it fits.
pub fn write_fitting(b: &mut Builder, mut s: FileSpec) -> bool {
    loop {
        if b.write_file(&s).is_some() {
            return true;
        }
        let k = s.attrs.iter().rposition(|a| a.ty > FILENAME).or_else(|| s.attrs.iter().rposition(|a| a.ty != STDINFO));
        match k {
            Some(k) => {
                s.attrs.remove(k);
                compact_groups(&mut s);
            }
            None => return false,
        }
    }
}

/// A volume with files, streams, directories, attribute lists: a bit of everything.
pub fn rich(p: &mut Prng, o: &RichOpt) -> Vol {
    let mut geo = o.geo.clone().unwrap_or_else(|| modest_geo(p));
    let cross = o.cross && p.chance(1, 3);
    if cross && o.geo.is_none() {
        cross_geo(p, &mut geo);
    }
    let opts = Opts { nrec: o.nrec, upcase: o.upcase, scatter: p.chance(3, 4), cross, ..Opts::default() };
    let mut b = Builder::new(geo.clone(), opts, p.u64());
    rich_into(&mut b, p, o);
    b.finish()
}
pub fn rich_into(b: &mut Builder, p: &mut Prng, o: &RichOpt) {
    let geo = b.geo.clone();
    let maxn = geo.max_name_units().min(if p.chance(1, 6) { 255 } else { 40 });
    let name = |p: &mut Prng| if o.wild_names && p.chance(1, 2) { wild_name(p, maxn) } else { rand_name(p, maxn) };
    // (reference, names) of everything that can be linked
    let nd = p.range(o.dirs.0, o.dirs.1);
    let mut dirs: Vec<(u64, u16)> = vec![(5, 5)];
    for _ in 0..nd {
        if let Some(r) = b.new_rec() {
            dirs.push((r, p.range(1, 0xffff) as u16));
        }
    }
    let mut links: Vec<Vec<(FName, u64)>> = vec![vec![]; dirs.len()];
    let mut used: Vec<Vec<Vec<u16>>> = vec![vec![]; dirs.len()];
    let mut add = |b: &Builder, links: &mut Vec<Vec<(FName, u64)>>, d: usize, f: FName, r: u64| -> bool {
        let k = if o.distinct_up { b.up(&f.name) } else { f.name.clone() };
        if used[d].contains(&k) {
            return false;
        }
        used[d].push(k);
        links[d].push((f, r));
        true
    };
    let nf = p.range(o.files.0, o.files.1);
    for _ in 0..nf {
        let Some(r) = b.new_rec() else { break };
        let seq = p.range(1, 0xffff) as u16;
        let mut s = FileSpec::new(r, false);
        s.seq = seq;
        s.links = p.u64() as u16;
        s.flags = 1 | if p.chance(1, 8) { 4 } else { 0 } | if p.chance(1, 8) { 8 } else { 0 };
        s.attrs.push(std_attr(p));
        let nn = p.range(1, 3);
        for _ in 0..nn {
            let d = p.below(dirs.len() as u64) as usize;
            let n = name(p);
            let f = FName::random(p, mft_ref(dirs[d].0, dirs[d].1), &n);
            if add(b, &mut links, d, f.clone(), mft_ref(r, seq)) {
                s.attrs.push(Attr::res(FILENAME, "", f.bytes()));
            }
        }
        let at = file_attrs(b, o);
        s.attrs.extend(at);
        if o.lists && p.chance(2, 5) {
            scatter_attrs(b, &mut s);
        }
        if !write_fitting(b, s) {
            // Nothing there: the entries dangle, which a reader must cope with anyway.
            continue;
        }
    }
    for i in 1..dirs.len() {
        let parent = p.below(i as u64) as usize;
        let n = name(p);
        let f = FName { attrs: 0x1000_0000, ..FName::random(p, mft_ref(dirs[parent].0, dirs[parent].1), &n) };
        let _ = add(b, &mut links, parent, f, mft_ref(dirs[i].0, dirs[i].1));
    }
    for d in 0..dirs.len() {
        let extra = p.range(0, o.ents);
        for _ in 0..extra {
            let n = name(p);
            let r = mft_ref(p.below(b.nrec), p.u64() as u16);
            let f = FName::random(p, mft_ref(dirs[d].0, dirs[d].1), &n);
            let _ = add(b, &mut links, d, f, r);
        }
        for tries in 0..4 {
            let mut s = FileSpec::new(dirs[d].0, true);
            s.seq = dirs[d].1;
            s.attrs.push(std_attr(p));
            s.attrs.push(name_attr(p, mft_ref(5, 5), &u16s(if d == 0 { "." } else { "d" })));
            if p.chance(1, 4) {
                s.attrs.push(Attr::res(DATA, "ads", p.bytes(9)));
            }
            let mut fill = IdxFill::random(p);
            if tries >= 2 {
                fill.root = 60;
                s.attrs.truncate(2);
            }
            let place = match p.below(4) {
                0 if o.lists => Some(Place::In(1)),
                1 if o.lists => Some(Place::Split(vec![])),
                _ => None,
            };
            if tries == 3 {
                links[d].truncate(8);
            }
            if b.write_dir(s, links[d].clone(), fill, if tries >= 2 { None } else { place }).is_some() {
                break;
            }
        }
    }
    if p.chance(3, 4) {
        let n = rand_name(p, 30);
        let mut vi = vec![0u8; 12];
        vi[8] = p.u64() as u8;
        vi[9] = p.u64() as u8;
        p16(&mut vi, 10, p.u64() as u16);
        let mut s = FileSpec::new(3, false);
        s.seq = 3;
        s.attrs.push(std_attr(p));
        s.attrs.push(name_attr(p, mft_ref(5, 5), &u16s("$Volume")));
        if p.chance(3, 4) {
            s.attrs.push(Attr::res(VOLNAME, "", names_bytes(&n)));
        }
        s.attrs.push(Attr::res(VOLINFO, "", vi));
        if p.chance(1, 2) {
            s.attrs.push(obj_id(p));
        }
        write_fitting(b, s);
    }
}
