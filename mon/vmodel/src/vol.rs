//! Deterministic NTFS volume builder. Everything it writes is recorded as ground truth, computed
//! from the on-disk format definition and never from the library under test.
use crate::image::{content, Image};
use crate::prng::Prng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const STDINFO: u32 = 0x10;
pub const ATTRLIST: u32 = 0x20;
pub const FILENAME: u32 = 0x30;
pub const OBJID: u32 = 0x40;
pub const SECDESC: u32 = 0x50;
pub const VOLNAME: u32 = 0x60;
pub const VOLINFO: u32 = 0x70;
pub const DATA: u32 = 0x80;
pub const IDXROOT: u32 = 0x90;
pub const IDXALLOC: u32 = 0xA0;
pub const BITMAP: u32 = 0xB0;

pub fn u16s(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}
pub fn p16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes())
}
pub fn p32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes())
}
pub fn p64(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes())
}
pub fn names_bytes(n: &[u16]) -> Vec<u8> {
    n.iter().flat_map(|c| c.to_le_bytes()).collect()
}
pub fn mft_ref(rec: u64, seq: u16) -> u64 {
    (rec & 0xffff_ffff_ffff) | ((seq as u64) << 48)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Geo {
    pub sector: u32,
    pub cluster: u32,
    pub frs: u32,
    /// Encode the file record size as a positive cluster count where possible.
    pub frs_as_clusters: bool,
    pub irs: u32,
    pub clusters: u64,
    pub serial: u64,
}
impl Geo {
    pub fn simple() -> Geo {
        Geo { sector: 512, cluster: 4096, frs: 1024, frs_as_clusters: false, irs: 4096, clusters: 1 << 20, serial: 0x1122334455667788 }
    }
    pub fn random(p: &mut Prng) -> Geo {
        let sector = 512u32 << [0, 0, 0, 1, 2, 3][p.below(6) as usize];
        // cluster 512 B .. 2 MiB, at least one sector
        let lo = sector.trailing_zeros();
        let ce = match p.below(4) {
            0 => p.range(lo as u64, 21) as u32,
            1 => u32::max(lo, 12),
            _ => u32::max(lo, p.range(9, 16) as u32),
        };
        let cluster = 1u32 << ce;
        let frs = *p.pick(&[1024, 1024, 1024, 2048, 4096]);
        let irs = *p.pick(&[4096, 4096, 4096, 1024, 2048, 512, 8192, 16384]);
        let max_clusters = (1u64 << 60) >> ce;
        let clusters = match p.below(4) {
            0 => u64::min(max_clusters, 1 << 46),
            1 => u64::min(max_clusters, 1 << p.range(14, 40)),
            _ => u64::min(max_clusters, 1 << 22),
        };
        Geo { sector, cluster, frs, frs_as_clusters: p.chance(1, 2), irs, clusters, serial: p.u64() }
    }
    /// Longest file name whose index entry is sure to fit an index record next to an end entry.
    pub fn max_name_units(&self) -> usize {
        let eo = align8(40 + 2 * (self.irs as usize / 512 + 1));
        ((self.irs as usize - eo - 48 - 16 - 66 - 8) / 2).min(255)
    }
    pub fn idx_vcn_unit(&self) -> u32 {
        if self.cluster <= self.irs {
            self.cluster
        } else {
            512
        }
    }
    pub fn spc(&self) -> u32 {
        self.cluster / self.sector
    }
    pub fn total_sectors(&self) -> u64 {
        self.clusters * self.spc() as u64
    }
    pub fn boot_sector(&self, mft_lcn: u64) -> [u8; 512] {
        let mut b = [0u8; 512];
        b[0..3].copy_from_slice(&[0xEB, 0x52, 0x90]);
        b[3..11].copy_from_slice(b"NTFS    ");
        p16(&mut b, 0x0B, self.sector as u16);
        let spc = self.spc();
        b[0x0D] = if spc <= 128 { spc as u8 } else { (256 - spc.trailing_zeros()) as u8 };
        b[0x15] = 0xF8;
        p64(&mut b, 0x28, self.total_sectors());
        p64(&mut b, 0x30, mft_lcn);
        p64(&mut b, 0x38, 2);
        b[0x40] = if self.frs_as_clusters && self.frs % self.cluster == 0 {
            (self.frs / self.cluster) as u8
        } else {
            (-(self.frs.trailing_zeros() as i32)) as i8 as u8
        };
        b[0x44] = if self.irs >= self.cluster && self.irs / self.cluster < 128 {
            (self.irs / self.cluster) as u8
        } else {
            (-(self.irs.trailing_zeros() as i32)) as i8 as u8
        };
        p64(&mut b, 0x48, self.serial);
        for i in 0x54..0x1FE {
            b[i] = (i * 7) as u8;
        }
        b[0x1FE] = 0x55;
        b[0x1FF] = 0xAA;
        b
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub clusters: u64,
    pub lcn: Option<u64>,
}

pub fn encode_runs(runs: &[Run], p: &mut Prng, pad: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mut prev: i128 = 0;
    for r in runs {
        // Lengths are stored so that the top bit of the last byte is clear.
        let mut lb = 1;
        while lb < 8 && (r.clusters >> (8 * lb - 1)) != 0 {
            lb += 1;
        }
        if pad && lb < 8 && p.chance(1, 4) {
            lb += p.usize(0, 8 - lb);
        }
        let mut ob = 0;
        let mut delta = 0i64;
        if let Some(l) = r.lcn {
            delta = (l as i128 - prev) as i64;
            prev = l as i128;
            ob = 1;
            while ob < 8 {
                let lim = 1i64 << (8 * ob - 1);
                if delta >= -lim && delta < lim {
                    break;
                }
                ob += 1;
            }
            if pad && ob < 8 && p.chance(1, 4) {
                ob += p.usize(0, 8 - ob);
            }
        }
        out.push((lb | (ob << 4)) as u8);
        out.extend_from_slice(&r.clusters.to_le_bytes()[..lb]);
        out.extend_from_slice(&delta.to_le_bytes()[..ob]);
    }
    out.push(0);
    out
}

#[derive(Clone, Debug)]
pub enum Body {
    Res(Vec<u8>),
    Non {
        runs: Vec<Run>,
        data_size: u64,
        init_size: u64,
        /// Content stream seed; None when the bytes were written explicitly.
        seed: Option<u64>,
    },
}

/// Which record holds which part: (group, number of runs); group 0 is the base record.
#[derive(Clone, Debug)]
pub enum Place {
    In(usize),
    Split(Vec<(usize, usize)>),
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub body: Body,
    pub place: Place,
    /// Extra alignment padding between the header parts (still legal).
    pub pad: bool,
}
impl Attr {
    pub fn res(ty: u32, name: &str, bytes: Vec<u8>) -> Attr {
        Attr { ty, name: u16s(name), flags: 0, body: Body::Res(bytes), place: Place::In(0), pad: false }
    }
    pub fn non(ty: u32, name: &str, body: Body) -> Attr {
        Attr { ty, name: u16s(name), flags: 0, body, place: Place::In(0), pad: false }
    }
}

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub rec: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub attrs: Vec<Attr>,
    /// Attribute list stored non-resident.
    pub list_nonres: bool,
    /// Force an attribute list although everything is in the base record.
    pub force_list: bool,
}
impl FileSpec {
    pub fn new(rec: u64, dir: bool) -> FileSpec {
        FileSpec { rec, seq: 1, links: 1, flags: if dir { 3 } else { 1 }, attrs: vec![], list_nonres: false, force_list: false }
    }
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub off: u64,
    pub len: u64,
    pub disk: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct TAttr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub resident: bool,
    pub bytes: Vec<u8>,
    pub segs: Vec<Seg>,
    pub data_size: u64,
    pub init_size: u64,
    pub alloc_size: u64,
    /// Disk position of the attribute header (first extent), of the resident value, of the run list.
    pub header_pos: u64,
    pub value_pos: u64,
    pub instance: u16,
    pub attr_len: u32,
    pub rec: u64,
    pub extents: usize,
    /// All physical extents: (record number, header position, lowest vcn, instance)
    pub phys: Vec<(u64, u64, u64, u16)>,
    pub runs: Vec<Run>,
}
impl TAttr {
    pub fn len(&self) -> u64 {
        self.data_size
    }
    pub fn disk_pos(&self, off: u64) -> Option<u64> {
        if self.resident {
            return Some(self.value_pos + off);
        }
        let i = self.segs.partition_point(|s| s.off + s.len <= off);
        self.segs.get(i).and_then(|s| s.disk.map(|d| d + (off - s.off)))
    }
    /// Expected bytes at off..; caller keeps within data_size.
    pub fn expect(&self, img: &Image, off: u64, buf: &mut [u8]) {
        if buf.is_empty() {
            return;
        }
        if self.resident {
            buf.copy_from_slice(&self.bytes[off as usize..off as usize + buf.len()]);
            return;
        }
        buf.fill(0);
        let end = off + buf.len() as u64;
        let mut i = self.segs.partition_point(|s| s.off + s.len <= off);
        while i < self.segs.len() && self.segs[i].off < end {
            let s = &self.segs[i];
            let a = s.off.max(off);
            let b = (s.off + s.len).min(end).min(self.init_size);
            if let (Some(d), true) = (s.disk, a < b) {
                img.read(d + (a - s.off), &mut buf[(a - off) as usize..(b - off) as usize]);
            }
            i += 1;
        }
    }
    pub fn all(&self, img: &Image) -> Vec<u8> {
        let mut v = vec![0; self.data_size as usize];
        self.expect(img, 0, &mut v);
        v
    }
}

#[derive(Clone, Debug)]
pub struct TFile {
    pub rec: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub pos: u64,
    pub used: u32,
    pub attrs: Vec<TAttr>,
    /// Attribute list as (resident, header pos, value bytes)
    pub list: Option<TAttr>,
    pub list_entries: Vec<TListEntry>,
    pub ext: Vec<u64>,
}
#[derive(Clone, Debug)]
pub struct TListEntry {
    pub ty: u32,
    pub name: Vec<u16>,
    pub lowest: u64,
    pub rec: u64,
    pub seq: u16,
    pub instance: u16,
    pub off: u64,
    pub len: u16,
}
impl TFile {
    pub fn find(&self, ty: u32, name: &str) -> Option<&TAttr> {
        let n = u16s(name);
        self.attrs.iter().find(|a| a.ty == ty && a.name == n)
    }
}

#[derive(Clone, Debug)]
pub struct IdxEnt {
    /// File reference, or data offset/length words.
    pub head: [u8; 8],
    pub key: Vec<u8>,
    pub data: Vec<u8>,
}
impl IdxEnt {
    fn bytes(&self, sub: Option<u64>, last: bool) -> Vec<u8> {
        let mut head = self.head;
        let mut v = vec![0u8; 16];
        let (key, data): (&[u8], &[u8]) = if last { (&[], &[]) } else { (&self.key, &self.data) };
        v.extend_from_slice(key);
        if !data.is_empty() {
            while v.len() % 4 != 0 {
                v.push(0);
            }
            p16(&mut head, 0, v.len() as u16);
            p16(&mut head, 2, data.len() as u16);
            v.extend_from_slice(data);
        }
        v[0..8].copy_from_slice(&if last { [0; 8] } else { head });
        v.resize(align8(v.len()), 0);
        let mut fl = 0u8;
        if let Some(s) = sub {
            v.extend_from_slice(&s.to_le_bytes());
            fl |= 1;
        }
        if last {
            fl |= 2;
        }
        let l = v.len() as u16;
        p16(&mut v, 8, l);
        p16(&mut v, 10, key.len() as u16);
        v[12] = fl;
        v
    }
}

#[derive(Clone, Debug, Default)]
pub struct TNode {
    /// (entry index in sorted order, subnode)
    pub ents: Vec<(usize, Option<usize>)>,
    pub end: Option<usize>,
    pub slot: Option<u64>,
    pub vcn: u64,
    /// Disk positions of the entries (last one: end entry).
    pub ent_pos: Vec<u64>,
    pub ent_len: Vec<u16>,
}
#[derive(Clone, Debug)]
pub struct TIndex {
    pub entries: Vec<IdxEnt>,
    pub nodes: Vec<TNode>,
    pub root: usize,
    pub height: usize,
    pub irs: u32,
    pub slots: u64,
    pub live_slots: Vec<u64>,
}
impl TIndex {
    pub fn node_of_entry(&self) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 0); self.entries.len()];
        for (ni, n) in self.nodes.iter().enumerate() {
            for (i, (e, _)) in n.ents.iter().enumerate() {
                v[*e] = (ni, i);
            }
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct FName {
    pub parent: u64,
    pub times: [u64; 4],
    pub alloc: u64,
    pub size: u64,
    pub attrs: u32,
    pub reparse: u32,
    pub ns: u8,
    pub name: Vec<u16>,
}
impl FName {
    pub fn simple(parent: u64, name: &[u16]) -> FName {
        FName { parent, times: [1, 2, 3, 4], alloc: 0, size: 0, attrs: 0x20, reparse: 0, ns: 1, name: name.to_vec() }
    }
    pub fn random(p: &mut Prng, parent: u64, name: &[u16]) -> FName {
        FName {
            parent,
            times: [p.skewed(64), p.skewed(64), p.skewed(64), p.skewed(64)],
            alloc: p.skewed(64),
            size: p.skewed(64),
            attrs: p.u64() as u32,
            reparse: p.u64() as u32,
            ns: p.below(4) as u8,
            name: name.to_vec(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; 66];
        p64(&mut v, 0, self.parent);
        for i in 0..4 {
            p64(&mut v, 8 + 8 * i, self.times[i]);
        }
        p64(&mut v, 40, self.alloc);
        p64(&mut v, 48, self.size);
        p32(&mut v, 56, self.attrs);
        p32(&mut v, 60, self.reparse);
        v[64] = self.name.len() as u8;
        v[65] = self.ns;
        v.extend(names_bytes(&self.name));
        v
    }
}

#[derive(Clone, Debug)]
pub struct TDir {
    pub rec: u64,
    pub names: Vec<FName>,
    pub refs: Vec<u64>,
    pub index: TIndex,
}

#[derive(Clone)]
pub struct Vol {
    pub geo: Geo,
    pub img: Arc<Image>,
    pub mft_runs: Vec<Run>,
    pub nrec: u64,
    pub files: BTreeMap<u64, TFile>,
    pub dirs: BTreeMap<u64, TDir>,
    pub upcase: Arc<Vec<u16>>,
    pub mft_data_size: u64,
}
impl Vol {
    pub fn rec_pos(&self, rec: u64) -> Option<u64> {
        rec_pos(&self.geo, &self.mft_runs, rec)
    }
    pub fn rec_pos_at(&self, rec: u64, at: u64) -> Option<u64> {
        rec_pos_at(&self.geo, &self.mft_runs, rec, at)
    }
    /// The record is not contiguous on the device.
    pub fn straddles(&self, rec: u64) -> bool {
        straddles(&self.geo, &self.mft_runs, rec)
    }
    /// The raw bytes of a record slot.
    pub fn rec_raw(&self, rec: u64) -> Vec<u8> {
        rec_raw(&self.geo, &self.mft_runs, &self.img, rec)
    }
}
fn straddles(geo: &Geo, runs: &[Run], rec: u64) -> bool {
    let f = geo.frs as u64;
    rec_pos_at(geo, runs, rec, 0).map(|x| x + f - 1) != rec_pos_at(geo, runs, rec, f - 1)
}
pub fn rec_raw(geo: &Geo, runs: &[Run], img: &Image, rec: u64) -> Vec<u8> {
    let mut v = vec![];
    for k in 0..geo.frs as u64 / 512 {
        v.extend(img.get(rec_pos_at(geo, runs, rec, k * 512).expect("record inside MFT"), 512));
    }
    v
}
fn rec_pos(geo: &Geo, runs: &[Run], rec: u64) -> Option<u64> {
    rec_pos_at(geo, runs, rec, 0)
}
/// Device position of a byte of a record.
fn rec_pos_at(geo: &Geo, runs: &[Run], rec: u64, at: u64) -> Option<u64> {
    let mut off = rec * geo.frs as u64 + at;
    for r in runs {
        let l = r.clusters * geo.cluster as u64;
        if off < l {
            return r.lcn.map(|x| x * geo.cluster as u64 + off);
        }
        off -= l;
    }
    None
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// How many record slots the MFT has.
    pub nrec: u64,
    pub mft_max_runs: u64,
    /// Pad run encodings, vary header paddings.
    pub pad: bool,
    /// Place runs anywhere in the volume rather than densely.
    pub scatter: bool,
    pub upcase: UpKind,
    /// Records may cross the borders of the MFT's data runs (where they are larger than a cluster).
    pub cross: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { nrec: 64, mft_max_runs: 6, pad: true, scatter: true, upcase: UpKind::Unicode, cross: false }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UpKind {
    Identity,
    Ascii,
    Unicode,
    /// Arbitrary total function u16 -> u16, many collisions, not idempotent.
    Random,
    /// Permutation: no two units are equal, order scrambled.
    Permute,
    /// Unicode but with a number of volume-specific deviations.
    Deviant,
}

pub fn upcase_table(k: UpKind, p: &mut Prng) -> Vec<u16> {
    let mut t: Vec<u16> = (0..=0xffffu32).map(|x| x as u16).collect();
    let uni = |t: &mut Vec<u16>| {
        for c in 0..=0xffffu32 {
            if let Some(ch) = char::from_u32(c) {
                let mut u = ch.to_uppercase();
                if let (Some(x), None) = (u.next(), u.next()) {
                    if (x as u32) < 0x10000 {
                        t[c as usize] = x as u32 as u16;
                    }
                }
            }
        }
    };
    match k {
        UpKind::Identity => {}
        UpKind::Ascii => {
            for c in b'a'..=b'z' {
                t[c as usize] = (c - 32) as u16;
            }
        }
        UpKind::Unicode => uni(&mut t),
        UpKind::Random => {
            for c in t.iter_mut() {
                *c = if p.chance(1, 3) { p.below(64) as u16 } else { p.u64() as u16 };
            }
        }
        UpKind::Permute => p.shuffle(&mut t),
        UpKind::Deviant => {
            uni(&mut t);
            for _ in 0..200 {
                let a = p.below(0x250) as usize;
                t[a] = p.below(0x10000) as u16;
            }
            for _ in 0..50 {
                let a = 0xD7F0 + p.below(0x820) as usize;
                t[a] = p.below(0x10000) as u16;
            }
        }
    }
    t
}

/// Panic payload: the random allocation does not fit; the case is skipped.
pub struct VolumeFull;

pub struct Builder {
    pub geo: Geo,
    pub opts: Opts,
    pub p: Prng,
    pub img: Image,
    used: BTreeMap<u64, u64>,
    cursor: u64,
    pub mft_runs: Vec<Run>,
    pub nrec: u64,
    pub mft_data_size: u64,
    used_recs: BTreeMap<u64, ()>,
    pub files: BTreeMap<u64, TFile>,
    pub dirs: BTreeMap<u64, TDir>,
    pub upcase: Arc<Vec<u16>>,
    pub usn: u16,
    /// Some stream maps the boot clusters.
    pub boot_mapped: bool,
    /// Fields without a meaning, and gaps between fields, hold random bytes (as a reader has to expect).
    pub junk: bool,
}

impl Builder {
    pub fn new(geo: Geo, opts: Opts, seed: u64) -> Builder {
        let mut p = Prng::new(seed);
        let img = Image::new(geo.clusters * geo.cluster as u64, p.u64());
        let upcase = Arc::new(upcase_table(opts.upcase, &mut p));
        let mut b = Builder {
            geo,
            p,
            img,
            used: BTreeMap::new(),
            cursor: 0,
            mft_runs: vec![],
            nrec: 0,
            mft_data_size: 0,
            used_recs: BTreeMap::new(),
            files: BTreeMap::new(),
            dirs: BTreeMap::new(),
            upcase,
            usn: 1,
            boot_mapped: false,
            junk: false,
            opts,
        };
        b.junk = b.p.chance(1, 3);
        // Boot area: the first 16 sectors at most, at least one cluster.
        let boot = u64::max(1, 8192 / b.geo.cluster as u64);
        b.used.insert(0, boot);
        b.cursor = boot;
        b.layout_mft();
        b
    }
    fn layout_mft(&mut self) {
        let c = self.geo.cluster as u64;
        let f = self.geo.frs as u64;
        let unit = u64::max(1, f / c); // clusters per indivisible piece
        let per_unit = unit * c / f; // records per piece
        let mut pieces = self.opts.nrec.div_ceil(per_unit).max(1);
        // Big clusters hold many records each: give fragmentation a chance.
        if pieces < self.opts.mft_max_runs && self.p.chance(1, 2) {
            pieces = self.opts.mft_max_runs;
        }
        let nruns = self.p.range(1, u64::min(pieces, self.opts.mft_max_runs));
        let mut left = pieces;
        if self.opts.cross && unit > 1 {
            // The first record is always in one piece: it is read before the runs are known.
            let mut left = pieces * unit;
            let n = left.min(unit + self.p.skewed(5));
            let lcn = self.alloc(n);
            self.mft_runs.push(Run { clusters: n, lcn: Some(lcn) });
            left -= n;
            while left > 0 {
                let n = if self.mft_runs.len() >= 26 { left } else { left.min(1 + self.p.skewed(5)) };
                let lcn = self.alloc(n);
                self.mft_runs.push(Run { clusters: n, lcn: Some(lcn) });
                left -= n;
            }
        }
        let nruns = if self.mft_runs.is_empty() { nruns } else { 0 };
        for i in 0..nruns {
            let n = if i + 1 == nruns { left } else { self.p.range(1, left - (nruns - i - 1)) };
            left -= n;
            let lcn = self.alloc(n * unit);
            self.mft_runs.push(Run { clusters: n * unit, lcn: Some(lcn) });
        }
        let alloc = pieces * unit * c;
        self.nrec = alloc / f;
        // The value may end before the allocation does.
        if self.nrec > self.opts.nrec && self.p.chance(1, 2) {
            self.nrec = self.p.range(self.opts.nrec, self.nrec);
        }
        self.mft_data_size = self.nrec * f;
        for i in 0..16 {
            self.used_recs.insert(i, ());
        }
    }
    fn free_at(&self, s: u64, n: u64) -> bool {
        if s.checked_add(n).map_or(true, |e| e > self.geo.clusters) {
            return false;
        }
        if let Some((a, l)) = self.used.range(..s + n).next_back() {
            if a + l > s {
                return false;
            }
        }
        true
    }
    /// Allocates n contiguous clusters.
    pub fn alloc(&mut self, n: u64) -> u64 {
        let cl = self.geo.clusters;
        if self.opts.scatter {
            for _ in 0..30 {
                let s = match self.p.below(5) {
                    0 => self.p.below(cl),
                    1 => {
                        let w = self.p.range(4, 59);
                        self.p.below(cl.min(1 << w))
                    }
                    2 => cl.saturating_sub(n + self.p.below(8)),
                    _ => self.cursor + self.p.below(40),
                };
                if self.free_at(s, n) {
                    self.used.insert(s, n);
                    self.cursor = s + n;
                    return s;
                }
            }
        }
        let mut s = 0;
        loop {
            if self.free_at(s, n) {
                self.used.insert(s, n);
                self.cursor = s + n;
                return s;
            }
            match self.used.range(..s + n).next_back() {
                Some((a, l)) if a + l > s => s = a + l,
                _ => std::panic::panic_any(VolumeFull),
            }
        }
    }
    pub fn new_rec(&mut self) -> Option<u64> {
        for _ in 0..8 {
            let r = self.p.range(16, self.nrec - 1);
            if !self.used_recs.contains_key(&r) && r >= 16 {
                self.used_recs.insert(r, ());
                return Some(r);
            }
        }
        let r = (16..self.nrec).find(|r| !self.used_recs.contains_key(r))?;
        self.used_recs.insert(r, ());
        Some(r)
    }
    pub fn rec_pos(&self, r: u64) -> u64 {
        rec_pos(&self.geo, &self.mft_runs, r).expect("record inside MFT")
    }
    /// Writes content extents for the runs and returns the body.
    pub fn stream_body(&mut self, runs: Vec<Run>, data_size: u64, init_size: u64) -> Body {
        let seed = self.p.u64();
        self.stream_body_seed(runs, data_size, init_size, seed)
    }
    pub fn stream_body_seed(&mut self, runs: Vec<Run>, data_size: u64, init_size: u64, seed: u64) -> Body {
        let c = self.geo.cluster as u64;
        let mut off = 0;
        for r in &runs {
            let l = r.clusters * c;
            if let Some(lcn) = r.lcn {
                // Beyond the initialized size the disk keeps stale (poison) bytes.
                let valid = init_size.saturating_sub(off).min(l);
                self.img.add_extent(lcn * c, valid, seed, off);
            }
            off += l;
        }
        Body::Non { runs, data_size, init_size, seed: Some(seed) }
    }
    /// Random runs covering `clusters` clusters in `nruns` pieces.
    pub fn runs(&mut self, clusters: u64, nruns: u64, sparse: bool) -> Vec<Run> {
        let mut v: Vec<Run> = vec![];
        let nruns = nruns.min(clusters).max(1);
        let mut left = clusters;
        for i in 0..nruns {
            let n = if i + 1 == nruns {
                left
            } else {
                let max = left - (nruns - i - 1);
                if self.p.chance(1, 2) { self.p.range(1, max.min(4)) } else { self.p.range(1, max) }
            };
            left -= n;
            let sp = sparse && self.p.chance(1, 3);
            let lcn = if sp { None } else { Some(self.alloc(n)) };
            v.push(Run { clusters: n, lcn });
        }
        v
    }
    /// Explicit bytes as a non-resident body.
    pub fn bytes_body(&mut self, bytes: &[u8], nruns: u64) -> Body {
        let c = self.geo.cluster as u64;
        let clusters = (bytes.len() as u64).div_ceil(c).max(1);
        let runs = self.runs(clusters, nruns, false);
        let mut off = 0usize;
        for r in &runs {
            let l = (r.clusters * c) as usize;
            let n = l.min(bytes.len() - off);
            self.img.write(r.lcn.unwrap() * c, &bytes[off..off + n]);
            off += n;
        }
        Body::Non { runs, data_size: bytes.len() as u64, init_size: bytes.len() as u64, seed: None }
    }
    /// Fills a meaningless range.
    fn fill_junk(&mut self, b: &mut [u8]) {
        if self.junk {
            for x in b {
                *x = self.p.u64() as u8;
            }
        }
    }
    fn protect(&mut self, rec: &mut [u8], usa_off: usize) {
        // A varying sequence number that differs from most contents.
        self.usn = self.usn.wrapping_add(self.p.range(1, 7) as u16).max(1);
        let usn = self.usn;
        let n = rec.len() / 512;
        p16(rec, 4, usa_off as u16);
        p16(rec, 6, (n + 1) as u16);
        p16(rec, usa_off, usn);
        for i in 0..n {
            let e = i * 512 + 510;
            let old = [rec[e], rec[e + 1]];
            rec[usa_off + 2 + 2 * i..usa_off + 4 + 2 * i].copy_from_slice(&old);
            p16(rec, e, usn);
        }
    }
    fn phys_attr(&mut self, a: &Attr, part: Option<(&[Run], u64, bool)>, inst: u16) -> (Vec<u8>, usize) {
        // returns bytes and the offset of the value / run list
        let nl = a.name.len();
        let mut v;
        let off;
        match &a.body {
            Body::Res(b) => {
                let name_off = 24;
                let vo = if nl == 0 { 24 } else { align8(24 + 2 * nl) };
                let vo = if a.pad { vo + 8 } else { vo };
                v = vec![0u8; align8(vo + b.len())];
                self.fill_junk(&mut v[23..]);
                p32(&mut v, 16, b.len() as u32);
                p16(&mut v, 20, vo as u16);
                v[22] = (a.ty == FILENAME) as u8;
                v[9] = nl as u8;
                p16(&mut v, 10, name_off as u16);
                v[24..24 + 2 * nl].copy_from_slice(&names_bytes(&a.name));
                v[vo..vo + b.len()].copy_from_slice(b);
                off = vo;
            }
            Body::Non { runs, data_size, init_size, .. } => {
                let (pr, lowest, first) = part.unwrap_or((runs, 0, true));
                let sparse = a.flags & 0x8000 != 0;
                let hdr = if sparse && first { 72 } else { 64 };
                let ro = align8(hdr + 2 * nl) + if a.pad { 8 } else { 0 };
                let pad = self.opts.pad;
                let enc = encode_runs(pr, &mut self.p, pad);
                v = vec![0u8; align8(ro + enc.len())];
                self.fill_junk(&mut v[35..40]);
                self.fill_junk(&mut v[hdr..]);
                if !first {
                    // The sizes belong to the first extent only.
                    self.fill_junk(&mut v[40..64]);
                }
                v[8] = 1;
                v[9] = nl as u8;
                p16(&mut v, 10, hdr as u16);
                p64(&mut v, 16, lowest);
                let n: u64 = pr.iter().map(|r| r.clusters).sum();
                p64(&mut v, 24, (lowest + n).wrapping_sub(1));
                p16(&mut v, 32, ro as u16);
                if first {
                    let all: u64 = runs.iter().map(|r| r.clusters).sum();
                    p64(&mut v, 40, all * self.geo.cluster as u64);
                    p64(&mut v, 48, *data_size);
                    p64(&mut v, 56, *init_size);
                    if sparse {
                        let real: u64 = runs.iter().filter(|r| r.lcn.is_some()).map(|r| r.clusters).sum();
                        p64(&mut v, 64, real * self.geo.cluster as u64);
                    }
                }
                v[hdr..hdr + 2 * nl].copy_from_slice(&names_bytes(&a.name));
                v[ro..ro + enc.len()].copy_from_slice(&enc);
                off = ro;
            }
        }
        p32(&mut v, 0, a.ty);
        let l = v.len() as u32;
        p32(&mut v, 4, l);
        p16(&mut v, 12, a.flags);
        p16(&mut v, 14, inst);
        (v, off)
    }
    fn write_record(&mut self, rec: u64, seq: u16, links: u16, flags: u16, base_ref: u64, attrs: &[Vec<u8>], next_inst: u16) -> Option<(u32, Vec<usize>)> {
        let frs = self.geo.frs as usize;
        let mut r = vec![0u8; frs];
        r[0..4].copy_from_slice(b"FILE");
        // NTFS before 3.1 has no record number there, and newer headers may grow.
        let usa_off = if self.junk { *self.p.pick(&[42usize, 48, 48, 56]) } else { 48 };
        let first = align8(usa_off + 2 * (frs / 512 + 1)) + if self.opts.pad && self.p.chance(1, 4) { 8 } else { 0 };
        self.fill_junk(&mut r[42..first]);
        p64(&mut r, 8, self.p.u64());
        p16(&mut r, 16, seq);
        p16(&mut r, 18, links);
        p16(&mut r, 20, first as u16);
        p16(&mut r, 22, flags);
        p64(&mut r, 32, base_ref);
        p16(&mut r, 40, next_inst);
        if usa_off >= 48 {
            p32(&mut r, 44, rec as u32);
        }
        let mut o = first;
        let mut offs = vec![];
        for a in attrs {
            if o + a.len() + 8 > frs {
                return None;
            }
            r[o..o + a.len()].copy_from_slice(a);
            offs.push(o);
            o += a.len();
        }
        p32(&mut r, o, 0xffff_ffff);
        let used = (o + 8) as u32;
        p32(&mut r, 24, used);
        p32(&mut r, 28, frs as u32);
        // Stale bytes after the end marker, as deletions leave behind.
        for i in o + 8..frs {
            r[i] = self.p.u64() as u8;
        }
        self.protect(&mut r, usa_off);
        self.rec_write(rec, &r);
        Some((used, offs))
    }
    pub fn rec_write(&mut self, rec: u64, bytes: &[u8]) {
        for (k, c) in bytes.chunks(512).enumerate() {
            let pos = rec_pos_at(&self.geo, &self.mft_runs, rec, k as u64 * 512).expect("record inside MFT");
            self.img.write(pos, c);
        }
    }
    /// Lays the file out over base and extension records. None when something does not fit.
    pub fn write_file(&mut self, spec: &FileSpec) -> Option<&TFile> {
        let geo = self.geo.clone();
        let mut spec = spec.clone();
        spec.attrs.sort_by(|a, b| a.ty.cmp(&b.ty).then_with(|| a.name.cmp(&b.name)));
        let ngroups = spec
            .attrs
            .iter()
            .map(|a| match &a.place {
                Place::In(g) => *g,
                Place::Split(v) => v.iter().map(|x| x.0).max().unwrap_or(0),
            })
            .max()
            .unwrap_or(0);
        self.used_recs.insert(spec.rec, ());
        let mut recs = vec![(spec.rec, spec.seq)];
        for _ in 0..ngroups {
            let r = self.new_rec()?;
            let s = self.p.range(1, 0xffff) as u16;
            recs.push((r, s));
        }
        // Instance counters: extension records usually start over at zero.
        let mut inst: Vec<u16> = recs.iter().map(|_| 0).collect();
        inst[0] = 1; // the list (or nothing) takes zero
        struct Ph {
            group: usize,
            attr: usize,
            part: usize,
            inst: u16,
            lowest: u64,
            runs: Option<(usize, usize)>,
        }
        let mut ph: Vec<Ph> = vec![];
        for (ai, a) in spec.attrs.iter().enumerate() {
            match &a.place {
                Place::In(g) => {
                    ph.push(Ph { group: *g, attr: ai, part: 0, inst: inst[*g], lowest: 0, runs: None });
                    inst[*g] += 1;
                }
                Place::Split(parts) => {
                    let runs = match &a.body {
                        Body::Non { runs, .. } => runs,
                        _ => panic!("split resident"),
                    };
                    let mut s = 0;
                    let mut vcn = 0;
                    for (pi, (g, n)) in parts.iter().enumerate() {
                        let e = (s + n).min(runs.len());
                        ph.push(Ph { group: *g, attr: ai, part: pi, inst: inst[*g], lowest: vcn, runs: Some((s, e)) });
                        inst[*g] += 1;
                        vcn += runs[s..e].iter().map(|r| r.clusters).sum::<u64>();
                        s = e;
                    }
                    assert_eq!(s, runs.len(), "split must cover all runs");
                }
            }
        }
        // Instance numbers tell when an attribute was added, not where it is.
        for g in 0..recs.len() {
            let mut nums: Vec<u16> = ph.iter().filter(|x| x.group == g).map(|x| x.inst).collect();
            if self.p.chance(1, 2) {
                self.p.shuffle(&mut nums);
            }
            for (x, n) in ph.iter_mut().filter(|x| x.group == g).zip(nums) {
                x.inst = n;
            }
        }
        let need_list = ngroups > 0 || spec.force_list || spec.attrs.iter().any(|a| matches!(&a.place, Place::Split(v) if v.len() > 1));
        // Attribute list value
        let mut list_bytes = vec![];
        let mut list_entries = vec![];
        let list_inst = 0u16;
        if need_list {
            // The list also has an entry for itself? NTFS does not record one.
            for x in ph.iter() {
                let a = &spec.attrs[x.attr];
                let nl = a.name.len();
                let len = align8(26 + 2 * nl);
                let mut e = vec![0u8; len];
                self.fill_junk(&mut e[26..]);
                p32(&mut e, 0, a.ty);
                p16(&mut e, 4, len as u16);
                e[6] = nl as u8;
                e[7] = 26;
                p64(&mut e, 8, x.lowest);
                p64(&mut e, 16, mft_ref(recs[x.group].0, recs[x.group].1));
                p16(&mut e, 24, x.inst);
                e[26..26 + 2 * nl].copy_from_slice(&names_bytes(&a.name));
                list_entries.push(TListEntry {
                    ty: a.ty,
                    name: a.name.clone(),
                    lowest: x.lowest,
                    rec: recs[x.group].0,
                    seq: recs[x.group].1,
                    instance: x.inst,
                    off: list_bytes.len() as u64,
                    len: len as u16,
                });
                list_bytes.extend(e);
            }
        }
        let mut per_group: Vec<Vec<(u32, usize, Vec<u8>, usize, u16)>> = vec![vec![]; recs.len()];
        // (type, index into ph or usize::MAX for the list, bytes, value offset, instance)
        for (i, x) in ph.iter().enumerate() {
            let a = spec.attrs[x.attr].clone();
            let part = match (&a.body, x.runs) {
                (Body::Non { runs, .. }, Some((s, e))) => Some((&runs[s..e], x.lowest, x.part == 0)),
                _ => None,
            };
            let (bytes, vo) = self.phys_attr(&a, part, x.inst);
            per_group[x.group].push((a.ty, i, bytes, vo, x.inst));
        }
        let mut list_body = None;
        if need_list {
            let body = if spec.list_nonres {
                let n = self.p.range(1, 3);
                self.bytes_body(&list_bytes, n)
            } else {
                Body::Res(list_bytes.clone())
            };
            let la = Attr { ty: ATTRLIST, name: vec![], flags: 0, body: body.clone(), place: Place::In(0), pad: false };
            let (bytes, vo) = self.phys_attr(&la, None, list_inst);
            list_body = Some(la);
            let at = per_group[0].iter().position(|x| x.0 > ATTRLIST).unwrap_or(per_group[0].len());
            per_group[0].insert(at, (ATTRLIST, usize::MAX, bytes, vo, list_inst));
        }
        let mut at: Vec<(u64, u64, u32)> = vec![(0, 0, 0); ph.len()]; // header pos, value pos, len
        let mut list_at = (0u64, 0u64, 0u32);
        let mut used0 = 0;
        for g in 0..recs.len() {
            let blobs: Vec<Vec<u8>> = per_group[g].iter().map(|x| x.2.clone()).collect();
            let base = if g == 0 { 0 } else { mft_ref(recs[0].0, recs[0].1) };
            let (links, flags) = if g == 0 { (spec.links, spec.flags) } else { (0, 1) };
            let (used, offs) = self.write_record(recs[g].0, recs[g].1, links, flags, base, &blobs, inst[g])?;
            if g == 0 {
                used0 = used;
            }
            for (k, x) in per_group[g].iter().enumerate() {
                let dp = |o: usize| rec_pos_at(&geo, &self.mft_runs, recs[g].0, o as u64).expect("record inside MFT");
                let t = (dp(offs[k]), dp(offs[k] + x.3), x.2.len() as u32);
                if x.1 == usize::MAX {
                    list_at = t;
                } else {
                    at[x.1] = t;
                }
            }
        }
        let mut attrs = vec![];
        for (ai, a) in spec.attrs.iter().enumerate() {
            let first = ph.iter().position(|x| x.attr == ai && x.part == 0).unwrap();
            let phys: Vec<(u64, u64, u64, u16)> = ph
                .iter()
                .enumerate()
                .filter(|(_, x)| x.attr == ai)
                .map(|(i, x)| (recs[x.group].0, at[i].0, x.lowest, x.inst))
                .collect();
            attrs.push(tattr(&geo, a, at[first], recs[ph[first].group].0, ph[first].inst, phys));
        }
        let list = list_body.map(|la| tattr(&geo, &la, list_at, spec.rec, list_inst, vec![(spec.rec, list_at.0, 0, list_inst)]));
        let t = TFile {
            rec: spec.rec,
            seq: spec.seq,
            links: spec.links,
            flags: spec.flags,
            pos: self.rec_pos(spec.rec),
            used: used0,
            attrs,
            list,
            list_entries,
            ext: recs[1..].iter().map(|r| r.0).collect(),
        };
        self.used_recs.insert(spec.rec, ());
        self.files.insert(spec.rec, t);
        self.files.get(&spec.rec)
    }

    /// Builds a B-tree over already sorted entries. Returns (root value, allocation value, bitmap, truth).
    pub fn index(&mut self, entries: Vec<IdxEnt>, ty: u32, rule: u32, root_cap: usize, fill: IdxFill) -> (Vec<u8>, Option<Vec<u8>>, Vec<u8>, TIndex) {
        let irs = self.geo.irs as usize;
        let unit = self.geo.idx_vcn_unit() as u64;
        let usa = irs / 512 + 1;
        // Absolute offset of the first entry; some records leave room.
        let eo = align8(40 + 2 * usa) + if self.junk && irs >= 2048 { 8 * self.p.below(3) as usize } else { 0 };
        let cap = irs - eo;
        let mut nodes: Vec<TNode> = vec![];
        let mut height = 0;
        if fill.wild {
            self.wild_tree((0..entries.len()).collect(), root_cap, cap, &fill, 0, true, &entries, &mut nodes);
            height = depth_of(&nodes);
        } else {
        // level list: items (entry idx) with children of previous level; children.len() == items.len()+1
        let mut items: Vec<usize> = (0..entries.len()).collect();
        let mut children: Option<Vec<usize>> = None;
        loop {
            let sub = children.is_some();
            let total: usize = items.iter().map(|i| esz(&entries[*i], sub)).sum::<usize>() + 16 + if sub { 8 } else { 0 };
            let force = height < fill.min_height && (!items.is_empty() || height == 0 || fill.chain);
            if total <= root_cap && !force {
                break;
            }
            // split into nodes and separators
            let endsz = 16 + if sub { 8 } else { 0 };
            let mut new_items = vec![];
            let mut new_children = vec![];
            let mut i = 0;
            let n = items.len();
            let mut bud = if children.is_none() { fill.leaf_bytes(&mut self.p, cap) } else { fill.inner_bytes(&mut self.p, cap) };
            let mut node = TNode::default();
            let mut sz = endsz;
            loop {
                let must_close = i < n && sz + esz(&entries[items[i]], sub) > cap;
                let may_close = i < n && (sz + esz(&entries[items[i]], sub) > bud.min(cap));
                if i == n {
                    node.end = children.as_ref().map(|c| c[i]);
                    nodes.push(node);
                    new_children.push(nodes.len() - 1);
                    break;
                }
                if must_close || (may_close && (!sub || !node.ents.is_empty() || (fill.chain && height < fill.min_height))) {
                    node.end = children.as_ref().map(|c| c[i]);
                    nodes.push(std::mem::take(&mut node));
                    new_children.push(nodes.len() - 1);
                    new_items.push(items[i]);
                    i += 1;
                    sz = endsz;
                    bud = if children.is_none() { fill.leaf_bytes(&mut self.p, cap) } else { fill.inner_bytes(&mut self.p, cap) };
                    continue;
                }
                node.ents.push((items[i], children.as_ref().map(|c| c[i])));
                sz += esz(&entries[items[i]], sub);
                i += 1;
            }
            items = new_items;
            children = Some(new_children);
            height += 1;
        }
        let mut root = TNode::default();
        for (k, it) in items.iter().enumerate() {
            root.ents.push((*it, children.as_ref().map(|c| c[k])));
        }
        root.end = children.as_ref().map(|c| c[items.len()]);
        nodes.push(root);
        }
        let root_idx = nodes.len() - 1;
        // slots
        let live = nodes.len() - 1;
        let extra = if live > 0 { self.p.range(0, fill.unused as u64) as usize } else { 0 };
        let mut slots: Vec<u64> = (0..(live + extra) as u64).collect();
        self.p.shuffle(&mut slots);
        let per = irs as u64 / unit;
        for (k, n) in nodes.iter_mut().take(live).enumerate() {
            n.slot = Some(slots[k]);
            n.vcn = slots[k] * per;
        }
        let vcns: Vec<u64> = nodes.iter().map(|n| n.vcn).collect();
        let ser = |n: &TNode, s: &mut Builder| -> (Vec<u8>, Vec<usize>, Vec<u16>) {
            let mut v = vec![];
            let mut offs = vec![];
            let mut lens = vec![];
            for (e, sub) in &n.ents {
                offs.push(v.len());
                let mut b = entries[*e].bytes(sub.map(|x| vcns[x]), false);
                s.junk_entry(&mut b, entries[*e].data.len());
                lens.push(b.len() as u16);
                v.extend(b);
            }
            offs.push(v.len());
            let dummy = IdxEnt { head: [0; 8], key: vec![], data: vec![] };
            let mut b = dummy.bytes(n.end.map(|x| vcns[x]), true);
            s.junk_entry(&mut b, 0);
            lens.push(b.len() as u16);
            v.extend(b);
            (v, offs, lens)
        };
        let mut alloc = None;
        let mut bitmap = vec![0u8; align8((live + extra).div_ceil(8)).max(8)];
        if live > 0 {
            let mut a = vec![0u8; (live + extra) * irs];
            let mut dead: Vec<u64> = slots[live..].to_vec();
            for k in 0..live {
                let slot = nodes[k].slot.unwrap();
                bitmap[slot as usize / 8] |= 1 << (slot % 8);
                let (b, offs, lens) = ser(&nodes[k], self);
                let has_sub = nodes[k].end.is_some() || nodes[k].ents.iter().any(|x| x.1.is_some());
                let o = slot as usize * irs;
                let r = self.index_record(nodes[k].vcn, &b, has_sub, eo, &entries);
                a[o..o + irs].copy_from_slice(&r);
                nodes[k].ent_pos = offs.iter().map(|x| (o + eo + x) as u64).collect();
                nodes[k].ent_len = lens;
            }
            // Freed records: valid-looking stale ones or blank.
            while let Some(d) = dead.pop() {
                let o = d as usize * irs;
                if !fill.blank || self.p.chance(2, 3) {
                    let k = self.p.below(live as u64) as usize;
                    let (b, _, _) = ser(&nodes[k], self);
                    let r = self.index_record(d * per, &b, nodes[k].end.is_some(), eo, &entries);
                    a[o..o + irs].copy_from_slice(&r);
                }
            }
            alloc = Some(a);
        }
        let (b, offs, lens) = ser(&nodes[root_idx], self);
        let mut rv = vec![0u8; 32];
        p32(&mut rv, 0, ty);
        p32(&mut rv, 4, rule);
        p32(&mut rv, 8, irs as u32);
        rv[12] = if irs as u32 >= self.geo.cluster { (irs as u32 / self.geo.cluster) as u8 } else { (irs / 512) as u8 };
        p32(&mut rv, 16, 16);
        p32(&mut rv, 20, 16 + b.len() as u32);
        p32(&mut rv, 24, 16 + b.len() as u32);
        self.fill_junk(&mut rv[13..16]);
        self.fill_junk(&mut rv[28..32]);
        rv[28] = rv[28] & !1 | (live > 0) as u8;
        rv.extend_from_slice(&b);
        nodes[root_idx].ent_pos = offs.iter().map(|x| 32 + *x as u64).collect();
        nodes[root_idx].ent_len = lens;
        let live_slots: Vec<u64> = (0..live).map(|k| nodes[k].slot.unwrap()).collect();
        let t = TIndex { entries, nodes, root: root_idx, height, irs: irs as u32, slots: (live + extra) as u64, live_slots };
        (rv, alloc, bitmap, t)
    }
    /// Random tree over the items: any entry may have a subnode or none, nodes may be empty.
    fn wild_tree(&mut self, items: Vec<usize>, root_cap: usize, cap: usize, fill: &IdxFill, level: usize, root: bool, entries: &[IdxEnt], nodes: &mut Vec<TNode>) -> usize {
        let room = if root { root_cap } else { cap } - 24;
        let total: usize = items.iter().map(|i| esz(&entries[*i], false)).sum();
        let leaf = total <= room && (level > 12 || self.p.chance(if level < fill.min_height { 1 } else { 3 }, 4));
        let mut node = TNode::default();
        if leaf {
            node.ents = items.iter().map(|i| (*i, None)).collect();
            if self.p.chance(1, 12) && level < 12 {
                // Nothing below the end entry, but a node nevertheless.
                node.end = Some(self.wild_tree(vec![], root_cap, cap, fill, level + 1, false, entries, nodes));
            }
        } else {
            // Own entries: a random subset that fits even with subnodes.
            let mut own: Vec<usize> = (0..items.len()).collect();
            self.p.shuffle(&mut own);
            let chain = fill.chain && level < 6 && self.p.chance(1, 4);
            let most = if chain { 0 } else { 1 + self.p.skewed(5) as usize };
            let mut sz = 0;
            let mut sel = vec![];
            for k in own {
                let e = esz(&entries[items[k]], true);
                if sel.len() < most && sz + e <= room {
                    sz += e;
                    sel.push(k);
                }
            }
            sel.sort_unstable();
            let mut at = 0;
            for k in sel.iter().copied().chain(std::iter::once(items.len())) {
                let gap = items[at..k].to_vec();
                let sub = if gap.is_empty() && (level > 10 || !self.p.chance(1, 16)) {
                    None
                } else {
                    Some(self.wild_tree(gap, root_cap, cap, fill, level + 1, false, entries, nodes))
                };
                if k < items.len() {
                    node.ents.push((items[k], sub));
                } else {
                    node.end = sub;
                }
                at = k + 1;
            }
        }
        nodes.push(node);
        nodes.len() - 1
    }
    /// Adds an index of any kind to the file; its entries must be sorted.
    pub fn add_index(&mut self, spec: &mut FileSpec, name: &str, ty: u32, rule: u32, entries: Vec<IdxEnt>, fill: IdxFill) -> TIndex {
        let root_cap = fill.root_cap(self.geo.frs as usize);
        let (rv, alloc, bitmap, ti) = self.index(entries, ty, rule, root_cap, fill);
        spec.attrs.push(Attr::res(IDXROOT, name, rv));
        if let Some(a) = alloc {
            let n = self.p.range(1, 3);
            let body = self.bytes_body(&a, n);
            spec.attrs.push(Attr::non(IDXALLOC, name, body));
            spec.attrs.push(Attr::res(BITMAP, name, bitmap));
        }
        ti
    }
    /// Random bytes where an index entry has no information.
    fn junk_entry(&mut self, b: &mut [u8], data: usize) {
        if !self.junk {
            return;
        }
        let (key, fl) = (u16at(b, 10) as usize, b[12]);
        let sub = fl & 1 == 1;
        b[12] |= self.p.u64() as u8 & !3;
        self.fill_junk(&mut b[13..16]);
        if fl & 2 != 0 {
            self.fill_junk(&mut b[0..8]);
        }
        let end = b.len() - if sub { 8 } else { 0 };
        if data == 0 {
            self.fill_junk(&mut b[16 + key..end]);
        } else {
            let (o, l) = (u16at(b, 0) as usize, u16at(b, 2) as usize);
            self.fill_junk(&mut b[16 + key..o]);
            self.fill_junk(&mut b[o + l..end]);
        }
    }
    fn index_record(&mut self, vcn: u64, entries: &[u8], has_sub: bool, eo: usize, all: &[IdxEnt]) -> Vec<u8> {
        let irs = self.geo.irs as usize;
        let mut r = vec![0u8; irs];
        r[0..4].copy_from_slice(b"INDX");
        p64(&mut r, 8, self.p.u64());
        p64(&mut r, 16, vcn);
        p32(&mut r, 24, (eo - 24) as u32);
        p32(&mut r, 28, (eo - 24 + entries.len()) as u32);
        p32(&mut r, 32, (irs - 24) as u32);
        self.fill_junk(&mut r[36..eo]);
        r[36] = r[36] & !1 | has_sub as u8;
        r[eo..eo + entries.len()].copy_from_slice(entries);
        // Stale entries in the slack space, as removals leave behind.
        let mut o = eo + entries.len();
        while !all.is_empty() {
            let k = self.p.below(all.len() as u64) as usize;
            let e = all[k].bytes(None, false);
            if o + e.len() > irs {
                break;
            }
            r[o..o + e.len()].copy_from_slice(&e);
            o += e.len();
        }
        let u = if eo >= align8(48 + 2 * (irs / 512 + 1)) { 48 } else { 40 };
        self.protect(&mut r, u);
        r
    }

    pub fn up(&self, n: &[u16]) -> Vec<u16> {
        n.iter().map(|c| self.upcase[*c as usize]).collect()
    }
    /// Standard information value.
    pub fn stdinfo(times: [u64; 4], attrs: u32, v3: Option<[u64; 7]>) -> Vec<u8> {
        let mut v = vec![0u8; if v3.is_some() { 72 } else { 48 }];
        for i in 0..4 {
            p64(&mut v, 8 * i, times[i]);
        }
        p32(&mut v, 32, attrs);
        if let Some(x) = v3 {
            p32(&mut v, 36, x[0] as u32);
            p32(&mut v, 40, x[1] as u32);
            p32(&mut v, 44, x[2] as u32);
            p32(&mut v, 48, x[3] as u32);
            p32(&mut v, 52, x[4] as u32);
            p64(&mut v, 56, x[5]);
            p64(&mut v, 64, x[6]);
        } else {
            // 36..48 unknown to NTFS 1.x readers
            p32(&mut v, 36, 0);
        }
        v
    }
    /// Writes a directory whose index holds the given names (any order).
    pub fn write_dir(&mut self, mut spec: FileSpec, names: Vec<(FName, u64)>, fill: IdxFill, alloc_place: Option<Place>) -> Option<()> {
        let mut v: Vec<(Vec<u16>, FName, u64)> = names.into_iter().map(|(n, r)| (self.up(&n.name), n, r)).collect();
        // COLLATION_FILENAME: case-insensitively, ties by the exact code units.
        v.sort_by(|a, b| a.0.cmp(&b.0).then_with(|| a.1.name.cmp(&b.1.name)));
        let entries: Vec<IdxEnt> = v.iter().map(|x| IdxEnt { head: x.2.to_le_bytes(), key: x.1.bytes(), data: vec![] }).collect();
        let root_cap = fill.root_cap(self.geo.frs as usize);
        let (rv, alloc, bitmap, mut ti) = self.index(entries, FILENAME, 1, root_cap, fill);
        let mut ra = Attr::res(IDXROOT, "$I30", rv);
        if let Some(Place::In(_)) = alloc_place {
            ra.place = Place::In(0);
        }
        spec.attrs.push(ra);
        if let Some(a) = alloc {
            let n = self.p.range(1, 5);
            // Index records must not straddle cluster runs badly: any cluster split is legal.
            let body = self.bytes_body(&a, n);
            let mut al = Attr::non(IDXALLOC, "$I30", body);
            if let (Some(pl), Body::Non { runs, .. }) = (alloc_place, &al.body) {
                al.place = match pl {
                    Place::Split(_) if runs.len() > 1 => {
                        let k = self.p.usize(1, runs.len() - 1);
                        Place::Split(vec![(1, k), (2, runs.len() - k)])
                    }
                    Place::Split(_) => Place::In(1),
                    p => p,
                };
            }
            spec.attrs.push(al);
            spec.attrs.push(Attr::res(BITMAP, "$I30", bitmap));
        }
        let rec = spec.rec;
        let tf = self.write_file(&spec)?.clone();
        // turn relative entry positions into disk positions
        let rootpos = tf.find(IDXROOT, "$I30").unwrap().value_pos;
        let root = ti.root;
        for (k, n) in ti.nodes.iter_mut().enumerate() {
            for x in n.ent_pos.iter_mut() {
                *x = if k == root {
                    rootpos + *x
                } else {
                    tf.find(IDXALLOC, "$I30").unwrap().disk_pos(*x).unwrap()
                };
            }
        }
        self.dirs.insert(rec, TDir { rec, names: v.iter().map(|x| x.1.clone()).collect(), refs: v.iter().map(|x| x.2).collect(), index: ti });
        Some(())
    }
    /// System files: $MFT, $Volume, $UpCase, $Boot and (unless written already) the root directory.
    pub fn finish(mut self) -> Vol {
        self.write_system();
        Vol {
            geo: self.geo,
            img: Arc::new(self.img),
            mft_runs: self.mft_runs,
            nrec: self.nrec,
            files: self.files,
            dirs: self.dirs,
            upcase: self.upcase,
            mft_data_size: self.mft_data_size,
        }
    }
    fn sysfile(&mut self, rec: u64, name: &str, extra: Vec<Attr>) {
        if self.files.contains_key(&rec) {
            return;
        }
        let mut s = FileSpec::new(rec, false);
        s.seq = rec.max(1) as u16;
        s.attrs.push(Attr::res(STDINFO, "", Builder::stdinfo([5, 6, 7, 8], 6, Some([0, 0, 0, 0, 0x100, 0, 0]))));
        s.attrs.push(Attr::res(FILENAME, "", FName { ns: 3, ..FName::simple(mft_ref(5, 5), &u16s(name)) }.bytes()));
        s.attrs.extend(extra);
        self.write_file(&s).expect("system file fits");
    }
    fn write_system(&mut self) {
        let c = self.geo.cluster as u64;
        let runs = self.mft_runs.clone();
        let ds = self.mft_data_size;
        self.sysfile(0, "$MFT", vec![Attr::non(DATA, "", Body::Non { runs, data_size: ds, init_size: ds, seed: None })]);
        let mut vi = vec![0u8; 12];
        vi[8] = 3;
        vi[9] = 1;
        self.sysfile(3, "$Volume", vec![Attr::res(VOLNAME, "", names_bytes(&u16s("testvol"))), Attr::res(VOLINFO, "", vi)]);
        if !self.files.contains_key(&7) {
            let bl = u64::max(1, 8192 / c);
            let body = Body::Non { runs: vec![Run { clusters: bl, lcn: Some(0) }], data_size: 8192, init_size: 8192, seed: None };
            self.sysfile(7, "$Boot", vec![Attr::non(DATA, "", body)]);
        }
        if !self.files.contains_key(&10) {
            let tb: Vec<u8> = self.upcase.iter().flat_map(|x| x.to_le_bytes()).collect();
            let n = self.p.range(1, 4);
            let body = self.bytes_body(&tb, n);
            self.sysfile(10, "$UpCase", vec![Attr::non(DATA, "", body)]);
        }
        if !self.files.contains_key(&5) {
            let mut s = FileSpec::new(5, true);
            s.seq = 5;
            s.attrs.push(Attr::res(STDINFO, "", Builder::stdinfo([1, 2, 3, 4], 6, None)));
            s.attrs.push(Attr::res(FILENAME, "", FName::simple(mft_ref(5, 5), &u16s(".")).bytes()));
            let names = vec![(FName::simple(mft_ref(5, 5), &u16s("$MFT")), mft_ref(0, 1))];
            self.write_dir(s, names, IdxFill::default(), None).expect("root fits");
        }
        let boot = self.geo.boot_sector(self.mft_runs[0].lcn.unwrap());
        self.img.write(0, &boot);
        let rest: Vec<u8> = (512..8192u32).map(|x| (x / 3) as u8).collect();
        self.img.write(512, &rest);
    }
}

fn u16at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn esz(e: &IdxEnt, sub: bool) -> usize {
    let mut n = 16 + e.key.len();
    if !e.data.is_empty() {
        n = (n + 3) / 4 * 4 + e.data.len();
    }
    align8(n) + if sub { 8 } else { 0 }
}
fn depth_of(nodes: &[TNode]) -> usize {
    // Children come before their parents.
    let mut d = vec![0usize; nodes.len()];
    for (k, n) in nodes.iter().enumerate() {
        d[k] = n.ents.iter().filter_map(|x| x.1).chain(n.end).map(|c| d[c] + 1).max().unwrap_or(0);
    }
    d.last().copied().unwrap_or(0)
}
fn tattr(geo: &Geo, a: &Attr, at: (u64, u64, u32), rec: u64, inst: u16, phys: Vec<(u64, u64, u64, u16)>) -> TAttr {
    let mut t = TAttr {
        ty: a.ty,
        name: a.name.clone(),
        flags: a.flags,
        resident: false,
        bytes: vec![],
        segs: vec![],
        data_size: 0,
        init_size: 0,
        alloc_size: 0,
        header_pos: at.0,
        value_pos: at.1,
        instance: inst,
        attr_len: at.2,
        rec,
        extents: phys.len(),
        phys,
        runs: vec![],
    };
    match &a.body {
        Body::Res(b) => {
            t.resident = true;
            t.bytes = b.clone();
            t.data_size = b.len() as u64;
            t.init_size = t.data_size;
        }
        Body::Non { runs, data_size, init_size, .. } => {
            t.data_size = *data_size;
            t.init_size = *init_size;
            t.runs = runs.clone();
            let c = geo.cluster as u64;
            let mut off = 0;
            for r in runs {
                t.segs.push(Seg { off, len: r.clusters * c, disk: r.lcn.map(|l| l * c) });
                off += r.clusters * c;
            }
            t.alloc_size = off;
        }
    }
    t
}

/// Shape of the generated B-tree.
#[derive(Clone, Debug)]
pub struct IdxFill {
    pub min_height: usize,
    /// Percent of a leaf / inner node filled (upper bound).
    pub leaf: u64,
    pub inner: u64,
    pub root: usize,
    /// Allow inner nodes without entries of their own.
    pub chain: bool,
    /// Up to this many unused records in the allocation.
    pub unused: usize,
    /// Unused records may be blank (never used before).
    pub blank: bool,
    /// Any shape of tree rather than a balanced one.
    pub wild: bool,
}
impl Default for IdxFill {
    fn default() -> Self {
        IdxFill { min_height: 0, leaf: 100, inner: 100, root: 600, chain: false, unused: 2, blank: true, wild: false }
    }
}
impl IdxFill {
    pub fn random(p: &mut Prng) -> IdxFill {
        IdxFill {
            min_height: p.below(4) as usize,
            leaf: p.range(1, 100),
            inner: p.range(5, 100),
            root: p.usize(16, 700),
            chain: p.chance(1, 4),
            unused: p.usize(0, 4),
            blank: true,
            wild: p.chance(1, 4),
        }
    }
    fn root_cap(&self, frs: usize) -> usize {
        self.root.min(frs - 500).max(48)
    }
    fn leaf_bytes(&self, p: &mut Prng, cap: usize) -> usize {
        let top = cap as u64 * self.leaf / 100;
        p.range(top / 3, top) as usize
    }
    fn inner_bytes(&self, p: &mut Prng, cap: usize) -> usize {
        let top = cap as u64 * self.inner / 100;
        p.range(top / 2, top) as usize
    }
}

/// Check bytes of a content stream (used for lazily generated extents).
pub fn stream_bytes(seed: u64, off: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    content(seed, off, &mut v);
    v
}

/// Overwrites bytes of a record slot, wherever they are on the device.
pub fn rec_patch(img: &mut Image, geo: &Geo, runs: &[Run], rec: u64, off: u64, bytes: &[u8]) {
    for (k, b) in bytes.iter().enumerate() {
        let pos = rec_pos_at(geo, runs, rec, off + k as u64).expect("record inside MFT");
        img.write(pos, &[*b]);
    }
}
impl TIndex {
    /// Parent node of every node (None: root).
    pub fn parents(&self) -> Vec<Option<usize>> {
        let mut v = vec![None; self.nodes.len()];
        for (k, n) in self.nodes.iter().enumerate() {
            for c in n.ents.iter().filter_map(|x| x.1).chain(n.end) {
                v[c] = Some(k);
            }
        }
        v
    }
    /// Nodes from the root to this one.
    pub fn path(&self, parents: &[Option<usize>], node: usize) -> Vec<usize> {
        let mut v = vec![node];
        let mut n = node;
        while let Some(p) = parents[n] {
            v.push(p);
            n = p;
        }
        v.reverse();
        v
    }
    /// Levels below the root.
    pub fn depth(&self) -> usize {
        let p = self.parents();
        (0..self.nodes.len()).map(|n| self.path(&p, n).len() - 1).max().unwrap_or(0)
    }
}
