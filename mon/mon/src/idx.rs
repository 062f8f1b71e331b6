//! Index helpers shared by the index checks: a key type over raw bytes and volumes full of indexes.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::NtfsPosition;
use ntfs::*;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

/// Index of raw keys with data.
#[derive(Clone, Debug)]
pub struct RawIdx;
#[derive(Clone, Debug)]
pub struct Raw {
    pub bytes: Vec<u8>,
    pub pos: NtfsPosition,
}
impl NtfsIndexEntryType for RawIdx {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasData for RawIdx {
    type DataType = Raw;
}
impl NtfsIndexEntryKey for Raw {
    fn key_from_slice(s: &[u8], pos: NtfsPosition) -> Result<Self, NtfsError> {
        Ok(Raw { bytes: s.to_vec(), pos })
    }
}
impl NtfsIndexEntryData for Raw {
    fn data_from_slice(s: &[u8], pos: NtfsPosition) -> Result<Self, NtfsError> {
        Ok(Raw { bytes: s.to_vec(), pos })
    }
}
/// Index of raw keys with file references.
#[derive(Clone, Debug)]
pub struct RawRefIdx;
impl NtfsIndexEntryType for RawRefIdx {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasFileReference for RawRefIdx {}

/// An index under another name than $I30, keys in byte order.
#[derive(Clone)]
pub struct XIndex {
    pub rec: u64,
    pub name: String,
    pub has_refs: bool,
    pub index: TIndex,
}
pub struct IVol {
    pub v: Vol,
    pub xs: Vec<XIndex>,
}

pub fn count(p: &mut Prng, max: u64) -> u64 {
    match p.below(8) {
        0 => p.below(3),
        1 => max,
        _ => p.skewed(64 - max.leading_zeros()).min(max),
    }
}

pub struct IOpt {
    pub max_ents: u64,
    pub up: UpKind,
    /// Names in one directory are distinct when upcased.
    pub distinct_up: bool,
    pub blank: bool,
}

pub fn build(p: &mut Prng, o: &IOpt) -> IVol {
    let mut geo = modest_geo(p);
    if p.chance(1, 10) {
        geo.irs = *p.pick(&[16384, 32768, 65536]);
    }
    if geo.frs < 1024 {
        geo.frs = 1024;
    }
    let opts = Opts { nrec: 60, upcase: o.up, scatter: p.chance(3, 4), ..Opts::default() };
    let mut b = Builder::new(geo.clone(), opts, p.u64());
    let mut xs = vec![];
    let ndirs = p.range(1, 3);
    let mut recs = vec![5];
    for _ in 0..ndirs {
        recs.extend(b.new_rec());
    }
    for r in recs {
        let seq = if r == 5 { 5 } else { p.range(1, 0xffff) as u16 };
        let maxn = geo.max_name_units().min(if p.chance(1, 6) { 255 } else { 30 });
        let n = count(p, o.max_ents);
        let mut seen = std::collections::HashSet::new();
        let mut names = vec![];
        let wild = p.chance(1, 3);
        let stem = rand_name(p, 6);
        for _ in 0..n {
            let mut u = if wild { wild_name(p, maxn) } else { rand_name(p, maxn) };
            if p.chance(1, 3) {
                // Long common prefixes.
                let mut s = stem.clone();
                s.extend(u);
                s.truncate(maxn);
                u = s;
            }
            let k = if o.distinct_up { b.up(&u) } else { u.clone() };
            if seen.insert(k) {
                let f = FName::random(p, mft_ref(r, seq), &u);
                names.push((f, mft_ref(if p.chance(1, 2) { p.below(b.nrec) } else { p.skewed(48) }, p.u64() as u16)));
            }
        }
        for tries in 0..4 {
            let mut s = FileSpec::new(r, true);
            s.seq = seq;
            s.attrs.push(std_attr(p));
            let mut fill = IdxFill::random(p);
            fill.blank = o.blank;
            if tries >= 2 {
                fill.root = 60;
            }
            let place = match p.below(4) {
                0 if tries < 2 => Some(Place::In(1)),
                1 if tries < 2 => Some(Place::Split(vec![])),
                _ => None,
            };
            // Other indexes beside the directory index, in the same file, before and after it.
            let mut mine = vec![];
            if tries < 2 && p.chance(1, 2) {
                let mut names = ["$A", "$I3", "$O", "$R", "$I29", "$H30", "$I31"];
                p.shuffle(&mut names);
                for name in names.iter().take(p.usize(1, 3)) {
                    mine.push(xindex(p, &mut b, &mut s, name, 12));
                }
            }
            if b.write_dir(s, names.clone(), fill, place).is_some() {
                xs.extend(mine);
                break;
            }
        }
    }
    for _ in 0..p.range(1, 3) {
        let Some(r) = b.new_rec() else { break };
        let mut s = FileSpec::new(r, false);
        s.seq = p.range(1, 0xffff) as u16;
        s.attrs.push(std_attr(p));
        let mut mine = vec![];
        for name in ["$SDH", "$SII", "$O", "$Q"].iter().take(p.usize(1, 3)) {
            mine.push(xindex(p, &mut b, &mut s, name, o.max_ents));
        }
        if p.chance(1, 3) {
            scatter_attrs(&mut b, &mut s);
            for a in s.attrs.iter_mut() {
                if a.ty == IDXROOT && p.chance(1, 2) {
                    a.place = Place::In(0);
                }
            }
            compact_groups(&mut s);
        }
        if b.write_file(&s).is_some() {
            xs.extend(mine);
        }
    }
    let mut v = b.finish();
    // Indexes of files written outside of write_dir know only offsets so far.
    for x in xs.iter_mut() {
        let f = &v.files[&x.rec];
        let rp = f.find(IDXROOT, &x.name).map(|t| t.value_pos).unwrap_or(0);
        let root = x.index.root;
        for (k, n) in x.index.nodes.iter_mut().enumerate() {
            for e in n.ent_pos.iter_mut() {
                *e = if k == root { rp + *e } else { f.find(IDXALLOC, &x.name).unwrap().disk_pos(*e).unwrap_or(0) };
            }
        }
    }
    let _ = &mut v;
    IVol { v, xs }
}
fn xindex(p: &mut Prng, b: &mut Builder, s: &mut FileSpec, name: &str, max: u64) -> XIndex {
    let has_refs = p.chance(1, 3);
    let n = count(p, max);
    let cap = (b.geo.irs as usize - 120).min(if p.chance(1, 4) { 40_000 } else { 3000 }) / 4;
    let fixed = p.chance(1, 2);
    let kl = p.usize(1, 40.min(cap));
    let mut keys: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let top = if p.chance(1, 8) { cap } else { 24.min(cap) };
            let l = if fixed { kl } else { p.usize(1, top) };
            let mut k = p.bytes(l);
            if p.chance(1, 2) {
                k[0] = p.below(3) as u8;
            }
            k
        })
        .collect();
    keys.sort();
    keys.dedup();
    let ents: Vec<IdxEnt> = keys
        .into_iter()
        .map(|key| {
            if has_refs {
                IdxEnt { head: p.u64().to_le_bytes(), key, data: vec![] }
            } else {
                let top = if p.chance(1, 8) { cap } else { 30.min(cap) };
                let l = if p.chance(1, 5) { 0 } else { p.usize(1, top) };
                let mut head = [0u8; 8];
                head[4..].copy_from_slice(&p.bytes(4));
                IdxEnt { head, key, data: p.bytes(l) }
            }
        })
        .collect();
    let mut fill = IdxFill::random(p);
    fill.root = fill.root.min(200);
    let t = b.add_index(s, name, if has_refs { 0x30 } else { 0 }, 0x10 + p.below(4) as u32, ents, fill);
    XIndex { rec: s.rec, name: name.into(), has_refs, index: t }
}

/// First field of a file name that is not the stored one.
pub fn fname_diff(k: &NtfsFileName, w: &FName) -> Option<String> {
    let u = walk::units(&k.name());
    if u != w.name {
        return Some(format!("name {} instead of {}", name_hex(&u), name_hex(&w.name)));
    }
    let t = [
        ("name_length", k.name_length() as u64, 2 * w.name.len() as u64),
        ("parent record", k.parent_directory_reference().file_record_number(), w.parent & 0xffff_ffff_ffff),
        ("parent sequence", k.parent_directory_reference().sequence_number() as u64, w.parent >> 48),
        ("creation time", k.creation_time().nt_timestamp(), w.times[0]),
        ("modification time", k.modification_time().nt_timestamp(), w.times[1]),
        ("record modification time", k.mft_record_modification_time().nt_timestamp(), w.times[2]),
        ("access time", k.access_time().nt_timestamp(), w.times[3]),
        ("allocated size", k.allocated_size(), w.alloc),
        ("data size", k.data_size(), w.size),
        ("namespace", k.namespace() as u64, w.ns as u64),
        ("attributes", k.file_attributes().bits() as u64, (NtfsFileAttributeFlags::all().bits() & w.attrs) as u64),
        ("directory", k.is_directory() as u64, (w.attrs >> 28 & 1) as u64),
    ];
    t.iter().find(|x| x.1 != x.2).map(|x| format!("{} {:#x} instead of {:#x}", x.0, x.1, x.2))
}

/// Items of the root and (if any) allocation attribute of the named index.
pub fn items<'n, 'f>(f: &'f NtfsFile<'n>, d: &mut MonDisk, name: &str) -> Result<(NtfsAttributeItem<'n, 'f>, Option<NtfsAttributeItem<'n, 'f>>), Viol> {
    let u = u16s(name);
    let r = walk::find_item(f, d, IDXROOT, &u)
        .map_err(|e| e2v("looking for the index root", e))?
        .ok_or_else(|| Viol::from(format!("index root {name} not found")))?;
    let a = walk::find_item(f, d, IDXALLOC, &u).map_err(|e| e2v("looking for the index allocation", e))?;
    Ok((r, a))
}
