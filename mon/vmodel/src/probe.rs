//! Observations of a volume through the public API, as data: what to ask. `walk.rs` asks.
use crate::prng::Prng;
use crate::vol::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Probe {
    Volume,
    VolInfo,
    VolName,
    Root,
    File(u64),
    Attrs(u64),
    RawAttrs(u64),
    List(u64),
    Info(u64),
    Name(u64, Option<u8>, Option<u64>),
    /// record, type, name, offset, length
    Read(u64, u32, Vec<u16>, u64, u32),
    /// The same through the attached form of the value.
    Attach(u64, u32, Vec<u16>, u64, u32),
    /// Attributes and index records through the attached iterators.
    Attached(u64),
    Runs(u64, u32, Vec<u16>),
    Struct(u64, u32, Vec<u16>),
    Data(u64, String),
    Dir(u64),
    DirRaw(u64),
    Find(u64, String),
    Open(u64, String),
    /// Compare these names in all forms.
    Cmp(Vec<u16>, String),
}
impl Probe {
    pub fn needs_upcase(&self) -> bool {
        matches!(self, Probe::Data(_, s) if !s.is_empty()) || matches!(self, Probe::Find(..) | Probe::Open(..) | Probe::Cmp(..))
    }
    pub fn rec(&self) -> Option<u64> {
        use Probe::*;
        match self {
            Volume | Cmp(..) => None,
            VolInfo | VolName => Some(3),
            Root => Some(5),
            File(r) | Attrs(r) | RawAttrs(r) | List(r) | Info(r) | Name(r, ..) | Read(r, ..) | Attach(r, ..) | Attached(r) | Runs(r, ..) | Struct(r, ..) | Data(r, _)
            | Dir(r) | DirRaw(r) | Find(r, _) | Open(r, _) => Some(*r),
        }
    }
    pub fn kind(&self) -> &'static str {
        use Probe::*;
        match self {
            Volume => "volume",
            VolInfo => "volume_info",
            VolName => "volume_name",
            Root => "root_directory",
            File(..) => "file",
            Attrs(..) => "attributes",
            RawAttrs(..) => "attributes_raw",
            List(..) => "attribute_list",
            Info(..) => "info",
            Name(..) => "name",
            Read(..) => "value_read",
            Attach(..) => "attached_read",
            Attached(..) => "attached_iterators",
            Runs(..) => "data_runs",
            Struct(..) => "structured_value",
            Data(..) => "data",
            Dir(..) => "index_entries",
            DirRaw(..) => "index_records",
            Find(..) => "find",
            Open(..) => "find_open",
            Cmp(..) => "compare",
        }
    }
}

/// Everything worth asking about the volume; `depth` scales the number of read windows.
pub fn plan(v: &Vol, p: &mut Prng, depth: u64) -> Vec<Probe> {
    let mut out = vec![Probe::Volume, Probe::VolInfo, Probe::VolName, Probe::Root];
    for (r, f) in &v.files {
        if *r == 10 && !p.chance(1, 4) {
            continue;
        }
        out.push(Probe::File(*r));
        out.push(Probe::Attrs(*r));
        out.push(Probe::RawAttrs(*r));
        out.push(Probe::Info(*r));
        out.push(Probe::Name(*r, None, None));
        if p.chance(1, 2) {
            out.push(Probe::Name(*r, Some(p.below(4) as u8), None));
            out.push(Probe::Name(*r, None, Some(p.below(v.nrec))));
        }
        if f.list.is_some() {
            out.push(Probe::List(*r));
        }
        if p.chance(1, 3) {
            out.push(Probe::Attached(*r));
        }
        for e in &f.ext {
            if p.chance(1, 2) {
                out.push(Probe::RawAttrs(*e));
            }
        }
        for a in &f.attrs {
            out.push(Probe::Struct(*r, a.ty, a.name.clone()));
            if !a.resident {
                out.push(Probe::Runs(*r, a.ty, a.name.clone()));
            }
            if a.ty == DATA {
                if let Ok(s) = String::from_utf16(&a.name) {
                    out.push(Probe::Data(*r, s));
                }
            }
            for _ in 0..if a.resident { 1 } else { depth } {
                let off = crate::gen::interesting(a, p);
                let n = p.skewed(13) as u32;
                out.push(if p.chance(1, 4) { Probe::Attach(*r, a.ty, a.name.clone(), off, n) } else { Probe::Read(*r, a.ty, a.name.clone(), off, n) });
            }
            if a.data_size <= 20_000 {
                out.push(Probe::Read(*r, a.ty, a.name.clone(), 0, a.data_size as u32 + 10));
            }
        }
        out.push(Probe::Data(*r, "no such stream".into()));
    }
    for (r, d) in &v.dirs {
        out.push(Probe::Dir(*r));
        out.push(Probe::DirRaw(*r));
        for _ in 0..depth.max(2) {
            if !d.names.is_empty() {
                let n = &d.names[p.below(d.names.len() as u64) as usize].name;
                if let Ok(s) = String::from_utf16(n) {
                    let s = if p.chance(1, 3) { s.to_lowercase() } else { s };
                    out.push(if p.chance(1, 3) { Probe::Open(*r, s) } else { Probe::Find(*r, s) });
                }
            }
            let n = crate::gen::rand_name(p, 9);
            out.push(Probe::Find(*r, String::from_utf16_lossy(&n)));
        }
    }
    for _ in 0..4 {
        out.push(cmp(p));
    }
    // Records that hold no file, and impossible ones.
    for _ in 0..3 {
        out.push(Probe::File(p.below(v.nrec)));
    }
    out.push(Probe::File(v.nrec));
    out.push(Probe::File(v.nrec + p.skewed(50)));
    out.push(Probe::File(u64::MAX / v.geo.frs as u64 + p.below(2)));
    out
}

/// Two short, often similar names.
pub fn cmp(p: &mut Prng) -> Probe {
    const ALPHA: [u16; 12] = [b'a' as u16, b'A' as u16, b'z' as u16, b'_' as u16, 0xe4, 0xc4, 0xdf, 0x131, 0xd800, 0xdc00, 0xfb01, 0xffff];
    let n = p.below(5) as usize;
    let a: Vec<u16> = (0..n).map(|_| if p.chance(1, 8) { p.u64() as u16 } else { *p.pick(&ALPHA) }).collect();
    let mut b = a.clone();
    for c in b.iter_mut() {
        if p.chance(1, 2) {
            *c = *p.pick(&ALPHA);
        }
    }
    if p.chance(1, 4) {
        b.push(*p.pick(&ALPHA));
    }
    Probe::Cmp(a, String::from_utf16_lossy(&b))
}
