//! A driver that calls every public operation in random order with random arguments, whatever the
//! volume looks like, and meters what each call costs.
use crate::idx::{RawIdx, RawRefIdx};
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::*;
use ntfs::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::io::{Read, Seek, SeekFrom};
use vmodel::disk::MonDisk;
use vmodel::image::Image;
use vmodel::meter;
use vmodel::prng::*;
use vmodel::vol::*;

/// What is worth asking for.
#[derive(Default)]
pub struct Hints {
    pub recs: Vec<u64>,
    pub streams: Vec<String>,
    pub names: Vec<String>,
    pub vcns: Vec<i64>,
}
impl Hints {
    pub fn new(v: &Vol) -> Hints {
        let mut h = Hints::default();
        for (r, f) in &v.files {
            h.recs.push(*r);
            h.recs.extend(&f.ext);
            h.streams.extend(f.attrs.iter().filter(|t| t.ty == DATA).map(|t| String::from_utf16_lossy(&t.name)));
        }
        for d in v.dirs.values() {
            h.recs.extend([d.rec; 3]);
            h.names.extend(d.names.iter().map(|n| String::from_utf16_lossy(&n.name)));
            h.vcns.extend(d.index.nodes.iter().map(|n| n.vcn as i64));
        }
        h
    }
}

/// Sizes that bound the work of a call.
#[derive(Clone, Copy, Debug, Default)]
pub struct Dims {
    pub frs: u64,
    /// Bytes of attribute lists, entries in them.
    pub list: u64,
    pub ents: u64,
    /// Index records on the device.
    pub nodes: u64,
}
impl Dims {
    /// One operation on a value, besides the bytes it delivers.
    fn value(&self) -> u64 {
        (self.ents + 1) * (2 * self.frs + 1200) + self.list
    }
    /// One step of the attribute iterator.
    fn attr(&self) -> u64 {
        3 * self.frs + 2 * self.list + 4 * self.value() + 2000
    }
    /// All attributes of a file.
    fn all(&self) -> u64 {
        (self.frs / 16 + self.ents + 2) * (3 * self.frs + 2 * self.list + 2000) + 4 * self.value()
    }
    fn index(&self) -> u64 {
        (self.nodes + 2) * (65536 + self.value())
    }
}

pub fn stored(img: &Image) -> (u64, u64) {
    let (mut bytes, mut nodes) = (0, 0);
    for p in img.explicit_pages() {
        bytes += 4096;
        let b = img.get(p * 4096, 4096);
        nodes += b.chunks(256).filter(|c| &c[..4] == b"INDX").count() as u64;
    }
    (bytes, nodes)
}

#[derive(Clone, Debug, Default)]
pub struct Worst {
    pub calls: u64,
    pub steps: u64,
    pub bytes: u64,
    pub heap: u64,
    /// Largest fraction of the allowance, in percent.
    pub share: u64,
}

pub struct Drv<'h> {
    pub p: Prng,
    pub h: &'h Hints,
    /// Calls left.
    pub left: i64,
    /// Only here: what was seen.
    pub sigs: HashSet<u64>,
    pub calls: u64,
    pub errors: u64,
    pub oks: u64,
    pub trail: VecDeque<String>,
    pub up: bool,
    /// Judge the cost of every call.
    pub metered: bool,
    pub worst: BTreeMap<&'static str, Worst>,
    pub over: Option<String>,
    pub stored: u64,
    pub base: Dims,
}

/// Formats without keeping the text.
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
pub fn shown<T: std::fmt::Debug>(x: &T) -> u64 {
    use std::fmt::Write;
    let mut s = Sink(0);
    let _ = write!(s, "{x:?}");
    s.0
}
fn text<T: std::fmt::Display>(x: &T) -> u64 {
    use std::fmt::Write;
    let mut s = Sink(0);
    let _ = write!(s, "{x}");
    s.0
}

impl<'h> Drv<'h> {
    pub fn new(p: Prng, h: &'h Hints, img: &Image, left: i64) -> Drv<'h> {
        let (stored, nodes) = stored(img);
        Drv {
            p,
            h,
            left,
            sigs: HashSet::new(),
            calls: 0,
            errors: 0,
            oks: 0,
            trail: VecDeque::new(),
            up: false,
            metered: false,
            worst: BTreeMap::new(),
            over: None,
            stored,
            base: Dims { frs: 1024, list: 0, ents: 0, nodes },
        }
    }
    pub fn trail(&self) -> String {
        self.trail.iter().cloned().collect::<Vec<_>>().join(", ")
    }

    /// One call. `work` bounds the bytes of structures and buffers it may have to look at.
    fn op<R>(&mut self, d: &mut MonDisk, name: &'static str, work: u64, f: impl FnOnce(&mut MonDisk) -> R) -> R {
        self.left -= 1;
        self.calls += 1;
        if self.trail.len() >= 12 {
            self.trail.pop_front();
        }
        self.trail.push_back(name.to_string());
        if !self.metered {
            return f(d);
        }
        let max_bytes = work.saturating_mul(2).saturating_add(8192);
        let max_steps = work.saturating_mul(120).saturating_add(200_000);
        // A few records of the largest size at any time, except where an iterator remembers its way.
        let max_heap = (2 << 20) + if name == "index entries" { work.saturating_mul(2).min(64 << 20) } else { 0 };
        let (b0, o0) = (d.bytes, d.ops);
        let budget = d.budget;
        d.budget = o0.saturating_add(work / 2 + 2000);
        meter::note(name);
        let m = meter::Meter::start(max_steps, max_heap);
        let r = f(d);
        let u = m.stop();
        d.budget = budget;
        let bytes = d.bytes - b0;
        let w = self.worst.entry(name).or_default();
        w.calls += 1;
        w.steps = w.steps.max(u.steps);
        w.bytes = w.bytes.max(bytes);
        w.heap = w.heap.max(u.peak);
        w.share = w.share.max(u.steps * 100 / max_steps).max(bytes * 100 / max_bytes).max(u.peak * 100 / max_heap);
        if self.over.is_none() && (bytes > max_bytes || u.peak > max_heap || u.steps > max_steps) {
            self.over = Some(format!(
                "{name} read {bytes} bytes (allowed {max_bytes}), took {} steps (allowed {max_steps}) and {} bytes of memory (allowed {max_heap}); work bound {work}, {:?}; after {}",
                u.steps,
                u.peak,
                self.base,
                self.trail()
            ));
        }
        r
    }
    /// Shows something that contains the volume with its table: expensive.
    fn show_all<T: std::fmt::Debug>(&mut self, x: &T) {
        if self.p.chance(1, if self.up { 400 } else { 8 }) {
            let _ = shown(x);
        }
    }
    fn note(&mut self, name: &str, what: u64) {
        let mut g = Digest::default();
        g.s(name);
        g.u(what);
        self.sigs.insert(g.0);
    }
    fn res<T>(&mut self, name: &'static str, r: Result<T, NtfsError>) -> Option<T> {
        match r {
            Ok(x) => {
                self.oks += 1;
                self.note(name, 0);
                Some(x)
            }
            Err(e) => {
                self.errors += 1;
                let mut g = Digest::default();
                let t = format!("{e:?}");
                g.s(t.split([' ', '(']).next().unwrap_or(""));
                let _ = text(&e);
                // As an I/O error, as the attached readers report it.
                if self.p.chance(1, 8) {
                    let i: std::io::Error = e.into();
                    let _ = (text(&i), shown(&i));
                }
                self.note(name, g.0);
                None
            }
        }
    }
    /// A number someone might pass.
    fn num(&mut self) -> u64 {
        match self.p.below(6) {
            0 => self.p.below(4),
            1 => self.p.skewed(64),
            2 => u64::MAX - self.p.skewed(40),
            3 => 1 << self.p.below(64),
            4 => i64::MAX as u64 - self.p.below(3),
            _ => self.p.below(70_000),
        }
    }
    fn rec(&mut self) -> u64 {
        if self.h.recs.is_empty() || self.p.chance(1, 12) {
            return self.num();
        }
        *self.p.pick(&self.h.recs)
    }
    fn string(&mut self, of: u8) -> String {
        let l = if of == 0 { &self.h.names } else { &self.h.streams };
        let mut s: String = if l.is_empty() || self.p.chance(1, 8) {
            (0..self.p.below(6)).map(|_| char::from_u32(self.p.skewed(20) as u32).unwrap_or('\u{fffd}')).collect()
        } else {
            self.p.pick(l).clone()
        };
        match self.p.below(6) {
            0 => s = s.to_uppercase(),
            1 => s = s.to_lowercase(),
            2 => s.push('x'),
            _ => {}
        }
        s
    }
    fn go(&self) -> bool {
        self.left > 0 && self.over.is_none()
    }

    pub fn session(&mut self, d: &mut MonDisk) {
        // The record size is not known before; records of more than 64 KiB do not exist.
        let r = self.op(d, "Ntfs::new", 70_000, Ntfs::new);
        let Some(mut n) = self.res("Ntfs::new", r) else { return };
        // More is absurd and must be refused.
        self.base.frs = (n.file_record_size() as u64).min(65536);
        self.up = false;
        if self.p.chance(4, 5) {
            let dims = self.guess();
            let r = self.op(d, "read_upcase_table", dims.all() + 4 * dims.value() + 300_000, |d| n.read_upcase_table(d));
            self.up = self.res("read_upcase_table", r).is_some();
        }
        self.volume(&n, d);
        let mut files = vec![];
        for _ in 0..self.p.range(1, 6) {
            let r = self.rec();
            let w = 4 * self.guess().value();
            let f = self.op(d, "file", w, |d| n.file(d, r));
            files.extend(self.res("file", f));
        }
        let w = 4 * self.guess().value();
        let f = self.op(d, "root_directory", w, |d| n.root_directory(d));
        files.extend(self.res("root_directory", f));
        if files.is_empty() {
            return;
        }
        while self.go() {
            let before = self.left;
            let k = self.p.usize(0, files.len() - 1);
            self.file(&n, &files[k], d, 0);
            if self.left == before {
                self.left -= 1;
            }
        }
    }
    /// Without knowing the file: no lists.
    fn guess(&self) -> Dims {
        Dims { ents: 400, list: 40_000, ..self.base }
    }

    fn volume(&mut self, n: &Ntfs, d: &mut MonDisk) {
        let _ = (n.cluster_size(), n.file_record_size(), n.mft_position(), n.sector_size(), n.serial_number(), n.size(), shown(&n.mft_position()));
        let _ = (text(&n.mft_position()), format!("{:x}{:X}{:o}{:b}", n.mft_position(), n.mft_position(), n.mft_position(), n.mft_position()));
        let w = self.guess().all() + 4 * self.guess().value();
        let r = self.op(d, "volume_info", w, |d| n.volume_info(d));
        if let Some(i) = self.res("volume_info", r) {
            let _ = (i.flags(), text(&i.flags()), i.major_version(), i.minor_version(), shown(&i));
        }
        if let Some(r) = self.op(d, "volume_name", w, |d| n.volume_name(d)) {
            if let Some(i) = self.res("volume_name", r) {
                let _ = (i.name().to_string_lossy(), i.name_length(), shown(&i));
            }
        }
        // Arithmetic on cluster numbers and references.
        for _ in 0..3 {
            let (a, b) = (self.num(), self.num());
            let l = Lcn::from(a);
            let _ = (l.checked_add(Vcn::from(b as i64)).map(|x| x.value()), l.value(), text(&l), shown(&l));
            let r = l.position(n);
            self.res("Lcn::position", r);
            let v = Vcn::from(b as i64);
            let _ = (v.value(), text(&v), shown(&v));
            let r = v.offset(n);
            self.res("Vcn::offset", r);
            let mut x = n.mft_position() + a;
            x += b;
            let _ = (x.value(), x + 7u16, x + 9usize, text(&x));
            let a = self.num();
            self.time(a);
        }
    }
    fn time(&mut self, a: u64) {
        let t = NtfsTime::from(a);
        let o = time::OffsetDateTime::from(t);
        let _ = (t.nt_timestamp(), shown(&t), NtfsTime::try_from(o).is_ok());
        // Any civil time, any system time.
        let (x, ns) = (self.num(), self.p.below(1_000_000_000));
        if let Ok(o) = time::OffsetDateTime::from_unix_timestamp(x as i64) {
            let r = NtfsTime::try_from(o);
            self.res("NtfsTime::try_from", r);
        }
        let (e, l) = (std::time::SystemTime::UNIX_EPOCH, std::time::Duration::new(x, ns as u32));
        for t in [e.checked_add(l), e.checked_sub(l)].into_iter().flatten() {
            let _ = NtfsTime::try_from(t).map_err(|e| text(&e));
        }
    }

    fn dims(&mut self, f: &NtfsFile) -> Dims {
        let mut x = Dims { frs: f.allocated_size().max(f.data_size()) as u64, ..self.base };
        x.frs = x.frs.max(self.base.frs).min(65536);
        // The lists of this file, by their real extent.
        for a in f.attributes_raw() {
            let Ok(a) = a else { break };
            if !matches!(a.ty(), Ok(NtfsAttributeType::AttributeList)) {
                continue;
            }
            let len = a.value_length();
            let len = if a.is_resident() {
                len.min(x.frs)
            } else {
                let mut d = MonDisk::new(std::sync::Arc::new(Image::new(512, 0)));
                match a.value(&mut d) {
                    Ok(NtfsAttributeValue::NonResident(v)) => {
                        let mut s = 0u64;
                        for r in v.data_runs() {
                            let Ok(r) = r else { break };
                            s = s.saturating_add(r.allocated_size().min(self.stored + 65536));
                        }
                        s.min(len)
                    }
                    _ => 0,
                }
            };
            x.list = x.list.saturating_add(len);
        }
        x.ents = x.list / 24 + 1;
        x
    }

    /// Operations on a file.
    fn file<'n>(&mut self, n: &'n Ntfs, f: &NtfsFile<'n>, d: &mut MonDisk, depth: u32) {
        let dm = self.dims(f);
        let _ = (f.allocated_size(), f.data_size(), f.file_record_number(), f.flags(), text(&f.flags()), f.hard_link_count(), f.is_directory(), f.position(), f.sequence_number());
        self.show_all(f);
        let r = self.op(d, "info", 4 * dm.frs, |_| f.info());
        if let Some(i) = self.res("info", r) {
            self.stdinfo(&i);
        }
        if self.p.chance(1, 2) {
            let ns = match self.p.below(6) {
                0 => Some(NtfsFileNamespace::Posix),
                1 => Some(NtfsFileNamespace::Win32),
                2 => Some(NtfsFileNamespace::Dos),
                3 => Some(NtfsFileNamespace::Win32AndDos),
                _ => None,
            };
            let parent = if self.p.chance(1, 3) { Some(self.rec()) } else { None };
            if let Some(r) = self.op(d, "name", dm.all(), |d| f.name(d, ns, parent)) {
                if let Some(x) = self.res("name", r) {
                    self.fname(n, &x, d);
                }
            }
        }
        // The documented panic: names are compared only with the table.
        let s = if self.up { self.string(1) } else { String::new() };
        if let Some(r) = self.op(d, "data", dm.all(), |d| f.data(d, &s)) {
            if let Some(i) = self.res("data", r) {
                let r = i.to_attribute();
                if let Some(a) = self.res("to_attribute", r) {
                    self.attr(n, &a, d, dm, depth);
                }
            }
        }
        if self.p.chance(1, 3) {
            // The simple iterator, one or the other form.
            let mut k = 0;
            for a in f.attributes_raw() {
                k += 1;
                if k > dm.frs / 4 + 4 {
                    self.over.get_or_insert(format!("attributes_raw() does not end, {k} items"));
                    return;
                }
                let Some(a) = self.res("attributes_raw", a) else { break };
                if self.p.chance(1, 2) {
                    self.attr(n, &a, d, dm, depth);
                }
                if !self.go() {
                    return;
                }
            }
        }
        if !self.go() {
            return;
        }
        // Attributes through the lists.
        let mut items: Vec<NtfsAttributeItem> = vec![];
        let cap = dm.frs / 16 + dm.ents + 8;
        let mut it = f.attributes();
        let (mut k, mut errs) = (0, 0);
        let other = it.clone();
        while self.go() {
            let r = self.op(d, "attributes", dm.attr(), |d| it.next(d));
            let Some(r) = r else { break };
            k += 1;
            if k > cap {
                self.over.get_or_insert(format!("attributes() does not end, {k} items, {dm:?}"));
                return;
            }
            match self.res("attributes", r) {
                None => {
                    errs += 1;
                    if errs > 4 {
                        break;
                    }
                }
                Some(i) => {
                    if items.len() < 20 {
                        items.push(i);
                    }
                }
            }
            if self.p.chance(1, 30) {
                it = other.clone();
                k = 0;
                if self.p.chance(1, 2) {
                    break;
                }
            }
        }
        if self.p.chance(1, 6) {
            let mut at = other.attach(d);
            let _ = at.next();
            let _ = at.next();
            let at = at.detach();
            self.show_all(&at);
        }
        let mut attrs = vec![];
        for i in &items {
            let r = i.to_attribute();
            attrs.extend(self.res("to_attribute", r));
            self.show_all(i);
        }
        for a in &attrs {
            if self.go() && self.p.chance(1, 2) {
                self.attr(n, a, d, dm, depth);
            }
        }
        // Reading values in turns.
        let mut vals = vec![];
        for a in &attrs {
            let r = self.op(d, "value", 2 * dm.value(), |d| a.value(d));
            vals.extend(self.res("value", r));
        }
        if !vals.is_empty() {
            for _ in 0..self.p.below(20) {
                if !self.go() {
                    return;
                }
                let k = self.p.usize(0, vals.len() - 1);
                self.value(&mut vals[k], d, dm);
                if self.p.chance(1, 8) {
                    let j = self.p.usize(0, vals.len() - 1);
                    vals[j] = vals[k].clone();
                }
            }
        }
        // Indexes: the directory's, and any two attributes put together.
        if self.p.chance(2, 3) {
            let r = self.op(d, "directory_index", 2 * dm.all(), |d| f.directory_index(d));
            if let Some(ix) = self.res("directory_index", r) {
                self.names(n, &ix, d, dm, depth);
            }
        }
        let roots: Vec<usize> = (0..items.len()).filter(|k| items[*k].to_attribute().is_ok_and(|a| a.ty().is_ok_and(|t| t == NtfsAttributeType::IndexRoot))).collect();
        let allocs: Vec<usize> = (0..items.len()).filter(|k| items[*k].to_attribute().is_ok_and(|a| a.ty().is_ok_and(|t| t == NtfsAttributeType::IndexAllocation))).collect();
        if !items.is_empty() && self.p.chance(1, 2) {
            let root = if roots.is_empty() || self.p.chance(1, 10) { self.p.usize(0, items.len() - 1) } else { *self.p.pick(&roots) };
            let alloc = match self.p.below(6) {
                0 => None,
                1 => Some(self.p.usize(0, items.len() - 1)),
                _ if allocs.is_empty() => None,
                _ => Some(*self.p.pick(&allocs)),
            };
            let (a, b) = (items[root].clone(), alloc.map(|k| items[k].clone()));
            match self.p.below(3) {
                0 => {
                    let r = self.op(d, "NtfsIndex::new", 4 * dm.frs, |_| NtfsIndex::<RawIdx>::new(a, b));
                    if let Some(ix) = self.res("NtfsIndex::new", r) {
                        self.index(&ix, d, dm, |s, _, e| {
                            if let Some(x) = e.data() {
                                s.res("data of an entry", x);
                            }
                            let _ = e.data_length();
                        });
                    }
                }
                1 => {
                    let r = self.op(d, "NtfsIndex::new", 4 * dm.frs, |_| NtfsIndex::<RawRefIdx>::new(a, b));
                    if let Some(ix) = self.res("NtfsIndex::new", r) {
                        self.index(&ix, d, dm, |_, _, e| {
                            let _ = e.file_reference();
                        });
                    }
                }
                _ => {
                    let r = self.op(d, "NtfsIndex::new", 4 * dm.frs, |_| NtfsIndex::<NtfsFileNameIndex>::new(a, b));
                    if let Some(ix) = self.res("NtfsIndex::new", r) {
                        self.names(n, &ix, d, dm, depth);
                    }
                }
            }
        }
    }

    fn stdinfo(&mut self, i: &NtfsStandardInformation) {
        let _ = (i.access_time(), i.class_id(), i.creation_time(), i.file_attributes(), text(&i.file_attributes()), i.maximum_versions(), i.mft_record_modification_time());
        let _ = (i.modification_time(), i.owner_id(), i.quota_charged(), i.security_id(), i.usn(), i.version(), shown(i));
        self.time(i.access_time().nt_timestamp());
        self.time(i.creation_time().nt_timestamp());
    }
    fn fname(&mut self, n: &Ntfs, x: &NtfsFileName, d: &mut MonDisk) {
        let _ = (x.access_time(), x.allocated_size(), x.creation_time(), x.data_size(), x.file_attributes(), x.is_directory(), x.mft_record_modification_time(), x.modification_time());
        let _ = (x.name().to_string(), x.name().to_string_lossy(), x.name_length(), x.namespace(), shown(x), text(&x.name()), x.name().len());
        self.time(x.modification_time().nt_timestamp());
        let r = x.parent_directory_reference();
        if self.p.chance(1, 6) {
            let w = 4 * self.guess().value();
            let r = self.op(d, "NtfsFileReference::to_file", w, |d| r.to_file(n, d));
            self.res("NtfsFileReference::to_file", r);
        }
        if self.up {
            let s = self.string(0);
            let _ = (x.name().upcase_cmp(n, &s.as_str()), x.name().upcase_cmp(n, &x.name()), s.as_str().upcase_cmp(n, &x.name()));
        }
    }

    fn attr<'n>(&mut self, n: &'n Ntfs, a: &NtfsAttribute<'n, '_>, d: &mut MonDisk, dm: Dims, depth: u32) {
        let _ = (a.attribute_length(), a.flags(), text(&a.flags()), a.instance(), a.is_resident(), a.name_length(), a.position(), a.value_length());
        let r = a.name();
        if let Some(x) = self.res("attribute name", r) {
            let _ = (x.to_string(), x.len());
            if self.up {
                let s = self.string(1);
                let _ = x.upcase_cmp(n, &s.as_str());
            }
        }
        let r = a.ty();
        let ty = self.res("attribute type", r);
        if let Some(t) = ty {
            let _ = shown(&t);
        }
        self.show_all(a);
        let w = 2 * dm.value() + 2000;
        let k = match ty {
            Some(t) if !self.p.chance(1, 8) => t as u32,
            _ => *self.p.pick(&[STDINFO, ATTRLIST, FILENAME, OBJID, VOLNAME, VOLINFO, IDXROOT, IDXALLOC]),
        };
        let resident = self.p.chance(1, 3);
        macro_rules! sv {
            ($t:ty, |$x:ident| $b:expr) => {{
                let r = if resident {
                    self.op(d, "resident_structured_value", 4 * dm.frs, |_| a.resident_structured_value::<$t>())
                } else {
                    self.op(d, "structured_value", w, |d| a.structured_value::<_, $t>(d))
                };
                if let Some($x) = self.res("structured_value", r) {
                    $b
                }
            }};
        }
        match k {
            STDINFO => sv!(NtfsStandardInformation, |x| self.stdinfo(&x)),
            OBJID => sv!(NtfsObjectId, |x| {
                let _ = (x.birth_object_id().map(text), x.birth_volume_id(), x.domain_id(), text(x.object_id()), shown(&x));
            }),
            VOLINFO => sv!(NtfsVolumeInformation, |x| {
                let _ = (x.flags(), text(&x.flags()), x.major_version(), shown(&x));
            }),
            VOLNAME => sv!(NtfsVolumeName, |x| {
                let _ = (x.name().to_string_lossy(), x.name_length(), shown(&x));
            }),
            FILENAME => {
                let r = self.op(d, "structured_value", w, |d| a.structured_value::<_, NtfsFileName>(d));
                if let Some(x) = self.res("structured_value", r) {
                    self.fname(n, &x, d);
                }
            }
            IDXROOT => sv!(NtfsIndexRoot, |x| self.root(&x, dm)),
            IDXALLOC => {
                let r = self.op(d, "structured_value", w, |d| a.structured_value::<_, NtfsIndexAllocation>(d));
                if let Some(x) = self.res("structured_value", r) {
                    self.alloc(&x, d, dm);
                }
            }
            ATTRLIST => {
                let r = self.op(d, "structured_value", w, |d| a.structured_value::<_, NtfsAttributeList>(d));
                if let Some(x) = self.res("structured_value", r) {
                    self.list(n, &x, d, dm, depth);
                }
            }
            _ => {
                let r = self.op(d, "value", 2 * dm.value(), |d| a.value(d));
                if let Some(mut v) = self.res("value", r) {
                    for _ in 0..self.p.range(1, 6) {
                        self.value(&mut v, d, dm);
                    }
                }
            }
        }
    }

    fn root(&mut self, x: &NtfsIndexRoot, dm: Dims) {
        let _ = (x.index_allocated_size(), x.index_data_size(), x.index_record_size(), x.is_large_index(), x.position(), shown(x));
        match self.p.below(3) {
            0 => {
                let r = x.entries::<NtfsFileNameIndex>();
                if let Some(e) = self.res("NtfsIndexRoot::entries", r) {
                    self.node(e, dm.frs);
                }
            }
            1 => {
                let r = x.entries::<RawIdx>();
                if let Some(e) = self.res("NtfsIndexRoot::entries", r) {
                    self.node(e, dm.frs);
                }
            }
            _ => {
                let r = x.entries::<RawRefIdx>();
                if let Some(e) = self.res("NtfsIndexRoot::entries", r) {
                    self.node(e, dm.frs);
                }
            }
        }
    }
    fn node<E: NtfsIndexEntryType>(&mut self, it: NtfsIndexNodeEntries<E>, size: u64) {
        let mut k = 0;
        for e in it {
            k += 1;
            if k > size / 8 + 4 {
                self.over.get_or_insert(format!("the entries of a node of {size} bytes do not end, {k} items"));
                return;
            }
            let Some(e) = self.res("node entry", e) else { break };
            self.entry(&e);
        }
    }
    fn entry<E: NtfsIndexEntryType>(&mut self, e: &NtfsIndexEntry<E>) {
        let _ = (e.flags(), text(&e.flags()), e.index_entry_length(), e.key_length(), e.position());
        if let Some(k) = e.key() {
            if let Some(k) = self.res("key", k) {
                let _ = shown(&k);
            }
        }
        if let Some(v) = e.subnode_vcn() {
            self.res("subnode_vcn", v);
        }
    }
    fn record(&mut self, r: &NtfsIndexRecord, size: u64) {
        let _ = (r.has_subnodes(), r.index_allocated_size(), r.index_data_size(), r.vcn());
        if self.p.chance(1, 2) {
            let x = r.entries::<NtfsFileNameIndex>();
            if let Some(e) = self.res("NtfsIndexRecord::entries", x) {
                self.node(e, size);
            }
        } else {
            let x = r.entries::<RawIdx>();
            if let Some(e) = self.res("NtfsIndexRecord::entries", x) {
                self.node(e, size);
            }
        }
    }
    fn alloc(&mut self, x: &NtfsIndexAllocation, d: &mut MonDisk, dm: Dims) {
        for _ in 0..self.p.range(1, 6) {
            let size = match self.p.below(5) {
                0 => self.num() as u32,
                1 => 1 << self.p.below(32),
                2 => 512,
                _ => 4096,
            };
            let vcn = if self.h.vcns.is_empty() || self.p.chance(1, 4) { self.num() as i64 } else { *self.p.pick(&self.h.vcns) };
            let r = self.op(d, "record_from_vcn", 3 * dm.value() + 70_000, |d| x.record_from_vcn(d, size, Vcn::from(vcn)));
            if let Some(r) = self.res("record_from_vcn", r) {
                self.record(&r, size as u64);
            }
            if !self.go() {
                return;
            }
            if self.p.chance(1, 3) {
                let mut it = x.records(size);
                let mut left = 12;
                let mut errs = 0;
                loop {
                    let r = self.op(d, "records", 3 * dm.value() + 70_000, |d| it.next(d));
                    let Some(r) = r else { break };
                    match self.res("records", r) {
                        Some(r) => self.record(&r, size as u64),
                        None => {
                            errs += 1;
                        }
                    }
                    left -= 1;
                    if left == 0 || errs > 3 || !self.go() {
                        break;
                    }
                }
                if self.p.chance(1, 4) {
                    let mut a = it.attach(d);
                    let _ = a.next();
                    let a = a.detach();
                    self.show_all(&a);
                }
            }
        }
    }
    fn list<'n>(&mut self, n: &'n Ntfs, x: &NtfsAttributeList<'n, '_>, d: &mut MonDisk, dm: Dims, depth: u32) {
        let _ = x.position();
        self.show_all(x);
        let mut it = x.entries();
        let cap = dm.ents + 4;
        let (mut k, mut errs) = (0, 0);
        while self.go() {
            let r = self.op(d, "list entries", dm.value() + 70_000, |d| it.next(d));
            let Some(r) = r else { break };
            k += 1;
            if k > cap {
                self.over.get_or_insert(format!("the entries of an attribute list do not end, {k} items, {dm:?}"));
                return;
            }
            let Some(e) = self.res("list entries", r) else {
                errs += 1;
                if errs > 3 {
                    break;
                }
                continue;
            };
            let _ = (e.base_file_reference(), e.instance(), e.list_entry_length(), e.lowest_vcn(), e.name().to_string_lossy(), e.name_length(), e.position(), shown(&e));
            let r = e.ty();
            self.res("list entry type", r);
            if self.p.chance(1, 3) {
                let w = 4 * self.guess().value();
                let r = self.op(d, "list entry to_file", w, |d| e.to_file(n, d));
                if let Some(f) = self.res("list entry to_file", r) {
                    // The documented panic: only with the file it refers to.
                    if f.file_record_number() == e.base_file_reference().file_record_number() {
                        let r = self.op(d, "list entry to_attribute", 4 * dm.frs, |_| e.to_attribute(&f));
                        if let Some(a) = self.res("list entry to_attribute", r) {
                            if depth < 2 {
                                let m = self.dims(&f);
                                self.attr(n, &a, d, m, depth + 1);
                            }
                        }
                    }
                }
            }
        }
    }

    fn from(&mut self, len: u64, pos: u64) -> SeekFrom {
        match self.p.below(8) {
            0 => SeekFrom::Start(self.num()),
            1 => SeekFrom::End(self.num() as i64),
            2 => SeekFrom::Current(self.num() as i64),
            3 => SeekFrom::End(-(self.p.skewed(14) as i64)),
            4 => SeekFrom::Current((len / 2) as i64),
            5 => SeekFrom::Current((pos as i64).wrapping_neg()),
            _ => SeekFrom::Start(self.p.below(len.max(1))),
        }
    }
    fn value(&mut self, v: &mut NtfsAttributeValue, d: &mut MonDisk, dm: Dims) {
        let len = v.len();
        let _ = (v.is_empty(), v.data_position(), v.stream_position());
        match self.p.below(12) {
            0..=3 => {
                let k = match self.p.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => self.p.skewed(16),
                    _ => self.p.below(5000),
                };
                let mut b = vec![0; k as usize];
                let r = self.op(d, "read", dm.value() + k, |d| v.read(d, &mut b));
                if let Some(x) = self.res("read", r) {
                    if x as u64 > k {
                        self.over.get_or_insert(format!("read() of {k} bytes returns {x}"));
                    }
                }
            }
            4 => {
                let k = self.p.below(600);
                let mut b = vec![0; k as usize];
                let r = self.op(d, "read_exact", (k / 400 + 2) * dm.value() + k, |d| v.read_exact(d, &mut b));
                self.res("read_exact", r);
            }
            5..=8 => {
                let s = self.from(len, v.stream_position());
                let r = self.op(d, "seek", dm.value(), |d| v.seek(d, s));
                self.res("seek", r);
            }
            9 => {
                let s = self.from(len, v.stream_position());
                let k = self.p.below(700);
                let mut a = v.clone().attach(d);
                let _ = a.seek(s).map_err(|e| text(&e));
                let _ = a.read(&mut vec![0; k as usize]).map_err(|e| text(&e));
                let _ = (a.is_empty(), a.len(), a.data_position());
                *v = a.detach();
                self.left -= 2;
            }
            10 => self.show_all(v),
            _ => {
                if let NtfsAttributeValue::NonResident(x) = v {
                    let it = x.data_runs();
                    let _ = it.position();
                    self.show_all(&it);
                    let (mut k, mut errs) = (0, 0);
                    for r in it {
                        k += 1;
                        if k > dm.frs {
                            self.over.get_or_insert(format!("data_runs() does not end, {k} items"));
                            return;
                        }
                        match self.res("data_runs", r) {
                            None => {
                                errs += 1;
                                if errs > 3 {
                                    break;
                                }
                            }
                            Some(mut r) => {
                                let _ = (r.allocated_size(), r.data_position(), r.stream_position(), shown(&r));
                                if self.p.chance(1, 4) {
                                    let s = self.from(r.allocated_size(), 0);
                                    let x = self.op(d, "data run seek", 600, |d| r.seek(d, s));
                                    self.res("data run seek", x);
                                    let mut b = vec![0; 300];
                                    let x = self.op(d, "data run read", 600, |d| r.read(d, &mut b));
                                    self.res("data run read", x);
                                }
                            }
                        }
                    }
                    if self.p.chance(1, 4) {
                        let mut a = x.clone().attach(d);
                        let mut b = [0; 20];
                        let _ = (a.read(&mut b).is_ok(), a.len(), a.is_empty(), a.data_position());
                        *x = a.detach();
                        let _ = x.ntfs().cluster_size();
                    }
                }
            }
        }
    }

    fn names<'n>(&mut self, n: &'n Ntfs, ix: &NtfsIndex<'n, '_, NtfsFileNameIndex>, d: &mut MonDisk, dm: Dims, depth: u32) {
        if self.up {
            for _ in 0..self.p.below(5) {
                if !self.go() {
                    return;
                }
                let s = self.string(0);
                let mut f = ix.finder();
                if let Some(r) = self.op(d, "NtfsFileNameIndex::find", dm.index(), |d| NtfsFileNameIndex::find(&mut f, n, d, &s)) {
                    if let Some(e) = self.res("NtfsFileNameIndex::find", r) {
                        self.entry(&e);
                        let w = 4 * self.guess().value();
                        let r = self.op(d, "entry to_file", w, |d| e.to_file(n, d));
                        if let Some(g) = self.res("entry to_file", r) {
                            if depth < 2 {
                                self.file(n, &g, d, depth + 1);
                            }
                        }
                    }
                }
            }
        }
        self.index(ix, d, dm, |s, d, e| {
            let _ = e.file_reference();
            if let Some(Ok(k)) = e.key() {
                s.fname(n, &k, d);
            }
            if s.p.chance(1, 6) {
                let w = 4 * s.guess().value();
                let r = s.op(d, "entry to_file", w, |d| e.to_file(n, d));
                if let Some(g) = s.res("entry to_file", r) {
                    if depth < 1 && s.p.chance(1, 3) {
                        s.file(n, &g, d, depth + 1);
                    }
                }
            }
        });
    }
    fn index<'n, E: NtfsIndexEntryType>(&mut self, ix: &NtfsIndex<'n, '_, E>, d: &mut MonDisk, dm: Dims, mut f: impl FnMut(&mut Self, &mut MonDisk, &NtfsIndexEntry<E>)) {
        // A comparison function without any order.
        for _ in 0..self.p.below(3) {
            if !self.go() {
                return;
            }
            let mut fi = ix.finder();
            let how = self.p.below(5);
            let st = std::cell::Cell::new(self.p.u64());
            for _ in 0..self.p.range(1, 2) {
                let r = self.op(d, "find", dm.index(), |d| {
                    fi.find(d, |_| match how {
                        0 => Ordering::Less,
                        1 => Ordering::Greater,
                        2 => Ordering::Equal,
                        _ => {
                            st.set(mix(st.get()));
                            *[Ordering::Less, Ordering::Greater, Ordering::Greater, Ordering::Greater, Ordering::Equal].get(st.get() as usize % if how == 3 { 5 } else { 4 }).unwrap()
                        }
                    })
                });
                if let Some(r) = r {
                    if let Some(e) = self.res("find", r) {
                        self.entry(&e);
                    }
                }
            }
        }
        let mut it = ix.entries();
        let cap = (dm.nodes + 2) * 4096 + dm.frs;
        let (mut k, mut errs) = (0, 0);
        let mut budget = self.p.range(5, 80);
        while self.go() {
            let mut c = if self.p.chance(1, 60) { Some(it.clone()) } else { None };
            let r = self.op(d, "index entries", dm.index(), |d| it.next(d));
            let Some(r) = r else { break };
            k += 1;
            if k > cap {
                self.over.get_or_insert(format!("index entries do not end, {k} items, {dm:?}"));
                return;
            }
            match self.res("index entries", r) {
                None => {
                    errs += 1;
                    if errs > 5 {
                        break;
                    }
                }
                Some(e) => {
                    if self.p.chance(1, 4) {
                        self.entry(&e);
                        f(self, d, &e);
                    }
                    if self.p.chance(1, 40) {
                        let _ = shown(&e);
                    }
                }
            }
            if let Some(c) = &mut c {
                let _ = self.op(d, "index entries", dm.index(), |d| c.next(d).map(|r| r.is_ok()));
            }
            budget = budget.saturating_sub(1);
            if budget == 0 && !self.metered {
                break;
            }
        }
    }
}
