//! C20: a corrupted structure is refused and the error points at it.
use crate::fw::*;
use crate::util::*;
use crate::walk;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::NtfsPosition;
use ntfs::*;
use std::collections::BTreeSet;
use std::io::SeekFrom;
use std::rc::Rc;
use std::sync::Arc;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::image::Image;
use vmodel::hostile::{Pieces, Rec};
use vmodel::prng::*;
use vmodel::probe::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C20",
    level: "exploration",
    rule: "case = random rich volume with protected records; single fields of single structures are made to contradict their container, one at a time, keeping the record's protection valid: file record (signature, update sequence array, allocated, used and first attribute offset), attribute (length, name, value and run list ranges, resident flag, type), data runs (header nibbles, no clusters, too many clusters, LCN before the start, beyond the address range or beyond the device, cut off by the attribute), attribute list entries (length, name, type, instance, record number, cut off by the list), index root (sizes, record size, large flag), index records (signature, update sequence array, VCN, sizes, entries offset), index entries (length, key length, name length, namespace, child outside the index, child repeated), structured values (too short, an empty name), $UpCase of another size, the volume name and information (never reported as absent). A refused seek must leave the reader where it was. The operation that needs the structure must fail exactly there - everything before it intact - and the position in the error must lie in the structure or the record that holds it; sampled answers about everything else must be those of the undamaged volume. Non-trivial: distinct damaged field",
    cases: (4000, 200_000),
    secs: (60, 1500),
    run,
    need: &[
        "rec_signature", "rec_sizes", "rec_usa", "rec_first", "attr_length", "attr_name", "attr_value", "attr_runs", "attr_type", "attr_form",
        "run_nibble", "run_empty", "run_huge", "run_negative", "run_far", "run_beyond", "run_cut", "run_connected", "list_length", "list_name", "list_type", "list_instance", "list_record",
        "list_cut", "list_nonresident", "root_sizes", "root_record_size", "root_small", "root_large", "irec_signature", "irec_usa", "irec_vcn", "irec_sizes", "ent_length",
        "volume", "ent_cut", "ent_key", "ent_name", "ent_child_outside", "ent_child_repeated", "value_short", "upcase_size", "upcase_larger", "value_nameless", "seeks_refused", "positions", "unaffected", "lookups_refused", "lookups_unaffected",
    ],
    assumptions: &[
        "a record without end marker, with room behind its attributes, and a run list that ends before the value does are not contradictions in this sense",
        "positions inside records that are stored in several pieces may be reported as if the record were contiguous (known finding of C18)",
    ],
    limits: (6_000_000_000, 4 << 30),
};

/// The device position an error mentions: None = the error has no position.
pub fn err_pos(e: &NtfsError) -> Option<NtfsPosition> {
    use NtfsError::*;
    match e {
        AttributeNotFound { position, .. }
        | AttributeOfDifferentType { position, .. }
        | InvalidAttributeLength { position, .. }
        | InvalidAttributeNameLength { position, .. }
        | InvalidAttributeNameOffset { position, .. }
        | InvalidByteCountInDataRunHeader { position, .. }
        | InvalidClusterCountInDataRunHeader { position, .. }
        | InvalidFileAllocatedSize { position, .. }
        | InvalidFileFirstAttributeOffset { position, .. }
        | InvalidFileSignature { position, .. }
        | InvalidFileUsedSize { position, .. }
        | InvalidIndexAllocatedSize { position, .. }
        | InvalidIndexEntriesOffset { position, .. }
        | InvalidIndexEntryDataRange { position, .. }
        | InvalidIndexEntrySize { position, .. }
        | DuplicateIndexSubnode { position, .. }
        | InvalidIndexRecordSize { position, .. }
        | InvalidIndexRootEntriesOffset { position, .. }
        | InvalidIndexRootUsedSize { position, .. }
        | InvalidIndexSignature { position, .. }
        | InvalidIndexUsedSize { position, .. }
        | InvalidNonResidentValueDataRange { position, .. }
        | InvalidResidentAttributeValueLength { position, .. }
        | InvalidResidentAttributeValueOffset { position, .. }
        | InvalidStructuredValueSize { position, .. }
        | InvalidUpdateSequenceCount { position, .. }
        | InvalidUpdateSequenceNumberRange { position, .. }
        | InvalidVcnInDataRunHeader { position, .. }
        | MissingIndexAllocation { position }
        | NotADirectory { position }
        | UnexpectedAttributeListAttribute { position }
        | UnexpectedNonResidentAttribute { position }
        | UnexpectedResidentAttribute { position }
        | UnsupportedAttributeType { position, .. }
        | UnsupportedFileNamespace { position, .. }
        | UpdateSequenceArrayExceedsRecordSize { position, .. }
        | UpdateSequenceNumberMismatch { position, .. }
        | VcnMismatchInIndexAllocation { position, .. }
        | VcnOutOfBoundsInIndexAllocation { position, .. } => Some(*position),
        Io(e) => e.get_ref().and_then(|i| i.downcast_ref::<NtfsError>()).and_then(err_pos),
        _ => None,
    }
}

/// The volume and what sampled questions about it are answered with.
#[derive(Clone)]
struct Known<'v> {
    v: &'v Vol,
    base: Rc<Vec<(Probe, String)>>,
}
struct Lab<'v> {
    v: &'v Vol,
    img: Arc<Image>,
    known: Known<'v>,
}
impl Lab<'_> {
    fn with<R>(&mut self, patch: &Pieces, f: impl FnOnce(&mut MonDisk) -> R) -> R {
        let mut undo = vec![];
        {
            let i = Arc::get_mut(&mut self.img).expect("no other user");
            for (o, b) in patch {
                undo.push((*o, i.get(*o, b.len())));
                i.write(*o, b);
            }
        }
        let mut d = MonDisk::new(self.img.clone());
        let r = f(&mut d);
        drop(d);
        let i = Arc::get_mut(&mut self.img).expect("no other user");
        for (o, b) in undo.into_iter().rev() {
            i.write(o, &b);
        }
        r
    }
}

/// The result must be an error that points into the regions.
fn refuse<T>(ctx: &mut Ctx, what: &str, op: &str, r: Result<T, NtfsError>, region: &[(u64, u64)]) -> Res {
    let Err(e) = r else { bail!("{what}: {op} succeeds") };
    point(ctx, what, op, &e, region)
}
fn point(ctx: &mut Ctx, what: &str, op: &str, e: &NtfsError, region: &[(u64, u64)]) -> Res {
    let msg = e.to_string();
    ensure!(!msg.is_empty(), "{what}: {op}: an error without text: {e:?}");
    match err_pos(e) {
        None => ctx.count("errors_without_position", 1),
        Some(p) => {
            let Some(x) = p.value() else { bail!("{what}: {op}: the error does not say where: {msg}") };
            let x = x.get();
            ensure!(region.iter().any(|(a, b)| (*a..*b).contains(&x)), "{what}: {op}: the error points at {x:#x}, outside of what is damaged ({region:x?}): {msg}");
            ensure!(msg.contains(&format!("{x:#x}")), "{what}: {op}: the message does not mention position {x:#x}: {msg}");
            ctx.count("positions", 1);
        }
    }
    Ok(())
}

/// Answers that do not depend on the damage.
fn unaffected(ctx: &mut Ctx, l: &Known, p: &mut Prng, d: &mut MonDisk, what: &str, keep: impl Fn(&Probe) -> bool, up: bool) -> Res {
    let mut n = Ntfs::new(d).map_err(|e| e2v(&format!("{what}: Ntfs::new"), e))?;
    if up {
        n.read_upcase_table(d).map_err(|e| e2v(&format!("{what}: read_upcase_table"), e))?;
    }
    for _ in 0..8 {
        let (q, want) = p.pick(l.base.as_slice());
        if !keep(q) || (!up && q.needs_upcase()) {
            continue;
        }
        let got = walk::render(&walk::ask(&n, d, q));
        ensure!(got == *want, "{what}: the answer to {q:?} changes: {}", text_diff(&got, want));
        ctx.count("unaffected", 1);
    }
    Ok(())
}
fn family(v: &Vol, rec: u64) -> BTreeSet<u64> {
    let mut s = BTreeSet::new();
    for (r, f) in &v.files {
        if *r == rec || f.ext.contains(&rec) {
            s.insert(*r);
            s.extend(&f.ext);
        }
    }
    s
}
fn other_files(ctx: &mut Ctx, l: &Known, p: &mut Prng, d: &mut MonDisk, what: &str, rec: u64) -> Res {
    let fam = family(l.v, rec);
    if fam.contains(&0) {
        return Ok(());
    }
    let up = !fam.contains(&10);
    // The $MFT's own value shows the damaged record.
    unaffected(ctx, l, p, d, what, |q| !matches!(q, Probe::Open(..)) && q.rec().is_none_or(|r| r != 0 && !fam.contains(&r)), up)
}

fn open_d(what: &str, d: &mut MonDisk) -> Result<Ntfs, Viol> {
    Ntfs::new(d).map_err(|e| e2v(&format!("{what}: Ntfs::new"), e))
}

// ---------------------------------------------------------------- file records

fn damage_usa(p: &mut Prng, r: &Rec) -> (String, Pieces) {
    let len = r.bytes.len();
    let (off, val) = match p.below(4) {
        // The array ends beyond the record.
        0 => (4, (len as u64 - p.below(r.u16(6) as u64 * 2)) as u16),
        1 => (4, p.range(len as u64 - 1, 0xffff) as u16),
        2 => (6, 0),
        _ => (6, (r.u16(6) as u64 + 1 + p.skewed(15)).min(0xffff) as u16),
    };
    let what = if off == 4 { "update sequence offset" } else { "update sequence count" };
    (format!("{what} {val:#x}"), r.put(off, &val.to_le_bytes()))
}

fn file_record(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng, base: u64, rec: u64) -> Res {
    let r = Rec::file(l.v, rec);
    let frs = r.bytes.len() as u64;
    let (kind, what, patch): (&'static str, String, Pieces) = match p.below(6) {
        0 => {
            let mut s = [b'F', b'I', b'L', b'E'];
            match p.below(3) {
                0 => s = *b"BAAD",
                1 => s[p.below(4) as usize] ^= 1 << p.below(8),
                _ => s = *b"INDX",
            }
            ("rec_signature", format!("signature {s:x?}"), r.put(0, &s))
        }
        1 => {
            let (w, b) = damage_usa(p, &r);
            ("rec_usa", w, b)
        }
        2 => {
            let x = (frs + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
            ("rec_sizes", format!("allocated size {x:#x}"), r.put(28, &x.to_le_bytes()))
        }
        3 => {
            let x = (r.u32(28) as u64 + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
            ("rec_sizes", format!("used size {x:#x}"), r.put(24, &x.to_le_bytes()))
        }
        4 => {
            // Allocated less than used.
            let x = p.below(r.u32(24) as u64) as u32;
            ("rec_sizes", format!("allocated size {x:#x} below the used size"), r.put(28, &x.to_le_bytes()))
        }
        _ => {
            let x = (r.u32(24) as u64 + 1 + p.skewed(16)).min(0xffff) as u16;
            ("rec_first", format!("first attribute offset {x:#x}"), r.put(20, &x.to_le_bytes()))
        }
    };
    ctx.count(kind, 1);
    let what = format!("record {rec}: {what}");
    ctx.eval(hash(&(kind, &what)), true);
    let region = r.region();
    let lv = l.v;
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        let n = open_d(&what, d)?;
        refuse(ctx, &what, "file()", n.file(d, rec), &region)?;
        if rec == 0 {
            for r in lv.files.keys() {
                refuse(ctx, &what, "file() of another record", n.file(d, *r), &region)?;
            }
            return Ok(());
        }
        if rec != base {
            flattened(ctx, lv, base, rec, 0, d, &n, &what, &region)?;
        }
        if rec == 10 {
            let mut n = open_d(&what, d)?;
            refuse(ctx, &what, "read_upcase_table()", n.read_upcase_table(d), &region)?;
        }
        if rec == 5 {
            refuse(ctx, &what, "root_directory()", n.root_directory(d), &region)?;
        }
        if rec == 3 {
            volume(ctx, &n, d, &what, &region, true, true)?;
        }
        other_files(ctx, lr, p, d, &what, rec)
    })
}

/// attributes() of the base record: everything before is right, and what lies at or behind `off` of `rec` is refused.
fn flattened(ctx: &mut Ctx, v: &Vol, base: u64, rec: u64, off: usize, d: &mut MonDisk, n: &Ntfs, what: &str, region: &[(u64, u64)]) -> Res {
    let f = &v.files[&base];
    let Ok(file) = n.file(d, base) else { return Ok(()) };
    let lost = |t: &TAttr| t.phys[0].0 == rec && rec_off(v, t) >= off;
    let must = rec == base || f.attrs.iter().any(|t| t.rec != base && lost(t));
    let mut it = file.attributes();
    let (mut errs, mut left) = (0, f.attrs.len() + 3);
    while let Some(i) = it.next(d) {
        match i {
            Err(e) => {
                point(ctx, what, "attributes()", &e, region)?;
                errs += 1;
            }
            Ok(i) => match i.to_attribute() {
                Err(e) => {
                    point(ctx, what, "to_attribute()", &e, region)?;
                    errs += 1;
                }
                Ok(a) => {
                    let (inst, len) = (a.instance(), a.value_length());
                    let name = name_units(&a.name().map_err(|e| e2v("name", e))?);
                    let Some(t) = f.attrs.iter().find(|t| a.ty().map(|t| t as u32).ok() == Some(t.ty) && t.instance == inst && t.data_size == len && t.name == name && !lost(t)) else {
                        bail!("{what}: attributes() of {base} yields {}", walk::attr_line(&a));
                    };
                    let _ = t;
                    ctx.count("flattened_ok", 1);
                }
            },
        }
        left -= 1;
        if left == 0 {
            break;
        }
    }
    ensure!(!must || errs > 0, "{what}: attributes() of {base} ends without an error");
    Ok(())
}
fn rec_off(v: &Vol, t: &TAttr) -> usize {
    let f = v.geo.frs as u64;
    (0..f / 512)
        .find_map(|k| v.rec_pos_at(t.rec, k * 512).filter(|x| (*x..*x + 512).contains(&t.header_pos)).map(|x| k * 512 + t.header_pos - x))
        .expect("place in its record") as usize
}

// ---------------------------------------------------------------- attributes

/// The value the damaged physical attribute belongs to.
fn owner(f: &TFile, rec: u64, inst: u16) -> Option<&TAttr> {
    f.attrs.iter().find(|t| t.phys.iter().any(|x| x.0 == rec && x.3 == inst))
}

fn attribute(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng, base: u64, rec: u64) -> Res {
    let v = l.v;
    let r = Rec::file(v, rec);
    let attrs = r.attrs();
    if attrs.is_empty() {
        return Ok(());
    }
    let k = p.usize(0, attrs.len() - 1);
    let (o, len) = attrs[k];
    let ty = r.u32(o) as u32;
    let res = r.bytes[o + 8] == 0;
    let (nl, no) = (r.bytes[o + 9] as usize, r.u16(o + 10));
    let inst = r.u16(o + 14) as u16;
    let rest = r.bytes.len() - o;
    #[derive(PartialEq)]
    enum Need {
        Header,
        Name,
        Value,
        Type,
        Form,
    }
    let (kind, need, what, patch): (&'static str, Need, String, Pieces) = match p.below(6) {
        0 => {
            let min = if res { 24 } else { 64 };
            let x = match p.below(4) {
                0 => *p.pick(&[0u32, 1, 8, 15, 16, 23]),
                1 => min - 1,
                2 => (rest as u64 + 1 + p.skewed(32)).min(u32::MAX as u64) as u32,
                _ => p.below(min as u64) as u32,
            };
            ("attr_length", Need::Header, format!("length {x:#x}"), r.put(o + 4, &x.to_le_bytes()))
        }
        1 => {
            if nl == 0 {
                return Ok(());
            }
            if p.chance(1, 2) {
                let x = match p.below(3) {
                    // The name starts inside and ends outside.
                    0 => p.usize((len - 2 * nl).max(1) + 1, len) as u16,
                    1 => len as u16,
                    _ => (len as u64 + p.skewed(16)).min(0xffff) as u16,
                };
                let x = if len < 2 * nl { len as u16 } else { x };
                ("attr_name", Need::Name, format!("name offset {x:#x}"), r.put(o + 10, &x.to_le_bytes()))
            } else {
                let room = (len - no) / 2;
                if room >= 255 {
                    return Ok(());
                }
                let x = if p.chance(1, 3) { room as u8 + 1 } else { p.range(room as u64 + 1, 255) as u8 };
                ("attr_name", Need::Name, format!("name length {x}"), r.put(o + 9, &[x]))
            }
        }
        2 if res => {
            let (vl, vo) = (r.u32(o + 16), r.u16(o + 20));
            if p.chance(1, 2) {
                let x = (len as u64 + 1 + p.skewed(16)).min(0xffff) as u16;
                ("attr_value", Need::Value, format!("value offset {x:#x}"), r.put(o + 20, &x.to_le_bytes()))
            } else {
                let _ = vl;
                let x = match p.below(3) {
                    0 => u32::MAX - p.skewed(16) as u32,
                    _ => ((len - vo) as u64 + 1 + p.skewed(32)).min(u32::MAX as u64) as u32,
                };
                ("attr_value", Need::Value, format!("value length {x:#x}"), r.put(o + 16, &x.to_le_bytes()))
            }
        }
        2 | 3 if !res => {
            let x = (len as u64 + 1 + p.skewed(16)).min(0xffff) as u16;
            ("attr_runs", Need::Value, format!("run list offset {x:#x}"), r.put(o + 32, &x.to_le_bytes()))
        }
        4 => {
            let mut x = p.skewed(32) as u32;
            while NtfsAttributeTypes.contains(&x) {
                x = x.wrapping_add(1);
            }
            ("attr_type", Need::Type, format!("type {x:#x}"), r.put(o, &x.to_le_bytes()))
        }
        _ => {
            if !matches!(ty, STDINFO | IDXROOT | IDXALLOC) {
                return Ok(());
            }
            ("attr_form", Need::Form, format!("resident flag of {ty:#x}"), r.put(o + 8, &[res as u8]))
        }
    };
    ctx.count(kind, 1);
    let what = format!("record {rec} (of {base}), attribute {k} ({ty:#x}) at offset {o}: {what}");
    ctx.eval(hash(&(kind, &what)), true);
    let region = r.region();
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        let n = open_d(&what, d)?;
        let file = n.file(d, rec).map_err(|e| e2v(&format!("{what}: file()"), e))?;
        // All raw attributes before it, and after it if its length is right.
        let mut it = file.attributes_raw();
        for (j, (oj, lj)) in attrs.iter().enumerate() {
            let Some(a) = it.next() else { bail!("{what}: attributes_raw() ends after {j} attributes") };
            if j == k && need == Need::Header {
                refuse(ctx, &what, "attributes_raw()", a, &region)?;
                break;
            }
            if j == k && need == Need::Form {
                // Other sizes apply then, they may be wrong as well.
                let Ok(a) = a else {
                    refuse(ctx, &what, "attributes_raw()", a, &region)?;
                    break;
                };
                match ty {
                    STDINFO => refuse(ctx, &what, "resident_structured_value()", a.resident_structured_value::<NtfsStandardInformation>(), &region)?,
                    IDXROOT => refuse(ctx, &what, "resident_structured_value()", a.resident_structured_value::<NtfsIndexRoot>(), &region)?,
                    _ => refuse(ctx, &what, "structured_value()", a.structured_value::<_, NtfsIndexAllocation>(d), &region)?,
                }
                break;
            }
            let a = a.map_err(|e| e2v(&format!("{what}: attribute {j}"), e))?;
            ensure!(a.attribute_length() as usize == *lj && a.instance() == r.u16(oj + 14) as u16, "{what}: attribute {j} changes");
            let t = a.ty();
            let name = a.name();
            if j == k && need == Need::Type {
                refuse(ctx, &what, "ty()", t, &region)?;
                continue;
            }
            ensure!(t.map(|t| t as usize).ok() == Some(r.u32(*oj)), "{what}: the type of attribute {j} changes");
            if j == k && need == Need::Name {
                refuse(ctx, &what, "name()", name, &region)?;
            } else {
                let u = name_units(&name.map_err(|e| e2v(&format!("{what}: name of attribute {j}"), e))?);
                let (l, s) = (r.bytes[oj + 9] as usize, oj + r.u16(oj + 10));
                ensure!(l == u.len() && (l == 0 || names_bytes(&u) == r.bytes[s..s + 2 * l]), "{what}: the name of attribute {j} changes");
            }
            let val = a.value(d);
            if j == k && need == Need::Value {
                if let Err(e) = val {
                    point(ctx, &what, "value()", &e, &region)?;
                } else {
                    bail!("{what}: value() succeeds");
                }
            } else {
                let val = val.map_err(|e| e2v(&format!("{what}: value of attribute {j}"), e))?;
                if let NtfsAttributeValue::Resident(x) = val {
                    let (l, s) = (r.u32(oj + 16), oj + r.u16(oj + 20));
                    ensure!(x.data() == &r.bytes[s..s + l], "{what}: the value of attribute {j} changes");
                }
            }
        }
        if rec == 3 && matches!(need, Need::Header | Need::Value) {
            // These are looked up in the order of the attributes.
            let place = |ty: u32| attrs.iter().position(|(o, _)| r.u32(*o) as u32 == ty);
            let hit = |ty: u32| place(ty).is_some_and(|j| if need == Need::Header { k <= j } else { k == j });
            if let (Some(_), Some(_)) = (place(VOLNAME), place(VOLINFO)) {
                volume(ctx, &n, d, &what, &region, hit(VOLNAME), hit(VOLINFO))?;
            }
        }
        match need {
            Need::Header => {
                flattened(ctx, v, base, rec, o, d, &n, &what, &region)?;
            }
            Need::Value | Need::Form | Need::Type | Need::Name => {
                // Things that need it.
                let f = &v.files[&base];
                if let Ok(file) = n.file(d, base) {
                    if ty == STDINFO && f.attrs.iter().filter(|t| t.ty == STDINFO).count() == 1 && rec == base && need != Need::Name {
                        refuse(ctx, &what, "info()", file.info(), &region)?;
                    }
                    if matches!(ty, IDXROOT) && v.dirs.contains_key(&base) {
                        refuse(ctx, &what, "directory_index()", file.directory_index(d), &region)?;
                    }
                    if ty == ATTRLIST {
                        let mut it = file.attributes();
                        let mut e = None;
                        for _ in 0..f.attrs.len() + 3 {
                            match it.next(d) {
                                Some(Err(x)) => {
                                    e = Some(x);
                                    break;
                                }
                                Some(Ok(_)) => {}
                                None => break,
                            }
                        }
                        match e {
                            None if need == Need::Value => bail!("{what}: attributes() does not report it"),
                            None => {}
                            Some(e) => point(ctx, &what, "attributes()", &e, &region)?,
                        }
                    } else if need == Need::Value {
                        if let Some(t) = owner(f, rec, inst) {
                            let k = t.phys.iter().position(|x| x.0 == rec && x.3 == inst).unwrap();
                            let at = t.phys[k].2 * v.geo.cluster as u64;
                            refused_value(ctx, v, d, &n, base, t, at, k == 0, false, &what, &region)?;
                        }
                    }
                }
            }
        }
        other_files(ctx, lr, p, d, &what, rec)
    })
}
#[allow(non_upper_case_globals)]
const NtfsAttributeTypes: [u32; 17] = [0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x100, 0xffff_ffff];

/// The name and information of the volume must be refused (not just absent) or unharmed.
fn volume(ctx: &mut Ctx, n: &Ntfs, d: &mut MonDisk, what: &str, region: &[(u64, u64)], name: bool, info: bool) -> Res {
    match n.volume_name(d) {
        Some(x) if name => refuse(ctx, what, "volume_name()", x, region)?,
        None if name => bail!("{what}: volume_name() reports absence"),
        Some(Err(e)) => bail!("{what}: volume_name() fails: {e}"),
        _ => {}
    }
    if info {
        refuse(ctx, what, "volume_info()", n.volume_info(d), region)?;
    } else {
        n.volume_info(d).map_err(|e| e2v(&format!("{what}: volume_info()"), e))?;
    }
    ctx.count("volume", 1);
    Ok(())
}

/// The value shows its bytes up to `at` and an error there.
fn refused_value(ctx: &mut Ctx, v: &Vol, d: &mut MonDisk, n: &Ntfs, base: u64, t: &TAttr, at: u64, early: bool, beyond: bool, what: &str, region: &[(u64, u64)]) -> Res {
    let file = n.file(d, base).map_err(|e| e2v(&format!("{what}: file({base})"), e))?;
    let here = v.rec_pos(t.rec).unwrap() + rec_off(v, t) as u64;
    let mut it = file.attributes();
    let item = loop {
        match it.next(d) {
            None => bail!("{what}: the attribute is not found"),
            Some(Err(e)) => return point(ctx, what, "attributes()", &e, region),
            Some(Ok(i)) => {
                if i.to_attribute().is_ok_and(|a| a.position().value().is_some_and(|x| x.get() == here)) {
                    break i;
                }
            }
        }
    };
    let a = item.to_attribute().map_err(|e| e2v(&format!("{what}: to_attribute()"), e))?;
    let needed = at < t.data_size.min(t.init_size);
    let mut val = match a.value(d) {
        Ok(v) => v,
        Err(e) => {
            ensure!(at == 0, "{what}: value() fails already: {e}");
            return point(ctx, what, "value()", &e, region);
        }
    };
    ensure!(!early || !needed || at > 0, "{what}: value() succeeds");
    // Bytes before it.
    let from = at.min(t.data_size).saturating_sub(3000);
    let mut got = vec![];
    let mut end = None;
    match val.seek(d, SeekFrom::Start(from)) {
        Err(e) => bail!("{what}: seek before it fails: {e}"),
        Ok(x) => ensure!(x == from, "{what}: seek goes to {x} instead of {from}"),
    }
    for _ in 0..40 {
        let mut b = vec![0; 1500];
        match val.read(d, &mut b) {
            Ok(0) => break,
            Ok(k) => got.extend_from_slice(&b[..k]),
            Err(e) => {
                end = Some(e);
                break;
            }
        }
    }
    let good = at.min(t.data_size).saturating_sub(from) as usize;
    let mut want = vec![0; good];
    t.expect(&v.img, from, &mut want);
    ensure!(got.len() >= good, "{what}: only {} of the {good} bytes before it are read ({end:?})", got.len());
    if let Some(k) = diff(&got[..good], &want) {
        bail!("{what}: byte {} of the value, before it, changes", from + k as u64);
    }
    if needed {
        ensure!(got.len() == good, "{what}: {} bytes behind it are read", got.len() - good);
        match end {
            None => bail!("{what}: reading ends at {} of {} without an error", from + good as u64, t.data_size),
            Some(e) => point(ctx, what, "read()", &e, region)?,
        }
        // From a place behind it.
        let mut left = t.data_size.min(t.init_size) - at;
        if beyond {
            left = left.min(v.geo.cluster as u64);
        }
        let to = at + left / 2;
        let r = match val.seek(d, SeekFrom::Start(from)).and_then(|_| val.read(d, &mut [0; 5])) {
            Err(e) if good >= 5 => bail!("{what}: reading before it again fails: {e}"),
            _ => {
                let here = val.stream_position();
                let r = val.seek(d, SeekFrom::Start(to));
                if r.is_err() {
                    // A refused seek leaves the reader where it was.
                    ensure!(val.stream_position() == here, "{what}: a refused seek moves from {here} to {}", val.stream_position());
                    let k = (at.min(t.data_size).saturating_sub(here) as usize).min(700);
                    let mut got = vec![0; k];
                    let mut want = vec![0; k];
                    t.expect(&v.img, here, &mut want);
                    val.read_exact(d, &mut got).map_err(|e| Viol::from(format!("{what}: reading on at {here} after a refused seek: {e}")))?;
                    ensure!(got == want, "{what}: reading on at {here} after a refused seek gives other bytes");
                    if k > 0 {
                        ctx.count("seeks_refused", 1);
                    }
                    val.seek(d, SeekFrom::Start(from)).map_err(|e| Viol::from(format!("{what}: seek before it after a refused one: {e}")))?;
                }
                r.and_then(|_| val.read(d, &mut [0; 4]))
            }
        };
        refuse(ctx, what, "seek behind it and read()", r, region)?;
        ctx.count("values_refused", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- data runs

fn runs(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng, base: u64, rec: u64) -> Res {
    let v = l.v;
    let r = Rec::file(v, rec);
    let attrs: Vec<(usize, usize)> = r.attrs().into_iter().filter(|(o, _)| r.bytes[o + 8] != 0).collect();
    if attrs.is_empty() {
        return Ok(());
    }
    let (o, len) = *p.pick(&attrs);
    let inst = r.u16(o + 14) as u16;
    // Decode.
    let mut at = o + r.u16(o + 32);
    let mut list = vec![]; // (offset, clusters, LCN before, sparse)
    let mut lcn = 0i64;
    while at < o + len && r.bytes[at] != 0 {
        let h = r.bytes[at];
        let (x, y) = ((h & 15) as usize, (h >> 4) as usize);
        let mut c = [0u8; 8];
        c[..x].copy_from_slice(&r.bytes[at + 1..at + 1 + x]);
        let n = u64::from_le_bytes(c);
        let mut c = [if y > 0 && r.bytes[at + x + y] & 0x80 != 0 { 0xff } else { 0u8 }; 8];
        c[..y].copy_from_slice(&r.bytes[at + 1 + x..at + 1 + x + y]);
        list.push((at, n, lcn, y == 0));
        lcn += i64::from_le_bytes(c);
        at += 1 + x + y;
    }
    if list.is_empty() {
        return Ok(());
    }
    let j = p.usize(0, list.len() - 1);
    let (s, _, before, _) = list[j];
    let room = o + len - s;
    let cl = v.geo.cluster as u64;
    let mut beyond = false;
    let (kind, what, bytes): (&'static str, String, Vec<u8>) = match p.below(8) {
        0 => {
            let h = if p.chance(1, 2) { 0x10 | p.range(9, 15) as u8 } else { (p.range(9, 15) as u8) << 4 | 1 };
            ("run_nibble", format!("header {h:#x}"), if room > 1 { vec![h, 1] } else { vec![h] })
        }
        1 if room >= 4 => {
            let h = *p.pick(&[0x10u8, 0x11, 0x12, 0x01, 0x02]);
            ("run_empty", format!("no clusters, header {h:#x}"), vec![h, 0, 0, 1])
        }
        2 if room >= 10 => {
            let x = u64::MAX / cl + 1 + p.skewed(63).min(u64::MAX - u64::MAX / cl - 1);
            let mut b = vec![0x08 | (p.below(2) as u8) << 4];
            b.extend(x.to_le_bytes());
            b.push(1);
            ("run_huge", format!("{x:#x} clusters"), b)
        }
        3 if room >= 10 => {
            let d = -(before + 1 + p.skewed(40) as i64);
            let mut b = vec![0x81, 1];
            b.extend(d.to_le_bytes());
            ("run_negative", format!("LCN {}", before.wrapping_add(d)), b)
        }
        4 if room >= 10 => {
            let lim = u64::MAX / cl;
            let x = (lim as i128 + 1 + p.skewed(40) as i128).min(i64::MAX as i128) as i64;
            if (x as u64) <= lim {
                // One-byte clusters do not exist, so this cannot be.
                return Ok(());
            }
            let mut b = vec![0x81, 1];
            b.extend((x - before).to_le_bytes());
            ("run_far", format!("LCN {x:#x}"), b)
        }
        5 if room >= 10 => {
            let x = (v.img.size / cl + 1 + p.skewed(30)) as i64;
            beyond = true;
            let mut b = vec![0x81, 1];
            b.extend((x - before).to_le_bytes());
            ("run_beyond", format!("LCN {x:#x} beyond the device"), b)
        }
        6 | 7 if room < 17 => {
            let h = 0x88;
            let mut b = vec![h];
            b.extend(vec![1; room - 1]);
            ("run_cut", "header 0x88 at the end of the attribute".to_string(), b)
        }
        _ => return Ok(()),
    };
    if bytes.len() > room {
        return Ok(());
    }
    ctx.count(kind, 1);
    let what = format!("record {rec} (of {base}), attribute {:#x} at offset {o}, run {j}: {what}", r.u32(o));
    ctx.eval(hash(&(kind, &what)), true);
    let patch = r.put(s, &bytes);
    let region = r.region();
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        let n = open_d(&what, d)?;
        let file = n.file(d, rec).map_err(|e| e2v(&format!("{what}: file()"), e))?;
        for a in file.attributes_raw() {
            let a = a.map_err(|e| e2v(&what, e))?;
            if a.instance() != inst {
                continue;
            }
            match a.value(d) {
                Err(e) => {
                    ensure!(j == 0 && !beyond, "{what}: value() fails: {e}");
                    point(ctx, &what, "value()", &e, &region)?;
                }
                Ok(NtfsAttributeValue::NonResident(x)) => {
                    let mut it = x.data_runs();
                    for (q, (_, c, ..)) in list[..j].iter().enumerate() {
                        let Some(Ok(x)) = it.next() else { bail!("{what}: run {q} is not yielded") };
                        ensure!(x.allocated_size() == c * cl, "{what}: run {q} changes");
                    }
                    let at = it.position();
                    match it.next() {
                        None => bail!("{what}: data_runs() ends without an error"),
                        Some(Ok(x)) => ensure!(beyond, "{what}: data_runs() yields {x:?}"),
                        Some(Err(e)) => {
                            point(ctx, &what, "data_runs()", &e, &region)?;
                            // It points at the header of this run.
                            if let Some(x) = err_pos(&e) {
                                ensure!(x == at, "{what}: the error points at {x:?} instead of the header at {at:?}");
                            }
                            ensure!(matches!(it.next(), Some(Err(_))), "{what}: data_runs() goes on after the error");
                        }
                    }
                }
                Ok(_) => bail!("{what}: another kind of value"),
            }
        }
        let f = &v.files[&base];
        if let Some(t) = owner(f, rec, inst) {
            let k = t.phys.iter().position(|x| x.0 == rec && x.3 == inst).unwrap();
            if t.phys.len() > 1 {
                ctx.count("run_connected", 1);
            }
            let at = (t.phys[k].2 + list[..j].iter().map(|x| x.1).sum::<u64>()) * cl;
            refused_value(ctx, v, d, &n, base, t, at, !beyond && k == 0 && j == 0, beyond, &what, &region)?;
        }
        other_files(ctx, lr, p, d, &what, rec)
    })
}

// ---------------------------------------------------------------- attribute lists

fn list(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng) -> Res {
    let v = l.v;
    let with: Vec<u64> = v.files.iter().filter(|(_, f)| f.list.is_some() && !f.list_entries.is_empty()).map(|x| *x.0).collect();
    if with.is_empty() {
        return Ok(());
    }
    let base = *p.pick(&with);
    let f = &v.files[&base];
    let t = f.list.as_ref().unwrap();
    let es = &f.list_entries;
    let j = p.usize(0, es.len() - 1);
    let e = &es[j];
    let r = Rec::file(v, base);
    let (ho, _) = *r.attrs().iter().find(|(o, _)| r.u32(*o) == ATTRLIST as usize).ok_or_else(|| Viol::from("no list".to_string()))?;
    let put = |off: u64, b: &[u8]| -> Pieces {
        if t.resident {
            r.put(ho + r.u16(ho + 20) + off as usize, b)
        } else {
            b.iter().enumerate().map(|(k, x)| (t.disk_pos(off + k as u64).unwrap(), vec![*x])).collect()
        }
    };
    let min = 26 + 2 * e.name.len() as u64;
    let rest = t.data_size - e.off;
    let mut cut = 0;
    // Whether the entry itself is refused, or what it refers to.
    let (kind, itself, what, patch): (&'static str, bool, String, Pieces) = match p.below(6) {
        0 => {
            let x = match p.below(3) {
                0 => *p.pick(&[0u16, 1, 25]),
                1 => p.below(min) as u16,
                _ => (rest + 1 + p.skewed(16)).min(0xffff) as u16,
            };
            ("list_length", true, format!("length {x:#x}"), put(e.off + 4, &x.to_le_bytes()))
        }
        1 => {
            let room = (e.len as u64 - 26) / 2;
            if room >= 255 {
                return Ok(());
            }
            let x = p.range(room + 1, 255) as u8;
            ("list_name", true, format!("name length {x}"), put(e.off + 6, &[x]))
        }
        2 => {
            let mut x = p.skewed(32) as u32;
            while NtfsAttributeTypes.contains(&x) {
                x = x.wrapping_add(1);
            }
            ("list_type", false, format!("type {x:#x}"), put(e.off, &x.to_le_bytes()))
        }
        3 => {
            let mut x = e.instance;
            let er = Rec::file(v, e.rec);
            let used: Vec<u16> = er.attrs().iter().map(|(o, _)| er.u16(o + 14) as u16).collect();
            while used.contains(&x) {
                x = x.wrapping_add(1 + p.below(50) as u16);
            }
            ("list_instance", false, format!("instance {x}"), put(e.off + 24, &x.to_le_bytes()))
        }
        4 => {
            let x = (v.nrec + p.skewed(48)).min((1 << 48) - 1);
            ("list_record", false, format!("record {x:#x}"), put(e.off + 16, &mft_ref(x, e.seq).to_le_bytes()))
        }
        _ => {
            // The list ends inside the last entry.
            let e = es.last().unwrap();
            cut = p.range(1, e.len as u64 - 1);
            let size = t.data_size - cut;
            let w = format!("the list of {} bytes is cut to {size}", t.data_size);
            if t.resident {
                ("list_cut", true, w, r.put(ho + 16, &(size as u32).to_le_bytes()))
            } else {
                ("list_cut", true, w, r.put(ho + 48, &size.to_le_bytes()))
            }
        }
    };
    let j = if cut > 0 { es.len() - 1 } else { j };
    let e = &es[j];
    ctx.count(kind, 1);
    if !t.resident {
        ctx.count("list_nonresident", 1);
    }
    let what = format!("record {base}: entry {j} of {} of the attribute list: {what}", es.len());
    ctx.eval(hash(&(kind, &what)), true);
    let mut region = r.region();
    if !t.resident {
        region.extend(t.segs.iter().filter_map(|s| s.disk.map(|d| (d, d + s.len))));
    }
    if e.rec < v.nrec {
        region.extend(Rec::file(v, e.rec).region());
    }
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        let n = open_d(&what, d)?;
        let file = n.file(d, base).map_err(|e| e2v(&format!("{what}: file()"), e))?;
        let a = file
            .attributes_raw()
            .filter_map(|a| a.ok())
            .find(|a| a.ty().ok() == Some(NtfsAttributeType::AttributeList))
            .ok_or_else(|| Viol::from(format!("{what}: no list")))?;
        let al = a.structured_value::<_, NtfsAttributeList>(d).map_err(|e| e2v(&what, e))?;
        let mut it = al.entries();
        for (k, w) in es.iter().enumerate() {
            let Some(x) = it.next(d) else { bail!("{what}: the list ends after {k} entries") };
            if k == j && itself {
                refuse(ctx, &what, "next()", x, &region)?;
                break;
            }
            let x = x.map_err(|e| e2v(&format!("{what}: entry {k}"), e))?;
            ensure!(name_units(&x.name()) == w.name && x.lowest_vcn().value() == w.lowest as i64, "{what}: entry {k} changes");
            let to = (|| -> Result<(), NtfsError> {
                x.ty()?;
                let f = x.to_file(&n, d)?;
                x.to_attribute(&f)?;
                Ok(())
            })();
            if k == j {
                refuse(ctx, &what, "to_attribute() or to_file()", to, &region)?;
            } else {
                to.map_err(|e| e2v(&format!("{what}: entry {k}"), e))?;
            }
        }
        // Through attributes().
        let mut it = file.attributes();
        let mut err = None;
        for _ in 0..f.attrs.len() + 3 {
            match it.next(d) {
                Some(Err(x)) => {
                    err = Some(x);
                    break;
                }
                Some(Ok(i)) => {
                    let a = i.to_attribute().map_err(|e| e2v(&what, e))?;
                    let (ty, name) = (a.ty().map_err(|e| e2v(&what, e))? as u32, name_units(&a.name().map_err(|e| e2v(&what, e))?));
                    ensure!(f.attrs.iter().any(|t| t.ty == ty && t.name == name), "{what}: attributes() yields {}", walk::attr_line(&a));
                }
                None => break,
            }
        }
        // References to the base record are not followed, and continuing entries only when the value is read.
        let must = itself || (kind != "list_type" && (e.rec != base || kind == "list_record") && e.lowest == 0);
        match err {
            None => ensure!(!must, "{what}: attributes() ends without an error"),
            Some(x) => point(ctx, &what, "attributes()", &x, &region)?,
        }
        other_files(ctx, lr, p, d, &what, base)
    })
}

// ---------------------------------------------------------------- indexes

/// Entries at and behind place k (0..=ents.len()) of a node, with their children.
fn from_place(ix: &TIndex, node: usize, k: usize, out: &mut BTreeSet<usize>) {
    let n = &ix.nodes[node];
    for (e, s) in n.ents.iter().skip(k) {
        out.insert(*e);
        if let Some(s) = s {
            from_place(ix, *s, 0, out);
        }
    }
    if let Some(s) = n.end {
        from_place(ix, s, 0, out);
    }
}

struct Hit<'a> {
    /// Entries that cannot be reached any more.
    lost: BTreeSet<usize>,
    /// The entry whose key is damaged.
    key: Option<usize>,
    /// The region of an error.
    region: &'a [(u64, u64)],
    /// Whether lookups of the lost entries must fail.
    lookups: bool,
    /// Iteration must fail.
    iteration: bool,
}

fn judge_index(ctx: &mut Ctx, p: &mut Prng, v: &Vol, dir: &TDir, d: &mut MonDisk, what: &str, h: &Hit) -> Res {
    let mut n = open_d(what, d)?;
    n.read_upcase_table(d).map_err(|e| e2v(&format!("{what}: read_upcase_table"), e))?;
    let f = n.file(d, dir.rec).map_err(|e| e2v(&format!("{what}: file()"), e))?;
    let ix = f.directory_index(d).map_err(|e| e2v(&format!("{what}: directory_index()"), e))?;
    let _ = v;
    let mut it = ix.entries();
    let first = h.lost.first().copied();
    let (mut at, mut errs, mut k) = (0usize, 0, 0);
    for _ in 0..dir.names.len() + dir.index.nodes.len() + 8 {
        match it.next(d) {
            None => break,
            Some(Err(e)) => {
                point(ctx, what, "entries()", &e, h.region)?;
                if errs == 0 && h.key.is_none() {
                    if let Some(x) = first {
                        ensure!(k == x, "{what}: iteration fails after {k} entries instead of {x}");
                    }
                }
                errs += 1;
                if errs > 3 {
                    break;
                }
            }
            Some(Ok(e)) => {
                let Some(key) = e.key() else { bail!("{what}: an entry without key") };
                if errs == 0 && h.key == Some(k) {
                    refuse(ctx, what, "key()", key, h.region)?;
                    k += 1;
                    at = k;
                    continue;
                }
                let key = key.map_err(|e| e2v(&format!("{what}: key {k}"), e))?;
                if errs == 0 && !(h.key.is_none() && first.is_some_and(|x| k >= x)) {
                    ensure!(k < dir.names.len(), "{what}: more entries than before");
                    if let Some(x) = crate::idx::fname_diff(&key, &dir.names[k]) {
                        bail!("{what}: entry {k}: {x}");
                    }
                    k += 1;
                    at = k;
                } else {
                    let u = name_units(&key.name());
                    let Some(x) = (at..dir.names.len()).find(|x| dir.names[*x].name == u) else {
                        bail!("{what}: entry {} is repeated, out of order or invented", walk::name_hex(&u));
                    };
                    if errs == 0 {
                        bail!("{what}: entry {x} is yielded before the damage is reported");
                    }
                    at = x + 1;
                }
            }
        }
    }
    if h.key.is_some() {
        ensure!(errs == 0 && k == dir.names.len(), "{what}: {k} of {} entries, {errs} errors", dir.names.len());
    } else {
        ensure!(!h.iteration || errs > 0, "{what}: iteration ends without an error");
    }
    // Lookups.
    if dir.names.is_empty() {
        return Ok(());
    }
    let mut fi = ix.finder();
    for q in 0..6 {
        let k = match (q % 2, h.lost.len()) {
            (0, 1..) => *h.lost.iter().nth(p.usize(0, h.lost.len() - 1)).unwrap(),
            _ => p.usize(0, dir.names.len() - 1),
        };
        let Ok(s) = String::from_utf16(&dir.names[k].name) else { continue };
        let lost = h.lost.contains(&k);
        if lost && !h.lookups {
            continue;
        }
        match NtfsFileNameIndex::find(&mut fi, &n, d, &s) {
            None => bail!("{what}: looking {s:?} up reports absence"),
            Some(Ok(e)) => {
                ensure!(!lost, "{what}: {s:?} is found");
                let u = e.key().ok_or_else(|| Viol::from(format!("{what}: no key")))?.map_err(|e| e2v(what, e))?;
                if let Some(x) = crate::idx::fname_diff(&u, &dir.names[k]) {
                    bail!("{what}: looking up {s:?}: {x}");
                }
                ctx.count("lookups_unaffected", 1);
            }
            Some(Err(e)) => {
                ensure!(lost, "{what}: looking {s:?} up fails: {e}");
                point(ctx, what, "find()", &e, h.region)?;
                ctx.count("lookups_refused", 1);
            }
        }
    }
    Ok(())
}

/// The record of a node and where its entries are: (offset, length) each, end entry last.
struct Node {
    r: Rec,
    start: usize,
    end: usize,
    ents: Vec<(usize, usize)>,
}
fn node_rec(v: &Vol, dir: &TDir, node: usize) -> Option<Node> {
    let f = &v.files[&dir.rec];
    let (r, hdr) = match dir.index.nodes[node].slot {
        None => {
            let t = f.find(IDXROOT, "$I30")?;
            let r = Rec::file(v, t.rec);
            let o = rec_off(v, t);
            let vo = o + r.u16(o + 20);
            (r, vo + 16)
        }
        Some(s) => (Rec::index(v, f.find(IDXALLOC, "$I30")?, s, dir.index.irs), 24),
    };
    let (start, end) = (hdr + r.u32(hdr), hdr + r.u32(hdr + 4));
    let mut o = start;
    let mut ents = vec![];
    loop {
        let l = r.u16(o + 8);
        ents.push((o, l));
        if r.bytes[o + 12] & 2 != 0 {
            break;
        }
        o += l;
    }
    Some(Node { r, start, end, ents })
}

fn index(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng) -> Res {
    let v = l.v;
    let dirs: Vec<&TDir> = v.dirs.values().collect();
    let dir = *p.pick(&dirs);
    let ix = &dir.index;
    let f = &v.files[&dir.rec];
    let (Some(rt), al) = (f.find(IDXROOT, "$I30"), f.find(IDXALLOC, "$I30")) else { return Ok(()) };
    let large = al.is_some();
    let subs: Vec<usize> = (0..ix.nodes.len()).filter(|n| ix.nodes[*n].slot.is_some()).collect();
    let dir_region = |with_alloc: bool| {
        let mut g = Rec::file(v, dir.rec).region();
        if rt.rec != dir.rec {
            g.extend(Rec::file(v, rt.rec).region());
        }
        if let (true, Some(a)) = (with_alloc, al) {
            // Some errors point at the beginning of the index allocation.
            if let Some(x) = a.disk_pos(0) {
                g.push((x, x + 1));
            }
        }
        g
    };
    let rootn = node_rec(v, dir, ix.root).ok_or_else(|| Viol::from("no root".to_string()))?;
    let ro = rec_off(v, rt);
    let rv = ro + rootn.r.u16(ro + 20);
    let rlen = rootn.r.u32(ro + 16) as u64;
    enum Need {
        /// directory_index() fails.
        Open,
        Hit { lost: BTreeSet<usize>, key: Option<usize>, lookups: bool, iteration: bool, vcn: Option<u64> },
    }
    let all: BTreeSet<usize> = (0..dir.names.len()).collect();
    let (kind, need, what, patch, mut region): (&'static str, Need, String, Pieces, Vec<(u64, u64)>) = match p.below(14) {
        0 | 1 => {
            let (w, b): (String, Pieces) = match p.below(4) {
                0 => {
                    let x = (rlen - 16 + p.skewed(32)).min(u32::MAX as u64) as u32;
                    (format!("entries offset {x:#x}"), rootn.r.put(rv + 16, &x.to_le_bytes()))
                }
                1 => {
                    let x = (rlen - 16 + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
                    (format!("used size {x:#x}"), rootn.r.put(rv + 20, &x.to_le_bytes()))
                }
                2 => {
                    let x = p.below(rootn.r.u32(rv + 16) as u64) as u32;
                    (format!("used size {x:#x} before the entries"), rootn.r.put(rv + 20, &x.to_le_bytes()))
                }
                _ => {
                    let x = p.below(32) as u32;
                    (format!("value of {x} bytes"), rootn.r.put(ro + 16, &x.to_le_bytes()))
                }
            };
            ("root_sizes", Need::Open, w, b, rootn.r.region())
        }
        2 if large && ix.height > 0 => {
            let x = match p.below(4) {
                0 => *p.pick(&[0u32, 1, 256, 511, 513, 131072, 1 << 31, u32::MAX]),
                1 => v.geo.irs + 1,
                2 => v.geo.irs - 1,
                _ => p.range(65537, u32::MAX as u64) as u32,
            };
            let mut g = dir_region(true);
            // It is the position of the record that could not be read.
            if let Some(a) = al {
                g.extend(a.segs.iter().filter_map(|s| s.disk.map(|d| (d, d + s.len))));
            }
            // Entries in the root up to the first child.
            let mut lost = BTreeSet::new();
            let k = ix.nodes[ix.root].ents.iter().position(|e| e.1.is_some()).unwrap_or(ix.nodes[ix.root].ents.len());
            from_place(ix, ix.root, k, &mut lost);
            let w = format!("index record size {x:#x}");
            let b = rootn.r.put(rv + 8, &x.to_le_bytes());
            ("root_record_size", Need::Hit { lost, key: None, lookups: false, iteration: true, vcn: None }, w, b, g)
        }
        3 if large && ix.height > 0 => {
            let x = rootn.r.bytes[rv + 16 + 12] & !1;
            let mut lost = BTreeSet::new();
            let k = ix.nodes[ix.root].ents.iter().position(|e| e.1.is_some()).unwrap_or(ix.nodes[ix.root].ents.len());
            from_place(ix, ix.root, k, &mut lost);
            ("root_small", Need::Hit { lost, key: None, lookups: false, iteration: true, vcn: None }, "marked as small index".into(), rootn.r.put(rv + 28, &[x]), dir_region(false))
        }
        3 if !large => ("root_large", Need::Open, "marked as large index without allocation".into(), rootn.r.put(rv + 28, &[rootn.r.bytes[rv + 28] | 1]), dir_region(false)),
        4..=7 if !subs.is_empty() => {
            let node = *p.pick(&subs);
            let nr = node_rec(v, dir, node).unwrap();
            let r = &nr.r;
            let irs = r.bytes.len() as u64;
            let mut vcn = Some(ix.nodes[node].vcn);
            let mut g = r.region();
            let (kind, w, b): (&'static str, String, Pieces) = match p.below(4) {
                0 => {
                    let mut s = *b"INDX";
                    s[p.below(4) as usize] ^= 1 << p.below(8);
                    ("irec_signature", format!("signature {s:x?}"), r.put(0, &s))
                }
                1 => {
                    let (w, b) = damage_usa(p, r);
                    ("irec_usa", w, b)
                }
                2 => {
                    let x = match p.below(5) {
                        4 => ix.nodes[node].vcn as i64 ^ 1 << p.below(64),
                        0 => ix.nodes[node].vcn as i64 + 1,
                        1 => !(ix.nodes[node].vcn as i64),
                        2 => ix.nodes[*p.pick(&subs)].vcn as i64,
                        _ => p.u64() as i64,
                    };
                    if x == ix.nodes[node].vcn as i64 {
                        return Ok(());
                    }
                    // The error names the allocation.
                    g.extend(dir_region(true));
                    vcn = Some(ix.nodes[node].vcn);
                    ("irec_vcn", format!("VCN {x:#x}"), r.put(16, &x.to_le_bytes()))
                }
                _ => {
                    let (o, u, a) = (r.u32(24) as u64, r.u32(28) as u64, r.u32(32) as u64);
                    match p.below(4) {
                        0 => {
                            let x = (irs - 24 + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
                            ("irec_sizes", format!("allocated size {x:#x}"), r.put(32, &x.to_le_bytes()))
                        }
                        1 => {
                            let x = (a + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
                            ("irec_sizes", format!("used size {x:#x}"), r.put(28, &x.to_le_bytes()))
                        }
                        2 => {
                            let x = (u + 1 + p.skewed(32)).min(u32::MAX as u64) as u32;
                            ("irec_sizes", format!("entries offset {x:#x}"), r.put(24, &x.to_le_bytes()))
                        }
                        _ => {
                            let x = p.below(o.min(u)) as u32;
                            ("irec_sizes", format!("used size {x:#x} before the entries"), r.put(28, &x.to_le_bytes()))
                        }
                    }
                }
            };
            let mut lost = BTreeSet::new();
            from_place(ix, node, 0, &mut lost);
            (kind, Need::Hit { lost, key: None, lookups: true, iteration: true, vcn }, format!("index record at VCN {:#x}: {w}", ix.nodes[node].vcn), b, g)
        }
        8.. => {
            let node = p.usize(0, ix.nodes.len() - 1);
            if ix.nodes[node].slot.is_none() && node != ix.root {
                return Ok(());
            }
            let nr = node_rec(v, dir, node).unwrap();
            let n = &ix.nodes[node];
            ensure!(nr.ents.len() == n.ents.len() + 1, "the model's entries");
            let k = p.usize(0, n.ents.len());
            let (o, len) = nr.ents[k];
            let child = if k < n.ents.len() { n.ents[k].1 } else { n.end };
            let at = format!("entry {k} of {} in node {:?}", n.ents.len(), n.slot.map(|_| n.vcn));
            let mut g = nr.r.region();
            let mut lost = BTreeSet::new();
            let _ = nr.start;
            match p.below(5) {
                0 if p.chance(1, 3) && len > 1 => {
                    // The used size of the node ends inside the entry.
                    let hdr = if node == ix.root { rv + 16 } else { 24 };
                    let x = (o - hdr + p.usize(1, len - 1)) as u32;
                    from_place(ix, node, k, &mut lost);
                    ("ent_cut", Need::Hit { lost, key: None, lookups: true, iteration: true, vcn: None }, format!("{at}: used size {x:#x}"), nr.r.put(hdr + 4, &x.to_le_bytes()), g)
                }
                0 => {
                    let x = match p.below(3) {
                        0 => p.below(16) as u16,
                        _ => ((nr.end - o) as u64 + 1 + p.skewed(16)).min(0xffff) as u16,
                    };
                    from_place(ix, node, k, &mut lost);
                    ("ent_length", Need::Hit { lost, key: None, lookups: true, iteration: true, vcn: None }, format!("{at}: length {x:#x}"), nr.r.put(o + 8, &x.to_le_bytes()), g)
                }
                1 | 2 if k < n.ents.len() => {
                    from_place(ix, node, k, &mut lost);
                    let e = n.ents[k].0;
                    let kl = nr.r.u16(o + 10);
                    let (kind, w, b): (&'static str, String, Pieces) = match p.below(4) {
                        0 => {
                            let x = (len as u64 - 16 + 1 + p.skewed(16)).min(0xffff) as u16;
                            ("ent_key", format!("key length {x:#x}"), nr.r.put(o + 10, &x.to_le_bytes()))
                        }
                        1 => {
                            let x = p.range(1, (66 + 2 * dir.names[e].name.len() as u64 - 1).min(kl as u64 - 1)) as u16;
                            ("ent_key", format!("key length {x:#x}"), nr.r.put(o + 10, &x.to_le_bytes()))
                        }
                        2 => {
                            let room = (kl - 66) / 2;
                            if room >= 255 {
                                return Ok(());
                            }
                            let x = if p.chance(1, 3) { room as u8 + 1 } else { p.range(room as u64 + 1, 255) as u8 };
                            ("ent_name", format!("name length {x}"), nr.r.put(o + 16 + 64, &[x]))
                        }
                        _ => {
                            let x = p.range(4, 255) as u8;
                            ("ent_name", format!("namespace {x}"), nr.r.put(o + 16 + 65, &[x]))
                        }
                    };
                    (kind, Need::Hit { lost, key: Some(e), lookups: true, iteration: false, vcn: None }, format!("{at}: {w}"), b, g)
                }
                _ if child.is_some() => {
                    let c = child.unwrap();
                    from_place(ix, c, 0, &mut lost);
                    let parents = ix.parents();
                    let path = ix.path(&parents, node);
                    let vo = o + len - 8;
                    g.extend(dir_region(true));
                    let unit = v.geo.idx_vcn_unit() as u64;
                    let end = ix.slots * ix.irs as u64 / unit;
                    let mut lookups = true;
                    let (kind, w, x): (&'static str, &str, u64) = match p.below(5) {
                        0 => ("ent_child_outside", "beyond the allocation", end + p.skewed(40)),
                        1 => ("ent_child_outside", "negative", (-1 - p.skewed(40) as i64) as u64),
                        2 => ("ent_child_outside", "absurd", p.range(1 << 60, i64::MAX as u64)),
                        3 => {
                            let x = *p.pick(&path);
                            if ix.nodes[x].slot.is_none() {
                                return Ok(());
                            }
                            ("ent_child_repeated", "itself or an ancestor", ix.nodes[x].vcn)
                        }
                        _ => {
                            // A child of an earlier entry in the same node.
                            let Some(x) = n.ents[..k].iter().rev().find_map(|x| x.1) else { return Ok(()) };
                            lookups = false;
                            ("ent_child_repeated", "the child of an earlier entry", ix.nodes[x].vcn)
                        }
                    };
                    (kind, Need::Hit { lost, key: None, lookups, iteration: true, vcn: None }, format!("{at}: child {x:#x} ({w})"), nr.r.put(vo, &x.to_le_bytes()), g)
                }
                _ => return Ok(()),
            }
        }
        _ => return Ok(()),
    };
    let _ = all;
    ctx.count(kind, 1);
    let what = format!("directory {} ({} entries): {what}", dir.rec, dir.names.len());
    ctx.eval(hash(&(kind, &what)), true);
    if matches!(need, Need::Open) {
        region.extend(dir_region(false));
    }
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        match need {
            Need::Open => {
                let n = open_d(&what, d)?;
                let file = n.file(d, dir.rec).map_err(|e| e2v(&format!("{what}: file()"), e))?;
                refuse(ctx, &what, "directory_index()", file.directory_index(d), &region)?;
            }
            Need::Hit { lost, key, lookups, iteration, vcn } => {
                let h = Hit { lost, key, region: &region, lookups, iteration };
                judge_index(ctx, p, v, dir, d, &what, &h)?;
                let n = open_d(&what, d)?;
                let file = n.file(d, dir.rec).map_err(|e| e2v(&format!("{what}: file()"), e))?;
                if let (Some(vcn), Some(al)) = (vcn, al) {
                    let i = walk::find_item(&file, d, al.ty, &al.name).map_err(|e| e2v(&what, e))?.ok_or_else(|| Viol::from(format!("{what}: no allocation")))?;
                    let a = i.to_attribute().map_err(|e| e2v(&what, e))?;
                    let al = a.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v(&what, e))?;
                    refuse(ctx, &what, "record_from_vcn()", al.record_from_vcn(d, ix.irs, (vcn as i64).into()), &region)?;
                    // All other records.
                    for n in ix.nodes.iter().filter(|n| n.slot.is_some() && n.vcn != vcn).take(4) {
                        let r = al.record_from_vcn(d, ix.irs, (n.vcn as i64).into()).map_err(|e| e2v(&format!("{what}: another record"), e))?;
                        let c = r.entries::<NtfsFileNameIndex>().map_err(|e| e2v(&what, e))?.count();
                        ensure!(c == n.ents.len() + 1, "{what}: another record has {c} entries");
                    }
                }
            }
        }
        other_files(ctx, lr, p, d, &what, dir.rec)
    })
}

// ---------------------------------------------------------------- structured values

fn structured(ctx: &mut Ctx, l: &mut Lab, p: &mut Prng) -> Res {
    let v = l.v;
    if p.chance(1, 10) {
        // $UpCase of another size.
        let t = v.files[&10].find(DATA, "").ok_or_else(|| Viol::from("no table".to_string()))?;
        if t.resident || t.extents != 1 {
            return Ok(());
        }
        let r = Rec::file(v, t.rec);
        let o = rec_off(v, t);
        let x = if p.chance(1, 2) { 131072 + 1 + p.skewed(40) } else { p.below(131072) };
        ctx.count("upcase_size", 1);
        if x > 131072 {
            ctx.count("upcase_larger", 1);
        }
        let what = format!("$UpCase of {x} bytes");
        ctx.eval(hash(&what), true);
        let patch = r.put(o + 48, &x.to_le_bytes());
        let lr = &l.known.clone();
        return l.with(&patch, |d| {
            let mut n = open_d(&what, d)?;
            refuse(ctx, &what, "read_upcase_table()", n.read_upcase_table(d), &r.region())?;
            other_files(ctx, lr, p, d, &what, 10)
        });
    }
    let mut all = vec![];
    for f in v.files.values() {
        for t in f.attrs.iter().filter(|t| t.resident && matches!(t.ty, STDINFO | FILENAME | OBJID | VOLINFO)) {
            all.push((f.rec, t));
        }
    }
    if all.is_empty() {
        return Ok(());
    }
    let (base, t) = *p.pick(&all);
    let rec = t.rec;
    let r = Rec::file(v, rec);
    let o = rec_off(v, t);
    let vo = o + r.u16(o + 20);
    let min = match t.ty {
        STDINFO => 48,
        OBJID => 16,
        VOLINFO => 12,
        _ => t.data_size.min(66 + 2 * r.bytes[vo + 64] as u64),
    };
    let mut short = true;
    let (what, patch) = if t.ty == FILENAME && p.chance(1, 2) {
        if p.chance(1, 4) {
            // No room for a single character, and none declared.
            let x = p.range(66, 67) as u32;
            let mut a = r.put(vo + 64, &[0]);
            a.extend(r.put(o + 16, &x.to_le_bytes()));
            ctx.count("value_nameless", 1);
            (format!("an empty name in {x} bytes"), a)
        } else if p.chance(1, 2) {
            let room = (t.data_size - 66) / 2;
            if room >= 255 {
                return Ok(());
            }
            let x = if p.chance(1, 3) { room as u8 + 1 } else { p.range(room + 1, 255) as u8 };
            (format!("name length {x}"), r.put(vo + 64, &[x]))
        } else {
            short = false;
            let x = p.range(4, 255) as u8;
            (format!("namespace {x}"), r.put(vo + 65, &[x]))
        }
    } else {
        let x = if p.chance(1, 2) { min - 1 } else { p.below(min) } as u32;
        (format!("{x} bytes"), r.put(o + 16, &x.to_le_bytes()))
    };
    ctx.count("value_short", 1);
    let what = format!("record {rec} (of {base}), attribute {:#x}: {what}", t.ty);
    ctx.eval(hash(&what), true);
    let region = r.region();
    let lr = &l.known.clone();
    l.with(&patch, |d| {
        let n = open_d(&what, d)?;
        let file = n.file(d, base).map_err(|e| e2v(&format!("{what}: file()"), e))?;
        let mut seen = false;
        let mut it = file.attributes();
        while let Some(i) = it.next(d) {
            let i = i.map_err(|e| e2v(&what, e))?;
            let a = i.to_attribute().map_err(|e| e2v(&what, e))?;
            if a.position().value().map(|x| x.get()) != Some(v.rec_pos(rec).unwrap() + o as u64) {
                continue;
            }
            seen = true;
            let errs: Vec<NtfsError> = match t.ty {
                STDINFO => vec![a.structured_value::<_, NtfsStandardInformation>(d).err(), a.resident_structured_value::<NtfsStandardInformation>().err()],
                OBJID => vec![a.structured_value::<_, NtfsObjectId>(d).err(), a.resident_structured_value::<NtfsObjectId>().err()],
                VOLINFO => vec![a.structured_value::<_, NtfsVolumeInformation>(d).err(), a.resident_structured_value::<NtfsVolumeInformation>().err()],
                _ => vec![a.structured_value::<_, NtfsFileName>(d).err()],
            }
            .into_iter()
            .flatten()
            .collect();
            ensure!(errs.len() == if t.ty == FILENAME { 1 } else { 2 }, "{what}: accepted");
            for e in errs {
                if let NtfsError::InvalidStructuredValueSize { ty, position, .. } = &e {
                    ensure!(*ty as u32 == t.ty, "{what}: reported as {ty:?}");
                    let val = position.value().map(|x| x.get());
                    let want = v.rec_pos(rec).unwrap() + vo as u64;
                    ensure!(val == Some(want) || v.rec_pos_at(rec, vo as u64) == val, "{what}: the error points at {val:x?}, the value is at {want:#x}");
                } else {
                    ensure!(!short, "{what}: refused with {e:?}");
                }
                point(ctx, &what, "structured_value()", &e, &region)?;
            }
        }
        ensure!(seen, "{what}: the attribute is gone");
        if t.ty == STDINFO && rec == base && v.files[&base].attrs.iter().filter(|t| t.ty == STDINFO).count() == 1 {
            refuse(ctx, &what, "info()", file.info(), &region)?;
        }
        if t.ty == FILENAME && v.files[&base].attrs.iter().filter(|t| t.ty == FILENAME).count() == 1 {
            match file.name(d, None, None) {
                None => bail!("{what}: name() reports absence"),
                Some(x) => refuse(ctx, &what, "name()", x, &region)?,
            }
        }
        if t.ty == VOLINFO && base == 3 {
            refuse(ctx, &what, "volume_info()", n.volume_info(d), &region)?;
        }
        other_files(ctx, lr, p, d, &what, rec)
    })
}

fn hash(x: &impl std::fmt::Debug) -> u64 {
    let mut d = Digest::default();
    d.s(&format!("{x:?}"));
    d.0
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { files: (2, 6), dirs: (1, 2), ents: 70, nrec: 100, stream_clusters: 30, ..RichOpt::default() };
    let v = rich(&mut p, &o);
    let base = {
        let (mut d, n) = open_up(&v.img)?;
        let plan = plan(&v, &mut p, 2);
        let mut out = vec![];
        for _ in 0..40 {
            let q = p.pick(&plan).clone();
            let a = walk::render(&walk::ask(&n, &mut d, &q));
            out.push((q, a));
        }
        out
    };
    let mut l = Lab { v: &v, img: Arc::new((*v.img).clone()), known: Known { v: &v, base: Rc::new(base) } };
    let recs: Vec<(u64, u64)> = v.files.iter().flat_map(|(r, f)| std::iter::once((*r, *r)).chain(f.ext.iter().map(|e| (*r, *e)))).collect();
    for _ in 0..if ctx.thorough() { 60 } else { 30 } {
        let (b, r) = *p.pick(&recs);
        match p.below(12) {
            0 => file_record(ctx, &mut l, &mut p, b, r)?,
            1..=3 if r != 0 => attribute(ctx, &mut l, &mut p, b, r)?,
            4..=5 if r != 0 => runs(ctx, &mut l, &mut p, b, r)?,
            6 => list(ctx, &mut l, &mut p)?,
            7..=10 => index(ctx, &mut l, &mut p)?,
            _ => structured(ctx, &mut l, &mut p)?,
        }
    }
    Ok(())
}
