//! C16: every exposed metadata field equals the stored one.
use crate::fw::*;
use crate::idx::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::*;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C16",
    level: "exploration",
    rule: "case = random volume whose fields hold random values (all bits of flags and times, standard information and object ids of every length, names of any UTF-16 units and up to 255 of them, volume names up to 128, attribute lists, indexes); every accessor of volume, file record, attribute header, standard information, file name (attribute and index key), object id, volume name and information, attribute list entry, index root, index record, index entry and file reference is compared with a decoding of the stored bytes that is written from the format; name() with every combination of namespace and parent against the first match in attributes() order; texts of GUIDs, flags and positions. Non-trivial: structure with distinct content",
    cases: (12000, 300_000),
    secs: (60, 1500),
    run,
    need: &["records", "headers", "stdinfo_ntfs1", "stdinfo_ntfs3", "stdinfo_between", "file_names", "index_keys", "object_ids", "guid_texts", "volume_infos", "volume_names", "no_volume_name", "list_entries", "index_roots", "index_records", "index_entries", "name_hits", "name_misses", "flag_texts", "ext_records", "wrong_types", "no_directories", "no_infos"],
    assumptions: &["flag bits that the library does not name may be shown or not"],
    limits: (4_000_000_000, 2 << 30),
};

fn le16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn le32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn le64(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn eq<T: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, got: T, want: T) -> Res {
    if got != want {
        bail!("{}: {:x?} instead of {:x?}", what(), got, want);
    }
    Ok(())
}
/// The named bits must be the stored ones; others may be dropped but not invented.
fn flags(what: impl Fn() -> String, got: u64, stored: u64, named: u64) -> Res {
    eq(&what, got & named, stored & named)?;
    eq(&what, got & !stored, 0)
}
/// The text of a flag set lists exactly the names of the set bits.
fn flag_text(ctx: &mut Ctx, text: String, stored: u64, names: &[(u64, &str)]) -> Res {
    let got: Vec<&str> = text.split('|').map(|s| s.trim()).filter(|s| !s.is_empty() && !s.starts_with("0x")).collect();
    let want: Vec<&str> = names.iter().filter(|n| stored & n.0 != 0).map(|n| n.1).collect();
    ctx.count("flag_texts", 1);
    let (mut g, mut w) = (got.clone(), want.clone());
    g.sort();
    w.sort();
    ensure!(g == w, "flags {stored:#x} are shown as {text:?}, the set ones are {want:?}");
    Ok(())
}
const FILE_ATTRS: &[(u64, &str)] = &[
    (1, "READ_ONLY"),
    (2, "HIDDEN"),
    (4, "SYSTEM"),
    (0x20, "ARCHIVE"),
    (0x40, "DEVICE"),
    (0x80, "NORMAL"),
    (0x100, "TEMPORARY"),
    (0x200, "SPARSE_FILE"),
    (0x400, "REPARSE_POINT"),
    (0x800, "COMPRESSED"),
    (0x1000, "OFFLINE"),
    (0x2000, "NOT_CONTENT_INDEXED"),
    (0x4000, "ENCRYPTED"),
    (0x1000_0000, "IS_DIRECTORY"),
];
const VOL_FLAGS: &[(u64, &str)] = &[
    (1, "IS_DIRTY"),
    (2, "RESIZE_LOG_FILE"),
    (4, "UPGRADE_ON_MOUNT"),
    (8, "MOUNTED_ON_NT4"),
    (0x10, "DELETE_USN_UNDERWAY"),
    (0x20, "REPAIR_OBJECT_ID"),
    (0x4000, "CHKDSK_UNDERWAY"),
    (0x8000, "MODIFIED_BY_CHKDSK"),
];
fn mask(n: &[(u64, &str)]) -> u64 {
    n.iter().map(|x| x.0).sum()
}

fn guid_text(b: &[u8]) -> String {
    let h = |s: &[u8]| s.iter().map(|x| format!("{x:02X}")).collect::<String>();
    let r = |s: &[u8]| h(&s.iter().rev().copied().collect::<Vec<_>>());
    format!("{}-{}-{}-{}-{}", r(&b[0..4]), r(&b[4..6]), r(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}
fn guid(ctx: &mut Ctx, what: &str, g: Option<&NtfsGuid>, b: &[u8], at: usize) -> Res {
    let stored = b.get(at..at + 16);
    match (g, stored) {
        (None, None) => Ok(()),
        (Some(g), Some(s)) => {
            eq(|| format!("{what}: data1"), g.data1, le32(s, 0))?;
            eq(|| format!("{what}: data2"), g.data2, le16(s, 4))?;
            eq(|| format!("{what}: data3"), g.data3, le16(s, 6))?;
            eq(|| format!("{what}: data4"), g.data4.to_vec(), s[8..16].to_vec())?;
            ctx.count("guid_texts", 1);
            eq(|| format!("{what}: text"), g.to_string(), guid_text(s))
        }
        (g, s) => bail!("{what}: reported {}, stored {}", g.is_some(), s.is_some()),
    }
}
fn stdinfo(ctx: &mut Ctx, i: &NtfsStandardInformation, b: &[u8], what: &str) -> Res {
    eq(|| format!("{what}: creation time"), i.creation_time().nt_timestamp(), le64(b, 0))?;
    eq(|| format!("{what}: modification time"), i.modification_time().nt_timestamp(), le64(b, 8))?;
    eq(|| format!("{what}: record modification time"), i.mft_record_modification_time().nt_timestamp(), le64(b, 16))?;
    eq(|| format!("{what}: access time"), i.access_time().nt_timestamp(), le64(b, 24))?;
    flags(|| format!("{what}: file attributes"), i.file_attributes().bits() as u64, le32(b, 32) as u64, mask(FILE_ATTRS))?;
    flag_text(ctx, i.file_attributes().to_string(), le32(b, 32) as u64, FILE_ATTRS)?;
    let v3 = b.len() >= 72;
    let o = |f: &dyn Fn(&[u8]) -> u64| if v3 { Some(f(b)) } else { None };
    eq(|| format!("{what}: maximum versions"), i.maximum_versions().map(|x| x as u64), o(&|b| le32(b, 36) as u64))?;
    eq(|| format!("{what}: version"), i.version().map(|x| x as u64), o(&|b| le32(b, 40) as u64))?;
    eq(|| format!("{what}: class id"), i.class_id().map(|x| x as u64), o(&|b| le32(b, 44) as u64))?;
    eq(|| format!("{what}: owner id"), i.owner_id().map(|x| x as u64), o(&|b| le32(b, 48) as u64))?;
    eq(|| format!("{what}: security id"), i.security_id().map(|x| x as u64), o(&|b| le32(b, 52) as u64))?;
    eq(|| format!("{what}: quota charged"), i.quota_charged(), o(&|b| le64(b, 56)))?;
    eq(|| format!("{what}: usn"), i.usn(), o(&|b| le64(b, 64)))?;
    ctx.count(
        match b.len() {
            48 => "stdinfo_ntfs1",
            49..=71 => "stdinfo_between",
            _ => "stdinfo_ntfs3",
        },
        1,
    );
    Ok(())
}
/// A file name decoded from its bytes.
fn fname(b: &[u8]) -> FName {
    let n = b[64] as usize;
    FName {
        parent: le64(b, 0),
        times: [le64(b, 8), le64(b, 16), le64(b, 24), le64(b, 32)],
        alloc: le64(b, 40),
        size: le64(b, 48),
        attrs: le32(b, 56),
        reparse: le32(b, 60),
        ns: b[65],
        name: (0..n).map(|k| le16(b, 66 + 2 * k)).collect(),
    }
}

fn build(p: &mut Prng) -> Vol {
    let o = RichOpt { wild_names: true, nrec: 90, ents: 30, stream_clusters: 8, upcase: UpKind::Ascii, ..RichOpt::default() };
    let mut geo = modest_geo(p);
    let cross = p.chance(1, 5);
    if cross {
        cross_geo(p, &mut geo);
    }
    let mut b = Builder::new(geo, Opts { nrec: o.nrec, upcase: UpKind::Ascii, cross, ..Opts::default() }, p.u64());
    // Files with unusual metadata.
    for _ in 0..p.range(1, 4) {
        let Some(rec) = b.new_rec() else { break };
        let mut s = FileSpec::new(rec, false);
        s.seq = p.u64() as u16;
        s.links = p.u64() as u16;
        s.flags = p.u64() as u16 & !2 | 1;
        let n = *p.pick(&[48usize, 48, 50, 64, 71, 72, 72, 80, 96]);
        let mut v = p.bytes(n);
        if p.chance(1, 3) {
            // Distinct small numbers.
            for (k, x) in v.iter_mut().enumerate() {
                *x = if k % 4 == 0 { k as u8 + 1 } else { 0 };
            }
        }
        if !p.chance(1, 12) {
            s.attrs.push(Attr::res(STDINFO, "", v));
        }
        for _ in 0..p.range(0, 5) {
            let n = if p.chance(1, 2) { wild_name(p, 10) } else { attr_name(p, 12) };
            let par = mft_ref(*p.pick(&[5, 5, 20, 21, 0xffff_ffff_ffff]), p.u64() as u16);
            s.attrs.push(name_attr(p, par, &n));
        }
        if p.chance(1, 2) {
            let n = p.usize(16, 80);
            let mut a = obj_id(p);
            if p.chance(1, 2) {
                a.body = Body::Res(p.bytes(n));
            }
            s.attrs.push(a);
        }
        for k in 0..p.range(0, 3) {
            let mut a = if p.chance(1, 2) {
                let (body, fl) = stream(&mut b, &StreamOpt { max_clusters: 8, max_runs: 6, ..StreamOpt::small() });
                let mut a = Attr::non(*p.pick(&[DATA, 0xF0, 0x100, 0xC0]), "", body);
                a.flags = fl;
                a
            } else {
                let n = p.skewed(6) as usize;
                Attr::res(*p.pick(&[DATA, 0xF0, 0x100, SECDESC, 0xC0, BITMAP]), "", p.bytes(n))
            };
            a.flags |= p.u64() as u16 & 0x7fff;
            a.name = if k == 0 { vec![] } else if p.chance(1, 4) { attr_name(p, 20) } else { wild_name(p, 20) };
            a.pad = p.chance(1, 3);
            if !s.attrs.iter().any(|x| x.ty == a.ty && x.name == a.name) {
                s.attrs.push(a);
            }
        }
        if p.chance(1, 3) {
            scatter_attrs(&mut b, &mut s);
        }
        write_fitting(&mut b, s);
    }
    if p.chance(2, 3) {
        let mut s = FileSpec::new(3, false);
        s.seq = 3;
        s.attrs.push(std_attr(p));
        if p.chance(2, 3) {
            let n = match p.below(6) {
                0 => vec![],
                1 => (0..*p.pick(&[32usize, 33, 127, 128])).map(|_| p.range(0x21, 0x17f) as u16).collect(),
                _ => wild_name(p, 40),
            };
            s.attrs.push(Attr::res(VOLNAME, "", names_bytes(&n)));
        }
        let n = *p.pick(&[12usize, 12, 16]);
        s.attrs.push(Attr::res(VOLINFO, "", p.bytes(n)));
        write_fitting(&mut b, s);
    }
    rich_into(&mut b, p, &RichOpt { files: (1, 4), ..o });
    b.finish()
}

fn header(a: &TAttr) -> String {
    format!(
        "ty={:#x} name={} nl={} flags={:#x} inst={} res={} alen={} vlen={}",
        a.ty,
        name_hex(&a.name),
        2 * a.name.len(),
        a.flags & 0xC001,
        a.instance,
        a.resident,
        a.attr_len,
        a.data_size
    )
}
fn header_of(a: &NtfsAttribute, stored: Option<u16>) -> Result<String, Viol> {
    if let Some(st) = stored {
        flags(|| "attribute flags".into(), a.flags().bits() as u64, st as u64, 0xC001)?;
    }
    Ok(format!(
        "ty={:#x} name={} nl={} flags={:#x} inst={} res={} alen={} vlen={}",
        a.ty().map_err(|e| e2v("ty", e))? as u32,
        name_hex(&walk::units(&a.name().map_err(|e| e2v("attribute name", e))?)),
        a.name_length(),
        a.flags().bits() & 0xC001,
        a.instance(),
        a.is_resident(),
        a.attribute_length(),
        a.value_length()
    ))
}

/// An attribute shows itself only as the structure of its own type.
fn typed(ctx: &mut Ctx, a: &NtfsAttribute, d: &mut MonDisk) -> Res {
    let ty = a.ty().map_err(|e| e2v("ty", e))?;
    let pos = a.position();
    let refused = |ctx: &mut Ctx, what: &str, want: NtfsAttributeType, e: Option<NtfsError>| -> Res {
        match e {
            None => bail!("{what} of a {ty:?} attribute gives a {want:?}"),
            Some(NtfsError::AttributeOfDifferentType { position, expected, actual }) => {
                eq(|| format!("{what} of a {ty:?} attribute: error position"), position, pos)?;
                eq(|| format!("{what} of a {ty:?} attribute: types named"), (expected, actual), (want, ty))?;
            }
            Some(e) => bail!("{what} of a {ty:?} attribute as a {want:?}: {e:?}"),
        }
        ctx.count("wrong_types", 1);
        Ok(())
    };
    macro_rules! both {
        ($t:ty, $w:expr) => {
            if ty != $w {
                refused(ctx, "structured_value", $w, a.structured_value::<_, $t>(d).err())?;
            }
        };
    }
    macro_rules! resident {
        ($t:ty, $w:expr) => {
            both!($t, $w);
            if ty != $w {
                refused(ctx, "resident_structured_value", $w, a.resident_structured_value::<$t>().err())?;
            }
        };
    }
    both!(NtfsFileName, NtfsAttributeType::FileName);
    both!(NtfsAttributeList, NtfsAttributeType::AttributeList);
    both!(NtfsIndexAllocation, NtfsAttributeType::IndexAllocation);
    resident!(NtfsStandardInformation, NtfsAttributeType::StandardInformation);
    resident!(NtfsObjectId, NtfsAttributeType::ObjectId);
    resident!(NtfsIndexRoot, NtfsAttributeType::IndexRoot);
    resident!(NtfsVolumeInformation, NtfsAttributeType::VolumeInformation);
    resident!(NtfsVolumeName, NtfsAttributeType::VolumeName);
    Ok(())
}

fn file(ctx: &mut Ctx, p: &mut Prng, v: &Vol, n: &Ntfs, d: &mut MonDisk, t: &TFile) -> Res {
    let r = t.rec;
    let f = n.file(d, r).map_err(|e| e2v(&format!("file({r})"), e))?;
    let w = |s: &str| format!("record {r}: {s}");
    eq(|| w("sequence number"), f.sequence_number(), t.seq)?;
    eq(|| w("hard links"), f.hard_link_count(), t.links)?;
    eq(|| w("used size"), f.data_size(), t.used)?;
    eq(|| w("allocated size"), f.allocated_size(), v.geo.frs)?;
    eq(|| w("record number"), f.file_record_number(), r)?;
    eq(|| w("directory"), f.is_directory(), t.flags & 2 != 0)?;
    flags(|| w("flags"), f.flags().bits() as u64, t.flags as u64, 3)?;
    flag_text(ctx, f.flags().to_string(), t.flags as u64, &[(1, "IN_USE"), (2, "IS_DIRECTORY")])?;
    ctx.count("records", 1);
    // Headers of the flattened view.
    let mut want: Vec<String> = t.attrs.iter().map(header).collect();
    let mut got = vec![];
    let mut names: Vec<FName> = vec![];
    let mut it = f.attributes();
    while let Some(i) = it.next(d) {
        let i = i.map_err(|e| e2v(&w("attributes"), e))?;
        let a = i.to_attribute().map_err(|e| e2v(&w("to_attribute"), e))?;
        let h = header_of(&a, None)?;
        let tr = t.attrs.iter().find(|x| header(x) == h);
        if let Some(tr) = tr {
            header_of(&a, Some(tr.flags))?;
            flag_text(ctx, a.flags().to_string(), tr.flags as u64, &[(1, "COMPRESSED"), (0x4000, "ENCRYPTED"), (0x8000, "SPARSE")])?;
        }
        got.push(h);
        ctx.count("headers", 1);
        typed(ctx, &a, d)?;
        let ty = a.ty().map_err(|e| e2v("ty", e))?;
        // The bytes of the value, as stored.
        let b = match tr {
            Some(tr) if tr.resident => {
                // Several names have equal headers: take the bytes the value shows.
                let same: Vec<&TAttr> = t.attrs.iter().filter(|x| header(x) == header(tr)).collect();
                if same.len() == 1 {
                    tr.bytes.clone()
                } else {
                    let mut b = v.img.get(a.position().value().map(|x| x.get()).unwrap_or(0), tr.attr_len as usize);
                    if v.straddles(tr.rec) || b.len() < 24 {
                        b = tr.bytes.clone();
                    }
                    let _ = b;
                    let val = a.value(d).map_err(|e| e2v("value", e))?;
                    let mut val = val;
                    let x = walk::read_at(&mut val, d, 0, tr.data_size as usize).map_err(|e| e2v("value", e))?;
                    ensure!(same.iter().any(|s| s.bytes == x), "{}: a value that is not stored", w(&name_hex(&tr.name)));
                    x
                }
            }
            _ => continue,
        };
        match ty {
            NtfsAttributeType::StandardInformation => {
                let i = a.structured_value::<_, NtfsStandardInformation>(d).map_err(|e| e2v(&w("standard information"), e))?;
                stdinfo(ctx, &i, &b, &w("standard information"))?;
                let i = a.resident_structured_value::<NtfsStandardInformation>().map_err(|e| e2v(&w("standard information"), e))?;
                stdinfo(ctx, &i, &b, &w("resident standard information"))?;
                let i = f.info().map_err(|e| e2v(&w("info"), e))?;
                stdinfo(ctx, &i, &b, &w("info"))?;
            }
            NtfsAttributeType::FileName => {
                let k = a.structured_value::<_, NtfsFileName>(d).map_err(|e| e2v(&w("file name"), e))?;
                let want = fname(&b);
                if let Some(x) = fname_diff(&k, &want) {
                    bail!("{}: {x}", w("file name"));
                }
                flag_text(ctx, k.file_attributes().to_string(), want.attrs as u64, FILE_ATTRS)?;
                names.push(want);
                ctx.count("file_names", 1);
            }
            NtfsAttributeType::ObjectId => {
                for k in 0..2 {
                    let o = if k == 0 { a.structured_value::<_, NtfsObjectId>(d) } else { a.resident_structured_value::<NtfsObjectId>() };
                    let o = o.map_err(|e| e2v(&w("object id"), e))?;
                    guid(ctx, &w("object id"), Some(o.object_id()), &b, 0)?;
                    guid(ctx, &w("birth volume id"), o.birth_volume_id(), &b, 16)?;
                    guid(ctx, &w("birth object id"), o.birth_object_id(), &b, 32)?;
                    guid(ctx, &w("domain id"), o.domain_id(), &b, 48)?;
                    ctx.count("object_ids", 1);
                }
            }
            NtfsAttributeType::IndexRoot => {
                let x = a.resident_structured_value::<NtfsIndexRoot>().map_err(|e| e2v(&w("index root"), e))?;
                eq(|| w("index record size"), x.index_record_size(), le32(&b, 8))?;
                eq(|| w("index data size"), x.index_data_size(), le32(&b, 20))?;
                eq(|| w("index allocated size"), x.index_allocated_size(), le32(&b, 24))?;
                eq(|| w("large index"), x.is_large_index(), b[28] & 1 != 0)?;
                ctx.count("index_roots", 1);
            }
            _ => {}
        }
        let mut g = Digest::default();
        g.b(&b);
        ctx.eval(g.0, true);
    }
    want.sort();
    got.sort();
    ensure!(want == got, "{}", w(&format!("attribute headers differ: {}", text_diff(&got.join("\n"), &want.join("\n")))));
    // What the file does not have.
    if t.flags & 2 == 0 {
        match f.directory_index(d) {
            Err(NtfsError::NotADirectory { position }) => eq(|| w("not a directory: error position"), position, f.position())?,
            x => bail!("{}", w(&format!("directory_index of no directory: {:?}", x.err()))),
        }
        ctx.count("no_directories", 1);
    }
    if t.find(STDINFO, "").is_none() {
        match f.info() {
            Err(NtfsError::AttributeNotFound { position, ty }) => {
                eq(|| w("no standard information: error position"), position, f.position())?;
                eq(|| w("no standard information: type"), ty, NtfsAttributeType::StandardInformation)?;
            }
            x => bail!("{}", w(&format!("standard information of a file without: {:?}", x.err()))),
        }
        ctx.count("no_infos", 1);
    }
    // Names by namespace and parent.
    let parents: Vec<Option<u64>> = [None, Some(5), Some(20), Some(0xffff_ffff_ffff)].into_iter().chain(names.iter().map(|x| Some(x.parent & 0xffff_ffff_ffff))).chain(names.iter().map(|x| Some(x.parent & 0xffff_ffff_ffff ^ 1 << (x.parent >> 48) % 48))).collect();
    for par in parents {
        for ns in [None, Some(NtfsFileNamespace::Posix), Some(NtfsFileNamespace::Win32), Some(NtfsFileNamespace::Dos), Some(NtfsFileNamespace::Win32AndDos)] {
            let want = names.iter().find(|x| par.map_or(true, |q| x.parent & 0xffff_ffff_ffff == q) && ns.map_or(true, |q| x.ns == q as u8));
            match (f.name(d, ns, par), want) {
                (None, None) => ctx.count("name_misses", 1),
                (Some(k), Some(want)) => {
                    let k = k.map_err(|e| e2v(&w("name"), e))?;
                    if let Some(x) = fname_diff(&k, want) {
                        bail!("{}: {x}", w(&format!("name({ns:?}, {par:?})")));
                    }
                    ctx.count("name_hits", 1);
                }
                (g, x) => bail!("{}: found {}, stored {}", w(&format!("name({ns:?}, {par:?})")), g.is_some(), x.is_some()),
            }
        }
    }
    // The attribute list.
    if let Some(l) = &t.list {
        for a in f.attributes_raw() {
            let a = a.map_err(|e| e2v(&w("attributes_raw"), e))?;
            if a.ty().map_err(|e| e2v("ty", e))? != NtfsAttributeType::AttributeList {
                continue;
            }
            eq(|| w("attribute list header"), header_of(&a, None)?, header(l))?;
            let x = a.structured_value::<_, NtfsAttributeList>(d).map_err(|e| e2v(&w("attribute list"), e))?;
            let mut it = x.entries();
            for (k, te) in t.list_entries.iter().enumerate() {
                let e = it.next(d).ok_or_else(|| Viol::from(w(&format!("attribute list ends before entry {k}"))))?.map_err(|e| e2v(&w("list entry"), e))?;
                let wk = |s: &str| w(&format!("list entry {k}: {s}"));
                eq(|| wk("type"), e.ty().map_err(|e| e2v("ty", e))? as u32, te.ty)?;
                eq(|| wk("name"), walk::units(&e.name()), te.name.clone())?;
                eq(|| wk("name length"), e.name_length(), 2 * te.name.len())?;
                eq(|| wk("length"), e.list_entry_length(), te.len)?;
                eq(|| wk("lowest vcn"), e.lowest_vcn().value(), te.lowest as i64)?;
                eq(|| wk("instance"), e.instance(), te.instance)?;
                eq(|| wk("record"), e.base_file_reference().file_record_number(), te.rec)?;
                eq(|| wk("sequence"), e.base_file_reference().sequence_number(), te.seq)?;
                ctx.count("list_entries", 1);
                let owner = n.file(d, te.rec).map_err(|e| e2v(&wk("record"), e))?;
                let at = e.to_attribute(&owner).map_err(|e| e2v(&wk("to_attribute"), e))?;
                eq(|| wk("attribute"), (at.ty().map_err(|e| e2v("ty", e))? as u32, at.instance(), walk::units(&at.name().map_err(|e| e2v("name", e))?)), (te.ty, te.instance, te.name.clone()))?;
            }
            ensure!(it.next(d).is_none(), "{}", w("attribute list yields more entries than stored"));
        }
        for r in &t.ext {
            let x = n.file(d, *r).map_err(|e| e2v("extension record", e))?;
            let seq = t.list_entries.iter().find(|e| e.rec == *r).map(|e| e.seq);
            eq(|| format!("extension record {r}: sequence number"), Some(x.sequence_number()), seq)?;
            eq(|| format!("extension record {r}: links"), x.hard_link_count(), 0)?;
            eq(|| format!("extension record {r}: allocated size"), x.allocated_size(), v.geo.frs)?;
            ctx.count("ext_records", 1);
        }
    }
    // The directory index.
    if let Some(dir) = v.dirs.get(&r) {
        let ix = f.directory_index(d).map_err(|e| e2v(&w("directory_index"), e))?;
        let mut it = ix.entries();
        let home = dir.index.node_of_entry();
        for (k, want) in dir.names.iter().enumerate() {
            let e = it.next(d).ok_or_else(|| Viol::from(w(&format!("index ends before entry {k}"))))?.map_err(|e| e2v(&w("entry"), e))?;
            let wk = |s: &str| w(&format!("index entry {k}: {s}"));
            let key = e.key().ok_or_else(|| Viol::from(wk("no key")))?.map_err(|e| e2v(&wk("key"), e))?;
            if let Some(x) = fname_diff(&key, want) {
                bail!("{}", wk(&x));
            }
            let (node, i) = home[k];
            let nd = &dir.index.nodes[node];
            let sub = nd.ents[i].1;
            eq(|| wk("length"), e.index_entry_length(), nd.ent_len[i])?;
            eq(|| wk("key length"), e.key_length() as usize, 66 + 2 * want.name.len())?;
            flags(|| wk("flags"), e.flags().bits() as u64, sub.is_some() as u64, 3)?;
            flag_text(ctx, e.flags().to_string(), sub.is_some() as u64, &[(1, "HAS_SUBNODE"), (2, "LAST_ENTRY")])?;
            let vcn = e.subnode_vcn().transpose().map_err(|e| e2v(&wk("subnode"), e))?.map(|x| x.value());
            eq(|| wk("subnode"), vcn, sub.map(|s| dir.index.nodes[s].vcn as i64))?;
            eq(|| wk("record"), e.file_reference().file_record_number(), dir.refs[k] & 0xffff_ffff_ffff)?;
            eq(|| wk("sequence"), e.file_reference().sequence_number(), (dir.refs[k] >> 48) as u16)?;
            ctx.count("index_entries", 1);
            ctx.count("index_keys", 1);
        }
        ensure!(it.next(d).is_none(), "{}", w("the index yields more entries than stored"));
        if let Some(ta) = t.find(IDXALLOC, "$I30") {
            let i = walk::find_item(&f, d, IDXALLOC, &u16s("$I30")).map_err(|e| e2v("attributes", e))?.ok_or_else(|| Viol::from(w("no index allocation")))?;
            let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
            let al = a.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v(&w("index allocation"), e))?;
            let all = ta.all(&v.img);
            for nd in dir.index.nodes.iter().filter(|x| x.slot.is_some()).take(12) {
                let o = nd.slot.unwrap() as usize * v.geo.irs as usize;
                let rec = al.record_from_vcn(d, v.geo.irs, (nd.vcn as i64).into()).map_err(|e| e2v(&w("record_from_vcn"), e))?;
                let wk = |s: &str| w(&format!("index record {:#x}: {s}", nd.vcn));
                eq(|| wk("vcn"), rec.vcn().value(), nd.vcn as i64)?;
                eq(|| wk("data size"), rec.index_data_size(), le32(&all, o + 28))?;
                eq(|| wk("allocated size"), rec.index_allocated_size(), le32(&all, o + 32))?;
                eq(|| wk("subnodes"), rec.has_subnodes(), all[o + 36] & 1 != 0)?;
                let mut m = 0;
                for (e, len) in rec.entries::<NtfsFileNameIndex>().map_err(|e| e2v(&wk("entries"), e))?.zip(&nd.ent_len) {
                    let e = e.map_err(|e| e2v(&wk("entry"), e))?;
                    let last = m == nd.ents.len();
                    eq(|| wk("entry length"), e.index_entry_length(), *len)?;
                    let sub = if last { nd.end } else { nd.ents[m].1 };
                    flags(|| wk("entry flags"), e.flags().bits() as u64, sub.is_some() as u64 | (last as u64) << 1, 3)?;
                    eq(|| wk("key present"), e.key().is_some(), !last)?;
                    if last {
                        eq(|| wk("key length of the end entry"), e.key_length(), 0)?;
                    }
                    m += 1;
                }
                eq(|| wk("entries"), m, nd.ents.len() + 1)?;
                ctx.count("index_records", 1);
            }
        }
    }
    let _ = p;
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let v = build(&mut p);
    let (mut d, n) = open(&v.img)?;
    for t in v.files.values() {
        if t.rec == 10 && !p.chance(1, 10) {
            continue;
        }
        file(ctx, &mut p, &v, &n, &mut d, t)?;
    }
    let vf = &v.files[&3];
    let i = n.volume_info(&mut d);
    match vf.find(VOLINFO, "") {
        Some(t) => {
            let i = i.map_err(|e| e2v("volume_info", e))?;
            eq(|| "major version".into(), i.major_version(), t.bytes[8])?;
            eq(|| "minor version".into(), i.minor_version(), t.bytes[9])?;
            flags(|| "volume flags".into(), i.flags().bits() as u64, le16(&t.bytes, 10) as u64, mask(VOL_FLAGS))?;
            flag_text(ctx, i.flags().to_string(), le16(&t.bytes, 10) as u64, VOL_FLAGS)?;
            ctx.count("volume_infos", 1);
        }
        None => ensure!(matches!(i, Err(NtfsError::AttributeNotFound { ty: NtfsAttributeType::VolumeInformation, .. })), "volume_info of a volume without: {i:?}"),
    }
    match (n.volume_name(&mut d), vf.find(VOLNAME, "")) {
        (None, None) => ctx.count("no_volume_name", 1),
        (Some(x), Some(t)) => {
            let x = x.map_err(|e| e2v("volume_name", e))?;
            let want: Vec<u16> = t.bytes.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            eq(|| "volume name".into(), walk::units(&x.name()), want)?;
            eq(|| "volume name length".into(), x.name_length(), t.bytes.len())?;
            ctx.count("volume_names", 1);
        }
        (a, b) => bail!("volume name: reported {}, stored {}", a.is_some(), b.is_some()),
    }
    eq(|| "serial number".into(), n.serial_number(), v.geo.serial)?;
    ctx.sample(|| format!("{} files, {} directories, record size {}", v.files.len(), v.dirs.len(), v.geo.frs));
    Ok(())
}
