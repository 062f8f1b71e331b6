//! Asks a `Probe` through the public API and renders the answer as text that does not depend on
//! the build (features, pointer width). Shared with the no_std and interpreter harnesses.
use binrw::io::{Read, Seek, SeekFrom};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::NtfsPosition;
use ntfs::*;
use nt_string::u16strle::U16StrLe;
use vmodel::probe::Probe;
use vmodel::prng::Digest;

pub type R<T> = core::result::Result<T, NtfsError>;
pub type Lines = Vec<String>;

pub fn units(n: &U16StrLe) -> Vec<u16> {
    n.0.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect()
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
}
pub fn name_hex(n: &[u16]) -> String {
    match String::from_utf16(n) {
        // (What Debug escapes depends on the Unicode version of the toolchain.)
        Ok(s) => format!("\"{}\"", s.escape_default()),
        _ => n.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(","),
    }
}
pub fn pos(p: NtfsPosition) -> String {
    match p.value() {
        Some(v) => format!("{:#x}", v.get()),
        None => "none".into(),
    }
}
pub fn bytes_desc(b: &[u8]) -> String {
    if b.len() <= 24 {
        hexs(b)
    } else {
        let mut d = Digest::default();
        d.b(b);
        format!("{}..#{:016x}", hexs(&b[..12]), d.0)
    }
}
/// Build-independent rendering of an error.
pub fn err(e: &NtfsError) -> String {
    match e {
        NtfsError::Io(e) => format!("Io({:?})", e.kind()),
        // What a usize of 32 bits cannot tell is the largest number there.
        NtfsError::InvalidIndexRootEntriesOffset { position, expected, actual } => format!("InvalidIndexRootEntriesOffset {} {} {actual}", pos(*position), (*expected).min(u32::MAX as usize)),
        NtfsError::InvalidIndexRootUsedSize { position, expected, actual } => format!("InvalidIndexRootUsedSize {} {} {actual}", pos(*position), (*expected).min(u32::MAX as usize)),
        e => format!("{e:?}"),
    }
}

fn nxt<T>(o: Option<R<T>>) -> R<Option<T>> {
    o.transpose()
}

pub fn find_item<'n, 'f, T: Read + Seek>(f: &'f NtfsFile<'n>, d: &mut T, ty: u32, name: &[u16]) -> R<Option<NtfsAttributeItem<'n, 'f>>> {
    let mut it = f.attributes();
    while let Some(i) = nxt(it.next(d))? {
        let hit = {
            let a = i.to_attribute()?;
            // An unknown type is an error of its own kind; look on.
            matches!(a.ty(), Ok(t) if t as u32 == ty) && units(&a.name()?) == name
        };
        if hit {
            return Ok(Some(i));
        }
    }
    Ok(None)
}

pub fn attr_line(a: &NtfsAttribute) -> String {
    let ty = match a.ty() {
        Ok(t) => format!("{:#x}", t as u32),
        Err(e) => err(&e),
    };
    let name = match a.name() {
        Ok(n) => name_hex(&units(&n)),
        Err(e) => err(&e),
    };
    format!(
        "attr ty={ty} name={name} nl={} flags={:#x} inst={} res={} alen={} vlen={} pos={}",
        a.name_length(),
        a.flags().bits(),
        a.instance(),
        a.is_resident(),
        a.attribute_length(),
        a.value_length(),
        pos(a.position())
    )
}
pub fn file_line(f: &NtfsFile) -> String {
    format!(
        "file rec={} seq={} pos={} alloc={} used={} flags={:#x} links={} dir={}",
        f.file_record_number(),
        f.sequence_number(),
        pos(f.position()),
        f.allocated_size(),
        f.data_size(),
        f.flags().bits(),
        f.hard_link_count(),
        f.is_directory()
    )
}
pub fn stdinfo_line(i: &NtfsStandardInformation) -> String {
    format!(
        "std c={} m={} r={} a={} attrs={:#x} maxver={:?} ver={:?} class={:?} owner={:?} sec={:?} quota={:?} usn={:?}",
        i.creation_time().nt_timestamp(),
        i.modification_time().nt_timestamp(),
        i.mft_record_modification_time().nt_timestamp(),
        i.access_time().nt_timestamp(),
        i.file_attributes().bits(),
        i.maximum_versions(),
        i.version(),
        i.class_id(),
        i.owner_id(),
        i.security_id(),
        i.quota_charged(),
        i.usn()
    )
}
pub fn fname_line(n: &NtfsFileName) -> String {
    format!(
        "name {} nl={} ns={:?} parent={}/{} c={} m={} r={} a={} alloc={} size={} attrs={:#x} dir={}",
        name_hex(&units(&n.name())),
        n.name_length(),
        n.namespace(),
        n.parent_directory_reference().file_record_number(),
        n.parent_directory_reference().sequence_number(),
        n.creation_time().nt_timestamp(),
        n.modification_time().nt_timestamp(),
        n.mft_record_modification_time().nt_timestamp(),
        n.access_time().nt_timestamp(),
        n.allocated_size(),
        n.data_size(),
        n.file_attributes().bits(),
        n.is_directory()
    )
}
pub fn entry_line(e: &NtfsIndexEntry<NtfsFileNameIndex>) -> R<String> {
    let r = e.file_reference();
    let key = match e.key() {
        None => "no key".into(),
        Some(k) => fname_line(&k?),
    };
    let sub = match e.subnode_vcn() {
        None => None,
        Some(v) => Some(v?.value()),
    };
    Ok(format!(
        "entry ref={}/{} flags={:#x} len={} klen={} pos={} sub={:?} {}",
        r.file_record_number(),
        r.sequence_number(),
        e.flags().bits(),
        e.index_entry_length(),
        e.key_length(),
        pos(e.position()),
        sub,
        key
    ))
}
pub fn value_kind(v: &NtfsAttributeValue) -> &'static str {
    match v {
        NtfsAttributeValue::Resident(_) => "resident",
        NtfsAttributeValue::NonResident(_) => "nonresident",
        NtfsAttributeValue::AttributeListNonResident(_) => "connected",
    }
}
/// Reads up to n bytes at off; stops at end of data.
pub fn read_at<T: Read + Seek>(v: &mut NtfsAttributeValue, d: &mut T, off: u64, n: usize) -> R<Vec<u8>> {
    v.seek(d, SeekFrom::Start(off))?;
    let mut b = vec![0u8; n];
    let mut g = 0;
    while g < n {
        match v.read(d, &mut b[g..]) {
            Ok(0) => break,
            Ok(k) => g += k,
            Err(NtfsError::Io(e)) if e.kind() == binrw::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
    b.truncate(g);
    Ok(b)
}

pub fn ask_volume(n: &Ntfs) -> String {
    format!(
        "volume cluster={} sector={} frs={} size={} serial={:#x} mft={}",
        n.cluster_size(),
        n.sector_size(),
        n.file_record_size(),
        n.size(),
        n.serial_number(),
        pos(n.mft_position())
    )
}

fn structured<T: Read + Seek>(a: &NtfsAttribute, d: &mut T, out: &mut Lines) -> R<()> {
    match a.ty()? {
        NtfsAttributeType::StandardInformation => {
            out.push(stdinfo_line(&a.structured_value::<_, NtfsStandardInformation>(d)?));
            out.push(stdinfo_line(&a.resident_structured_value::<NtfsStandardInformation>()?));
        }
        NtfsAttributeType::FileName => {
            out.push(fname_line(&a.structured_value::<_, NtfsFileName>(d)?));
        }
        NtfsAttributeType::ObjectId => {
            let o = a.structured_value::<_, NtfsObjectId>(d)?;
            out.push(format!(
                "objid {} {:?} {:?} {:?}",
                o.object_id(),
                o.birth_volume_id().map(|g| g.to_string()),
                o.birth_object_id().map(|g| g.to_string()),
                o.domain_id().map(|g| g.to_string())
            ));
        }
        NtfsAttributeType::VolumeName => {
            let o = a.structured_value::<_, NtfsVolumeName>(d)?;
            out.push(format!("volname {} {}", name_hex(&units(&o.name())), o.name_length()));
        }
        NtfsAttributeType::VolumeInformation => {
            let o = a.structured_value::<_, NtfsVolumeInformation>(d)?;
            out.push(format!("volinfo {}.{} {:#x}", o.major_version(), o.minor_version(), o.flags().bits()));
        }
        NtfsAttributeType::IndexRoot => {
            let o = a.resident_structured_value::<NtfsIndexRoot>()?;
            out.push(format!(
                "idxroot alloc={} data={} irs={} large={} pos={}",
                o.index_allocated_size(),
                o.index_data_size(),
                o.index_record_size(),
                o.is_large_index(),
                pos(o.position())
            ));
            if units(&a.name()?) == "$I30".encode_utf16().collect::<Vec<_>>() {
                for e in o.entries::<NtfsFileNameIndex>()? {
                    out.push(entry_line(&e?)?);
                }
            }
        }
        _ => out.push("plain".into()),
    }
    Ok(())
}

pub fn ask<T: Read + Seek>(n: &Ntfs, d: &mut T, p: &Probe) -> R<Lines> {
    let mut out = vec![];
    match p {
        Probe::Volume => out.push(ask_volume(n)),
        Probe::Cmp(a, b) => {
            let x: Vec<u8> = a.iter().flat_map(|c| c.to_le_bytes()).collect();
            let y: Vec<u8> = b.encode_utf16().flat_map(|c| c.to_le_bytes()).collect();
            let (x, y, s) = (U16StrLe(&x), U16StrLe(&y), b.as_str());
            out.push(format!("cmp {:?} {:?} {:?} {:?}", x.upcase_cmp(n, &y), y.upcase_cmp(n, &x), x.upcase_cmp(n, &s), s.upcase_cmp(n, &x)));
        }
        Probe::VolInfo => {
            let o = n.volume_info(d)?;
            out.push(format!("volinfo {}.{} {:#x}", o.major_version(), o.minor_version(), o.flags().bits()));
        }
        Probe::VolName => match n.volume_name(d) {
            None => out.push("no volume name".into()),
            Some(o) => {
                let o = o?;
                out.push(format!("volname {} {}", name_hex(&units(&o.name())), o.name_length()));
            }
        },
        Probe::Root => out.push(file_line(&n.root_directory(d)?)),
        Probe::File(r) => out.push(file_line(&n.file(d, *r)?)),
        Probe::Attrs(r) => {
            let f = n.file(d, *r)?;
            let mut it = f.attributes();
            while let Some(i) = nxt(it.next(d))? {
                let a = i.to_attribute()?;
                out.push(attr_line(&a));
                let v = a.value(d)?;
                out.push(format!("value {} len={} pos={}", value_kind(&v), v.len(), pos(v.data_position())));
            }
        }
        Probe::RawAttrs(r) => {
            let f = n.file(d, *r)?;
            for a in f.attributes_raw() {
                let a = a?;
                out.push(attr_line(&a));
                let v = a.value(d)?;
                out.push(format!("value {} len={} pos={}", value_kind(&v), v.len(), pos(v.data_position())));
            }
        }
        Probe::List(r) => {
            let f = n.file(d, *r)?;
            for a in f.attributes_raw() {
                let a = a?;
                if a.ty()? != NtfsAttributeType::AttributeList {
                    continue;
                }
                let l = a.structured_value::<_, NtfsAttributeList>(d)?;
                out.push(format!("list pos={}", pos(l.position())));
                let mut it = l.entries();
                while let Some(e) = nxt(it.next(d))? {
                    let rf = e.base_file_reference();
                    out.push(format!(
                        "le ty={:#x} name={} nl={} len={} vcn={} inst={} ref={}/{} pos={}",
                        e.ty()? as u32,
                        name_hex(&units(&e.name())),
                        e.name_length(),
                        e.list_entry_length(),
                        e.lowest_vcn().value(),
                        e.instance(),
                        rf.file_record_number(),
                        rf.sequence_number(),
                        pos(e.position())
                    ));
                    if rf.file_record_number() == *r {
                        out.push(attr_line(&e.to_attribute(&f)?));
                    } else {
                        let ef = e.to_file(n, d)?;
                        out.push(file_line(&ef));
                        out.push(attr_line(&e.to_attribute(&ef)?));
                    }
                }
            }
        }
        Probe::Info(r) => {
            let f = n.file(d, *r)?;
            out.push(stdinfo_line(&f.info()?));
        }
        Probe::Name(r, ns, parent) => {
            let f = n.file(d, *r)?;
            let ns = ns.map(|x| match x {
                0 => NtfsFileNamespace::Posix,
                1 => NtfsFileNamespace::Win32,
                2 => NtfsFileNamespace::Dos,
                _ => NtfsFileNamespace::Win32AndDos,
            });
            match f.name(d, ns, *parent) {
                None => out.push("no name".into()),
                Some(x) => out.push(fname_line(&x?)),
            }
        }
        Probe::Read(r, ty, name, off, len) => {
            let f = n.file(d, *r)?;
            match find_item(&f, d, *ty, name)? {
                None => out.push("no attribute".into()),
                Some(i) => {
                    let a = i.to_attribute()?;
                    let mut v = a.value(d)?;
                    let p0 = pos(v.data_position());
                    let b = read_at(&mut v, d, *off, *len as usize)?;
                    out.push(format!("read {} bytes {} at={} start={} end={}", b.len(), bytes_desc(&b), v.stream_position(), p0, pos(v.data_position())));
                }
            }
        }
        Probe::Attach(r, ty, name, off, len) => {
            let f = n.file(d, *r)?;
            match find_item(&f, d, *ty, name)? {
                None => out.push("no attribute".into()),
                Some(i) => {
                    let a = i.to_attribute()?;
                    let mut v = a.value(d)?.attach(d);
                    let at = v.seek(SeekFrom::Start(*off))?;
                    let mut b = vec![0u8; *len as usize];
                    let mut g = 0;
                    while g < b.len() {
                        match v.read(&mut b[g..]) {
                            Ok(0) => break,
                            Ok(k) => g += k,
                            Err(e) if e.kind() == binrw::io::ErrorKind::Interrupted => {}
                            Err(e) => return Err(e.into()),
                        }
                    }
                    let now = v.seek(SeekFrom::Current(0))?;
                    out.push(format!("attached read {g} bytes {} from={at} now={now} len={} empty={} end={}", bytes_desc(&b[..g]), v.len(), v.is_empty(), pos(v.data_position())));
                    // As the standard does it: until the buffer is full or an error.
                    v.seek(SeekFrom::Start(*off / 2))?;
                    let mut c = vec![0u8; v.len().saturating_sub(*off / 2).min(*len as u64).min(64) as usize];
                    v.read_exact(&mut c)?;
                    out.push(bytes_desc(&c));
                    let v = v.detach();
                    out.push(format!("detached at {}", v.stream_position()));
                }
            }
        }
        Probe::Attached(r) => {
            let f = n.file(d, *r)?;
            for i in f.attributes().attach(d) {
                out.push(attr_line(&i?.to_attribute()?));
            }
            let i30: Vec<u16> = "$I30".encode_utf16().collect();
            if let (Some(rt), Some(al)) = (find_item(&f, d, 0x90, &i30)?, find_item(&f, d, 0xA0, &i30)?) {
                let irs = rt.to_attribute()?.resident_structured_value::<NtfsIndexRoot>()?.index_record_size();
                let a = al.to_attribute()?;
                let al = a.structured_value::<_, NtfsIndexAllocation>(d)?;
                for r in al.records(irs).attach(d).take(40) {
                    match r {
                        Err(NtfsError::InvalidIndexSignature { .. }) => break,
                        r => out.push(format!("rec vcn={}", r?.vcn().value())),
                    }
                }
            }
        }
        Probe::Runs(r, ty, name) => {
            let f = n.file(d, *r)?;
            match find_item(&f, d, *ty, name)? {
                None => out.push("no attribute".into()),
                Some(i) => {
                    let a = i.to_attribute()?;
                    if let NtfsAttributeValue::NonResident(v) = a.value(d)? {
                        for r in v.data_runs() {
                            let r = r?;
                            out.push(format!("run len={} pos={}", r.allocated_size(), pos(r.data_position())));
                        }
                    } else {
                        out.push("connected".into());
                    }
                }
            }
        }
        Probe::Struct(r, ty, name) => {
            let f = n.file(d, *r)?;
            match find_item(&f, d, *ty, name)? {
                None => out.push("no attribute".into()),
                Some(i) => structured(&i.to_attribute()?, d, &mut out)?,
            }
        }
        Probe::Data(r, s) => {
            let f = n.file(d, *r)?;
            match f.data(d, s) {
                None => out.push("no stream".into()),
                Some(i) => {
                    let i = i?;
                    let a = i.to_attribute()?;
                    out.push(attr_line(&a));
                    let mut v = a.value(d)?;
                    let b = read_at(&mut v, d, 0, 64)?;
                    out.push(bytes_desc(&b));
                }
            }
        }
        Probe::Dir(r) => {
            let f = n.file(d, *r)?;
            let ix = f.directory_index(d)?;
            let mut it = ix.entries();
            while let Some(e) = nxt(it.next(d))? {
                out.push(entry_line(&e)?);
            }
        }
        Probe::DirRaw(r) => {
            let f = n.file(d, *r)?;
            let i30: Vec<u16> = "$I30".encode_utf16().collect();
            let irs = match find_item(&f, d, 0x90, &i30)? {
                None => {
                    out.push("no index root".into());
                    return Ok(out);
                }
                Some(i) => i.to_attribute()?.resident_structured_value::<NtfsIndexRoot>()?.index_record_size(),
            };
            if let Some(i) = find_item(&f, d, 0xA0, &i30)? {
                let a = i.to_attribute()?;
                let al = a.structured_value::<_, NtfsIndexAllocation>(d)?;
                let mut it = al.records(irs);
                let mut left = 200;
                loop {
                    let r = match it.next(d) {
                        None => break,
                        // Unused records need not be valid, and the iterator stays at them.
                        Some(Err(NtfsError::InvalidIndexSignature { .. })) => {
                            out.push("stopped at a blank record".into());
                            break;
                        }
                        Some(r) => r?,
                    };
                    out.push(format!("rec vcn={} sub={} alloc={} data={}", r.vcn().value(), r.has_subnodes(), r.index_allocated_size(), r.index_data_size()));
                    for e in r.entries::<NtfsFileNameIndex>()? {
                        out.push(entry_line(&e?)?);
                    }
                    let again = al.record_from_vcn(d, irs, r.vcn())?;
                    out.push(format!("again vcn={} data={}", again.vcn().value(), again.index_data_size()));
                    left -= 1;
                    if left == 0 {
                        break;
                    }
                }
            }
        }
        Probe::Find(r, s) | Probe::Open(r, s) => {
            let f = n.file(d, *r)?;
            let ix = f.directory_index(d)?;
            let mut fi = ix.finder();
            match NtfsFileNameIndex::find(&mut fi, n, d, s) {
                None => out.push("not found".into()),
                Some(e) => {
                    let e = e?;
                    out.push(entry_line(&e)?);
                    if let Probe::Open(..) = p {
                        out.push(file_line(&e.to_file(n, d)?));
                    }
                }
            }
        }
    }
    Ok(out)
}

/// One answer as text.
pub fn render(r: &R<Lines>) -> String {
    match r {
        Ok(l) => l.join("\n"),
        Err(e) => format!("ERR {}", err(e)),
    }
}
