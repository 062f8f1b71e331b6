//! Helpers to drive the public API.
use crate::fw::Viol;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::*;
use std::io::{Read, Seek};
use std::sync::Arc;
use vmodel::disk::MonDisk;
use vmodel::image::Image;

pub fn e2v(what: &str, e: NtfsError) -> Viol {
    Viol::from(format!("{what}: unexpected error: {e} ({e:?})"))
}
pub fn open(img: &Arc<Image>) -> Result<(MonDisk, Ntfs), Viol> {
    let mut d = MonDisk::new(img.clone());
    let n = Ntfs::new(&mut d).map_err(|e| e2v("Ntfs::new", e))?;
    Ok((d, n))
}
pub fn name_units(n: &nt_string::u16strle::U16StrLe) -> Vec<u16> {
    n.0.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect()
}
/// Finds the item with this type and exact name.
pub fn find_item<'n, 'f, T: Read + Seek>(f: &'f NtfsFile<'n>, d: &mut T, ty: u32, name: &[u16]) -> Result<Option<NtfsAttributeItem<'n, 'f>>, NtfsError> {
    let mut it = f.attributes();
    while let Some(i) = it.next(d) {
        let i = i?;
        let hit = {
            let a = i.to_attribute()?;
            a.ty()? as u32 == ty && name_units(&a.name()?) == name
        };
        if hit {
            return Ok(Some(i));
        }
    }
    Ok(None)
}
/// Opens the value of an attribute and hands it to `f`.
pub fn with_value<R>(
    ntfs: &Ntfs,
    d: &mut MonDisk,
    rec: u64,
    ty: u32,
    name: &[u16],
    f: impl FnOnce(&mut MonDisk, NtfsAttributeValue, &NtfsAttribute) -> Result<R, Viol>,
) -> Result<R, Viol> {
    let file = ntfs.file(d, rec).map_err(|e| e2v(&format!("file({rec})"), e))?;
    let item = find_item(&file, d, ty, name)
        .map_err(|e| e2v("attributes", e))?
        .ok_or_else(|| Viol::from(format!("attribute {ty:#x} {:?} of record {rec} not found", String::from_utf16_lossy(name))))?;
    let attr = item.to_attribute().map_err(|e| e2v("to_attribute", e))?;
    let v = attr.value(d).map_err(|e| e2v("value", e))?;
    f(d, v, &attr)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().take(24).map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
}
/// First index where two equally long slices differ.
pub fn diff(a: &[u8], b: &[u8]) -> Option<usize> {
    if a == b {
        return None;
    }
    Some(a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())))
}
pub fn open_up(img: &Arc<Image>) -> Result<(MonDisk, Ntfs), Viol> {
    let (mut d, mut n) = open(img)?;
    n.read_upcase_table(&mut d).map_err(|e| e2v("read_upcase_table", e))?;
    d.reset_counts();
    Ok((d, n))
}
/// First differing line of two renderings.
pub fn text_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        let (l, r) = (x.get(i).copied().unwrap_or("<end>"), y.get(i).copied().unwrap_or("<end>"));
        if l != r {
            return format!("line {i}: got «{l}» expected «{r}» ({} vs {} lines)", x.len(), y.len());
        }
    }
    "equal".into()
}
