//! Small helpers of the demonstrations.
#![allow(dead_code, unused_imports)]
pub use ntfs::attribute_value::*;
pub use ntfs::indexes::*;
pub use ntfs::structured_values::*;
pub use ntfs::*;
pub use std::io::{Read, Seek, SeekFrom};
pub use std::sync::Arc;
pub use vmodel::disk::*;
pub use vmodel::gen::*;
pub use vmodel::image::*;
pub use vmodel::prng::*;
pub use vmodel::vol::*;

pub fn units(n: &nt_string::u16strle::U16StrLe) -> Vec<u16> {
    n.0.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}
pub fn find<'n, 'f, T: Read + Seek>(f: &'f NtfsFile<'n>, d: &mut T, ty: u32, name: &str) -> NtfsAttributeItem<'n, 'f> {
    let mut it = f.attributes();
    while let Some(i) = it.next(d) {
        let i = i.unwrap();
        let a = i.to_attribute().unwrap();
        if a.ty().unwrap() as u32 == ty && units(&a.name().unwrap()) == u16s(name) {
            drop(a);
            return i;
        }
    }
    panic!("attribute not found");
}
/// A small volume: geometry, number of record slots.
pub fn builder(seed: u64) -> Builder {
    Builder::new(Geo::simple(), Opts { nrec: 96, mft_max_runs: 3, pad: false, scatter: false, upcase: UpKind::Unicode, cross: false }, seed)
}
pub fn open(v: &Vol) -> (MonDisk, Ntfs) {
    let mut d = MonDisk::new(v.img.clone());
    let mut n = Ntfs::new(&mut d).unwrap();
    n.read_upcase_table(&mut d).unwrap();
    (d, n)
}
pub fn fail(why: impl std::fmt::Display) -> ! {
    println!("BROKEN: {why}");
    std::process::exit(1)
}
