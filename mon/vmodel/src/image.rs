//! Sparse volume image with lazily computed contents.
//!
//! Three layers, top wins: explicitly written pages; "extents" whose bytes are a function of
//! (content seed, offset in the stream); a position-dependent poison pattern everywhere else, so
//! that a byte fetched from the wrong place is recognisable.
use crate::prng::mix;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};

pub const PAGE: u64 = 4096;

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = mix(v);
    }
}
type Pages = HashMap<u64, Box<[u8; PAGE as usize]>, BuildHasherDefault<IdHasher>>;

#[derive(Clone, Debug)]
pub struct Extent {
    pub len: u64,
    pub seed: u64,
    pub stream_off: u64,
}

#[derive(Clone)]
pub struct Image {
    pages: Pages,
    extents: BTreeMap<u64, Extent>,
    pub size: u64,
    pub poison: u64,
}

#[inline]
fn word(seed: u64, idx: u64) -> u64 {
    mix(seed.wrapping_add(idx.wrapping_mul(0x9e37_79b9_7f4a_7c15)))
}

/// The bytes at `off..off+buf.len()` of the pseudo-random stream `seed`. Never all zero in practice.
pub fn content(seed: u64, off: u64, buf: &mut [u8]) {
    let mut i = 0usize;
    while i < buf.len() {
        let o = off.wrapping_add(i as u64);
        let w = word(seed, o / 8).to_le_bytes();
        let s = (o % 8) as usize;
        let n = usize::min(8 - s, buf.len() - i);
        buf[i..i + n].copy_from_slice(&w[s..s + n]);
        i += n;
    }
}

impl Image {
    pub fn new(size: u64, poison: u64) -> Self {
        Image { pages: Pages::default(), extents: BTreeMap::new(), size, poison }
    }
    /// Raw materialised image (for real test data).
    pub fn from_bytes(data: &[u8]) -> Self {
        let mut i = Image::new(data.len() as u64, 0);
        i.write(0, data);
        i
    }
    pub fn add_extent(&mut self, pos: u64, len: u64, seed: u64, stream_off: u64) {
        if len > 0 {
            self.extents.insert(pos, Extent { len, seed, stream_off });
        }
    }
    fn below_pages(&self, pos: u64, buf: &mut [u8]) {
        content(self.poison, pos, buf);
        let end = pos + buf.len() as u64;
        // Extents never overlap; look at the one starting at or before pos, and those inside.
        let first = self.extents.range(..=pos).next_back().map(|(k, _)| *k).unwrap_or(pos);
        for (&s, e) in self.extents.range(first..end) {
            let a = u64::max(s, pos);
            let b = u64::min(s + e.len, end);
            if a < b {
                content(
                    e.seed,
                    e.stream_off + (a - s),
                    &mut buf[(a - pos) as usize..(b - pos) as usize],
                );
            }
        }
    }
    /// Reads without regard to `size`.
    pub fn read(&self, pos: u64, buf: &mut [u8]) {
        let mut i = 0usize;
        while i < buf.len() {
            let p = pos + i as u64;
            let off = (p % PAGE) as usize;
            let n = usize::min(PAGE as usize - off, buf.len() - i);
            match self.pages.get(&(p / PAGE)) {
                Some(pg) => buf[i..i + n].copy_from_slice(&pg[off..off + n]),
                None => self.below_pages(p, &mut buf[i..i + n]),
            }
            i += n;
        }
    }
    pub fn get(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.read(pos, &mut v);
        v
    }
    pub fn write(&mut self, pos: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let p = pos + i as u64;
            let off = (p % PAGE) as usize;
            let n = usize::min(PAGE as usize - off, data.len() - i);
            if !self.pages.contains_key(&(p / PAGE)) {
                let mut pg = Box::new([0u8; PAGE as usize]);
                self.below_pages(p / PAGE * PAGE, &mut pg[..]);
                self.pages.insert(p / PAGE, pg);
            }
            self.pages.get_mut(&(p / PAGE)).unwrap()[off..off + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
    }
    pub fn explicit_pages(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.pages.keys().copied().collect();
        v.sort_unstable();
        v
    }
    pub fn extents(&self) -> Vec<(u64, Extent)> {
        self.extents.iter().map(|(k, e)| (*k, e.clone())).collect()
    }
    pub fn set_page(&mut self, k: u64, b: &[u8]) {
        let mut pg = Box::new([0u8; PAGE as usize]);
        pg.copy_from_slice(b);
        self.pages.insert(k, pg);
    }
    pub fn set_poison(&mut self, poison: u64) {
        self.poison = poison;
    }
}
