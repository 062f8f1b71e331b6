//! Hostile volumes: mutations of well-formed ones, mostly of single fields with the protection of
//! the records kept valid, so that they get past the first checks.
use crate::image::Image;
use crate::prng::*;
use crate::vol::*;

pub type Pieces = Vec<(u64, Vec<u8>)>;

/// A protected record: its logical bytes and where each of them is stored.
#[derive(Clone)]
pub struct Rec {
    pub bytes: Vec<u8>,
    pub place: Vec<u64>,
}
impl Rec {
    pub fn new(raw: Vec<u8>, at: impl Fn(u64) -> u64) -> Rec {
        let mut bytes = raw;
        let mut place: Vec<u64> = (0..bytes.len() as u64).map(at).collect();
        let uo = u16::from_le_bytes([bytes[4], bytes[5]]) as usize;
        let n = u16::from_le_bytes([bytes[6], bytes[7]]) as usize;
        for k in 1..n {
            for j in 0..2 {
                bytes[k * 512 - 2 + j] = bytes[uo + 2 * k + j];
                place[k * 512 - 2 + j] = place[uo + 2 * k + j];
            }
        }
        Rec { bytes, place }
    }
    pub fn file(v: &Vol, rec: u64) -> Rec {
        Rec::new(v.rec_raw(rec), |k| v.rec_pos_at(rec, k).unwrap())
    }
    pub fn index(v: &Vol, al: &TAttr, slot: u64, irs: u32) -> Rec {
        let mut b = vec![0; irs as usize];
        al.expect(&v.img, slot * irs as u64, &mut b);
        Rec::new(b, |k| al.disk_pos(slot * irs as u64 + k).unwrap())
    }
    pub fn put(&self, off: usize, b: &[u8]) -> Pieces {
        b.iter().enumerate().map(|(k, x)| (self.place[off + k], vec![*x])).collect()
    }
    pub fn u16(&self, o: usize) -> usize {
        u16::from_le_bytes([self.bytes[o], self.bytes[o + 1]]) as usize
    }
    pub fn u32(&self, o: usize) -> usize {
        u32::from_le_bytes(self.bytes[o..o + 4].try_into().unwrap()) as usize
    }
    /// Where the record is stored, and where it would be if it were contiguous.
    pub fn region(&self) -> Vec<(u64, u64)> {
        let mut v = vec![(self.place[0], self.place[0] + self.bytes.len() as u64)];
        let mut k = 0;
        while k < self.bytes.len() {
            v.push((self.place[k], self.place[k] + 510));
            k += 512;
        }
        v
    }
    /// All attributes: offset, length.
    pub fn attrs(&self) -> Vec<(usize, usize)> {
        let mut o = self.u16(20);
        let mut v = vec![];
        while self.u32(o) != 0xffff_ffff {
            let l = self.u32(o + 4);
            v.push((o, l));
            o += l;
        }
        v
    }
}

/// A piece of metadata, the place of every byte on the device, and its fields.
pub struct Area {
    pub r: Rec,
    pub fields: Vec<(usize, usize)>,
    /// Attributes of a file record: offset, length.
    pub attrs: Vec<(usize, usize)>,
    /// Run lists: offset, room.
    pub runs: Vec<(usize, usize)>,
    /// Index entries or list entries: offset, length.
    pub ents: Vec<(usize, usize)>,
    /// VCNs of children.
    pub children: Vec<usize>,
    /// Containers of attributes or entries that follow each other: the place of their end (width
    /// of the field, what counts as 0), and where the first begins.
    pub ends: Vec<End>,
}
#[derive(Clone, Copy)]
pub struct End {
    pub field: usize,
    pub base: usize,
    pub first: usize,
    /// Where the length of an item is, and its width.
    pub len: (usize, usize),
    /// The container may end here at the latest.
    pub room: usize,
}
pub struct Hostile<'v> {
    pub v: &'v Vol,
    pub areas: Vec<Area>,
    pub vcns: Vec<u64>,
    pub lcns: Vec<u64>,
    pub recs: Vec<u64>,
    /// Areas with runs, with entries, with attributes.
    with_runs: Vec<usize>,
    with_ents: Vec<usize>,
    with_attrs: Vec<usize>,
    with_children: Vec<usize>,
}

fn index_node(a: &mut Area, hdr: usize, room: usize) {
    let first = hdr + a.r.u32(hdr);
    a.ends.push(End { field: hdr + 4, base: hdr, first, len: (8, 2), room });
    for o in [0, 4, 8] {
        a.fields.push((hdr + o, 4));
    }
    a.fields.push((hdr + 12, 1));
    let mut o = hdr + a.r.u32(hdr);
    while o + 16 <= a.r.bytes.len() {
        let l = a.r.u16(o + 8);
        a.ents.push((o, l));
        a.fields.extend([(o, 8), (o + 8, 2), (o + 10, 2), (o + 12, 1)]);
        if a.r.bytes[o + 12] & 1 != 0 {
            a.fields.push((o + l - 8, 8));
            a.children.push(o + l - 8);
        }
        if a.r.bytes[o + 12] & 2 != 0 {
            break;
        }
        if l > 16 + 66 {
            a.fields.extend([(o + 16, 8), (o + 16 + 64, 1), (o + 16 + 65, 1), (o + 16 + 66, 2)]);
        }
        o += l.max(16);
    }
}
fn list_fields(a: &mut Area, start: usize, end: usize) {
    let mut o = start;
    while o + 26 <= end {
        a.fields.extend([(o, 4), (o + 4, 2), (o + 6, 1), (o + 7, 1), (o + 8, 8), (o + 16, 8), (o + 24, 2)]);
        let l = a.r.u16(o + 4);
        a.ents.push((o, l));
        o += l.max(26);
    }
}

impl<'v> Hostile<'v> {
    pub fn new(v: &'v Vol) -> Hostile<'v> {
        let mut areas = vec![];
        let mut recs = vec![];
        for (b, f) in &v.files {
            for r in std::iter::once(b).chain(&f.ext) {
                recs.push(*r);
                areas.push(Self::file_area(Rec::file(v, *r)));
            }
            if let Some(t) = &f.list {
                if !t.resident {
                    let mut b = vec![0; t.data_size as usize];
                    t.expect(&v.img, 0, &mut b);
                    let place: Vec<u64> = (0..t.data_size).map(|k| t.disk_pos(k).unwrap_or(0)).collect();
                    let mut a = Area { r: Rec { bytes: b, place }, fields: vec![], attrs: vec![], runs: vec![], ents: vec![], children: vec![], ends: vec![] };
                    let n = a.r.bytes.len();
                    list_fields(&mut a, 0, n);
                    areas.push(a);
                }
            }
        }
        let mut vcns = vec![];
        for d in v.dirs.values() {
            let Some(al) = v.files[&d.rec].find(IDXALLOC, "$I30") else { continue };
            for n in &d.index.nodes {
                let Some(s) = n.slot else { continue };
                vcns.push(n.vcn);
                let mut a = Area { r: Rec::index(v, al, s, d.index.irs), fields: vec![(0, 4), (4, 2), (6, 2), (8, 8), (16, 8)], attrs: vec![], runs: vec![], ents: vec![], children: vec![], ends: vec![] };
                let room = a.r.bytes.len();
                index_node(&mut a, 24, room);
                areas.push(a);
            }
        }
        let mut lcns: Vec<u64> = vec![0, v.img.size / v.geo.cluster as u64];
        for f in v.files.values() {
            for t in &f.attrs {
                lcns.extend(t.segs.iter().filter_map(|s| s.disk.map(|d| d / v.geo.cluster as u64)));
            }
        }
        let with = |f: &dyn Fn(&Area) -> bool| (0..areas.len()).filter(|k| f(&areas[*k])).collect::<Vec<_>>();
        let (with_runs, with_ents, with_attrs, with_children) = (with(&|a| !a.runs.is_empty()), with(&|a| a.ents.len() > 1), with(&|a| !a.attrs.is_empty()), with(&|a| !a.children.is_empty()));
        Hostile { v, areas, vcns, lcns, recs, with_runs, with_ents, with_attrs, with_children }
    }
    fn file_area(r: Rec) -> Area {
        let attrs = r.attrs();
        let (first, room) = (r.u16(20), r.bytes.len());
        let ends = vec![End { field: 24, base: 0, first, len: (4, 4), room }];
        let mut a = Area { r, fields: vec![], attrs, runs: vec![], ents: vec![], children: vec![], ends };
        for (o, w) in [(0, 4), (4, 2), (6, 2), (16, 2), (18, 2), (20, 2), (22, 2), (24, 4), (28, 4), (32, 8), (40, 2), (44, 4)] {
            a.fields.push((o, w));
        }
        for (o, l) in a.attrs.clone() {
            for (k, w) in [(0, 4), (4, 4), (8, 1), (9, 1), (10, 2), (12, 2), (14, 2)] {
                a.fields.push((o + k, w));
            }
            let ty = a.r.u32(o) as u32;
            if a.r.bytes[o + 8] == 0 {
                a.fields.extend([(o + 16, 4), (o + 20, 2)]);
                let (vl, vo) = (a.r.u32(o + 16), o + a.r.u16(o + 20));
                match ty {
                    FILENAME if vl >= 66 => a.fields.extend([(vo, 8), (vo + 40, 8), (vo + 64, 1), (vo + 65, 1), (vo + 66, 2)]),
                    STDINFO => a.fields.extend([(vo, 8), (vo + 32, 4)]),
                    IDXROOT => {
                        a.fields.extend([(vo, 4), (vo + 4, 4), (vo + 8, 4), (vo + 12, 1)]);
                        index_node(&mut a, vo + 16, vo + vl);
                    }
                    ATTRLIST => {
                        a.ends.push(End { field: o + 16, base: vo, first: vo, len: (4, 2), room: vo + vl });
                        list_fields(&mut a, vo, vo + vl)
                    }
                    _ => {}
                }
            } else {
                a.fields.extend([(o + 16, 8), (o + 24, 8), (o + 32, 2), (o + 34, 2), (o + 40, 8), (o + 48, 8), (o + 56, 8)]);
                let ro = o + a.r.u16(o + 32);
                a.runs.push((ro, o + l - ro));
                for k in 0..(l - (ro - o)).min(24) {
                    a.fields.push((ro + k, 1));
                }
            }
        }
        a
    }

    fn hostile_num(&self, p: &mut Prng, w: usize, old: u64, len: u64) -> u64 {
        let max = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
        let x = match p.below(14) {
            0 => 0,
            1 => max,
            2 => max >> 1,
            3 => (max >> 1) + 1,
            4 => old.wrapping_add(1),
            5 => old.wrapping_sub(1),
            6 => old ^ (1 << p.below(8 * w as u64)),
            7 => len.wrapping_sub(p.below(40)),
            8 => len.wrapping_add(p.below(9)),
            9 => p.skewed(8 * w as u32),
            11 | 12 => p.below(len.max(1)),
            13 => max - 1,
            10 => max - p.skewed(8 * w as u32).min(max),
            _ => old.wrapping_add(8).wrapping_sub(p.below(17)),
        };
        x & max
    }
    fn put(&self, a: &Area, o: usize, b: &[u8]) -> Pieces {
        let n = b.len().min(a.r.bytes.len().saturating_sub(o));
        a.r.put(o, &b[..n])
    }

    /// One mutation, as bytes to write.
    pub fn mutate(&self, p: &mut Prng) -> Pieces {
        let any = p.usize(0, self.areas.len() - 1);
        match p.below(23) {
            20 | 21 => self.tail(p),
            22 => self.wrap(p),
            0..=8 => {
                let a = &self.areas[any];
                if a.fields.is_empty() {
                    return vec![];
                }
                let (o, w) = *p.pick(&a.fields);
                if o + w > a.r.bytes.len() {
                    return vec![];
                }
                let mut x = [0; 8];
                x[..w].copy_from_slice(&a.r.bytes[o..o + w]);
                let y = self.hostile_num(p, w, u64::from_le_bytes(x), a.r.bytes.len() as u64);
                self.put(a, o, &y.to_le_bytes()[..w])
            }
            // Any bytes of a record, its protection kept.
            9 => {
                let a = &self.areas[any];
                let n = p.range(1, 4) as usize;
                let o = p.usize(0, a.r.bytes.len() - 1);
                let b = p.bytes(n);
                self.put(a, o, &b)
            }
            // Raw bytes, protection or not.
            10 => {
                let a = &self.areas[any];
                let o = p.usize(0, a.r.place.len() - 1);
                vec![(a.r.place[o], vec![p.u64() as u8])]
            }
            11..=12 if !self.with_runs.is_empty() => {
                let a = &self.areas[*p.pick(&self.with_runs)];
                let (o, room) = *p.pick(&a.runs);
                let b = self.run_list(p, room);
                self.put(a, o, &b)
            }
            // An entry in the place of another.
            13 if !self.with_ents.is_empty() => {
                let a = &self.areas[*p.pick(&self.with_ents)];
                let b = &self.areas[*p.pick(&self.with_ents)];
                let (o, l) = *p.pick(&a.ents);
                let (s, n) = *p.pick(&b.ents);
                let n = n.min(if p.chance(3, 4) { l } else { n }).min(b.r.bytes.len() - s);
                let b = b.r.bytes[s..s + n].to_vec();
                self.put(a, o, &b)
            }
            // An attribute in the place of another.
            14 if !self.with_attrs.is_empty() => {
                let a = &self.areas[*p.pick(&self.with_attrs)];
                let b = &self.areas[*p.pick(&self.with_attrs)];
                let ((o, l), (s, n)) = (*p.pick(&a.attrs), *p.pick(&b.attrs));
                let mut x = b.r.bytes[s..(s + n).min(b.r.bytes.len())].to_vec();
                if n <= l {
                    x[4..8].copy_from_slice(&(l as u32).to_le_bytes());
                }
                self.put(a, o, &x)
            }
            // A record in the place of another.
            15 => {
                let (a, b) = (&self.areas[any], p.pick(&self.areas));
                let x = b.r.bytes.clone();
                let mut out = self.put(a, 0, &x);
                // With the place's own update sequence, mostly.
                if p.chance(4, 5) && a.r.bytes.len() >= 8 {
                    let uo = a.r.u16(4);
                    if uo + 2 <= a.r.bytes.len() && &a.r.bytes[..4] == b"FILE" {
                        out.extend(self.put(a, 4, &a.r.bytes[4..8]));
                    }
                }
                out
            }
            // A child that is another node.
            16 if !self.with_children.is_empty() && !self.vcns.is_empty() => {
                let a = &self.areas[*p.pick(&self.with_children)];
                let x = *p.pick(&self.vcns);
                self.put(a, *p.pick(&a.children), &x.to_le_bytes())
            }
            // A list entry that refers elsewhere.
            17 => {
                let lists: Vec<&Area> = self.areas.iter().filter(|a| a.children.is_empty() && !a.ents.is_empty()).collect();
                if lists.is_empty() {
                    return vec![];
                }
                let a = *p.pick(&lists);
                let (o, _) = *p.pick(&a.ents);
                let r = *p.pick(&self.recs);
                self.put(a, o + 16, &r.to_le_bytes()[..6])
            }
            // Large records, the update sequence at the end of what its offset can say.
            18 if p.chance(1, 6) => {
                let n = 65536 / self.v.geo.cluster as u64;
                let mut out = vec![(64, vec![n.clamp(1, 127) as u8])];
                let start = u64::from_le_bytes(self.v.img.get(48, 8).try_into().unwrap()).wrapping_mul(self.v.geo.cluster as u64);
                let uo = 0xffff - *p.pick(&[1u16, 1, 1, 0, 2, 3, 5]);
                out.push((start + 4, [uo.to_le_bytes(), [1 + p.below(3) as u8, 0]].concat()));
                out
            }
            18 => {
                let (o, w) = *p.pick(&[(11u64, 2usize), (13, 1), (14, 2), (19, 2), (32, 4), (40, 8), (48, 8), (56, 8), (64, 1), (68, 1), (0x1fe, 2), (3, 8)]);
                let mut x = [0; 8];
                x[..w].copy_from_slice(&self.v.img.get(o, w));
                let y = self.hostile_num(p, w, u64::from_le_bytes(x), 4096);
                vec![(o, y.to_le_bytes()[..w].to_vec())]
            }
            // Sizes of values.
            _ => {
                let a = &self.areas[any];
                let non: Vec<usize> = a.attrs.iter().filter(|(o, _)| a.r.bytes[o + 8] != 0).map(|x| x.0).collect();
                if non.is_empty() {
                    return vec![];
                }
                let o = *p.pick(&non);
                let x = match p.below(4) {
                    0 => u64::MAX - p.skewed(30),
                    1 => i64::MAX as u64 - p.skewed(30),
                    2 => 1 << p.range(10, 63),
                    _ => p.skewed(50),
                };
                let mut out = vec![];
                for k in [40, 48, 56] {
                    if p.chance(2, 3) {
                        out.extend(self.put(a, o + k, &x.to_le_bytes()));
                    }
                }
                out
            }
        }
    }

    /// A number that is different, or that leads back, in arithmetic of 32 bits (or less).
    pub fn wrap(&self, p: &mut Prng) -> Pieces {
        let a = &self.areas[p.usize(0, self.areas.len() - 1)];
        let f: Vec<(usize, usize)> = a.fields.iter().copied().filter(|f| f.1 >= 4 && f.0 + f.1 <= a.r.bytes.len()).collect();
        if f.is_empty() {
            return vec![];
        }
        let (o, w) = *p.pick(&f);
        let mut x = [0; 8];
        x[..w].copy_from_slice(&a.r.bytes[o..o + w]);
        let x = u64::from_le_bytes(x);
        let back = match p.below(3) {
            0 => p.range(0, 32),
            1 => 8 * p.range(1, 16),
            _ => p.skewed(12),
        };
        let y = match p.below(if w == 8 { 6 } else { 3 }) {
            0 | 1 => 0u64.wrapping_sub(back),
            2 => (1 << 31) - p.range(0, 1) * back,
            3 => x.wrapping_add(p.range(1, 7) << 32),
            4 => (p.range(1, 3) << 32).wrapping_sub(back),
            _ => x ^ 1 << p.range(16, 63),
        };
        self.put(a, o, &y.to_le_bytes()[..w])
    }

    /// An item that ends where its container does, or beyond, and may be shorter than its header.
    fn tail(&self, p: &mut Prng) -> Pieces {
        let a = &self.areas[p.usize(0, self.areas.len() - 1)];
        if a.ends.is_empty() {
            return vec![];
        }
        let e = *p.pick(&a.ends);
        // Items of this container.
        let mut at = vec![e.first];
        loop {
            let o = at[at.len() - 1];
            if o + 16 > e.room {
                break;
            }
            let l = if e.len.1 == 4 { a.r.u32(o + e.len.0) } else { a.r.u16(o + e.len.0) };
            if l < 8 || o + l + 16 > e.room || at.len() > 300 {
                break;
            }
            at.push(o + l);
        }
        let of = *p.pick(&at);
        let k = match p.below(4) {
            0 => p.below(30) as usize,
            1 => 8 * p.below(12) as usize,
            _ => p.below(100) as usize,
        };
        // Its end: of the container as it is made, which is mostly all there is room for.
        let end = if p.chance(2, 3) { e.room } else { (of + 8 + p.below(120) as usize).min(e.room) };
        let Some(start) = end.checked_sub(k).filter(|s| *s >= of) else { return vec![] };
        let mut b = a.r.clone();
        let set = |b: &mut Rec, o: usize, w: usize, x: usize| {
            if o + w <= b.bytes.len() {
                b.bytes[o..o + w].copy_from_slice(&(x as u64).to_le_bytes()[..w]);
            }
        };
        let mut item = a.r.bytes[of..(of + k).min(a.r.bytes.len())].to_vec();
        if start > of {
            set(&mut b, of + e.len.0, e.len.1, start - of);
        }
        item.truncate(end - start);
        b.bytes[start..start + item.len()].copy_from_slice(&item);
        if e.len.0 + e.len.1 <= k && p.chance(4, 5) {
            let l = match p.below(4) {
                0 => k + p.below(9) as usize,
                1 => p.below(k as u64 + 1) as usize,
                _ => k,
            };
            set(&mut b, start + e.len.0, e.len.1, l);
        }
        if p.chance(5, 6) {
            set(&mut b, e.field, 4, end - e.base);
        }
        let mut out = vec![];
        for k in 0..b.bytes.len() {
            if b.bytes[k] != a.r.bytes[k] {
                out.extend(a.r.put(k, &[b.bytes[k]]));
            }
        }
        out
    }

    /// Runs to anywhere, of any length.
    pub fn run_list(&self, p: &mut Prng, room: usize) -> Vec<u8> {
        let mut b = vec![];
        let mut at = 0i64;
        let tight = p.chance(1, 2);
        while b.len() < room {
            let top = (u64::MAX / self.v.geo.cluster as u64) as i64;
            let len = match p.below(7) {
                0 => 1 << p.below(63),
                1 => p.skewed(64),
                2 => (top as u64 >> p.below(3)).wrapping_add(p.below(3)).wrapping_sub(p.skewed(8)),
                _ => 1 + p.below(4),
            };
            let to = match p.below(10) {
                8 => top.wrapping_sub(p.skewed(16) as i64),
                9 => (top / 2).wrapping_add(p.skewed(6) as i64),
                0 => p.u64() as i64,
                1 => p.skewed(63) as i64,
                2 => i64::MAX - p.skewed(20) as i64,
                _ => *p.pick(&self.lcns) as i64,
            };
            let delta = to.wrapping_sub(at);
            at = to;
            let sparse = p.chance(1, 6);
            let need = |x: i64| (1..=8).find(|n| *n == 8 || (x >= -(1 << (8 * n - 1)) && x < 1 << (8 * n - 1))).unwrap();
            let ln = if tight { (1..=8).find(|n| *n == 8 || len < 1u64 << (8 * n)).unwrap() } else { 8 };
            let on = if sparse { 0 } else if tight { need(delta) } else { 8 };
            if b.len() + 1 + ln + on > room {
                break;
            }
            b.push((on << 4 | ln) as u8);
            b.extend(&len.to_le_bytes()[..ln]);
            b.extend(&delta.to_le_bytes()[..on]);
            if p.chance(1, 5) {
                break;
            }
        }
        if b.len() < room && p.chance(3, 4) {
            b.push(0);
        }
        b
    }
}

/// Writes the pieces and returns what was there.
pub fn apply(i: &mut Image, ps: &[(u64, Vec<u8>)]) -> Pieces {
    let mut undo = vec![];
    for (o, b) in ps {
        undo.push((*o, i.get(*o, b.len())));
        i.write(*o, b);
    }
    undo
}
pub fn undo(i: &mut Image, u: Pieces) {
    for (o, b) in u.into_iter().rev() {
        i.write(o, &b);
    }
}
