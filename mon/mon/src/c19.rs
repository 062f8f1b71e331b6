//! C19: iterators are fused, repeatable, and equal in every form.
use crate::c13::damage;
use crate::fw::*;
use crate::idx::{RawIdx, RawRefIdx};
use crate::util::*;
use crate::walk;
use ntfs::attribute_value::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::*;
use std::collections::BTreeMap;
use std::iter::FusedIterator;
use vmodel::disk::MonDisk;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C19",
    level: "exploration",
    rule: "case = random volume, in half of the cases with random damage in records and index nodes; for every iterator the library offers on it (flattened and raw attributes, list entries, data runs, root and node entries, index entries, index records) the item sequence (items and errors) of a fresh one is recorded, then a random program runs on a pool of iterators of the same thing: step, clone, start again, attach and take some through Iterator adaptors and detach again, drain, step on after the end; every item must be the one recorded for that place, the end must stay the end, size hints must hold, and counts must be those of the specification on undamaged volumes. Non-trivial: distinct program with a clone or a switch of form in the middle of the sequence",
    cases: (12_000, 400_000),
    secs: (60, 1200),
    run,
    need: &["attributes", "raw_attributes", "list_entries", "data_runs", "root_entries", "node_entries", "index_entries", "index_records", "clones", "attached_middle", "restarts", "after_end", "after_error", "adaptors", "exact_counts", "large_indexes"],
    assumptions: &["an iterator that met an error may give that error again, go on, or end; it only has to do the same in every form"],
    limits: (8_000_000_000, 2 << 30),
};

/// An iterator over one thing, in any form.
trait It: Clone {
    const NAME: &'static str;
    fn step(&mut self, d: &mut MonDisk) -> Option<String>;
    /// Attach (or use as `Iterator`), take `n` in some way, and come back. None if there is no such form.
    fn burst(self, _d: &mut MonDisk, _n: usize, _how: u64, _out: &mut Vec<Option<String>>) -> Option<Self> {
        None
    }
}
fn through<I: Iterator<Item = String> + FusedIterator>(it: &mut I, n: usize, how: u64, out: &mut Vec<Option<String>>) {
    match how % 5 {
        0 => out.extend((0..n).map(|_| it.next())),
        1 => {
            let v: Vec<String> = it.by_ref().take(n).collect();
            let k = v.len();
            out.extend(v.into_iter().map(Some));
            if k < n {
                out.push(None);
            }
        }
        2 => {
            let (lo, hi) = it.size_hint();
            let mut k = 0;
            while let Some(x) = it.next() {
                out.push(Some(x));
                k += 1;
                if k >= n {
                    return;
                }
            }
            out.push(None);
            if lo > k || hi.is_some_and(|h| h < k) {
                out.push(Some(format!("size hint {lo}..{hi:?} of {k} items")));
            }
        }
        3 => {
            // nth skips: the skipped ones are unknown to us, the item is not.
            for k in 0..n {
                let x = it.nth(0);
                let end = x.is_none();
                out.push(x);
                if end && k > 1 {
                    break;
                }
            }
        }
        _ => {
            for x in it.by_ref() {
                out.push(Some(x));
                if out.len() >= n {
                    return;
                }
            }
            out.push(None);
        }
    }
}
fn item(i: R<NtfsAttributeItem>) -> String {
    match i {
        Err(e) => walk::err(&e),
        Ok(i) => match i.to_attribute() {
            Ok(a) => walk::attr_line(&a),
            Err(e) => format!("item with {}", walk::err(&e)),
        },
    }
}
type R<T> = Result<T, NtfsError>;

/// Maps a `FusedIterator` of the library without changing what it is.
struct Map<I, F>(I, F);
impl<I: Iterator, F: Fn(I::Item) -> String> Iterator for Map<I, F> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        self.0.next().map(&self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<String> {
        self.0.nth(n).map(&self.1)
    }
}
impl<I: FusedIterator, F: Fn(I::Item) -> String> FusedIterator for Map<I, F> {}

impl<'n, 'f> It for NtfsAttributes<'n, 'f> {
    const NAME: &'static str = "attributes";
    fn step(&mut self, d: &mut MonDisk) -> Option<String> {
        self.next(d).map(item)
    }
    fn burst(self, d: &mut MonDisk, n: usize, how: u64, out: &mut Vec<Option<String>>) -> Option<Self> {
        let mut m = Map(self.attach(d), item);
        through(&mut m, n, how, out);
        Some(m.0.detach())
    }
}
impl<'n, 'f> It for NtfsAttributesRaw<'n, 'f> {
    const NAME: &'static str = "raw_attributes";
    fn step(&mut self, _: &mut MonDisk) -> Option<String> {
        self.next().map(raw_attr)
    }
    fn burst(self, _: &mut MonDisk, n: usize, how: u64, out: &mut Vec<Option<String>>) -> Option<Self> {
        let mut m = Map(self, raw_attr);
        through(&mut m, n, how, out);
        Some(m.0)
    }
}
fn raw_attr(a: R<NtfsAttribute>) -> String {
    match a {
        Ok(a) => walk::attr_line(&a),
        Err(e) => walk::err(&e),
    }
}
impl<'n, 'f> It for NtfsAttributeListEntries<'n, 'f> {
    const NAME: &'static str = "list_entries";
    fn step(&mut self, d: &mut MonDisk) -> Option<String> {
        self.next(d).map(|e| match e {
            Ok(e) => format!("{:?} {} {} {} {}", e.ty().map(|t| t as u32).map_err(|e| walk::err(&e)), walk::name_hex(&walk::units(&e.name())), e.lowest_vcn(), e.instance(), walk::pos(e.position())),
            Err(e) => walk::err(&e),
        })
    }
}
fn run_line(x: R<NtfsDataRun>) -> String {
    match x {
        Ok(r) => format!("run {} {}", walk::pos(r.data_position()), r.allocated_size()),
        Err(e) => walk::err(&e),
    }
}
impl<'n, 'f> It for NtfsDataRuns<'n, 'f> {
    const NAME: &'static str = "data_runs";
    fn step(&mut self, _: &mut MonDisk) -> Option<String> {
        self.next().map(run_line)
    }
    fn burst(self, _: &mut MonDisk, n: usize, how: u64, out: &mut Vec<Option<String>>) -> Option<Self> {
        let mut m = Map(self, run_line);
        through(&mut m, n, how, out);
        Some(m.0)
    }
}
fn any_entry<E: NtfsIndexEntryType>(e: &NtfsIndexEntry<E>) -> String {
    let sub = e.subnode_vcn().map(|v| v.map(|x| x.value()).map_err(|e| walk::err(&e)));
    let key = e.key().map(|k| k.map(|k| format!("{k:?}")).map_err(|e| walk::err(&e)));
    format!("entry {} len={} klen={} sub={sub:?} flags={} key={key:?}", walk::pos(e.position()), e.index_entry_length(), e.key_length(), e.flags())
}
fn entry<E: NtfsIndexEntryType>(e: R<NtfsIndexEntry<E>>) -> String {
    match e {
        Ok(e) => any_entry(&e),
        Err(e) => walk::err(&e),
    }
}
impl<'s, E: NtfsIndexEntryType> It for NtfsIndexNodeEntries<'s, E> {
    const NAME: &'static str = "node_entries";
    fn step(&mut self, _: &mut MonDisk) -> Option<String> {
        self.next().map(entry)
    }
    fn burst(self, _: &mut MonDisk, n: usize, how: u64, out: &mut Vec<Option<String>>) -> Option<Self> {
        let mut m = Map(self, entry);
        through(&mut m, n, how, out);
        Some(m.0)
    }
}
impl<'n, 'f, 'i, E: NtfsIndexEntryType> It for NtfsIndexEntries<'n, 'f, 'i, E> {
    const NAME: &'static str = "index_entries";
    fn step(&mut self, d: &mut MonDisk) -> Option<String> {
        self.next(d).map(entry)
    }
}
fn rec_line(r: R<NtfsIndexRecord>) -> String {
    match r {
        Ok(r) => format!("record {} {} {} {}", r.vcn(), r.has_subnodes(), r.index_data_size(), r.index_allocated_size()),
        Err(e) => walk::err(&e),
    }
}
impl<'n, 'f> It for NtfsIndexRecords<'n, 'f> {
    const NAME: &'static str = "index_records";
    fn step(&mut self, d: &mut MonDisk) -> Option<String> {
        self.next(d).map(rec_line)
    }
    fn burst(self, d: &mut MonDisk, n: usize, how: u64, out: &mut Vec<Option<String>>) -> Option<Self> {
        let mut m = Map(self.attach(d), rec_line);
        through(&mut m, n, how, out);
        Some(m.0.detach())
    }
}

/// How many items of a sequence are recorded when it does not end.
const CAP: usize = 400;

fn program<I: It>(ctx: &mut Ctx, p: &mut Prng, d: &mut MonDisk, what: &str, start: &dyn Fn(&mut MonDisk) -> Result<I, Viol>, count: Option<usize>) -> Res {
    let name = I::NAME;
    // The reference: a fresh iterator, step by step.
    let mut it = start(d)?;
    let mut seq: Vec<Option<String>> = vec![];
    let mut ended = false;
    while seq.len() < CAP {
        let x = it.step(d);
        ended = x.is_none();
        seq.push(x);
        if ended {
            break;
        }
    }
    if ended {
        for k in 0..4 {
            let x = it.step(d);
            ensure!(x.is_none(), "{name} of {what}: goes on {k} steps after its end with {x:?}");
        }
        ctx.count("after_end", 1);
    }
    let items = seq.len() - ended as usize;
    if let (Some(c), true) = (count, ended) {
        ensure!(items == c, "{name} of {what}: {items} items, {c} are stored");
        ctx.count("exact_counts", 1);
    }
    ctx.count(name, items as u64);
    let errs = seq.iter().flatten().any(|s| !["attr ", "item", "Ok(", "run ", "entry ", "record "].iter().any(|x| s.starts_with(x)));
    ctx.count("after_error", errs as u64);
    let want = |k: usize| -> Option<&str> { seq.get(k).and_then(|x| x.as_deref()) };
    let mut pool: Vec<(I, usize, bool)> = vec![(it, seq.len(), true), (start(d)?, 0, false)];
    let mut sig = vec![];
    for _ in 0..p.range(4, 14) {
        let k = p.below(pool.len() as u64) as usize;
        d.pos = p.skewed(40);
        let (at, switched) = (pool[k].1, pool[k].2);
        let how = p.below(7);
        sig.push((how, at));
        let mut got = vec![];
        match how {
            0 | 1 => {
                for _ in 0..p.range(1, 6) {
                    got.push(pool[k].0.step(d));
                }
            }
            2 => {
                let c = (pool[k].0.clone(), at, true);
                ctx.count("clones", 1);
                if pool.len() < 6 {
                    pool.push(c);
                } else {
                    pool[k] = c;
                }
                continue;
            }
            3 => {
                let s = (start(d)?, 0, switched);
                ctx.count("restarts", 1);
                if pool.len() < 6 {
                    pool.push(s);
                } else {
                    pool[k] = s;
                }
                continue;
            }
            4 | 5 => {
                let n = match p.below(3) {
                    0 => CAP.saturating_sub(at + 1).max(1),
                    _ => p.usize(1, 6),
                };
                let how = p.u64();
                let c = pool[k].0.clone();
                match c.burst(d, n, how, &mut got) {
                    None => continue,
                    Some(b) => {
                        ctx.count("adaptors", 1);
                        ctx.count("attached_middle", (at > 0 && at < items) as u64);
                        pool[k].0 = b;
                        pool[k].2 = true;
                    }
                }
            }
            _ => {
                // To the end.
                while pool[k].1 + got.len() < CAP {
                    let x = pool[k].0.step(d);
                    let e = x.is_none();
                    got.push(x);
                    if e {
                        break;
                    }
                }
                got.push(pool[k].0.step(d));
            }
        }
        for (j, g) in got.iter().enumerate() {
            let n = at + j;
            if n >= seq.len() && !ended {
                break; // not recorded
            }
            let w = want(n);
            ensure!(g.as_deref() == w, "{name} of {what}: item {n} of {items} is {g:?} this time (form {how}, from {at}), it was {w:?}");
            ctx.evals += 1;
        }
        pool[k].1 = at + got.len();
    }
    let mut g = Digest::default();
    g.s(&format!("{name} {sig:?} {items}"));
    ctx.eval(g.0, sig.iter().any(|x| (x.0 == 2 || x.0 == 4 || x.0 == 5) && x.1 > 0 && x.1 < items));
    Ok(())
}

fn indexes<'n, 'f, E: NtfsIndexEntryType>(ctx: &mut Ctx, p: &mut Prng, d: &mut MonDisk, what: &str, root: &NtfsAttributeItem<'n, 'f>, alloc: Option<&NtfsAttributeItem<'n, 'f>>, t: Option<&TIndex>) -> Res {
    let Ok(ra) = root.to_attribute() else { return Ok(()) };
    let Ok(rv) = ra.resident_structured_value::<NtfsIndexRoot>() else { return Ok(()) };
    if let Ok(es) = rv.entries::<E>() {
        program(ctx, p, d, &format!("root of {what}"), &|_| Ok(es.clone()), t.map(|t| t.nodes[t.root].ents.len() + 1))?;
        program(ctx, p, d, &format!("root of {what}"), &|_| rv.entries::<E>().map_err(|e| e2v("entries", e)), t.map(|t| t.nodes[t.root].ents.len() + 1))?;
        ctx.count("root_entries", 1);
    }
    if let Ok(ix) = NtfsIndex::<E>::new(root.clone(), alloc.cloned()) {
        let n = t.map(|t| t.entries.len());
        ctx.count("large_indexes", (n > Some(10)) as u64);
        program(ctx, p, d, what, &|_| Ok(ix.entries()), n)?;
    }
    let Some(al) = alloc else { return Ok(()) };
    let Ok(aa) = al.to_attribute() else { return Ok(()) };
    let Ok(al) = aa.structured_value::<_, NtfsIndexAllocation>(d) else { return Ok(()) };
    let irs = rv.index_record_size();
    program(ctx, p, d, what, &|_| Ok(al.records(irs)), None)?;
    // Entries of some nodes.
    let mut recs = al.records(irs);
    let mut k = 0;
    while let Some(Ok(r)) = recs.next(d) {
        k += 1;
        if k > 5 {
            break;
        }
        if r.entries::<E>().is_ok() {
            program(ctx, p, d, &format!("record {} of {what}", r.vcn()), &|_| r.entries::<E>().map_err(|e| e2v("entries", e)), None)?;
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 80, files: (2, 4), dirs: (1, 2), ents: 40, upcase: UpKind::Ascii, stream_clusters: 24, ..RichOpt::default() };
    let mut v = rich(&mut p, &o);
    let broken = p.chance(1, 2);
    if broken {
        let n = p.range(1, 12);
        let mut img = (*damage(&mut p, &v, n)).clone();
        // Damage in index nodes and non-resident lists as well.
        for _ in 0..p.range(0, 6) {
            let f = *p.pick(&v.files.keys().copied().collect::<Vec<_>>());
            let f = &v.files[&f];
            let c: Vec<&TAttr> = f.attrs.iter().filter(|a| a.ty == IDXALLOC).chain(f.list.as_ref()).filter(|a| !a.resident && a.data_size > 0).collect();
            if c.is_empty() {
                continue;
            }
            let a = *p.pick(&c);
            let off = p.below(a.data_size.min(8192));
            if let Some(at) = a.disk_pos(off) {
                img.write(at, &[*p.pick(&[0u8, 1, 0xff, 0x80, 0x7f, 8, 16])]);
            }
        }
        v.img = std::sync::Arc::new(img);
    }
    let mut d = MonDisk::new(v.img.clone());
    let n = match Ntfs::new(&mut d) {
        Ok(n) => n,
        Err(_) if broken => return Ok(()),
        Err(e) => bail!("Ntfs::new: {e}"),
    };
    // What the specification holds, on undamaged volumes.
    let exact = !broken;
    let mut raws: BTreeMap<u64, usize> = BTreeMap::new();
    if exact {
        for t in v.files.values() {
            for x in t.attrs.iter().chain(t.list.as_ref()) {
                for ph in &x.phys {
                    *raws.entry(ph.0).or_default() += 1;
                }
            }
        }
    }
    for t in v.files.values() {
        if t.rec == 10 {
            continue;
        }
        let what = format!("record {}", t.rec);
        for r in std::iter::once(t.rec).chain(t.ext.iter().copied().take(2)) {
            let Ok(f) = n.file(&mut d, r) else { continue };
            let cnt = exact.then(|| raws.get(&r).copied().unwrap_or(0));
            program(ctx, &mut p, &mut d, &format!("record {r}"), &|_| Ok(f.attributes_raw()), cnt)?;
        }
        let Ok(f) = n.file(&mut d, t.rec) else { continue };
        program(ctx, &mut p, &mut d, &what, &|_| Ok(f.attributes()), exact.then_some(t.attrs.len()))?;
        for a in f.attributes_raw() {
            let Ok(a) = a else { break };
            if matches!(a.ty(), Ok(NtfsAttributeType::AttributeList)) {
                if let Ok(l) = a.structured_value::<_, NtfsAttributeList>(&mut d) {
                    program(ctx, &mut p, &mut d, &what, &|_| Ok(l.entries()), exact.then_some(t.list_entries.len()))?;
                }
            } else if let Ok(NtfsAttributeValue::NonResident(x)) = a.value(&mut d) {
                let cnt = t.attrs.iter().find(|y| y.ty == a.ty().map_or(0, |z| z as u32) && y.extents == 1 && y.rec == t.rec && y.instance == a.instance()).map(|y| y.runs.len());
                program(ctx, &mut p, &mut d, &format!("attribute {} of {what}", a.instance()), &|_| Ok(x.data_runs()), cnt.filter(|_| exact))?;
            }
        }
        // Indexes.
        let mut its = f.attributes();
        let mut all = vec![];
        let mut k = 0;
        while let Some(i) = its.next(&mut d) {
            k += 1;
            if let Ok(i) = i {
                all.push(i);
            }
            if k > 60 {
                break;
            }
        }
        let of = |ty: NtfsAttributeType| all.iter().find(|i| i.to_attribute().is_ok_and(|a| a.ty().is_ok_and(|t| t == ty)));
        if let Some(r) = of(NtfsAttributeType::IndexRoot) {
            let al = of(NtfsAttributeType::IndexAllocation);
            let ti = v.dirs.get(&t.rec).map(|x| &x.index).filter(|_| exact);
            match p.below(if exact { 1 } else { 4 }) {
                0 | 1 => indexes::<NtfsFileNameIndex>(ctx, &mut p, &mut d, &what, r, al, ti)?,
                2 => indexes::<RawIdx>(ctx, &mut p, &mut d, &what, r, al, None)?,
                _ => indexes::<RawRefIdx>(ctx, &mut p, &mut d, &what, r, al, None)?,
            }
        }
    }
    ctx.sample(|| format!("{} files with damage {broken}", v.files.len()));
    Ok(())
}
