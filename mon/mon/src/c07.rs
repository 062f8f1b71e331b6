//! C07: iterating an index yields every entry once, in order.
use crate::fw::*;
use crate::idx::*;
use crate::util::*;
use crate::walk::{self, name_hex};
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::*;
use vmodel::disk::MonDisk;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C07",
    level: "exploration",
    rule: "case = random volume with directories and other indexes (raw keys with data or references, several per file) whose trees have random shape (empty, root only, balanced of any height, unbalanced, nodes without own entries, empty leaves), record sizes 512..65536, cluster sizes smaller and larger, fragmented and attribute-list placed allocations, stale entries in slack space and unused records. Every index is iterated completely through NtfsIndex::entries and node by node (root entries, record_from_vcn entries), every entry is compared with the specified key, data, reference, length and subnode, and the raw records with the specified slots. Non-trivial: tree with records below the root",
    cases: (14_000, 600_000),
    secs: (60, 1500),
    run,
    need: &["entries", "node_entries", "raw_records", "large_trees", "unbalanced", "own_less_nodes", "empty_indexes", "custom_entries", "custom_data", "several_in_file", "fragmented", "blank_stops"],
    assumptions: &["the entries of the tree are consistent with its order; iteration over raw records may stop with an error at a record that never was in use"],
    limits: (8_000_000_000, 4 << 30),
};

/// Structure of one entry (key and value are compared by the caller).
fn shape<E: NtfsIndexEntryType>(e: &NtfsIndexEntry<E>, t: &TIndex, node: usize, k: usize) -> Option<String> {
    let n = &t.nodes[node];
    let last = k == n.ents.len();
    let sub = if last { n.end } else { n.ents[k].1 };
    let want = sub.map(|s| t.nodes[s].vcn);
    let got = match e.subnode_vcn() {
        None => None,
        Some(Ok(x)) => Some(x.value() as u64),
        Some(Err(e)) => return Some(format!("subnode_vcn: {e:?}")),
    };
    if got != want {
        return Some(format!("subnode {got:?} instead of {want:?}"));
    }
    let fl = e.flags();
    if fl.contains(NtfsIndexEntryFlags::LAST_ENTRY) != last || fl.contains(NtfsIndexEntryFlags::HAS_SUBNODE) != sub.is_some() {
        return Some(format!("flags {fl}"));
    }
    if e.index_entry_length() != n.ent_len[k] {
        return Some(format!("length {} instead of {}", e.index_entry_length(), n.ent_len[k]));
    }
    let kl = if last { 0 } else { t.entries[n.ents[k].0].key.len() };
    if e.key_length() as usize != kl {
        return Some(format!("key length {} instead of {kl}", e.key_length()));
    }
    None
}
fn dir_entry(e: &NtfsIndexEntry<NtfsFileNameIndex>, dir: &TDir, k: usize) -> Option<String> {
    let r = e.file_reference();
    let want = dir.refs[k];
    if r.file_record_number() != want & 0xffff_ffff_ffff || r.sequence_number() as u64 != want >> 48 {
        return Some(format!("reference {}/{} instead of {want:#x}", r.file_record_number(), r.sequence_number()));
    }
    match e.key() {
        None => Some("no key".into()),
        Some(Err(e)) => Some(format!("key: {e:?}")),
        Some(Ok(x)) => fname_diff(&x, &dir.names[k]),
    }
}
fn raw_key<E: NtfsIndexEntryType<KeyType = Raw>>(e: &NtfsIndexEntry<E>, t: &TIndex, k: usize) -> Option<String> {
    match e.key() {
        None => Some("no key".into()),
        Some(Err(e)) => Some(format!("key: {e:?}")),
        Some(Ok(x)) if x.bytes != t.entries[k].key => Some(format!("key {} instead of {}", hex(&x.bytes), hex(&t.entries[k].key))),
        _ => None,
    }
}
fn raw_data(e: &NtfsIndexEntry<RawIdx>, t: &TIndex, k: usize) -> Option<String> {
    if let Some(x) = raw_key(e, t, k) {
        return Some(x);
    }
    let want = &t.entries[k].data;
    match e.data() {
        None if want.is_empty() => None,
        None => Some("no data".into()),
        Some(Err(e)) => Some(format!("data: {e:?}")),
        Some(Ok(x)) if x.bytes != *want => Some(format!("data {} instead of {}", hex(&x.bytes), hex(want))),
        Some(Ok(_)) if e.data_length() as usize != want.len() => Some("data_length".into()),
        _ => None,
    }
}
fn raw_ref(e: &NtfsIndexEntry<RawRefIdx>, t: &TIndex, k: usize) -> Option<String> {
    if let Some(x) = raw_key(e, t, k) {
        return Some(x);
    }
    let want = u64::from_le_bytes(t.entries[k].head);
    let r = e.file_reference();
    (r.file_record_number() != want & 0xffff_ffff_ffff || r.sequence_number() as u64 != want >> 48).then(|| "reference".into())
}

/// Complete judgement of one index.
#[allow(clippy::too_many_arguments)]
fn index<'n, 'f, E: NtfsIndexEntryType>(
    ctx: &mut Ctx,
    d: &mut MonDisk,
    what: &str,
    ix: &NtfsIndex<'n, 'f, E>,
    t: &TIndex,
    root: &NtfsAttributeItem<'n, 'f>,
    alloc: Option<&NtfsAttributeItem<'n, 'f>>,
    same: &dyn Fn(&NtfsIndexEntry<E>, usize) -> Option<String>,
) -> Res {
    let mut it = ix.entries();
    let mut n = 0;
    while let Some(e) = it.next(d) {
        let e = e.map_err(|e| e2v(&format!("{what}: entry {n} of {}", t.entries.len()), e))?;
        ensure!(n < t.entries.len(), "{what}: more entries than the {} stored ones", t.entries.len());
        if let Some(x) = same(&e, n) {
            bail!("{what}: entry {n} of {} differs: {x}", t.entries.len());
        }
        n += 1;
    }
    ensure!(n == t.entries.len(), "{what}: iteration ends after {n} of {} entries", t.entries.len());
    for _ in 0..2 {
        ensure!(it.next(d).is_none(), "{what}: iteration goes on after its end");
    }
    ctx.count("entries", n as u64);
    // Node by node.
    let ra = root.to_attribute().map_err(|e| e2v("to_attribute", e))?;
    let rv = ra.resident_structured_value::<NtfsIndexRoot>().map_err(|e| e2v("index root", e))?;
    let es = rv.entries::<E>().map_err(|e| e2v("root entries", e))?;
    let check = |es: NtfsIndexNodeEntries<E>, node: usize| -> Result<u64, Viol> {
        let tn = &t.nodes[node];
        let mut k = 0;
        for e in es {
            let e = e.map_err(|e| e2v(&format!("{what}: node {node} entry {k}"), e))?;
            ensure!(k <= tn.ents.len(), "{what}: node {node} goes on after its last entry");
            if let Some(x) = shape(&e, t, node, k) {
                bail!("{what}: node {node} (VCN {}) entry {k}: {x}", tn.vcn);
            }
            if k < tn.ents.len() {
                if let Some(x) = same(&e, tn.ents[k].0) {
                    bail!("{what}: node {node} (VCN {}) entry {k}: {x}", tn.vcn);
                }
            } else {
                ensure!(e.key().is_none(), "{what}: node {node}: the last entry has a key");
            }
            k += 1;
        }
        ensure!(k == tn.ents.len() + 1, "{what}: node {node} has {k} entries instead of {}", tn.ents.len() + 1);
        Ok(k as u64)
    };
    ctx.count("node_entries", check(es, t.root)?);
    let Some(ai) = alloc else {
        ensure!(t.nodes.len() == 1, "{what}: index allocation not found");
        return Ok(());
    };
    let aa = ai.to_attribute().map_err(|e| e2v("to_attribute", e))?;
    let al = aa.structured_value::<_, NtfsIndexAllocation>(d).map_err(|e| e2v("index allocation", e))?;
    for (k, tn) in t.nodes.iter().enumerate() {
        if tn.slot.is_none() {
            continue;
        }
        let r = al.record_from_vcn(d, t.irs, (tn.vcn as i64).into()).map_err(|e| e2v(&format!("{what}: record_from_vcn({})", tn.vcn), e))?;
        let sub = tn.end.is_some() || tn.ents.iter().any(|x| x.1.is_some());
        ensure!(r.has_subnodes() == sub && r.vcn().value() as u64 == tn.vcn, "{what}: record at VCN {} shows another header", tn.vcn);
        ctx.count("node_entries", check(r.entries::<E>().map_err(|e| e2v("entries", e))?, k)?);
    }
    // Raw records.
    let per = t.irs as u64 / unit(t, &aa);
    let mut it = al.records(t.irs);
    let mut s = 0;
    loop {
        match it.next(d) {
            None => break,
            Some(Ok(r)) => {
                ensure!(s < t.slots, "{what}: more raw records than the {} stored ones", t.slots);
                ensure!(r.vcn().value() as u64 == s * per, "{what}: raw record {s} is the one of VCN {}", r.vcn().value());
                if let Some(k) = t.nodes.iter().position(|n| n.slot == Some(s)) {
                    check(r.entries::<E>().map_err(|e| e2v("entries", e))?, k)?;
                }
                s += 1;
            }
            Some(Err(e)) => {
                ensure!(s < t.slots && !t.live_slots.contains(&s), "{what}: raw record {s} of {}: {e:?}", t.slots);
                // Blank, and the iterator stays here.
                ctx.count("blank_stops", 1);
                s = t.slots;
                break;
            }
        }
    }
    ensure!(s == t.slots, "{what}: {s} raw records instead of {}", t.slots);
    ctx.count("raw_records", s);
    Ok(())
}
thread_local! { static UNIT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) } }
fn unit(_: &TIndex, _: &NtfsAttribute) -> u64 {
    UNIT.with(|u| u.get())
}

fn note(ctx: &mut Ctx, t: &TIndex, al: Option<&TAttr>) -> bool {
    let nt = t.nodes.len() > 1;
    if t.entries.is_empty() {
        ctx.count("empty_indexes", 1);
    }
    if nt {
        ctx.count("large_trees", 1);
        ctx.max("max_depth", t.depth() as u64);
        ctx.max("max_nodes", t.nodes.len() as u64);
        ctx.max("max_entries", t.entries.len() as u64);
        let p = t.parents();
        let leaves: std::collections::BTreeSet<usize> =
            (0..t.nodes.len()).filter(|n| t.nodes[*n].end.is_none() && t.nodes[*n].ents.iter().all(|x| x.1.is_none())).map(|n| t.path(&p, n).len()).collect();
        if leaves.len() > 1 {
            ctx.count("unbalanced", 1);
        }
        if t.nodes.iter().any(|n| n.ents.is_empty() && n.end.is_some()) {
            ctx.count("own_less_nodes", 1);
        }
        if al.map_or(false, |a| a.runs.len() > 1) {
            ctx.count("fragmented", 1);
        }
    }
    nt
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let max_ents = if p.chance(1, 300) { 20_000 } else if ctx.thorough() && p.chance(1, 30) { 3000 } else if p.chance(1, 12) { 500 } else { 90 };
    let o = IOpt { max_ents, up: *p.pick(&[UpKind::Unicode, UpKind::Ascii, UpKind::Random]), distinct_up: p.chance(1, 2), blank: p.chance(1, 2) };
    let iv = build(&mut p, &o);
    let v = &iv.v;
    UNIT.with(|u| u.set(v.geo.idx_vcn_unit() as u64));
    let (mut d, ntfs) = open(&v.img)?;
    let d = &mut d;
    for (r, dir) in &v.dirs {
        let f = ntfs.file(d, *r).map_err(|e| e2v("file", e))?;
        let ix = f.directory_index(d).map_err(|e| e2v(&format!("directory_index of {r}"), e))?;
        let (root, alloc) = items(&f, d, "$I30")?;
        let what = format!("directory {r}");
        index::<NtfsFileNameIndex>(ctx, d, &what, &ix, &dir.index, &root, alloc.as_ref(), &|e, k| dir_entry(e, dir, k))?;
        let nt = note(ctx, &dir.index, v.files[r].find(IDXALLOC, "$I30"));
        ctx.eval(seed ^ mix(*r), nt);
    }
    for x in &iv.xs {
        let Some(tf) = v.files.get(&x.rec) else { continue };
        let f = ntfs.file(d, x.rec).map_err(|e| e2v("file", e))?;
        let (root, alloc) = items(&f, d, &x.name)?;
        let what = format!("index {} of file {}", x.name, x.rec);
        let t = &x.index;
        if x.has_refs {
            let ix = NtfsIndex::<RawRefIdx>::new(root.clone(), alloc.clone()).map_err(|e| e2v(&what, e))?;
            index::<RawRefIdx>(ctx, d, &what, &ix, t, &root, alloc.as_ref(), &|e, k| raw_ref(e, t, k))?;
        } else {
            let ix = NtfsIndex::<RawIdx>::new(root.clone(), alloc.clone()).map_err(|e| e2v(&what, e))?;
            index::<RawIdx>(ctx, d, &what, &ix, t, &root, alloc.as_ref(), &|e, k| raw_data(e, t, k))?;
            ctx.count("custom_data", t.entries.iter().filter(|e| !e.data.is_empty()).count() as u64);
        }
        ctx.count("custom_entries", t.entries.len() as u64);
        if iv.xs.iter().filter(|y| y.rec == x.rec).count() > 1 || v.dirs.contains_key(&x.rec) {
            ctx.count("several_in_file", 1);
        }
        let nt = note(ctx, t, tf.find(IDXALLOC, &x.name));
        ctx.eval(seed ^ mix(x.rec ^ mix(x.name.len() as u64 + x.name.as_bytes()[1] as u64)), nt);
        let _ = walk::units;
        let _ = name_hex;
    }
    ctx.sample(|| format!("volume {:?}: {} directories with {:?} entries", v.geo, v.dirs.len(), v.dirs.values().map(|x| x.names.len()).collect::<Vec<_>>()));
    Ok(())
}
