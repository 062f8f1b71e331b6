//! C09: names compare case-insensitively by the volume's own table.
use crate::fw::*;
use crate::util::*;
use crate::walk::name_hex;
use nt_string::u16strle::U16StrLe;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C09",
    level: "exploration",
    rule: "case = random volume with one of six kinds of $UpCase table (identity, ASCII, Unicode, Unicode with volume-specific deviations, arbitrary function, permutation), stored in fragments; random pairs and related families of names (equal up to case, one unit changed, prefixes, unpaired surrogates, astral characters, empty, up to 300 units) compared as library string with library string, library string with native string and native with library, in both orders, against the model; lists sorted by the library must be sorted by the model; named streams and directory entries opened by native names of other case against the first match of the model; in some cases every one of the 65536 units is compared with its image. Non-trivial: the two names differ as written",
    cases: (1500, 300_000),
    secs: (60, 1500),
    run,
    need: &["equal_by_case", "less", "greater", "prefix", "surrogates", "astral", "streams_hit", "streams_miss", "streams_by_case", "finds", "full_tables", "sorted_lists"],
    assumptions: &[],
    limits: (8_000_000_000, 4 << 30),
};

fn ch(p: &mut Prng) -> u16 {
    match p.below(9) {
        0 => p.u64() as u16,
        1 => p.range(0xD7FE, 0xE001) as u16,
        2 => p.range(0xC0, 0x250) as u16,
        3 => p.range(0x390, 0x450) as u16,
        4 => p.range(0, 0x80) as u16,
        5 => *p.pick(&[0, 0xFFFF, 0xFFFE, 0x7FFF, 0x8000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x130, 0x131, 0xDF, 0x1E9E, 0xFB01, 0xFF]),
        _ => *p.pick(b"aAbBzZ_[`{@09") as u16,
    }
}
fn name(p: &mut Prng) -> Vec<u16> {
    let n = match p.below(12) {
        0 => 0,
        1 => p.range(200, 300),
        _ => p.skewed(4),
    };
    let mut v: Vec<u16> = (0..n).map(|_| ch(p)).collect();
    if p.chance(1, 4) {
        let c = char::from_u32(0x10000 + p.below(0x100000) as u32).unwrap();
        let mut b = [0; 2];
        let at = p.usize(0, v.len());
        v.splice(at..at, c.encode_utf16(&mut b).iter().copied());
    }
    v
}
/// A name related to this one.
fn relative(p: &mut Prng, a: &[u16], up: &[u16], rev: &HashMap<u16, Vec<u16>>) -> Vec<u16> {
    let mut b = a.to_vec();
    match p.below(8) {
        0 => b = name(p),
        1 => b.truncate(p.usize(0, b.len())),
        2 => b.push(ch(p)),
        3 => {
            let i = p.usize(0, b.len().max(1) - 1);
            if let Some(c) = b.get_mut(i) {
                *c = ch(p);
            }
        }
        4 => {
            let i = p.usize(0, b.len().max(1) - 1);
            if let Some(c) = b.get_mut(i) {
                *c = if p.chance(1, 2) { c.wrapping_add(1) } else { c.wrapping_sub(1) };
            }
        }
        5 => {
            // The image itself, which may map on.
            for c in b.iter_mut() {
                *c = up[*c as usize];
            }
        }
        _ => {
            for c in b.iter_mut() {
                if p.chance(2, 3) {
                    *c = *p.pick(&rev[&up[*c as usize]]);
                }
            }
            if p.chance(1, 4) {
                let i = p.usize(0, b.len().max(1) - 1);
                if let Some(c) = b.get_mut(i) {
                    *c = ch(p);
                }
            }
        }
    }
    b
}
fn le(n: &[u16]) -> Vec<u8> {
    n.iter().flat_map(|c| c.to_le_bytes()).collect()
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let kind = *p.pick(&[UpKind::Identity, UpKind::Ascii, UpKind::Unicode, UpKind::Unicode, UpKind::Random, UpKind::Permute, UpKind::Deviant, UpKind::Deviant]);
    let geo = modest_geo(&mut p);
    let mut b = Builder::new(geo, Opts { upcase: kind, ..Opts::default() }, p.u64());
    let table = b.upcase.clone();
    let mut rev: HashMap<u16, Vec<u16>> = HashMap::new();
    for (c, u) in table.iter().enumerate() {
        rev.entry(*u).or_default().push(c as u16);
    }
    let up = |n: &[u16]| -> Vec<u16> { n.iter().map(|c| table[*c as usize]).collect() };

    // Files with several streams whose names collide or nearly do.
    let mut streams: Vec<(u64, Vec<Vec<u16>>)> = vec![];
    for _ in 0..2 {
        let Some(rec) = b.new_rec() else { break };
        let mut s = FileSpec::new(rec, false);
        s.attrs.push(std_attr(&mut p));
        let mut base = name(&mut p);
        base.truncate(12);
        let mut names: Vec<Vec<u16>> = vec![];
        for _ in 0..p.range(1, 5) {
            let mut n = if p.chance(2, 3) { relative(&mut p, &base, &table, &rev) } else { name(&mut p) };
            n.truncate(20);
            if !names.contains(&n) {
                names.push(n.clone());
                let mut a = Attr::res(DATA, "", p.bytes(9));
                a.name = n;
                s.attrs.push(a);
            }
        }
        if write_fitting(&mut b, s) {
            streams.push((rec, names));
        }
    }
    // A directory.
    let mut dn: Vec<Vec<u16>> = vec![];
    for _ in 0..p.range(1, 30) {
        let mut n = if dn.is_empty() || p.chance(1, 2) { name(&mut p) } else { let k = p.usize(0, dn.len() - 1); let a = dn[k].clone(); relative(&mut p, &a, &table, &rev) };
        n.truncate(30);
        if !n.is_empty() && !dn.iter().any(|x| up(x) == up(&n)) {
            dn.push(n);
        }
    }
    let mut dirrec = None;
    if let Some(rec) = b.new_rec() {
        let mut s = FileSpec::new(rec, true);
        s.attrs.push(std_attr(&mut p));
        let fill = IdxFill::random(&mut p);
        let ents = dn.iter().enumerate().map(|(k, n)| (FName::random(&mut p, mft_ref(5, 5), n), mft_ref(20 + k as u64, 1))).collect();
        if b.write_dir(s, ents, fill, None).is_some() {
            dirrec = Some(rec);
        }
    }
    let v = b.finish();
    let (mut d, mut ntfs) = open_up(&v.img)?;
    if p.chance(1, 8) {
        ntfs.read_upcase_table(&mut d).map_err(|e| e2v("read_upcase_table again", e))?;
    }
    let ntfs = &ntfs;

    let cmp3 = |ctx: &mut Ctx, a: &[u16], b: &[u16]| -> Res {
        let (ab, bb) = (le(a), le(b));
        let (x, y) = (U16StrLe(&ab), U16StrLe(&bb));
        let want = up(a).cmp(&up(b));
        let show = || format!("{} with {} (table {kind:?})", name_hex(a), name_hex(b));
        let got = x.upcase_cmp(ntfs, &y);
        ensure!(got == want, "library string with library string: {} gives {got:?}, the table says {want:?}", show());
        let got = y.upcase_cmp(ntfs, &x);
        ensure!(got == want.reverse(), "library string with library string, turned: {} gives {got:?}, the table says {:?}", show(), want.reverse());
        if let Ok(s) = String::from_utf16(b) {
            let s = s.as_str();
            let got = x.upcase_cmp(ntfs, &s);
            ensure!(got == want, "library string with native string: {} gives {got:?}, the table says {want:?}", show());
            let got = s.upcase_cmp(ntfs, &x);
            ensure!(got == want.reverse(), "native string with library string: {} gives {got:?}, the table says {:?}", show(), want.reverse());
            if s.chars().any(|c| c as u32 > 0xffff) {
                ctx.count("astral", 1);
            }
        } else {
            ctx.count("surrogates", 1);
        }
        ctx.count(
            match want {
                Ordering::Equal if a != b => "equal_by_case",
                Ordering::Equal => "equal",
                Ordering::Less => "less",
                Ordering::Greater => "greater",
            },
            1,
        );
        if a.len() != b.len() && up(a)[..a.len().min(b.len())] == up(b)[..a.len().min(b.len())] {
            ctx.count("prefix", 1);
        }
        Ok(())
    };
    for _ in 0..if ctx.thorough() { 200 } else { 60 } {
        let a = name(&mut p);
        let b = relative(&mut p, &a, &table, &rev);
        cmp3(ctx, &a, &b)?;
        let mut g = Digest::default();
        g.b(&le(&a));
        g.b(&le(&b));
        g.u(kind as u64);
        ctx.eval(g.0, a != b);
        ctx.sample(|| format!("compared {} with {} under {kind:?}", name_hex(&a), name_hex(&b)));
    }
    if p.chance(1, 12) {
        for c in 0..=0xffffu32 {
            let c = c as u16;
            cmp3(ctx, &[c], &[table[c as usize]])?;
            cmp3(ctx, &[c], &[ch(&mut p)])?;
        }
        ctx.count("full_tables", 1);
    }
    // Sorting with the library's order.
    let mut l: Vec<Vec<u8>> = (0..p.range(2, 40)).map(|_| le(&name(&mut p))).collect();
    for k in 0..l.len() {
        if p.chance(1, 2) {
            let a: Vec<u16> = l[p.usize(0, k)].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            l[k] = le(&relative(&mut p, &a, &table, &rev));
        }
    }
    l.sort_by(|a, b| U16StrLe(a).upcase_cmp(ntfs, &U16StrLe(b)));
    let keys: Vec<Vec<u16>> = l.iter().map(|b| up(&b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>())).collect();
    ensure!(keys.windows(2).all(|w| w[0] <= w[1]), "a list sorted by the library's order is not in the order of the table");
    ctx.count("sorted_lists", 1);

    for (rec, names) in &streams {
        let f = ntfs.file(&mut d, *rec).map_err(|e| e2v("file", e))?;
        // The order of the attributes is the library's own.
        let mut order: Vec<(Vec<u16>, u16)> = vec![];
        let mut it = f.attributes();
        while let Some(i) = it.next(&mut d) {
            let i = i.map_err(|e| e2v("attributes", e))?;
            let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
            if a.ty().map_err(|e| e2v("ty", e))? == NtfsAttributeType::Data {
                order.push((name_units(&a.name().map_err(|e| e2v("name", e))?), a.instance()));
            }
        }
        let mut qs: Vec<Vec<u16>> = vec![vec![]];
        for n in names {
            qs.push(n.clone());
            qs.push(relative(&mut p, n, &table, &rev));
            qs.push(n.iter().map(|c| *p.pick(&rev[&table[*c as usize]])).collect());
        }
        for q in qs {
            let Ok(s) = String::from_utf16(&q) else { continue };
            // The unnamed stream is the one with the empty name.
            let want = order.iter().find(|(n, _)| up(n) == up(&q));
            match (f.data(&mut d, &s), want) {
                (None, None) => ctx.count("streams_miss", 1),
                (Some(r), Some((wn, wi))) => {
                    let i = r.map_err(|e| e2v("data", e))?;
                    let a = i.to_attribute().map_err(|e| e2v("to_attribute", e))?;
                    let n = name_units(&a.name().map_err(|e| e2v("name", e))?);
                    ensure!(n == *wn && a.instance() == *wi, "stream {} of record {rec}: opened {} (instance {}), the first that matches is {} ({wi}) (table {kind:?})", name_hex(&q), name_hex(&n), a.instance(), name_hex(wn));
                    ctx.count("streams_hit", 1);
                    ctx.count("streams_by_case", (n != q) as u64);
                }
                (r, w) => bail!("stream {} of record {rec}: found {}, the table says {} (table {kind:?})", name_hex(&q), r.is_some(), w.is_some()),
            }
        }
    }
    if let (Some(rec), false) = (dirrec, dn.is_empty()) {
        let f = ntfs.file(&mut d, rec).map_err(|e| e2v("file", e))?;
        let ix = f.directory_index(&mut d).map_err(|e| e2v("directory_index", e))?;
        let mut fi = ix.finder();
        for _ in 0..16 {
            let n = p.pick(&dn).clone();
            let q = relative(&mut p, &n, &table, &rev);
            let Ok(s) = String::from_utf16(&q) else { continue };
            let want = dn.iter().find(|x| up(x) == up(&q));
            let got = match NtfsFileNameIndex::find(&mut fi, ntfs, &mut d, &s) {
                None => None,
                Some(e) => {
                    let e = e.map_err(|e| e2v("find", e))?;
                    let k = e.key().ok_or_else(|| Viol::from("a found entry has no key".to_string()))?.map_err(|e| e2v("key", e))?;
                    Some(name_units(&k.name()))
                }
            };
            ensure!(got.as_ref() == want, "looking up {} in directory {rec}: {:?} instead of {:?} (table {kind:?})", name_hex(&q), got.as_deref().map(name_hex), want.map(|x| name_hex(x)));
            ctx.count("finds", 1);
        }
    }
    Ok(())
}
