//! C15: answers do not depend on history, interleaving or threads.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, ask, render};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::*;
use std::sync::Barrier;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::probe::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C15",
    level: "exploration",
    rule: "case = random volume, sometimes damaged; the answer to each question on a freshly opened volume is compared with the answers on a long-used instance in several random orders with repetitions, with several live objects (files, values, iterators, finders) used in random alternation, in turns with a second opened volume of the same layout but other contents and table, and from 3 threads that share the opened volume and use their own readers. Non-trivial: each answer obtained in a non-fresh context; interleavings are distinguished by the hash of their schedule",
    cases: (1500, 60_000),
    secs: (60, 1500),
    run,
    need: &["fresh_answers", "used_answers", "thread_answers", "interleaved_steps", "twin_answers", "schedules"],
    assumptions: &["the device content does not change during a case"],
    limits: (8_000_000_000, 6 << 30),
};

// Whether the opened volume may be shared between threads, decided without failing to compile.
trait NotShareable {
    const IS: bool = false;
}
impl<T> NotShareable for T {}
struct Shareable<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: Sync + Send> Shareable<T> {
    const IS: bool = true;
}
struct Share<'a>(&'a Ntfs);
// SAFETY: used only when `Ntfs` is Sync (checked at run time through `Shareable`).
unsafe impl<'a> Sync for Share<'a> {}
unsafe impl<'a> Send for Share<'a> {}
impl<'a> Share<'a> {
    fn get(&self) -> &'a Ntfs {
        self.0
    }
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 80, files: (2, 4), dirs: (1, 2), ents: 40, ..RichOpt::default() };
    let mut v = rich(&mut p, &o);
    if p.chance(1, 3) {
        let n = p.range(1, 10);
        v.img = crate::c13::damage(&mut p, &v, n);
    }
    let mut probes = plan(&v, &mut p, 2);
    p.shuffle(&mut probes);
    probes.truncate(if ctx.thorough() { 150 } else { 50 });
    // Fresh answers: newly opened volume, new reader; the table only if the question needs it.
    let mut fresh = vec![];
    let up = {
        let (_, n) = open_up(&v.img)?;
        n
    };
    for q in &probes {
        let t = if q.needs_upcase() {
            // A fresh table is expensive; a third of these get one of their own.
            if p.chance(1, 3) {
                let (mut d, n) = open_up(&v.img)?;
                render(&ask(&n, &mut d, q))
            } else {
                render(&ask(&up, &mut MonDisk::new(v.img.clone()), q))
            }
        } else {
            let (mut d, n) = open(&v.img)?;
            render(&ask(&n, &mut d, q))
        };
        ctx.count("fresh_answers", 1);
        fresh.push(t);
    }
    // One instance, one reader, random order with repetitions.
    let (mut d, ntfs) = open_up(&v.img)?;
    let mut sched = Digest::default();
    for _ in 0..3 * probes.len() {
        let i = p.below(probes.len() as u64) as usize;
        sched.u(i as u64);
        let t = render(&ask(&ntfs, &mut d, &probes[i]));
        ctx.count("used_answers", 1);
        ctx.eval(mix(seed ^ sched.0), true);
        ensure!(t == fresh[i], "{:?} on a used instance: {}", probes[i], text_diff(&t, &fresh[i]));
    }
    ctx.count("schedules", 1);
    if v.img.explicit_pages().is_empty() {
        bail!("empty image");
    }
    interleave(ctx, &mut p, &v, &ntfs)?;
    twin(ctx, &mut p, &v, &ntfs, &probes, &fresh)?;
    // Threads.
    ensure!(<Shareable<Ntfs>>::IS, "an opened volume cannot be shared between threads (Ntfs is not Send + Sync)");
    let share = Share(&ntfs);
    let nt = 3;
    let bar = Barrier::new(nt);
    let seeds: Vec<u64> = (0..nt).map(|_| p.u64()).collect();
    let bad: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|sd| {
                let (share, bar, probes, fresh, v) = (&share, &bar, &probes, &fresh, &v);
                s.spawn(move || {
                    let ntfs = share.get();
                    let mut p = Prng::new(*sd);
                    let mut d = MonDisk::new(v.img.clone());
                    bar.wait();
                    for _ in 0..probes.len() {
                        let i = p.below(probes.len() as u64) as usize;
                        let r = guard(|| render(&ask(ntfs, &mut d, &probes[i])));
                        let t = match r {
                            Ok(t) => t,
                            Err(e) => return Some(format!("{:?} panics in a thread: {} at {}", probes[i], e.msg, e.loc)),
                        };
                        if t != fresh[i] {
                            return Some(format!("{:?} in a thread: {}", probes[i], text_diff(&t, &fresh[i])));
                        }
                        if p.chance(1, 4) {
                            std::thread::yield_now();
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some("thread died".into()))).collect()
    });
    ctx.count("thread_answers", (nt * probes.len()) as u64);
    for b in bad.into_iter().flatten() {
        bail!("{b}");
    }
    Ok(())
}

/// Two opened volumes that have everything in common except some contents, questioned in turns.
fn twin(ctx: &mut Ctx, p: &mut Prng, v: &Vol, ntfs: &Ntfs, probes: &[Probe], fresh: &[String]) -> Res {
    let n = p.range(20, 200);
    let mut img = (*crate::c13::damage(p, v, n)).clone();
    let kind = *p.pick(&[UpKind::Identity, UpKind::Ascii, UpKind::Random, UpKind::Permute, UpKind::Deviant]);
    let table = upcase_table(kind, p);
    let Some(t) = v.files.get(&10).and_then(|f| f.find(DATA, "")) else { return Ok(()) };
    for (i, c) in table.iter().enumerate() {
        if let Some(pos) = t.disk_pos(2 * i as u64) {
            img.write(pos, &c.to_le_bytes());
        }
    }
    let img = std::sync::Arc::new(img);
    let Ok((mut e, other)) = open_up(&img) else { return Ok(()) };
    let mut d = MonDisk::new(v.img.clone());
    let mut fresh2: Vec<Option<String>> = vec![None; probes.len()];
    let expect = |t: &[u16], a: &[u16], b: &str| {
        let x: Vec<u16> = a.iter().map(|c| t[*c as usize]).collect();
        let y: Vec<u16> = b.encode_utf16().map(|c| t[c as usize]).collect();
        let (o, r) = (x.cmp(&y), y.cmp(&x));
        format!("cmp {o:?} {r:?} {o:?} {r:?}")
    };
    for _ in 0..2 * probes.len() {
        let i = p.below(probes.len() as u64) as usize;
        let l = render(&ask(ntfs, &mut d, &probes[i]));
        ensure!(l == fresh[i], "{:?} while another volume is in use: {}", probes[i], text_diff(&l, &fresh[i]));
        let r = render(&ask(&other, &mut e, &probes[i]));
        let first = fresh2[i].get_or_insert_with(|| r.clone());
        ensure!(r == *first, "{:?} while another volume is in use: {}", probes[i], text_diff(&r, first));
        if let Probe::Cmp(a, b) = cmp(p) {
            for (n, d, t, w) in [(ntfs, &mut d, &v.upcase[..], "first"), (&other, &mut e, &table[..], "second")] {
                let got = render(&ask(n, d, &Probe::Cmp(a.clone(), b.clone())));
                let want = expect(t, &a, &b);
                ensure!(got.trim_end() == want, "comparing {a:04x?} with {b:?} on the {w} of two volumes: «{got}», by its table «{want}»");
            }
        }
        ctx.count("twin_answers", 4);
        ctx.eval(mix(p.u64()), true);
    }
    Ok(())
}

/// Many live objects advanced in random alternation over one reader; each must produce what it
/// produces alone.
fn interleave(ctx: &mut Ctx, p: &mut Prng, v: &Vol, ntfs: &Ntfs) -> Res {
    let mut d = MonDisk::new(v.img.clone());
    // Directories
    let dirs: Vec<NtfsFile> = v.dirs.keys().filter_map(|r| ntfs.file(&mut d, *r).ok()).collect();
    let files: Vec<NtfsFile> = v.files.keys().filter_map(|r| ntfs.file(&mut d, *r).ok()).collect();
    let mut ixs = vec![];
    for f in &dirs {
        if let Ok(ix) = f.directory_index(&mut d) {
            ixs.push(ix);
        }
    }
    let dl = |r: Option<Result<NtfsIndexEntry<NtfsFileNameIndex>, NtfsError>>| match r {
        None => "END".to_string(),
        Some(Ok(e)) => walk::entry_line(&e).unwrap_or_else(|e| walk::err(&e)),
        Some(Err(e)) => walk::err(&e),
    };
    let al = |r: Option<Result<NtfsAttributeItem, NtfsError>>| match r {
        None => "END".to_string(),
        Some(Ok(i)) => i.to_attribute().map(|a| walk::attr_line(&a)).unwrap_or_else(|e| walk::err(&e)),
        Some(Err(e)) => walk::err(&e),
    };
    const MAX: usize = 60;
    // Alone
    let mut dir_alone = vec![];
    for ix in &ixs {
        let mut it = ix.entries();
        dir_alone.push((0..MAX).map(|_| dl(it.next(&mut d))).collect::<Vec<_>>());
    }
    let mut at_alone = vec![];
    for f in &files {
        let mut it = f.attributes();
        at_alone.push((0..20).map(|_| al(it.next(&mut d))).collect::<Vec<_>>());
    }
    let mut items = vec![];
    for f in &files {
        let mut it = f.attributes();
        for _ in 0..20 {
            match it.next(&mut d) {
                Some(Ok(i)) => items.push(i),
                _ => break,
            }
        }
    }
    p.shuffle(&mut items);
    items.truncate(8);
    let attrs: Vec<NtfsAttribute> = items.iter().filter_map(|i| i.to_attribute().ok()).collect();
    let mut vals = vec![];
    for a in &attrs {
        if let Ok(x) = a.value(&mut d) {
            vals.push(x);
        }
    }
    let step = |val: &mut ntfs::attribute_value::NtfsAttributeValue, d: &mut MonDisk, k: u64| -> String {
        let mut b = [0u8; 300];
        match val.read(d, &mut b[..(k % 300) as usize]) {
            Ok(n) => format!("{n} {} {}", walk::bytes_desc(&b[..n]), val.stream_position()),
            Err(e) => walk::err(&e),
        }
    };
    let lens: Vec<u64> = (0..MAX).map(|_| p.u64()).collect();
    let mut val_alone = vec![];
    for x in &vals {
        let mut x = x.clone();
        val_alone.push(lens.iter().map(|k| step(&mut x, &mut d, *k)).collect::<Vec<_>>());
    }
    // Together
    let mut dit: Vec<_> = ixs.iter().map(|i| i.entries()).collect();
    let mut ait: Vec<_> = files.iter().map(|f| f.attributes()).collect();
    let mut dn = vec![0usize; dit.len()];
    let mut an = vec![0usize; ait.len()];
    let mut vn = vec![0usize; vals.len()];
    let mut finders: Vec<_> = ixs.iter().map(|i| i.finder()).collect();
    let mut sched = Digest::default();
    for _ in 0..300 {
        let k = p.below(10);
        if k < 3 && !dit.is_empty() {
            let i = p.below(dit.len() as u64) as usize;
            if dn[i] < MAX {
                let l = dl(dit[i].next(&mut d));
                ensure!(l == dir_alone[i][dn[i]], "interleaved index iteration, item {}: «{l}» instead of «{}»", dn[i], dir_alone[i][dn[i]]);
                dn[i] += 1;
                sched.u(i as u64);
            }
        } else if k < 5 && !ait.is_empty() {
            let i = p.below(ait.len() as u64) as usize;
            if an[i] < 20 {
                let l = al(ait[i].next(&mut d));
                ensure!(l == at_alone[i][an[i]], "interleaved attribute iteration, item {}: «{l}» instead of «{}»", an[i], at_alone[i][an[i]]);
                an[i] += 1;
                sched.u(100 + i as u64);
            }
        } else if k < 8 && !vals.is_empty() {
            let i = p.below(vals.len() as u64) as usize;
            if vn[i] < MAX {
                let l = step(&mut vals[i], &mut d, lens[vn[i]]);
                ensure!(l == val_alone[i][vn[i]], "interleaved value read {}: «{l}» instead of «{}»", vn[i], val_alone[i][vn[i]]);
                vn[i] += 1;
                sched.u(200 + i as u64);
            }
        } else if k == 8 && !finders.is_empty() {
            let i = p.below(finders.len() as u64) as usize;
            let names = &v.dirs[&dirs[i].file_record_number()].names;
            if let (true, Some(n)) = (ixs.len() == dirs.len(), (!names.is_empty()).then(|| p.pick(names))) {
                if let Ok(s) = String::from_utf16(&n.name) {
                    let a = dl(NtfsFileNameIndex::find(&mut finders[i], ntfs, &mut d, &s));
                    let b = dl(NtfsFileNameIndex::find(&mut ixs[i].finder(), ntfs, &mut MonDisk::new(v.img.clone()), &s));
                    ensure!(a == b, "interleaved lookup: «{a}» instead of «{b}»");
                    sched.u(300 + i as u64);
                }
            }
        } else {
            d.pos = p.u64() >> 3;
        }
        ctx.count("interleaved_steps", 1);
    }
    ctx.eval(sched.0, true);
    Ok(())
}
