//! C13: results do not depend on how the reader delivers bytes.
use crate::fw::*;
use crate::util::*;
use crate::walk::{self, ask, render};
use ntfs::*;
use vmodel::disk::*;
use vmodel::gen::*;
use vmodel::prng::*;
use vmodel::probe::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C13",
    level: "exploration",
    rule: "case = random volume, sometimes with random damage; every kind of question is asked on a reader that fills all buffers and on readers that deliver short reads (fixed small sizes, random, sector-bounded), are interrupted, and whose cursor is scrambled between operations; answers (data, metadata, errors) must be identical. Opening the volume and loading $UpCase happens on the irregular reader too. Non-trivial: the irregular reader cut or interrupted at least one read of the question",
    cases: (2200, 80_000),
    secs: (60, 1500),
    run,
    need: &["short_reads", "interrupts", "scrambles", "answers_equal", "errors_equal", "step_reads"],
    assumptions: &["an interrupted read reaches the caller of a value reader as ErrorKind::Interrupted, to be retried, as for std::io::Read"],
    limits: (4_000_000_000, 6 << 30),
};

fn irregular(p: &mut Prng, d: &mut MonDisk) -> &'static str {
    d.interrupts = if p.chance(1, 2) { Some((p.fork(), p.range(2, 6))) } else { None };
    let (del, n) = match p.below(6) {
        0 => (Delivery::Max(1), "1 byte"),
        1 => (Delivery::Max(p.usize(2, 9)), "few bytes"),
        2 => (Delivery::Boundary(512), "512-byte blocks"),
        3 => (Delivery::Boundary(*p.pick(&[16, 64, 4096])), "blocks"),
        _ => (Delivery::Random(p.fork()), "random"),
    };
    d.delivery = del;
    n
}

/// Random damage, so that errors are compared as well.
pub fn damage(p: &mut Prng, v: &Vol, n: u64) -> std::sync::Arc<vmodel::image::Image> {
    let mut img = (*v.img).clone();
    let recs: Vec<u64> = v.files.keys().copied().chain(v.files.values().flat_map(|f| f.ext.clone())).filter(|r| ![0, 10].contains(r)).collect();
    for _ in 0..n {
        let r = *p.pick(&recs);
        let Some(pos) = v.rec_pos(r) else { continue };
        // Damage that straddles run borders is as good as any.
        let off = p.below(v.geo.frs as u64);
        let b = if p.chance(1, 2) { vec![p.u64() as u8] } else { vec![*p.pick(&[0u8, 1, 0xff, 0x80, 0x7f])] };
        img.write(pos + off, &b);
    }
    std::sync::Arc::new(img)
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let o = RichOpt { nrec: 80, files: (2, 4), dirs: (1, 2), ents: 40, ..RichOpt::default() };
    let mut v = rich(&mut p, &o);
    if p.chance(1, 2) {
        let n = p.range(1, 20);
        v.img = damage(&mut p, &v, n);
    }
    let (mut d, ntfs) = open_up(&v.img)?;
    let mut e = MonDisk::new(v.img.clone());
    let mut q2 = p.fork();
    let del0 = irregular(&mut q2, &mut e);
    if !ctx.thorough() && matches!(e.delivery, Delivery::Max(_)) {
        e.delivery = Delivery::Random(q2.fork()); // the table is long
    }
    let mut n2 = Ntfs::new(&mut e).map_err(|x| e2v(&format!("Ntfs::new on an irregular reader ({del0})"), x))?;
    ensure!(walk::ask_volume(&n2) == walk::ask_volume(&ntfs), "Ntfs::new: {} vs {}", walk::ask_volume(&n2), walk::ask_volume(&ntfs));
    n2.read_upcase_table(&mut e).map_err(|x| e2v(&format!("read_upcase_table on an irregular reader ({del0})"), x))?;
    let mut probes = plan(&v, &mut p, 2);
    p.shuffle(&mut probes);
    probes.truncate(if ctx.thorough() { 400 } else { 90 });
    for q in &probes {
        d.pos = p.u64() >> 2;
        d.reset_counts();
        let good = ask(&ntfs, &mut d, q);
        let text = render(&good);
        for _ in 0..2 {
            let name = irregular(&mut p, &mut e);
            e.log = Some(vec![]);
            e.reset_counts();
            if p.chance(1, 2) {
                e.pos = p.u64() >> 2;
                ctx.count("scrambles", 1);
            }
            let got = render(&ask(&n2, &mut e, q));
            let short = e.log.as_ref().unwrap().iter().filter(|o| matches!(o, Op::Read(_, a, b) if b < a)).count() as u64;
            let intr = e.interrupts.is_some();
            ctx.eval(mix(seed ^ mix(q.rec().unwrap_or(1)) ^ mix(short) ^ q.kind().len() as u64), short > 0);
            ctx.count("short_reads", short);
            ctx.count("interrupts", intr as u64);
            ctx.count(if good.is_ok() { "answers_equal" } else { "errors_equal" }, 1);
            ensure!(got == text, "{q:?} with {name} reads, interrupts {intr}: {}", text_diff(&got, &text));
        }
    }
    // Reads in steps: every step's bytes must be right and no step may end early with zero.
    e.log = None;
    let cands: Vec<(u64, TAttr)> = v
        .files
        .iter()
        .flat_map(|(r, f)| f.attrs.iter().filter(|a| a.data_size > 0 && a.ty == DATA).map(move |a| (*r, a.clone())))
        .collect();
    for _ in 0..3 {
        let (rec, t) = p.pick(&cands).clone();
        let Ok(Some(())) = have(&ntfs, &mut d, rec, &t) else { continue };
        irregular(&mut p, &mut e);
        let mut q = p.fork();
        let off = interesting(&t, &mut q).min(t.data_size);
        let mut left = (t.data_size - off).min(6000);
        let mut pos = off;
        let r: Result<Res, NtfsError> = (|| {
            let f = n2.file(&mut e, rec)?;
            let i = walk::find_item(&f, &mut e, t.ty, &t.name)?;
            let Some(i) = i else { return Ok(Err(Viol::from(format!("stream vanished")))) };
            let a = i.to_attribute()?;
            let mut val = a.value(&mut e)?;
            use ntfs::NtfsReadSeek;
            val.seek(&mut e, std::io::SeekFrom::Start(off))?;
            while left > 0 {
                let n = q.range(1, left) as usize;
                let mut b = vec![0u8; n];
                let g = match val.read(&mut e, &mut b) {
                    Ok(g) => g,
                    Err(NtfsError::Io(x)) if x.kind() == std::io::ErrorKind::Interrupted => {
                        if val.stream_position() != pos {
                            return Ok(Err(Viol::from(format!("an interrupted read moved the position from {pos} to {}", val.stream_position()))));
                        }
                        continue;
                    }
                    Err(x) => return Err(x),
                };
                let mut vf = n2_value(&ntfs, &mut d, rec, &t)?;
                let w = vf(&mut d, pos, if g == 0 { n } else { g.min(n) })?;
                if g > n || (g == 0 && !w.is_empty()) {
                    return Ok(Err(Viol::from(format!("read of {n} at {pos} of {} returns {g}", t.data_size))));
                }
                if g == 0 {
                    // Damage cut the run list short: the regular reader ends here as well.
                    break;
                }
                if w != b[..g] {
                    return Ok(Err(Viol::from(format!("read at {pos}: {} instead of {}", hex(&b[..g]), hex(&w)))));
                }
                pos += g as u64;
                left -= g as u64;
            }
            Ok(Ok(()))
        })();
        ctx.count("step_reads", 1);
        match r {
            Ok(x) => x?,
            // Damaged: the regular reader must fail as well.
            Err(x) => {
                let mut vf = n2_value(&ntfs, &mut d, rec, &t);
                let again = vf.as_mut().map(|f| f(&mut d, off, (t.data_size - off).min(6000) as usize));
                ensure!(!matches!(again, Ok(Ok(_))), "reading in steps fails with {x:?}, the regular reader does not");
            }
        }
    }
    Ok(())
}
fn have(n: &Ntfs, d: &mut MonDisk, rec: u64, t: &TAttr) -> Result<Option<()>, NtfsError> {
    let f = n.file(d, rec)?;
    let i = walk::find_item(&f, d, t.ty, &t.name)?;
    if let Some(i) = i {
        let v = i.to_attribute()?.value(d)?;
        if v.len() == t.data_size {
            return Ok(Some(()));
        }
    }
    Ok(None)
}
type Reader<'a> = Box<dyn FnMut(&mut MonDisk, u64, usize) -> Result<Vec<u8>, NtfsError> + 'a>;
fn n2_value<'a>(n: &'a Ntfs, _d: &mut MonDisk, rec: u64, t: &'a TAttr) -> Result<Reader<'a>, NtfsError> {
    Ok(Box::new(move |d, off, len| {
        let f = n.file(d, rec)?;
        let Some(i) = walk::find_item(&f, d, t.ty, &t.name)? else { return Ok(vec![]) };
        let a = i.to_attribute()?;
        let mut v = a.value(d)?;
        walk::read_at(&mut v, d, off, len)
    }))
}
