//! C01: no volume content and no call sequence makes the library crash.
use crate::drive::{Drv, Hints};
use crate::fw::*;
use std::io::ErrorKind;
use std::sync::Arc;
use vmodel::disk::{Delivery, Fault, MonDisk};
use vmodel::gen::*;
use vmodel::hostile::*;
use vmodel::meter;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C01",
    level: "exploration",
    rule: "case = a campaign on one random rich volume: mutants (fields of records, attributes, lists, indexes, run lists and the boot sector set to hostile values with the record protection kept valid; structures put in the place of others; raw damage; truncation; device errors; irregular reads), mutants that reach new code kept as parents of further ones (coverage of the library measured in the run), and on every mutant a random history over all public operations with hostile arguments, several live objects in turns. Any panic of the library outside the two documented ones is a violation (overflow checks and debug assertions are on, the stack is 2 MiB). Non-trivial: distinct (operation, result) pairs and edges of the library's control flow",
    cases: (480, 40_000),
    secs: (45, 2400),
    run,
    need: &["mutants", "calls", "errors", "new_coverage"],
    assumptions: &[
        "comparing names without the $UpCase table and resolving a list entry against another file are documented panics and not called",
        "a panic inside the caller's own reader or callbacks is the caller's",
    ],
    limits: (3_000_000_000, 4 << 30),
};

pub fn volume(p: &mut Prng) -> Vol {
    let o = RichOpt {
        nrec: 80,
        files: (1, 4),
        dirs: (1, 2),
        ents: *p.pick(&[4, 20, 60]),
        huge: p.chance(1, 4),
        stream_clusters: 12,
        ..RichOpt::default()
    };
    let mut v = rich(p, &o);
    if p.chance(1, 2) {
        // What lies between is rarely poison on real devices.
        let mut i = (*v.img).clone();
        i.set_poison(0);
        v.img = Arc::new(i);
    }
    v
}

pub fn device(p: &mut Prng, d: &mut MonDisk) {
    match p.below(10) {
        0 => d.size = p.below(d.size + 1),
        1 => {
            let at = p.below(400);
            let count = if p.chance(1, 2) { 1 } else { u64::MAX };
            d.faults = vec![Fault { at, count, kind: *p.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::WouldBlock]) }];
        }
        2 => d.delivery = Delivery::Random(p.fork()),
        3 => d.interrupts = Some((p.fork(), 4)),
        _ => {}
    }
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let v = volume(&mut p);
    let h = Hostile::new(&v);
    let hints = Hints::new(&v);
    let mut img = Arc::new((*v.img).clone());
    let n = meter::guards() + 1;
    let (mut seen, mut map) = (vec![0u8; n], vec![0u8; n]);
    let mut results = std::collections::HashSet::new();
    let mut parents: Vec<Vec<(u64, Vec<u8>)>> = vec![vec![]];
    let rounds = if ctx.thorough() { 400 } else { 120 };
    for round in 0..rounds {
        let mut m = p.pick(&parents).clone();
        if m.len() > 4000 {
            m.clear();
        }
        if round > 0 {
            for _ in 0..p.range(1, 4) {
                m.extend(h.mutate(&mut p));
            }
        }
        let u = apply(Arc::get_mut(&mut img).expect("no other user"), &m);
        let mut d = MonDisk::new(img.clone());
        device(&mut p, &mut d);
        let calls = p.range(40, 300) as i64;
        let mut s = Drv::new(p.fork(), &hints, &img, calls);
        map.fill(0);
        meter::set_map(map.as_mut_ptr());
        let r = guard(|| s.session(&mut d));
        meter::set_map(std::ptr::null_mut());
        ctx.count("mutants", 1);
        ctx.count("calls", s.calls);
        ctx.count("errors", s.errors);
        ctx.count("successes", s.oks);
        let mut new = false;
        for (k, x) in map.iter().enumerate() {
            if *x > 0 && seen[k] == 0 {
                seen[k] = 1;
                ctx.eval(k as u64, true);
                ctx.count("edges_reached", 1);
                new = true;
            }
        }
        for x in &s.sigs {
            ctx.eval(*x, true);
            new |= results.insert(*x);
        }
        if let Err(p) = r {
            if p.harness() {
                panic!("harness panic in the driver: {} at {}", p.msg, p.loc);
            }
            return Err(viol(&format!("panic@{}", p.loc), format!("the library panicked at {}: {} (mutant {round}: {} bytes changed{}; calls: {})", p.loc, p.msg, m.len(), brief(&m), s.trail())));
        }
        if let Some(o) = &s.over {
            bail!("{o}");
        }
        drop((d, s));
        undo(Arc::get_mut(&mut img).expect("no other user"), u);
        if new {
            ctx.count("new_coverage", 1);
            parents.push(m);
        }
    }
    Ok(())
}
pub fn brief(m: &[(u64, Vec<u8>)]) -> String {
    if m.len() > 12 {
        return String::new();
    }
    format!(": {:x?}", m)
}
