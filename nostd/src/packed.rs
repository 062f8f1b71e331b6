//! Cases in a file, with the answers that are expected.
use crate::answers::answers;
use crate::wcase::{wcase, WCase};
use std::io::ErrorKind;
use std::sync::Arc;
use vmodel::disk::{Delivery, Fault, MonDisk};
use vmodel::image::{Image, PAGE};
use vmodel::probe::Probe;
use vmodel::prng::Prng;

struct W(Vec<u8>);
impl W {
    fn u(&mut self, x: u64) {
        self.0.extend(x.to_le_bytes());
    }
    fn us(&mut self, x: &[u64]) {
        x.iter().for_each(|x| self.u(*x));
    }
    fn b(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        self.0.extend(b);
    }
    fn n(&mut self, n: &[u16]) {
        self.u(n.len() as u64);
        for c in n {
            self.0.extend(c.to_le_bytes());
        }
    }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn b(&mut self) -> &'a [u8] {
        let n = self.u() as usize;
        self.take(n)
    }
    fn s(&mut self) -> String {
        String::from_utf8(self.b().to_vec()).unwrap()
    }
    fn n(&mut self) -> Vec<u16> {
        let n = self.u() as usize;
        self.take(2 * n).chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
    }
}

fn probe(w: &mut W, p: &Probe) {
    let none = u64::MAX;
    match p {
        Probe::Volume => w.u(0),
        Probe::VolInfo => w.u(1),
        Probe::VolName => w.u(2),
        Probe::Root => w.u(3),
        Probe::File(r) => w.us(&[4, *r]),
        Probe::Attrs(r) => w.us(&[5, *r]),
        Probe::RawAttrs(r) => w.us(&[6, *r]),
        Probe::List(r) => w.us(&[7, *r]),
        Probe::Info(r) => w.us(&[8, *r]),
        Probe::Name(r, n, q) => w.us(&[9, *r, n.map_or(none, |x| x as u64), q.unwrap_or(none)]),
        Probe::Read(r, t, n, o, l) => {
            w.us(&[10, *r, *t as u64, *o, *l as u64]);
            w.n(n)
        }
        Probe::Attach(r, t, n, o, l) => {
            w.us(&[11, *r, *t as u64, *o, *l as u64]);
            w.n(n)
        }
        Probe::Attached(r) => w.us(&[12, *r]),
        Probe::Runs(r, t, n) => {
            w.us(&[13, *r, *t as u64]);
            w.n(n)
        }
        Probe::Struct(r, t, n) => {
            w.us(&[14, *r, *t as u64]);
            w.n(n)
        }
        Probe::Data(r, s) => {
            w.us(&[15, *r]);
            w.b(s.as_bytes())
        }
        Probe::Dir(r) => w.us(&[16, *r]),
        Probe::DirRaw(r) => w.us(&[17, *r]),
        Probe::Find(r, s) => {
            w.us(&[18, *r]);
            w.b(s.as_bytes())
        }
        Probe::Open(r, s) => {
            w.us(&[19, *r]);
            w.b(s.as_bytes())
        }
        Probe::Cmp(n, s) => {
            w.u(20);
            w.n(n);
            w.b(s.as_bytes())
        }
    }
}
fn read_probe(r: &mut Rd) -> Probe {
    let opt = |x: u64| if x == u64::MAX { None } else { Some(x) };
    match r.u() {
        0 => Probe::Volume,
        1 => Probe::VolInfo,
        2 => Probe::VolName,
        3 => Probe::Root,
        4 => Probe::File(r.u()),
        5 => Probe::Attrs(r.u()),
        6 => Probe::RawAttrs(r.u()),
        7 => Probe::List(r.u()),
        8 => Probe::Info(r.u()),
        9 => Probe::Name(r.u(), opt(r.u()).map(|x| x as u8), opt(r.u())),
        k @ (10 | 11) => {
            let (rec, t, o, l) = (r.u(), r.u() as u32, r.u(), r.u() as u32);
            let n = r.n();
            if k == 10 { Probe::Read(rec, t, n, o, l) } else { Probe::Attach(rec, t, n, o, l) }
        }
        12 => Probe::Attached(r.u()),
        13 => Probe::Runs(r.u(), r.u() as u32, r.n()),
        14 => Probe::Struct(r.u(), r.u() as u32, r.n()),
        15 => Probe::Data(r.u(), r.s()),
        16 => Probe::Dir(r.u()),
        17 => Probe::DirRaw(r.u()),
        18 => Probe::Find(r.u(), r.s()),
        19 => Probe::Open(r.u(), r.s()),
        20 => Probe::Cmp(r.n(), r.s()),
        x => panic!("probe {x}"),
    }
}
const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::PermissionDenied];

fn image(w: &mut W, i: &Image) {
    let (pages, extents) = (i.explicit_pages(), i.extents());
    w.u(i.size);
    w.u(i.poison);
    w.u(extents.len() as u64);
    for (pos, e) in extents {
        for x in [pos, e.len, e.seed, e.stream_off] {
            w.u(x);
        }
    }
    w.u(pages.len() as u64);
    for k in pages {
        w.u(k);
        w.0.extend(i.get(k * PAGE, PAGE as usize));
    }
}
fn read_image(r: &mut Rd) -> Image {
    let mut i = Image::new(r.u(), r.u());
    for _ in 0..r.u() {
        i.add_extent(r.u(), r.u(), r.u(), r.u());
    }
    for _ in 0..r.u() {
        let k = r.u();
        i.set_page(k, r.take(PAGE as usize));
    }
    i
}

/// The cases of these seeds, with or without the upcase table and what needs it, small or not.
pub fn pack(file: &str, upcase: bool, tiny: bool, seeds: &[String]) {
    let mut w = W(vec![]);
    // A volume may be too small for what it should hold.
    let cases: Vec<(u64, WCase)> = seeds.iter().map(|s| s.parse().unwrap()).filter_map(|s| Some((s, std::panic::catch_unwind(|| wcase(s, tiny)).ok()?))).collect();
    w.u(cases.len() as u64);
    for (seed, c) in cases {
        w.u(seed);
        w.b(c.kind.as_bytes());
        image(&mut w, &c.disk.img);
        w.u(c.disk.size);
        match &c.disk.delivery {
            Delivery::Random(p) => w.us(&[1, p.0]),
            _ => w.u(0),
        }
        match &c.disk.interrupts {
            Some((p, n)) => w.us(&[1, p.0, *n]),
            None => w.u(0),
        }
        w.u(c.disk.faults.len() as u64);
        for f in &c.disk.faults {
            w.us(&[f.at, f.count, KINDS.iter().position(|k| *k == f.kind).unwrap() as u64]);
        }
        w.u(c.probes.len() as u64);
        for q in &c.probes {
            probe(&mut w, q);
        }
        w.u(upcase as u64);
        let a = answers(&c, upcase);
        w.u(a.len() as u64);
        for x in a {
            w.b(x.as_bytes());
        }
    }
    std::fs::write(file, w.0).unwrap();
}

/// Asks again, and compares; no new case after so many seconds.
pub fn check(file: &str, secs: u64) -> i32 {
    let t0 = std::time::Instant::now();
    let bytes = std::fs::read(file).unwrap();
    check_bytes(&bytes, 0, &mut |l| println!("{l}"), &mut || t0.elapsed().as_secs() < secs)
}

/// Asks again from the given case on, and compares, as long as `more` says so.
pub fn check_bytes(bytes: &[u8], from: u64, say: &mut dyn FnMut(String), more: &mut dyn FnMut() -> bool) -> i32 {
    let mut r = Rd(bytes);
    let mut bad = 0;
    let n = r.u();
    let mut done = 0;
    for at in 0..n {
        if done > 0 && !more() {
            break;
        }
        let seed = r.u();
        let kind = r.s();
        let mut disk = MonDisk::new(Arc::new(read_image(&mut r)));
        disk.size = r.u();
        if r.u() == 1 {
            disk.delivery = Delivery::Random(Prng(r.u()));
        }
        if r.u() == 1 {
            disk.interrupts = Some((Prng(r.u()), r.u()));
        }
        for _ in 0..r.u() {
            disk.faults.push(Fault { at: r.u(), count: r.u(), kind: KINDS[r.u() as usize] });
        }
        let probes: Vec<Probe> = (0..r.u()).map(|_| read_probe(&mut r)).collect();
        let c = WCase { disk, probes, kind: "packed" };
        let upcase = r.u() == 1;
        let want: Vec<String> = (0..r.u()).map(|_| r.s()).collect();
        if at < from {
            continue;
        }
        done += 1;
        say(format!("START {at} {seed} {}", want.iter().any(|x| x.starts_with("PANIC"))));
        let got = answers(&c, upcase);
        let mut here = 0;
        for (k, (g, e)) in got.iter().zip(&want).enumerate() {
            if g != e {
                here += 1;
                if bad + here <= 3 {
                    say(format!("MISMATCH {seed} {k} :: here «{}» there «{}»", g.replace('\n', "\\n"), e.replace('\n', "\\n")));
                }
            }
        }
        if got.len() != want.len() {
            here += 1;
            say(format!("MISMATCH {seed} count :: here {} answers, there {}", got.len(), want.len()));
        }
        say(format!("CASE {seed} {kind} {} {}", got.len(), got.iter().filter(|x| x.starts_with("ERR")).count()));
        bad += here;
    }
    say(format!("DONE {done}"));
    (bad > 0) as i32
}
