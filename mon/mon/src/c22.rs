//! C22: the build without std gives the same answers as the full build.
use crate::fw::*;
use crate::walk;
use crate::wcase::{wcase, WCase};
use ntfs::Ntfs;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vmodel::prng::*;

pub static CHECK: Check = Check {
    id: "C22",
    level: "exploration",
    rule: "case = a random rich volume (well-formed, with structure-aware mutations, truncated, with sizes, positions and numbers around multiples of 2^32, or on a device with short reads, interrupts or failures) and questions over the whole public API, among them the attached readers and iterators; the same case is answered by the library built with std and time and by a second process that links it built with neither, with std only or with time only, and without overflow checks and debug assertions; each answer (values, data, positions, entries, errors by kind and fields) is compared. Non-trivial: distinct answers",
    cases: (2400, 200_000),
    secs: (60, 1500),
    run,
    need: &["well_formed", "hostile", "truncated", "irregular", "wide", "equal_results", "equal_errors", "against_none", "against_std_only", "against_time_only"],
    assumptions: &["messages and sources of I/O errors do not exist without std; their kinds are compared", "the device reports only error kinds that exist in both builds"],
    limits: (20_000_000_000, 4 << 30),
};

const VARIANTS: [&str; 3] = ["none", "std", "time"];

/// The harness with a build of the library with these features.
pub fn nostd(variant: &str) -> String {
    let dir = std::env::var("MON_TARGET").unwrap_or_else(|_| {
        let e = std::env::current_exe().unwrap();
        e.parent().unwrap().parent().unwrap().to_string_lossy().into_owned()
    });
    format!("{dir}/nostd-{variant}/release/nostd")
}

struct Other {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Other {
    fn start(variant: &str) -> Other {
        let path = nostd(variant);
        let mut child = Command::new(&path).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("{path}: {e}"));
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Other { _child: child, to, from }
    }
    /// None: the process died.
    fn ask(&mut self, q: &str) -> Option<String> {
        writeln!(self.to, "{q}").ok()?;
        self.to.flush().ok()?;
        let mut l = String::new();
        self.from.read_line(&mut l).ok()?;
        l.ends_with('\n').then(|| l.trim_end_matches('\n').to_string())
    }
}
thread_local! {
    static OTHER: RefCell<[Option<Other>; 3]> = const { RefCell::new([None, None, None]) };
}
fn other(v: usize, q: &str) -> Option<String> {
    OTHER.with(|o| {
        let o = &mut o.borrow_mut()[v];
        let r = o.get_or_insert_with(|| Other::start(VARIANTS[v])).ask(q);
        if r.is_none() {
            *o = None;
        }
        r
    })
}

fn guarded(f: impl FnOnce() -> String) -> String {
    match guard(f) {
        Ok(s) => s,
        Err(p) if p.harness() => panic!("harness panic: {} at {}", p.msg, p.loc),
        Err(p) => format!("PANIC {}", p.loc),
    }
}
/// All answers to a case, as in the other build.
pub fn answers(c: &WCase) -> Vec<String> {
    let mut out = vec![];
    let mut d = c.disk.clone();
    let mut n = None;
    out.push(guarded(|| match Ntfs::new(&mut d) {
        Ok(x) => {
            let s = walk::ask_volume(&x);
            n = Some(x);
            s
        }
        Err(e) => format!("ERR {}", walk::err(&e)),
    }));
    let Some(mut n) = n else { return out };
    let mut up = false;
    let mut d = c.disk.clone();
    out.push(guarded(|| match n.read_upcase_table(&mut d) {
        Ok(()) => {
            up = true;
            "upcase".into()
        }
        Err(e) => format!("ERR {}", walk::err(&e)),
    }));
    for q in &c.probes {
        if q.needs_upcase() && !up {
            continue;
        }
        let mut d = c.disk.clone();
        out.push(guarded(|| walk::render(&walk::ask(&n, &mut d, q))));
    }
    out
}
fn hash(s: &str) -> u64 {
    let mut g = Digest::default();
    g.s(s);
    g.0
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let c = wcase(seed, false);
    ctx.count(c.kind, 1);
    // Half of the cases against the build without both.
    let v = *Prng::new(seed ^ 0x22).pick(&[0, 0, 1, 2]);
    ctx.count(["against_none", "against_std_only", "against_time_only"][v], 1);
    let name = VARIANTS[v];
    let got = answers(&c);
    let Some(l) = other(v, &format!("{seed} 0")) else { bail!("the process with the build with features {name} died ({} case)", c.kind) };
    let theirs: Vec<u64> = l.split(' ').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    for (k, (g, t)) in got.iter().zip(&theirs).enumerate() {
        if hash(g) != *t {
            let full = other(v, &format!("full {seed} 0 {k}")).unwrap_or_default();
            bail!("{} case, answer {k}: with std and time «{}», with features {name} «{}»", c.kind, g.replace('\n', "\\n"), full);
        }
        ctx.count(if g.starts_with("ERR") { "equal_errors" } else { "equal_results" }, 1);
        ctx.eval(*t, true);
    }
    ensure!(got.len() == theirs.len(), "{} case: {} answers with std and time, {} with features {name}", c.kind, got.len(), theirs.len());
    Ok(())
}
