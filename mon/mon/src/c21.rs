//! C21: interpreted or compiled for targets with other word sizes and byte orders, the library gives the same answers.
use crate::fw::*;
use std::process::{Command, Stdio};
use vmodel::prng::*;

pub static CHECK: Check = Check {
    id: "C21",
    level: "exploration",
    rule: "case = a target (32-bit little-endian, 32-bit big-endian, 64-bit big-endian, interpreted by Miri; 32-bit little-endian compiled to WebAssembly with overflow checks; in the thorough tier also the host with all checks of Miri) and some random volumes (well-formed, with structure-aware mutations, truncated, with sizes, positions and numbers around multiples of 2^32, or on a device with short reads, interrupts or failures) with questions over the public API; the answers of the native build are compared with those on that target. Non-trivial: cases answered on a target",
    cases: (500, 20_000),
    secs: (150, 2400),
    run,
    need: &["wasm32", "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "well_formed", "hostile", "wide", "with_upcase", "results", "errors"],
    assumptions: &["Miri executes a target as that target would", "the WebAssembly engine of node is right"],
    limits: (20_000_000_000, 4 << 30),
};

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let mut target = *p.pick(&["i686-unknown-linux-gnu", "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu"]);
    if ctx.thorough() && p.chance(1, 8) {
        target = "x86_64-unknown-linux-gnu";
    }
    // The upcase table takes long to read there.
    let mut upcase = p.chance(1, 5);
    let mut tiny = true;
    let (mut n, secs) = if ctx.thorough() { (40, 120) } else { (10, 12) };
    // The compiled one is a thousand times faster.
    if !p.chance(1, 18) {
        target = "wasm32";
        upcase = p.chance(2, 3);
        tiny = p.chance(2, 3);
        n = if tiny { 60 } else { 20 };
    }
    let dir = std::path::PathBuf::from(std::env::var("MON_TARGET").unwrap_or_else(|_| {
        let e = std::env::current_exe().unwrap();
        e.parent().unwrap().parent().unwrap().to_string_lossy().into_owned()
    }));
    let root = dir.parent().unwrap();
    let file = dir.join(format!("c21-{seed:016x}.pack"));
    let mut pack = Command::new(crate::c22::nostd("none"));
    pack.arg("pack").arg(&file).arg(if upcase { "1" } else { "0" }).arg(if tiny { "1" } else { "0" });
    for _ in 0..n {
        pack.arg(p.u64().to_string());
    }
    let st = pack.stdout(Stdio::null()).status().unwrap_or_else(|e| panic!("the native build: {e}"));
    ensure!(st.success(), "the native build ends with {st}");
    let mut c = if target == "wasm32" {
        let mut c = Command::new("node");
        c.arg(root.join("wasm32/run.mjs")).arg(dir.join("wasm32/wasm32-unknown-unknown/debug/wasm32.wasm")).arg(&file).arg("60");
        c
    } else {
        let mut c = Command::new("bash");
        c.arg(root.join("nostd/miri.sh")).arg(target).arg("check").arg(&file).arg(secs.to_string()).env("CARGO_TARGET_DIR", dir.join(format!("miri-{target}")));
        c
    };
    let o = c.stdin(Stdio::null()).output().unwrap_or_else(|e| panic!("{target}: {e}"));
    let _ = std::fs::remove_file(&file);
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    for l in out.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "MISMATCH" => bail!("{target}: case {} answer {}: {}", w[1], w[2], l.splitn(5, ' ').last().unwrap()),
            "CASE" => {
                ctx.count(["well_formed", "hostile", "truncated", "irregular", "wide"].iter().find(|k| **k == w[2]).unwrap(), 1);
                let (all, errs): (u64, u64) = (w[3].parse().unwrap(), w[4].parse().unwrap());
                ctx.count("results", all - errs);
                ctx.count("errors", errs);
                ctx.eval(w[1].parse::<u64>().unwrap() ^ vmodel::prng::Prng::new(target.len() as u64).u64(), true);
                if upcase {
                    ctx.count("with_upcase", 1);
                }
            }
            "TRAP" if w[1] == "false" => {
                let at = out.lines().filter(|l| l.starts_with("PANIC")).last().unwrap_or("");
                bail!("{target}: case {} crashes: {l} {at}", out.lines().filter(|l| l.starts_with("START")).last().unwrap_or(""))
            }
            "DONE" => ctx.count(target, w[1].parse().unwrap()),
            _ => {}
        }
    }
    if !o.status.success() || !out.contains("\nDONE ") {
        let text: Vec<&str> = err.lines().filter(|l| l.starts_with("error") || l.contains("-->")).collect();
        // What stops the interpreter is a violation; what stops Cargo is not an answer.
        if err.contains("error: Undefined Behavior") || err.contains("error: abnormal termination") || out.contains("panicked") {
            bail!("{target}: the interpreter stops: {}", text.join(" | "));
        }
        panic!("{target}: no answer: {}", err);
    }
    Ok(())
}
