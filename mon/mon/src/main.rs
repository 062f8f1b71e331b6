#![allow(dead_code)]
#[macro_use]
mod fw;
pub mod walk;
mod wcase;
mod util;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod idx;
mod c09;
mod c10;
mod c11;
mod c12;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
#[cfg(feature = "reader")]
mod c23;
mod c24;
mod c01;
mod c02;
mod drive;
mod c13;
mod c14;
mod c15;

use fw::{Check, Tier};

#[global_allocator]
static A: vmodel::meter::MonAlloc = vmodel::meter::MonAlloc;

static CHECKS: &[&Check] = &[&c01::CHECK, &c02::CHECK, &c03::CHECK, &c04::CHECK, &c05::CHECK, &c06::CHECK, &c07::CHECK, &c08::CHECK, &c09::CHECK, &c10::CHECK, &c11::CHECK, &c12::CHECK, &c13::CHECK, &c14::CHECK, &c15::CHECK, &c16::CHECK, &c17::CHECK, &c18::CHECK, &c19::CHECK, &c20::CHECK, &c21::CHECK, &c22::CHECK, #[cfg(feature = "reader")] &c23::CHECK, &c24::CHECK];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let find = |id: &str| CHECKS.iter().copied().find(|c| c.id == id);
    let code = match get(1).as_str() {
        "run" => match find(&get(2)) {
            Some(_) => parent(&a),
            None => {
                println!("unknown property {}", get(2));
                3
            }
        },
        "child" => {
            let tier = if get(3) == "thorough" { Tier::Thorough } else { Tier::Quick };
            fw::run_child(find(&get(2)).expect("id"), tier, get(4).parse().unwrap_or(1), &get(5))
        }
        "replay" => {
            let tier = if get(4) == "thorough" { Tier::Thorough } else { Tier::Quick };
            let s = get(3);
            let seed = u64::from_str_radix(s.trim_start_matches("0x"), 16).expect("seed");
            fw::replay(find(&get(2)).expect("id"), seed, tier)
        }
        "list" => {
            for c in CHECKS {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            println!("usage: mon run <id> <tier> <seed> <dir> | replay <id> <case seed>");
            3
        }
    };
    std::process::exit(code);
}

/// Runs the check in a child process, so that an abort (stack overflow, failed allocation) is
/// observed and attributed; a wall-clock watchdog ends a stuck child without a verdict.
fn parent(a: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().expect("exe");
    let mut args: Vec<String> = a[1..].to_vec();
    args[0] = "child".into();
    let (id, tier, vseed, dir) = (args[1].clone(), args[2].clone(), args[3].clone(), args[4].clone());
    let limit = std::time::Duration::from_secs(if tier == "thorough" { 36_000 } else { 780 });
    let mut ch = std::process::Command::new(&me).args(&args).spawn().expect("spawn");
    let t0 = std::time::Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            println!("INCONCLUSIVE: wall-clock watchdog ended the run of {id}");
            return 4;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    // Which in-flight case kills the process? Replay each alone.
    let slots = std::fs::read(format!("{dir}/evidence/.slots-{id}")).unwrap_or_default();
    for s in slots.chunks(16) {
        if s.len() < 16 {
            continue;
        }
        let seed = u64::from_le_bytes(s[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(s[8..].try_into().unwrap());
        if idx == 0 {
            continue;
        }
        let r = std::process::Command::new(&me)
            .args(["replay", &id, &format!("{seed:#x}"), &tier])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if let Ok(r) = r {
            if r.code().is_none() && r.signal() != Some(9) {
                let msg = format!("process died with signal {} (abort, stack overflow or failed allocation)", r.signal().unwrap_or(0));
                let rp = fw::write_replay(&dir, &id, &tier, vseed.parse().unwrap_or(1), seed, idx - 1, &msg);
                let ev = format!(
                    "{{\"property\":\"{id}\",\"tier\":\"{tier}\",\"seed\":{vseed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{idx},\"distinct_nontrivial\":1,\"rule\":\"run ended at the first violation\",\"samples\":[\"{msg}\"]}},\"wall_s\":{:.1},\"violations\":1}}",
                    t0.elapsed().as_secs_f64()
                );
                let _ = std::fs::write(format!("{dir}/evidence/{id}.json"), ev);
                println!("VIOLATION property={id} replay={rp}");
                println!("  {msg}");
                return 1;
            }
        }
    }
    println!("INCONCLUSIVE: child of {id} ended by signal {sig}, not reproduced by any in-flight case");
    4
}
