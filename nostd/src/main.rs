//! The library built without std, driven by the same cases as the full build.
#[allow(dead_code)]
#[path = "../../mon/mon/src/walk.rs"]
mod walk;
#[path = "../../mon/mon/src/wcase.rs"]
mod wcase;
mod answers;
mod packed;

use answers::{answers, AT};
use std::io::{BufRead, Write};
use vmodel::prng::Digest;

pub fn hash(s: &str) -> u64 {
    let mut g = Digest::default();
    g.s(s);
    g.0
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        AT.with(|a| *a.borrow_mut() = l);
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // Answers requests: "<seed> <tiny>" with hashes, "full <seed> <tiny> <k>" with text.
        Some("serve") => {
            let out = std::io::stdout();
            for l in std::io::stdin().lock().lines() {
                let Ok(l) = l else { break };
                let w: Vec<&str> = l.split(' ').collect();
                let mut o = out.lock();
                if w[0] == "full" {
                    let c = wcase::wcase(w[1].parse().unwrap(), w[2] == "1");
                    let t = answers(&c, true);
                    let t = t.get(w[3].parse::<usize>().unwrap()).cloned().unwrap_or_else(|| "no such answer".into());
                    writeln!(o, "{}", t.replace('\\', "\\\\").replace('\n', "\\n")).unwrap();
                } else {
                    let c = wcase::wcase(w[0].parse().unwrap(), w[1] == "1");
                    let t = answers(&c, true);
                    let h: Vec<String> = t.iter().map(|x| format!("{:x}", hash(x))).collect();
                    writeln!(o, "{}", h.join(" ")).unwrap();
                }
                o.flush().unwrap();
            }
        }
        // pack <file> <upcase 0/1> <tiny 0/1> <seed>...: the cases with the answers of this build.
        Some("pack") => packed::pack(&a[2], a[3] == "1", a[4] == "1", &a[5..]),
        // check <file> <seconds>: asks again and compares; for other targets.
        Some("check") => std::process::exit(packed::check(&a[2], a[3].parse().unwrap())),
        _ => println!("nothing to do"),
    }
}
