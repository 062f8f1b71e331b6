//! C24: ntfs-shell shows and extracts what the volume holds.
use crate::fw::*;
use std::collections::BTreeSet;
use std::os::unix::fs::{FileExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use vmodel::gen::*;
use vmodel::hostile::{apply, Hostile};
use vmodel::image::Image;
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C24",
    level: "exploration",
    rule: "case = a random volume with a tree of directories (hard links, short and long names, attribute lists, sparse and partly initialized streams), written to a file, and a random script of commands (dir, cd, get, fileinfo, attr, attr_runs, fsinfo, help, nonsense) for a real ntfs-shell process; its output and the extracted files are compared with the model; some cases damage the volume first and only demand that the shell goes on to its end. Non-trivial: distinct (command, output)",
    cases: (2400, 60_000),
    secs: (40, 900),
    run,
    need: &["dir", "cd", "cd_up", "cd_missing", "cd_not_a_directory", "get", "get_stream", "get_existing", "get_missing", "fileinfo", "attr", "attr_runs", "fsinfo", "help", "nonsense", "hard_links", "dos_names", "other_case", "by_number", "damaged", "damaged_refused"],
    assumptions: &["names that a command line cannot express (leading or trailing spaces, a leading slash, a colon) are not typed", "extraction of damaged files ends where the file size limit of the process ends"],
    limits: (20_000_000_000, 2 << 30),
};

static SCRATCH: AtomicU64 = AtomicU64::new(0);
/// A directory that goes with the case.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("MON_SHELL_DIR").expect("MON_SHELL_DIR says where the shell is and may work; check.sh sets it");
        let d = Path::new(&base).join(format!("case-{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
        let out = d.join("out");
        std::fs::create_dir_all(&out).unwrap();
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::set_permissions(&out, std::fs::Permissions::from_mode(0o777)).unwrap();
        Scratch(d)
    }
    fn out(&self, name: &str) -> PathBuf {
        self.0.join("out").join(name)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn dump(img: &Image, to: &Path) {
    let f = std::fs::File::create(to).unwrap();
    // The device goes on behind the volume: its end is a matter of the sector reader (C23).
    f.set_len(img.size + (64 << 10)).unwrap();
    let mut pages: BTreeSet<u64> = img.explicit_pages().into_iter().collect();
    for (pos, e) in img.extents() {
        if e.len > 0 {
            pages.extend(pos / 4096..=(pos + e.len - 1) / 4096);
        }
    }
    for k in pages {
        let n = (img.size - (k * 4096).min(img.size)).min(4096) as usize;
        f.write_all_at(&img.get(k * 4096, n), k * 4096).unwrap();
    }
}

/// Output per command; None if it was stopped for its use of resources.
fn shell(s: &Scratch, script: &str) -> Result<Option<(String, std::process::ExitStatus)>, String> {
    let base = std::env::var("MON_SHELL_DIR").unwrap();
    let log = s.0.join("log");
    let o = std::fs::OpenOptions::new().create(true).append(true).open(&log).unwrap();
    let input = s.0.join("input");
    std::fs::write(&input, script).unwrap();
    // Without privileges: nothing but its directory can be written to.
    let mut c = Command::new("bash");
    c.args(["-c", "ulimit -f 16384 -t 20 -c 0; exec \"$@\"", "sh"]).arg(Path::new(&base).join("ntfs-shell")).arg(s.0.join("image"));
    c.current_dir(s.0.join("out")).uid(65534).gid(65534).stdin(std::fs::File::open(&input).unwrap()).stdout(o.try_clone().unwrap()).stderr(o).env_clear().env("RUST_BACKTRACE", "0").env("PATH", "/usr/bin:/bin");
    let st = c.stdin(Stdio::from(std::fs::File::open(&input).unwrap())).status().map_err(|e| format!("HARNESS: cannot start the shell: {e}"))?;
    let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap()).into_owned();
    // SIGXFSZ, SIGXCPU, SIGKILL
    if matches!(st.signal(), Some(25 | 24 | 9)) {
        return Ok(None);
    }
    Ok(Some((text, st)))
}
/// (current directory, output) per prompt.
fn parse(text: &str) -> Vec<(String, String)> {
    text.split("ntfs-shell:\\").skip(1).map(|x| x.split_once("> ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((x.to_string(), String::new()))).collect()
}

fn name(p: &mut Prng) -> String {
    loop {
        let n = p.range(1, 14);
        let s: String = (0..n).map(|_| *p.pick(&['a', 'B', 'c', 'D', 'e', 'X', 'y', 'Z', '0', '7', '.', '_', '-', '~', ' ', 'é', 'Ж', '東', '$', '(', '\u{1F600}'])).collect();
        if s.trim() == s && s != "." && s != ".." {
            return s;
        }
    }
}
fn other_case(p: &mut Prng, s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_alphabetic() && p.chance(1, 2) { (c as u8 ^ 0x20) as char } else { c }).collect()
}

struct Node {
    rec: u64,
    seq: u16,
    dir: bool,
    /// Directory, names with namespaces.
    links: Vec<(usize, Vec<(String, u8)>)>,
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let p = &mut p;
    let mut g = Geo::simple();
    g.sector = *p.pick(&[512, 512, 512, 1024, 4096]);
    g.cluster = g.sector.max(*p.pick(&[512, 1024, 4096, 4096, 16384]));
    g.frs = *p.pick(&[1024, 1024, 2048, 4096]).max(&g.sector.min(4096));
    g.irs = *p.pick(&[1024, 4096, 4096]).max(&g.sector.min(4096));
    g.clusters = (24 << 20) / g.cluster as u64 + p.below(9);
    let mut b = Builder::new(g.clone(), Opts { nrec: 90, upcase: UpKind::Ascii, ..Opts::default() }, p.u64());
    // The tree.
    let mut nodes: Vec<Node> = vec![Node { rec: 5, seq: 5, dir: true, links: vec![] }];
    let mut used: Vec<BTreeSet<Vec<u16>>> = vec![BTreeSet::new()];
    for _ in 0..p.range(1, 14) {
        let Some(rec) = b.new_rec() else { break };
        let dir = p.chance(1, 3);
        let mut node = Node { rec, seq: p.range(1, 0xffff) as u16, dir, links: vec![] };
        let dirs: Vec<usize> = (0..nodes.len()).filter(|k| nodes[*k].dir).collect();
        for _ in 0..if dir { 1 } else { *p.pick(&[1, 1, 1, 2, 3]) } {
            let d = *p.pick(&dirs);
            let mut names = vec![];
            for ns in p.pick(&[&[3u8][..], &[1], &[1, 2], &[2, 1], &[0]]).iter() {
                let n = name(p);
                if used[d].insert(b.up(&u16s(&n))) {
                    names.push((n, *ns));
                }
            }
            if !names.is_empty() {
                node.links.push((d, names));
            }
        }
        if node.links.is_empty() {
            continue;
        }
        used.push(BTreeSet::new());
        nodes.push(node);
    }
    let mut entries: Vec<Vec<(FName, u64)>> = vec![vec![]; nodes.len()];
    for k in 0..nodes.len() {
        let n = &nodes[k];
        let mut s = FileSpec::new(n.rec, n.dir);
        s.seq = n.seq;
        s.links = p.u64() as u16;
        s.attrs.push(std_attr(p));
        let base = FName { attrs: if n.dir { 0x1000_0000 } else { 0x20 }, ..FName::random(p, 0, &[]) };
        for (d, names) in &n.links {
            let par = mft_ref(nodes[*d].rec, nodes[*d].seq);
            for (nm, ns) in names {
                let f = FName { parent: par, ns: *ns, name: u16s(nm), ..base.clone() };
                entries[*d].push((f.clone(), mft_ref(n.rec, n.seq)));
                s.attrs.push(Attr::res(FILENAME, "", f.bytes()));
            }
        }
        if !n.dir {
            let at = file_attrs(&mut b, &RichOpt { huge: false, stream_clusters: if g.cluster > 4096 { 3 } else { 12 }, ..RichOpt::default() });
            s.attrs.extend(at.into_iter().filter(|a| {
                let t = String::from_utf16(&a.name).unwrap_or(":".into());
                a.ty != DATA || t.trim() == t && !t.contains([':', '/', '\\', '\0'])
            }));
            if p.chance(1, 3) {
                scatter_attrs(&mut b, &mut s);
            }
            if !write_fitting(&mut b, s) {
                return Ok(());
            }
        }
    }
    for k in 0..nodes.len() {
        let n = &nodes[k];
        if !n.dir {
            continue;
        }
        let mut s = FileSpec::new(n.rec, true);
        s.seq = n.seq;
        s.attrs.push(std_attr(p));
        for (d, names) in &n.links {
            for (nm, ns) in names {
                let f = FName { attrs: 0x1000_0000, ns: *ns, ..FName::simple(mft_ref(nodes[*d].rec, nodes[*d].seq), &u16s(nm)) };
                s.attrs.push(Attr::res(FILENAME, "", f.bytes()));
            }
        }
        if k == 0 {
            s.attrs.push(name_attr(p, mft_ref(5, 5), &u16s(".")));
        }
        let mut fill = IdxFill::random(p);
        fill.root = 200;
        if b.write_dir(s, entries[k].clone(), fill, None).is_none() {
            return Ok(());
        }
    }
    let label = if p.chance(2, 3) { Some(name(p)) } else { None };
    let mut s = FileSpec::new(3, false);
    s.seq = 3;
    s.attrs.push(std_attr(p));
    if let Some(l) = &label {
        s.attrs.push(Attr::res(VOLNAME, "", names_bytes(&u16s(l))));
    }
    let version = (p.u64() as u8, p.u64() as u8);
    let mut vi = vec![0u8; 12];
    (vi[8], vi[9]) = version;
    s.attrs.push(Attr::res(VOLINFO, "", vi));
    if !write_fitting(&mut b, s) {
        return Ok(());
    }
    let v = b.finish();

    let sc = Scratch::new();
    let damaged = p.chance(1, 4);
    if damaged {
        let h = Hostile::new(&v);
        let mut img = (*v.img).clone();
        for _ in 0..p.range(1, 4) {
            apply(&mut img, &h.mutate(p));
        }
        dump(&img, &sc.0.join("image"));
    } else {
        dump(&v.img, &sc.0.join("image"));
    }
    let mut st = State { v: &v, nodes: &nodes, label, version, cwd: vec![(0, String::new())], made: BTreeSet::new(), counts: vec![] };
    let mut script = String::new();
    let mut steps = vec![];
    for _ in 0..p.range(3, 24) {
        let (cmd, want) = st.command(p);
        script += &cmd;
        script.push('\n');
        let path: Vec<&str> = st.cwd[1..].iter().map(|x| x.1.as_str()).collect();
        steps.push((cmd, want, path.join("\\")));
    }
    let quits = p.chance(1, 2);
    if quits {
        script += *p.pick(&["exit\n", "quit\n"]);
    }
    let Some((text, status)) = shell(&sc, &script).unwrap_or_else(|e| panic!("{e}")) else {
        ensure!(damaged, "the shell does not end within its limits; script {script:?}");
        return Ok(());
    };
    let tail = |t: &str| t.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
    if damaged && text.matches("panicked at").count() == 1 && text.contains("key must exist for a found Index Entry") {
        return ctx.known_or("entry-without-key", format!("the shell crashes on an index entry without a key; script {script:?}"));
    }
    ensure!(!text.contains("panicked at") && status.code().is_some(), "the shell crashes ({status}{}): {}; script {script:?}", if damaged { ", damaged volume" } else { "" }, tail(&text));
    let got = parse(&text);
    if damaged {
        ctx.count("damaged", 1);
        if got.is_empty() {
            // Refused as a whole.
            ensure!(status.code() == Some(1) && text.contains("Error: "), "the shell ends with {status}: {}", tail(&text));
            ctx.count("damaged_refused", 1);
            return Ok(());
        }
        ensure!(status.success() && got.len() == steps.len() + 1, "the shell ends with {status} after {} of {} commands: {}", got.len().saturating_sub(1), steps.len(), tail(&text));
        return Ok(());
    }
    ensure!(status.success() && got.len() == steps.len() + 1, "the shell ends with {status} after {} of {} commands: {}", got.len().saturating_sub(1), steps.len(), tail(&text));
    for (k, (cmd, want, path)) in steps.iter().enumerate() {
        let out = &got[k].1;
        ensure!(got[k + 1].0 == *path, "after {cmd:?} the current directory is {:?} instead of {path:?}", got[k + 1].0);
        if let Some(arg) = cmd.strip_prefix("get").map(str::trim_start).filter(|a| a.starts_with('/')) {
            let name = arg.replacen(':', "_", 1);
            if out.starts_with(&format!("Error: Tried to open \"{name}\" for writing")) {
                ctx.known_or("get-by-number", format!("{cmd:?} wants to create {name:?}"))?;
                st.made.retain(|m| m.0 != name[1..]);
                continue;
            }
        }
        let ok = match want {
            Want::Is(w) => out == w,
            Want::Error => out.starts_with("Error: "),
            Want::Lines(w) => {
                let mut a: Vec<&str> = out.lines().collect();
                a.retain(|l| w.1.iter().any(|x| l.starts_with(x)));
                let mut b: Vec<&str> = w.0.iter().map(|x| x.as_str()).collect();
                a.sort_unstable();
                b.sort_unstable();
                a == b && !out.contains("Error: ")
            }
            Want::Fine => !out.contains("Error: ") && !out.is_empty(),
        };
        ensure!(ok, "{cmd:?} in {:?} prints {out:?}, expected {want:?}", got[k].0);
        let mut g = Digest::default();
        g.s(cmd);
        g.s(out);
        ctx.eval(g.0, true);
    }
    // What was extracted, and nothing else.
    let mut files: BTreeSet<String> = std::fs::read_dir(sc.0.join("out")).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    for (f, attr) in &st.made {
        let Some((r, k)) = attr else {
            // Nothing could be found for it: at most an empty file.
            if files.remove(f) {
                ensure!(std::fs::read(sc.out(f)).unwrap().is_empty(), "{f:?} holds something, there is nothing to extract");
            }
            continue;
        };
        ensure!(files.remove(f), "{f:?} was not extracted");
        let have = std::fs::read(sc.out(f)).unwrap();
        let want = v.files[r].attrs[*k].all(&v.img);
        ensure!(have == want, "{f:?}: {} bytes extracted, {} expected, first difference at {:?}", have.len(), want.len(), have.iter().zip(&want).position(|(a, b)| a != b));
    }
    ensure!(files.is_empty(), "files appear that nobody asked for: {files:?}");
    for c in st.counts {
        ctx.count(c, 1);
    }
    Ok(())
}

#[derive(Debug)]
enum Want {
    Is(String),
    Error,
    /// Exactly these lines among those with one of the beginnings, in any order.
    Lines((Vec<String>, Vec<String>)),
    Fine,
}
struct State<'a> {
    v: &'a Vol,
    nodes: &'a [Node],
    label: Option<String>,
    version: (u8, u8),
    /// Directories from the root on, with the names shown.
    cwd: Vec<(usize, String)>,
    /// Extracted files: from which record and attribute, or nothing found.
    made: BTreeSet<(String, Option<(u64, usize)>)>,
    counts: Vec<&'static str>,
}
impl State<'_> {
    /// A name in the current directory as it could be typed.
    fn some(&mut self, p: &mut Prng) -> Option<(usize, String)> {
        let d = self.cwd.last().unwrap().0;
        let mut all = vec![];
        for (k, n) in self.nodes.iter().enumerate() {
            for (x, names) in &n.links {
                if *x == d {
                    all.extend(names.iter().map(|y| (k, y.0.clone(), y.1, n.links.len())));
                }
            }
        }
        if all.is_empty() {
            return None;
        }
        let (k, n, ns, links) = p.pick(&all).clone();
        if ns == 2 {
            self.counts.push("dos_names");
        }
        if links > 1 {
            self.counts.push("hard_links");
        }
        if p.chance(1, 2) {
            let o = other_case(p, &n);
            if o != n {
                self.counts.push("other_case");
            }
            return Some((k, o));
        }
        Some((k, n))
    }
    /// A file by name or number: the record, and how it is typed.
    fn file(&mut self, p: &mut Prng) -> Option<(u64, String)> {
        if p.chance(1, 3) {
            self.counts.push("by_number");
            let n = p.pick(self.nodes);
            return Some((n.rec, if p.chance(1, 2) { format!("/{}", n.rec) } else { format!("/0x{:x}", n.rec) }));
        }
        self.some(p).map(|(k, n)| (self.nodes[k].rec, n))
    }
    fn command(&mut self, p: &mut Prng) -> (String, Want) {
        let sep = if p.chance(1, 8) { "  " } else { " " };
        let d = self.cwd.last().unwrap().0;
        loop {
            match p.below(15) {
                0 | 1 => {
                    self.counts.push("dir");
                    let t = &self.v.dirs[&self.nodes[d].rec];
                    let w = t.names.iter().map(|n| format!("{:5}  {}\n", if n.attrs & 0x1000_0000 != 0 { "<DIR>" } else { "" }, String::from_utf16(&n.name).unwrap())).collect();
                    return ("dir".into(), Want::Is(w));
                }
                2..=4 => {
                    let Some((k, n)) = self.some(p) else { continue };
                    if !self.nodes[k].dir {
                        if !p.chance(1, 3) {
                            continue;
                        }
                        self.counts.push("cd_not_a_directory");
                        return (format!("cd{sep}{n}"), Want::Is(format!("\"{n}\" is not a directory.\n")));
                    }
                    // The long name is shown.
                    let names: Vec<&(String, u8)> = self.nodes[k].links.iter().filter(|l| l.0 == d).flat_map(|l| &l.1).collect();
                    let best = [1, 3].iter().find_map(|ns| names.iter().find(|x| x.1 == *ns)).unwrap_or(&names[0]);
                    self.cwd.push((k, best.0.clone()));
                    self.counts.push("cd");
                    return (format!("cd{sep}{n}"), Want::Is(String::new()));
                }
                5 => {
                    if self.cwd.len() > 1 {
                        self.cwd.pop();
                        self.counts.push("cd_up");
                    }
                    return (format!("cd{sep}.."), Want::Is(String::new()));
                }
                6 => {
                    self.counts.push("cd_missing");
                    return (format!("cd{sep}no such directory"), Want::Is("Cannot find subdirectory \"no such directory\".\n".into()));
                }
                7 | 8 => {
                    let Some((rec, n)) = self.file(p) else { continue };
                    let t = &self.v.files[&rec];
                    // A stream by name, in any case.
                    let streams: Vec<(usize, String)> = t.attrs.iter().enumerate().filter(|x| x.1.ty == DATA).map(|(k, a)| (k, String::from_utf16(&a.name).unwrap())).collect();
                    let (at, stream) = if !streams.is_empty() && p.chance(4, 5) {
                        let (k, s) = p.pick(&streams).clone();
                        (Some(k), if p.chance(1, 3) { other_case(p, &s) } else { s })
                    } else if p.chance(1, 2) {
                        (streams.iter().find(|s| s.1.is_empty()).map(|s| s.0), String::new())
                    } else {
                        (None, "no such stream".into())
                    };
                    let file = n.trim_start_matches('/');
                    let out = if stream.is_empty() { file.to_string() } else { format!("{file}_{stream}") };
                    let cmd = if stream.is_empty() { format!("get{sep}{n}") } else { format!("get{sep}{n}:{stream}") };
                    if out.len() > 255 {
                        // No file of such a name can be made here.
                        self.counts.push("get_long");
                        return (cmd, Want::Error);
                    }
                    if self.made.iter().any(|m| m.0 == out) {
                        self.counts.push("get_existing");
                        return (cmd, Want::Error);
                    }
                    self.made.insert((out.clone(), at.map(|k| (rec, k))));
                    return match at {
                        Some(k) => {
                            self.counts.push(if stream.is_empty() { "get" } else { "get_stream" });
                            (cmd, Want::Is(format!("Saving {} bytes of data in \"{out}\"...\n", t.attrs[k].data_size)))
                        }
                        None => {
                            self.counts.push("get_missing");
                            (cmd, Want::Is(format!("The file does not have a \"{stream}\" $DATA attribute.\n")))
                        }
                    };
                }
                9 => {
                    let (cmd, out) = match p.below(4) {
                        0 => ("get".to_string(), ""),
                        1 => (format!("{}{sep}no such file", p.pick(&["fileinfo", "attr", "attr_runs"])), ""),
                        2 => (format!("{}{sep}/{}", p.pick(&["fileinfo", "attr"]), p.pick(&["zz", "99999999999999999999999", "0x", "-1", "18446744073709551615", "1000000"])), ""),
                        _ => (format!("get{sep}nothing"), "nothing"),
                    };
                    if !out.is_empty() {
                        self.made.insert((out.into(), None));
                    }
                    self.counts.push("get_missing");
                    return (cmd, Want::Error);
                }
                10 => {
                    let Some((rec, n)) = self.file(p) else { continue };
                    self.counts.push("fileinfo");
                    let t = &self.v.files[&rec];
                    let mut w = vec![
                        format!("{:34}{}", "Allocated Size:", self.v.geo.frs),
                        format!("{:34}{:#x}", "Byte Position:", self.v.rec_pos(rec).unwrap()),
                        format!("{:34}{}", "Data Size:", t.used),
                        format!("{:34}{}", "Hard-Link Count:", t.links),
                        format!("{:34}{}", "Is Directory:", t.flags & 2 != 0),
                        format!("{:34}{:#x}", "Record Number:", rec),
                        format!("{:34}{}", "Sequence Number:", t.seq),
                    ];
                    for a in &t.attrs {
                        if a.ty == FILENAME {
                            let b = &a.bytes;
                            let u: Vec<u16> = b[66..66 + 2 * b[64] as usize].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                            w.push(format!("{:34}\"{}\"", "Name:", String::from_utf16_lossy(&u)));
                            w.push(format!("{:34}{}", "Namespace:", ["Posix", "Win32", "Dos", "Win32AndDos"][b[65] as usize]));
                            w.push(format!("{:34}{:#x}", "Parent Directory Record Number:", u64::from_le_bytes(b[..8].try_into().unwrap()) & 0xffff_ffff_ffff));
                        }
                        if a.ty == DATA {
                            w.push(format!("{:34}\"{}\"", "Name:", String::from_utf16(&a.name).unwrap()));
                            w.push(format!("{:34}{}", "Size:", a.data_size));
                        }
                    }
                    let keys = ["Allocated Size:", "Byte Position:", "Data Size:", "Hard-Link", "Is Dir", "Record Number:", "Sequence", "Name:", "Namespace:", "Parent Dir", "Size:"];
                    return (format!("fileinfo{sep}{n}"), Want::Lines((w, keys.iter().map(|k| k.to_string()).collect())));
                }
                11 | 12 => {
                    let Some((rec, n)) = self.file(p) else { continue };
                    let runs = p.chance(1, 2);
                    let cmd = if runs { "attr_runs" } else { "attr" };
                    self.counts.push(if runs { "attr_runs" } else { "attr" });
                    let t = &self.v.files[&rec];
                    if t.list.is_some() {
                        return (format!("{cmd}{sep}{n}"), Want::Fine);
                    }
                    let mut w = vec![];
                    for a in &t.attrs {
                        let ty = ty_name(a.ty);
                        let pos = format!("{:#x}", a.header_pos);
                        w.push(format!("{:<10} | {:<20} | {:<8} | {:>#13x} | {:>18} | {:>13} | \"{}\"", format!("● {}", a.instance), ty, a.resident, rec, pos, a.data_size, String::from_utf16_lossy(&a.name)));
                        if runs && !a.resident {
                            for (i, s) in a.segs.iter().enumerate() {
                                let pos = s.disk.filter(|d| *d != 0).map_or("<NONE>".to_string(), |d| format!("{d:#x}"));
                                w.push(format!("{:<10} | {:<20} | {:<8} | {:>13} | {:>18} | {:>13} |", format!("  ■ {i}"), "DataRun", "", "", pos, s.len));
                            }
                        }
                    }
                    return (format!("{cmd}{sep}{n}"), Want::Lines((w, vec!["●".into(), "  ■".into(), "  ○".into(), "    □".into()])));
                }
                13 => {
                    self.counts.push("fsinfo");
                    let g = &self.v.geo;
                    let w = [
                        format!("{:20}{}", "Cluster Size:", g.cluster),
                        format!("{:20}{}", "File Record Size:", g.frs),
                        format!("{:20}{:#x}", "MFT Byte Position:", self.v.mft_runs[0].lcn.unwrap() * g.cluster as u64),
                        format!("{:20}{}.{}", "NTFS Version:", self.version.0, self.version.1),
                        format!("{:20}{}", "Sector Size:", g.sector),
                        format!("{:20}{}", "Serial Number:", g.serial),
                        format!("{:20}{}", "Size:", g.total_sectors() * g.sector as u64),
                        format!("{:20}{}", "Volume Name:", self.label.as_ref().map_or("<NONE>".to_string(), |l| format!("\"{l}\""))),
                    ];
                    return ("fsinfo".into(), Want::Is(w.join("\n") + "\n"));
                }
                _ => {
                    if p.chance(1, 2) {
                        self.counts.push("help");
                        return (format!("help{}", p.pick(&["", " get", " attr", " attr_runs", " cd", " dir", " fileinfo", " nonsense"])), Want::Fine);
                    }
                    self.counts.push("nonsense");
                    let cmd = *p.pick(&["", "  ", "cd", "frobnicate", "DIR", "dirx", "ls -l"]);
                    return (cmd.into(), if cmd.trim().is_empty() || cmd == "cd" { Want::Is(String::new()) } else { Want::Error });
                }
            }
        }
    }
}
fn ty_name(t: u32) -> &'static str {
    match t {
        0x10 => "StandardInformation",
        0x20 => "AttributeList",
        0x30 => "FileName",
        0x40 => "ObjectId",
        0x50 => "SecurityDescriptor",
        0x60 => "VolumeName",
        0x70 => "VolumeInformation",
        0x80 => "Data",
        0x90 => "IndexRoot",
        0xA0 => "IndexAllocation",
        0xB0 => "Bitmap",
        0xC0 => "ReparsePoint",
        0xD0 => "EAInformation",
        0xE0 => "EA",
        0xF0 => "PropertySet",
        0x100 => "LoggedUtilityStream",
        _ => "?",
    }
}
