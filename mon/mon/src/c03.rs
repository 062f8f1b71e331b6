//! C03: reading a non-resident value yields exactly the stored bytes.
use crate::fw::*;
use vmodel::gen::*;
use crate::util::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::NtfsReadSeek;
use std::io::{Read, SeekFrom};
use vmodel::prng::*;
use vmodel::vol::*;

pub static CHECK: Check = Check {
    id: "C03",
    level: "exploration",
    rule: "case = random volume (sector/cluster/record sizes, scattered or dense allocation, padded run encodings, sparse runs, initialized size, preallocation, sizes beyond 4 GiB, runs that start at far or round cluster numbers behind long holes) with several non-resident streams, each read sequentially with random buffer sizes, by windows around run borders / initialized size / end of data / multiples of 4 GiB, run by run, and through std::io::Read; every byte compared with the builder's model. Non-trivial: the stream has more than one run, or a hole, or an uninitialized tail, or exceeds 4 GiB",
    cases: (6000, 400_000),
    secs: (60, 1500),
    run,
    need: &["bytes_compared", "windows", "sparse_runs", "uninit_streams", "over_4gib", "eof_reads", "connected_streams", "runs_at_cluster_0"],
    assumptions: &["the volume builder's format model (run lists, sizes) is right; it is validated against the repository's own real image in C16/C18"],
    limits: (4_000_000_000, 6 << 30),
};

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    let geo = Geo::random(&mut p);
    let opts = Opts { nrec: 24, upcase: UpKind::Ascii, scatter: p.chance(4, 5), ..Opts::default() };
    let mut b = Builder::new(geo.clone(), opts, p.u64());
    let many = p.chance(1, 10);
    let nstreams = if many { 1 } else { p.range(1, 3) };
    let mut targets = vec![];
    let mut spec = FileSpec::new(20, false);
    spec.attrs.push(std_attr(&mut p));
    spec.attrs.push(name_attr(&mut p, 5, &u16s("f")));
    for i in 0..nstreams {
        let huge = p.chance(1, 3) && !many;
        let o = StreamOpt {
            max_clusters: if huge { 1 << 40 } else { (2u64 << 20) / geo.cluster as u64 + 8 },
            max_runs: if many { (geo.frs as u64 - 400) / p.range(5, 9) } else if geo.frs == 1024 { 14 } else { 60 },
            ..StreamOpt::small()
        };
        let (body, flags) = if p.chance(1, 8) { far_stream(&mut b) } else { stream(&mut b, &o) };
        let name = if i == 0 { vec![] } else { u16s(&format!("s{i}")) };
        let mut a = Attr::non(DATA, "", body);
        a.name = name.clone();
        a.flags = flags;
        a.pad = p.chance(1, 4);
        spec.attrs.push(a);
        targets.push(name);
    }
    if p.chance(1, 3) {
        scatter_attrs(&mut b, &mut spec);
    }
    while b.write_file(&spec).is_none() {
        if spec.attrs.len() <= 2 {
            ctx.count("did_not_fit", 1);
            return Ok(());
        }
        spec.attrs.pop();
        compact_groups(&mut spec);
        targets.pop();
    }
    let vol = b.finish();
    let tf = vol.files[&20].clone();
    let (mut d, ntfs) = open(&vol.img)?;
    for name in &targets {
        let t = tf.attrs.iter().find(|a| a.ty == DATA && &a.name == name).unwrap();
        let nontrivial = t.segs.len() > 1 || t.init_size < t.data_size || t.data_size > 1 << 32 || t.segs.iter().any(|s| s.disk.is_none());
        let mut dg = Digest::default();
        for s in &t.segs {
            dg.u(s.len);
            dg.u(s.disk.unwrap_or(0));
        }
        dg.u(t.data_size);
        dg.u(t.init_size);
        ctx.eval(dg.0, nontrivial);
        ctx.max("max_runs", t.segs.len() as u64);
        ctx.count("runs", t.segs.len() as u64);
        ctx.count("runs_at_cluster_0", t.segs.iter().filter(|s| s.disk == Some(0)).count() as u64);
        ctx.count("sparse_runs", t.segs.iter().filter(|s| s.disk.is_none()).count() as u64);
        ctx.count("uninit_streams", (t.init_size < t.data_size) as u64);
        ctx.count("over_4gib", (t.data_size > 1 << 32) as u64);
        ctx.sample(|| format!("seed {seed:#x} cluster {} data_size {} init {} runs {:?}", geo.cluster, t.data_size, t.init_size, t.runs.iter().take(6).collect::<Vec<_>>()));
        with_value(&ntfs, &mut d, 20, DATA, name, |d, v, attr| {
            let what = |x: &str| format!("{x}: stream data_size={} init={} cluster={} runs={:?}", t.data_size, t.init_size, geo.cluster, t.runs.iter().take(20).collect::<Vec<_>>());
            ensure!(attr.value_length() == t.data_size, "{}", what(&format!("value_length {}", attr.value_length())));
            ensure!(v.len() == t.data_size, "{}", what(&format!("len {}", v.len())));
            ensure!(v.is_empty() == (t.data_size == 0), "{}", what("is_empty"));
            // run by run
            if let NtfsAttributeValue::NonResident(nr) = &v {
                let mut n = 0;
                for r in nr.data_runs() {
                    let mut r = r.map_err(|e| e2v("data_runs", e))?;
                    ensure!(n < t.segs.len(), "{}", what("more data runs than stored"));
                    let s = &t.segs[n];
                    ensure!(r.allocated_size() == s.len, "{}", what(&format!("run {n} allocated_size {} expected {}", r.allocated_size(), s.len)));
                    let off = p.below(s.len);
                    let m = (s.len - off).min(p.range(1, 3000)) as usize;
                    let mut buf = vec![0xA5; m];
                    r.seek(d, SeekFrom::Start(off)).map_err(|e| e2v("run seek", e))?;
                    r.read_exact(d, &mut buf).map_err(|e| e2v("run read", e))?;
                    let mut ex = vec![0; m];
                    if let Some(dp) = s.disk {
                        d.img.read(dp + off, &mut ex);
                    }
                    ensure!(buf == ex, "{}", what(&format!("run {n} raw content at {off}")));
                    n += 1;
                }
                ensure!(n == t.segs.len(), "{}", what(&format!("{n} data runs instead of {}", t.segs.len())));
            } else {
                ensure!(tf.list.is_some() && !attr.is_resident(), "{}", what("value is not the plain non-resident kind"));
                ctx.count("connected_streams", 1);
            }
            // windows
            let mut w = v.clone();
            for _ in 0..12 {
                let off = interesting(t, &mut p);
                let got = w.seek(d, SeekFrom::Start(off)).map_err(|e| e2v(&what("seek"), e))?;
                ensure!(got == off && w.stream_position() == off, "{}", what(&format!("seek to {off} reports {got}")));
                let n = p.skewed(16) as usize;
                let avail = t.data_size.saturating_sub(off).min(n as u64) as usize;
                let mut buf = vec![0xA5u8; n];
                let mut got = 0;
                while got < n {
                    let r = w.read(d, &mut buf[got..]).map_err(|e| e2v(&what("read"), e))?;
                    ensure!(r <= n - got, "{}", what("read returned more than the buffer"));
                    if r == 0 {
                        break;
                    }
                    got += r;
                }
                ensure!(got == avail, "{}", what(&format!("window at {off}+{n}: {got} bytes instead of {avail}")));
                ensure!(w.stream_position() == off + got as u64, "{}", what("stream position after read"));
                ensure!(buf[got..].iter().all(|x| *x == 0xA5), "{}", what(&format!("bytes beyond the returned count were written at {off}+{got}")));
                let mut ex = vec![0; got];
                t.expect(&d.img, off, &mut ex);
                if let Some(i) = diff(&buf[..got], &ex) {
                    bail!("{}", what(&format!("window at {off}: byte {} is {} expected {}", off + i as u64, hex(&buf[i..got]), hex(&ex[i..]))));
                }
                ctx.count("windows", 1);
                ctx.count("bytes_compared", got as u64);
                ctx.count("eof_reads", (got < n) as u64);
            }
            // sequential
            if t.data_size <= 3 << 20 {
                let ex = t.all(&d.img);
                let mut v2 = v.clone();
                let mut out: Vec<u8> = vec![];
                let bufmax = *p.pick(&[7u64, 100, 512, 4096, 5000, 70_000, 4 << 20]);
                loop {
                    let n = if bufmax < 100 && t.data_size > 20_000 { p.range(1, 3000) } else { p.range(0, bufmax) } as usize;
                    let mut buf = vec![0x5A; n];
                    let r = v2.read(d, &mut buf).map_err(|e| e2v(&what("sequential read"), e))?;
                    ensure!(r <= n, "{}", what("read returned more than the buffer"));
                    ensure!(buf[r..].iter().all(|x| *x == 0x5A), "{}", what("bytes beyond the returned count were written"));
                    out.extend_from_slice(&buf[..r]);
                    if n > 0 && r == 0 {
                        break;
                    }
                    ensure!(out.len() as u64 <= t.data_size, "{}", what("sequential read passes the data size"));
                }
                if let Some(i) = diff(&out, &ex) {
                    bail!("{}", what(&format!("sequential read: {} bytes of {}, first difference at {i}: {} expected {}", out.len(), ex.len(), hex(&out[i.min(out.len())..]), hex(&ex[i.min(ex.len())..]))));
                }
                ctx.count("bytes_compared", ex.len() as u64);
                let mut all = vec![];
                v.clone().attach(d).read_to_end(&mut all).map_err(|e| Viol::from(what(&format!("read_to_end: {e}"))))?;
                ensure!(all == ex, "{}", what("read_to_end through attach() differs"));
                // exactly-sized and one-too-many read_exact
                let mut v3 = v.clone();
                let mut buf = vec![0; ex.len()];
                v3.read_exact(d, &mut buf).map_err(|e| e2v(&what("read_exact of everything"), e))?;
                ensure!(buf == ex, "{}", what("read_exact of everything differs"));
                let mut one = [0u8; 1];
                ensure!(v3.read_exact(d, &mut one).is_err(), "{}", what("read_exact past the end succeeds"));
                let r = v3.read(d, &mut one).map_err(|e| e2v(&what("read at end"), e))?;
                ensure!(r == 0, "{}", what("read at the end returns data"));
                ctx.count("eof_reads", 2);
            }
            Ok(())
        })?;
    }
    Ok(())
}
