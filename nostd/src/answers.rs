//! The answers of this build to a case.
use crate::{walk, wcase};
use binrw::io::{Error, ErrorKind, Read, Seek, SeekFrom};
use vmodel::disk::MonDisk;

/// The device with the I/O traits of the build without std.
pub struct Dev(pub MonDisk);
fn kind(k: std::io::ErrorKind) -> ErrorKind {
    use std::io::ErrorKind as S;
    match k {
        S::Interrupted => ErrorKind::Interrupted,
        S::UnexpectedEof => ErrorKind::UnexpectedEof,
        S::InvalidInput => ErrorKind::InvalidInput,
        S::InvalidData => ErrorKind::InvalidData,
        S::WouldBlock => ErrorKind::WouldBlock,
        S::PermissionDenied => ErrorKind::PermissionDenied,
        _ => ErrorKind::Other,
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        std::io::Read::read(&mut self.0, buf).map_err(|e| Error::new(kind(e.kind()), "device"))
    }
}
impl Seek for Dev {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, Error> {
        let pos = match pos {
            SeekFrom::Start(n) => std::io::SeekFrom::Start(n),
            SeekFrom::End(n) => std::io::SeekFrom::End(n),
            SeekFrom::Current(n) => std::io::SeekFrom::Current(n),
        };
        std::io::Seek::seek(&mut self.0, pos).map_err(|e| Error::new(kind(e.kind()), "device"))
    }
}

thread_local! {
    pub static AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn guarded(f: impl FnOnce() -> String) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => format!("PANIC {}", AT.with(|a| a.borrow().clone())),
    }
}

/// All answers to a case. The first is about opening the volume.
pub fn answers(c: &wcase::WCase, upcase: bool) -> Vec<String> {
    let mut out = vec![];
    let mut d = Dev(c.disk.clone());
    let mut n = None;
    out.push(guarded(|| match ntfs::Ntfs::new(&mut d) {
        Ok(x) => {
            let s = walk::ask_volume(&x);
            n = Some(x);
            s
        }
        Err(e) => format!("ERR {}", walk::err(&e)),
    }));
    let Some(mut n) = n else { return out };
    let mut up = false;
    let mut d = Dev(c.disk.clone());
    if upcase {
        out.push(guarded(|| match n.read_upcase_table(&mut d) {
            Ok(()) => {
                up = true;
                "upcase".into()
            }
            Err(e) => format!("ERR {}", walk::err(&e)),
        }));
    }
    for q in &c.probes {
        if q.needs_upcase() && !up {
            continue;
        }
        let mut d = Dev(c.disk.clone());
        out.push(guarded(|| walk::render(&walk::ask(&n, &mut d, q))));
    }
    out
}
