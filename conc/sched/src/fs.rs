//! Files that live in memory, one file system per execution.
use crate::*;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Mutex as RealMutex;

#[derive(Default)]
struct Disk {
    exec: u64,
    files: BTreeMap<PathBuf, Vec<u8>>,
    writes: u64,
    fail_at: Option<u64>,
}
static DISK: RealMutex<Disk> = RealMutex::new(Disk { exec: 0, files: BTreeMap::new(), writes: 0, fail_at: None });

fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let mut d = DISK.lock().unwrap_or_else(|e| e.into_inner());
    if d.exec != exec_no() {
        d.exec = exec_no();
        d.files.clear();
        d.writes = 0;
        d.fail_at = None;
    }
    f(&mut d)
}

/// Everything that reached the files so far (what a crash would leave behind).
pub fn snapshot() -> BTreeMap<PathBuf, Vec<u8>> {
    with(|d| d.files.clone())
}

/// Every write after the first `k` fails in this execution.
pub fn fail_after(k: u64) {
    with(|d| d.fail_at = Some(k))
}
pub fn writes() -> u64 {
    with(|d| d.writes)
}

#[derive(Debug)]
pub struct File {
    path: PathBuf,
    pos: usize,
    append: bool,
    write: bool,
}

#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}

impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, v: bool) -> &mut Self { self.read = v; self }
    pub fn write(&mut self, v: bool) -> &mut Self { self.write = v; self }
    pub fn append(&mut self, v: bool) -> &mut Self { self.append = v; self }
    pub fn truncate(&mut self, v: bool) -> &mut Self { self.truncate = v; self }
    pub fn create(&mut self, v: bool) -> &mut Self { self.create = v; self }
    pub fn create_new(&mut self, v: bool) -> &mut Self { self.create_new = v; self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        if !is_aborting() {
            point(Op::Fs);
        }
        let p = p.as_ref().to_path_buf();
        with(|d| {
            let there = d.files.contains_key(&p);
            if self.create_new && there {
                return Err(io::Error::from(io::ErrorKind::AlreadyExists));
            }
            if !there && !(self.create || self.create_new) {
                return Err(io::Error::from(io::ErrorKind::NotFound));
            }
            let f = d.files.entry(p.clone()).or_default();
            if self.truncate {
                f.clear();
            }
            Ok(File { path: p, pos: 0, append: self.append, write: self.write || self.append })
        })
    }
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !is_aborting() {
            point(Op::Fs);
        }
        if !self.write {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        with(|d| {
            d.writes += 1;
            if d.fail_at.is_some_and(|k| d.writes > k) {
                return Err(io::Error::other("no space left on device"));
            }
            let f = d.files.entry(self.path.clone()).or_default();
            let at = if self.append { f.len() } else { self.pos };
            if f.len() < at + b.len() {
                f.resize(at + b.len(), 0);
            }
            f[at..at + b.len()].copy_from_slice(b);
            self.pos = at + b.len();
            Ok(b.len())
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        with(|d| {
            let f = d.files.entry(self.path.clone()).or_default();
            let n = b.len().min(f.len().saturating_sub(self.pos));
            b[..n].copy_from_slice(&f[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}
pub fn create_dir_all<P: AsRef<Path>>(_: P) -> io::Result<()> {
    Ok(())
}
pub fn create_dir<P: AsRef<Path>>(_: P) -> io::Result<()> {
    Ok(())
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    with(|d| d.files.get(p.as_ref()).cloned())
        .ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))
        .map(|b| String::from_utf8_lossy(&b).into_owned())
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    with(|d| d.files.insert(p.as_ref().to_path_buf(), c.as_ref().to_vec()));
    Ok(())
}
