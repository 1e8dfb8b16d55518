//! Stand-in for the file system: what the crate reads is what the harness put there, what it writes is kept in memory.
#![allow(static_mut_refs)]
use std::io;
use std::path::Path;
pub use std::fs::*;
static mut TEXT: Option<String> = None;
static mut FILES: Vec<(String, Vec<u8>)> = Vec::new();
static mut DIRS: Vec<String> = Vec::new();
static mut ANY: bool = false;
/// every folder exists, until the next `clear`
pub fn folders_exist() { unsafe { ANY = true } }
/// every path has this content from now on
pub fn put(s: String) { unsafe { TEXT = Some(s) } }
pub fn clear() { unsafe { TEXT = None; FILES = Vec::new(); DIRS = Vec::new(); ANY = false } }
/// the files written since the last `clear`, in order
pub fn written() -> Vec<(String, String)> { unsafe { FILES.iter().map(|(p, c)| (p.clone(), String::from_utf8_unchecked(c.clone()))).collect() } }
pub fn dirs() -> Vec<String> { unsafe { DIRS.clone() } }
fn name<P: AsRef<Path>>(p: P) -> String { p.as_ref().to_str().unwrap().to_string() }
fn missing<T>() -> io::Result<T> { Err(io::Error::from(io::ErrorKind::NotFound)) }
pub fn read_to_string<P: AsRef<Path>>(_p: P) -> io::Result<String> { unsafe { match &TEXT { Some(s) => Ok(s.clone()), None => missing() } } }
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { unsafe { DIRS.push(name(p)) } Ok(()) }
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> { create_dir_all(p) }
pub fn remove_dir_all<P: AsRef<Path>>(_p: P) -> io::Result<()> { Ok(()) }
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { let mut f = File::create(p)?; io::Write::write_all(&mut f, c.as_ref()) }
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { read_to_string(p).map(|s| s.into_bytes()) }
pub fn remove_file<P: AsRef<Path>>(_p: P) -> io::Result<()> { Ok(()) }
pub fn remove_dir<P: AsRef<Path>>(_p: P) -> io::Result<()> { Ok(()) }
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { let n = name(p); unsafe { Ok(DIRS.iter().any(|d| Path::new(d).starts_with(&n)) || FILES.iter().any(|f| f.0 == n)) } }
pub fn metadata<P: AsRef<Path>>(_p: P) -> io::Result<Metadata> { missing() }
/// `at` is where reading goes on
pub struct File { id: usize, at: Option<usize> }
pub struct OpenOptions { append: bool, read: bool }
impl OpenOptions {
    pub fn new() -> Self { OpenOptions { append: false, read: false } }
    pub fn append(&mut self, x: bool) -> &mut Self { self.append = x; self }
    pub fn read(&mut self, x: bool) -> &mut Self { self.read = x; self }
    pub fn write(&mut self, _: bool) -> &mut Self { self }
    pub fn create(&mut self, _: bool) -> &mut Self { self }
    pub fn create_new(&mut self, _: bool) -> &mut Self { self }
    pub fn truncate(&mut self, _: bool) -> &mut Self { self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        if self.read { return File::open(p); }
        if self.append { let n = name(&p); unsafe { let mut k = 0; while k < FILES.len() { if FILES[k].0 == n { return Ok(File { id: k, at: None }); } k += 1; } } }
        File::create(p)
    }
}
impl File {
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn open<P: AsRef<Path>>(_p: P) -> io::Result<File> { unsafe { if TEXT.is_some() { Ok(File { id: 0, at: Some(0) }) } else { missing() } } }
    pub fn sync_all(&self) -> io::Result<()> { Ok(()) }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let n = name(&p);
        // the folder has to exist
        if let Some(f) = p.as_ref().parent() { let f = f.to_str().unwrap(); if !unsafe { ANY } && f != "" && f != "." && f != "/" && !unsafe { DIRS.iter().any(|d| Path::new(d).starts_with(f)) } { return missing(); } }
        unsafe {
            let mut k = 0;
            while k < FILES.len() { if FILES[k].0 == n { FILES[k].1 = Vec::new(); return Ok(File { id: k, at: None }); } k += 1; }
            FILES.push((n, Vec::new()));
            Ok(File { id: FILES.len() - 1, at: None })
        }
    }
}
impl io::Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { unsafe { FILES[self.id].1.extend_from_slice(b) } Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl io::Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let t = unsafe { match &TEXT { Some(s) => s.as_bytes(), None => return missing() } };
        let at = self.at.unwrap_or(t.len());
        let n = b.len().min(t.len() - at);
        b[..n].copy_from_slice(&t[at..at + n]);
        self.at = Some(at + n);
        Ok(n)
    }
}
