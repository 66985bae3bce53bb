//! The file-system calls of the undo store, on the simulated disk.
use crate::sched::*;
use std::io::{Error, ErrorKind, Result};
use std::path::Path;

fn key(p: &Path) -> String { p.to_string_lossy().into_owned() }

fn enter(what: &str) -> Result<()> {
    yield_point(what, 0, true);
    let mut g = core();
    if g.killed { return Err(Error::new(ErrorKind::Other, "process killed")); }
    if let Some(_c) = crate::vfs::fault(&mut g, Class::Fs) { return Err(Error::new(ErrorKind::Other, "simulated I/O error")); }
    Ok(())
}

pub fn exists(p: &Path) -> bool {
    let _ = enter("fs.exists");
    let g = core();
    let k = key(p);
    g.disk.files.contains_key(&k) || g.disk.dirs.contains(&k)
}
pub fn is_dir(p: &Path) -> bool { core().disk.dirs.contains(&key(p)) }
pub fn create_dir_all(p: &Path) -> Result<()> {
    enter("fs.mkdir")?;
    core().disk.dirs.insert(key(p));
    Ok(())
}
pub fn create_new(p: &Path) -> Result<()> {
    enter("fs.create_new")?;
    let mut g = core();
    let k = key(p);
    if g.disk.files.contains_key(&k) { return Err(Error::new(ErrorKind::AlreadyExists, "exists")); }
    g.disk.files.insert(k, Default::default());
    Ok(())
}
pub fn remove_file(p: &Path) -> Result<()> {
    // A killed process removes nothing, but its shutdown code must not panic either.
    if core().killed { return Ok(()); }
    enter("fs.remove")?;
    let mut g = core();
    match g.disk.files.remove(&key(p)) { Some(_) => Ok(()), None => Err(Error::new(ErrorKind::NotFound, "not found")) }
}
pub fn copy(from: &Path, to: &Path) -> Result<u64> {
    enter("fs.copy")?;
    let mut g = core();
    let Some(f) = g.disk.files.get(&key(from)) else { return Err(Error::new(ErrorKind::NotFound, "not found")) };
    let data = f.cur.clone();
    let n = data.len() as u64;
    let dir = to.parent().map(key).unwrap_or_default();
    if !g.disk.dirs.contains(&dir) { return Err(Error::new(ErrorKind::NotFound, "no such directory")); }
    g.disk.files.insert(key(to), crate::disk::SimFile { cur: data.clone(), dur: data, pend: vec![] });
    Ok(n)
}
