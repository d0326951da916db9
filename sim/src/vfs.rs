//! The simulated disk: an in-memory file system below `/sim`.
//! It has no notion of threads or faults; `shim.rs` adds those.
use crate::ser_struct;
use std::collections::BTreeMap;

pub const ROOT: &str = "/sim";
pub const NAME_MAX: usize = 255;

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub dir: bool,
    pub data: Vec<u8>,
    pub entries: BTreeMap<Vec<u8>, u64>,
    pub mtime: i64,
    pub btime: i64,
    pub nlink: u64,
    pub parent: u64,
}
ser_struct!(Inode { dir, data, entries, mtime, btime, nlink, parent });

#[derive(Clone, Debug)]
pub struct Vfs {
    pub inodes: BTreeMap<u64, Inode>,
    pub next_ino: u64,
    /// total bytes of file data allowed
    pub quota: u64,
}
ser_struct!(Vfs { inodes, next_ino, quota });

pub const E_NOENT: i32 = libc::ENOENT;

impl Vfs {
    pub fn new() -> Vfs {
        let mut inodes = BTreeMap::new();
        inodes.insert(1, Inode { dir: true, nlink: 1, parent: 1, ..Default::default() });
        Vfs { inodes, next_ino: 2, quota: u64::MAX }
    }
    pub fn used(&self) -> u64 {
        self.inodes.values().map(|i| i.data.len() as u64).sum()
    }
    pub fn get(&self, ino: u64) -> &Inode {
        &self.inodes[&ino]
    }
    pub fn get_mut(&mut self, ino: u64) -> &mut Inode {
        self.inodes.get_mut(&ino).unwrap()
    }
    /// Components of an absolute path below the root (the root itself gives []).
    pub fn comps(path: &[u8]) -> Vec<Vec<u8>> {
        let rest = &path[ROOT.len()..];
        rest.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect()
    }
    pub fn walk(&self, base: u64, comps: &[Vec<u8>]) -> Result<u64, i32> {
        let mut cur = base;
        for c in comps {
            let n = self.get(cur);
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            if c == b".." {
                cur = n.parent;
                continue;
            }
            if c.len() > NAME_MAX {
                return Err(libc::ENAMETOOLONG);
            }
            cur = *n.entries.get(c).ok_or(libc::ENOENT)?;
        }
        Ok(cur)
    }
    /// (parent inode, last name)
    pub fn walk_parent(&self, base: u64, comps: &[Vec<u8>]) -> Result<(u64, Vec<u8>), i32> {
        let (last, head) = comps.split_last().ok_or(libc::EEXIST)?;
        let p = self.walk(base, head)?;
        if !self.get(p).dir {
            return Err(libc::ENOTDIR);
        }
        if last.len() > NAME_MAX {
            return Err(libc::ENAMETOOLONG);
        }
        Ok((p, last.clone()))
    }
    pub fn add(&mut self, parent: u64, name: &[u8], dir: bool, now: i64) -> u64 {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, Inode { dir, mtime: now, btime: now, nlink: 1, parent, ..Default::default() });
        let p = self.get_mut(parent);
        p.entries.insert(name.to_vec(), ino);
        p.mtime = now;
        ino
    }
    pub fn unlink(&mut self, parent: u64, name: &[u8], want_dir: bool, now: i64) -> Result<u64, i32> {
        let ino = *self.get(parent).entries.get(name).ok_or(libc::ENOENT)?;
        let n = self.get(ino);
        if want_dir {
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            if !n.entries.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        } else if n.dir {
            return Err(libc::EISDIR);
        }
        let p = self.get_mut(parent);
        p.entries.remove(name);
        p.mtime = now;
        self.get_mut(ino).nlink -= 1;
        Ok(ino)
    }
    /// Drops an inode nobody refers to any more.
    pub fn reap(&mut self, ino: u64, open: bool) {
        if !open && self.inodes.get(&ino).map_or(false, |n| n.nlink == 0) {
            self.inodes.remove(&ino);
        }
    }
    pub fn is_ancestor(&self, a: u64, mut of: u64) -> bool {
        loop {
            if a == of {
                return true;
            }
            let p = self.get(of).parent;
            if p == of {
                return false;
            }
            of = p;
        }
    }
    // --- helpers for the harness (not faulted) ---
    pub fn lookup(&self, path: &str) -> Option<u64> {
        self.walk(1, &Vfs::comps(path.as_bytes())).ok()
    }
    pub fn mkdir_p(&mut self, path: &str, now: i64) -> u64 {
        let mut cur = 1;
        for c in Vfs::comps(path.as_bytes()) {
            cur = match self.get(cur).entries.get(&c) {
                Some(i) => *i,
                None => self.add(cur, &c, true, now),
            };
        }
        cur
    }
    pub fn put_file(&mut self, path: &str, data: Vec<u8>, now: i64) {
        let comps = Vfs::comps(path.as_bytes());
        let (p, name) = self.walk_parent(1, &comps).unwrap();
        let ino = match self.get(p).entries.get(&name) {
            Some(i) => *i,
            None => self.add(p, &name, false, now),
        };
        let n = self.get_mut(ino);
        n.data = data;
        n.mtime = now;
    }
    pub fn read_file(&self, path: &str) -> Option<&Vec<u8>> {
        let i = self.lookup(path)?;
        let n = self.get(i);
        if n.dir {
            None
        } else {
            Some(&n.data)
        }
    }
    pub fn remove_file(&mut self, path: &str) {
        let comps = Vfs::comps(path.as_bytes());
        if let Ok((p, name)) = self.walk_parent(1, &comps) {
            if let Ok(i) = self.unlink(p, &name, false, 0) {
                self.reap(i, false);
            }
        }
    }
    pub fn list_dir(&self, path: &str) -> Vec<String> {
        match self.lookup(path) {
            Some(i) if self.get(i).dir => self.get(i).entries.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect(),
            _ => vec![],
        }
    }
    /// All paths below `path` with file contents (None for directories).
    pub fn tree(&self, path: &str) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut out = BTreeMap::new();
        if let Some(i) = self.lookup(path) {
            self.tree_rec(i, path.to_string(), &mut out);
        }
        out
    }
    fn tree_rec(&self, ino: u64, path: String, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let n = self.get(ino);
        if n.dir {
            out.insert(path.clone(), None);
            for (k, v) in &n.entries {
                self.tree_rec(*v, format!("{}/{}", path, String::from_utf8_lossy(k)), out);
            }
        } else {
            out.insert(path, Some(n.data.clone()));
        }
    }
    pub fn digest(&self) -> u64 {
        use crate::sys::*;
        let mut h = 7u64;
        for (p, d) in self.tree(ROOT) {
            h = fnv(hmix(h, 1), p.as_bytes());
            if let Some(d) = d {
                h = fnv(hmix(h, 2), &d);
            }
        }
        h
    }
}
