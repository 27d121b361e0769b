//! The simulated disk: a tree of files, directories and symbolic links under `/sim`.

use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
    Fifo,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
}

#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub root: Ino,
}

pub const PREFIX: &str = "/sim";

impl Default for Fs {
    fn default() -> Self {
        Fs {
            inodes: vec![Inode {
                node: Node::Dir(BTreeMap::new()),
                mode: 0o755,
            }],
            root: 0,
        }
    }
}

/// Where a path leads.
pub struct Found {
    pub parent: Option<Ino>,
    pub name: String,
    pub ino: Option<Ino>,
}

impl Fs {
    /// The bytes all files hold together.
    pub fn bytes(&self) -> u64 {
        self.inodes
            .iter()
            .map(|i| match &i.node {
                Node::File(b) => b.len() as u64,
                _ => 0,
            })
            .sum()
    }

    pub fn is_sim(path: &str) -> bool {
        path == PREFIX || path.starts_with("/sim/")
    }

    fn split(path: &str) -> Vec<String> {
        path.split('/')
            .filter(|s| !s.is_empty() && *s != ".")
            .map(|s| s.to_string())
            .collect()
    }

    /// Resolve an absolute path (with or without the `/sim` prefix stripped to components).
    pub fn resolve(&self, path: &str, follow_last: bool) -> Result<Found, i32> {
        let mut comps = Self::split(path);
        comps.reverse(); // a stack
        if comps.pop().as_deref() != Some("sim") {
            return Err(libc::ENOENT);
        }
        let trailing = path.len() > 1 && path.ends_with('/');
        let mut stack: Vec<(Ino, String)> = vec![(self.root, String::new())];
        let mut links = 0;
        while let Some(c) = comps.pop() {
            let cur = stack.last().unwrap().0;
            if c == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            let dir = match &self.inodes[cur].node {
                Node::Dir(d) => d,
                _ => return Err(libc::ENOTDIR),
            };
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let last = comps.is_empty();
            match dir.get(&c) {
                None => {
                    if last {
                        return Ok(Found {
                            parent: Some(cur),
                            name: c,
                            ino: None,
                        });
                    }
                    return Err(libc::ENOENT);
                }
                Some(&ino) => match &self.inodes[ino].node {
                    Node::Link(target) if !last || follow_last || trailing => {
                        links += 1;
                        if links > 40 {
                            return Err(libc::ELOOP);
                        }
                        let abs = target.starts_with('/');
                        let mut t = Self::split(target);
                        t.reverse();
                        if abs {
                            if t.pop().as_deref() != Some("sim") {
                                return Err(libc::ENOENT);
                            }
                            stack.truncate(1);
                        }
                        comps.extend(t);
                        if comps.is_empty() {
                            let cur = stack.last().unwrap().0;
                            return Ok(Found {
                                parent: None,
                                name: String::new(),
                                ino: Some(cur),
                            });
                        }
                    }
                    _ => {
                        if last {
                            if trailing && !matches!(self.inodes[ino].node, Node::Dir(_)) {
                                return Err(libc::ENOTDIR);
                            }
                            return Ok(Found {
                                parent: Some(cur),
                                name: c,
                                ino: Some(ino),
                            });
                        }
                        stack.push((ino, c));
                    }
                },
            }
        }
        let cur = stack.last().unwrap().0;
        Ok(Found {
            parent: None,
            name: String::new(),
            ino: Some(cur),
        })
    }

    pub fn lookup(&self, path: &str) -> Result<Ino, i32> {
        self.resolve(path, true)?.ino.ok_or(libc::ENOENT)
    }

    fn put(&mut self, path: &str, node: Node, mode: u32) {
        let comps = Self::split(path);
        let mut cur = self.root;
        for (i, c) in comps.iter().enumerate().skip(1) {
            let last = i + 1 == comps.len();
            let existing = match &self.inodes[cur].node {
                Node::Dir(d) => d.get(c).copied(),
                _ => panic!("simfs: {path} goes through a file"),
            };
            if last {
                self.inodes.push(Inode { node, mode });
                let ino = self.inodes.len() - 1;
                if let Node::Dir(d) = &mut self.inodes[cur].node {
                    d.insert(c.clone(), ino);
                }
                return;
            }
            cur = match existing {
                Some(i) => i,
                None => {
                    self.inodes.push(Inode {
                        node: Node::Dir(BTreeMap::new()),
                        mode: 0o755,
                    });
                    let ino = self.inodes.len() - 1;
                    if let Node::Dir(d) = &mut self.inodes[cur].node {
                        d.insert(c.clone(), ino);
                    }
                    ino
                }
            };
        }
    }

    pub fn add_file(&mut self, path: &str, data: &[u8]) {
        self.put(path, Node::File(data.to_vec()), 0o644);
    }
    pub fn add_dir(&mut self, path: &str) {
        if self.lookup(path).is_err() {
            self.put(path, Node::Dir(BTreeMap::new()), 0o755);
        }
    }
    pub fn add_link(&mut self, path: &str, target: &str) {
        self.put(path, Node::Link(target.to_string()), 0o777);
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        match self.lookup(path) {
            Ok(i) => match &self.inodes[i].node {
                Node::File(d) => Some(d.clone()),
                _ => None,
            },
            Err(_) => None,
        }
    }
    pub fn remove(&mut self, path: &str) -> bool {
        if let Ok(f) = self.resolve(path, false) {
            if let (Some(p), Some(_)) = (f.parent, f.ino) {
                if let Node::Dir(d) = &mut self.inodes[p].node {
                    return d.remove(&f.name).is_some();
                }
            }
        }
        false
    }

    /// Every file with its content, for comparing disks.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        self.walk(self.root, PREFIX.to_string(), &mut out);
        out
    }
    fn walk(&self, ino: Ino, path: String, out: &mut BTreeMap<String, Vec<u8>>) {
        match &self.inodes[ino].node {
            Node::File(d) => {
                out.insert(path, d.clone());
            }
            Node::Dir(d) => {
                for (n, i) in d {
                    self.walk(*i, format!("{path}/{n}"), out);
                }
            }
            _ => {}
        }
    }

    /// Text image, for handing a disk to a child process.
    pub fn to_image(&self) -> Vec<u8> {
        let mut out = Vec::new();
        self.image(self.root, PREFIX.to_string(), &mut out);
        out
    }
    fn image(&self, ino: Ino, path: String, out: &mut Vec<u8>) {
        let mode = self.inodes[ino].mode;
        match &self.inodes[ino].node {
            Node::File(d) => {
                out.extend(format!("F {} {} {}\n", mode, d.len(), path).bytes());
                out.extend(d);
                out.push(b'\n');
            }
            Node::Dir(d) => {
                out.extend(format!("D {} 0 {}\n", mode, path).bytes());
                for (n, i) in d {
                    self.image(*i, format!("{path}/{n}"), out);
                }
            }
            Node::Link(t) => {
                out.extend(format!("L {} {} {}\n", mode, t.len(), path).bytes());
                out.extend(t.bytes());
                out.push(b'\n');
            }
            Node::Fifo => {}
        }
    }
    pub fn from_image(img: &[u8]) -> Fs {
        let mut fs = Fs::default();
        let mut pos = 0;
        while pos < img.len() {
            let eol = match img[pos..].iter().position(|b| *b == b'\n') {
                Some(e) => pos + e,
                None => break,
            };
            let line = String::from_utf8_lossy(&img[pos..eol]).to_string();
            pos = eol + 1;
            let mut it = line.splitn(4, ' ');
            let kind = it.next().unwrap_or("");
            let mode: u32 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0o644);
            let len: usize = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
            let path = it.next().unwrap_or("").to_string();
            match kind {
                "F" => {
                    fs.put(&path, Node::File(img[pos..pos + len].to_vec()), mode);
                    pos += len + 1;
                }
                "L" => {
                    let t = String::from_utf8_lossy(&img[pos..pos + len]).to_string();
                    fs.put(&path, Node::Link(t), mode);
                    pos += len + 1;
                }
                "D" => {
                    if path != PREFIX {
                        fs.put(&path, Node::Dir(BTreeMap::new()), mode);
                    }
                }
                _ => {}
            }
        }
        fs
    }
}
