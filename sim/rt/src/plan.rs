//! The fault and schedule plan of one simulated process incarnation.  Plain data: it is drawn from
//! the run's choice tape by the simulator, and handed to the preloaded library of a command-line
//! run as text.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum OpClass {
    Open,
    Read,
    Write,
    Stat,
    OpenDir,
    ReadDir,
    Stdout,
    Sync,
    Other,
}

pub const CLASSES: [OpClass; 9] = [
    OpClass::Open,
    OpClass::Read,
    OpClass::Write,
    OpClass::Stat,
    OpClass::OpenDir,
    OpClass::ReadDir,
    OpClass::Stdout,
    OpClass::Sync,
    OpClass::Other,
];

impl OpClass {
    pub fn name(self) -> &'static str {
        match self {
            OpClass::Open => "open",
            OpClass::Read => "read",
            OpClass::Write => "write",
            OpClass::Stat => "stat",
            OpClass::OpenDir => "opendir",
            OpClass::ReadDir => "readdir",
            OpClass::Stdout => "stdout",
            OpClass::Sync => "sync",
            OpClass::Other => "other",
        }
    }
    pub fn index(self) -> usize {
        CLASSES.iter().position(|c| *c == self).unwrap()
    }
}

/// How many bytes one read or write may transfer.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
    /// As many as asked for.
    Full,
    /// At most `n`.
    Fixed(u32),
    /// Between one and `n`, drawn per call.
    Random(u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Action {
    /// The call fails with this errno.
    Errno(i32),
    /// The object the call names disappears just before the call is served.
    Vanish,
    /// (read only) the stream ends here: this and every later read on the descriptor returns 0.
    Eof,
    /// The process dies here (power cut / SIGKILL): no further call has any effect.
    Crash,
}

/// Fires at the `nth` (0-based) call of the class; `sticky` keeps failing every later call of it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault {
    pub class: OpClass,
    pub nth: u64,
    pub action: Action,
    pub sticky: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Plan {
    /// Seeds every RandomState of the incarnation.
    pub hash_seed: u64,
    /// Orders directory listings (0: sorted).
    pub dir_seed: u64,
    /// readdir reports DT_UNKNOWN, as some real file systems do.
    pub dtype_unknown: bool,
    pub read_chunk: Chunk,
    pub write_chunk: Chunk,
    /// Seeds chunk sizes and EINTR decisions.
    pub io_seed: u64,
    /// Probability (per mille) that a read/write is interrupted (EINTR) before moving any byte.
    pub eintr_pm: u32,
    /// Bytes the disk can still take.
    pub capacity: Option<u64>,
    pub faults: Vec<Fault>,
    /// Bound on simulated calls: past it the run is declared stuck.
    pub max_ops: u64,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            hash_seed: 1,
            dir_seed: 0,
            dtype_unknown: false,
            read_chunk: Chunk::Full,
            write_chunk: Chunk::Full,
            io_seed: 0,
            eintr_pm: 0,
            capacity: None,
            faults: Vec::new(),
            max_ops: 2_000_000,
        }
    }
}

fn chunk_text(c: Chunk) -> String {
    match c {
        Chunk::Full => "full 0".into(),
        Chunk::Fixed(n) => format!("fixed {n}"),
        Chunk::Random(n) => format!("random {n}"),
    }
}

fn chunk_parse(k: &str, n: &str) -> Chunk {
    let n = n.parse().unwrap_or(1);
    match k {
        "fixed" => Chunk::Fixed(n),
        "random" => Chunk::Random(n),
        _ => Chunk::Full,
    }
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += &format!("hash {}\n", self.hash_seed);
        s += &format!("dir {}\n", self.dir_seed);
        s += &format!("dtype {}\n", self.dtype_unknown as u8);
        s += &format!("rchunk {}\n", chunk_text(self.read_chunk));
        s += &format!("wchunk {}\n", chunk_text(self.write_chunk));
        s += &format!("io {}\n", self.io_seed);
        s += &format!("eintr {}\n", self.eintr_pm);
        if let Some(c) = self.capacity {
            s += &format!("capacity {c}\n");
        }
        s += &format!("maxops {}\n", self.max_ops);
        for f in &self.faults {
            let a = match &f.action {
                Action::Errno(e) => format!("errno {e}"),
                Action::Vanish => "vanish 0".into(),
                Action::Eof => "eof 0".into(),
                Action::Crash => "crash 0".into(),
            };
            s += &format!("fault {} {} {} {}\n", f.class.index(), f.nth, a, f.sticky as u8);
        }
        s
    }

    pub fn from_text(text: &str) -> Plan {
        let mut p = Plan::default();
        for line in text.lines() {
            let w: Vec<&str> = line.split(' ').collect();
            let n = |i: usize| -> u64 { w.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
            match w[0] {
                "hash" => p.hash_seed = n(1),
                "dir" => p.dir_seed = n(1),
                "dtype" => p.dtype_unknown = n(1) == 1,
                "rchunk" => p.read_chunk = chunk_parse(w[1], w[2]),
                "wchunk" => p.write_chunk = chunk_parse(w[1], w[2]),
                "io" => p.io_seed = n(1),
                "eintr" => p.eintr_pm = n(1) as u32,
                "capacity" => p.capacity = Some(n(1)),
                "maxops" => p.max_ops = n(1),
                "fault" => p.faults.push(Fault {
                    class: CLASSES[n(1) as usize],
                    nth: n(2),
                    action: match w[3] {
                        "vanish" => Action::Vanish,
                        "eof" => Action::Eof,
                        "crash" => Action::Crash,
                        _ => Action::Errno(n(4) as i32),
                    },
                    sticky: n(5) == 1,
                }),
                _ => {}
            }
        }
        p
    }
}
