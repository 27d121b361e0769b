//! The choice tape: every decision of a run (generated data, schedule, faults) is one number drawn
//! here.  In search mode numbers come from the run's seed and are recorded; in replay mode they are
//! read back, and everything past the end of the tape is 0.  Generators put their simplest
//! alternative at 0, so shrinking the tape shrinks the scenario.

use simrt::SplitMix;

pub struct Choices {
    rng: Option<SplitMix>,
    pub tape: Vec<u64>,
    pos: usize,
    journal: Option<i32>,
}

impl Choices {
    pub fn search(seed: u64) -> Self {
        Choices {
            rng: Some(SplitMix::new(seed)),
            tape: Vec::new(),
            pos: 0,
            journal: None,
        }
    }
    pub fn replay(tape: &[u64]) -> Self {
        Choices {
            rng: None,
            tape: tape.to_vec(),
            pos: 0,
            journal: None,
        }
    }
    /// Append every drawn number to this file at once, so that it survives the end of the process.
    pub fn journal_to(&mut self, path: &str) {
        use std::os::fd::IntoRawFd;
        self.journal = std::fs::File::create(path).ok().map(|f| f.into_raw_fd());
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.tape.push(v);
                if let Some(fd) = self.journal {
                    unsafe {
                        libc::syscall(
                            libc::SYS_write,
                            fd,
                            &v as *const u64 as *const libc::c_void,
                            8usize,
                        );
                    }
                }
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        self.pos += 1;
        v
    }
    pub fn size(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
    /// True with probability `pm`/1000 (false is the simple alternative).
    pub fn chance(&mut self, pm: u64) -> bool {
        self.below(1000) >= 1000 - pm.min(1000)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.size(v.len());
        &v[i]
    }
}
