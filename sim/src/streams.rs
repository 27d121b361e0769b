//! Reader and writer arguments under the simulator's control: the only thing the code under test
//! sees of a file, pipe or socket is how its bytes arrive and which calls fail.

use crate::run::Shared;
use std::io::{self, Error, ErrorKind, Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum StreamFault {
    None,
    /// Fail with this kind once `at` bytes have been moved (and on every later call).
    Err { at: usize, kind: ErrorKind, os: bool },
    /// Fail once with this kind at `at` bytes, then carry on.
    ErrOnce { at: usize, kind: ErrorKind },
    /// The stream ends (reads: 0 bytes, writes: Ok(0)) once `at` bytes have been moved.
    Eof { at: usize },
}

/// How many bytes move per call, and how often a call is interrupted.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Delivery {
    /// 0: as many as asked for; otherwise at most this many, drawn per call when `random`.
    pub max: usize,
    pub random: bool,
    pub eintr_pm: u32,
    pub seed: u64,
}

impl Delivery {
    pub const WHOLE: Delivery = Delivery {
        max: 0,
        random: false,
        eintr_pm: 0,
        seed: 0,
    };
}

pub fn io_error(kind: ErrorKind, os: bool) -> Error {
    if os {
        Error::from_raw_os_error(match kind {
            ErrorKind::PermissionDenied => libc::EACCES,
            ErrorKind::BrokenPipe => libc::EPIPE,
            ErrorKind::WouldBlock => libc::EAGAIN,
            ErrorKind::TimedOut => libc::ETIMEDOUT,
            ErrorKind::ConnectionReset => libc::ECONNRESET,
            ErrorKind::StorageFull => libc::ENOSPC,
            _ => libc::EIO,
        })
    } else {
        Error::new(kind, "injected")
    }
}

pub const INJECTED_PANIC: &str = "the stream panicked";

struct Pace {
    d: Delivery,
    rng: simrt::SplitMix,
    just_interrupted: bool,
}

impl Pace {
    fn new(d: Delivery) -> Self {
        Pace {
            d,
            rng: simrt::SplitMix::new(d.seed ^ 0x9ACE),
            just_interrupted: false,
        }
    }
    fn interrupted(&mut self) -> bool {
        if self.d.eintr_pm > 0 && !self.just_interrupted && self.rng.permille(self.d.eintr_pm) {
            self.just_interrupted = true;
            return true;
        }
        self.just_interrupted = false;
        false
    }
    fn limit(&mut self, want: usize) -> usize {
        if self.d.max == 0 {
            want
        } else if self.d.random {
            want.min(1 + self.rng.below(self.d.max as u64) as usize)
        } else {
            want.min(self.d.max)
        }
    }
}

pub struct SimReader {
    data: Vec<u8>,
    pos: usize,
    pace: Pace,
    fault: StreamFault,
    once_done: bool,
    sh: Shared,
    pub yields: Option<fn()>,
    /// The caller's own stream panics there.
    pub panic_at: Option<usize>,
}

impl SimReader {
    pub fn new(data: &[u8], d: Delivery, fault: StreamFault, sh: &Shared) -> Self {
        SimReader {
            data: data.to_vec(),
            pos: 0,
            pace: Pace::new(d),
            fault,
            once_done: false,
            sh: sh.clone(),
            yields: None,
            panic_at: None,
        }
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(y) = self.yields {
            y();
        }
        self.sh.step("read");
        if self.panic_at.is_some_and(|at| self.pos >= at) {
            self.sh.fired("stream-read:panic");
            panic!("{}", INJECTED_PANIC);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pace.interrupted() {
            self.sh.fired("stream-read:EINTR");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        match &self.fault {
            StreamFault::None => {}
            StreamFault::Err { at, kind, os } => {
                if self.pos >= *at {
                    self.sh.fired(&format!("stream-read:{kind:?}"));
                    return Err(io_error(*kind, *os));
                }
                end = end.min(*at);
            }
            StreamFault::ErrOnce { at, kind } => {
                if !self.once_done {
                    if self.pos >= *at {
                        self.once_done = true;
                        self.sh.fired(&format!("stream-read:once-{kind:?}"));
                        return Err(io_error(*kind, false));
                    }
                    end = end.min(*at);
                }
            }
            StreamFault::Eof { at } => {
                if self.pos >= *at {
                    self.sh.fired("stream-read:early-eof");
                    return Ok(0);
                }
                end = end.min(*at);
            }
        }
        let avail = end.saturating_sub(self.pos);
        let mut n = avail.min(buf.len());
        if n > 0 {
            let l = self.pace.limit(n);
            if l < n {
                self.sh.fired("stream-read:short");
            }
            n = l;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.sh.note(n as u64);
        Ok(n)
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    pace: Pace,
    fault: StreamFault,
    once_done: bool,
    /// The error was handed to the code under test.
    pub failed: bool,
    pub writes_after_failure: u64,
    pub flush_fails: bool,
    pub flushes: u64,
    sh: Shared,
    pub yields: Option<fn()>,
    /// The caller's own stream panics there.
    pub panic_at: Option<usize>,
}

impl SimWriter {
    pub fn new(d: Delivery, fault: StreamFault, sh: &Shared) -> Self {
        SimWriter {
            out: Vec::new(),
            pace: Pace::new(d),
            fault,
            once_done: false,
            failed: false,
            writes_after_failure: 0,
            flush_fails: false,
            flushes: 0,
            sh: sh.clone(),
            yields: None,
            panic_at: None,
        }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(y) = self.yields {
            y();
        }
        self.sh.step("write");
        if self.panic_at.is_some_and(|at| self.out.len() >= at) {
            self.sh.fired("stream-write:panic");
            panic!("{}", INJECTED_PANIC);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.writes_after_failure += 1;
        }
        if self.pace.interrupted() {
            self.sh.fired("stream-write:EINTR");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut room = usize::MAX;
        match &self.fault {
            StreamFault::None => {}
            StreamFault::Err { at, kind, os } => {
                if self.out.len() >= *at {
                    self.failed = true;
                    self.sh.fired(&format!("stream-write:{kind:?}"));
                    return Err(io_error(*kind, *os));
                }
                room = *at - self.out.len();
            }
            StreamFault::ErrOnce { at, kind } => {
                if !self.once_done {
                    if self.out.len() >= *at {
                        self.once_done = true;
                        self.failed = true;
                        self.sh.fired(&format!("stream-write:once-{kind:?}"));
                        return Err(io_error(*kind, false));
                    }
                    room = *at - self.out.len();
                }
            }
            StreamFault::Eof { at } => {
                if self.out.len() >= *at {
                    self.failed = true;
                    self.sh.fired("stream-write:zero");
                    return Ok(0);
                }
                room = *at - self.out.len();
            }
        }
        let mut n = buf.len().min(room);
        let l = self.pace.limit(n);
        if l < buf.len() {
            self.sh.fired("stream-write:short");
        }
        n = l;
        self.out.extend_from_slice(&buf[..n]);
        self.sh.note(n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        self.sh.step("flush");
        if self.flush_fails {
            self.failed = true;
            self.sh.fired("stream-write:flush-error");
            return Err(io_error(ErrorKind::Other, true));
        }
        Ok(())
    }
}
