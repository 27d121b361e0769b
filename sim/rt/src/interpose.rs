//! The exported libc symbols and the context that answers them.

use crate::fs::{Fs, Inode, Node, Ino};
use crate::plan::{Action, Chunk, OpClass, Plan};
use crate::rng::{mix, SplitMix};
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;

/// The number of simulated calls after which an incarnation counts as stuck.
pub struct StepLimit;

const FD_BASE: c_int = 1 << 20;

struct OpenFile {
    ino: Ino,
    pos: u64,
    read: bool,
    write: bool,
    append: bool,
    eof: bool,
}

struct OpenDir {
    entries: Vec<(String, Ino, u8)>,
    next: usize,
    buf: Box<libc::dirent64>,
    fd: c_int,
}

pub struct Inner {
    pub plan: Plan,
    pub fs: Fs,
    pub stdout: Vec<u8>,
    /// Calls per class so far.
    pub calls: [u64; 9],
    /// Faults that fired, by kind.
    pub fired: BTreeMap<String, u64>,
    pub ops: u64,
    pub stuck: bool,
    pub crashed: bool,
    /// Order-sensitive digest of every call and its outcome.
    pub digest: u64,
    /// Human-readable trace (only when asked for).
    pub trace: Option<Vec<String>>,
    /// Paths successfully opened for reading.
    pub opened: Vec<String>,
    /// An error (other than EINTR) was returned to the code under test.
    pub errors_returned: u64,
    /// Where the child of a command-line run appends its journal (raw fd), if any.
    pub journal: Option<c_int>,
    hash_rng: SplitMix,
    io_rng: SplitMix,
    files: BTreeMap<c_int, OpenFile>,
    dirs: BTreeMap<usize, OpenDir>,
    next_fd: c_int,
    last_transient: bool,
}

pub struct Ctx {
    pub inner: Mutex<Inner>,
}

impl Ctx {
    pub fn new(mut plan: Plan, fs: Fs) -> Ctx {
        // a life that reads every byte of its disk in a call of its own, interrupted now and then,
        // and writes it all elsewhere the same way, is slow but not stuck
        plan.max_ops += 40 * fs.bytes();
        let hash_rng = SplitMix::new(mix(plan.hash_seed, 0x4841_5348));
        let io_rng = SplitMix::new(mix(plan.io_seed, 0x494F));
        Ctx {
            inner: Mutex::new(Inner {
                plan,
                fs,
                stdout: Vec::new(),
                calls: [0; 9],
                fired: BTreeMap::new(),
                ops: 0,
                stuck: false,
                crashed: false,
                digest: 0xcbf2_9ce4_8422_2325,
                trace: None,
                opened: Vec::new(),
                errors_returned: 0,
                journal: None,
                hash_rng,
                io_rng,
                files: BTreeMap::new(),
                dirs: BTreeMap::new(),
                next_fd: FD_BASE,
                last_transient: false,
            }),
        }
    }
}

thread_local! {
    static CTX: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
}
/// Context of every thread that has none of its own (command-line children).
static GLOBAL: std::sync::atomic::AtomicPtr<Ctx> =
    std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static FALLBACK_HASH: AtomicU64 = AtomicU64::new(0x5151_5151);

thread_local! {
    static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}
/// Called at the start of every simulated call on this thread: a scheduling point.
pub fn set_yield(y: Option<fn()>) {
    YIELD.with(|c| c.set(y));
}
fn maybe_yield() {
    if let Ok(Some(y)) = YIELD.try_with(|c| c.get()) {
        y();
    }
}

/// # Safety: `ctx` must outlive its installation on this thread.
pub unsafe fn set_ctx(ctx: *const Ctx) {
    CTX.with(|c| c.set(ctx));
}
pub fn clear_ctx() {
    CTX.with(|c| c.set(std::ptr::null()));
}
fn ctx() -> Option<&'static Ctx> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    let p = if p.is_null() {
        GLOBAL.load(Ordering::Relaxed) as *const Ctx
    } else {
        p
    };
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn fail(e: c_int) -> c_int {
    set_errno(e);
    -1
}
unsafe fn path_of(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    CStr::from_ptr(p).to_str().ok().map(|s| s.to_string())
}
fn sim_path(p: *const c_char) -> Option<String> {
    let s = unsafe { path_of(p) }?;
    if Fs::is_sim(&s) {
        Some(s)
    } else {
        None
    }
}

enum Verdict {
    Go,
    Fail(c_int),
    Eof,
}

impl Inner {
    fn note(&mut self, what: &str, res: i64) {
        for b in what.bytes() {
            self.digest = (self.digest ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.digest = (self.digest ^ res as u64).wrapping_mul(0x0000_0100_0000_01B3);
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                t.push(format!("{what} -> {res}"));
            }
        }
        if let Some(fd) = self.journal {
            let line = format!("T {what} -> {res}\n");
            raw_write_all(fd, line.as_bytes());
        }
    }
    fn fire(&mut self, kind: String) {
        if let Some(fd) = self.journal {
            raw_write_all(fd, format!("X {kind}\n").as_bytes());
        }
        *self.fired.entry(kind).or_insert(0) += 1;
    }

    fn has_fd(&self, fd: c_int) -> bool {
        self.files.contains_key(&fd) || self.dirs.values().any(|d| d.fd == fd)
    }

    /// Append the digest and the disk to the journal.
    fn dump(&self) {
        if let Some(fd) = self.journal {
            let img = self.fs.to_image();
            raw_write_all(
                fd,
                format!("E {} {} {}\n", self.digest, self.ops, img.len()).as_bytes(),
            );
            raw_write_all(fd, &img);
        }
    }

    /// Count the call and decide whether it fails.
    fn enter(&mut self, class: OpClass, path: &str) -> Verdict {
        self.ops += 1;
        if self.ops > self.plan.max_ops {
            if !self.stuck {
                self.stuck = true;
                if let Some(fd) = self.journal {
                    raw_write_all(fd, b"S stuck\n");
                }
            }
            return Verdict::Fail(libc::EIO);
        }
        let n = self.calls[class.index()];
        self.calls[class.index()] += 1;
        let mut hit: Option<Action> = None;
        for f in &self.plan.faults {
            if f.class == class && (f.nth == n || (f.sticky && n > f.nth)) {
                hit = Some(f.action.clone());
                break;
            }
        }
        match hit {
            None => Verdict::Go,
            Some(Action::Errno(e)) => {
                self.fire(format!("{}:{}", class.name(), errno_name(e)));
                if e != libc::EINTR {
                    self.errors_returned += 1;
                }
                Verdict::Fail(e)
            }
            Some(Action::Vanish) => {
                self.fire(format!("{}:vanish", class.name()));
                if !path.is_empty() {
                    self.fs.remove(path);
                }
                Verdict::Go
            }
            Some(Action::Eof) => {
                self.fire(format!("{}:early-eof", class.name()));
                Verdict::Eof
            }
            Some(Action::Crash) => {
                self.fire(format!("{}:crash", class.name()));
                self.crashed = true;
                if let Some(fd) = self.journal {
                    raw_write_all(fd, b"C crash\n");
                    self.dump();
                    unsafe {
                        libc::syscall(libc::SYS_exit_group, 137);
                    }
                }
                Verdict::Go
            }
        }
    }

    fn interrupted(&mut self, class: OpClass) -> bool {
        if self.plan.eintr_pm > 0 && !self.last_transient {
            let pm = self.plan.eintr_pm;
            if self.io_rng.permille(pm) {
                self.fire(format!("{}:EINTR", class.name()));
                self.last_transient = true;
                return true;
            }
        }
        self.last_transient = false;
        false
    }

    fn chunk(&mut self, class: OpClass, want: usize) -> usize {
        let c = if class == OpClass::Read {
            self.plan.read_chunk
        } else {
            self.plan.write_chunk
        };
        let lim = match c {
            Chunk::Full => want,
            Chunk::Fixed(n) => n as usize,
            Chunk::Random(n) => 1 + self.io_rng.below(n as u64) as usize,
        };
        if lim < want {
            self.fire(format!("{}:short", class.name()));
            lim.max(1)
        } else {
            want
        }
    }

    fn stat_of(&self, ino: Ino) -> (u32, u64) {
        let i: &Inode = &self.fs.inodes[ino];
        match &i.node {
            Node::File(d) => (libc::S_IFREG | i.mode, d.len() as u64),
            Node::Dir(d) => (libc::S_IFDIR | i.mode, d.len() as u64),
            Node::Link(t) => (libc::S_IFLNK | i.mode, t.len() as u64),
            Node::Fifo => (libc::S_IFIFO | i.mode, 0),
        }
    }

    fn stat_path(&mut self, path: &str, follow: bool) -> Result<Ino, c_int> {
        match self.enter(OpClass::Stat, path) {
            Verdict::Fail(e) => {
                self.note(&format!("stat {path}"), -(e as i64));
                Err(e)
            }
            _ => {
                let r = self
                    .fs
                    .resolve(path, follow)
                    .and_then(|f| f.ino.ok_or(libc::ENOENT));
                self.note(
                    &format!("stat {path}"),
                    match r {
                        Ok(_) => 0,
                        Err(e) => -(e as i64),
                    },
                );
                r
            }
        }
    }

    fn do_open(&mut self, path: &str, flags: c_int, mode: mode_t) -> Result<c_int, c_int> {
        if let Verdict::Fail(e) = self.enter(OpClass::Open, path) {
            self.note(&format!("open {path}"), -(e as i64));
            return Err(e);
        }
        let acc = flags & libc::O_ACCMODE;
        let follow = flags & libc::O_NOFOLLOW == 0;
        let r = (|| {
            let f = self.fs.resolve(path, follow)?;
            let ino = match f.ino {
                Some(i) => {
                    if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                        return Err(libc::EEXIST);
                    }
                    i
                }
                None => {
                    if flags & libc::O_CREAT == 0 {
                        return Err(libc::ENOENT);
                    }
                    if self.crashed {
                        return Err(libc::EIO);
                    }
                    self.fs.inodes.push(Inode {
                        node: Node::File(Vec::new()),
                        mode: (mode & 0o777) as u32,
                    });
                    let ino = self.fs.inodes.len() - 1;
                    match &mut self.fs.inodes[f.parent.ok_or(libc::ENOENT)?].node {
                        Node::Dir(d) => {
                            d.insert(f.name.clone(), ino);
                        }
                        _ => return Err(libc::ENOTDIR),
                    }
                    ino
                }
            };
            let wants_write = acc != libc::O_RDONLY;
            let node_mode = self.fs.inodes[ino].mode;
            match &mut self.fs.inodes[ino].node {
                Node::Dir(_) => {
                    if wants_write {
                        return Err(libc::EISDIR);
                    }
                }
                Node::Link(_) => return Err(libc::ELOOP),
                Node::File(d) => {
                    if flags & libc::O_DIRECTORY != 0 {
                        return Err(libc::ENOTDIR);
                    }
                    // the simulated user owns every file and is not root
                    if wants_write && node_mode & 0o200 == 0 {
                        return Err(libc::EACCES);
                    }
                    if acc != libc::O_WRONLY && node_mode & 0o400 == 0 {
                        return Err(libc::EACCES);
                    }
                    if wants_write && flags & libc::O_TRUNC != 0 && !self.crashed {
                        d.clear();
                    }
                }
                Node::Fifo => {}
            }
            Ok(ino)
        })();
        match r {
            Ok(ino) => {
                if acc != libc::O_WRONLY {
                    self.opened.push(path.to_string());
                }
                if acc != libc::O_RDONLY {
                    self.journal_file_event('O', path, &[]);
                }
                let fd = self.next_fd;
                self.next_fd += 1;
                self.files.insert(
                    fd,
                    OpenFile {
                        ino,
                        pos: 0,
                        read: acc != libc::O_WRONLY,
                        write: acc != libc::O_RDONLY,
                        append: flags & libc::O_APPEND != 0,
                        eof: false,
                    },
                );
                self.note(&format!("open {path} flags={flags:o}"), fd as i64);
                Ok(fd)
            }
            Err(e) => {
                self.note(&format!("open {path} flags={flags:o}"), -(e as i64));
                Err(e)
            }
        }
    }

    fn journal_file_event(&mut self, _k: char, _path: &str, _d: &[u8]) {}

    fn do_read(&mut self, fd: c_int, want: usize, at: Option<u64>) -> Result<Vec<u8>, c_int> {
        let (ino, pos, can, eof) = match self.files.get(&fd) {
            Some(f) => (f.ino, at.unwrap_or(f.pos), f.read, f.eof),
            None => return Err(libc::EBADF),
        };
        if !can {
            return Err(libc::EBADF);
        }
        if self.interrupted(OpClass::Read) {
            self.note(&format!("read fd{fd}"), -(libc::EINTR as i64));
            return Err(libc::EINTR);
        }
        let mut eof = eof;
        match self.enter(OpClass::Read, "") {
            Verdict::Fail(e) => {
                self.note(&format!("read fd{fd}"), -(e as i64));
                return Err(e);
            }
            Verdict::Eof => {
                eof = true;
                self.files.get_mut(&fd).unwrap().eof = true;
            }
            Verdict::Go => {}
        }
        let avail: usize = match &self.fs.inodes[ino].node {
            Node::File(d) => (d.len() as u64).saturating_sub(pos) as usize,
            Node::Dir(_) => return Err(libc::EISDIR),
            _ => 0,
        };
        let n = if eof { 0 } else { avail.min(want) };
        let n = if n > 0 { self.chunk(OpClass::Read, n) } else { 0 };
        let data = match &self.fs.inodes[ino].node {
            Node::File(d) => d[pos as usize..][..n].to_vec(),
            _ => Vec::new(),
        };
        if at.is_none() {
            self.files.get_mut(&fd).unwrap().pos = pos + n as u64;
        }
        self.note(&format!("read fd{fd} want={want}"), n as i64);
        Ok(data)
    }

    fn do_write(&mut self, fd: c_int, data: &[u8], at: Option<u64>) -> Result<usize, c_int> {
        let is_stdout = fd == 1;
        let class = if is_stdout {
            OpClass::Stdout
        } else {
            OpClass::Write
        };
        if !is_stdout {
            match self.files.get(&fd) {
                Some(f) if f.write => {}
                _ => {
                    self.note(&format!("write fd{fd}"), -(libc::EBADF as i64));
                    return Err(libc::EBADF);
                }
            }
        }
        if data.is_empty() {
            return Ok(0);
        }
        if self.interrupted(class) {
            self.note(&format!("write fd{fd}"), -(libc::EINTR as i64));
            return Err(libc::EINTR);
        }
        if let Verdict::Fail(e) = self.enter(class, "") {
            self.note(&format!("write fd{fd} n={}", data.len()), -(e as i64));
            return Err(e);
        }
        let mut n = self.chunk(class, data.len());
        if !is_stdout {
            if let Some(c) = self.plan.capacity {
                if c == 0 {
                    self.fire("write:disk-full".into());
                    self.errors_returned += 1;
                    self.note(&format!("write fd{fd}"), -(libc::ENOSPC as i64));
                    return Err(libc::ENOSPC);
                }
                if (n as u64) > c {
                    n = c as usize;
                    self.fire("write:disk-full-short".into());
                }
                self.plan.capacity = Some(c - n as u64);
            }
        }
        if is_stdout {
            if !self.crashed {
                self.stdout.extend(&data[..n]);
                if let Some(j) = self.journal {
                    raw_write_all(j, format!("W 1 0 {n}\n").as_bytes());
                    raw_write_all(j, &data[..n]);
                    raw_write_all(j, b"\n");
                }
            }
        } else if !self.crashed {
            let (ino, pos) = {
                let f = &self.files[&fd];
                let len = match &self.fs.inodes[f.ino].node {
                    Node::File(d) => d.len() as u64,
                    _ => 0,
                };
                (
                    f.ino,
                    if f.append {
                        len
                    } else {
                        at.unwrap_or(f.pos)
                    },
                )
            };
            if let Node::File(d) = &mut self.fs.inodes[ino].node {
                let end = pos as usize + n;
                if d.len() < end {
                    d.resize(end, 0);
                }
                d[pos as usize..end].copy_from_slice(&data[..n]);
            }
            if at.is_none() {
                self.files.get_mut(&fd).unwrap().pos = pos + n as u64;
            }
        }
        self.note(&format!("write fd{fd} n={}", data.len()), n as i64);
        Ok(n)
    }
}

pub fn errno_name(e: c_int) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EACCES => "EACCES".into(),
        libc::EPERM => "EPERM".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EINTR => "EINTR".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EROFS => "EROFS".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::EAGAIN => "EAGAIN".into(),
        _ => format!("errno{e}"),
    }
}

fn raw_write_all(fd: c_int, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { libc::syscall(libc::SYS_write, fd, b.as_ptr(), b.len()) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

// ------------------------------------------------------------------------------------------------
// blocking
// ------------------------------------------------------------------------------------------------

/// What stands in for futex calls, sched_yield and sleeps on threads under a simulated schedule.
pub struct Blocking {
    /// (address, operation, value, has a time limit) -> the call's result (-errno), or not simulated.
    pub futex: fn(*const u32, c_int, u32, bool) -> Option<c_long>,
    /// True if the calling thread is under the schedule (and the call has been simulated).
    pub pause: fn() -> bool,
}
static BLOCKING: std::sync::atomic::AtomicPtr<Blocking> =
    std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn set_blocking(b: &'static Blocking) {
    BLOCKING.store(b as *const Blocking as *mut Blocking, Ordering::SeqCst);
}
fn blocking() -> Option<&'static Blocking> {
    let p = BLOCKING.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

/// A system call, past every hook; a negative result is -errno.
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: c_long, a: [usize; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
#[cfg(target_arch = "aarch64")]
pub unsafe fn raw_syscall(n: c_long, a: [usize; 6]) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "svc 0",
        in("x8") n,
        inlateout("x0") a[0] => r,
        in("x1") a[1], in("x2") a[2], in("x3") a[3], in("x4") a[4], in("x5") a[5],
        options(nostack)
    );
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    let mut r = None;
    if n == libc::SYS_futex {
        if let Some(k) = blocking() {
            r = (k.futex)(a as *const u32, b as c_int, c as u32, d != 0);
        }
    }
    let r = r.unwrap_or_else(|| raw_syscall(n, [a, b, c, d, e, f]));
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !blocking().map(|k| (k.pause)()).unwrap_or(false) {
        raw_syscall(libc::SYS_sched_yield, [0; 6]);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if blocking().map(|k| (k.pause)()).unwrap_or(false) {
        return 0;
    }
    let r = raw_syscall(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0]);
    if r < 0 {
        return fail(-r as c_int);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if blocking().map(|k| (k.pause)()).unwrap_or(false) {
        return 0;
    }
    -raw_syscall(
        libc::SYS_clock_nanosleep,
        [clock as usize, flags as usize, req as usize, rem as usize, 0, 0],
    ) as c_int
}

// ------------------------------------------------------------------------------------------------
// randomness
// ------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: c_uint) -> ssize_t {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    match ctx() {
        Some(c) => {
            let mut i = c.inner.lock().unwrap();
            for ch in out.chunks_mut(8) {
                let v = i.hash_rng.next().to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()]);
            }
        }
        None => {
            // threads of the simulator itself: deterministic as well
            for ch in out.chunks_mut(8) {
                let v = mix(FALLBACK_HASH.load(Ordering::Relaxed), 7).to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()]);
            }
        }
    }
    len as ssize_t
}

// ------------------------------------------------------------------------------------------------
// files
// ------------------------------------------------------------------------------------------------

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        maybe_yield();
        let mut i = c.inner.lock().unwrap();
        return match i.do_open(&p, flags, mode) {
            Ok(fd) => fd,
            Err(e) => fail(e),
        };
    }
    libc::syscall(
        libc::SYS_openat,
        libc::AT_FDCWD,
        path,
        flags as c_long,
        mode as c_long,
    ) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dfd: c_int,
    path: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    if sim_path(path).is_some() && ctx().is_some() {
        return open_impl(path, flags, mode);
    }
    libc::syscall(libc::SYS_openat, dfd, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(
    dfd: c_int,
    path: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    openat64(dfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE {
        maybe_yield();
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            return match i.do_read(fd, n, None) {
                Ok(d) => {
                    std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
                    d.len() as ssize_t
                }
                Err(e) => fail(e) as ssize_t,
            };
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            return match i.do_read(fd, n, Some(off as u64)) {
                Ok(d) => {
                    std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
                    d.len() as ssize_t
                }
                Err(e) => fail(e) as ssize_t,
            };
        }
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if fd >= FD_BASE && ctx().is_some() {
        for k in 0..cnt as usize {
            let v = &*iov.add(k);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE || fd == 1 {
        if fd != 1 {
            maybe_yield(); // never while std holds its stdout lock
        }
        if let Some(c) = ctx() {
            let data = if n == 0 {
                &[][..]
            } else {
                std::slice::from_raw_parts(buf as *const u8, n)
            };
            let mut i = c.inner.lock().unwrap();
            return match i.do_write(fd, data, None) {
                Ok(k) => k as ssize_t,
                Err(e) => fail(e) as ssize_t,
            };
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: c_int,
    buf: *const c_void,
    n: size_t,
    off: off64_t,
) -> ssize_t {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let data = std::slice::from_raw_parts(buf as *const u8, n);
            let mut i = c.inner.lock().unwrap();
            return match i.do_write(fd, data, Some(off as u64)) {
                Ok(k) => k as ssize_t,
                Err(e) => fail(e) as ssize_t,
            };
        }
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if (fd >= FD_BASE || fd == 1) && ctx().is_some() {
        let mut all: Vec<u8> = Vec::new();
        for k in 0..cnt as usize {
            let v = &*iov.add(k);
            if v.iov_len > 0 {
                all.extend(std::slice::from_raw_parts(
                    v.iov_base as *const u8,
                    v.iov_len,
                ));
            }
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            let (ino, pos) = match i.files.get(&fd) {
                Some(f) => (f.ino, f.pos),
                None => return fail(libc::EBADF) as off64_t,
            };
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => pos as i64,
                _ => i.stat_of(ino).1 as i64,
            };
            let np = base + off;
            if np < 0 {
                return fail(libc::EINVAL) as off64_t;
            }
            i.files.get_mut(&fd).unwrap().pos = np as u64;
            return np;
        }
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            i.note(&format!("close fd{fd}"), 0);
            i.files.remove(&fd);
        }
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn sync_impl(fd: c_int, nr: c_long) -> c_int {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            if let Verdict::Fail(e) = i.enter(OpClass::Sync, "") {
                i.note("sync", -(e as i64));
                return fail(e);
            }
        }
        return 0;
    }
    libc::syscall(nr, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            let ino = match i.files.get(&fd) {
                Some(f) if f.write => f.ino,
                _ => return fail(libc::EBADF),
            };
            if let Verdict::Fail(e) = i.enter(OpClass::Write, "") {
                return fail(e);
            }
            if !i.crashed {
                if let Node::File(d) = &mut i.fs.inodes[ino].node {
                    d.resize(len as usize, 0);
                }
            }
            return 0;
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if fd >= FD_BASE || ((0..=2).contains(&fd) && ctx().is_some()) {
        set_errno(libc::ENOTTY);
        return 0;
    }
    let mut t: libc::termios = std::mem::zeroed();
    (libc::syscall(libc::SYS_ioctl, fd, libc::TCGETS, &mut t as *mut _) == 0) as c_int
}

// ------------------------------------------------------------------------------------------------
// metadata
// ------------------------------------------------------------------------------------------------

unsafe fn fill_stat(st: *mut libc::stat64, mode: u32, size: u64, ino: Ino) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = mode;
    (*st).st_size = size as i64;
    (*st).st_ino = ino as u64 + 1;
    (*st).st_dev = 77;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}

unsafe fn stat_impl(path: *const c_char, st: *mut libc::stat64, follow: bool) -> Option<c_int> {
    let (c, p) = match (ctx(), sim_path(path)) {
        (Some(c), Some(p)) => (c, p),
        _ => return None,
    };
    let mut i = c.inner.lock().unwrap();
    Some(match i.stat_path(&p, follow) {
        Ok(ino) => {
            let (m, s) = i.stat_of(ino);
            fill_stat(st, m, s, ino);
            0
        }
        Err(e) => fail(e),
    })
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_impl(path, st, true).unwrap_or_else(|| libc::syscall(libc::SYS_stat, path, st) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_impl(path, st, false).unwrap_or_else(|| libc::syscall(libc::SYS_lstat, path, st) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let i = c.inner.lock().unwrap();
            let ino = match i.files.get(&fd) {
                Some(f) => f.ino,
                None => return fail(libc::EBADF),
            };
            let (m, s) = i.stat_of(ino);
            fill_stat(st, m, s, ino);
            return 0;
        }
    }
    libc::syscall(libc::SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}

/// Joins `name` to the directory behind a simulated descriptor.
fn at_path(c: &Ctx, dfd: c_int, name: &str) -> Option<String> {
    if name.starts_with('/') {
        return if Fs::is_sim(name) {
            Some(name.to_string())
        } else {
            None
        };
    }
    let i = c.inner.lock().unwrap();
    i.dir_path(dfd).map(|p| format!("{p}/{name}"))
}
impl Inner {
    fn dir_path(&self, dfd: c_int) -> Option<String> {
        let ino = self.files.get(&dfd).map(|f| f.ino)?;
        fn find(fs: &Fs, cur: Ino, path: String, want: Ino) -> Option<String> {
            if cur == want {
                return Some(path);
            }
            if let Node::Dir(d) = &fs.inodes[cur].node {
                for (n, i) in d {
                    if let Some(p) = find(fs, *i, format!("{path}/{n}"), want) {
                        return Some(p);
                    }
                }
            }
            None
        }
        find(&self.fs, self.fs.root, crate::fs::PREFIX.to_string(), ino)
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstatat64(
    dfd: c_int,
    path: *const c_char,
    st: *mut libc::stat64,
    flags: c_int,
) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), path_of(path)) {
        if dfd >= FD_BASE && p.is_empty() {
            return fstat64(dfd, st);
        }
        if dfd >= FD_BASE || Fs::is_sim(&p) {
            let full = match at_path(c, dfd, &p) {
                Some(f) => f,
                None => return fail(libc::ENOENT),
            };
            let follow = flags & libc::AT_SYMLINK_NOFOLLOW == 0;
            let mut i = c.inner.lock().unwrap();
            return match i.stat_path(&full, follow) {
                Ok(ino) => {
                    let (m, s) = i.stat_of(ino);
                    fill_stat(st, m, s, ino);
                    0
                }
                Err(e) => fail(e),
            };
        }
    }
    libc::syscall(libc::SYS_newfstatat, dfd, path, st, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dfd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    out: *mut libc::statx,
) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), path_of(path)) {
        let target = if p.is_empty() && dfd >= FD_BASE {
            let i = c.inner.lock().unwrap();
            match i.files.get(&dfd) {
                Some(f) => Some(Ok(f.ino)),
                None => Some(Err(libc::EBADF)),
            }
        } else if dfd >= FD_BASE || Fs::is_sim(&p) {
            match at_path(c, dfd, &p) {
                Some(full) => {
                    let follow = flags & libc::AT_SYMLINK_NOFOLLOW == 0;
                    let mut i = c.inner.lock().unwrap();
                    Some(i.stat_path(&full, follow))
                }
                None => Some(Err(libc::ENOENT)),
            }
        } else {
            None
        };
        if let Some(t) = target {
            return match t {
                Ok(ino) => {
                    let i = c.inner.lock().unwrap();
                    let (m, s) = i.stat_of(ino);
                    std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                    (*out).stx_mask = libc::STATX_BASIC_STATS;
                    (*out).stx_mode = m as u16;
                    (*out).stx_size = s;
                    (*out).stx_ino = ino as u64 + 1;
                    (*out).stx_nlink = 1;
                    (*out).stx_blksize = 4096;
                    (*out).stx_dev_major = 7;
                    0
                }
                Err(e) => fail(e),
            };
        }
    }
    libc::syscall(libc::SYS_statx, dfd, path, flags, mask, out) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        return match i.stat_path(&p, true) {
            Ok(_) => 0,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_access, path, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        return match i.stat_path(&p, false) {
            Ok(ino) => match &i.fs.inodes[ino].node {
                Node::Link(t) => {
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                    k as ssize_t
                }
                _ => fail(libc::EINVAL) as ssize_t,
            },
            Err(e) => fail(e) as ssize_t,
        };
    }
    libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        match i.stat_path(&p, true) {
            Ok(ino) => {
                // canonical name: the first path in name order that reaches the inode
                fn find(fs: &Fs, cur: Ino, path: String, want: Ino) -> Option<String> {
                    if cur == want {
                        return Some(path);
                    }
                    if let Node::Dir(d) = &fs.inodes[cur].node {
                        for (n, i) in d {
                            if let Some(p) = find(fs, *i, format!("{path}/{n}"), want) {
                                return Some(p);
                            }
                        }
                    }
                    None
                }
                let s = find(&i.fs, i.fs.root, crate::fs::PREFIX.to_string(), ino)
                    .unwrap_or_else(|| p.clone());
                let buf = if out.is_null() {
                    libc::malloc(s.len() + 1) as *mut c_char
                } else {
                    out
                };
                std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
                *buf.add(s.len()) = 0;
                return buf;
            }
            Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
        }
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(real(b"realpath\0"));
    f(path, out)
}

// ------------------------------------------------------------------------------------------------
// names
// ------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        if let Verdict::Fail(e) = i.enter(OpClass::Other, "") {
            return fail(e);
        }
        if i.crashed {
            return 0;
        }
        return if i.fs.remove(&p) {
            0
        } else {
            fail(libc::ENOENT)
        };
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if let (Some(c), Some(a), Some(b)) = (ctx(), sim_path(from), sim_path(to)) {
        let mut i = c.inner.lock().unwrap();
        if let Verdict::Fail(e) = i.enter(OpClass::Other, "") {
            return fail(e);
        }
        if i.crashed {
            return 0;
        }
        let src = match i.fs.resolve(&a, false) {
            Ok(f) => f,
            Err(e) => return fail(e),
        };
        let ino = match src.ino {
            Some(x) => x,
            None => return fail(libc::ENOENT),
        };
        let dst = match i.fs.resolve(&b, false) {
            Ok(f) => f,
            Err(e) => return fail(e),
        };
        if let (Some(sp), Some(dp)) = (src.parent, dst.parent) {
            if let Node::Dir(d) = &mut i.fs.inodes[sp].node {
                d.remove(&src.name);
            }
            if let Node::Dir(d) = &mut i.fs.inodes[dp].node {
                d.insert(dst.name, ino);
            }
            i.note(&format!("rename {a} {b}"), 0);
            return 0;
        }
        return fail(libc::EINVAL);
    }
    libc::syscall(libc::SYS_rename, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        if let Verdict::Fail(e) = i.enter(OpClass::Other, "") {
            return fail(e);
        }
        if i.fs.lookup(&p).is_ok() {
            return fail(libc::EEXIST);
        }
        i.fs.add_dir(&p);
        return 0;
    }
    libc::syscall(libc::SYS_mkdir, path, mode as c_long) as c_int
}

// ------------------------------------------------------------------------------------------------
// directories
// ------------------------------------------------------------------------------------------------

unsafe fn real(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

fn opendir_ino(i: &mut Inner, ino: Ino) -> Result<usize, c_int> {
    let mut entries: Vec<(String, Ino, u8)> = match &i.fs.inodes[ino].node {
        Node::Dir(d) => {
            if i.fs.inodes[ino].mode & 0o400 == 0 {
                return Err(libc::EACCES);
            }
            d.iter()
                .map(|(n, k)| {
                    let t = match &i.fs.inodes[*k].node {
                        Node::File(_) => libc::DT_REG,
                        Node::Dir(_) => libc::DT_DIR,
                        Node::Link(_) => libc::DT_LNK,
                        Node::Fifo => libc::DT_FIFO,
                    };
                    (n.clone(), *k, t)
                })
                .collect()
        }
        _ => return Err(libc::ENOTDIR),
    };
    entries.push((".".into(), ino, libc::DT_DIR));
    entries.push(("..".into(), ino, libc::DT_DIR));
    if i.plan.dir_seed != 0 {
        let mut r = SplitMix::new(mix(i.plan.dir_seed, ino as u64));
        r.shuffle(&mut entries);
    }
    if i.plan.dtype_unknown {
        for e in entries.iter_mut() {
            e.2 = libc::DT_UNKNOWN;
        }
    }
    let fd = i.next_fd;
    i.next_fd += 1;
    i.files.insert(
        fd,
        OpenFile {
            ino,
            pos: 0,
            read: true,
            write: false,
            append: false,
            eof: false,
        },
    );
    let buf: Box<libc::dirent64> = Box::new(unsafe { std::mem::zeroed() });
    let key = &*buf as *const libc::dirent64 as usize;
    i.dirs.insert(
        key,
        OpenDir {
            entries,
            next: 0,
            buf,
            fd,
        },
    );
    Ok(key)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if let (Some(c), Some(p)) = (ctx(), sim_path(path)) {
        let mut i = c.inner.lock().unwrap();
        let r = match i.enter(OpClass::OpenDir, &p) {
            Verdict::Fail(e) => Err(e),
            _ => match i.fs.lookup(&p) {
                Ok(ino) => opendir_ino(&mut i, ino),
                Err(e) => Err(e),
            },
        };
        i.note(
            &format!("opendir {p}"),
            match &r {
                Ok(_) => 0,
                Err(e) => -(*e as i64),
            },
        );
        return match r {
            Ok(k) => k as *mut libc::DIR,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR =
        std::mem::transmute(real(b"opendir\0"));
    f(path)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let mut i = c.inner.lock().unwrap();
            let ino = match i.files.get(&fd) {
                Some(f) => f.ino,
                None => {
                    set_errno(libc::EBADF);
                    return std::ptr::null_mut();
                }
            };
            return match opendir_ino(&mut i, ino) {
                Ok(k) => k as *mut libc::DIR,
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            };
        }
    }
    let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR =
        std::mem::transmute(real(b"fdopendir\0"));
    f(fd)
}

fn is_sim_dir(c: &Ctx, d: *mut libc::DIR) -> bool {
    c.inner.lock().unwrap().dirs.contains_key(&(d as usize))
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(c) = ctx() {
        if is_sim_dir(c, d) {
            let mut i = c.inner.lock().unwrap();
            let (name, next) = {
                let od = &i.dirs[&(d as usize)];
                (od.entries.get(od.next).cloned(), od.next)
            };
            // a listing fails between entries, not on "." and ".."
            let special = matches!(&name, Some((n, _, _)) if n == "." || n == "..");
            if !special {
                if let Verdict::Fail(e) = i.enter(OpClass::ReadDir, "") {
                    i.note("readdir", -(e as i64));
                    set_errno(e);
                    return std::ptr::null_mut();
                }
            }
            return match name {
                None => {
                    i.note("readdir end", 0);
                    std::ptr::null_mut() // errno untouched: end of the listing
                }
                Some((n, ino, t)) => {
                    if !special {
                        i.note(&format!("readdir {n}"), 0);
                    }
                    let od = i.dirs.get_mut(&(d as usize)).unwrap();
                    od.next = next + 1;
                    let e = &mut *od.buf;
                    e.d_ino = ino as u64 + 1;
                    e.d_off = od.next as i64;
                    e.d_type = t;
                    let b = n.as_bytes();
                    for (k, x) in b.iter().enumerate().take(255) {
                        e.d_name[k] = *x as c_char;
                    }
                    e.d_name[b.len().min(255)] = 0;
                    e.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                    e as *mut libc::dirent64
                }
            };
        }
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 =
        std::mem::transmute(real(b"readdir64\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if let Some(c) = ctx() {
        if is_sim_dir(c, d) {
            let mut i = c.inner.lock().unwrap();
            if let Some(od) = i.dirs.remove(&(d as usize)) {
                i.files.remove(&od.fd);
            }
            return 0;
        }
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int =
        std::mem::transmute(real(b"closedir\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(c) = ctx() {
        let i = c.inner.lock().unwrap();
        if let Some(od) = i.dirs.get(&(d as usize)) {
            return od.fd;
        }
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(real(b"dirfd\0"));
    f(d)
}

// kernel-side copies would bypass the simulated files
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fi: c_int,
    oi: *mut off64_t,
    fo: c_int,
    oo: *mut off64_t,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    if fi >= FD_BASE || fo >= FD_BASE || (ctx().is_some() && fo == 1) {
        return fail(libc::EXDEV) as ssize_t;
    }
    libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(
    fo: c_int,
    fi: c_int,
    off: *mut off64_t,
    n: size_t,
) -> ssize_t {
    if fi >= FD_BASE || fo >= FD_BASE || (ctx().is_some() && fo == 1) {
        return fail(libc::EINVAL) as ssize_t;
    }
    libc::syscall(libc::SYS_sendfile, fo, fi, off, n) as ssize_t
}

// ------------------------------------------------------------------------------------------------
// preloaded into a child process
// ------------------------------------------------------------------------------------------------

/// The path behind every simulated descriptor open for writing is journalled with its data, so the
/// parent can rebuild the child's disk even if the child dies.
pub fn child_init() {
    unsafe {
        let env = |k: &[u8]| -> Option<String> {
            let p = libc::getenv(k.as_ptr() as *const c_char);
            path_of(p)
        };
        let (plan, img, jr) = match (
            env(b"SIMRT_PLAN\0"),
            env(b"SIMRT_DISK\0"),
            env(b"SIMRT_JOURNAL\0"),
        ) {
            (Some(a), Some(b), Some(c)) => (a, b, c),
            _ => return,
        };
        let slurp = |p: &str| -> Vec<u8> {
            let cp = format!("{p}\0");
            let fd = libc::syscall(
                libc::SYS_openat,
                libc::AT_FDCWD,
                cp.as_ptr(),
                libc::O_RDONLY,
                0,
            ) as c_int;
            let mut out = Vec::new();
            let mut buf = [0u8; 65536];
            loop {
                let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len());
                if n <= 0 {
                    break;
                }
                out.extend(&buf[..n as usize]);
            }
            libc::syscall(libc::SYS_close, fd);
            out
        };
        let plan = Plan::from_text(&String::from_utf8_lossy(&slurp(&plan)));
        let fs = Fs::from_image(&slurp(&img));
        let cp = format!("{jr}\0");
        let fd = libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD,
            cp.as_ptr(),
            libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC,
            0o600,
        ) as c_int;
        let c = Box::new(Ctx::new(plan, fs));
        c.inner.lock().unwrap().journal = Some(fd);
        GLOBAL.store(Box::into_raw(c), Ordering::SeqCst);
        extern "C" fn at_exit() {
            child_finish();
        }
        libc::atexit(at_exit);
    }
}

/// Dump the child's disk at the end of its journal.
pub fn child_finish() {
    if let Some(c) = ctx() {
        let i = match c.inner.lock() {
            Ok(i) => i,
            Err(p) => p.into_inner(),
        };
        i.dump();
    }
}

#[cfg(not(test))]
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = {
    extern "C" fn init() {
        child_init();
    }
    init
};

/// std's debug check on closing a descriptor asks for its flags.
unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE {
        if let Some(c) = ctx() {
            let i = c.inner.lock().unwrap();
            return if i.has_fd(fd) {
                match cmd {
                    libc::F_GETFD => libc::FD_CLOEXEC,
                    _ => 0,
                }
            } else {
                fail(libc::EBADF)
            };
        }
    }
    let r = libc::syscall(libc::SYS_fcntl, fd, cmd, arg);
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl_impl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl_impl(fd, cmd, arg)
}

// ------------------------------------------------------------------------------------------------
// Edges of the code under test, in builds whose crates are compiled with SanitizerCoverage
// ------------------------------------------------------------------------------------------------

static EDGE: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
static EDGES: AtomicU32 = AtomicU32::new(0);

/// Call this at every edge between basic blocks of the code under test.
pub fn set_edge(f: Option<fn(u32)>) {
    EDGE.store(f.map(|f| f as *mut ()).unwrap_or(std::ptr::null_mut()), Ordering::SeqCst);
}

/// How many edges the instrumented crates have; 0 in other builds.
pub fn edges() -> u32 {
    EDGES.load(Ordering::SeqCst)
}

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let f = EDGE.load(Ordering::Relaxed);
    if !f.is_null() {
        let f: fn(u32) = std::mem::transmute(f);
        f(*guard)
    }
}

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGES.fetch_add(1, Ordering::SeqCst) + 1;
        p = p.add(1);
    }
}
