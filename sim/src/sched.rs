//! Threads under a deterministic schedule, in processes of their own.
//!
//! Exactly one managed thread runs at a time (it holds the baton).  Every memory allocation, every
//! call on a simulated stream and every simulated system call is a point where the schedule may
//! pass the baton on, and so is, for fine schedules in builds that are instrumented for it, every
//! edge between basic blocks of the code under test; blocking on a futex passes it on too.  The schedule is a function of the run's
//! seed and the points reached, nothing else.

use simrt::{raw_syscall, Blocking, SplitMix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// Raw parking
// ------------------------------------------------------------------------------------------------

const WAIT: usize = 128; // FUTEX_WAIT | FUTEX_PRIVATE_FLAG
const WAKE: usize = 129;

fn park_while(w: &AtomicU32, v: u32) {
    while w.load(SeqCst) == v {
        unsafe { raw_syscall(libc::SYS_futex, [w as *const _ as usize, WAIT, v as usize, 0, 0, 0]) };
    }
}
fn set_and_wake(w: &AtomicU32, v: u32) {
    w.store(v, SeqCst);
    unsafe { raw_syscall(libc::SYS_futex, [w as *const _ as usize, WAKE, 64, 0, 0, 0]) };
}

// ------------------------------------------------------------------------------------------------
// The schedule
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Mode {
    /// Switch after so many points since the last switch, to this thread (if it can run).
    Switches(Vec<(u64, usize)>),
    /// At every point, with this probability (per million); stream and system calls count 1000-fold.
    Random { seed: u64, ppm: u64 },
}

#[derive(Clone, Debug)]
pub struct Schedule {
    pub first: usize,
    pub mode: Mode,
    /// Edges between basic blocks are points too.
    pub fine: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}

const MAX: usize = 8;
const NOBODY: usize = usize::MAX;
/// Points after which an execution counts as making no progress.
const LIMIT: u64 = 40_000_000;
const FINE_LIMIT: u64 = 400_000_000;

struct State {
    n: usize,
    status: [Status; MAX],
    timed_out: [bool; MAX],
    current: usize,
    points: u64,
    since: u64,
    next: usize,
    mode: Mode,
    rng: SplitMix,
    hash: u64,
    switches: u64,
    forced: u64,
    blocks: u64,
    log: [(u64, u8, u8); 64],
    over: bool,
    limit: u64,
}

struct Board {
    go: [AtomicU32; MAX],
    arrived: AtomicU32,
    done: AtomicU32,
    finish: AtomicU32,
    /// The schedule has been abandoned: every thread runs freely.
    free: AtomicBool,
    stalled: AtomicBool,
    beat: AtomicU64,
    state: UnsafeCell<State>,
}
unsafe impl Sync for Board {}

static BOARD: AtomicPtr<Board> = AtomicPtr::new(std::ptr::null_mut());
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(NOBODY)
}

impl Board {
    #[allow(clippy::mut_from_ref)]
    fn state(&self) -> &mut State {
        // only the holder of the baton gets here, and the baton is passed through a futex
        unsafe { &mut *self.state.get() }
    }
    /// Give the baton to `to` and wait for it to come back (unless this thread is through).
    fn pass(&self, from: usize, to: usize, forced: bool) {
        let s = self.state();
        if (s.switches as usize) < s.log.len() {
            s.log[s.switches as usize] = (s.points, from as u8, to as u8);
        }
        s.switches += 1;
        s.forced += forced as u64;
        s.hash = (s.hash ^ (s.points << 8) ^ ((from as u64) << 4) ^ to as u64)
            .wrapping_mul(0x0000_0100_0000_01B3)
            .rotate_left(7);
        s.since = 0;
        s.current = to;
        let through = s.status[from] == Status::Done;
        self.go[from].store(0, SeqCst);
        set_and_wake(&self.go[to], 1);
        if !through {
            park_while(&self.go[from], 0);
        }
    }
    fn able(&self, besides: usize) -> Option<usize> {
        let s = self.state();
        let n = s.n;
        let start = s.rng.below(n as u64) as usize;
        (0..n).map(|k| (start + k) % n).find(|i| *i != besides && s.status[*i] == Status::Ready)
    }
    /// The next thread when this one cannot go on: a ready one, else one whose wait has a time limit.
    fn after(&self, besides: usize) -> Option<usize> {
        if let Some(i) = self.able(besides) {
            return Some(i);
        }
        let s = self.state();
        for i in 0..s.n {
            if let Status::Blocked { timed: true, .. } = s.status[i] {
                s.status[i] = Status::Ready;
                s.timed_out[i] = true;
                return Some(i);
            }
        }
        None
    }
    fn set_free(&self) {
        self.free.store(true, SeqCst);
        for g in &self.go {
            set_and_wake(g, 1);
        }
    }
}

fn board() -> Option<&'static Board> {
    let p = BOARD.load(SeqCst);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

#[inline(always)]
fn at_point(weight: u64) {
    let i = me();
    if i == NOBODY {
        return;
    }
    at_point_of(i, weight)
}

#[inline(never)]
fn at_point_of(i: usize, weight: u64) {
    let b = match board() {
        Some(b) if !b.free.load(SeqCst) => b,
        _ => return,
    };
    if INSIDE.with(|x| x.replace(true)) {
        return;
    }
    let s = b.state();
    s.points += 1;
    s.since += 1;
    b.beat.store(s.points, SeqCst);
    if s.points > s.limit && !s.over {
        s.over = true;
        b.stalled.store(true, SeqCst);
        // parked for good: the main thread ends this process
        let w = AtomicU32::new(0);
        park_while(&w, 0);
    }
    let mut to = None;
    match &s.mode {
        Mode::Switches(v) => {
            if let Some((gap, t)) = v.get(s.next) {
                if s.since > *gap {
                    s.next += 1;
                    let t = *t % s.n;
                    if t != i && s.status[t] == Status::Ready {
                        to = Some(t);
                    } else {
                        s.since = 0;
                    }
                }
            }
        }
        Mode::Random { ppm, .. } => {
            let p = ppm * weight;
            if s.rng.below(1_000_000) < p {
                to = b.able(i);
            }
        }
    }
    if let Some(t) = to {
        b.pass(i, t, false);
    }
    INSIDE.with(|x| x.set(false));
}

/// A stream or system call of a managed thread.
pub fn call_point() {
    at_point(1000)
}

/// An edge between basic blocks of the code under test.
fn edge_point(_edge: u32) {
    at_point(1)
}

fn futex(addr: *const u32, op: i32, val: u32, timed: bool) -> Option<i64> {
    let i = me();
    if i == NOBODY {
        return None;
    }
    let b = match board() {
        Some(b) if !b.free.load(SeqCst) => b,
        _ => return None,
    };
    let kind = op & 0x7f;
    match kind {
        0 | 9 => {
            // wait
            let w = unsafe { &*(addr as *const AtomicU32) };
            if w.load(SeqCst) != val {
                return Some(-(libc::EAGAIN as i64));
            }
            let s = b.state();
            s.blocks += 1;
            s.timed_out[i] = false;
            s.status[i] = Status::Blocked { addr: addr as usize, timed };
            INSIDE.with(|x| x.set(true));
            match b.after(i) {
                Some(t) if t == i => {}
                Some(t) => b.pass(i, t, true),
                None => {
                    b.stalled.store(true, SeqCst);
                    // wait for the main thread to look into it
                    b.go[i].store(0, SeqCst);
                    if !b.free.load(SeqCst) {
                        park_while(&b.go[i], 0);
                    }
                }
            }
            INSIDE.with(|x| x.set(false));
            if b.free.load(SeqCst) {
                return Some(0);
            }
            let s = b.state();
            s.status[i] = Status::Ready;
            if s.timed_out[i] {
                return Some(-(libc::ETIMEDOUT as i64));
            }
            Some(0)
        }
        1 | 10 => {
            let s = b.state();
            let mut woken = 0;
            for t in 0..s.n {
                if woken < val.max(1) {
                    if let Status::Blocked { addr: a, .. } = s.status[t] {
                        if a == addr as usize {
                            s.status[t] = Status::Ready;
                            woken += 1;
                        }
                    }
                }
            }
            // threads outside the schedule may be waiting as well
            unsafe { raw_syscall(libc::SYS_futex, [addr as usize, op as usize, val as usize, 0, 0, 0]) };
            at_point(1000);
            Some(woken as i64)
        }
        _ => None,
    }
}

fn pause() -> bool {
    let i = me();
    if i == NOBODY {
        return false;
    }
    let b = match board() {
        Some(b) if !b.free.load(SeqCst) => b,
        _ => return false,
    };
    if INSIDE.with(|x| x.replace(true)) {
        return true;
    }
    b.state().points += 1;
    if let Some(t) = b.able(i) {
        b.pass(i, t, true);
    }
    INSIDE.with(|x| x.set(false));
    true
}

static HOOKS: Blocking = Blocking { futex, pause };

/// Allocation is a scheduling point.
pub struct PointAlloc;
unsafe impl GlobalAlloc for PointAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        at_point(1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        at_point(1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        at_point(1);
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------------------------------------
// Running threads
// ------------------------------------------------------------------------------------------------

pub struct Ran<T> {
    /// Per thread; nothing for those that never came to an end.
    pub results: Vec<Option<T>>,
    pub points: u64,
    pub switches: u64,
    pub blocks: u64,
    pub hash: u64,
    pub log: Vec<(u64, u8, u8)>,
    /// No thread could go on, or the point limit was reached.
    pub stalled: bool,
    /// The threads had to be let loose (a wait the schedule cannot see): no verdict.
    pub unjudged: bool,
}

/// Run each of these on a thread of its own under the schedule.  For use in a process that ends soon.
pub fn run<T: Send + 'static>(sch: &Schedule, jobs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Ran<T> {
    let n = jobs.len();
    assert!(n >= 1 && n <= MAX);
    let seed = match &sch.mode {
        Mode::Random { seed, .. } => *seed,
        _ => 0,
    };
    let b: &'static Board = Box::leak(Box::new(Board {
        go: Default::default(),
        arrived: AtomicU32::new(0),
        done: AtomicU32::new(0),
        finish: AtomicU32::new(0),
        free: AtomicBool::new(false),
        stalled: AtomicBool::new(false),
        beat: AtomicU64::new(0),
        state: UnsafeCell::new(State {
            n,
            status: [Status::Ready; MAX],
            timed_out: [false; MAX],
            current: sch.first % n,
            points: 0,
            since: 0,
            next: 0,
            mode: sch.mode.clone(),
            rng: SplitMix::new(seed ^ 0x5CED),
            hash: 0xcbf2_9ce4_8422_2325,
            switches: 0,
            forced: 0,
            blocks: 0,
            log: [(0, 0, 0); 64],
            over: false,
            limit: if sch.fine { FINE_LIMIT } else { LIMIT },
        }),
    }));
    BOARD.store(b as *const Board as *mut Board, SeqCst);
    simrt::set_blocking(&HOOKS);
    simrt::set_edge(if sch.fine { Some(edge_point) } else { None });
    let slots: &'static Vec<UnsafeSlot<T>> =
        Box::leak(Box::new((0..n).map(|_| UnsafeSlot(UnsafeCell::new(None), AtomicBool::new(false))).collect()));
    for (i, job) in jobs.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(crate::run::STACK)
            .spawn(move || {
                b.arrived.fetch_add(1, SeqCst);
                park_while(&b.go[i], 0);
                simrt::set_yield(Some(call_point));
                ME.with(|m| m.set(i));
                let r = job();
                INSIDE.with(|x| x.set(true));
                ME.with(|m| m.set(NOBODY));
                simrt::set_yield(None);
                unsafe { *slots[i].0.get() = Some(r) };
                slots[i].1.store(true, SeqCst);
                if !b.free.load(SeqCst) {
                    let s = b.state();
                    s.status[i] = Status::Done;
                    if let Some(t) = b.after(i) {
                        b.pass(i, t, true);
                    } else if s.status[..n].iter().any(|s| *s != Status::Done) {
                        b.stalled.store(true, SeqCst);
                    }
                }
                b.done.fetch_add(1, SeqCst);
                // nothing of this thread is torn down while others still run
                park_while(&b.finish, 0);
            })
            .expect("thread");
        while b.arrived.load(SeqCst) as usize <= i {
            std::thread::yield_now();
        }
    }
    set_and_wake(&b.go[sch.first % n], 1);
    let (mut seen, mut since) = (0u64, Instant::now());
    let (mut stalled, mut unjudged) = (false, false);
    let mut nap = 20u64;
    loop {
        if b.done.load(SeqCst) as usize == n {
            break;
        }
        let v = b.beat.load(SeqCst);
        if v != seen {
            seen = v;
            since = Instant::now();
        }
        let quiet = since.elapsed() > Duration::from_secs(4);
        if b.stalled.load(SeqCst) || quiet {
            let limit = b.state().over;
            // the schedule cannot go on; if the threads can without it, it was the schedule's fault
            let t = Instant::now();
            if !limit {
                b.set_free();
                while (b.done.load(SeqCst) as usize) < n && t.elapsed() < Duration::from_secs(4) {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            if b.done.load(SeqCst) as usize == n {
                unjudged = true;
            } else {
                stalled = true;
            }
            break;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(500);
    }
    let s = b.state();
    Ran {
        results: slots
            .iter()
            .map(|s| if s.1.load(SeqCst) { unsafe { (*s.0.get()).take() } } else { None })
            .collect(),
        points: s.points,
        switches: s.switches,
        blocks: s.blocks,
        hash: s.hash,
        log: s.log[..(s.switches as usize).min(64)].to_vec(),
        stalled,
        unjudged,
    }
}

struct UnsafeSlot<T>(UnsafeCell<Option<T>>, AtomicBool);
unsafe impl<T: Send> Sync for UnsafeSlot<T> {}

// ------------------------------------------------------------------------------------------------
// A process of its own
// ------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
pub enum Ended {
    Report(serde_json::Value),
    Signal(i32),
    Hung,
    /// The simulator's own code failed in there.
    Harness(String),
}

/// Run `f` in a copy of this (single-threaded) process and return what it reports.
pub fn in_child(limit: Duration, f: impl FnOnce() -> serde_json::Value) -> Ended {
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        return Ended::Harness("pipe".into());
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        unsafe {
            libc::close(fds[0]);
            libc::close(fds[1]);
        }
        return Ended::Harness("fork".into());
    }
    if pid == 0 {
        // only one thread runs at a time: passing the baton is cheapest on one processor
        unsafe {
            let cpu = libc::sched_getcpu();
            if cpu >= 0 {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpu as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
        }
        let r = crate::run::guarded(f);
        let text = match r {
            Ok(j) => j.to_string(),
            Err(p) => serde_json::json!({ "harness": format!("{} at {}", p.message, p.location) }).to_string(),
        };
        let mut rest = text.as_bytes();
        while !rest.is_empty() {
            let k = unsafe { raw_syscall(libc::SYS_write, [fds[1] as usize, rest.as_ptr() as usize, rest.len(), 0, 0, 0]) };
            if k <= 0 {
                break;
            }
            rest = &rest[k as usize..];
        }
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut out = Vec::new();
    let t = Instant::now();
    let mut hung = false;
    loop {
        let left = limit.saturating_sub(t.elapsed()).as_millis() as i32;
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        if left <= 0 || unsafe { libc::poll(&mut p, 1, left) } == 0 {
            hung = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        let mut buf = [0u8; 65536];
        let k = unsafe { raw_syscall(libc::SYS_read, [fds[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0]) };
        if k <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..k as usize]);
    }
    let mut st = 0i32;
    unsafe {
        libc::close(fds[0]);
        libc::waitpid(pid, &mut st, 0);
    }
    if hung {
        return Ended::Hung;
    }
    if libc::WIFSIGNALED(st) {
        return Ended::Signal(libc::WTERMSIG(st));
    }
    match serde_json::from_slice::<serde_json::Value>(&out) {
        Ok(j) => match j["harness"].as_str() {
            Some(h) => Ended::Harness(h.to_string()),
            None => Ended::Report(j),
        },
        Err(e) => Ended::Harness(format!("report: {e}")),
    }
}
