//! One simulated run: its tape, its record, and the incarnations (processes) it starts.

use crate::choice::Choices;
use crate::streams::Delivery;
use simrt::{Chunk, Ctx, Fs, Plan};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// What went wrong, in a form that survives shrinking and small edits of the code.
    pub class: String,
    pub detail: String,
}

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

pub type Outcome = Result<(), Violation>;

#[derive(Default)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub incarnations: u64,
    pub digest: u64,
    pub trace: Option<Vec<String>>,
}

impl Stats {
    fn mix(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5);
    }
}

/// What the streams and schedulers of a run record into.
#[derive(Clone)]
pub struct Shared(pub Arc<Mutex<Stats>>);

impl Shared {
    pub fn fired(&self, kind: &str) {
        let mut s = self.0.lock().unwrap();
        *s.faults.entry(kind.to_string()).or_insert(0) += 1;
        for b in kind.bytes() {
            s.mix(b as u64);
        }
        if let Some(t) = &mut s.trace {
            if t.len() < 4000 {
                t.push(format!("  fault {kind}"));
            }
        }
    }
    pub fn step(&self, _what: &str) {
        let mut s = self.0.lock().unwrap();
        s.steps += 1;
    }
    pub fn note(&self, v: u64) {
        self.0.lock().unwrap().mix(v);
    }
}

pub struct Run {
    pub c: Choices,
    pub sh: Shared,
    /// Set by the property when the run exercised what it is about.
    pub nontrivial: bool,
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub message: String,
    pub location: String,
}

impl Panic {
    /// File and message without numbers: stable under shrinking and edits elsewhere.
    pub fn class(&self) -> String {
        let file = self.location.split(':').next().unwrap_or("");
        let file = file.rsplit("/repo/").next().unwrap_or(file);
        let file = match file.find("/registry/src/") {
            Some(p) => file[p + 14..].splitn(2, '/').nth(1).unwrap_or(file),
            None => file,
        };
        format!("panic in {file}")
    }
}

/// Everything one incarnation left behind.
pub struct Life<T> {
    pub result: Result<T, Panic>,
    pub fs: Fs,
    pub stdout: Vec<u8>,
    pub fired: BTreeMap<String, u64>,
    pub stuck: bool,
    pub crashed: bool,
    pub errors_returned: u64,
    pub opened: Vec<String>,
    pub calls: [u64; 9],
    pub digest: u64,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panic>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet {
            default(info);
            return;
        }
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(Panic { message, location }));
    }));
}

/// Run `f` on this thread and turn a panic into a value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(Panic {
                message: "?".into(),
                location: "?".into(),
            })
    })
}

pub const STACK: usize = 16 << 20;

impl Run {
    pub fn new(c: Choices, trace: bool) -> Run {
        let mut st = Stats {
            digest: 0xcbf2_9ce4_8422_2325,
            ..Default::default()
        };
        if trace {
            st.trace = Some(Vec::new());
        }
        Run {
            c,
            sh: Shared(Arc::new(Mutex::new(st))),
            nontrivial: false,
        }
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let mut s = self.sh.0.lock().unwrap();
        if s.trace.is_some() {
            let line = f();
            if std::env::var_os("DST_LIVE").is_some() {
                eprintln!("{line}");
            }
            let t = s.trace.as_mut().unwrap();
            if t.len() < 4000 {
                t.push(line);
            }
        }
    }
    pub fn tracing(&self) -> bool {
        self.sh.0.lock().unwrap().trace.is_some()
    }
    pub fn probe(&self, name: &str) {
        *self
            .sh
            .0
            .lock()
            .unwrap()
            .probes
            .entry(name.to_string())
            .or_insert(0) += 1;
    }
    /// Fold a value into the run's identity (its distinct-trace hash).
    pub fn mark(&self, bytes: &[u8]) {
        let mut s = self.sh.0.lock().unwrap();
        for b in bytes {
            s.mix(*b as u64);
        }
    }

    /// A plan with benign variation only: hash seeds, directory order, chunking, EINTR.
    pub fn benign_plan(&mut self) -> Plan {
        let hash_seed = self.c.seed();
        let dir_seed = self.c.seed();
        let dtype_unknown = self.c.chance(250);
        let read_chunk = self.chunk();
        let write_chunk = self.chunk();
        let eintr_pm = *self.c.pick(&[0u32, 0, 50, 300]);
        let io_seed = self.c.seed();
        Plan {
            hash_seed,
            dir_seed,
            dtype_unknown,
            read_chunk,
            write_chunk,
            io_seed,
            eintr_pm,
            ..Plan::default()
        }
    }
    pub fn chunk(&mut self) -> Chunk {
        match self.c.below(6) {
            0 | 1 => Chunk::Full,
            2 => Chunk::Fixed(1),
            3 => Chunk::Fixed(7),
            4 => Chunk::Random(16),
            _ => Chunk::Random(600),
        }
    }
    pub fn delivery(&mut self) -> Delivery {
        let (max, random) = match self.c.below(6) {
            0 => (0, false),
            1 => (1, false),
            2 => (2, true),
            3 => (7, false),
            4 => (64, true),
            _ => (4096, true),
        };
        let eintr_pm = *self.c.pick(&[0u32, 0, 50, 400]);
        let seed = self.c.seed();
        Delivery {
            max,
            random,
            eintr_pm,
            seed,
        }
    }

    /// One process lifetime: a fresh thread (so fresh hash keys), its own plan, the given disk.
    pub fn life<T: Send>(
        &mut self,
        name: &str,
        plan: Plan,
        fs: Fs,
        f: impl FnOnce() -> T + Send,
    ) -> Life<T> {
        let tracing = self.tracing();
        self.log(|| {
            format!(
                "incarnation {name}: {}",
                plan.to_text().trim_end().replace('\n', "; ")
            )
        });
        let ctx = Box::new(Ctx::new(plan, fs));
        if tracing {
            ctx.inner.lock().unwrap().trace = Some(Vec::new());
        }
        let result = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    // blank nodes are numbered by a counter of the process: a new process, a new count
                    let _ = <unique_id::sequence::SequenceGenerator as unique_id::GeneratorFromSeed<i64>>::new(1);
                    unsafe { simrt::set_ctx(&*ctx) };
                    let r = guarded(f);
                    // what is still buffered on the simulated standard output belongs to this life
                    let _ = std::io::stdout().flush();
                    simrt::clear_ctx();
                    r
                })
                .expect("thread")
                .join()
                .expect("incarnation thread")
        });
        let inner = ctx.inner.into_inner().unwrap_or_else(|e| e.into_inner());
        let mut st = self.sh.0.lock().unwrap();
        st.incarnations += 1;
        st.steps += inner.ops;
        st.mix(inner.digest);
        for (k, v) in &inner.fired {
            *st.faults.entry(k.clone()).or_insert(0) += v;
        }
        if let (Some(t), Some(i)) = (&mut st.trace, &inner.trace) {
            for l in i.iter().take(400) {
                t.push(format!("  {l}"));
            }
            if let Err(p) = &result {
                t.push(format!("  panicked at {}: {}", p.location, p.message));
            }
        }
        drop(st);
        Life {
            result,
            fs: inner.fs,
            stdout: inner.stdout,
            fired: inner.fired,
            stuck: inner.stuck,
            crashed: inner.crashed,
            errors_returned: inner.errors_returned,
            opened: inner.opened,
            calls: inner.calls,
            digest: inner.digest,
        }
    }

    /// A lifetime without a disk of its own.
    pub fn pure_life<T: Send>(
        &mut self,
        name: &str,
        hash_seed: u64,
        f: impl FnOnce() -> T + Send,
    ) -> Life<T> {
        let plan = Plan {
            hash_seed,
            ..Plan::default()
        };
        self.life(name, plan, Fs::default(), f)
    }
}

impl<T> Life<T> {
    /// The value, or a violation if the incarnation panicked or never finished.
    pub fn ok(self, what: &str) -> Result<T, Violation> {
        if self.stuck {
            return violation(
                format!("{what}: no progress"),
                format!("{what}: still making calls after the step bound"),
            );
        }
        match self.result {
            Ok(v) => Ok(v),
            Err(p) => violation(
                format!("{what}: {}", p.class()),
                format!("{what} panicked at {}: {}", p.location, p.message),
            ),
        }
    }
}
