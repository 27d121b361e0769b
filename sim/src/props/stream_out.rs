//! P06, P07: writers and the sinks they write to.

use super::*;
use crate::canon::*;
use crate::formats::{self, Format};
use crate::gen;
use crate::run::violation;
use crate::streams::*;
use atelier_core::error::Error as ModelError;
use atelier_core::io::{write_model_to_file, write_model_to_string, ModelWriter};
use atelier_core::model::Model;
use simrt::Fs;
use std::io::{BufWriter, ErrorKind, Write};

pub static P06: Prop = Prop {
    id: "P06",
    title: "Every writer delivers its whole output however the sink takes it",
    run: run06,
    quick_runs: 24_000,
    recheck: 60,
    rule: "A generated model is written in a drawn format to a sink that takes everything, and in processes with the same hash keys to sinks that take drawn pieces and interrupt calls, to a string, through a BufWriter and to a file with short writes; non-trivial: the output is not empty and one of the sinks split it.",
    real: &["every model writer", "atelier_core::io helpers", "serde_json, somedoc, rdftk, std::io, std::fs"],
    stubs: STUB_STREAM,
    assumptions: &["numbers are finite"],
};

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(400).collect()
}

pub fn differ(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or_else(|| a.len().min(b.len()));
    let from = at.saturating_sub(40);
    format!(
        "{} and {} bytes, first difference at {at}: {:?} against {:?}",
        a.len(),
        b.len(),
        show(&a[from..(at + 60).min(a.len())]),
        show(&b[from..(at + 60).min(b.len())])
    )
}

fn a_model(run: &mut Run) -> (CModel, Format) {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let m = gen::model(&mut run.c, &mix);
    let f = formats::any(&mut run.c, &formats::namespaces_of(&m));
    run.mark(to_json(&m).to_string().as_bytes());
    run.mark(f.name().as_bytes());
    run.probe(&format!("format-{}", f.name()));
    run.log(|| format!("{f:?} of {}", to_json(&m)));
    (m, f)
}

fn whole(run: &mut Run, m: &CModel, f: &Format, seed: u64) -> Result<Vec<u8>, crate::run::Violation> {
    let (m, f2) = (m.clone(), f.clone());
    let r = run
        .pure_life("write-whole", seed, move || {
            let m = build(&m);
            let mut out = Vec::new();
            f2.write(&mut out, &m).map(|_| out)
        })
        .ok(&format!("writing {}", f.name()))?;
    match r {
        Ok(o) => Ok(o),
        Err(e) => violation(format!("{} cannot be written", f.name()), e),
    }
}

fn run06(run: &mut Run) -> Outcome {
    let (m, f) = a_model(run);
    let seed = run.c.seed();
    let want = whole(run, &m, &f, seed)?;
    let n = run.c.range(1, 2);
    for _ in 0..n {
        let how = run.c.below(5);
        let (m2, f2) = (m.clone(), f.clone());
        let (name, got): (&str, Result<Vec<u8>, String>) = match how {
            0 | 1 => {
                let del = run.delivery();
                let sh = run.sh.clone();
                let r = run
                    .pure_life("write-in-pieces", seed, move || {
                        let m = build(&m2);
                        let mut w = SimWriter::new(del, StreamFault::None, &sh);
                        f2.write(&mut w, &m).map(|_| w.out)
                    })
                    .ok("writing in pieces")?;
                ("in pieces", r)
            }
            2 => {
                let r = run
                    .pure_life("write-to-string", seed, move || {
                        let m = build(&m2);
                        f2.to_text(&m).map(|s| s.into_bytes())
                    })
                    .ok("writing to a string")?;
                ("to a string", r)
            }
            3 => {
                let mut plan = run.benign_plan();
                plan.hash_seed = seed;
                let mut fs = Fs::default();
                fs.add_dir("/sim/out");
                if run.c.below(2) == 1 {
                    // something longer was there before
                    fs.add_file("/sim/out/doc", &vec![b'x'; want.len() + 100]);
                }
                let l = run.life("write-to-file", plan, fs, move || {
                    let m = build(&m2);
                    f2.to_file(&m, "/sim/out/doc")
                });
                let bytes = l.fs.read_file("/sim/out/doc").unwrap_or_default();
                let r = l.ok("writing to a file")?;
                ("to a file", r.map(|_| bytes))
            }
            _ => {
                let del = run.delivery();
                let sh = run.sh.clone();
                let cap = *run.c.pick(&[1usize, 16, 100, 8192]);
                let r = run
                    .pure_life("write-through-a-buffer", seed, move || {
                        let m = build(&m2);
                        let mut w = SimWriter::new(del, StreamFault::None, &sh);
                        let r = {
                            let mut b = BufWriter::with_capacity(cap, &mut w);
                            let r = f2.write(&mut b, &m);
                            r.and_then(|_| b.flush().map_err(|e| e.to_string()))
                        };
                        r.map(|_| w.out)
                    })
                    .ok("writing through a buffer")?;
                ("through a buffer", r)
            }
        };
        run.nontrivial |= !want.is_empty() && how != 2;
        run.probe(name);
        match got {
            Err(e) => {
                return violation(
                    format!("{} fails on a sink that takes it {name}", f.name()),
                    e,
                )
            }
            Ok(g) if g != want => {
                return violation(
                    format!("{} is not all there {name}", f.name()),
                    differ(&want, &g),
                )
            }
            Ok(_) => {}
        }
    }
    Ok(())
}

pub static P07: Prop = Prop {
    id: "P07",
    title: "A writer whose sink fails says so",
    run: run07,
    quick_runs: 24_000,
    recheck: 60,
    rule: "A generated model is written in a drawn format to a sink or file that fails at a drawn byte (any kind of error, once or for good, zero bytes accepted, a full disk, a file that cannot be created), or by a writer that gives up by itself; non-trivial: the fault was met.",
    real: &["every model writer", "atelier_core::io helpers", "serde_json, somedoc, rdftk, std::io, std::fs"],
    stubs: STUB_STREAM,
    assumptions: &["numbers are finite", "the same process state and hash keys give the same output, against which the prefix is judged"],
};

/// A writer that gives up by itself: what the helpers make of it.
struct GivesUp {
    f: Format,
    after: usize,
    called: std::rc::Rc<std::cell::Cell<u32>>,
}

impl ModelWriter for GivesUp {
    fn write(&mut self, w: &mut impl Write, m: &Model) -> atelier_core::error::Result<()> {
        self.called.set(self.called.get() + 1);
        let mut v = Vec::new();
        self.f.write(&mut v, m).map_err(ModelError::from)?;
        w.write_all(&v[..self.after.min(v.len())])?;
        Err("the writer gives up".into())
    }
}

fn interrupted_writer(run: &mut Run, m: CModel, f: Format, want: Vec<u8>) -> Outcome {
    let after = match run.c.below(3) {
        0 => 0,
        1 => want.len(),
        _ => run.c.size(want.len() + 1),
    };
    let to_file = run.c.below(3) == 2;
    let mut plan = run.benign_plan();
    if run.c.below(4) == 3 {
        plan.faults.push(Fault { class: OpClass::Write, nth: run.c.below(3), action: Action::Errno(libc::EIO), sticky: false });
    }
    let mut fs = Fs::default();
    fs.add_dir("/sim/out");
    let f2 = f.clone();
    let (r, calls) = run
        .life("writer-gives-up", plan, fs, move || {
            let m = build(&m);
            let called = std::rc::Rc::new(std::cell::Cell::new(0));
            let mut w = GivesUp { f: f2, after, called: called.clone() };
            let r = match to_file {
                true => write_model_to_file(&mut w, &m, "/sim/out/doc".into()).map(|_| 0).map_err(|e| e.to_string()),
                false => write_model_to_string(&mut w, &m).map(|t| t.len()).map_err(|e| e.to_string()),
            };
            (r, called.get())
        })
        .ok("a writer that gives up")?;
    run.nontrivial = true;
    run.probe("writer-gave-up");
    if calls > 1 {
        return violation("a writer that failed is called again", format!("{calls} calls"));
    }
    match r {
        Ok(n) => violation(
            "success reported after the writer failed",
            format!("{} gave up after {after} of {} bytes; {n} returned", f.name(), want.len()),
        ),
        Err(_) => Ok(()),
    }
}

fn run07(run: &mut Run) -> Outcome {
    let (m, f) = a_model(run);
    let seed = run.c.seed();
    let want = whole(run, &m, &f, seed)?;
    let (m2, f2) = (m.clone(), f.clone());
    if run.c.below(4) == 3 {
        // a file
        let mut plan = run.benign_plan();
        plan.hash_seed = seed;
        let mut fs = Fs::default();
        fs.add_dir("/sim/out");
        let old = run.c.below(2) == 1;
        if old {
            fs.add_file("/sim/out/doc", b"what was there before");
        }
        match run.c.below(3) {
            0 => plan.capacity = Some(run.c.below(want.len() as u64 + 20)),
            1 => plan.faults.push(Fault {
                class: OpClass::Write,
                nth: run.c.below(12),
                action: Action::Errno(*run.c.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EDQUOT])),
                sticky: run.c.below(2) == 1,
            }),
            _ => plan.faults.push(Fault {
                class: OpClass::Open,
                nth: 0,
                action: Action::Errno(*run.c.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE])),
                sticky: true,
            }),
        }
        let l = run.life("write-to-failing-file", plan, fs, move || {
            let m = build(&m2);
            f2.to_file(&m, "/sim/out/doc")
        });
        let bytes = l.fs.read_file("/sim/out/doc");
        let errors = l.errors_returned;
        let r = l.ok("writing to a failing file")?;
        if errors == 0 {
            return match r {
                Err(e) => violation(format!("{} fails without a fault", f.name()), e),
                Ok(()) if bytes.as_deref() != Some(&want[..]) => {
                    violation(format!("{} is not all there", f.name()), differ(&want, &bytes.unwrap_or_default()))
                }
                Ok(()) => Ok(()),
            };
        }
        run.nontrivial = true;
        run.probe("file-failed");
        if r.is_ok() {
            return violation(
                format!("{}: success reported after the file failed", f.name()),
                format!("{errors} call(s) failed"),
            );
        }
        let kept = old && bytes.as_deref() == Some(&b"what was there before"[..]);
        if let Some(b) = bytes {
            if !kept && !want.starts_with(&b) {
                return violation(format!("{}: what the file took is not a prefix", f.name()), differ(&want, &b));
            }
        }
        return Ok(());
    }
    if run.c.below(6) == 5 {
        return interrupted_writer(run, m, f, want);
    }
    let at = match run.c.below(6) {
        0 => 0,
        1 => want.len().saturating_sub(1 + run.c.size(4)),
        2 => 8192usize.min(want.len().saturating_sub(1)),
        _ => run.c.size(want.len().max(1)),
    };
    let fault = match run.c.below(5) {
        0 | 1 => StreamFault::Err {
            at,
            kind: *run.c.pick(&[
                ErrorKind::Other,
                ErrorKind::BrokenPipe,
                ErrorKind::WouldBlock,
                ErrorKind::StorageFull,
                ErrorKind::TimedOut,
                ErrorKind::PermissionDenied,
                ErrorKind::InvalidInput,
            ]),
            os: run.c.below(2) == 1,
        },
        2 => StreamFault::Eof { at },
        3 => StreamFault::ErrOnce {
            at,
            kind: *run.c.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock]),
        },
        _ => StreamFault::None,
    };
    let del = run.delivery();
    let sh = run.sh.clone();
    let fl = fault.clone();
    let (r, out, failed, flushes) = run
        .pure_life("write-to-failing-sink", seed, move || {
            let m = build(&m2);
            let mut w = SimWriter::new(del, fl.clone(), &sh);
            w.flush_fails = fl == StreamFault::None;
            let r = f2.write(&mut w, &m);
            (r, w.out, w.failed, w.flushes)
        })
        .ok(&format!("writing {} to a failing sink", f.name()))?;
    run.nontrivial = failed;
    if failed {
        run.probe("sink-failed");
    }
    if flushes > 0 && fault == StreamFault::None {
        run.probe("flush-failed");
    }
    if failed && r.is_ok() {
        return violation(
            format!("{}: success reported after the sink failed", f.name()),
            format!("{fault:?} of {} bytes, {} accepted", want.len(), out.len()),
        );
    }
    if !want.starts_with(&out) {
        return violation(
            format!("{}: what the sink took is not a prefix", f.name()),
            format!("{fault:?}: {}", differ(&want, &out)),
        );
    }
    match r {
        Ok(()) if out != want => violation(
            format!("{}: success reported but the sink does not have it all", f.name()),
            format!("{fault:?}: {}", differ(&want, &out)),
        ),
        Err(e) if !failed => violation(format!("{} fails without a fault", f.name()), e),
        _ => Ok(()),
    }
}
