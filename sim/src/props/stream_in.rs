//! P03, P04, P05: readers and the streams they read from.

use super::*;
use crate::canon::*;
use crate::corrupt;
use crate::formats::{self, Format, Lang};
use crate::gen;
use crate::run::violation;
use crate::streams::*;
use atelier_core::model::visitor::{walk_model, ModelVisitor};
use atelier_core::model::Model;
use simrt::Fs;
use std::io::{BufReader, ErrorKind};

pub static P03: Prop = Prop {
    id: "P03",
    title: "What a reader returns depends only on the bytes, not on how they arrive",
    run: run03,
    quick_runs: 100_000,
    recheck: 60,
    rule: "One legal or damaged document is read from memory and then again as a stream in drawn pieces with interrupted calls, through a BufReader, and as a file with short reads, each in a process with its own hash keys; non-trivial: the document has more than 20 bytes and at least one delivery split it.",
    real: &["atelier_json and atelier_smithy readers, grammar, builder", "atelier_core::io", "serde_json, pest, std::io, std::fs"],
    stubs: STUB_STREAM,
    assumptions: &["texts of errors may differ; the fact that there is one may not"],
};

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(900).collect()
}

fn damaged(run: &mut Run, mix: &mut gen::Mix) -> (Lang, Vec<u8>) {
    let (lang, text, m) = formats::document(&mut run.c, mix);
    match run.c.below(8) {
        5 => {
            let (_, other, _) = formats::document_in(&mut run.c, mix, lang);
            let v = corrupt::bytes(&mut run.c, text.as_bytes(), other.as_bytes());
            (lang, v)
        }
        6 if lang == Lang::Json => {
            let j = corrupt::json(&mut run.c, &to_json(&m));
            (lang, j.to_string().into_bytes())
        }
        _ => (lang, text.into_bytes()),
    }
}

#[derive(Clone, Debug)]
enum Way {
    Stream(Delivery),
    Buffered(usize, Delivery),
    File,
    Bytes,
}

fn run03(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    let (lang, doc) = damaged(run, &mut mix);
    run.mark(&doc);
    run.log(|| format!("{lang:?} document {:?}", show(&doc)));
    let seed = run.c.seed();
    let d = doc.clone();
    let first = run
        .pure_life("read-from-memory", seed, move || lang.read_bytes(&d).map(|m| canon(&m)))
        .ok("reading from memory")?;
    if first.is_ok() {
        run.probe("accepted");
    } else {
        run.probe("refused");
    }
    let n = run.c.range(1, 3);
    for _ in 0..n {
        let way = match run.c.below(5) {
            0 | 1 => Way::Stream(run.delivery()),
            2 => Way::Buffered(*run.c.pick(&[1usize, 3, 16, 4096, 8192]), run.delivery()),
            3 => Way::File,
            _ => Way::Bytes,
        };
        run.nontrivial |= doc.len() > 20 && !matches!(way, Way::Bytes);
        run.probe(match way {
            Way::Stream(_) => "as-a-stream",
            Way::Buffered(..) => "through-a-buffer",
            Way::File => "as-a-file",
            Way::Bytes => "from-memory-other-process",
        });
        let plan = run.benign_plan();
        let mut fs = Fs::default();
        fs.add_dir("/sim/in");
        fs.add_file("/sim/in/doc", &doc);
        let sh = run.sh.clone();
        let d = doc.clone();
        let w = way.clone();
        let again = run
            .life("read", plan, fs, move || {
                match w {
                    Way::Stream(del) => lang.read(&mut SimReader::new(&d, del, StreamFault::None, &sh)),
                    Way::Buffered(n, del) => lang.read(&mut BufReader::with_capacity(
                        n,
                        SimReader::new(&d, del, StreamFault::None, &sh),
                    )),
                    Way::File => lang.read_file("/sim/in/doc"),
                    Way::Bytes => lang.read_bytes(&d),
                }
                .map(|m| canon(&m))
            })
            .ok("reading")?;
        match (&first, &again) {
            (Ok(a), Ok(b)) => {
                if let Some((k, det)) = diff(a, b) {
                    return violation(
                        format!("delivery changes the model: {k}"),
                        format!("{way:?}: {det}: {}", show(&doc)),
                    );
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => {
                return violation(
                    "delivery makes a document refused",
                    format!("{way:?}: {e}: {}", show(&doc)),
                )
            }
            (Err(e), Ok(_)) => {
                return violation(
                    "delivery makes a document accepted",
                    format!("{way:?}: from memory it was refused: {e}: {}", show(&doc)),
                )
            }
        }
    }
    Ok(())
}

pub static P04: Prop = Prop {
    id: "P04",
    title: "A failed, truncated or undecodable input is an error, never a smaller model",
    run: run04,
    quick_runs: 300_000,
    recheck: 60,
    rule: "A legal document is delivered in drawn pieces and fails at a drawn byte (an error of any kind, once or for good; a file that cannot be opened or read; a JSON document that ends early; an IDL document with undecodable bytes); non-trivial: the fault was injected before the document was read.",
    real: &["atelier_json and atelier_smithy readers", "atelier_core::io", "serde_json, pest, std::io, std::fs"],
    stubs: STUB_STREAM,
    assumptions: &["an IDL text cut at a line end may be a legal text; only failures and undecodable bytes are decided for it"],
};

pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
];

fn position(run: &mut Run, len: usize) -> usize {
    match run.c.below(6) {
        0 => 0,
        1 => len.saturating_sub(run.c.size(4)),
        2 => len,
        3 => 8192usize.min(len),
        _ => run.c.size(len + 1),
    }
}

fn run04(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    let (lang, text, _) = formats::document(&mut run.c, &mut mix);
    let doc = text.clone().into_bytes();
    run.mark(&doc);
    run.log(|| format!("{lang:?} document {:?}", show(&doc)));
    let sh = run.sh.clone();
    let seed = run.c.seed();
    let (what, outcome): (String, Result<usize, String>) = match run.c.below(6) {
        0 | 1 => {
            let at = position(run, doc.len());
            let kind = *run.c.pick(&KINDS);
            let fault = if run.c.below(3) == 2 {
                StreamFault::ErrOnce { at, kind }
            } else {
                StreamFault::Err { at, kind, os: run.c.below(2) == 1 }
            };
            let del = run.delivery();
            let f = fault.clone();
            let d = doc.clone();
            let r = run
                .pure_life("read-failing-stream", seed, move || {
                    lang.read(&mut SimReader::new(&d, del, f, &sh)).map(|m| canon(&m).shapes.len())
                })
                .ok("reading a failing stream")?;
            run.nontrivial = true;
            run.probe("stream-failed");
            (format!("a stream of {} bytes with {fault:?}", doc.len()), r)
        }
        2 => {
            let mut fs = Fs::default();
            fs.add_dir("/sim/in");
            fs.add_file("/sim/in/doc", &doc);
            let mut plan = run.benign_plan();
            let class = *run.c.pick(&[OpClass::Read, OpClass::Read, OpClass::Open]);
            let nth = if class == OpClass::Open { 0 } else { run.c.below(6) };
            let errno = *run.c.pick(&[libc::EIO, libc::EACCES, libc::EISDIR, libc::ENOENT, libc::EMFILE, libc::EAGAIN]);
            let sticky = run.c.below(2) == 1;
            plan.faults.push(Fault { class, nth, action: Action::Errno(errno), sticky });
            let l = run.life("read-failing-file", plan, fs, move || {
                lang.read_file("/sim/in/doc").map(|m| canon(&m).shapes.len())
            });
            let errors = l.errors_returned;
            let r = l.ok("reading a failing file")?;
            if errors == 0 {
                if let Err(e) = r {
                    return violation("legal document refused", format!("{e}: {}", show(&doc)));
                }
                return Ok(());
            }
            run.nontrivial = true;
            run.probe("file-failed");
            (format!("a file with {class:?} #{nth} failing with errno {errno}"), r)
        }
        3 | 4 if lang == Lang::Json => {
            let full = text.trim_end().len();
            let at = position(run, full).min(full - 1);
            let del = run.delivery();
            let d = doc.clone();
            let how = run.c.below(3);
            let r = match how {
                0 => run
                    .pure_life("read-cut-stream", seed, move || {
                        lang.read(&mut SimReader::new(&d, del, StreamFault::Eof { at }, &sh)).map(|m| canon(&m).shapes.len())
                    })
                    .ok("reading a cut stream")?,
                1 => {
                    let mut fs = Fs::default();
                    fs.add_file("/sim/doc", &doc[..at]);
                    let plan = run.benign_plan();
                    run.life("read-cut-file", plan, fs, move || {
                        lang.read_file("/sim/doc").map(|m| canon(&m).shapes.len())
                    })
                    .ok("reading a cut file")?
                }
                _ => run
                    .pure_life("read-cut-text", seed, move || {
                        lang.read_bytes(&d[..at]).map(|m| canon(&m).shapes.len())
                    })
                    .ok("reading a cut text")?,
            };
            run.nontrivial = true;
            run.probe("cut-before-the-closing-brace");
            (format!("a document cut after {at} of {full} bytes"), r)
        }
        _ => {
            // bytes that are not UTF-8: in an IDL document anywhere, in a JSON document inside a string
            let mut d = doc.clone();
            let places: Vec<usize> = match lang {
                Lang::Idl => (0..=d.len()).collect(),
                Lang::Json => inside_strings(&text),
            };
            if places.is_empty() {
                return Ok(());
            }
            let at = *run.c.pick(&places);
            let bad: &[u8] = *run.c.pick(&[
                &[0xffu8][..],
                &[0xc3][..],
                &[0xe6, 0x97][..],
                &[0xc0, 0x80][..],
                &[0xed, 0xa0, 0x80][..],
                &[0xf4, 0x90, 0x80, 0x80][..],
                &[0x80][..],
                &[0xfe][..],
            ]);
            if run.c.below(4) == 3 && lang == Lang::Idl {
                // or a text cut in the middle of a character
                d.truncate(at);
            }
            let to = at.min(d.len());
            d.splice(to..to, bad.to_vec());
            if std::str::from_utf8(&d).is_ok() {
                return Ok(());
            }
            let del = run.delivery();
            let shown = show(&d);
            let mut fs = Fs::default();
            fs.add_file("/sim/doc", &d);
            let r = if run.c.below(3) == 2 {
                let plan = run.benign_plan();
                run.life("read-undecodable-file", plan, fs, move || {
                    lang.read_file("/sim/doc").map(|m| canon(&m).shapes.len())
                })
                .ok("reading an undecodable file")?
            } else {
                run
                .pure_life("read-undecodable", seed, move || {
                    lang.read(&mut SimReader::new(&d, del, StreamFault::None, &sh)).map(|m| canon(&m).shapes.len())
                })
                .ok("reading undecodable bytes")?
            };
            run.nontrivial = true;
            run.probe("undecodable");
            (format!("undecodable bytes at {at}: {shown}"), r)
        }
    };
    match outcome {
        Err(_) => Ok(()),
        Ok(n) => violation(
            "a failed input was taken for a model",
            format!("{lang:?}, {what}: accepted as a model of {n} shapes"),
        ),
    }
}

/// Byte positions inside JSON strings, outside escapes.
fn inside_strings(text: &str) -> Vec<usize> {
    let mut v = Vec::new();
    let b = text.as_bytes();
    let mut i = 0;
    let mut inside = false;
    while i < b.len() {
        match (inside, b[i]) {
            (false, b'"') => inside = true,
            (true, b'"') => {
                v.push(i);
                inside = false
            }
            (true, b'\\') => {
                v.push(i);
                i += 1;
            }
            (true, c) if c < 0x80 => v.push(i),
            _ => {}
        }
        i += 1;
    }
    v
}

pub static P05: Prop = Prop {
    id: "P05",
    title: "No document makes a reader panic, hang or overflow",
    run: run05,
    quick_runs: 30_000,
    recheck: 60,
    rule: "A legal document is damaged as storage, transports and people damage it (flipped bits, lost, repeated and zeroed blocks, blocks of other files, stray tokens, JSON of the wrong structure, deep nesting) and read in drawn pieces; an accepted model is walked and written in every format; non-trivial: the damaged document differs from the legal one.",
    real: &["atelier_json and atelier_smithy readers, grammar, builder", "every model writer, the visitor", "serde_json, pest, somedoc, rdftk"],
    stubs: STUB_STREAM,
    assumptions: &["a read that has not returned after 40 s of processor time, for a document of at most some 100 kB, never returns"],
};

struct Nop;
impl ModelVisitor for Nop {
    type Error = String;
}

fn deep(run: &mut Run, lang: Lang) -> Vec<u8> {
    let n = *run.c.pick(&[2usize, 8, 20, 60, 120, 127, 128, 200, 1000, 5000]);
    let (open, close) = *run.c.pick(&[("[", "]"), ("{\"a\":", "}"), ("{a:", "}"), ("[[", "]]")]);
    let (open, close, leaf) = match lang {
        Lang::Json if open == "{a:" => ("{\"a\":", "}", "1"),
        _ => (open, close, "1"),
    };
    let cut = run.c.below(4) == 3;
    let v = format!("{}{leaf}{}", open.repeat(n), if cut { String::new() } else { close.repeat(n) });
    match (lang, run.c.below(2)) {
        (Lang::Json, 0) => format!("{{\"smithy\":\"1.0\",\"metadata\":{{\"a\":{v}}}}}"),
        (Lang::Json, _) => {
            format!("{{\"smithy\":\"1.0\",\"shapes\":{{\"a.b#C\":{{\"type\":\"string\",\"traits\":{{\"a.b#t\":{v}}}}}}}}}")
        }
        (Lang::Idl, 0) => format!("metadata a = {v}\nnamespace a.b\n"),
        (Lang::Idl, _) => format!("namespace a.b\n@t({v})\nstring C\n"),
    }
    .into_bytes()
}

fn run05(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.max_shapes = mix.max_shapes.min(12);
    let (lang, text, m) = formats::document(&mut run.c, &mut mix);
    let doc: Vec<u8> = match run.c.below(12) {
        10 | 11 if lang == Lang::Idl => corrupt::grammatical(&mut run.c).into_bytes(),
        0 | 1 | 2 => {
            let (_, other, _) = formats::document_in(&mut run.c, &mut mix, lang);
            corrupt::bytes(&mut run.c, text.as_bytes(), other.as_bytes())
        }
        3 | 4 => {
            // the other language's text
            let (_, other, _) = formats::document(&mut run.c, &mut mix);
            corrupt::bytes(&mut run.c, text.as_bytes(), other.as_bytes())
        }
        5 => corrupt::soup(&mut run.c),
        6 => deep(run, lang),
        _ if lang == Lang::Json => corrupt::json(&mut run.c, &to_json(&m)).to_string().into_bytes(),
        _ => corrupt::idl(&mut run.c, &text).into_bytes(),
    };
    run.mark(&doc);
    run.log(|| format!("{lang:?} document {:?}", show(&doc)));
    run.nontrivial = doc != text.as_bytes();
    let del = run.delivery();
    let sh = run.sh.clone();
    let seed = run.c.seed();
    let d = doc.clone();
    let read = run
        .pure_life("read", seed, move || lang.read(&mut SimReader::new(&d, del, StreamFault::None, &sh)).map(|m| canon(&m)))
        .ok("reading")?;
    let got = match read {
        Err(_) => {
            run.probe("refused");
            return Ok(());
        }
        Ok(m) => m,
    };
    run.probe("accepted");
    // a model that is returned can be used
    let namespaces = formats::namespaces_of(&got);
    let formats = formats::all(&namespaces);
    for group in [&formats[..5], &formats[5..]] {
        let group: Vec<Format> = group.to_vec();
        let d = doc.clone();
        run.pure_life("use", seed, move || {
            let m: Model = lang.read_bytes(&d).expect("read before");
            let _ = walk_model(&m, &Nop);
            for f in group {
                let mut out = Vec::new();
                let _ = f.write(&mut out, &m);
            }
        })
        .ok("using the model of a damaged document")?;
    }
    Ok(())
}
