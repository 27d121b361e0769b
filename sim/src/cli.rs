//! Command-line incarnations: the real cargo-atelier executable, its libc calls answered by the
//! preloaded simulator, on a simulated disk handed over as a file.

use crate::run::{violation, Run, Violation};
use simrt::{Fs, Plan};
use std::collections::BTreeMap;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct CliLife {
    /// Exit code; None when killed by a signal.
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
    /// None when the process died without leaving it.
    pub fs: Option<Fs>,
    pub fired: BTreeMap<String, u64>,
    pub stuck: bool,
    pub crashed: bool,
    pub panicked: bool,
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("dst-cli-{}", std::process::id()))
}

fn bin_dir() -> PathBuf {
    std::env::current_exe()
        .ok()
        .and_then(|p| p.parent().map(|p| p.to_path_buf()))
        .unwrap_or_else(|| PathBuf::from("/verif/target/release"))
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch());
}

impl Run {
    pub fn cli_life(
        &mut self,
        name: &str,
        plan: &Plan,
        fs: &Fs,
        args: &[&str],
        envs: &[(&str, &str)],
    ) -> Result<CliLife, Violation> {
        let dir = scratch();
        std::fs::create_dir_all(&dir).expect("scratch");
        let (pf, df, jf) = (dir.join("plan"), dir.join("disk"), dir.join("journal"));
        std::fs::write(&pf, plan.to_text()).expect("plan");
        std::fs::write(&df, fs.to_image()).expect("disk");
        let _ = std::fs::remove_file(&jf);
        self.log(|| {
            format!(
                "process {name}: cargo-atelier {} {:?} [{}]",
                args.join(" "),
                envs,
                plan.to_text().trim_end().replace('\n', "; ")
            )
        });
        let lib = {
            let a = bin_dir().join("libsimrt.so");
            if a.exists() {
                a
            } else {
                bin_dir().join("deps/libsimrt.so")
            }
        };
        let mut cmd = Command::new(bin_dir().join("cargo-atelier-sut"));
        cmd.args(args)
            .env_clear()
            .env("LD_PRELOAD", lib)
            .env("SIMRT_PLAN", &pf)
            .env("SIMRT_DISK", &df)
            .env("SIMRT_JOURNAL", &jf)
            .current_dir(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped());
        for (k, v) in envs {
            cmd.env(k, v);
        }
        let mut kid = cmd.spawn().expect("cargo-atelier-sut");
        let mut err = kid.stderr.take().unwrap();
        let t = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = err.read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let t0 = Instant::now();
        let status = loop {
            match kid.try_wait() {
                Ok(Some(s)) => break s,
                _ => {
                    if t0.elapsed() > Duration::from_secs(30) {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        let _ = t.join();
                        return violation(
                            "command line: no termination",
                            format!("cargo-atelier {} never ended", args.join(" ")),
                        );
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        };
        let stderr = t.join().unwrap_or_default();
        use std::os::unix::process::ExitStatusExt;
        let journal = std::fs::read(&jf).unwrap_or_default();
        let mut out = CliLife {
            code: status.code(),
            signal: status.signal(),
            stdout: Vec::new(),
            panicked: stderr.contains("panicked at"),
            stderr,
            fs: None,
            fired: BTreeMap::new(),
            stuck: false,
            crashed: false,
        };
        let mut pos = 0;
        let mut digest = 0u64;
        let mut ops = 0u64;
        let mut lines: Vec<String> = Vec::new();
        while pos < journal.len() {
            let eol = match journal[pos..].iter().position(|b| *b == b'\n') {
                Some(e) => pos + e,
                None => break,
            };
            let line = String::from_utf8_lossy(&journal[pos..eol]).to_string();
            pos = eol + 1;
            let w: Vec<&str> = line.split(' ').collect();
            match w[0] {
                "T" => lines.push(format!("  {}", &line[2..])),
                "X" => *out.fired.entry(line[2..].to_string()).or_insert(0) += 1,
                "W" => {
                    let n: usize = w[3].parse().unwrap_or(0);
                    out.stdout.extend(&journal[pos..pos + n]);
                    pos += n + 1;
                }
                "S" => out.stuck = true,
                "C" => out.crashed = true,
                "E" => {
                    digest = w[1].parse().unwrap_or(0);
                    ops = w[2].parse().unwrap_or(0);
                    let n: usize = w[3].parse().unwrap_or(0);
                    if pos + n <= journal.len() {
                        out.fs = Some(Fs::from_image(&journal[pos..pos + n]));
                    }
                    break;
                }
                _ => {}
            }
        }
        {
            let mut st = self.sh.0.lock().unwrap();
            st.incarnations += 1;
            st.steps += ops;
            for (k, v) in &out.fired {
                *st.faults.entry(k.clone()).or_insert(0) += v;
            }
            if let Some(t) = &mut st.trace {
                t.extend(lines.into_iter().take(300));
                t.push(format!(
                    "  ended: code {:?} signal {:?} stderr {:?}",
                    out.code,
                    out.signal,
                    out.stderr.chars().take(300).collect::<String>()
                ));
            }
        }
        self.mark(&digest.to_le_bytes());
        self.mark(format!("{:?}", out.code).as_bytes());
        Ok(out)
    }
}
