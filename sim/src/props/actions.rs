//! P15, P16: linters and validators.

use super::*;
use crate::canon::*;
use crate::formats::{self, Lang};
use crate::gen;
use crate::props::assemble::build_shuffled;
use crate::run::violation;
use crate::verdict::{self, Issue};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::Result as ModelResult;
use atelier_core::model::Model;
use atelier_lib::actions::{standard_model_lint, standard_model_validation};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub static P15: Prop = Prop {
    id: "P15",
    title: "Action pipelines run in order, lose no issue and fail fast only when asked",
    run: run15,
    quick_runs: 400_000,
    recheck: 60,
    rule: "A drawn list of scripted linters or validators (reporting drawn issues, failing at drawn uses) mixed with the standard ones is run over a drawn sequence of models, with and without fail-fast; non-trivial: the list holds at least two actions.",
    real: &["run_linter_actions", "run_validation_actions", "the standard linters and validators"],
    stubs: &["scripted linters and validators (report and fail on demand)", "getrandom (hash keys), behind the libc symbol"],
    assumptions: &["an action that fails reports nothing in that use"],
};

#[derive(Clone, Debug)]
struct Script {
    /// For each use, what is reported, or a failure.
    uses: Vec<Result<Vec<(u8, String)>, String>>,
}

struct Scripted {
    no: usize,
    script: Script,
    /// The use the history is in.
    now: Rc<Cell<usize>>,
    issues: Vec<ActionIssue>,
    log: Rc<RefCell<Vec<(usize, usize)>>>,
}

impl Action for Scripted {
    fn label(&self) -> &'static str {
        "Scripted"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}

impl Scripted {
    fn use_it(&mut self, m: &Model) -> ModelResult<()> {
        self.log.borrow_mut().push((self.no, m as *const Model as usize));
        let what = self.script.uses.get(self.now.get()).cloned().unwrap_or(Ok(vec![]));
        match what {
            Err(e) => Err(e.into()),
            Ok(v) => {
                for (level, msg) in v {
                    self.issues.push(ActionIssue::new(
                        match level {
                            0 => IssueLevel::Info,
                            1 => IssueLevel::Warning,
                            _ => IssueLevel::Error,
                        },
                        "Scripted",
                        &msg,
                    ));
                }
                Ok(())
            }
        }
    }
}

impl Linter for Scripted {
    fn check(&mut self, m: &Model) -> ModelResult<()> {
        self.use_it(m)
    }
}
impl Validator for Scripted {
    fn validate(&mut self, m: &Model) -> ModelResult<()> {
        self.use_it(m)
    }
}

#[derive(Clone, Debug)]
enum Step {
    Script(Script),
    /// 0, 1: the standard linters, or the standard validators.
    Standard(u8),
}

fn run15(run: &mut Run) -> Outcome {
    let lint = run.c.below(2) == 0;
    let n = run.c.below(6);
    let uses = run.c.range(1, 3);
    let steps: Vec<Step> = (0..n)
        .map(|k| {
            if run.c.below(4) == 3 {
                return Step::Standard(run.c.below(2) as u8);
            }
            let uses = (0..uses)
                .map(|u| {
                    if run.c.below(10) == 9 {
                        Err(format!("action {k} gave up in use {u}"))
                    } else {
                        let most = *run.c.pick(&[1u8, 2, 3]);
                        Ok((0..run.c.below(4))
                            .map(|i| (run.c.below(most as u64) as u8, format!("action {k} use {u} issue {i}")))
                            .collect())
                    }
                })
                .collect();
            Step::Script(Script { uses })
        })
        .collect();
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    mix.max_shapes = 4;
    let models: Vec<CModel> = (0..uses).map(|_| verdict::spiced(&mut run.c, &mix)).collect();
    let fast: Vec<bool> = (0..uses).map(|_| run.c.below(2) == 1).collect();
    let seed = run.c.seed();
    run.nontrivial = n >= 2;
    run.mark(format!("{steps:?}{fast:?}{lint}").as_bytes());
    run.log(|| format!("lint {lint}, fail fast {fast:?}, {steps:?}"));

    // what is to happen
    struct Want {
        calls: Vec<usize>,
        out: Result<Vec<Vec<Issue>>, String>,
    }
    let mut wants = Vec::new();
    let mut broken = false;
    for u in 0..uses as usize {
        let mut calls = Vec::new();
        let mut groups: Vec<Vec<Issue>> = Vec::new();
        let mut failed = None;
        for (k, s) in steps.iter().enumerate() {
            let mine: Vec<Issue> = match s {
                Step::Standard(w) => match (lint, w) {
                        (true, 0) => verdict::naming(&models[u]),
                        (true, _) => verdict::terms(&models[u]),
                        (false, 0) => verdict::unresolved(&models[u]),
                        (false, _) => verdict::types(&models[u]),
                    },
                Step::Script(sc) => {
                    calls.push(k);
                    match &sc.uses[u] {
                        Err(e) => {
                            failed = Some(e.clone());
                            break;
                        }
                        Ok(v) => v.iter()
                                .map(|(l, m)| Issue {
                                    level: ["info", "warning", "error"][*l as usize].into(),
                                    reporter: "Scripted".into(),
                                    message: m.clone(),
                                    locus: None,
                                })
                                .collect(),
                    }
                }
            };
            let stop = fast[u] && mine.iter().any(|i| i.level == "error");
            groups.push(mine);
            if stop {
                break;
            }
        }
        broken |= failed.is_some();
        wants.push(Want {
            calls,
            out: match failed {
                Some(e) => Err(e),
                None => Ok(groups),
            },
        });
        if broken {
            break;
        }
    }

    let (steps2, models2, fast2, many) = (steps.clone(), models.clone(), fast.clone(), wants.len());
    type Got = (Result<Vec<Issue>, String>, Vec<(usize, bool)>, usize);
    let got: Vec<Got> = run
        .pure_life("pipeline", seed, move || {
            let log = Rc::new(RefCell::new(Vec::new()));
            let now = Rc::new(Cell::new(0));
            let scripted = |k: usize, s: &Script| Scripted {
                no: k,
                script: s.clone(),
                now: now.clone(),
                issues: Vec::new(),
                log: log.clone(),
            };
            let mut linters: Vec<Box<dyn Linter>> = Vec::new();
            let mut validators: Vec<Box<dyn Validator>> = Vec::new();
            for (k, s) in steps2.iter().enumerate() {
                match (s, lint) {
                    (Step::Script(s), true) => linters.push(Box::new(scripted(k, s))),
                    (Step::Script(s), false) => validators.push(Box::new(scripted(k, s))),
                    (Step::Standard(0), true) => linters.push(Box::new(NamingConventions::default())),
                    (Step::Standard(_), true) => linters.push(Box::new(UnwelcomeTerms::default())),
                    (Step::Standard(0), false) => validators.push(Box::new(NoUnresolvedReferences::default())),
                    (Step::Standard(_), false) => validators.push(Box::new(CorrectTypeReferences::default())),
                }
            }
            let mut out = Vec::new();
            for u in 0..many {
                let m = build(&models2[u]);
                log.borrow_mut().clear();
                now.set(u);
                let r = if lint {
                    run_linter_actions(&mut linters, &m, fast2[u])
                } else {
                    run_validation_actions(&mut validators, &m, fast2[u])
                };
                let left: usize = linters.iter().map(|l| l.issues().len()).sum::<usize>()
                    + validators.iter().map(|l| l.issues().len()).sum::<usize>();
                let here = &m as *const Model as usize;
                out.push((
                    r.map(|v| v.iter().map(verdict::seen).collect()).map_err(|e| e.to_string()),
                    log.borrow().iter().map(|(k, at)| (*k, *at == here)).collect(),
                    left,
                ));
            }
            out
        })
        .ok("running the actions")?;

    for (u, ((r, calls, left), want)) in got.iter().zip(&wants).enumerate() {
        let seen: Vec<usize> = calls.iter().map(|c| c.0).collect();
        if seen != want.calls {
            let class = if seen.len() > want.calls.len() {
                "actions ran that should not have"
            } else if seen.len() < want.calls.len() {
                "actions did not run"
            } else {
                "actions ran in another order"
            };
            return violation(class, format!("use {u}, fail fast {}: ran {seen:?}, expected {:?}", fast[u], want.calls));
        }
        if calls.iter().any(|c| !c.1) {
            return violation("an action was given another model", format!("use {u}"));
        }
        match (&want.out, r) {
            (Err(e), Err(g)) => {
                run.probe("action failed");
                if !g.contains(e.as_str()) {
                    return violation("another error than the one of the action", format!("expected {e}, got {g}"));
                }
            }
            (Err(e), Ok(_)) => return violation("the failure of an action is not reported", e.clone()),
            (Ok(_), Err(e)) => return violation("a run failed though no action did", e.clone()),
            (Ok(groups), Ok(issues)) => {
                // in the order of the actions; within a standard action in any order
                let mut at = 0;
                for g in groups {
                    let end = (at + g.len()).min(issues.len());
                    let mut part = issues[at..end].to_vec();
                    let scripted = g.iter().any(|i| i.reporter == "Scripted");
                    if !scripted {
                        part.sort();
                    }
                    if &part != g {
                        return violation(
                            format!("issues: {}", verdict::kind_of_difference(&groups.concat(), issues)),
                            format!("use {u}: expected {g:?} at {at}, got {part:?} of {issues:?}"),
                        );
                    }
                    at = end;
                }
                if at != issues.len() {
                    return violation("issues nobody reported", format!("use {u}: {:?}", &issues[at..]));
                }
                if *left > 0 {
                    return violation("issues left behind in the actions", format!("use {u}: {left}"));
                }
                if groups.len() < steps.len() {
                    run.probe("failed fast");
                }
            }
        }
    }
    Ok(())
}

pub static P16: Prop = Prop {
    id: "P16",
    title: "Lint and validation verdicts are a function of the model alone",
    run: run16,
    quick_runs: 200_000,
    recheck: 60,
    rule: "Generated models with badly formed names, unwelcome terms, wrong, dangling and unresolved references are linted and validated in processes with different hash keys and construction orders, by instances used before, and after loading from either representation; the issues are compared with an oracle of the documented rules; non-trivial: at least one issue is due.",
    real: &["atelier_core::action lint and validate", "atelier_lib::actions", "readers"],
    stubs: STUB_OS,
    assumptions: &["case conversion of names is that of the heck crate"],
};

fn compare(what: &str, want: &[Issue], got: &[Issue]) -> Outcome {
    if want == got {
        return Ok(());
    }
    violation(
        format!("{what}: {}", verdict::kind_of_difference(want, got)),
        verdict::describe(want, got),
    )
}

fn run16(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let m = verdict::spiced(&mut run.c, &mix);
    run.mark(to_json(&m).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&m)));
    let lives = run.c.range(1, 2);
    for _ in 0..lives {
        let (seed, order) = (run.c.seed(), run.c.seed());
        match run.c.below(4) {
            0 => {
                // the standard sets, as a library user or the command line calls them
                let fast = run.c.below(2) == 1;
                let m2 = m.clone();
                let (l, v) = run
                    .pure_life("standard", seed, move || {
                        let m = build_shuffled(&m2, order);
                        (
                            standard_model_lint(&m, fast).map(|v| verdict::sorted(&v)).map_err(|e| e.to_string()),
                            standard_model_validation(&m, fast).map(|v| verdict::sorted(&v)).map_err(|e| e.to_string()),
                        )
                    })
                    .ok("checking")?;
                let (wl, wv) = (verdict::lint(&m), verdict::validation(&m, fast));
                run.nontrivial |= !wl.is_empty() || !wv.is_empty();
                match (l, v) {
                    (Ok(l), Ok(v)) => {
                        compare("lint", &wl, &l)?;
                        compare("validation", &wv, &v)?;
                    }
                    e => return violation("checking failed", format!("{e:?}")),
                }
            }
            1 => {
                // loaded from a document
                let spaces = formats::namespaces_of(&m);
                let idl = spaces.len() == 1 && run.c.below(2) == 1;
                let (lang, text) = if idl {
                    let m2 = crate::idl::without_list_member_traits(&m);
                    let style = crate::idl::Style {
                        escapes: false,
                        quoted_keys: false,
                        list_member_traits: false,
                        layout: run.c.below(3),
                    };
                    if m2 != m || mix.wild_strings || mix.wild_keys {
                        continue;
                    }
                    (Lang::Idl, crate::idl::text(&mut run.c, &m, &spaces[0], style))
                } else {
                    (Lang::Json, gen::foreign_json(&mut run.c, &m))
                };
                let bytes = text.into_bytes();
                let r = run
                    .pure_life("loaded", seed, move || {
                        let m = lang.read_bytes(&bytes)?;
                        let c = canon(&m);
                        let l = standard_model_lint(&m, false).map_err(|e| e.to_string())?;
                        let v = standard_model_validation(&m, false).map_err(|e| e.to_string())?;
                        Ok::<_, String>((c, verdict::sorted(&l), verdict::sorted(&v)))
                    })
                    .ok("checking a document")?;
                match r {
                    Ok((c, l, v)) => {
                        if diff(&m, &c).is_some() {
                            run.probe("document read differently");
                            continue;
                        }
                        run.probe(if idl { "from IDL" } else { "from JSON" });
                        run.nontrivial |= !l.is_empty() || !v.is_empty();
                        compare("lint", &verdict::lint(&m), &l)?;
                        compare("validation", &verdict::validation(&m, false), &v)?;
                    }
                    Err(e) => {
                        run.probe("document refused");
                        run.log(|| e);
                    }
                }
            }
            _ => {
                // instances that have checked other models before
                let before = run.c.below(3);
                let others: Vec<CModel> = (0..before)
                    .map(|_| {
                        if run.c.below(3) == 2 {
                            m.clone()
                        } else {
                            let mut x = mix.clone();
                            x.max_shapes = 4;
                            verdict::spiced(&mut run.c, &x)
                        }
                    })
                    .collect();
                let drain = run.c.below(2) == 1;
                let mut all = others.clone();
                all.push(m.clone());
                let all2 = all.clone();
                let got = run
                    .pure_life("instances", seed, move || {
                        let mut n = NamingConventions::default();
                        let mut t = UnwelcomeTerms::default();
                        let mut u = NoUnresolvedReferences::default();
                        let mut c = CorrectTypeReferences::default();
                        let mut out = Vec::new();
                        for m in &all2 {
                            let m = build_shuffled(m, order);
                            let ok = n.check(&m).is_ok()
                                && t.check(&m).is_ok()
                                && u.validate(&m).is_ok()
                                && c.validate(&m).is_ok();
                            out.push((
                                ok,
                                [
                                    verdict::sorted(n.issues()),
                                    verdict::sorted(t.issues()),
                                    verdict::sorted(u.issues()),
                                    verdict::sorted(c.issues()),
                                ],
                            ));
                            if drain {
                                n.issues_mut().clear();
                                t.issues_mut().clear();
                                u.issues_mut().clear();
                                c.issues_mut().clear();
                            }
                        }
                        out
                    })
                    .ok("checking")?;
                let mut sum: [Vec<Issue>; 4] = Default::default();
                for (i, (ok, got)) in got.iter().enumerate() {
                    if !ok {
                        return violation("checking failed", format!("model {i}"));
                    }
                    let mine = [
                        verdict::naming(&all[i]),
                        verdict::terms(&all[i]),
                        verdict::unresolved(&all[i]),
                        verdict::types(&all[i]),
                    ];
                    for k in 0..4 {
                        if drain {
                            sum[k].clear();
                        }
                        sum[k].extend(mine[k].iter().cloned());
                        sum[k].sort();
                        run.nontrivial |= !mine[k].is_empty();
                        compare(if i == 0 { "first use" } else { "use after others" }, &sum[k], &got[k])?;
                    }
                }
            }
        }
    }
    Ok(())
}
