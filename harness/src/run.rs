//! Runs a script against the real solver and records one event per API call.
use std::cell::RefCell;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use varisat::checker::{
    CheckedProofStep, CheckerData, ProofProcessor, ProofTranscriptProcessor,
    ProofTranscriptStep,
};
use varisat::config::{SolverConfig, SolverConfigUpdate};
use varisat::solver::SolverError;
use varisat::{CnfFormula, ExtendFormula, Lit, ProofFormat, Solver, Var};

use crate::ops::*;

pub fn lit(x: L) -> Lit {
    Lit::from_dimacs(x)
}
pub fn vlits(x: &[L]) -> Vec<Lit> {
    x.iter().map(|&x| lit(x)).collect()
}
pub fn jl(x: &[L]) -> String {
    let mut s = String::from("[");
    for (i, v) in x.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&v.to_string());
    }
    s.push(']');
    s
}
pub fn jlits(x: &[Lit]) -> String {
    jl(&x.iter().map(|l| l.to_dimacs()).collect::<Vec<_>>())
}
pub fn ju(x: &[u64]) -> String {
    jl(&x.iter().map(|&l| l as isize).collect::<Vec<_>>())
}
pub fn jcls(x: &[Vec<L>]) -> String {
    format!("[{}]", x.iter().map(|c| jl(c)).collect::<Vec<_>>().join(","))
}

/// Shared log of proof steps seen by processors.
#[derive(Default)]
pub struct StepLog {
    pub steps: Vec<String>,
    pub tick: usize,
    /// injected processor failures so far
    pub fails: usize,
}

/// A recording proof processor, optionally failing at the n-th step.
pub struct Recorder {
    pub log: Rc<RefCell<StepLog>>,
    pub no: usize,
    pub fail_at: Option<usize>,
    pub fail_once: bool,
    pub count: usize,
    pub record: bool,
}

pub fn step_json(no: usize, step: &CheckedProofStep, data: &CheckerData) -> String {
    let um = |c: &[Lit]| -> String {
        jl(&c
            .iter()
            .map(|l| match data.user_from_proof_var(l.var()) {
                Some(v) => v.lit(l.is_positive()).to_dimacs(),
                None => 0,
            })
            .collect::<Vec<_>>())
    };
    let b = |x: bool| x as u8;
    match step {
        CheckedProofStep::UserVar { var, user_var } => match user_var {
            None => format!(
                "{{\"n\":{},\"k\":\"uv\",\"v\":{},\"u\":0,\"mode\":\"-\",\"new\":0,\"um\":{}}}",
                no,
                var.to_dimacs(),
                data.user_from_proof_var(*var).map(|v| v.to_dimacs()).unwrap_or(0)
            ),
            Some(u) => format!(
                "{{\"n\":{},\"k\":\"uv\",\"v\":{},\"u\":{},\"mode\":\"{}\",\"new\":{},\"um\":{}}}",
                no,
                var.to_dimacs(),
                u.user_var.to_dimacs(),
                if format!("{:?}", u.sampling_mode) == "Sample" { "s" } else { "w" },
                b(u.new_var),
                data.user_from_proof_var(*var).map(|v| v.to_dimacs()).unwrap_or(0)
            ),
        },
        CheckedProofStep::AddClause { id, clause } => format!(
            "{{\"n\":{},\"k\":\"add\",\"id\":{},\"c\":{},\"uc\":{}}}",
            no, id, jlits(clause), um(clause)
        ),
        CheckedProofStep::DuplicatedClause { id, same_as_id, clause } => format!(
            "{{\"n\":{},\"k\":\"dup\",\"id\":{},\"same\":{},\"c\":{},\"uc\":{}}}",
            no, id, same_as_id, jlits(clause), um(clause)
        ),
        CheckedProofStep::TautologicalClause { id, clause } => format!(
            "{{\"n\":{},\"k\":\"taut\",\"id\":{},\"c\":{},\"uc\":{}}}",
            no, id, jlits(clause), um(clause)
        ),
        CheckedProofStep::AtClause { id, redundant, clause, propagations } => format!(
            "{{\"n\":{},\"k\":\"at\",\"id\":{},\"red\":{},\"c\":{},\"p\":{}}}",
            no, id, b(*redundant), jlits(clause), ju(propagations)
        ),
        CheckedProofStep::DeleteClause { id, clause } => format!(
            "{{\"n\":{},\"k\":\"del\",\"id\":{},\"c\":{}}}",
            no, id, jlits(clause)
        ),
        CheckedProofStep::DeleteAtClause { id, keep_as_redundant, clause, propagations } => format!(
            "{{\"n\":{},\"k\":\"delat\",\"id\":{},\"keep\":{},\"c\":{},\"p\":{}}}",
            no, id, b(*keep_as_redundant), jlits(clause), ju(propagations)
        ),
        CheckedProofStep::DeleteRatClause { id, keep_as_redundant, clause, pivot, .. } => format!(
            "{{\"n\":{},\"k\":\"delrat\",\"id\":{},\"keep\":{},\"c\":{},\"piv\":{}}}",
            no, id, b(*keep_as_redundant), jlits(clause), pivot.to_dimacs()
        ),
        CheckedProofStep::MakeIrredundant { id, clause } => format!(
            "{{\"n\":{},\"k\":\"irr\",\"id\":{},\"c\":{}}}",
            no, id, jlits(clause)
        ),
        CheckedProofStep::Model { assignment } => format!(
            "{{\"n\":{},\"k\":\"model\",\"c\":{},\"uc\":{}}}",
            no, jlits(assignment), um(assignment)
        ),
        CheckedProofStep::Assumptions { assumptions } => format!(
            "{{\"n\":{},\"k\":\"assum\",\"c\":{},\"uc\":{}}}",
            no, jlits(assumptions), um(assumptions)
        ),
        CheckedProofStep::FailedAssumptions { failed_core, propagations } => format!(
            "{{\"n\":{},\"k\":\"fail\",\"c\":{},\"uc\":{},\"p\":{}}}",
            no, jlits(failed_core), um(failed_core), ju(propagations)
        ),
    }
}

pub fn transcript_json(step: &ProofTranscriptStep) -> String {
    let v = |k: &str, v: Var| format!("{{\"k\":\"{}\",\"v\":{},\"c\":[]}}", k, v.to_dimacs());
    let c = |k: &str, c: &[Lit]| format!("{{\"k\":\"{}\",\"v\":0,\"c\":{}}}", k, jlits(c));
    match step {
        ProofTranscriptStep::WitnessVar { var } => v("witness", *var),
        ProofTranscriptStep::SampleVar { var } => v("sample", *var),
        ProofTranscriptStep::HideVar { var } => v("hide", *var),
        ProofTranscriptStep::ObserveInternalVar { var } => v("observe", *var),
        ProofTranscriptStep::AddClause { clause } => c("add", clause),
        ProofTranscriptStep::Unsat => c("unsat", &[]),
        ProofTranscriptStep::Model { assignment } => c("model", assignment),
        ProofTranscriptStep::Assume { assumptions } => c("assume", assumptions),
        ProofTranscriptStep::FailedAssumptions { failed_core } => c("fail", failed_core),
    }
}

impl ProofProcessor for Recorder {
    fn process_step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), anyhow::Error> {
        self.count += 1;
        if let Some(n) = self.fail_at {
            if self.count == n || (self.count > n && !self.fail_once) {
                self.log.borrow_mut().fails += 1;
                anyhow::bail!("injected processor failure");
            }
        }
        if self.record {
            let s = step_json(self.no, step, &data);
            self.log.borrow_mut().steps.push(s);
        }
        Ok(())
    }
}

/// Records transcript steps as JSON.
#[derive(Default)]
pub struct TransRec(pub Vec<String>);
impl ProofTranscriptProcessor for TransRec {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        self.0.push(transcript_json(step));
        Ok(())
    }
}

/// Sink with controllable faults.
#[derive(Default, Clone)]
pub struct SinkSpec {
    /// accept exactly this many bytes, then fail
    pub fail: Option<usize>,
    /// the failure happens only once (later writes succeed)
    pub once: bool,
    /// at most this many bytes per write call
    pub short: Option<usize>,
    /// every n-th call reports Interrupted
    pub intr: Option<usize>,
    /// the n-th flush call fails
    pub fflush: Option<usize>,
    /// the n-th write call accepts nothing
    pub zero: Option<usize>,
}
#[derive(Default)]
pub struct SinkData {
    pub bytes: Vec<u8>,
    pub errors: usize,
    pub flushes: usize,
    pub calls: usize,
}
pub struct Sink {
    pub spec: SinkSpec,
    pub data: Rc<RefCell<SinkData>>,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut d = self.data.borrow_mut();
        d.calls += 1;
        if let Some(k) = self.spec.intr {
            if d.calls % k == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "intr"));
            }
        }
        if Some(d.calls) == self.spec.zero && !buf.is_empty() {
            d.errors += 1;
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(s) = self.spec.short {
            n = n.min(s);
        }
        if let Some(f) = self.spec.fail {
            if !(self.spec.once && d.errors > 0) {
                let room = f.saturating_sub(d.bytes.len());
                if room == 0 && n > 0 {
                    d.errors += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "injected write failure"));
                }
                n = n.min(room);
            }
        }
        d.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut d = self.data.borrow_mut();
        d.flushes += 1;
        if Some(d.flushes) == self.spec.fflush {
            d.errors += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "injected flush failure"));
        }
        Ok(())
    }
}

pub fn panic_class(e: Box<dyn std::any::Any + Send>) -> (String, String) {
    let m = if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".to_string()
    };
    let c = if m.contains("witness variables cannot be constrained") {
        "witness"
    } else if m.contains("cannot change sampling mode of assumption variable") {
        "assumed"
    } else if m.contains("called after clauses were added") {
        "late"
    } else if m.contains("solve() called after encountering an unrecoverable error") {
        "dead"
    } else if m.contains("not supported by DRAT proofs") {
        "drat"
    } else if m.contains("self check failure") {
        "selfcheck"
    } else {
        "other"
    };
    (format!("panic:{}", c), m)
}

#[derive(Clone, Default)]
pub struct Ev {
    pub op: String,
    pub clss: Vec<Vec<L>>,
    pub lits: Vec<L>,
    pub v: isize,
    pub r: String,
    pub ob: String,
    pub model: Option<Vec<L>>,
    pub core: Option<Vec<L>>,
    pub steps: Vec<String>,
    pub bytes: usize,
    pub errs: usize,
    pub pfails: usize,
    pub cfg: Vec<i64>,
    pub fmt: String,
    pub msg: String,
}

impl Ev {
    pub fn json(&self, full: bool) -> String {
        let mut s = format!("{{\"o\":\"{}\",\"r\":\"{}\"", self.op, self.r);
        match &self.op[..] {
            "add" | "addf" | "dimacs" => s.push_str(&format!(",\"cls\":{}", jcls(&self.clss))),
            "assume" | "observe" | "newvars" => s.push_str(&format!(",\"l\":{}", jl(&self.lits))),
            "newvar" | "hide" | "witness" | "sample" => s.push_str(&format!(",\"v\":{}", self.v)),
            "config" => s.push_str(&format!(
                ",\"l\":{},\"cfg\":{}",
                jl(&self.lits),
                jl(&self.cfg.iter().map(|&x| x as isize).collect::<Vec<_>>())
            )),
            "proof" | "processor" => s.push_str(&format!(",\"f\":\"{}\"", self.fmt)),
            _ => (),
        }
        s.push_str(&format!(",\"ob\":\"{}\"", self.ob));
        match &self.model {
            Some(m) => s.push_str(&format!(",\"hm\":1,\"m\":{}", jl(m))),
            None => s.push_str(",\"hm\":0"),
        }
        match &self.core {
            Some(m) => s.push_str(&format!(",\"hc\":1,\"c\":{}", jl(m))),
            None => s.push_str(",\"hc\":0"),
        }
        if full {
            s.push_str(&format!(
                ",\"st\":[{}],\"by\":{},\"er\":{}",
                self.steps.join(","),
                self.bytes,
                self.errs
            ));
        }
        s.push('}');
        s
    }
}

pub const CFG_KEYS: [&str; 5] = ["vd", "cd", "rl", "rm", "lu"];

pub fn config_update(spec: &str) -> SolverConfigUpdate {
    let mut u = SolverConfigUpdate::new();
    for kv in spec.split(',') {
        if kv.is_empty() {
            continue;
        }
        let i = kv.find('=').unwrap();
        let (k, v) = (&kv[..i], kv[i + 1..].parse::<i64>().unwrap());
        match k {
            "vd" => u.vsids_decay = Some(v as f32 / 1000.0),
            "cd" => u.clause_activity_decay = Some(v as f32 / 1000.0),
            "rl" => u.reduce_locals_interval = Some(v as u64),
            "rm" => u.reduce_mids_interval = Some(v as u64),
            "lu" => u.luby_restart_interval_scale = Some(v as u64),
            _ => panic!("bad config key {}", k),
        }
    }
    u
}
pub fn config_state(c: &SolverConfig) -> Vec<i64> {
    vec![
        (c.vsids_decay * 1000.0).round() as i64,
        (c.clause_activity_decay * 1000.0).round() as i64,
        c.reduce_locals_interval as i64,
        c.reduce_mids_interval as i64,
        c.luby_restart_interval_scale as i64,
    ]
}

pub fn err_class(e: &SolverError) -> String {
    match e {
        SolverError::Interrupted => "err:int".into(),
        SolverError::ProofProcessorError { .. } => "err:proc".into(),
        SolverError::ProofIoError { .. } => "err:io".into(),
        _ => "err:other".into(),
    }
}

pub struct RunOut {
    pub evs: Vec<Ev>,
    pub proof: Vec<u8>,
    /// events after the solver was dropped
    pub final_bytes: usize,
}

fn parse_kv(s: &str, key: &str) -> Option<usize> {
    s.split_whitespace()
        .filter_map(|w| {
            let i = w.find('=')?;
            if &w[..i] == key {
                w[i + 1..].parse().ok()
            } else {
                None
            }
        })
        .next()
}

thread_local! {
    /// Hook for progress reporting (hang detection).
    pub static PROGRESS: RefCell<Option<Box<dyn Fn(usize)>>> = RefCell::new(None);
}

/// Run a script. `rec`: record proof steps (in `processor` ops).
pub fn run(script: &[Op]) -> RunOut {
    let log: Rc<RefCell<StepLog>> = Default::default();
    let sink: Rc<RefCell<SinkData>> = Default::default();
    let nproc = script.iter().filter(|o| matches!(o, Op::Processor(_))).count();
    let mut recs: Vec<Recorder> = (0..nproc)
        .map(|i| Recorder {
            log: log.clone(),
            no: i,
            fail_at: None,
            fail_once: false,
            count: 0,
            record: true,
        })
        .collect();
    let mut evs = vec![];
    {
        let mut rec_iter = recs.iter_mut();
        let mut solver = Solver::new();
        let mut shadow = SolverConfig::default();
        let mut dead = false;
        for (oi, op) in script.iter().enumerate() {
            PROGRESS.with(|p| {
                if let Some(p) = &*p.borrow() {
                    p(oi)
                }
            });
            let mut ev = Ev::default();
            let res = catch_unwind(AssertUnwindSafe(|| -> String {
                match op {
                    Op::NewVar => {
                        ev.op = "newvar".into();
                        ev.v = solver.new_var().to_dimacs();
                        "ok".into()
                    }
                    Op::NewVars(k) => {
                        ev.op = "newvars".into();
                        ev.lits = solver.new_lit_iter(*k).map(|l| l.to_dimacs()).collect();
                        "ok".into()
                    }
                    Op::Add(c) => {
                        ev.op = "add".into();
                        ev.clss = vec![c.clone()];
                        solver.add_clause(&vlits(c));
                        "ok".into()
                    }
                    Op::AddF(cs) => {
                        ev.op = "addf".into();
                        ev.clss = cs.clone();
                        let f = CnfFormula::from(cs.iter().map(|c| vlits(c)));
                        solver.add_formula(&f);
                        "ok".into()
                    }
                    Op::Dimacs(cs) => {
                        ev.op = "dimacs".into();
                        ev.clss = cs.clone();
                        let mut t = String::new();
                        for c in cs {
                            for l in c {
                                t.push_str(&format!("{} ", l));
                            }
                            t.push_str("0\n");
                        }
                        match solver.add_dimacs_cnf(t.as_bytes()) {
                            Ok(()) => "ok".into(),
                            Err(_) => "err:dimacs".into(),
                        }
                    }
                    Op::Assume(l) => {
                        ev.op = "assume".into();
                        ev.lits = l.clone();
                        solver.assume(&vlits(l));
                        "ok".into()
                    }
                    Op::Solve => {
                        ev.op = "solve".into();
                        match solver.solve() {
                            Ok(true) => "T".into(),
                            Ok(false) => "F".into(),
                            Err(e) => err_class(&e),
                        }
                    }
                    Op::Hide(v) => {
                        ev.op = "hide".into();
                        ev.v = *v as isize;
                        solver.hide_var(Var::from_dimacs(*v as isize));
                        "ok".into()
                    }
                    Op::Witness(v) => {
                        ev.op = "witness".into();
                        ev.v = *v as isize;
                        solver.witness_var(Var::from_dimacs(*v as isize));
                        "ok".into()
                    }
                    Op::Sample(v) => {
                        ev.op = "sample".into();
                        ev.v = *v as isize;
                        solver.sample_var(Var::from_dimacs(*v as isize));
                        "ok".into()
                    }
                    Op::Observe => {
                        ev.op = "observe".into();
                        ev.lits = solver
                            .observe_internal_vars()
                            .iter()
                            .map(|v| v.to_dimacs())
                            .collect();
                        "ok".into()
                    }
                    Op::Config(s) => {
                        ev.op = "config".into();
                        // requested values, -1 when unset
                        ev.lits = CFG_KEYS
                            .iter()
                            .map(|k| parse_kv(&s.replace(',', " "), k).map(|v| v as isize).unwrap_or(-1))
                            .collect();
                        let u = config_update(s);
                        let r = solver.config(&u);
                        let r2 = u.apply(&mut shadow);
                        ev.cfg = config_state(&shadow);
                        match (r, r2) {
                            (Ok(()), Ok(())) => "ok".into(),
                            (Err(_), Err(_)) => "err".into(),
                            _ => "err:disagree".into(),
                        }
                    }
                    Op::Proof(s) => {
                        ev.op = "proof".into();
                        ev.fmt = s.split_whitespace().next().unwrap_or("").to_string();
                        let f = match &ev.fmt[..] {
                            "varisat" => ProofFormat::Varisat,
                            "drat" => ProofFormat::Drat,
                            "bdrat" => ProofFormat::BinaryDrat,
                            x => panic!("bad format {}", x),
                        };
                        let spec = SinkSpec {
                            fail: parse_kv(s, "fail"),
                            once: parse_kv(s, "once") == Some(1),
                            short: parse_kv(s, "short"),
                            intr: parse_kv(s, "intr"),
                            fflush: parse_kv(s, "fflush"),
                            zero: parse_kv(s, "zero"),
                        };
                        solver.write_proof(Sink { spec, data: sink.clone() }, f);
                        "ok".into()
                    }
                    Op::SelfCheck => {
                        ev.op = "selfcheck".into();
                        solver.enable_self_checking();
                        "ok".into()
                    }
                    Op::Processor(s) => {
                        ev.op = "processor".into();
                        ev.fmt = "p".into();
                        let r = rec_iter.next().unwrap();
                        r.fail_at = parse_kv(s, "fail");
                        r.fail_once = parse_kv(s, "once") == Some(1);
                        r.record = parse_kv(s, "rec") != Some(0);
                        solver.add_proof_processor(r);
                        "ok".into()
                    }
                    Op::Close => {
                        ev.op = "close".into();
                        match solver.close_proof() {
                            Ok(()) => "ok".into(),
                            Err(e) => err_class(&e),
                        }
                    }
                }
            }));
            match res {
                Ok(r) => ev.r = r,
                Err(e) => {
                    let (c, m) = panic_class(e);
                    // refused set-up calls leave the solver untouched
                    dead = c != "panic:late";
                    ev.r = c;
                    ev.msg = m;
                }
            }
            ev.ob = "ok".into();
            if !dead {
                let obs = catch_unwind(AssertUnwindSafe(|| {
                    let m = solver
                        .model()
                        .map(|m| m.iter().map(|l| l.to_dimacs()).collect::<Vec<_>>());
                    let c = solver
                        .failed_core()
                        .map(|m| m.iter().map(|l| l.to_dimacs()).collect::<Vec<_>>());
                    (m, c)
                }));
                match obs {
                    Ok((m, c)) => {
                        ev.model = m;
                        ev.core = c;
                    }
                    Err(e) => {
                        ev.ob = "panic".into();
                        ev.msg = panic_class(e).1;
                        dead = true;
                    }
                }
            }
            ev.steps = std::mem::replace(&mut log.borrow_mut().steps, vec![]);
            ev.bytes = sink.borrow().bytes.len();
            ev.errs = sink.borrow().errors;
            ev.pfails = log.borrow().fails;
            // a refused solve does not end the history: it must stay refused
            if dead && ev.r == "panic:dead" {
                dead = false;
            }
            evs.push(ev);
            if dead {
                break;
            }
        }
        // dropping must never panic either; steps emitted on drop are attributed to a final event
        let r = catch_unwind(AssertUnwindSafe(move || drop(solver)));
        let mut ev = Ev::default();
        ev.op = "drop".into();
        ev.r = match r {
            Ok(()) => "ok".into(),
            Err(e) => panic_class(e).0,
        };
        ev.ob = "ok".into();
        ev.steps = std::mem::replace(&mut log.borrow_mut().steps, vec![]);
        ev.bytes = sink.borrow().bytes.len();
        ev.errs = sink.borrow().errors;
            ev.pfails = log.borrow().fails;
        evs.push(ev);
    }
    let proof = sink.borrow().bytes.clone();
    let fb = proof.len();
    RunOut { evs, proof, final_bytes: fb }
}
