//! Proof artefacts: decoding, encoding, mutation, checking and recording.
use std::cell::RefCell;
use std::io::{self, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use varisat_checker::{Checker, CheckerError};
use varisat_formula::{CnfFormula, Lit, Var};
use varisat_internal_proof::{binary_format, clause_hash, DeleteClauseProof, ProofStep};
use varisat_lrat::WriteLrat;

use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;

/// Owned raw proof step.
#[derive(Clone, Debug, PartialEq)]
pub enum Raw {
    Svn(usize, Option<usize>),
    Uvn(usize, Option<usize>),
    Dv(usize),
    Csm(usize, bool),
    Addc(Vec<L>),
    At(bool, Vec<L>, Vec<u64>),
    Units(Vec<(L, u64)>),
    Del(u8, Vec<L>),
    Hb(u32),
    Model(Vec<L>),
    Assum(Vec<L>),
    Fail(Vec<L>, Vec<u64>),
    End,
}

fn v(x: usize) -> Var {
    Var::from_dimacs(x as isize)
}

impl Raw {
    pub fn from_step(s: &ProofStep) -> Raw {
        let d = |c: &[Lit]| c.iter().map(|l| l.to_dimacs()).collect::<Vec<_>>();
        let n = |x: Var| x.to_dimacs() as usize;
        match *s {
            ProofStep::SolverVarName { global, solver } => Raw::Svn(n(global), solver.map(n)),
            ProofStep::UserVarName { global, user } => Raw::Uvn(n(global), user.map(n)),
            ProofStep::DeleteVar { var } => Raw::Dv(n(var)),
            ProofStep::ChangeSamplingMode { var, sample } => Raw::Csm(n(var), sample),
            ProofStep::AddClause { clause } => Raw::Addc(d(clause)),
            ProofStep::AtClause { redundant, clause, propagation_hashes } => {
                Raw::At(redundant, d(clause), propagation_hashes.to_vec())
            }
            ProofStep::UnitClauses { units } => {
                Raw::Units(units.iter().map(|&(l, h)| (l.to_dimacs(), h)).collect())
            }
            ProofStep::DeleteClause { clause, proof } => Raw::Del(
                match proof {
                    DeleteClauseProof::Redundant => 0,
                    DeleteClauseProof::Simplified => 1,
                    DeleteClauseProof::Satisfied => 2,
                },
                d(clause),
            ),
            ProofStep::ChangeHashBits { bits } => Raw::Hb(bits),
            ProofStep::Model { assignment } => Raw::Model(d(assignment)),
            ProofStep::Assumptions { assumptions } => Raw::Assum(d(assumptions)),
            ProofStep::FailedAssumptions { failed_core, propagation_hashes } => {
                Raw::Fail(d(failed_core), propagation_hashes.to_vec())
            }
            ProofStep::End => Raw::End,
        }
    }
    pub fn write(&self, out: &mut impl Write) -> io::Result<()> {
        match self {
            Raw::Svn(g, s) => binary_format::write_step(
                out,
                &ProofStep::SolverVarName { global: v(*g), solver: s.map(v) },
            ),
            Raw::Uvn(g, s) => binary_format::write_step(
                out,
                &ProofStep::UserVarName { global: v(*g), user: s.map(v) },
            ),
            Raw::Dv(x) => binary_format::write_step(out, &ProofStep::DeleteVar { var: v(*x) }),
            Raw::Csm(x, s) => binary_format::write_step(
                out,
                &ProofStep::ChangeSamplingMode { var: v(*x), sample: *s },
            ),
            Raw::Addc(c) => binary_format::write_step(out, &ProofStep::AddClause { clause: &vlits(c) }),
            Raw::At(r, c, h) => binary_format::write_step(
                out,
                &ProofStep::AtClause { redundant: *r, clause: &vlits(c), propagation_hashes: h },
            ),
            Raw::Units(u) => {
                let u: Vec<(Lit, u64)> = u.iter().map(|&(l, h)| (lit(l), h)).collect();
                binary_format::write_step(out, &ProofStep::UnitClauses { units: &u })
            }
            Raw::Del(p, c) => binary_format::write_step(
                out,
                &ProofStep::DeleteClause {
                    clause: &vlits(c),
                    proof: match p {
                        0 => DeleteClauseProof::Redundant,
                        1 => DeleteClauseProof::Simplified,
                        _ => DeleteClauseProof::Satisfied,
                    },
                },
            ),
            Raw::Hb(b) => binary_format::write_step(out, &ProofStep::ChangeHashBits { bits: *b }),
            Raw::Model(c) => binary_format::write_step(out, &ProofStep::Model { assignment: &vlits(c) }),
            Raw::Assum(c) => {
                binary_format::write_step(out, &ProofStep::Assumptions { assumptions: &vlits(c) })
            }
            Raw::Fail(c, h) => binary_format::write_step(
                out,
                &ProofStep::FailedAssumptions { failed_core: &vlits(c), propagation_hashes: h },
            ),
            Raw::End => binary_format::write_step(out, &ProofStep::End),
        }
    }
    pub fn json(&self) -> String {
        let k = |k: &str, c: &[L], v: usize, u: usize, f: u8| {
            format!("{{\"k\":\"{}\",\"c\":{},\"v\":{},\"u\":{},\"f\":{}}}", k, jl(c), v, u, f)
        };
        match self {
            Raw::Svn(g, s) => k("svn", &[], *g, s.unwrap_or(0), 0),
            Raw::Uvn(g, s) => k("uvn", &[], *g, s.unwrap_or(0), 0),
            Raw::Dv(x) => k("dv", &[], *x, 0, 0),
            Raw::Csm(x, s) => k("csm", &[], *x, 0, *s as u8),
            Raw::Addc(c) => k("addc", c, 0, 0, 0),
            Raw::At(r, c, _) => k("at", c, 0, 0, *r as u8),
            Raw::Units(u) => k("units", &u.iter().map(|x| x.0).collect::<Vec<_>>(), 0, 0, 0),
            Raw::Del(p, c) => k("del", c, 0, 0, *p),
            Raw::Hb(b) => k("hb", &[], *b as usize & 0xffff, 0, 0),
            Raw::Model(c) => k("model", c, 0, 0, 0),
            Raw::Assum(c) => k("assum", c, 0, 0, 0),
            Raw::Fail(c, _) => k("fail", c, 0, 0, 0),
            Raw::End => k("end", &[], 0, 0, 0),
        }
    }
    pub fn max_var(&self) -> usize {
        let m = |c: &[L]| c.iter().map(|l| l.abs() as usize).max().unwrap_or(0);
        match self {
            Raw::Svn(g, s) | Raw::Uvn(g, s) => (*g).max(s.unwrap_or(0)),
            Raw::Dv(x) | Raw::Csm(x, _) => *x,
            Raw::Addc(c) | Raw::At(_, c, _) | Raw::Del(_, c) | Raw::Model(c) | Raw::Assum(c) | Raw::Fail(c, _) => m(c),
            Raw::Units(u) => u.iter().map(|x| x.0.abs() as usize).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// The bytes of the steps, or those written until the writer failed.
pub fn encode(p: &[Raw]) -> Vec<u8> {
    let mut out = vec![];
    for s in p {
        match catch_unwind(AssertUnwindSafe(|| s.write(&mut out))) {
            Ok(Ok(())) => (),
            _ => break,
        }
    }
    out
}

/// Decode as far as possible; second value: "end", "eof" or "bad".
pub fn decode(bytes: &[u8]) -> (Vec<Raw>, &'static str) {
    let mut parser = binary_format::Parser::default();
    let mut src = BufReader::new(bytes);
    let mut out = vec![];
    loop {
        match catch_unwind(AssertUnwindSafe(|| parser.parse_step(&mut src).map(|s| Raw::from_step(&s)))) {
            Ok(Ok(s)) => {
                let e = s == Raw::End;
                out.push(s);
                if e {
                    return (out, "end");
                }
            }
            Ok(Err(e)) => {
                return (
                    out,
                    match e.downcast_ref::<io::Error>() {
                        Some(e) if e.kind() == io::ErrorKind::UnexpectedEof => "eof",
                        _ => "bad",
                    },
                )
            }
            Err(_) => return (out, "bad"),
        }
    }
}

/// Reader delivering chunks of varying size and optionally failing at an offset.
pub struct ChunkReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: usize,
    pub fail_at: Option<usize>,
    pub intr: usize,
    pub calls: usize,
}
impl<'a> Read for ChunkReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "intr"));
        }
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "injected read failure"));
            }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Default)]
pub struct CheckOut {
    /// ok, fail, incomplete, parse, io, proc, panic, load
    pub verdict: String,
    pub step: u64,
    pub msg: String,
    pub chk: Vec<String>,
    pub tr: Vec<String>,
    pub lrat_t: Vec<u8>,
    pub lrat_b: Vec<u8>,
}

pub struct CheckOpts {
    pub record: bool,
    pub chunk: usize,
    pub fail_at: Option<usize>,
    pub intr: usize,
    pub proc_fail: Option<usize>,
    pub lrat: bool,
}
impl Default for CheckOpts {
    fn default() -> CheckOpts {
        CheckOpts { record: true, chunk: 1 << 20, fail_at: None, intr: 0, proc_fail: None, lrat: false }
    }
}

pub fn check(f0: &[Vec<L>], bytes: &[u8], o: &CheckOpts) -> CheckOut {
    let mut out = CheckOut::default();
    let log: Rc<RefCell<StepLog>> = Default::default();
    let mut rec = Recorder {
        log: log.clone(),
        no: 0,
        fail_at: o.proc_fail,
        fail_once: false,
        count: 0,
        record: true,
    };
    let mut tr = TransRec::default();
    let mut lt: Vec<u8> = vec![];
    let mut lb: Vec<u8> = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut wt = WriteLrat::new(&mut lt, false);
        let mut wb = WriteLrat::new(&mut lb, true);
        let mut c = Checker::new();
        if o.record {
            c.add_processor(&mut rec);
            c.add_transcript(&mut tr);
        }
        if o.lrat {
            c.add_processor(&mut wt);
            c.add_processor(&mut wb);
        }
        let f = CnfFormula::from(f0.iter().map(|c| vlits(c)));
        match c.add_formula(&f) {
            Ok(()) => (),
            Err(e) => return ("load", 0, e.to_string()),
        }
        let rd = ChunkReader { data: bytes, pos: 0, chunk: o.chunk, fail_at: o.fail_at, intr: o.intr, calls: 0 };
        match c.check_proof(rd) {
            Ok(()) => ("ok", 0, String::new()),
            Err(e) => {
                let m = e.to_string();
                match e {
                    CheckerError::ProofIncomplete { step } => ("incomplete", step, m),
                    CheckerError::IoError { step, .. } => ("io", step, m),
                    CheckerError::ParseError { step, .. } => ("parse", step, m),
                    CheckerError::CheckFailed { step, .. } => ("fail", step, m),
                    CheckerError::ProofProcessorError { .. } => ("proc", 0, m),
                    _ => ("other", 0, m),
                }
            }
        }
    }));
    match res {
        Ok((k, s, m)) => {
            out.verdict = k.into();
            out.step = s;
            out.msg = m;
        }
        Err(e) => {
            out.verdict = "panic".into();
            out.msg = panic_class(e).1;
        }
    }
    out.chk = std::mem::replace(&mut log.borrow_mut().steps, vec![]);
    out.tr = tr.0;
    out.lrat_t = lt;
    out.lrat_b = lb;
    out
}

pub fn jbytes(b: &[u8]) -> String {
    jl(&b.iter().map(|&x| x as isize).collect::<Vec<_>>())
}
pub fn jraw(p: &[Raw]) -> String {
    format!("[{}]", p.iter().map(|s| s.json()).collect::<Vec<_>>().join(","))
}
pub fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect()
}

// --- random proofs -----------------------------------------------------------

/// Unit propagation helper of the generator (never used for judging).
pub struct Db {
    pub irr: Vec<Vec<L>>,
    pub red: Vec<Vec<L>>,
    pub bits: u32,
}
impl Db {
    pub fn hash(&self, c: &[L]) -> u64 {
        clause_hash(&vlits(c)) >> (64 - self.bits)
    }
    fn all(&self) -> impl Iterator<Item = &Vec<L>> {
        self.irr.iter().chain(self.red.iter())
    }
    /// propagate from the given true literals; hashes of the involved non-unit clauses in order
    pub fn propagate(&self, asg: &[L]) -> (Vec<L>, Vec<u64>, bool) {
        let mut a: Vec<L> = asg.to_vec();
        let mut h = vec![];
        for c in self.all() {
            if c.len() == 1 {
                if a.contains(&-c[0]) {
                    return (a, h, true);
                }
                if !a.contains(&c[0]) {
                    a.push(c[0]);
                }
            }
        }
        loop {
            let mut changed = false;
            for c in self.all() {
                if c.len() < 2 || c.iter().any(|l| a.contains(l)) {
                    continue;
                }
                let open: Vec<L> = c.iter().cloned().filter(|l| !a.contains(&-l)).collect();
                if open.is_empty() {
                    h.push(self.hash(c));
                    return (a, h, true);
                }
                if open.len() == 1 {
                    h.push(self.hash(c));
                    a.push(open[0]);
                    changed = true;
                }
            }
            if !changed {
                return (a, h, false);
            }
        }
    }
}

fn canon(c: &[L]) -> Vec<L> {
    let mut c = c.to_vec();
    c.sort_by_key(|l| (l.abs(), *l < 0));
    c.dedup();
    c
}

/// A random formula and a random, mostly valid proof about it.
pub fn random_proof(r: &mut Rng, clean: usize) -> (Vec<Vec<L>>, Vec<Raw>) {
    let nv = *r.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 5, 6]);
    let vars: Vec<usize> = (1..=nv).collect();
    let mut f0 = vec![];
    for _ in 0..r.range(0, 9) {
        let n = *r.pick(&[1, 2, 2, 2, 3, 3, 3, 4, 5]);
        f0.push(crate::gen::rand_clause(r, &vars, n));
    }
    if r.chance(1, 3) {
        f0.extend(crate::gen::structured(r, &vars));
    }
    if r.chance(1, 40) {
        f0.push(vec![]);
    }
    if r.chance(1, 4) && !f0.is_empty() {
        let k = r.below(f0.len());
        let c = f0[k].clone();
        f0.push(c);
    }
    let mut p = vec![];
    let mut db = Db { irr: f0.iter().map(|c| canon(c)).collect(), red: vec![], bits: 64 };
    for x in 1..=nv {
        if !r.chance(1, 60) {
            p.push(Raw::Svn(x, Some(x)));
        }
    }
    // explicit user names, as the solver emits them
    let named = r.chance(1, 2);
    if named {
        for x in 1..=nv {
            p.push(Raw::Uvn(x, Some(x)));
        }
    }
    let noise = |r: &mut Rng| !r.chance(clean, 100);
    // derived, derived, units, satisfied, redundant, simplified, model, assume, fail, add, bits, mode, hide, name
    let weights = *r.pick(&[
        [10, 4, 6, 5, 2, 3, 4, 4, 5, 4, 3, 2, 3, 3],
        [10, 4, 6, 5, 2, 3, 4, 4, 5, 4, 3, 2, 3, 3],
        [10, 6, 2, 8, 10, 12, 1, 0, 0, 8, 1, 0, 0, 0],
        [6, 2, 3, 1, 1, 1, 6, 10, 14, 4, 1, 0, 2, 1],
        [4, 2, 3, 3, 2, 1, 3, 5, 3, 6, 1, 8, 12, 10],
        [4, 4, 12, 8, 2, 1, 1, 1, 2, 6, 6, 1, 3, 1],
    ]);
    let len = *r.pick(&[4, 12, 12, 24]);
    let mut asm: Vec<L> = vec![];
    let mut hidden: Vec<usize> = vec![];
    for _ in 0..r.range(1, len) {
        let rc = |r: &mut Rng, vars: &[usize]| {
            let n = r.range(0, 4);
            canon(&crate::gen::rand_clause(r, vars, n))
        };
        match r.weighted(&weights) {
            // derived clause by propagation
            0 | 1 => {
                let mut c = if r.chance(1, 3) && !db.irr.is_empty() {
                    // a clause with a literal dropped, or a resolvent
                    let mut c = r.pick(&db.irr).clone();
                    if r.chance(1, 2) {
                        if !c.is_empty() {
                            let k = r.below(c.len());
                            c.remove(k);
                        }
                    } else {
                        let d = r.pick(&db.irr).clone();
                        if let Some(&l) = c.iter().find(|l| d.contains(&-**l)) {
                            c.retain(|&x| x != l);
                            c.extend(d.iter().cloned().filter(|&x| x != -l));
                        }
                    }
                    canon(&c)
                } else {
                    rc(r, &vars)
                };
                if r.chance(1, 12) && !c.is_empty() {
                    let l = c[0];
                    c.push(l);
                }
                let neg: Vec<L> = c.iter().map(|l| -l).collect();
                let (_, mut h, ok) = db.propagate(&neg);
                let red = r.chance(1, 2);
                if !ok && !noise(r) {
                    continue;
                }
                if ok && noise(r) && !h.is_empty() {
                    match r.below(3) {
                        0 => {
                            let k = r.below(h.len());
                            h.remove(k);
                        }
                        1 => {
                            let i = r.below(h.len());
                            let j = r.below(h.len());
                            h.swap(i, j)
                        }
                        _ => {
                            let k = r.below(h.len());
                            let d = rc(r, &vars);
                            h[k] = db.hash(&d)
                        }
                    }
                }
                if r.chance(1, 6) {
                    // unused hints
                    let all: Vec<u64> = db.irr.iter().filter(|c| c.len() > 1).map(|c| db.hash(c)).collect();
                    if !all.is_empty() {
                        let k = r.below(h.len() + 1);
                        let x = *r.pick(&all);
                        h.insert(k, x);
                    }
                }
                if ok || r.chance(1, 3) {
                    if red && c.len() > 1 {
                        db.red.push(canon(&c))
                    } else {
                        db.irr.push(canon(&c))
                    }
                }
                p.push(Raw::At(red, c, h));
            }
            // units
            2 => {
                let mut us = vec![];
                for _ in 0..r.range(1, 3) {
                    let (a, _, _) = db.propagate(&[]);
                    let mut cand = vec![];
                    for c in db.all() {
                        if c.len() < 2 || c.iter().any(|l| a.contains(l) && db.irr.contains(&vec![*l])) {
                            continue;
                        }
                        let open: Vec<L> = c.iter().cloned().filter(|l| !db.irr.contains(&vec![-*l])).collect();
                        if open.len() == 1 {
                            cand.push((open[0], db.hash(c)));
                        }
                    }
                    if !cand.is_empty() && !noise(r) {
                        let x = *r.pick(&cand);
                        db.irr.push(vec![x.0]);
                        us.push(x);
                    } else if noise(r) {
                        let x = *r.pick(&vars) as L;
                        let l = if r.chance(1, 2) { x } else { -x };
                        let h = if !db.irr.is_empty() {
                            let c = r.pick(&db.irr).clone();
                            db.hash(&c)
                        } else {
                            0
                        };
                        us.push((l, h));
                    }
                }
                if !us.is_empty() {
                    p.push(Raw::Units(us));
                }
            }
            // delete a clause, then one that only it subsumed
            3 if clean < 100 && r.chance(1, 4) => {
                let pool: Vec<Vec<L>> = db.irr.iter().filter(|c| c.len() > 2).cloned().collect();
                if pool.is_empty() {
                    continue;
                }
                let d = r.pick(&pool).clone();
                let mut c = d.clone();
                while c.len() > 2 && c.len() + 1 > d.len() || r.chance(1, 3) && c.len() > 2 {
                    let k = r.below(c.len());
                    c.remove(k);
                }
                let neg: Vec<L> = c.iter().map(|l| -l).collect();
                let (_, h, ok) = db.propagate(&neg);
                if !ok {
                    continue;
                }
                let again = r.chance(1, 2);
                if r.chance(1, 3) {
                    p.push(Raw::At(true, c.clone(), h.clone()));
                    db.red.push(c.clone());
                }
                p.push(Raw::At(false, c.clone(), h.clone()));
                match r.below(4) {
                    0 => p.push(Raw::Del(0, c.clone())),
                    1 => p.push(Raw::Del(1, c.clone())),
                    _ => {
                        // with a unit inside it is satisfied
                        let l = *r.pick(&c);
                        let (_, h, ok) = db.propagate(&[-l]);
                        if ok {
                            p.push(Raw::At(false, vec![l], h));
                            db.irr.push(vec![l]);
                            if r.chance(1, 2) {
                                // so that the clause is the last one derived
                                p.push(Raw::At(false, c.clone(), vec![]));
                            }
                        }
                        p.push(Raw::Del(2, c.clone()));
                    }
                }
                if again {
                    p.push(Raw::Del(r.below(3) as u8, c.clone()));
                }
                p.push(Raw::Del(if r.chance(3, 4) { 1 } else { 2 }, d));
            }
            // delete satisfied / redundant / simplified
            3 => {
                let sat: Vec<Vec<L>> = db
                    .irr
                    .iter()
                    .filter(|c| c.len() > 1 && (noise(r) || c.iter().any(|l| db.irr.contains(&vec![*l]))))
                    .cloned()
                    .collect();
                if !sat.is_empty() {
                    let c = r.pick(&sat).clone();
                    let k = db.irr.iter().position(|x| *x == c).unwrap();
                    db.irr.remove(k);
                    p.push(Raw::Del(2, c));
                }
            }
            4 => {
                let pool = if r.chance(1, 8) { db.irr.clone() } else { db.red.clone() };
                if !pool.is_empty() {
                    let c = r.pick(&pool).clone();
                    if let Some(k) = db.red.iter().position(|x| *x == c) {
                        db.red.remove(k);
                    }
                    p.push(Raw::Del(0, c));
                }
            }
            5 => {
                // strengthen then delete the original
                let pool: Vec<Vec<L>> = db.irr.iter().filter(|c| c.len() > 1).cloned().collect();
                if !pool.is_empty() {
                    let c = r.pick(&pool).clone();
                    let mut d = c.clone();
                    let k = r.below(d.len());
                    d.remove(k);
                    let neg: Vec<L> = d.iter().map(|l| -l).collect();
                    let (_, h, ok) = db.propagate(&neg);
                    if ok || noise(r) {
                        if !(noise(r) && r.chance(1, 2)) {
                            let red = noise(r) && r.chance(1, 2);
                            p.push(Raw::At(red, d.clone(), h));
                            db.irr.push(d);
                            if noise(r) && r.chance(1, 3) {
                                p.push(Raw::Svn(1, Some(1)));
                            }
                        }
                        let k = db.irr.iter().position(|x| *x == c).unwrap();
                        db.irr.remove(k);
                        let mut c = c;
                        if noise(r) && r.chance(1, 3) {
                            let x = rc(r, &vars);
                            c = x;
                        }
                        p.push(Raw::Del(1, c));
                    }
                }
            }
            6 => {
                // models
                let mut sols = vec![];
                for m in 0..1usize << nv {
                    let a: Vec<L> =
                        (0..nv).map(|i| if m >> i & 1 == 1 { i as L + 1 } else { -(i as L + 1) }).collect();
                    if db.all().all(|c| c.iter().any(|l| a.contains(l))) && asm.iter().all(|l| a.contains(l)) {
                        sols.push(a);
                    }
                }
                let mut a = if sols.is_empty() {
                    if !noise(r) {
                        continue;
                    }
                    (1..=nv as L).map(|x| if r.chance(1, 2) { x } else { -x }).collect()
                } else {
                    r.pick(&sols).clone()
                };
                if noise(r) {
                    let k = r.below(a.len());
                    match r.below(3) {
                        0 => a[k] = -a[k],
                        1 => {
                            a.remove(k);
                        }
                        _ => {
                            let l = a[k];
                            a.push(if r.chance(1, 2) { l } else { -l })
                        }
                    }
                }
                p.push(Raw::Model(a));
            }
            7 => {
                let ok: Vec<usize> =
                    vars.iter().cloned().filter(|x| noise(r) || !hidden.contains(x)).collect();
                asm = rc(r, &ok);
                p.push(Raw::Assum(asm.clone()));
            }
            8 => {
                let mut c: Vec<L> = asm.iter().cloned().filter(|_| r.chance(3, 4)).collect();
                if noise(r) {
                    let x = rc(r, &vars);
                    c.extend(x.iter().take(1));
                }
                let (_, h, ok) = db.propagate(&c);
                if ok || noise(r) {
                    p.push(Raw::Fail(c, h));
                }
            }
            9 => {
                let ok: Vec<usize> =
                    vars.iter().cloned().filter(|x| noise(r) || !hidden.contains(x)).collect();
                let n = r.range(0, 4);
                let c = crate::gen::rand_clause(r, &ok, n);
                db.irr.push(canon(&c));
                p.push(Raw::Addc(c));
            }
            10 => {
                db.bits = *r.pick(&[1, 2, 3, 4, 6, 8, 16, 32, 63, 64]);
                p.push(Raw::Hb(if r.chance(1, 30) { *r.pick(&[0, 65, 100]) } else { db.bits }));
            }
            11 => {
                let x = *r.pick(&vars);
                p.push(Raw::Csm(x, r.chance(1, 2)));
            }
            12 => {
                let x = *r.pick(&vars);
                if hidden.contains(&x) {
                    if r.chance(1, 2) {
                        p.push(Raw::Dv(x));
                    } else {
                        p.push(Raw::Csm(x, false));
                        let u = if r.chance(1, 3) { *r.pick(&vars) } else { x };
                        p.push(Raw::Uvn(x, Some(u)));
                    }
                } else if noise(r) && r.chance(1, 3) {
                    p.push(Raw::Dv(x));
                } else if named || noise(r) {
                    hidden.push(x);
                    p.push(Raw::Uvn(x, None));
                    if r.chance(1, 3) {
                        p.push(Raw::Dv(x));
                    }
                }
            }
            _ => {
                let x = r.range(1, nv + 1);
                let u = r.range(1, nv + 1);
                if noise(r) {
                    p.push(Raw::Uvn(x, if r.chance(1, 4) { None } else { Some(u) }));
                }
            }
        }
    }
    p.push(Raw::End);
    (f0, p)
}

/// Damage a proof.
pub fn mutate(r: &mut Rng, p: &[Raw]) -> Vec<Raw> {
    let mut q = p.to_vec();
    for _ in 0..r.range(1, 2) {
        if q.len() < 2 {
            break;
        }
        let i = r.below(q.len() - 1);
        match r.below(6) {
            0 => {
                q.remove(i);
            }
            1 => {
                let s = q[i].clone();
                q.insert(i, s)
            }
            2 => {
                let j = r.below(q.len() - 1);
                q.swap(i, j)
            }
            _ => {
                let tweak = |r: &mut Rng, c: &mut Vec<L>| {
                    if c.is_empty() {
                        return;
                    }
                    let k = r.below(c.len());
                    match r.below(4) {
                        0 => {
                            c.remove(k);
                        }
                        1 => c[k] = -c[k],
                        2 => {
                            let l = c[k];
                            c.push(l)
                        }
                        _ => {
                            let l = c[k];
                            c.push(-l)
                        }
                    }
                };
                match &mut q[i] {
                    Raw::At(red, c, h) => match r.below(4) {
                        0 => *red = !*red,
                        1 if !h.is_empty() => {
                            let k = r.below(h.len());
                            h.remove(k);
                        }
                        _ => tweak(r, c),
                    },
                    Raw::Del(k, c) => match r.below(2) {
                        0 => *k = r.below(3) as u8,
                        _ => tweak(r, c),
                    },
                    Raw::Addc(c) | Raw::Model(c) | Raw::Assum(c) => tweak(r, c),
                    Raw::Fail(c, h) => match r.below(3) {
                        0 if !h.is_empty() => {
                            let k = r.below(h.len());
                            h.remove(k);
                        }
                        _ => tweak(r, c),
                    },
                    Raw::Units(u) => {
                        if !u.is_empty() {
                            let k = r.below(u.len());
                            match r.below(3) {
                                0 => u[k].0 = -u[k].0,
                                1 => {
                                    u.remove(k);
                                }
                                _ => u[k].1 ^= 1,
                            }
                        }
                    }
                    Raw::Csm(_, s) => *s = !*s,
                    Raw::Uvn(g, u) => match r.below(2) {
                        0 => *g = r.range(1, 5),
                        _ => *u = Some(r.range(1, 5)),
                    },
                    Raw::Hb(b) => *b = r.range(1, 64) as u32,
                    _ => (),
                }
            }
        }
    }
    q
}

