//! Single-shot runs and the proof files they leave in every format.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use varisat::{CnfFormula, ExtendFormula, Solver, Var};
use varisat_lrat::WriteLrat;

use crate::gen;
use crate::ops::*;
use crate::proof::{check, jbytes, CheckOpts};
use crate::rng::Rng;
use crate::run::{self, jcls, vlits, Sink, SinkData, SinkSpec};

/// adding, configuring, one solve
pub fn script(r: &mut Rng, profile: &str) -> Script {
    let mut p = gen::profile(profile);
    if profile == "psingle" {
        p.nv = (1, 14);
        p.steps = (1, 7);
    }
    let mut h: Script = gen::history(r, &p);
    h.retain(|o| matches!(o, Op::NewVar | Op::NewVars(_) | Op::Add(_) | Op::AddF(_) | Op::Dimacs(_) | Op::Solve | Op::Config(_)));
    if h.last() != Some(&Op::Solve) {
        h.push(Op::Solve);
    }
    if p.nv.1 > 20 {
        h.insert(0, Op::Config(format!("rl={},rm={},lu={}", r.pick(&[1, 2, 5, 20]), r.pick(&[1, 2, 5, 20]), r.pick(&[1, 2, 5, 20]))));
    }
    // repeat, permute or blow up clauses: duplicates and tautologies are part of the input numbering
    for o in h.iter_mut() {
        if let Op::AddF(f) = o {
            for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
                if f.is_empty() {
                    break;
                }
                let mut c = r.pick(f).clone();
                r.shuffle(&mut c);
                if !c.is_empty() && r.chance(1, 2) {
                    let l = *r.pick(&c);
                    c.push(if r.chance(1, 2) { l } else { -l });
                }
                let at = r.below(f.len() + 1);
                f.insert(at, c);
            }
        }
    }
    // some variables are hidden or only observed when the search starts
    if r.chance(1, 3) {
        let mut vs: Vec<usize> = h
            .iter()
            .flat_map(|o| match o {
                Op::Add(c) => vec![c.clone()],
                Op::AddF(f) | Op::Dimacs(f) => f.clone(),
                _ => vec![],
            })
            .flatten()
            .map(|l| l.abs() as usize)
            .collect();
        vs.sort();
        vs.dedup();
        r.shuffle(&mut vs);
        let at = h.iter().position(|o| *o == Op::Solve).unwrap();
        let late = h[at..].iter().any(|o| matches!(o, Op::Add(_) | Op::AddF(_) | Op::Dimacs(_)));
        if !late {
            vs.truncate(1 + r.below(vs.len() + 1));
            for v in vs {
                h.insert(at, match r.below(4) {
                    0 => Op::Witness(v),
                    1 => Op::Sample(v),
                    _ => Op::Hide(v),
                });
            }
        }
    }
    // wide literals in every encoding
    if r.chance(1, 5) {
        let k = if r.chance(1, 40) { 8000 } else { *r.pick(&[5, 9, 9, 60, 60, 300, 700, 1500]) };
        gen::spread(&mut h, k, r.below(2 * k));
    }
    h
}

struct Res {
    r: String,
    by: Vec<u8>,
    f0: Vec<Vec<L>>,
}

fn plain(s: &[Op], fmt: Option<&str>) -> Res {
    let mut s2: Script = vec![];
    if let Some(f) = fmt {
        s2.push(Op::Proof(f.into()));
    }
    s2.extend(s.iter().cloned());
    if fmt.is_some() && s.len() % 2 == 0 {
        s2.push(Op::Close);
    }
    let out = run::run(&s2);
    let mut f0 = vec![];
    let mut r = String::from("none");
    for e in &out.evs {
        f0.extend(e.clss.iter().cloned());
        if e.op == "solve" {
            r = e.r.clone();
        } else if e.r.starts_with("panic") || e.r.starts_with("err:") {
            r = e.r.clone();
        }
    }
    Res { r, by: out.proof, f0 }
}

/// LRAT written while solving
fn live(s: &[Op]) -> (String, Vec<u8>, Vec<u8>) {
    let (a, b): (Rc<RefCell<SinkData>>, Rc<RefCell<SinkData>>) = Default::default();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let spec = SinkSpec { short: Some(3), ..Default::default() };
        let mut wt = WriteLrat::new(Sink { spec: spec.clone(), data: a.clone() }, false);
        let mut wb = WriteLrat::new(Sink { spec, data: b.clone() }, true);
        let r;
        {
            let mut v = Solver::new();
            v.add_proof_processor(&mut wt);
            v.add_proof_processor(&mut wb);
            let mut ans = None;
            for o in s {
                match o {
                    Op::NewVar => {
                        v.new_var();
                    }
                    Op::NewVars(k) => {
                        for _ in 0..*k {
                            v.new_var();
                        }
                    }
                    Op::Add(c) => v.add_clause(&vlits(c)),
                    Op::AddF(f) | Op::Dimacs(f) => v.add_formula(&CnfFormula::from(f.iter().map(|c| vlits(c)))),
                    Op::Config(c) => {
                        let _ = v.config(&run::config_update(c));
                    }
                    Op::Hide(x) => v.hide_var(Var::from_dimacs(*x as isize)),
                    Op::Witness(x) => v.witness_var(Var::from_dimacs(*x as isize)),
                    Op::Sample(x) => v.sample_var(Var::from_dimacs(*x as isize)),
                    Op::Solve => ans = Some(v.solve()),
                    _ => (),
                }
            }
            r = match ans {
                Some(Ok(true)) => "T",
                Some(Ok(false)) => "F",
                Some(Err(_)) => "err",
                None => "none",
            };
            if s.len() % 2 == 0 {
                v.close_proof().unwrap();
            }
        }
        if s.len() % 3 == 0 {
            wt.flush().unwrap();
            wb.flush().unwrap();
        }
        r.to_string()
    }));
    let r = res.unwrap_or_else(|e| run::panic_class(e).0);
    let t = (a.borrow().bytes.clone(), b.borrow().bytes.clone());
    (r, t.0, t.1)
}

pub fn one(s: &[Op]) -> String {
    let base = plain(s, None);
    let dt = plain(s, Some("drat"));
    let db = plain(s, Some("bdrat short=2 intr=5"));
    let na = plain(s, Some("varisat"));
    let (lr, lt, lb) = live(s);
    let c = check(&base.f0, &na.by, &CheckOpts { lrat: true, chunk: 97, ..Default::default() });
    let nv = s
        .iter()
        .map(|o| match o {
            Op::Add(c) => c.iter().map(|l| l.abs()).max().unwrap_or(0),
            Op::AddF(f) | Op::Dimacs(f) => f.iter().flat_map(|c| c.iter().map(|l| l.abs())).max().unwrap_or(0),
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    format!(
        "{{\"f0\":{},\"nv\":{},\"r\":\"{}\",\"rs\":[\"{}\",\"{}\",\"{}\",\"{}\"],\"dt\":{},\"db\":{},\"lt\":{},\"lb\":{},\"st\":{},\"sb\":{},\"sk\":\"{}\"}}",
        jcls(&base.f0), nv, base.r, dt.r, db.r, na.r, lr,
        jbytes(&dt.by), jbytes(&db.by), jbytes(&lt), jbytes(&lb), jbytes(&c.lrat_t), jbytes(&c.lrat_b), c.verdict
    )
}

pub fn files(scripts: &[Script]) -> Vec<String> {
    scripts.iter().map(|s| one(s)).collect()
}
