//! Random history generators ("profiles").
use crate::ops::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Prof {
    pub nv: (usize, usize),
    pub steps: (usize, usize),
    /// weights: newvar,newvars,add,addf,dimacs,assume,solve,hide,witness,sample,observe,config
    pub w: [usize; 12],
    /// probability (in 1/1000) of ignoring the mode rules when choosing variables
    pub illegal: usize,
    /// clause length weights for 0..=7
    pub len: [usize; 8],
    /// probability of starting with a near-threshold random k-SAT formula (1/100)
    pub thresh: usize,
    /// set-up operations to start with
    pub setup: &'static str,
    /// max assumption count
    pub asm: usize,
    /// single shot: one solve, no incremental calls
    pub single: bool,
    /// variables are hidden or observed only after the first solve
    pub late_hide: bool,
    /// spread the variables over a wider range (factor, offset limit)
    pub spread: (usize, usize),
}

pub fn profile(name: &str) -> Prof {
    let base = Prof {
        nv: (1, 6),
        steps: (3, 14),
        w: [2, 1, 14, 4, 2, 8, 14, 0, 0, 0, 0, 1],
        illegal: 0,
        len: [1, 14, 30, 30, 12, 6, 2, 2],
        thresh: 40,
        setup: "",
        asm: 4,
        single: false,
        late_hide: false,
        spread: (1, 0),
    };
    match name {
        "api" => base,
        "apiwide" => Prof { nv: (5, 9), steps: (3, 10), thresh: 80, asm: 6, ..base },
        "modes" => Prof {
            nv: (2, 5),
            steps: (6, 18),
            w: [3, 1, 14, 3, 1, 6, 14, 9, 4, 4, 2, 0],
            illegal: 15,
            thresh: 30,
            ..base
        },
        "rules" => Prof {
            nv: (1, 4),
            steps: (5, 16),
            w: [2, 1, 8, 2, 1, 10, 12, 6, 10, 8, 2, 0],
            illegal: 120,
            thresh: 10,
            ..base
        },
        "config" => Prof {
            nv: (3, 7),
            w: [1, 1, 10, 6, 1, 6, 14, 0, 0, 0, 0, 14],
            thresh: 90,
            ..base
        },
        "observe" => Prof {
            nv: (2, 5),
            steps: (6, 18),
            w: [2, 0, 14, 3, 0, 5, 14, 9, 2, 1, 9, 0],
            illegal: 5,
            thresh: 30,
            ..base
        },
        // solver variables that are removed by simplification and recycled
        "recycle" => Prof {
            nv: (4, 7),
            steps: (4, 14),
            setup: "add -1|solve|assume 1|solve|assume |add 2|solve|hide 1",
            w: [2, 1, 10, 8, 0, 7, 14, 2, 0, 0, 0, 0],
            thresh: 95,
            ..base
        },
        // sessions whose proof is recorded: hiding only after the first solve
        // many variables, many conflicts, aggressive clause database reductions and restarts
        "big" => Prof { nv: (15, 45), steps: (2, 8), thresh: 100, w: [0, 1, 6, 3, 0, 6, 12, 0, 0, 0, 0, 1],
            len: [0, 3, 10, 40, 20, 10, 5, 3], asm: 8, ..base },
        "bigone" => Prof { nv: (15, 40), steps: (2, 4), thresh: 100, single: true, w: [0, 1, 6, 3, 0, 0, 0, 0, 0, 0, 0, 1],
            len: [0, 3, 10, 40, 20, 10, 5, 3], asm: 0, ..base },
        "bigmodes" => Prof { nv: (12, 30), steps: (4, 12), thresh: 100, w: [1, 1, 6, 3, 0, 6, 12, 5, 1, 1, 0, 1],
            len: [0, 3, 10, 40, 20, 10, 5, 3], asm: 8, ..base },
        "setup" => Prof { nv: (1, 4), steps: (2, 8), w: [2, 1, 10, 4, 1, 6, 12, 0, 0, 0, 0, 0], thresh: 20, ..base },
        "setupone" => Prof { nv: (1, 5), steps: (2, 5), single: true, w: [2, 1, 10, 4, 1, 1, 6, 0, 0, 0, 0, 0], thresh: 40, ..base },
        // few variables with large, gappy names
        "sparse" => Prof { nv: (2, 8), steps: (3, 14), w: [1, 0, 12, 4, 1, 6, 12, 3, 1, 1, 1, 1], thresh: 60, spread: (50, 70), ..base },
        "psparse" => Prof { nv: (2, 8), steps: (2, 10), w: [1, 0, 12, 4, 1, 6, 12, 3, 1, 1, 1, 1], thresh: 70, late_hide: true,
            spread: (50, 70), ..base },
        "papi" => Prof { steps: (3, 16), w: [1, 0, 14, 4, 1, 8, 14, 0, 0, 0, 0, 1], ..base },
        "pwide" => Prof { nv: (5, 8), steps: (2, 8), thresh: 95, w: [0, 0, 10, 4, 0, 6, 14, 0, 0, 0, 0, 4], ..base },
        "psingle" => Prof { nv: (2, 8), steps: (1, 5), thresh: 90, single: true, w: [1, 1, 14, 6, 1, 0, 0, 0, 0, 0, 0, 2], ..base },
        "pmodes" => Prof {
            nv: (2, 5),
            steps: (6, 20),
            w: [3, 1, 14, 3, 1, 6, 16, 7, 4, 4, 2, 0],
            thresh: 40,
            late_hide: true,
            ..base
        },
        _ => panic!("unknown profile {}", name),
    }
}

/// A history with one to three processors attached, perhaps self checking and writing a proof.
pub fn session(r: &mut Rng, p: &Prof) -> Script {
    let mut pre: Script = vec![Op::Processor(String::new())];
    for _ in 0..*r.pick(&[0, 0, 1, 2]) {
        pre.push(Op::Processor(String::new()));
    }
    if r.chance(1, 3) {
        pre.insert(r.below(pre.len() + 1), Op::SelfCheck);
    }
    match r.below(6) {
        0 => pre.insert(0, Op::Proof("varisat".into())),
        1 => pre.push(Op::Proof("varisat short=3 intr=2".into())),
        _ => (),
    }
    let mut h = history(r, p);
    if p.nv.1 > 10 {
        // reductions and restarts early and often
        h.insert(0, Op::Config(format!("rl={},rm={},lu={}", r.pick(&[1, 2, 5, 20, 100]), r.pick(&[1, 2, 5, 20, 100]), r.pick(&[1, 2, 5, 20]))));
    }
    if r.chance(1, 12) {
        h.push(Op::Close);
        h.push(Op::Solve);
    }
    pre.extend(h);
    pre
}

/// A history with proofs, processors and self checking asked for at any point, in any format.
pub fn setup_session(r: &mut Rng, p: &Prof) -> Script {
    let mut h = history(r, p);
    for _ in 0..r.range(1, 4) {
        let op = match r.below(6) {
            0 => Op::Processor("rec=0".into()),
            1 => Op::SelfCheck,
            2 => Op::Close,
            3 => Op::Proof("varisat".into()),
            4 => Op::Proof("drat".into()),
            _ => Op::Proof("bdrat".into()),
        };
        let at = if r.chance(1, 2) { 0 } else { r.below(h.len() + 1) };
        h.insert(at, op);
    }
    h
}

/// A history writing a native proof; closed explicitly or by dropping the solver.
pub fn proof_session(r: &mut Rng, p: &Prof) -> Script {
    let mut pre: Script = vec![];
    pre.push(Op::Proof(match r.below(4) {
        0 => "varisat short=5 intr=3".into(),
        _ => "varisat".into(),
    }));
    if r.chance(1, 5) {
        pre.insert(r.below(2), Op::Processor("rec=0".into()));
    }
    if r.chance(1, 6) {
        pre.insert(r.below(2), Op::SelfCheck);
    }
    pre.extend(history(r, p));
    if r.chance(3, 4) {
        pre.push(Op::Close);
    }
    pre
}

pub fn rand_clause(r: &mut Rng, vars: &[usize], len: usize) -> Vec<L> {
    if vars.is_empty() {
        return vec![];
    }
    let mut c = vec![];
    for _ in 0..len {
        let v = *r.pick(vars) as L;
        c.push(if r.chance(1, 2) { v } else { -v });
    }
    // mostly distinct variables; duplicates and tautologies survive sometimes
    if !r.chance(1, 10) {
        let mut seen = std::collections::HashSet::new();
        c.retain(|l| seen.insert(l.abs()));
    }
    c
}

/// random k-SAT around the threshold on the given variables
pub fn ksat(r: &mut Rng, vars: &[usize]) -> Vec<Vec<L>> {
    let k = if vars.len() < 3 { 2 } else { *r.pick(&[2, 3, 3, 3, 3, 4]) };
    let ratio = match k {
        2 => 100,
        3 => 430,
        _ => 970,
    };
    let m = vars.len() * ratio * r.range(60, 130) / 10000 + 1;
    (0..m)
        .map(|_| {
            let mut vs: Vec<usize> = vars.to_vec();
            r.shuffle(&mut vs);
            vs.truncate(k);
            vs.iter().map(|&v| if r.chance(1, 2) { v as L } else { -(v as L) }).collect()
        })
        .collect()
}

/// pigeons, or parity constraints on a cycle with chords: few variables, many conflicts
fn hard(r: &mut Rng, vs: &[usize]) -> Vec<Vec<L>> {
    let mut f: Vec<Vec<L>> = vec![];
    if r.chance(1, 2) {
        let mut h = 3;
        while (h + 1) * (h + 2) <= vs.len() && h < 5 {
            h += 1;
        }
        let p = if (h + 1) * h <= vs.len() && r.chance(3, 4) { h + 1 } else { h };
        let x = |i: usize, j: usize| vs[i * h + j] as L;
        for i in 0..p {
            f.push((0..h).map(|j| x(i, j)).collect());
        }
        for j in 0..h {
            for i in 0..p {
                for k in 0..i {
                    f.push(vec![-x(i, j), -x(k, j)]);
                }
            }
        }
    } else {
        let n = vs.len();
        for _ in 0..n * r.range(70, 115) / 100 {
            let mut w = vs.to_vec();
            r.shuffle(&mut w);
            let par = r.below(2);
            for p in 0..8usize {
                if (p.count_ones() as usize) % 2 == par {
                    f.push((0..3).map(|i| if p >> i & 1 == 1 { w[i] as L } else { -(w[i] as L) }).collect());
                }
            }
        }
    }
    r.shuffle(&mut f);
    f
}

/// structured unsatisfiable or nearly unsatisfiable cores
pub fn structured(r: &mut Rng, vars: &[usize]) -> Vec<Vec<L>> {
    if vars.is_empty() {
        return vec![];
    }
    let mut vs = vars.to_vec();
    r.shuffle(&mut vs);
    let s = |r: &mut Rng, v: usize| if r.chance(1, 2) { v as L } else { -(v as L) };
    if vs.len() >= 12 && r.chance(2, 3) {
        return hard(r, &vs);
    }
    let mut f: Vec<Vec<L>> = match r.below(3) {
        // all sign patterns over k variables (minus a few)
        0 => {
            let k = vs.len().min(r.range(2, 5));
            let drop = r.below(3);
            let mut f: Vec<Vec<L>> = (0..1usize << k)
                .map(|p| (0..k).map(|i| if p >> i & 1 == 1 { vs[i] as L } else { -(vs[i] as L) }).collect())
                .collect();
            r.shuffle(&mut f);
            for _ in 0..drop {
                f.pop();
            }
            f
        }
        // implication chain / cycle
        1 => {
            let ls: Vec<L> = vs.iter().map(|&v| s(r, v)).collect();
            let mut f = vec![];
            for i in 0..ls.len().saturating_sub(1) {
                f.push(vec![-ls[i], ls[i + 1]]);
            }
            if ls.len() > 1 && r.chance(1, 2) {
                f.push(vec![-ls[ls.len() - 1], ls[0]]);
            }
            if r.chance(1, 3) {
                f.push(vec![ls[0]]);
            }
            f
        }
        // xor constraints
        _ => {
            let mut f = vec![];
            for _ in 0..r.range(1, vs.len().max(1)) {
                let k = r.range(2, 3).min(vs.len());
                r.shuffle(&mut vs);
                let par = r.below(2);
                for p in 0..1usize << k {
                    if (p.count_ones() as usize) % 2 == par {
                        f.push((0..k).map(|i| if p >> i & 1 == 1 { vs[i] as L } else { -(vs[i] as L) }).collect());
                    }
                }
            }
            f
        }
    };
    if r.chance(1, 2) {
        r.shuffle(&mut f);
    }
    f
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Absent,
    S,
    W,
}

/// Renames variable v to k * (v - 1) + 1 + off.
pub fn spread(s: &mut Script, k: usize, off: usize) {
    let v = |x: usize| if x == 0 { 0 } else { k * (x - 1) + 1 + off };
    let l = |x: &mut L| *x = x.signum() * v(x.abs() as usize) as L;
    for o in s.iter_mut() {
        match o {
            Op::Add(c) | Op::Assume(c) => c.iter_mut().for_each(l),
            Op::AddF(f) | Op::Dimacs(f) => f.iter_mut().for_each(|c| c.iter_mut().for_each(l)),
            Op::Hide(x) | Op::Witness(x) | Op::Sample(x) => *x = v(*x),
            _ => (),
        }
    }
}

pub fn history(r: &mut Rng, p: &Prof) -> Script {
    let mut out = history_(r, p);
    if p.spread.0 > 1 {
        let (k, off) = (r.range(1, p.spread.0), r.below(p.spread.1 + 1));
        spread(&mut out, k, off);
    }
    out
}

fn history_(r: &mut Rng, p: &Prof) -> Script {
    let mut out = parse_script(p.setup);
    let nv = r.range(p.nv.0, p.nv.1);
    let mut mode = vec![Mode::Absent; nv + 1];
    let mut asm: Vec<usize> = vec![];
    let steps = r.range(p.steps.0, p.steps.1);
    let mut pending = r.chance(p.thresh, 100);
    if r.chance(1, 3) {
        let k = r.range(1, nv);
        out.push(Op::NewVars(k));
        for m in mode.iter_mut().skip(1).take(k) {
            *m = Mode::S;
        }
    }
    for step in 0..steps {
        let ill = r.chance(p.illegal, 1000);
        // variables that may be constrained
        let cand: Vec<usize> = (1..=nv).filter(|&v| ill || mode[v] != Mode::W).collect();
        if pending {
            pending = false;
            let f = if r.chance(1, 2) { ksat(r, &cand) } else { structured(r, &cand) };
            if !cand.is_empty() {
                for c in &f {
                    for l in c {
                        if mode[l.abs() as usize] == Mode::Absent {
                            mode[l.abs() as usize] = Mode::S;
                        }
                    }
                }
                out.push(Op::AddF(f));
            }
            continue;
        }
        let mut wi = r.weighted(&p.w);
        if step + 1 == steps {
            wi = 6;
        }
        if p.late_hide && wi >= 7 && wi <= 10 && !out.contains(&Op::Solve) {
            wi = 6;
        }
        match wi {
            0 => out.push(Op::NewVar),
            1 => out.push(Op::NewVars(r.range(0, 2))),
            2 => {
                let n = r.weighted(&p.len);
                out.push(Op::Add(rand_clause(r, &cand, n)))
            }
            3 | 4 => {
                let k = r.weighted(&[1, 3, 4, 3, 2, 2]);
                let f: Vec<Vec<L>> = if r.chance(1, 6) {
                    structured(r, &cand)
                } else {
                    (0..k)
                        .map(|_| {
                            let n = r.weighted(&p.len);
                            rand_clause(r, &cand, n)
                        })
                        .collect()
                };
                let f = if cand.is_empty() { vec![] } else { f };
                out.push(if wi == 3 { Op::AddF(f) } else { Op::Dimacs(f) })
            }
            5 => {
                let n = r.below(p.asm + 1);
                let mut c = rand_clause(r, &cand, n);
                if !r.chance(1, 8) {
                    let mut seen = std::collections::HashSet::new();
                    c.retain(|l| seen.insert(l.abs()));
                }
                if r.chance(1, 5) {
                    c.clear();
                }
                asm = c.iter().map(|l| l.abs() as usize).collect();
                out.push(Op::Assume(c));
            }
            6 => out.push(Op::Solve),
            7 | 8 | 9 => {
                let vs: Vec<usize> = (1..=nv).filter(|v| ill || !asm.contains(v)).collect();
                if vs.is_empty() {
                    continue;
                }
                let v = *r.pick(&vs);
                match wi {
                    7 => {
                        mode[v] = Mode::Absent;
                        out.push(Op::Hide(v))
                    }
                    8 => {
                        mode[v] = Mode::W;
                        out.push(Op::Witness(v))
                    }
                    _ => {
                        mode[v] = Mode::S;
                        out.push(Op::Sample(v))
                    }
                }
            }
            10 => {
                out.push(Op::Observe);
                // observed variables take hidden indices, possibly any
                for m in mode.iter_mut().skip(1) {
                    if *m == Mode::Absent {
                        *m = Mode::W;
                    }
                }
            }
            _ => out.push(Op::Config(config(r, 6))),
        }
        // mark mentioned variables as present
        let touched: Vec<usize> = match out.last() {
            Some(Op::Add(c)) | Some(Op::Assume(c)) => c.iter().map(|l| l.abs() as usize).collect(),
            Some(Op::AddF(f)) | Some(Op::Dimacs(f)) => {
                f.iter().flat_map(|c| c.iter().map(|l| l.abs() as usize)).collect()
            }
            _ => vec![],
        };
        if let Some(&mx) = touched.iter().max() {
            for v in 1..=mx {
                if mode[v] == Mode::Absent && (touched.contains(&v)) {
                    mode[v] = Mode::S;
                }
            }
        }
    }
    out
}

pub fn config(r: &mut Rng, bad_in: usize) -> String {
    let mut parts = vec![];
    let bad = r.chance(1, bad_in);
    for k in ["vd", "cd", "rl", "rm", "lu"].iter() {
        if !r.chance(1, 2) {
            continue;
        }
        let v = match *k {
            "vd" | "cd" => {
                if bad && r.chance(1, 2) {
                    *r.pick(&[0, 1, 250, 499, 1000, 1001, 2000])
                } else {
                    *r.pick(&[500, 501, 600, 800, 950, 990, 999])
                }
            }
            _ => {
                if bad && r.chance(1, 2) {
                    0
                } else {
                    *r.pick(&[1, 2, 3, 5, 10, 50, 150, 10000])
                }
            }
        };
        parts.push(format!("{}={}", k, v));
    }
    r.shuffle(&mut parts);
    parts.join(",")
}
