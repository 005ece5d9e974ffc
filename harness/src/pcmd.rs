//! Commands about native proofs: the checker on arbitrary proofs, and the encoding.
use std::io::BufReader;
use std::panic::{catch_unwind, AssertUnwindSafe};

use varisat_formula::Var;
use varisat_internal_proof::{binary_format, clause_hash};

use crate::gen;
use crate::ops::*;
use crate::proof::*;
use crate::rng::Rng;
use crate::run::{self, jcls, jl};
use crate::write_lines;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[derive(Clone)]
pub struct Case {
    pub f0: Vec<Vec<L>>,
    pub by: Vec<u8>,
    pub rf: bool,
    pub chunk: usize,
    /// written by the solver: has to be accepted
    pub must: bool,
}

/// The clauses that the hints of the given step name; None if this cannot be told.
fn hints_at(f0: &[Vec<L>], p: &[Raw], step: usize) -> Option<Vec<Vec<L>>> {
    use std::collections::{BTreeSet, HashMap};
    if step == 0 || step > p.len() {
        return None;
    }
    let hs: Vec<u64> = match &p[step - 1] {
        Raw::At(_, _, h) | Raw::Fail(_, h) => h.clone(),
        Raw::Units(u) => u.iter().map(|x| x.1).collect(),
        _ => return Some(vec![]),
    };
    let mut names: HashMap<usize, usize> = HashMap::new();
    let mut bits = 64;
    let mut known: BTreeSet<Vec<L>> = BTreeSet::new();
    let canon = |c: &Vec<L>| c.iter().cloned().collect::<BTreeSet<L>>().into_iter().collect::<Vec<L>>();
    known.extend(f0.iter().map(canon));
    for s in &p[..step - 1] {
        match s {
            Raw::Svn(_, None) => return None,
            Raw::Svn(g, Some(x)) => {
                if names.values().any(|y| y == x) || names.insert(*g, *x).is_some() {
                    return None;
                }
            }
            Raw::Hb(b) => bits = *b,
            Raw::Addc(c) | Raw::At(_, c, _) => {
                known.insert(canon(c));
            }
            _ => (),
        }
    }
    if bits < 1 || bits > 64 {
        return None;
    }
    let mut by_hash: HashMap<u64, Vec<Vec<L>>> = HashMap::new();
    for c in known {
        if c.len() < 2 || c.iter().any(|l| c.contains(&-l)) {
            continue;
        }
        let mut m = vec![];
        for l in &c {
            let n = *names.get(&(l.abs() as usize))? as L;
            m.push(if *l > 0 { n } else { -n });
        }
        by_hash.entry(clause_hash(&run::vlits(&m)) >> (64 - bits)).or_insert(vec![]).push(c);
    }
    let mut out = vec![];
    for h in hs {
        match by_hash.get(&h) {
            Some(c) if c.len() == 1 => out.push(c[0].clone()),
            Some(_) => return None,
            // names nothing: never usable
            None => out.push(vec![]),
        }
    }
    Some(out)
}

impl Case {
    fn show(&self) -> String {
        format!("{} # {} # {} # {} # {}", showc(&self.f0), hex(&self.by), self.rf as u8, self.chunk, self.must as u8)
    }
    fn parse(s: &str) -> Case {
        let p: Vec<&str> = s.split('#').map(|x| x.trim()).collect();
        Case { f0: cls(p[0]), by: unhex(p[1]), rf: p[2] == "1", chunk: p[3].parse().unwrap(), must: p.get(4) == Some(&"1") }
    }
    fn run(&self) -> String {
        let fail_at = if self.rf { Some(self.by.len()) } else { None };
        let o = CheckOpts { chunk: self.chunk, fail_at, ..Default::default() };
        let out = check(&self.f0, &self.by, &o);
        let plain = check(&self.f0, &self.by, &CheckOpts { record: false, chunk: self.chunk, fail_at, ..Default::default() });
        let hints = if out.verdict == "fail" { hints_at(&self.f0, &decode(&self.by).0, out.step as usize) } else { None };
        format!(
            "{{\"must\":{},\"hk\":{},\"hh\":{},\"f0\":{},\"by\":{},\"rf\":{},\"vk\":\"{}\",\"vs\":{},\"plain\":\"{}\",\"msg\":\"{}\",\"chk\":[{}],\"tr\":[{}]}}",
            self.must as u8,
            hints.is_some() as u8,
            jcls(&hints.unwrap_or(vec![])),
            jcls(&self.f0),
            jbytes(&self.by),
            self.rf as u8,
            out.verdict,
            out.step,
            plain.verdict,
            esc(&out.msg),
            out.chk.join(","),
            out.tr.join(",")
        )
    }
}

/// Formula and native proof of a random session of the real solver.
pub fn session_proof(r: &mut Rng) -> (Vec<Vec<L>>, Vec<u8>) {
    loop {
        let pn = *r.pick(&["papi", "papi", "pmodes", "psingle", "pwide"]);
        let p = gen::profile(pn);
        let mut s = vec![Op::Proof("varisat".into())];
        s.extend(gen::history(r, &p));
        let out = run::run(&s);
        if out.evs.iter().any(|e| e.r.starts_with("panic") || e.ob != "ok") {
            continue;
        }
        let mut f0 = vec![];
        for e in &out.evs {
            if e.op == "solve" {
                break;
            }
            f0.extend(e.clss.iter().cloned());
        }
        return (f0, out.proof);
    }
}

/// Events of the sessions, the proof's formula and what a fresh checker reports about the proof.
pub fn prf(scripts: &[Script]) -> Vec<String> {
    scripts
        .iter()
        .map(|s| judged(&run::run(s)))
        .collect()
}

fn judged(out: &run::RunOut) -> String {
    {
            let mut f0 = vec![];
            for e in &out.evs {
                if e.op == "solve" {
                    break;
                }
                f0.extend(e.clss.iter().cloned());
            }
            let c = check(&f0, &out.proof, &CheckOpts { lrat: false, chunk: 77, ..Default::default() });
            let evs: Vec<String> = out.evs.iter().map(|e| e.json(false)).collect();
            format!(
                "{{\"ev\":[{}],\"f0\":{},\"vk\":\"{}\",\"vs\":{},\"msg\":\"{}\",\"tr\":[{}]}}",
                evs.join(","),
                jcls(&f0),
                c.verdict,
                c.step,
                esc(&c.msg),
                c.tr.join(",")
            )
    }
}

/// The script with all injected faults and sink peculiarities removed.
fn faultless(s: &[Op]) -> Script {
    s.iter()
        .map(|o| match o {
            Op::Proof(x) => Op::Proof(x.split(' ').next().unwrap().into()),
            Op::Processor(_) => Op::Processor("rec=0".into()),
            o => o.clone(),
        })
        .collect()
}

/// A session with a fault: sinks that split, interrupt, fail or accept nothing, failing processors.
pub fn io_session(r: &mut Rng, small: bool) -> Script {
    let (fmt, pn) = if small {
        *r.pick(&[("varisat", "papi"), ("varisat", "pmodes"), ("varisat", "pwide"), ("drat", "psingle"), ("bdrat", "psingle")])
    } else {
        *r.pick(&[("varisat", "big"), ("drat", "bigone"), ("bdrat", "bigone")])
    };
    let mut h = gen::history(r, &gen::profile(pn));
    match r.below(4) {
        0 => (),
        1 => h.push(Op::Close),
        2 => h.extend(vec![Op::Close, Op::Close]),
        _ => h.extend(vec![Op::Close, Op::Add(vec![1]), Op::Solve, Op::Close]),
    }
    let np = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
    let mut pre: Script = vec![Op::Processor("rec=0".into()); np];
    let at = r.below(np + 1);
    pre.insert(at, Op::Proof(fmt.into()));
    pre.extend(h);
    let out = run::run(&pre);
    let total = out.proof.len();
    let mut faults = vec![];
    let kind = r.below(8);
    if kind < 2 || r.chance(1, 3) {
        if r.chance(2, 3) {
            faults.push(format!("short={}", r.pick(&[1, 2, 3, 7, 100, 1000])));
        }
        if r.chance(1, 2) {
            faults.push(format!("intr={}", r.range(2, 4)));
        }
    }
    if kind >= 2 && kind < 6 {
        let marks: Vec<usize> = out.evs.iter().map(|e| e.bytes).collect();
        let n = match r.below(4) {
            0 => r.below(total + 1),
            1 => r.pick(&marks).saturating_sub(r.below(3)),
            2 => total.saturating_sub(r.below(4)),
            _ => *r.pick(&marks),
        };
        faults.push(format!("fail={}", n));
        if r.chance(1, 2) {
            faults.push("once=1".into());
        }
    }
    if kind == 6 {
        faults.push(format!("{}={}", r.pick(&["fflush", "zero"]), r.range(1, 5)));
    }
    pre[at] = Op::Proof(format!("{} {}", fmt, faults.join(" ")).trim().into());
    let procs: Vec<usize> = (0..pre.len()).filter(|&i| matches!(pre[i], Op::Processor(_))).collect();
    if !procs.is_empty() && r.chance(2, 3) {
        let once = if r.chance(1, 2) { " once=1" } else { "" };
        let n = if r.chance(1, 2) { r.range(1, 6) } else { r.range(1, 60) };
        pre[*r.pick(&procs)] = Op::Processor(format!("rec=0 fail={}{}", n, once));
    }
    pre
}

fn io_events(out: &run::RunOut) -> String {
    let mut at = 0;
    let evs: Vec<String> = out
        .evs
        .iter()
        .map(|e| {
            let d = format!(
                "{{\"o\":\"{}\",\"r\":\"{}\",\"b\":\"{}\",\"er\":{},\"pf\":{}}}",
                e.op, e.r, hex(&out.proof[at..e.bytes]), e.errs, e.pfails
            );
            at = e.bytes;
            d
        })
        .collect();
    evs.join(",")
}

/// Each session with its faults, and twice without.
pub fn io(scripts: &[Script]) -> Vec<String> {
    scripts
        .iter()
        .map(|s| {
            let f = faultless(s);
            let (a, b) = (io_events(&run::run(&f)), io_events(&run::run(&f)));
            format!("{{\"det\":{},\"ref\":[{}],\"ev\":[{}]}}", (a == b) as u8, a, io_events(&run::run(s)))
        })
        .collect()
}

/// Sessions stopped right after a solve answered: the bytes at the sink are all there is.
pub fn prfcut(scripts: &[Script]) -> Vec<String> {
    scripts
        .iter()
        .map(|s| {
            let mut out = run::run(s);
            let stop = out.evs.iter().position(|e| e.op == "close").unwrap_or(out.evs.len());
            let solves: Vec<usize> = (0..stop).filter(|&i| out.evs[i].op == "solve").collect();
            let k = match solves.len() {
                0 => stop.min(out.evs.len() - 1),
                n => solves[(s.len() * 7 + n) % n],
            };
            out.evs.truncate(k + 1);
            out.proof.truncate(out.evs[k].bytes);
            let end = encode(&[Raw::End]);
            out.proof.extend(end);
            judged(&out)
        })
        .collect()
}

fn damage(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let k = r.below(b.len());
        match r.below(6) {
            0 => b[k] ^= 1 << r.below(8),
            1 => b[k] = r.below(256) as u8,
            2 => {
                b.remove(k);
            }
            3 => {
                let x = r.below(256) as u8;
                b.insert(k, x)
            }
            4 => b[k] = b[k].wrapping_add(2),
            _ => {
                let n = r.range(1, 9).min(b.len() - k);
                b.drain(k..k + n);
            }
        }
    }
    b
}

pub fn raw(kind: &str, seed: u64, count: usize, out: &str) {
    let mut r = Rng::new(seed);
    let mut cases = vec![];
    let base = |r: &mut Rng| -> (Vec<Vec<L>>, Vec<Raw>) {
        if r.chance(1, 2) {
            random_proof(r, 100)
        } else {
            let (f0, by) = session_proof(r);
            (f0, decode(&by).0)
        }
    };
    while cases.len() < count {
        let chunk = if r.chance(1, 2) { 1 << 20 } else { r.range(1, 40) };
        let one = |f0, by| Case { f0, by, rf: false, chunk, must: kind == "honest" };
        match kind {
            "clean" => {
                let (f0, p) = random_proof(&mut r, 100);
                cases.push(one(f0, encode(&p)));
            }
            "noisy" => {
                let c = r.range(70, 97);
                let (f0, p) = random_proof(&mut r, c);
                cases.push(one(f0, encode(&p)));
            }
            "mutated" => {
                let (f0, p) = base(&mut r);
                for _ in 0..3 {
                    cases.push(one(f0.clone(), encode(&mutate(&mut r, &p))));
                }
            }
            "honest" => {
                let (f0, by) = session_proof(&mut r);
                cases.push(one(f0, by));
            }
            // another formula: a clause dropped or changed
            "mismatch" => {
                let (mut f0, p) = base(&mut r);
                if f0.is_empty() {
                    continue;
                }
                let k = r.below(f0.len());
                match r.below(3) {
                    0 => {
                        f0.remove(k);
                    }
                    1 if !f0[k].is_empty() => {
                        let j = r.below(f0[k].len());
                        f0[k][j] = -f0[k][j];
                    }
                    _ => {
                        let c = f0[k].clone();
                        f0.push(c);
                    }
                }
                cases.push(one(f0, encode(&p)));
            }
            "cuts" => {
                let (f0, p) = base(&mut r);
                let by = encode(&p);
                let all = by.len() <= 60;
                for k in 0..by.len() {
                    if all || r.chance(12, by.len()) || k + 12 > by.len() {
                        cases.push(Case { f0: f0.clone(), by: by[..k].to_vec(), rf: r.chance(1, 3), chunk, must: false });
                    }
                }
                // something behind the end
                let mut by = by;
                by.push(r.below(256) as u8);
                cases.push(Case { f0, by, rf: false, chunk, must: false });
            }
            "bytes" => {
                let (f0, p) = base(&mut r);
                let by = encode(&p);
                for _ in 0..4 {
                    let d = damage(&mut r, &by);
                    let (q, _) = decode(&d);
                    // a checker allocates memory up to the largest variable
                    if q.iter().any(|s| s.max_var() > 1 << 14) {
                        continue;
                    }
                    cases.push(Case { f0: f0.clone(), by: d, rf: false, chunk, must: false });
                }
            }
            x => panic!("unknown kind {}", x),
        }
    }
    write_lines(&format!("{}.cases", out), cases.iter().map(|c| c.show()));
    write_lines(&format!("{}.ndjson", out), cases.iter().map(|c| c.run()));
}

pub fn rawreplay(cases: &str, out: &str) {
    let t = std::fs::read_to_string(cases).unwrap();
    write_lines(out, t.lines().map(|l| Case::parse(l).run()));
}

// --- encoding ------------------------------------------------------------------

fn rand_u64(r: &mut Rng) -> u64 {
    let b = r.range(0, 64) as u32;
    let top = if b == 64 { u64::max_value() } else { (1u64 << b) - 1 };
    match r.below(5) {
        0 => top,
        1 => top.wrapping_add(1),
        2 => top.wrapping_sub(1),
        _ => r.next() & top,
    }
}
fn rand_var(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(1, 5),
        1 => r.range(1, 200),
        2 => {
            let b = r.range(1, 28);
            let d = r.range(0, 2);
            ((1usize << b) + 1).saturating_sub(d).min(Var::max_count()).max(1)
        }
        _ => Var::max_count() - r.below(3),
    }
}
fn rand_lits(r: &mut Rng) -> Vec<L> {
    let n = if r.chance(1, 8) { r.range(10, 140) } else { r.below(5) };
    (0..n)
        .map(|_| {
            let v = rand_var(r) as L;
            if r.chance(1, 2) {
                v
            } else {
                -v
            }
        })
        .collect()
}
fn rand_step(r: &mut Rng) -> Raw {
    let hs = |r: &mut Rng| -> Vec<u64> {
        let n = if r.chance(1, 8) { r.range(10, 70) } else { r.below(5) };
        (0..n).map(|_| rand_u64(r)).collect()
    };
    match r.below(13) {
        0 => Raw::Svn(rand_var(r), if r.chance(1, 2) { Some(rand_var(r)) } else { None }),
        1 => Raw::Uvn(rand_var(r), if r.chance(1, 2) { Some(rand_var(r)) } else { None }),
        2 => Raw::Dv(rand_var(r)),
        3 => Raw::Csm(rand_var(r), r.chance(1, 2)),
        4 => Raw::Addc(rand_lits(r)),
        5 | 6 => Raw::At(r.chance(1, 2), rand_lits(r), hs(r)),
        7 => Raw::Units(rand_lits(r).into_iter().map(|l| (l, rand_u64(r))).collect()),
        8 => Raw::Del(r.below(3) as u8, rand_lits(r)),
        9 => Raw::Hb(rand_u64(r) as u32 & 0x3fff_ffff),
        10 => Raw::Model(rand_lits(r)),
        11 => Raw::Assum(rand_lits(r)),
        _ => Raw::Fail(rand_lits(r), hs(r)),
    }
}

fn full_json(s: &Raw) -> String {
    let b = |h: u64| jl(&h.to_le_bytes().iter().map(|&x| x as isize).collect::<Vec<_>>());
    let h: Vec<String> = match s {
        Raw::At(_, _, h) | Raw::Fail(_, h) => h.iter().map(|&x| b(x)).collect(),
        Raw::Units(u) => u.iter().map(|x| b(x.1)).collect(),
        _ => vec![],
    };
    let base = match s {
        Raw::Hb(x) => format!(
            "{{\"k\":\"hb\",\"c\":[],\"v\":{},\"u\":0,\"f\":0}}",
            if *x < 1 << 30 { *x } else { (1 << 30) - 1 }
        ),
        _ => s.json(),
    };
    format!("{},\"h\":[{}]}}", &base[..base.len() - 1], h.join(","))
}

fn read_all(by: &[u8], cap: usize, chunk: usize) -> (Vec<Raw>, &'static str) {
    let mut parser = binary_format::Parser::default();
    let rd = ChunkReader { data: by, pos: 0, chunk, fail_at: None, intr: 0, calls: 0 };
    let mut src = BufReader::with_capacity(cap, rd);
    let mut out = vec![];
    loop {
        match catch_unwind(AssertUnwindSafe(|| parser.parse_step(&mut src).map(|s| Raw::from_step(&s)))) {
            Ok(Ok(s)) => {
                let e = s == Raw::End;
                out.push(s);
                if e {
                    return (out, "end");
                }
            }
            Ok(Err(e)) => {
                return (
                    out,
                    match e.downcast_ref::<std::io::Error>() {
                        Some(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "eof",
                        _ => "bad",
                    },
                )
            }
            Err(_) => return (out, "panic"),
        }
    }
}

fn codec_line(wr: Option<&[Raw]>, by: &[u8]) -> String {
    let full = |p: &[Raw]| format!("[{}]", p.iter().map(full_json).collect::<Vec<_>>().join(","));
    let mut seen: Vec<(Vec<Raw>, &'static str)> = vec![];
    // every distinct result of reading with different buffers
    for (cap, chunk) in [
        (8192, 1 << 20), (1, 1), (2, 2), (3, 3), (7, 5), (8, 8), (9, 9), (15, 15), (16, 16), (16, 1), (17, 17),
        (18, 11), (20, 20), (23, 23), (24, 13), (31, 31), (32, 32), (33, 33), (64, 64), (64, 17), (127, 19),
    ]
    .iter()
    {
        let r = read_all(by, *cap, *chunk);
        if !seen.contains(&r) {
            seen.push(r);
        }
    }
    let runs: Vec<String> =
        seen.iter().map(|(s, e)| format!("{{\"st\":\"{}\",\"steps\":{}}}", e, full(s))).collect();
    format!(
        "{{\"by\":{},\"given\":{},\"wr\":{},\"runs\":[{}]}}",
        jbytes(by),
        wr.is_some() as u8,
        full(wr.unwrap_or(&[])),
        runs.join(",")
    )
}

/// Every power of two boundary of every field, then random sequences and damaged ones.
pub fn codec(seed: u64, count: usize, out: &str) {
    let mut r = Rng::new(seed);
    let mut cases: Vec<(bool, Vec<u8>, Vec<Raw>)> = vec![];
    let push = |cases: &mut Vec<(bool, Vec<u8>, Vec<Raw>)>, p: Vec<Raw>| {
        let by = encode(&p);
        cases.push((true, by, p));
    };
    let mut hs = vec![];
    for b in 0..65 {
        let t: u64 = if b == 64 { 0 } else { 1 << b };
        for d in 0..3u64 {
            hs.push(t.wrapping_add(d).wrapping_sub(1));
        }
    }
    for c in hs.chunks(13) {
        push(&mut cases, vec![Raw::At(false, vec![1], c.to_vec()), Raw::End]);
        // one by one, so that each ends the input
        for &h in c {
            push(&mut cases, vec![Raw::Units(vec![(-1, h)])]);
        }
    }
    for b in 0..29 {
        for d in 0..3usize {
            let v = ((1usize << b) + d).saturating_sub(1).max(1).min(Var::max_count());
            let l = v as L;
            push(&mut cases, vec![
                Raw::Svn(v, Some(v)), Raw::Svn(v, None), Raw::Uvn(v, Some(v)), Raw::Uvn(v, None), Raw::Dv(v),
                Raw::Csm(v, true), Raw::Csm(v, false), Raw::Addc(vec![l, -l]), Raw::Model(vec![-l]),
                Raw::Assum(vec![l]), Raw::Fail(vec![-l], vec![]), Raw::Hb(v as u32), Raw::Del(0, vec![l]),
                Raw::Del(1, vec![l]), Raw::Del(2, vec![-l]), Raw::At(true, vec![l], vec![]), Raw::End,
            ]);
        }
    }
    for n in &[0usize, 1, 2, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256] {
        push(&mut cases, vec![Raw::Addc((1..=*n as L).collect()), Raw::End]);
    }
    while cases.len() < count {
        let mut p: Vec<Raw> = (0..r.range(0, 4)).map(|_| rand_step(&mut r)).collect();
        if r.chance(3, 4) {
            p.push(Raw::End);
        }
        if r.chance(1, 2) {
            push(&mut cases, p);
        } else {
            let by = encode(&p);
            let d = if r.chance(1, 3) {
                by[..r.below(by.len() + 1)].to_vec()
            } else if r.chance(1, 8) {
                (0..r.range(0, 20)).map(|_| if r.chance(1, 2) { r.below(256) } else { 0x80 + r.below(20) * 2 } as u8).collect()
            } else {
                damage(&mut r, &by)
            };
            cases.push((false, d, vec![]));
        }
    }
    write_lines(&format!("{}.cases", out), cases.iter().map(|(g, by, _)| format!("{} {}", *g as u8, hex(by))));
    write_lines(
        &format!("{}.ndjson", out),
        cases.iter().map(|(g, by, p)| codec_line(if *g { Some(p) } else { None }, by)),
    );
}

/// Replays readings only (the steps that were written are not part of a case).
pub fn codecreplay(cases: &str, out: &str) {
    let t = std::fs::read_to_string(cases).unwrap();
    write_lines(
        out,
        t.lines().map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            codec_line(None, &unhex(w.get(1).unwrap_or(&"")))
        }),
    );
}
