//! DIMACS texts, formula containers and literals: cases, their text form, and what the code makes of them.
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

use varisat::checker::Checker;
use varisat::{CnfFormula, ExtendFormula, Lit, Solver, Var};
use varisat_dimacs::{write_dimacs, write_dimacs_clauses, write_dimacs_header, DimacsHeader, DimacsParser, ParserError};

use crate::ops::L;
use crate::pcmd::{hex, unhex};
use crate::rng::Rng;
use crate::run::{jl, jlits, vlits};

fn jb(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 3 + 2);
    s.push('[');
    for (i, v) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&v.to_string());
    }
    s.push(']');
    s
}
fn jf(f: &CnfFormula) -> String {
    format!("[{}]", f.iter().map(|c| jlits(c)).collect::<Vec<_>>().join(","))
}
/// error class and line
fn perr(e: &ParserError) -> (&'static str, usize) {
    match e {
        ParserError::UnexpectedInput { line, .. } => ("char", *line),
        ParserError::LiteralTooLarge { line, .. } => ("big", *line),
        ParserError::InvalidHeader { line, .. } => ("header", *line),
        ParserError::UnterminatedClause { line } => ("open", *line),
        ParserError::VarCount { .. } => ("vars", 0),
        ParserError::ClauseCount { .. } => ("clauses", 0),
        ParserError::PreviousError => ("prev", 0),
    }
}
fn aerr(e: &anyhow::Error) -> (&'static str, usize) {
    match e.downcast_ref::<ParserError>() {
        Some(p) => perr(p),
        None => ("other", 0),
    }
}
fn pres(r: &Result<(), ParserError>) -> (&'static str, usize) {
    match r {
        Ok(()) => ("ok", 0),
        Err(e) => perr(e),
    }
}

/// A reader that hands out the text in pieces and may fail after `bad` bytes.
struct Pieces<'a> {
    b: &'a [u8],
    pos: usize,
    sizes: &'a [usize],
    k: usize,
    bad: Option<usize>,
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = self.b.len() - self.pos;
        if let Some(f) = self.bad {
            if self.pos >= f {
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
            n = n.min(f - self.pos);
        }
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.k % self.sizes.len()].max(1));
            self.k += 1;
        }
        let n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn whole(b: &[u8]) -> String {
    match DimacsParser::parse(b) {
        Ok(f) => format!("\"r\":\"ok\",\"ln\":0,\"f\":{},\"n\":{}", jf(&f), f.var_count()),
        Err(e) => {
            let (k, l) = aerr(&e);
            format!("\"r\":\"{}\",\"ln\":{},\"f\":[],\"n\":0", k, l)
        }
    }
}

fn take_ev(p: &mut DimacsParser) -> String {
    let f = p.take_formula();
    format!("{{\"o\":\"take\",\"f\":{},\"n\":{}}}", jf(&f), f.var_count())
}
fn stat_ev(p: &DimacsParser) -> String {
    let (hs, hn, hk) = match p.header() {
        Some(h) => (true, h.var_count, if h.clause_count == 0 { String::new() } else { h.clause_count.to_string() }),
        None => (false, 0, String::new()),
    };
    format!(
        "{{\"o\":\"stat\",\"n\":{},\"k\":{},\"hs\":{},\"hn\":{},\"hk\":{}}}",
        p.var_count(), p.clause_count(), hs, hn, jb(hk.as_bytes())
    )
}

/// plan: "3t,5s,9" - ends of the chunks, each followed by what is called after it
fn chunks(b: &[u8], plan: &str) -> String {
    let mut p = DimacsParser::new();
    let mut ev = vec![];
    let mut pos = 0;
    let mut dead = false;
    for c in plan.split(',').filter(|c| !c.is_empty()) {
        let d = c.trim_end_matches(|x: char| x.is_alphabetic());
        let t: usize = d.parse().unwrap();
        let r = pres(&p.parse_chunk(&b[pos..t]));
        pos = t;
        ev.push(format!("{{\"o\":\"chunk\",\"t\":{},\"r\":\"{}\",\"ln\":{}}}", t, r.0, r.1));
        if r.0 != "ok" {
            dead = true;
            break;
        }
        for x in c[d.len()..].chars() {
            ev.push(if x == 't' { take_ev(&mut p) } else { stat_ev(&p) });
        }
    }
    if dead {
        let r = pres(&p.parse_chunk(b"1 0\n"));
        ev.push(format!("{{\"o\":\"chunk\",\"t\":{},\"r\":\"{}\",\"ln\":0}}", b.len(), r.0));
    } else {
        if pos < b.len() {
            panic!("plan does not end at the end");
        }
        let r = pres(&p.eof());
        ev.push(format!("{{\"o\":\"eof\",\"r\":\"{}\",\"ln\":{}}}", r.0, r.1));
        if r.0 == "ok" {
            ev.push(stat_ev(&p));
            ev.push(take_ev(&mut p));
            ev.push(format!("{{\"o\":\"check\",\"r\":\"{}\"}}", pres(&p.check_header()).0));
        }
    }
    ev.join(",")
}

fn reader(b: &[u8], sizes: &[usize], bad: isize, cb: usize) -> String {
    let rd = Pieces { b, pos: 0, sizes, k: 0, bad: if bad >= 0 { Some(bad as usize) } else { None } };
    let mut got: Vec<String> = vec![];
    let mut calls = 0;
    let mut n = 0;
    let r = DimacsParser::parse_incremental(rd, |p| {
        calls += 1;
        if calls == cb {
            return Err(anyhow::Error::msg("injected"));
        }
        let f = p.take_formula();
        n = f.var_count();
        got.extend(f.iter().map(|c| jlits(c)));
        Ok(())
    });
    let k = match &r {
        Ok(p) => {
            n = p.var_count();
            "ok"
        }
        Err(e) => aerr(e).0,
    };
    // a callback that was never called did not fail
    let cb = if cb > 0 && calls >= cb { cb } else { 0 };
    format!("\"bad\":{},\"cb\":{},\"r\":\"{}\",\"f\":[{}],\"n\":{}", bad, cb, k, got.join(","), n)
}

fn solver(b: &[u8], sizes: &[usize]) -> String {
    let mut s = Solver::new();
    let r = s.add_dimacs_cnf(Pieces { b, pos: 0, sizes, k: 0, bad: None });
    let k = match &r {
        Ok(()) => "ok",
        Err(e) => aerr(e).0,
    };
    let (mut sat, mut mv) = ("-", vec![]);
    if k == "ok" {
        sat = match s.solve() {
            Ok(true) => "T",
            Ok(false) => "F",
            Err(_) => "E",
        };
        if let Some(m) = s.model() {
            mv = m;
        }
    }
    format!("\"r\":\"{}\",\"sat\":\"{}\",\"mv\":{}", k, sat, jlits(&mv))
}

fn checker(b: &[u8], sizes: &[usize]) -> String {
    let mut c = Checker::new();
    let r = c.add_dimacs_cnf(Pieces { b, pos: 0, sizes, k: 0, bad: None });
    let k = match &r {
        Ok(()) => "ok",
        Err(e) => aerr(e).0,
    };
    format!("\"r\":\"{}\"", k)
}

fn new_tuple(f: &mut CnfFormula, k: usize) -> Vec<Lit> {
    match k {
        2 => { let (a, b) = f.new_lits(); vec![a, b] }
        3 => { let (a, b, c): (Var, Var, Var) = f.new_vars(); vec![a.into(), b.into(), c.into()] }
        4 => { let (a, b, c, d) = f.new_lits(); vec![a, b, c, d] }
        5 => { let (a, b, c, d, e): (Var, Var, Var, Var, Var) = f.new_vars(); vec![a, b, c, d, e].into_iter().map(Lit::from).collect() }
        6 => { let (a, b, c, d, e, g) = f.new_lits(); vec![a, b, c, d, e, g] }
        7 => { let (a, b, c, d, e, g, h) = f.new_lits(); vec![a, b, c, d, e, g, h] }
        _ => panic!(),
    }
}

/// operations on three containers: "add1:1 -2;nv1;tup1:3;iter1:2;lit1;svc1:7;clone1:2;from1:2;eq1:2;dump1;write1;body1;new1"
fn containers(script: &str) -> String {
    let mut reg = vec![CnfFormula::new(), CnfFormula::new(), CnfFormula::new()];
    let mut ev = vec![];
    for op in script.split(';').filter(|x| !x.is_empty()) {
        let (head, arg) = match op.find(':') {
            Some(k) => (&op[..k], &op[k + 1..]),
            None => (op, ""),
        };
        let name = head.trim_end_matches(char::is_numeric);
        let a: usize = head[name.len()..].parse().unwrap();
        let nums: Vec<L> = arg.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let f = &mut reg[a - 1];
        let e = match name {
            "new" => { *f = if nums.is_empty() { CnfFormula::new() } else { CnfFormula::default() }; "\"o\":\"new\"".to_string() }
            "add" => { f.add_clause(&vlits(&nums)); format!("\"o\":\"add\",\"c\":{}", jl(&nums)) }
            "nv" => { let v = f.new_var(); format!("\"o\":\"nv\",\"c\":[{}]", v.to_dimacs()) }
            "lit" => { let v = f.new_lit(); format!("\"o\":\"nv\",\"c\":[{}]", v.to_dimacs()) }
            "tup" => { let v = new_tuple(f, nums[0] as usize); format!("\"o\":\"nv\",\"c\":{}", jlits(&v)) }
            "iter" => {
                let v: Vec<Lit> = f.new_var_iter(nums[0] as usize).map(|v: Var| v.positive()).collect();
                format!("\"o\":\"nv\",\"c\":{}", jlits(&v))
            }
            "liter" => {
                // only some of them are asked for
                let v: Vec<Lit> = f.new_lit_iter(nums[0] as usize).take(nums[1] as usize).collect();
                format!("\"o\":\"nv\",\"c\":{}", jlits(&v))
            }
            "svc" => { f.set_var_count(nums[0] as usize); format!("\"o\":\"svc\",\"n\":{}", nums[0]) }
            "clone" => { let c = f.clone(); reg[nums[0] as usize - 1] = c; format!("\"o\":\"clone\",\"z\":{}", nums[0]) }
            "from" => {
                let cs: Vec<Vec<Lit>> = f.iter().map(|c| c.to_vec()).collect();
                let c = if a % 2 == 0 { CnfFormula::from(cs) } else { CnfFormula::from(f.iter()) };
                reg[nums[0] as usize - 1] = c;
                format!("\"o\":\"from\",\"z\":{}", nums[0])
            }
            "eq" => { let z = nums[0] as usize; format!("\"o\":\"eq\",\"z\":{},\"r\":{}", z, reg[a - 1] == reg[z - 1]) }
            "dump" => format!("\"o\":\"dump\",\"f\":{},\"len\":{},\"em\":{}", jf(f), f.len(), f.is_empty()),
            "count" => format!("\"o\":\"count\",\"n\":{}", f.var_count()),
            "write" => {
                let mut b = vec![];
                let r = if nums.is_empty() {
                    write_dimacs(&mut b, f)
                } else {
                    write_dimacs_header(&mut b, DimacsHeader { var_count: f.var_count(), clause_count: f.len() })
                        .and_then(|_| write_dimacs_clauses(&mut b, f.iter()))
                };
                r.unwrap();
                let same = match DimacsParser::parse(&b[..]) {
                    Ok(g) => g == *f && g.var_count() == f.var_count() && g.iter().eq(f.iter()),
                    Err(_) => false,
                };
                format!("\"o\":\"write\",\"b\":{},\"hd\":true,\"same\":{}", jb(&b), same)
            }
            "body" => {
                let mut b = vec![];
                write_dimacs_clauses(&mut b, f.iter()).unwrap();
                format!("\"o\":\"body\",\"b\":{}", jb(&b))
            }
            _ => panic!("{}", op),
        };
        ev.push(format!("{{\"a\":{},{}}}", a, e));
    }
    ev.join(",")
}

fn hash<T: std::hash::Hash>(x: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn lits(xs: &[L]) -> String {
    let mut ev = vec![];
    for w in xs.chunks(3) {
        let (d, m, to) = (w[0], w[1], w[2].abs());
        let l = Lit::from_dimacs(d);
        let lm = Lit::from_dimacs(m);
        let v = l.var();
        ev.push(format!(
            "{{\"l\":{},\"m\":{},\"to\":{},\"dimacs\":{},\"text\":{},\"debug\":{:?},\"index\":{},\"var\":{},\"vindex\":{},\"code\":{},\"fromcode\":{},\"fromindex\":{},\
             \"neg\":{},\"pos\":{},\"no\":{},\"nono\":{},\"xt\":{},\"xf\":{},\"vpos\":{},\"vneg\":{},\"vlit\":[{},{}],\"fromvar\":{},\"map\":{},\
             \"eq\":{},\"lt\":{},\"hash\":{},\"max\":{},\"maxvar\":{}}}",
            d, m, to, l.to_dimacs(), l, l, l.index(), v.to_dimacs(), v.index(), l.code(), Lit::from_code(l.code()),
            Lit::from_index(l.index(), l.is_positive()), l.is_negative(), l.is_positive(), !l, !!l, l ^ true, l ^ false,
            v.positive(), v.negative(), v.lit(true), Var::from_index(v.index()).lit(false), Lit::from(Var::from_dimacs(d.abs())),
            l.map_var(|_| Var::from_dimacs(to)), l == lm, l < lm, hash(l) == hash(lm), Var::max_count(), Var::max_var()
        ));
    }
    ev.join(",")
}

fn sizes(s: &str) -> Vec<usize> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// What the code makes of a case, as one line of JSON.
pub fn one(case: &str) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let y = &case[..1];
        let w: Vec<&str> = case.splitn(2, ' ').nth(1).unwrap_or("").split('|').collect();
        match y {
            "c" => format!("{{\"y\":\"c\",\"ev\":[{}]}}", containers(w[0])),
            "l" => format!("{{\"y\":\"l\",\"ev\":[{}]}}", lits(&w[0].split(' ').map(|x| x.parse().unwrap()).collect::<Vec<L>>())),
            _ => {
                let b = unhex(w[0]);
                match y {
                    "w" => format!("{{\"y\":\"w\",\"b\":{},{}}}", jb(&b), whole(&b)),
                    "k" => format!("{{\"y\":\"k\",\"b\":{},\"w\":{{{}}},\"ev\":[{}]}}", jb(&b), whole(&b), chunks(&b, w[1])),
                    "i" => format!("{{\"y\":\"i\",\"b\":{},\"w\":{{{}}},{}}}", jb(&b), whole(&b), reader(&b, &sizes(w[1]), w[2].parse().unwrap(), w[3].parse().unwrap())),
                    "s" => format!("{{\"y\":\"s\",\"b\":{},{}}}", jb(&b), solver(&b, &sizes(w[1]))),
                    "h" => format!("{{\"y\":\"h\",\"b\":{},{}}}", jb(&b), checker(&b, &sizes(w[1]))),
                    _ => panic!("{}", case),
                }
            }
        }
    }));
    r.unwrap_or_else(|_| "{\"y\":\"crash\"}".to_string())
}

// -- generating cases ---------------------------------------------------------

const BIG: &[&str] = &[
    "268435456", "268435457", "268435455", "26843545", "26843546", "268435460", "268435449", "99999999999999999999999", "2147483648",
    "4294967297", "18446744073709551617", "000000000000000000000000000003", "0268435456", "536870913", "00", "000",
];

fn num(r: &mut Rng, nv: usize, big: bool) -> String {
    let s = if big && r.chance(1, 12) { r.pick(BIG).to_string() } else { r.range(1, nv).to_string() };
    let s = if r.chance(1, 40) { format!("00{}", s) } else { s };
    if r.chance(1, 2) { format!("-{}", s) } else { s }
}

fn comment(r: &mut Rng, b: &mut Vec<u8>) {
    b.push(b'c');
    let n = r.below(9);
    for _ in 0..n {
        let x = match r.below(6) { 0 => r.below(256) as u8, 1 => *r.pick(b"p c0-1\t"), _ => *r.pick(b"abc 120-pnf") };
        if x != b'\n' && x != b'\r' {
            b.push(x);
        }
    }
    b.push(if r.chance(1, 8) { b'\r' } else { b'\n' });
}

fn sep(r: &mut Rng, b: &mut Vec<u8>, wild: bool) {
    if !wild {
        b.push(b' ');
        return;
    }
    for _ in 0..r.range(1, 3) {
        match r.below(12) {
            0 => b.extend(b"\n"),
            1 => b.extend(b"\r\n"),
            2 => b.extend(b"\r"),
            3 => { b.extend(b"\n"); comment(r, b) }
            4 => { b.extend(b"\r"); comment(r, b) }
            5 => b.extend(b"  "),
            6 => b.extend(b"\n\n"),
            _ => b.push(b' '),
        }
    }
}

fn header(r: &mut Rng, b: &mut Vec<u8>, n: usize, k: usize, fault: bool) {
    let mut w: Vec<String> = vec!["p".into(), "cnf".into(), n.to_string(), k.to_string()];
    let sp = |r: &mut Rng, b: &mut Vec<u8>| for _ in 0..r.range(1, 2) { b.push(if r.chance(1, 12) { b'\t' } else { b' ' }) };
    if fault {
        match r.below(13) {
            0 => w[2] = (n + r.range(1, 3)).to_string(),
            1 => w[2] = n.saturating_sub(r.range(1, 2)).to_string(),
            2 => w[3] = (k + r.range(1, 3)).to_string(),
            3 => w[3] = k.saturating_sub(r.range(1, 2)).to_string(),
            4 => w[2] = r.pick(BIG).to_string(),
            5 => w[3] = r.pick(&["18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999", "", "x", "-1", "+1", "1.0"]).to_string(),
            6 => { w.pop(); }
            7 => w.push(r.pick(&["0", "1", "x", "c"]).to_string()),
            8 => w[1] = r.pick(&["CNF", "cn", "cnff", "c", "sat", "wcnf"]).to_string(),
            9 => w[2] = r.pick(&["-1", "x", "1x", "", "0x1", "+2"]).to_string(),
            10 => w[0] = r.pick(&["pp", "P", "pc", "p\u{e9}"]).to_string(),
            11 => { w.truncate(r.range(1, 3)); }
            _ => { // counts off by a multiple of a power of two
                let d = *r.pick(&[1u64 << 8, 1 << 16, 1 << 32]);
                if r.chance(1, 2) { w[3] = (k as u64 + d).to_string() } else { w[2] = (n as u64 + d).to_string() }
            }
        }
    } else if r.chance(1, 10) {
        w[2] = format!("00{}", w[2]);
    } else if r.chance(1, 10) {
        w[3] = format!("0{}", w[3]);
    } else if r.chance(1, 4) {
        w[2] = (n + r.range(0, 2)).to_string();
    }
    for (i, x) in w.iter().enumerate() {
        if i == 1 { b.push(b' '); if r.chance(1, 6) { sp(r, b) } } else if i > 1 { sp(r, b) }
        b.extend(x.as_bytes());
    }
    if r.chance(1, 10) { b.push(*r.pick(b" \t")) }
}

/// A text; `small` keeps literals small enough to be loaded by a solver.
pub fn text(r: &mut Rng, small: bool) -> Vec<u8> {
    let mut b = vec![];
    let nv = r.range(1, if small { 5 } else { 7 });
    let k = if r.chance(1, 12) { r.range(10, 30) } else { r.below(7) };
    let wild = r.chance(2, 3);
    let big = !small && r.chance(1, 3);
    // header at: none, start, elsewhere, twice
    let head = r.weighted(&[4, 8, 2, 1]);
    let mut cl: Vec<Vec<String>> = vec![];
    for _ in 0..k {
        let len = r.weighted(&[1, 3, 5, 5, 2]);
        cl.push((0..len).map(|_| num(r, nv, big)).collect());
    }
    let used = cl.iter().flatten().filter_map(|x| x.trim_start_matches('-').parse::<usize>().ok()).max().unwrap_or(0);
    while wild && r.chance(1, 4) { comment(r, &mut b) }
    if wild && r.chance(1, 8) { sep(r, &mut b, true) }
    let fault = r.chance(1, 3);
    let hpos = if head == 1 { 0 } else { r.below(k + 1) };
    for i in 0..=k {
        if (head > 0 && i == hpos) || (head == 3 && i == k) {
            if !b.is_empty() && *b.last().unwrap() != b'\n' && *b.last().unwrap() != b'\r' && !r.chance(1, 12) { b.push(b'\n') }
            header(r, &mut b, used, k, fault);
            if i < k || r.chance(1, 2) { b.push(if r.chance(1, 8) { b'\r' } else { b'\n' }) }
        }
        if i < k {
            for x in &cl[i] {
                b.extend(x.as_bytes());
                sep(r, &mut b, wild);
            }
            b.push(b'0');
            if i + 1 < k || r.chance(1, 2) {
                if r.chance(1, 2) { b.push(b'\n') } else { sep(r, &mut b, wild) }
            }
        }
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let ab: &[u8] = if small { b"0- \n\rcpx" } else { b"0123456789- \n\rcpx+\t\0%\xe2\xff" };
            if b.is_empty() { break; }
            let p = r.below(b.len());
            match r.below(5) {
                0 => { b.remove(p); }
                1 => b.insert(p, *r.pick(ab)),
                2 => b[p] = *r.pick(ab),
                3 => b.truncate(p),
                _ => { b.push(*r.pick(b"-1 c0\n")); }
            }
        }
    }
    b
}

/// padding with comments and blanks so that a text spans several buffers of a reader
fn pad(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let total = r.range(6000, 26000);
    for &x in b {
        out.push(x);
        if (x == b'\n' || x == b' ') && out.len() < total && !out.starts_with(b"p") && r.chance(1, 2) {
            out.extend(std::iter::repeat(b' ').take(r.range(1, 5000)));
        } else if x == b'\n' && out.len() < total && r.chance(2, 3) {
            out.push(b'c');
            let fill = *r.pick(b"c 1p0-");
            out.extend(std::iter::repeat(fill).take(r.range(1, 9000)));
            out.push(b'\n');
        }
    }
    out
}

fn plan(r: &mut Rng, n: usize) -> String {
    let mut v = vec![];
    let mut pos = 0;
    let style = r.below(4);
    while pos < n {
        let step = match style { 0 => 1, 1 => r.range(0, 3), 2 => r.range(1, 12), _ => if r.chance(1, 3) { 0 } else { r.range(1, n) } };
        pos = (pos + step).min(n);
        let what = match r.below(6) { 0 | 1 => "t", 2 => "s", 3 => "st", 4 => "ts", _ => "" };
        v.push(format!("{}{}", pos, what));
    }
    v.join(",")
}

fn container_script(r: &mut Rng) -> String {
    let mut ops = vec![];
    let lim = match r.below(6) { 0 => 268435450, 1 => 40, _ => 5 };
    for _ in 0..r.range(3, 18) {
        let a = r.range(1, 3);
        let z = r.range(1, 3);
        match r.below(20) {
            0..=6 => {
                let n = r.weighted(&[1, 2, 3, 3, 1]);
                let c: Vec<String> = (0..n).map(|_| {
                    let v = if lim > 1000 && r.chance(1, 3) { 268435456 - r.below(6) } else if r.chance(2, 3) { r.range(1, lim.min(5)) } else { r.range(1, lim) };
                    (if r.chance(1, 2) { v as isize } else { -(v as isize) }).to_string()
                }).collect();
                ops.push(format!("add{}:{}", a, c.join(" ")));
                if r.chance(1, 6) { ops.push(format!("add{}:{}", z, c.join(" "))) }
            }
            7 if lim < 1000 => ops.push(format!("nv{}", a)),
            8 if lim < 1000 => ops.push(format!("{}{}:{}", r.pick(&["tup", "iter"]), a, r.range(2, 7))),
            9 if lim < 1000 => ops.push(format!("liter{}:{} {}", a, r.range(1, 5), r.range(0, 6)).replace("liter", if r.chance(1, 3) { "liter" } else { "liter" })),
            10 if lim < 1000 => ops.push(format!("lit{}", a)),
            11 => ops.push(format!("svc{}:{}", a, if lim > 1000 && r.chance(1, 2) { 268435456 } else { r.below(12) })),
            12 => ops.push(format!("clone{}:{}", a, z)),
            13 => ops.push(format!("from{}:{}", a, z)),
            14 => ops.push(format!("new{}{}", a, if r.chance(1, 2) { ":0" } else { "" })),
            15 | 16 => ops.push(format!("eq{}:{}", a, z)),
            17 => ops.push(format!("dump{}", a)),
            18 => ops.push(format!("write{}{}", a, if r.chance(1, 3) { ":1" } else { "" })),
            _ => ops.push(format!("body{}", a)),
        }
    }
    for a in 1..=3 {
        ops.push(format!("dump{}", a));
        ops.push(format!("count{}", a));
        ops.push(format!("write{}", a));
        ops.push(format!("eq{}:{}", a, a % 3 + 1));
    }
    ops.join(";")
}

fn lit_case(r: &mut Rng) -> String {
    let one = |r: &mut Rng| {
        let v = match r.below(5) {
            0 => 268435456 - r.below(3),
            1 => { let s = r.range(0, 28); ((1usize << s) + r.below(3)).saturating_sub(1).max(1).min(268435456) }
            2 => r.range(1, 268435456),
            _ => r.range(1, 6),
        } as isize;
        (if r.chance(1, 2) { v } else { -v }).to_string()
    };
    (0..24).map(|_| one(r)).collect::<Vec<_>>().join(" ")
}

/// all words over the alphabet up to the given length
fn words(ab: &[&[u8]], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for a in ab {
                let mut w = all[i].clone();
                w.extend(*a);
                all.push(w);
            }
        }
        from = to;
    }
    all
}

pub fn cases(kind: &str, r: &mut Rng, n: usize) -> Vec<String> {
    let ab1: Vec<&[u8]> = vec![b"1", b"0", b"-", b" ", b"\n", b"\r", b"c", b"p", b"x"];
    let ab2: Vec<&[u8]> = vec![
        b"1", b"0", b"-", b" ", b"\n", b"c", b"0 ", b"p cnf 1 1", b"p cnf 2", b" 2 0", b"268435456", b"26843545", b"7", b"6",
    ];
    match kind {
        // every word up to n pieces; chunked in every way when short
        "short1" => words(&ab1, n).iter().map(|w| format!("w {}", hex(w))).collect(),
        "short2" => words(&ab2, n).iter().map(|w| format!("w {}", hex(w))).collect(),
        // header lines made of every sequence of words
        "head" => {
            let ws: Vec<&[u8]> = vec![
                b"cnf", b"0", b"1", b"2", b"00", b"-1", b"01", b"x", b"p", b"cnf1", b"268435456", b"268435457", b"18446744073709551615",
                b"18446744073709551616", b"4294967296", b"c",
            ];
            let mut v = vec![];
            for tail in &[&b""[..], b"\n", b"\r\n1 0", b"\n1 0 0", b" \n-1 2 0"] {
                for m in 0..=n {
                    let mut idx = vec![0; m];
                    loop {
                        for cnf in &[&b"p"[..], b"p cnf"] {
                            let mut t = cnf.to_vec();
                            for &i in &idx {
                                t.push(b' ');
                                t.extend(ws[i]);
                            }
                            t.extend(*tail);
                            v.push(format!("w {}", hex(&t)));
                        }
                        let mut k = 0;
                        while k < m && idx[k] + 1 == ws.len() {
                            idx[k] = 0;
                            k += 1;
                        }
                        if k == m { break; }
                        idx[k] += 1;
                    }
                }
            }
            v
        }
        "cuts" => {
            let ab: Vec<&[u8]> = vec![b"1", b"0", b"-", b" ", b"\n", b"c", b"12 "];
            let mut v = vec![];
            for w in words(&ab, n) {
                let l = w.len();
                if l < 2 { continue; }
                for m in 0..1usize << (l - 1) {
                    let mut p: Vec<String> = vec![];
                    for c in 1..l {
                        if m >> (c - 1) & 1 == 1 { p.push(format!("{}t", c)) }
                    }
                    p.push(format!("{}", l));
                    v.push(format!("k {}|{}", hex(&w), p.join(",")));
                }
            }
            v
        }
        "text" => (0..n).map(|_| format!("w {}", hex(&text(r, false)))).collect(),
        "chunks" => (0..n).map(|_| { let t = text(r, false); let p = plan(r, t.len()); format!("k {}|{}", hex(&t), p) }).collect(),
        "reader" => (0..n).map(|_| {
            let mut t = text(r, false);
            if r.chance(1, 40) { t = pad(r, &t) }
            let sz: Vec<String> = if t.len() > 3000 { vec![] } else { (0..r.range(0, 4)).map(|_| r.range(1, 9).to_string()).collect() };
            let bad = if r.chance(1, 4) { r.range(0, t.len()) as isize } else { -1 };
            let cb = if r.chance(1, 6) { r.range(1, 3) } else { 0 };
            format!("i {}|{}|{}|{}", hex(&t), sz.join(","), bad, cb)
        }).collect(),
        "load" => (0..n).map(|_| {
            let mut t = text(r, true);
            if r.chance(1, 40) { t = pad(r, &t) }
            let sz: Vec<String> = if t.len() > 3000 { vec![] } else { (0..r.range(0, 3)).map(|_| r.range(1, 9).to_string()).collect() };
            format!("{} {}|{}", r.pick(&["s", "s", "h"]), hex(&t), sz.join(","))
        }).collect(),
        "form" => (0..n).map(|_| format!("c {}", container_script(r))).collect(),
        "lits" => (0..n).map(|_| format!("l {}", lit_case(r))).collect(),
        _ => panic!("{}", kind),
    }
}
