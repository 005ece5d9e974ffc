//! Scripts: sequences of public-API operations, with a line-based text form.
pub type L = isize; // DIMACS literal

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    NewVar,
    /// `new_lits`-style creation of k variables
    NewVars(usize),
    Add(Vec<L>),
    /// one add_formula call
    AddF(Vec<Vec<L>>),
    /// one add_dimacs_cnf call
    Dimacs(Vec<Vec<L>>),
    Assume(Vec<L>),
    Solve,
    Hide(usize),
    Witness(usize),
    Sample(usize),
    Observe,
    /// config update "k=v,k=v"
    Config(String),
    /// write_proof with a format, sink behaviour id
    Proof(String),
    SelfCheck,
    Processor(String),
    Close,
}

fn lits(s: &str) -> Vec<L> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}
pub fn cls(s: &str) -> Vec<Vec<L>> {
    let s = s.trim();
    if s == "-" {
        return vec![];
    }
    s.split(';').map(lits).collect()
}
fn show(l: &[L]) -> String {
    l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn showc(c: &[Vec<L>]) -> String {
    if c.is_empty() {
        "-".into()
    } else {
        c.iter().map(|x| show(x)).collect::<Vec<_>>().join(";")
    }
}

impl Op {
    pub fn parse(line: &str) -> Option<Op> {
        let line = line.trim();
        if line.is_empty() {
            return None;
        }
        let (h, r) = match line.find(' ') {
            Some(i) => (&line[..i], line[i + 1..].trim()),
            None => (line, ""),
        };
        Some(match h {
            "newvar" => Op::NewVar,
            "newvars" => Op::NewVars(r.parse().unwrap()),
            "add" => Op::Add(lits(r)),
            "addf" => Op::AddF(cls(r)),
            "dimacs" => Op::Dimacs(cls(r)),
            "assume" => Op::Assume(lits(r)),
            "solve" => Op::Solve,
            "hide" => Op::Hide(r.parse().unwrap()),
            "witness" => Op::Witness(r.parse().unwrap()),
            "sample" => Op::Sample(r.parse().unwrap()),
            "observe" => Op::Observe,
            "config" => Op::Config(r.to_string()),
            "proof" => Op::Proof(r.to_string()),
            "selfcheck" => Op::SelfCheck,
            "processor" => Op::Processor(r.to_string()),
            "close" => Op::Close,
            _ => panic!("bad op line {:?}", line),
        })
    }
    pub fn show(&self) -> String {
        match self {
            Op::NewVar => "newvar".into(),
            Op::NewVars(k) => format!("newvars {}", k),
            Op::Add(c) => format!("add {}", show(c)),
            Op::AddF(c) => format!("addf {}", showc(c)),
            Op::Dimacs(c) => format!("dimacs {}", showc(c)),
            Op::Assume(c) => format!("assume {}", show(c)),
            Op::Solve => "solve".into(),
            Op::Hide(v) => format!("hide {}", v),
            Op::Witness(v) => format!("witness {}", v),
            Op::Sample(v) => format!("sample {}", v),
            Op::Observe => "observe".into(),
            Op::Config(s) => format!("config {}", s),
            Op::Proof(s) => format!("proof {}", s),
            Op::SelfCheck => "selfcheck".into(),
            Op::Processor(s) => format!("processor {}", s),
            Op::Close => "close".into(),
        }
    }
}

pub type Script = Vec<Op>;

pub fn parse_script(s: &str) -> Script {
    // one line form uses '|' separators
    s.split(|c| c == '|' || c == '\n').filter_map(Op::parse).collect()
}
pub fn show_script(s: &[Op]) -> String {
    s.iter().map(|o| o.show()).collect::<Vec<_>>().join("|")
}
