mod dimacs;
mod files;
mod gen;
mod ops;
mod pcmd;
mod proof;
mod rng;
mod run;

use ops::*;
use rng::Rng;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// A logger that formats every message and throws it away, so that the code computing messages runs.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::Level::Info
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let text = format!("{}", r.args());
            assert!(text.len() < 1 << 30);
        }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// Run `f` on every script in parallel, with hang detection; results in order.
/// A hanging script yields the events of its completed prefix plus a "hang" event.
fn run_all(scripts: Vec<Script>, full: bool) -> Vec<String> {
    let n = scripts.len();
    let scripts = Arc::new(scripts);
    let results: Arc<Vec<Mutex<Option<String>>>> = Arc::new((0..n).map(|_| Mutex::new(None)).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let nw = 8;
    let done = Arc::new(AtomicUsize::new(0));
    // (script index + 1, op index, ticks since last change)
    let cur: Arc<Vec<(AtomicUsize, AtomicUsize, AtomicUsize)>> =
        Arc::new((0..nw).map(|_| (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0))).collect());
    for w in 0..nw {
        let (scripts, results, next, done, cur) =
            (scripts.clone(), results.clone(), next.clone(), done.clone(), cur.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let c2 = cur.clone();
                run::PROGRESS.with(|p| {
                    *p.borrow_mut() = Some(Box::new(move |oi| {
                        c2[w].1.store(oi, Ordering::Relaxed);
                        c2[w].2.store(0, Ordering::Relaxed);
                    }))
                });
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= scripts.len() {
                        break;
                    }
                    cur[w].0.store(i + 1, Ordering::Relaxed);
                    cur[w].2.store(0, Ordering::Relaxed);
                    let out = run::run(&scripts[i]);
                    let evs: Vec<String> = out.evs.iter().map(|e| e.json(full)).collect();
                    *results[i].lock().unwrap() = Some(evs.join(","));
                    cur[w].0.store(0, Ordering::Relaxed);
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let limit: usize = std::env::var("VH_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(25);
    let mut hung = None;
    'outer: while done.load(Ordering::SeqCst) < nw {
        std::thread::sleep(std::time::Duration::from_millis(20));
        for c in cur.iter() {
            if c.0.load(Ordering::Relaxed) > 0 {
                if c.2.fetch_add(1, Ordering::Relaxed) > limit * 50 {
                    hung = Some((c.0.load(Ordering::Relaxed) - 1, c.1.load(Ordering::Relaxed)));
                    break 'outer;
                }
            }
        }
    }
    let mut out = vec![];
    for i in 0..n {
        let r = results[i].lock().unwrap().take();
        match (r, hung) {
            (Some(s), _) => out.push(format!("{{\"id\":{},\"ev\":[{}]}}", i + 1, s)),
            (None, Some((j, oi))) if i == j => {
                let pre = run::run(&scripts[i][..oi]);
                let mut evs: Vec<String> = pre.evs.iter().map(|e| e.json(full)).collect();
                evs.pop(); // the drop event
                let mut e = run::Ev::default();
                e.op = match &scripts[i][oi] {
                    Op::Solve => "solve".into(),
                    _ => "other".into(),
                };
                e.r = "hang".into();
                e.ob = "ok".into();
                evs.push(e.json(full));
                out.push(format!("{{\"id\":{},\"ev\":[{}]}}", i + 1, evs.join(",")));
            }
            // not run because of the hang elsewhere
            _ => out.push(format!("{{\"id\":{},\"ev\":[]}}", i + 1)),
        }
    }
    out
}

pub fn write_lines(path: &str, lines: impl Iterator<Item = String>) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for l in lines {
        writeln!(f, "{}", l).unwrap();
    }
}

fn main() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    if std::env::var("VH_PANICS").is_err() { std::panic::set_hook(Box::new(|_| ())); }
    let a: Vec<String> = std::env::args().collect();
    match &a[1][..] {
        // api <profile> <seed> <count> <outprefix>
        "api" => {
            let p = gen::profile(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let n: usize = a[4].parse().unwrap();
            let mut r = Rng::new(seed);
            let scripts: Vec<Script> = (0..n).map(|_| if a[2].starts_with("setup") { gen::setup_session(&mut r, &p) } else { gen::history(&mut r, &p) }).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            let out = run_all(scripts, false);
            write_lines(&format!("{}.ndjson", a[5]), out.into_iter());
        }
        // sess <profile> <seed> <count> <outprefix>: sessions with processors attached
        "sess" => {
            let p = gen::profile(&a[2]);
            let mut r = Rng::new(a[3].parse().unwrap());
            let n: usize = a[4].parse().unwrap();
            let scripts: Vec<Script> = (0..n).map(|_| gen::session(&mut r, &p)).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            let out = run_all(scripts, true);
            write_lines(&format!("{}.ndjson", a[5]), out.into_iter());
        }
        // prf <profile> <seed> <count> <outprefix>: sessions writing a native proof, and what a checker makes of it
        "prf" => {
            let p = gen::profile(&a[2]);
            let mut r = Rng::new(a[3].parse().unwrap());
            let n: usize = a[4].parse().unwrap();
            let scripts: Vec<Script> = (0..n).map(|_| gen::proof_session(&mut r, &p)).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            write_lines(&format!("{}.ndjson", a[5]), pcmd::prf(&scripts).into_iter());
        }
        // files <profile> <seed> <count> <outprefix>: single-shot runs and their DRAT and LRAT files
        "files" => {
            let mut r = Rng::new(a[3].parse().unwrap());
            let n: usize = a[4].parse().unwrap();
            let scripts: Vec<Script> = (0..n).map(|_| files::script(&mut r, &a[2])).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            write_lines(&format!("{}.ndjson", a[5]), files::files(&scripts).into_iter());
        }
        // dimacs <kind> <seed> <count> <outprefix>: texts, containers, literals
        "dimacs" => {
            let mut r = Rng::new(a[3].parse().unwrap());
            let cases = dimacs::cases(&a[2], &mut r, a[4].parse().unwrap());
            write_lines(&format!("{}.cases", a[5]), cases.iter().cloned());
            write_lines(&format!("{}.ndjson", a[5]), cases.iter().map(|c| dimacs::one(c)));
        }
        "dimacsreplay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            write_lines(&a[3], t.lines().map(dimacs::one));
        }
        "filesreplay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let scripts: Vec<Script> = t.lines().map(parse_script).collect();
            write_lines(&a[3], files::files(&scripts).into_iter());
        }
        "prfcut" => {
            let p = gen::profile(&a[2]);
            let mut r = Rng::new(a[3].parse().unwrap());
            let n: usize = a[4].parse().unwrap();
            let scripts: Vec<Script> = (0..n).map(|_| gen::proof_session(&mut r, &p)).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            write_lines(&format!("{}.ndjson", a[5]), pcmd::prfcut(&scripts).into_iter());
        }
        "prfcutreplay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let scripts: Vec<Script> = t.lines().map(parse_script).collect();
            write_lines(&a[3], pcmd::prfcut(&scripts).into_iter());
        }
        // io <small|big> <seed> <count> <outprefix>: sessions with failing sinks and processors
        "io" => {
            let mut r = Rng::new(a[3].parse().unwrap());
            let n: usize = a[4].parse().unwrap();
            let scripts: Vec<Script> = (0..n).map(|_| pcmd::io_session(&mut r, a[2] == "small")).collect();
            write_lines(&format!("{}.scripts", a[5]), scripts.iter().map(|s| show_script(s)));
            write_lines(&format!("{}.ndjson", a[5]), pcmd::io(&scripts).into_iter());
        }
        "ioreplay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let scripts: Vec<Script> = t.lines().map(parse_script).collect();
            write_lines(&a[3], pcmd::io(&scripts).into_iter());
        }
        "prfreplay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let scripts: Vec<Script> = t.lines().map(parse_script).collect();
            write_lines(&a[3], pcmd::prf(&scripts).into_iter());
        }
        // replay <scriptfile> <out.ndjson> [full]
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let scripts: Vec<Script> = t.lines().map(parse_script).collect();
            let out = run_all(scripts, a.get(4).map(|x| x == "full").unwrap_or(false));
            write_lines(&a[3], out.into_iter());
        }
        // raw <kind> <seed> <count> <outprefix>: proofs given to the checker
        "raw" => pcmd::raw(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        // rawreplay <cases> <out.ndjson>
        "rawreplay" => pcmd::rawreplay(&a[2], &a[3]),
        // codec <seed> <count> <outprefix>
        "codec" => pcmd::codec(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]),
        "codecreplay" => pcmd::codecreplay(&a[2], &a[3]),
        x => panic!("unknown command {}", x),
    }
    // worker threads may be stuck
    std::process::exit(0);
}
