//! Replay harness: runs the real crate on generated cases and judges what it observes against
//! independent oracles. Every case is a function of (property, case number, seed).
mod geom;
mod gen;
mod run;
mod geo_cases;
mod safety;
mod protocol;
mod inputs;

use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// a canonical text of the case's input (hashed to count distinct cases)
    pub input: String,
    pub nontrivial: bool,
    pub violation: Option<String>,
}
pub type CaseFn = fn(u64, u64) -> Outcome;

fn case_fn(prop: &str) -> CaseFn {
    match prop {
        "C01" => geo_cases::c01,
        "C02" => geo_cases::c02,
        "C03" => geo_cases::c03,
        "C04" => safety::c04,
        "C05" => protocol::c05,
        "C06" => protocol::c06,
        "C07" => protocol::c07,
        "C08" => inputs::c08,
        "C09" => inputs::c09,
        "C10" => inputs::c10,
        _ => { eprintln!("no property {prop}"); std::process::exit(2) }
    }
}

static STARTED: AtomicU64 = AtomicU64::new(0);

/// Run one case on a fresh thread (so that its thread-local random generator is seeded from the case).
fn run_case(f: CaseFn, case: u64, seed: u64) -> Outcome {
    STARTED.fetch_add(1, Ordering::SeqCst);
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        getrandom::set_seed(case.wrapping_mul(0x9e3779b97f4a7c15) ^ seed);
        f(case, seed)
    }).unwrap();
    match h.join() {
        Ok(o) => o,
        Err(e) => Outcome { input: run::last_input(), nontrivial: true, violation: Some(format!("panicked: {}", run::panic_text(&*e))) },
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0; let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = STARTED.load(Ordering::SeqCst);
            if now != last { last = now; since = Instant::now(); }
            else if since.elapsed() > Duration::from_secs(secs) {
                println!("HANG {}", run::last_input());
                std::io::stdout().flush().ok();
                std::process::exit(3);
            }
        }
    });
}

/// worker PROP SEED START STRIDE END DEADLINE_MS PROGRESS_FILE
fn worker(a: &[String]) {
    let f = case_fn(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end, deadline) = (n(1), n(2), n(3), n(4), n(5));
    let prog = std::fs::OpenOptions::new().write(true).create(true).open(&a[6]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(20);
    let t0 = Instant::now();
    let (mut ev, mut nt) = (0u64, 0u64);
    let mut seen = std::collections::HashSet::new();
    let mut case = start;
    while case < end && t0.elapsed() < Duration::from_millis(deadline) {
        prog.write_at(&case.to_le_bytes(), 0).unwrap();
        let o = run_case(f, case, seed);
        ev += 1;
        if o.nontrivial && seen.insert(fnv(&o.input)) { nt += 1; if nt % 997 == 1 && nt < 3000 { println!("SAMPLE {}", o.input.replace('\n', " ")); } }
        if let Some(v) = o.violation {
            println!("VIOL {} {}\t{}", case, o.input.replace(['\n', '\t'], " "), v.replace(['\n', '\t'], " "));
            break;
        }
        case += stride;
    }
    println!("DONE {ev} {nt}");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        // one PROP SEED CASE
        Some("one") => {
            let f = case_fn(&a[1]);
            watchdog(20);
            let o = run_case(f, a[3].parse().unwrap(), a[2].parse().unwrap());
            println!("input: {}\nnontrivial: {}", o.input, o.nontrivial);
            match o.violation { Some(v) => { println!("VIOLATED: {v}"); std::process::exit(1) } None => println!("held") }
        }
        // run PROP SEED CASES DEADLINE_MS SCRATCH  -> one JSON object on stdout
        Some("run") => {
            let exe = std::env::current_exe().unwrap();
            let (prop, seed, cases, deadline, scratch) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
            let w = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
            let kids: Vec<_> = (0..w).map(|i| {
                let prog = format!("{scratch}/progress.{i}");
                let c = std::process::Command::new(&exe).args(["worker", prop, seed, &i.to_string(), &w.to_string(), cases, deadline, &prog])
                    .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap();
                (c, prog)
            }).collect();
            let hs: Vec<_> = kids.into_iter().map(|(c, p)| std::thread::spawn(move || (c.wait_with_output().unwrap(), p))).collect();
            let (mut ev, mut nt) = (0u64, 0u64);
            let mut samples: Vec<String> = vec![]; let mut viols: Vec<(u64, String, String)> = vec![];
            for h in hs {
                let (out, prog) = h.join().unwrap();
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                let cur = std::fs::read(&prog).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(0);
                let mut done = false; let mut hang = None;
                for l in text.lines() {
                    if let Some(r) = l.strip_prefix("DONE ") { let mut it = r.split(' '); ev += it.next().unwrap().parse::<u64>().unwrap(); nt += it.next().unwrap().parse::<u64>().unwrap(); done = true; }
                    else if let Some(r) = l.strip_prefix("SAMPLE ") { if samples.len() < 6 { samples.push(r.to_string()); } }
                    else if let Some(r) = l.strip_prefix("VIOL ") { let (c, rest) = r.split_once(' ').unwrap(); let (inp, v) = rest.split_once('\t').unwrap(); viols.push((c.parse().unwrap(), inp.to_string(), v.to_string())); }
                    else if let Some(r) = l.strip_prefix("HANG ") { hang = Some(r.to_string()); }
                }
                if let Some(h) = hang { viols.push((cur, h, "did not return within 20 s".into())); }
                else if !done {
                    let err = String::from_utf8_lossy(&out.stderr).to_string();
                    let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                    viols.push((cur, String::new(), format!("process ended by {:?}/{:?}: {}", out.status.code(), out.status.signal(), tail)));
                }
            }
            viols.sort();
            println!("{{\"evaluations\":{ev},\"distinct_nontrivial\":{nt},\"samples\":[{}],\"violations\":[{}]}}",
                samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
                viols.iter().map(|(c, i, v)| format!("{{\"case\":{c},\"input\":{},\"what\":{}}}", esc(i), esc(v))).collect::<Vec<_>>().join(","));
        }
        _ => { eprintln!("usage: replay run|one|worker ..."); std::process::exit(2) }
    }
}
