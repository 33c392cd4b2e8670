//! Exhaustive bounded exploration of the fxd crate against a reference model.
//!   mc check <ID> <quick|thorough>     explore one property (supervised)
//!   mc replay <file|case>              re-run one recorded case
mod alloc;
mod bfs;
mod big;
mod checks;
mod dom;
mod engine;
mod model;
mod more;
mod oa;
mod seq;
mod spaces;
mod subject;

use engine::*;
use std::io::Write;
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
#[global_allocator]
static POOL: alloc::Pool = alloc::Pool;
const NSLOTS: usize = 512;

fn limit_memory(gb: u64) {
    let v = [gb << 30, gb << 30];
    unsafe { setrlimit(9, &v) }; // RLIMIT_AS
}
fn map_slots(path: &str) -> &'static [AtomicU64] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
    let p = unsafe { mmap(std::ptr::null_mut(), NSLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { std::slice::from_raw_parts(p as *const AtomicU64, NSLOTS) }
}

fn root() -> String {
    // the crate lives in <verif>/mc
    std::env::var("MC_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())
}
fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// known findings of one property: (case, description)
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={id} case=")) {
            let (c, d) = r.split_once(" :: ").unwrap_or((r, ""));
            v.push((c.to_string(), d.to_string()));
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(id: &str, tier: &str, t: &Totals, secs: f64, violations: usize, complete: bool) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let spaces: Vec<String> = t
        .spaces
        .iter()
        .map(|(n, c, k, sec)| format!("{{\"space\": {}, \"cases\": {c}, \"calls\": {k}, \"seconds\": {sec:.2}}}", js(n)))
        .collect();
    let outs: Vec<String> = t.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let mut samples = t.samples.clone();
    samples.truncate(40);
    let samples: Vec<String> = samples.iter().map(|x| js(x)).collect();
    s.push_str(&format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n",
        js(id),
        js(tier),
        seed()
    ));
    s.push_str(&format!(
        "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
        t.states.len(),
        t.calls,
        t.cases,
        complete
    ));
    s.push_str(&format!(
        "  \"explanation\": {},\n",
        js("states: distinct values (or, for histories, distinct decimals; for C04, C05 and C22, distinct printed texts) reached, counted by hash; transitions: calls of the operations under judgement on the real crate; traces: enumerated cases, each executed on the real code and compared with the reference model; every space is enumerated completely")
    ));
    if t.states_capped {
        s.push_str("  \"states_note\": \"the set used for counting distinct states was full; the count is a lower bound (every case was still executed)\",\n");
    }
    let sk = dom::SKIPPED.load(Relaxed);
    s.push_str(&format!("  \"operands_not_usable\": {sk},\n  \"build\": {},\n", js(if cfg!(debug_assertions) { "optimised, overflow checks and debug assertions on" } else { "plain release" })));
    for (k, v) in &t.notes {
        s.push_str(&format!("  {}: {},\n", js(k), v));
    }
    s.push_str(&format!("  \"outcome_classes\": {{{}}},\n", outs.join(", ")));
    s.push_str(&format!("  \"spaces\": [{}],\n  \"samples\": [{}]\n }},\n", spaces.join(",\n   "), samples.join(",\n   ")));
    s.push_str(&format!(
        " \"assumptions\": [{}],\n \"wall_s\": {secs:.2}, \"violations\": {violations}\n}}\n",
        js("values outside the enumerated alphabets, sizes and depths are not covered; see DESIGN.md for the bounds")
    ));
    std::fs::write(format!("{dir}/{id}.json"), s).expect("evidence");
}

fn write_replay(id: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = std::fs::canonicalize(&dir).map(|d| d.display().to_string()).unwrap_or(dir);
    let p = format!("{p}/{id}.txt");
    let mut f = std::fs::File::create(&p).expect("replay file");
    let _ = writeln!(f, "property={id}\nspace={}\ncase={}\nmessage={}\n", v.space, v.case, v.msg);
    let _ = writeln!(f, "# replay without exploring: {}/check.sh replay {p}", root());
    let _ = writeln!(f, "# case format: kind;arguments;operands, operands are postfix recipes on the public API");
    p
}

static REPORTED: AtomicBool = AtomicBool::new(false);
fn report(id: &str, v: &Violation) {
    if REPORTED.swap(true, SeqCst) {
        std::thread::sleep(Duration::from_secs(5));
        return;
    }
    let p = write_replay(id, v);
    println!("case: {}\n{}", v.case, v.msg);
    println!("VIOLATION property={id} replay={p}");
    let _ = std::io::stdout().flush();
}

/// re-runs one case in a process of its own: exit code, or None if it died or hung
fn replay_isolated(case: &str, secs: u64) -> Option<i32> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["replay", case])
        .env("MC_REPLAY", "1")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return s.code();
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn child(id: &str, tier: &str, describe: Option<(u64, u64)>) -> ! {
    limit_memory(24);
    subject::install_panic_hook();
    big::selftest();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, NSLOTS / 2);
    let slots = match std::env::var("MC_SLOTS") {
        Ok(p) => map_slots(&p),
        Err(_) => Box::leak((0..NSLOTS).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice()),
    };
    let kn = known(id);
    let (id2, tier2) = (id.to_string(), tier.to_string());
    let t0 = Instant::now();
    let mut eng = Engine {
        threads,
        known: kn.iter().map(|k| k.0.clone()).collect(),
        totals: Totals::default(),
        slots,
        space_no: 0,
        describe_only: describe,
        on_hang: Box::new(move |v| {
            // believed only if the case alone does not finish either
            if replay_isolated(&v.case, 15).is_none() {
                let mut t = Totals::default();
                t.samples.push(v.case.clone());
                write_evidence(&id2, &tier2, &t, t0.elapsed().as_secs_f64(), 1, false);
                report(&id2, v);
                exit(1);
            }
        }),
    };
    let r = subject::guard(|| spaces::explore(id, tier, &mut eng)).unwrap_or_else(|p| {
        // real code called while the operands were built panicked
        Err(Violation { space: "operands".into(), case: format!("whole;{id};{tier}"), msg: p })
    });
    let secs = t0.elapsed().as_secs_f64();
    match r {
        Ok(()) => {
            write_evidence(id, tier, &eng.totals, secs, 0, true);
            for (c, d) in &kn {
                if eng.totals.known_hits.iter().any(|k| k == c) {
                    println!("KNOWN-FINDING: property={id} {c} {d}");
                }
            }
            println!(
                "property={id} tier={tier}: held on {} cases, {} calls of the real code, {} distinct states, {:.1} s",
                eng.totals.cases,
                eng.totals.calls,
                eng.totals.states.len(),
                secs
            );
            exit(0)
        }
        Err(v) => {
            write_evidence(id, tier, &eng.totals, secs, 1, false);
            report(id, &v);
            exit(1)
        }
    }
}

fn supervise(id: &str, tier: &str) -> ! {
    let slots_path = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
    std::fs::write(&slots_path, vec![0u8; NSLOTS * 8]).expect("slots file");
    let sp = slots_path.display().to_string();
    let slots = map_slots(&sp);
    let me = std::env::current_exe().unwrap();
    let st = Command::new(&me).args(["child", id, tier]).env("MC_SLOTS", &sp).status().expect("spawn");
    let _ = std::fs::remove_file(&slots_path);
    match st.code() {
        Some(c @ (0 | 1)) => exit(c),
        Some(c) => {
            eprintln!("exploration ended with exit code {c}");
            exit(2)
        }
        None => {
            // the process was killed by a signal: which case does it alone?
            eprintln!("exploration died: {st}; re-running the cases that were in progress");
            for w in 0..NSLOTS / 2 {
                let (s, i) = (slots[2 * w].load(Relaxed), slots[2 * w + 1].load(Relaxed));
                if s == 0 {
                    continue;
                }
                let o = Command::new(&me).args(["describe", id, tier, &s.to_string(), &i.to_string()]).output().expect("describe");
                let out = String::from_utf8_lossy(&o.stdout).to_string();
                if let Some(case) = out.lines().find_map(|l| l.strip_prefix("CASE ")) {
                    if replay_isolated(case, 30).is_none() {
                        let v = Violation { space: format!("#{s}"), case: case.into(), msg: "the process dies or hangs".into() };
                        let mut t = Totals::default();
                        t.samples.push(case.into());
                        write_evidence(id, tier, &t, 0.0, 1, false);
                        report(id, &v);
                        exit(1)
                    }
                }
            }
            exit(3)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s.as_slice() {
        ["check", id, tier] => supervise(id, tier),
        ["child", id, tier] => child(id, tier, None),
        ["describe", id, tier, sp, ix] => child(id, tier, Some((sp.parse().unwrap(), ix.parse().unwrap()))),
        ["selftest"] => {
            big::selftest();
            println!("ok");
        }
        ["replay", c] => {
            if std::env::var_os("MC_REPLAY").is_some() {
                limit_memory(4);
            }
            subject::install_panic_hook();
            let case = match std::fs::read_to_string(c) {
                Ok(t) => t.lines().find_map(|l| l.strip_prefix("case=")).expect("no case= line").to_string(),
                Err(_) => c.to_string(),
            };
            match spaces::replay(&case) {
                Ok(()) => println!("holds: {case}"),
                Err(m) => {
                    println!("fails: {case}\n{m}");
                    exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> <quick|thorough> | replay <file|case>");
            exit(2)
        }
    }
}
