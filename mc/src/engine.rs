//! Exhaustive parallel exploration of indexed finite spaces.
//!
//! A space is a finite, fully indexed set of cases. Every index is executed on
//! the real code. The violation reported is always the one with the lowest
//! index of the first violated space, so a failure is deterministic.
use crate::subject::guard;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        let y = (x ^ x >> 32).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 = y ^ y >> 29;
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// another mixing for the merged set: filling a growing table in the iteration
/// order of a table with the same hash function takes quadratic time
#[derive(Default, Clone, Copy)]
pub struct MergeHasher(u64);
impl Hasher for MergeHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        let y = (x ^ x >> 29 ^ 0x2545F4914F6CDD1D).wrapping_mul(0xD6E8FEB86659FD93);
        self.0 = y ^ y >> 32;
    }
}
pub type MergedSet = HashSet<u64, BuildHasherDefault<MergeHasher>>;

const STATE_CAP: usize = 2_000_000; // per worker and space

/// per-worker counters
pub struct Ctx {
    pub calls: u64,
    pub traces: u64,
    pub outcomes: Vec<(&'static str, u64)>,
    pub states: U64Set,
    pub capped: bool,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { calls: 0, traces: 0, outcomes: vec![], states: Default::default(), capped: false }
    }
    #[inline]
    pub fn call(&mut self, n: u64) {
        self.calls += n;
    }
    #[inline]
    pub fn outcome(&mut self, s: &'static str) {
        for o in self.outcomes.iter_mut() {
            if std::ptr::eq(o.0.as_ptr(), s.as_ptr()) && o.0.len() == s.len() {
                o.1 += 1;
                return;
            }
        }
        self.outcomes.push((s, 1));
    }
    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.capped = true;
        }
    }
}

pub struct Space<'a> {
    pub name: String,
    pub n: u64,
    pub describe: Box<dyn Fn(u64) -> String + Sync + 'a>,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Sync + 'a>,
}

#[derive(Default)]
pub struct Totals {
    pub spaces: Vec<(String, u64, u64, f64)>, // name, cases, calls, seconds
    pub cases: u64,
    pub calls: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub states: MergedSet,
    pub states_capped: bool,
    pub samples: Vec<String>,
    pub known_hits: Vec<String>,
    /// extra evidence entries: key, JSON value
    pub notes: Vec<(String, String)>,
}

pub struct Violation {
    pub space: String,
    pub case: String,
    pub msg: String,
}

pub struct Engine {
    pub threads: usize,
    pub known: Vec<String>, // case strings listed as known findings
    pub totals: Totals,
    pub slots: &'static [AtomicU64], // 2 per worker: space number + 1, case index (visible to the supervisor)
    pub space_no: u64,
    /// only print the case with this (space number, index)
    pub describe_only: Option<(u64, u64)>,
    pub on_hang: Box<dyn Fn(&Violation) + Sync>,
}

pub const HANG_S: u64 = 25;

impl Engine {
    pub fn run(&mut self, sp: Space) -> Result<(), Violation> {
        self.space_no += 1;
        let space_no = self.space_no;
        if let Some((s, i)) = self.describe_only {
            if s == space_no {
                println!("CASE {}", (sp.describe)(i));
                std::process::exit(0);
            }
            return Ok(());
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let chunk = (sp.n / (self.threads as u64 * 64)).clamp(1, 4096);
        let progress: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let ctxs: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let known = &self.known;
        let slots = self.slots;
        let on_hang = &self.on_hang;
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..self.threads {
                let (next, best, found, progress, ctxs, sp, known_hits) =
                    (&next, &best, &found, &progress, &ctxs, &sp, &known_hits);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut ctx = Ctx::new();
                            slots[2 * w].store(space_no, Relaxed);
                            loop {
                                let lo = next.fetch_add(chunk, Relaxed);
                                if lo >= sp.n || lo > best.load(Relaxed) {
                                    break;
                                }
                                for i in lo..(lo + chunk).min(sp.n) {
                                    if i > best.load(Relaxed) {
                                        break;
                                    }
                                    progress[w].store(i, Relaxed);
                                    slots[2 * w + 1].store(i, Relaxed);
                                    ctx.traces += 1;
                                    // a panic that no oracle expects is a violation too
                                    let r = guard(|| (sp.run)(i, &mut ctx)).unwrap_or_else(Err);
                                    if let Err(m) = r {
                                        let c = (sp.describe)(i);
                                        if known.iter().any(|k| *k == c) {
                                            known_hits.lock().unwrap().push(c);
                                        } else {
                                            found.lock().unwrap().insert(i, m);
                                            best.fetch_min(i, Relaxed);
                                            break;
                                        }
                                    }
                                }
                            }
                            progress[w].store(u64::MAX, Relaxed);
                            slots[2 * w].store(0, Relaxed);
                            ctxs.lock().unwrap().push(ctx);
                        })
                        .unwrap(),
                );
            }
            // watchdog
            let (progress, done, sp) = (&progress, &done, &sp);
            s.spawn(move || {
                let mut last: Vec<(u64, Instant)> = progress.iter().map(|_| (u64::MAX, Instant::now())).collect();
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for (w, p) in progress.iter().enumerate() {
                        let v = p.load(Relaxed);
                        if v == u64::MAX || v != last[w].0 {
                            last[w] = (v, Instant::now());
                        } else if last[w].1.elapsed() > Duration::from_secs(HANG_S) {
                            let viol = Violation {
                                space: sp.name.clone(),
                                case: (sp.describe)(v),
                                msg: format!("no answer after {HANG_S} s (hang)"),
                            };
                            on_hang(&viol);
                        }
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Relaxed);
        });
        let t = &mut self.totals;
        let mut cases = 0;
        let mut calls = 0;
        for c in ctxs.into_inner().unwrap() {
            cases += c.traces;
            calls += c.calls;
            for (k, v) in c.outcomes {
                *t.outcomes.entry(k.to_string()).or_default() += v;
            }
            t.states_capped |= c.capped;
            if t.states.len() < 16_000_000 {
                t.states.extend(c.states);
            } else {
                t.states_capped = true;
            }
        }
        t.cases += cases;
        t.calls += calls;
        if sp.n > 0 {
            t.samples.push(format!("{}: {}", sp.name, (sp.describe)(sp.n / 2)));
        }
        t.known_hits.extend(known_hits.into_inner().unwrap());
        let secs = t0.elapsed().as_secs_f64();
        eprintln!("  space {:<34} {:>12} cases {:>13} calls {:>7.2}s", sp.name, cases, calls, secs);
        t.spaces.push((sp.name.clone(), cases, calls, secs));
        if let Some((i, m)) = found.into_inner().unwrap().into_iter().next() {
            return Err(Violation { space: sp.name.clone(), case: (sp.describe)(i), msg: m });
        }
        assert_eq!(cases, sp.n, "space not fully covered");
        Ok(())
    }
}
