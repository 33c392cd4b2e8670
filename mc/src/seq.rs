//! Sequences of two calls on unrelated decimals: what a call gives must not depend
//! on the call before it (fxd keeps nothing between calls). The cases are families of
//! decimals that differ in one respect only, as a cache would confuse them.
use crate::checks;
use crate::dom::U;
use crate::engine::*;
use crate::spaces::*;
use crate::subject::*;
use fxd::FixedDecimal;

type V = Result<(), Violation>;
type R = Result<(), String>;
type Case<'a> = (String, Box<dyn Fn(&mut Ctx) -> R + Sync + 'a>);

/// decimals of many layouts, each with variants that differ in one group, the sign or the scale
fn family() -> Vec<String> {
    let mut v = vec![];
    let base = [123_456_789u32, 987_654_321, 500_000_000, 31_415_926];
    for (i, f) in [(1usize, 0usize), (2, 0), (3, 0), (7, 0), (1, 1), (2, 1), (2, 2), (3, 2), (5, 2), (0, 1), (0, 2), (1, 4), (4, 3)] {
        let n = i + f;
        let text = |g: &[u32], cut: usize| {
            let mut s = String::new();
            for k in (0..n).rev() {
                if k + 1 == f {
                    s.push('.');
                }
                s += &format!("{:09}", g[k]);
            }
            s.truncate(s.len() - cut);
            s
        };
        let g: Vec<u32> = (0..n).map(|k| base[k % 4]).collect();
        if f > 0 {
            // the same groups with another scale, and one more group of zeros
            for cut in [0, 1, 8] {
                let mut h = g.clone();
                h[0] = 200_000_000;
                v.push(text(&h, cut));
            }
            if n < 7 {
                v.push(format!("{}000000000", text(&g, 0)));
            }
        }
        v.push(text(&g, 0));
        v.push(format!("-{}", text(&g, 0)));
        if n < 7 {
            v.push(format!("000000000{}", text(&g, 0)));
        }
        for k in 0..n {
            for c in [0, U - 1, g[k] + 1] {
                let mut h = g.clone();
                h[k] = c;
                v.push(text(&h, 0));
            }
        }
    }
    v.extend(["0".to_string(), "1".into(), "-1".into(), "0.000".into(), "10".into(), "100".into(), "1.5".into(), "-1.5".into()]);
    v
}
fn partners(v: &[Operand]) -> Vec<(usize, usize)> {
    let n = v.len();
    let find = |t: &str| v.iter().position(|o| o.recipe == t);
    let mut p = vec![];
    for k in 0..n {
        p.push((k, (k + 1) % n));
        p.push(((k + 7) % n, k));
        for t in ["1.5", "123456789987654321"] {
            if let Some(c) = find(t) {
                p.push((k, c));
                p.push((c, k));
            }
        }
    }
    p
}

fn all_pairs(e: &mut Engine, cases: &[Case]) -> V {
    let n = cases.len() as u64;
    e.run(Space {
        name: format!("every two of {n} calls one after the other"),
        n: n * n,
        describe: Box::new(move |i| format!("after {} then {}", cases[(i / n) as usize].0, cases[(i % n) as usize].0)),
        run: Box::new(move |i, c| {
            let _ = cases[(i / n) as usize].1(c);
            cases[(i % n) as usize].1(c).map_err(|m| format!("{m} (the call before: {})", cases[(i / n) as usize].0))
        }),
    })
}

/// every three calls, of about 200 spread over the cases
fn all_triples(e: &mut Engine, cases: &[Case]) -> V {
    let few: Vec<&Case> = cases.iter().step_by(cases.len() / 200 + 1).collect();
    let (n, few) = (few.len() as u64, &few);
    let at = move |i: u64| few[(i % n) as usize];
    e.run(Space {
        name: format!("every three of {n} calls one after the other"),
        n: n * n * n,
        describe: Box::new(move |i| format!("after {} then after {} then {}", at(i / n / n).0, at(i / n).0, at(i).0)),
        run: Box::new(move |i, c| {
            let _ = at(i / n / n).1(c);
            let _ = at(i / n).1(c);
            at(i).1(c).map_err(|m| format!("{m} (the calls before: {} and {})", at(i / n / n).0, at(i / n).0))
        }),
    })
}

/// the outcome of a call, as a text
pub type Call<'a> = (String, Box<dyn Fn() -> String + Sync + 'a>);
fn outcome(r: Result<Result<FixedDecimal, E>, String>) -> String {
    match r {
        Ok(Ok(x)) => match guard(|| x.to_string(-1)) {
            Ok(s) => format!("{s} scale {} negative {} zero {}", x.frac(), x.is_neg(), x.is_zero()),
            Err(p) => format!("panic when printed {p}"),
        },
        Ok(Err(e)) => format!("{e:?}"),
        Err(_) => "panic".into(),
    }
}
fn mixed<'a>(v: &'a [Operand], ps: &[(usize, usize)]) -> Vec<Call<'a>> {
    let mut calls: Vec<Call> = vec![];
    for (k, o) in v.iter().enumerate() {
        let n = [-1isize, 0, 5, 9, 12, 40][k % 6];
        calls.push((format!("print;{n};{}", o.recipe), Box::new(move || guard(|| o.fd.to_string(n)).unwrap_or("panic".into()))));
        let n = [-9isize, -4, 0, 5, 9, 20][k % 6];
        calls.push((
            format!("round;{n};{}", o.recipe),
            Box::new(move || {
                outcome(guard(|| {
                    let mut x = o.fd.clone();
                    x.round(n);
                    Ok(x)
                }))
            }),
        ));
        calls.push((
            format!("roundto;{n};{}", o.recipe),
            Box::new(move || {
                outcome(guard(|| {
                    let mut x = FixedDecimal::zero();
                    o.fd.round_to(&mut x, n);
                    Ok(x)
                }))
            }),
        ));
        calls.push((format!("parse;{}", o.recipe), Box::new(move || outcome(guard(|| o.recipe.parse().map_err(|e| kind(&e)))))));
        calls.push((format!("toint;{}", o.recipe), Box::new(move || format!("{:?}", guard(|| (o.fd.as_i64().ok(), o.fd.as_u64().ok(), checks::hash_of(&o.fd)))))));
    }
    for (k, (a, b)) in ps.iter().enumerate() {
        let (x, y) = (&v[*a], &v[*b]);
        let op = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Rem][k / 2 % 5];
        calls.push((
            format!("{};{};{}", op.name(), x.recipe, y.recipe),
            Box::new(move || {
                let mut r = FixedDecimal::zero();
                outcome(op.exec(&x.fd, &y.fd, &mut r).map(|q| q.map(|_| r)))
            }),
        ));
        if k % 4 == 0 {
            calls.push((format!("cmp;{};{}", x.recipe, y.recipe), Box::new(move || format!("{:?}", guard(|| (x.fd.cmp(&y.fd), x.fd == y.fd, x.fd < y.fd))))));
        }
    }
    calls
}
fn unrelated(e: &mut Engine, v: &[Operand], ps: &[(usize, usize)]) -> V {
    let calls = mixed(v, ps);
    let n = calls.len() as u64;
    let alone: Vec<String> = calls.iter().map(|c| c.1()).collect();
    e.run(Space {
        name: format!("every two of {n} calls of all kinds one after the other"),
        n: n * n,
        describe: Box::new(|i| format!("calls {} then {}", calls[(i / n) as usize].0, calls[(i % n) as usize].0)),
        run: Box::new(|i, c| {
            calls[(i / n) as usize].1();
            let got = calls[(i % n) as usize].1();
            c.call(2);
            c.outcome("agrees with the same call elsewhere");
            if got != alone[(i % n) as usize] {
                return Err(format!("gives {got} here and {} elsewhere", alone[(i % n) as usize]));
            }
            Ok(())
        }),
    })
}
/// two calls, the second also in a thread of its own
pub fn replay_calls(first: &str, second: &str) -> R {
    let v = ops(family());
    let ps = partners(&v);
    let find = |s: &str| mixed(&v, &ps).into_iter().find(|c| c.0 == s).ok_or(format!("no such call {s:?}"));
    let (a, b) = (find(first)?, find(second)?);
    let alone = std::thread::scope(|s| s.spawn(|| b.1()).join()).map_err(|_| "panic")?;
    a.1();
    let got = b.1();
    if got != alone {
        return Err(format!("gives {got} here and {alone} elsewhere"));
    }
    Ok(())
}

pub fn run(id: &str, e: &mut Engine, thorough: bool) -> V {
    let v = ops(family());
    let ps = partners(&v);
    if id == "C19" {
        return unrelated(e, &v, &ps);
    }
    let z = FixedDecimal::zero();
    let (ds, dd) = (checks::dests(), checks::dirty());
    let mut cases: Vec<Case> = vec![];
    let bin = |id: &str| match id {
        "C06" => Some(Bin::Add),
        "C07" => Some(Bin::Sub),
        "C10" => Some(Bin::Div(4)),
        "C11" => Some(Bin::Rem),
        _ => None,
    };
    if let Some(op) = bin(id) {
        for (a, b) in &ps {
            let (x, y, z) = (&v[*a], &v[*b], &z);
            cases.push((format!("bin;{};{};{}", op.name(), x.recipe, y.recipe), Box::new(move |c| checks::bin(op, x, y, z, false, c))));
        }
    }
    let all = all_ops();
    for (k, (a, b)) in ps.iter().enumerate() {
        let (x, y, z, ds) = (&v[*a], &v[*b], &z, &ds);
        let op = all[k % all.len()];
        match id {
            "C08" | "C09" => {
                let fits = id == "C08";
                cases.push((format!("mul{};{};{}", if fits { "fit" } else { "big" }, x.recipe, y.recipe), Box::new(move |c| mul_half(x, y, fits, z, c))))
            }
            "C14" => cases.push((format!("cmp;{};{}", x.recipe, y.recipe), Box::new(move |c| checks::cmp(x, y, true, c)))),
            "C18" if k % 8 < 2 => cases.push((format!("form;{};{};{}", op.name(), x.recipe, y.recipe), Box::new(move |c| checks::form(op, x, y, ds, c)))),
            "C20" if k % 2 == 0 => cases.push((format!("zres;{};{};{}", op.name(), x.recipe, y.recipe), Box::new(move |c| checks::zero_result(op, x, y, c)))),
            "C21" => {
                let op = [Bin::Div(4), Bin::Rem][k / 2 % 2];
                cases.push((format!("dz;{};{};{}", op.name(), x.recipe, y.recipe), Box::new(move |c| checks::divzero(op, x, y, c))))
            }
            "C22" => cases.push((format!("nc;{};{};{}", op.name(), x.recipe, y.recipe), Box::new(move |c| checks::nocrash_bin(op, x, y, false, c)))),
            _ => {}
        }
    }
    for o in &v {
        let (dd, ds, t) = (&dd, &ds, &o.recipe);
        let ns = [-10isize, -9, -1, 0, 4, 9, 13, 18, 27];
        match id {
            "C01" => cases.push((format!("parse;true;{t}"), Box::new(move |c| checks::parse_case(t.as_bytes(), true, c, dd)))),
            "C02" => {
                for s in [format!("{t}x"), format!("{t}e"), format!("{t}.1.")] {
                    cases.push((format!("parse;false;{s}"), Box::new(move |c| checks::parse_case(s.as_bytes(), false, c, dd))));
                }
            }
            "C03" => {
                // as a whole, cut, and with another scale in the same groups
                cases.push((format!("render;{t}"), Box::new(move |c| checks::render(o, c))));
                cases.push((format!("rendround;{};{t}", o.d.scale + 1), Box::new(move |c| render_rounded(o, o.d.scale as isize + 1, c))));
            }
            "C04" => {
                for n in ns.into_iter().filter(|n| *n >= -1) {
                    cases.push((format!("rendern;{n};{t}"), Box::new(move |c| checks::render_n(o, &o.d.text(), n, c))));
                }
            }
            "C05" => {
                cases.push((format!("rt;{t}"), Box::new(move |c| checks::roundtrip_fd(&o.fd, c))));
                cases.push((format!("rtround;{};{t}", o.d.scale + 1), Box::new(move |c| round_roundtrip(o, o.d.scale as isize + 1, c))));
            }
            "C12" => {
                for n in ns {
                    cases.push((format!("round;{n};{t}"), Box::new(move |c| checks::round(o, n, dd, c))));
                }
            }
            "C13" => {
                for n in [-9isize, 0, 9, 13] {
                    cases.push((format!("roundagree;{n};{t}"), Box::new(move |c| checks::round_agree(o, n, &ds[..2], c))));
                }
            }
            "C15" => cases.push((format!("hashtwin;{t} 1 +"), Box::new(move |c| hash_twin(&format!("{t} 1 +"), c)))),
            "C17" => cases.push((format!("toint;{t}"), Box::new(move |c| checks::to_int(o, c)))),
            "C20" => cases.push((format!("zround;0;{t}"), Box::new(move |c| checks::zero_round(o, 0, c)))),
            _ => {}
        }
    }
    if id == "C16" {
        for k in 0..64u32 {
            for n in [1u64 << k, (1u64 << k) - 1, 10u64.pow(k.min(19)), 10u64.pow(k.min(19)) - 1, !0u64 >> k, (k as u64) * 1_000_000_007] {
                cases.push((format!("fromu;{n}"), Box::new(move |c| checks::from_u64(n, c))));
                let n = (n as i64).wrapping_neg();
                cases.push((format!("fromi;{n}"), Box::new(move |c| checks::from_i64(n, c))));
            }
        }
    }
    all_pairs(e, &cases)?;
    if thorough {
        all_triples(e, &cases)?;
    }
    Ok(())
}
