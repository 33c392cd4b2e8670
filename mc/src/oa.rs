//! Orthogonal arrays of group contents: for every layout of the operands, a set
//! of contents in which any `t` groups (of either operand) run over every
//! combination of contents. The array over GF(19) has 20 columns: nine groups of
//! each operand, the digits shown of the outermost groups, and the signs.
use crate::checks;
use crate::big::{pow10, Big};
use crate::dom::U;
use crate::engine::*;
use crate::model::Dec;
use crate::more::sound;
use crate::spaces::*;
use crate::subject::*;

type V = Result<(), Violation>;
type R = Result<(), String>;

pub const Q: u64 = 19;
const NONE: Run = (0, 0, 0);

/// entry of the Reed-Solomon array of the given strength
fn entry(row: u64, t: u32, col: u64) -> u64 {
    if col == Q {
        return row / Q.pow(t - 1) % Q;
    }
    let (mut r, mut x, mut s) = (row, 1, 0);
    for _ in 0..t {
        s += r % Q * x;
        x = x * col % Q;
        r /= Q;
    }
    s % Q
}

const PLAIN: [u32; 19] =
    [0, 1, U - 1, U / 2, U / 2 - 1, 314_159_265, 718_281_828, U - 2, 10, 100_000_000, 99_999_999, 3, 999_999, 123_456_789, U / 2 + 1, 1000, 333_333_333, 666_666_667, 2];
/// digits shown of the highest and the lowest group of both operands
fn shown(k: usize) -> [usize; 4] {
    match k {
        0 => [9; 4],
        1..=9 => [9, k, 9, 10 - k],
        k => [k - 9, k - 9, 19 - k, k - 9],
    }
}

/// integer and fraction groups
pub fn layouts() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for t in 1..10 {
        for f in 0..5usize.min(t + 1) {
            if f > 0 || t < 9 {
                v.push((t - f, f));
            }
        }
    }
    v
}

/// contents, lowest group first, cut to the digits that are shown
struct Num {
    i: usize,
    f: usize,
    g: [u32; 9],
    top: usize,
    low: usize,
}
impl Num {
    fn new(l: (usize, usize), top: usize, low: usize) -> Num {
        let (i, f) = l;
        let (mut top, mut low) = (if i > 0 { top } else { 9 }, if f > 0 { low } else { 9 });
        // at most 65 digits can be written
        let over = |top: usize, low: usize| ((i + f) * 9 + top + low).saturating_sub(18 + 65);
        top -= over(top, low).min(top - 1);
        low -= over(top, low);
        Num { i, f, g: [0; 9], top, low }
    }
    fn n(&self) -> usize {
        self.i + self.f
    }
    fn set(&mut self, k: usize, mut c: u32) {
        if k + 1 == self.n() && self.i > 0 {
            c %= 10u32.pow(self.top as u32);
        }
        if k == 0 && self.f > 0 {
            c -= c % 10u32.pow(9 - self.low as u32);
        }
        self.g[k] = c;
    }
    fn text(&self, neg: bool) -> String {
        let mut s = String::with_capacity(72);
        if neg {
            s.push('-');
        }
        for k in (0..self.n()).rev() {
            if k + 1 == self.f {
                s.push('.');
            }
            let mut d = [b'0'; 9];
            let mut c = self.g[k];
            for x in d.iter_mut().rev() {
                *x += (c % 10) as u8;
                c /= 10;
            }
            let from = if k + 1 == self.n() && self.i > 0 { 9 - self.top } else { 0 };
            let to = if k == 0 && self.f > 0 { self.low } else { 9 };
            s.push_str(std::str::from_utf8(&d[from..to]).unwrap());
        }
        s
    }
}

/// a run of groups of one content: first group, length, content
type Run = (usize, usize, u32);

/// runs of two or more zero or nine groups from the lowest one (or from any)
fn runs(anywhere: bool) -> Vec<Run> {
    let mut v = vec![(0, 0, 0)];
    for from in 0..if anywhere { 4 } else { 1 } {
        for len in 2..5 {
            v.extend([(from, len, 0), (from, len, U - 1)]);
        }
    }
    v
}

/// the texts of both operands and the level of the last column
fn texts(la: (usize, usize), lb: (usize, usize), row: u64, t: u32, ra: Run, rb: Run) -> (String, String, u64) {
    let sh = shown(entry(row, t, 18) as usize);
    let last = entry(row, t, 19);
    let mut a = Num::new(la, sh[0], sh[1]);
    for k in 0..a.n() {
        a.set(k, if k >= ra.0 && k < ra.0 + ra.1 { ra.2 } else { PLAIN[entry(row, t, k as u64) as usize] });
    }
    let mut b = Num::new(lb, sh[2], sh[3]);
    for k in 0..b.n() {
        // the group of the first operand at the same distance from the point, or from the top
        let at = |k: isize| if k >= 0 && k < a.n() as isize { a.g[k as usize] } else { 0 };
        let (p, q) = (at(k as isize + a.f as isize - b.f as isize), at(k as isize + a.n() as isize - b.n() as isize));
        let e = entry(row, t, 9 + k as u64) as usize;
        let c = match e {
            11 => p,
            12 => U - 1 - p,
            13 => (U - p) % U,
            14 => p.max(1) - 1,
            15 => (p + 1).min(U - 1),
            16 => q,
            17 => (q + 1).min(U - 1),
            e => PLAIN[e],
        };
        b.set(k, if k >= rb.0 && k < rb.0 + rb.1 { rb.2 } else { c });
    }
    (a.text(last % 2 == 1), b.text(last / 2 % 2 == 1), last)
}

fn two(e: &mut Engine, t: u32, ls: &[(usize, usize)], rs: &[Run], d: impl Fn(&str, &str, u64) -> String + Sync, f: impl Fn(&Operand, &Operand, u64, &mut Ctx) -> R + Sync) -> V {
    let (rows, n, k) = (Q.pow(t), ls.len() as u64, rs.len() as u64);
    let parts = move |i: u64| {
        let (i, l) = (i / (n * n), i % (n * n));
        let (i, r) = (i / rows, i % rows);
        (ls[(l / n) as usize], ls[(l % n) as usize], r, rs[(i / k) as usize], rs[(i % k) as usize])
    };
    let ix = move |i: u64| {
        let (la, lb, row, ra, rb) = parts(i);
        texts(la, lb, row, t, ra, rb)
    };
    e.run(Space {
        name: format!("any {t} groups of both operands, {n} layouts{}", if k > 1 { ", runs of zero and nine groups" } else { "" }),
        n: rows * n * n * k * k,
        describe: Box::new(move |i| {
            let (a, b, l) = ix(i);
            d(&a, &b, l)
        }),
        run: Box::new(move |i, c| {
            let (la, lb, _, ra, rb) = parts(i);
            if ra.0 + ra.1 > la.0 + la.1 || rb.0 + rb.1 > lb.0 + lb.1 || k > 1 && ra.1 + rb.1 == 0 {
                return Ok(()); // no such run, or in another space
            }
            let (a, b, l) = ix(i);
            match (sound(&a), sound(&b)) {
                (Some(a), Some(b)) => f(&a, &b, l, c),
                _ => {
                    c.outcome("operand not built as modelled");
                    Ok(())
                }
            }
        }),
    })
}

fn one<P: Sync>(e: &mut Engine, name: &str, t: u32, ps: &[P], d: impl Fn(&str, &P) -> String + Sync, f: impl Fn(&Operand, &P, &mut Ctx) -> R + Sync) -> V {
    let ls = layouts();
    let (rows, np, ls) = (Q.pow(t), ps.len() as u64, &ls);
    let ix = move |i: u64| (texts(ls[(i / np / rows) as usize], (1, 0), i / np % rows, t, NONE, NONE).0, &ps[(i % np) as usize]);
    e.run(Space {
        name: format!("any {t} groups, all layouts{name}"),
        n: rows * ls.len() as u64 * np,
        describe: Box::new(move |i| {
            let (s, p) = ix(i);
            d(&s, p)
        }),
        run: Box::new(move |i, c| {
            let (s, p) = ix(i);
            let Some(o) = sound(&s) else {
                c.outcome("operand not built as modelled");
                return Ok(());
            };
            f(&o, p, c)
        }),
    })
}

/// dividends from quotients and divisors with any `t` groups of either and of the
/// remainder's kind over every combination
fn quotients(e: &mut Engine, t: u32, max: usize, ls: &[(usize, usize, Bin)]) -> V {
    let rows = Q.pow(t);
    let sizes: Vec<(usize, usize)> = (1..max).flat_map(|q| (1..=max - q).map(move |b| (q, b))).collect();
    let (nl, sizes) = (ls.len() as u64, &sizes);
    let make = move |i: u64| -> Option<(Operand, Operand, Bin)> {
        let (sa, sb, op) = ls[(i % nl) as usize];
        let (row, s) = (i / nl % rows, sizes[(i / nl / rows) as usize]);
        let (q, b, last) = texts((s.0, 0), (s.1, 0), row, t, NONE, NONE);
        let mag = |s: &str| Big::from_digits(s.trim_start_matches('-').as_bytes());
        let (q, b) = (mag(&q), mag(&b));
        if b.is_zero() {
            return None;
        }
        let r = match last % 5 {
            0 => Big::zero(),
            1 => b.sub(&Big::from_u64(1)),
            2 => Big::from_u64(if b == Big::from_u64(1) { 0 } else { 1 }),
            3 => b.divrem(&Big::from_u64(2)).0,
            _ => b.sub(&b.divrem(&Big::from_u64(1000)).0.add(&Big::from_u64(1))),
        };
        let (na, nb) = (last / 5 % 2 == 1, last / 10 == 1);
        Some((from_dec(&Dec::new(na, q.mul(&b).add(&r), sa))?, from_dec(&Dec::new(nb, b, sb))?, op))
    };
    let z = fxd::FixedDecimal::zero();
    e.run(Space {
        name: format!("dividends from quotients: any {t} groups of quotient, divisor and remainder, up to {max} groups"),
        n: rows * sizes.len() as u64 * nl,
        describe: Box::new(move |i| match make(i) {
            Some((x, y, op)) => format!("bin;{};{};{}", op.name(), x.recipe, y.recipe),
            None => "none".into(),
        }),
        run: Box::new(move |i, c| match make(i) {
            Some((x, y, op)) => checks::bin(op, &x, &y, &z, false, c),
            None => {
                c.outcome("dividend beyond 65 digits, or no divisor");
                Ok(())
            }
        }),
    })
}

/// the inverse of `a` (prime to ten) modulo 10^k
fn inverse(a: &Big, k: usize) -> Big {
    let m = pow10(k);
    let a = a.divrem(m).1;
    // the inverse modulo 10 of the last digit, then twice as many digits at each step
    let last = a.divrem(&Big::from_u64(10)).1.to_u64().unwrap_or(1);
    let mut x = Big::from_u64(match last {
        3 => 7,
        7 => 3,
        d => d,
    });
    let mut n = 1;
    while n < k {
        n = (2 * n).min(k);
        let m = pow10(n);
        let ax = a.mul(&x).divrem(m).1;
        x = x.mul(&m.add(&Big::from_u64(2)).sub(&ax)).divrem(m).1;
    }
    x
}

/// factors from products: any `t` groups of a factor and of the product's highest
/// (or lowest) groups over every combination
fn products(e: &mut Engine, t: u32, max: usize, low: bool, fits: bool) -> V {
    let ls = [(0usize, 0usize), (9, 0), (5, 3), (18, 18), (30, 6), (0, 9), (13, 14), (30, 30), (20, 18), (27, 27), (10, 28), (45, 9), (9, 40)];
    let rows = Q.pow(t);
    let sizes: Vec<(usize, usize)> =
        if low { (1..=max).flat_map(|a| (1..=max).map(move |p| (a, p))).collect() } else { (1..max).flat_map(|a| (a + 1..=max).map(move |p| (a, p))).collect() };
    let (nl, sizes) = (ls.len() as u64, &sizes);
    let make = move |i: u64| -> Option<(Operand, Operand)> {
        let (sa, sb) = ls[(i % nl) as usize];
        let (row, s) = (i / nl % rows, sizes[(i / nl / rows) as usize]);
        let (a, p, last) = texts((s.0, 0), (s.1, 0), row, t, NONE, NONE);
        let mag = |s: &str| Big::from_digits(s.trim_start_matches('-').as_bytes());
        let (mut a, p) = (mag(&a), mag(&p));
        let b = if low {
            while !matches!(a.divrem(&Big::from_u64(10)).1.to_u64(), Some(1 | 3 | 7 | 9)) {
                a = a.add(&Big::from_u64(1));
            }
            p.mul(&inverse(&a, 9 * s.1)).divrem(pow10(9 * s.1)).1
        } else {
            if a.is_zero() {
                return None;
            }
            p.divrem(&a).0.add(&Big::from_u64(last / 4 % 2))
        };
        Some((from_dec(&Dec::new(last % 2 == 1, a, sa))?, from_dec(&Dec::new(last / 2 % 2 == 1, b, sb))?))
    };
    let z = fxd::FixedDecimal::zero();
    e.run(Space {
        name: format!("factors from products: any {t} groups of a factor and the product's {} groups, up to {max}", if low { "lowest" } else { "highest" }),
        n: rows * sizes.len() as u64 * nl,
        describe: Box::new(move |i| match make(i) {
            Some((x, y)) => format!("mul{};{};{}", if fits { "fit" } else { "big" }, x.recipe, y.recipe),
            None => "none".into(),
        }),
        run: Box::new(move |i, c| match make(i) {
            Some((x, y)) => mul_half(&x, &y, fits, &z, c),
            None => {
                c.outcome("factor beyond 65 digits");
                Ok(())
            }
        }),
    })
}

/// the texts of an array of strength `t` in every layout
pub fn contents(t: u32) -> Vec<String> {
    let ls = layouts();
    (0..Q.pow(t)).flat_map(|row| ls.iter().map(move |l| texts(*l, (1, 0), row, t, NONE, NONE).0).collect::<Vec<_>>()).collect()
}

/// up to `n` groups in all
fn small(n: usize) -> Vec<(usize, usize)> {
    layouts().into_iter().filter(|l| l.0 + l.1 <= n).collect()
}

const EXPS: [&str; 27] = [
    "", "e-30", "e-28", "e-27", "e-26", "e-19", "e-18", "e-17", "e-14", "e-10", "e-9", "e-8", "e-5", "e-1", "e1", "E+4", "e8", "e9", "e10", "e17", "e18", "e19", "e27", "e28", "e36",
    "e45", "e64",
];

pub fn run(id: &str, e: &mut Engine, thorough: bool) -> V {
    let z = fxd::FixedDecimal::zero();
    let ds = checks::dests();
    let dd = checks::dirty();
    // strength and layouts, both operands
    let none = vec![NONE];
    let plan: Vec<(u32, Vec<(usize, usize)>, Vec<Run>)> = if thorough {
        vec![(5, small(2), none.clone()), (4, layouts(), none.clone()), (2, layouts(), runs(true))]
    } else {
        vec![(4, small(3), none.clone()), (3, layouts(), none.clone()), (2, layouts(), runs(false))]
    };
    // strength, one operand
    let t = if thorough { 4 } else { 3 };
    let round_at: Vec<isize> = if thorough {
        (-82..=45).collect()
    } else {
        vec![-64, -63, -55, -54, -46, -45, -37, -36, -28, -27, -19, -18, -14, -10, -9, -8, -5, -1, 0, 1, 4, 5, 8, 9, 10, 13, 17, 18, 19, 22, 26, 27, 28, 29, 30, 31]
    };
    let counts: Vec<isize> = (0..=37).collect();
    match id {
        "C06" | "C07" | "C10" | "C11" => {
            let op = |l: u64| match id {
                "C06" => Bin::Add,
                "C07" => Bin::Sub,
                "C10" => Bin::Div([4, 0, 1, 9, 30][(l / 4) as usize]),
                _ => Bin::Rem,
            };
            for (t, ls, rs) in &plan {
                two(e, *t, ls, rs, |a, b, l| format!("bin;{};{a};{b}", op(l).name()), |a, b, l, c| checks::bin(op(l), a, b, &z, false, c))?;
            }
            let o = |n: usize| if id == "C10" { Bin::Div(n) } else { Bin::Rem };
            let lay: Vec<(usize, usize, Bin)> = match id {
                "C10" => vec![(0, 0, o(0)), (0, 0, o(4)), (9, 0, o(0)), (0, 9, o(0)), (5, 3, o(4)), (18, 27, o(0)), (27, 9, o(30)), (1, 0, o(18))],
                "C11" => vec![(0, 0, o(0)), (9, 0, o(0)), (0, 9, o(0)), (5, 3, o(0)), (27, 9, o(0)), (9, 27, o(0))],
                _ => vec![],
            };
            if !lay.is_empty() {
                quotients(e, t, 8, &lay)?;
                quotients(e, t + 1, if thorough { 4 } else { 5 }, &lay[..if thorough { 2 } else { lay.len() }])?;
            }
        }
        "C08" | "C09" => {
            let fits = id == "C08";
            for (t, ls, rs) in &plan {
                two(e, *t, ls, rs, |a, b, _| format!("mul{};{a};{b}", if fits { "fit" } else { "big" }), |a, b, _, c| mul_half(a, b, fits, &z, c))?;
            }
            products(e, t, if thorough { 6 } else { 8 }, false, fits)?;
            products(e, t + 1, if thorough { 4 } else { 5 }, false, fits)?;
            products(e, 3, if thorough { 6 } else { 4 }, true, fits)?;
        }
        "C14" => {
            for (t, ls, rs) in &plan {
                two(e, *t, ls, rs, |a, b, _| format!("cmp;{a};{b}"), |a, b, _, c| checks::cmp(a, b, true, c))?;
            }
        }
        "C18" => {
            let os = all_ops();
            let n = os.len() as u64;
            two(
                e,
                t - 1,
                &layouts(),
                &none,
                |a, b, l| format!("form;{};{a};{b}", os[(l % n) as usize].name()),
                |a, b, l, c| checks::form(os[(l % n) as usize], a, b, &ds, c),
            )?;
        }
        "C12" => one(e, " x positions", t, &round_at, |a, n| format!("round;{n};{a}"), |o, n, c| checks::round(o, *n, &dd, c))?,
        "C13" => one(e, " x positions", t - 1, &round_at, |a, n| format!("roundagree;{n};{a}"), |o, n, c| checks::round_agree(o, *n, &ds, c))?,
        "C01" | "C02" => {
            let ls = layouts();
            let (rows, np, ls, valid) = (Q.pow(t), EXPS.len() as u64, &ls, id == "C01");
            let text = move |i: u64| texts(ls[(i / np / rows) as usize], (1, 0), i / np % rows, t, NONE, NONE).0 + EXPS[(i % np) as usize];
            e.run(Space {
                name: format!("any {t} groups, all layouts x exponents"),
                n: rows * ls.len() as u64 * np,
                describe: Box::new(move |i| format!("parse;{valid};{}", text(i))),
                run: Box::new(|i, c| checks::parse_case(text(i).as_bytes(), valid, c, &dd)),
            })?;
        }
        "C03" => {
            one(e, "", t, &[()], |a, _| format!("render;{a}"), |o, _, c| checks::render(o, c))?;
            let os = all_ops();
            let op = |l: u64| os[l as usize % os.len()];
            two(e, 3, &layouts(), &none, |a, b, l| format!("rop;{};{a};{b}", op(l).name()), |a, b, l, c| render_result(op(l), a, b, c))?;
        }
        "C04" => one(
            e,
            " x digit counts",
            3,
            &counts,
            |a, n| format!("rendern;{n};{a}"),
            |o, n, c| {
                let full = guard(|| o.fd.to_string(-1))?;
                checks::render_n(o, &full, *n, c)
            },
        )?,
        "C05" => {
            one(e, "", t, &[()], |a, _| format!("rt;{a}"), |o, _, c| checks::roundtrip_fd(&o.fd, c))?;
            let os = all_ops();
            let op = |l: u64| os[l as usize % os.len()];
            two(e, 3, &layouts(), &none, |a, b, l| format!("rtbin;{};{a};{b}", op(l).name()), |a, b, l, c| checks::bin_roundtrip(op(l), a, b, c))?;
        }
        "C15" => {
            let routes = ["", " 1 +", " 0.5 -", " 1.5 *", " 3 /", " r2", " r-3", " 7 %", " 1.000000000 *"];
            one(e, ", results against twins", t.min(3), &routes, |a, r| format!("hashtwin;{a}{r}"), |o, r, c| hash_twin(&format!("{}{r}", o.recipe), c))?;
            let os = all_ops();
            let op = |l: u64| os[l as usize % os.len()];
            two(
                e,
                2,
                &layouts(),
                &none,
                |a, b, l| format!("hashtwin;{a} {b} {}", op(l).name()),
                |a, b, l, c| hash_twin(&format!("{} {} {}", a.recipe, b.recipe, op(l).name()), c),
            )?
        }
        "C20" => {
            let os = all_ops();
            let op = |l: u64| os[l as usize % os.len()];
            one(e, ", signs", 3, &[()], |a, _| format!("signs;{a}"), |o, _, c| checks::signs(o, c))?;
            one(e, " x positions", t - 1, &round_at, |a, n| format!("zround;{n};{a}"), |o, n, c| checks::zero_round(o, *n, c))?;
            two(e, 3, &layouts(), &none, |a, b, l| format!("zres;{};{a};{b}", op(l).name()), |a, b, l, c| checks::zero_result(op(l), a, b, c))?;
        }
        "C21" => {
            let os = [Bin::Div(4), Bin::Rem, Bin::Div(0), Bin::Rem, Bin::Div(usize::MAX)];
            let op = |l: u64| os[l as usize % os.len()];
            two(e, 3, &layouts(), &none, |a, b, l| format!("dz;{};{a};{b}", op(l).name()), |a, b, l, c| checks::divzero(op(l), a, b, c))?;
        }
        "C22" => {
            let os = all_ops();
            let op = |l: u64| os[l as usize % os.len()];
            two(e, 3, &layouts(), &none, |a, b, l| format!("nc;{};{a};{b}", op(l).name()), |a, b, l, c| checks::nocrash_bin(op(l), a, b, true, c))?;
            one(e, " x positions", t - 1, &round_at, |a, n| format!("ncround;{n};{a}"), |o, n, c| checks::nocrash_round(o, *n, c))?;
            one(e, " x digit counts", t - 1, &counts, |a, n| format!("ncrender;{n};{a}"), |o, n, c| checks::nocrash_render(o, *n, c))?;
        }
        "C17" => one(e, "", t, &[()], |a, _| format!("toint;{a}"), |o, _, c| checks::to_int(o, c))?,
        _ => {}
    }
    Ok(())
}
