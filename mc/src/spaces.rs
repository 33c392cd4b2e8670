//! The explored spaces of every property, and replay of single cases.
use crate::bfs;
use crate::big::{pow10, Big};
use crate::checks::{self, *};
use crate::dom::*;
use crate::engine::*;
use crate::model::{self, Dec};
use crate::more;
use crate::subject::*;
use fxd::FixedDecimal;

type V = Result<(), Violation>;

// ------------------------------------------------------------ space builders
pub fn list<'a, A: Sync>(
    e: &mut Engine,
    name: &str,
    a: &'a [A],
    d: impl Fn(&A) -> String + Sync + 'a,
    f: impl Fn(&A, &mut Ctx) -> R + Sync + 'a,
) -> V {
    e.run(Space {
        name: name.into(),
        n: a.len() as u64,
        describe: Box::new(move |i| d(&a[i as usize])),
        run: Box::new(move |i, c| f(&a[i as usize], c)),
    })
}
pub fn grid<'a, A: Sync, B: Sync>(
    e: &mut Engine,
    name: &str,
    a: &'a [A],
    b: &'a [B],
    d: impl Fn(&A, &B) -> String + Sync + 'a,
    f: impl Fn(&A, &B, &mut Ctx) -> R + Sync + 'a,
) -> V {
    let nb = b.len() as u64;
    e.run(Space {
        name: name.into(),
        n: a.len() as u64 * nb,
        describe: Box::new(move |i| d(&a[(i / nb) as usize], &b[(i % nb) as usize])),
        run: Box::new(move |i, c| f(&a[(i / nb) as usize], &b[(i % nb) as usize], c)),
    })
}
pub fn grid3<'a, A: Sync, B: Sync, P: Sync>(
    e: &mut Engine,
    name: &str,
    a: &'a [A],
    b: &'a [B],
    p: &'a [P],
    d: impl Fn(&A, &B, &P) -> String + Sync + 'a,
    f: impl Fn(&A, &B, &P, &mut Ctx) -> R + Sync + 'a,
) -> V {
    let (nb, np) = (b.len() as u64, p.len() as u64);
    let ix = move |i: u64| ((i / np / nb) as usize, (i / np % nb) as usize, (i % np) as usize);
    e.run(Space {
        name: name.into(),
        n: a.len() as u64 * nb * np,
        describe: Box::new(move |i| {
            let (x, y, z) = ix(i);
            d(&a[x], &b[y], &p[z])
        }),
        run: Box::new(move |i, c| {
            let (x, y, z) = ix(i);
            f(&a[x], &b[y], &p[z], c)
        }),
    })
}

/// pairs of operands under several binary operations
pub fn pairs(e: &mut Engine, name: &str, a: &[Operand], b: &[Operand], ops: &[Bin]) -> V {
    let z = FixedDecimal::zero();
    grid3(e, name, a, b, ops, |x, y, o| format!("bin;{};{};{}", o.name(), x.recipe, y.recipe), move |x, y, o, c| bin(*o, x, y, &z, false, c))
}
/// the same, keeping only products for which `pick` holds
pub fn mul_pairs(e: &mut Engine, name: &str, a: &[Operand], b: &[Operand], fits: bool) -> V {
    let z = FixedDecimal::zero();
    grid(
        e,
        name,
        a,
        b,
        move |x, y| format!("mul{};{};{}", if fits { "fit" } else { "big" }, x.recipe, y.recipe),
        move |x, y, c| mul_half(x, y, fits, &z, c),
    )
}
fn product_fits(a: &Dec, b: &Dec) -> bool {
    a.is_zero() || b.is_zero() || (a.scale + b.scale <= 36 && a.intg() + b.intg() + a.scale + b.scale <= 65)
}
pub fn mul_half(a: &Operand, b: &Operand, fits: bool, z: &FixedDecimal, c: &mut Ctx) -> R {
    if product_fits(&a.d, &b.d) == fits {
        bin(Bin::Mul, a, b, z, false, c)
    } else {
        c.outcome("belongs to the other multiplication property");
        Ok(())
    }
}

// ------------------------------------------------------------ domains
pub const HALF: u32 = U / 2;
pub fn g5() -> Vec<u32> {
    vec![0, 1, HALF - 1, HALF, U - 1]
}
pub fn group_box(iu: usize, fu: usize, alpha: &[u32]) -> Vec<String> {
    let mut v = vec![];
    for t in 1..=iu + fu {
        for f in 0..=fu.min(t) {
            if t - f <= iu {
                v.extend(all_groups(t - f, f, alpha));
            }
        }
    }
    v
}
pub fn d_small(deep: bool) -> Vec<String> {
    small(if deep { 300 } else { 100 }, 2)
}
fn d_groups(deep: bool) -> Vec<String> {
    if deep {
        group_box(4, 2, &g5())
    } else {
        group_box(3, 2, &g5())
    }
}
/// carry chains: groups 0 and U-1 (and 1) over all splits
fn d_chain(deep: bool) -> Vec<String> {
    let mut v = vec![];
    for t in 1..=7usize {
        for f in 0..=t.min(if deep { 7 } else { 4 }) {
            v.extend(all_groups(t - f, f, if deep && t <= 5 { &[0, 1, U - 1] } else { &[0, U - 1] }));
        }
    }
    v
}
/// one group value u at position p, everything else zero; plus ulps
pub fn d_ticks() -> Vec<String> {
    let mut v = vec![];
    for f in 0..=7usize {
        for i in 0..=7 - f {
            for p in 0..i + f {
                for u in [1, U - 1, HALF] {
                    let mut g = vec![0; i + f];
                    g[p] = u;
                    v.push(groups_numeral(&g[..i], &g[i..]));
                }
            }
        }
    }
    v
}
pub fn d_shapes(pats: &[u8]) -> Vec<String> {
    shapes(65, 30, &|_| true, &|_| true, pats)
}
pub fn d_shapes64(pats: &[u8]) -> Vec<String> {
    shapes(65, 64, &|_| true, &|f| f > 30, pats)
}
pub fn d_shapes_edge(pats: &[u8]) -> Vec<String> {
    shapes(65, 64, &unit_edges, &|f| unit_edges(f) && (f <= 38 || f >= 62), pats)
}
pub fn d_hist() -> Vec<String> {
    let mut v = histories();
    v.extend(full_mixed());
    signed(v)
}
pub fn d_edges() -> Vec<String> {
    edges(64, &[0, 1, 8, 9, 10, 18, 29, 30])
}
/// powers of ten over the whole range: 10^k at scales
pub fn d_pow() -> Vec<String> {
    let mut v = vec![];
    for s in 0..=64usize {
        for k in 0..=64usize {
            if k.max(s) <= 64 {
                v.push(Dec::new(false, *pow10(k), s).text());
            }
        }
    }
    v
}
pub fn ops(v: Vec<String>) -> Vec<Operand> {
    operands(v)
}
/// nine-group operands of up to 81 digits, built by arithmetic
pub fn d_huge() -> Vec<String> {
    let n = |k: usize| "9".repeat(k);
    let mut v = vec![];
    for k in [66usize, 71, 72, 73, 80, 81] {
        // k integer digits
        // (the sum of the factors' digits may not pass 81)
        let p = format!("5e{} 2e{} *", k / 2, k - 2 - k / 2);
        v.push(p.clone());
        v.push(format!("{p} 1 +"));
        v.push(format!("{p} 1 -"));
        v.push(format!("{} {} *", n(k / 2), n(k - k / 2)));
    }
    for (i, f) in [(45usize, 36usize), (36, 36), (54, 27), (46, 27), (63, 18), (55, 18), (72, 9), (64, 9), (37, 30), (45, 30), (44, 28)] {
        // i integer digits, f fraction digits
        let half = i / 2;
        v.push(format!("1e{} 1e{} * 1e-{} 1e-{} * +", half, i - 1 - half, f / 2, f - f / 2));
        v.push(format!("1e{} 1e{} * 1e-{} 1e-{} * -", half, i - 1 - half, f / 2, f - f / 2));
    }
    v.extend(d_declared());
    for f in [1usize, 10, 18, 19, 30, 36, 37, 45, 46, 54, 55, 63, 64, 65] {
        v.extend(full(f));
    }
    v
}

/// 10^k for k up to 80, built by arithmetic
fn ten_to(k: usize) -> String {
    if k <= 64 {
        return format!("1e{k}");
    }
    // 5*10^h * 2*10^(k-1-h): the factors' digits may not pass 81
    let h = k / 2 - 1;
    format!("5e{h} 2e{} *", k - 1 - h)
}
/// nine groups, f digits of them after the point: all nines, and ones at both ends
pub fn full(f: usize) -> Vec<String> {
    let i = (9 - (f + 8) / 9) * 9;
    let frac = |c: u8| match f {
        0 => "0".to_string(),
        _ if c == b'9' => format!(".{}", "9".repeat(f)),
        _ => format!(".{}1", "0".repeat(f - 1)),
    };
    let nines = if i == 81 { format!("{} {} * 10{}8 +", "9".repeat(40), "9".repeat(41), "9".repeat(39)) } else { format!("{} 1 -", ten_to(i)) };
    vec![format!("{nines} {} +", frac(b'9')), format!("{} {} +", ten_to(i - 1), frac(b'1'))]
}
/// dividend and divisor of a remainder of exactly k integer digits and scale f.
/// Only remainders declare digit counts above 65 that are no multiple of nine.
fn declared_parts(k: usize, f: usize, nines: bool) -> (String, String) {
    let b = ten_to(k);
    let tail = format!("1e-{} 1e-{} *", f / 2, f - f / 2);
    if nines {
        (format!("{b} {b} + {tail} -"), b)
    } else {
        (format!("{b} {} + {tail} +", if k < 2 { "1".into() } else { ten_to(k - 1) }), b)
    }
}
pub fn declared(k: usize, f: usize, nines: bool) -> String {
    let (a, b) = declared_parts(k, f, nines);
    format!("{a} {b} %")
}
/// remainders of every declared digit count: the long ones
pub fn d_declared() -> Vec<String> {
    (66..=80).map(|k| declared(k, 0, k % 2 == 0)).chain([(71, 9), (64, 9), (58, 18), (62, 11), (53, 27), (47, 25), (43, 36), (38, 31)].map(|(k, f)| declared(k, f, true))).collect()
}
/// every (integer digits, scale) above 65 digits that remainders have
fn declared_layouts() -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    for k in 2..=80usize {
        for f in 0..=36usize {
            // the dividend and the divisor have one digit more
            if k + f > 65 && k / 9 + 1 + (f + 8) / 9 <= 9 {
                v.push((k, f, true));
                v.push((k, f, false));
            }
        }
    }
    v
}
/// decimals of every layout above 65 digits
pub fn d_declared_all() -> Vec<String> {
    declared_layouts().into_iter().map(|(k, f, n)| declared(k, f, n)).chain((0..=65).flat_map(full)).collect()
}

// ------------------------------------------------------------ C01 / C02
pub fn parse_list(e: &mut Engine, name: &str, v: &[Vec<u8>], valid: bool) -> V {
    let d = dirty();
    list(e, name, v, move |b| format!("parse;{};{}", valid, esc(b)), move |b, c| parse_case(b, valid, c, &d))
}
pub fn all_strings(e: &mut Engine, alpha: &'static [u8], len: usize, valid: bool) -> V {
    let k = alpha.len() as u64;
    let mut n = 0u64;
    let mut p = 1u64;
    for _ in 0..=len {
        n += p;
        p *= k;
    }
    let gen = move |mut i: u64| -> Vec<u8> {
        let mut l = 0;
        let mut p = 1;
        while i >= p {
            i -= p;
            p *= k;
            l += 1;
        }
        let mut s = vec![0; l];
        for x in (0..l).rev() {
            s[x] = alpha[(i % k) as usize];
            i /= k;
        }
        s
    };
    let d = dirty();
    e.run(Space {
        name: format!("all strings over {:?} up to {len}", String::from_utf8_lossy(alpha)),
        n,
        describe: Box::new(move |i| format!("parse;{};{}", valid, esc(&gen(i)))),
        run: Box::new(move |i, c| parse_case(&gen(i), valid, c, &d)),
    })
}
pub fn templates() -> Vec<&'static str> {
    vec![
        "", "0", "-", "+", ".", "e", "1", "-1", "+1", "1.", ".1", "-.5", "1.5", "12e3", "1.2e-3", "-12.5E+07", "1e", "1e-", "1.e1", ".e1",
        "123456789", "1234567890", "123456789.123456789", "1e65", "1e-30", "0e0", "000000000000.000000000001",
        "99999999999999999999999999999999999.999999999999999999999999999999",
        "99999999999999999999999999999999999999999999999999999999999999999", "1e10", "1e012",
    ]
}
pub fn chunk_numerals() -> Vec<String> {
    // every three-digit content of every chunk of every group position
    let mut v = vec![];
    for (i, f) in [(7usize, 0usize), (3, 4), (5, 2), (0, 4), (1, 3)] {
        let t = i + f;
        for fill in [0u32, U - 1, 100_200_300] {
            for p in 0..t * 3 {
                for c in 0..1000u32 {
                    let mut g = vec![fill; t];
                    let sh = [1_000_000, 1000, 1][p % 3];
                    let u = fill - fill / sh % 1000 * sh + c * sh;
                    g[p / 3] = u;
                    v.push(groups_numeral(&g[..i], &g[i..]));
                }
            }
        }
    }
    // one spare digit beside seven groups: shapes 65 = 7*9+2
    for c in 0..100u32 {
        v.push(format!("{:02}{}", c, "123456789".repeat(7)));
        v.push(format!("{:02}{}.{}", c, "123456789".repeat(4), "987654321".repeat(3)));
        v.push(format!("{}.{}{:02}", "123456789".repeat(4), "987654321".repeat(3), c));
    }
    v
}
fn parse_spaces(e: &mut Engine, deep: bool, valid: bool) -> V {
    all_strings(e, b"0159.+-eE", if deep { 8 } else { 7 }, valid)?;
    if !valid {
        all_strings(e, b"01.-e x/:;E", if deep { 7 } else { 6 }, valid)?;
    }
    // placements of point, exponent and leading zeros over every digit count
    let mut v: Vec<Vec<u8>> = vec![];
    for d in 1..=68usize {
        for dot in 0..=d + 1 {
            for pat in [b'c', b'n'] {
                for z in [0usize, 1, 8, 9, 10, 20] {
                    if z >= d {
                        continue;
                    }
                    let mut s = vec![];
                    for p in 0..d {
                        if p == dot {
                            s.push(b'.');
                        }
                        s.push(if p < z { b'0' } else { pattern_digit(pat, p, d, dot) });
                    }
                    if dot == d {
                        s.push(b'.');
                    }
                    v.push(s);
                }
            }
        }
    }
    let mut exps: Vec<String> = vec!["".into()];
    for x in -32..=67i32 {
        if deep || x % 9 == 0 || x.abs() < 12 || (26..=38).contains(&x.abs()) || x >= 63 || x < -27 {
            exps.push(if x % 2 == 0 { format!("e{x}") } else { format!("E{x:+}") });
        }
    }
    let signs = ["", "-", "+"];
    let dd = dirty();
    let mk = |s: &Vec<u8>, x: &String, g: &&str| -> Vec<u8> {
        let mut t = g.as_bytes().to_vec();
        t.extend_from_slice(s);
        t.extend_from_slice(x.as_bytes());
        t
    };
    grid3(
        e,
        "point/zeros/exponent placements",
        &v,
        &exps,
        if deep { &signs[..] } else { &signs[..2] },
        |s, x, g| format!("parse;{};{}", valid, esc(&mk(s, x, g))),
        |s, x, g, c| parse_case(&mk(s, x, g), valid, c, &dd),
    )?;
    // every chunk content
    let w: Vec<Vec<u8>> = chunk_numerals().into_iter().map(|s| s.into_bytes()).collect();
    parse_list(e, "three-digit chunk contents", &w, valid)?;
    // exponent spellings
    let mut w: Vec<Vec<u8>> = vec![];
    let mut xs: Vec<String> = (0..=1100).map(|k: u32| k.to_string()).collect();
    for k in 1..=25usize {
        for d in ["9", "1", "0", "4", "6"] {
            xs.push(d.repeat(k));
        }
        xs.push(format!("1{}", "0".repeat(k)));
        xs.push(format!("3{}", "0".repeat(k)));
    }
    for p in [7u32, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 127] {
        let b = Big::from_u64(1).shl(p as usize);
        for add in 0..70u64 {
            xs.push(b.add(&Big::from_u64(add)).to_dec());
        }
        for sub in 1..32u64 {
            xs.push(b.sub(&Big::from_u64(sub)).to_dec());
        }
    }
    for m in ["1", "0", ".5", "1.5", "-2", "00.00", "7.", "123456789.987654321", "1234567890123456789012345678901234567890"] {
        for x in &xs {
            for sg in ["", "+", "-"] {
                for z in ["", "0", "000", "0000000000000000000000000"] {
                    w.push(format!("{m}e{sg}{z}{x}").into_bytes());
                }
            }
        }
    }
    parse_list(e, "exponent spellings", &w, valid)?;
    // every byte at every place of the templates
    let mut w: Vec<Vec<u8>> = vec![];
    for t in templates() {
        let t = t.as_bytes();
        for p in 0..=t.len() {
            for b in 0..=255u8 {
                let mut s = t[..p].to_vec();
                s.push(b);
                s.extend_from_slice(&t[p..]);
                w.push(s);
                if p < t.len() {
                    let mut s = t.to_vec();
                    s[p] = b;
                    w.push(s);
                }
            }
        }
    }
    parse_list(e, "every byte in templates", &w, valid)?;
    // multi-byte UTF-8 in numerals
    let mut w: Vec<Vec<u8>> = vec![];
    for t in ["1", "1.5", "1e5", ""] {
        for p in 0..=t.len() {
            for u in ["é", "١", "𝟙", "\u{feff}", "−", "，", "½"] {
                w.push(format!("{}{}{}", &t[..p], u, &t[p..]).into_bytes());
            }
        }
    }
    parse_list(e, "multi-byte characters", &w, valid)?;
    // digit runs
    let mut w: Vec<Vec<u8>> = vec![];
    let mut lens: Vec<usize> = (1..=300).collect();
    lens.extend([383, 384, 385, 511, 512, 513, 514, 640, 767, 768, 1023, 1024, 1025, 1279, 1280, 1281, 65535, 65536, 65537]);
    for d in lens {
        for c in ['0', '9', '1'] {
            for x in ["", "e30", "e-30", "e65"] {
                let run: String = c.to_string().repeat(d);
                w.push(format!("{run}{x}").into_bytes());
                w.push(format!("{run}.{x}").into_bytes());
                w.push(format!(".{run}{x}").into_bytes());
                w.push(format!("0.{run}{x}").into_bytes());
                w.push(format!("{run}.5{x}").into_bytes());
                w.push(format!("{run}.{run}{x}").into_bytes());
                w.push(format!("-{run}{}{x}", 7).into_bytes());
            }
        }
    }
    parse_list(e, "digit runs", &w, valid)
}

// ------------------------------------------------------------ C03 / C04 / C05
fn render_domain(deep: bool) -> Vec<Operand> {
    let mut v = d_shapes(b"cneblza");
    v.extend(d_shapes64(b"cnl"));
    v = signed(v);
    v.extend(chunk_numerals());
    v.extend(d_hist());
    v.extend(signed(d_groups(deep)));
    v.extend(signed(d_huge()));
    v.extend(signed(d_declared_all()));
    v.extend(d_pow());
    v.extend(signed(small(1000, 3)));
    operands_raw(v)
}
fn c03(e: &mut Engine, deep: bool) -> V {
    let v = render_domain(deep);
    list(e, "parsed, padded and computed decimals", &v, |o| format!("render;{}", o.recipe), render)?;
    let mut w = d_hist();
    w.extend(signed(d_huge()));
    w.extend(d_declared_all());
    list(e, "computed decimals", &w, |r| format!("rbuild;{r}"), |r, c| rbuild(r, c))?;
    // results of operations
    let mut a = d_shapes_edge(b"nbe");
    a.extend(histories());
    let a = operands_raw(signed(a));
    let os = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Rem];
    let b = operands_raw(signed(vec!["1".into(), "0.7".into(), "999999999.999999999".into(), "1e-18".into(), "3000000001".into(), "1e27".into()]));
    grid3(e, "results of operations", &a, &b, &os, |x, y, o| format!("rop;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| render_result(*o, x, y, c))?;
    let s = operands_raw(signed(small(40, 2)));
    grid3(e, "results on small pairs", &s, &s, &os, |x, y, o| format!("rop;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| render_result(*o, x, y, c))?;
    let g = operands_raw(signed(group_box(2, 1, &g5())));
    grid3(e, "results on boundary groups", &g, &g, &os, |x, y, o| format!("rop;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| render_result(*o, x, y, c))?;
    let mut v = d_shapes(b"nme");
    v.extend(d_shapes64(b"n"));
    v.extend(histories());
    let v = operands_raw(signed(v));
    grid(e, "rounded decimals", &v, &(-70..=40).collect::<Vec<isize>>(), |o, n| format!("rendround;{n};{}", o.recipe), |o, n, c| render_rounded(o, *n, c))
}
/// every step of the recipe is judged by what it prints
fn rbuild(r: &str, c: &mut Ctx) -> R {
    let o = build(r)?;
    render(&o, c)
}
/// a result whose value the model accepts must print exactly that value
pub fn render_result(op: Bin, a: &Operand, b: &Operand, ctx: &mut Ctx) -> R {
    let mut r = FixedDecimal::zero();
    match op.exec(&a.fd, &b.fd, &mut r) {
        Ok(Ok(())) => {
            let s = guard(|| r.to_string(-1))?;
            ctx.call(2);
            let (neg, d) = model::read_canonical(s.as_bytes()).ok_or_else(|| format!("prints {s:?}, not canonical"))?;
            if r.frac() as usize != d.scale {
                return Err(format!("prints {s:?} but has scale {}", r.frac()));
            }
            if neg != r.is_neg() {
                return Err(format!("prints {s:?} but is_neg is {}", r.is_neg()));
            }
            // the text must denote the value
            let w = match op {
                Bin::Add => Some(model::add(&a.d, &b.d)),
                Bin::Sub => Some(model::sub(&a.d, &b.d)),
                Bin::Rem if !b.d.is_zero() => Some(model::rem(&a.d, &b.d)),
                Bin::Mul => match model::mul(&a.d, &b.d) {
                    model::MulSpec::Exact(w) => Some(w),
                    _ => None,
                },
                _ => None,
            };
            if let Some(w) = w {
                denotes(&r, &Dec::new(neg, d.mag, d.scale), &w)?;
            }
            ctx.state(d.hash());
            ctx.outcome("result");
            Ok(())
        }
        _ => {
            ctx.outcome("operation not delivered");
            Ok(())
        }
    }
}
/// `printed` is the text of `r`; the text is at fault if the decimal itself has
/// the expected value (told without printing: by comparison and subtraction)
fn denotes(r: &FixedDecimal, printed: &Dec, want: &Dec) -> R {
    if printed.same_value(want) {
        return Ok(());
    }
    let Some(w) = from_dec(want) else { return Ok(()) };
    let mut diff = FixedDecimal::zero();
    let sub = Bin::Sub.exec(r, &w.fd, &mut diff);
    if matches!(sub, Ok(Ok(()))) && diff.is_zero() && guard(|| *r == w.fd).unwrap_or(false) {
        return Err(format!("prints {printed:?}, value is {want:?}"));
    }
    Ok(())
}
/// a rounded decimal prints the value it has
pub fn render_rounded(o: &Operand, n: isize, ctx: &mut Ctx) -> R {
    let mut x = o.fd.clone();
    if guard(|| x.round(n)).is_err() {
        ctx.outcome("operation not delivered");
        return Ok(());
    }
    let s = guard(|| x.to_string(-1))?;
    ctx.call(1);
    let (neg, d) = model::read_canonical(s.as_bytes()).ok_or_else(|| format!("prints {s:?}, not canonical"))?;
    if x.frac() as usize != d.scale {
        return Err(format!("prints {s:?} but has scale {}", x.frac()));
    }
    if neg != x.is_neg() {
        return Err(format!("prints {s:?} but is_neg is {}", x.is_neg()));
    }
    let w = if n < o.d.scale as isize { model::round(&o.d, n) } else { o.d };
    denotes(&x, &Dec::new(neg, d.mag, d.scale), &w)?;
    ctx.state(d.hash());
    ctx.outcome("rounded");
    Ok(())
}
fn c04(e: &mut Engine, deep: bool) -> V {
    let mut v = shapes(65, 64, &|i| unit_edges(i), &|_| true, b"cnla");
    v.extend(shapes(10, 40, &|i| i <= 10, &|_| true, b"ebz"));
    v = signed(v);
    v.extend(d_hist());
    v.extend(signed(d_huge()));
    v.extend(d_declared_all());
    let v = operands_raw(v);
    let full: Vec<(Operand, String)> = v.into_iter().map(|o| (o.clone(), o.d.text())).collect();
    let ns: Vec<isize> = (-3..=100).chain([127, 128, 129, 255, 256, 257, 300, 1000]).collect();
    let few: Vec<(Operand, String)> = full.iter().step_by(7).cloned().collect();
    let bufs: Vec<(usize, usize)> = (0..=70usize).map(|p| (p, 0)).chain([(0, 1), (0, 20), (3, 9), (1, 64), (5, 65), (9, 81), (2, 300), (100, 0), (255, 0), (256, 3), (1000, 0)]).collect();
    grid3(e, "earlier buffer contents", &few, &[-1isize, 0, 1, 5, 9, 11, 40], &bufs, |o, n, b| format!("rendera;{n};{};{};{}", b.0, b.1, o.0.recipe), |o, n, b, c| {
        render_after(&o.0, &o.1, *n, b.0, b.1, c)
    })?;
    grid(e, "all digit counts", &full, &ns, |o, n| format!("rendern;{n};{}", o.0.recipe), |o, n, c| render_n(&o.0, &o.1, *n, c))?;
    let v = operands_raw(chunk_numerals().into_iter().filter(|s| s.contains('.')));
    let full: Vec<(Operand, String)> = v.into_iter().map(|o| (o.clone(), o.d.text())).collect();
    let ns: Vec<isize> = if deep { (0..=40).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 18, 19, 23, 27, 28, 29, 30, 33, 36, 37] };
    grid(e, "chunk contents x digit counts", &full, &ns, |o, n| format!("rendern;{n};{}", o.0.recipe), |o, n, c| render_n(&o.0, &o.1, *n, c))
}
fn c05(e: &mut Engine, deep: bool) -> V {
    let v = render_domain(deep);
    list(e, "parsed, padded and computed decimals", &v, |o| format!("rt;{}", o.recipe), |o, c| roundtrip_fd(&o.fd, c))?;
    let os = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Rem];
    let a = operands_raw(signed(small(if deep { 100 } else { 40 }, 2)));
    grid3(e, "results on small pairs", &a, &a, &os, |x, y, o| format!("rtbin;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| bin_roundtrip(*o, x, y, c))?;
    let a = operands_raw(signed(group_box(2, 1, &g5())));
    grid3(e, "results on group pairs", &a, &a, &os, |x, y, o| format!("rtbin;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| bin_roundtrip(*o, x, y, c))?;
    let mut a = d_shapes_edge(b"nb");
    a.extend(histories());
    let a = operands_raw(a);
    grid3(e, "results on shape pairs", &a, &a, &os, |x, y, o| format!("rtbin;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| bin_roundtrip(*o, x, y, c))?;
    let ns: Vec<isize> = (-66..=40).collect();
    grid(e, "rounded shapes", &a, &ns, |x, n| format!("rtround;{n};{}", x.recipe), |x, n, c| round_roundtrip(x, *n, c))
}
pub fn round_roundtrip(o: &Operand, n: isize, c: &mut Ctx) -> R {
    let mut x = o.fd.clone();
    if guard(|| x.round(n)).is_err() {
        return Ok(());
    }
    roundtrip_fd(&x, c)
}

// ------------------------------------------------------------ C06 / C07
fn addsub(e: &mut Engine, deep: bool, op: Bin) -> V {
    let o = [op];
    let a = ops(signed(d_small(deep)));
    pairs(e, "small pairs, all signs", &a, &a, &o)?;
    let a = ops(d_groups(deep));
    let b = ops(signed(d_groups(false)));
    pairs(e, "boundary groups", &a, &b, &o)?;
    let a = ops(d_chain(deep));
    let b = ops(signed(d_ticks()));
    pairs(e, "carry and borrow chains x ticks", &a, &b, &o)?;
    let b = ops(signed(d_chain(false)));
    pairs(e, "carry and borrow chains, pairs", &a, &b, &o)?;
    let a = ops(d_shapes(if deep { b"nbe" } else { b"n" }));
    let b = ops(signed(d_shapes(if deep { b"ce" } else { b"e" })));
    pairs(e, "all shape pairs", &a, &b, &o)?;
    let mut v = d_shapes_edge(b"nc");
    v.extend(d_hist());
    v.extend(d_huge());
    let a = ops(v.clone());
    let b = ops(signed(v));
    pairs(e, "edge shapes and computed operands", &a, &b, &o)?;
    let a = ops(d_edges());
    let b = ops(signed(d_edges()));
    pairs(e, "powers of ten +-1", &a, &b, &o)?;
    if deep {
        let a = ops(signed(group_box(3, 1, &g5())));
        pairs(e, "boundary groups, all signs", &a, &a, &o)?;
        let a = ops(group_box(2, 3, &g5()));
        let b = ops(signed(group_box(1, 4, &[0, 1, U - 1])));
        pairs(e, "boundary groups, long fractions", &a, &b, &o)?;
    }
    Ok(())
}

// ------------------------------------------------------------ C08 / C09
fn mul(e: &mut Engine, deep: bool, fits: bool) -> V {
    if fits {
        let a = ops(signed(d_small(deep)));
        mul_pairs(e, "small pairs, all signs", &a, &a, fits)?;
        let a = ops(d_groups(deep));
        let b = ops(d_groups(false));
        mul_pairs(e, "boundary groups", &a, &b, fits)?;
        let a = ops(signed(group_box(2, 1, &[0, 1, U - 1])));
        mul_pairs(e, "boundary groups, all signs", &a, &a, fits)?;
    } else {
        let a = ops(group_box(2, 4, &[0, 1, U - 1]));
        let b = ops(signed(group_box(2, 4, &[0, HALF, U - 1])));
        mul_pairs(e, "long fractions", &a, &b, fits)?;
        let a = ops(group_box(7, 0, &[0, HALF, U - 1]));
        let b = ops(group_box(5, 2, &[0, U - 1]));
        mul_pairs(e, "long integers", &a, &b, fits)?;
        if deep {
            let a = ops(group_box(3, 4, &[0, 1, U - 1]));
            mul_pairs(e, "long fractions, wide", &a, &a, fits)?;
        }
    }
    let a = ops(d_chain(deep));
    let b = ops(signed(d_ticks()));
    mul_pairs(e, "zero/nine group patterns x ticks", &a, &b, fits)?;
    let b = ops(d_chain(false));
    mul_pairs(e, "zero/nine group patterns, pairs", &a, &b, fits)?;
    let a = ops(d_shapes(if deep { b"nbe" } else { b"n" }));
    let b = ops(d_shapes(if deep { b"nc" } else { b"c" }));
    mul_pairs(e, "all shape pairs", &a, &b, fits)?;
    let a = ops(signed(d_shapes64(b"n")));
    let b = ops(d_shapes_edge(b"ne"));
    mul_pairs(e, "scales beyond 30", &a, &b, fits)?;
    let mut v = d_shapes_edge(b"nl");
    v.extend(d_hist());
    v.extend(d_huge());
    let a = ops(v.clone());
    let b = ops(signed(v));
    mul_pairs(e, "edge shapes and computed operands", &a, &b, fits)?;
    let a = ops(d_edges());
    mul_pairs(e, "powers of ten +-1", &a, &a, fits)?;
    let a = ops(d_pow());
    mul_pairs(e, "powers of ten", &a, &a, fits)
}

// ------------------------------------------------------------ C10 / C11
pub fn k8() -> Vec<u32> {
    vec![0, 1, 2, HALF - 1, HALF, HALF + 1, U - 2, U - 1]
}
pub fn values(maxg: usize, alpha: &[u32]) -> Vec<Big> {
    // numbers with a non-zero top group
    let mut out: Vec<Big> = vec![];
    for g in 1..=maxg {
        for s in all_groups(g, 0, alpha) {
            if !s.starts_with("000000000") {
                out.push(Big::from_digits(s.as_bytes()));
            }
        }
    }
    out
}
/// dividends a = q*b + r for every quotient, divisor and r in {0, 1, b-1}
pub fn quotients(e: &mut Engine, name: &str, q: &[Big], b: &[Big], layouts: &[(usize, usize, Bin)]) -> V {
    let mk = |q: &Big, b: &Big, k: usize| -> Option<(Operand, Operand, Bin)> {
        let (sa, sb, op) = layouts[k / 3];
        let r = match k % 3 {
            0 => Big::zero(),
            1 => Big::from_u64(1),
            _ => b.sub(&Big::from_u64(1)),
        };
        let a = q.mul(b).add(&r);
        let x = from_dec(&Dec::new(k % 2 == 1, a, sa))?;
        let y = from_dec(&Dec::new(k % 4 >= 2, *b, sb))?;
        Some((x, y, op))
    };
    let ks: Vec<usize> = (0..layouts.len() * 3).collect();
    let z = FixedDecimal::zero();
    let hits = std::sync::atomic::AtomicU64::new(0);
    let sat = std::sync::atomic::AtomicU64::new(0);
    let r = grid3(
        e,
        name,
        q,
        b,
        &ks,
        |q, b, k| match mk(q, b, *k) {
            Some((x, y, op)) => format!("bin;{};{};{}", op.name(), x.recipe, y.recipe),
            None => "none".into(),
        },
        |q, b, k, c| match mk(q, b, *k) {
            Some((x, y, op)) => {
                if *k < 3 {
                    let (ab, st) = knuth_cases(&x.d.mag, &y.d.mag);
                    if ab {
                        hits.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    if st {
                        sat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                bin(op, &x, &y, &z, false, c)
            }
            None => {
                c.outcome("dividend beyond 65 digits");
                Ok(())
            }
        },
    );
    let (h, s) = (hits.into_inner(), sat.into_inner());
    e.totals.notes.push((
        format!("knuth_cases {name}"),
        format!("{{\"dividends needing the add-back step\": {h}, \"dividends whose estimate reaches the base\": {s}}}"),
    ));
    r
}
/// does schoolbook division in base 10^9 of a by b ever add back / saturate?
fn knuth_cases(a: &Big, b: &Big) -> (bool, bool) {
    let digits = |x: &Big| -> Vec<i128> {
        let mut v = vec![];
        let s = x.to_dec();
        let s = s.as_bytes();
        let mut e = s.len();
        while e > 0 {
            let st = e.saturating_sub(9);
            v.push(std::str::from_utf8(&s[st..e]).unwrap().parse().unwrap());
            e = st;
        }
        v
    };
    let base = U as i128;
    let bd = digits(b);
    if bd.len() < 2 {
        return (false, false);
    }
    let f = base / (bd[bd.len() - 1] + 1);
    let bd = digits(&b.mul_small(f as u64));
    let mut ad = digits(&a.mul_small(f as u64));
    ad.push(0);
    let n = bd.len();
    let (mut ab, mut st) = (false, false);
    if ad.len() <= n {
        return (false, false);
    }
    for j in (0..ad.len() - n).rev() {
        let num = ad[j + n] * base + ad[j + n - 1];
        let mut qh = num / bd[n - 1];
        let mut rh = num % bd[n - 1];
        if qh >= base {
            st = true;
        }
        while qh >= base || qh * bd[n - 2] > rh * base + ad[j + n - 2] {
            qh -= 1;
            rh += bd[n - 1];
            if rh >= base {
                break;
            }
        }
        let mut bo = 0i128;
        for k in 0..n {
            let t = ad[j + k] - qh * bd[k] + bo;
            ad[j + k] = t.rem_euclid(base);
            bo = t.div_euclid(base);
        }
        let t = ad[j + n] + bo;
        ad[j + n] = t.rem_euclid(base);
        if t < 0 {
            ab = true;
            let mut ca = 0;
            for k in 0..n {
                let t = ad[j + k] + bd[k] + ca;
                ad[j + k] = t % base;
                ca = t / base;
            }
            ad[j + n] = (ad[j + n] + ca) % base;
        }
    }
    (ab, st)
}
fn divrem(e: &mut Engine, deep: bool, is_div: bool) -> V {
    let o = |n: usize| if is_div { Bin::Div(n) } else { Bin::Rem };
    let basic: Vec<Bin> = if is_div { vec![Bin::Div(4), Bin::Div(0)] } else { vec![Bin::Rem] };
    let a = ops(signed(small(if deep { 200 } else { 100 }, 2)));
    pairs(e, "small pairs, all signs", &a, &a, &basic)?;
    // long division driven by quotients
    let q = values(if deep { 3 } else { 2 }, &k8());
    let b = values(if deep { 4 } else { 3 }, &k8());
    let lay: Vec<(usize, usize, Bin)> = if is_div {
        vec![(0, 0, o(0)), (0, 0, o(4)), (9, 0, o(0)), (0, 9, o(0)), (5, 3, o(4)), (18, 27, o(0)), (27, 9, o(30)), (1, 0, o(18))]
    } else {
        vec![(0, 0, o(0)), (9, 0, o(0)), (0, 9, o(0)), (5, 3, o(0)), (27, 9, o(0)), (9, 27, o(0))]
    };
    quotients(e, "dividends from quotients", &q, &b, &lay)?;
    let q3 = values(3, &[0, 1, HALF, U - 1]);
    let b4 = values(4, &[0, 1, HALF, U - 1]);
    quotients(e, "dividends from longer quotients", &q3, &b4, &lay[..2.min(lay.len())])?;
    let b5 = values(5, &[0, 1, U - 1]);
    quotients(e, "dividends from longer divisors", &values(2, &[0, 1, HALF, U - 1]), &b5, &lay[..2.min(lay.len())])?;
    // normalisation: every top-group size
    let mut tops = vec![];
    for k in 0..9 {
        for d in [1u32, 2, 3, 4, 5, 9] {
            for x in [-1i64, 0, 1] {
                let t = d as i64 * 10i64.pow(k) + x;
                if (1..U as i64).contains(&t) {
                    tops.push(t as u32);
                }
            }
        }
    }
    tops.sort();
    tops.dedup();
    let mut b: Vec<Big> = vec![];
    for t in &tops {
        b.push(Big::from_u64(*t as u64));
        for lo in [0u64, 1, HALF as u64, U as u64 - 1] {
            b.push(Big::from_u64(*t as u64 * U as u64 + lo));
            for l2 in [0u64, U as u64 - 1] {
                b.push(Big::from_u64(*t as u64 * U as u64 + lo).mul_small(U as u64).add(&Big::from_u64(l2)));
            }
        }
    }
    quotients(e, "every divisor magnitude", &values(2, &[0, 1, HALF, U - 1]), &b, &lay)?;
    // layouts
    let extra: Vec<Bin> = if is_div {
        [0usize, 1, 4, 5, 8, 9, 10, 18, 19, 27, 30, 36, 64, 100, 127, 128, 255, 256, 1 << 20, isize::MAX as usize, usize::MAX]
            .iter()
            .map(|n| Bin::Div(*n))
            .collect()
    } else {
        vec![Bin::Rem]
    };
    let a = ops(d_shapes_edge(b"n"));
    let mut bv = d_shapes_edge(b"e");
    bv.extend(d_shapes_edge(b"c"));
    let b = ops(bv);
    pairs(e, "edge shapes x extra digits", &a, &b, &extra)?;
    let a = ops(d_shapes(if deep { b"nec" } else { b"c" }));
    let b = ops(d_shapes(if deep { b"bl" } else { b"b" }));
    pairs(e, "all shape pairs", &a, &b, &basic[..1])?;
    let mut v = d_shapes_edge(b"bl");
    v.extend(d_hist());
    v.extend(d_huge());
    let a = ops(v.clone());
    let b = ops(v);
    if !is_div {
        let z = FixedDecimal::zero();
        let mut ps = vec![];
        for (k, f, n) in declared_layouts() {
            let (x, y) = declared_parts(k, f, n);
            for x in signed(vec![x]) {
                if let (Some(x), Some(y)) = (ops(vec![x]).pop(), ops(vec![y.clone()]).pop()) {
                    ps.push((x, y));
                }
            }
        }
        list(e, "remainders of every long layout", &ps, |(x, y)| format!("bin;%;{};{}", x.recipe, y.recipe), move |(x, y), c| bin(Bin::Rem, x, y, &z, false, c))?;
    }
    pairs(e, "edge shapes and computed operands", &a, &b, &if is_div { vec![Bin::Div(4), Bin::Div(30)] } else { vec![Bin::Rem] })?;
    let a = ops(d_groups(false));
    let b = ops(group_box(2, 1, &g5()));
    pairs(e, "boundary groups", &a, &b, &basic)?;
    pairs(e, "boundary groups, longer divisors", &b, &a, &basic)?;
    let a = ops(d_chain(deep));
    let b = ops(d_ticks());
    pairs(e, "zero/nine group patterns x ticks", &a, &b, &basic)?;
    let c = ops(d_chain(false));
    pairs(e, "zero/nine group patterns, pairs", &a, &c, &basic[..1])?;
    let a = ops(d_pow());
    let b = ops(d_edges());
    pairs(e, "powers of ten", &a, &a, &basic[..1])?;
    pairs(e, "powers of ten +-1", &b, &b, &basic[..1])
}

// ------------------------------------------------------------ C12 / C13
/// prefix, digit at the cut, and tail patterns over all cut positions
fn cut_values(i: usize, f: usize) -> Vec<(String, isize)> {
    let t = i + f;
    let mut v = vec![];
    for cut in 0..t {
        // digits before position `cut` stay
        for pre in [b'1', b'9', b'0'] {
            for (mid, post, last) in [(b'4', b'9', b'9'), (b'5', b'0', b'0'), (b'4', b'9', b'0'), (b'5', b'0', b'1'), (b'9', b'9', b'9'), (b'0', b'0', b'0')] {
                let mut s = String::new();
                for p in 0..t {
                    if p == i {
                        s.push('.');
                    }
                    let c = if p < cut {
                        pre
                    } else if p == cut {
                        mid
                    } else if p + 1 == t {
                        last
                    } else {
                        post
                    };
                    s.push(c as char);
                }
                v.push((s, cut as isize - i as isize));
            }
        }
    }
    v
}
pub fn round_ns() -> Vec<isize> {
    let mut v: Vec<isize> = (-84..=70).collect();
    v.extend([100, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 65536, isize::MAX - 1, isize::MAX]);
    v.extend([-100, -127, -128, -129, -200, -255, -256, -257, -300, -1000, -65536, isize::MIN + 1, isize::MIN]);
    v
}
fn rounding(e: &mut Engine, deep: bool, agree: bool) -> V {
    let ds = dests();
    let z = if agree { FixedDecimal::zero() } else { dirty() };
    let f = |o: &Operand, n: &isize, c: &mut Ctx| if agree { round_agree(o, *n, &ds, c) } else { checks::round(o, *n, &z, c) };
    let d = |o: &Operand, n: &isize| format!("{};{n};{}", if agree { "roundagree" } else { "round" }, o.recipe);
    let ns = round_ns();
    let mut v = d_shapes(if agree && !deep { b"nch" } else { b"nbcmhela" });
    v.extend(d_shapes64(b"nm"));
    let v = ops(v);
    grid(e, "all shapes x all positions", &v, &ns, d, f)?;
    // digits at the cut
    let mut cuts: Vec<(Operand, isize)> = vec![];
    let keep = |i: usize, f: usize| deep || ((unit_edges(i) || i % 9 == 4) && (unit_edges(f) || f % 9 == 4 || f <= 10));
    let mut texts = vec![];
    for i in 0..=65usize {
        for f in 0..=64usize {
            if i + f == 0 || i + f > 65 || !keep(i, f) {
                continue;
            }
            texts.extend(cut_values(i, f));
        }
    }
    for (k, (t, n)) in texts.into_iter().enumerate() {
        let t = if k % 2 == 1 { format!("-{t}") } else { t };
        if let Some(o) = operands([t]).pop() {
            cuts.push((o, n));
        }
    }
    let off: Vec<isize> = if agree && !deep { vec![0] } else { vec![0, -1, 1] };
    grid(e, "4/5/9 at the cut", &cuts, &off, |o, k| d(&o.0, &(o.1 + k)), |o, k, c| f(&o.0, &(o.1 + k), c))?;
    let mut v = d_hist();
    v.extend(signed(d_huge()));
    v.extend(signed(d_declared_all()));
    let hb: Vec<String> = v.clone();
    let v = ops(v);
    grid(e, "computed operands x all positions", &v, &ns, d, f)?;
    let mut v = vec![];
    for h in hb {
        for t in ["r5", "r18 ", "1 *", "0.001 +", "1e-9 * 1 *", "1 1e-30 * +"] {
            v.push(format!("{h} {t}"));
        }
    }
    let v = ops(v);
    grid(e, "two-step operands x all positions", &v, &ns, d, f)?;
    let v = ops(signed(group_box(3, 2, &[0, 1, 499_999_999, HALF, U - 1])));
    let ns2: Vec<isize> = (-29..=20).collect();
    grid(e, "boundary groups x all positions", &v, &ns2, d, f)?;
    // all three-digit cut surroundings
    let mut v = vec![];
    for k in 0..1000 {
        v.push(format!("{k}.{:03}", (k * 7 + 5) % 1000));
        v.push(format!("999999{k:03}.{k:03}999999"));
        v.push(format!("1.{k:03}"));
        v.push(format!("{k:03}000000000.0000000{k:03}"));
    }
    let v = ops(signed(v));
    let ns3: Vec<isize> = (-13..=12).collect();
    grid(e, "all three-digit contents", &v, &ns3, d, f)
}

// ------------------------------------------------------------ C14 / C15
fn compare(e: &mut Engine, deep: bool) -> V {
    let pr = |e: &mut Engine, name: &str, a: &[Operand], b: &[Operand]| {
        grid(e, name, a, b, |x, y| format!("cmp;{};{}", x.recipe, y.recipe), |x, y, c| {
            c.state(x.d.hash());
            checks::cmp(x, y, true, c)
        })
    };
    let a = ops(signed(d_small(deep)));
    pr(e, "small pairs", &a, &a)?;
    let a = ops(signed(d_groups(false)));
    let b = ops(d_groups(deep));
    pr(e, "boundary groups", &b, &a)?;
    let a = ops(d_shapes(if deep { b"nez" } else { b"e" }));
    let b = ops(signed(d_shapes(if deep { b"nb" } else { b"b" })));
    pr(e, "all shape pairs", &a, &b)?;
    let mut v = d_shapes_edge(b"nelz");
    v.extend(histories());
    v.extend(full_mixed());
    v.extend(d_huge());
    let a = ops(signed(v));
    pr(e, "edge shapes and computed operands", &a, &a)?;
    let a = ops(signed(d_chain(deep)));
    let b = ops(d_ticks());
    pr(e, "zero/nine group patterns x ticks", &a, &b)?;
    let a = ops(d_pow());
    pr(e, "powers of ten in all layouts", &a, &a)?;
    let a = ops(d_edges());
    pr(e, "powers of ten +-1", &a, &a)?;
    // near neighbours: same value or one unit apart, all layouts
    let mut near: Vec<Vec<Operand>> = vec![];
    for (i, f) in [(1usize, 0usize), (9, 0), (10, 3), (18, 9), (20, 10), (27, 27), (1, 30), (0, 9), (0, 10), (30, 30), (35, 30), (37, 28)] {
        for p in [b'n', b'e', b'c', b'l'] {
            let s = shape(i, f, p);
            let mut fam = vec![s.clone(), format!("00{s}"), format!("0000000000{s}")];
            for k in 1..=20 {
                fam.push(format!("{s} r{}", f + k));
            }
            for k in [f, f + 1, f + 9, 28, 30, 35, 36] {
                if k <= 36 && k >= f {
                    for g in ["+", "-"] {
                        fam.push(format!("{s} 1e-{} 1e-{} * {g}", k / 2, k - k / 2));
                    }
                }
            }
            for g in ["1 *", "1.000000000 *", "0.5 + 0.5 -", "7 + 7 -", "3 * 3 /", "neg"] {
                fam.push(format!("{s} {g}"));
            }
            near.push(ops(fam));
        }
    }
    let mut ps: Vec<(&Operand, &Operand)> = vec![];
    for f in &near {
        for x in f {
            for y in f {
                ps.push((x, y));
            }
        }
    }
    list(e, "near neighbours", &ps, |(x, y)| format!("cmp;{};{}", x.recipe, y.recipe), |(x, y), c| checks::cmp(x, y, true, c))?;
    // sorting a mixed list agrees with the model
    let mut all = ops(signed(d_edges()));
    all.extend(ops(d_hist()));
    let n = all.len();
    let starts: Vec<usize> = (0..n).step_by(37).collect();
    list(
        e,
        "sorting",
        &starts,
        |s| format!("sort;{s}"),
        |s, c| {
            let mut v: Vec<&Operand> = all.iter().cycle().skip(*s).take(150.min(n)).collect();
            let mut w = v.clone();
            guard(|| v.sort_by(|a, b| a.fd.cmp(&b.fd)))?;
            w.sort_by(|a, b| a.d.cmp(&b.d));
            c.call(v.len() as u64);
            for (x, y) in v.iter().zip(&w) {
                if !x.d.same_value(&y.d) {
                    return Err(format!("sorted order differs at {} / {}", x.recipe, y.recipe));
                }
            }
            c.outcome("sorted");
            Ok(())
        },
    )
}
fn hash_families(deep: bool) -> Vec<Vec<String>> {
    let mut base = vec!["0".to_string()];
    let pats: &[u8] = if deep { b"nlcehz" } else { b"nlcz" };
    for i in [0usize, 1, 2, 8, 9, 10, 17, 18, 19, 27, 28, 35, 36, 37, 45, 54, 63, 65] {
        for f in [0usize, 1, 2, 5, 8, 9, 10, 17, 18, 19, 27, 28, 30] {
            if i + f == 0 || i + f > 65 {
                continue;
            }
            for p in pats {
                base.push(shape(i, f, *p));
            }
        }
    }
    let mut out = vec![];
    for b in base {
        for sg in ["", "-"] {
            let s = format!("{sg}{b}");
            let (ip, fp) = b.split_once('.').unwrap_or((&b, ""));
            let mut v = vec![s.clone()];
            for k in [1usize, 2, 3, 7, 8, 9, 10, 18] {
                if ip.len() + fp.len() + k <= 65 {
                    v.push(format!("{sg}{}{}", "0".repeat(k), b));
                    v.push(format!("{sg}{ip}.{fp}{}", "0".repeat(k)));
                }
                v.push(format!("{s} r{}", fp.len() + k));
                if ip.len() + fp.len() + 2 * k <= 65 {
                    v.push(format!("{sg}{}{ip}.{fp}{}", "0".repeat(k), "0".repeat(k)));
                }
            }
            if fp.is_empty() {
                v.push(format!("{sg}{ip}."));
                if let Ok(n) = s.parse::<i64>() {
                    v.push(format!("i:{n}"));
                    v.push(format!("i:{n} 0.0 +"));
                }
                if let Ok(n) = s.parse::<u64>() {
                    v.push(format!("u:{n}"));
                }
                let t = ip.trim_end_matches('0');
                if !t.is_empty() && t.len() < ip.len() {
                    v.push(format!("{sg}{t}e{}", ip.len() - t.len()));
                }
            } else if fp.len() <= 30 && ip.len() + fp.len() <= 65 {
                v.push(format!("{sg}{ip}{fp}e-{}", fp.len()));
            }
            for t in [
                "1 + 1 -", "1 - 1 +", "1 *", "1 * 1 * 1 *", "1.0 *", "1.000000000 *", "neg neg pos", "pos neg", "0 +", "0.000 +", "0.5 + 0.5 -", "1e20 + 1e20 -",
                "1e-20 + 1e-20 -", "2 * 2 /0", "dup + 0.5 *", "dup - 0 +", "1e30 %", "1 /0", "1 /4", "str", "0 swap -", "0 swap - 0 swap -", "-1 * -1 *", "999999999 + 999999999 -",
            ] {
                v.push(format!("{s} {t}"));
            }
            v.push(format!("{s} {s} {s} - +"));
            v.push(format!("0.1 {s} + 0.1 -"));
            v.push(format!("{s} r{}", fp.len()));
            out.push(v);
        }
    }
    out
}
fn hashing(e: &mut Engine, deep: bool) -> V {
    let fams: Vec<Vec<Operand>> = hash_families(deep).into_iter().map(ops).collect();
    let mut ps: Vec<(&Operand, &Operand)> = vec![];
    for f in &fams {
        for x in f {
            for y in f {
                if x.d.same_value(&y.d) {
                    ps.push((x, y));
                }
            }
        }
    }
    // zeros of every origin against each other
    let zs: Vec<&Operand> = fams.iter().flatten().filter(|o| o.d.is_zero()).collect();
    for x in &zs {
        for y in zs.iter().step_by(7) {
            ps.push((x, y));
        }
    }
    list(e, "equal values, all spellings and origins", &ps, |(x, y)| format!("hash;{};{}", x.recipe, y.recipe), |(x, y), c| checks::hash(x, y, c))?;
    // against the freshly parsed twin with the same layout
    let mut v = d_hist();
    v.extend(d_huge());
    v.extend(d_declared_all());
    v.extend(d_shapes_edge(b"nlez"));
    v.extend(signed(d_groups(false)));
    let v = ops(v);
    let mut texts = vec![];
    for t in ["", " 1 +", " 0.5 -", " 1.5 *", " 3 /", " r2", " r-3", " 7 %", " neg"] {
        texts.push(t);
    }
    grid(
        e,
        "results against freshly parsed twins",
        &v,
        &texts,
        |o, t| format!("hashtwin;{}{}", o.recipe, t),
        |o, t, c| hash_twin(&format!("{}{}", o.recipe, t), c),
    )
}
/// hash of a computed decimal against parsed spellings with as many groups
pub fn hash_twin(recipe: &str, c: &mut Ctx) -> R {
    let o = match build(recipe) {
        Ok(o) => o,
        Err(_) => {
            c.outcome("operation not delivered");
            return Ok(());
        }
    };
    let (iu, fu) = (o.fd.intg_units(), o.fd.frac_units());
    let t = o.d.text();
    let (neg, t) = match t.strip_prefix('-') {
        Some(t) => ("-", t.to_string()),
        None => ("", t),
    };
    let (ip, fp) = t.split_once('.').unwrap_or((&t, ""));
    let ip = if ip == "0" { "" } else { ip };
    // pad so that the parsed twin has the same group counts
    for (want_i, want_f) in [(iu * 9, fu * 9), ((iu * 9).saturating_sub(8).max(ip.len()), o.d.scale), (iu * 9, o.d.scale)] {
        if want_i < ip.len() || want_f < fp.len() || want_i + want_f > 65 || want_i + want_f == 0 {
            continue;
        }
        let s = format!("{neg}{}{ip}.{fp}{}", "0".repeat(want_i - ip.len()), "0".repeat(want_f - fp.len()));
        if let Ok(p) = build(&s) {
            checks::hash(&o, &p, c)?;
        }
    }
    c.outcome("twin");
    Ok(())
}

// ------------------------------------------------------------ C16 / C17
fn interesting_u64(deep: bool) -> Vec<u64> {
    let w: i128 = if deep { 20000 } else { 2000 };
    let mut centres: Vec<i128> = vec![0, i64::MAX as i128, u64::MAX as i128, u32::MAX as i128, i32::MAX as i128];
    for k in 0..64 {
        centres.push(1i128 << k);
    }
    for k in 0..20u32 {
        for d in 1..=9 {
            centres.push(10i128.pow(k) * d);
        }
    }
    for k in 0..=18 {
        centres.push(k * U as i128 * U as i128);
        centres.push((k * 37 + 1) * U as i128);
    }
    let mut s = std::collections::BTreeSet::new();
    for c in centres {
        for x in c - w..=c + w {
            if (0..=u64::MAX as i128).contains(&x) {
                s.insert(x as u64);
            }
        }
    }
    // every base-10^9 digit triple over an alphabet
    let al: Vec<u64> = vec![0, 1, 2, 9, 10, 99, 100, 999, 1000, 99999, 100000, 999999, 1000000, 4999999, 99999999, 100000000, 499999999, 500000000, 999999998, 999999999, 123456789];
    for h in 0..=18u128 {
        for m in &al {
            for l in &al {
                let x = h * 1_000_000_000_000_000_000 + *m as u128 * 1_000_000_000 + *l as u128;
                if x <= u64::MAX as u128 {
                    s.insert(x as u64);
                }
            }
        }
    }
    // every bit pattern with one or two bits, and their complements
    for i in 0..64 {
        for j in 0..64 {
            let x = 1u64 << i | 1u64 << j;
            s.insert(x);
            s.insert(!x);
        }
    }
    // every 16-bit chunk at every byte position
    for sh in [0u32, 8, 16, 24, 32, 40, 48] {
        for x in 0..=0xffffu64 {
            s.insert(x << sh);
        }
    }
    s.into_iter().collect()
}
fn from_ints(e: &mut Engine, deep: bool) -> V {
    let v = interesting_u64(deep);
    list(e, "unsigned", &v, |n| format!("fromu;{n}"), |n, c| from_u64(*n, c))?;
    let mut w: Vec<i64> = vec![];
    for x in &v {
        w.push(*x as i64);
        w.push((*x as i64).wrapping_neg());
    }
    w.sort_by_key(|x| x.unsigned_abs());
    w.dedup();
    list(e, "signed", &w, |n| format!("fromi;{n}"), |n, c| from_i64(*n, c))
}
fn to_ints(e: &mut Engine, deep: bool) -> V {
    let lim: [i128; 4] = [i64::MAX as i128, -(i64::MIN as i128), u64::MAX as i128, 0];
    let mut ints: std::collections::BTreeSet<i128> = Default::default();
    for l in lim {
        for d in -12..=12 {
            ints.insert(l + d);
        }
        for d in [10i128, 100, 1000, 1_000_000_000, 1_000_000_000_000] {
            ints.insert(l + d);
            ints.insert(l - d);
        }
    }
    for k in 0..24u32 {
        for d in -1..=1 {
            ints.insert(10i128.pow(k) + d);
            ints.insert((1i128 << (k * 3)) + d);
            ints.insert(5 * 10i128.pow(k) + d);
        }
    }
    for h in 0..=19i128 {
        for m in [0i128, 1, 499_999_999, 999_999_999, 223372036, 446744073] {
            for l in [0i128, 1, 999_999_999, 854775807, 854775808, 709551615, 709551616] {
                ints.insert(h * 1_000_000_000_000_000_000 + m * 1_000_000_000 + l);
            }
        }
    }
    let mut fr: Vec<String> = vec!["".into(), ".".into()];
    for s in 1..=30usize {
        for p in ["0", "4", "5", "9"] {
            fr.push(format!(".{}{}", p, "0".repeat(s - 1)));
            if s > 1 {
                fr.push(format!(".{}{}", p, "9".repeat(s - 1)));
                fr.push(format!(".{}{}1", p, "0".repeat(s - 2)));
            }
        }
    }
    let pads: Vec<usize> = if deep { vec![0, 1, 8, 9, 18, 27] } else { vec![0, 7, 18] };
    let texts: Vec<(String, String)> = ints.iter().filter(|x| **x >= 0).map(|x| x.to_string()).flat_map(|s| [("".to_string(), s.clone()), ("-".to_string(), s)]).collect();
    grid3(
        e,
        "around the limits x fractions x padding",
        &texts,
        &fr,
        &pads,
        |(g, i), f, p| format!("toint;{g}{}{i}{f}", "0".repeat(*p)),
        |(g, i), f, p, c| {
            let t = format!("{g}{}{i}{f}", "0".repeat(*p));
            if t.bytes().filter(|c| c.is_ascii_digit()).count() > 65 {
                c.outcome("beyond 65 digits");
                return Ok(());
            }
            to_int_recipe(&t, c)
        },
    )?;
    let mut v = d_hist();
    v.extend(signed(d_huge()));
    v.extend(signed(d_declared_all()));
    v.extend(signed(d_shapes(b"nce")));
    v.extend(signed(d_shapes64(b"nm")));
    v.extend(signed(d_groups(deep)));
    v.extend(signed(d_edges()));
    v.extend(signed(d_ticks()));
    let v = ops(v);
    list(e, "shapes, groups and computed operands", &v, |o| format!("toint;{}", o.recipe), to_int)?;
    let mut w = vec![];
    for l in ["9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0", "999999999", "999999999999999999"] {
        for t in ["0.5 +", "0.5 -", "0.499999999 +", "0.999999999999999999 +", "1 * 1 * 1 *", "1 /", "0.1 * 10 *", "r5", "1e40 + 1e40 -", "0.5 - neg", "0.5 + neg", "neg 0.4 -", "1.0 %", "1e30 %", "1e30 %  0.5 +", "10 * 10 /0", "0.25 + 0.25 +"] {
            w.push(format!("{l} {t}"));
        }
    }
    let w = ops(w);
    list(e, "limits after arithmetic", &w, |o| format!("toint;{}", o.recipe), to_int)
}
fn to_int_recipe(t: &str, c: &mut Ctx) -> R {
    match build(t) {
        Ok(o) => match observe(&o.fd) {
            Ok(g) if g == o.d => to_int(&o, c),
            _ => {
                c.outcome("operand not buildable");
                Ok(())
            }
        },
        Err(_) => {
            c.outcome("operand not buildable");
            Ok(())
        }
    }
}

// ------------------------------------------------------------ C18 / C20 / C21 / C22
pub fn all_ops() -> Vec<Bin> {
    vec![Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Div(30), Bin::Rem]
}
fn forms(e: &mut Engine, deep: bool) -> V {
    let ds = dests();
    let os = all_ops();
    let run = |e: &mut Engine, name: &str, a: &[Operand], b: &[Operand]| {
        grid3(e, name, a, b, &os, |x, y, o| format!("form;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
            c.state(x.d.hash() ^ y.d.hash().rotate_left(7));
            form(*o, x, y, &ds, c)
        })
    };
    let a = ops(signed(small(if deep { 40 } else { 13 }, 2)));
    run(e, "small pairs", &a, &a)?;
    let mut v = shapes(65, 64, &unit_edges, &|f| unit_edges(f) && (f <= 30 || f >= 62), if deep { b"ne" } else { b"n" });
    v.extend(d_hist());
    v.extend(d_huge());
    let b = ops(v);
    let a = ops(signed(shapes(38, 30, &|i| matches!(i, 0 | 1 | 9 | 10 | 18 | 28 | 38), &|f| matches!(f, 0 | 1 | 9 | 10 | 27 | 30), b"nel")));
    run(e, "shapes and computed operands", &b, &a)?;
    let a = ops(signed(group_box(2, 1, &[0, 1, HALF, U - 1])));
    run(e, "boundary groups", &a, &a)
}
pub fn zeros() -> Vec<String> {
    let mut v: Vec<String> = vec!["0".into(), "-0".into(), "+0".into(), ".0".into(), "-.0".into(), "0.".into(), "i:0".into(), "u:0".into()];
    for f in 1..=64usize {
        v.push(format!("0.{}", "0".repeat(f)));
        v.push(format!("-.{}", "0".repeat(f)));
    }
    for i in 1..=65usize {
        v.push("0".repeat(i));
        if i <= 35 {
            v.push(format!("-{}.{}", "0".repeat(i), "0".repeat(30)));
        }
    }
    for x in -30..=64i32 {
        v.push(format!("0e{x}"));
        v.push(format!("-0e{x}"));
    }
    for t in [
        "1 1 -", "1.5 1.5 -", "1.50 1.5 -", "-7 7 +", "1e40 1e40 -", "0 5 *", "0.00 -5.5 *", "0 7 /", "0.000 -7 /", "6 3 %", "0 3 %", "7.5 2.5 %", "0.4 r0", "-0.4 r0", "-4 r-1", "1e-30 1e-30 * ", "-1e-30 1e-30 *",
        "1e-20 -1e20 /0", "5 r-3", "-5 r-2", "0 neg", "0.00 neg", "0 neg neg", "0 r5", "-0.000 r1", "0 r30", "1e-30 1e-30 * r20", "1000000000000000000 1000000000000000000 -", "0.000000001 0.000000001 -", "9 9 %", "-9 3 %", "0 0 +", "0 0 -", "0.0 0.00 *",
        "99999999999999999999999999999999999.999999999999999999999999999999 99999999999999999999999999999999999.999999999999999999999999999999 -",
    ] {
        v.push(t.into());
    }
    v
}
fn zero_signs(e: &mut Engine, deep: bool) -> V {
    let os = all_ops();
    let run = |e: &mut Engine, name: &str, a: &[Operand], b: &[Operand], os: &[Bin]| {
        grid3(e, name, a, b, os, |x, y, o| format!("zres;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| zero_result(*o, x, y, c))
    };
    let z = operands_raw(zeros());
    list(e, "zeros of every spelling and origin", &z, |o| format!("signs;{}", o.recipe), signs)?;
    let mut v = d_shapes(b"nce");
    v.extend(d_shapes64(b"l"));
    v.extend(d_groups(deep));
    v.extend(histories());
    v.extend(full_mixed());
    v.extend(d_huge());
    let s = operands_raw(signed(v));
    list(e, "sign changes and constants", &s, |o| format!("signs;{}", o.recipe), signs)?;
    let a = operands_raw(signed(small(60, 2)));
    run(e, "small pairs", &a, &a, &os)?;
    let mut v = d_shapes_edge(b"nl");
    v.extend(histories());
    let b = operands_raw(signed(v));
    run(e, "shapes and computed operands", &b, &b, &[Bin::Mul, Bin::Div(4), Bin::Div(0)])?;
    run(e, "zeros with anything", &z, &b, &os)?;
    run(e, "anything with zeros", &b, &z, &[Bin::Add, Bin::Sub, Bin::Mul])?;
    // exact cancellation in different layouts
    let mut w = vec![];
    for (i, f) in [(1usize, 0usize), (9, 0), (10, 3), (18, 9), (20, 10), (27, 27), (1, 30), (0, 9), (0, 10), (35, 30)] {
        for p in [b'n', b'e', b'l'] {
            let s = shape(i, f, p);
            w.push(vec![s.clone(), format!("0{s}"), format!("000000000{s}"), format!("{s} r{}", f + 1), format!("{s} r{}", f + 9), format!("{s} 1 *"), format!("{s} 1 + 1 -"), format!("{s} dup + 0.5 *")]);
        }
    }
    for fam in w {
        let a = operands_raw(signed(fam));
        run(e, "cancellation", &a, &a, &[Bin::Add, Bin::Sub, Bin::Rem])?;
    }
    let ns = round_ns();
    let mut v = d_shapes(b"lem");
    v.extend(d_shapes64(b"l"));
    v.extend(histories());
    let v = operands_raw(signed(v));
    grid(e, "rounded to zero", &v, &ns, |o, n| format!("zround;{n};{}", o.recipe), |o, n, c| zero_round(o, *n, c))
}
fn divzeros(e: &mut Engine, deep: bool) -> V {
    let os = [Bin::Div(4), Bin::Div(0), Bin::Div(usize::MAX), Bin::Rem];
    let run = |e: &mut Engine, name: &str, a: &[Operand], b: &[Operand], os: &[Bin]| {
        grid3(e, name, a, b, os, |x, y, o| format!("dz;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
            c.state(x.d.hash() ^ y.d.hash().rotate_left(7));
            divzero(*o, x, y, c)
        })
    };
    let mut v = d_shapes_edge(b"n");
    v.extend(histories());
    v.extend(d_huge());
    v.extend(zeros());
    let a = ops(signed(v));
    let z = ops(zeros());
    run(e, "by every zero", &a, &z, &os)?;
    // a single non-zero digit at every position of every layout
    let b = ops(signed(d_pow()));
    let few = ops(signed(vec!["0".into(), "1".into(), "0.5".into(), "1e40".into(), "1e-30".into(), "123456789.123456789".into(), shape(65, 0, b'n'), shape(35, 30, b'n'), "0.000".into()]));
    run(e, "by every power of ten", &few, &b, &[Bin::Div(4), Bin::Rem])?;
    let mut v = d_ticks();
    v.extend(d_hist());
    v.extend(d_huge());
    if deep {
        v.extend(d_shapes64(b"lne"));
        v.extend(d_shapes(b"lne"));
    }
    let b = ops(signed(v));
    run(e, "by sparse and computed divisors", &few, &b, &[Bin::Div(4), Bin::Rem])
}
fn nocrash(e: &mut Engine, deep: bool) -> V {
    let mut v = shapes(65, 64, &unit_edges, &|f| unit_edges(f) && (f <= 38 || f >= 53), if deep { b"nlc" } else { b"nl" });
    v.extend(histories());
    v.extend(full_mixed());
    v.extend(d_huge());
    let a = operands_raw(v.clone());
    let b = operands_raw(signed(v.clone()));
    let mut os = all_ops();
    os.extend([Bin::Div(1000), Bin::Div(usize::MAX), Bin::Div(isize::MAX as usize), Bin::Div(i8::MAX as usize), Bin::Div(128)]);
    grid3(e, "all operations on extreme layouts", &a, &b, &os, |x, y, o| format!("nc;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
        nocrash_bin(*o, x, y, true, c)
    })?;
    let sh = operands_raw(d_shapes(b"n"));
    let s2 = operands_raw(d_shapes(b"b"));
    let o3 = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Rem];
    grid3(e, "all shape pairs", &sh, &s2, if deep { &o3[..] } else { &o3[2..] }, |x, y, o| format!("nc;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
        nocrash_bin(*o, x, y, false, c)
    })?;
    let g = operands_raw(group_box(2, 2, &[0, 1, HALF, U - 1]));
    grid3(e, "boundary groups", &g, &g, &o3, |x, y, o| format!("nc;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| nocrash_bin(*o, x, y, false, c))?;
    let q = values(2, &k8());
    let bs = values(3, &k8());
    let z = dirty();
    let _ = &z;
    grid3(
        e,
        "long division on boundary groups",
        &q,
        &bs,
        &[Bin::Div(4), Bin::Rem],
        |q, b, o| format!("nc;{};{};{}", o.name(), q.mul(b).sub(&Big::from_u64(1)).to_dec(), b.to_dec()),
        |q, b, o, c| {
            let a = q.mul(b).sub(&Big::from_u64(1));
            match (from_dec(&Dec::new(false, a, 0)), from_dec(&Dec::new(false, *b, 0))) {
                (Some(x), Some(y)) => nocrash_bin(*o, &x, &y, false, c),
                _ => Ok(()),
            }
        },
    )?;
    let ns = round_ns();
    let mut w = v.clone();
    w.extend(d_shapes(b"nm"));
    w.extend(d_shapes64(b"n"));
    let w = operands_raw(signed(w));
    grid(e, "rounding to any digit count", &w, &ns, |o, n| format!("ncround;{n};{}", o.recipe), |o, n, c| nocrash_round(o, *n, c))?;
    let ns: Vec<isize> = (-3..=70).chain([126, 127, 128, 129, 255, 256, 1000, 100_000, -1000, isize::MIN]).collect();
    let few = operands_raw(signed(v));
    grid(e, "rendering any digit count", &few, &ns, |o, n| format!("ncrender;{n};{}", o.recipe), |o, n, c| nocrash_render(o, *n, c))?;
    let long = operands_raw(vec!["0".into(), "-1".into(), "0.5".into(), "123456789.987654321".into(), shape(35, 30, b'n'), shape(0, 64, b'e'), "1 3 /30".into()]);
    grid(e, "rendering very many digits", &long, &[10_000isize, 65_535, 65_536, 1_000_000, 20_000_000], |o, n| format!("ncrender;{n};{}", o.recipe), |o, n, c| nocrash_render(o, *n, c))?;
    list(e, "reading", &w, |o| format!("ncread;{}", o.recipe), |o, c| nocrash_readers(&o.fd, c))?;
    // reading text and converting integers
    let mut texts: Vec<Vec<u8>> = vec![];
    for t in templates() {
        let t = t.as_bytes();
        for p in 0..=t.len() {
            for b in 0..=255u8 {
                texts.push([&t[..p], &[b], &t[p..]].concat());
            }
        }
    }
    for d in (1..=300).chain([513, 1025, 65537]) {
        for x in ["", "e30", "e-30", "e65", ".", "e999999999999999999999"] {
            texts.push(format!("{}{x}", "9".repeat(d)).into_bytes());
            texts.push(format!(".{}{x}", "0".repeat(d)).into_bytes());
            texts.push(format!("{0}.{0}{x}", "7".repeat(d)).into_bytes());
        }
    }
    list(e, "reading any text", &texts, |t| format!("ncparse;{}", esc(t)), |t, c| nocrash_parse(t, c))?;
    let ints = interesting_u64(false);
    list(e, "converting integers", &ints, |n| format!("ncint;{n}"), |n, c| nocrash_int(*n, c))?;
    // comparisons of everything with everything
    grid(e, "comparing", &few, &few, |x, y| format!("nccmp;{};{}", x.recipe, y.recipe), |x, y, c| nocrash_cmp(x, y, c))
}
pub fn nocrash_parse(t: &[u8], c: &mut Ctx) -> R {
    for reset in [true, false] {
        let mut x = dirty_static().clone();
        let r = guard(|| x.from_bytes_str(t, reset).is_ok())?;
        c.call(1);
        nocrash_readers(&x, c)?;
        c.outcome(if r { "accepted" } else { "rejected" });
    }
    if let Ok(s) = std::str::from_utf8(t) {
        let a = guard(|| s.parse::<FixedDecimal>().is_ok())?;
        c.call(1);
        let _ = a;
    }
    Ok(())
}
pub fn nocrash_int(n: u64, c: &mut Ctx) -> R {
    for x in [guard(|| FixedDecimal::from(n))?, guard(|| FixedDecimal::from(n as i64))?, guard(|| FixedDecimal::from((n as i64).wrapping_neg()))?] {
        nocrash_readers(&x, c)?;
    }
    c.outcome("converted");
    Ok(())
}
pub fn nocrash_cmp(x: &Operand, y: &Operand, c: &mut Ctx) -> R {
    guard(|| (x.fd == y.fd, x.fd.cmp(&y.fd)))?;
    c.call(2);
    c.outcome("compared");
    Ok(())
}

// ------------------------------------------------------------ dispatch
/// tiers: quick and thorough; "light" explores only small spaces, for trying
/// out many changes quickly
pub fn explore(id: &str, tier: &str, e: &mut Engine) -> V {
    if tier == "light" {
        return base(id, false, e, false);
    }
    let thorough = tier == "thorough";
    base(id, true, e, thorough)?;
    more::quick(id, e, thorough)
}
fn base(id: &str, deep: bool, e: &mut Engine, thorough: bool) -> V {
    match id {
        "C01" => parse_spaces(e, deep, true),
        "C02" => parse_spaces(e, deep, false),
        "C03" => c03(e, deep),
        "C04" => c04(e, deep),
        "C05" => c05(e, deep),
        "C06" => addsub(e, deep, Bin::Add),
        "C07" => addsub(e, deep, Bin::Sub),
        "C08" => mul(e, deep, true),
        "C09" => mul(e, deep, false),
        "C10" => divrem(e, deep, true),
        "C11" => divrem(e, deep, false),
        "C12" => rounding(e, deep, false),
        "C13" => rounding(e, deep, true),
        "C14" => compare(e, deep),
        "C15" => hashing(e, deep),
        "C16" => from_ints(e, deep),
        "C17" => to_ints(e, deep),
        "C18" => forms(e, deep),
        "C19" => bfs::explore(e, deep, thorough),
        "C20" => zero_signs(e, deep),
        "C21" => divzeros(e, deep),
        "C22" => nocrash(e, deep),
        _ => panic!("unknown property {id}"),
    }
}

pub fn replay(case: &str) -> R {
    if let Some((a, b)) = case.strip_prefix("after ").and_then(|s| s.split_once(" then ")) {
        let _ = replay(a);
        return replay(b);
    }
    if let Some((a, b)) = case.strip_prefix("calls ").and_then(|s| s.split_once(" then ")) {
        return crate::seq::replay_calls(a, b);
    }
    let f: Vec<&str> = case.split(';').collect();
    let mut ctx = Ctx::new();
    let c = &mut ctx;
    let z = FixedDecimal::zero();
    let num = |s: &str| s.parse::<isize>().expect("number");
    let op = |s: &str| Bin::parse(s).expect("operation");
    // operands are rebuilt without judging them again
    let o = |s: &str| bfs::rebuild(s);
    match f.as_slice() {
        ["parse", v, s] => parse_case(&unesc(s), *v == "true", c, &dirty()),
        ["readinto", t, s] => crate::bfs::replay_read(s, t, c),
        ["parseinto", t, v, s] => {
            let l = layouts().iter().find(|(n, _)| n == t).ok_or("unknown target")?;
            more::parse_used(&unesc(s), *v == "true", c, &l.1)
        }
        ["forml", p, a, b] => form(op(p), &o(a)?, &o(b)?, layouts(), c),
        ["roundagreel", n, a] => round_agree(&o(a)?, num(n), layouts(), c),
        ["render", a] => render(&o(a)?, c),
        ["rbuild", a] => rbuild(a, c),
        ["rop", p, a, b] => render_result(op(p), &o(a)?, &o(b)?, c),
        ["rendern", n, a] => {
            let x = o(a)?;
            let full = x.d.text();
            render_n(&x, &full, num(n), c)
        }
        ["rendera", n, p, r, a] => {
            let x = o(a)?;
            let full = x.d.text();
            render_after(&x, &full, num(n), num(p) as usize, num(r) as usize, c)
        }
        ["rendround", n, a] => render_rounded(&o(a)?, num(n), c),
        ["rendernall", a] => more::render_all(&o(a)?, c),
        ["rt", a] => roundtrip_fd(&o(a)?.fd, c),
        ["rtraw", a] => more::rt_raw(a, c),
        ["rtbin", p, a, b] => bin_roundtrip(op(p), &o(a)?, &o(b)?, c),
        ["rtround", n, a] => round_roundtrip(&o(a)?, num(n), c),
        ["bin", p, a, b] => bin(op(p), &o(a)?, &o(b)?, &z, false, c),
        ["mulfit", a, b] => mul_half(&o(a)?, &o(b)?, true, &z, c),
        ["mulbig", a, b] => mul_half(&o(a)?, &o(b)?, false, &z, c),
        ["ncparse", t] => nocrash_parse(&unesc(t), c),
        ["ncint", n] => nocrash_int(n.parse().expect("integer"), c),
        ["form", p, a, b] => form(op(p), &o(a)?, &o(b)?, &dests(), c),
        ["round", n, a] => checks::round(&o(a)?, num(n), &dirty(), c),
        ["roundagree", n, a] => round_agree(&o(a)?, num(n), &dests(), c),
        ["cmp", a, b] => checks::cmp(&o(a)?, &o(b)?, true, c),
        ["hash", a, b] => checks::hash(&o(a)?, &o(b)?, c),
        ["hashtwin", a] => hash_twin(a, c),
        ["fromi", n] => from_i64(n.parse().expect("i64"), c),
        ["fromu", n] => from_u64(n.parse().expect("u64"), c),
        ["toint", a] => to_int(&o(a)?, c),
        ["zres", p, a, b] => zero_result(op(p), &o(a)?, &o(b)?, c),
        ["zround", n, a] => zero_round(&o(a)?, num(n), c),
        ["signs", a] => signs(&o(a)?, c),
        ["dz", p, a, b] => divzero(op(p), &o(a)?, &o(b)?, c),
        ["nc", p, a, b] => nocrash_bin(op(p), &o(a)?, &o(b)?, true, c),
        ["ncround", n, a] => nocrash_round(&o(a)?, num(n), c),
        ["ncrender", n, a] => nocrash_render(&o(a)?, num(n), c),
        ["ncread", a] => nocrash_readers(&o(a)?.fd, c),
        ["nccmp", a, b] => nocrash_cmp(&o(a)?, &o(b)?, c),
        ["pasts", a, b] => bfs::replay_pair(a, b, c),
        ["step", a, act] => bfs::replay_step(a, act, c),
        ["whole", id, tier] => Err(format!("replay by running the check: check.sh {id} {tier}")),
        ["sort", ..] => Err("replay by running the check (C14)".into()),
        _ => Err(format!("unknown case {case:?}")),
    }
}
