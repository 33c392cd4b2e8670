//! Finite operand domains. Every domain is an explicit list, simplest first.
use crate::subject::{build, observe, Operand};
use std::collections::HashSet;

pub const U: u32 = 1_000_000_000;

const PI: &[u8; 65] = b"31415926535897932384626433832795028841971693993751058209749445923";
const ROOT2: &[u8; 65] = b"14142135623730950488016887242096980785696718753769480731766797379";

/// n contents of a group, evenly spread over 0..10^9 (a one-dimensional lattice)
pub fn lattice(n: u32) -> Vec<u32> {
    (0..n as u64).map(|k| ((k * 618_033_989 + 271_828_183) % U as u64) as u32).collect()
}
/// decimals of up to three groups whose contents run over lattices
pub fn d_lattice(n1: u32, n2: u32, n3: u32) -> Vec<String> {
    let mut v = vec![];
    for g in lattice(n1) {
        v.push(g.to_string());
        v.push(format!("0.{g:09}"));
        v.push(format!("{}.{:04}", g / 10_000, g % 10_000));
    }
    for f in 0..3 {
        v.extend(all_groups(2 - f, f, &lattice(n2)));
    }
    for f in 0..4 {
        v.extend(all_groups(3 - f, f, &lattice(n3)));
    }
    v
}

/// digit patterns over `t` digits, position p (0 = leftmost), `i` integer digits
pub fn pattern_digit(pat: u8, p: usize, t: usize, i: usize) -> u8 {
    match pat {
        b'n' => b'9',
        b'e' => if p == 0 { b'1' } else { b'0' },
        b'l' => if p + 1 == t { b'1' } else { b'0' },
        b'b' => if p == 0 || p + 1 == t { b'1' } else { b'0' },
        b'c' => b'0' + ((p + 1) % 10) as u8,
        b'h' => if p == 0 { b'5' } else { b'0' },
        b'm' => if p == 0 { b'4' } else { b'9' },
        b'z' => b'0',
        // irregular digits: pi and the root of two
        b'p' => PI[p % 65],
        b'r' => ROOT2[p % 65],
        // alternating groups of nines and zeros, aligned to the point
        b'a' => {
            let g = if p < i { (i - 1 - p) / 9 } else { (p - i) / 9 + 1 };
            if g % 2 == 0 { b'9' } else { b'0' }
        }
        _ => unreachable!(),
    }
}

pub fn shape(i: usize, f: usize, pat: u8) -> String {
    let t = i + f;
    let mut s = String::with_capacity(t + 1);
    for p in 0..t {
        if p == i {
            s.push('.');
        }
        s.push(pattern_digit(pat, p, t, i) as char);
    }
    s
}

/// numeral with the given integer and fraction groups (most significant first)
pub fn groups_numeral(ig: &[u32], fg: &[u32]) -> String {
    let mut s = String::new();
    for g in ig {
        s.push_str(&format!("{:09}", g));
    }
    if !fg.is_empty() {
        s.push('.');
        for g in fg {
            s.push_str(&format!("{:09}", g));
        }
    }
    s
}

/// all numerals with iu integer and fu fraction groups over an alphabet
pub fn all_groups(iu: usize, fu: usize, alpha: &[u32]) -> Vec<String> {
    let t = iu + fu;
    let mut out = vec![];
    if t == 0 {
        return out;
    }
    let mut ix = vec![0usize; t];
    loop {
        let v: Vec<u32> = ix.iter().map(|k| alpha[*k]).collect();
        out.push(groups_numeral(&v[..iu], &v[iu..]));
        let mut p = t;
        loop {
            if p == 0 {
                return out;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < alpha.len() {
                break;
            }
            ix[p] = 0;
        }
    }
}

/// Build operands; a recipe on which the code already deviates from the model
/// is left out (and counted), so that a check judges only its own property.
pub fn operands<I: IntoIterator<Item = String>>(it: I) -> Vec<Operand> {
    operands_of(it, true)
}
/// as `operands`, without comparing the rendering (used where rendering is judged)
pub fn operands_raw<I: IntoIterator<Item = String>>(it: I) -> Vec<Operand> {
    operands_of(it, false)
}
fn operands_of<I: IntoIterator<Item = String>>(it: I, verify: bool) -> Vec<Operand> {
    let mut seen = HashSet::new();
    let mut v = vec![];
    for r in it {
        if !seen.insert(r.clone()) {
            continue;
        }
        let o = build(&r).and_then(|o| {
            if verify {
                let d = observe(&o.fd)?;
                if d != o.d {
                    return Err(format!("reads back as {d:?}"));
                }
            }
            Ok(o)
        });
        match o {
            Ok(o) => v.push(o),
            Err(e) => {
                SKIPPED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if std::env::var_os("MC_DEBUG").is_some() {
                    eprintln!("skipped operand {r:?}: {e}");
                }
            }
        }
    }
    v
}
pub static SKIPPED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn signed(v: Vec<String>) -> Vec<String> {
    let mut o = Vec::with_capacity(v.len() * 2);
    for s in v {
        if s.starts_with('-') {
            o.push(s);
            continue;
        }
        let neg = if s.contains(' ') || s.contains(':') { format!("{s} neg") } else { format!("-{s}") };
        o.push(s);
        o.push(neg);
    }
    o
}

/// all mantissas 0..m at scales 0..=smax
pub fn small(m: u32, smax: usize) -> Vec<String> {
    let mut v = vec![];
    for s in 0..=smax {
        for k in 0..m {
            let d = format!("{:0w$}", k, w = s + 1);
            let (a, b) = d.split_at(d.len() - s);
            v.push(if s == 0 { d.clone() } else { format!("{a}.{b}") });
        }
    }
    v
}

/// every (integer digits, scale) shape with at most 65 digits
pub fn shapes(imax: usize, fmax: usize, istep: &dyn Fn(usize) -> bool, fstep: &dyn Fn(usize) -> bool, pats: &[u8]) -> Vec<String> {
    let mut v = vec![];
    for i in 0..=imax {
        for f in 0..=fmax {
            if i + f == 0 || i + f > 65 || !istep(i) || !fstep(f) {
                continue;
            }
            for p in pats {
                v.push(shape(i, f, *p));
            }
        }
    }
    v
}

pub fn unit_edges(k: usize) -> bool {
    // around group boundaries
    matches!(k % 9, 0 | 1 | 8) || k == 30 || k == 65 || k == 64
}

/// (10^k + d) * 10^-s for d in -1..=1
pub fn edges(kmax: usize, scales: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for &s in scales {
        for k in 0..=kmax {
            for d in [-1i32, 0, 1] {
                let digits = match d {
                    -1 => {
                        if k == 0 {
                            "0".into()
                        } else {
                            "9".repeat(k)
                        }
                    }
                    0 => format!("1{}", "0".repeat(k)),
                    _ => {
                        if k == 0 {
                            "2".into()
                        } else {
                            format!("1{}1", "0".repeat(k - 1))
                        }
                    }
                };
                let digits = format!("{:0>w$}", digits, w = s + 1);
                if digits.len() > 65 {
                    continue;
                }
                let (a, b) = digits.split_at(digits.len() - s);
                v.push(if s == 0 { a.to_string() } else { format!("{a}.{b}") });
            }
        }
    }
    v
}

/// Decimals that parsing alone cannot produce: padded or shrunken integer
/// parts, nine full groups, more than 65 digits, scales 31..36.
pub fn histories() -> Vec<String> {
    let n = |k: usize| "9".repeat(k);
    let mut v: Vec<String> = vec![
        // quotients and remainders
        "5000000000 10 /".into(),
        "1 3 /".into(),
        "2 3 /30".into(),
        "1 1 /".into(),
        "99999999999999999999 7 /".into(),
        "1 70000000000 /".into(),
        "0.3 0.7 /".into(),
        "1e20 3e-9 /".into(),
        "1000000001 2 %".into(),
        "98765432109876543210.123 7777777777.7 %".into(),
        // sums that carry or cancel groups
        "999999999 1 +".into(),
        "999999999999999999.999999999 0.000000001 +".into(),
        "1000000000000000000 999999999999999999 -".into(),
        "1000000000.5 999999999.5 -".into(),
        "1.5 1.5 -".into(),
        "1.000000000 1 -".into(),
        // products with spare integer groups
        "1.5 1 * 1 * 1 *".into(),
        "0.5 0.5 *".into(),
        "1000000000 1000000000 *".into(),
        "0.000000001 1000000000 *".into(),
        "123456789.987654321 1000000001.000000001 *".into(),
        // scales 31..36
        "0.000000000000000001 0.000000000000000003 *".into(),
        "1.0000000000000001 1.000000000000000001 *".into(),
        "1e-18 7e-18 *".into(),
        "5e-30 5 *".into(),
        // widened / rounded
        "1.5 r18".into(),
        "999999999.5 r0".into(),
        "123456789123456789.123456789123456789 r-9".into(),
        "5 r-1".into(),
        "0.4 r0".into(),
        "-0.4 r0".into(),
        "i:0".into(),
        "i:5".into(),
        "i:-1000000000".into(),
        "u:18446744073709551615".into(),
        "i:-9223372036854775808".into(),
        // leading zero groups from spelling
        "000000000000000000000000000001.5".into(),
        "000000000000000000000000000000000000000000000000000000000007".into(),
        "00000000000000000000000000000000000000.000000000000000000000000001".into(),
        "0.000000000000000000000000000000000000000000000000000000000000001".into(),
        "0e60".into(),
        "0.00".into(),
    ];
    // nine full groups, all nines: 81 integer digits
    let nines81 = format!("{} {} * 10{}8 +", n(40), n(41), n(39));
    v.push(nines81.clone());
    v.push(format!("{nines81} {} -", 4));
    v.push(format!("{} {} *", n(40), n(41)));
    v.push(format!("1e39 1e40 * 9 * 1 +"));
    // 45 integer digits, 36 fraction digits, all nines:
    // (10^22-10^-18)(10^23-10^-18) = 10^45 - 11*10^4... + 10^-36, topped up below
    let n45_36 = format!("{a}.{f} {b}.{f} *", a = n(22), b = n(23), f = n(18));
    v.push(n45_36);
    v.push(format!("{}.{} 1e-9 * 1 *", n(35), n(27)));
    v.push(format!("{}.{} 1e-18 1e-18 * +", n(37), n(28)));
    v.push(format!("{}.{}", n(37), n(28)));
    v.push(format!("{}.{}", n(45), n(20)));
    v.push(format!("{}.{}", n(2), n(63)));
    v.push(format!("{}.{}", n(1), n(64)));
    v.push(format!(".{}", n(65)));
    v.push(n(65));
    v
}

/// exactly 45 nines . 36 nines (built by addition of two exact parts)
pub fn full_mixed() -> Vec<String> {
    let n = |k: usize| "9".repeat(k);
    vec![
        // 99..9(36 digits frac) = (10^18-1)*10^-18 + ((10^18-1)*10^-18)*10^-18
        format!("{}.{} {}e-18 1e-18 * +", n(45), n(18), n(18)),
        format!("{}.{} {}e-18 1e-18 * + neg", n(45), n(18), n(18)),
        format!("{}.{} 1e-18 1e-18 * +", n(45), n(18)),
        format!("5{}.{} 1e-18 1e-18 * +", "0".repeat(44), "0".repeat(18)),
        format!("1{}.{} 5e-18 1e-18 * +", "0".repeat(36), "0".repeat(18)),
    ]
}
