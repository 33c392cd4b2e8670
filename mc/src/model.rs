//! Reference model: a decimal is (sign, magnitude, scale); nothing else.
use crate::big::{pow10, Big};
use std::cmp::Ordering;

/// groups of nine digits, capacity of a decimal and of its fraction
pub const GROUP: usize = 9;
pub const MAX_GROUPS: usize = 9;
pub const MAX_FRAC_GROUPS: usize = 4;
pub const MAX_DIGITS: usize = 65;
pub const MAX_SCALE: usize = 30;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Dec {
    pub neg: bool,
    pub mag: Big,
    pub scale: usize,
}

impl std::fmt::Debug for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text())
    }
}

pub fn groups(d: usize) -> usize {
    (d + GROUP - 1) / GROUP
}

impl Dec {
    pub fn new(neg: bool, mag: Big, scale: usize) -> Dec {
        Dec { neg: neg && !mag.is_zero(), mag, scale }
    }
    pub fn zero() -> Dec {
        Dec::new(false, Big::zero(), 0)
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    /// digits of the integer part, leading zeros aside (0 when |x| < 1)
    pub fn intg(&self) -> usize {
        self.mag.ndigits().saturating_sub(self.scale)
    }
    pub fn total_digits(&self) -> usize {
        self.intg() + self.scale
    }
    pub fn at_scale(&self, s: usize) -> Big {
        assert!(s >= self.scale);
        self.mag.mul_pow10(s - self.scale)
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        let s = self.scale.max(o.scale);
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (n, _) => {
                let c = self.at_scale(s).cmp(&o.at_scale(s));
                if n {
                    c.reverse()
                } else {
                    c
                }
            }
        }
    }
    pub fn same_value(&self, o: &Dec) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    /// canonical full text
    pub fn text(&self) -> String {
        self.text_n(None)
    }
    /// text with n fraction digits, cut or padded
    pub fn text_n(&self, n: Option<usize>) -> String {
        let mut d = self.mag.to_dec();
        if d.len() <= self.scale {
            d = format!("{}{}", "0".repeat(self.scale + 1 - d.len()), d);
        }
        let (ip, fp) = d.split_at(d.len() - self.scale);
        let mut fp = fp.to_string();
        if let Some(n) = n {
            fp.truncate(n);
            while fp.len() < n {
                fp.push('0');
            }
        }
        let sign = if self.neg { "-" } else { "" };
        if fp.is_empty() {
            format!("{sign}{ip}")
        } else {
            format!("{sign}{ip}.{fp}")
        }
    }
    pub fn hash(&self) -> u64 {
        self.mag.mix(0x51ed ^ (self.scale as u64) << 8 ^ (self.neg as u64) << 40)
    }
    pub fn negated(&self) -> Dec {
        Dec::new(!self.neg, self.mag, self.scale)
    }
}

/// Reads canonical plain notation only: -?(0|[1-9][0-9]*)(\.[0-9]+)?
/// The sign is kept as printed so that "-0" is recognisable.
pub fn read_canonical(s: &[u8]) -> Option<(bool, Dec)> {
    let (neg, b) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    let dot = b.iter().position(|c| *c == b'.');
    let (ip, fp) = match dot {
        Some(p) => (&b[..p], &b[p + 1..]),
        None => (b, &b[b.len()..]),
    };
    if ip.is_empty() || (ip.len() > 1 && ip[0] == b'0') || (dot.is_some() && fp.is_empty()) {
        return None;
    }
    if ip.len() + fp.len() > 280 || !ip.iter().chain(fp).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut m = Big::from_digits(ip);
    m.push_digits(fp);
    Some((neg, Dec { neg, mag: m, scale: fp.len() }))
}

/// The numeral grammar of the parsing property. None = must be rejected.
pub fn parse(b: &[u8]) -> Option<Dec> {
    let mut p = 0;
    let mut neg = false;
    if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
        neg = b[p] == b'-';
        p += 1;
    }
    let mut digits: Vec<u8> = vec![];
    let mut fd = 0usize;
    let mut dot = false;
    while p < b.len() {
        if b[p].is_ascii_digit() {
            digits.push(b[p]);
            fd += dot as usize;
        } else if b[p] == b'.' && !dot {
            dot = true;
        } else {
            break;
        }
        p += 1;
    }
    if digits.is_empty() {
        return None;
    }
    let mut exp: i64 = 0;
    if p < b.len() {
        if b[p] != b'e' && b[p] != b'E' {
            return None;
        }
        p += 1;
        let mut eneg = false;
        if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
            eneg = b[p] == b'-';
            p += 1;
        }
        if p == b.len() || !b[p..].iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        for c in &b[p..] {
            exp = (exp * 10 + (*c - b'0') as i64).min(1_000_000);
        }
        if eneg {
            exp = -exp;
        }
        if exp > MAX_DIGITS as i64 || exp < -(MAX_SCALE as i64) {
            return None;
        }
    }
    let d = digits.len() as i64;
    let frac = fd as i64 - exp;
    let (total, scale, pad) = if frac >= 0 { (d.max(frac), frac, 0) } else { (d - frac, 0, -frac) };
    if total > MAX_DIGITS as i64 {
        return None;
    }
    let m = Big::from_digits(&digits).mul_pow10(pad as usize);
    Some(Dec::new(neg, m, scale as usize))
}

pub fn add(a: &Dec, b: &Dec) -> Dec {
    let s = a.scale.max(b.scale);
    let (x, y) = (a.at_scale(s), b.at_scale(s));
    if a.neg == b.neg {
        Dec::new(a.neg, x.add(&y), s)
    } else if x >= y {
        Dec::new(a.neg, x.sub(&y), s)
    } else {
        Dec::new(b.neg, y.sub(&x), s)
    }
}

pub fn sub(a: &Dec, b: &Dec) -> Dec {
    add(a, &b.negated())
}

/// What a multiplication must deliver.
pub enum MulSpec {
    Overflow,
    Exact(Dec),
    /// kept scale, exact product
    Truncated(usize, Dec),
}

pub fn mul(a: &Dec, b: &Dec) -> MulSpec {
    if a.is_zero() || b.is_zero() {
        return MulSpec::Exact(Dec::zero());
    }
    let ig = groups(a.intg() + b.intg());
    if ig > MAX_GROUPS {
        return MulSpec::Overflow;
    }
    let full = a.scale + b.scale;
    let exact = Dec::new(a.neg != b.neg, a.mag.mul(&b.mag), full);
    let fg = groups(full).min(MAX_GROUPS - ig).min(MAX_FRAC_GROUPS);
    if full <= fg * GROUP {
        MulSpec::Exact(exact)
    } else {
        MulSpec::Truncated(fg * GROUP, exact)
    }
}

pub enum DivSpec {
    DivZero,
    Overflow,
    /// scale of the quotient
    Scale(usize),
    Zero,
}

/// result scale of a division; |a| / |b| has `q0` as integer part
pub fn div(a: &Dec, b: &Dec, extra: usize) -> DivSpec {
    if b.is_zero() {
        return DivSpec::DivZero;
    }
    if a.is_zero() {
        return DivSpec::Zero;
    }
    let (ga, gb) = (groups(a.scale), groups(b.scale));
    let slack = ga * GROUP - a.scale + gb * GROUP - b.scale;
    let mut fg = (ga + gb).saturating_add(groups(extra.saturating_sub(slack).min(1000))).min(MAX_FRAC_GROUPS);
    let s = a.scale.max(b.scale);
    let (x, y) = (a.at_scale(s), b.at_scale(s));
    // integer digits of the quotient without dividing
    let d = {
        // smallest k with x < y * 10^k
        let mut k = x.ndigits().saturating_sub(y.ndigits());
        while x >= y.mul_pow10(k) {
            k += 1;
        }
        k
    };
    let ig = groups(d);
    if ig > MAX_GROUPS {
        return DivSpec::Overflow;
    }
    fg = fg.min(MAX_GROUPS - ig);
    DivSpec::Scale(fg * GROUP)
}

/// |q| is |a|/|b| truncated at q's scale
pub fn is_truncated_quotient(a: &Dec, b: &Dec, q: &Dec) -> bool {
    // q.mag <= a.mag*10^(q.scale + b.scale) / (b.mag*10^a.scale) < q.mag + 1
    let up = q.scale + b.scale;
    let k = up.min(a.scale);
    let num = a.mag.mul(pow10(up - k));
    let den = b.mag.mul(pow10(a.scale - k));
    let lo = q.mag.mul(&den);
    lo <= num && num < lo.add(&den)
}

pub fn rem(a: &Dec, b: &Dec) -> Dec {
    let s = a.scale.max(b.scale);
    let (_, r) = a.at_scale(s).divrem(&b.at_scale(s));
    Dec::new(a.neg, r, s)
}

/// nearest multiple of 10^-n, halves away from zero; only for n < scale
pub fn round(a: &Dec, n: isize) -> Dec {
    let drop = a.scale as i128 - n as i128;
    assert!(drop > 0);
    let out_scale = n.max(0) as usize;
    if drop > 250 {
        return Dec::new(false, Big::zero(), out_scale);
    }
    let p = pow10(drop as usize);
    let (mut q, r) = a.mag.divrem(p);
    if r.add(&r) >= *p {
        q = q.add(&Big::from_u64(1));
    }
    Dec::new(a.neg, q.mul_pow10((-n).max(0) as usize), out_scale)
}
