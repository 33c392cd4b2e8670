//! The code under test, behind panics-to-values wrappers, and the operands the
//! explorers use (a real decimal paired with its model value and a recipe).
use crate::big::Big;
use crate::model::{self, Dec};
use fxd::{Error, FixedDecimal};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let own = i.location().map(|l| l.file().starts_with("src/") && !l.file().contains("repo")).unwrap_or(false);
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
        if own && std::env::var_os("MC_DEBUG").is_some() {
            eprintln!("panic: {m}{l}");
        }
    }));
}

/// Runs code of the subject; a panic becomes Err(message).
#[inline]
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// the operation failed and left an incoherent decimal
    Broken(&'static str),
    Syntax,
    DivZero,
    Overflow,
    Range,
}
pub fn kind(e: &Error) -> E {
    match e {
        Error::ConversionSyntax => E::Syntax,
        Error::DivisionByZero => E::DivZero,
        Error::Overflow => E::Overflow,
        Error::ExceedsConversionTargetRange => E::Range,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div(usize),
    Rem,
}
impl Bin {
    pub fn name(&self) -> String {
        match self {
            Bin::Add => "+".into(),
            Bin::Sub => "-".into(),
            Bin::Mul => "*".into(),
            Bin::Div(n) => format!("/{n}"),
            Bin::Rem => "%".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Bin> {
        Some(match s {
            "+" => Bin::Add,
            "-" => Bin::Sub,
            "*" => Bin::Mul,
            "%" => Bin::Rem,
            "/" => Bin::Div(4),
            _ => Bin::Div(s.strip_prefix('/')?.parse().ok()?),
        })
    }
    pub fn exec(&self, a: &FixedDecimal, b: &FixedDecimal, r: &mut FixedDecimal) -> Result<Result<(), E>, String> {
        guard(|| {
            match self {
                Bin::Add => FixedDecimal::add_to(a, b, r),
                Bin::Sub => FixedDecimal::sub_to(a, b, r),
                Bin::Mul => FixedDecimal::mul_to(a, b, r),
                Bin::Div(n) => FixedDecimal::div_to(a, b, r, *n),
                Bin::Rem => FixedDecimal::rem_to(a, b, r),
            }
            .map_err(|e| kind(&e))
        })
    }
    /// operator form (division asks for 4 extra digits); Err = panicked
    pub fn operator(&self, a: &FixedDecimal, b: &FixedDecimal) -> Result<FixedDecimal, String> {
        let (a, b) = (a.clone(), b.clone());
        guard(move || match self {
            Bin::Add => a + b,
            Bin::Sub => a - b,
            Bin::Mul => a * b,
            Bin::Div(_) => a / b,
            Bin::Rem => a % b,
        })
    }
}

/// value of a decimal as printed; a printed "-0" counts as zero here
pub fn observe(fd: &FixedDecimal) -> Result<Dec, String> {
    let s = guard(|| fd.to_string(-1)).map_err(|p| format!("rendering: {p}"))?;
    match model::read_canonical(s.as_bytes()) {
        Some((neg, d)) => Ok(Dec::new(neg, d.mag, d.scale)),
        None => Err(format!("rendering is not canonical decimal text: {:?}", s)),
    }
}

/// every accessor agrees with the printed text
pub fn coherent(fd: &FixedDecimal) -> Result<Dec, String> {
    let s = guard(|| fd.to_string(-1)).map_err(|p| format!("rendering: {p}"))?;
    let (neg, d) = model::read_canonical(s.as_bytes()).ok_or_else(|| format!("not canonical: {:?}", s))?;
    let r = guard(|| {
        let mut bad = String::new();
        if neg && d.is_zero() {
            bad = "prints a negative zero".into();
        } else if fd.frac() as i64 != d.scale as i64 {
            bad = format!("frac() = {}", fd.frac());
        } else if fd.is_neg() != neg {
            bad = format!("is_neg() = {}", fd.is_neg());
        } else if fd.is_zero() != d.is_zero() {
            bad = format!("is_zero() = {}", fd.is_zero());
        } else if (fd.intg() as i64) < d.intg() as i64 {
            bad = format!("intg() = {}", fd.intg());
        } else if fd.intg_units() != model::groups(fd.intg() as usize) {
            bad = format!("intg_units() = {} for intg() = {}", fd.intg_units(), fd.intg());
        } else if fd.frac_units() != model::groups(fd.frac() as usize) {
            bad = format!("frac_units() = {} for frac() = {}", fd.frac_units(), fd.frac());
        } else if fd.intg_units() + fd.frac_units() > model::MAX_GROUPS {
            bad = format!("{}+{} groups", fd.intg_units(), fd.frac_units());
        }
        bad
    })?;
    if r.is_empty() {
        Ok(Dec::new(neg, d.mag, d.scale))
    } else {
        Err(format!("prints {:?} but {}", s, r))
    }
}

pub fn same(a: &FixedDecimal, b: &FixedDecimal) -> bool {
    a == b && a.frac() == b.frac() && a.is_neg() == b.is_neg()
}

/// Judges a result of a binary operation against the model. `got` is the
/// observed decimal or the error kind. Ok(label) names the outcome class.
pub fn judge_bin(op: Bin, a: &Dec, b: &Dec, got: Result<&Dec, E>) -> Result<&'static str, String> {
    match op {
        Bin::Add | Bin::Sub => {
            let want = if op == Bin::Add { model::add(a, b) } else { model::sub(a, b) };
            match got {
                Err(E::Overflow) if want.total_digits() > model::MAX_DIGITS => Ok("overflow"),
                // operands beyond 65 digits that do not fit nine groups once aligned
                Err(E::Overflow)
                    if a.total_digits().max(b.total_digits()) > model::MAX_DIGITS
                        && model::groups(a.intg().max(b.intg())) + model::groups(a.scale.max(b.scale)) > model::MAX_GROUPS =>
                {
                    Ok("overflow while aligning")
                }
                Err(e) => Err(format!("error {e:?}, expected {want:?}")),
                Ok(g) => {
                    if !g.same_value(&want) {
                        return Err(format!("got {g:?}, expected {want:?}"));
                    }
                    let zero_op = (a.is_zero() && g.scale == b.scale) || (b.is_zero() && g.scale == a.scale);
                    if g.scale != want.scale && !zero_op {
                        return Err(format!("got {g:?} with scale {}, expected scale {}", g.scale, want.scale));
                    }
                    Ok(if want.is_zero() { "zero" } else { "exact" })
                }
            }
        }
        Bin::Mul => match (model::mul(a, b), got) {
            (model::MulSpec::Overflow, Err(E::Overflow)) => Ok("overflow"),
            (model::MulSpec::Overflow, g) => Err(format!("got {g:?}, expected an overflow error")),
            (model::MulSpec::Exact(w), Ok(g)) => {
                if w.is_zero() {
                    return if g.is_zero() { Ok("zero") } else { Err(format!("got {g:?}, expected 0")) };
                }
                if *g == w {
                    Ok("exact")
                } else {
                    Err(format!("got {g:?} (scale {}), expected {w:?} (scale {})", g.scale, w.scale))
                }
            }
            (model::MulSpec::Truncated(s, w), Ok(g)) => {
                if g.scale != s {
                    return Err(format!("got {g:?} with scale {}, expected scale {s} (exact {w:?})", g.scale));
                }
                if !g.is_zero() && g.neg != w.neg {
                    return Err(format!("got {g:?}, wrong sign (exact {w:?})"));
                }
                let gm = g.at_scale(w.scale);
                let slack = Big::from_u64(20).mul_pow10(w.scale - s);
                if gm > w.mag || gm.add(&slack) <= w.mag {
                    return Err(format!("got {g:?}, exact product is {w:?}"));
                }
                Ok(if g.is_zero() { "truncated to zero" } else { "truncated" })
            }
            (_, Err(e)) => Err(format!("error {e:?}, expected a product")),
        },
        Bin::Div(n) => match (model::div(a, b, n), got) {
            (model::DivSpec::DivZero, Err(E::DivZero)) => Ok("division by zero"),
            (model::DivSpec::DivZero, g) => Err(format!("got {g:?}, expected division by zero")),
            (model::DivSpec::Overflow, Err(E::Overflow)) => Ok("overflow"),
            (model::DivSpec::Overflow, g) => Err(format!("got {g:?}, expected overflow")),
            (model::DivSpec::Zero, Ok(g)) if g.is_zero() => Ok("zero"),
            (model::DivSpec::Zero, g) => Err(format!("got {g:?}, expected zero")),
            (model::DivSpec::Scale(s), Ok(g)) => {
                if g.scale != s {
                    return Err(format!("got {g:?} with scale {}, expected scale {s}", g.scale));
                }
                if !g.is_zero() && g.neg != (a.neg != b.neg) {
                    return Err(format!("got {g:?}, wrong sign"));
                }
                if !model::is_truncated_quotient(a, b, g) {
                    return Err(format!("got {g:?}, which is not the truncated quotient"));
                }
                Ok(if g.is_zero() { "quotient truncated to zero" } else { "quotient" })
            }
            (model::DivSpec::Scale(s), Err(e)) => Err(format!("error {e:?}, expected a quotient of scale {s}")),
        },
        Bin::Rem => {
            if b.is_zero() {
                return match got {
                    Err(E::DivZero) => Ok("division by zero"),
                    g => Err(format!("got {g:?}, expected division by zero")),
                };
            }
            let want = model::rem(a, b);
            match got {
                Err(e) => Err(format!("error {e:?}, expected {want:?}")),
                Ok(g) => {
                    if !g.same_value(&want) {
                        return Err(format!("got {g:?}, expected {want:?}"));
                    }
                    if want.is_zero() {
                        return Ok("zero remainder");
                    }
                    if g.scale != want.scale {
                        return Err(format!("got {g:?} with scale {}, expected scale {}", g.scale, want.scale));
                    }
                    Ok("remainder")
                }
            }
        }
    }
}

/// judges rounding of `a` to `n` digits
pub fn judge_round(a: &Dec, n: isize, g: &Dec) -> Result<&'static str, String> {
    if n >= a.scale as isize {
        if !g.same_value(a) {
            return Err(format!("got {g:?}, value must not change"));
        }
        let n = n as usize;
        if g.scale < a.scale || g.scale > n {
            return Err(format!("got {g:?} with scale {}", g.scale));
        }
        if n <= model::MAX_SCALE && a.intg() + n <= model::MAX_DIGITS && g.scale != n {
            return Err(format!("got {g:?} with scale {}, expected scale {n}", g.scale));
        }
        return Ok(if g.scale == a.scale { "same scale" } else { "widened" });
    }
    let w = model::round(a, n);
    if !g.same_value(&w) {
        return Err(format!("got {g:?}, expected {w:?}"));
    }
    let fits = model::groups(w.intg()) + model::groups(w.scale) <= model::MAX_GROUPS;
    let least = if fits { w.scale } else { w.scale.min((model::MAX_GROUPS - model::groups(w.intg()).min(model::MAX_GROUPS)) * model::GROUP) };
    if g.scale < least || g.scale > w.scale {
        return Err(format!("got {g:?} with scale {}, expected {}", g.scale, w.scale));
    }
    Ok(if w.is_zero() {
        "rounded to zero"
    } else if w.cmp(a) == std::cmp::Ordering::Equal {
        "nothing lost"
    } else if w.at_scale(a.scale.max(w.scale)) > a.at_scale(a.scale.max(w.scale)) {
        "rounded away"
    } else {
        "rounded toward"
    })
}

/// rounding may legitimately be impossible: more than 81 integer digits needed
pub fn round_unholdable(a: &Dec, n: isize) -> bool {
    n < a.scale as isize && model::round(a, n).intg() > model::MAX_GROUPS * model::GROUP
}

#[derive(Clone)]
pub struct Operand {
    pub recipe: String,
    pub fd: FixedDecimal,
    pub d: Dec,
}

/// an operand straight from a model value, read back for safety
pub fn from_dec(d: &Dec) -> Option<Operand> {
    if d.total_digits().max(1) > model::MAX_DIGITS {
        return None;
    }
    let mut t = d.text();
    if d.intg() == 0 && d.scale == model::MAX_DIGITS {
        t = t.replacen("0.", ".", 1);
    }
    let fd = guard(|| t.parse::<FixedDecimal>()).ok()?.ok()?;
    let g = observe(&fd).ok()?;
    if g != *d {
        return None;
    }
    Some(Operand { recipe: t, fd, d: *d })
}

/// Evaluates a recipe in postfix form on the real code and on the model.
/// Tokens: a numeral (parsed), + - * / /n %, rN (round to N), neg, pos, i:N, u:N,
/// dup, swap, str (print and parse back).
/// Every step is judged; a step that the model refutes is an Err.
pub fn build(recipe: &str) -> Result<Operand, String> {
    let mut st: Vec<(FixedDecimal, Dec)> = vec![];
    for t in recipe.split_whitespace() {
        if let Some(op) = Bin::parse(t) {
            let (b, bd) = st.pop().ok_or("recipe: stack")?;
            let (a, ad) = st.pop().ok_or("recipe: stack")?;
            let mut r = FixedDecimal::zero();
            let res = op.exec(&a, &b, &mut r).map_err(|p| format!("building {recipe:?}: {ad:?} {t} {bd:?}: {p}"))?;
            match res {
                Ok(()) => {
                    let g = observe(&r)?;
                    judge_bin(op, &ad, &bd, Ok(&g)).map_err(|m| format!("building {recipe:?}: {ad:?} {t} {bd:?}: {m}"))?;
                    st.push((r, g));
                }
                Err(e) => return Err(format!("building {recipe:?}: error {e:?}")),
            }
        } else if let Some(n) = t.strip_prefix('r') {
            let n: isize = n.parse().map_err(|_| "recipe: round")?;
            let (mut a, ad) = st.pop().ok_or("recipe: stack")?;
            guard(|| a.round(n)).map_err(|p| format!("building {recipe:?}: {p}"))?;
            let g = observe(&a)?;
            judge_round(&ad, n, &g).map_err(|m| format!("building {recipe:?}: {m}"))?;
            st.push((a, g));
        } else if t == "neg" || t == "pos" {
            let (mut a, ad) = st.pop().ok_or("recipe: stack")?;
            if t == "neg" {
                a.set_neg();
            } else {
                a.set_pos();
            }
            st.push((a, Dec::new(t == "neg", ad.mag, ad.scale)));
        } else if t == "dup" {
            let x = st.last().ok_or("recipe: stack")?.clone();
            st.push(x);
        } else if t == "swap" {
            let (a, b) = (st.pop().ok_or("recipe: stack")?, st.pop().ok_or("recipe: stack")?);
            st.push(a);
            st.push(b);
        } else if t == "str" {
            let (a, ad) = st.pop().ok_or("recipe: stack")?;
            let s = guard(|| a.to_string(-1))?;
            let b = guard(|| s.parse::<FixedDecimal>())?.map_err(|e| format!("parsing {s:?}: {e}"))?;
            st.push((b, ad));
        } else if let Some(n) = t.strip_prefix("i:") {
            let n: i64 = n.parse().map_err(|_| "recipe: i64")?;
            st.push((FixedDecimal::from(n), Dec::new(n < 0, Big::from_u64(n.unsigned_abs()), 0)));
        } else if let Some(n) = t.strip_prefix("u:") {
            let n: u64 = n.parse().map_err(|_| "recipe: u64")?;
            st.push((FixedDecimal::from(n), Dec::new(false, Big::from_u64(n), 0)));
        } else {
            let d = model::parse(t.as_bytes()).ok_or_else(|| format!("recipe: bad numeral {t}"))?;
            let fd = guard(|| t.parse::<FixedDecimal>()).map_err(|p| format!("parsing {t:?}: {p}"))?;
            let fd = fd.map_err(|e| format!("parsing {t:?}: {e}"))?;
            st.push((fd, d));
        }
    }
    if st.len() != 1 {
        return Err(format!("recipe {recipe:?}: stack depth {}", st.len()));
    }
    let (fd, d) = st.pop().unwrap();
    Ok(Operand { recipe: recipe.to_string(), fd, d })
}
