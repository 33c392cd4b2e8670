//! The typed case functions: one per kind of case. Explorers call them on
//! indexed spaces; `replay` calls them on a case string.
use crate::big::Big;
use crate::engine::Ctx;
use crate::model::{self, Dec};
use crate::subject::*;
use fxd::FixedDecimal;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

pub type R = Result<(), String>;

/// nine full groups, negative, fractional: everything a result must not keep
pub fn dirty() -> FixedDecimal {
    format!("-{}.{}", "9".repeat(37), "9".repeat(28)).parse().unwrap()
}

pub fn dests() -> Vec<(&'static str, FixedDecimal)> {
    let mut v = vec![("0", FixedDecimal::zero())];
    for s in ["-7.25", "123456789123456789123456789.5", "0.000000000000000000000000000009"] {
        v.push((s, s.parse().unwrap()));
    }
    v.push(("dirty", dirty()));
    v
}

/// zero, then a decimal filling every possible number of integer and fraction
/// groups (a target's earlier content decides what has to be cleared)
pub fn layouts() -> &'static Vec<(&'static str, FixedDecimal)> {
    static L: std::sync::OnceLock<Vec<(&'static str, FixedDecimal)>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let n = |k: usize| "9".repeat(k);
        let mut v = vec![("0", FixedDecimal::zero())];
        for i in 0..=9usize {
            for f in 0..=(9 - i).min(8) {
                let (di, df) = (i * 9, (f * 9).min(64));
                let r = if i + f == 0 {
                    continue;
                } else if f == 8 {
                    format!("{}.{}", n(i), n(64))
                } else if di + df <= 65 {
                    format!("{}.{}", n(di), n(df))
                } else if i <= 7 {
                    format!("{} .{} +", n(di), n(df))
                } else if f == 0 {
                    format!("{} {} *", n(di / 2), n(di - di / 2))
                } else {
                    format!("{} {} * .{} +", n(di / 2), n(di - di / 2), n(df))
                };
                let r = if (i + f) % 2 == 1 { format!("{r} neg") } else { r };
                let Ok(o) = guard(|| build(&r)).and_then(|x| x) else { continue };
                v.push((Box::leak(r.into_boxed_str()), o.fd));
            }
        }
        v
    })
}

// ---------------------------------------------------------------- parsing
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if c.is_ascii_graphic() && *c != b';' && *c != b'\\' {
            s.push(*c as char);
        } else {
            s.push_str(&format!("\\x{:02x}", c));
        }
    }
    s
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap());
            i += 4;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// judges one byte string; `valid` selects the half of the input space judged
pub fn parse_case(b: &[u8], valid: bool, ctx: &mut Ctx, dirty: &FixedDecimal) -> R {
    let want = model::parse(b);
    match (want, valid) {
        (Some(w), true) => {
            let mut fd = dirty.clone();
            let r = guard(|| fd.from_bytes_str(b, true).map_err(|e| kind(&e))).map_err(|p| format!("parsing: {p}"))?;
            ctx.call(1);
            if let Err(e) = r {
                return Err(format!("rejected ({e:?}), expected {w:?}"));
            }
            let g = observe(&fd)?;
            if g != w {
                return Err(format!("parsed as {g:?}, expected {w:?}"));
            }
            if fd.frac() as usize != w.scale {
                return Err(format!("scale {} of {g:?}, expected {}", fd.frac(), w.scale));
            }
            if let Ok(s) = std::str::from_utf8(b) {
                let a = guard(|| FixedDecimal::from_str(s)).map_err(|p| format!("from_str: {p}"))?;
                let mut c = dirty.clone();
                let r = guard(|| c.from_ascii_str(s, false).map_err(|e| kind(&e))).map_err(|p| format!("from_ascii_str: {p}"))?;
                ctx.call(2);
                match (a, r) {
                    (Ok(a), Ok(())) if same(&a, &fd) && same(&c, &fd) => {
                        // once more into a target that holds the value already
                        let mut again = c.clone();
                        let r = guard(|| again.from_bytes_str(b, b.len() % 2 == 0).map_err(|e| kind(&e))).map_err(|p| format!("parsing again: {p}"))?;
                        ctx.call(1);
                        if r.is_err() || !same(&again, &fd) {
                            return Err(format!("into a target holding the value: {r:?} {again:?}, expected {fd:?}"));
                        }
                    }
                    (a, r) => return Err(format!("parsing forms disagree: {a:?} / {r:?} {c:?} / {fd:?}")),
                }
            }
            ctx.state(w.hash());
            ctx.outcome("accepted");
        }
        (None, false) => {
            // with reset: ends up zero; without: untouched
            let mut fd = dirty.clone();
            let mut un = dirty.clone();
            let r = guard(|| fd.from_bytes_str(b, true).map_err(|e| kind(&e))).map_err(|p| format!("parsing: {p}"))?;
            let u = guard(|| un.from_bytes_str(b, false).map_err(|e| kind(&e))).map_err(|p| format!("parsing: {p}"))?;
            ctx.call(2);
            if r != Err(E::Syntax) || u != Err(E::Syntax) {
                return Err(format!("got {r:?} / {u:?} and {fd:?}, expected a conversion-syntax error"));
            }
            let z = fd.is_zero() && !fd.is_neg() && fd.frac() == 0 && fd == FixedDecimal::zero();
            if !z {
                return Err(format!("rejected, but the reset target is left as {fd:?}"));
            }
            if !same(&un, dirty) || un.intg() != dirty.intg() {
                return Err(format!("rejected, but the target changed to {un:?}"));
            }
            if b.len() > 9 && b.iter().fold(0u8, |h, c| h.wrapping_mul(31).wrapping_add(*c)) % 8 == 0 {
                // nothing hidden is left behind either (judged on every eighth long text)
                let zero = FixedDecimal::zero();
                probe_same(&fd, &zero).map_err(|m| format!("rejected, the reset target: {m}"))?;
                probe_same(&un, dirty).map_err(|m| format!("rejected, the target: {m}"))?;
                let mut fresh = zero.clone();
                let f = guard(|| fresh.from_bytes_str(b, false).map_err(|e| kind(&e))).map_err(|p| format!("parsing: {p}"))?;
                if f != Err(E::Syntax) {
                    return Err(format!("into a zero: {f:?} and {fresh:?}, expected a conversion-syntax error"));
                }
                probe_same(&fresh, &zero).map_err(|m| format!("rejected, a zero target: {m}"))?;
                ctx.call(1);
            }
            if let Ok(s) = std::str::from_utf8(b) {
                let a = guard(|| FixedDecimal::from_str(s).map_err(|e| kind(&e))).map_err(|p| format!("from_str: {p}"))?;
                let c = guard(|| {
                    let mut c = dirty.clone();
                    c.from_ascii_str(s, true).map_err(|e| kind(&e))
                })
                .map_err(|p| format!("from_ascii_str: {p}"))?;
                ctx.call(2);
                if a.is_ok() || a.as_ref().err() != Some(&E::Syntax) || c != Err(E::Syntax) {
                    return Err(format!("other parsing forms: {a:?} {c:?}"));
                }
            }
            ctx.state(b.iter().fold(7u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)));
            ctx.outcome("rejected");
        }
        _ => ctx.outcome("not judged here (other half of the input space)"),
    }
    Ok(())
}

// ---------------------------------------------------------------- rendering
pub fn render(o: &Operand, ctx: &mut Ctx) -> R {
    let s = guard(|| o.fd.to_string(-1))?;
    ctx.call(1);
    let w = o.d.text();
    if s != w {
        return Err(format!("prints {s:?}, expected {w:?}"));
    }
    for n in [-2, -30, isize::MIN] {
        let t = guard(|| o.fd.to_string(n))?;
        ctx.call(1);
        if t != w {
            return Err(format!("to_string({n}) = {t:?}, expected {w:?}"));
        }
    }
    let mut buf = vec![b'x', 0xff];
    guard(|| o.fd.append_str_buf(&mut buf, -1))?;
    ctx.call(1);
    if &buf[..2] != b"x\xff" || &buf[2..] != w.as_bytes() {
        return Err(format!("append_str_buf appended {:?}, expected {w:?}", esc(&buf)));
    }
    ctx.state(o.d.hash());
    ctx.outcome(if o.d.neg { "negative" } else if o.d.is_zero() { "zero" } else { "positive" });
    Ok(())
}

pub fn render_n(o: &Operand, full: &str, n: isize, ctx: &mut Ctx) -> R {
    let s = guard(|| o.fd.to_string(n))?;
    ctx.call(1);
    let w = if n < 0 {
        full.to_string()
    } else {
        // cut or pad the full text
        let (ip, fp) = full.split_once('.').unwrap_or((full, ""));
        let mut w = ip.to_string();
        if n > 0 {
            w.push('.');
            for k in 0..n as usize {
                w.push(fp.as_bytes().get(k).map(|c| *c as char).unwrap_or('0'));
            }
        }
        w
    };
    if s != w {
        return Err(format!("to_string({n}) = {s:?}, expected {w:?}"));
    }
    let mut buf = b"9.9-".to_vec();
    guard(|| o.fd.append_str_buf(&mut buf, n))?;
    ctx.call(1);
    if &buf[..4] != b"9.9-" || &buf[4..] != w.as_bytes() {
        return Err(format!("append_str_buf({n}) left {:?}, expected 9.9-{w}", esc(&buf)));
    }
    ctx.state(text_hash(s.as_bytes()));
    ctx.outcome(match n.cmp(&(o.d.scale as isize)) {
        _ if n < 0 => "full",
        Ordering::Less => "cut",
        Ordering::Equal => "same",
        Ordering::Greater => "padded",
    });
    Ok(())
}

/// appending after any earlier content and with any spare room
pub fn render_after(o: &Operand, full: &str, n: isize, prefix: usize, room: usize, ctx: &mut Ctx) -> R {
    let pre: Vec<u8> = (0..prefix).map(|k| b"-0.91\xff5."[k % 8]).collect();
    let want = guard(|| o.fd.to_string(n))?;
    let mut buf = Vec::with_capacity(prefix + room);
    buf.extend_from_slice(&pre);
    guard(|| o.fd.append_str_buf(&mut buf, n))?;
    // the same once more behind it
    guard(|| o.fd.append_str_buf(&mut buf, n))?;
    ctx.call(3);
    if buf[..prefix] != pre[..] || &buf[prefix..] != format!("{want}{want}").as_bytes() || (n < 0 && want != full) {
        return Err(format!("appending twice after {prefix} bytes gave {:?}, expected {want} twice", esc(&buf)));
    }
    ctx.outcome("appended");
    Ok(())
}

/// identity of a printed text, for counting distinct ones
pub fn text_hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h: u64, c| (h ^ *c as u64).wrapping_mul(0x100000001b3)) ^ b.len() as u64
}
pub fn roundtrip_fd(fd: &FixedDecimal, ctx: &mut Ctx) -> R {
    let s = guard(|| fd.to_string(-1))?;
    let d = s.bytes().filter(|c| c.is_ascii_digit()).count();
    // plain notation of at most 65 digits; a lone leading zero is not needed
    let d = if s.trim_start_matches('-').starts_with("0.") { d - 1 } else { d };
    if d > model::MAX_DIGITS {
        ctx.outcome("beyond 65 digits");
        return Ok(());
    }
    let s2 = if d == model::MAX_DIGITS && s.trim_start_matches('-').starts_with("0.") { s.replacen("0.", ".", 1) } else { s.clone() };
    let b = guard(|| s2.parse::<FixedDecimal>())?.map_err(|e| format!("{s2:?} does not parse back: {e}"))?;
    ctx.call(2);
    let t = guard(|| b.to_string(-1))?;
    if t != s {
        return Err(format!("{s:?} parses back as {t:?}"));
    }
    if !guard(|| b == *fd && *fd == b)? {
        return Err(format!("{s:?} parses back unequal"));
    }
    if b.frac() != fd.frac() {
        return Err(format!("{s:?} parses back with scale {} instead of {}", b.frac(), fd.frac()));
    }
    ctx.state(text_hash(s.as_bytes()));
    ctx.outcome("round trip");
    Ok(())
}

pub fn bin_roundtrip(op: Bin, a: &Operand, b: &Operand, ctx: &mut Ctx) -> R {
    let mut r = FixedDecimal::zero();
    match op.exec(&a.fd, &b.fd, &mut r) {
        Ok(Ok(())) => roundtrip_fd(&r, ctx),
        _ => {
            ctx.outcome("operation not delivered");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- arithmetic
pub fn bin(op: Bin, a: &Operand, b: &Operand, dest: &FixedDecimal, with_operator: bool, ctx: &mut Ctx) -> R {
    let mut r = dest.clone();
    let res = op.exec(&a.fd, &b.fd, &mut r)?;
    ctx.call(1);
    let label = match res {
        Ok(()) => {
            let g = observe(&r)?;
            ctx.state(g.hash());
            judge_bin(op, &a.d, &b.d, Ok(&g))?
        }
        Err(e) => judge_bin(op, &a.d, &b.d, Err(e))?,
    };
    ctx.outcome(label);
    if with_operator {
        let o = op.operator(&a.fd, &b.fd);
        ctx.call(1);
        match (res, o) {
            (Ok(()), Ok(v)) => {
                if !same(&v, &r) {
                    return Err(format!("operator form gives {v:?}, not {r:?}"));
                }
            }
            (Err(_), Err(_)) => (),
            (x, y) => return Err(format!("operator form gives {y:?} where the fallible form gives {x:?}")),
        }
    }
    Ok(())
}

/// the same value written with one digit more and with no trailing zeros
fn respelled(v: &FixedDecimal) -> Vec<FixedDecimal> {
    let Ok(t) = guard(|| v.to_string(-1)) else { return vec![] };
    let longer = if t.contains('.') { format!("{t}0") } else { format!("{t}.0") };
    let shorter = if t.contains('.') { t.trim_end_matches('0').trim_end_matches('.').to_string() } else { longer.clone() + "0" };
    [longer, shorter].iter().filter_map(|s| guard(|| s.parse::<FixedDecimal>().ok()).ok().flatten()).collect()
}

/// destination contents that are related to what the operation reads and writes
fn related(a: &FixedDecimal, b: Option<&FixedDecimal>, r: Option<&FixedDecimal>) -> Vec<(&'static str, FixedDecimal)> {
    let mut v = vec![("the left operand", a.clone())];
    v.extend(respelled(a).into_iter().map(|x| ("the left operand at another scale", x)));
    if let Some(b) = b {
        v.push(("the right operand", b.clone()));
        v.extend(respelled(b).into_iter().map(|x| ("the right operand at another scale", x)));
    }
    if let Some(r) = r {
        v.push(("the result", r.clone()));
        v.extend(respelled(r).into_iter().map(|x| ("the result at another scale", x)));
        let mut n = r.clone();
        if n.is_neg() {
            n.set_pos()
        } else {
            n.set_neg()
        }
        v.push(("the negated result", n));
    }
    v
}

/// C18: every destination, operands untouched, operator form
pub fn form(op: Bin, a: &Operand, b: &Operand, dests: &[(&'static str, FixedDecimal)], ctx: &mut Ctx) -> R {
    let (ka, kb) = (format!("{:?}", a.fd), format!("{:?}", b.fd));
    let mut first: Option<(Result<(), E>, FixedDecimal, String)> = None;
    for (dn, d) in dests {
        let mut r = d.clone();
        let res = op.exec(&a.fd, &b.fd, &mut r);
        ctx.call(1);
        let res = match res {
            Ok(x) => x,
            Err(_) => {
                ctx.outcome("operation not delivered");
                return Ok(());
            }
        };
        let text = if res.is_ok() { guard(|| r.to_string(-1))? } else { String::new() };
        match &first {
            None => first = Some((res, r, text)),
            Some((r0, f0, t0)) => {
                if *r0 != res {
                    return Err(format!("into destination {dn}: {res:?}, into zero: {r0:?}"));
                }
                if res.is_ok() && (*t0 != text || !same(f0, &r)) {
                    return Err(format!("into destination {dn}: {text:?}, into zero: {t0:?}"));
                }
                if res.is_ok() {
                    // the same hidden content too: any further use must agree
                    probe_same(f0, &r).map_err(|m| format!("into destination {dn}: {m}"))?;
                }
            }
        }
    }
    let (r0, f0, t0) = first.unwrap();
    let kf = format!("{f0:?}");
    for (dn, d) in related(&a.fd, Some(&b.fd), if r0.is_ok() { Some(&f0) } else { None }) {
        let mut r = d.clone();
        let res = op.exec(&a.fd, &b.fd, &mut r).map_err(|p| format!("into a destination holding {dn} ({d:?}): {p}"))?;
        ctx.call(1);
        if res != r0 {
            return Err(format!("into a destination holding {dn} ({d:?}): {res:?}, into zero: {r0:?}"));
        }
        if res.is_ok() && format!("{r:?}") != kf {
            let text = guard(|| r.to_string(-1))?;
            if text != t0 || !same(&f0, &r) {
                return Err(format!("into a destination holding {dn} ({d:?}): {text:?}, into zero: {t0:?}"));
            }
            probe_same(&f0, &r).map_err(|m| format!("into a destination holding {dn} ({d:?}): {m}"))?;
        }
    }
    if format!("{:?}", a.fd) != ka || format!("{:?}", b.fd) != kb {
        return Err("an operand changed".into());
    }
    if matches!(op, Bin::Div(n) if n != 4) {
        ctx.outcome("destinations agree");
        return Ok(());
    }
    let o = op.operator(&a.fd, &b.fd);
    ctx.call(1);
    match (r0, o) {
        (Ok(()), Ok(v)) => {
            let t = guard(|| v.to_string(-1))?;
            if t != t0 || !same(&v, &f0) {
                return Err(format!("operator form gives {t:?}, destination form {t0:?}"));
            }
            probe_same(&f0, &v).map_err(|m| format!("operator form: {m}"))?;
            ctx.outcome("forms agree");
        }
        (Err(e), Err(_)) => ctx.outcome(match e {
            E::DivZero => "both fail: division by zero",
            _ => "both fail: overflow",
        }),
        (x, y) => return Err(format!("operator form gives {y:?}, destination form {x:?}")),
    }
    Ok(())
}

/// differential probes that expose a difference in hidden content
pub fn probe_same(x: &FixedDecimal, y: &FixedDecimal) -> R {
    let one = FixedDecimal::one();
    let p = |v: &FixedDecimal| -> Result<String, String> {
        guard(|| {
            let mut s = String::new();
            let mut r = FixedDecimal::zero();
            let e = FixedDecimal::add_to(v, &one, &mut r).map_err(|e| kind(&e));
            s.push_str(&format!("+1:{e:?}{} ", if e.is_ok() { r.to_string(-1) } else { String::new() }));
            let e = FixedDecimal::mul_to(v, &one, &mut r).map_err(|e| kind(&e));
            s.push_str(&format!("*1:{e:?}{} ", if e.is_ok() { r.to_string(-1) } else { String::new() }));
            s.push_str(&format!("z:{} i:{:?} u:{:?} h:{}", v.is_zero(), v.as_i64().ok(), v.as_u64().ok(), hash_of(v)));
            s
        })
    };
    let (a, b) = (p(x)?, p(y)?);
    if a == b {
        Ok(())
    } else {
        Err(format!("equal results behave differently: {a} vs {b}"))
    }
}

/// the same without the hash (declared groups may differ)
pub fn probe_same_value(x: &FixedDecimal, y: &FixedDecimal) -> R {
    let one = FixedDecimal::one();
    let p = |v: &FixedDecimal| -> Result<String, String> {
        guard(|| {
            let mut r = FixedDecimal::zero();
            let e = FixedDecimal::add_to(v, &one, &mut r).map_err(|e| kind(&e));
            format!("+1:{e:?}{} z:{} i:{:?} u:{:?}", if e.is_ok() { r.to_string(-1) } else { String::new() }, v.is_zero(), v.as_i64().ok(), v.as_u64().ok())
        })
    };
    let (a, b) = (p(x)?, p(y)?);
    if a == b && x == y {
        Ok(())
    } else {
        Err(format!("equal results behave differently: {a} vs {b}"))
    }
}

// ---------------------------------------------------------------- rounding
pub fn round(o: &Operand, n: isize, dest: &FixedDecimal, ctx: &mut Ctx) -> R {
    let mut x = o.fd.clone();
    let p = guard(|| x.round(n));
    let mut y = dest.clone();
    let q = guard(|| o.fd.round_to(&mut y, n));
    ctx.call(2);
    if p.is_err() || q.is_err() {
        if round_unholdable(&o.d, n) {
            ctx.outcome("not holdable");
            return Ok(());
        }
        return Err(format!("in place {p:?}, into target {q:?}"));
    }
    let g = observe(&x)?;
    let l = judge_round(&o.d, n, &g).map_err(|m| format!("in place: {m}"))?;
    let h = observe(&y)?;
    judge_round(&o.d, n, &h).map_err(|m| format!("into target: {m}"))?;
    if x.frac() as usize != g.scale || y.frac() as usize != h.scale {
        return Err(format!("declared scale {} / {}, printed {g:?} / {h:?}", x.frac(), y.frac()));
    }
    ctx.state(g.hash());
    ctx.outcome(l);
    Ok(())
}

pub fn round_agree(o: &Operand, n: isize, dests: &[(&'static str, FixedDecimal)], ctx: &mut Ctx) -> R {
    let before = format!("{:?}", o.fd);
    let mut x = o.fd.clone();
    let p = guard(|| x.round(n));
    let tx = if p.is_ok() { guard(|| x.to_string(-1))? } else { "panic".into() };
    ctx.call(1);
    for (dn, d) in dests {
        let mut y = d.clone();
        let q = guard(|| o.fd.round_to(&mut y, n));
        ctx.call(1);
        let ty = if q.is_ok() { guard(|| y.to_string(-1))? } else { "panic".into() };
        if tx != ty {
            return Err(format!("in place {tx:?} ({p:?}), into target holding {dn}: {ty:?} ({q:?})"));
        }
        if p.is_ok() {
            if !same(&x, &y) {
                return Err(format!("in place {x:?}, into target holding {dn}: {y:?}"));
            }
            probe_same(&x, &y).map_err(|m| format!("target holding {dn}: {m}"))?;
        }
    }
    if p.is_ok() {
        let kx = format!("{x:?}");
        for (dn, d) in related(&o.fd, None, Some(&x)) {
            let mut y = d.clone();
            guard(|| o.fd.round_to(&mut y, n)).map_err(|p| format!("into a target holding {dn} ({d:?}): {p}"))?;
            ctx.call(1);
            if format!("{y:?}") == kx {
                continue;
            }
            let ty = guard(|| y.to_string(-1))?;
            if tx != ty || !same(&x, &y) {
                return Err(format!("in place {tx:?}, into a target holding {dn} ({d:?}): {ty:?}"));
            }
            probe_same(&x, &y).map_err(|m| format!("target holding {dn} ({d:?}): {m}"))?;
        }
    }
    if format!("{:?}", o.fd) != before {
        return Err("the source changed".into());
    }
    if let Ok(d) = model::read_canonical(tx.as_bytes()).ok_or(()) {
        ctx.state(d.1.hash());
    }
    ctx.outcome(if p.is_ok() { "agree" } else { "both fail" });
    Ok(())
}

// ---------------------------------------------------------------- comparison
pub fn cmp(a: &Operand, b: &Operand, full: bool, ctx: &mut Ctx) -> R {
    let w = a.d.cmp(&b.d);
    let (x, y) = (&a.fd, &b.fd);
    let g = guard(|| x.cmp(y))?;
    ctx.call(1);
    if g != w {
        return Err(format!("cmp = {g:?}, expected {w:?}"));
    }
    if full {
        let ok = guard(|| {
            let e = w == Ordering::Equal;
            let l = w == Ordering::Less;
            y.cmp(x) == w.reverse()
                && (x == y) == e
                && (x != y) == !e
                && (x < y) == l
                && (x <= y) == (l || e)
                && (x > y) == (!l && !e)
                && (x >= y) == !l
                && x.partial_cmp(y) == Some(w)
                && x.clone().max(y.clone()) == *(if l { y } else { x })
                && x.clone().min(y.clone()) == *(if l { x } else { y })
                && x.clone().clamp(y.clone(), y.clone()) == *y
                && (w == Ordering::Greater || x.clone().clamp(x.clone(), y.clone()) == *x)
                && (w == Ordering::Greater || y.clone().clamp(x.clone(), y.clone()) == *y)
        })?;
        ctx.call(13);
        if !ok {
            return Err(format!("comparison operators disagree with {w:?}"));
        }
    }
    ctx.outcome(match w {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    Ok(())
}

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(b.len() as u8);
    }
}
pub fn hash_of(v: &FixedDecimal) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub fn hash(a: &Operand, b: &Operand, ctx: &mut Ctx) -> R {
    let (x, y) = (&a.fd, &b.fd);
    if !a.d.same_value(&b.d) || x.intg_units() != y.intg_units() || x.frac_units() != y.frac_units() {
        ctx.outcome("different value or layout");
        return Ok(());
    }
    let (p, q) = guard(|| {
        let (mut p, mut q) = (Rec(vec![]), Rec(vec![]));
        x.hash(&mut p);
        y.hash(&mut q);
        (p.0, q.0)
    })?;
    ctx.call(2);
    if p != q || hash_of(x) != hash_of(y) {
        return Err(format!("equal decimals of the same layout hash differently: {p:?} vs {q:?}"));
    }
    ctx.outcome("equal hash");
    ctx.state(a.d.hash());
    Ok(())
}

// ---------------------------------------------------------------- integers
pub fn from_i64(n: i64, ctx: &mut Ctx) -> R {
    let fd = guard(|| FixedDecimal::from(n))?;
    let s = guard(|| fd.to_string(-1))?;
    if s != n.to_string() || fd.frac() != 0 || fd.is_neg() != (n < 0) || fd.is_zero() != (n == 0) {
        return Err(format!("From<i64> gives {fd:?} printing {s:?}"));
    }
    let b = guard(|| fd.as_i64())?;
    let u = guard(|| fd.as_u64())?;
    let p = guard(|| s.parse::<FixedDecimal>())?.map_err(|e| format!("{e}"))?;
    ctx.call(4);
    if b.as_ref().ok() != Some(&n) {
        return Err(format!("converts back to {b:?}"));
    }
    if u.as_ref().ok().copied() != u64::try_from(n).ok() {
        return Err(format!("as_u64 gives {u:?}"));
    }
    if p != fd {
        return Err(format!("differs from parsing {s:?}"));
    }
    ctx.state(n as u64 ^ 0x5555);
    ctx.outcome("signed");
    Ok(())
}
pub fn from_u64(n: u64, ctx: &mut Ctx) -> R {
    let fd = guard(|| FixedDecimal::from(n))?;
    let s = guard(|| fd.to_string(-1))?;
    if s != n.to_string() || fd.frac() != 0 || fd.is_neg() || fd.is_zero() != (n == 0) {
        return Err(format!("From<u64> gives {fd:?} printing {s:?}"));
    }
    let b = guard(|| fd.as_u64())?;
    let i = guard(|| fd.as_i64())?;
    let p = guard(|| s.parse::<FixedDecimal>())?.map_err(|e| format!("{e}"))?;
    ctx.call(4);
    if b.as_ref().ok() != Some(&n) {
        return Err(format!("converts back to {b:?}"));
    }
    if i.as_ref().ok().copied() != i64::try_from(n).ok() {
        return Err(format!("as_i64 gives {i:?}"));
    }
    if p != fd {
        return Err(format!("differs from parsing {s:?}"));
    }
    ctx.state(n ^ 0xaaaa_0000);
    ctx.outcome("unsigned");
    Ok(())
}

pub fn to_int(o: &Operand, ctx: &mut Ctx) -> R {
    let before = format!("{:?}", o.fd);
    let i = guard(|| o.fd.as_i64().map_err(|e| kind(&e)))?;
    let u = guard(|| o.fd.as_u64().map_err(|e| kind(&e)))?;
    ctx.call(2);
    let r = if o.d.scale == 0 { o.d } else { model::round(&o.d, 0) };
    let imax = Dec::new(false, Big::from_u64(i64::MAX as u64), 0);
    let imin = Dec::new(true, Big::from_u64(1 << 63), 0);
    let umax = Dec::new(false, Big::from_u64(u64::MAX), 0);
    let wi = if o.d.cmp(&imin) == Ordering::Less || o.d.cmp(&imax) == Ordering::Greater {
        Err(E::Range)
    } else {
        let m = r.mag.to_u64().unwrap() as i128;
        Ok((if r.neg { -m } else { m }) as i64)
    };
    let wu = if o.d.neg || o.d.cmp(&umax) == Ordering::Greater { Err(E::Range) } else { Ok(r.mag.to_u64().unwrap()) };
    if i != wi {
        return Err(format!("as_i64 = {i:?}, expected {wi:?}"));
    }
    if u != wu {
        return Err(format!("as_u64 = {u:?}, expected {wu:?}"));
    }
    if format!("{:?}", o.fd) != before {
        return Err("the decimal changed".into());
    }
    ctx.state(o.d.hash());
    ctx.outcome(match (i.is_ok(), u.is_ok()) {
        (true, true) => "both",
        (true, false) => "signed only",
        (false, true) => "unsigned only",
        _ => "out of range",
    });
    Ok(())
}

// ---------------------------------------------------------------- zero and sign
fn zero_is_plain(fd: &FixedDecimal) -> R {
    let s = guard(|| fd.to_string(-1))?;
    let z = FixedDecimal::zero();
    if s.starts_with('-') || fd.is_neg() || !fd.is_zero() || *fd != z || fd.cmp(&z) != Ordering::Equal {
        return Err(format!(
            "zero result prints {s:?}, is_neg {}, is_zero {}, equals zero {}",
            fd.is_neg(),
            fd.is_zero(),
            *fd == z
        ));
    }
    Ok(())
}
/// if the result is zero, it is a plain zero; otherwise it is not taken for one
pub fn zero_result(op: Bin, a: &Operand, b: &Operand, ctx: &mut Ctx) -> R {
    let mut r = dirty_static().clone();
    match op.exec(&a.fd, &b.fd, &mut r) {
        Ok(Ok(())) => {
            ctx.call(1);
            zero_or_signed(&r, ctx)
        }
        _ => {
            ctx.outcome("operation not delivered");
            Ok(())
        }
    }
}
pub fn zero_or_signed(r: &FixedDecimal, ctx: &mut Ctx) -> R {
    let s = guard(|| r.to_string(-1))?;
    if s.bytes().any(|c| (b'1'..=b'9').contains(&c)) {
        let neg = s.starts_with('-');
        if r.is_neg() != neg || r.is_zero() {
            return Err(format!("{s:?}: is_neg {}, is_zero {}", r.is_neg(), r.is_zero()));
        }
        let z = FixedDecimal::zero();
        if (*r < z) != neg || *r == z {
            return Err(format!("{s:?} compares wrongly with zero"));
        }
        ctx.outcome(if neg { "negative" } else { "positive" });
        Ok(())
    } else {
        ctx.outcome("zero");
        zero_is_plain(r)
    }
}
pub fn dirty_static() -> &'static FixedDecimal {
    static D: std::sync::OnceLock<FixedDecimal> = std::sync::OnceLock::new();
    D.get_or_init(dirty)
}
pub fn zero_round(o: &Operand, n: isize, ctx: &mut Ctx) -> R {
    let mut x = o.fd.clone();
    if guard(|| x.round(n)).is_err() {
        return Ok(());
    }
    zero_or_signed(&x, ctx)?;
    let mut y = dirty_static().clone();
    if guard(|| o.fd.round_to(&mut y, n)).is_err() {
        return Ok(());
    }
    ctx.call(2);
    zero_or_signed(&y, ctx)
}
pub fn signs(o: &Operand, ctx: &mut Ctx) -> R {
    zero_or_signed(&o.fd, ctx)?;
    let abs = o.d.text();
    let abs = abs.trim_start_matches('-').to_string();
    let is0 = o.d.is_zero();
    let neg_text = if is0 { abs.clone() } else { format!("-{abs}") };
    let mut x = o.fd.clone();
    // every sequence of three sign operations
    for seq in 0..8u32 {
        let mut y = o.fd.clone();
        for k in 0..3 {
            let neg = seq >> k & 1 == 1;
            guard(|| if neg { y.set_neg() } else { y.set_pos() })?;
            ctx.call(1);
            let want = if neg { &neg_text } else { &abs };
            let s = guard(|| y.to_string(-1))?;
            if s != *want || y.is_neg() != (neg && !is0) || y.frac() as usize != o.d.scale || y.is_zero() != is0 {
                return Err(format!("after sign sequence {seq:03b} step {k}: {s:?}, expected {want:?}"));
            }
        }
        x = y;
    }
    for start in [&o.fd, &x] {
        let mut y = start.clone();
        y.set_zero();
        let mut z = start.clone();
        z.set_one();
        ctx.call(2);
        let (s, t) = (guard(|| y.to_string(-1))?, guard(|| z.to_string(-1))?);
        if s != "0" || y.frac() != 0 || zero_is_plain(&y).is_err() || probe_same(&y, &FixedDecimal::zero()).is_err() {
            return Err(format!("set_zero leaves {y:?}"));
        }
        if t != "1" || z.frac() != 0 || z.is_neg() || z != FixedDecimal::one() || z.as_i64().ok() != Some(1) || probe_same(&z, &FixedDecimal::one()).is_err() {
            return Err(format!("set_one leaves {z:?}"));
        }
    }
    ctx.state(o.d.hash());
    Ok(())
}

// ---------------------------------------------------------------- division by zero
pub fn divzero(op: Bin, a: &Operand, b: &Operand, ctx: &mut Ctx) -> R {
    let mut r = dirty_static().clone();
    let res = op.exec(&a.fd, &b.fd, &mut r)?;
    let o = op.operator(&a.fd, &b.fd);
    ctx.call(2);
    if b.d.is_zero() {
        if res != Err(E::DivZero) {
            return Err(format!("got {res:?} {r:?}, expected the division-by-zero error"));
        }
        if let Ok(v) = o {
            return Err(format!("operator form returned {v:?}"));
        }
        ctx.outcome("division by zero reported");
    } else {
        if res == Err(E::DivZero) {
            return Err("division-by-zero error for a non-zero divisor".into());
        }
        if res.is_ok() != o.is_ok() {
            return Err(format!("operator form {o:?}, fallible form {res:?}"));
        }
        ctx.outcome("not division by zero");
    }
    Ok(())
}

// ---------------------------------------------------------------- crash freedom
pub fn nocrash_bin(op: Bin, a: &Operand, b: &Operand, with_operator: bool, ctx: &mut Ctx) -> R {
    let mut r = dirty_static().clone();
    let res = op.exec(&a.fd, &b.fd, &mut r)?;
    ctx.call(1);
    if res.is_ok() {
        nocrash_readers(&r, ctx)?;
    }
    if with_operator && !matches!(op, Bin::Div(n) if n != 4) {
        let o = op.operator(&a.fd, &b.fd);
        ctx.call(1);
        if res.is_ok() && o.is_err() {
            return Err(format!("operator form: {}", o.err().unwrap()));
        }
    }
    ctx.outcome(match res {
        Ok(()) => "value",
        Err(E::Overflow) => "overflow error",
        Err(E::DivZero) => "division-by-zero error",
        Err(_) => "other error",
    });
    Ok(())
}
pub fn nocrash_readers(r: &FixedDecimal, ctx: &mut Ctx) -> R {
    guard(|| {
        let s = r.to_string(-1);
        let b = r.as_i64().is_ok() as usize + r.as_u64().is_ok() as usize;
        let h = hash_of(r);
        let c = r.cmp(&FixedDecimal::one());
        (s, b, h, c, r.intg_units() + r.frac_units())
    })
    .map(|t| ctx.state(text_hash(t.0.as_bytes())))
    .map_err(|p| format!("reading the result: {p}"))?;
    ctx.call(5);
    Ok(())
}
pub fn nocrash_round(o: &Operand, n: isize, ctx: &mut Ctx) -> R {
    let mut x = o.fd.clone();
    let p = guard(|| x.round(n));
    let mut y = dirty_static().clone();
    let q = guard(|| o.fd.round_to(&mut y, n));
    ctx.call(2);
    if p.is_err() || q.is_err() {
        if round_unholdable(&o.d, n) {
            ctx.outcome("not holdable");
            return Ok(());
        }
        return Err(format!("in place {p:?}, into target {q:?}"));
    }
    nocrash_readers(&x, ctx)?;
    nocrash_readers(&y, ctx)?;
    ctx.outcome("rounded");
    Ok(())
}
pub fn nocrash_render(o: &Operand, n: isize, ctx: &mut Ctx) -> R {
    let (s, held) = crate::alloc::peak(|| guard(|| o.fd.to_string(n)));
    let s = s?;
    ctx.call(1);
    if !s.is_ascii() {
        return Err("non-ASCII text".into());
    }
    // memory proportional to the count: generously, 64 KiB and 128 bytes per digit
    let may = 65_536 + 128 * n.max(0) as usize;
    if held > may {
        return Err(format!("rendering {n} digits holds {held} bytes, more than {may}"));
    }
    ctx.state(text_hash(s.as_bytes()));
    ctx.outcome("rendered");
    Ok(())
}
