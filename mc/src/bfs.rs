//! Breadth-first search over operation histories on the real decimals.
//!
//! A state is a decimal (told apart by its whole internal content, so nothing
//! that could influence the future is merged away); an action is one public
//! operation. In every state the decimal must be coherent with its own text,
//! and every observation and every action must give the same as on a twin
//! freshly parsed from that text.
use crate::checks::{hash_of, R};
use crate::dom;
use crate::engine::*;
use crate::model::{self, Dec};
use crate::spaces;
use crate::subject::*;
use fxd::FixedDecimal;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone)]
pub enum Act {
    Right(Bin, FixedDecimal, String),
    Left(Bin, FixedDecimal, String),
    Dup(Bin),
    Round(isize),
    RoundTo(isize),
    /// read a text into the decimal itself, without a reset
    Read(&'static str),
    One,
    Zero,
    Neg,
    Pos,
    Str,
    ToI64,
    ToU64,
}
impl Act {
    pub fn tokens(&self) -> String {
        match self {
            Act::Right(o, _, c) => format!("{c} {}", o.name()),
            Act::Left(o, _, c) => format!("{c} swap {}", o.name()),
            Act::Dup(o) => format!("dup {}", o.name()),
            Act::Round(n) => format!("r{n}"),
            Act::RoundTo(n) => format!("to{n}"),
            Act::Read(t) => format!("read:{t}"),
            Act::One => "one".into(),
            Act::Zero => "zero".into(),
            Act::Neg => "neg".into(),
            Act::Pos => "pos".into(),
            Act::Str => "str".into(),
            Act::ToI64 => "toi".into(),
            Act::ToU64 => "tou".into(),
        }
    }
    pub fn apply(&self, x: &FixedDecimal) -> Result<Result<FixedDecimal, E>, String> {
        // results go into a destination full of other digits
        let mut r = crate::checks::dirty_static().clone();
        let res = match self {
            Act::Right(o, c, _) => o.exec(x, c, &mut r)?,
            Act::Left(o, c, _) => o.exec(c, x, &mut r)?,
            Act::Dup(o) => o.exec(x, x, &mut r)?,
            Act::Round(n) => guard(|| {
                r = x.clone();
                r.round(*n);
                Ok(())
            })?,
            Act::RoundTo(n) => guard(|| {
                x.round_to(&mut r, *n);
                Ok(())
            })?,
            Act::Read(t) => guard(|| {
                r = x.clone();
                r.from_ascii_str(t, false).map_err(|e| kind(&e))
            })?,
            Act::One => guard(|| {
                r = x.clone();
                r.set_one();
                Ok(())
            })?,
            Act::Zero => guard(|| {
                r = x.clone();
                r.set_zero();
                Ok(())
            })?,
            Act::Neg => guard(|| {
                r = x.clone();
                r.set_neg();
                Ok(())
            })?,
            Act::Pos => guard(|| {
                r = x.clone();
                r.set_pos();
                Ok(())
            })?,
            Act::Str => guard(|| x.to_string(-1).parse::<FixedDecimal>().map(|v| r = v).map_err(|e| kind(&e)))?,
            Act::ToI64 => guard(|| x.as_i64().map(|v| r = v.into()).map_err(|e| kind(&e)))?,
            Act::ToU64 => guard(|| x.as_u64().map(|v| r = v.into()).map_err(|e| kind(&e)))?,
        };
        if res.is_err() && matches!(self, Act::Right(..) | Act::Left(..) | Act::Dup(_) | Act::Read(_)) {
            // whatever a failed operation leaves must still be a decimal
            if let Err(m) = coherent(&r) {
                return Ok(Err(E::Broken(format!("fails and leaves a destination that {m}").leak())));
            }
        }
        // what a decimal held before must not shine through
        if let (Ok(()), Act::Read(_) | Act::One | Act::Zero) = (res, self) {
            let fresh = guard(|| match self {
                Act::Read(t) => t.parse::<FixedDecimal>().unwrap(),
                Act::One => FixedDecimal::one(),
                _ => FixedDecimal::zero(),
            })?;
            if format!("{r:?}") != format!("{fresh:?}") && (!same(&r, &fresh) || crate::checks::probe_same(&r, &fresh).is_err()) {
                return Ok(Err(E::Broken(format!("gives {r:?} where a new decimal becomes {fresh:?}").leak())));
            }
        }
        Ok(res.map(|()| r))
    }
}

const READS: [&str; 9] = ["0", "-0.00", "7", "-12345678901.5", "1e20", "2.5e47", "1e-12", "-3e-30", "1.x"];

pub fn actions(deep: bool) -> Vec<Act> {
    let mut consts: Vec<String> = ["1", "-1", "0.5", "3", "-0.7", "1000000000", "999999999", "0.000000001", "1e27", "99999999999999999999.9999999999", "0.000000000000000000000000000001"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    if deep {
        consts.extend(["500000000.5".to_string(), "9".repeat(36)]);
    }
    let p = |s: &str| guard(|| s.parse::<FixedDecimal>().unwrap());
    let mut v = vec![Act::Neg, Act::Pos, Act::Str, Act::ToI64, Act::ToU64, Act::One, Act::Zero];
    for t in READS {
        v.push(Act::Read(t));
    }
    for n in [0isize, 2, -9, 19] {
        v.push(Act::RoundTo(n));
    }
    for n in [0isize, 1, -1, 5, 9, 10, 18, 30, -9, -10, -27, 27] {
        v.push(Act::Round(n));
    }
    for o in [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Rem] {
        v.push(Act::Dup(o));
    }
    for c in &consts {
        let Ok(f) = p(c) else { continue };
        for o in [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Rem] {
            v.push(Act::Right(o, f.clone(), c.clone()));
        }
        for o in [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Rem] {
            v.push(Act::Left(o, f.clone(), c.clone()));
        }
    }
    v
}

fn key(x: &FixedDecimal) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(format!("{:?}", x).as_bytes());
    h.finish()
}

struct Twin {
    text: String,
    fd: Option<FixedDecimal>,
}
fn text_digits(s: &str) -> usize {
    let d = s.bytes().filter(|c| c.is_ascii_digit()).count();
    if s.trim_start_matches('-').starts_with("0.") {
        d - 1
    } else {
        d
    }
}

/// the checks on a state itself; gives its twin
fn state_check(x: &FixedDecimal, ctx: &mut Ctx) -> Result<Twin, String> {
    coherent(x)?;
    let text = guard(|| x.to_string(-1))?;
    ctx.call(9);
    if text_digits(&text) > model::MAX_DIGITS {
        ctx.outcome("state beyond 65 digits (no twin)");
        return Ok(Twin { text, fd: None });
    }
    let t = if text_digits(&text) == model::MAX_DIGITS { text.replacen("0.", ".", text.trim_start_matches('-').starts_with("0.") as usize) } else { text.clone() };
    let y = guard(|| t.parse::<FixedDecimal>())?.map_err(|e| format!("{t:?} does not parse: {e}"))?;
    let bad = guard(|| {
        if *x != y || y != *x || x.partial_cmp(&y) != Some(std::cmp::Ordering::Equal) {
            return Some("is not equal to its parsed text".to_string());
        }
        if x.as_i64().ok() != y.as_i64().ok() || x.as_u64().ok() != y.as_u64().ok() {
            return Some("converts to another integer than its parsed text".into());
        }
        if x.frac() != y.frac() || x.is_neg() != y.is_neg() || x.is_zero() != y.is_zero() {
            return Some("has another scale or sign than its parsed text".into());
        }
        if x.intg_units() == y.intg_units() && x.frac_units() == y.frac_units() && hash_of(x) != hash_of(&y) {
            return Some("hashes differently from its parsed text".into());
        }
        for n in [0isize, 1, 8, 9, 10, 40] {
            if x.to_string(n) != y.to_string(n) {
                return Some(format!("renders {n} digits differently from its parsed text"));
            }
        }
        None
    })?;
    ctx.call(20);
    if let Some(b) = bad {
        return Err(format!("{text:?} {b}: {x:?} / {y:?}"));
    }
    Ok(Twin { text, fd: Some(y) })
}

/// what must agree between the outcomes of one action on a state and its twin
fn same_outcome(a: &Result<Result<FixedDecimal, E>, String>, b: &Result<Result<FixedDecimal, E>, String>) -> Result<(), String> {
    match (a, b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(Err(x)), Ok(Err(y))) if x == y => Ok(()),
        (Ok(Ok(x)), Ok(Ok(y))) => {
            let (s, t) = (guard(|| x.to_string(-1))?, guard(|| y.to_string(-1))?);
            if s != t || x.frac() != y.frac() || x.is_neg() != y.is_neg() || x.is_zero() != y.is_zero() {
                Err(format!("{s:?} from the history, {t:?} from the parsed twin"))
            } else {
                Ok(())
            }
        }
        (x, y) => Err(format!("{x:?} from the history, {y:?} from the parsed twin")),
    }
}

#[derive(Clone)]
struct Node {
    fd: FixedDecimal,
    parent: u32,
    act: u16,
}

fn expand(x: &FixedDecimal, acts: &[Act], ctx: &mut Ctx, mut new: impl FnMut(u16, u64, FixedDecimal)) -> R {
    let tw = state_check(x, ctx)?;
    // the internal content decides everything: an identical twin needs no second run
    let twin = tw.fd.filter(|y| format!("{:?}", y) != format!("{:?}", x));
    for (k, a) in acts.iter().enumerate() {
        let r = a.apply(x);
        ctx.call(1);
        if let Some(y) = &twin {
            let q = a.apply(y);
            ctx.call(1);
            same_outcome(&r, &q).map_err(|m| format!("{:?} then {:?}: {m}", tw.text, a.tokens()))?;
            ctx.outcome("agrees with the parsed twin");
        }
        match r {
            Err(_) => ctx.outcome("operation not delivered"),
            Ok(Err(E::Broken(m))) => return Err(format!("{:?} then {:?} {m}", tw.text, a.tokens())),
            Ok(Err(E::Overflow)) => ctx.outcome("overflow"),
            Ok(Err(_)) => ctx.outcome("other error"),
            Ok(Ok(v)) => {
                let h = key(&v);
                ctx.state(h);
                new(k as u16, h, v);
            }
        }
    }
    Ok(())
}

fn search(e: &mut Engine, name: &str, starts: Vec<String>, acts: &[Act], depth: usize) -> Result<(), Violation> {
    let mut levels: Vec<Vec<Node>> = vec![];
    let mut seen: U64Set = Default::default();
    let mut first = vec![];
    let mut names = vec![];
    for s in starts {
        if let Ok(fd) = raw(&s) {
            if seen.insert(key(&fd)) {
                first.push(Node { fd, parent: u32::MAX, act: 0 });
                names.push(s);
            }
        }
    }
    levels.push(first);
    let mut counts = vec![];
    for d in 0..=depth {
        let last = d == depth;
        let cur = levels[d].clone();
        counts.push(cur.len());
        let shards: Vec<Mutex<HashMap<u64, Node>>> = (0..256).map(|_| Mutex::new(HashMap::new())).collect();
        {
            let (levels, names, seen, shards, cur) = (&levels, &names, &seen, &shards, &cur);
            e.run(Space {
                name: format!("{name}, states at depth {d}"),
                n: cur.len() as u64,
                describe: Box::new(move |i| {
                    let mut toks = vec![];
                    let (mut l, mut k) = (d, i as usize);
                    while l > 0 {
                        let n = &levels[l][k];
                        toks.push(acts[n.act as usize].tokens());
                        k = n.parent as usize;
                        l -= 1;
                    }
                    toks.push(names[k].clone());
                    toks.reverse();
                    format!("step;{};{}", toks.join(" "), if last { "none" } else { "*" })
                }),
                run: Box::new(move |i, ctx| {
                    let x = &cur[i as usize].fd;
                    if last {
                        return state_check(x, ctx).map(|_| ());
                    }
                    expand(x, acts, ctx, |a, h, v| {
                        if seen.contains(&h) {
                            return;
                        }
                        let mut s = shards[(h >> 56) as usize].lock().unwrap();
                        let n = Node { fd: v, parent: i as u32, act: a };
                        match s.entry(h) {
                            std::collections::hash_map::Entry::Vacant(e) => {
                                e.insert(n);
                            }
                            std::collections::hash_map::Entry::Occupied(mut e) => {
                                if (n.parent, n.act) < (e.get().parent, e.get().act) {
                                    e.insert(n);
                                }
                            }
                        }
                    })
                }),
            })?;
        }
        if last {
            break;
        }
        let mut next: Vec<(u64, Node)> = shards.into_iter().flat_map(|m| m.into_inner().unwrap()).collect();
        next.sort_by_key(|(_, n)| (n.parent, n.act));
        for (h, _) in &next {
            seen.insert(*h);
        }
        levels.push(next.into_iter().map(|x| x.1).collect());
    }
    e.totals.notes.push((format!("search {name}"), format!("{{\"actions\": {}, \"distinct states per depth\": {:?}, \"depth\": {depth}}}", acts.len(), counts)));
    Ok(())
}

/// recipe executed without judging any step
pub fn raw(recipe: &str) -> Result<FixedDecimal, String> {
    let mut st: Vec<FixedDecimal> = vec![];
    for t in recipe.split_whitespace() {
        let a = if let Some(op) = Bin::parse(t) {
            let (b, a) = (st.pop().ok_or("stack")?, st.pop().ok_or("stack")?);
            let mut r = FixedDecimal::zero();
            op.exec(&a, &b, &mut r)?.map_err(|e| format!("{recipe:?}: error {e:?}"))?;
            st.push(r);
            continue;
        } else if let Some(n) = t.strip_prefix("read:") {
            Act::Read(READS.iter().find(|k| **k == n).ok_or("read")?)
        } else if let Some(n) = t.strip_prefix("to").and_then(|n| n.parse().ok()) {
            Act::RoundTo(n)
        } else if let Some(n) = t.strip_prefix('r') {
            Act::Round(n.parse().map_err(|_| "round")?)
        } else {
            match t {
                "neg" => Act::Neg,
                "pos" => Act::Pos,
                "one" => Act::One,
                "zero" => Act::Zero,
                "str" => Act::Str,
                "toi" => Act::ToI64,
                "tou" => Act::ToU64,
                "dup" => {
                    let x = st.last().ok_or("stack")?.clone();
                    st.push(x);
                    continue;
                }
                "swap" => {
                    let (a, b) = (st.pop().ok_or("stack")?, st.pop().ok_or("stack")?);
                    st.push(a);
                    st.push(b);
                    continue;
                }
                _ => {
                    let v = if let Some(n) = t.strip_prefix("i:") {
                        FixedDecimal::from(n.parse::<i64>().map_err(|_| "i64")?)
                    } else if let Some(n) = t.strip_prefix("u:") {
                        FixedDecimal::from(n.parse::<u64>().map_err(|_| "u64")?)
                    } else {
                        guard(|| t.parse::<FixedDecimal>())?.map_err(|e| format!("parsing {t:?}: {e}"))?
                    };
                    st.push(v);
                    continue;
                }
            }
        };
        let x = st.pop().ok_or("stack")?;
        st.push(a.apply(&x)?.map_err(|e| format!("{recipe:?}: error {e:?}"))?);
    }
    st.pop().ok_or_else(|| "empty recipe".to_string())
}
/// an operand for replay: judged if possible, otherwise taken as it reads
pub fn rebuild(recipe: &str) -> Result<Operand, String> {
    if let Ok(o) = build(recipe) {
        return Ok(o);
    }
    let fd = raw(recipe)?;
    let d: Dec = observe(&fd)?;
    Ok(Operand { recipe: recipe.into(), fd, d })
}

pub fn replay_step(recipe: &str, act: &str, ctx: &mut Ctx) -> R {
    let x = raw(recipe)?;
    if act == "none" {
        return state_check(&x, ctx).map(|_| ());
    }
    expand(&x, &actions(true), ctx, |_, _, _| ())
}

// ------------------------------------------------ two states with a past
/// a decimal that differs inside from its parsed twin
struct Aged {
    recipe: String,
    fd: FixedDecimal,
    twin: FixedDecimal,
}
fn aged(recipe: &str) -> Option<Aged> {
    let fd = raw(recipe).ok()?;
    let t = guard(|| fd.to_string(-1)).ok()?;
    if text_digits(&t) > model::MAX_DIGITS {
        return None;
    }
    let t2 = if text_digits(&t) == model::MAX_DIGITS { t.replacen("0.", ".", t.trim_start_matches('-').starts_with("0.") as usize) } else { t };
    let twin = guard(|| t2.parse::<FixedDecimal>().ok()).ok()??;
    Some(Aged { recipe: recipe.into(), fd, twin })
}
/// decimals with a past that differ inside from their twins, up to `per` of every layout
fn aged_states(starts: &[String], acts: &[Act], per: usize) -> Vec<Aged> {
    let mut seen: U64Set = Default::default();
    let mut count: HashMap<(usize, usize, usize, i8, bool), usize> = HashMap::new();
    let mut v = vec![];
    let mut take = |r: String| {
        let Some(a) = aged(&r) else { return };
        if format!("{:?}", a.fd) == format!("{:?}", a.twin) || !seen.insert(key(&a.fd)) {
            return;
        }
        let k = (a.fd.intg_units(), a.fd.frac_units(), a.twin.intg_units(), a.fd.frac() % 9, a.fd.is_neg());
        let n = count.entry(k).or_default();
        if *n < per {
            *n += 1;
            v.push(a);
        }
    };
    for s in starts {
        take(s.clone());
    }
    for a in acts {
        for s in starts {
            if !matches!(a, Act::ToI64 | Act::ToU64 | Act::Str | Act::One | Act::Zero | Act::Read(_)) {
                take(format!("{s} {}", a.tokens()));
            }
        }
    }
    v
}
fn pair_twins(a: &Aged, b: &Aged, ctx: &mut Ctx) -> R {
    let out = |o: &Bin, x: &FixedDecimal, y: &FixedDecimal| -> Result<Result<FixedDecimal, E>, String> {
        let mut r = crate::checks::dirty_static().clone();
        Ok(o.exec(x, y, &mut r)?.map(|()| r))
    };
    for o in [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Rem] {
        let (r, q) = (out(&o, &a.fd, &b.fd), out(&o, &a.twin, &b.twin));
        ctx.call(2);
        same_outcome(&r, &q).map_err(|m| format!("{}: {m}", o.name()))?;
        if let (Ok(Ok(x)), Ok(Ok(y))) = (&r, &q) {
            if format!("{x:?}") != format!("{y:?}") {
                crate::checks::probe_same_value(x, y).map_err(|m| format!("{}: {m}", o.name()))?;
            }
        }
        ctx.outcome(match r {
            Ok(Ok(_)) => "agrees with the parsed twins",
            Ok(Err(E::Overflow)) => "overflow in both",
            Ok(Err(_)) => "error in both",
            Err(_) => "not delivered in both",
        });
    }
    let bad = guard(|| {
        let w = a.twin.cmp(&b.twin);
        for (x, y) in [(&a.fd, &b.fd), (&a.fd, &b.twin), (&a.twin, &b.fd)] {
            if x.cmp(y) != w || (x == y) != (w == std::cmp::Ordering::Equal) {
                return Some(format!("compared {:?}, the parsed twins {w:?}", x.cmp(y)));
            }
        }
        None
    })?;
    ctx.call(7);
    ctx.state(key(&a.fd) ^ key(&b.fd).rotate_left(9));
    bad.map_or(Ok(()), Err)
}
pub fn replay_pair(a: &str, b: &str, ctx: &mut Ctx) -> R {
    let g = |r: &str| aged(r).ok_or_else(|| format!("{r:?} has no parsed twin"));
    pair_twins(&g(a)?, &g(b)?, ctx)
}

/// a text read into a used decimal, against the same text read into a new one
pub fn read_into(text: &str, target: &FixedDecimal, acts: &[Act], ctx: &mut Ctx) -> R {
    let read = |to: &FixedDecimal, reset: bool| {
        guard(|| {
            let mut x = to.clone();
            x.from_ascii_str(text, reset).map(|()| x).map_err(|e| crate::subject::kind(&e))
        })
    };
    let fresh = read(&FixedDecimal::zero(), false);
    for reset in [false, true] {
        let used = read(target, reset);
        ctx.call(1);
        same_outcome(&used, &fresh).map_err(|m| format!("read into a used decimal (reset {reset}): {m}"))?;
        let (Ok(Ok(x)), Ok(Ok(y))) = (&used, &fresh) else {
            ctx.outcome("not read");
            continue;
        };
        ctx.state(key(x));
        if format!("{x:?}") == format!("{y:?}") {
            ctx.outcome("nothing of the earlier content is left");
            continue;
        }
        crate::checks::probe_same(x, y).map_err(|m| format!("read into a used decimal (reset {reset}): {m}"))?;
        for a in acts {
            ctx.call(2);
            same_outcome(&a.apply(x), &a.apply(y)).map_err(|m| format!("read into a used decimal (reset {reset}), then {:?}: {m}", a.tokens()))?;
        }
        ctx.outcome("agrees with the new decimal");
    }
    Ok(())
}
pub fn replay_read(text: &str, target: &str, ctx: &mut Ctx) -> R {
    read_into(text, &raw(target)?, &actions(true), ctx)
}
fn reads() -> Vec<String> {
    let mut v = dom::signed(spaces::d_shapes(b"nc"));
    v.extend(spaces::d_shapes64(b"nl"));
    v.extend(spaces::d_shapes(b"z"));
    v.extend((-30..=65).flat_map(|x| [format!("1e{x}"), format!("-12.5e{x}"), format!("0e{x}"), format!("123456789012345e{x}"), format!(".000e{x}")]));
    v.extend(dom::small(100, 2));
    v.extend(spaces::templates().into_iter().map(|t| t.to_string()));
    v
}

pub fn explore(e: &mut Engine, deep: bool, thorough: bool) -> Result<(), Violation> {
    let acts = actions(deep);
    let starts: Vec<String> = [
        "0",
        "1",
        "-1.5",
        "999999999.999999999",
        "0.000000000000000000000000000001",
        "1000000000",
        "500000000000000000",
        "123456789012345678.123456789",
        "00000000000.50",
        "99999999999999999999999999999999999.999999999999999999999999999999",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    search(e, "from ten constants", starts, &acts, if thorough { 4 } else { 3 })?;
    let mut v = dom::histories();
    v.extend(dom::full_mixed());
    v.extend(spaces::d_declared());
    v.extend(["0.0000000000 neg".to_string(), "-0.4 r0".into(), "i:0".into(), "000000000000000000".into()]);
    for s in dom::shapes(65, 64, &dom::unit_edges, &|f| dom::unit_edges(f) && (f <= 36 || f >= 63), b"n") {
        v.push(s);
    }
    let v = dom::signed(v);
    search(e, "from computed and edge decimals", v.clone(), &acts, if thorough { 3 } else if deep { 2 } else { 1 })?;
    let rows = crate::oa::contents(2);
    if deep {
        search(e, "from contents of all groups", rows.iter().step_by(if thorough { 7 } else { 29 }).cloned().collect(), &acts, 2)?;
        search(e, "from any two group contents in all layouts", rows, &acts, 1)?;
    }
    let ag = aged_states(&v, &acts, if thorough { 12 } else if deep { 3 } else { 1 });
    e.totals.notes.push(("decimals with a past used in pairs".into(), ag.len().to_string()));
    spaces::grid(e, "pairs of decimals with a past", &ag, &ag, |a, b| format!("pasts;{};{}", a.recipe, b.recipe), pair_twins)?;
    let (texts, targets) = (reads(), crate::checks::layouts());
    spaces::grid(e, "reading into used decimals", &texts, targets, |t, (n, _)| format!("readinto;{n};{t}"), |t, (_, x), c| read_into(t, x, &acts, c))?;
    Ok(())
}
