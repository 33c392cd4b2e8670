//! Further spaces: binary edges, contents of one group swept in full, and
//! (thorough tier) the boxes of the other module with larger alphabets,
//! more groups and more digit patterns.
use crate::big::Big;
use crate::checks::{self, *};
use crate::dom::*;
use crate::engine::*;
use crate::model::{self, Dec};
use crate::spaces::*;
use fxd::FixedDecimal;
use crate::subject::*;

type V = Result<(), Violation>;

// ------------------------------------------------------------ domains
/// 2^k + d at several scales: where machine words, and floating point, end
pub fn d_bin(scales: &[usize]) -> Vec<String> {
    let mut v = vec![];
    for &s in scales {
        for k in 0..=215usize {
            let b = Big::from_u64(1).shl(k);
            for x in [b.sub(&Big::from_u64(1)), b, b.add(&Big::from_u64(1))] {
                let d = Dec::new(false, x, s);
                if d.total_digits() <= model::MAX_DIGITS {
                    v.push(d.text());
                }
            }
        }
    }
    v.sort_by_key(|t| t.len());
    v.dedup();
    v
}
/// products and sums of word-size limits
pub fn d_words() -> Vec<String> {
    let mut v = vec![];
    for w in [31usize, 32, 53, 62, 63, 64, 127, 128] {
        let b = Big::from_u64(1).shl(w);
        for d in 0..4u64 {
            for s in [0usize, 1, 2, 8, 9, 10, 17, 18, 19, 27, 30] {
                for x in [b.sub(&Big::from_u64(d + 1)), b.add(&Big::from_u64(d))] {
                    let d = Dec::new(false, x, s);
                    if d.total_digits() <= model::MAX_DIGITS {
                        v.push(d.text());
                    }
                }
            }
        }
    }
    v
}
fn k6() -> Vec<u32> {
    vec![0, 1, HALF - 1, HALF, U - 2, U - 1]
}
fn k16() -> Vec<u32> {
    vec![0, 1, 2, 3, 9, 10, 1000, U / 4, U / 3, U / 3 + 1, HALF - 1, HALF, HALF + 1, U - 3, U - 2, U - 1]
}

/// an operand if the code builds it as the model says
pub fn sound(t: &str) -> Option<Operand> {
    let o = build(t).ok()?;
    (observe(&o.fd).ok()? == o.d).then_some(o)
}
/// a space of operands generated on the fly
fn sweep<'a>(
    e: &mut Engine,
    name: &str,
    n: u64,
    tag: &'a str,
    gen: impl Fn(u64) -> String + Send + Sync + 'a,
    f: impl Fn(&Operand, &mut Ctx) -> R + Sync + 'a,
) -> V {
    let gen = std::sync::Arc::new(gen);
    let g2 = gen.clone();
    e.run(Space {
        name: name.into(),
        n,
        describe: Box::new(move |i| format!("{tag};{}", g2(i))),
        run: Box::new(move |i, c| match sound(&gen(i)) {
            Some(o) => f(&o, c),
            None => {
                c.outcome("operand not buildable");
                Ok(())
            }
        }),
    })
}

/// every remainder content below a cut: for each cut position k of one group
/// (two groups apart from the point) every content of the digits cut off
fn remainders(kmax: u32) -> u64 {
    (1..=kmax).map(|k| 10u64.pow(k)).sum()
}
fn remainder_case(mut i: u64) -> (u32, u64) {
    let mut k = 1;
    while i >= 10u64.pow(k) {
        i -= 10u64.pow(k);
        k += 1;
    }
    (k, i)
}
/// (text, position): the last k digits of a fraction or an integer hold r
fn remainder_text(i: u64, form: u64) -> (String, isize) {
    let (k, r) = remainder_case(i);
    let w = k as usize;
    match form {
        // fraction of one group, kept digits nines
        0 => (format!("7.{}{r:0w$}", "9".repeat(9 - w)), 9 - w as isize),
        // pure fraction, kept digits zero, negative
        1 => (format!("-.{}{r:0w$}", "0".repeat(9 - w)), 9 - w as isize),
        // integer group, a group above and one below
        2 => (format!("12{}{r:0w$}.000000001", "9".repeat(9 - w)), -(w as isize)),
        // integer group alone
        _ => (format!("-{}{r:0w$}", "4".repeat(9 - w)), -(w as isize)),
    }
}
fn round_remainders(e: &mut Engine, kmax: u32, agree: bool) -> V {
    let ds = dests();
    let dd = dirty();
    for form in 0..4u64 {
        let n = remainders(kmax);
        let tag = if agree { "roundagree" } else { "round" };
        let (ds, dd) = (&ds, &dd);
        e.run(Space {
            name: format!("every cut content up to {kmax} digits, form {form}"),
            n,
            describe: Box::new(move |i| {
                let (t, p) = remainder_text(i, form);
                format!("{tag};{p};{t}")
            }),
            run: Box::new(move |i, c| {
                let (t, p) = remainder_text(i, form);
                match sound(&t) {
                    Some(o) if agree => round_agree(&o, p, &ds[3..], c),
                    Some(o) => checks::round(&o, p, dd, c),
                    None => {
                        c.outcome("operand not buildable");
                        Ok(())
                    }
                }
            }),
        })?;
    }
    Ok(())
}

/// both forms of one group content: the integer and the fraction group
fn group_text(i: u64, form: u64) -> String {
    match form {
        0 => format!("{i}.{i:09}"),
        1 => format!("-31415926{i:09}.000000000{i:09}5"),
        _ => format!("{:09}", i),
    }
}

// ------------------------------------------------------------ both tiers
pub fn quick(id: &str, e: &mut Engine, thorough: bool) -> V {
    let op = match id {
        "C06" => Some(Bin::Add),
        "C07" => Some(Bin::Sub),
        "C10" => Some(Bin::Div(4)),
        "C11" => Some(Bin::Rem),
        _ => None,
    };
    if let Some(o) = op {
        let mut v = d_bin(&[0, 1, 9, 15, 30]);
        v.extend(d_words());
        let a = ops(v.clone());
        let b = ops(signed(v));
        pairs(e, "binary edges", &a, &b, &[o])?;
        let b = ops(d_edges());
        pairs(e, "binary edges x powers of ten", &a, &b, &[o])?;
        pairs(e, "powers of ten x binary edges", &b, &a, &[o])?;
    }
    match id {
        "C01" | "C02" => {
            let v: Vec<Vec<u8>> = signed(d_bin(&[0, 1, 9, 15, 30])).into_iter().map(|s| s.into_bytes()).collect();
            parse_list(e, "binary edges", &v, id == "C01")?;
            parse_into(e, id == "C01")?;
            if id == "C02" {
                two_edits(e, thorough)?;
            }
        }
        "C03" | "C05" => {
            let v = operands_raw(signed(d_bin(&[0, 1, 9, 15, 30])));
            if id == "C03" {
                list(e, "binary edges", &v, |o| format!("render;{}", o.recipe), render)?;
            } else {
                list(e, "binary edges", &v, |o| format!("rt;{}", o.recipe), |o, c| roundtrip_fd(&o.fd, c))?;
                let mut v = d_shapes(b"cnelza");
                v.extend(d_shapes64(b"cne"));
                v.extend(chunk_numerals());
                v.extend(d_bin(&[0, 1, 9, 15, 30]));
                v.extend(small(1000, 3));
                v.extend(d_ticks());
                v.extend(group_box(3, 2, &g5()));
                let w: Vec<String> = v.iter().flat_map(|t| routes(t)).collect();
                list(e, "decimals assembled without reading their text", &w, |t| format!("rtraw;{t}"), |t, c| rt_raw(t, c))?;
            }
        }
        "C08" | "C09" => {
            let mut v = d_bin(&[0, 1, 9, 15, 30]);
            v.extend(d_words());
            let a = ops(v.clone());
            mul_pairs(e, "binary edges", &a, &a, id == "C08")?;
        }
        "C12" | "C13" => {
            round_remainders(e, match (thorough, id == "C13") { (false, true) => 6, (true, false) => 8, _ => 7 }, id == "C13")?;
            let v = ops(signed(d_bin(&[0, 1, 5, 9, 12, 30])));
            let ns: Vec<isize> = (-66..=31).collect();
            let (ds, dd) = (dests(), dirty());
            let agree = id == "C13";
            if agree {
                let ls = layouts();
                let mut w = shapes(65, 64, &unit_edges, &|f| unit_edges(f) && (f <= 30 || f >= 62), b"nz");
                w.extend(d_hist());
                w.extend(d_huge());
                let w = ops(w);
                let ns: Vec<isize> = vec![-81, -63, -28, -27, -19, -18, -10, -9, -8, -1, 0, 1, 8, 9, 10, 17, 18, 19, 27, 30, 31, 35, 36, 62];
                grid(e, "targets of every layout", &w, &ns, |o, n| format!("roundagreel;{n};{}", o.recipe), |o, n, c| round_agree(o, *n, ls, c))?;
            }
            grid(
                e,
                "binary edges x all positions",
                &v,
                &ns,
                |o, n| format!("{};{n};{}", if agree { "roundagree" } else { "round" }, o.recipe),
                |o, n, c| if agree { round_agree(o, *n, &ds, c) } else { checks::round(o, *n, &dd, c) },
            )?;
        }
        "C14" => {
            let mut v = d_bin(&[0, 1, 9, 15]);
            v.extend(d_words());
            let a = ops(signed(v));
            grid(e, "binary edges", &a, &a, |x, y| format!("cmp;{};{}", x.recipe, y.recipe), |x, y, c| checks::cmp(x, y, true, c))?;
        }
        "C17" => {
            let v = ops(signed(d_bin(&[0, 1, 2, 9, 15, 30])));
            list(e, "binary edges", &v, |o| format!("toint;{}", o.recipe), to_int)?;
            let w = ops(signed(d_words()));
            list(e, "word limits at scales", &w, |o| format!("toint;{}", o.recipe), to_int)?;
            // every 6-digit fraction behind integers whose rounding matters
            let ints = ["0", "1", "999999999", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "-9223372036854775808", "-9223372036854775807", "-0"];
            sweep(
                e,
                "every six-digit fraction at the limits",
                ints.len() as u64 * 1_000_000,
                "toint",
                |i| format!("{}.{:06}", ints[(i / 1_000_000) as usize], i % 1_000_000),
                to_int,
            )?;
        }
        "C18" => {
            let ls = layouts();
            let mut v = shapes(65, 64, &unit_edges, &|f| unit_edges(f) && (f <= 30 || f >= 62), b"n");
            v.extend(d_hist());
            let b = ops(v);
            let a = ops(signed(vec!["0".into(), "1".into(), "0.5".into(), "999999999.999999999".into(), "1000000000000000000000".into(), "0.000000000000000000000000000001".into()]));
            let os = all_ops();
            grid3(e, "destinations of every layout", &b, &a, &os, |x, y, o| format!("forml;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
                form(*o, x, y, ls, c)
            })?;
            grid3(e, "destinations of every layout, swapped", &a, &b, &os, |x, y, o| format!("forml;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
                form(*o, x, y, ls, c)
            })?;
            let ds = dests();
            let a = ops(signed(d_words()));
            let mut v = d_edges();
            if !thorough {
                v = v.into_iter().step_by(4).collect();
            }
            let b = ops(v);
            let os = all_ops();
            grid3(e, "word limits x powers of ten", &a, &b, &os, |x, y, o| format!("form;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| {
                form(*o, x, y, &ds, c)
            })?;
        }
        _ => {}
    }
    chunk_pairs(id, e)?;
    lattices(id, e)?;
    crate::oa::run(id, e, thorough)?;
    crate::seq::run(id, e, thorough)?;
    if thorough || matches!(id, "C15" | "C20" | "C21" | "C22") {
        deep(id, e)?;
    }
    if thorough {
        deeper(id, e)?;
    }
    Ok(())
}

/// group contents without any structure: lattices of contents and shapes of
/// irregular digits
fn lattices(id: &str, e: &mut Engine) -> V {
    let (name, shp) = ("lattices of group contents", "all shape pairs, irregular digits");
    let wide = || ops(d_lattice(1000, 32, 10));
    let narrow = || d_lattice(300, 16, 6);
    match id {
        "C06" | "C07" => {
            let o = [if id == "C06" { Bin::Add } else { Bin::Sub }];
            pairs(e, name, &wide(), &ops(signed(narrow())), &o)?;
            pairs(e, shp, &ops(d_shapes(b"p")), &ops(signed(d_shapes(b"r"))), &o)
        }
        "C08" | "C09" => {
            mul_pairs(e, name, &wide(), &ops(narrow()), id == "C08")?;
            mul_pairs(e, shp, &ops(d_shapes(b"p")), &ops(d_shapes(b"r")), id == "C08")
        }
        "C10" | "C11" => {
            let o = if id == "C10" { Bin::Div(4) } else { Bin::Rem };
            pairs(e, name, &wide(), &ops(narrow()), &[o])?;
            pairs(e, shp, &ops(d_shapes(b"p")), &ops(d_shapes(b"r")), &[o])?;
            let o = if id == "C10" { Bin::Div(0) } else { Bin::Rem };
            quotients(e, "quotients over lattices of contents", &values(2, &lattice(30)), &values(3, &lattice(12)), &[(0, 0, o)])
        }
        "C12" | "C13" => {
            let (ds, dd) = (dests(), dirty());
            let agree = id == "C13";
            let mut v = if agree { narrow() } else { d_lattice(1000, 32, 10) };
            v.extend(d_shapes(b"pr"));
            let v = ops(signed(v));
            let ns: Vec<isize> = (-30..=31).collect();
            grid(
                e,
                "lattices and irregular digits x positions",
                &v,
                &ns,
                |o, n| format!("{};{n};{}", if agree { "roundagree" } else { "round" }, o.recipe),
                |o, n, c| if agree { round_agree(o, *n, &ds, c) } else { checks::round(o, *n, &dd, c) },
            )
        }
        "C14" => {
            let f = |x: &Operand, y: &Operand, c: &mut Ctx| checks::cmp(x, y, true, c);
            grid(e, name, &wide(), &ops(signed(narrow())), |x, y| format!("cmp;{};{}", x.recipe, y.recipe), f)?;
            grid(e, shp, &ops(d_shapes(b"p")), &ops(d_shapes(b"pr")), |x, y| format!("cmp;{};{}", x.recipe, y.recipe), f)
        }
        "C15" => {
            let v = ops(signed(d_lattice(1000, 32, 10)));
            let texts = ["", " 1 +", " 0.5 -", " 1.5 *", " 3 /", " r2", " r-3", " 7 %"];
            grid(e, "results on lattices against twins", &v, &texts, |o, t| format!("hashtwin;{}{}", o.recipe, t), |o, t, c| {
                hash_twin(&format!("{}{}", o.recipe, t), c)
            })
        }
        "C18" => {
            let ds = dests();
            let os = all_ops();
            let a = ops(d_lattice(20, 5, 3));
            let b = ops(signed(d_lattice(20, 5, 3)));
            grid3(e, name, &a, &b, &os, |x, y, o| format!("form;{};{};{}", o.name(), x.recipe, y.recipe), |x, y, o, c| form(*o, x, y, &ds, c))
        }
        _ => Ok(()),
    }
}

/// contents of a group in which two of the three chunks run over everything
fn chunk_content(i: u64) -> u64 {
    let (x, y, k, z) = (i % 1000, i / 1000 % 1000, i / 1_000_000 % 3, [0, 1, 999][(i / 3_000_000) as usize]);
    match k {
        0 => x * 1_000_000 + y * 1000 + z,
        1 => x * 1_000_000 + z * 1000 + y,
        _ => z * 1_000_000 + x * 1000 + y,
    }
}
fn chunk_pairs(id: &str, e: &mut Engine) -> V {
    let n = 9_000_000u64;
    for form in 0..2 {
        let name = format!("all contents of two chunks of a group, form {form}");
        let text = move |i: u64| group_text(chunk_content(i), form);
        match id {
            "C01" => {
                let d = dirty();
                let dd = &d;
                e.run(Space {
                    name,
                    n,
                    describe: Box::new(move |i| format!("parse;true;{}", text(i))),
                    run: Box::new(move |i, c| parse_case(text(i).as_bytes(), true, c, dd)),
                })?;
            }
            "C03" => sweep(e, &name, n, "render", text, render)?,
            "C05" => sweep(e, &name, n, "rt", text, |o, c| roundtrip_fd(&o.fd, c))?,
            "C04" => {
                let g = move |i: u64| if form == 0 { format!("{}.{:09}", i % 7, chunk_content(i)) } else { format!("-.{:09}{:09}1", U - 1, chunk_content(i)) };
                sweep(e, &name, n, "rendernall", g, move |o, c| {
                    let full = o.d.text();
                    (1..9).try_for_each(|k| render_n(o, &full, k + 9 * form as isize, c))
                })?
            }
            _ => {}
        }
    }
    Ok(())
}

/// texts read into targets of every layout
fn parse_into(e: &mut Engine, valid: bool) -> V {
    let mut v: Vec<String> = if valid {
        let mut v = signed(d_shapes(b"n"));
        v.extend(d_shapes64(b"l"));
        v.extend((-30..=65).flat_map(|x| [format!("1e{x}"), format!("-12.5e{x}"), format!("0e{x}"), format!("123456789012345e{x}")]));
        v
    } else {
        let n = |k: usize| "9".repeat(k);
        (0..=70).flat_map(|k| [format!("{}x", n(k)), format!("{}.{}.", n(k / 2), n(k - k / 2)), format!("{}e", n(k)), format!("{}e66", n(k)), format!("{}e-31", n(k)), format!("-{}.{}-", n(k), n(5)), n(66 + k), format!(".{}", n(66 + k)), format!("{}e{}", n(k + 1), 65 - k.min(64))]).collect()
    };
    if !valid {
        v.extend(templates().into_iter().map(|t| t.to_string()));
    }
    let v: Vec<Vec<u8>> = v.into_iter().map(|t| t.into_bytes()).collect();
    let ls = layouts();
    grid(e, "into targets of every layout", &v, ls, |b, (t, _)| format!("parseinto;{t};{valid};{}", esc(b)), |b, (_, t), c| parse_used(b, valid, c, t))
}
pub fn parse_used(b: &[u8], valid: bool, c: &mut Ctx, target: &FixedDecimal) -> R {
    parse_case(b, valid, c, target)?;
    if !valid {
        return Ok(());
    }
    // the value in every later use: nothing of the target's content is left in it
    let read = |to: &FixedDecimal, reset: bool| {
        guard(|| {
            let mut x = to.clone();
            x.from_bytes_str(b, reset).ok().map(|()| x)
        })
    };
    if let Some(y) = read(&FixedDecimal::zero(), false)? {
        for reset in [false, true] {
            if let Some(x) = read(target, reset)? {
                checks::probe_same(&x, &y).map_err(|m| format!("into a used target (reset {reset}): {m}"))?;
            }
        }
        c.call(3);
    }
    Ok(())
}

/// templates with two bytes replaced or inserted next to each other
fn two_edits(e: &mut Engine, thorough: bool) -> V {
    let ts: Vec<&[u8]> = templates().into_iter().map(|t| t.as_bytes()).filter(|t| t.len() <= 24).collect();
    let places: Vec<(usize, usize, bool)> =
        ts.iter().enumerate().flat_map(|(k, t)| (0..=t.len()).flat_map(move |p| [(k, p, true), (k, p, false)])).collect();
    let bytes: Vec<u8> = if thorough { (0..=255).collect() } else { (0..=255u8).filter(|b| b.is_ascii_graphic() || matches!(b, 0 | 9 | 10 | 13 | 32 | 127 | 128 | 0xb0 | 0xc3 | 0xff)).collect() };
    let nb = bytes.len() as u64;
    let gen = |i: u64| -> Vec<u8> {
        let (k, p, ins) = places[(i / nb / nb) as usize];
        let t = ts[k];
        let (x, y) = (bytes[(i / nb % nb) as usize], bytes[(i % nb) as usize]);
        let mut s = t[..p].to_vec();
        s.extend([x, y]);
        s.extend(&t[if ins { p } else { (p + 2).min(t.len()) }..]);
        s
    };
    let d = dirty();
    e.run(Space {
        name: "two adjacent bytes in templates".into(),
        n: places.len() as u64 * nb * nb,
        describe: Box::new(|i| format!("parse;false;{}", esc(&gen(i)))),
        run: Box::new(|i, c| parse_case(&gen(i), false, c, &d)),
    })
}

// ------------------------------------------------------------ thorough tier
const G: u64 = U as u64;
fn deep(id: &str, e: &mut Engine) -> V {
    match id {
        "C01" => {
            all_strings(e, b"059.+-e", 9, true)?;
            all_strings(e, b"0159.+-eE", 9, true)?;
            let d = dirty();
            for form in 0..2 {
                let dd = &d;
                e.run(Space {
                    name: format!("every content of a group, form {form}"),
                    n: if form == 0 { G } else { G / 10 },
                    describe: Box::new(move |i| format!("parse;true;{}", group_text(i, form))),
                    run: Box::new(move |i, c| parse_case(group_text(i, form).as_bytes(), true, c, dd)),
                })?;
            }
            Ok(())
        }
        "C02" => {
            all_strings(e, b"0159.+-eE", 9, false)?;
            all_strings(e, b"01.-e x/:;E", 8, false)?;
            all_strings(e, b"1.-e", 13, false)
        }
        "C03" => {
            for form in 0..3 {
                let n = if form == 0 { G } else { G / 10 };
                sweep(e, &format!("every content of a group, form {form}"), n, "render", move |i| group_text(i, form), render)?;
            }
            Ok(())
        }
        "C04" => {
            // every content of a fraction group under every cut
            let ns: Vec<isize> = (0..=10).collect();
            sweep(e, "every six-digit fraction head, all cuts", 1_000_000, "rendernall", |i| format!("5.{i:06}123"), |o, c| {
                let full = o.d.text();
                ns.iter().try_for_each(|n| render_n(o, &full, *n, c))
            })?;
            sweep(e, "every six-digit fraction tail, all cuts", 1_000_000, "rendernall", |i| format!("-.100{i:06}"), |o, c| {
                let full = o.d.text();
                ns.iter().try_for_each(|n| render_n(o, &full, *n, c))
            })?;
            sweep(e, "every group content, cuts inside", G / 10, "rendernall", |i| format!("0.{i:08}7"), |o, c| {
                let full = o.d.text();
                [1, 4, 7, 8].iter().try_for_each(|n| render_n(o, &full, *n, c))
            })?;
            let v = operands_raw(signed(d_shapes(b"cnlaebz")).into_iter().chain(signed(d_shapes64(b"cna"))));
            let full: Vec<(Operand, String)> = v.into_iter().map(|o| (o.clone(), o.d.text())).collect();
            let ns: Vec<isize> = (-3..=130).chain([255, 256, 257, 300, 1000]).collect();
            grid(e, "all shapes x all digit counts", &full, &ns, |o, n| format!("rendern;{n};{}", o.0.recipe), |o, n, c| render_n(&o.0, &o.1, *n, c))
        }
        "C05" => {
            for form in 0..2 {
                sweep(e, &format!("every content of a group, form {form}"), G / 4, "rt", move |i| group_text(i * 4 + form, form), |o, c| roundtrip_fd(&o.fd, c))?;
            }
            let os = all_ops();
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("rtbin;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| bin_roundtrip(*o, x, y, c);
            let a = operands_raw(signed(group_box(3, 2, &[0, 1, HALF, U - 1])));
            let b = operands_raw(group_box(2, 2, &[0, 1, HALF, U - 1]));
            grid3(e, "results on longer group pairs", &a, &b, &os, d, f)?;
            let a = operands_raw(d_shapes(b"n"));
            let b = operands_raw(signed(d_shapes(b"c")));
            grid3(e, "results on all shape pairs", &a, &b, &os[..5], d, f)?;
            let a = operands_raw(d_bin(&[0, 1, 9, 15, 30]));
            grid3(e, "results on binary edges", &a, &a, &os, d, f)
        }
        "C06" | "C07" => {
            let o = [if id == "C06" { Bin::Add } else { Bin::Sub }];
            let a = ops(signed(small(1500, 2)));
            let b = ops(signed(small(1500, 0)));
            pairs(e, "small pairs, wide", &a, &b, &o)?;
            let a = ops(group_box(4, 3, &g5()));
            let b = ops(signed(group_box(3, 2, &[0, 1, HALF, U - 1])));
            pairs(e, "boundary groups, 4+3 x 3+2", &a, &b, &o)?;
            let a = ops(group_box(2, 4, &g5()));
            let b = ops(signed(group_box(2, 4, &[0, 1, U - 1])));
            pairs(e, "boundary groups, 2+4 x 2+4", &a, &b, &o)?;
            let mut v = d_shapes(b"nbeclma");
            v.extend(d_shapes64(b"n"));
            let a = ops(v);
            let b = ops(signed(d_shapes(b"cenla")));
            pairs(e, "all shape pairs, more patterns", &a, &b, &o)
        }
        "C08" | "C09" => {
            let fits = id == "C08";
            if fits {
                let a = ops(signed(small(2500, 1)));
                mul_pairs(e, "small pairs, wide", &a, &a, fits)?;
                let a = ops(group_box(3, 2, &k6()));
                let b = ops(group_box(3, 1, &k16()[..12]));
                mul_pairs(e, "boundary groups, larger alphabets", &a, &b, fits)?;
            } else {
                let a = ops(group_box(3, 4, &[0, 1, HALF, U - 1]));
                let b = ops(group_box(2, 4, &[0, 1, U - 1]));
                mul_pairs(e, "long fractions, wider", &a, &b, fits)?;
                let a = ops(group_box(7, 0, &[0, 1, HALF, U - 1]));
                let b = ops(group_box(5, 2, &[0, 1, U - 1]));
                mul_pairs(e, "long integers, wider", &a, &b, fits)?;
            }
            let mut v = d_shapes(b"nbehla");
            v.extend(d_shapes64(b"n"));
            let a = ops(v);
            let b = ops(d_shapes(b"ncme"));
            mul_pairs(e, "all shape pairs, more patterns", &a, &b, fits)
        }
        "C10" | "C11" => {
            let is_div = id == "C10";
            let o = |n: usize| if is_div { Bin::Div(n) } else { Bin::Rem };
            let basic: Vec<Bin> = if is_div { vec![Bin::Div(4), Bin::Div(0)] } else { vec![Bin::Rem] };
            let a = ops(signed(small(1500, 1)));
            pairs(e, "small pairs, wide", &a, &a, &basic[..1])?;
            let lay: Vec<(usize, usize, Bin)> = vec![(0, 0, o(0)), (9, 0, o(4)), (0, 9, o(0))];
            quotients(e, "quotients over sixteen group contents", &values(2, &k16()), &values(3, &k16()), &lay)?;
            quotients(e, "quotients, five-group divisors", &values(2, &k8()), &values(5, &k6()), &lay[..1])?;
            quotients(e, "quotients, four groups", &values(4, &k6()), &values(3, &k6()), &lay[..1])?;
            let a = ops(group_box(3, 2, &k6()));
            let b = ops(group_box(2, 2, &k6()));
            pairs(e, "boundary groups, larger alphabets", &a, &b, &basic[..1])?;
            let a = ops(d_shapes(b"necha"));
            let b = ops(d_shapes(b"blcn"));
            pairs(e, "all shape pairs, more patterns", &a, &b, &basic[..1])
        }
        "C12" | "C13" => {
            let agree = id == "C13";
            let (ds, dd) = (dests(), dirty());
            let ns = round_ns();
            let d = |o: &Operand, n: &isize| format!("{};{n};{}", if agree { "roundagree" } else { "round" }, o.recipe);
            let f = |o: &Operand, n: &isize, c: &mut Ctx| if agree { round_agree(o, *n, &ds, c) } else { checks::round(o, *n, &dd, c) };
            let v = ops(signed(group_box(4, 4, &[0, HALF - 1, HALF, U - 1])));
            let ns2: Vec<isize> = [-45isize, -37, -36, -35, -28, -27, -26, -19, -18, -17, -10, -9, -8, -5, -1, 0, 1, 4, 8, 9, 10, 17, 18, 19, 26, 27, 28, 30, 36].to_vec();
            grid(e, "boundary groups 4+4 x edge positions", &v, &ns2, d, f)?;
            let mut v = signed(d_shapes(b"nbcmhelaz"));
            v.extend(signed(d_shapes64(b"nmhe")));
            let v = ops(v);
            grid(e, "all shapes, all patterns, both signs x all positions", &v, &ns, d, f)
        }
        "C14" => {
            let d = |x: &Operand, y: &Operand| format!("cmp;{};{}", x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, c: &mut Ctx| checks::cmp(x, y, true, c);
            let a = ops(signed(group_box(4, 3, &[0, 1, U - 1])));
            let b = ops(signed(group_box(3, 4, &[0, 1, U - 1])));
            grid(e, "boundary groups, 4+3 x 3+4", &a, &b, d, f)?;
            let a = ops(group_box(3, 3, &g5()));
            grid(e, "boundary groups, 3+3 x 3+3", &a, &a, d, f)?;
            let a = ops(signed(d_shapes(b"nebzcl")));
            let b = ops(d_shapes(b"nebzc"));
            grid(e, "all shape pairs, more patterns", &a, &b, d, f)
        }
        "C15" => {
            let v = ops(signed(group_box(3, 3, &g5())));
            let texts = ["", " 1 +", " 0.5 -", " 1.5 *", " 3 /", " r2", " r-3", " 7 %", " neg", " r9", " 1e-9 *", " 1e18 *"];
            grid(e, "results on boundary groups against twins", &v, &texts, |o, t| format!("hashtwin;{}{}", o.recipe, t), |o, t, c| {
                hash_twin(&format!("{}{}", o.recipe, t), c)
            })?;
            let v = ops(signed(d_shapes(b"nlcez")));
            grid(e, "results on all shapes against twins", &v, &texts, |o, t| format!("hashtwin;{}{}", o.recipe, t), |o, t, c| {
                hash_twin(&format!("{}{}", o.recipe, t), c)
            })
        }
        "C16" => {
            for (k, mul) in [(0u32, 1u64), (1, G), (2, 17 * G + 1)] {
                e.run(Space {
                    name: format!("every content of a group, place {k}"),
                    n: G,
                    describe: Box::new(move |i| format!("fromu;{}", i * mul)),
                    run: Box::new(move |i, c| from_u64(i * mul, c)),
                })?;
            }
            e.run(Space {
                name: "every group content below the signed minimum's magnitude".into(),
                n: G,
                describe: Box::new(|i| format!("fromi;{}", (i64::MIN + i as i64))),
                run: Box::new(|i, c| from_i64(i64::MIN + i as i64, c)),
            })
        }
        "C17" => {
            for int in ["9223372036854775807", "-9223372036854775808", "18446744073709551615", "999999999", "-1"] {
                sweep(e, &format!("every eight-digit fraction behind {int}"), G / 10, "toint", move |i| format!("{int}.{i:08}"), to_int)?;
            }
            let v = ops(signed(group_box(4, 4, &[0, 1, HALF - 1, HALF, U - 1])));
            list(e, "boundary groups 4+4", &v, |o| format!("toint;{}", o.recipe), to_int)?;
            // every third group of the integer next to the limits
            sweep(e, "every top group", 1000 * 1000, "toint", |i| format!("{}223372036854775807.{:03}", i / 1000, i % 1000), to_int)
        }
        "C18" => {
            let ds = dests();
            let os = all_ops();
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("form;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| {
                c.state(x.d.hash() ^ y.d.hash().rotate_left(7));
                form(*o, x, y, &ds, c)
            };
            let a = ops(signed(group_box(3, 2, &[0, 1, U - 1])));
            let b = ops(group_box(3, 2, &[0, 1, HALF, U - 1]));
            grid3(e, "boundary groups, longer", &a, &b, &os, d, f)?;
            let mut v = d_shapes_edge(b"nel");
            v.extend(d_hist());
            v.extend(d_huge());
            let a = ops(v.clone());
            grid3(e, "edge shapes and computed operands, all pairs", &a, &a, &os, d, f)
        }
        "C20" => {
            let os = all_ops();
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("zres;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| zero_result(*o, x, y, c);
            let a = operands_raw(signed(small(1000, 1)));
            grid3(e, "small pairs, wide", &a, &a, &os, d, f)?;
            let a = operands_raw(signed(d_shapes(b"nl")));
            let b = operands_raw(d_shapes(b"el"));
            grid3(e, "all shape pairs", &a, &b, &[Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Rem], d, f)?;
            let a = operands_raw(signed(group_box(3, 2, &[0, 1, U - 1])));
            grid3(e, "boundary groups", &a, &a, &os, d, f)
        }
        "C21" => {
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("dz;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| {
                c.state(x.d.hash() ^ y.d.hash().rotate_left(7));
                divzero(*o, x, y, c)
            };
            let os = [Bin::Div(4), Bin::Rem];
            let mut v = d_shapes(b"nez");
            v.extend(d_shapes64(b"nez"));
            v.extend(d_hist());
            v.extend(d_huge());
            let a = ops(signed(v));
            let z = ops(zeros());
            grid3(e, "every shape by every zero", &a, &z, &os, d, f)?;
            let mut w = d_ticks();
            w.extend(d_pow());
            let b = ops(w);
            let a = ops(d_shapes(b"nel"));
            grid3(e, "every shape by sparse divisors", &a, &b, &os[..1], d, f)
        }
        "C22" => {
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("nc;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| nocrash_bin(*o, x, y, false, c);
            let os = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(0), Bin::Rem];
            let a = operands_raw(group_box(3, 3, &[0, 1, HALF, U - 1]));
            let b = operands_raw(signed(group_box(3, 2, &[0, 1, U - 1])));
            grid3(e, "boundary groups, 3+3 x 3+2", &a, &b, &os, d, f)?;
            let a = operands_raw(d_shapes(b"nhae"));
            let b = operands_raw(d_shapes(b"blcn"));
            grid3(e, "all shape pairs, more patterns", &a, &b, &os, d, f)?;
            let mut v = d_bin(&[0, 1, 9, 15, 30]);
            v.extend(d_words());
            let a = operands_raw(v);
            grid3(e, "binary edges", &a, &a, &os, d, f)
        }
        _ => Ok(()),
    }
}
/// larger spaces for the checks whose quick tier includes `deep`
fn deeper(id: &str, e: &mut Engine) -> V {
    match id {
        "C15" => {
            let texts = ["", " 1 +", " 0.5 -", " 1.5 *", " 3 /", " r2", " r-3", " 7 %", " neg", " r9", " 1e-9 *", " 1e18 *", " 0.000000001 +", " r18", " 999999999 *", " 1e9 swap -"];
            let v = ops(signed(group_box(4, 4, &[0, 1, HALF, U - 1])));
            grid(e, "results on longer boundary groups against twins", &v, &texts, |o, t| format!("hashtwin;{}{}", o.recipe, t), |o, t, c| {
                hash_twin(&format!("{}{}", o.recipe, t), c)
            })?;
            let v = ops(signed(group_box(3, 2, &k16())));
            grid(e, "results on more boundary contents against twins", &v, &texts[..6], |o, t| format!("hashtwin;{}{}", o.recipe, t), |o, t, c| {
                hash_twin(&format!("{}{}", o.recipe, t), c)
            })
        }
        "C20" => {
            let os = all_ops();
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("zres;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| zero_result(*o, x, y, c);
            let a = operands_raw(signed(group_box(3, 3, &[0, 1, HALF, U - 1])));
            let b = operands_raw(group_box(3, 2, &g5()));
            grid3(e, "boundary groups, longer", &a, &b, &os, d, f)?;
            let mut v = d_bin(&[0, 1, 9, 15, 30]);
            v.extend(d_words());
            let a = operands_raw(v);
            grid3(e, "binary edges", &a, &a, &os, d, f)?;
            let v = operands_raw(d_shapes(b"nbcmhelaz"));
            let ns = round_ns();
            grid(e, "all shapes, all patterns x all positions", &v, &ns, |o, n| format!("zround;{n};{}", o.recipe), |o, n, c| zero_round(o, *n, c))
        }
        "C21" => {
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("dz;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| {
                c.state(x.d.hash() ^ y.d.hash().rotate_left(7));
                divzero(*o, x, y, c)
            };
            let os = [Bin::Div(4), Bin::Div(0), Bin::Rem];
            let mut w = d_shapes(b"lbhz");
            w.extend(d_shapes64(b"l"));
            let b = ops(w);
            let mut v = d_shapes(b"nl");
            v.extend(zeros());
            v.extend(d_hist());
            let a = ops(v);
            grid3(e, "every shape by every shape", &a, &b, &os, d, f)?;
            let a = ops(signed(group_box(3, 3, &[0, 1, U - 1])));
            let b = ops(group_box(3, 4, &[0, 1, U - 1]));
            grid3(e, "boundary groups", &a, &b, &os, d, f)
        }
        "C22" => {
            let d = |x: &Operand, y: &Operand, o: &Bin| format!("nc;{};{};{}", o.name(), x.recipe, y.recipe);
            let f = |x: &Operand, y: &Operand, o: &Bin, c: &mut Ctx| nocrash_bin(*o, x, y, false, c);
            let os = [Bin::Add, Bin::Sub, Bin::Mul, Bin::Div(4), Bin::Div(30), Bin::Rem];
            let mut v = d_shapes(b"nlz");
            v.extend(d_shapes64(b"nlz"));
            let a = operands_raw(v);
            grid3(e, "all shape pairs, padded and zero operands", &a, &a, &os, d, f)?;
            let a = operands_raw(group_box(4, 4, &[0, 1, U - 1]));
            let b = operands_raw(signed(group_box(3, 3, &[0, 1, U - 1])));
            grid3(e, "boundary groups, 4+4 x 3+3", &a, &b, &os, d, f)
        }
        _ => Ok(()),
    }
}

/// replay of a case swept over several digit counts
pub fn render_all(o: &Operand, c: &mut Ctx) -> R {
    let full = o.d.text();
    (-1..=18).try_for_each(|n| render_n(o, &full, n, c))
}

/// other ways to the decimal that the numeral `t` denotes; none of them reads
/// the text it prints
fn routes(t: &str) -> Vec<String> {
    let (ip, fp) = t.split_once('.').unwrap_or((t, ""));
    let mut v = vec![format!("{t}"), format!("-{t}"), format!("-{t} pos"), format!("{t} neg")];
    if ip.len() + fp.len() < model::MAX_DIGITS {
        v.push(format!("0{t}"));
        v.push(format!("{ip}.{fp}0 r{}", fp.len()));
    }
    if !fp.is_empty() {
        if !ip.is_empty() {
            v.push(format!("{ip} .{fp} +"));
            v.push(format!("-{ip} .{fp} -"));
        }
        if fp.len() <= model::MAX_SCALE {
            v.push(format!("{ip}{fp}e-{}", fp.len()));
        }
        if fp.len() <= 36 {
            let h = fp.len() / 2;
            v.push(format!("{ip}{fp} 1e-{h} 1e-{} * *", fp.len() - h));
        }
        let h = fp.len() / 2;
        v.push(format!("{ip}.{} .{}{} +", &fp[..h.max(1)], "0".repeat(h.max(1)), &fp[h.max(1)..]));
    } else {
        let h = ip.len() / 2;
        if h > 0 {
            v.push(format!("{} 1{} * {} +", &ip[..h], "0".repeat(ip.len() - h), &ip[h..]));
        }
        let z = ip.trim_end_matches('0');
        if !z.is_empty() && z.len() < ip.len() {
            v.push(format!("{z}e{}", ip.len() - z.len()));
        }
    }
    v
}
/// the round trip of whatever a recipe gives, right or wrong
pub fn rt_raw(recipe: &str, c: &mut Ctx) -> R {
    match crate::bfs::raw(recipe) {
        Ok(fd) => roundtrip_fd(&fd, c),
        Err(_) => {
            c.outcome("operation not delivered");
            Ok(())
        }
    }
}
