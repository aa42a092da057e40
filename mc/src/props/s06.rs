//! S06: numeric functions compute what they document, and the random numbers are the promised sequences.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang;
use crate::machx::{Mach, Opts, Outcome};
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "S06",
        rule: "Functions: all one-argument functions on a grid of numbers around every boundary (halves, integer \
               limits, powers of ten, zeros, infinities) in both angle modes, ROUND with digit counts from -330 \
               to 330, MIN and MAX on all sequences of up to 4 (thorough: 6) of 9 numbers. Random numbers: all \
               sequences of up to 4 (thorough: 6) of 13 uses of the generator, against a model in which each seed \
               has one sequence.",
        assumptions: &["elementary functions are those of Rust's library, to within 1e-12"],
        sections,
    }
}

fn grid() -> Vec<f64> {
    let mut v = vec![0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.5, 4.4, 4.5, 4.6, 10.0, 30.0, 45.0, 60.0, 90.0];
    v.extend([99.5, 123.456, 180.0, 360.0, 709.0, 710.0, 1e6, 1e9, 1e15, 1e16, 1e100, 1e300, 1e308]);
    v.extend([0.001, 1e-10, 1e-300, 5e-324, 0.49999999999999994, 4503599627370497.5]);
    for b in [2147483647.0f64, 2147483648.0, 65535.0, 255.0] {
        for d in [-1.0, -0.75, -0.5, -0.25, 0.0, 0.25, 0.49, 0.5, 0.75, 1.0] {
            v.push(b + d);
        }
    }
    v.push(f64::INFINITY);
    let neg: Vec<f64> = v.iter().filter(|x| **x != 0.0).map(|x| -x).collect();
    v.extend(neg);
    v
}

/// An expression for a double that does not depend on the lexer of numbers.
fn num(d: f64) -> String {
    format!("VAL(\"{:e}\")", d).replace("inf", "1e999")
}

#[derive(Clone, Copy, Debug)]
enum R {
    Int(i64),
    Dbl(f64),
    Err,
    /// Any number.
    Any,
}

fn close(a: f64, b: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-12 * a.abs().max(b.abs()).max(1e-3)
}

const FUNCS: [&str; 14] =
    ["ABS", "SGN", "INT", "FIX", "CINT", "SQR", "EXP", "LOG", "SIN", "COS", "TAN", "ATN", "ASIN", "ACOS"];

fn function(f: &str, x: f64, deg: bool) -> R {
    let int = |v: f64| {
        if (i32::MIN as f64..=i32::MAX as f64).contains(&v) { R::Int(v as i64) } else { R::Err }
    };
    let a = if deg { x * std::f64::consts::PI / 180.0 } else { x };
    let back = |r: f64| R::Dbl(if deg { r * 180.0 / std::f64::consts::PI } else { r });
    match f {
        "ABS" => R::Dbl(if x < 0.0 { -x } else { x }),
        "SGN" => R::Int(if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }),
        "INT" => int(x.floor()),
        "FIX" => int(if x < 0.0 { x.ceil() } else { x.floor() }),
        "CINT" => int(nearest(x)),
        "SQR" => {
            if x < 0.0 {
                R::Err
            } else {
                R::Dbl(x.sqrt())
            }
        }
        "EXP" => {
            if x.exp().is_infinite() {
                R::Err
            } else {
                R::Dbl(x.exp())
            }
        }
        "LOG" => {
            if x <= 0.0 {
                R::Err
            } else {
                R::Dbl(x.ln())
            }
        }
        // Angles that are many turns lose their precision.
        "SIN" | "COS" | "TAN" if x.abs() > 1000.0 => R::Any,
        "SIN" => R::Dbl(a.sin()),
        "COS" => R::Dbl(a.cos()),
        "TAN" if a.tan().abs() > 1e10 => R::Any,
        "TAN" => R::Dbl(a.tan()),
        "ATN" => back(x.atan()),
        "ASIN" if x.abs() <= 1.0 => back(x.asin()),
        "ACOS" if x.abs() <= 1.0 => back(x.acos()),
        _ => R::Err,
    }
}

/// The nearest integer, away from zero when in the middle.
fn nearest(x: f64) -> f64 {
    if x.is_infinite() {
        return x;
    }
    let a = x.abs();
    let f = a.floor();
    let r = if a - f >= 0.5 { f + 1.0 } else { f };
    if x < 0.0 { -r } else { r }
}

/// What one evaluation gives.
fn value(m: &mut Mach, code: &str) -> Result<Option<String>, String> {
    let o = m.feed(code);
    let out = m.out();
    match o {
        Outcome::Done(None) if out.len() == 1 => Ok(Some(out[0].clone())),
        Outcome::Err(_) if out.is_empty() => Ok(None),
        o => Err(format!("{:?} {:?}", o, out)),
    }
}

fn check(name: &str, m: &mut Mach, code: &str, exp: R, cx: &mut Cx) -> CaseResult {
    let fail = |what: String| -> CaseResult { Err(Failure::new(format!("{}: {}", name, code), format!("{}\n{}", code, what))) };
    let got = match value(m, code) {
        Ok(g) => g,
        Err(e) => return fail(e),
    };
    cx.step(1);
    let ok = match (exp, &got) {
        (R::Err, None) => true,
        (R::Any, Some(g)) => g.ends_with('#'),
        (R::Int(i), Some(g)) => *g == format!("{}%", i),
        (R::Dbl(d), Some(g)) => match g.strip_suffix('#') {
            Some(t) => {
                let v = t.trim().parse::<f64>();
                *g == lang::show_double(d) || v.is_ok_and(|v| close(v, d)) || d.is_nan() && t.contains("NaN")
            }
            None => false,
        },
        _ => false,
    };
    if ok { Ok(()) } else { fail(format!("is  {}\nnot {:?}", got.unwrap_or("an error".to_owned()), exp)) }
}

fn functions() -> Section {
    let g = grid();
    let r = [FUNCS.len() as u64, g.len() as u64, 3];
    Section::new(
        "functions",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let (f, x) = (FUNCS[d[0]], g[d[1]]);
            let (pre, deg) = [("", false), ("DEG\n", true), ("DEG\nSQR 1.0\nRAD\n", false)][d[2]];
            let pre = pre.replace("SQR 1.0\n", "");
            let exp = function(f, x, deg);
            let mut m = Mach::scripting(Opts::default());
            check("functions", &mut m, &format!("{}OUT {}({})", pre, f, num(x)), exp, cx)?;
            check("variable", &mut m, &format!("q# = {}\nOUT {}(q#)", num(x), f), exp, cx)?;
            if d[2] == 1 {
                // Errors and clearing leave and reset the mode.
                check("mode", &mut m, &format!("OUT {}({})", f, num(x)), exp, cx)?;
                m.m.clear();
                check("cleared", &mut m, &format!("OUT {}({})", f, num(x)), function(f, x, false), cx)?;
            }
            if x.fract() == 0.0 && x.abs() < 2147483648.0 {
                // Integers are taken as well.
                check("integers", &mut m, &format!("{}OUT {}({})", pre, f, x as i64), exp, cx)?;
            }
            cx.state(&(d[0], d[1], d[2]));
            Ok(())
        },
    )
}

fn rounding() -> Section {
    let g = grid();
    let r = [g.len() as u64, 6];
    let digits: [&[i32]; 6] = [
        &[],
        &[0, 1, 2, 3, 6, 10],
        &[-1, -2, -3, -6, -9, -10],
        &[15, 17, 20, 100, 300],
        &[307, 308, 309, 320, 330, 2147483647],
        &[-300, -308, -309, -330, -2147483647],
    ];
    Section::new(
        "rounding",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let x = g[d[0]];
            let mut m = Mach::scripting(Opts::default());
            if digits[d[1]].is_empty() {
                check("rounding", &mut m, &format!("OUT ROUND({})", num(x)), R::Dbl(nearest(x)), cx)?;
            }
            for n in digits[d[1]] {
                let code = format!("OUT ROUND({}, {})", num(x), n);
                let fail = |what: String| -> CaseResult { Err(Failure::new(format!("rounding: {}", code), format!("{}\n{}", code, what))) };
                let got = match value(&mut m, &code) {
                    Ok(Some(g)) => g,
                    e => return fail(format!("{:?}", e)),
                };
                cx.step(1);
                let v = match got.strip_suffix('#').map(|t| t.trim().parse::<f64>()) {
                    Some(Ok(v)) => v,
                    _ => return fail(format!("is {}", got)),
                };
                // Within half a unit of the last digit to keep, and itself a multiple of it.
                let unit = 10f64.powi((-n).clamp(-400, 400));
                if x.is_infinite() {
                    if v != x {
                        return fail(format!("is {}", v));
                    }
                    continue;
                }
                let err = (v - x).abs();
                if v.is_nan() || err > unit * 0.5 + x.abs() * 1e-15 {
                    return fail(format!("is {}, {} away", v, err));
                }
                if unit.is_finite() && unit >= 1e-9 && (v / unit).abs() < 1e14 {
                    let k = v / unit;
                    if (k - k.round()).abs() > 1e-6 * k.abs().max(1.0) {
                        return fail(format!("is {}, with more digits", v));
                    }
                }
                if unit.is_infinite() && v != 0.0 {
                    return fail(format!("is {}", v));
                }
            }
            cx.state(&(d[0], d[1]));
            Ok(())
        },
    )
}

const EXTREMES: [f64; 9] =
    [0.0, 1.0, -1.0, 0.5, -2.5, 1e308, -1e308, f64::INFINITY, f64::NEG_INFINITY];

fn extremes(max: u32) -> Section {
    let k = EXTREMES.len() as u64;
    Section::new(
        "extremes",
        seq_count(k, 1, max),
        move |i| format!("{:?}", seq_decode(k, 1, i)),
        move |i, cx| {
            let v: Vec<f64> = seq_decode(k, 1, i).iter().map(|x| EXTREMES[*x]).collect();
            let args = v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(", ");
            let mut m = Mach::scripting(Opts::default());
            let max = v.iter().cloned().reduce(f64::max).unwrap();
            let min = v.iter().cloned().reduce(f64::min).unwrap();
            cx.state(&i);
            check("extremes", &mut m, &format!("OUT MAX({})", args), R::Dbl(max), cx)?;
            check("extremes", &mut m, &format!("OUT MIN({})", args), R::Dbl(min), cx)?;
            if i == 0 {
                check("constant", &mut m, "OUT PI", R::Dbl(std::f64::consts::PI), cx)?;
                for code in ["OUT MAX()", "OUT MIN()", "OUT ABS()", "OUT ABS(1, 2)", "OUT PI(1)", "OUT ABS(\"1\")"] {
                    if !matches!(m.feed(code), Outcome::Compile(_)) {
                        return Err(Failure::new(format!("none: {}", code), "is accepted".to_owned()));
                    }
                }
            }
            Ok(())
        },
    )
}

// --- Random numbers --------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Rnd {
    Next(&'static str),
    Last,
    Seed(i32),
    /// RND of a negative number.
    SeedAndFirst(i32),
    Entropy,
    Fail(&'static str),
    Clear,
}
use Rnd::*;

const RNDS: [Rnd; 13] = [
    Next("RND()"),
    Next("RND(1)"),
    Next("RND(1000)"),
    Last,
    Seed(1),
    Seed(-1),
    Seed(0),
    Seed(2147483647),
    SeedAndFirst(-1),
    SeedAndFirst(-7),
    Entropy,
    Fail("OUT RND(VAL(\"1e99\"))"),
    Clear,
];

fn random(max: u32) -> Section {
    let k = RNDS.len() as u64;
    Section::new(
        "random",
        seq_count(k, 1, max),
        move |i| format!("{:?}", seq_decode(k, 1, i).iter().map(|r| RNDS[*r]).collect::<Vec<_>>()),
        move |i, cx| {
            let seq = seq_decode(k, 1, i);
            let mut m = Mach::scripting(Opts::default());
            // The values of each stream; negative identifiers for unknown seeds.
            let mut known: HashMap<(i64, usize), f64> = HashMap::new();
            let mut fresh = i64::MIN;
            let mut at = (fresh, 0usize);
            for (step, r) in seq.iter().enumerate() {
                let r = &RNDS[*r];
                let fail = |what: String| -> CaseResult {
                    let h = seq[..=step].iter().map(|r| format!("{:?}", RNDS[*r])).collect::<Vec<_>>().join(" ");
                    Err(Failure::new(format!("random: {}", h), what))
                };
                let (code, reads) = match r {
                    Next(s) => {
                        at.1 += 1;
                        (format!("OUT {}", s), true)
                    }
                    Last => ("OUT RND(0)".to_owned(), true),
                    Seed(s) => {
                        at = (*s as i64, 0);
                        (format!("RANDOMIZE {}", s), false)
                    }
                    SeedAndFirst(s) => {
                        at = (*s as i64, 0);
                        (format!("OUT RND({})", s), true)
                    }
                    Entropy => {
                        fresh += 1;
                        at = (fresh, 0);
                        ("RANDOMIZE".to_owned(), false)
                    }
                    Fail(s) => {
                        match value(&mut m, s) {
                            Ok(None) => (),
                            e => return fail(format!("{:?}", e)),
                        }
                        continue;
                    }
                    Clear => {
                        // What it does to the generator is not promised.
                        m.m.clear();
                        fresh += 1;
                        at = (fresh, 0);
                        continue;
                    }
                };
                cx.step(1);
                if !reads {
                    if m.feed(&code) != Outcome::Done(None) {
                        return fail("fails".to_owned());
                    }
                    continue;
                }
                let v = match value(&mut m, &code) {
                    Ok(Some(v)) => v.strip_suffix('#').and_then(|v| v.trim().parse::<f64>().ok()),
                    e => return fail(format!("{:?}", e)),
                };
                let Some(v) = v else { return fail("not a number".to_owned()) };
                if !(0.0..=1.0).contains(&v) {
                    return fail(format!("is {}", v));
                }
                if let Some(w) = known.get(&at) {
                    if *w != v {
                        return fail(format!("is {} and was {}", v, w));
                    }
                } else if at.0 >= i32::MIN as i64
                    && known.iter().any(|(k, w)| k.0 >= i32::MIN as i64 && *w == v)
                {
                    return fail(format!("repeats {}", v));
                }
                known.insert(at, v);
            }
            cx.state(&(at.0.max(-10), at.1));
            cx.traces += 1;
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![functions(), rounding(), extremes(tier.pick(4, 6)), random(tier.pick(4, 6))]
}
