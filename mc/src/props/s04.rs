//! S04: PRINT shows values and INPUT takes them as documented, and what one shows the other takes back.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang;
use crate::machx::{Mach, Opts, Outcome};
use crate::scr::Ev;
use endbasic_std::console::Key;

pub fn property() -> Property {
    Property {
        id: "S04",
        rule: "Items: PRINT with all sequences of up to 4 (thorough: 6) tokens over 14 values of every type and both \
               separators, in pairs with a PRINT before; texts of every length up to 300 (thorough: 700). Values: boundary values of every type as literals and as \
               variables, shown by PRINT and STR and taken back by INPUT and VAL. Typed: all strings of up to 4 \
               (thorough: 5) characters over 14 typed at an INPUT of every type with every kind of prompt, followed \
               by a valid answer.",
        assumptions: &["floating point literals are parsed and shown by Rust's own routines"],
        sections,
    }
}

/// Values with their text and whether they are numbers or booleans.
const ITEMS: [(&str, &str, bool); 14] = [
    ("\"\"", "", false),
    ("\"a\"", "a", false),
    ("\"é→\"", "é→", false),
    ("\"thirteen char\"", "thirteen char", false),
    ("\"fourteen chars\"", "fourteen chars", false),
    ("\" x \"", " x ", false),
    ("0", " 0", true),
    ("-12", "-12", true),
    ("2147483647", " 2147483647", true),
    ("2.0", " 2", true),
    ("-0.25", "-0.25", true),
    ("TRUE", "TRUE", true),
    ("FALSE", "FALSE", true),
    ("1 + 2", " 3", true),
];

/// The tokens of a PRINT statement; None when two values are next to each other.
fn tokens(seq: &[usize]) -> Option<Vec<usize>> {
    for w in seq.windows(2) {
        if w[0] >= 2 && w[1] >= 2 {
            return None;
        }
    }
    Some(seq.to_vec())
}

/// The text that a PRINT shows and whether it ends the line.
fn shown(seq: &[usize]) -> (String, bool) {
    let mut t = String::new();
    let mut num = false;
    for s in seq {
        match *s {
            0 => {
                // Values of any type but text leave a space.
                if num {
                    t.push(' ');
                }
                num = false;
            }
            1 => {
                let n = t.chars().count();
                t.push_str(&" ".repeat(14 - n % 14));
                num = false;
            }
            v => {
                let (_, s, n) = ITEMS[v - 2];
                t.push_str(s);
                num = n;
            }
        }
    }
    (t, seq.last().is_none_or(|l| *l >= 2))
}

fn source(seq: &[usize]) -> String {
    let mut s = "PRINT".to_owned();
    for t in seq {
        s.push(' ');
        s.push_str(match *t {
            0 => ";",
            1 => ",",
            v => ITEMS[v - 2].0,
        });
    }
    s
}

fn items(max: u32) -> Section {
    let k = 2 + ITEMS.len() as u64;
    let r = [seq_count(k, 0, max)];
    Section::new(
        "items",
        product(&r),
        move |i| source(&seq_decode(k, 0, i)),
        move |i, cx| {
            let Some(seq) = tokens(&seq_decode(k, 0, i)) else {
                cx.trivial += 1;
                return Ok(());
            };
            let text = source(&seq);
            let (t, nl) = shown(&seq);
            let fail =
                |what: String| -> CaseResult { Err(Failure::new(format!("items: {}", text), what)) };
            let mut m = Mach::scripting(Opts { size: (200, 5), ..Opts::default() });
            // Fields start at the beginning of each statement.
            let o = m.feed(&format!("PRINT \"before\";: {}: PRINT \"after\"", text));
            if o != Outcome::Done(None) {
                return fail(format!("{:?}", o));
            }
            let exp = format!("before{}{}after\n", t, if nl { "\n" } else { "" });
            let got = m.text();
            cx.step(1);
            cx.state(&exp);
            if got != exp {
                return fail(format!("shows {:?}\nnot   {:?}", got, exp));
            }
            Ok(())
        },
    )
}

// --- Long texts ------------------------------------------------------------------------------

/// The lengths of the first and second texts, and the separators after each.
fn long_items(max: u64) -> Section {
    let r = [max, 6, 2, 3];
    let parts = move |i: u64| {
        let v = mixed(&r, i);
        let lens = [v[0], [0, 1, 13, 14, 100, 254][v[1]]];
        let seps = [[0, 1][v[2]], [0, 1, 2][v[3]]];
        let mut code = "PRINT".to_owned();
        let mut exp = String::new();
        for (k, l) in lens.iter().enumerate() {
            code.push_str(&format!(" \"{}\"", if k == 0 { "é" } else { "x" }.repeat(*l)));
            exp.push_str(&if k == 0 { "é" } else { "x" }.repeat(*l));
            match seps[k] {
                0 => code.push(';'),
                1 => {
                    code.push(',');
                    let n = exp.chars().count();
                    exp.push_str(&" ".repeat(14 - n % 14));
                }
                _ => exp.push('\n'),
            }
        }
        (code, exp)
    };
    Section::new(
        "long",
        product(&r),
        move |i| parts(i).0,
        move |i, cx| {
            let (code, exp) = parts(i);
            let mut m = Mach::scripting(Opts { size: (1000, 5), ..Opts::default() });
            let o = m.feed(&code);
            let got = m.text();
            cx.step(1);
            cx.state(&exp);
            if o != Outcome::Done(None) || got != exp {
                return Err(Failure::new(format!("long: {}", code), format!("{:?} shows {:?}\nnot   {:?}", o, got, exp)));
            }
            Ok(())
        },
    )
}

// --- Values ----------------------------------------------------------------------------------

/// Expressions and the text for them.
fn values() -> Vec<(String, String, &'static str)> {
    let mut v = vec![];
    for i in [0i32, 1, 7, 9, 10, 99, 100, 255, 256, 32767, 32768, 65535, 65536, 99999, 1000000, i32::MAX - 1, i32::MAX] {
        v.push((i.to_string(), format!(" {}", i), "INTEGER"));
        if i > 0 {
            v.push((format!("-{}", i), format!("-{}", i), "INTEGER"));
        }
    }
    v.push(("-2147483647 - 1".to_owned(), "-2147483648".to_owned(), "INTEGER"));
    for (s, t) in [
        ("0.0", "0"),
        ("0.5", "0.5"),
        ("0.1", "0.1"),
        ("1.0", "1"),
        ("10.25", "10.25"),
        ("3.14159265358979", "3.14159265358979"),
        ("123456789.125", "123456789.125"),
        ("2147483648.0", "2147483648"),
        ("99999999999999.5", "99999999999999.5"),
        ("0.000001", "0.000001"),
        ("0.1 + 0.2", "0.30000000000000004"),
        ("1.0 / 3.0", "0.3333333333333333"),
        ("1000000000000000000000.0", "1000000000000000000000"),
    ] {
        v.push((s.to_owned(), format!(" {}", t), "DOUBLE"));
        if s.parse::<f64>().is_ok_and(|d| d > 0.0) {
            v.push((format!("-{}", s), format!("-{}", t), "DOUBLE"));
        }
    }
    for s in ["", "a", "some words", "é→", "12", "-1.5", "x\\ty"] {
        v.push((format!("\"{}\"", s), s.replace("\\t", "t"), "STRING"));
    }
    v.push(("TRUE".to_owned(), "TRUE".to_owned(), "BOOLEAN"));
    v.push(("FALSE".to_owned(), "FALSE".to_owned(), "BOOLEAN"));
    v
}

fn values_section() -> Section {
    let vals = values();
    let n = vals.len();
    let r = [n as u64, 5];
    let desc = vals.clone();
    Section::new(
        "values",
        product(&r),
        move |i| format!("{:?} way {}", desc[mixed(&r, i)[0]], mixed(&r, i)[1]),
        move |i, cx| {
            let d = mixed(&r, i);
            let (e, t, ty) = &vals[d[0]];
            let way = d[1];
            let fail = |what: String| -> CaseResult {
                Err(Failure::new(format!("values: {} as {} way {}", e, ty, way), what))
            };
            let def = format!("DIM v AS {}: v = {}\nDIM w AS {}\n", ty, e, ty);
            let mut m = Mach::scripting(Opts::default());
            let (code, exp) = match way {
                0 => (format!("PRINT {}", e), format!("{}\n", t)),
                1 => (format!("{}PRINT v", def), format!("{}\n", t)),
                2 if *ty != "STRING" => (format!("{}PRINT \"<\" + STR(v) + \">\"", def), format!("<{}>\n", t)),
                3 => {
                    // What was shown can be typed again.
                    let mut c = m.con.borrow_mut();
                    c.keys.extend(t.trim_start().chars().map(Key::Char));
                    c.keys.push_back(Key::NewLine);
                    (format!("{}INPUT w\nIF v = w THEN PRINT \"same\" ELSE PRINT w", def), "same\n".to_owned())
                }
                4 if *ty == "INTEGER" || *ty == "DOUBLE" => (
                    format!("{}w = VAL(STR(v))\nIF v = w THEN PRINT \"same\" ELSE PRINT VAL(STR(v))", def),
                    "same\n".to_owned(),
                ),
                _ => {
                    cx.trivial += 1;
                    return Ok(());
                }
            };
            let o = m.feed(&code);
            if o != Outcome::Done(None) {
                return fail(format!("{}\n{:?}", code, o));
            }
            let got = m.text();
            cx.step(1);
            if got != exp {
                return fail(format!("shows {:?}\nnot   {:?}", got, exp));
            }
            cx.state(&got);
            Ok(())
        },
    )
}

// --- INPUT -----------------------------------------------------------------------------------

const TYPES: [(&str, &str, &str); 4] =
    [("INTEGER", "42", "42%"), ("DOUBLE", "4.5", "4.5#"), ("BOOLEAN", "yes", "true?"), ("STRING", "ok", "ok$")];

/// What typing a line gives.
fn typed_value(ty: &str, line: &str) -> Option<String> {
    let t = line.trim_end();
    match ty {
        "INTEGER" => {
            let digits = t.strip_prefix(['+', '-']).unwrap_or(t);
            if digits.is_empty() || !digits.chars().all(|c| c.is_ascii_digit()) {
                return None;
            }
            let mut v: i64 = 0;
            for c in digits.chars() {
                v = v.checked_mul(10)?.checked_add(c as i64 - '0' as i64)?;
            }
            if t.starts_with('-') {
                v = -v;
            }
            i32::try_from(v).ok().map(|v| format!("{}%", v))
        }
        "DOUBLE" => {
            // [sign] digits [. digits] [e [sign] digits] with digits on one side of the point.
            let s = t.strip_prefix(['+', '-']).unwrap_or(t);
            let (mant, exp) = match s.find(['e', 'E']) {
                Some(i) => (&s[..i], Some(&s[i + 1..])),
                None => (s, None),
            };
            if let Some(e) = exp {
                let e = e.strip_prefix(['+', '-']).unwrap_or(e);
                if e.is_empty() || !e.chars().all(|c| c.is_ascii_digit()) {
                    return None;
                }
            }
            let (a, b) = mant.split_once('.').unwrap_or((mant, ""));
            if a.len() + b.len() == 0 || !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) {
                return None;
            }
            Some(lang::show_double(t.parse::<f64>().unwrap()))
        }
        "BOOLEAN" => match t.to_uppercase().as_str() {
            "TRUE" | "YES" | "Y" => Some("true?".to_owned()),
            "FALSE" | "NO" | "N" => Some("false?".to_owned()),
            _ => None,
        },
        _ => Some(format!("{}$", t)),
    }
}

const NUMBER_CHARS: [char; 11] = ['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', 'x', 'é'];
const WORD_CHARS: [char; 9] = ['y', 'Y', 'e', 's', 'n', 'o', ' ', '1', '"'];
const LONG_LINES: [&str; 22] = [
    "2147483647",
    "2147483648",
    "-2147483648",
    "-2147483649",
    "0000000000001",
    "99999999999999999999999",
    "true",
    "TrUe",
    "TRUE ",
    " true",
    "false",
    "FALSE",
    "falsee",
    "fals",
    "tru",
    "yes no",
    "1e400",
    "1e-400",
    "123456789.125",
    "a longer line, with \"quotes\" and commas",
    "  spaces around  ",
    "¡ñandú → 😀!",
];

/// Prompts: source, text.
const PROMPTS: [(&str, &str); 8] = [
    ("v", ""),
    ("; v", "? "),
    (", v", ""),
    ("\"Name\"; v", "Name? "),
    ("\"Name\", v", "Name"),
    ("\"\"; v", "? "),
    ("p, v", "dynamic"),
    ("p; v", "dynamic? "),
];

fn input_case(name: &str, ty: usize, line: &str, prompt: usize, interactive: bool, cx: &mut crate::engine::Cx) -> CaseResult {
    let (ty, good, good_value) = TYPES[ty];
    let (psrc, ptext) = PROMPTS[prompt];
    let fail = |what: String| -> CaseResult {
        Err(Failure::new(format!("{}: {} {:?} INPUT {} interactive {}", name, ty, line, psrc, interactive), what))
    };
    let exp = typed_value(ty, line);
    let mut m = Mach::scripting(Opts { size: (100, 20), interactive, ..Opts::default() });
    {
        let mut c = m.con.borrow_mut();
        c.end_key = None;
        c.keys.extend(line.chars().map(Key::Char));
        c.keys.push_back(Key::NewLine);
        if interactive {
            // The answer that was not good is there to be corrected.
            for _ in line.chars() {
                c.keys.push_back(Key::Backspace);
            }
        }
        c.keys.extend(good.chars().map(Key::Char));
        c.keys.push_back(Key::NewLine);
    }
    let o = m.feed(&format!("DIM v AS {}\nDIM p AS STRING: p = \"dynamic\"\nINPUT {}\nOUT v", ty, psrc));
    if o != Outcome::Done(None) {
        return fail(format!("{:?}", o));
    }
    let c = m.con.borrow();
    let text = c.text();
    let retried = c.log.iter().any(|e| matches!(e, Ev::Print(t) if t.starts_with("Retry input")));
    let rows: Vec<String> = (0..c.h).map(|y| c.row(y)).filter(|r| !r.is_empty()).collect();
    let left = c.keys.len();
    drop(c);
    let out = m.out();
    cx.step(1);
    let want = exp.clone().unwrap_or(good_value.to_owned());
    if out != [want.clone()] {
        return fail(format!("assigns {:?}\nnot     {:?}", out, want));
    }
    if retried != exp.is_none() {
        return fail(format!("asks again: {}", retried));
    }
    let unread = good.chars().count() + 1 + if interactive { line.chars().count() } else { 0 };
    if left != if exp.is_some() { unread } else { 0 } {
        return fail(format!("leaves {} keys", left));
    }
    if interactive {
        let first = format!("{}{}", ptext, line).trim_end().to_owned();
        let mut want = vec![];
        if !first.is_empty() {
            want.push(first);
        }
        if exp.is_none() {
            let msg = rows.iter().find(|r| r.starts_with("Retry input")).cloned().unwrap_or_default();
            want.push(msg);
            want.push(format!("{}{}", ptext, good).trim_end().to_owned());
        }
        if rows != want {
            return fail(format!("screen {:?}\nnot    {:?}", rows, want));
        }
    } else if exp.is_some() && !text.is_empty() {
        return fail(format!("printed {:?}", text));
    }
    cx.state(&(&out, retried, prompt));
    Ok(())
}

fn typed(name: &'static str, chars: &'static [char], max: u32, types: &'static [usize], interactive: bool) -> Section {
    let k = chars.len() as u64;
    let r = [types.len() as u64, seq_count(k, 0, max)];
    let line = move |i: u64| -> String { seq_decode(k, 0, i).iter().map(|c| chars[*c]).collect() };
    Section::new(
        name,
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{} {:?}", TYPES[types[d[0]]].0, line(d[1] as u64))
        },
        move |i, cx| {
            let d = mixed(&r, i);
            input_case(name, types[d[0]], &line(d[1] as u64), 0, interactive, cx)
        },
    )
}

fn prompts() -> Section {
    let r = [4, LONG_LINES.len() as u64, PROMPTS.len() as u64, 2];
    Section::new(
        "prompts",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            input_case("prompts", d[0], LONG_LINES[d[1]], d[2], d[3] == 1, cx)
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        items(tier.pick(4, 6)),
        long_items(tier.pick(300, 700)),
        values_section(),
        typed("numbers", &NUMBER_CHARS, tier.pick(4, 6), &[0, 1, 3], false),
        typed("words", &WORD_CHARS, tier.pick(4, 6), &[2, 3], false),
        typed("corrections", &NUMBER_CHARS, tier.pick(2, 3), &[0, 1, 2, 3], true),
        prompts(),
    ]
}
