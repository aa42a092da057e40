//! S05: string functions work on characters and follow their documentation for every string and position.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang;
use crate::machx::{Mach, Opts, Outcome};

pub fn property() -> Property {
    Property {
        id: "S05",
        rule: "Strings: every string function on all strings of up to 3 (thorough: 5) characters over 9 of 1 to 4 \
               bytes, of both cases and spaces, with every count and position from -2 to beyond the end and huge \
               ones. Searches: all strings of up to 5 (thorough: 7) characters with all needles of up to 3 over 3 \
               characters from every start. Codes: every code point. Numbers: all strings of up to 5 (thorough: 7) \
               characters of the numeric alphabet.",
        assumptions: &["case mapping and the value of a floating point literal are those of Rust's library"],
        sections,
    }
}

const CHARS: [char; 9] = ['a', 'Z', '5', ' ', '\t', 'é', 'ß', '한', '😀'];

fn quote(s: &str) -> String {
    let mut t = "\"".to_owned();
    for c in s.chars() {
        if c == '"' || c == '\\' {
            t.push('\\');
        }
        t.push(c);
    }
    t.push('"');
    t
}

/// Evaluates expressions, all in one program; None for those that fail.
fn eval(m: &mut Mach, exprs: &[String]) -> Result<Vec<Option<String>>, String> {
    // Whatever is not set must not happen to be one of the strings of interest.
    let mut code = "unrelated = \"zz\"\nON ERROR RESUME NEXT\n".to_owned();
    for (i, e) in exprs.iter().enumerate() {
        code.push_str(&format!("OUT {}; {}\n", i, e));
    }
    let o = m.feed(&code);
    if o != Outcome::Done(None) {
        return Err(format!("{:?}", o));
    }
    let mut r = vec![None; exprs.len()];
    for l in m.out() {
        let (i, v) = l.split_once("% ").unwrap();
        r[i.parse::<usize>().unwrap()] = Some(v.to_owned());
    }
    Ok(r)
}

fn compare(name: &str, m: &mut Mach, cases: Vec<(String, Option<String>)>, cx: &mut Cx) -> CaseResult {
    // Bound the size of the programs.
    for chunk in cases.chunks(200) {
        let exprs: Vec<String> = chunk.iter().map(|c| c.0.clone()).collect();
        let got = match eval(m, &exprs) {
            Ok(g) => g,
            Err(e) => return Err(Failure::new(format!("{}: {:?}...", name, exprs[0]), e)),
        };
        m.m.clear();
        for ((e, exp), got) in chunk.iter().zip(got) {
            cx.step(1);
            if got != *exp {
                let show = |v: &Option<String>| v.clone().unwrap_or("an error".to_owned());
                return Err(Failure::new(format!("{}: {}", name, e), format!("{}\nis  {}\nnot {}", e, show(&got), show(exp))));
            }
        }
    }
    Ok(())
}

fn text(v: impl AsRef<str>) -> Option<String> {
    Some(format!("{}$", v.as_ref()))
}

fn sub(c: &[char], from: usize, n: usize) -> String {
    c.iter().skip(from).take(n).collect()
}

const SPACES: [char; 2] = [' ', '\t'];

fn strings(max: u32) -> Section {
    let k = CHARS.len() as u64;
    let s_of = move |i: u64| -> String { seq_decode(k, 0, i).iter().map(|c| CHARS[*c]).collect() };
    Section::new(
        "strings",
        seq_count(k, 0, max),
        move |i| format!("{:?}", s_of(i)),
        move |i, cx| {
            let s = s_of(i);
            let q = quote(&s);
            let c: Vec<char> = s.chars().collect();
            let len = c.len() as i32;
            let mut cases = vec![
                (format!("LEN({})", q), Some(format!("{}%", len))),
                (format!("LTRIM({})", q), text(s.trim_start_matches(SPACES))),
                (format!("RTRIM({})", q), text(s.trim_end_matches(SPACES))),
                (format!("TRIM({})", q), text(s.trim_matches(SPACES))),
                (format!("UCASE({})", q), text(s.to_uppercase())),
                (format!("LCASE({})", q), text(s.to_lowercase())),
                (format!("STR({})", q), text(&s)),
                (
                    format!("ASC({})", q),
                    if len == 1 { Some(format!("{}%", c[0] as u32)) } else { None },
                ),
                (format!("LEFT({}, 1.6)", q), text(sub(&c, 0, 2))),
                (format!("LEFT({0}, 1) + MID({0}, 1)", q), text(&s)),
            ];
            for n in (-2..=len + 2).chain([255, 256, 65536, i32::MAX]) {
                let m = n.max(0) as usize;
                let ok = |v: String| if n < 0 { None } else { text(v) };
                cases.push((format!("LEFT({}, {})", q, n), ok(sub(&c, 0, m))));
                cases.push((format!("RIGHT({}, {})", q, n), ok(sub(&c, c.len().saturating_sub(m), m))));
                cases.push((format!("MID({}, {})", q, n), ok(sub(&c, m, c.len()))));
                for l in (-1..=len + 1).chain([i32::MAX]) {
                    let v = if l < 0 { None } else { ok(sub(&c, m, l as usize)) };
                    cases.push((format!("MID({}, {}, {})", q, n, l), v));
                }
                for needle in ["", "a", "é", "한", " "] {
                    let v = if n <= 0 {
                        None
                    } else if m > c.len() + 1 {
                        Some("0%".to_owned())
                    } else {
                        let nd: Vec<char> = needle.chars().collect();
                        let p = (m - 1..=c.len()).find(|p| c[*p..].starts_with(&nd)).map_or(0, |p| p + 1);
                        Some(format!("{}%", p))
                    };
                    cases.push((format!("INSTR({}, {}, \"{}\")", n, q, needle), v));
                }
            }
            cx.state(&s);
            let mut m = Mach::scripting(Opts::default());
            compare("strings", &mut m, cases, cx)
        },
    )
}

const NEEDLES: [char; 3] = ['a', 'b', 'é'];

fn searches(max: u32) -> Section {
    let k = NEEDLES.len() as u64;
    let s_of = move |i: u64| -> String { seq_decode(k, 0, i).iter().map(|c| NEEDLES[*c]).collect() };
    Section::new(
        "searches",
        seq_count(k, 0, max),
        move |i| format!("{:?}", s_of(i)),
        move |i, cx| {
            let s = s_of(i);
            let c: Vec<char> = s.chars().collect();
            let mut cases = vec![];
            for j in 0..seq_count(k, 0, 3) {
                let needle = s_of(j);
                let nd: Vec<char> = needle.chars().collect();
                let find = |from: usize| {
                    let p = (from..=c.len()).find(|p| c[*p..].starts_with(&nd)).map_or(0, |p| p + 1);
                    Some(format!("{}%", p))
                };
                cases.push((format!("INSTR(\"{}\", \"{}\")", s, needle), find(0)));
                for from in 1..=c.len() + 1 {
                    cases.push((format!("INSTR({}, \"{}\", \"{}\")", from, s, needle), find(from - 1)));
                }
            }
            cx.state(&s);
            let mut m = Mach::scripting(Opts::default());
            compare("searches", &mut m, cases, cx)
        },
    )
}

fn codes() -> Section {
    // A block of codes in each case.
    const BLOCK: i64 = 256;
    let first: i64 = -BLOCK;
    let n = (0x110000 + 3 * BLOCK) / BLOCK;
    Section::new(
        "codes",
        n as u64,
        move |i| format!("codes from {}", first + i as i64 * BLOCK),
        move |i, cx| {
            let mut cases = vec![];
            for code in first + i as i64 * BLOCK..first + (i as i64 + 1) * BLOCK {
                let ch = u32::try_from(code).ok().and_then(char::from_u32);
                cases.push((format!("ASC(CHR({}))", code), ch.map(|c| format!("{}%", c as u32))));
                cases.push((format!("LEN(\"a\" + CHR({}) + \"b\")", code), ch.map(|_| "3%".to_owned())));
                if let Some(c) = ch
                    && !c.is_control()
                    && c != '"'
                    && c != '\\'
                {
                    cases.push((format!("CHR({}) = \"{}\"", code, c), Some("true?".to_owned())));
                    cases.push((format!("ASC(\"{}\")", c), Some(format!("{}%", code))));
                }
            }
            cx.state(&i);
            let mut m = Mach::scripting(Opts::default());
            compare("codes", &mut m, cases, cx)
        },
    )
}

const NUMERIC: [char; 10] = ['0', '7', '.', '-', '+', 'e', 'E', ' ', 'x', 'é'];

/// The longest prefix that is a number.
fn numeric_prefix(s: &str) -> f64 {
    let c: Vec<char> = s.trim_start_matches(' ').chars().collect();
    let mut best = None;
    for n in 1..=c.len() {
        let t: String = c[..n].iter().collect();
        if is_number(&t) {
            best = Some(t);
        }
    }
    best.map_or(0.0, |t| t.parse().unwrap())
}

fn is_number(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = |d: &str| d.chars().all(|c| c.is_ascii_digit());
    if !digits(a) || !digits(b) || a.len() + b.len() == 0 {
        return false;
    }
    e.is_none_or(|e| {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        !e.is_empty() && digits(e)
    })
}

fn numbers(max: u32) -> Section {
    // All strings with the same beginning in each case.
    let k = NUMERIC.len() as u64;
    let s_of = move |i: u64| -> String { seq_decode(k, 0, i).iter().map(|c| NUMERIC[*c]).collect() };
    Section::new(
        "numbers",
        seq_count(k, 0, max - 1),
        move |i| format!("{:?}...", s_of(i)),
        move |i, cx| {
            let s = s_of(i);
            let mut cases = vec![];
            for c in NUMERIC.iter().map(|c| c.to_string()).chain(["".to_owned()]) {
                let t = format!("{}{}", s, c);
                cases.push((format!("VAL(\"{}\")", t), Some(lang::show_double(numeric_prefix(&t)))));
            }
            cx.state(&s);
            let mut m = Mach::scripting(Opts::default());
            compare("numbers", &mut m, cases, cx)
        },
    )
}

fn others() -> Section {
    let lens = [0i32, 1, 2, 13, 255, 256, 257, 1000, 65535, 65536, 100000];
    let r = [lens.len() as u64];
    Section::new(
        "lengths",
        product(&r),
        move |i| format!("{}", lens[i as usize]),
        move |i, cx| {
            let n = lens[mixed(&r, i)[0]];
            let mut cases = vec![
                (format!("LEN(SPACE({}))", n), Some(format!("{}%", n))),
                (format!("LEN(TRIM(SPACE({})))", n), Some("0%".to_owned())),
                (format!("LEN(TRIM(\"x\" + SPACE({}) + \"x\"))", n), Some(format!("{}%", n + 2))),
                (format!("LEN(LTRIM(SPACE({}) + \"é\"))", n), Some("1%".to_owned())),
                (format!("INSTR(SPACE({}) + \"é\", \"é\")", n), Some(format!("{}%", n + 1))),
                (format!("LEN(RIGHT(SPACE({}) + \"é\", 2))", n), Some(format!("{}%", 2.min(n + 1)))),
            ];
            if n > 0 {
                cases.push((format!("SPACE({})", -n), None));
            }
            if n < 50 {
                cases.push((format!("SPACE({})", n), text(" ".repeat(n as usize))));
            }
            cx.state(&n);
            let mut m = Mach::scripting(Opts::default());
            compare("lengths", &mut m, cases, cx)
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![strings(tier.pick(3, 5)), searches(tier.pick(5, 7)), codes(), numbers(tier.pick(5, 7)), others()]
}
