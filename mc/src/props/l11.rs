//! L11: the text of a program is taken apart into the words, literals and lines that it spells.

use crate::corex::{self, Stop, with_env};
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang::show_double;
use endbasic_core::*;
use std::io;

pub fn property() -> Property {
    Property {
        id: "L11",
        rule: "Literals: all words of up to 5 (thorough: 7) characters over 14 that occur in numbers, and the values \
               around every power of 2 and of 10 in every base with every spelling, and decimals of up to 4 \
               digits with every scale. Strings and comments: all texts of up to 5 (thorough: 7) pieces out of \
               11 after an opening quote. Operators: all runs of up to 5 (thorough: 7) of 9 operator characters and \
               spaces between two numbers. Names: all words of up to 4 (thorough: 6) characters over 9, and all \
               pairs of names of up to 3 characters as variables and as labels. Layout: 14 programs that use every \
               keyword, with every variation of each gap and line end, of each pair of them, and of the case of \
               each word. Characters: every Unicode character in a string and in a comment. Sources: every way to \
               deliver a text in up to 3 reads, a fault at each read and a broken character at each position.",
        assumptions: &["names consist of ASCII letters, digits and underscores", "doubles stay far from overflow"],
        sections,
    }
}

/// What a program has to do: outputs, or rejection before anything runs.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Reject,
    Out(Vec<String>),
    /// Fails when run.
    Fails,
}

fn check(text: &str, want: &Want, cx: &mut Cx) -> CaseResult {
    cx.step(1);
    cx.traces += 1;
    cx.state(&text);
    let r = with_env(|env| corex::run(env, text, &[], Default::default(), 200));
    judge(text, &r.stop, &r.out, want, cx)
}

fn judge(text: &str, stop: &Stop, out: &[String], want: &Want, cx: &mut Cx) -> CaseResult {
    let ok = match want {
        Want::Reject => {
            cx.count("rejected");
            matches!(stop, Stop::Compile(..)) && out.is_empty()
        }
        Want::Out(o) => {
            cx.count("accepted");
            (*stop == Stop::Eof || *stop == Stop::End(0)) && out == &o[..]
        }
        Want::Fails => matches!(stop, Stop::Err(..)) && out.is_empty(),
    };
    match ok {
        true => Ok(()),
        false => Err(Failure::new(
            format!("l11: {:?}", text),
            format!("program {:?}\nexpected {:?}\nactual   {:?}, output {:?}", text, want, stop, out),
        )),
    }
}

// --- Numbers ---------------------------------------------------------------------------------

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r')
}

/// The value that a literal shows, if it is one.
fn literal(t: &str) -> Option<String> {
    let t = t.trim_matches(is_space);
    if !t.is_ascii() {
        return None;
    }
    let b = t.as_bytes();
    let digits = |s: &[u8]| !s.is_empty() && s.iter().all(|c| c.is_ascii_digit());
    if digits(b) {
        let mut v: u64 = 0;
        for c in b {
            v = v * 10 + u64::from(c - b'0');
            if v > 0x7fff_ffff {
                return None;
            }
        }
        return Some(format!("{}%", v));
    }
    if let Some(dot) = b.iter().position(|c| *c == b'.') {
        let (int, frac) = (&b[..dot], &b[dot + 1..]);
        if !digits(int) || !digits(frac) {
            return None;
        }
        // Both numbers are exact, hence the quotient is rounded once.
        let mut m: u64 = 0;
        let mut d: f64 = 1.0;
        for c in int {
            m = m.checked_mul(10).unwrap() + u64::from(c - b'0');
        }
        for c in frac {
            m = m.checked_mul(10).unwrap() + u64::from(c - b'0');
            d *= 10.0;
        }
        assert!(m < 1 << 53 && frac.len() <= 22);
        return Some(show_double(m as f64 / d));
    }
    if b.first() == Some(&b'&') && b.len() >= 3 {
        let base = match b[1].to_ascii_lowercase() {
            b'b' => 2,
            b'o' => 8,
            b'd' => 10,
            b'x' => 16,
            _ => return None,
        };
        let s = if b[2] == b'_' { &b[3..] } else { &b[2..] };
        if s.is_empty() {
            return None;
        }
        let mut v: u64 = 0;
        for c in s {
            let n = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            if n >= base {
                return None;
            }
            v = v * u64::from(base) + u64::from(n);
            if v > 0xffff_ffff {
                return None;
            }
        }
        return Some(format!("{}%", v as u32 as i32));
    }
    None
}

fn want_literal(t: &str) -> Want {
    match literal(t) {
        Some(v) => Want::Out(vec![v]),
        None => Want::Reject,
    }
}

const NUM: [char; 14] = ['0', '1', '8', '9', '.', '&', 'b', 'X', 'd', 'o', '_', 'a', 'F', ' '];

fn num_text(i: u64) -> String {
    seq_decode(14, 1, i).into_iter().map(|c| NUM[c]).collect()
}

fn boundary_values() -> Vec<u64> {
    let mut v: Vec<u64> = (0..300).collect();
    for k in 8..35 {
        for d in -2i64..=2 {
            v.push(((1i64 << k) + d) as u64);
        }
    }
    for k in 3..12 {
        for d in -2i64..=2 {
            v.push((10i64.pow(k) + d) as u64);
        }
    }
    v.push(0x1234_5678);
    v.push(0x9abc_def0);
    v.push(0xfedc_ba98);
    v
}

/// Spellings of each value: 0 is plain decimal, then each base with each letter case and underscore.
const SPELLINGS: u64 = 1 + 4 * 4;
const ZEROS: [usize; 5] = [0, 1, 2, 11, 40];

fn boundary_text(v: u64, sp: u64, zeros: usize, upper: bool) -> String {
    let z = "0".repeat(zeros);
    if sp == 0 {
        return format!("{}{}", z, v);
    }
    let sp = sp - 1;
    let (base, letter) = [(2, 'b'), (8, 'o'), (10, 'd'), (16, 'x')][(sp / 4) as usize];
    let letter = if sp & 1 != 0 { letter.to_ascii_uppercase() } else { letter };
    let under = if sp & 2 != 0 { "_" } else { "" };
    let d = match base {
        2 => format!("{:b}", v),
        8 => format!("{:o}", v),
        10 => format!("{}", v),
        _ if upper => format!("{:X}", v),
        _ => format!("{:x}", v),
    };
    format!("&{}{}{}{}", letter, under, z, d)
}

// --- Strings and comments --------------------------------------------------------------------

const PIECES: [&str; 11] = ["a", "\"", "\\", "'", ":", "\n", ";", "é", " ", "OUT \"x\"", "REM"];

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Text(String),
    Word(String),
    Semi,
    Eol,
    Bad,
}

/// Takes a text apart; only what the pieces can spell is understood.
fn tokens(text: &str) -> Vec<Tok> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let skip_line = |mut i: usize| {
        while i < c.len() && c[i] != '\n' {
            i += 1;
        }
        i
    };
    while i < c.len() {
        let ch = c[i];
        i += 1;
        match ch {
            ' ' => (),
            '\n' | ':' => out.push(Tok::Eol),
            ';' => out.push(Tok::Semi),
            '\'' => i = skip_line(i),
            '"' => {
                let mut s = String::new();
                loop {
                    if i >= c.len() {
                        out.push(Tok::Bad);
                        break;
                    }
                    let ch = c[i];
                    i += 1;
                    if ch == '"' {
                        out.push(Tok::Text(s));
                        break;
                    }
                    if ch == '\\' {
                        if i < c.len() {
                            s.push(c[i]);
                            i += 1;
                        }
                    } else {
                        s.push(ch);
                    }
                }
            }
            ch if ch.is_alphanumeric() => {
                let mut s = ch.to_string();
                while i < c.len() && c[i].is_alphanumeric() {
                    s.push(c[i]);
                    i += 1;
                }
                if i < c.len() && (c[i] == '"' || c[i] == '\\') {
                    out.push(Tok::Bad);
                } else if s == "REM" {
                    i = skip_line(i);
                } else {
                    out.push(Tok::Word(s));
                }
            }
            _ => out.push(Tok::Bad),
        }
    }
    out
}

fn want_text(text: &str) -> Want {
    let mut out = vec![];
    let toks = tokens(text);
    if toks.contains(&Tok::Bad) {
        return Want::Reject;
    }
    for stmt in toks.split(|t| *t == Tok::Eol) {
        if stmt.is_empty() {
            continue;
        }
        if stmt[0] != Tok::Word("OUT".to_owned()) {
            return Want::Reject;
        }
        let args = &stmt[1..];
        let mut line = vec![];
        if !args.is_empty() {
            for arg in args.split(|t| *t == Tok::Semi) {
                match arg {
                    [Tok::Text(s)] => line.push(format!("{}$", s)),
                    _ => return Want::Reject,
                }
            }
        }
        out.push(line.join(" "));
    }
    Want::Out(out)
}

fn string_text(i: u64) -> String {
    let mut t = "OUT \"".to_owned();
    for p in seq_decode(11, 0, i) {
        t.push_str(PIECES[p]);
    }
    t
}

// --- Operators -------------------------------------------------------------------------------

const OPS: [char; 9] = ['<', '>', '=', '-', '+', '*', '/', ' ', '\t'];

fn want_ops(s: &str) -> Want {
    let c: Vec<char> = s.chars().collect();
    let mut toks: Vec<String> = vec![];
    let mut i = 0;
    while i < c.len() {
        if is_space(c[i]) {
            i += 1;
            continue;
        }
        let two: String = c[i..(i + 2).min(c.len())].iter().collect();
        if ["<>", "<=", "<<", ">=", ">>"].contains(&two.as_str()) {
            toks.push(two);
            i += 2;
        } else {
            toks.push(c[i].to_string());
            i += 1;
        }
    }
    if toks.is_empty() || toks[1..].iter().any(|t| t != "-") {
        return Want::Reject;
    }
    let b: i32 = if toks.len() % 2 == 1 { 3 } else { -3 };
    let int = |v: i32| format!("{}%", v);
    let bool = |v: bool| format!("{}?", v);
    Want::Out(vec![match toks[0].as_str() {
        "<<" | ">>" if b < 0 => return Want::Fails,
        "<<" => int(6 << b),
        ">>" => int(6 >> b),
        "<" => bool(6 < b),
        "<=" => bool(6 <= b),
        ">" => bool(6 > b),
        ">=" => bool(6 >= b),
        "=" => bool(6 == b),
        "<>" => bool(6 != b),
        "-" => int(6 - b),
        "+" => int(6 + b),
        "*" => int(6 * b),
        _ => int(6 / b),
    }])
}

// --- Names -----------------------------------------------------------------------------------

const NAME: [char; 9] = ['a', 'Z', '_', '7', '%', '$', '?', '#', '.'];

fn want_name(w: &str) -> (String, Want) {
    let b = w.as_bytes();
    let last = b[b.len() - 1];
    let (value, show, body) = match last {
        b'$' => ("\"x\"", "x$", &b[..b.len() - 1]),
        b'%' => ("7", "7%", &b[..b.len() - 1]),
        b'?' => ("TRUE", "true?", &b[..b.len() - 1]),
        b'#' => ("1.5", "1.5#", &b[..b.len() - 1]),
        _ => ("7", "7%", b),
    };
    let text = format!("{} = {}\nOUT {}", w, value, w);
    let ok = !body.is_empty()
        && !body[0].is_ascii_digit()
        && body.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_');
    (text, if ok { Want::Out(vec![show.to_owned()]) } else { Want::Reject })
}

const PAIR: [char; 5] = ['a', 'A', 'b', '_', '1'];

fn pair_names() -> Vec<String> {
    (0..seq_count(5, 1, 3))
        .map(|i| seq_decode(5, 1, i).into_iter().map(|c| PAIR[c]).collect::<String>())
        .filter(|s| !s.starts_with('1'))
        .collect()
}

fn pair_text(a: &str, b: &str, kind: usize) -> (String, Want) {
    let same = a.eq_ignore_ascii_case(b);
    let out = |s: &str| Want::Out(vec![s.to_owned()]);
    match kind {
        0 => (format!("{} = 7\n{} = 8\nOUT {}", a, b, a), out(if same { "8%" } else { "7%" })),
        1 => (format!("{} = 7\n{}% = 8\nOUT {}%", a, b, a), out(if same { "8%" } else { "7%" })),
        2 => (
            format!("DIM {}(2) AS STRING\n{}(1) = \"q\"\nOUT {}(1)", a, b, a),
            if same { out("q$") } else { Want::Reject },
        ),
        3 => (
            format!("GOTO @{}\nOUT 1\n@{}\nOUT 2", a, b),
            if same { out("2%") } else { Want::Reject },
        ),
        4 => (
            format!("SUB {}\nOUT 5\nEND SUB\n{}", a, b),
            if same { out("5%") } else { Want::Reject },
        ),
        _ => (
            format!("FUNCTION {}%(p%)\n{}% = p% + 1\nEND FUNCTION\nOUT {}(2)", a, b, a),
            if same { out("3%") } else { out("0%") },
        ),
    }
}

// --- Layout ----------------------------------------------------------------------------------

/// Programs with a space between any two words, and what they output.
const PROGRAMS: [(&str, &[&str]); 14] = [
    ("a = 1 + 2 * 3 - ( 4 / 2 ) ^ 2 MOD 3\nOUT a ; a <= 7 ; a <> 6 ; \"x'y:z\" ; NOT a > 2", &["6% true? false? x'y:z$ false?"]),
    (
        "a% = 0\nIF a% = 0 THEN\nOUT 1\nELSEIF TRUE THEN\nOUT 2\nELSE\nOUT 3\nEND IF\nOUT 4",
        &["1%", "4%"],
    ),
    ("b = FALSE\nIF NOT b AND TRUE THEN OUT 1 ELSE OUT 2\nIF b XOR TRUE OR b THEN OUT 3", &["1%", "3%"]),
    ("FOR i = 10 TO 1 STEP - 4\nOUT i\nNEXT\nFOR j% = 1 TO 5\nIF j = 2 THEN EXIT FOR\nOUT j\nNEXT", &["10%", "6%", "2%", "1%"]),
    ("DIM n AS INTEGER\nWHILE n% < 3\nn = n + 1\nOUT n << 1 ; n >> 1\nWEND", &["2% 0%", "4% 1%", "6% 1%"]),
    (
        "n% = 0\nDO UNTIL n% = 2\nn = n + 1\nOUT n\nLOOP\nDO\nn = n - 1\nIF n = 0 THEN EXIT DO\nLOOP WHILE n > 0\nOUT n",
        &["1%", "2%", "0%"],
    ),
    (
        "FOR i = 1 TO 4\nSELECT CASE i\nCASE 1 , 9\nOUT \"a\"\nCASE IS >= 4\nOUT \"b\"\nCASE 2 TO 2\nOUT \"c\"\nCASE ELSE\nOUT \"d\"\nEND SELECT\nNEXT",
        &["a$", "c$", "d$", "b$"],
    ),
    (
        "DECLARE FUNCTION dbl# ( x# )\nSUB show ( s$ , n AS INTEGER )\nIF n = 0 THEN EXIT SUB\nOUT s ; n\nEND SUB\nFUNCTION dbl# ( x# )\ndbl = x * 2.0\nEXIT FUNCTION\nEND FUNCTION\nshow \"p\" , 3\nshow \"q\" , 0\nOUT dbl ( 1.25 )",
        &["p$ 3%", "2.5#"],
    ),
    (
        "DIM SHARED g AS INTEGER\nDIM x AS BOOLEAN\nDIM d AS DOUBLE\nDIM s AS STRING\nDIM m ( 2 , 3 ) AS INTEGER\nm ( 1 , 2 ) = 5\nOUT g ; x ; d ; s ; m ( 1 , 2 ) ; m ( 0 , 0 )",
        &["0% false? 0.0# $ 5% 0%"],
    ),
    ("n = 0\nGOTO @main\n@inc\nn% = n% + 1\nRETURN\n@main\nGOSUB @inc\nGOSUB @inc\nOUT n", &["2%"]),
    ("ON ERROR GOTO @h\nFAIL\nOUT 1\n@h\nOUT 2\nON ERROR GOTO 0\nOUT 3", &["2%", "3%"]),
    ("ON ERROR RESUME NEXT\nFAIL\nOUT 1\nFAIL\nOUT &x_1F ; &b101 ; &o_17 ; 1.5 ; - 2", &["1%", "31% 5% 15% 1.5# -2%"]),
    ("DATA 1 , 2.5 , \"x\" , TRUE\nn% = 2\n10 OUT n\nn = n - 1\nIF n > 0 THEN GOTO 10\nEND\nOUT 9", &["2%", "1%"]),
    ("SUB t\nOUT 1\nEND SUB\nt\nDO\nt\nLOOP UNTIL TRUE\nDO WHILE FALSE\nOUT 9\nLOOP", &["1%", "1%"]),
];

/// A program as words and the gaps before each of them, plus the one at the end.
struct Laid {
    words: Vec<String>,
    gaps: Vec<&'static [&'static str]>,
}

const FIRST: [&str; 9] =
    ["", " ", "\t", "\r", "\n", ":", "#!x OUT 9 : OUT 9\n", "' OUT 9\n", "REM OUT 9 : OUT 9\n"];
const LAST: [&str; 8] = ["", " ", "\n", "\r\n", ":", "' \"x", " REM 'x\n", "\t\t\n\n"];
const MUST: [&str; 4] = [" ", "  ", "\t", "\r \t"];
const MAY: [&str; 4] = [" ", "", "\t", " \r"];
const LINE: [&str; 12] = [
    "\n", ":", " : ", "\r\n", "\n\n", "\n \t", "'x\n", " REM \"x : OUT 9\n", " ' OUT 9 : OUT 9\r\n", "\t:\t", "::",
    " '\n'\n:\nREM\n",
];

fn word_end(a: &str) -> bool {
    let c = a.chars().last().unwrap();
    c.is_alphanumeric() || "_?#%$\"".contains(c)
}
fn word_start(b: &str) -> bool {
    let c = b.chars().next().unwrap();
    c.is_alphanumeric() || "_\"@&".contains(c)
}

fn lay(p: &str) -> Laid {
    let mut words = vec![];
    let mut gaps: Vec<&'static [&'static str]> = vec![&FIRST];
    for line in p.split('\n') {
        for (i, w) in line.split(' ').enumerate() {
            if !words.is_empty() {
                let last: &String = words.last().unwrap();
                gaps.push(if i == 0 {
                    &LINE
                } else if word_end(last) && word_start(w) {
                    &MUST
                } else {
                    &MAY
                });
            }
            words.push(w.to_owned());
        }
    }
    gaps.push(&LAST);
    Laid { words, gaps }
}

impl Laid {
    fn text(&self, changed: &[(usize, usize)]) -> String {
        let mut t = String::new();
        for (i, g) in self.gaps.iter().enumerate() {
            let v = changed.iter().find(|c| c.0 == i).map(|c| c.1).unwrap_or(0);
            t.push_str(g[v]);
            if i < self.words.len() {
                t.push_str(&self.words[i]);
            }
        }
        t
    }
    /// All single variations.
    fn variations(&self) -> Vec<(usize, usize)> {
        (0..self.gaps.len()).flat_map(|i| (1..self.gaps[i].len()).map(move |v| (i, v))).collect()
    }
}

fn recase(w: &str, mask: u64) -> String {
    let mut n = 0;
    w.chars()
        .map(|c| {
            if c.is_ascii_alphabetic() {
                n += 1;
                if mask >> (n - 1) & 1 != 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }
            } else {
                c
            }
        })
        .collect()
}

fn want_program(p: usize) -> Want {
    Want::Out(PROGRAMS[p].1.iter().map(|s| (*s).to_owned()).collect())
}

// --- Sources ---------------------------------------------------------------------------------

/// Delivers a text in chunks that end at the given positions, and then maybe fails.
struct Chunks<'a> {
    text: &'a [u8],
    cuts: Vec<usize>,
    pos: usize,
    fail_at: Option<usize>,
    interrupt: bool,
}

impl io::Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fail_at == Some(self.pos) {
            return Err(io::Error::other("broken source"));
        }
        if self.interrupt {
            self.interrupt = false;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.interrupt = true;
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.text.len());
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.text[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// The texts that are cut short: those of the other sections and some with all kinds of tokens.
fn unreadable() -> Vec<String> {
    let mut all = vec![SOURCE.to_owned()];
    all.extend(PROGRAMS.iter().map(|p| p.0.to_owned()));
    all.extend(
        [
            "#!/usr/bin/env endbasic\nOUT 1",
            "OUT 1.5;10.25;.5;5.;1.5e3;1e+2;&b1_01;&o_17;&d9;&xff;&h_1;&b;&2;12z;1.2.3;1..2",
            "OUT 1<2;1<<2;1<=2;1<>2;1>2;1>>2;1>=2;1=2;1^2",
            "@label: @1: @: @a$b",
            "x$=\"a\\\"b\\\\c\": y#=-1.5: z?=NOT TRUE: w%=1",
            "OUT \"never ends",
            "a!b: $: é: ½ x: 7é",
            "'",
            "REM",
            "REMx: x'y",
        ]
        .map(str::to_owned),
    );
    all
}

fn run_from(r: &mut dyn io::Read) -> (Stop, Vec<String>) {
    with_env(|env| {
        env.reset(&[], 200);
        let mut vm = Vm::new_with_limits(env.upcalls.clone(), Default::default());
        let mut image = Image::default();
        let mut y = 0;
        let stop = match Compiler::new(&env.upcalls, &[]) {
            Err(e) => Stop::Compile(e.pos(), e.message_without_pos()),
            Ok(mut c) => match c.compile_more(&mut image, r) {
                Err(e) => Stop::Compile(e.pos(), e.message_without_pos()),
                Ok(()) => corex::drive(&mut vm, &image, 1000, &mut y),
            },
        };
        let out = std::mem::take(&mut env.state.borrow_mut().out);
        (stop, out)
    })
}

const SOURCE: &str = "OUT \"é훌\\\"😀\" ' ¿\nIF 1 <= 2 THEN\r\n OUT &x_1f; 1.25\nEND IF: OUT \"a\nb\"\nREM €";

fn want_source() -> Want {
    Want::Out(vec!["é훌\"😀$".to_owned(), "31% 1.25#".to_owned(), "a\nb$".to_owned()])
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut v = vec![];
    let n = seq_count(14, 1, tier.pick(5, 7));
    v.push(Section::new("numbers", n, num_text, |i, cx| {
        let t = num_text(i);
        check(&format!("OUT {}", t), &if t.trim_matches(is_space).is_empty() { Want::Out(vec![String::new()]) } else { want_literal(&t) }, cx)
    }));
    let values = boundary_values();
    let dims = [values.len() as u64, SPELLINGS, ZEROS.len() as u64, 2];
    let text = move |i: u64| {
        let m = mixed(&dims, i);
        boundary_text(values[m[0] as usize], m[1] as u64, ZEROS[m[2] as usize], m[3] == 1)
    };
    let text2 = text.clone();
    v.push(Section::new("boundaries", product(&dims), text, move |i, cx| {
        let t = text2(i);
        check(&format!("OUT {}", t), &want_literal(&t), cx)
    }));
    let dims = [tier.pick(2000, 10000), 12, 3];
    let text = move |i: u64| {
        let m = mixed(&dims, i);
        let (n, k) = (m[0] as usize, m[1] as usize + 1);
        let s = format!("{:0w$}", n, w = k + 1);
        let s = format!("{}.{}", &s[..s.len() - k], &s[s.len() - k..]);
        match m[2] {
            0 => s,
            1 => format!("{}000", s),
            _ => format!("00{}", s),
        }
    };
    let text2 = text;
    v.push(Section::new("decimals", product(&dims), text, move |i, cx| {
        let t = text2(i);
        check(&format!("OUT {}", t), &want_literal(&t), cx)
    }));
    let n = seq_count(11, 0, tier.pick(5, 7));
    v.push(Section::new("strings", n, string_text, |i, cx| {
        let t = string_text(i);
        check(&t, &want_text(&t), cx)
    }));
    let op_text = |i: u64| -> String { seq_decode(9, 0, i).into_iter().map(|c| OPS[c]).collect() };
    let n = seq_count(9, 0, tier.pick(5, 7));
    v.push(Section::new("operators", n, op_text, move |i, cx| {
        let s = op_text(i);
        let want = if s.is_empty() { Want::Out(vec!["63%".to_owned()]) } else { want_ops(&s) };
        check(&format!("OUT 6{}3", s), &want, cx)
    }));
    let name_text = |i: u64| -> String { seq_decode(9, 1, i).into_iter().map(|c| NAME[c]).collect() };
    let n = seq_count(9, 1, tier.pick(4, 6));
    v.push(Section::new("names", n, name_text, move |i, cx| {
        let (t, want) = want_name(&name_text(i));
        check(&t, &want, cx)
    }));
    let names = pair_names();
    let k = names.len() as u64;
    let dims = [6, k, k];
    let text = move |i: u64| {
        let m = mixed(&dims, i);
        pair_text(&names[m[1] as usize], &names[m[2] as usize], m[0] as usize)
    };
    let text2 = text.clone();
    v.push(Section::new("pairs", product(&dims), move |i| text(i).0, move |i, cx| {
        let (t, want) = text2(i);
        check(&t, &want, cx)
    }));
    for (p, (src, _)) in PROGRAMS.iter().enumerate() {
        let laid = lay(src);
        let vars = laid.variations();
        let n = vars.len() as u64 + 1;
        let text = move |i: u64| {
            let m = mixed(&[n, n], i);
            let mut c = vec![];
            for k in m {
                if k > 0 {
                    c.push(vars[k as usize - 1]);
                }
            }
            laid.text(&c)
        };
        let text2 = std::sync::Arc::new(text);
        let text = text2.clone();
        v.push(Section::new(&format!("layout{}", p), n * n, move |i| text(i), move |i, cx| {
            check(&text2(i), &want_program(p), cx)
        }));
        // The case of each word, with the others as they are, all in lower or all in upper case.
        let laid = lay(src);
        let mut cases: Vec<(usize, u64, usize)> = vec![];
        for (i, w) in laid.words.iter().enumerate() {
            let letters = w.chars().filter(|c| c.is_ascii_alphabetic()).count();
            if w.starts_with('"') || letters == 0 {
                continue;
            }
            for mask in 0..1u64 << letters {
                for others in 0..3 {
                    cases.push((i, mask, others));
                }
            }
        }
        let text = std::sync::Arc::new(move |i: u64| {
            let (w, mask, others) = cases[i as usize];
            let mut l = lay(PROGRAMS[p].0);
            for (k, x) in l.words.iter_mut().enumerate() {
                if x.starts_with('"') {
                    continue;
                }
                if k == w {
                    *x = recase(x, mask);
                } else if others > 0 {
                    *x = recase(x, if others == 1 { 0 } else { u64::MAX });
                }
            }
            (l.text(&[]), i)
        });
        let n = {
            let laid = lay(src);
            laid.words
                .iter()
                .filter(|w| !w.starts_with('"'))
                .map(|w| w.chars().filter(|c| c.is_ascii_alphabetic()).count())
                .filter(|l| *l > 0)
                .map(|l| 3u64 << l)
                .sum()
        };
        let text2 = text.clone();
        v.push(Section::new(&format!("case{}", p), n, move |i| text(i).0, move |i, cx| {
            check(&text2(i).0, &want_program(p), cx)
        }));
    }
    // Every character, in strings and in comments.
    v.push(Section::new("characters", 0x11_0000 / 16, |i| format!("characters from U+{:x}", i * 16), |i, cx| {
        let chars: String = (0..16)
            .filter_map(|k| char::from_u32((i * 16 + k) as u32))
            .collect();
        if chars.is_empty() {
            cx.trivial += 1;
            return Ok(());
        }
        let quoted: String = chars
            .chars()
            .flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] })
            .collect();
        let t = format!("OUT \"{}\"", quoted);
        check(&t, &Want::Out(vec![format!("{}$", chars)]), cx)?;
        let plain: String = chars.chars().filter(|c| *c != '\n').collect();
        let t = format!("OUT 1 '{}\nOUT 2: REM {}\nOUT 3", plain, plain);
        check(&t, &Want::Out(vec!["1%".to_owned(), "2%".to_owned(), "3%".to_owned()]), cx)
    }));
    let len = SOURCE.len() as u64;
    let dims = [len, len, 2];
    v.push(Section::new("reads", product(&dims), move |i| format!("{:?}", mixed(&dims, i)), move |i, cx| {
        let m = mixed(&dims, i);
        let cuts = if m[0] == m[1] {
            // One chunk ends at each multiple.
            (1..=SOURCE.len()).filter(|k| k % (m[0] as usize + 1) == 0).collect()
        } else {
            vec![(m[0] as usize).min(m[1] as usize), (m[0] as usize).max(m[1] as usize)]
        };
        cx.step(1);
        cx.traces += 1;
        let mut r =
            Chunks { text: SOURCE.as_bytes(), cuts, pos: 0, fail_at: None, interrupt: m[2] == 1 };
        let (stop, out) = run_from(&mut r);
        judge(&format!("reads {:?}", m), &stop, &out, &want_source(), cx)
    }));
    // A fault after each byte, and each byte replaced with one that no text contains.
    let places: Vec<(String, usize, bool)> = unreadable()
        .into_iter()
        .flat_map(|t| {
            let n = t.len();
            (0..=n).flat_map(move |at| {
                let t = t.clone();
                [(t.clone(), at, true), (t, at, false)].into_iter().filter(move |p| p.2 || at < n)
            })
        })
        .collect();
    let places = std::sync::Arc::new(places);
    let describe = |p: &(String, usize, bool)| {
        format!("{} at byte {} of {:?}", if p.2 { "fault" } else { "bad text" }, p.1, p.0)
    };
    let (p1, p2) = (places.clone(), places.clone());
    v.push(Section::new("faults", places.len() as u64, move |i| describe(&p1[i as usize]), move |i, cx| {
        let (text, at, fault) = &p2[i as usize];
        cx.step(1);
        cx.traces += 1;
        let (stop, out) = if *fault {
            let mut r = Chunks {
                text: text.as_bytes(),
                cuts: vec![*at],
                pos: 0,
                fail_at: Some(*at),
                interrupt: false,
            };
            run_from(&mut r)
        } else {
            let mut t = text.as_bytes().to_vec();
            t[*at] = 0xff;
            run_from(&mut &t[..])
        };
        judge(&describe(&p2[i as usize]), &stop, &out, &Want::Reject, cx)
    }));
    v
}
