//! L07: no program text crashes the interpreter.

use super::fixed;
use crate::corex::{self, Stop};
use crate::engine::{
    CaseResult, Cx, Failure, Property, Section, Tier, catch, mixed, product, seq_count, seq_decode,
};
use endbasic_core::{Compiler, Image, LineCol, Limits, U24, Vm};

pub fn property() -> Property {
    Property {
        id: "L07",
        rule: "All texts of up to 3 (thorough: 4) tokens over 86 tokens, alone and inside a callable with \
               variables; all texts of up to 5 (thorough: 6) tokens over 18 structural ones; all texts of \
               up to 4 (thorough: 5) characters over 40, invalid UTF-8 included; for each seed program all \
               prefixes and all single deletions, duplications, swaps, insertions and replacements of \
               tokens (thorough: pairs); every nesting construct at depths 1 to 300 and at powers of ten. \
               Each text is compiled twice and run: no panic, the same verdict, errors at positions \
               within the text.",
        assumptions: &["native stacks of 2 MB, as the threads of the tests and of release builds have"],
        sections,
    }
}

/// Whether a position is within the text.
fn inside(text: &[u8], p: LineCol) -> bool {
    // Columns count characters, with tabs up to the next multiple of 8.
    let text = String::from_utf8_lossy(text);
    let lines: Vec<&str> = text.split('\n').collect();
    if p.line == 0 || p.col == 0 || p.line > lines.len() {
        return false;
    }
    let mut end = 1;
    for c in lines[p.line - 1].chars() {
        end = if c == '\t' { (end - 1) / 8 * 8 + 9 } else { end + 1 };
    }
    p.col <= end
}

fn fail(section: &str, text: &[u8], what: String) -> CaseResult {
    let t = String::from_utf8_lossy(text).into_owned();
    Err(Failure::new(format!("{}: {}", section, t.replace('\n', "\\n")), format!("{}\n{}", t, what)))
}

/// Compiles and runs a text in every way that must not matter.
fn try_text(section: &str, text: &[u8], cx: &mut Cx) -> CaseResult {
    match catch(|| try_text_raw(section, text, cx)) {
        Ok(r) => r,
        Err(panic) => {
            let t = String::from_utf8_lossy(text).into_owned();
            Err(Failure::new(format!("{}: panic: {}", section, t), format!("{}\n{}", t, panic)))
        }
    }
}

fn try_text_raw(section: &str, text: &[u8], cx: &mut Cx) -> CaseResult {
    cx.step(1);
    corex::with_env(|env| {
        let compile = || {
            let mut image = Image::default();
            let mut c = Compiler::new(&env.upcalls, &[]).unwrap();
            match c.compile_more(&mut image, &mut &text[..]) {
                Ok(()) => Ok(image),
                Err(e) => Err((e.pos(), e.message_without_pos())),
            }
        };
        match compile() {
            Err((pos, msg)) => {
                cx.trivial += 1;
                cx.state(&msg);
                if !inside(text, pos) {
                    return fail(section, text, format!("{:?} is not in the text: {}", pos, msg));
                }
                match compile() {
                    Err(e) if e == (pos, msg.clone()) => Ok(()),
                    Err(e) => fail(section, text, format!("once {:?}, once {:?}", (pos, msg), e)),
                    Ok(_) => fail(section, text, format!("once {:?}, once accepted", (pos, msg))),
                }
            }
            Ok(image) => {
                cx.traces += 1;
                env.reset(&[true, false, true], 50);
                let mut vm = Vm::new_with_limits(
                    env.upcalls.clone(),
                    Limits { max_call_stack: 50, max_heap_entries: U24::from(1000u16) },
                );
                let mut y = 0;
                let r = corex::drive_cut(env, &mut vm, &image, 100, &mut y);
                cx.step(env.state.borrow().out.len() as u64);
                cx.state(&format!("{:?} {:?}", r, env.state.borrow().out));
                if let Stop::Err(pos, msg) = &r
                    && !inside(text, *pos)
                {
                    return fail(section, text, format!("{:?} is not in the text: {}", pos, msg));
                }
                Ok(())
            }
        }
    })
}

const TOKENS: &[&str] = &[
    "AND", "AS", "BOOLEAN", "CASE", "DATA", "DECLARE", "DIM", "DO", "DOUBLE", "ELSE", "ELSEIF", "END",
    "ERROR", "EXIT", "FALSE", "FOR", "FUNCTION", "GOSUB", "GOTO", "IF", "IS", "INTEGER", "LOOP", "MOD",
    "NEXT", "NOT", "ON", "OR", "REM", "RESUME", "RETURN", "SELECT", "SHARED", "STEP", "STRING", "SUB",
    "THEN", "TO", "TRUE", "UNTIL", "WEND", "WHILE", "XOR", "x", "s$", "d#", "a", "f", "OUT", "FAIL",
    "TI", "TEN", "1", "0", "2.5", "\"t\"", "@l", "10", "&xff", "+", "-", "*", "/", "^", "=", "<>", "<",
    ">=", "<<", ">>", "(", ")", ",", ";", ":", "\n", "'", "_", "?", "GOTO @l", "x%", "END IF", "END SUB",
    "END SELECT", "a(1)", "2147483648",
];

const STRUCT: &[&str] = &[
    "\n", ":", "IF TRUE", "THEN", "ELSE", "END IF", "DO", "LOOP", "WHILE x", "FOR x = 1 TO 2", "NEXT",
    "SELECT CASE x", "CASE 1", "END SELECT", "SUB s", "END SUB", "x = 1", "EXIT DO",
];

fn join(t: &[&str], ix: &[usize]) -> String {
    ix.iter().map(|i| t[*i]).collect::<Vec<_>>().join(" ")
}

fn token_section(name: &'static str, t: &'static [&'static str], max: u32, wrap: bool) -> Section {
    let n = t.len() as u64;
    let mk = move |i: u64| {
        let s = join(t, &seq_decode(n, 1, i));
        match wrap {
            false => s,
            true => format!(
                "DIM SHARED x AS INTEGER\nDIM SHARED a(3) AS STRING\nFUNCTION f(n)\nEND FUNCTION\n\
                 SUB z\ns$ = \"\": d# = 0.5\n{}\nEND SUB\nz",
                s
            ),
        }
    };
    let mk2 = mk.clone();
    Section::new(
        name,
        seq_count(n, 1, max),
        move |i| mk2(i).replace('\n', "\\n"),
        move |i, cx| try_text(name, mk(i).as_bytes(), cx),
    )
}

const CHARS: &[&[u8]] = &[
    b"x", b"e", b"E", b"h", b"b", b"0", b"1", b"9", b".", b",", b"\"", b"\\", b"'", b"@", b"$", b"%",
    b"#", b"!", b"?", b"&", b" ", b"\t", b"\n", b"\r", b"\0", b"\x1b", "\u{e9}".as_bytes(),
    "\u{4e16}".as_bytes(), b"\xff", b"\xc3", b"_", b":", b"=", b"+", b"-", b"(", b")", b"<", b">", b"/",
];

fn char_section(max: u32, prefix: &'static str) -> Section {
    let n = CHARS.len() as u64;
    let mk = move |i: u64| {
        let mut t = prefix.as_bytes().to_vec();
        for c in seq_decode(n, 0, i) {
            t.extend_from_slice(CHARS[c]);
        }
        t
    };
    let name = if prefix.is_empty() { "characters" } else { "value-characters" };
    Section::new(
        name,
        seq_count(n, 0, max),
        move |i| format!("{:?}", String::from_utf8_lossy(&mk(i))),
        move |i, cx| try_text(name, &mk(i), cx),
    )
}

const SEEDS: &[&str] = &[
    "IF x = 1 THEN \n OUT 1 \n ELSEIF COND ( 1 ) THEN \n OUT 2 \n ELSE \n OUT 3 \n END IF",
    "x = 2 : IF x > 1 THEN OUT 1 ELSE OUT 2 : OUT 3",
    "DO WHILE COND ( 1 ) \n OUT 1 \n IF TRUE THEN EXIT DO \n LOOP : OUT 2",
    "DO \n OUT 1 \n LOOP UNTIL COND ( 1 ) \n DO \n EXIT DO \n LOOP",
    "FOR i = 1 TO 5 STEP 2 \n OUT i \n IF i = 3 THEN EXIT FOR \n NEXT \n OUT i",
    "FOR i = 3 TO 1 STEP - 1 : FOR j = 1 TO 2 : OUT i ; j : NEXT : NEXT",
    "SELECT CASE 3 \n CASE 1 , 2 \n OUT 1 \n CASE IS >= 7 , 3 TO 5 \n OUT 2 \n CASE ELSE \n OUT 3 \n END SELECT",
    "WHILE COND ( 1 ) \n OUT 1 \n WEND \n OUT 2",
    "FUNCTION f% ( a , b$ ) \n IF a > 0 THEN EXIT FUNCTION \n f = a + 1 \n END FUNCTION \n OUT f ( 1 , \"x\" )",
    "SUB s ( a AS DOUBLE ) \n OUT a \n IF a > 2 THEN EXIT SUB \n s a + 1 \n END SUB \n s 1",
    "DECLARE FUNCTION g ( n% ) AS INTEGER \n OUT g ( 2 ) \n FUNCTION g ( n% ) AS INTEGER \n IF n > 0 THEN g = g ( n - 1 ) + 1 \n END FUNCTION",
    "DECLARE SUB t \n t : t \n SUB t \n GOSUB @in \n EXIT SUB \n @in OUT 1 : RETURN \n END SUB",
    "GOSUB 10 : OUT 2 : END \n 10 OUT 1 : RETURN",
    "x = 0 \n @top x = x + 1 : OUT x : IF x < 3 THEN GOTO @top",
    "ON ERROR GOTO @h \n OUT 1 : FAIL : OUT 2 : END \n @h OUT LASTERR",
    "ON ERROR RESUME NEXT \n FAIL \n x = FAILF ( 1 ) \n OUT x \n ON ERROR GOTO 0 \n FAIL",
    "DIM a ( 2 , 3 ) AS STRING \n a ( 1 , 2 ) = \"x\" + \"y\" : OUT a ( 1 , 2 ) ; LBOUND ( a , 1 ) ; UBOUND ( a , 2 )",
    "DIM SHARED g AS INTEGER : SUB u : g = g + 1 : END SUB \n u : u : OUT g",
    "DIM b AS BOOLEAN : b = NOT ( 1 < 2 AND 3 >= 2 ) XOR TRUE : OUT b",
    "d# = 1.5 : i = d * 2 : s$ = \"q\" + \"r\" : OUT i ; d ; s ; 7 MOD 4 ; 2 ^ 3 ; - d",
    "OUT 1 << 3 >> 1 ; 5 AND 3 OR 8 XOR 1 ; NOT 0 ; &xff ; &b101 ; &o17 ; &d10",
    "DATA 1 , , \"t\" , TRUE , - 2.5 \n OUT 1",
    "END 3 : OUT 1",
    "OUT TI ( 1 ) ; TS ( \"a\" ) ; TB ( 1 = 1 ) ; TD ( 2 ) ; TEN ; TEN + TEN",
    "REM a comment : OUT 1 \n OUT 2 ' another \n ' last",
    "DO \n FOR i = 1 TO 2 \n SELECT CASE i \n CASE 1 : IF TRUE THEN EXIT DO \n END SELECT \n NEXT \n LOOP",
];

fn tokens_of(seed: &str) -> Vec<&str> {
    seed.split(' ').collect()
}

/// One edit of a token list: kind, position and token.
fn edit(t: &mut Vec<&'static str>, kind: usize, pos: usize, tok: &'static str) -> bool {
    if pos >= t.len() {
        return false;
    }
    match kind {
        0 => {
            t.remove(pos);
        }
        1 => t.insert(pos, t[pos]),
        2 => {
            if pos + 1 >= t.len() {
                return false;
            }
            t.swap(pos, pos + 1);
        }
        3 => t[pos] = tok,
        _ => t.insert(pos, tok),
    }
    true
}

fn edit_list() -> Vec<(usize, &'static str)> {
    let mut v = vec![(0, ""), (1, ""), (2, "")];
    for t in TOKENS {
        v.push((3, *t));
        v.push((4, *t));
    }
    v
}

fn edit_section() -> Section {
    let edits = edit_list();
    let longest = SEEDS.iter().map(|s| tokens_of(s).len()).max().unwrap();
    let r = [SEEDS.len() as u64, longest as u64, edits.len() as u64];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let mut t = tokens_of(SEEDS[v[0]]);
        let (k, tok) = edits[v[2]];
        edit(&mut t, k, v[1], tok).then(|| t.join(" "))
    };
    let mk2 = mk.clone();
    Section::new(
        "edits",
        product(&r),
        move |i| mk2(i).unwrap_or_default().replace('\n', "\\n"),
        move |i, cx| match mk(i) {
            Some(t) => try_text("edits", t.as_bytes(), cx),
            None => Ok(()),
        },
    )
}

/// Two edits of the kinds that only rearrange, or one of them and a few tokens.
fn double_edit_section() -> Section {
    let mut edits = vec![(0, ""), (1, ""), (2, "")];
    for t in ["\n", ":", "(", "END", "x", "1", "THEN", "LOOP", "SUB", "-"] {
        edits.push((3, t));
        edits.push((4, t));
    }
    let longest = SEEDS.iter().map(|s| tokens_of(s).len()).max().unwrap() as u64;
    let e = edits.len() as u64;
    let r = [SEEDS.len() as u64, longest, e, longest, e];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        if v[3] < v[1] {
            return None;
        }
        let mut t = tokens_of(SEEDS[v[0]]);
        let ok = edit(&mut t, edits[v[2]].0, v[1], edits[v[2]].1)
            && edit(&mut t, edits[v[4]].0, v[3], edits[v[4]].1);
        ok.then(|| t.join(" "))
    };
    let mk2 = mk.clone();
    Section::new(
        "double-edits",
        product(&r),
        move |i| mk2(i).unwrap_or_default().replace('\n', "\\n"),
        move |i, cx| match mk(i) {
            Some(t) => try_text("double-edits", t.as_bytes(), cx),
            None => Ok(()),
        },
    )
}

fn prefix_section() -> Section {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for (n, s) in SEEDS.iter().enumerate() {
        for i in 0..=s.len() {
            v.push((n, 0, i));
            v.push((n, i, s.len()));
        }
        // Each seed after another one, complete.
        for m in 0..SEEDS.len() {
            v.push((n, usize::MAX, m));
        }
    }
    let mk = move |i: u64| {
        let (n, a, b) = v[i as usize];
        match a {
            usize::MAX => format!("{}\n{}", SEEDS[n], SEEDS[b]),
            _ => SEEDS[n][a..b].to_owned(),
        }
    };
    let size = SEEDS.iter().map(|s| 2 * (s.len() + 1) + SEEDS.len()).sum::<usize>() as u64;
    let mk2 = mk.clone();
    Section::new(
        "fragments",
        size,
        move |i| mk2(i).replace('\n', "\\n"),
        move |i, cx| try_text("fragments", mk(i).as_bytes(), cx),
    )
}

/// Constructs that nest: opening, middle, closing.
const NESTS: &[(&str, &str, &str)] = &[
    ("OUT (", "1", ")"),
    ("OUT -", "1", ""),
    ("OUT NOT ", "1", ""),
    ("OUT TI(", "1", ")"),
    ("x = TI(", "1", ")"),
    ("OUT 1 + (", "1", ")"),
    ("OUT 1 + ", "1", ""),
    ("OUT 2 ^ ", "1", ""),
    ("OUT 2 ^ -", "1", ""),
    ("OUT \"a\" - 1; 1 + ", "1", ""),
    ("OUT \"a\" + ", "\"b\"", ""),
    ("OUT (TI(", "1", "))"),
    ("OUT a(", "0", ")"),
    ("a(", "0", ") = 1"),
    ("IF TRUE THEN\n", "OUT 1\n", "END IF\n"),
    ("IF FALSE THEN\nELSE\n", "OUT 1\n", "END IF\n"),
    ("IF FALSE THEN\nELSEIF TRUE THEN\n", "OUT 1\n", "END IF\n"),
    ("DO\n", "OUT 1\nEND\n", "LOOP\n"),
    ("DO WHILE TRUE\n", "OUT 1\nEND\n", "LOOP\n"),
    ("WHILE TRUE\n", "OUT 1\nEND\n", "WEND\n"),
    ("FOR i = 1 TO 1\n", "OUT 1\n", "NEXT\n"),
    ("SELECT CASE 1\nCASE 1\n", "OUT 1\n", "END SELECT\n"),
    ("SELECT CASE 1\nCASE ELSE\n", "OUT 1\n", "END SELECT\n"),
    ("SUB z\n", "OUT 1\n", "END SUB\n"),
    ("OUT 1\n", "OUT 1\n", ""),
    ("OUT 1: ", "OUT 1\n", ""),
    ("IF TRUE THEN ", "OUT 1\n", ""),
    ("@a", "\n", ""),
    ("a", " = 1\n", ""),
    ("OUT 1, ", "1\n", ""),
    ("OUT ", "1; 2", "; 3"),
    ("DATA 1, ", "1\n", ""),
    ("'", "a", "\n"),
    ("\"", "a", "\""),
    ("1", "2", "3"),
    ("DO\nIF TRUE THEN\nFOR i = 1 TO 2\nSELECT CASE 1\nCASE 1\n", "OUT 1: END\n", "END SELECT\nNEXT\nEND IF\nLOOP\n"),
];

/// Deep nesting; only what follows the first opening repeats when the first token starts a statement
/// that cannot nest itself.
fn nest_section(big: u64) -> Section {
    let mut depths: Vec<u64> = (1..=300).collect();
    let mut d = 1000;
    while d <= big {
        depths.push(d);
        d *= 10;
    }
    let r = [NESTS.len() as u64, depths.len() as u64];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let (o, m, c) = NESTS[v[0]];
        let n = depths[v[1]] as usize;
        let (first, rest) = match o.strip_prefix("OUT ") {
            Some(rest) if o != "OUT 1\n" && o != "OUT 1: " => ("OUT ", rest),
            _ => match o.strip_prefix("x = ") {
                Some(rest) => ("x = ", rest),
                None => ("", o),
            },
        };
        (v[0], n, format!("DIM a(2)\n{}{}{}{}\n", first, rest.repeat(n), m, c.repeat(n)))
    };
    let mk2 = mk.clone();
    let size = product(&r);
    Section::new(
        "nesting",
        size,
        move |i| {
            let (k, n, _) = mk2(i);
            format!("{} levels of {:?}", n, NESTS[k].0)
        },
        move |i, cx| {
            let (k, n, t) = mk(i);
            let o = NESTS[k].0;
            try_text("nesting", t.as_bytes(), cx)?;
            // Moderate nesting of blocks works.
            if o.ends_with('\n') && o != "SUB z\n" && n <= if o.starts_with("OUT") { 9 } else { 25 } {
                let r = corex::with_env(|env| corex::run(env, &t, &[], Default::default(), 10));
                let ok = matches!(r.stop, Stop::Eof | Stop::End(0)) && !r.out.is_empty();
                if !ok {
                    return fail("nesting", t.as_bytes(), format!("{:?} {:?}", r.out, r.stop));
                }
            }
            Ok(())
        },
    )
    .stack(2 << 20)
}

/// See the known findings.
const FIXED: &[(&str, &str)] = &[
    ("IF FALSE THEN : DIM a(3) AS INTEGER : END IF : a(0) = 1", "Array not initialized"),
    ("IF FALSE THEN : DIM a(3) AS INTEGER : END IF : OUT UBOUND(a)", "Array not initialized"),
    ("ON ERROR RESUME NEXT : DIM a(0 - 1) AS INTEGER : OUT a(0) : OUT 1", "1%, ."),
    ("d# = 1.5 : IF FALSE THEN : s$ = \"x\" : END IF : OUT s", "$, ."),
    ("d# = 1.5 : i = d * 2 : s$ = s$ + \"r\" : OUT s", "r$, ."),
];

fn sections(tier: Tier) -> Vec<Section> {
    let mut v = vec![
        token_section("tokens", TOKENS, tier.pick(3, 4), false),
        token_section("callable-tokens", TOKENS, 3, true),
        token_section("structure", STRUCT, tier.pick(5, 6), false),
        char_section(tier.pick(4, 5), ""),
        char_section(tier.pick(3, 4), "OUT "),
        edit_section(),
        prefix_section(),
        nest_section(tier.pick(10_000, 100_000)),
        fixed::section(FIXED),
    ];
    if tier == Tier::Thorough {
        v.push(double_edit_section());
    }
    v
}
