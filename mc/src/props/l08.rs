//! L08: submitting a program in pieces equals submitting it whole.

use crate::engine::{
    CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode,
};
use crate::machx::{HookYielder, Mach, MemProgram, Opts, Outcome};
use endbasic_std::Signal;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "L08",
        rule: "Splits: all programs of up to 3 (thorough: 4) units over 27 kinds of declarations and over \
               30 kinds of actions, run whole and in every split into pieces: same outputs, same end at the \
               same place, same variables afterwards, same rejection with nothing but the earlier pieces \
               done. Histories: all sequences of up to 3 (thorough: 4) pieces over 24 kinds, and up to 4 (thorough: \
               5) over 12 of them, that define, use, are rejected in the lexer, the parser or the compiler after declaring things, fail, \
               end, are interrupted or clear, then probed against a model of the session. Failures: 16 commands that \
               fail, some of them asynchronously, in 11 places, twice.",
        assumptions: &["a program that stops with GOSUBs pending forgets them, so RETURN in a later piece is not compared"],
        sections,
    }
}

/// A machine that is interrupted once it has yielded `max` times.
fn limited(max: u32, interactive: bool) -> (Mach, Rc<Cell<u32>>) {
    let left = Rc::new(Cell::new(max));
    let l2 = left.clone();
    let tx: Rc<RefCell<Option<async_channel::Sender<Signal>>>> = Rc::default();
    let tx2 = tx.clone();
    let inter = interactive.then(|| {
        let p: Rc<RefCell<dyn Program>> = Rc::new(RefCell::new(MemProgram::default()));
        (p, Rc::new(RefCell::new(Storage::default())))
    });
    let m = Mach::build(Opts { max_out: 1000, ..Opts::default() }, inter, |b| {
        b.with_yielder(Rc::new(RefCell::new(HookYielder(Box::new(move || {
            if l2.get() == 0 {
                return;
            }
            l2.set(l2.get() - 1);
            if l2.get() == 0 {
                let _ = tx2.borrow().as_ref().unwrap().try_send(Signal::Break);
            }
        })))))
    });
    *tx.borrow_mut() = Some(m.tx.clone());
    (m, left)
}

/// Removes the line from all error positions in a text.
fn norm(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_alphanumeric()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j + 1 < b.len() && b[j] == ':' && b[j + 1].is_ascii_digit() {
                out.push('*');
                i = j;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn line_of(msg: &str) -> Option<usize> {
    msg.split(':').next()?.parse().ok()
}

/// The units of programs that declare things.
const DECLS: [&str; 27] = [
    "OUT 1",
    "a = 5",
    "OUT a",
    "a = a + 1",
    "a# = 1.5",
    "DIM SHARED g AS INTEGER",
    "g = g + 2",
    "OUT g",
    "DIM g AS STRING",
    "SUB p(x)\nOUT \"p\"; x\nEND SUB",
    "p 3",
    "FUNCTION f(x)\nf = x * 2\nEND FUNCTION",
    "OUT f(4)",
    "DECLARE FUNCTION f(x)",
    "FUNCTION f$(x)\nf = \"s\"\nEND FUNCTION",
    "SUB q\ng = g + 10\nOUT \"q\"; f(1)\nEND SUB",
    "q",
    "DIM m(2) AS STRING\nm(1) = \"x\"",
    "m(0) = m(1) + \"y\": OUT m(0)",
    "OUT m(2)",
    "DATA 7, 8",
    "READ a: OUT a",
    "@l",
    "IF COND(1) THEN GOTO @l",
    "FAIL",
    "END 3",
    "ON ERROR RESUME NEXT",
];

const PRELUDE: &str = "a = 0: b = 0: n = 0: s$ = \"\"\nDIM SHARED g AS INTEGER\nDIM m(3) AS INTEGER\nDATA 1, 2, 3\nGOTO @past\n@sub\nOUT \"sub\"; a\na = a + 1\nRETURN\n@fsub\nOUT \"fsub\"\nFAIL\nOUT \"fsub2\"\nRETURN\n@h\nOUT \"h\"; ERRMSG\nGOTO @past\nSUB p(x)\ng = g + x\nIF x > 0 THEN p x - 1\nEND SUB\nFUNCTION ff(x)\nDIM l AS INTEGER\nl = x\nFAIL\nff = l\nEND FUNCTION\n@past\nOUT \"past\"";

/// The units of programs that do things.
const ACTS: [&str; 30] = [
    "OUT a; b; s; g",
    "a = a + 1",
    "b = ff(2)",
    "s = s + \"x\"",
    "p 2",
    "m(a) = a + 1",
    "OUT m(1); m(2)",
    "READ a",
    "RESTORE",
    "DATA 4",
    "GOSUB @sub",
    "GOSUB @fsub",
    "ON ERROR RESUME NEXT",
    "ON ERROR GOTO @h",
    "ON ERROR GOTO 0",
    "FAIL",
    "OUT ERRMSG",
    "a = 1 / (n - n)",
    "n = n + 1: IF n < 3 THEN GOTO @past",
    "FOR i = 1 TO 2: a = a + i: NEXT",
    "FOR i = 1 TO 2: IF i = 2 THEN FAIL\nOUT i: NEXT",
    "WHILE n < 4: n = n + 1: m(n) = 1: WEND",
    "SELECT CASE a: CASE 0: END 1: CASE 1 TO 2: a = a + 5: CASE ELSE: FAIL: END SELECT",
    "IF a > 0 THEN END 2",
    "END",
    "FUNCTION h2(x)\nh2 = x + g\nEND FUNCTION\nOUT h2(1)",
    "t = 4: OUT t",
    "t = t + 1: OUT t",
    "DIM SHARED g2 AS STRING\nSUB sg\ng2 = g2 + \"z\"\nOUT g2\nEND SUB",
    "sg",
];

/// What is looked at after running a program: statements that change nothing.
fn probes(acts: bool) -> &'static [&'static str] {
    if acts {
        &["OUT a; b; n; s; g", "OUT m(0); m(1); m(2)", "OUT ERRMSG"]
    } else {
        &["OUT 1"]
    }
}

/// How a run ended: its outputs, the way it stopped and the line it stopped at.
#[derive(Debug)]
struct Ran {
    out: Vec<String>,
    end: Outcome,
    line: Option<usize>,
    probe: Vec<String>,
}

fn run_pieces(pieces: &[String], conds: &[bool], acts: bool) -> (Ran, usize) {
    let (mut m, left) = limited(60, false);
    m.env.reset(conds, 1000);
    let mut out = vec![];
    let mut end = Outcome::Done(None);
    let mut line = None;
    let mut fed = 0;
    for p in pieces {
        fed += 1;
        let r = m.feed(p);
        out.extend(m.out().iter().map(|s| norm(s)));
        if r != Outcome::Done(None) {
            let msg = match &r {
                Outcome::Err(e) | Outcome::Compile(e) => e.clone(),
                _ => String::new(),
            };
            line = line_of(&msg);
            end = match r {
                Outcome::Err(e) => Outcome::Err(norm(&e)),
                Outcome::Compile(e) => Outcome::Compile(norm(&e)),
                r => r,
            };
            break;
        }
    }
    let mut probe = vec![];
    if left.get() > 0 {
        for p in probes(acts) {
            let r = m.feed(p);
            let o: Vec<String> = m.out().iter().map(|s| norm(s)).collect();
            probe.push(format!("{:?} {:?}", o, r));
        }
    }
    (Ran { out, end, line, probe }, fed)
}

fn split_section(name: &str, prelude: &'static str, units: &'static [&'static str], max: u32) -> Section {
    let k = units.len() as u64;
    let acts = !prelude.is_empty();
    let conds: u64 = if acts { 1 } else { 3 };
    let r = [seq_count(k, 2, max), conds];
    let texts = move |i: u64| -> (Vec<&'static str>, Vec<bool>) {
        let v = mixed(&r, i);
        let seq = seq_decode(k, 2, v[0] as u64);
        let c = match v[1] {
            0 => vec![false; 8],
            1 => vec![true, false, false, false, false, false],
            _ => vec![true, true, false, false, false, false],
        };
        (seq.iter().map(|u| units[*u]).collect(), c)
    };
    let t2 = texts;
    let label = name.to_owned();
    Section::new(
        name,
        product(&r),
        move |i| t2(i).0.join(" | ").replace('\n', ": "),
        move |i, cx| {
            let (u, conds) = texts(i);
            if conds[0] && !u.iter().any(|t| t.contains("COND")) {
                return Ok(());
            }
            // Data has to be there before it is read.
            let first_read = u.iter().position(|t| t.contains("READ")).unwrap_or(u.len());
            if u.iter().rposition(|t| t.starts_with("DATA")).is_some_and(|d| d > first_read) {
                cx.trivial += 1;
                return Ok(());
            }
            // Uses of what only a later piece declares are rejected in pieces.
            let late = |d: &str, use_: &str| {
                let d = u.iter().position(|t| t.starts_with(d) || t.contains(&format!("\n{}", d)));
                let us = u.iter().position(|t| t.contains(use_));
                matches!((d, us), (Some(d), Some(us)) if us < d)
            };
            if late("FUNCTION f", "f(4)")
                || late("FUNCTION f", "f(1)")
                || late("SUB p", "p 3")
                || u.iter().rposition(|t| t.starts_with("SUB q")) > u.iter().position(|t| *t == "q").filter(|_| u.iter().any(|t| t.starts_with("SUB q")))
                || late("SUB sg", "sg")
                || (u.iter().rposition(|t| *t == "@l") > u.iter().position(|t| t.contains("@l") && *t != "@l") && u.iter().any(|t| t.contains("GOTO @l")))
            {
                cx.trivial += 1;
                return Ok(());
            }
            let join = |ps: &[&str]| ps.iter().map(|p| format!("{}\n", p)).collect::<String>();
            let mut all: Vec<&str> = vec![];
            if acts {
                all.push(prelude);
            }
            all.extend(&u);
            // The first lines of the units.
            let mut starts = vec![];
            let mut l = 0;
            for t in &all {
                starts.push(l);
                l += t.lines().count();
            }
            let (whole, _) = run_pieces(&[join(&all)], &conds, acts);
            cx.state(&(&whole.out, format!("{:?}", whole.end)));
            let rejected = matches!(whole.end, Outcome::Compile(_));
            let n = all.len();
            for cuts in 1..1u32 << (n - 1) {
                let mut pieces: Vec<Vec<&str>> = vec![vec![all[0]]];
                let mut offs = vec![0];
                for j in 1..n {
                    if cuts >> (j - 1) & 1 == 1 {
                        pieces.push(vec![]);
                        offs.push(starts[j]);
                    }
                    pieces.last_mut().unwrap().push(all[j]);
                }
                let texts: Vec<String> = pieces.iter().map(|p| join(p)).collect();
                let (got, fed) = run_pieces(&texts, &conds, acts);
                cx.step(fed as u64);
                cx.traces += 1;
                let fail = |what: &str| -> CaseResult {
                    let t = texts.iter().map(|t| t.trim_end().replace('\n', ": ")).collect::<Vec<_>>();
                    Err(Failure::new(
                        format!("{}: {} {:?}", label, t.join(" | "), conds.iter().filter(|b| **b).count()),
                        format!("{}\nwhole  {:?}\npieces {:?}", what, whole, got),
                    ))
                };
                if rejected {
                    // The pieces before the rejected one did run, as they do on their own.
                    if let Outcome::Compile(e) = &got.end {
                        let (before, _) = run_pieces(&texts[..fed - 1], &conds, acts);
                        if before.end != Outcome::Done(None) || before.out != got.out {
                            return fail("the pieces before the rejected one ran differently");
                        }
                        if before.probe != got.probe {
                            return fail(&format!("a rejected piece changed the session: {:?}", before.probe));
                        }
                        // What the program up to here is rejected for when whole.
                        let expect = Outcome::Compile(e.clone());
                        let (upto, _) = run_pieces(&[texts[..fed].concat()], &conds, acts);
                        let off = offs[fed - 1];
                        if upto.end != expect {
                            return fail(&format!("rejected for another reason: {:?}", upto.end));
                        }
                        if got.line.map(|l| l + off) != upto.line {
                            return fail("rejected at another place");
                        }
                        cx.count("rejected");
                    } else if matches!(got.end, Outcome::Done(None)) {
                        return fail("rejected only when whole");
                    }
                    continue;
                }
                let cut_short = whole.end == Outcome::Break || got.end == Outcome::Break;
                if cut_short {
                    let m = whole.out.len().min(got.out.len());
                    if whole.out[..m] != got.out[..m] {
                        return fail("different outputs");
                    }
                    cx.count("endless");
                    continue;
                }
                if whole.out != got.out || whole.end != got.end {
                    return fail("different runs");
                }
                if let (Some(w), Some(g)) = (whole.line, got.line) {
                    if !offs[..fed].iter().any(|o| g + o == w) {
                        return fail("stopped at another place");
                    }
                }
                if whole.probe != got.probe {
                    return fail("different variables");
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------

/// The model of a session.
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
struct Sess {
    a: Option<i32>,
    f: Option<i32>,
    /// The type of the shared variable and its value.
    sh: Option<(bool, i32)>,
    lab: bool,
    resume: bool,
    data: Vec<i32>,
    next: usize,
    err: Option<&'static str>,
    arr: Option<[i32; 2]>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum R {
    Done,
    Compile,
    Err(&'static str),
    End(i32),
    Break,
}

const FAIL: &str = crate::lang::FAIL_MSG;

/// The kinds of pieces: their texts and their effects with what they output.
const PIECES: usize = 24;

fn piece(k: usize) -> &'static str {
    match k {
        0 => "a = 7",
        1 => "OUT a: a = a + 1: OUT a",
        2 => "FUNCTION f(x)\nf = x + 100\nEND FUNCTION",
        3 => "FUNCTION f(x)\nf = x + 200: FAIL\nEND FUNCTION\nOUT 1",
        4 => "OUT f(1)",
        5 => "b = 3: DATA 9\nDIM SHARED sh AS STRING\n@lab\nFUNCTION zf(x)\nzf = 1\nEND FUNCTION\nON ERROR RESUME NEXT\na = nowhere + 1",
        6 => "FUNCTION f(x)\nf = 5\nEND FUNCTION\nDATA 9\nGOTO @nowhere",
        7 => "a = 3\nIF a = 1 THEN\nOUT 2",
        8 => "a = 4: OUT \"unterminated",
        9 => "a = 1: FAIL\nOUT \"after\"\na = 2",
        10 => "a = 10: OUT f(2)\na = 20",
        11 => "DIM SHARED sh AS INTEGER",
        12 => "DIM SHARED sh AS STRING",
        13 => "@lab\nOUT \"lab\"",
        14 => "a = 30: END 4: a = 40",
        15 => "a = 50: WHILE TRUE: WEND\na = 60",
        16 => "FUNCTION lp(x)\nFOR i = 1 TO 2\nDO: LOOP\nNEXT\nEND FUNCTION\na = 70: a = lp(1)",
        17 => "ON ERROR RESUME NEXT",
        18 => "ON ERROR GOTO 0",
        19 => "DATA 1\nDATA 2",
        20 => "READ a: OUT a",
        21 => "GOSUB @s1: OUT \"never\": END\n@s1\na = 80",
        22 => "DIM arr(2): arr(1) = 6: arr(2) = 7",
        _ => "CLEAR: OUT \"cleared\"",
    }
}

fn val(s: &mut Sess, v: i32) {
    s.a = Some(v);
}

/// Whether an error stops the piece.
fn err(s: &mut Sess, m: &'static str) -> bool {
    s.err = Some(m);
    !s.resume
}

fn apply(s: &mut Sess, k: usize, out: &mut Vec<String>, used: &mut [bool; PIECES]) -> R {
    let again = used[k];
    let r = match k {
        0 => {
            val(s, 7);
            R::Done
        }
        1 => match s.a {
            None => R::Compile,
            Some(v) => {
                val(s, v + 1);
                out.push(format!("{}%", v));
                out.push(format!("{}%", v + 1));
                R::Done
            }
        },
        2 | 3 if s.f.is_some() => R::Compile,
        2 => {
            s.f = Some(100);
            R::Done
        }
        3 => {
            s.f = Some(200);
            out.push("1%".to_owned());
            R::Done
        }
        4 | 10 => match s.f {
            None => R::Compile,
            Some(f) => {
                let arg = if k == 4 { 1 } else { 2 };
                let mut r = R::Done;
                if k == 10 {
                    val(s, 10);
                }
                // The failure happens within the function, which goes on if so configured.
                if f == 200 && err(s, FAIL) {
                    r = R::Err(FAIL);
                } else {
                    out.push(format!("{}%", f + arg));
                    if k == 10 {
                        val(s, 20);
                    }
                }
                r
            }
        },
        5 | 6 | 7 | 8 => R::Compile,
        9 => {
            val(s, 1);
            if err(s, FAIL) {
                R::Err(FAIL)
            } else {
                out.push("after$".to_owned());
                val(s, 2);
                R::Done
            }
        }
        11 | 12 => {
            if s.sh.is_some() {
                R::Compile
            } else {
                s.sh = Some((k == 12, 0));
                R::Done
            }
        }
        13 => {
            if s.lab {
                R::Compile
            } else {
                s.lab = true;
                out.push("lab$".to_owned());
                R::Done
            }
        }
        14 => {
            val(s, 30);
            R::End(4)
        }
        15 => {
            val(s, 50);
            R::Break
        }
        16 => {
            if again {
                R::Compile
            } else {
                val(s, 70);
                R::Break
            }
        }
        17 => {
            s.resume = true;
            R::Done
        }
        18 => {
            s.resume = false;
            R::Done
        }
        19 => {
            s.data.extend([1, 2]);
            R::Done
        }
        20 => {
            let mut r = R::Done;
            match s.data.get(s.next) {
                Some(v) => {
                    s.next += 1;
                    s.a = Some(*v);
                }
                None => {
                    // A first READ declares the variable.
                    s.a = Some(s.a.unwrap_or(0));
                    if err(s, "Out of data") {
                        r = R::Err("Out of data");
                    }
                }
            }
            if r == R::Done {
                out.push(format!("{}%", s.a.unwrap()));
            }
            r
        }
        21 => {
            if again {
                R::Compile
            } else {
                val(s, 80);
                R::Done
            }
        }
        22 => {
            if s.arr.is_some() {
                R::Compile
            } else {
                s.arr = Some([0, 6]);
                let m = "Subscript 2 exceeds limit of 2";
                if err(s, m) { R::Err(m) } else { R::Done }
            }
        }
        _ => {
            *s = Sess::default();
            *used = [false; PIECES];
            // The rest of the piece is gone with the program.
            R::Done
        }
    };
    if r != R::Compile && k != PIECES - 1 {
        used[k] = true;
    }
    r
}

fn check_piece(exp: R, got: &Outcome) -> bool {
    match (exp, got) {
        (R::Done, Outcome::Done(None)) => true,
        (R::Compile, Outcome::Compile(_)) => true,
        (R::Err(m), Outcome::Err(e)) => e.ends_with(&format!(": {}", m)),
        (R::End(c), Outcome::Done(Some(d))) => c == *d,
        (R::Break, Outcome::Break) => true,
        _ => false,
    }
}

/// The kinds of pieces of the longer histories.
const CORE: [usize; 12] = [0, 1, 3, 5, 6, 10, 14, 16, 17, 19, 20, 23];
const ALL: [usize; PIECES] = {
    let mut a = [0; PIECES];
    let mut i = 0;
    while i < PIECES {
        a[i] = i;
        i += 1;
    }
    a
};

fn history_section(name: &str, kinds: &'static [usize], min: u32, max: u32) -> Section {
    let k = kinds.len() as u64;
    let seq = move |i: u64| -> Vec<usize> {
        seq_decode(k, min, i).iter().map(|p| kinds[*p]).collect()
    };
    Section::new(
        name,
        seq_count(k, min, max),
        move |i| {
            seq(i).iter().map(|p| piece(*p).replace('\n', ": ")).collect::<Vec<_>>().join(" | ")
        },
        move |i, cx| run_history(&seq(i), cx),
    )
}

/// Statements that fail, some of them asynchronously.
const FAILING: [&str; 16] = [
    "FAIL",
    "SLEEP -1",
    "LOCATE -1, 0",
    "COLOR -1",
    "KILL \"none\"",
    "LOAD \"none\"",
    "CD \"none:\"",
    "COPY \"none\", \"other\"",
    "MOUNT \"none://\" AS \"x\"",
    "UNMOUNT \"none\"",
    "SOUND -1, 1",
    "SAVE \"a:b:c\"",
    "DIR \"none:\"",
    "x = ASC(\"\")",
    "GFX_LINE 1, 2, 3, 4",
    "READ v",
];

/// Where they are.
const AROUND: [&str; 11] = [
    "OUT 1: {C}: OUT 8",
    "OUT 1\nIF TRUE THEN\n{C}\nOUT 8\nEND IF\nOUT 9",
    "OUT 1\nFOR i = 1 TO 3\n{C}\nOUT 8\nNEXT\nOUT 9",
    "SUB s{k}\nOUT 1\n{C}\nOUT 8\nEND SUB\ns{k}\nOUT 9",
    "SUB i{k}\nOUT 1\n{C}\nOUT 8\nEND SUB\nSUB o{k}\ni{k}\nOUT 8\nEND SUB\no{k}\nOUT 9",
    "FUNCTION f{k}\nOUT 1\n{C}\nOUT 8\nEND FUNCTION\nOUT f{k}\nOUT 9",
    "GOTO @m{k}\n@g{k}\nOUT 1\n{C}\nOUT 8\nRETURN\n@m{k}\nGOSUB @g{k}\nOUT 9",
    "ON ERROR GOTO @h{k}\nFAIL\nOUT 7\n@h{k}\nOUT 1\n{C}\nOUT 8",
    "WHILE TRUE\nDO\nOUT 1\n{C}\nOUT 8\nLOOP\nWEND",
    "SELECT CASE 5\nCASE 4\nOUT 7\nCASE 5\nOUT 1\n{C}\nOUT 8\nCASE ELSE\nOUT 7\nEND SELECT\nOUT 9",
    "OUT 1: {C}",
];

/// After a piece that fails the next ones run, and nothing else does.
fn failing_section() -> Section {
    let (a, f) = (AROUND.len() as u64, FAILING.len() as u64);
    let r = [a, f, a, f];
    let pieces = move |i: u64| -> Vec<String> {
        let d = mixed(&r, i);
        (0..2)
            .map(|n| AROUND[d[n * 2]].replace("{C}", FAILING[d[n * 2 + 1]]).replace("{k}", &n.to_string()))
            .collect()
    };
    Section::new("failures", product(&r), move |i| format!("{:?}", pieces(i)), move |i, cx| {
        let p: Rc<RefCell<dyn Program>> = Rc::new(RefCell::new(MemProgram::default()));
        let storage = Rc::new(RefCell::new(Storage::default()));
        let mut m = Mach::build(Opts::default(), Some((p, storage)), |b| b);
        for piece in pieces(i) {
            for (text, fails, exp) in [
                (piece.as_str(), true, "1%"),
                ("OUT 3", false, "3%"),
                ("ON ERROR GOTO 0: y = 5: OUT y", false, "5%"),
            ] {
                let got = m.feed(text);
                let out = m.out();
                cx.step(1);
                if matches!(got, Outcome::Err(_)) != fails || out != [exp] || matches!(got, Outcome::Compile(_)) {
                    return Err(Failure::new(
                        format!("failures: {:?}", pieces(i)),
                        format!("{}: {:?} {:?}", text, got, out),
                    ));
                }
            }
        }
        cx.traces += 1;
        cx.state(&pieces(i));
        Ok(())
    })
}

fn run_history(seq: &[usize], cx: &mut Cx) -> CaseResult {
    let (mut m, left) = limited(0, true);
    let mut s = Sess::default();
    let mut used = [false; PIECES];
    let fail = |what: String| -> CaseResult {
        let h: Vec<String> = seq.iter().map(|p| piece(*p).replace('\n', ": ")).collect();
        Err(Failure::new(format!("histories: {}", h.join(" | ")), what))
    };
    for (n, p) in seq.iter().enumerate() {
        left.set(5);
        let mut exp = vec![];
        let r = apply(&mut s, *p, &mut exp, &mut used);
        let got = m.feed(piece(*p));
        let out = m.out();
        cx.step(1);
        if !check_piece(r, &got) || exp != out {
            return fail(format!("piece {}: expected {:?} {:?}, got {:?} {:?}", n, r, exp, got, out));
        }
    }
    cx.traces += 1;
    cx.state(&s);
    // Every part of the session is as the model says.
    let mut probe = |text: &str, exp: Option<Vec<String>>| -> CaseResult {
        left.set(5);
        let got = m.feed(text);
        let out = m.out();
        let ok = match &exp {
            None => matches!(got, Outcome::Compile(_)) && out.is_empty(),
            Some(e) => got == Outcome::Done(None) && norm_all(&out) == *e,
        };
        cx.step(1);
        if ok {
            Ok(())
        } else {
            fail(format!("then {}: expected {:?}, got {:?} {:?}; model {:?}", text, exp, got, out, s))
        }
    };
    probe("OUT a", s.a.map(|v| vec![format!("{}%", v)]))?;
    probe("OUT b", None)?;
    probe("OUT zf(1)", None)?;
    let e = match s.err {
        None => "$".to_owned(),
        Some(m) => format!("{}$", m),
    };
    probe("OUT ERRMSG", Some(vec![e]))?;
    match s.sh {
        None => probe("OUT sh", None)?,
        Some((true, _)) => probe("OUT sh + \"q\"", Some(vec!["q$".to_owned()]))?,
        Some((false, _)) => probe("OUT sh + 1", Some(vec!["1%".to_owned()]))?,
    }
    probe("OUT arr(0); arr(1)", s.arr.map(|v| vec![format!("{}% {}%", v[0], v[1])]))?;
    // The handler is the one set: a failure stops the piece or not.
    left.set(5);
    drop(probe);
    let got = m.feed("OUT \"x\": FAIL: OUT \"y\"");
    let out = m.out();
    let exp = if s.resume { R::Done } else { R::Err(FAIL) };
    if !check_piece(exp, &got) || out.len() != if s.resume { 2 } else { 1 } {
        return fail(format!("then a failure: expected {:?}, got {:?} {:?}", exp, got, out));
    }
    let got = m.feed("FUNCTION zf(x)\nzf = x + 1\nEND FUNCTION\nDIM nowhere AS INTEGER\nOUT zf(4); nowhere");
    if got != Outcome::Done(None) || m.out() != ["5% 0%"] {
        return fail(format!("then new definitions: got {:?}", got));
    }
    let got = m.feed(if s.lab { "GOTO @endlab\n@nowhere\n@endlab" } else { "@lab\n@nowhere" });
    if got != Outcome::Done(None) {
        return fail(format!("then labels: got {:?}", got));
    }
    // The data is the one of the accepted pieces.
    m.feed("ON ERROR GOTO 0");
    let mut n = s.next;
    loop {
        let got = m.feed("READ rd%: OUT rd");
        let out = m.out();
        match s.data.get(n) {
            Some(v) if got == Outcome::Done(None) && out == [format!("{}%", v)] => n += 1,
            None if matches!(&got, Outcome::Err(e) if e.ends_with("Out of data")) => break,
            _ => return fail(format!("then data item {}: got {:?} {:?}", n, got, out)),
        }
    }
    Ok(())
}

/// Removes the positions of messages.
fn norm_all(out: &[String]) -> Vec<String> {
    out.iter()
        .map(|o| {
            let n = norm(o);
            match n.strip_prefix("*:").and_then(|r| r.split_once(": ")) {
                Some((_, rest)) => rest.to_owned(),
                None => n,
            }
        })
        .collect()
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        split_section("declarations", "", &DECLS, tier.pick(3, 4)),
        split_section("actions", PRELUDE, &ACTS, tier.pick(3, 4)),
        history_section("histories", &ALL, 1, tier.pick(3, 4)),
        failing_section(),
        history_section("long-histories", &CORE, 4, tier.pick(4, 5)),
    ]
}
