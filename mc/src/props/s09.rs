//! S09: no use of a command or function of the standard library crashes the session.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::gfxx::{self, DOT};
use crate::gpiox::PinsModel;
use crate::scr::Scr;
use async_trait::async_trait;
use endbasic_repl::editor::Editor;
use endbasic_std::console::{Console, Key};
use endbasic_std::datetime::DateTime;
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16};
use endbasic_std::storage::Storage;
use endbasic_std::{Machine, MachineBuilder};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "S09",
        rule: "Every one of the 81 commands and functions with all tuples of up to 2 (thorough: 3) of 24 arguments \
               (limits, halves, infinities, not a number, empty, long and non-ASCII strings, paths, arrays, nothing), as a \
               statement and in an expression, on a text console with the real editor; the same with up to 1 (thorough: \
               2) on consoles of other sizes, graphical ones included; and printing, asking and erasing after every \
               column of graphical consoles; and all sequences of 2 (thorough: 3) of 56 \
               ordinary statements on three consoles. After each use the session has to answer a question.",
        assumptions: &["SPACE is not given more than a million"],
        sections,
    }
}

struct Clock;

#[async_trait(?Send)]
impl DateTime for Clock {
    fn monotonic(&self) -> Duration {
        Duration::from_millis(1234567)
    }
    async fn sleep(&self, _: Duration) -> Result<(), String> {
        Ok(())
    }
}

const NAMES: [&str; 88] = [
    "ABS", "ACOS", "ASC", "ASIN", "ATN", "BEEP", "CD", "CHR", "CINT", "CLEAR", "CLS", "COLOR", "COPY", "COS", "DEG",
    "DIR", "DISASM", "EDIT", "ERRMSG", "EXP", "FIX", "GFX_CIRCLE", "GFX_CIRCLEF", "GFX_FILL", "GFX_HEIGHT", "GFX_LINE",
    "GFX_PEEK", "GFX_PIXEL", "GFX_POLY", "GFX_POLYF", "GFX_RECT", "GFX_RECTF", "GFX_SYNC", "GFX_TRI", "GFX_TRIF",
    "GFX_WIDTH", "GPIO_CLEAR", "GPIO_READ", "GPIO_SETUP", "GPIO_WRITE", "HELP", "INKEY", "INPUT", "INSTR", "INT", "KILL",
    "LBOUND", "LCASE", "LEFT", "LEN", "LIST", "LOAD", "LOCATE", "LOG", "LTRIM", "MAX", "MID", "MIN", "MONOTONIC", "MOUNT",
    "NEW", "PI", "PRINT", "PWD", "RAD", "RANDOMIZE", "READ", "RESTORE", "RIGHT", "RND", "ROUND", "RTRIM", "RUN", "SAVE",
    "SCRCOLS", "SCRROWS", "SGN", "SIN", "SLEEP", "SOUND", "SPACE", "SQR", "STR", "TAN", "TRIM", "UBOUND", "UCASE",
    "UNMOUNT",
];

const SETUP: &str = "big# = 10000000000.0
FOR i = 1 TO 4
big# = big# * big#
NEXT
inf# = big# * big#
nan# = inf# - inf#
long$ = \"0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\"
low% = -2147483647 - 1
DIM ai(3)
DIM ad(2, 3) AS DOUBLE
DIM ax(4) AS STRING
v% = 1
s$ = \"\"
b? = TRUE";

const ARGS: [&str; 24] = [
    "0",
    "1",
    "-1",
    "2147483647",
    "low%",
    "255",
    "65536",
    "0.5",
    "-0.5",
    "inf#",
    "-inf#",
    "nan#",
    "big#",
    "\"\"",
    "\"a\"",
    "\"\u{e9}\u{20ac}\u{1f600}\"",
    "long$",
    "\"MEMORY:/p\"",
    "b?",
    "v%",
    "s$",
    "ai",
    "ad",
    "",
];

struct Session {
    m: Machine,
    queue: Box<dyn FnMut()>,
}

fn keys() -> Vec<Key> {
    let mut v = vec![Key::Char('x'); 30];
    v.extend([Key::ArrowLeft, Key::Char('y'), Key::Home, Key::Delete, Key::Char('z'), Key::End, Key::Backspace]);
    for _ in 0..3 {
        v.extend([Key::NewLine, Key::Char('1'), Key::NewLine, Key::EofOrDelete, Key::Escape]);
    }
    v
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Kind {
    Text(usize, usize, bool),
    Dots(usize, usize),
    Small(usize, usize),
    Vga(usize, usize),
    Large(usize, usize),
}

fn session(k: Kind) -> Session {
    let (con, queue): (Rc<RefCell<dyn Console>>, Box<dyn FnMut()>) = match k {
        Kind::Text(w, h, i) => {
            let mut s = Scr::new(w, h);
            s.interactive = i;
            // Ends whatever waits for keys, in one way or the other.
            s.end_key = Some(Key::Interrupt);
            let s = Rc::new(RefCell::new(s));
            let s2 = s.clone();
            (s, Box::new(move || s2.borrow_mut().keys = keys().into_iter().collect()))
        }
        Kind::Dots(w, h) | Kind::Small(w, h) | Kind::Vga(w, h) | Kind::Large(w, h) => {
            let f = match k {
                Kind::Dots(..) => &DOT,
                Kind::Small(..) => &FONT_5X8,
                Kind::Vga(..) => &FONT_VGA8X16,
                _ => &FONT_16X16,
            };
            let (c, _, q) = gfxx::parts(w, h, 2, f);
            (Rc::new(RefCell::new(c)), Box::new(move || *q.borrow_mut() = keys().into_iter().collect()))
        }
    };
    let mut storage = Storage::default();
    block_on(storage.put("MEMORY:/p.bas", b"PRINT 1\nPRINT \"\xc3\xa9\"\n")).unwrap();
    let m = MachineBuilder::default()
        .with_console(con)
        .with_datetime(Rc::new(Clock))
        .with_gpio_pins(Rc::new(RefCell::new(PinsModel::default())))
        .make_interactive()
        .with_program(Rc::new(RefCell::new(Editor::default())))
        .with_storage(Rc::new(RefCell::new(storage)))
        .build();
    Session { m, queue }
}

/// The position that an error reports has to be in the text.
fn placed(e: &str, text: &str) -> bool {
    let mut p = e.splitn(3, ':');
    let (Some(l), Some(c)) = (p.next(), p.next()) else { return true };
    let (Ok(l), Ok(c)) = (l.parse::<usize>(), c.parse::<usize>()) else { return true };
    match text.split('\n').nth(l - 1) {
        None => false,
        Some(t) => c >= 1 && c <= t.chars().count() + 1,
    }
}

impl Session {
    fn feed(&mut self, text: &str) -> Result<Option<i32>, String> {
        (self.queue)();
        self.m.compile(&mut text.as_bytes()).map_err(|e| e.to_string())?;
        block_on(self.m.exec()).map_err(|e| e.to_string())
    }
}

/// Runs it and asks something after that.
fn try_one(name: &str, s: &mut Session, text: &str) -> CaseResult {
    let fail = |why: String| Err(Failure::new(format!("{}: {}", name, text), why));
    if let Err(e) = s.feed(text)
        && !placed(&e, text)
    {
        return fail(format!("the error is not in the text: {}", e));
    }
    let r = s.feed("zz1 = 40 + 2: IF zz1 <> 42 THEN: END 3: END IF: END 7");
    if r != Ok(Some(7)) {
        return fail(format!("after it the session answers {:?}", r));
    }
    Ok(())
}

fn calls(name: &'static str, kinds: &'static [Kind], max: u32) -> Section {
    let mut r = vec![kinds.len() as u64, NAMES.len() as u64, 2];
    r.extend((0..max).map(|_| ARGS.len() as u64));
    let r2 = r.clone();
    let text = move |i: u64| -> Option<String> {
        let d = mixed(&r2, i);
        let args: Vec<&str> = d[3..].iter().map(|a| ARGS[*a]).collect();
        // Missing ones at the end are no arguments at all.
        let n = args.iter().rposition(|a| !a.is_empty()).map_or(0, |n| n + 1);
        let cmd = NAMES[d[1]];
        if cmd == "SPACE" && args.iter().any(|a| ["2147483647", "inf#", "big#"].contains(a)) {
            return None;
        }
        let list = args[..n].join(", ");
        Some(match d[2] {
            0 => format!("{} {}", cmd, list),
            _ if n == 0 => format!("PRINT {}", cmd),
            _ => format!("PRINT {}({})", cmd, list),
        })
    };
    let text2 = text.clone();
    Section::new(
        name,
        product(&r),
        move |i| format!("{:?} {:?}", kinds[mixed(&r, i)[0]], text(i)),
        move |i, cx| {
            let k = kinds[(i % kinds.len() as u64) as usize];
            let Some(t) = text2(i) else { return Ok(()) };
            let mut s = session(k);
            s.feed(SETUP).unwrap();
            cx.step(2);
            cx.traces += 1;
            cx.state(&t);
            try_one(&format!("{} {:?}", name, k), &mut s, &t)
        },
    )
}

/// Prints something of every length, then does something at the cursor.
fn columns() -> Section {
    const THEN: [&str; 14] = [
        "INPUT v%",
        "INPUT \"p\", s$",
        "INPUT \"0123456789012345678901234567890123456789\", s$",
        "PRINT \"a\"",
        "PRINT \"a\";",
        "PRINT",
        "PRINT , 1, 2",
        "CLS",
        "EDIT",
        "LIST",
        "DIR",
        "HELP \"LEN\"",
        "GFX_SYNC FALSE: PRINT \"a\";: GFX_SYNC: GFX_SYNC TRUE",
        "LOCATE 0, SCRROWS - 1: PRINT \"a\";: PRINT \"b\"",
    ];
    const KINDS: [Kind; 7] = [
        Kind::Small(128, 128),
        Kind::Small(30, 16),
        Kind::Vga(128, 128),
        Kind::Large(128, 128),
        Kind::Dots(7, 3),
        Kind::Dots(20, 20),
        Kind::Text(12, 5, true),
    ];
    let r = [KINDS.len() as u64, 60, THEN.len() as u64, 2];
    Section::new(
        "columns",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let k = KINDS[d[0]];
            let mut s = session(k);
            s.feed(SETUP).unwrap();
            let t = format!(
                "PRINT \"{}\"{}\n{}",
                "x".repeat(d[1]),
                if d[3] == 0 { ";" } else { "; : PRINT \"yz\";" },
                THEN[d[2]]
            );
            cx.step(2);
            cx.traces += 1;
            cx.state(&t);
            try_one(&format!("columns {:?}", k), &mut s, &t)
        },
    )
}

/// Ordinary statements.
const TYPICAL: [&str; 56] = [
    "PRINT 1, \"a\"; TRUE",
    "PRINT \"a\";",
    "INPUT \"p\"; v%",
    "INPUT s$",
    "CLS",
    "COLOR 3, 4",
    "LOCATE SCRCOLS - 1, SCRROWS - 1",
    "GFX_SYNC FALSE",
    "GFX_SYNC TRUE",
    "GFX_SYNC",
    "GFX_RECTF 1, 1, 20, 10",
    "GFX_CIRCLE 5, 5, 30",
    "GFX_FILL 0, 0",
    "GFX_POLYF 1, 1, 20, 3, 5, 30, 7, 2",
    "NEW",
    "EDIT",
    "LIST",
    "LOAD \"p\"",
    "LOAD \"q\"",
    "SAVE \"p\"",
    "SAVE \"q\"",
    "SAVE",
    "RUN",
    "CLEAR",
    "DISASM",
    "DIR",
    "KILL \"p.bas\"",
    "KILL \"q.bas\"",
    "COPY \"p.bas\", \"x.bas\"",
    "MOUNT \"X\", \"memory://\"",
    "UNMOUNT \"X\"",
    "CD \"X:\"",
    "CD \"MEMORY:\"",
    "PWD",
    "MOUNT",
    "HELP",
    "HELP \"lang\"",
    "HELP \"PRINT\"",
    "READ v%",
    "DATA 1, \"a\"",
    "RESTORE",
    "RANDOMIZE 3: v% = CINT(RND(1))",
    "DEG",
    "ON ERROR RESUME NEXT",
    "ON ERROR GOTO 0",
    "v% = 1 / 0",
    "PRINT ERRMSG",
    "DIM SHARED sh(3)",
    "sh(7) = 1",
    "SUB f: PRINT 1: END SUB: f",
    "f",
    "GOSUB 10: END 1\n10 RETURN",
    "PRINT INKEY",
    "GPIO_SETUP 1, \"OUT\"",
    "EXIT DO",
    "END 3",
];

/// Sequences of ordinary statements.
fn sequences(kinds: &'static [Kind], max: u32) -> Section {
    let k = TYPICAL.len() as u64;
    let r = [kinds.len() as u64, seq_count(k, 2, max)];
    let ops = move |i: u64| -> Vec<&'static str> { seq_decode(k, 2, i).iter().map(|o| TYPICAL[*o]).collect() };
    Section::new(
        "sequences",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{:?} {:?}", kinds[d[0]], ops(d[1] as u64))
        },
        move |i, cx| {
            let d = mixed(&r, i);
            let mut s = session(kinds[d[0]]);
            s.feed(SETUP).unwrap();
            let ops = ops(d[1] as u64);
            for n in 0..ops.len() {
                cx.step(1);
                try_one(&format!("sequences {:?} {:?}", kinds[d[0]], &ops[..n]), &mut s, ops[n])?;
            }
            cx.traces += 1;
            cx.state(&ops);
            Ok(())
        },
    )
}

const MAIN: [Kind; 1] = [Kind::Text(80, 24, true)];
const OTHERS: [Kind; 8] = [
    Kind::Text(80, 24, false),
    Kind::Text(40, 10, true),
    Kind::Text(8, 8, true),
    Kind::Small(128, 128),
    Kind::Vga(320, 200),
    Kind::Large(128, 128),
    Kind::Large(240, 240),
    Kind::Dots(30, 12),
];

const SEQ: [Kind; 3] = [Kind::Text(40, 6, true), Kind::Small(128, 128), Kind::Large(128, 128)];

fn sections(tier: Tier) -> Vec<Section> {
    vec![calls("calls", &MAIN, tier.pick(2, 3)), calls("consoles", &OTHERS, tier.pick(1, 2)), columns(), sequences(&SEQ, tier.pick(2, 3))]
}
