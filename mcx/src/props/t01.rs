//! T01: on a real terminal, the text console shows what the console interface says and reads what is typed.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::props::x04::App;
use crate::props::x05::{Home, command};
use crate::pty::{Pty, Shown, Term};
use crate::scr::Scr;
use endbasic::AppMode;
use endbasic_std::console::Key;

pub fn property() -> Property {
    Property {
        id: "T01",
        rule: "Processes of the interpreter on terminals of their own: all programs of up to 3 (thorough: 4) of 20 statements that \
               use the console; all sequences of up to 2 (thorough: 3) of 43 keys as terminals send them; all lines typed to \
               INPUT with up to 3 (thorough: 4) of 11 keys and at the prompt with up to 3 (thorough: 4) of 10 keys; all \
               sequences of up to 3 (thorough: 4) of 13 keys in the editor; interrupts; sizes of the terminal and of the \
               environment. What a terminal emulator shows in the end is compared with what the console interface \
               defines for the same program, and the terminal has to be left as it was found.",
        assumptions: &[
            "the terminal understands the usual sequences of ANSI and has 256 colors",
            "where a terminal leaves the cursor after its last column is not defined",
            "an escape that is not the start of a sequence comes on its own",
        ],
        sections,
    }
}

enum Mode<'a> {
    Script(&'a str),
    Interactive(&'a str),
    Prompt,
}

struct Both {
    scr: Scr,
    text: String,
    code: Result<i32, String>,
    shown: Shown,
    term: Term,
    /// The alternate screen as it was last.
    alt: Option<Vec<String>>,
}

/// Finds the pieces between uses of the alternate screen.
fn emulate(bytes: &[u8], w: usize, h: usize) -> (Term, Option<Vec<String>>) {
    let mut t = Term::new(w, h);
    let leave: &[u8] = b"\x1b[?1049l";
    let mut alt = None;
    let mut from = 0;
    while let Some(i) = bytes[from..].windows(leave.len()).position(|w| w == leave) {
        t.feed(&bytes[from..from + i]);
        if t.alt() {
            alt = Some(t.rows());
        }
        t.feed(leave);
        from += i + leave.len();
    }
    t.feed(&bytes[from..]);
    (t, alt)
}

/// Runs the same thing on a console and on a terminal.
fn both(mode: Mode, size: (usize, usize), keys: &[(Key, &[u8])]) -> Both {
    let home = Home::new();
    let mut cmd = command(home.root());
    cmd.env_remove("LINES").env_remove("COLUMNS");
    let mode = match mode {
        Mode::Script(p) => {
            let f = home.write("p.bas", p);
            cmd.arg(&f);
            AppMode::RunScript(f)
        }
        Mode::Interactive(p) => {
            let f = home.write("p.bas", p);
            cmd.args(["-i", "--local-drive=memory://"]).arg(&f);
            AppMode::RunInteractive(f, "memory://".to_owned())
        }
        Mode::Prompt => {
            cmd.args(["--local-drive=memory://"]);
            AppMode::Repl("memory://".to_owned())
        }
    };
    let mut app = App::new(mode);
    app.size = size;
    app.keys = keys.iter().map(|k| k.0.clone()).collect();
    let (ran, scr) = app.run_on();
    let scr = std::rc::Rc::try_unwrap(scr.expect("no console")).ok().expect("in use").into_inner();
    // All of the keys at once, but for escapes, which end what is sent.
    let mut sent: Vec<u8> = vec![];
    keys.iter().for_each(|k| sent.extend_from_slice(k.1));
    let pieces: Vec<(&[u8], &[u8])> = if sent.is_empty() { vec![] } else { vec![(&[], &sent)] };
    let shown = Pty::new(size.0 as u16, size.1 as u16).unwrap().run(&mut cmd, &pieces).unwrap();
    let (term, alt) = emulate(&shown.bytes, size.0, size.1);
    Both { scr, text: ran.text, code: ran.code, shown, term, alt }
}

impl Both {
    /// Checks that both are the same.
    fn check(&self) -> Result<(), &'static str> {
        if self.shown.timeout {
            return Err("timeout");
        }
        if !self.term.unknown.is_empty() {
            return Err("unknown");
        }
        if !self.shown.restored {
            return Err("restored");
        }
        if self.term.alt() || !self.term.cursor {
            return Err("left");
        }
        match (&self.code, self.shown.code) {
            (Ok(n), m) if *n == m => (),
            // What went wrong follows, on the standard error.
            (Err(_), 1) => return Ok(()),
            _ => return Err("code"),
        }
        let s = self.scr.snap();
        if self.term.rows() != s.rows {
            return Err("rows");
        }
        if self.term.y != s.y || self.term.x != s.x {
            return Err("cursor");
        }
        if (self.term.fg, self.term.bg) != s.colors {
            return Err("colors");
        }
        Ok(())
    }

    fn detail(&self) -> String {
        let s = self.scr.snap();
        format!(
            "expected {:?} {:?} at {},{} in {:?}, got {} {:?} at {},{} in {:?} {:?}",
            self.code,
            s.rows,
            s.x,
            s.y,
            s.colors,
            self.shown.code,
            self.term.rows(),
            self.term.x,
            self.term.y,
            (self.term.fg, self.term.bg),
            String::from_utf8_lossy(&self.shown.bytes),
        )
    }
}

// -- Programs.

const STATEMENTS: [&str; 20] = [
    "PRINT \"ab\"",
    "PRINT \"c\";",
    "PRINT \"éñ\"; CHR(9); CHR(27); \"d\"",
    "PRINT",
    "CLS",
    "LOCATE 3, 2",
    "LOCATE 0, 0",
    "LOCATE 18, 5: PRINT \"z\";",
    "LOCATE 20, 1",
    "COLOR 1",
    "COLOR , 4",
    "COLOR 200, 255",
    "COLOR",
    "COLOR 256",
    "FOR I = 1 TO 7: PRINT I: NEXT",
    "GFX_SYNC FALSE",
    "GFX_SYNC TRUE",
    "PRINT SCRCOLS; SCRROWS",
    "PRINT INKEY; \"k\"",
    "INPUT \"Q\"; A$: PRINT A$; \"!\"",
];

fn display(idx: u64, cx: &mut Cx) -> CaseResult {
    let l = seq_decode(STATEMENTS.len() as u64, 0, idx);
    let mut p: String = l.iter().map(|i| format!("{}\n", STATEMENTS[*i])).collect();
    p.push_str("END 5\n");
    let keys: Vec<(Key, &[u8])> = l
        .iter()
        .filter(|i| **i == 19)
        .flat_map(|_| [(Key::Char('u'), b"u".as_slice()), (Key::Char('ñ'), "ñ".as_bytes()), (Key::NewLine, b"\r")])
        .collect();
    // Keys come at any time, so polling for them would depend on when.
    let polls = l.iter().any(|i| *i == 18);
    if polls && !keys.is_empty() {
        cx.trivial += 1;
        return Ok(());
    }
    let b = both(Mode::Script(&p), (20, 6), &keys);
    cx.step(1);
    cx.state(&(b.term.rows(), &b.alt, b.shown.code));
    b.check().map_err(|k| Failure::new(format!("display:{}", k), format!("{:?}: {}", p, b.detail())))
}

// -- Keys.

const KEYS: [(&[u8], &str); 43] = [
    (b"a", "a"),
    (b"Z", "Z"),
    (b"0", "0"),
    (b" ", " "),
    (b"~", "~"),
    (b"[", "["),
    (b"\"", "\""),
    ("é".as_bytes(), "é"),
    ("☃".as_bytes(), "☃"),
    ("𝄞".as_bytes(), "𝄞"),
    (b"\r", "ENTER"),
    (b"\n", "ENTER"),
    (b"\t", "TAB"),
    (b"\x7f", "BS"),
    (b"\x1b[A", "UP"),
    (b"\x1b[B", "DOWN"),
    (b"\x1b[C", "RIGHT"),
    (b"\x1b[D", "LEFT"),
    (b"\x1bOA", "UP"),
    (b"\x1bOB", "DOWN"),
    (b"\x1bOC", "RIGHT"),
    (b"\x1bOD", "LEFT"),
    (b"\x1b[H", "HOME"),
    (b"\x1b[F", "END"),
    (b"\x1bOH", "HOME"),
    (b"\x1bOF", "END"),
    (b"\x1b[1~", "HOME"),
    (b"\x1b[4~", "END"),
    (b"\x1b[7~", "HOME"),
    (b"\x1b[8~", "END"),
    (b"\x1b[3~", "DEL"),
    (b"\x1b[5~", "PGUP"),
    (b"\x1b[6~", "PGDOWN"),
    (b"\x01", "HOME"),
    (b"\x02", "LEFT"),
    (b"\x04", "EOF"),
    (b"\x05", "END"),
    (b"\x06", "RIGHT"),
    (b"\x0e", "DOWN"),
    (b"\x10", "UP"),
    (b"\x1bOP", "?"),
    (b"\x1b[15~", "?"),
    (b"\x1b[2~", "?"),
];

fn keys(idx: u64, cx: &mut Cx) -> CaseResult {
    let l = seq_decode(KEYS.len() as u64, 1, idx);
    let p = "DO\nK$ = INKEY\nIF K$ = \"q\" THEN END 6\nIF K$ <> \"\" THEN PRINT \"#\"; K$\nLOOP\n";
    let home = Home::new();
    let mut cmd = command(home.root());
    cmd.arg(home.write("p.bas", p));
    let mut sent: Vec<u8> = l.iter().flat_map(|i| KEYS[*i].0.to_vec()).collect();
    sent.push(b'q');
    let s = Pty::new(40, 10).unwrap().run(&mut cmd, &[(&[], &sent)]).unwrap();
    cx.step(l.len() as u64 + 1);
    cx.state(&(&s.bytes, s.code));
    let (t, _) = emulate(&s.bytes, 40, 10);
    let mut exp: Vec<String> = l.iter().map(|i| format!("#{}", KEYS[*i].1.trim_end())).collect();
    exp.resize(10, String::new());
    if s.timeout || s.code != 6 || !s.restored || t.rows() != exp {
        return Err(Failure::new(
            "keys",
            format!("{:?}: expected {:?}, got {} {:?}, restored {}", String::from_utf8_lossy(&sent), exp, s.code, t.rows(), s.restored),
        ));
    }
    Ok(())
}

// -- Lines.

const LINE: [(Key, &[u8]); 11] = [
    (Key::Char('a'), b"a"),
    (Key::Char('é'), "é".as_bytes()),
    (Key::Char(' '), b" "),
    (Key::ArrowLeft, b"\x1b[D"),
    (Key::ArrowRight, b"\x1b[C"),
    (Key::Home, b"\x1b[H"),
    (Key::End, b"\x1b[F"),
    (Key::Backspace, b"\x7f"),
    (Key::Delete, b"\x1b[3~"),
    (Key::EofOrDelete, b"\x04"),
    (Key::Tab, b"\t"),
];

const ENTER: (Key, &[u8]) = (Key::NewLine, b"\r");

fn typing(idx: u64, cx: &mut Cx) -> CaseResult {
    let starts: [&[usize]; 2] = [&[], &[0, 1, 0]];
    let start = starts[idx as usize % 2];
    let l: Vec<usize> = start.iter().copied().chain(seq_decode(LINE.len() as u64, 0, idx / 2)).collect();
    let mut keys: Vec<(Key, &[u8])> = l.iter().map(|i| LINE[*i].clone()).collect();
    // The end of the input fails, and what is typed next is not read.
    keys.push(ENTER);
    let p = "PRINT \"+\": INPUT \"Q\"; A$: PRINT: PRINT \"[\"; A$; \"]\": END 4\n";
    let b = both(Mode::Script(p), (24, 6), &keys);
    cx.step(keys.len() as u64);
    cx.state(&(b.term.rows(), &b.alt, b.shown.code));
    b.check().map_err(|k| Failure::new(format!("typing:{}", k), format!("{:?}: {}", keys, b.detail())))
}

const PROMPT: [(Key, &[u8]); 10] = [
    (Key::NewLine, b"\r"),
    (Key::NewLine, b"\n"),
    (Key::ArrowUp, b"\x1b[A"),
    (Key::ArrowDown, b"\x1b[B"),
    (Key::ArrowLeft, b"\x1b[D"),
    (Key::Home, b"\x1b[H"),
    (Key::Char('?'), b"?"),
    (Key::Char('1'), b"1"),
    (Key::Backspace, b"\x7f"),
    (Key::Delete, b"\x1b[3~"),
];

fn typed(t: &'static str) -> Vec<(Key, &'static [u8])> {
    t.char_indices().map(|(i, c)| (Key::Char(c), &t.as_bytes()[i..i + c.len_utf8()])).collect()
}

fn prompt(idx: u64, cx: &mut Cx) -> CaseResult {
    let mut keys = vec![];
    for t in ["?2", "END 3: A"] {
        keys.extend(typed(t));
        keys.push(ENTER);
    }
    keys.extend(seq_decode(PROMPT.len() as u64, 0, idx).into_iter().map(|i| PROMPT[i].clone()));
    keys.push(ENTER);
    keys.extend(typed("END 9"));
    keys.push(ENTER);
    let b = both(Mode::Prompt, (60, 12), &keys);
    cx.step(keys.len() as u64);
    cx.state(&(b.term.rows(), &b.alt, b.shown.code));
    b.check().map_err(|k| Failure::new(format!("prompt:{}", k), format!("{:?}: {}", &keys[11..], b.detail())))
}

// -- The editor.

const EDIT: [(Key, &[u8]); 13] = [
    (Key::Char('x'), b"x"),
    (Key::Char('é'), "é".as_bytes()),
    (Key::NewLine, b"\r"),
    (Key::Tab, b"\t"),
    (Key::Backspace, b"\x7f"),
    (Key::Delete, b"\x1b[3~"),
    (Key::ArrowUp, b"\x1b[A"),
    (Key::ArrowDown, b"\x1b[B"),
    (Key::ArrowLeft, b"\x1b[D"),
    (Key::ArrowRight, b"\x1b[C"),
    (Key::End, b"\x1b[F"),
    (Key::PageDown, b"\x1b[6~"),
    (Key::PageUp, b"\x1b[5~"),
];

fn editor(idx: u64, cx: &mut Cx) -> CaseResult {
    let colors = idx % 2 == 1;
    let l = seq_decode(EDIT.len() as u64, 0, idx / 2);
    // A text that does not fit, with the cursor in its middle.
    let mut keys = vec![];
    for t in ["aé b", "  cd", "", "ef", "g", "", "h i", "j", "kl", "m"] {
        keys.extend(typed(t));
        keys.push(ENTER);
    }
    keys.extend([EDIT[6].clone(), EDIT[6].clone(), EDIT[10].clone()]);
    let from = keys.len();
    keys.extend(l.iter().map(|i| EDIT[*i].clone()));
    keys.push((Key::Escape, b"\x1b"));
    let p = format!(
        "PRINT \"before\"\n{}EDIT\nPRINT \"after\"\nCOLOR 5, 6\nPRINT \"z\";\nEND 2\n",
        if colors { "COLOR 3, 4\n" } else { "" }
    );
    let b = both(Mode::Interactive(&p), (40, 8), &keys);
    cx.step(keys.len() as u64);
    cx.state(&(b.term.rows(), &b.alt, b.shown.code));
    let bad = |k: &str| Failure::new(format!("editor:{}", k), format!("{:?}: {}", &keys[from..], b.detail()));
    b.check().map_err(bad)?;
    let last = b.scr.snaps.iter().rev().find(|s| s.alt);
    if b.alt.is_none() || last.map(|s| &s.rows) != b.alt.as_ref() {
        return Err(Failure::new("editor:screen", format!("{:?}: expected {:?}, got {:?}", &keys[from..], last, b.alt)));
    }
    Ok(())
}

// -- Interrupts.

const LOOPS: [(&str, i32, &str); 6] = [
    ("PRINT \"+\": DO: LOOP", 130, ""),
    ("PRINT \"+\": DO: K$ = INKEY: LOOP", 130, ""),
    ("COLOR 1, 2: PRINT \"+\": WHILE TRUE: SLEEP 0.01: WEND", 130, ""),
    ("ON ERROR RESUME NEXT: PRINT \"+\": DO: LOOP: PRINT \"-\"", 130, ""),
    ("PRINT \"+\": @A: GOTO @A", 130, ""),
    ("PRINT \"+\": SUB S: DO: LOOP: END SUB: S: PRINT \"-\"", 130, ""),
];

fn interrupts(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[LOOPS.len() as u64, 2, 3], idx);
    let (p, code, _) = LOOPS[d[0]];
    let home = Home::new();
    let mut cmd = command(home.root());
    if d[1] == 1 {
        cmd.args(["-i", "--local-drive=memory://"]);
    }
    cmd.arg(home.write("p.bas", p));
    let sent: &[u8] = [b"\x03".as_slice(), b"abc\x1b[A\x03", b"\x03\x03\r"][d[2]];
    let s = Pty::new(40, 10).unwrap().run(&mut cmd, &[(b"+", sent)]).unwrap();
    cx.step(1);
    cx.state(&(&s.bytes, s.code));
    let (t, _) = emulate(&s.bytes, 40, 10);
    if s.timeout || s.code != code || !s.restored || t.alt() || !t.cursor || t.rows().iter().any(|r| r.contains('-')) {
        return Err(Failure::new(
            "interrupts",
            format!("{:?} {:?}: got {} {:?} restored {} timeout {}", p, sent, s.code, t.rows(), s.restored, s.timeout),
        ));
    }
    Ok(())
}

/// Interrupts at the prompt bring it back.
fn resumes(idx: u64, cx: &mut Cx) -> CaseResult {
    let home = Home::new();
    let mut cmd = command(home.root());
    cmd.arg("--local-drive=memory://").env("LINES", "24").env("COLUMNS", "60");
    let (line, at): (&[u8], &[u8]) = [
        (b"PRINT \"+\" + \"+\": DO: LOOP\r".as_slice(), b"++".as_slice()),
        (b"INPUT \"+\" + \"+\"; A\r", b"++"),
        (b"abc", b"abc"),
        (b"", b"Ready"),
        (b"EDIT\r", b"ESC"),
    ][idx as usize];
    // The prompt shows up, something gets going, it is interrupted, and the next command runs.
    let mut keys: Vec<(&[u8], &[u8])> = vec![(b"Ready", line), (at, b"\x03")];
    if idx == 3 {
        keys = vec![(b"Ready", b"\x03")];
    }
    if idx == 4 {
        // The editor takes the interrupt as the way out of it.
        keys = vec![(b"Ready", line), (b"\x1b[?1049h", b"\x03")];
    }
    keys.push((b"Ready", b"END 7\r"));
    let s = Pty::new(60, 24).unwrap().run(&mut cmd, &keys).unwrap();
    cx.step(2);
    cx.state(&(&s.bytes, s.code));
    if s.timeout || s.code != 7 || !s.restored {
        return Err(Failure::new(
            "resumes",
            format!("{}: got {} restored {} timeout {} {:?}", idx, s.code, s.restored, s.timeout, String::from_utf8_lossy(&s.bytes)),
        ));
    }
    Ok(())
}

// -- Sizes.

const SIZES: [(u16, u16); 6] = [(80, 24), (1, 1), (7, 100), (200, 3), (65535, 2), (132, 43)];
const VARS: [Option<&str>; 7] = [None, Some(""), Some("12"), Some("0x10"), Some("-1"), Some("65536"), Some("33 ")];

fn sizes(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[SIZES.len() as u64, VARS.len() as u64, VARS.len() as u64], idx);
    let (w, h) = SIZES[d[0]];
    let home = Home::new();
    let run = |p: &str| {
        let mut cmd = command(home.root());
        cmd.env_remove("LINES").env_remove("COLUMNS");
        if let Some(v) = VARS[d[1]] {
            cmd.env("COLUMNS", v);
        }
        if let Some(v) = VARS[d[2]] {
            cmd.env("LINES", v);
        }
        cmd.arg(home.write("p.bas", p));
        Pty::new(w, h).unwrap().run(&mut cmd, &[]).unwrap()
    };
    // What is shown may not fit.
    let s = run("END SCRCOLS MOD 100\n");
    let s2 = run("END SCRROWS\n");
    let c = if VARS[d[1]] == Some("12") { 12 } else { w };
    let r = if VARS[d[2]] == Some("12") { 12 } else { h };
    let first = (c % 100) as i32;
    cx.step(2);
    cx.state(&(&s.bytes, s.code));
    if s.timeout || s.code != first || s2.code != r as i32 || !s.restored {
        return Err(Failure::new(
            "sizes",
            format!("{}x{} {:?} {:?}: expected {} {}, got {} {}", w, h, VARS[d[1]], VARS[d[2]], first, r, s.code, s2.code),
        ));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let n = tier.pick(3, 4);
    vec![
        Section::new(
            "display",
            seq_count(STATEMENTS.len() as u64, 0, n),
            |i| format!("{:?}", seq_decode(STATEMENTS.len() as u64, 0, i)),
            display,
        ),
        Section::new(
            "keys",
            seq_count(KEYS.len() as u64, 1, tier.pick(2, 3)),
            |i| format!("{:?}", seq_decode(KEYS.len() as u64, 1, i)),
            keys,
        ),
        Section::new("typing", 2 * seq_count(LINE.len() as u64, 0, n), |i| format!("{}", i), typing),
        Section::new("prompt", seq_count(PROMPT.len() as u64, 0, n), |i| format!("{}", i), prompt),
        Section::new("editor", 2 * seq_count(EDIT.len() as u64, 0, n), |i| format!("{}", i), editor),
        Section::new("interrupts", product(&[LOOPS.len() as u64, 2, 3]), |i| format!("{}", i), interrupts),
        Section::new("resumes", 5, |i| format!("{}", i), resumes),
        Section::new("sizes", product(&[6, 7, 7]), |i| format!("{:?}", mixed(&[6, 7, 7], i)), sizes),
    ]
}
