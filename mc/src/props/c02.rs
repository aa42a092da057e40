//! C02: long listings stop at every screenful, lose nothing, and can be abandoned.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use crate::scr::Ev;
use endbasic_std::console::Key;
use endbasic_std::storage::Storage;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "LIST: all sequences of up to 4 (thorough: 6) lines of 8 lengths around multiples of the width of the console, \
               ASCII and not, and short programs of up to 40 lines, on consoles of 6 widths and heights 1 to 7, keys of 5 kinds \
               at the pauses; DIR of up to 40 files; DISASM of 12 programs; HELP of every topic; \
               all of these on consoles of 7 widths and 9 heights. The listing is compared with what a console without a person \
               gets; it is abandoned with Escape and with an interrupt at every one of its pauses; after each the \
               session has to go on with the same colors.",
        assumptions: &[],
        sections,
    }
}

/// A listing as it appears on an interactive console.
#[derive(Debug)]
enum Item {
    Line(String),
    Pause,
}

/// Tells the listing from the messages at the pauses.
fn items(log: &[Ev]) -> Result<Vec<Item>, String> {
    let mut v: Vec<Item> = vec![];
    let mut cur = String::new();
    let mut pending = false;
    for e in log {
        match e {
            Ev::Print(t) => {
                cur.push_str(t);
                v.push(Item::Line(std::mem::take(&mut cur)));
                pending = false;
            }
            Ev::Write(t) => {
                cur.push_str(t);
                pending = true;
            }
            Ev::Key(_) => {
                let message = if pending {
                    pending = false;
                    std::mem::take(&mut cur)
                } else {
                    match v.pop() {
                        Some(Item::Line(s)) => s,
                        _ => return Err("asks for a key without a message".to_owned()),
                    }
                };
                if message.trim().is_empty() {
                    return Err("asks for a key with an empty message".to_owned());
                }
                v.push(Item::Pause);
            }
            Ev::Clear => return Err("clears the screen".to_owned()),
            _ => (),
        }
    }
    if pending {
        v.push(Item::Line(cur));
    }
    Ok(v)
}

fn rows(line: &str, w: usize) -> usize {
    line.chars().count().div_ceil(w).max(1)
}

/// Counts as the most that a line can take.
fn most(line: &str, w: usize) -> usize {
    line.len() / w + 1
}

struct Rig {
    m: Mach,
    w: usize,
    h: usize,
}

fn rig(w: usize, h: usize, program: &str, storage: Option<Rc<RefCell<Storage>>>) -> (Rig, Rc<RefCell<MemProgram>>) {
    let p = Rc::new(RefCell::new(MemProgram { text: program.to_owned(), ..Default::default() }));
    let storage = storage.unwrap_or_else(|| Rc::new(RefCell::new(Storage::default())));
    let m = Mach::build(Opts { size: (w, h), interactive: true, ..Default::default() }, Some((p.clone(), storage)), |b| b);
    (Rig { m, w, h }, p)
}

impl Rig {
    fn exec(&mut self, command: &str, interactive: bool, keys: Vec<Key>) -> (Outcome, Vec<Ev>, usize) {
        {
            let mut c = self.m.con.borrow_mut();
            c.interactive = interactive;
            c.keys = keys.into();
            c.end_key = None;
            c.log.clear();
            c.reads = 0;
        }
        self.m.m.drain_signals();
        let o = self.m.feed(command);
        let mut c = self.m.con.borrow_mut();
        (o, std::mem::take(&mut c.log), c.reads)
    }

    fn check(&mut self, command: &str, keys: &[Key], cx: &mut Cx) -> CaseResult {
        let (w, h) = (self.w, self.h);
        let fail = |key: &str, detail: String| {
            Err(Failure::new(key, format!("{} on a console of {}x{}\n{}", command, w, h, detail)))
        };
        let colors = (Some(7), Some(4));
        {
            let mut c = self.m.con.borrow_mut();
            (c.fg, c.bg) = colors;
        }
        // Without a person in front of the console.
        let (o, log, reads) = self.exec(command, false, vec![]);
        if reads > 0 {
            return fail("c02:asks-nobody", format!("waits for a key on a console that is not interactive; {:?}", o));
        }
        if o != Outcome::Done(None) {
            return fail("c02:fails", format!("{:?}", o));
        }
        let want = match items(&log) {
            Ok(v) => v
                .into_iter()
                .map(|i| match i {
                    Item::Line(s) => s,
                    Item::Pause => unreachable!(),
                })
                .collect::<Vec<_>>(),
            Err(e) => return fail("c02:strange", e),
        };
        cx.step(1);

        // With somebody who reads everything.
        let all: Vec<Key> = (0..want.len() + 2).map(|i| keys[i % keys.len()].clone()).collect();
        let (o, log, _) = self.exec(command, true, all.clone());
        if o != Outcome::Done(None) {
            return fail("c02:stops", format!("goes on at every pause with {:?} but ends with {:?}", keys, o));
        }
        let shown = match items(&log) {
            Ok(v) => v,
            Err(e) => return fail("c02:strange", e),
        };
        let lines: Vec<&String> = shown.iter().filter_map(|i| if let Item::Line(s) = i { Some(s) } else { None }).collect();
        if lines.len() != want.len() || lines.iter().zip(&want).any(|(a, b)| *a != b) {
            return fail("c02:content", format!("expected {:?}\nshown {:?}", want, lines));
        }
        let mut since: Vec<&str> = vec![];
        let mut pauses = 0;
        let mut at = 0;
        for (i, it) in shown.iter().enumerate() {
            match it {
                Item::Line(s) => {
                    since.push(s);
                    at += 1;
                    let n: usize = since.iter().map(|l| rows(l, w)).sum();
                    if since.len() > 1 && n > h - 1 {
                        return fail(
                            "c02:unseen",
                            format!("{} rows in {} lines without a pause: {:?}", n, since.len(), shown),
                        );
                    }
                }
                Item::Pause => {
                    pauses += 1;
                    let n: usize = since.iter().map(|l| most(l, w)).sum();
                    let next = want.get(at).map(|l| most(l, w)).unwrap_or(1);
                    if since.is_empty() {
                        return fail("c02:useless", format!("pauses with nothing new at {}: {:?}", i, shown));
                    }
                    if n + next < h {
                        return fail("c02:early", format!("pauses at {} when more fits: {:?}", i, shown));
                    }
                    since.clear();
                }
            }
        }
        {
            let c = self.m.con.borrow();
            if (c.fg, c.bg) != colors {
                return fail("c02:colors", format!("colors are {:?} at the end", (c.fg, c.bg)));
            }
            if !c.bad.is_empty() {
                return fail("c02:console", format!("{:?}", c.bad));
            }
        }
        cx.step(1);
        if pauses > 0 {
            cx.count("paused listings");
        }
        cx.state(&(&command, w, h, want.len(), pauses));

        // Abandoned at every pause.
        for k in 0..pauses {
            for stop in [Key::Escape, Key::Interrupt] {
                let mut keys: Vec<Key> = all[..k].to_vec();
                keys.push(stop.clone());
                let (o, log, reads) = self.exec(command, true, keys);
                cx.step(1);
                if reads != k + 1 {
                    return fail("c02:abandon", format!("{:?} at pause {} but asks for {} keys", stop, k, reads));
                }
                match &o {
                    Outcome::Break => (),
                    Outcome::Err(e) if e.contains("Interrupted") => (),
                    o => return fail("c02:abandon", format!("{:?} at pause {} ends with {:?}", stop, k, o)),
                }
                let got = match items(&log) {
                    Ok(v) => v,
                    Err(e) => return fail("c02:strange", e),
                };
                let mut p = 0;
                let mut prefix = 0;
                for it in &shown {
                    prefix += 1;
                    if matches!(it, Item::Pause) {
                        p += 1;
                        if p == k + 1 {
                            break;
                        }
                    }
                }
                if format!("{:?}", &shown[..prefix]) != format!("{:?}", got) {
                    return fail(
                        "c02:abandon",
                        format!("{:?} at pause {}: expected {:?}\nshown {:?}", stop, k, &shown[..prefix], got),
                    );
                }
                let now = {
                    let c = self.m.con.borrow();
                    (c.fg, c.bg)
                };
                if now != colors {
                    return fail("c02:colors", format!("colors are {:?} after {:?} at pause {}", now, stop, k));
                }
            }
            // And the session goes on.
            let (o, log, _) = self.exec("PRINT 12", true, vec![]);
            let ok = o == Outcome::Done(None) && log.iter().any(|e| matches!(e, Ev::Print(t) if t.trim() == "12"));
            if !ok {
                return fail("c02:after", format!("PRINT after pause {}: {:?} {:?}", k, o, log));
            }
        }
        Ok(())
    }
}

const WIDTHS: [usize; 6] = [1, 2, 3, 5, 10, 40];

fn line(w: usize, kind: usize, n: usize) -> String {
    let c = (b'a' + (n % 26) as u8) as char;
    let len = match kind {
        0 => 0,
        1 => 1,
        2 => w - 1,
        3 => w,
        4 => w + 1,
        5 => 2 * w,
        6 => 3 * w + 1,
        _ => w,
    };
    std::iter::repeat_n(if kind == 7 { 'ñ' } else { c }, len).collect()
}

fn anykeys(i: usize) -> Vec<Key> {
    match i {
        0 => vec![Key::NewLine],
        1 => vec![Key::Char(' '), Key::Char('q'), Key::Char('ñ')],
        2 => vec![Key::PageDown, Key::ArrowDown, Key::End, Key::Home],
        3 => vec![Key::Tab, Key::Backspace, Key::ArrowLeft, Key::ArrowUp, Key::PageUp],
        _ => vec![Key::CarriageReturn, Key::EofOrDelete, Key::Unknown, Key::ArrowRight],
    }
}

const TALL: [usize; 9] = [2, 3, 4, 6, 9, 13, 24, 25, 60];
const WIDE: [usize; 7] = [15, 25, 40, 52, 53, 80, 132];

const PROGRAMS: [&str; 12] = [
    "",
    "a = 1",
    "PRINT 1",
    "FOR i = 1 TO 10: PRINT i: NEXT",
    "a = 3: IF a = 3 THEN PRINT \"a long string that takes more columns than other things do\" ELSE PRINT a",
    "DIM a(3, 4): a(1, 2) = 3: PRINT a(1, 2); a(2, 3)",
    "DATA 1, 2, 3: READ a, b, c: PRINT a; b; c",
    "SUB foo(x, y)\nPRINT x; y\nEND SUB\nfoo 1, 2\nfoo 3, 4",
    "FUNCTION foo(x, y)\nfoo = x + y\nEND FUNCTION\nPRINT foo(1, 2)\nGFX_LINE 1, 2, 3, 4",
    "@a\nGOSUB @b\nGOTO @a\n@b\nRETURN",
    "ON ERROR RESUME NEXT\nDO\nINPUT \"Value\"; a$\nLOOP UNTIL a$ = \"\"",
    "SELECT CASE 3\nCASE 1\nPRINT 1\nCASE 2 TO 9\nPRINT 2\nCASE ELSE\nPRINT 3\nEND SELECT\nWHILE FALSE\nWEND",
];

fn topics() -> Vec<String> {
    let mut found = vec![String::new(), "Language reference".to_owned()];
    let mut md = None;
    let m = Mach::build(Opts::default(), Some((Rc::new(RefCell::new(MemProgram::default())), Rc::new(RefCell::new(Storage::default())))), |b| {
        md = Some(b.callables_metadata());
        b
    });
    for c in md.unwrap().borrow().values() {
        let annotation = c.return_type().map(|t| t.annotation().to_string()).unwrap_or_default();
        found.push(format!("{}{}", c.name(), annotation));
        found.push(c.category().lines().next().unwrap().to_owned());
    }
    drop(m);
    let mut r = Mach::build(
        Opts { size: (200, 100), ..Default::default() },
        Some((Rc::new(RefCell::new(MemProgram::default())), Rc::new(RefCell::new(Storage::default())))),
        |b| b,
    );
    r.feed("HELP \"Language reference\"");
    for l in r.text().lines() {
        if let Some(t) = l.trim().strip_prefix(">> ") {
            found.push(t.split("    ").next().unwrap().to_owned());
        }
    }
    found.sort();
    found.dedup();
    found
}

fn sections(tier: Tier) -> Vec<Section> {
    let n = tier.pick(4, 6);
    let mut v = vec![];
    {
        // The last two lines vary within a case.
        let radices = [WIDTHS.len() as u64, 7];
        let inner = seq_count(8, 0, n - 2);
        v.push(Section::new(
            "LIST of lines of all lengths",
            product(&radices) * inner,
            move |i| {
                let d = mixed(&radices, i % product(&radices));
                format!("{}x{} {:?}*", WIDTHS[d[0]], d[1] + 1, seq_decode(8, 0, i / product(&radices)))
            },
            move |i, cx| {
                let d = mixed(&radices, i % product(&radices));
                let (w, h) = (WIDTHS[d[0]], d[1] + 1);
                let first = seq_decode(8, 0, i / product(&radices));
                let (mut r, p) = rig(w, h, "", None);
                let lo = if first.len() as u32 == n - 2 { 0 } else { 2 };
                for j in 0..seq_count(8, lo, 2) {
                    let mut text = String::new();
                    let last = seq_decode(8, lo, j);
                    for (k, kind) in first.iter().chain(&last).enumerate() {
                        writeln!(text, "{}", line(w, *kind, k)).unwrap();
                    }
                    p.borrow_mut().text = text.clone();
                    cx.traces += 1;
                    if let Err(mut f) = r.check("LIST", &anykeys((i + j) as usize % 5), cx) {
                        f.detail = format!("program {:?}\n{}", text, f.detail);
                        return Err(f);
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let radices = [41, WIDE.len() as u64, TALL.len() as u64];
        v.push(Section::new(
            "LIST and DIR of many",
            product(&radices),
            move |i| {
                let d = mixed(&radices, i);
                format!("{} of them on {}x{}", d[0], WIDE[d[1]], TALL[d[2]])
            },
            move |i, cx| {
                let d = mixed(&radices, i);
                let (w, h) = (WIDE[d[1]], TALL[d[2]]);
                let mut text = String::new();
                let mut storage = Storage::default();
                for k in 0..d[0] {
                    writeln!(text, "{} {}", k, "x".repeat((k * 37) % 90)).unwrap();
                    block_on(storage.put(&format!("MEMORY:/{}{}.BAS", "f".repeat((k * 17) % 60), k), &vec![0; k]))
                        .map_err(|e| Failure::new("machinery:c02", e.to_string()))?;
                }
                let (mut r, _) = rig(w, h, &text, Some(Rc::new(RefCell::new(storage))));
                r.check("LIST", &anykeys(d[0] % 5), cx)?;
                r.check("DIR", &anykeys(d[0] % 5), cx)?;
                cx.traces += 2;
                Ok(())
            },
        ));
    }
    {
        let radices = [PROGRAMS.len() as u64, WIDE.len() as u64, TALL.len() as u64];
        v.push(Section::new(
            "DISASM",
            product(&radices),
            move |i| {
                let d = mixed(&radices, i);
                format!("{:?} on {}x{}", PROGRAMS[d[0]], WIDE[d[1]], TALL[d[2]])
            },
            move |i, cx| {
                let d = mixed(&radices, i);
                let (mut r, _) = rig(WIDE[d[1]], TALL[d[2]], PROGRAMS[d[0]], None);
                r.check("DISASM", &anykeys(i as usize % 5), cx)
            },
        ));
    }
    {
        let topics = Rc::new(topics());
        let count = topics.len() as u64;
        let names: Vec<String> = topics.iter().cloned().collect();
        let again = names.clone();
        let radices = [count, WIDE.len() as u64, TALL.len() as u64];
        let command = |t: &str| if t.is_empty() { "HELP".to_owned() } else { format!("HELP \"{}\"", t) };
        v.push(Section::new(
            "HELP",
            product(&radices),
            move |i| {
                let d = mixed(&radices, i);
                format!("{} on {}x{}", command(&names[d[0]]), WIDE[d[1]], TALL[d[2]])
            },
            move |i, cx| {
                let d = mixed(&radices, i);
                let (mut r, _) = rig(WIDE[d[1]], TALL[d[2]], "", None);
                r.check(&command(&again[d[0]]), &anykeys(i as usize % 5), cx)
            },
        ));
    }
    v
}
