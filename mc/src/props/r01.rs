//! R01: the interactive session goes on until it is told to end, and loses nothing without asking.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, seq_count, seq_decode};
use crate::machx::{self, HookYielder, Mach, Opts};
use crate::scr::Ev;
use endbasic_repl::editor::Editor;
use endbasic_std::Signal;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "R01",
        rule: "All sequences of up to 4 (thorough: 5) of 21 things to do at the prompt and of 5 answers to its questions, \
               which ones depending on the state of the session, with the real editor, storage and machine, on an \
               interactive console; of up to 4 (thorough: 5) of 7 of them on one that is not; all these \
               after each of 10 AUTOEXEC.BAS files for up to 2 (thorough: 3); any two lines recalled after all sequences of up to 4 (thorough: 5) of 7 kinds of lines and \
               after up to 300 lines. Compared with a model of the session: what the code \
               got to do, its variables, the stored program, whether it has changes, the file, the messages, and whether \
               and with which code the session ends.",
        assumptions: &["the end of the input is not the answer to whether to quit"],
        sections,
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Act {
    Out,
    Count,
    RuntimeError,
    CompileError,
    Partial,
    End3,
    End,
    Run,
    EditOut,
    EditEnd,
    EditLook,
    EditStop,
    Save,
    New,
    Load,
    Forever,
    AskStop,
    Ask,
    List,
    Clear,
    Eof,
    // Answers.
    Yes,
    No,
    Empty,
    Stop,
    /// The end of the input, as an answer.
    NoMore,
}

const COMMANDS: [Act; 21] = [
    Act::Out,
    Act::Count,
    Act::RuntimeError,
    Act::CompileError,
    Act::Partial,
    Act::End3,
    Act::End,
    Act::Run,
    Act::EditOut,
    Act::EditEnd,
    Act::EditLook,
    Act::EditStop,
    Act::Save,
    Act::New,
    Act::Load,
    Act::Forever,
    Act::AskStop,
    Act::Ask,
    Act::List,
    Act::Clear,
    Act::Eof,
];

const PIPED: [Act; 7] =
    [Act::Out, Act::Count, Act::RuntimeError, Act::CompileError, Act::End3, Act::End, Act::Clear];

const ANSWERS: [Act; 5] = [Act::Yes, Act::No, Act::Empty, Act::Stop, Act::NoMore];

fn typed(s: &str, end: &[Key]) -> Vec<Key> {
    let mut v: Vec<Key> = s.chars().map(|c| if c == '\n' { Key::NewLine } else { Key::Char(c) }).collect();
    v.extend_from_slice(end);
    v
}

impl Act {
    fn keys(self) -> Vec<Key> {
        use Act::*;
        match self {
            Out => typed("OUT 1\n", &[]),
            Count => typed("n = n + 1: OUT n\n", &[]),
            RuntimeError => typed("OUT 2: OUT ASC(\"\"): OUT 3\n", &[]),
            CompileError => typed("OUT 2: PRINT (\n", &[]),
            Partial => typed("END", &[Key::Interrupt]),
            End3 => typed("END 3\n", &[]),
            End => typed("END\n", &[]),
            Run => typed("RUN\n", &[]),
            EditOut => typed("EDIT\nOUT 7\n", &[Key::Escape]),
            EditEnd => typed("EDIT\nEND 4\n", &[Key::Escape]),
            EditLook => typed("EDIT\n", &[Key::Home, Key::Escape]),
            EditStop => typed("EDIT\nOUT 8\n", &[Key::Interrupt]),
            Save => typed("SAVE \"P\"\n", &[]),
            New => typed("NEW\n", &[]),
            Load => typed("LOAD \"P\"\n", &[]),
            Forever => typed("n = n + 10: DO: LOOP: OUT 4\n", &[]),
            AskStop => typed("n = n + 100: INPUT z$: OUT 4\nab", &[Key::Interrupt]),
            Ask => typed("INPUT z$: OUT z\nhi\n", &[]),
            List => typed("LIST\n", &[]),
            Clear => typed("CLEAR\n", &[]),
            Eof | NoMore => vec![Key::EofOrDelete],
            Yes => typed("y\n", &[]),
            No => typed("n\n", &[]),
            Empty => typed("\n", &[]),
            Stop => typed("y", &[Key::Interrupt]),
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Model {
    n: i32,
    lines: Vec<&'static str>,
    /// The line of the cursor in the editor.
    cur: usize,
    dirty: bool,
    named: bool,
    file: Option<Vec<&'static str>>,
    pending: Option<Act>,
    out: Vec<String>,
    prompts: usize,
    breaks: usize,
    errors: usize,
    listed: Vec<&'static str>,
    ended: Option<i32>,
}

impl Model {
    fn insert(&mut self, line: &'static str) {
        if self.lines.is_empty() {
            self.lines.push("");
        }
        self.lines.insert(self.cur, line);
        self.cur += 1;
        self.dirty = true;
    }

    fn load(&mut self, lines: Vec<&'static str>, named: bool) {
        self.lines = lines;
        self.cur = 0;
        self.dirty = false;
        self.named = named;
        self.n = 0;
    }

    /// Does what was asked once there is nothing to lose.
    fn commit(&mut self, a: Act) {
        match a {
            Act::End3 => self.ended = Some(3),
            Act::End => self.ended = Some(0),
            Act::New => self.load(vec![], false),
            Act::Load => match self.file.clone() {
                Some(l) => self.load(l, true),
                None => self.errors += 1,
            },
            _ => unreachable!(),
        }
    }

    fn step(&mut self, a: Act) {
        use Act::*;
        if let Some(p) = self.pending.take() {
            match a {
                Yes => self.commit(p),
                No | Empty => (),
                Stop => {
                    self.breaks += 1;
                }
                NoMore => self.errors += 1,
                _ => unreachable!(),
            }
            if self.ended.is_none() {
                self.prompts += 1;
            }
            return;
        }
        match a {
            Out => self.out.push("1%".to_owned()),
            Count => {
                self.n += 1;
                self.out.push(format!("{}%", self.n));
            }
            RuntimeError => {
                self.out.push("2%".to_owned());
                self.errors += 1;
            }
            CompileError => self.errors += 1,
            Partial => self.breaks += 1,
            End3 | End | New | Load => {
                if self.dirty {
                    self.pending = Some(a);
                    return;
                }
                self.commit(a);
            }
            Run => {
                self.n = 0;
                for l in &self.lines {
                    match *l {
                        "OUT 7" => self.out.push("7%".to_owned()),
                        "OUT 8" => self.out.push("8%".to_owned()),
                        "END 4" => break,
                        _ => (),
                    }
                }
            }
            EditOut => self.insert("OUT 7"),
            EditEnd => self.insert("END 4"),
            EditLook => {
                if self.lines.is_empty() {
                    self.lines.push("");
                }
            }
            EditStop => {
                self.insert("OUT 8");
                self.breaks += 1;
            }
            Save => {
                self.file = Some(self.lines.clone());
                self.dirty = false;
                self.named = true;
            }
            Forever => {
                self.n += 10;
                self.breaks += 1;
            }
            AskStop => {
                self.n += 100;
                self.breaks += 1;
            }
            Ask => self.out.push("hi$".to_owned()),
            List => self.listed.extend(self.lines.iter().filter(|l| !l.is_empty())),
            Clear => self.n = 0,
            Eof => self.ended = Some(0),
            _ => unreachable!(),
        }
        if self.ended.is_none() {
            self.prompts += 1;
        }
    }

    /// What can be done in this state.
    fn choices(&self, interactive: bool) -> &'static [Act] {
        match self.pending {
            // What the end of the input does to a session that ends is not specified.
            Some(Act::End | Act::End3) => &ANSWERS[..4],
            Some(_) => &ANSWERS,
            None if interactive => &COMMANDS,
            None => &PIPED,
        }
    }
}

const AUTOEXEC: [(&str, &[&str], i32, usize); 10] = [
    ("", &[], 0, 0),
    ("OUT 5", &["5%"], 0, 0),
    ("n = 20: OUT 5", &["5%"], 20, 0),
    ("n = 20: OUT 5: END 6: OUT 6", &["5%"], 20, 0),
    ("n = 20: OUT 5: OUT ASC(\"\")", &["5%"], 20, 1),
    ("OUT 5: PRINT (", &[], 0, 1),
    ("n = 20: ON ERROR RESUME NEXT: OUT ASC(\"\"): OUT 5: ON ERROR GOTO 0", &["5%"], 20, 0),
    ("FUNCTION twice(x): twice = 2 * x: END FUNCTION: n = twice(10): OUT 5", &["5%"], 20, 0),
    ("n = 20: DO: LOOP", &[], 20, 1),
    ("GOSUB @a: OUT 5: END\n@a: n = 20: RETURN", &["5%"], 20, 0),
];

fn play(acts: &[Act], autoexec: Option<usize>, interactive: bool, cx: &mut Cx) -> CaseResult {
    let mut model = Model { prompts: 1, ..Default::default() };
    let mut keys = vec![];
    for a in acts {
        model.step(*a);
        keys.extend(a.keys());
    }
    // The session has to end: a program with changes makes it ask.
    let mut tail = vec![];
    if model.ended.is_none() {
        if model.pending.is_some() {
            tail.push(Act::No);
        }
        tail.push(Act::Eof);
    }
    for a in &tail {
        model.step(*a);
        keys.extend(a.keys());
    }
    let mut auto_errors = 0;
    let mut out = vec![];
    let mut text = None;
    if let Some(i) = autoexec {
        let (t, o, n, e) = AUTOEXEC[i];
        text = Some(t);
        auto_errors = e;
        out.extend(o.iter().map(|s| s.to_string()));
        // The variable starts at what AUTOEXEC.BAS left, until it is cleared.
        if n > 0 {
            let mut again = Model { prompts: 1, n, ..Default::default() };
            for a in acts.iter().chain(&tail) {
                again.step(*a);
            }
            model = again;
        }
    }
    out.extend(model.out.iter().cloned());

    let program: Rc<RefCell<Editor>> = Rc::new(RefCell::new(Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    if let Some(t) = text {
        block_on(storage.borrow_mut().put("MEMORY:/AUTOEXEC.BAS", t.as_bytes()))
            .map_err(|e| Failure::new("machinery:r01", e.to_string()))?;
    }
    // Stops whatever runs for long.
    let last = Rc::new(RefCell::new((0usize, 0usize)));
    let hook = Rc::new(RefCell::new(None));
    let hook2 = hook.clone();
    let mut m = Mach::build(Opts { interactive, ..Default::default() }, Some((program.clone(), storage.clone())), |b| {
        b.with_yielder(Rc::new(RefCell::new(HookYielder(Box::new(move || {
            let h: std::cell::Ref<Option<(Rc<RefCell<crate::scr::Scr>>, async_channel::Sender<Signal>)>> = hook2.borrow();
            let (con, tx) = h.as_ref().unwrap();
            // The console is borrowed while a listing goes on.
            let Ok(con) = con.try_borrow() else { return };
            let mut l = last.borrow_mut();
            if con.key_count != l.0 {
                *l = (con.key_count, 0);
            }
            l.1 += 1;
            if l.1 == 60 {
                let _ = tx.try_send(Signal::Break);
            }
        })))))
    });
    *hook.borrow_mut() = Some((m.con.clone(), m.tx.clone()));
    m.con.borrow_mut().keys = keys.into();
    m.con.borrow_mut().end_key = None;

    let fail = |key: &str, what: String| {
        Err(Failure::new(key, format!("{:?} {:?} {}\nmodel {:?}", acts, text.unwrap_or(""), what, model)))
    };
    if text.is_some() {
        if let Err(e) = block_on(endbasic_repl::try_load_autoexec(&mut m.m, m.con.clone(), storage.clone())) {
            return fail("r01:autoexec", format!("fails: {}", e));
        }
        let mut c = m.con.borrow_mut();
        let n = c.log.iter().filter(|e| matches!(e, Ev::Print(t) if t.starts_with("AUTOEXEC.BAS"))).count();
        if n != auto_errors {
            return fail("r01:autoexec", format!("{} messages instead of {}", n, auto_errors));
        }
        c.log.clear();
    }
    let r = block_on(endbasic_repl::run_repl_loop(&mut m.m, m.con.clone(), program.clone()));
    cx.step(acts.len() as u64);
    let r = r.map_err(|e| e.to_string());
    if r != Ok(model.ended.unwrap()) {
        return fail("r01:end", format!("the session ends with {:?}", r));
    }
    let left = m.con.borrow().keys.len();
    if left > 0 {
        return fail("r01:end", format!("the session ends with {} keys to go", left));
    }
    let got = m.out();
    if got != out {
        return fail("r01:out", format!("output {:?} instead of {:?}", got, out));
    }
    let want: String = model.lines.iter().map(|l| format!("{}\n", l)).collect();
    if program.borrow().text() != want || program.borrow().is_dirty() != model.dirty || program.borrow().name().is_some() != model.named {
        let p = program.borrow();
        return fail("r01:program", format!("program {:?}, {:?}, changes {}", p.text(), p.name(), p.is_dirty()));
    }
    let file = block_on(storage.borrow().get("MEMORY:/P.BAS")).ok().map(|f| String::from_utf8_lossy(&f).into_owned());
    let want = model.file.as_ref().map(|l| l.iter().map(|l| format!("{}\n", l)).collect::<String>());
    if file != want {
        return fail("r01:file", format!("file {:?}", file));
    }
    let log = std::mem::take(&mut m.con.borrow_mut().log);
    let prints: Vec<&str> = log.iter().filter_map(|e| if let Ev::Print(t) = e { Some(t.as_str()) } else { None }).collect();
    let count = |f: &dyn Fn(&str) -> bool| prints.iter().filter(|t| f(t)).count();
    let ready = count(&|t| t == "Ready");
    if ready != if interactive { model.prompts } else { 0 } {
        return fail("r01:prompts", format!("{} prompts", ready));
    }
    // A question is stopped either way: it is the same to the user whether it is noted as such.
    let breaks = count(&|t| t == machx::BREAK);
    if breaks != model.breaks {
        return fail("r01:breaks", format!("{} breaks: {:?}", breaks, prints));
    }
    let errors = count(&|t| t.starts_with("ERROR: "));
    if errors != model.errors {
        return fail("r01:errors", format!("{} errors: {:?}", errors, prints));
    }
    if acts.contains(&Act::List) {
        let listed: Vec<&str> =
            prints.iter().copied().filter(|t| ["OUT 7", "OUT 8", "END 4"].contains(t)).collect();
        // What the editor shows is not listed.
        if !acts.iter().any(|a| matches!(a, Act::EditOut | Act::EditEnd | Act::EditLook | Act::EditStop))
            && listed != model.listed
        {
            return fail("r01:list", format!("{:?}", listed));
        }
    }
    let c = m.con.borrow();
    if c.alt_active() || !c.sync || !c.cursor || !c.bad.is_empty() {
        return fail("r01:console", format!("alternate {} sync {} cursor {} {:?}", c.alt_active(), c.sync, c.cursor, c.bad));
    }
    cx.state(&(&model.lines, model.n, model.dirty, model.ended, &model.out));
    cx.traces += 1;
    Ok(())
}

/// Everything that can be done from here.
fn explore(acts: &mut Vec<Act>, model: &Model, left: u32, auto: Option<usize>, interactive: bool, cx: &mut Cx) -> CaseResult {
    if left == 0 || model.ended.is_some() {
        return play(acts, auto, interactive, cx);
    }
    for a in model.choices(interactive) {
        let mut m = model.clone();
        m.step(*a);
        acts.push(*a);
        let r = explore(acts, &m, left - 1, auto, interactive, cx);
        acts.pop();
        r?;
    }
    Ok(())
}

// --- Lines that are recalled -------------------------------------------------------------------

/// What is typed, whether it can be recalled and what it shows; the number makes each different.
const TYPED: usize = 7;
fn line(kind: usize, n: usize) -> (Vec<Key>, Option<String>, Vec<String>) {
    let keep = |s: String, end: &[Key], out: Vec<String>| {
        let mut k = typed(&s, &[Key::NewLine]);
        k.extend_from_slice(end);
        (k, Some(s), out)
    };
    match kind {
        0 => keep(format!("OUT {}", n), &[], vec![format!("{}%", n)]),
        1 => keep(format!("OUT {}: BAD (", n), &[], vec![]),
        2 => keep(format!("OUT {}: OUT ASC(\"\")", n), &[], vec![format!("{}%", n)]),
        3 => (typed("OUT 9999", &[Key::Interrupt]), None, vec![]),
        4 => (vec![Key::NewLine], None, vec![]),
        5 => keep(format!("INPUT z$: OUT {}; z$", n), &typed("OUT 8888\n", &[]), vec![format!("{}% OUT 8888$", n)]),
        _ => keep(format!("OUT {}", 7), &[], vec!["7%".to_owned()]),
    }
}

fn recall(kinds: &[usize], ups: &[usize], cx: &mut Cx) -> CaseResult {
    let mut keys = vec![];
    let mut past: Vec<(usize, usize)> = vec![];
    let mut exp: Vec<String> = vec![];
    for (n, k) in kinds.iter().enumerate() {
        let (t, kept, out) = line(*k, n);
        keys.extend(t);
        exp.extend(out);
        if kept.is_some() {
            past.push((*k, n));
        }
    }
    for up in ups {
        keys.extend(vec![Key::ArrowUp; *up]);
        keys.push(Key::NewLine);
        if *up > 0 && !past.is_empty() {
            let again = past[past.len().saturating_sub(*up)];
            let (t, kept, out) = line(again.0, again.1);
            // The answer to its question.
            keys.extend_from_slice(&t[kept.unwrap().chars().count() + 1..]);
            exp.extend(out);
            past.push(again);
        }
    }
    keys.push(Key::EofOrDelete);
    let program: Rc<RefCell<Editor>> = Rc::new(RefCell::new(Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    let mut m = Mach::build(Opts { interactive: true, ..Default::default() }, Some((program.clone(), storage.clone())), |b| b);
    m.con.borrow_mut().keys = keys.into();
    m.con.borrow_mut().end_key = None;
    let r = block_on(endbasic_repl::run_repl_loop(&mut m.m, m.con.clone(), program.clone())).map_err(|e| e.to_string());
    let got = m.out();
    cx.step((kinds.len() + ups.len()) as u64);
    cx.state(&(kinds, ups));
    cx.traces += 1;
    if r != Ok(0) || got != exp || !m.con.borrow().keys.is_empty() {
        let at = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        return Err(Failure::new(
            format!("r01:recall {:?} {:?}", &kinds[..kinds.len().min(8)], ups),
            format!("{} lines, recalled {:?}: {:?}; output {} is {:?}, not {:?}", kinds.len(), ups, r, at, got.get(at), exp.get(at)),
        ));
    }
    Ok(())
}

fn recall_sections(tier: Tier) -> Vec<Section> {
    let k = TYPED as u64;
    let hi = tier.pick(4, 5);
    let r = [seq_count(k, 0, hi), 7, 7];
    const N: [usize; 8] = [9, 10, 11, 16, 33, 65, 101, 300];
    let far = move |i: u64| -> (usize, [usize; 2]) {
        let v = mixed(&[N.len() as u64, 10, 3], i);
        let n = N[v[0]];
        (n, [[1, 2, 7, 8, 9, 10, 31, n - 1, n, n + 3][v[1]], [0, 1, n][v[2]]])
    };
    vec![
        Section::new(
            "recalled lines",
            crate::engine::product(&r),
            move |i| format!("{:?}", mixed(&r, i)),
            move |i, cx| {
                let v = mixed(&r, i);
                recall(&seq_decode(k, 0, v[0] as u64), &v[1..], cx)
            },
        ),
        Section::new(
            "recalled from long ago",
            N.len() as u64 * 30,
            move |i| format!("{:?}", far(i)),
            move |i, cx| {
                let (n, ups) = far(i);
                recall(&vec![0; n], &ups, cx)
            },
        ),
    ]
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut v = vec![];
    for (name, interactive, n, set) in
        [("sessions", true, tier.pick(4, 5), &COMMANDS[..]), ("input without a person", false, tier.pick(4, 5), &PIPED[..])]
    {
        let k = set.len() as u64;
        // The first two, of which the second may be an answer.
        v.push(Section::new(
            name,
            k * k,
            move |i| format!("{:?} and {}*", set[(i / k) as usize], i % k),
            move |i, cx| {
                let first = set[(i / k) as usize];
                let mut m = Model { prompts: 1, ..Default::default() };
                m.step(first);
                let mut acts = vec![first];
                if m.ended.is_some() {
                    return if i % k == 0 { play(&acts, None, interactive, cx) } else { Ok(()) };
                }
                let Some(second) = m.choices(interactive).get((i % k) as usize) else { return Ok(()) };
                m.step(*second);
                acts.push(*second);
                explore(&mut acts, &m, n - 2, None, interactive, cx)
            },
        ));
    }
    {
        let k = COMMANDS.len() as u64;
        let n = tier.pick(2, 3);
        v.push(Section::new(
            "after AUTOEXEC.BAS",
            AUTOEXEC.len() as u64 * k,
            move |i| format!("{:?} and {:?}*", AUTOEXEC[(i / k) as usize].0, COMMANDS[(i % k) as usize]),
            move |i, cx| {
                let first = COMMANDS[(i % k) as usize];
                let mut m = Model { prompts: 1, ..Default::default() };
                m.step(first);
                explore(&mut vec![first], &m, n - 1, Some((i / k) as usize), true, cx)
            },
        ));
    }
    v.extend(recall_sections(tier));
    v
}
