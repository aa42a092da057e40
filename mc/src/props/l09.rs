//! L09: interrupts stop a program promptly and leave the session usable.

use crate::engine::{
    CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode,
};
use crate::machx::{HookYielder, Mach, MemProgram, Opts, Outcome};
use async_trait::async_trait;
use endbasic_core::*;
use endbasic_std::Signal;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use endbasic_std::testutils::MockDateTime;
use futures_lite::FutureExt;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub fn property() -> Property {
    Property {
        id: "L09",
        rule: "Loops: all nests of up to 2 (thorough: 3) loops over 15 kinds (every statement, GOTO, GOSUB, \
               error handlers, recursion), run directly, with errors resumed or as a stored program, with an \
               interrupt at every single output and at every single yield, and the 22 shortest endless loops in four places. Blocking: an interrupt before and \
               during every blocking command in 6 contexts, and all sequences of up to 5 keys for two INPUTs. \
               Asynchronous operations: all programs of up to 3 (thorough: 4) operations with all patterns of \
               0 to 2 pending polls, against synchronous operations, and abandoned at every poll.",
        assumptions: &["interrupts are observed at yields, which every loop iteration and every return from a call has to have"],
        sections,
    }
}

const KINDS: usize = 15;

fn gen_loop(kinds: &[usize], d: usize, defs: &mut String) -> String {
    if d == kinds.len() {
        return String::new();
    }
    let inner = gen_loop(kinds, d + 1, defs);
    let body = format!("n = n + 1: OUT {}; n\n{}", d, inner);
    let c = format!("c{} = 0\n", d);
    let inc = format!("c{} = c{} + 1\n", d, d);
    match kinds[d] {
        0 => format!("FOR i{} = 1 TO 3\n{}NEXT\n", d, body),
        1 => format!("FOR i{} = 1.0 TO 0.0 STEP -0.5\n{}NEXT\n", d, body),
        2 => format!("{}WHILE c{} < 3\n{}{}WEND\n", c, d, inc, body),
        3 => format!("{}DO WHILE c{} < 3\n{}{}LOOP\n", c, d, inc, body),
        4 => format!("{}DO UNTIL c{} = 3\n{}{}LOOP\n", c, d, inc, body),
        5 => format!("{}DO\n{}{}LOOP WHILE c{} < 3\n", c, inc, body, d),
        6 => format!("{}DO\n{}{}LOOP UNTIL c{} = 3\n", c, inc, body, d),
        7 => format!("{}DO\nIF c{} = 3 THEN EXIT DO\n{}{}LOOP\n", c, d, inc, body),
        8 => format!("{}@t{}\n{}{}IF c{} < 3 THEN GOTO @t{}\n", c, d, inc, body, d, d),
        9 => format!(
            "{}@t{}\nIF c{} = 3 THEN GOTO @e{}\n{}{}GOTO @t{}\n@e{}\n",
            c, d, d, d, inc, body, d, d
        ),
        10 => format!(
            "{}GOTO @k{}\n@g{}\n{}{}IF c{} < 3 THEN GOSUB @g{}\nRETURN\n@k{}\nGOSUB @g{}\n",
            c, d, d, inc, body, d, d, d, d
        ),
        11 | 12 => format!(
            "{}GOTO @k{}\n@h{}\nON ERROR GOTO 0\n@k{}\n{}{}IF c{} < 3 THEN\nON ERROR GOTO @h{}\n{}\nEND IF\nON ERROR GOTO 0\n",
            c, d, d, d, inc, body, d, d, if kinds[d] == 11 { "FAIL" } else { "fl" }
        ),
        13 => {
            defs.push_str(&format!(
                "SUB t{d}(w)\nIF w > 0 THEN\nt{d} w - 1\n{body}t{d} w - 1\nEND IF\nEND SUB\n"
            ));
            format!("t{} 2\n", d)
        }
        _ => {
            defs.push_str(&format!(
                "FUNCTION f{d}(w)\nf{d} = 1\nIF w > 0 THEN\nf{d} = f{d}(w - 1) + 1\n{body}f{d} = f{d} + f{d}(w - 1)\nEND IF\nEND FUNCTION\n"
            ));
            format!("v{} = f{}(2)\n", d, d)
        }
    }
}

fn loop_program(kinds: &[usize], ctx: usize) -> String {
    let mut defs = "SUB fl\nFAIL\nEND SUB\n".to_owned();
    let body = gen_loop(kinds, 0, &mut defs);
    let vars: String = (0..kinds.len()).map(|d| format!("DIM SHARED c{} AS INTEGER\n", d)).collect();
    let h = if ctx == 1 { "ON ERROR RESUME NEXT\n" } else { "" };
    format!("DIM SHARED n AS INTEGER\n{}{}{}{}", vars, defs, h, body)
}

/// What a nest of loops outputs when nothing interrupts it.
fn loop_expected(depth: usize, d: usize, n: &mut i32, out: &mut Vec<String>) {
    if d == depth {
        return;
    }
    for _ in 0..3 {
        *n += 1;
        out.push(format!("{}% {}%", d, n));
        loop_expected(depth, d + 1, n, out);
    }
}

/// When to interrupt.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Never,
    Out(usize),
    Yield(u32),
}

struct LoopRun {
    m: Mach,
    end: Outcome,
    out: Vec<String>,
    yields: u32,
    out_at_break: usize,
}

fn run_loop(text: &str, stored: bool, at: At) -> LoopRun {
    let yields = Rc::new(Cell::new(0u32));
    let sent_at = Rc::new(Cell::new(0usize));
    let tx: Rc<RefCell<Option<async_channel::Sender<Signal>>>> = Rc::default();
    let outs: Rc<Cell<usize>> = Rc::default();
    let (y2, tx2, s2, o2) = (yields.clone(), tx.clone(), sent_at.clone(), outs.clone());
    let program = Rc::new(RefCell::new(MemProgram::default()));
    program.borrow_mut().text = text.to_owned();
    let p: Rc<RefCell<dyn Program>> = program;
    let mut m = Mach::build(
        Opts { max_out: 1000, ..Opts::default() },
        Some((p, Rc::new(RefCell::new(Storage::default())))),
        |b| {
            b.with_yielder(Rc::new(RefCell::new(HookYielder(Box::new(move || {
                y2.set(y2.get() + 1);
                if at == At::Yield(y2.get()) {
                    s2.set(o2.get());
                    let _ = tx2.borrow().as_ref().unwrap().try_send(Signal::Break);
                }
            })))))
        },
    );
    *tx.borrow_mut() = Some(m.tx.clone());
    let (tx3, o3, s3) = (tx.clone(), outs.clone(), sent_at.clone());
    m.env.state.borrow_mut().on_out = Some(Box::new(move |n| {
        o3.set(n);
        if at == At::Out(n) {
            s3.set(n);
            let _ = tx3.borrow().as_ref().unwrap().try_send(Signal::Break);
        }
    }));
    let end = m.feed(if stored { "RUN" } else { text });
    m.env.state.borrow_mut().on_out = None;
    let out = m.out();
    LoopRun { end, out, yields: yields.get(), out_at_break: sent_at.get(), m }
}

/// The shortest loops of every kind, none of which ends by itself.
const TIGHT: [&str; 22] = [
    "@a: GOTO @a",
    "@a\nIF TRUE THEN GOTO @a",
    "DO: LOOP",
    "DO WHILE TRUE: LOOP",
    "DO UNTIL FALSE: LOOP",
    "DO: LOOP WHILE TRUE",
    "DO: LOOP UNTIL FALSE",
    "WHILE TRUE: WEND",
    "FOR i = 1 TO 2: i = 0: NEXT",
    "FOR i = 2 TO 1 STEP -1: i = 3: NEXT",
    "@a\nON ERROR GOTO @a\nFAIL",
    "@a: ON ERROR GOTO @a: FAIL",
    "@a\nON ERROR GOTO @a\nfl",
    "@a\nON ERROR GOTO @a\nz = 0\nz = 1 MOD z",
    "@a\nON ERROR GOTO @a\nGOTO @c\n@b\nFAIL\n@c\nGOTO @b",
    "@a: ON ERROR RESUME NEXT: FAIL: GOTO @a",
    "GOTO @k\n@g\nRETURN\n@k\nGOSUB @g\nGOTO @k",
    "GOTO @k\n@g\nGOTO @g\n@k\nGOSUB @g",
    "DO: SELECT CASE 1: CASE 1: END SELECT: LOOP",
    "DO: EXIT DO: LOOP: @a: GOTO @a",
    "DO\nne\nLOOP",
    "DO: IF FALSE THEN : END IF: LOOP",
];

/// Interrupts the shortest loops after some iterations.
fn tight_section() -> Section {
    let r = [TIGHT.len() as u64, 4, 6, 2];
    let make = move |i: u64| {
        let v = mixed(&r, i);
        let defs = "SUB fl\nFAIL\nEND SUB\nSUB ne\nEND SUB\nDIM SHARED n AS INTEGER\n";
        let body = match v[1] {
            0 => format!("n = 7\n{}", TIGHT[v[0]]),
            1 => format!("SUB w\nn = 7\n{}\nEND SUB\nw", TIGHT[v[0]]),
            2 => format!("FUNCTION f\nn = 7\n{}\nEND FUNCTION\nx = 1 + f", TIGHT[v[0]]),
            _ => format!("FOR o = 1 TO 2\nIF TRUE THEN\nn = 7\n{}\nEND IF\nNEXT", TIGHT[v[0]]),
        };
        (format!("{}{}\n", defs, body), v[2] as u32 + 1, v[3] == 1)
    };
    Section::new("tight", product(&r), move |i| format!("{:?}", make(i)), move |i, cx| {
        let (text, at, stored) = make(i);
        let mut r = run_loop(&text, stored, At::Yield(at));
        cx.step(r.yields as u64 + 1);
        cx.traces += 1;
        cx.state(&(&text, at));
        let end = r.end.clone();
        let n = r.m.feed("OUT n");
        let o = r.m.out();
        if end != Outcome::Break || n != Outcome::Done(None) || o != ["7%"] {
            return Err(Failure::new(format!("tight: {:?}", make(i)), format!("{:?}, then {:?} {:?}", end, n, o)));
        }
        Ok(())
    })
}

fn loops_section(depth: u32) -> Section {
    let r = [seq_count(KINDS as u64, 1, depth), 3];
    let params = move |i: u64| {
        let v = mixed(&r, i);
        (seq_decode(KINDS as u64, 1, v[0] as u64), v[1])
    };
    Section::new(
        "loops",
        product(&r),
        move |i| format!("{:?} {}", params(i), loop_program(&params(i).0, params(i).1).replace('\n', ": ")),
        move |i, cx| {
            let (kinds, ctx) = params(i);
            if ctx == 1 && kinds.iter().any(|k| (11..=12).contains(k)) {
                return Ok(());
            }
            let text = loop_program(&kinds, ctx);
            let stored = ctx == 2;
            let mut expected = vec![];
            loop_expected(kinds.len(), 0, &mut 0, &mut expected);
            let base = run_loop(&text, stored, At::Never);
            let fail = |at: At, what: String| -> CaseResult {
                Err(Failure::new(
                    format!("loops: {:?} {} {:?}", kinds, ctx, at),
                    format!("{}\n{}", text, what),
                ))
            };
            if base.out != expected || base.end != Outcome::Done(None) {
                return fail(At::Never, format!("got {:?} {:?}", base.end, base.out));
            }
            let mut ats: Vec<At> = (1..=expected.len()).map(At::Out).collect();
            ats.extend((1..=base.yields).map(At::Yield));
            for at in ats {
                let mut r = run_loop(&text, stored, at);
                cx.step(r.out.len() as u64 + r.yields as u64);
                cx.traces += 1;
                cx.state(&(&r.out, kinds.len(), ctx));
                if !expected.starts_with(&r.out) {
                    return fail(at, format!("outputs differ: {:?}", r.out));
                }
                match (&r.end, at) {
                    (Outcome::Break, At::Yield(_)) => {
                        if r.out.len() != r.out_at_break {
                            return fail(at, format!("went on after the interrupt: {:?}", r.out));
                        }
                    }
                    (Outcome::Break, _) | (Outcome::Done(None), At::Out(_)) => {
                        // No loop got to the next iteration.
                        let ids: Vec<&str> = r.out[r.out_at_break - 1..]
                            .iter()
                            .map(|o| o.split(' ').next().unwrap())
                            .collect();
                        for (j, id) in ids.iter().enumerate() {
                            if ids[..j].contains(id) {
                                return fail(at, format!("began another iteration: {:?}", ids));
                            }
                        }
                        if matches!(r.end, Outcome::Done(None)) {
                            if r.out != expected {
                                return fail(at, "ended early but not interrupted".to_owned());
                            }
                            r.m.m.drain_signals();
                        }
                    }
                    _ => return fail(at, format!("ended as {:?}", r.end)),
                }
                // The session goes on with the variables as they were.
                let n = r.out.len();
                for (p, exp) in [
                    ("OUT n", vec![format!("{}%", n)]),
                    ("z = 5: OUT z", vec!["5%".to_owned()]),
                    ("FOR q = 1 TO 2: OUT q: NEXT", vec!["1%".to_owned(), "2%".to_owned()]),
                    ("n = n + 1: OUT n", vec![format!("{}%", n + 1)]),
                ] {
                    let e = r.m.feed(p);
                    let o = r.m.out();
                    if e != Outcome::Done(None) || o != exp {
                        return fail(at, format!("then {}: {:?} {:?}", p, e, o));
                    }
                }
                // No handler of the stored program is left; one entered directly is.
                if ctx > 0 {
                    let e = r.m.feed("OUT 1: FAIL: OUT 2");
                    let o = r.m.out();
                    let exp = if ctx == 1 { 2 } else { 1 };
                    if o.len() != exp || (exp == 2) != (e == Outcome::Done(None)) {
                        return fail(at, format!("then a failure: {:?} {:?}", e, o));
                    }
                }
            }
            Ok(())
        },
    )
}

const COMMANDS: [&str; 5] = ["SLEEP 1", "BEEP", "SOUND 440, 1", "INPUT a$", "k$ = INKEY$"];
const CONTEXTS: [&str; 8] = [
    "OUT 1: {}: OUT 2: OUT 3",
    "ON ERROR RESUME NEXT\nOUT 1: {}: OUT 2: OUT 3",
    "ON ERROR GOTO @h\nOUT 1: {}: OUT 2: END\n@h\nOUT 4",
    "SUB s(x)\nOUT x: {}: OUT 2\nEND SUB\ns 1: OUT 3",
    "FUNCTION f(x)\nOUT x: {}: OUT 2\nf = 9\nEND FUNCTION\nOUT f(1): OUT 3",
    "FOR i = 1 TO 2: OUT 1: {}: OUT 2: NEXT",
    "GOSUB @s: OUT 3: END\n@s\nOUT 1: {}: OUT 2: RETURN",
    "IF TRUE THEN\nDO\nOUT 1: {}: OUT 2\nLOOP\nEND IF",
];

fn blocking_section() -> Section {
    // When the signal arrives: before the program starts, before the command, during it; the
    // command itself may fail as well.
    let r = [COMMANDS.len() as u64, CONTEXTS.len() as u64, 4, 2];
    Section::new(
        "blocking",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let cmd = COMMANDS[v[0]];
            let text = CONTEXTS[v[1]].replace("{}", cmd);
            let text = if v[2] == 3 { "RUN".to_owned() } else { text };
            let program = MemProgram {
                text: CONTEXTS[v[1]].replace("{}", cmd),
                ..MemProgram::default()
            };
            let p: Rc<RefCell<dyn Program>> = Rc::new(RefCell::new(program));
            let dt = Rc::new(MockDateTime::default());
            let tx: Rc<RefCell<Option<async_channel::Sender<Signal>>>> = Rc::default();
            let tx2 = tx.clone();
            let during = v[2] >= 2;
            let fails = v[3] == 1;
            dt.set_sleep_fn(Box::new(move |_| {
                let tx = tx2.borrow().clone().unwrap();
                async move {
                    if during {
                        let _ = tx.send(Signal::Break).await;
                    }
                    if fails { Err("no sleep".to_owned()) } else { Ok(()) }
                }
                .boxed_local()
            }));
            let mut m = Mach::build(
                Opts { interactive: true, ..Opts::default() },
                Some((p, Rc::new(RefCell::new(Storage::default())))),
                |b| b.with_datetime(dt.clone()),
            );
            *tx.borrow_mut() = Some(m.tx.clone());
            match v[2] {
                0 => {
                    let _ = m.tx.try_send(Signal::Break);
                }
                1 => {
                    let t = m.tx.clone();
                    m.env.state.borrow_mut().on_out = Some(Box::new(move |n| {
                        if n == 1 {
                            let _ = t.try_send(Signal::Break);
                        }
                    }));
                }
                _ => {
                    let mut c = m.con.borrow_mut();
                    c.tone_break = Some(0);
                    if fails {
                        c.keys.push_back(Key::Char('x'));
                    }
                    c.keys.push_back(Key::Interrupt);
                }
            }
            if v[2] < 2 && v[0] == 3 {
                let mut c = m.con.borrow_mut();
                c.keys.extend([Key::Char('x'), Key::NewLine]);
            }
            let e = m.feed(&text);
            m.env.state.borrow_mut().on_out = None;
            let o = m.out();
            cx.step(2);
            cx.state(&(v[0], v[1], v[2]));
            // INKEY$ with another key first does not see the interrupt.
            if v[0] == 4 && during && fails {
                return Ok(());
            }
            let exp: Vec<String> = if v[2] == 0 && text == "RUN" { vec![] } else { vec!["1%".to_owned()] };
            let key = format!("blocking: {:?} {}", v, text.replace('\n', ": "));
            if e != Outcome::Break || o != exp {
                return Err(Failure::new(key, format!("got {:?} {:?}", e, o)));
            }
            for (t, x) in [("OUT 7", "7%"), ("FOR j = 8 TO 8: OUT j: NEXT", "8%")] {
                let e = m.feed(t);
                let o = m.out();
                if e != Outcome::Done(None) || o != [x] {
                    return Err(Failure::new(key, format!("then {}: {:?} {:?}", t, e, o)));
                }
            }
            Ok(())
        },
    )
}

fn keys_section(max: u32) -> Section {
    let keys = [Key::Char('a'), Key::Char('5'), Key::NewLine, Key::Interrupt, Key::Backspace, Key::ArrowLeft];
    let r = [seq_count(6, 0, max), 3];
    Section::new(
        "input-keys",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let seq: Vec<Key> = seq_decode(6, 0, v[0] as u64).iter().map(|k| keys[*k].clone()).collect();
            let text = match v[1] {
                0 => "INPUT a$: OUT a$: INPUT \"more\"; b$: OUT b$: OUT 2",
                1 => "ON ERROR RESUME NEXT\nINPUT a$: OUT a$: INPUT \"more\"; b$: OUT b$: OUT 2",
                _ => "SUB s\nINPUT a$: OUT a$\nEND SUB\nFOR i = 1 TO 2: s: NEXT: OUT 2",
            };
            // An ideal line editor, without history.
            let mut lines: Vec<String> = vec![];
            let mut cur: Vec<char> = vec![];
            let mut pos = 0;
            let mut broke = false;
            for k in &seq {
                if lines.len() == 2 {
                    break;
                }
                match k {
                    Key::Char(c) => {
                        cur.insert(pos, *c);
                        pos += 1;
                    }
                    Key::Backspace => {
                        if pos > 0 {
                            pos -= 1;
                            cur.remove(pos);
                        }
                    }
                    Key::ArrowLeft => pos = pos.saturating_sub(1),
                    Key::NewLine => {
                        lines.push(std::mem::take(&mut cur).into_iter().collect());
                        pos = 0;
                    }
                    _ => {
                        broke = true;
                        break;
                    }
                }
            }
            if !broke && lines.len() < 2 {
                cx.trivial += 1;
                return Ok(());
            }
            let mut m = Mach::scripting(Opts { interactive: true, ..Opts::default() });
            m.con.borrow_mut().keys.extend(seq.iter().cloned());
            m.con.borrow_mut().end_key = None;
            let e = m.feed(text);
            let o = m.out();
            cx.step(seq.len() as u64);
            cx.state(&(&lines, broke, v[1]));
            let mut exp: Vec<String> = lines.iter().map(|l| format!("{}$", l)).collect();
            if !broke {
                exp.push("2%".to_owned());
            }
            let end = if broke { Outcome::Break } else { Outcome::Done(None) };
            let key = format!("input-keys: {:?} {}", seq, text);
            if e != end || o != exp {
                return Err(Failure::new(key, format!("expected {:?} {:?}, got {:?} {:?}", end, exp, e, o)));
            }
            let e = m.feed("FOR q = 7 TO 8: OUT q: NEXT");
            if e != Outcome::Done(None) || m.out() != ["7%", "8%"] {
                return Err(Failure::new(key, format!("then {:?}", e)));
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct AsyncState {
    out: Vec<String>,
    /// How many times each call is pending.
    pends: Vec<usize>,
    calls: usize,
}

struct AsyncFun {
    md: Rc<CallableMetadata>,
    st: Rc<RefCell<AsyncState>>,
    kind: u8,
}

struct Pend(usize);

impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

impl AsyncFun {
    fn act(&self, scope: Scope<'_>) -> CallResult<()> {
        match self.kind {
            0 => {
                let v = scope.get_integer(0);
                self.st.borrow_mut().out.push(format!("AC {}", v));
                Ok(())
            }
            1 => {
                let v = scope.get_integer(0);
                self.st.borrow_mut().out.push(format!("AV {}", v));
                scope.return_integer(v * 2)
            }
            2 => {
                let v = scope.get_string(0).to_owned();
                self.st.borrow_mut().out.push(format!("AS {}", v));
                scope.return_string(v + "!")
            }
            _ => {
                self.st.borrow_mut().out.push("AF".to_owned());
                Err(CallError::Eval("async failure".to_owned()))
            }
        }
    }
}

#[async_trait(?Send)]
impl Callable for AsyncFun {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        self.act(scope)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        let n = {
            let mut st = self.st.borrow_mut();
            let c = st.calls;
            st.calls += 1;
            if st.pends.is_empty() { 0 } else { st.pends[c % st.pends.len()] }
        };
        Pend(n).await;
        self.act(scope)
    }
}

macro_rules! one_arg {
    ($t:expr) => {
        &[(
            &[SingularArgSyntax::RequiredValue(
                RequiredValueSyntax { name: Cow::Borrowed("v"), vtype: $t },
                ArgSepSyntax::End,
            )],
            None,
        )]
    };
}

fn async_upcalls(st: &Rc<RefCell<AsyncState>>, is_async: bool) -> HashMap<SymbolKey, Rc<dyn Callable>> {
    let mut m: HashMap<SymbolKey, Rc<dyn Callable>> = HashMap::new();
    for (kind, name) in [(0u8, "AC"), (1, "AV"), (2, "AS2"), (3, "AF")] {
        let t = if kind == 2 { ExprType::Text } else { ExprType::Integer };
        let mut b = CallableMetadataBuilder::new_dynamic(name.to_owned())
            .with_async(is_async)
            .with_category("Host")
            .with_description("Host.");
        b = match kind {
            2 => b.with_syntax(one_arg!(ExprType::Text)),
            3 => b.with_syntax(&[(&[], None)]),
            _ => b.with_syntax(one_arg!(ExprType::Integer)),
        };
        if kind == 1 || kind == 2 {
            b = b.with_return_type(t);
        }
        let f = AsyncFun { md: b.build(), st: st.clone(), kind };
        m.insert(SymbolKey::from(name), Rc::new(f));
    }
    m
}

const AOPS: [&str; 8] = [
    "AC x",
    "x = AV(x) + AV(x + 1)",
    "s = AS2(s) + AS2(\"q\" + s)",
    "AF",
    "sb x",
    "x = fu(AV(x)) + 1",
    "FOR i = 1 TO 2: AC i: NEXT",
    "a(AV(1)) = AV(x): AC a(2)",
];

fn async_program(ops: &[usize], mode: usize) -> String {
    let mut p = "x = 1: s = \"\": DIM a(4) AS INTEGER\nSUB sb(y)\nIF y > 0 THEN\nAC AV(y)\nsb y - y\nEND IF\nEND SUB\nFUNCTION fu(y)\nfu = AV(y)\nAC fu\nfu = fu + 1\nEND FUNCTION\n".to_owned();
    match mode {
        1 => p.push_str("ON ERROR RESUME NEXT\n"),
        2 => p.push_str("ON ERROR GOTO @h\n"),
        _ => (),
    }
    for o in ops {
        p.push_str(AOPS[*o]);
        p.push('\n');
    }
    p.push_str("AC 50\nEND 2\n@h\nAC 60\n");
    p
}

#[derive(Debug, PartialEq, Clone)]
struct ARun {
    out: Vec<String>,
    stop: String,
    vars: String,
}

/// Runs with the given pending polls; abandons the operation at the given poll of the given call.
fn run_async(text: &str, pends: &[usize], is_async: bool, abandon: Option<(usize, usize)>) -> (ARun, usize) {
    let st = Rc::new(RefCell::new(AsyncState { pends: pends.to_vec(), ..AsyncState::default() }));
    let up = async_upcalls(&st, is_async);
    let mut image = Image::default();
    let mut c = Compiler::new(&up, &[]).unwrap();
    let mut stop;
    let mut vm = Vm::new(up);
    if let Err(e) = c.compile_more(&mut image, &mut text.as_bytes()) {
        return (ARun { out: vec![], stop: format!("{}", e), vars: String::new() }, 0);
    }
    let mut calls = 0;
    'outer: loop {
        match vm.exec(&image) {
            StopReason::End(c) => {
                stop = format!("end {}", c.to_i32());
                break;
            }
            StopReason::Eof => {
                stop = "eof".to_owned();
                break;
            }
            StopReason::Exception(p, m) => {
                stop = format!("{}: {}", p, m);
                break;
            }
            StopReason::UpcallAsync(h) => {
                let n = calls;
                calls += 1;
                let mut polls = 0;
                let r = {
                    let mut f = Box::pin(h.invoke());
                    let waker = futures_noop();
                    let mut cx = Context::from_waker(&waker);
                    loop {
                        if abandon == Some((n, polls)) {
                            drop(f);
                            vm.interrupt(&image);
                            stop = "abandoned".to_owned();
                            break 'outer;
                        }
                        polls += 1;
                        match f.as_mut().poll(&mut cx) {
                            Poll::Ready(r) => break r,
                            Poll::Pending => continue,
                        }
                    }
                };
                if let Err(e) = r {
                    let (p, m) = e.parts();
                    stop = format!("{}: {}", p, m);
                    break;
                }
            }
            StopReason::Yield => (),
        }
    }
    let var = |vm: &Vm, image: &Image, n: &str| {
        crate::corex::vm_var(vm, image, n).map(|d| crate::corex::show_datum(&d))
    };
    let vars = format!("{:?} {:?}", var(&vm, &image, "x"), var(&vm, &image, "s"));
    let out = std::mem::take(&mut st.borrow_mut().out);
    // The machine accepts more code.
    st.borrow_mut().pends.clear();
    if c.compile_more(&mut image, &mut "ON ERROR GOTO 0\nAC x: sb 3: AC fu(5)".as_bytes()).is_err() {
        stop.push_str(" rejected afterwards");
    } else {
        loop {
            match vm.exec(&image) {
                StopReason::Eof => break,
                StopReason::Yield => (),
                StopReason::UpcallAsync(h) => {
                    if let Err(e) = futures_lite::future::block_on(h.invoke()) {
                        stop.push_str(&format!(" then {}", e));
                    }
                }
                _ => {
                    stop.push_str(" then stopped");
                    break;
                }
            }
        }
        let x = var(&vm, &image, "x").unwrap_or_default();
        let exp = [
            format!("AC {}", x.trim_end_matches('%')),
            "AV 3".to_owned(),
            "AC 6".to_owned(),
            "AV 5".to_owned(),
            "AC 10".to_owned(),
            "AC 11".to_owned(),
        ];
        if st.borrow().out != exp {
            stop.push_str(&format!(" then {:?}", st.borrow().out));
        }
    }
    (ARun { out, stop, vars }, calls)
}

fn futures_noop() -> std::task::Waker {
    struct W;
    impl std::task::Wake for W {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    std::sync::Arc::new(W).into()
}

fn async_section(max: u32) -> Section {
    let r = [seq_count(8, 1, max), 3];
    Section::new(
        "asynchronous",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            async_program(&seq_decode(8, 1, v[0] as u64), v[1]).replace('\n', ": ")
        },
        move |i, cx| {
            let v = mixed(&r, i);
            let text = async_program(&seq_decode(8, 1, v[0] as u64), v[1]);
            let (base, _) = run_async(&text, &[], false, None);
            let fail = |what: String, got: &ARun| -> CaseResult {
                Err(Failure::new(
                    format!("asynchronous: {} {}", text.replace('\n', ": "), what),
                    format!("synchronous {:?}\ngot         {:?}", base, got),
                ))
            };
            let mut calls = 0;
            // Which of three successive calls are pending and how many times.
            for p in 0..27 {
                let pends = mixed(&[3, 3, 3], p);
                let (got, n) = run_async(&text, &pends, true, None);
                calls = n;
                cx.step(n as u64);
                cx.traces += 1;
                if got != base {
                    return fail(format!("{:?}", pends), &got);
                }
            }
            cx.state(&(&base.out, &base.stop, &base.vars));
            for call in 0..calls {
                for poll in 0..3 {
                    let (got, _) = run_async(&text, &[2], true, Some((call, poll)));
                    cx.step(call as u64);
                    if got.stop != "abandoned" || !base.out.starts_with(&got.out) {
                        return fail(format!("abandoned at poll {} of call {}", poll, call), &got);
                    }
                }
            }
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        tight_section(),
        loops_section(tier.pick(2, 3)),
        blocking_section(),
        keys_section(tier.pick(5, 7)),
        async_section(tier.pick(3, 4)),
    ]
}
