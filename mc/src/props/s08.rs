//! S08: clearing the machine restores the state of a new session and keeps the stored program and the files.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::corex::{drive, with_env};
use crate::gpiox::PinsModel;
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use endbasic_core::{Compiler, ConstantDatum, ExprType, GlobalDef, GlobalDefKind, Image, Vm};
use endbasic_std::console::Console;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use endbasic_std::{Machine, Signal};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "S08",
        rule: "All sequences of up to 3 (thorough: 4) of 24 pieces of a session that change its state (variables, \
               arrays, callables, data read, error handlers and messages, angle mode, colors, video syncing, \
               alternate screen, cursor, pins, errors, interruptions), followed by each of 8 ways to reset it; the \
               answers to 30 questions about the state are compared with those of a new session after the same reset. The \
               virtual machine itself, cleared or reset after every number of turns up to 8 (thorough: 30) of 14 \
               programs, then runs each of them as a new one does.",
        assumptions: &[],
        sections,
    }
}

#[derive(Clone, Copy)]
enum Do {
    Feed(&'static str),
    Alt,
    Break(&'static str),
}
use Do::*;

const OPS: [Do; 24] = [
    Feed("x = 5"),
    Feed("x$ = \"a\""),
    Feed("DIM a(3)\na(1) = 4"),
    Feed("DIM SHARED g AS STRING\ng = \"set\""),
    Feed("DIM SHARED ga(2, 3)"),
    Feed("FUNCTION f%\nf = 3\nEND FUNCTION\nOUT f"),
    Feed("SUB s(n)\nOUT n\nEND SUB\ns 2"),
    Feed("DECLARE FUNCTION h%(n)"),
    Feed("DATA 1, 2, 3\nREAD d"),
    Feed("ON ERROR RESUME NEXT"),
    Feed("ON ERROR GOTO @here\nOUT 1\nEND\n@here:\nOUT 99"),
    Feed("COLOR -1"),
    Feed("ON ERROR RESUME NEXT\nCOLOR -1"),
    Feed("DEG"),
    Feed("COLOR 3, 4"),
    Feed("COLOR 6"),
    Feed("GFX_SYNC FALSE"),
    Feed("GPIO_SETUP 3, \"OUT\""),
    Feed("gl = 99\ngs(1) = \"changed\""),
    Feed("x = = 1"),
    Feed("GOSUB @sub\nEND\n@sub:\nx = 7\nEND 3"),
    Alt,
    Break("ON ERROR RESUME NEXT\ny = 1\nWHILE TRUE\nWEND"),
    Feed("LOCATE 3, 2\nPRINT \"screen\";"),
];

/// Questions about the state, asked in order after a reset.
const PROBES: [&str; 30] = [
    "OUT ERRMSG",
    "IF FALSE THEN\nDIM SHARED p1 AS STRING\nDIM SHARED p2(3) AS INTEGER\nDIM p3 AS INTEGER\nDIM p4(2) AS DOUBLE\nEND IF\nOUT LEN(p1); p3",
    "OUT p2(0)",
    "OUT p4(0)",
    "OUT SIN(90.0)",
    "OUT 1\nCOLOR -1\nOUT 2",
    "OUT 1\nON ERROR GOTO 0\nCOLOR -1\nOUT 2",
    "RETURN",
    "OUT x",
    "OUT x$",
    "OUT y",
    "OUT d",
    "OUT a(1)",
    "OUT g",
    "OUT ga(1, 1)",
    "OUT f",
    "OUT h(1)",
    "s 2",
    "OUT gl\nOUT gs(1)\nOUT UBOUND(gs)",
    "gl = gl + 1\nOUT gl",
    "READ d\nOUT d",
    "DATA 7, 8\nREAD d\nOUT d",
    "x? = TRUE\nOUT x",
    "DIM a(5) AS STRING\nOUT LEN(a(4))",
    "DIM SHARED g(2)\nOUT g(1)",
    "SUB f(n$)\nOUT n\nEND SUB\nf \"z\"",
    "FUNCTION s$\ns = \"t\"\nEND FUNCTION\nOUT s",
    "@here:\nOUT 3\n@sub:\nOUT 4",
    "FUNCTION h$\nh = \"h\"\nEND FUNCTION\nOUT h",
    "OUT GPIO_READ(3)\nGPIO_SETUP 3, \"IN\"\nOUT GPIO_READ(3)",
];

#[derive(Clone, Copy, PartialEq)]
enum Reset {
    Feed(&'static str),
    Direct,
}

const RESETS: [Reset; 8] = [
    Reset::Feed("CLEAR"),
    Reset::Feed("zz = 3\nCLEAR"),
    Reset::Feed("SUB inner\nCLEAR\nEND SUB\ninner"),
    Reset::Feed("GOSUB @deep\nEND\n@deep:\nCLEAR"),
    Reset::Feed("NEW"),
    Reset::Feed("LOAD \"MEMORY:/other\""),
    Reset::Feed("RUN"),
    Reset::Direct,
];

const STORED: &str = "OUT 70\nOUT ERRMSG\nOUT SIN(90.0)\nOUT gl\nx$ = \"own\"\nOUT x$\nREAD v\nOUT v\nDATA 55";

struct Session {
    m: Mach,
    pins: Rc<RefCell<PinsModel>>,
    prog: Rc<RefCell<MemProgram>>,
    storage: Rc<RefCell<Storage>>,
}

fn globals() -> Vec<GlobalDef> {
    vec![
        GlobalDef {
            name: "gl".to_owned(),
            kind: GlobalDefKind::Scalar {
                etype: ExprType::Integer,
                initial_value: Some(ConstantDatum::Integer(41)),
            },
        },
        GlobalDef {
            name: "gs".to_owned(),
            kind: GlobalDefKind::Array { subtype: ExprType::Text, dimensions: vec![2] },
        },
    ]
}

fn session() -> Session {
    let pins = Rc::new(RefCell::new(PinsModel::default()));
    let prog = Rc::new(RefCell::new(MemProgram {
        name: Some("MEMORY:/own".to_owned()),
        text: STORED.to_owned(),
        ..MemProgram::default()
    }));
    let storage = Rc::new(RefCell::new(Storage::default()));
    block_on(storage.borrow_mut().put("MEMORY:/other.bas", b"OUT 5")).unwrap();
    let p = pins.clone();
    let m = Mach::build(Opts::default(), Some((prog.clone(), storage.clone())), move |b| {
        b.with_gpio_pins(p).with_globals(globals())
    });
    Session { m, pins, prog, storage }
}

impl Session {
    fn apply(&mut self, o: Do) {
        match o {
            Feed(t) => {
                self.m.feed(t);
            }
            Alt => {
                let mut c = self.m.con.borrow_mut();
                if c.enter_alt().is_ok() {
                    c.hide_cursor().unwrap();
                }
            }
            Break(t) => {
                self.m.tx.try_send(Signal::Break).unwrap();
                let o = self.m.feed(t);
                Machine::drain_signals(&mut self.m.m);
                debug_assert!(o != Outcome::Done(None), "not interrupted");
            }
        }
    }

    fn reset(&mut self, r: Reset) -> (Option<Outcome>, Vec<String>, String) {
        self.m.out();
        self.m.text();
        let o = match r {
            Reset::Feed(t) => Some(self.m.feed(t)),
            Reset::Direct => {
                self.m.m.clear();
                None
            }
        };
        (o, self.m.out(), self.m.text())
    }

    fn ask(&mut self) -> Vec<String> {
        let mut v = vec![];
        {
            let c = self.m.con.borrow();
            let s = c.snap();
            v.push(format!("colors {:?} cursor {} alternate {} sync {}", s.colors, s.cursor, s.alt, c.sync));
        }
        v.push(format!("pins {:?}", self.pins.borrow().pins));
        for p in PROBES {
            let o = self.m.feed(p);
            v.push(format!("{:?} -> {:?} {:?} {:?}", p, o, self.m.out(), self.m.text()));
        }
        v
    }

    fn kept(&self) -> (String, Option<String>, bool, Vec<(String, Vec<u8>)>) {
        let p = self.prog.borrow();
        let s = self.storage.borrow();
        let files = block_on(s.enumerate("MEMORY:")).unwrap();
        let files = files
            .dirents()
            .keys()
            .map(|n| (n.clone(), block_on(s.get(&format!("MEMORY:/{}", n))).unwrap()))
            .collect();
        (p.text(), p.name().map(str::to_owned), p.is_dirty(), files)
    }
}

fn show(ops: &[usize]) -> String {
    ops.iter()
        .map(|o| match OPS[*o] {
            Feed(t) => t.to_owned(),
            Alt => "(alternate screen)".to_owned(),
            Break(t) => format!("{} (interrupted)", t),
        })
        .collect::<Vec<_>>()
        .join(" | ")
        .replace('\n', ": ")
}

fn name(r: Reset) -> String {
    match r {
        Reset::Feed(t) => t.replace('\n', ": "),
        Reset::Direct => "(host)".to_owned(),
    }
}

fn histories(max: u32) -> Section {
    let k = OPS.len() as u64;
    let r = [RESETS.len() as u64, seq_count(k, 1, max)];
    Section::new(
        "histories",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{} then {}", show(&seq_decode(k, 1, d[1] as u64)), name(RESETS[d[0]]))
        },
        move |i, cx| {
            thread_local! {
                static FRESH: RefCell<Vec<Option<(String, Vec<String>)>>> =
                    RefCell::new(vec![None; RESETS.len()]);
            }
            let d = mixed(&r, i);
            let seq = seq_decode(k, 1, d[1] as u64);
            let reset = RESETS[d[0]];
            let (fresh_reset, fresh) = FRESH.with(|f| {
                f.borrow_mut()[d[0]]
                    .get_or_insert_with(|| {
                        let mut s = session();
                        let r = s.reset(reset);
                        (format!("{:?}", r), s.ask())
                    })
                    .clone()
            });
            let mut s = session();
            for o in &seq {
                s.apply(OPS[*o]);
                cx.step(1);
            }
            let fail = |what: String| -> CaseResult {
                Err(Failure::new(format!("{} then {}", show(&seq), name(reset)), what))
            };
            let before = s.kept();
            let got = s.reset(reset);
            // A reset by a piece that does not compile is none.
            if matches!(got.0, Some(Outcome::Compile(_))) {
                let plain = matches!(reset, Reset::Feed(t) if !t.contains('\n'));
                if plain || fresh_reset.contains("Compile") {
                    return fail(format!("the reset gives {:?}", got.0));
                }
                cx.trivial += 1;
                return Ok(());
            }
            let got = format!("{:?}", got);
            if got != fresh_reset {
                return fail(format!("the reset gives {}\ninstead of      {}", got, fresh_reset));
            }
            let after = s.kept();
            let expected = match reset {
                Reset::Feed("NEW") => (String::new(), None, false, before.3),
                Reset::Feed(t) if t.starts_with("LOAD") => {
                    ("OUT 5".to_owned(), Some("MEMORY:/other.bas".to_owned()), false, before.3)
                }
                _ => before,
            };
            if after != expected {
                return fail(format!("kept {:?}\nnot  {:?}", after, expected));
            }
            let answers = s.ask();
            cx.step(answers.len() as u64);
            for (a, f) in answers.iter().zip(&fresh) {
                if a != f {
                    return fail(format!("answer      {}\nnew session {}", a, f));
                }
            }
            cx.state(&(show(&seq), d[0]));
            cx.traces += 1;
            Ok(())
        },
    )
}

/// The questions do tell sessions apart: each piece changes some answer when there is no reset.
fn questions() -> Section {
    Section::new(
        "questions",
        OPS.len() as u64,
        |i| show(&[i as usize]),
        |i, cx| {
            let mut f = session();
            let fresh = f.ask();
            let mut s = session();
            s.apply(OPS[i as usize]);
            s.m.out();
            s.m.text();
            cx.step(1);
            cx.traces += 1;
            let a = s.ask();
            cx.state(&a);
            let quiet = matches!(OPS[i as usize], Feed("x = = 1") | Feed("LOCATE 3, 2\nPRINT \"screen\";"));
            if a == fresh && !quiet {
                return Err(Failure::new(
                    format!("questions: {}", show(&[i as usize])),
                    "no question notices this piece".to_owned(),
                ));
            }
            Ok(())
        },
    )
}

/// Programs for the virtual machine itself.
const IMAGES: [&str; 14] = [
    "OUT LASTERR: FAIL: OUT 2",
    "OUT LASTERR: ON ERROR RESUME NEXT: FAIL: OUT LASTERR",
    "OUT LASTERR: ON ERROR GOTO @h: FAIL\n@h\nOUT LASTERR: FAIL",
    "DIM SHARED a(3) AS STRING\nOUT a(1)\na(1) = \"x\" + TS(\"y\")\nOUT a(1)",
    "DIM SHARED g AS INTEGER\nOUT g\ng = g + 7\nOUT g\nIF g = 7 THEN END 3",
    "IF COND(0) THEN\nDIM SHARED h AS INTEGER\nDIM l AS INTEGER\nDIM m(2)\nEND IF\nOUT h; l\nh = 4: l = 5\nOUT m(0)",
    "SUB s(n)\nOUT n\nIF n > 0 THEN s n - 1\nFAIL\nEND SUB\ns 2",
    "GOSUB @s\nEND 4\n@s\nOUT 1\nGOSUB @t\n@t\nOUT 2\nRETURN",
    "OUT 5\nRETURN",
    "FOR i = 1 TO 4\nOUT i\nNEXT\nEND 9",
    "i = 0\nDO\ni = i + 1\nOUT i\nIF i = 5 THEN FAIL\nLOOP",
    "FUNCTION f(n)\nIF n > 0 THEN f = f(n - 1) + n\nOUT f\nEND FUNCTION\nOUT f(3)",
    "SUB r\nr\nEND SUB\nON ERROR GOTO @o\nr\n@o\nOUT LASTERR",
    "@a\nON ERROR GOTO @a\nOUT LASTERR\nFAIL",
];

/// The virtual machine cleared in the middle or at the end of a program.
fn cores(cuts: u64) -> Section {
    let k = IMAGES.len() as u64;
    // The programs, how many turns the first one takes, which reset.
    let r = [k, k, cuts, 2];
    let show = move |i: u64| {
        let d = mixed(&r, i);
        format!("{:?} for {} turns, {}, {:?}", IMAGES[d[0]], d[2], ["clear", "reset"][d[3]], IMAGES[d[1]])
    };
    Section::new("virtual machine", product(&r), show, move |i, cx| {
        let d = mixed(&r, i);
        if d[3] == 0 && d[0] != d[1] {
            // Only a reset allows another image.
            cx.trivial += 1;
            return Ok(());
        }
        with_env(|env| {
            let compile = |text: &str| {
                let mut image = Image::default();
                let mut c = Compiler::new(&env.upcalls, &[]).unwrap();
                c.compile_more(&mut image, &mut text.as_bytes()).unwrap();
                image
            };
            let run = |vm: &mut Vm, image: &Image, turns: u64| {
                env.reset(&[false; 8], 60);
                let s = drive(vm, image, turns, &mut 0);
                (s, std::mem::take(&mut env.state.borrow_mut().out))
            };
            let (first, second) = (compile(IMAGES[d[0]]), compile(IMAGES[d[1]]));
            let want = run(&mut Vm::new(env.upcalls.clone()), &second, 20);
            let mut vm = Vm::new(env.upcalls.clone());
            let before = run(&mut vm, &first, d[2] as u64);
            if d[3] == 0 { vm.clear() } else { vm.reset() };
            let got = run(&mut vm, &second, 20);
            cx.step(3);
            cx.traces += 1;
            cx.state(&(format!("{:?}", before), d[1], d[3]));
            if got != want {
                return Err(Failure::new(
                    format!("virtual machine: {}", show(i)),
                    format!("{:?} and not {:?}, after {:?}", got, want, before),
                ));
            }
            Ok(())
        })
    })
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![questions(), histories(tier.pick(3, 4)), cores(tier.pick(8, 30))]
}
