//! X04: running a program without the interpreter's prompt runs just that program and reports how it ended.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::http::{Resp, Server};
use crate::machx::{Opts, Outcome};
use crate::props::svc::{DOWN, World};
use crate::props::x01::Rig;
use crate::scr::Scr;
use crate::scratch::{Scratch, as_nobody};
use endbasic::{AppMode, async_app_main};
use endbasic_std::Signal;
use endbasic_std::console::{Console, ConsoleFactory, Key};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "X04",
        rule: "All programs of up to 3 (thorough: 5) of 15 statements that print, end in main, subroutines and callables, fail, set \
               error handlers, do not compile, or go on until interrupted; all exit codes in three forms; 14 kinds of files. Each \
               is run as a script, as a script with the callables of the interpreter, and from the cloud through a \
               server on the loopback interface and through a model of the service. All ways to name a program in the cloud \
               by all faults of the service; all sequences of up to 2 (thorough: 3) of 8 things to do in the session after. \
               Compared with a model of what runs.",
        assumptions: &["programs of the cloud that are missing may be reported in any way that is not a success"],
        sections,
    }
}

thread_local! {
    static SERVER: Server = Server::start();
    static CONSOLE: RefCell<Option<Rc<RefCell<Scr>>>> = const { RefCell::new(None) };
}

/// Makes a console that is left where it can be seen.
struct Factory {
    size: (usize, usize),
    keys: Vec<Key>,
    tx: async_channel::Sender<Signal>,
    fails: bool,
}

impl ConsoleFactory for Factory {
    fn build(self: Box<Self>) -> io::Result<Rc<RefCell<dyn Console>>> {
        if self.fails {
            return Err(io::Error::other("no console"));
        }
        let mut scr = Scr::new(self.size.0, self.size.1);
        scr.keep_log = true;
        scr.take_snaps = true;
        scr.interactive = true;
        scr.keys = self.keys.into();
        scr.signals_tx = Some(self.tx);
        let c = Rc::new(RefCell::new(scr));
        CONSOLE.with(|s| *s.borrow_mut() = Some(c.clone()));
        Ok(c)
    }
}

/// How it ended and all that was printed.
pub struct Ran {
    pub code: Result<i32, String>,
    pub text: String,
}

impl Ran {
    /// What the program itself printed.
    fn marks(&self) -> Vec<String> {
        self.text.lines().filter(|l| l.starts_with('#')).map(|l| l.to_owned()).collect()
    }

    /// What was printed after that.
    fn rest(&self) -> String {
        match self.text.rfind('#') {
            None => self.text.clone(),
            Some(i) => self.text[i..].split_once('\n').map(|x| x.1).unwrap_or("").to_owned(),
        }
    }
}

pub struct App {
    mode: AppMode,
    pub size: (usize, usize),
    pub keys: Vec<Key>,
    gpio: Option<String>,
    url: String,
    console_fails: bool,
}

impl App {
    pub fn new(mode: AppMode) -> Self {
        App { mode, size: (80, 24), keys: vec![], gpio: None, url: "http://127.0.0.1:1/".to_owned(), console_fails: false }
    }

    fn run(self) -> Ran {
        self.run_on().0
    }

    /// Also returns the console, if there was one.
    pub fn run_on(self) -> (Ran, Option<Rc<RefCell<Scr>>>) {
        CONSOLE.with(|s| *s.borrow_mut() = None);
        let (tx, rx) = async_channel::unbounded();
        let f = Box::new(Factory { size: self.size, keys: self.keys, tx: tx.clone(), fails: self.console_fails });
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let r = as_nobody(|| rt.block_on(async_app_main(self.mode, f, (tx, rx), self.gpio, self.url)));
        let c = CONSOLE.with(|s| s.borrow_mut().take());
        let text = c.as_ref().map(|c| c.borrow().text()).unwrap_or_default();
        (Ran { code: r.map_err(|e| e.to_string()), text }, c)
    }
}

// -- Programs.

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum S {
    Print,
    Fail,
    End,
    End5,
    EndBad,
    Resume,
    Handler,
    NoHandler,
    Gosub,
    GosubEnd,
    CallEnd,
    CallFail,
    Loop,
    Syntax,
    Unknown,
}

use S::*;

const ALL: [S; 15] = [
    Print, Fail, End, End5, EndBad, Resume, Handler, NoHandler, Gosub, GosubEnd, CallEnd, CallFail, Loop, Syntax, Unknown,
];

const HEAD: &str = "SUB QQ: PRINT \"#4\": END 4: PRINT \"#X\": END SUB\n\
                    SUB WW: BAD = ASC(\"\"): PRINT \"#7\": END SUB\n";
const TAIL: &str = "GOTO @DONE\n@S\nPRINT \"#9\"\nRETURN\n@T\nPRINT \"#3\"\nEND 3\n@H\nPRINT \"#8\"\nEND 6\n@DONE\n";

impl S {
    fn code(self) -> &'static str {
        match self {
            Print => "PRINT \"#1\"",
            Fail => "BAD = ASC(\"\")",
            End => "END",
            End5 => "END 5",
            EndBad => "N% = 200: END N%",
            Resume => "ON ERROR RESUME NEXT",
            Handler => "ON ERROR GOTO @H",
            NoHandler => "ON ERROR GOTO 0",
            Gosub => "GOSUB @S",
            GosubEnd => "GOSUB @T",
            CallEnd => "QQ",
            CallFail => "WW",
            Loop => "DO: K$ = INKEY: LOOP",
            Syntax => "PRINT (",
            Unknown => "NOTHING 1",
        }
    }
}

fn program(l: &[S]) -> String {
    let mut t = HEAD.to_owned();
    for s in l {
        t.push_str(s.code());
        t.push('\n');
    }
    t.push_str(TAIL);
    t
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum How {
    Eof,
    Code(i32),
    Break,
    /// The line that failed.
    Error(usize),
    /// The line that does not compile.
    Compile(usize),
}

#[derive(Clone, Copy, Eq, PartialEq)]
enum Han {
    None,
    Next,
    Goto,
}

/// What the program prints and how it ends.
fn model(l: &[S]) -> (Vec<String>, How) {
    if let Some(i) = l.iter().position(|s| matches!(s, Syntax | Unknown)) {
        return (vec![], How::Compile(i + 3));
    }
    let mut out = vec![];
    let mut h = Han::None;
    macro_rules! failure {
        ($line:expr, $next:block) => {
            match h {
                Han::None => return (out, How::Error($line)),
                Han::Next => $next,
                Han::Goto => {
                    out.push("#8".to_owned());
                    return (out, How::Code(6));
                }
            }
        };
    }
    for (i, s) in l.iter().enumerate() {
        let line = i + 3;
        match s {
            Print => out.push("#1".to_owned()),
            Fail => failure!(line, {}),
            End => return (out, How::Code(0)),
            End5 => return (out, How::Code(5)),
            EndBad => failure!(line, {}),
            Resume => h = Han::Next,
            Handler => h = Han::Goto,
            NoHandler => h = Han::None,
            Gosub => out.push("#9".to_owned()),
            GosubEnd => {
                out.push("#3".to_owned());
                return (out, How::Code(3));
            }
            CallEnd => {
                out.push("#4".to_owned());
                return (out, How::Code(4));
            }
            CallFail => failure!(2, { out.push("#7".to_owned()) }),
            Loop => return (out, How::Break),
            Syntax | Unknown => unreachable!(),
        }
    }
    (out, How::Eof)
}

fn names_line(e: &str, line: usize) -> bool {
    e.split(|c: char| !(c.is_ascii_digit() || c == ':'))
        .any(|w| w.starts_with(&format!("{}:", line)) && w.len() > line.to_string().len() + 1)
}

const MODES: [&str; 4] = ["script", "interactive", "cloud", "model"];

/// Runs a program in one of the ways there are.
fn run(mode: usize, content: &[u8], keys: &[Key]) -> (Ran, bool) {
    if mode == 3 {
        let mut w = World::default();
        w.files.insert(("al".to_owned(), "p.bas".to_owned()), (content.to_vec(), BTreeSet::from(["public".to_owned()])));
        let mut r = Rig::new(Opts { interactive: true, ..Opts::default() }, w);
        r.mach.con.borrow_mut().keys = keys.to_vec().into();
        let code = launch(&mut r, "al/p.bas", false);
        let text = r.mach.text();
        // What was run stays loaded.
        let p = r.prog.borrow();
        let kept = p.name.as_deref() == Some("AUTORUN:/p.bas")
            && p.text.as_bytes() == content
            && !p.dirty
            && r.store.borrow().cwd() == "AUTORUN:/";
        return (Ran { code, text }, kept);
    }
    let dir = Scratch::new();
    let path = dir.path("p.bas");
    let mode = match mode {
        0 => AppMode::RunScript(path.clone()),
        1 => AppMode::RunInteractive(path.clone(), "memory://".to_owned()),
        _ => AppMode::RunInteractive("cloud://al/p.bas".to_owned(), "memory://".to_owned()),
    };
    let mut app = App::new(mode);
    app.keys = keys.to_vec();
    if matches!(&app.mode, AppMode::RunInteractive(p, _) if p.starts_with("cloud://")) {
        app.url = SERVER.with(|s| {
            s.take();
            s.say(Resp::body(200, content));
            s.address()
        });
    } else {
        std::fs::write(&path, content).unwrap();
    }
    (app.run(), true)
}

fn launch(r: &mut Rig, what: &str, will_run_repl: bool) -> Result<i32, String> {
    let con = r.mach.con.clone();
    block_on(endbasic_repl::run_from_cloud(
        &mut r.mach.m,
        con,
        r.store.clone(),
        r.prog.clone(),
        what,
        will_run_repl,
    ))
    .map_err(|e| e.to_string())
}

/// Checks that the report of a run is right.
fn judge(mode: usize, ran: &Ran, out: &[String], how: How) -> Result<(), &'static str> {
    if ran.marks() != out {
        return Err("output");
    }
    if mode >= 2 {
        let rest = ran.rest();
        let (code, told) = match how {
            How::Eof => (0, rest.contains("EOF")),
            How::Code(n) => (n, rest.contains(&format!("exited with code {} ", n))),
            How::Break => (130, rest.contains("BREAK")),
            How::Error(l) | How::Compile(l) => (1, rest.contains("ERROR") && names_line(&rest, l)),
        };
        if ran.code != Ok(code) {
            return Err("code");
        }
        if !told {
            return Err("report");
        }
        let n = ["EOF", "exited with code", "BREAK", "ERROR"].iter().filter(|s| rest.contains(**s)).count();
        if n != 1 {
            return Err("reports");
        }
        return Ok(());
    }
    let ok = match (how, &ran.code) {
        (How::Eof, Ok(0)) | (How::Break, Ok(130)) => true,
        (How::Code(n), Ok(m)) => n == *m,
        (How::Error(l) | How::Compile(l), Err(e)) => names_line(e, l),
        _ => false,
    };
    if !ok {
        return Err("code");
    }
    if !ran.rest().trim().is_empty() {
        return Err("noise");
    }
    Ok(())
}

fn programs(idx: u64, hi: u32, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[MODES.len() as u64, seq_count(ALL.len() as u64, 0, hi)], idx);
    let l: Vec<S> = seq_decode(ALL.len() as u64, 0, d[1] as u64).into_iter().map(|i| ALL[i]).collect();
    let (out, how) = model(&l);
    let (ran, kept) = run(d[0], program(&l).as_bytes(), &[Key::Interrupt]);
    cx.step(1);
    cx.state(&(&l, d[0]));
    if l.is_empty() {
        cx.trivial += 1;
    }
    let bad = |k: &str| {
        Failure::new(
            format!("{}:{}", MODES[d[0]], k),
            format!("{:?}: expected {:?} and {:?}, got {:?} and {:?}", l, out, how, ran.code, ran.text),
        )
    };
    judge(d[0], &ran, &out, how).map_err(bad)?;
    if !kept {
        return Err(bad("kept"));
    }
    Ok(())
}

// -- Exit codes.

fn codes(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[MODES.len() as u64, 136, 3], idx);
    let n: i64 = match d[1] {
        i if i < 128 => i as i64,
        i => [-1, 128, 129, 255, 256, 257, 65536, i32::MAX as i64][i - 128],
    };
    let text = match d[2] {
        0 => format!("PRINT \"#1\"\nEND {}\n", n),
        1 => format!("N% = {}\nPRINT \"#1\": END N%\n", n),
        _ => format!("N% = {} - 1\nPRINT \"#1\": END N% + 1\n", n),
    };
    let fits = (0..128).contains(&n);
    // Codes that are constant are checked first.
    let (out, how) = match (fits, d[2]) {
        (true, _) => (vec!["#1".to_owned()], How::Code(n as i32)),
        (false, 0) => (vec![], How::Compile(2)),
        (false, _) => (vec!["#1".to_owned()], How::Error(2)),
    };
    let (ran, _) = run(d[0], text.as_bytes(), &[]);
    cx.step(1);
    let (ran, out) = match (fits, d[2]) {
        // When that happens is not important, but it does.
        (false, 0) => {
            let text = ran.rest();
            (Ran { code: ran.code, text }, out)
        }
        _ => (ran, out),
    };
    judge(d[0], &ran, &out, how).map_err(|k| {
        Failure::new(
            format!("codes:{}:{}", MODES[d[0]], k),
            format!("{:?}: expected {:?} and {:?}, got {:?} and {:?}", text, out, how, ran.code, ran.text),
        )
    })
}

// -- Files.

const BODY: &str = "PRINT \"#1\"{n}IF TRUE THEN{n}PRINT \"#2\"{n}END IF{n}PRINT \"#3\": END 9";

/// Contents and whether they run to the end, in code 9.
fn file(i: usize) -> (Vec<u8>, Result<Option<i32>, ()>) {
    let b = |n: &str| BODY.replace("{n}", n);
    let ok = Ok(Some(9));
    match i {
        0 => (b("\n").into_bytes(), ok),
        1 => ((b("\n") + "\n").into_bytes(), ok),
        2 => (b("\r\n").into_bytes(), ok),
        3 => ((b("\r\n") + "\r\n\r\n").into_bytes(), ok),
        4 => (("#!/usr/bin/env endbasic\n".to_owned() + &b("\n")).into_bytes(), ok),
        5 => (("#!/usr/bin/env endbasic\r\n' endbasic cli: console=text\r\n".to_owned() + &b("\r\n")).into_bytes(), ok),
        6 => (("' a comment: ñ\n\n\n".to_owned() + &b("\n") + "\nREM end ☃").into_bytes(), ok),
        7 => (vec![], Ok(None)),
        8 => (b"\n".to_vec(), Ok(None)),
        9 => (b"#!/usr/bin/env endbasic".to_vec(), Ok(None)),
        10 => (b"REM nothing else".to_vec(), Ok(None)),
        11 => {
            // Broken UTF-8.
            let mut v = b("\n").into_bytes();
            v.extend_from_slice(b"\nREM \xff\xfe\n");
            (v, Err(()))
        }
        12 => {
            let mut v = b"PRINT \"#\xc3\"\n".to_vec();
            v.extend_from_slice(b("\n").as_bytes());
            (v, Err(()))
        }
        _ => {
            // Longer than any buffer.
            let mut s = String::new();
            for i in 0..3000 {
                s.push_str(&format!("' comment number {} of this program ñ\n", i));
            }
            s.push_str(&b("\n"));
            (s.into_bytes(), ok)
        }
    }
}

fn files(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[MODES.len() as u64, 14], idx);
    let (content, exp) = file(d[1]);
    let (ran, _) = run(d[0], &content, &[]);
    cx.step(1);
    let bad = |k: &str| {
        Failure::new(format!("files:{}:{}:{}", d[1], MODES[d[0]], k), format!("{:?} {:?}", ran.code, ran.text))
    };
    match exp {
        Ok(n) => {
            let (out, how) = match n {
                Some(n) => (vec!["#1".to_owned(), "#2".to_owned(), "#3".to_owned()], How::Code(n)),
                None => (vec![], How::Eof),
            };
            judge(d[0], &ran, &out, how).map_err(bad)
        }
        Err(()) => {
            // Nothing that is not text runs.
            if !ran.marks().is_empty() {
                return Err(bad("ran"));
            }
            if ran.code.is_ok() && (d[0] < 2 || ran.code == Ok(0)) {
                return Err(bad("accepted"));
            }
            Ok(())
        }
    }
}

// -- Things that prevent it from running.

const SETUPS: [(&str, bool); 12] = [
    ("missing", false),
    ("directory", false),
    ("denied", false),
    ("console", false),
    ("gpio mock", true),
    ("gpio noop", true),
    ("gpio rppal", false),
    ("gpio", false),
    ("gpio MOCK", false),
    ("drive", false),
    ("url", false),
    ("plain", true),
];

fn setup(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[2, SETUPS.len() as u64], idx);
    let (what, works) = SETUPS[d[1]];
    let dir = Scratch::new();
    let path = dir.path("p.bas");
    match what {
        "missing" => (),
        "directory" => std::fs::create_dir(&path).unwrap(),
        _ => std::fs::write(&path, "PRINT \"#1\": END 7\n").unwrap(),
    }
    if what == "denied" {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o600)).unwrap();
    }
    let drive = if what == "drive" { "unheard://of" } else { "memory://" };
    let mode = match d[0] {
        0 => AppMode::RunScript(path.clone()),
        _ => AppMode::RunInteractive(path.clone(), drive.to_owned()),
    };
    let mut app = App::new(mode);
    app.console_fails = what == "console";
    app.gpio = what.strip_prefix("gpio").map(|s| s.trim().to_owned());
    if what == "url" {
        app.url = "not an address".to_owned();
    }
    // Scripts need neither drives nor the service.
    let works = works || (d[0] == 0 && matches!(what, "drive" | "url"));
    let ran = app.run();
    cx.step(1);
    let (marks, ok): (&[&str], bool) = if works { (&["#1"], ran.code == Ok(7)) } else { (&[], ran.code.is_err()) };
    if !ok || ran.marks() != marks {
        return Err(Failure::new(
            format!("setup:{}", what),
            format!("mode {}: got {:?}, output {:?}", d[0], ran.code, ran.text),
        ));
    }
    Ok(())
}

// -- Names in the cloud.

/// What is asked for and what that is.
const NAMES: [(&str, Option<(&str, &str)>); 16] = [
    ("al/p.bas", Some(("al", "p.bas"))),
    ("al/two words.bas", Some(("al", "two words.bas"))),
    ("al/ñ.bas", Some(("al", "ñ.bas"))),
    ("al/P.BAS", Some(("al", "P.BAS"))),
    ("al/p", None),
    ("al/mine.bas", None),
    ("al/", None),
    ("al/no.bas", None),
    ("bo/p.bas", None),
    ("nobody/p.bas", None),
    ("/p.bas", None),
    ("/", None),
    ("", None),
    ("al", None),
    ("al/sub/p.bas", None),
    ("al//p.bas", None),
];

fn world() -> World {
    let mut w = World::default();
    for (u, f, public) in [
        ("al", "p.bas", true),
        ("al", "two words.bas", true),
        ("al", "ñ.bas", true),
        ("al", "P.BAS", true),
        ("al", "mine.bas", false),
        ("bo", "p.bas", false),
    ] {
        let r = if public { BTreeSet::from(["public".to_owned()]) } else { BTreeSet::new() };
        let t = format!("PRINT \"#{}/{}\": END 7\n", u, f);
        w.files.insert((u.to_owned(), f.to_owned()), (t.into_bytes(), r));
    }
    w
}

fn names(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[NAMES.len() as u64, 2, 4], idx);
    let (name, what) = NAMES[d[0]];
    let mut w = world();
    w.fail = [None, Some((0, false)), Some((0, true)), Some((1, false))][d[2]];
    let mut r = Rig::new(Opts { interactive: true, ..Opts::default() }, w);
    r.prog.borrow_mut().load(Some("BEFORE.BAS"), "PRINT 1");
    let code = launch(&mut r, name, d[1] == 1);
    let text = r.mach.text();
    cx.step(1);
    let ran = Ran { code, text };
    let bad = |k: &str| {
        Failure::new(
            format!("names:{}:{}", name, k),
            format!("prompt {}, fault {:?}: got {:?}, output {:?}", d[1], d[2], ran.code, ran.text),
        )
    };
    use endbasic_std::program::Program;
    let fault = matches!(d[2], 1 | 2);
    match what {
        Some((u, f)) if !fault => {
            if ran.code != Ok(7) || ran.marks() != [format!("#{}/{}", u, f)] || !ran.text.contains("exited with code 7 ") {
                return Err(bad("result"));
            }
            if r.prog.borrow().name() != Some(&format!("AUTORUN:/{}", f)) || r.prog.borrow().is_dirty() {
                return Err(bad("loaded"));
            }
        }
        _ => {
            let asked = !r.world.borrow().log.is_empty();
            if ran.code == Ok(0) || !ran.marks().is_empty() || ran.text.contains("****") {
                return Err(bad("result"));
            }
            if fault && asked && ran.code != Err(DOWN.to_owned()) {
                return Err(bad("fault"));
            }
            let p = r.prog.borrow();
            if p.name() != Some("BEFORE.BAS") || p.text() != "PRINT 1" {
                return Err(bad("replaced"));
            }
        }
    }
    // Nothing of anybody changed.
    let now = r.world.borrow();
    if now.files != world().files || now.session.is_some() {
        return Err(bad("changed"));
    }
    if now.log.iter().any(|l| !l.starts_with("get ")) {
        return Err(bad("asked"));
    }
    drop(now);
    if r.mach.feed("OUT 1") != Outcome::Done(None) {
        return Err(bad("after"));
    }
    Ok(())
}

// -- The session after.

const FIRST: [(&str, How); 7] = [
    ("X = 3: PRINT \"#1\"", How::Eof),
    ("X = 3: ON ERROR RESUME NEXT: PRINT \"#1\": END 5", How::Code(5)),
    ("X = 3: ON ERROR GOTO @H: PRINT \"#1\": END 0: @H: PRINT \"#H\"", How::Code(0)),
    ("X = 3: PRINT \"#1\": BAD = ASC(\"\")", How::Error(1)),
    ("X = 3: ON ERROR RESUME NEXT: PRINT \"#1\": DO: K$ = INKEY: LOOP", How::Break),
    ("X = 3: PRINT \"#1\": NOTHING 1", How::Compile(1)),
    ("FUNCTION F%: F% = 2: END 5: END FUNCTION: X = 3: PRINT \"#1\": Y = F%", How::Code(5)),
];

const AFTER: [&str; 8] = [
    "PRINT \"#2\"",
    "PRINT \"#\"; X",
    "BAD = ASC(\"\"): PRINT \"#N\"",
    "RUN",
    "CLEAR",
    "END 3",
    "FOR I = 1 TO 2: PRINT \"#I\": NEXT",
    "LIST",
];

fn after(idx: u64, cx: &mut Cx) -> CaseResult {
    let first = idx as usize % FIRST.len();
    let ops = seq_decode(AFTER.len() as u64, 0, idx / FIRST.len() as u64);
    let (code, how) = FIRST[first];
    let mut w = World::default();
    let text = format!("{}\n", code);
    w.files.insert(("al".into(), "p.bas".into()), (text.clone().into_bytes(), BTreeSet::from(["public".to_owned()])));
    let mut r = Rig::new(Opts { interactive: true, ..Opts::default() }, w);
    // What was there before is gone.
    assert_eq!(Outcome::Done(None), r.mach.feed("Z = 1: X = \"text\""));
    r.mach.con.borrow_mut().keys = vec![Key::Interrupt].into();
    let res = launch(&mut r, "al/p.bas", true);
    let t = r.mach.text();
    r.mach.m.drain_signals();
    cx.step(1);
    let ops: Vec<&str> = ops.into_iter().map(|i| AFTER[i]).collect();
    let bad = |k: &str, d: String| Failure::new(format!("after:{}", k), format!("{:?} {:?}: {}", code, ops, d));
    let compiled = !matches!(how, How::Compile(_));
    let marks: &[&str] = if compiled { &["#1"] } else { &[] };
    let ran = Ran { code: res, text: t };
    if ran.marks() != marks {
        return Err(bad("first", format!("{:?} {:?}", ran.code, ran.text)));
    }
    let mut defined = compiled;
    for op in &ops {
        r.mach.con.borrow_mut().keys = vec![Key::Interrupt].into();
        let got = r.mach.feed(op);
        let t = r.mach.text();
        r.mach.m.drain_signals();
        cx.step(1);
        let marks: Vec<&str> = t.lines().filter(|l| l.starts_with('#')).collect();
        let bad = |k: &str| bad(k, format!("{:?} gave {:?} and {:?}", op, got, t));
        let ok = match *op {
            "PRINT \"#2\"" => got == Outcome::Done(None) && marks == ["#2"],
            "PRINT \"#\"; X" => match defined {
                true => got == Outcome::Done(None) && marks == ["# 3"],
                false => matches!(got, Outcome::Compile(_)) && marks.is_empty(),
            },
            "RUN" => {
                defined = compiled;
                match how {
                    How::Eof | How::Code(_) => got == Outcome::Done(None) && marks == ["#1"],
                    How::Break => got == Outcome::Break && marks == ["#1"],
                    How::Error(_) => matches!(got, Outcome::Err(_)) && marks == ["#1"],
                    How::Compile(_) => matches!(got, Outcome::Err(_)) && marks.is_empty(),
                }
            }
            "CLEAR" => {
                defined = false;
                got == Outcome::Done(None) && marks.is_empty()
            }
            "END 3" => got == Outcome::Done(Some(3)) && marks.is_empty(),
            "LIST" => got == Outcome::Done(None) && t.contains(code),
            o if o.starts_with("FOR") => got == Outcome::Done(None) && marks == ["#I", "#I"],
            _ => matches!(got, Outcome::Err(_)) && marks.is_empty(),
        };
        if !ok {
            return Err(bad(op));
        }
    }
    if r.store.borrow().cwd() != "AUTORUN:/" || r.mounts().get("AUTORUN").map(|s| s.as_str()) != Some("cloud://al") {
        return Err(bad("drive", r.store.borrow().cwd()));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let n = tier.pick(3, 5);
    let k = tier.pick(2, 3);
    vec![
        Section::new(
            "programs",
            MODES.len() as u64 * seq_count(ALL.len() as u64, 0, n),
            |i| format!("{}", i),
            move |i, cx| programs(i, n, cx),
        ),
        Section::new("codes", product(&[MODES.len() as u64, 136, 3]), |i| format!("{}", i), codes),
        Section::new("files", product(&[MODES.len() as u64, 14]), |i| format!("{}", i), files),
        Section::new("setup", product(&[2, SETUPS.len() as u64]), |i| format!("{:?}", mixed(&[2, 12], i)), setup),
        Section::new("names", product(&[NAMES.len() as u64, 2, 4]), |i| format!("{:?}", mixed(&[16, 2, 4], i)), names),
        Section::new(
            "after",
            FIRST.len() as u64 * seq_count(AFTER.len() as u64, 0, k),
            |i| format!("{}", i),
            after,
        ),
    ]
}
