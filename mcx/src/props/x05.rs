//! X05: the command line of the interpreter does what its arguments, its files and its input say.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::scratch::Scratch;
use endbasic::{extract_propline, setup_console};
use endbasic_std::console::{ConsoleSpec, Resolution};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::sync::OnceLock;

pub fn property() -> Property {
    Property {
        id: "X05",
        rule: "Processes of the interpreter with all sequences of up to 3 (thorough: 4) of 18 arguments; all scripts whose first \
               lines are up to 4 (thorough: 5) of 13 pieces of lines that configure the console, alone and against the flags; all console \
               specifications of up to 4 (thorough: 5) of 12 pieces and all resolutions of up to 5 (thorough: 6) of 7 characters; all \
               inputs of up to 3 (thorough: 4) of 9 pieces read by scripts and typed at the prompt; all pairs of sessions of up to 2 \
               and 1 (thorough: 3 and 2) of 9 commands on one directory. Compared with a model of the options, the input and the directory.",
        assumptions: &[
            "what happens with the end of the input in the middle of a line is not defined",
            "the order in which bad options are found is not defined, only that they are",
        ],
        sections,
    }
}

/// The file of the interpreter, which is built with this program.
fn binary() -> std::os::fd::RawFd {
    static FD: OnceLock<std::fs::File> = OnceLock::new();
    let f = FD.get_or_init(|| {
        let p = std::env::current_exe().unwrap().with_file_name("endbasic");
        let f = std::fs::File::open(&p).expect("the interpreter is not built");
        unsafe {
            libc::fcntl(f.as_raw_fd(), libc::F_SETFD, 0);
        }
        f
    });
    f.as_raw_fd()
}

#[derive(Debug)]
pub struct Ended {
    pub code: i32,
    pub out: String,
    pub err: String,
}

/// A process of the interpreter without privileges, with a home directory of its own.
pub fn command(home: &Path) -> Command {
    let mut c = Command::new(format!("/proc/self/fd/{}", binary()));
    c.arg0("endbasic").env_clear().env("HOME", home).env("LINES", "24").env("COLUMNS", "80").current_dir(home);
    if unsafe { libc::geteuid() } == 0 {
        unsafe {
            c.pre_exec(|| {
                if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    c
}

fn launch(home: &Path, args: &[impl AsRef<OsStr>], input: &[u8]) -> Ended {
    let mut p = command(home)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start the interpreter");
    {
        // It may not want it.
        let mut i = p.stdin.take().unwrap();
        let _ = i.write_all(input);
    }
    let o = p.wait_with_output().unwrap();
    Ended {
        code: o.status.code().unwrap_or(-1),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

/// A directory that the process can use as its home.
pub struct Home(Scratch);

impl Home {
    pub fn new() -> Self {
        let s = Scratch::new();
        std::fs::set_permissions(s.root(), std::fs::Permissions::from_mode(0o777)).unwrap();
        Home(s)
    }

    pub fn root(&self) -> &Path {
        self.0.root()
    }

    pub fn path(&self, n: &str) -> String {
        self.0.path(n)
    }

    pub fn write(&self, n: &str, c: impl AsRef<[u8]>) -> String {
        let p = self.path(n);
        std::fs::write(&p, c).unwrap();
        p
    }

    fn entries(&self) -> BTreeSet<String> {
        std::fs::read_dir(self.root()).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect()
    }
}

fn marks(t: &str) -> Vec<&str> {
    t.lines().filter(|l| l.starts_with('#')).collect()
}

// -- Arguments.

const ARGS: [&str; 18] = [
    "FILE",
    "MISSING",
    "-i",
    "--interactive",
    "--console=text",
    "--console",
    "text",
    "--console=bad",
    "--console=",
    "--gpio-pins=mock",
    "--gpio-pins=bad",
    "--local-drive=memory://",
    "--local-drive=DIR",
    "--local-drive=bad://",
    "--service-url=http://127.0.0.1:1",
    "--help",
    "--bogus",
    "--",
];

#[derive(Debug, Eq, PartialEq)]
enum Exp {
    /// It is not used right.
    Usage,
    Help,
    /// Something that was asked for is not possible.
    Fails,
    /// Runs the file.
    Script,
    /// Runs the file in a full machine.
    Interactive,
    Prompt,
}

/// What is expected, and the drive used.
fn model(args: &[&str]) -> (Exp, Option<String>) {
    let mut opts: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut free: Vec<&str> = vec![];
    let mut it = args.iter();
    let mut missing = false;
    while let Some(a) = it.next() {
        if *a == "--" {
            free.extend(it.by_ref());
        } else if *a == "-i" || *a == "--interactive" {
            opts.entry("i").or_default().push(String::new());
        } else if *a == "--console" {
            match it.next() {
                Some(v) => opts.entry("console").or_default().push((*v).to_owned()),
                None => missing = true,
            }
        } else if let Some((k, v)) = a.strip_prefix("--").and_then(|a| a.split_once('=')) {
            opts.entry(k).or_default().push(v.to_owned());
        } else if let Some(k) = a.strip_prefix("--") {
            opts.entry(k).or_default().push(String::new());
        } else {
            free.push(a);
        }
    }
    if missing || opts.contains_key("bogus") || opts.values().any(|v| v.len() > 1) {
        return (Exp::Usage, None);
    }
    if opts.contains_key("help") {
        return (Exp::Help, None);
    }
    if free.len() > 1 {
        return (Exp::Usage, None);
    }
    let get = |k: &str| opts.get(k).map(|v| v[0].clone());
    let inter = opts.contains_key("i");
    let fails = get("console").is_some_and(|c| c != "text") || get("gpio-pins").is_some_and(|g| g != "mock");
    let drive = get("local-drive").unwrap_or("DEFAULT".to_owned());
    if fails || ((free.is_empty() || inter) && drive == "bad://") {
        return (Exp::Fails, None);
    }
    match free.first() {
        None => (Exp::Prompt, Some(drive)),
        Some(f) if *f != "FILE" => (Exp::Fails, None),
        Some(_) if inter => (Exp::Interactive, Some(drive)),
        Some(_) => (Exp::Script, None),
    }
}

fn arguments(idx: u64, cx: &mut Cx) -> CaseResult {
    let l: Vec<&str> = seq_decode(ARGS.len() as u64, 0, idx).into_iter().map(|i| ARGS[i]).collect();
    let home = Home::new();
    let file = home.write("prog.bas", "PRINT \"#1\"\nEND 7\n");
    let args: Vec<String> = l
        .iter()
        .map(|a| match *a {
            "FILE" => file.clone(),
            "MISSING" => home.path("missing.bas"),
            "--local-drive=DIR" => format!("--local-drive=file://{}", home.path("dir")),
            a => a.to_owned(),
        })
        .collect();
    let (exp, drive) = model(&l);
    let got = launch(home.root(), &args, b"PRINT \"#2\"\n");
    cx.step(1);
    cx.count(match exp {
        Exp::Usage => "usage",
        Exp::Help => "help",
        Exp::Fails => "fails",
        Exp::Script => "script",
        Exp::Interactive => "interactive",
        Exp::Prompt => "prompt",
    });
    let bad = |k: &str| Failure::new(format!("arguments:{}", k), format!("{:?}: expected {:?}, got {:?}", l, exp, got));
    let m = marks(&got.out);
    let ok = match exp {
        Exp::Usage => got.code == 2 && m.is_empty() && !got.err.is_empty(),
        Exp::Help => got.code == 0 && m.is_empty() && got.out.contains("Usage"),
        Exp::Fails => matches!(got.code, 1 | 2) && m.is_empty() && !got.err.is_empty(),
        Exp::Script => got.code == 7 && got.out == "#1\n" && got.err.is_empty(),
        Exp::Interactive => got.code == 7 && m == ["#1"] && got.err.is_empty(),
        Exp::Prompt => got.code == 0 && m == ["#2"] && got.err.is_empty(),
    };
    if !ok {
        return Err(bad("result"));
    }
    // Only what was asked for exists.
    let mut e = BTreeSet::from(["prog.bas".to_owned()]);
    match drive.as_deref() {
        Some("DEFAULT") => {
            e.insert("Documents".to_owned());
        }
        Some("DIR") => {
            e.insert("dir".to_owned());
        }
        _ => (),
    }
    let now = home.entries();
    // Drives are prepared before some of the problems are found.
    if if exp == Exp::Fails { !now.iter().all(|f| ["prog.bas", "Documents", "dir"].contains(&f.as_str())) } else { now != e } {
        return Err(bad(&format!("files {:?}", home.entries())));
    }
    Ok(())
}

// -- Lines that configure the console.

const PIECES: [&str; 13] = [
    "\n", "\r\n", "#!", "' ", "'", "REM ", "rEm ", "endbasic cli: ", "console=", "text", "bad:x=1", "ñ", " ",
];

const STARTS: [&str; 4] = ["", "#!/usr/bin/env endbasic\n", "#!\r\n", "#!x\n' endbasic cli: "];

/// The console of a script; an error if its line is not right.
fn propline(t: &str) -> Result<Option<String>, ()> {
    let mut l = t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l));
    if !l.next().unwrap_or("").starts_with("#!") {
        return Ok(None);
    }
    let s = l.next().unwrap_or("");
    let c = match s.get(..4) {
        _ if s.starts_with("' ") => &s[2..],
        Some(r) if r.to_lowercase() == "rem " => &s[4..],
        _ => return Ok(None),
    };
    match c.strip_prefix("endbasic cli: ") {
        None => Ok(None),
        Some(p) => match p.strip_prefix("console=") {
            Some(c) if !c.is_empty() => Ok(Some(c.to_owned())),
            _ => Err(()),
        },
    }
}

fn script(idx: u64) -> String {
    let s = STARTS[idx as usize % STARTS.len()];
    let l = seq_decode(PIECES.len() as u64, 0, idx / STARTS.len() as u64);
    s.to_owned() + &l.into_iter().map(|i| PIECES[i]).collect::<String>()
}

fn proplines(idx: u64, cx: &mut Cx) -> CaseResult {
    thread_local! {
        static HOME: Home = Home::new();
    }
    let t = script(idx);
    let got = HOME.with(|h| extract_propline(h.write("s.bas", &t)));
    cx.step(1);
    let exp = propline(&t);
    let ok = match (&exp, &got) {
        (Ok(e), Ok(g)) => *e == g.console_spec,
        (Err(()), Err(_)) => true,
        _ => false,
    };
    if exp == Ok(None) {
        cx.trivial += 1;
    }
    if !ok {
        return Err(Failure::new("proplines", format!("{:?}: expected {:?}, got {:?}", t, exp, got)));
    }
    Ok(())
}

const LINES: [(&str, Option<&str>); 8] = [
    ("", None),
    ("#!x\n", None),
    ("#!x\n' endbasic cli: console=text\n", Some("text")),
    ("#!x\nrem endbasic cli: console=text:\r\n", Some("text:")),
    ("#!x\n' endbasic cli: console=bad\n", Some("bad")),
    ("#!x\n' endbasic cli: console=text:f\n", Some("text:f")),
    ("#!x\n' endbasic cli: other=1\n", Some("")),
    ("' endbasic cli: console=bad\n", None),
];

const FLAGS: [&[&str]; 6] =
    [&[], &["--console=text"], &["--console=bad"], &["-i"], &["-i", "--console=text"], &["-i", "--console=text:a=b"]];

fn flags(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[LINES.len() as u64, FLAGS.len() as u64, 2], idx);
    let (line, spec) = LINES[d[0]];
    let home = Home::new();
    let file = home.write("prog.bas", format!("{}PRINT \"#1\"\nEND 7\n", line));
    let mut args: Vec<String> = FLAGS[d[1]].iter().map(|f| (*f).to_owned()).collect();
    args.insert(if d[2] == 0 { 0 } else { args.len() }, file);
    let inter = FLAGS[d[1]].contains(&"-i");
    let flag = FLAGS[d[1]].iter().find_map(|f| f.strip_prefix("--console="));
    // The line is only for scripts, and the flag goes before it.
    let broken = spec == Some("") && !inter;
    let spec = flag.or(if inter { None } else { spec }).unwrap_or("text");
    let works = !broken && (spec == "text" || spec == "text:");
    let got = launch(home.root(), &args, b"");
    cx.step(1);
    let m = marks(&got.out);
    let ok = if works { got.code == 7 && m == ["#1"] } else { got.code == 1 && m.is_empty() && !got.err.is_empty() };
    if !ok {
        return Err(Failure::new("flags", format!("{:?} {:?}: expected {}, got {:?}", line, args, works, got)));
    }
    Ok(())
}

// -- Specifications.

const WORDS: [&str; 12] = ["text", "sdl", "st7735s", ":", ",", "=", "a", "b", "fs", "8x6", "ñ", " "];

/// The driver, its flags and its properties, of which the last of each name counts.
fn parse(t: &str) -> (String, BTreeSet<String>, BTreeMap<String, String>) {
    let (d, r) = match t.find(':') {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, ""),
    };
    let mut f = BTreeSet::new();
    let mut k = BTreeMap::new();
    for w in r.split(',').filter(|w| !w.is_empty()) {
        match w.find('=') {
            None => {
                f.insert(w.to_owned());
            }
            Some(i) => {
                k.insert(w[..i].to_owned(), w[i + 1..].to_owned());
            }
        }
    }
    (d.to_owned(), f, k)
}

fn specs(idx: u64, cx: &mut Cx) -> CaseResult {
    let t: String = seq_decode(WORDS.len() as u64, 0, idx).into_iter().map(|i| WORDS[i]).collect();
    cx.step(1);
    let bad = |k: &str, d: String| Failure::new(format!("specs:{}", k), format!("{:?}: {}", t, d));
    let (tx, _rx) = async_channel::unbounded();
    let r = setup_console(Some(&t), tx);
    let (driver, flags, keyed) = parse(&t);
    // There is one driver only in this build.
    let works = driver == "text" && flags.is_empty() && keyed.is_empty();
    if r.is_ok() != works {
        return Err(bad("setup", format!("expected {}, got {:?}", works, r.err())));
    }
    if t.is_empty() {
        return Ok(());
    }
    // All subsets of the flags are taken, and the rest is told about.
    let all: Vec<String> = flags.iter().chain(keyed.keys()).cloned().collect();
    for bits in 0..1u32 << all.len() {
        let mut s = ConsoleSpec::init(&t);
        if s.driver != driver || s.take_flag("absent") || s.take_keyed_flag_str("absent").is_some() {
            return Err(bad("parse", String::new()));
        }
        let mut left = vec![];
        for (i, f) in all.iter().enumerate() {
            let key = i >= flags.len();
            if bits >> i & 1 == 0 {
                left.push(f.clone());
            } else if key {
                let v = &keyed[f];
                if v == "8x6" {
                    let n = std::num::NonZeroU32::new;
                    let e = Resolution::Windowed((n(8).unwrap(), n(6).unwrap()));
                    if s.take_keyed_flag::<Resolution>(f).ok() != Some(Some(e)) {
                        return Err(bad("typed", f.clone()));
                    }
                } else if s.take_keyed_flag_str(f) != Some(v.as_str()) {
                    return Err(bad("value", f.clone()));
                }
                if s.take_keyed_flag_str(f).is_some() {
                    return Err(bad("again", f.clone()));
                }
            } else if !s.take_flag(f) || s.take_flag(f) {
                return Err(bad("flag", f.clone()));
            }
        }
        cx.step(1);
        match s.finish() {
            Ok(()) if left.is_empty() => (),
            Err(e) if !left.is_empty() && left.iter().all(|f| e.to_string().contains(f.as_str())) => (),
            r => return Err(bad("finish", format!("left {:?}, got {:?}", left, r))),
        }
    }
    Ok(())
}

const DIGITS: [&str; 7] = ["0", "1", "9", "x", "fs", "4294967295", "-"];

fn resolutions(idx: u64, cx: &mut Cx) -> CaseResult {
    let t: String = seq_decode(DIGITS.len() as u64, 0, idx).into_iter().map(|i| DIGITS[i]).collect();
    cx.step(1);
    fn number(s: &str) -> Option<std::num::NonZeroU32> {
        if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let n = s.chars().fold(0u128, |a, c| (a * 10 + c as u128 - '0' as u128).min(1 << 100));
        std::num::NonZeroU32::new(u32::try_from(n).ok()?)
    }
    let exp = (|| {
        if t == "fs" {
            return Some(Resolution::FullScreenDesktop);
        }
        let (d, full) = match t.strip_suffix("fs") {
            Some(d) => (d, true),
            None => (t.as_str(), false),
        };
        let p: Vec<&str> = d.split('x').collect();
        let [w, h] = p.as_slice() else { return None };
        let (w, h) = (number(w)?, number(h)?);
        Some(if full { Resolution::FullScreen((w, h)) } else { Resolution::Windowed((w, h)) })
    })();
    let got = Resolution::from_str(&t);
    match (&exp, &got) {
        (Some(e), Ok(g)) if e == g => Ok(()),
        (None, Err(_)) => {
            cx.trivial += 1;
            Ok(())
        }
        _ => Err(Failure::new("resolutions", format!("{:?}: expected {:?}, got {:?}", t, exp, got))),
    }
}

// -- Input.

const INPUTS: [&[u8]; 9] = [b"x", b"\n", b"\r\n", "ñ☃".as_bytes(), b"a, \"b", b" ", b"\t", b"\xff", b"END 3"];

/// The lines of an input as INPUT gets them; None if that is not defined.
fn lines(t: &[u8]) -> Option<Vec<String>> {
    if t.contains(&0xff) || t.contains(&b'\t') {
        return None;
    }
    let t = std::str::from_utf8(t).unwrap();
    let mut v: Vec<String> = t.split('\n').map(|l| l.replace('\r', "").trim_end().to_owned()).collect();
    // The last line has an end, too.
    if v.pop() != Some(String::new()) {
        return None;
    }
    Some(v)
}

fn input(idx: u64, cx: &mut Cx) -> CaseResult {
    let typed: Vec<u8> = seq_decode(INPUTS.len() as u64, 0, idx).into_iter().flat_map(|i| INPUTS[i].to_vec()).collect();
    let home = Home::new();
    let n = typed.iter().filter(|b| **b == b'\n').count();
    let mut prog = String::new();
    for _ in 0..n {
        prog.push_str("INPUT A$\nPRINT: PRINT \"#[\"; A$; \"]\"\n");
    }
    prog.push_str("PRINT: PRINT \"#END\"\nEND 7\n");
    let file = home.write("prog.bas", &prog);
    let got = launch(home.root(), &[file.as_str()], &typed);
    cx.step(1);
    let shown = String::from_utf8_lossy(&typed).into_owned();
    let bad = |k: &str| Failure::new(format!("input:{}", k), format!("{:?}: got {:?}", shown, got));
    match lines(&typed) {
        Some(l) => {
            let mut e: Vec<String> = l.iter().map(|l| format!("#[{}]", l)).collect();
            e.push("#END".to_owned());
            if marks(&got.out) != e || got.code != 7 {
                return Err(bad("lines"));
            }
        }
        // Whatever else, it does not fall over.
        None => {
            if !matches!(got.code, 1 | 7) || (got.code == 7) != marks(&got.out).contains(&"#END") {
                return Err(bad("other"));
            }
        }
    }
    // One more line than there is.
    let file = home.write("more.bas", format!("INPUT A$\n{}", prog));
    let got = launch(home.root(), &[file.as_str()], &typed);
    cx.step(1);
    if typed.last().is_none_or(|b| *b == b'\n') && (got.code != 1 || got.err.is_empty() || marks(&got.out).contains(&"#END")) {
        return Err(Failure::new("input:end", format!("{:?}: got {:?}", shown, got)));
    }
    Ok(())
}

/// Lines at the prompt when it comes from a file.
const TYPED: [(&str, Option<&str>, Option<i32>); 9] = [
    ("PRINT \"#1\"\n", Some("#1"), None),
    ("PRINT \"#2\"\r\n", Some("#2"), None),
    ("\n", None, None),
    ("NOTHING\n", None, None),
    ("BAD = ASC(\"\")\n", None, None),
    ("END\n", None, Some(0)),
    ("END 5\n", None, Some(5)),
    ("INPUT A$: PRINT: PRINT \"#[\"; A$; \"]\"\nñ\n", Some("#[ñ]"), None),
    ("NEW\n", None, None),
];

fn prompt(idx: u64, cx: &mut Cx) -> CaseResult {
    let l = seq_decode(TYPED.len() as u64, 0, idx);
    let home = Home::new();
    let text: String = l.iter().map(|i| TYPED[*i].0).collect();
    let mut e = vec![];
    let mut code = 0;
    for i in l {
        if let Some(n) = TYPED[i].2 {
            code = n;
            break;
        }
        e.extend(TYPED[i].1);
    }
    let got = launch(home.root(), &["--local-drive=memory://"], text.as_bytes());
    cx.step(1);
    if marks(&got.out) != e || got.code != code || !got.err.is_empty() {
        return Err(Failure::new("prompt", format!("{:?}: expected {:?} and {}, got {:?}", text, e, code, got)));
    }
    Ok(())
}

/// Input that cannot be read.
fn unreadable(idx: u64, cx: &mut Cx) -> CaseResult {
    let home = Home::new();
    let file = home.write("prog.bas", "PRINT \"#1\"\nINPUT A$\nPRINT \"#2\"\n");
    let args: &[&str] = if idx / 2 == 0 { &[file.as_str()] } else { &["--local-drive=memory://"] };
    let from = if idx % 2 == 0 { std::fs::File::open(home.root()).unwrap() } else { std::fs::File::open("/dev/null").unwrap() };
    let mut p = command(home.root())
        .args(args)
        .stdin(from)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    cx.step(1);
    for _ in 0..2000 {
        if p.try_wait().unwrap().is_some() {
            let o = p.wait_with_output().unwrap();
            let m = String::from_utf8_lossy(&o.stdout).into_owned();
            let ok = if idx / 2 == 0 { o.status.code() == Some(1) && marks(&m) == ["#1"] } else { o.status.code() == Some(0) };
            if !ok {
                return Err(Failure::new("unreadable:result", format!("{}: {:?}", idx, o)));
            }
            return Ok(());
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let _ = p.kill();
    let _ = p.wait();
    Err(Failure::new("unreadable:hangs", format!("{}: it does not end", idx)))
}

// -- Sessions on one directory.

const COMMANDS: [&str; 9] = [
    "LOAD \"DEMOS:/HELLO.BAS\"",
    "LOAD \"DEMOS:/GUESS.BAS\"",
    "SAVE \"a\"",
    "SAVE \"LOCAL:/B.bas\"",
    "KILL \"a.bas\"",
    "LOAD \"a\"",
    "COPY \"a.bas\", \"c.txt\"",
    "NEW",
    "CD \"MEMORY:\"",
];

struct Session {
    files: BTreeMap<String, String>,
    demos: BTreeMap<&'static str, String>,
}

impl Session {
    /// Runs the commands of one session.
    fn run(&mut self, ops: &[usize]) {
        let mut prog = String::new();
        let mut local = true;
        let mut mem: BTreeMap<String, String> = BTreeMap::new();
        for op in ops {
            let here = if local { &mut self.files } else { &mut mem };
            match *op {
                0 => prog = self.demos["HELLO.BAS"].clone(),
                1 => prog = self.demos["GUESS.BAS"].clone(),
                2 => {
                    here.insert("a.bas".to_owned(), prog.clone());
                }
                3 => {
                    self.files.insert("B.bas".to_owned(), prog.clone());
                }
                4 => {
                    here.remove("a.bas");
                }
                5 => {
                    if let Some(t) = here.get("a.bas") {
                        prog = t.clone();
                    }
                }
                6 => {
                    if let Some(t) = here.get("a.bas").cloned() {
                        here.insert("c.txt".to_owned(), t);
                    }
                }
                7 => prog = String::new(),
                _ => local = false,
            }
        }
    }
}

fn demos() -> BTreeMap<&'static str, String> {
    static D: OnceLock<BTreeMap<&'static str, String>> = OnceLock::new();
    D.get_or_init(|| {
        use endbasic_std::storage::DriveFactory;
        let d = endbasic_repl::demos::DemoDriveFactory::default().create("").unwrap();
        ["HELLO.BAS", "GUESS.BAS"]
            .into_iter()
            .map(|n| (n, String::from_utf8(futures_lite::future::block_on(d.get(n)).unwrap()).unwrap()))
            .collect()
    })
    .clone()
}

fn sessions(idx: u64, hi: u32, then: u32, cx: &mut Cx) -> CaseResult {
    let n = seq_count(COMMANDS.len() as u64, 0, hi);
    let d = mixed(&[n, seq_count(COMMANDS.len() as u64, 1, then), 2], idx);
    let one = seq_decode(COMMANDS.len() as u64, 0, d[0] as u64);
    let two = seq_decode(COMMANDS.len() as u64, 1, d[1] as u64);
    let home = Home::new();
    let (dir, args): (String, Vec<String>) = match d[2] {
        0 => (home.path("my dir"), vec![format!("--local-drive=file://{}", home.path("my dir"))]),
        _ => (home.path("Documents/endbasic"), vec![]),
    };
    let mut m = Session { files: BTreeMap::new(), demos: demos() };
    let mut seen = vec![];
    for ops in [&one, &two] {
        let text: String = ops.iter().map(|i| format!("{}\n", COMMANDS[*i])).collect();
        let got = launch(home.root(), &args, text.as_bytes());
        cx.step(ops.len() as u64);
        m.run(ops);
        seen.push((text, got));
        let now: BTreeMap<String, String> = std::fs::read_dir(&dir)
            .map(|d| {
                d.map(|e| {
                    let e = e.unwrap();
                    let t = std::fs::read(e.path()).unwrap();
                    (e.file_name().into_string().unwrap(), String::from_utf8(t).unwrap())
                })
                .collect()
            })
            .unwrap_or_default();
        let names = |m: &BTreeMap<String, String>| m.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>();
        if now != m.files || seen.last().unwrap().1.code != 0 {
            return Err(Failure::new(
                "sessions",
                format!("expected {:?}, got {:?} after {:?}", names(&m.files), names(&now), seen),
            ));
        }
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let a = tier.pick(3, 4);
    let p = tier.pick(4, 5);
    let s = tier.pick(1, 2);
    let then = tier.pick(1, 2);
    let np = STARTS.len() as u64 * seq_count(PIECES.len() as u64, 0, p);
    vec![
        Section::new(
            "arguments",
            seq_count(ARGS.len() as u64, 0, a),
            |i| format!("{:?}", seq_decode(ARGS.len() as u64, 0, i).into_iter().map(|i| ARGS[i]).collect::<Vec<_>>()),
            arguments,
        ),
        Section::new("proplines", np, |i| format!("{:?}", script(i)), proplines),
        Section::new("flags", product(&[8, 6, 2]), |i| format!("{:?}", mixed(&[8, 6, 2], i)), flags),
        Section::new("specs", seq_count(WORDS.len() as u64, 0, p), |i| format!("{}", i), specs),
        Section::new("resolutions", seq_count(7, 0, tier.pick(5, 6)), |i| format!("{}", i), resolutions),
        Section::new("input", seq_count(INPUTS.len() as u64, 0, tier.pick(3, 4)), |i| format!("{}", i), input),
        Section::new("prompt", seq_count(TYPED.len() as u64, 0, tier.pick(3, 4)), |i| format!("{}", i), prompt),
        Section::new("unreadable", 4, |i| format!("{}", i), unreadable),
        Section::new(
            "sessions",
            seq_count(COMMANDS.len() as u64, 0, s + 1) * seq_count(COMMANDS.len() as u64, 1, then) * 2,
            |i| format!("{}", i),
            move |i, cx| sessions(i, s + 1, then, cx),
        ),
    ]
}
