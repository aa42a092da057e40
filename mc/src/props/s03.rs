//! S03: the stored program is only discarded when it is saved or the user agrees, and the commands that load, save,
//! run, list and edit it act on exactly its text.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, seq_count, seq_decode};
use crate::machx::{Mach, Opts, Outcome};
use async_trait::async_trait;
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::{Drive, DriveFactory, DriveFiles, FileAcls, Storage};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "S03",
        rule: "All sequences of up to 3 (thorough: 4) of 45 actions on a session with a stored program: edits, NEW \
               and LOAD under every kind of answer to the question about unsaved changes, saves with and without \
               a name on drives that work and that fail, runs, listings, deletions and assignments; after each, the \
               text, name and modified state of the program, all files of all drives and the variables are \
               compared with a model.",
        assumptions: &[],
        sections,
    }
}

type Files = Rc<RefCell<BTreeMap<String, Vec<u8>>>>;

/// A drive in memory on which some names fail.
struct FlakyDrive(Files);

fn broken(what: &str) -> io::Error {
    io::Error::other(format!("Cannot {}", what))
}

#[async_trait(?Send)]
impl Drive for FlakyDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        if name.starts_with("bad") {
            return Err(broken("delete"));
        }
        match self.0.borrow_mut().remove(name) {
            Some(_) => Ok(()),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "Entry not found")),
        }
    }
    async fn enumerate(&self) -> io::Result<DriveFiles> {
        Err(broken("list"))
    }
    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        if name.starts_with("bad") {
            return Err(broken("read"));
        }
        match self.0.borrow().get(name) {
            Some(c) => Ok(c.clone()),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "Entry not found")),
        }
    }
    async fn get_acls(&self, _: &str) -> io::Result<FileAcls> {
        Err(broken("acls"))
    }
    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        if name.starts_with("bad") {
            return Err(broken("write"));
        }
        self.0.borrow_mut().insert(name.to_owned(), content.to_vec());
        Ok(())
    }
    async fn update_acls(&mut self, _: &str, _: &FileAcls, _: &FileAcls) -> io::Result<()> {
        Err(broken("acls"))
    }
}

struct FlakyFactory(Files, Files);

impl DriveFactory for FlakyFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        Ok(Box::from(FlakyDrive(if target == "a" { self.0.clone() } else { self.1.clone() })))
    }
}

/// How the question about unsaved changes is answered.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Ans {
    Yes(&'static str),
    No(&'static str),
    /// Ctrl+C after some text.
    Int(&'static str),
    /// End of input.
    Eof,
}
use Ans::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// Inserts a line at the top.
    Edit(&'static str),
    /// Enters and leaves the editor.
    Look,
    New(Ans),
    Load(&'static str, Ans),
    Save(Option<&'static str>),
    Run,
    List,
    Disasm,
    Kill(&'static str),
    Cd(&'static str),
    Set,
    Put(&'static str, &'static [u8]),
    Clear,
}
use Op::*;

const OPS: &[Op] = &[
    Edit("OUT 7"),
    Edit("x = x + 1"),
    Edit("STOP THIS"),
    Edit("é = \"→\""),
    Edit("y = ASC(\"\")"),
    Edit("END 3"),
    Look,
    New(Yes("y")),
    New(Yes("YES")),
    New(Yes("true")),
    New(No("n")),
    New(No("")),
    New(No("ok")),
    New(No("y e s")),
    New(Int("")),
    New(Int("y")),
    New(Eof),
    Load("a", Yes("Y")),
    Load("a.bas", No("no")),
    Load("a", Int("y")),
    Load("a", Eof),
    Load("gone", Yes("y")),
    Load("gone", No("false")),
    Load("bad", Yes("y")),
    Load("bin", Yes("y")),
    Load("./a", Yes("y")),
    Load("D:lib.x", Yes("y")),
    Load("noend", Yes("Yes")),
    Save(None),
    Save(Some("b")),
    Save(Some("B")),
    Save(Some("a.bas")),
    Save(Some("d:c")),
    Save(Some("bad")),
    Save(Some("")),
    Save(Some("z:a")),
    Run,
    List,
    Disasm,
    Kill("a.bas"),
    Cd("D:"),
    Cd("C:"),
    Set,
    Put("C:bin.bas", b"OUT \xff\n"),
    Clear,
];

const A: &str = "OUT x\nx = x + 5\nOUT x\n";

fn command(o: &Op) -> String {
    match o {
        Edit(_) | Look => "EDIT".to_owned(),
        New(_) => "NEW".to_owned(),
        Load(f, _) => format!("LOAD \"{}\"", f),
        Save(None) => "SAVE".to_owned(),
        Save(Some(f)) => format!("SAVE \"{}\"", f),
        Run => "RUN".to_owned(),
        List => "LIST".to_owned(),
        Disasm => "DISASM".to_owned(),
        Kill(f) => format!("KILL \"{}\"", f),
        Cd(d) => format!("CD \"{}\"", d),
        Set => "keep = 42".to_owned(),
        Put(f, _) => format!("(write {})", f),
        Clear => "CLEAR".to_owned(),
    }
}

fn show_op(o: &Op) -> String {
    match o {
        Edit(l) => format!("EDIT (insert {:?})", l),
        New(a) | Load(_, a) => format!("{} ({:?})", command(o), a),
        _ => command(o),
    }
}

/// What the session must look like.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
struct Model {
    name: Option<String>,
    lines: Vec<String>,
    dirty: bool,
    files: BTreeMap<String, Vec<u8>>,
    current: char,
    keep: bool,
}

/// How a command must end.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Exp {
    Ok,
    Fail,
    Break,
    Any,
}

/// The editor leaves a line in empty programs: empty lines at the end do not matter.
fn trimmed(lines: &[String]) -> &[String] {
    let n = lines.iter().rposition(|l| !l.is_empty()).map_or(0, |i| i + 1);
    &lines[..n]
}

fn lines_of(text: &str) -> Vec<String> {
    text.lines().map(str::to_owned).collect()
}

/// The full name of a program file, if valid: the drive and the name with its extension.
fn canonical(path: &str, current: char) -> Option<(char, String)> {
    let (d, rest) = match path.split_once(':') {
        Some((d, r)) => (d.to_uppercase().chars().next()?, r),
        None => (current, path),
    };
    let name = rest.strip_prefix('/').unwrap_or(rest);
    if name.is_empty() || name.contains('/') {
        return None;
    }
    let name = match name.contains('.') {
        true => name.to_owned(),
        false if name.chars().any(|c| c.is_ascii_lowercase()) => format!("{}.bas", name),
        false => format!("{}.BAS", name),
    };
    Some((d, name))
}

impl Model {
    fn new() -> Self {
        let mut files = BTreeMap::new();
        files.insert("C:a.bas".to_owned(), A.as_bytes().to_vec());
        files.insert("C:noend.bas".to_owned(), b"OUT 1\n\n  OUT 2".to_vec());
        files.insert("C:bin.bas".to_owned(), b"OUT \"\xc3\n".to_vec());
        files.insert("D:lib.x".to_owned(), b"".to_vec());
        Model { name: None, lines: vec![], dirty: false, files, current: 'C', keep: false }
    }

    /// Whether the program may be discarded, or how the command ends.
    fn ask(&self, a: &Ans) -> Option<Exp> {
        if !self.dirty {
            return None;
        }
        match a {
            Yes(_) => None,
            No(_) => Some(Exp::Ok),
            Int(_) => Some(Exp::Break),
            Eof => Some(Exp::Fail),
        }
    }

    fn apply(&mut self, o: &Op) -> Exp {
        match o {
            Edit(l) => {
                self.lines.insert(0, l.to_string());
                self.dirty = true;
                Exp::Ok
            }
            Look | List => Exp::Ok,
            Disasm => Exp::Any,
            New(a) => {
                if let Some(e) = self.ask(a) {
                    return e;
                }
                self.name = None;
                self.lines = vec![];
                self.dirty = false;
                self.keep = false;
                Exp::Ok
            }
            Load(f, a) => {
                if let Some(e) = self.ask(a) {
                    return e;
                }
                let Some((d, n)) = canonical(f, self.current) else { return Exp::Fail };
                if n.starts_with("bad") {
                    return Exp::Fail;
                }
                let full = format!("{}:{}", d, n);
                let Some(c) = self.files.get(&full) else { return Exp::Fail };
                let Ok(t) = std::str::from_utf8(c) else { return Exp::Fail };
                self.lines = lines_of(t);
                self.name = Some(full);
                self.dirty = false;
                self.keep = false;
                Exp::Ok
            }
            Save(f) => {
                let f = match f {
                    Some(f) => f.to_string(),
                    None => match &self.name {
                        Some(n) => n.clone(),
                        None => return Exp::Fail,
                    },
                };
                let Some((d, n)) = canonical(&f, self.current) else { return Exp::Fail };
                if !"CD".contains(d) || n.starts_with("bad") {
                    return Exp::Fail;
                }
                let full = format!("{}:{}", d, n);
                // The bytes are filled in from the program's own text.
                self.files.insert(full.clone(), vec![]);
                self.name = Some(full);
                self.dirty = false;
                Exp::Ok
            }
            Run => {
                self.keep = false;
                Exp::Any
            }
            Kill(f) => {
                let (d, n) = canonical(f, self.current).unwrap();
                match self.files.remove(&format!("{}:{}", d, n)) {
                    Some(_) => Exp::Ok,
                    None => Exp::Fail,
                }
            }
            Cd(d) => {
                self.current = d.chars().next().unwrap();
                Exp::Ok
            }
            Set => {
                self.keep = true;
                Exp::Ok
            }
            Put(f, c) => {
                self.files.insert(f.to_string(), c.to_vec());
                Exp::Ok
            }
            Clear => {
                self.keep = false;
                Exp::Ok
            }
        }
    }
}

/// What running the program must output, from a clean state.
fn run_output(lines: &[String]) -> Option<(Vec<String>, &'static str)> {
    let mut out = vec![];
    let mut x: Option<i32> = None;
    let mut end = "done";
    let n = lines.iter().map(|l| l.trim()).collect::<Vec<_>>();
    // Programs that are not valid run nothing.
    let mut defined = false;
    for l in &n {
        match *l {
            "STOP THIS" => return Some((vec![], "compile")),
            "OUT x" if !defined => return Some((vec![], "compile")),
            "DIM x AS INTEGER" if defined => return Some((vec![], "compile")),
            "DIM x AS INTEGER" | "x = x + 1" | "x = x + 5" => defined = true,
            _ => (),
        }
    }
    for l in n {
        match l {
            "DIM x AS INTEGER" => x = Some(0),
            "OUT 7" => out.push("7%".to_owned()),
            "OUT 1" => out.push("1%".to_owned()),
            "OUT 2" => out.push("2%".to_owned()),
            "x = x + 1" => x = Some(x.unwrap_or(0) + 1),
            "x = x + 5" => x = Some(x.unwrap_or(0) + 5),
            "é = \"→\"" => (),
            "OUT x" => out.push(format!("{}%", x?)),
            "y = ASC(\"\")" => {
                end = "error";
                break;
            }
            "END 3" => {
                end = "end";
                break;
            }
            "" => (),
            _ => return None,
        }
    }
    Some((out, end))
}

fn keys_for(o: &Op, m: &mut Mach) {
    let mut c = m.con.borrow_mut();
    c.keys.clear();
    c.end_key = None;
    match o {
        Edit(l) => {
            for _ in 0..6 {
                c.keys.push_back(Key::PageUp);
            }
            // The first press goes to the end of the indentation when not there.
            c.keys.push_back(Key::End);
            c.keys.push_back(Key::ArrowRight);
            c.keys.push_back(Key::ArrowUp);
            for _ in 0..80 {
                c.keys.push_back(Key::ArrowLeft);
            }
            for ch in l.chars() {
                c.keys.push_back(Key::Char(ch));
            }
            c.keys.push_back(Key::NewLine);
            c.keys.push_back(Key::Escape);
        }
        Look => {
            for k in [Key::ArrowDown, Key::End, Key::ArrowLeft, Key::PageDown, Key::Home, Key::Escape] {
                c.keys.push_back(k);
            }
        }
        New(a) | Load(_, a) => match a {
            Yes(t) | No(t) => {
                c.keys.extend(t.chars().map(Key::Char));
                c.keys.push_back(Key::NewLine);
            }
            Int(t) => {
                c.keys.extend(t.chars().map(Key::Char));
                c.keys.push_back(Key::Interrupt);
            }
            Eof => c.keys.push_back(Key::EofOrDelete),
        },
        _ => (),
    }
}

fn history(ops: &[&Op], cx: &mut Cx) -> CaseResult {
    let (c, d) = (Files::default(), Files::default());
    let storage = Rc::new(RefCell::new(Storage::default()));
    {
        let mut s = storage.borrow_mut();
        s.register_scheme("flaky", Box::from(FlakyFactory(c.clone(), d.clone())));
        s.mount("C", "flaky://a").unwrap();
        s.mount("D", "flaky://b").unwrap();
        s.cd("C:").unwrap();
    }
    let mut model = Model::new();
    for (n, t) in &model.files {
        let (f, n) = (if n.starts_with('C') { &c } else { &d }, &n[2..]);
        f.borrow_mut().insert(n.to_owned(), t.clone());
    }
    let program: Rc<RefCell<dyn Program>> = Rc::new(RefCell::new(Editor::default()));
    let mut m = Mach::build(Opts::default(), Some((program.clone(), storage.clone())), |b| b);
    for (step, o) in ops.iter().enumerate() {
        let last = step + 1 == ops.len();
        let fail = |what: String| -> CaseResult {
            let h = ops[..=step].iter().map(|o| show_op(o)).collect::<Vec<_>>().join(": ");
            Err(Failure::new(format!("history: {}", h), what))
        };
        let before = model.clone();
        let exp = model.apply(o);
        if exp == Exp::Fail || exp == Exp::Break {
            model = before.clone();
        }
        let text_before = program.borrow().text();
        keys_for(o, &mut m);
        m.out();
        m.text();
        let got = match o {
            Put(p, content) => {
                block_on(storage.borrow_mut().put(p, content)).unwrap();
                Outcome::Done(None)
            }
            o => m.feed(&command(o)),
        };
        cx.step(1);
        let fits = match (exp, &got) {
            (Exp::Ok, Outcome::Done(None)) => true,
            (Exp::Fail, Outcome::Err(_)) => true,
            (Exp::Break, Outcome::Break) => true,
            (Exp::Break, Outcome::Err(_)) => true,
            (Exp::Any, _) => true,
            _ => false,
        };
        if !fits {
            return fail(format!("ended as {:?} and not as {:?}", got, exp));
        }
        if let Save(_) = o
            && exp == Exp::Ok
        {
            let full = model.name.clone().unwrap();
            model.files.insert(full, text_before.clone().into_bytes());
        }
        // Keep up with the steps of shorter histories, which were checked there.
        if !last {
            m.out();
            continue;
        }
        let said = m.text();
        match o {
            Run => {
                if let Some((out, end)) = run_output(&before.lines) {
                    let o = m.out();
                    let o: Vec<String> = o;
                    let how = match &got {
                        Outcome::Done(None) if end == "end" => "end",
                        Outcome::Done(None) => "done",
                        Outcome::Compile(_) => "compile",
                        Outcome::Err(e) if end == "compile" => {
                            let _ = e;
                            "compile"
                        }
                        Outcome::Err(_) => "error",
                        _ => "other",
                    };
                    if o != out || how != end {
                        return fail(format!("output {:?} {}\nnot    {:?} {}\n{:?}", o, how, out, end, got));
                    }
                }
            }
            List => {
                let said = lines_of(&said);
                if trimmed(&said) != trimmed(&before.lines) {
                    return fail(format!("listed {:?}\nnot    {:?}", said, before.lines));
                }
            }
            New(_) | Load(..) if before.dirty => {
                if !said.contains("unsaved") {
                    return fail(format!("no warning: {:?}", said));
                }
            }
            New(_) | Load(..) => {
                if said.contains("unsaved") || m.con.borrow().reads != 0 && ops.len() == 1 {
                    return fail(format!("asks for nothing: {:?}", said));
                }
            }
            _ => (),
        }
        let p = program.borrow();
        let text = p.text();
        let lines = lines_of(&text);
        if trimmed(&lines) != trimmed(&model.lines) {
            return fail(format!("text  {:?}\nnot   {:?}", lines, model.lines));
        }
        if !matches!(o, Edit(_) | Look | New(_) | Load(..)) && text != text_before {
            return fail(format!("text changes from {:?} to {:?}", text_before, text));
        }
        let name = p.name().map(|n| n.replace(":/", ":"));
        if name != model.name {
            return fail(format!("name  {:?}\nnot   {:?}", p.name(), model.name));
        }
        if p.is_dirty() != model.dirty {
            return fail(format!("unsaved changes: {} but should be {}", p.is_dirty(), model.dirty));
        }
        drop(p);
        let mut files = BTreeMap::new();
        for (l, f) in [('C', &c), ('D', &d)] {
            for (n, t) in f.borrow().iter() {
                files.insert(format!("{}:{}", l, n), t.clone());
            }
        }
        if files != model.files {
            let show = |f: &BTreeMap<String, Vec<u8>>| {
                f.iter().map(|(n, t)| format!("{} {}", n, t.escape_ascii())).collect::<Vec<_>>()
            };
            return fail(format!("files {:?}\nnot   {:?}", show(&files), show(&model.files)));
        }
        if storage.borrow().cwd().replace('/', "") != format!("{}:", model.current) {
            return fail(format!("current drive {}", storage.borrow().cwd()));
        }
        m.out();
        let k = m.feed("OUT keep");
        let exp = if model.keep { vec!["42%".to_owned()] } else { vec![] };
        if m.out() != exp || matches!(k, Outcome::Compile(_)) == model.keep {
            return fail(format!("variable: {:?}, expected {:?}", k, exp));
        }
        let bad = m.con.borrow().bad.clone();
        if !bad.is_empty() {
            return fail(format!("console: {:?}", bad));
        }
        cx.state(&model);
        cx.traces += 1;
    }
    Ok(())
}

fn histories(name: &'static str, prefix: &'static [Op], max: u32) -> Section {
    let k = OPS.len() as u64;
    Section::new(
        name,
        seq_count(k, 1, max),
        move |i| {
            prefix.iter().chain(seq_decode(k, 1, i).iter().map(|o| &OPS[*o])).map(show_op).collect::<Vec<_>>().join(": ")
        },
        move |i, cx| {
            let s = seq_decode(k, 1, i);
            let ops: Vec<&Op> = prefix.iter().chain(s.iter().map(|o| &OPS[*o])).collect();
            history(&ops, cx)
        },
    )
}

const LOADED: &[Op] = &[Load("a", Yes("y")), Edit("DIM x AS INTEGER")];
const ELSEWHERE: &[Op] = &[Edit("OUT 7"), Save(Some("d:c")), Set];

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        histories("histories", &[], tier.pick(3, 4)),
        histories("loaded", LOADED, tier.pick(2, 3)),
        histories("elsewhere", ELSEWHERE, tier.pick(2, 3)),
    ]
}
