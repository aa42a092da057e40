//! S01: the storage commands act on the named file of the named drive and nothing else.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, seq_count, seq_decode};
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use crate::scratch::{self, Scratch};
use async_trait::async_trait;
use endbasic_std::storage::{
    DirectoryDriveFactory, Drive, DriveFactory, DriveFiles, FileAcls, Storage,
};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "S01",
        rule: "Paths: all strings of up to 6 (thorough: 7) symbols of a path alphabet as the path of every storage \
               operation, on drives that record what they are asked for. Histories: all sequences of up to 3 \
               (thorough: 4) of 42 storage commands and operations over memory and directory drives, with the \
               whole state compared after each.",
        assumptions: &["operations on the host's file system succeed as an unprivileged user"],
        sections,
    }
}

// --- Paths -----------------------------------------------------------------------------------

const ALPHABET: [char; 8] = ['q', 'Q', '.', '/', ':', '\\', ' ', 'é'];

type Log = Rc<RefCell<Vec<String>>>;

/// A drive that records the requests it gets.
struct RecDrive {
    id: String,
    log: Log,
}

#[async_trait(?Send)]
impl Drive for RecDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        self.log.borrow_mut().push(format!("{} delete {}", self.id, name));
        Ok(())
    }
    async fn enumerate(&self) -> io::Result<DriveFiles> {
        self.log.borrow_mut().push(format!("{} enumerate", self.id));
        Ok(DriveFiles::new(BTreeMap::new(), None, None))
    }
    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        self.log.borrow_mut().push(format!("{} get {}", self.id, name));
        Ok(b"data".to_vec())
    }
    async fn get_acls(&self, name: &str) -> io::Result<FileAcls> {
        self.log.borrow_mut().push(format!("{} acls {}", self.id, name));
        Ok(FileAcls::default())
    }
    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        self.log.borrow_mut().push(format!(
            "{} put {} {}",
            self.id,
            name,
            String::from_utf8_lossy(content)
        ));
        Ok(())
    }
    async fn update_acls(&mut self, name: &str, a: &FileAcls, r: &FileAcls) -> io::Result<()> {
        self.log.borrow_mut().push(format!(
            "{} update {} {:?} {:?}",
            self.id,
            name,
            a.readers(),
            r.readers()
        ));
        Ok(())
    }
}

struct RecFactory(Log);

impl DriveFactory for RecFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        Ok(Box::from(RecDrive { id: target.to_owned(), log: self.0.clone() }))
    }
}

/// What a path means: the drive, if given, and the file name, if any.
fn parse(path: &str) -> Option<(Option<String>, Option<String>)> {
    let (drive, rest) = match path.split_once(':') {
        Some((d, r)) => (Some(d), r),
        None => (None, path),
    };
    if let Some(d) = drive
        && (d.is_empty() || d.chars().any(|c| ".\\/:".contains(c)))
    {
        return None;
    }
    let name = rest.strip_prefix('/').unwrap_or(rest);
    if name.chars().any(|c| ":\\/".contains(c)) || name == "." || name == ".." {
        return None;
    }
    let name = if name.is_empty() { None } else { Some(name.to_owned()) };
    Some((drive.map(str::to_uppercase), name))
}

fn with_extension(name: &str) -> String {
    if name.contains('.') {
        name.to_owned()
    } else if name.chars().any(|c| c.is_ascii_lowercase()) {
        format!("{}.bas", name)
    } else {
        format!("{}.BAS", name)
    }
}

const PATH_OPS: usize = 11;

fn paths_section(k: usize, max: u32) -> Section {
    let n = seq_count(k as u64, 0, max);
    let path = move |i: u64| -> String {
        seq_decode(k as u64, 0, i).into_iter().map(|c| ALPHABET[c]).collect()
    };
    thread_local! {
        static S: RefCell<Option<(Storage, Log)>> = const { RefCell::new(None) };
    }
    Section::new("paths", n, move |i| format!("{:?}", path(i)), move |i, cx| {
        let p = path(i);
        S.with(|s| {
            let mut s = s.borrow_mut();
            let (storage, log) = s.get_or_insert_with(|| {
                let log: Log = Rc::default();
                let mut st = Storage::default();
                st.register_scheme("rec", Box::from(RecFactory(log.clone())));
                st.mount("cur", "rec://cur").unwrap();
                st.mount("q", "rec://q").unwrap();
                st.mount("QQ", "rec://qq").unwrap();
                st.cd("CUR:").unwrap();
                (st, log)
            });
            for op in 0..PATH_OPS {
                cx.step(1);
                log.borrow_mut().clear();
                check_path(storage, log, &p, op, cx)?;
            }
            Ok(())
        })
    })
}

fn check_path(s: &mut Storage, log: &Log, p: &str, op: usize, cx: &mut Cx) -> CaseResult {
    let parsed = parse(p);
    let add = FileAcls::default().with_readers(["a".to_owned()]);
    let rem = FileAcls::default().with_readers(["r".to_owned()]);
    let got: Result<String, String> = block_on(async {
        match op {
            0 => s.delete(p).await.map(|_| String::new()),
            1 => s.enumerate(p).await.map(|_| String::new()),
            2 => s.get(p).await.map(|c| String::from_utf8_lossy(&c).into_owned()),
            3 => s.get_acls(p).await.map(|_| String::new()),
            4 => s.put(p, b"new").await.map(|_| String::new()),
            5 => s.update_acls(p, &add, &rem).await.map(|_| String::new()),
            6 => s.copy(p, "x").await.map(|_| String::new()),
            7 => s.copy("q:x", p).await.map(|_| String::new()),
            8 => s.make_canonical(p),
            9 => s.make_canonical_with_extension(p, "bas"),
            _ => {
                let r = s.cd(p);
                let cwd = s.cwd();
                s.cd("cur:").unwrap();
                r.map(|_| cwd)
            }
        }
    })
    .map_err(|e| e.to_string());
    // What should have happened.
    let drive = |d: &Option<String>| match d.as_deref() {
        None => Some("cur"),
        Some("CUR") => Some("cur"),
        Some("Q") => Some("q"),
        Some("QQ") => Some("qq"),
        Some(_) => None,
    };
    let none = (String::new(), vec![]);
    let exp: Option<(String, Vec<String>)> = match (&parsed, op) {
        (None, _) => None,
        (Some((d, n)), 8) => {
            let rest = &p[p.find(':').map(|x| x + 1).unwrap_or(0)..];
            let rest = if n.is_none() { "/" } else { rest };
            Some((format!("{}:{}", d.as_deref().unwrap_or("CUR"), rest), vec![]))
        }
        (Some((_, None)), 9) => None,
        (Some((d, Some(n))), 9) => {
            let rest = &p[p.find(':').map(|x| x + 1).unwrap_or(0)..];
            let slash = if rest.starts_with('/') { "/" } else { "" };
            Some((format!("{}:{}{}", d.as_deref().unwrap_or("CUR"), slash, with_extension(n)), vec![]))
        }
        (Some((d, n)), _) => match (drive(d), n) {
            (None, _) => None,
            (Some(d), None) => match op {
                1 => Some((String::new(), vec![format!("{} enumerate", d)])),
                7 => Some((String::new(), vec!["q get x".to_owned(), format!("{} put x data", d)])),
                10 => Some((format!("{}:/", d.to_uppercase()), vec![])),
                _ => None,
            },
            (Some(d), Some(n)) => match op {
                0 => Some((String::new(), vec![format!("{} delete {}", d, n)])),
                2 => Some(("data".to_owned(), vec![format!("{} get {}", d, n)])),
                3 => Some((String::new(), vec![format!("{} acls {}", d, n)])),
                4 => Some((String::new(), vec![format!("{} put {} new", d, n)])),
                5 => Some((String::new(), vec![format!("{} update {} [\"a\"] [\"r\"]", d, n)])),
                6 => Some((String::new(), vec![format!("{} get {}", d, n), "cur put x data".to_owned()])),
                7 => Some((String::new(), vec!["q get x".to_owned(), format!("{} put {} data", d, n)])),
                _ => None,
            },
        },
    };
    let log = log.borrow().clone();
    let wrote = |l: &[String]| -> Vec<String> { l.iter().filter(|l| !l.contains(" get ")).cloned().collect() };
    let ok = match (&got, &exp) {
        (Ok(g), Some((e, l))) => g == e && *l == log,
        // A rejected path changes nothing.
        (Err(_), None) => wrote(&log).is_empty(),
        _ => false,
    };
    cx.state(&(op, &exp.as_ref().map(|e| &e.1), got.is_ok()));
    if !ok {
        return Err(Failure::new(
            format!("path: op {} {:?}", op, p),
            format!("expected {:?}\ngot      {:?} {:?}", exp.unwrap_or(none), got, log),
        ));
    }
    Ok(())
}

// --- Histories -------------------------------------------------------------------------------

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum Op {
    /// Writes to a path from the host.
    Put(&'static str),
    Acl(&'static str, bool),
    /// Writes the stored program.
    Save(&'static str),
    Load(&'static str),
    Kill(&'static str),
    Copy(&'static str, &'static str),
    Cd(&'static str),
    Mount(&'static str, &'static str),
    Unmount(&'static str),
}

use Op::*;

/// `DIR1` and `DIR2` are directories of the host.
const OPS: &[Op] = &[
    Put("zqa"),
    Put("d:zqb"),
    Put("D:/zqa"),
    Put("e:zqa"),
    Put("memory:/zqa.bas"),
    Save("zqa"),
    Save("D:ZQC"),
    Save("zqa.bas"),
    Load("zqa"),
    Load("d:ZQC.BAS"),
    Kill("zqa"),
    Kill("/zqb"),
    Kill("d:zqa"),
    Kill("E:/zqa"),
    Kill("d:/ZQA"),
    Copy("zqa", "zqb"),
    Copy("zqa", "d:"),
    Copy("d:zqa", "/"),
    Copy("d:/zqb", "MEMORY:zqa"),
    Copy("zqa", "zqa"),
    Copy("zqa", "E:/"),
    Copy("e:/zqa", "d:/zqb"),
    Copy("zqb", "no:zqa"),
    Acl("memory:zqa", true),
    Acl("memory:zqa", false),
    Cd("d:"),
    Cd("D:/"),
    Cd("memory:"),
    Cd("e:zqa"),
    Cd("E:"),
    Cd("/"),
    Mount("memory://", "d"),
    Mount("file://DIR1", "d"),
    Mount("FILE://DIR1", "E"),
    Mount("file://DIR2", "e"),
    Mount("file://DIR2", "memory"),
    Mount("file://DIR2", "a:b"),
    Mount("memory://x", "e"),
    Mount("nope://", "e"),
    Unmount("d"),
    Unmount("E"),
    Unmount("memory"),
];

fn show_op(o: &Op) -> String {
    match o {
        Put(p) => format!("put {}", p),
        Acl(p, add) => format!("acl {} {}", p, add),
        o => command(o, ("DIR1", "DIR2")),
    }
}

fn command(o: &Op, dirs: (&str, &str)) -> String {
    let sub = |s: &str| s.replace("DIR1", dirs.0).replace("DIR2", dirs.1);
    match o {
        Save(p) => format!("SAVE \"{}\"", p),
        Load(p) => format!("LOAD \"{}\"", p),
        Kill(p) => format!("KILL \"{}\"", p),
        Copy(a, b) => format!("COPY \"{}\", \"{}\"", a, b),
        Cd(p) => format!("CD \"{}\"", p),
        Mount(u, n) => format!("MOUNT \"{}\" AS \"{}\"", sub(u), n),
        Unmount(n) => format!("UNMOUNT \"{}\"", n),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
enum Where {
    Mem(usize),
    Disk(usize),
}

type Files = BTreeMap<String, (String, BTreeSet<String>)>;

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
struct Model {
    drives: BTreeMap<String, (String, Where)>,
    mems: Vec<Files>,
    disks: [Option<Files>; 2],
    current: String,
    program: (Option<String>, String),
}

impl Model {
    fn new() -> Self {
        Model {
            drives: [("MEMORY".to_owned(), ("memory://".to_owned(), Where::Mem(0)))].into(),
            mems: vec![Files::new()],
            disks: [None, None],
            current: "MEMORY".to_owned(),
            program: (None, "' start\n".to_owned()),
        }
    }

    fn files(&self, w: Where) -> &Files {
        match w {
            Where::Mem(i) => &self.mems[i],
            Where::Disk(i) => self.disks[i].as_ref().unwrap(),
        }
    }

    fn files_mut(&mut self, w: Where) -> &mut Files {
        match w {
            Where::Mem(i) => &mut self.mems[i],
            Where::Disk(i) => self.disks[i].as_mut().unwrap(),
        }
    }

    /// The file that a path names.
    fn find(&self, p: &str) -> Option<(Where, Option<String>)> {
        let (d, n) = parse(p)?;
        let d = d.unwrap_or(self.current.clone());
        Some((self.drives.get(&d)?.1, n))
    }

    fn file(&self, p: &str) -> Option<(Where, String)> {
        let (w, n) = self.find(p)?;
        Some((w, n?))
    }

    fn put(&mut self, w: Where, n: String, content: String) {
        self.files_mut(w).entry(n).or_default().0 = content;
    }

    /// Whether the operation succeeds.
    fn apply(&mut self, o: &Op, step: usize, uris: (&str, &str)) -> bool {
        let mut f = || -> Option<()> {
            match o {
                Put(p) => {
                    let (w, n) = self.file(p)?;
                    self.put(w, n, content(step));
                }
                Acl(p, add) => {
                    let (w, n) = self.file(p)?;
                    let e = self.files_mut(w).get_mut(&n)?;
                    match add {
                        true => {
                            e.1.insert("reader".to_owned());
                        }
                        false => {
                            e.1.remove("reader");
                        }
                    }
                }
                Save(p) => {
                    let (w, n) = self.file(p)?;
                    let n = with_extension(&n);
                    let rest = &p[p.find(':').map(|x| x + 1).unwrap_or(0)..];
                    let slash = if rest.starts_with('/') { "/" } else { "" };
                    let d = parse(p)?.0.unwrap_or(self.current.clone());
                    self.program.0 = Some(format!("{}:{}{}", d, slash, n));
                    self.put(w, n, self.program.1.clone());
                }
                Load(p) => {
                    let (w, n) = self.file(p)?;
                    let n = with_extension(&n);
                    let text = self.files(w).get(&n)?.0.clone();
                    let d = parse(p)?.0.unwrap_or(self.current.clone());
                    self.program = (Some(format!("{}:{}", d, n)), text);
                }
                Kill(p) => {
                    let (w, n) = self.file(p)?;
                    self.files_mut(w).remove(&n)?;
                }
                Copy(a, b) => {
                    let (w, n) = self.file(a)?;
                    let c = self.files(w).get(&n)?.0.clone();
                    let (w2, n2) = self.find(b)?;
                    self.put(w2, n2.unwrap_or(n), c);
                }
                Cd(p) => {
                    let (d, n) = parse(p)?;
                    if n.is_some() {
                        return None;
                    }
                    if let Some(d) = d {
                        self.drives.get(&d)?;
                        self.current = d;
                    }
                }
                Mount(u, n) => {
                    let name = n.to_uppercase();
                    if name.contains(':') || self.drives.contains_key(&name) {
                        return None;
                    }
                    let w = match u.to_lowercase().as_str() {
                        "memory://" => {
                            self.mems.push(Files::new());
                            Where::Mem(self.mems.len() - 1)
                        }
                        "file://dir1" => Where::Disk(0),
                        "file://dir2" => Where::Disk(1),
                        _ => return None,
                    };
                    if let Where::Disk(i) = w {
                        self.disks[i].get_or_insert_default();
                    }
                    self.drives.insert(name, (u.replace("DIR1", uris.0).replace("DIR2", uris.1), w));
                }
                Unmount(n) => {
                    let n = n.to_uppercase();
                    if self.current == n {
                        return None;
                    }
                    self.drives.remove(&n)?;
                }
            }
            Some(())
        };
        f().is_some()
    }
}

/// Contents whose lengths go up and down.
fn content(step: usize) -> String {
    format!("' {} {}\n", step, "x".repeat([7, 3, 0, 12, 1][step % 5]))
}

fn dir_text(dirs: &str, files: &Files) -> String {
    let mut t = format!("\n    Directory of {}\n\n    Modified              Size    Name\n", dirs);
    let mut total = 0;
    for (n, (c, _)) in files {
        t.push_str(&format!("    DATE    {:6}    {}\n", c.len(), n));
        total += c.len();
    }
    if !files.is_empty() {
        t.push('\n');
    }
    t.push_str(&format!("    {} file(s), {} bytes\n\n", files.len(), total));
    t
}

/// Replaces the dates of a listing.
fn mask_dates(t: &str) -> String {
    let mut out = String::new();
    for l in t.split_inclusive('\n') {
        let b = l.as_bytes();
        if b.len() > 24 && b[4..8].iter().all(|c| c.is_ascii_digit()) && b[8] == b'-' {
            out.push_str("    DATE");
            out.push_str(&l[20..]);
        } else {
            out.push_str(l);
        }
    }
    out
}

fn compare(m: &mut Mach, st: &Rc<RefCell<Storage>>, p: &Rc<RefCell<MemProgram>>, model: &Model, sc: &Scratch, uris: (&str, &str), last: bool) -> Result<(), String> {
    {
        let s = st.borrow();
        let exp: BTreeMap<&str, &str> =
            model.drives.iter().map(|(n, (u, _))| (n.as_str(), u.as_str())).collect();
        if s.mounted() != exp {
            return Err(format!("drives {:?}, not {:?}", s.mounted(), exp));
        }
        if s.cwd() != format!("{}:/", model.current) {
            return Err(format!("in {}, not {}", s.cwd(), model.current));
        }
        for (n, (_, w)) in &model.drives {
            let root = format!("{}:", n);
            let files = block_on(s.enumerate(&root)).map_err(|e| e.to_string())?;
            let exp = model.files(*w);
            let got: Vec<(String, u64)> =
                files.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect();
            let exp2: Vec<(String, u64)> =
                exp.iter().map(|(n, c)| (n.clone(), c.0.len() as u64)).collect();
            if got != exp2 {
                return Err(format!("{} has {:?}, not {:?}", root, got, exp2));
            }
            for (n, (c, acl)) in exp {
                let path = format!("{}{}", root, n);
                let got = block_on(s.get(&path)).map_err(|e| format!("{}: {}", path, e))?;
                if got != c.as_bytes() {
                    return Err(format!("{} has {:?}, not {:?}", path, String::from_utf8_lossy(&got), c));
                }
                if let Where::Mem(_) = w {
                    let a = block_on(s.get_acls(&path)).map_err(|e| e.to_string())?;
                    if a.readers().iter().cloned().collect::<BTreeSet<_>>() != *acl {
                        return Err(format!("{} has readers {:?}, not {:?}", path, a, acl));
                    }
                }
            }
        }
    }
    let prog = (p.borrow().name.clone(), p.borrow().text.clone());
    if prog != model.program {
        return Err(format!("the program is {:?}, not {:?}", prog, model.program));
    }
    // The host's view.
    for (i, d) in model.disks.iter().enumerate() {
        let got = sc.list([uris.0, uris.1][i]);
        let exp = d.as_ref().map(|d| {
            d.iter().map(|(n, c)| (n.clone(), c.0.clone().into_bytes())).collect::<BTreeMap<_, _>>()
        });
        if got != exp {
            return Err(format!("directory {} has {:?}, not {:?}", i + 1, got, exp));
        }
    }
    if last {
        // What the user is told.
        m.text();
        for (n, (_, w)) in &model.drives {
            if m.feed(&format!("DIR \"{}:\"", n.to_lowercase())) != Outcome::Done(None) {
                return Err(format!("DIR {} failed", n));
            }
            let exp = dir_text(&format!("{}:/", n), model.files(*w));
            let got = mask_dates(&m.text());
            if got != exp {
                return Err(format!("DIR {}:\n{}not\n{}", n, got, exp));
            }
        }
        m.feed("DIR");
        let exp = dir_text(&format!("{}:/", model.current), model.files(model.drives[&model.current].1));
        let got = mask_dates(&m.text());
        if got != exp {
            return Err(format!("DIR:\n{}not\n{}", got, exp));
        }
        m.feed("PWD");
        let sys = match model.drives[&model.current].1 {
            Where::Mem(_) => "No system location available".to_owned(),
            Where::Disk(i) => format!("System location: {}/", [uris.0, uris.1][i]),
        };
        let exp = format!("\n    Working directory: {}:/\n    {}\n\n", model.current, sys);
        let got = m.text();
        if got != exp {
            return Err(format!("PWD:\n{}not\n{}", got, exp));
        }
        m.feed("MOUNT");
        let width = model.drives.keys().map(|n| n.len()).max().unwrap().max(4);
        let mut exp = format!("\n    {:w$}    Target\n", "Name", w = width);
        for (n, (u, _)) in &model.drives {
            exp.push_str(&format!("    {:w$}    {}\n", n, u, w = width));
        }
        exp.push_str(&format!("\n    {} drive(s)\n\n", model.drives.len()));
        let got = m.text();
        if got != exp {
            return Err(format!("MOUNT:\n{}not\n{}", got, exp));
        }
    }
    Ok(())
}

/// Runs a history from the start; the model must have diverged from nothing so far.
fn history(ops: &[usize], prefix: &[Op], cx: &mut Cx) -> CaseResult {
    let sc = Scratch::new();
    let d1 = sc.path("d1");
    let d2 = sc.path("d2");
    let uris = (d1.as_str(), d2.as_str());
    let program = Rc::new(RefCell::new(MemProgram::default()));
    program.borrow_mut().text = "' start\n".to_owned();
    let storage = Rc::new(RefCell::new(Storage::default()));
    storage.borrow_mut().register_scheme("file", Box::from(DirectoryDriveFactory::default()));
    let mut m =
        Mach::build(Opts::default(), Some((program.clone(), storage.clone())), |b| b);
    let mut model = Model::new();
    let all: Vec<&Op> = prefix.iter().chain(ops.iter().map(|o| &OPS[*o])).collect();
    for (step, o) in all.iter().enumerate() {
        let before = model.clone();
        let exp = model.apply(o, step, uris);
        if !exp {
            // A failed operation changes nothing.
            model = before;
        }
        let got = match o {
            Put(p) => block_on(storage.borrow_mut().put(p, content(step).as_bytes())).is_ok(),
            Acl(p, add) => {
                let r = FileAcls::default().with_readers(["reader".to_owned()]);
                let none = FileAcls::default();
                let (a, r) = if *add { (&r, &none) } else { (&none, &r) };
                block_on(storage.borrow_mut().update_acls(p, a, r)).is_ok()
            }
            o => match m.feed(&command(o, uris)) {
                Outcome::Done(None) => true,
                Outcome::Err(_) => false,
                e => {
                    return Err(Failure::new(format!("history: {}", show_op(o)), format!("{:?}", e)));
                }
            },
        };
        let last = step + 1 == all.len();
        let r = match got == exp {
            false => Err(format!("{} but it should have {}", if got { "succeeded" } else { "failed" }, if exp { "succeeded" } else { "failed" })),
            // Earlier steps are the last ones of shorter histories.
            true if last => compare(&mut m, &storage, &program, &model, &sc, uris, last),
            true => Ok(()),
        };
        cx.step(1);
        if let Err(e) = r {
            let h = all[..=step].iter().map(|o| show_op(o)).collect::<Vec<_>>().join(": ");
            return Err(Failure::new(format!("history: {}", h), e));
        }
    }
    cx.state(&model);
    cx.traces += 1;
    Ok(())
}

fn history_section(name: &'static str, prefix: &'static [Op], max: u32) -> Section {
    let n = seq_count(OPS.len() as u64, 1, max);
    Section::new(
        name,
        n,
        move |i| {
            seq_decode(OPS.len() as u64, 1, i).iter().map(|o| show_op(&OPS[*o])).collect::<Vec<_>>().join(": ")
        },
        move |i, cx| {
            let ops = seq_decode(OPS.len() as u64, 1, i);
            scratch::as_nobody(|| history(&ops, prefix, cx))
        },
    )
}

const TWO_DRIVES: &[Op] = &[Mount("memory://", "d"), Put("zqa"), Put("d:zqb")];
const DISK: &[Op] = &[Mount("file://DIR1", "D"), Cd("d:"), Put("zqa"), Put("zqb")];

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        paths_section(7, tier.pick(6, 7)),
        paths_section(8, tier.pick(4, 5)),
        history_section("histories", &[], tier.pick(3, 4)),
        history_section("two drives", TWO_DRIVES, tier.pick(2, 3)),
        history_section("disk", DISK, tier.pick(2, 3)),
    ]
}
