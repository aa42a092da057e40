//! X01: the commands for the cloud keep the session, the drives and the service in step, whatever fails.

use super::svc::{DOWN, Svc, World};
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "X01",
        rule: "All sequences of up to 3 (thorough: 4) of 20 commands that log in and out, mount, save, load, list, \
               delete and share, from nothing and from within a session, each without faults and with each request to \
               the service failing before or after it had its effect; all permissions of up to 4 (thorough: 5) of 8 \
               characters, and all pairs of 9; all ways to name a file made public in 4 states; all messages of the \
               day of up to 3 of 5 lines; all passwords typed of up to 3 of 5 keys. Compared with a model of the session, the drives and \
               a service with owners and readers.",
        assumptions: &[
            "the service is a model of it that enforces its permissions",
            "a failed LOGOUT may or may not have taken the CLOUD drive off",
            "nothing else is mounted as CLOUD",
        ],
        sections,
    }
}

pub struct Rig {
    pub mach: Mach,
    pub prog: Rc<RefCell<MemProgram>>,
    pub store: Rc<RefCell<Storage>>,
    pub world: Rc<RefCell<World>>,
}

impl Rig {
    pub fn new(o: Opts, world: World) -> Self {
        let prog = Rc::new(RefCell::new(MemProgram::default()));
        let store = Rc::new(RefCell::new(Storage::default()));
        let world = Rc::new(RefCell::new(world));
        let s = store.clone();
        let svc = Rc::new(RefCell::new(Svc::new(world.clone())));
        let mach = Mach::build(o, Some((prog.clone(), store.clone())), |mut b| {
            let c = b.get_console();
            endbasic_client::add_all(&mut b, svc, c, s, "https://run.example/");
            b
        });
        Rig { mach, prog, store, world }
    }

    pub fn mounts(&self) -> BTreeMap<String, String> {
        self.store.borrow().mounted().into_iter().map(|(a, b)| (a.to_owned(), b.to_owned())).collect()
    }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Op {
    LoginAlice,
    LoginWrong,
    LoginBob,
    Logout,
    CdCloud,
    CdMemory,
    MountAlice,
    UnmountP,
    UnmountCloud,
    SaveCloud,
    SaveHere,
    LoadP,
    LoadCloud,
    KillP,
    DirP,
    DirCloud,
    ShareBob,
    SharePublic,
    Unshare,
    ShareShow,
}

use Op::*;

const OPS: [Op; 20] = [
    LoginAlice,
    LoginWrong,
    LoginBob,
    Logout,
    CdCloud,
    CdMemory,
    MountAlice,
    UnmountP,
    UnmountCloud,
    SaveCloud,
    SaveHere,
    LoadP,
    LoadCloud,
    KillP,
    DirP,
    DirCloud,
    ShareBob,
    SharePublic,
    Unshare,
    ShareShow,
];

impl Op {
    fn code(self) -> &'static str {
        match self {
            LoginAlice => "LOGIN \"alice\", \"pa\"",
            LoginWrong => "LOGIN \"alice\", \"pb\"",
            LoginBob => "LOGIN \"bob\", \"pb\"",
            Logout => "LOGOUT",
            CdCloud => "CD \"CLOUD:/\"",
            CdMemory => "CD \"MEMORY:/\"",
            MountAlice => "MOUNT \"cloud://alice\" AS \"P\"",
            UnmountP => "UNMOUNT \"P\"",
            UnmountCloud => "UNMOUNT \"CLOUD\"",
            SaveCloud => "SAVE \"CLOUD:/f\"",
            SaveHere => "SAVE \"g\"",
            LoadP => "LOAD \"P:/f\"",
            LoadCloud => "LOAD \"CLOUD:f.bas\"",
            KillP => "KILL \"P:/f.bas\"",
            DirP => "DIR \"P:/\"",
            DirCloud => "DIR \"CLOUD:\"",
            ShareBob => "SHARE \"CLOUD:/f.bas\", \"bob+r\"",
            SharePublic => "SHARE \"CLOUD:/f.bas\", \"public+r\", \"bob-R\"",
            Unshare => "SHARE \"P:/f.bas\", \"bob-r\", \"public-r\"",
            ShareShow => "SHARE \"CLOUD:/f.bas\"",
        }
    }
}

#[derive(Clone, Debug)]
struct Model {
    w: World,
    mounts: BTreeMap<String, String>,
    cwd: String,
    prog: String,
    mem: BTreeMap<String, String>,
}

#[derive(Debug, Default)]
struct Exp {
    /// Whether it works; None when that is not known.
    ok: Option<bool>,
    /// Files listed.
    files: Option<Vec<String>>,
    url: Option<String>,
    readers: Option<Vec<String>>,
}

impl Model {
    fn new(w: World) -> Self {
        let mounts = [("MEMORY".to_owned(), "memory://".to_owned())].into_iter().collect();
        Model { w, mounts, cwd: "MEMORY:/".to_owned(), prog: String::new(), mem: BTreeMap::new() }
    }

    fn key(&self, drive: &str, f: &str) -> Option<(String, String)> {
        let u = self.mounts.get(drive)?.strip_prefix("cloud://")?;
        Some((u.to_owned(), f.to_owned()))
    }

    /// Does something with a file as its owner.
    fn change(&mut self, k: Option<(String, String)>, must_exist: bool, f: impl FnOnce(&mut World, (String, String))) -> bool {
        let Some(k) = k else { return false };
        self.w
            .request(|w| {
                if w.session.as_ref() != Some(&k.0) || (must_exist && !w.files.contains_key(&k)) {
                    return Err(io::Error::other("no"));
                }
                f(w, k);
                Ok(())
            })
            .is_ok()
    }

    fn put(&mut self, drive: &str, name: &str) -> bool {
        let text = self.prog.clone().into_bytes();
        if drive == "MEMORY" {
            self.mem.insert(name.to_owned(), self.prog.clone());
            return true;
        }
        let k = self.key(drive, name);
        self.change(k, false, |w, k| w.files.entry(k).or_default().0 = text)
    }

    fn load(&mut self, drive: &str, name: &str) -> bool {
        let Some(k) = self.key(drive, name) else { return false };
        let r = self.w.request(|w| if w.visible(&k) { Ok(w.files[&k].0.clone()) } else { Err(io::Error::other("no")) });
        match r {
            Ok(c) => {
                self.prog = String::from_utf8(c).unwrap();
                true
            }
            Err(_) => false,
        }
    }

    fn dir(&mut self, drive: &str) -> Exp {
        let Some(u) = self.key(drive, "") else { return Exp { ok: Some(false), ..Exp::default() } };
        let r = self.w.request(|w| {
            Ok(w.files.keys().filter(|k| k.0 == u.0 && w.visible(k)).map(|k| k.1.clone()).collect::<Vec<_>>())
        });
        Exp { ok: Some(r.is_ok()), files: r.ok(), ..Exp::default() }
    }

    fn share(&mut self, drive: &str, add: &[&str], remove: &[&str]) -> bool {
        let k = self.key(drive, "f.bas");
        self.change(k, true, |w, k| {
            let r = &mut w.files.get_mut(&k).unwrap().1;
            for x in remove {
                r.remove(*x);
            }
            for x in add {
                r.insert((*x).to_owned());
            }
        })
    }

    fn step(&mut self, op: Op) -> Exp {
        let mut e = Exp::default();
        let ok = match op {
            LoginAlice | LoginWrong | LoginBob => {
                let (u, right) = match op {
                    LoginAlice => ("alice", true),
                    LoginWrong => ("alice", false),
                    _ => ("bob", true),
                };
                if self.w.session.is_some() {
                    false
                } else {
                    let ok = self.w.request(|_| if right { Ok(()) } else { Err(io::Error::other("no")) }).is_ok();
                    if ok {
                        self.w.session = Some(u.to_owned());
                        self.mounts.insert("CLOUD".to_owned(), format!("cloud://{}", u));
                    }
                    ok
                }
            }
            Logout => {
                if self.w.session.is_none() || self.cwd == "CLOUD:/" {
                    false
                } else {
                    let ok = self.w.request(|_| Ok(())).is_ok();
                    if ok {
                        self.w.session = None;
                        self.mounts.remove("CLOUD");
                    }
                    ok
                }
            }
            CdCloud => {
                let ok = self.mounts.contains_key("CLOUD");
                if ok {
                    self.cwd = "CLOUD:/".to_owned();
                }
                ok
            }
            CdMemory => {
                self.cwd = "MEMORY:/".to_owned();
                true
            }
            MountAlice => {
                let ok = !self.mounts.contains_key("P");
                self.mounts.insert("P".to_owned(), "cloud://alice".to_owned());
                ok
            }
            UnmountP => self.mounts.remove("P").is_some(),
            UnmountCloud => self.cwd != "CLOUD:/" && self.mounts.remove("CLOUD").is_some(),
            SaveCloud => self.put("CLOUD", "f.bas"),
            SaveHere => {
                let d = self.cwd.trim_end_matches(":/").to_owned();
                self.put(&d, "g.bas")
            }
            LoadP => self.load("P", "f.bas"),
            LoadCloud => self.load("CLOUD", "f.bas"),
            KillP => {
                let k = self.key("P", "f.bas");
                self.change(k, true, |w, k| {
                    w.files.remove(&k);
                })
            }
            DirP => return self.dir("P"),
            DirCloud => return self.dir("CLOUD"),
            ShareBob => self.share("CLOUD", &["bob"], &[]),
            SharePublic => {
                let ok = self.share("CLOUD", &["public"], &["bob"]);
                if ok {
                    e.url = Some(format!("https://run.example/?run={}/f.bas", self.w.session.as_ref().unwrap()));
                }
                ok
            }
            Unshare => self.share("P", &[], &["bob", "public"]),
            ShareShow => match self.key("CLOUD", "f.bas") {
                None => false,
                Some(k) => {
                    let r = self.w.request(|w| {
                        if w.session.as_ref() != Some(&k.0) {
                            return Err(io::Error::other("no"));
                        }
                        w.files.get(&k).map(|f| f.1.clone()).ok_or(io::Error::other("no"))
                    });
                    e.readers = r.as_ref().ok().map(|r| r.iter().cloned().collect());
                    r.is_ok()
                }
            },
        };
        e.ok = Some(ok);
        e
    }
}

/// Where the cases start.
fn starts() -> Vec<Vec<Op>> {
    vec![
        vec![],
        vec![LoginAlice, SaveCloud, MountAlice],
        vec![LoginAlice, SaveCloud, MountAlice, ShareBob, Logout],
    ]
}

fn run(start: &[Op], ops: &[Op], fail: Option<(usize, bool)>, cx: &mut Cx) -> Result<usize, Failure> {
    let mut r = Rig::new(Opts::default(), World::default());
    let mut m = Model::new(World::default());
    let all: Vec<Op> = start.iter().chain(ops).copied().collect();
    let mut base = 0;
    for (i, op) in all.iter().enumerate() {
        if i == start.len() {
            base = m.w.requests;
            let f = fail.map(|(k, a)| (k + base, a));
            m.w.fail = f;
            r.world.borrow_mut().fail = f;
        }
        // Each version of the program is different.
        let text = format!("v = {}\n", i);
        r.prog.borrow_mut().load(None, &text);
        m.prog = text;
        let was = m.clone();
        let e = m.step(*op);
        let got = r.mach.feed(op.code());
        cx.step(1);
        cx.state(&(&m.w, &m.mounts, &m.cwd, &m.mem));
        let text = r.mach.text();
        let at = |what: &str, d: String| {
            Failure::new(
                format!("{}:{:?}", what, op),
                format!("{} in {:?} fault {:?} after step {}: {}\ngot {:?}, output {:?}", what, all, fail, i, d, got, text),
            )
        };
        let ok = match &got {
            Outcome::Done(None) => true,
            Outcome::Err(_) => false,
            _ => return Err(at("outcome", String::new())),
        };
        if e.ok != Some(ok) {
            return Err(at("result", format!("expected success: {:?}", e.ok)));
        }
        let down = m.w.fail.is_some_and(|(k, _)| k >= was.w.requests && k < m.w.requests);
        if let Outcome::Err(t) = &got {
            if down && !t.contains(DOWN) {
                return Err(at("error", format!("does not say what the service said: {}", t)));
            }
        }
        let real = r.mounts();
        if *op == Logout && down && !m.mounts.is_empty() && real.len() + 1 == m.mounts.len() && !real.contains_key("CLOUD") {
            m.mounts.remove("CLOUD");
        }
        if real != m.mounts {
            return Err(at("drives", format!("{:?} instead of {:?}", real, m.mounts)));
        }
        if r.store.borrow().cwd() != m.cwd {
            return Err(at("directory", format!("{} instead of {}", r.store.borrow().cwd(), m.cwd)));
        }
        {
            let w = r.world.borrow();
            if (&w.files, &w.session, &w.signups) != (&m.w.files, &m.w.session, &m.w.signups) {
                return Err(at("service", format!("{:?} instead of {:?}", *w, m.w)));
            }
            if w.requests != m.w.requests {
                return Err(at("requests", format!("{:?} instead of {}", w.log, m.w.requests)));
            }
        }
        if r.prog.borrow().text() != m.prog {
            return Err(at("program", format!("{:?} instead of {:?}", r.prog.borrow().text(), m.prog)));
        }
        if let Some(f) = &e.files {
            let l: BTreeSet<&str> = text.split_whitespace().filter(|t| t.ends_with(".bas")).collect();
            if l != f.iter().map(|s| s.as_str()).collect() || !text.contains(&format!("{} file(s)", f.len())) {
                return Err(at("list", format!("expected {:?}", f)));
            }
        }
        let url: Vec<&str> = text.split_whitespace().filter(|t| t.contains("://")).collect();
        if url != e.url.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
            return Err(at("address", format!("expected {:?}", e.url)));
        }
        if let Some(rd) = &e.readers {
            let l: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            let good = if rd.is_empty() {
                l.len() == 1 && l[0].starts_with("No ACLs")
            } else {
                l.len() == rd.len() + 1 && l[1..] == rd.iter().map(|s| s.as_str()).collect::<Vec<_>>()
            };
            if !good {
                return Err(at("readers", format!("expected {:?}", rd)));
            }
        }
        for (n, c) in &m.mem {
            let g = futures_lite::future::block_on(r.store.borrow().get(&format!("MEMORY:/{}", n)));
            if g.ok().as_deref() != Some(c.as_bytes()) {
                return Err(at("memory", n.clone()));
            }
        }
    }
    cx.traces += 1;
    Ok(m.w.requests - base)
}

fn ops_of(idx: u64, n: u64) -> (Vec<Op>, Vec<Op>) {
    let s = starts();
    let k = idx % s.len() as u64;
    let v = seq_decode(OPS.len() as u64, 1, idx / s.len() as u64);
    let _ = n;
    (s[k as usize].clone(), v.into_iter().map(|i| OPS[i]).collect())
}

fn history(idx: u64, cx: &mut Cx) -> CaseResult {
    let (s, ops) = ops_of(idx, 0);
    let n = run(&s, &ops, None, cx)?;
    for k in 0..n {
        for applied in [false, true] {
            run(&s, &ops, Some((k, applied)), cx)?;
        }
    }
    Ok(())
}

// -- Permissions.

const ACL_CHARS: [char; 8] = ['a', '+', '-', 'r', 'R', 'ñ', ' ', 'x'];
const ACLS: [&str; 9] = ["bob+r", "bob-r", "carol+R", "eve-R", "public+r", "Public+R", "bob", "+r", "año"];

/// The change that a permission asks for: whether it adds, and whom.
fn acl(s: &str) -> Option<(bool, String)> {
    let c: Vec<char> = s.chars().collect();
    if c.len() < 3 || !matches!(c[c.len() - 1], 'r' | 'R') {
        return None;
    }
    let who = c[..c.len() - 2].iter().collect();
    match c[c.len() - 2] {
        '+' => Some((true, who)),
        '-' => Some((false, who)),
        _ => None,
    }
}

fn share(acls: &[String], cx: &mut Cx) -> CaseResult {
    let mut r = Rig::new(Opts::default(), World::default());
    for c in ["LOGIN \"alice\", \"pa\"", "SAVE \"CLOUD:/f\"", "SHARE \"CLOUD:/f.bas\", \"bob+r\", \"zed+r\""] {
        if r.mach.feed(c) != Outcome::Done(None) {
            return Err(Failure::new("setup", c));
        }
    }
    r.mach.text();
    let before = r.world.borrow().requests;
    let q: Vec<String> = acls.iter().map(|a| format!(", \"{}\"", a)).collect();
    let code = format!("SHARE \"CLOUD:/f.bas\"{}", q.concat());
    let got = r.mach.feed(&code);
    let text = r.mach.text();
    cx.step(1);
    let parsed: Vec<Option<(bool, String)>> = acls.iter().map(|a| acl(a)).collect();
    let w = r.world.borrow();
    let readers = w.files[&("alice".to_owned(), "f.bas".to_owned())].1.clone();
    let mut exp: BTreeSet<String> = ["bob", "zed"].iter().map(|s| s.to_string()).collect();
    let bad = |k: &str| Failure::new(format!("acl:{}", k), format!("{}: got {:?}, readers {:?}, output {:?}", code, got, readers, text));
    if parsed.iter().any(|p| p.is_none()) {
        cx.count("refused");
        if !matches!(got, Outcome::Err(_)) || w.requests != before || readers != exp {
            return Err(bad("accepted"));
        }
        return Ok(());
    }
    cx.count("accepted");
    for p in parsed.iter().flatten().filter(|p| !p.0) {
        exp.remove(&p.1);
    }
    for p in parsed.iter().flatten().filter(|p| p.0) {
        exp.insert(p.1.clone());
    }
    // Adding and removing the same reader at once has no defined result.
    let clash = parsed.iter().flatten().any(|p| parsed.iter().flatten().any(|q| p.0 != q.0 && p.1 == q.1));
    if got != Outcome::Done(None) || (!clash && readers != exp) {
        return Err(bad("effect"));
    }
    let public = parsed.iter().flatten().any(|p| p.0 && p.1.to_lowercase() == "public");
    if text.contains("https://run.example/?run=alice/f.bas") != public {
        return Err(bad("address"));
    }
    Ok(())
}

// -- Ways to name a public file.

const NAMES: [(&str, &str); 9] = [
    ("CLOUD:/F.BAS", "CLOUD"),
    ("CLOUD:F.BAS", "CLOUD"),
    ("cloud:/F.BAS", "CLOUD"),
    ("F.BAS", ""),
    ("/F.BAS", ""),
    ("MEMORY:/F.BAS", "MEMORY"),
    ("MEMORY:F.BAS", "MEMORY"),
    ("P:/F.BAS", "P"),
    ("P:F.BAS", "P"),
];
const STATES: [&str; 4] = ["CD \"MEMORY:/\"", "CD \"CLOUD:/\"", "CD \"P:/\"", "LOGOUT"];

fn public(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[NAMES.len() as u64, STATES.len() as u64, 2], idx);
    let (name, drive) = NAMES[d[0]];
    let state = STATES[d[1]];
    let acl = ["public+r", "PUBLIC+R"][d[2]];
    let mut r = Rig::new(Opts::default(), World::default());
    for c in [
        "LOGIN \"alice\", \"pa\"",
        "MOUNT \"cloud://alice\" AS \"P\"",
        "SAVE \"CLOUD:/F.BAS\"",
        "SAVE \"MEMORY:/F.BAS\"",
        state,
    ] {
        if r.mach.feed(c) != Outcome::Done(None) {
            return Err(Failure::new("setup", c));
        }
    }
    r.mach.text();
    let code = format!("SHARE \"{}\", \"{}\"", name, acl);
    let got = r.mach.feed(&code);
    let text = r.mach.text();
    cx.step(1);
    let drive = match (drive, state) {
        ("", "CD \"CLOUD:/\"") => "CLOUD",
        ("", "CD \"P:/\"") => "P",
        ("", _) => "MEMORY",
        (d, _) => d,
    };
    let bad = |k: &str| Failure::new(format!("public:{}", k), format!("{} after {}: got {:?}, output {:?}", code, state, got, text));
    let readers = r.world.borrow().files[&("alice".to_owned(), "F.BAS".to_owned())].1.clone();
    let cloud = drive != "MEMORY";
    let inside = state != "LOGOUT";
    if cloud {
        if (got == Outcome::Done(None)) != inside || !matches!(got, Outcome::Done(None) | Outcome::Err(_)) {
            return Err(bad("result"));
        }
        if readers.is_empty() == inside {
            return Err(bad("readers"));
        }
        let urls: Vec<&str> = text.split_whitespace().filter(|t| t.contains("://")).collect();
        let exp: &[&str] = if inside { &["https://run.example/?run=alice/F.BAS"] } else { &[] };
        if urls != exp {
            return Err(bad("address"));
        }
    } else {
        // What it means to share a local file is not defined, but it does no harm.
        if !matches!(got, Outcome::Done(None) | Outcome::Err(_)) || !readers.is_empty() {
            return Err(bad("local"));
        }
    }
    if r.mach.feed("OUT 1") != Outcome::Done(None) {
        return Err(bad("after"));
    }
    Ok(())
}

// -- Messages of the day.

const MOTD: [&str; 5] = [
    "",
    "Hello",
    "Some more words here",
    "A line that is so long that it does not fit on one row of the console, whatever the console that is used for it is",
    "  two  spaces",
];

fn motd(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[3, seq_count(MOTD.len() as u64, 0, 3)], idx);
    let width = [10, 80, 120][d[0]];
    let lines: Vec<String> =
        seq_decode(MOTD.len() as u64, 0, d[1] as u64).into_iter().map(|i| MOTD[i].to_owned()).collect();
    let w = World { motd: lines.clone(), ..World::default() };
    let mut r = Rig::new(Opts { size: (width, 24), ..Opts::default() }, w);
    let got = r.mach.feed("LOGIN \"alice\", \"pa\"");
    let text = r.mach.text();
    cx.step(1);
    let bad = |k: &str| Failure::new(format!("motd:{}", k), format!("{:?} at {}: {:?} {:?}", lines, width, got, text));
    if got != Outcome::Done(None) || r.mounts().get("CLOUD").map(|s| s.as_str()) != Some("cloud://alice") {
        return Err(bad("login"));
    }
    let l: Vec<&str> = text.lines().collect();
    let begin = l.iter().position(|x| x.contains("BEGIN SERVER MOTD"));
    let end = l.iter().position(|x| x.contains("END SERVER MOTD"));
    if width == 10 || lines.is_empty() {
        if begin.is_some() || end.is_some() {
            return Err(bad("shown"));
        }
        return Ok(());
    }
    let (Some(b), Some(e)) = (begin, end) else { return Err(bad("missing")) };
    if b >= e {
        return Err(bad("order"));
    }
    let got_words: Vec<&str> = l[b + 1..e].iter().flat_map(|x| x.split_whitespace()).collect();
    let words: Vec<&str> = lines.iter().flat_map(|x| x.split_whitespace()).collect();
    if got_words != words {
        return Err(bad("words"));
    }
    if l.iter().any(|x| x.chars().count() > width) {
        return Err(bad("width"));
    }
    Ok(())
}

// -- Typed passwords.

fn typed(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[seq_count(5, 0, 3), 4, 2], idx);
    let mut keys = vec![];
    let mut pw = String::new();
    for i in seq_decode(5, 0, d[0] as u64) {
        keys.push(match i {
            4 => {
                pw.pop();
                Key::Backspace
            }
            i => {
                let c = ['p', 'a', 'Z', 'ñ'][i];
                pw.push(c);
                Key::Char(c)
            }
        });
    }
    let end = [Key::NewLine, Key::CarriageReturn, Key::Interrupt, Key::EofOrDelete][d[1]].clone();
    // The end of the input is only that when nothing was typed.
    let entered = d[1] < 2;
    keys.push(end);
    let interactive = d[2] == 0;
    let mut r = Rig::new(Opts { interactive, ..Opts::default() }, World::default());
    {
        let mut c = r.mach.con.borrow_mut();
        c.keys = keys.clone().into();
        c.end_key = Some(Key::Interrupt);
    }
    let got = r.mach.feed("LOGIN \"alice\"");
    let text = r.mach.text();
    cx.step(1);
    let w = r.world.borrow();
    let logins: Vec<&String> = w.log.iter().filter(|l| l.starts_with("login")).collect();
    let bad = |k: &str| {
        Failure::new(format!("typed:{}", k), format!("{:?} {}: {:?} {:?} {:?}", keys, interactive, got, text, w.log))
    };
    if !interactive {
        // There is no way to keep it from being seen.
        if !logins.is_empty() || !matches!(got, Outcome::Err(_)) {
            return Err(bad("raw"));
        }
        return Ok(());
    }
    if entered {
        if logins != [&format!("login alice {}", pw)] {
            return Err(bad("sent"));
        }
        if (got == Outcome::Done(None)) != (pw == "pa") {
            return Err(bad("result"));
        }
    } else if !logins.is_empty() || got == Outcome::Done(None) {
        return Err(bad("abandoned"));
    }
    if w.session.is_some() != (entered && pw == "pa") || r.mounts().contains_key("CLOUD") != w.session.is_some() {
        return Err(bad("session"));
    }
    // The prompt has no capitals or accents after its first letter.
    if text.contains('Z') || text.contains('ñ') {
        return Err(bad("seen"));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let depth = tier.pick(3, 4);
    let n = seq_count(OPS.len() as u64, 1, depth) * starts().len() as u64;
    let len = tier.pick(4, 5);
    let na = ACL_CHARS.len() as u64;
    let one = move |i: u64| -> String { seq_decode(na, 0, i).into_iter().map(|k| ACL_CHARS[k]).collect() };
    let two = |i: u64| -> Vec<String> {
        seq_decode(ACLS.len() as u64, 2, i).into_iter().map(|k| ACLS[k].to_owned()).collect()
    };
    vec![
        Section::new("histories", n, |i| format!("{:?}", ops_of(i, 0)), history),
        Section::new(
            "permissions",
            seq_count(na, 0, len),
            move |i| one(i),
            move |i, cx| share(&[one(i)], cx),
        ),
        Section::new(
            "several",
            seq_count(ACLS.len() as u64, 2, tier.pick(2, 3)),
            move |i| format!("{:?}", two(i)),
            move |i, cx| share(&two(i), cx),
        ),
        Section::new(
            "public",
            product(&[NAMES.len() as u64, STATES.len() as u64, 2]),
            |i| format!("{}", i),
            public,
        ),
        Section::new("motd", 3 * seq_count(MOTD.len() as u64, 0, 3), |i| format!("{}", i), motd),
        Section::new("password", seq_count(5, 0, 3) * 8, |i| format!("{}", i), typed),
    ]
}
