//! X03: what the client of the service asks for over the network is what it was told to, as who it was told to.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::http::{Req, Resp, Server};
use endbasic_client::{CloudService, Service, SignupRequest};
use endbasic_std::MachineBuilder;
use endbasic_std::storage::{FileAcls, Storage};
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "X03",
        rule: "On a server on the loopback interface that records what it is asked: all file and user names of up to 3 (thorough: 4) \
               of 14 characters in all requests; all directories of 9 numbers of files with every kind of quota and time; all passwords of up to 3 (thorough: 4) of 9 characters; all requests by all answers of 16 statuses and 6 bodies; all sequences of \
               up to 4 (thorough: 5) of 15 exchanges, lost and refused ones included; all answers cut short at any \
               byte, with and without notice; all contents of up to 3 of 6 bytes, all bytes, and long ones; all \
               readers of up to 3 (thorough: 4) of 9 characters to add, to remove and read. The oracle decodes the \
               requests and keeps the session.",
        assumptions: &[
            "user names have no colon",
            "the server does not send content along with permissions, nor redirections",
        ],
        sections,
    }
}

thread_local! {
    static SERVER: Server = Server::start();
}

/// A client in a new machine.
struct Client {
    rt: tokio::runtime::Runtime,
    svc: Rc<RefCell<CloudService>>,
    store: Rc<RefCell<Storage>>,
}

impl Client {
    fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let address = SERVER.with(|s| {
            s.take();
            s.address()
        });
        let svc = Rc::new(RefCell::new(CloudService::new(&address).unwrap()));
        let store = Rc::new(RefCell::new(Storage::default()));
        let mut b = MachineBuilder::default();
        let console = b.get_console();
        endbasic_client::add_all(&mut b, svc.clone(), console, store.clone(), "http://none/");
        Client { rt, svc, store }
    }

    fn run<T>(&self, f: impl Future<Output = T>) -> T {
        self.rt.block_on(f)
    }

    #[allow(clippy::await_holding_refcell_ref)]
    fn login(&self, user: &str, pw: &str, r: Resp) -> io::Result<()> {
        say(r);
        self.run(async { self.svc.borrow_mut().login(user, pw).await }).map(|_| ())
    }

    fn session(&self) -> Option<String> {
        let s = self.svc.borrow();
        assert_eq!(s.is_logged_in(), s.logged_in_username().is_some());
        s.logged_in_username()
    }
}

fn say(r: Resp) {
    SERVER.with(|s| s.say(r));
}

fn asked() -> Vec<Req> {
    SERVER.with(|s| s.take())
}

fn token(t: &str) -> Resp {
    Resp::body(200, format!("{{\"access_token\": \"{}\", \"motd\": []}}", t))
}

fn readers(l: &[&str]) -> FileAcls {
    FileAcls::default().with_readers(l.iter().map(|s| s.to_string()).collect::<Vec<_>>())
}

const EMPTY_DIR: &str = "{\"files\": [], \"disk_quota\": null, \"disk_free\": null}";

/// Requests about files.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum F {
    Dir,
    Get,
    Acls,
    Put,
    Share,
    Delete,
}

const FS: [F; 6] = [F::Dir, F::Get, F::Acls, F::Put, F::Share, F::Delete];

#[derive(Clone, Debug, PartialEq)]
enum Val {
    None,
    Bytes(Vec<u8>),
    Readers(Vec<String>),
    Dir(Vec<(String, i64, u64)>),
}

impl F {
    fn method(self) -> &'static str {
        match self {
            F::Dir | F::Get | F::Acls => "GET",
            F::Put | F::Share => "PATCH",
            F::Delete => "DELETE",
        }
    }

    fn writes(self) -> bool {
        matches!(self, F::Put | F::Share | F::Delete)
    }

    fn good(self) -> Resp {
        match self {
            F::Dir => Resp::body(200, EMPTY_DIR),
            F::Get => Resp::body(200, "text"),
            _ => Resp::body(200, ""),
        }
    }

    #[allow(clippy::await_holding_refcell_ref)]
    fn ask(self, c: &Client, file: &str) -> io::Result<Val> {
        let path = format!("U:/{}", file);
        let st = &c.store;
        c.run(async {
            match self {
                F::Dir => st.borrow().enumerate("U:/").await.map(|d| {
                    Val::Dir(
                        d.dirents().iter().map(|(n, m)| (n.clone(), m.date.unix_timestamp(), m.length)).collect(),
                    )
                }),
                F::Get => st.borrow().get(&path).await.map(Val::Bytes),
                F::Acls => st.borrow().get_acls(&path).await.map(|a| Val::Readers(a.readers().to_vec())),
                F::Put => st.borrow_mut().put(&path, b"new\n").await.map(|_| Val::None),
                F::Share => {
                    st.borrow_mut().update_acls(&path, &readers(&["x"]), &readers(&["y"])).await.map(|_| Val::None)
                }
                F::Delete => st.borrow_mut().delete(&path).await.map(|_| Val::None),
            }
        })
    }

    /// Whether a request is this one.
    fn is(self, q: &Req, user: &str, file: &str, auth: Option<&str>) -> Result<(), String> {
        let mut path = vec!["api", "users", user, "files"];
        if self != F::Dir {
            path.push(file);
        }
        if q.path() != Some(path.iter().map(|s| s.to_string()).collect()) {
            return Err(format!("path {} instead of {:?}", q.target, path));
        }
        if q.method != self.method() {
            return Err(format!("method {}", q.method));
        }
        bearer(q, auth)?;
        let h = |n: &str, v: &[&str]| {
            let g = q.header(n);
            if g == v.iter().map(|s| s.as_bytes()).collect::<Vec<_>>() {
                Ok(())
            } else {
                Err(format!("{}: {:?} instead of {:?}", n, g, v))
            }
        };
        match self {
            F::Put => {
                h("X-EndBASIC-PatchContent", &["true"])?;
                h("X-EndBASIC-AddReader", &[])?;
                h("X-EndBASIC-RemoveReader", &[])?;
                if q.body != b"new\n" {
                    return Err(format!("content {:?}", q.body));
                }
            }
            F::Share => {
                h("X-EndBASIC-PatchContent", &["false"])?;
                h("X-EndBASIC-AddReader", &["x"])?;
                h("X-EndBASIC-RemoveReader", &["y"])?;
            }
            F::Acls => {
                h("X-EndBASIC-GetContent", &["false"])?;
                h("X-EndBASIC-GetReaders", &["true"])?;
            }
            F::Get => h("X-EndBASIC-GetReaders", &[])?,
            F::Dir | F::Delete => (),
        }
        if self != F::Put && !q.body.is_empty() {
            return Err(format!("content {:?}", q.body));
        }
        Ok(())
    }
}

fn bearer(q: &Req, token: Option<&str>) -> Result<(), String> {
    let exp: Vec<String> = token.iter().map(|t| format!("Bearer {}", t)).collect();
    let got: Vec<String> =
        q.header("Authorization").into_iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
    if got == exp { Ok(()) } else { Err(format!("authorization {:?} instead of {:?}", got, exp)) }
}

// -- Names.

const CHARS: [char; 14] = ['a', 'Q', '.', '%', '2', 'e', ' ', '?', '#', 'ñ', '+', '\t', '/', '\\'];

fn names(user: &str, file: &str, cx: &mut Cx) -> CaseResult {
    let c = Client::new();
    c.login("me", "pw", token("tok")).map_err(|e| Failure::new("names:login", e.to_string()))?;
    asked();
    if let Err(e) = c.store.borrow_mut().mount("U", &format!("cloud://{}", user)) {
        return Err(Failure::new("names:mount", format!("{:?}: {}", user, e)));
    }
    for f in FS {
        if f == F::Dir && file != "f" {
            continue;
        }
        say(f.good());
        let r = f.ask(&c, file);
        let log = asked();
        cx.step(1);
        let bad = |k: &str, d: String| {
            Failure::new(format!("names:{}:{:?}", k, f), format!("user {:?} file {:?} {:?}: {} {:?}", user, file, f, d, r))
        };
        // There is no way to ask for these.
        let odd = |s: &str| s == "." || s == "..";
        if odd(user) || odd(file) {
            if r.is_ok() || !log.is_empty() {
                return Err(bad("dots", format!("{:?}", log)));
            }
            cx.count("refused");
            continue;
        }
        if r.is_err() || log.len() != 1 {
            return Err(bad("result", format!("{:?}", log)));
        }
        f.is(&log[0], user, file, Some("tok")).map_err(|e| bad("request", e))?;
        cx.count("sent");
    }
    Ok(())
}

// -- Answers.

const STATUSES: [u16; 16] = [200, 201, 410, 400, 401, 402, 403, 404, 409, 413, 418, 429, 500, 502, 503, 507];

fn bodies() -> Vec<Vec<u8>> {
    vec![
        vec![],
        b"{\"message\": \"no \\u001b[31m such\\r\\nluck\"}".to_vec(),
        b"plain \x1b[2J text".to_vec(),
        vec![0xff, 0xfe, b'x'],
        b"{\"message\": 3}".to_vec(),
        b"<html>\n".to_vec(),
    ]
}

fn kind(status: u16) -> Option<io::ErrorKind> {
    match status {
        400 => Some(io::ErrorKind::InvalidInput),
        401 | 403 => Some(io::ErrorKind::PermissionDenied),
        404 => Some(io::ErrorKind::NotFound),
        _ => None,
    }
}

#[allow(clippy::await_holding_refcell_ref)]
fn answers(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[9, STATUSES.len() as u64, bodies().len() as u64, 2], idx);
    let (op, status, body) = (d[0], STATUSES[d[1]], bodies()[d[2]].clone());
    let inside = d[3] == 1;
    let c = Client::new();
    if inside {
        c.login("me", "pw", token("tok")).map_err(|e| Failure::new("answers:login", e.to_string()))?;
    }
    c.store.borrow_mut().mount("U", "cloud://you").unwrap();
    asked();
    let patch = op < 6 && matches!(FS[op], F::Put | F::Share);
    let success = status == 200 || (status == 201 && patch);
    // What a success looks like is for others to check.
    if status == 200 && op != 8 && !patch {
        cx.trivial += 1;
        return Ok(());
    }
    say(Resp::body(status, body.clone()));
    let r: io::Result<()> = match op {
        6 => c.run(async { c.svc.borrow_mut().login("you", "pw").await }).map(|_| ()),
        7 => c.run(async { c.svc.borrow_mut().logout().await }),
        8 => c.run(async { c.svc.borrow_mut().signup(&SignupRequest::default()).await }),
        n => FS[n].ask(&c, "f").map(|_| ()),
    };
    cx.step(1);
    let log = asked();
    let bad = |k: &str| {
        Failure::new(
            format!("answers:{}:{}", k, op),
            format!("op {} status {} body {:?} inside {}: {:?}, {} requests", op, status, body, inside, r, log.len()),
        )
    };
    let needs = op == 7 || (op < 6 && FS[op].writes());
    if needs && !inside {
        if !log.is_empty() || r.as_ref().map_err(|e| e.kind()) != Err(io::ErrorKind::PermissionDenied) {
            return Err(bad("outside"));
        }
        return Ok(());
    }
    if log.len() != 1 {
        return Err(bad("requests"));
    }
    if r.is_ok() != success {
        return Err(bad("result"));
    }
    if let Err(e) = &r {
        let t = e.to_string();
        if t.chars().any(|c| c.is_control()) {
            return Err(bad("control"));
        }
        if kind(status).is_some_and(|k| k != e.kind()) {
            return Err(bad("kind"));
        }
        if (kind(status) != Some(io::ErrorKind::NotFound)) && e.kind() == io::ErrorKind::NotFound {
            return Err(bad("not-found"));
        }
        let said: &[&str] = match d[2] {
            1 => &["no ", "such", "luck"],
            2 => &["plain", "text"],
            _ => &[],
        };
        if said.iter().any(|s| !t.contains(s)) {
            return Err(bad("message"));
        }
    }
    if c.session() != if inside { Some("me".to_owned()) } else { None } {
        return Err(bad("session"));
    }
    Ok(())
}

// -- Sessions.

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum S {
    Login(&'static str),
    LoginRefused,
    LoginGarbage,
    LoginLost,
    Logout,
    LogoutRefused,
    LogoutLost,
    Signup,
    File(F),
}

const SESSION: [S; 15] = [
    S::Login("alice"),
    S::Login("bob"),
    S::LoginRefused,
    S::LoginGarbage,
    S::LoginLost,
    S::Logout,
    S::LogoutRefused,
    S::LogoutLost,
    S::Signup,
    S::File(F::Dir),
    S::File(F::Get),
    S::File(F::Acls),
    S::File(F::Put),
    S::File(F::Share),
    S::File(F::Delete),
];

fn base64(s: &str) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for ch in s.as_bytes().chunks(3) {
        let n = (u32::from(ch[0]) << 16)
            | (u32::from(*ch.get(1).unwrap_or(&0)) << 8)
            | u32::from(*ch.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= ch.len() {
                out.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

#[allow(clippy::await_holding_refcell_ref)]
fn session(seq: &[S], cx: &mut Cx) -> CaseResult {
    let c = Client::new();
    c.store.borrow_mut().mount("U", "cloud://carol").unwrap();
    let mut now: Option<(String, String)> = None;
    for (i, s) in seq.iter().enumerate() {
        let was = now.clone();
        let tok = was.as_ref().map(|x| x.1.as_str());
        let (user, resp) = match s {
            S::Login(u) => (*u, token(&format!("tok{}", i))),
            S::LoginRefused => ("alice", Resp::body(403, "")),
            S::LoginGarbage => ("alice", Resp::body(200, "{\"access_token\": \"zz\"")),
            S::LoginLost | S::LogoutLost => ("alice", Resp::Drop),
            S::Logout => ("", Resp::body(200, "")),
            S::LogoutRefused => ("", Resp::body(503, "")),
            S::Signup => ("", Resp::body(200, "")),
            S::File(f) => ("", f.good()),
        };
        say(resp);
        let r: io::Result<()> = match s {
            S::Login(_) | S::LoginRefused | S::LoginGarbage | S::LoginLost => {
                c.run(async { c.svc.borrow_mut().login(user, "päss word").await }).map(|_| ())
            }
            S::Logout | S::LogoutRefused | S::LogoutLost => c.run(async { c.svc.borrow_mut().logout().await }),
            S::Signup => c.run(async { c.svc.borrow_mut().signup(&SignupRequest::default()).await }),
            S::File(f) => f.ask(&c, "f").map(|_| ()),
        };
        let log = asked();
        cx.step(1);
        let bad = |k: &str, d: String| {
            Failure::new(
                format!("session:{}:{:?}", k, s),
                format!("{:?} step {} in session {:?}: {} {:?}", seq, i, was, d, r),
            )
        };
        let (ok, sent) = match s {
            S::Login(u) => {
                now = Some((u.to_string(), format!("tok{}", i)));
                (true, true)
            }
            S::LoginRefused | S::LoginGarbage | S::LoginLost => (false, true),
            S::Logout => {
                now = None;
                (was.is_some(), was.is_some())
            }
            S::LogoutRefused | S::LogoutLost => (false, was.is_some()),
            S::Signup => (true, true),
            S::File(f) => {
                let may = !f.writes() || was.is_some();
                (may, may)
            }
        };
        if r.is_ok() != ok {
            return Err(bad("result", String::new()));
        }
        // A request whose answer is lost may be tried again.
        let lost = matches!(s, S::LoginLost | S::LogoutLost);
        if log.is_empty() == sent || (log.len() > 1 && !lost) {
            return Err(bad("requests", format!("{:?}", log)));
        }
        for q in &log {
            let p: Vec<String> = q.path().unwrap_or_default();
            let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            let e = match s {
                S::Login(_) | S::LoginRefused | S::LoginGarbage | S::LoginLost => {
                    let a = format!("Basic {}", base64(&format!("{}:päss word", user)));
                    if q.method != "POST" || p != ["api", "login"] || q.header("authorization") != [a.as_bytes()] {
                        Err("login".to_owned())
                    } else {
                        Ok(())
                    }
                }
                S::Logout | S::LogoutRefused | S::LogoutLost => {
                    let u = was.as_ref().unwrap().0.as_str();
                    if q.method != "POST" || p != ["api", "users", u, "logout"] {
                        Err("logout".to_owned())
                    } else {
                        bearer(q, tok)
                    }
                }
                S::Signup => {
                    let v: Option<serde_json::Value> = serde_json::from_slice(&q.body).ok();
                    let keys: Vec<String> = v
                        .as_ref()
                        .and_then(|v| v.as_object())
                        .map(|o| o.keys().cloned().collect())
                        .unwrap_or_default();
                    if q.method != "POST"
                        || p != ["api", "signup"]
                        || keys != ["email", "password", "promotional_email", "username"]
                    {
                        Err("signup".to_owned())
                    } else {
                        Ok(())
                    }
                }
                S::File(f) => f.is(q, "carol", "f", tok),
            };
            e.map_err(|e| bad("request", format!("{} {:?}", e, q)))?;
        }
        if c.session() != now.as_ref().map(|x| x.0.clone()) {
            return Err(bad("session", format!("{:?} instead of {:?}", c.session(), now)));
        }
        cx.state(&now);
    }
    cx.traces += 1;
    Ok(())
}

// -- Answers cut short.

const LOGIN_BODY: &str = "{\"access_token\": \"tok\", \"motd\": [\"a\", \"b\"]}";
const DIR_BODY: &str = "{\"files\": [{\"filename\": \"a.bas\", \"mtime\": 5, \"length\": 7}, {\"filename\": \"b\", \
                        \"mtime\": 8, \"length\": 9}], \"disk_quota\": {\"bytes\": 3, \"files\": 4}, \"disk_free\": null}";
const FILE_BODY: &str = "PRINT 1\nPRINT 2\n";

#[allow(clippy::await_holding_refcell_ref)]
fn cut(idx: u64, cx: &mut Cx) -> CaseResult {
    let full = [LOGIN_BODY, DIR_BODY, FILE_BODY];
    let d = mixed(&[3, 200, 2], idx);
    let (what, n, noticed) = (d[0], d[1], d[2] == 0);
    let b = full[what];
    if n > b.len() {
        cx.trivial += 1;
        return Ok(());
    }
    let c = Client::new();
    c.store.borrow_mut().mount("U", "cloud://carol").unwrap();
    say(if noticed {
        Resp::Cut(200, b.as_bytes().to_vec(), n)
    } else {
        Resp::body(200, &b.as_bytes()[..n])
    });
    let r: io::Result<Val> = match what {
        0 => c.run(async { c.svc.borrow_mut().login("carol", "p").await }).map(|_| Val::None),
        1 => F::Dir.ask(&c, ""),
        _ => F::Get.ask(&c, "f"),
    };
    asked();
    cx.step(1);
    let exp = match what {
        0 if n == b.len() => Some(Val::None),
        1 if n == b.len() => Some(Val::Dir(vec![("a.bas".to_owned(), 5, 7), ("b".to_owned(), 8, 9)])),
        2 if n == b.len() || !noticed => Some(Val::Bytes(b.as_bytes()[..n].to_vec())),
        _ => None,
    };
    if r.as_ref().ok() != exp.as_ref() {
        return Err(Failure::new(
            format!("cut:{}", what),
            format!("{} bytes of {:?} (connection closed: {}): {:?}", n, b, noticed, r),
        ));
    }
    if c.session().is_some() != (what == 0 && n == b.len()) {
        return Err(Failure::new("cut:session", format!("{} bytes of {:?}", n, b)));
    }
    Ok(())
}

// -- Contents.

const BYTES: [u8; 6] = [0, b'\n', b'\r', 0x80, 0xff, b'a'];

fn content(idx: u64) -> Vec<u8> {
    let n = seq_count(6, 0, 3);
    if idx < n {
        return seq_decode(6, 0, idx).into_iter().map(|i| BYTES[i]).collect();
    }
    match idx - n {
        b if b < 256 => vec![b as u8],
        256 => (0..=255u8).collect(),
        257 => (0..100_000u32).map(|i| (i * 7 / 3) as u8).collect(),
        _ => vec![b'\n'; 70_000],
    }
}

#[allow(clippy::await_holding_refcell_ref)]
fn contents(idx: u64, cx: &mut Cx) -> CaseResult {
    let b = content(idx);
    let c = Client::new();
    c.login("me", "pw", token("tok")).map_err(|e| Failure::new("contents:login", e.to_string()))?;
    asked();
    c.store.borrow_mut().mount("U", "cloud://me").unwrap();
    say(Resp::body(201, ""));
    say(Resp::body(200, b.clone()));
    let r = c.run(async {
        c.store.borrow_mut().put("U:/f", &b).await?;
        c.store.borrow().get("U:/f").await
    });
    cx.step(2);
    let log = asked();
    if r.as_ref().ok() != Some(&b) || log.len() != 2 || log[0].body != b {
        let l: Vec<usize> = log.iter().map(|q| q.body.len()).collect();
        return Err(Failure::new("contents", format!("{} bytes, sent {:?}, got {:?}", b.len(), l, r.map(|v| v.len()))));
    }
    Ok(())
}

// -- Directories.

const COUNTS: [usize; 9] = [0, 1, 2, 3, 99, 100, 101, 257, 2000];
const SPACES: [Option<(u64, u64)>; 4] = [None, Some((0, 0)), Some((5, 7)), Some((1 << 53, 1 << 40))];
const TIMES: [(u64, bool); 6] =
    [(0, true), (1, true), (1_700_000_000, true), (253_402_300_799, true), (253_402_300_800, false), (u64::MAX, false)];

#[allow(clippy::await_holding_refcell_ref)]
fn directory(v: &[usize], cx: &mut Cx) -> CaseResult {
    let (n, quota, free, (time, valid)) = (COUNTS[v[0]], SPACES[v[1]], SPACES[v[2]], TIMES[v[3]]);
    let name = |i: usize| match i % 4 {
        0 => format!("f{}.bas", i),
        1 => format!("F {} é.BAS", i),
        2 => format!("{}", i),
        _ => format!("a%2F#{}?.txt", i),
    };
    let len = |i: usize| (i as u64) * (1 << 33) + 3;
    // The last one has the time of interest.
    let mtime = |i: usize| if i + 1 == n { time } else { i as u64 * 86_399 };
    let space = |s: Option<(u64, u64)>| match s {
        None => "null".to_owned(),
        Some((b, f)) => format!("{{\"bytes\": {}, \"files\": {}}}", b, f),
    };
    let files: Vec<String> = (0..n)
        .map(|i| format!("{{\"filename\": \"{}\", \"mtime\": {}, \"length\": {}}}", name(i), mtime(i), len(i)))
        .collect();
    let c = Client::new();
    c.login("me", "pw", token("tok")).map_err(|e| Failure::new("directories:login", e.to_string()))?;
    asked();
    c.store.borrow_mut().mount("U", "cloud://me").unwrap();
    say(Resp::body(
        200,
        format!("{{\"files\": [{}], \"disk_quota\": {}, \"disk_free\": {}}}", files.join(", "), space(quota), space(free)),
    ));
    let r = c.run(async { c.store.borrow().enumerate("U:/").await });
    cx.step(1);
    let bad = |k: &str| Err(Failure::new(format!("directories:{}", k), format!("{} files, {:?} {:?} {}", n, quota, free, time)));
    let exp: std::collections::BTreeMap<String, (i64, u64)> =
        (0..n).map(|i| (name(i), (mtime(i) as i64, len(i)))).collect();
    let Ok(d) = r else {
        return if n > 0 && !valid { Ok(()) } else { bad("refused") };
    };
    if n > 0 && !valid {
        return bad("accepted");
    }
    let got: std::collections::BTreeMap<String, (i64, u64)> =
        d.dirents().iter().map(|(n, m)| (n.clone(), (m.date.unix_timestamp(), m.length))).collect();
    if got != exp {
        return bad("files");
    }
    if d.disk_quota().map(|s| (s.bytes, s.files)) != quota || d.disk_free().map(|s| (s.bytes, s.files)) != free {
        return bad("space");
    }
    Ok(())
}

// -- Passwords.

const SECRET_CHARS: [char; 9] = ['a', 'Z', ' ', ':', '%', 'é', '"', '\t', '+'];

#[allow(clippy::await_holding_refcell_ref)]
fn secrets(user: &str, secret: &str, cx: &mut Cx) -> CaseResult {
    let c = Client::new();
    let a = format!("Basic {}", base64(&format!("{}:{}", user, secret)));
    for (n, (ok, resp)) in [(false, Resp::body(403, "no")), (true, token("tok"))].into_iter().enumerate() {
        say(resp);
        let r = c.run(async { c.svc.borrow_mut().login(user, secret).await });
        let log = asked();
        cx.step(1);
        let sent = log.len() == 1
            && log[0].method == "POST"
            && log[0].path().unwrap_or_default() == ["api", "login"]
            && log[0].header("authorization") == [a.as_bytes()];
        if r.is_ok() != ok || !sent {
            return Err(Failure::new("secrets", format!("{} {:?} {:?}: {:?} {:?}", n, user, secret, r.is_ok(), log)));
        }
        if c.svc.borrow().logged_in_username() != ok.then(|| user.to_owned()) {
            return Err(Failure::new("secrets:session", format!("{:?}", user)));
        }
    }
    Ok(())
}

// -- Readers.

const READER_CHARS: [char; 9] = ['a', 'Z', '0', '-', ',', ';', ':', '\n', '"'];

#[allow(clippy::await_holding_refcell_ref)]
fn share(who: &str, cx: &mut Cx) -> CaseResult {
    let c = Client::new();
    c.login("me", "pw", token("tok")).map_err(|e| Failure::new("readers:login", e.to_string()))?;
    asked();
    c.store.borrow_mut().mount("U", "cloud://me").unwrap();
    let other = format!("{}b", who);
    let possible = !who.contains('\n');
    for (add, remove) in [(vec![who], vec![]), (vec![], vec![who]), (vec![who, &other], vec!["x", who])] {
        say(Resp::body(200, ""));
        let r = c.run(async { c.store.borrow_mut().update_acls("U:/f", &readers(&add), &readers(&remove)).await });
        let log = asked();
        cx.step(1);
        let bad = |k: &str| {
            Failure::new(format!("readers:{}", k), format!("+{:?} -{:?}: {:?} {:?}", add, remove, r, log))
        };
        if !possible {
            if r.is_ok() || !log.is_empty() {
                return Err(bad("impossible"));
            }
            continue;
        }
        if r.is_err() || log.len() != 1 {
            return Err(bad("result"));
        }
        let set = |n: &str| {
            let mut v: Vec<String> =
                log[0].header(n).into_iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
            v.sort();
            v
        };
        let want = |l: &[&str]| {
            let mut v: Vec<String> = l.iter().map(|s| s.to_string()).collect();
            v.sort();
            v
        };
        if set("X-EndBASIC-AddReader") != want(&add) || set("X-EndBASIC-RemoveReader") != want(&remove) {
            return Err(bad("sent"));
        }
    }
    if possible {
        let h = |s: &str| ("X-EndBASIC-Reader".to_owned(), s.as_bytes().to_vec());
        say(Resp::Http(200, vec![h(who), h(&other)], vec![]));
        let r = c.run(async { c.store.borrow().get_acls("U:/f").await });
        cx.step(1);
        let mut got = r.as_ref().map(|a| a.readers().to_vec()).unwrap_or_default();
        got.sort();
        let mut exp = vec![who.to_owned(), other.clone()];
        exp.sort();
        if got != exp {
            return Err(Failure::new("readers:read", format!("{:?}: {:?}", who, r)));
        }
    }
    Ok(())
}

// -- Addresses of the service.

const ADDRESSES: [(&str, bool); 9] = [
    ("http://127.0.0.1:9", true),
    ("http://127.0.0.1:9/", true),
    ("https://service.example", true),
    ("https://service.example/api", false),
    ("https://service.example/api/", false),
    ("", false),
    ("service.example", false),
    ("http://", false),
    ("http://a b/", false),
];

fn address(idx: u64, _: &mut Cx) -> CaseResult {
    let (a, ok) = ADDRESSES[idx as usize];
    if CloudService::new(a).is_ok() != ok {
        return Err(Failure::new("address", a));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let nc = CHARS.len() as u64;
    let user = move |i: u64| -> String { seq_decode(nc, 1, i).into_iter().map(|k| CHARS[k]).collect() };
    // Neither kind of slash can be in the name of a file.
    let file = move |i: u64| -> String { seq_decode(nc - 2, 1, i).into_iter().map(|k| CHARS[k]).collect() };
    let nr = READER_CHARS.len() as u64;
    let who = move |i: u64| -> String { seq_decode(nr, 1, i).into_iter().map(|k| READER_CHARS[k]).collect() };
    let ns = SESSION.len() as u64;
    let sess = move |i: u64| -> Vec<S> { seq_decode(ns, 1, i).into_iter().map(|k| SESSION[k]).collect() };
    let dirs = [COUNTS.len() as u64, SPACES.len() as u64, SPACES.len() as u64, TIMES.len() as u64];
    let nk = SECRET_CHARS.len() as u64;
    let secret = move |i: u64| -> (&'static str, String) {
        let p = seq_decode(nk, 0, i / 3).into_iter().map(|k| SECRET_CHARS[k]).collect();
        (["me", "Some One", "ñ@x"][(i % 3) as usize], p)
    };
    let radices = [9, STATUSES.len() as u64, bodies().len() as u64, 2];
    vec![
        Section::new("users", seq_count(nc, 1, tier.pick(3, 4)), move |i| format!("{:?}", user(i)), move |i, cx| {
            names(&user(i), "f", cx)
        }),
        Section::new("files", seq_count(nc - 2, 1, tier.pick(3, 4)), move |i| format!("{:?}", file(i)), move |i, cx| {
            names("you", &file(i), cx)
        }),
        Section::new("answers", product(&radices), move |i| format!("{:?}", mixed(&radices, i)), answers),
        Section::new(
            "sessions",
            seq_count(ns, 1, tier.pick(4, 5)),
            move |i| format!("{:?}", sess(i)),
            move |i, cx| session(&sess(i), cx),
        ),
        Section::new(
            "directories",
            product(&dirs),
            move |i| format!("{:?}", mixed(&dirs, i)),
            move |i, cx| directory(&mixed(&dirs, i), cx),
        ),
        Section::new(
            "secrets",
            seq_count(nk, 0, tier.pick(3, 4)) * 3,
            move |i| format!("{:?}", secret(i)),
            move |i, cx| {
                let (u, p) = secret(i);
                secrets(u, &p, cx)
            },
        ),
        Section::new("cut", 3 * 200 * 2, |i| format!("{:?}", mixed(&[3, 200, 2], i)), cut),
        Section::new("contents", seq_count(6, 0, 3) + 259, |i| format!("{}", i), contents),
        Section::new(
            "readers",
            seq_count(nr, 1, tier.pick(3, 4)),
            move |i| format!("{:?}", who(i)),
            move |i, cx| share(&who(i), cx),
        ),
        Section::new("addresses", ADDRESSES.len() as u64, |i| ADDRESSES[i as usize].0.to_owned(), address),
    ]
}
