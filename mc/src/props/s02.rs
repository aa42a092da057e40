//! S02: a directory drive is the host's directory: the same files, byte by byte, and nothing else.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::scratch::{self, Scratch};
use endbasic_std::storage::{DirectoryDriveFactory, Storage};
use futures_lite::future::block_on;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;

pub fn property() -> Property {
    Property {
        id: "S02",
        rule: "Containment: all strings of up to 5 (thorough: 6) symbols as the path given to every operation of a \
               drive on a real directory, comparing the directory and all that surrounds it. Contents: all \
               sequences of up to 2 (thorough: 3) writes, copies, deletions and remounts with names and contents \
               of every kind in directories that already have files, subdirectories, links and unreadable files. Mounting: 7 \
               kinds of targets, and 6 things that become of them later.",
        assumptions: &["the host's file system works", "no one else changes the directory meanwhile"],
        sections,
    }
}

/// Everything below a directory.
fn tree(dir: &Path, prefix: &str, out: &mut BTreeMap<String, String>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd {
        let e = e.unwrap();
        let name = format!("{}/{}", prefix, e.file_name().as_bytes().escape_ascii());
        let t = e.file_type().unwrap();
        let what = if t.is_symlink() {
            format!("link {:?}", fs::read_link(e.path()).unwrap())
        } else if t.is_dir() {
            tree(&e.path(), &name, out);
            "dir".to_owned()
        } else {
            match fs::read(e.path()) {
                Ok(c) => format!("file {}", c.escape_ascii()),
                Err(e) => format!("file {:?}", e.kind()),
            }
        };
        out.insert(name, what);
    }
}

fn snapshot(sc: &Scratch) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    tree(sc.root(), "", &mut m);
    m
}

fn mounted(dir: &str) -> Storage {
    let mut s = Storage::default();
    s.register_scheme("file", Box::from(DirectoryDriveFactory::default()));
    s.mount("q", &format!("file://{}", dir)).unwrap();
    s.cd("q:").unwrap();
    s
}

// --- Containment -----------------------------------------------------------------------------

const ALPHABET: [char; 7] = ['q', 'Q', '.', '/', ':', '\\', '~'];

/// The file of the drive that a path names, if it names one.
fn leaf(p: &str) -> Option<String> {
    let rest = match p.split_once(':') {
        Some((d, r)) if d.eq_ignore_ascii_case("q") => r,
        Some(_) => return None,
        None => p,
    };
    let n = rest.strip_prefix('/').unwrap_or(rest);
    if n.is_empty() || n == "." || n == ".." || n.contains(['/', ':', '\\']) {
        return None;
    }
    Some(n.to_owned())
}

fn containment_section(max: u32) -> Section {
    let k = ALPHABET.len() as u64;
    let path =
        move |i: u64| -> String { seq_decode(k, 1, i).into_iter().map(|c| ALPHABET[c]).collect() };
    Section::new(
        "containment",
        seq_count(k, 1, max),
        move |i| format!("{:?}", path(i)),
        move |i, cx| {
            let p = path(i);
            scratch::as_nobody(|| contained(&p, cx))
        },
    )
}

fn contained(p: &str, cx: &mut Cx) -> CaseResult {
    let sc = Scratch::new();
    // Files that a path that leaves the drive may reach.
    let mut at = sc.root().to_owned();
    for d in ["1", "2", "3", "4", "drive"] {
        for n in ["q", "Q", "~", "qq", "q.", ".q"] {
            fs::write(at.join(n), "outside").unwrap();
        }
        at.push(d);
        fs::create_dir(&at).unwrap();
    }
    fs::write(at.join("src"), "inside").unwrap();
    let drive = at.to_str().unwrap().to_owned();
    let prefix = "/1/2/3/4/drive/";
    let mut s = mounted(&drive);
    let mut exp = snapshot(&sc);
    let n = leaf(p);
    let key = |n: &str| format!("{}{}", prefix, n.as_bytes().escape_ascii());
    let check = |what: &str, got: bool, ok: bool, exp: &BTreeMap<String, String>| -> CaseResult {
        let now = snapshot(&sc);
        if got != ok || now != *exp {
            let diff: Vec<String> = now
                .iter()
                .filter(|(k, v)| exp.get(*k) != Some(v))
                .map(|(k, v)| format!("{} is {}", k, v))
                .chain(exp.keys().filter(|k| !now.contains_key(*k)).map(|k| format!("{} is gone", k)))
                .collect();
            return Err(Failure::new(
                format!("containment: {} {:?}", what, p),
                format!("succeeded: {}, expected: {}\n{}", got, ok, diff.join("\n")),
            ));
        }
        Ok(())
    };
    cx.step(6);
    // Reads find nothing outside.
    let got = block_on(s.get(p)).is_ok();
    check("get", got, false, &exp)?;
    let got = block_on(s.delete(p)).is_ok();
    check("delete", got, false, &exp)?;
    let got = block_on(s.put(p, b"new")).is_ok();
    if let Some(n) = &n {
        exp.insert(key(n), "file new".to_owned());
    }
    check("put", got, n.is_some(), &exp)?;
    let got = block_on(s.copy(p, "q:dest")).is_ok();
    if n.is_some() {
        exp.insert(key("dest"), "file new".to_owned());
    }
    check("copy from", got, n.is_some(), &exp)?;
    let got = block_on(s.copy("src", p)).is_ok();
    let root = p.strip_prefix("q:").or(p.strip_prefix("Q:")).unwrap_or(p);
    let to_root = root.is_empty() || root == "/";
    if let Some(n) = &n {
        exp.insert(key(n), "file inside".to_owned());
    }
    check("copy to", got, n.is_some() || to_root, &exp)?;
    let got = block_on(s.delete(p)).is_ok();
    if let Some(n) = &n {
        exp.remove(&key(n));
    }
    check("delete again", got, n.is_some(), &exp)?;
    cx.state(&n.is_some());
    Ok(())
}

// --- Contents --------------------------------------------------------------------------------

const NAMES: [&str; 12] = [
    "zqa", "zqa.bas", "ZQA", "a b", ".hid", "ñ€", "zql", "zqx", "zqd", "zqa.", "zqp", "-rf *",
];

fn contents(n: usize) -> Vec<u8> {
    match n {
        0 => vec![],
        1 => b"PRINT \"x\"\r\n".to_vec(),
        2 => (0..=255).collect(),
        _ => (0..70_000u32).map(|i| (i % 251) as u8).collect(),
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Put(usize, usize),
    Delete(usize),
    Copy(usize, usize),
    Remount,
}

fn all_ops() -> Vec<Op> {
    let mut v = vec![Op::Remount];
    for n in 0..NAMES.len() {
        v.push(Op::Delete(n));
        v.push(Op::Put(n, 1));
    }
    for c in [0, 2, 3] {
        v.push(Op::Put(0, c));
        v.push(Op::Put(4, c));
    }
    for (a, b) in [(0, 1), (1, 0), (6, 0), (0, 6), (0, 8), (8, 0), (7, 0), (0, 9), (10, 0), (0, 0), (5, 3)] {
        v.push(Op::Copy(a, b));
    }
    v
}

/// What the drive shows and what surrounds it.
#[derive(Clone)]
struct Model {
    files: BTreeMap<String, Vec<u8>>,
    subdir: bool,
    /// Links: to the file `zqa`, to nothing, and to the subdirectory.
    link: bool,
    dangling: bool,
    secret: bool,
}

impl Model {
    fn read(&self, n: &str) -> Option<Vec<u8>> {
        match n {
            "zql" if self.link => self.files.get("zqa").cloned(),
            "zqx" if self.dangling => self.files.get("gone").cloned(),
            "zqp" if self.secret => None,
            n => self.files.get(n).cloned(),
        }
    }
    fn write(&mut self, n: &str, c: Vec<u8>) -> bool {
        match n {
            "zqd" if self.subdir => return false,
            "zqp" if self.secret => return false,
            // Links are followed.
            "zql" if self.link => self.files.insert("zqa".to_owned(), c),
            "zqx" if self.dangling => self.files.insert("gone".to_owned(), c),
            n => self.files.insert(n.to_owned(), c),
        };
        true
    }
    fn delete(&mut self, n: &str) -> bool {
        let f = |b: &mut bool| std::mem::replace(b, false);
        match n {
            "zqd" if self.subdir => false,
            // A link is what is deleted.
            "zql" if self.link => f(&mut self.link),
            "zqx" if self.dangling => f(&mut self.dangling),
            "zqp" if self.secret => f(&mut self.secret),
            n => self.files.remove(n).is_some(),
        }
    }
    fn listing(&self) -> BTreeMap<String, u64> {
        let mut m: BTreeMap<String, u64> =
            self.files.iter().map(|(n, c)| (n.clone(), c.len() as u64)).collect();
        if self.link && let Some(c) = self.files.get("zqa") {
            m.insert("zql".to_owned(), c.len() as u64);
        }
        if self.dangling && let Some(c) = self.files.get("gone") {
            m.insert("zqx".to_owned(), c.len() as u64);
        }
        if self.secret {
            m.insert("zqp".to_owned(), 6);
        }
        m
    }
}

fn contents_section(max: u32) -> Section {
    let ops = all_ops();
    let n = ops.len() as u64;
    let r = [16, seq_count(n, 1, max)];
    let ops2 = ops.clone();
    Section::new(
        "contents",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            format!("{} {:?}", v[0], seq_decode(n, 1, v[1] as u64).iter().map(|o| ops2[*o]).collect::<Vec<_>>())
        },
        move |i, cx| {
            let v = mixed(&r, i);
            let seq: Vec<Op> = seq_decode(n, 1, v[1] as u64).iter().map(|o| ops[*o]).collect();
            scratch::as_nobody(|| history(v[0], &seq, cx))
        },
    )
}

fn history(layout: usize, ops: &[Op], cx: &mut Cx) -> CaseResult {
    let sc = Scratch::new();
    let dir = sc.root().join("drive");
    fs::create_dir(&dir).unwrap();
    let mut model = Model {
        files: BTreeMap::new(),
        subdir: layout & 2 != 0,
        link: layout & 4 != 0,
        dangling: layout & 4 != 0,
        secret: layout & 8 != 0 && unsafe { libc::geteuid() } == 0,
    };
    if layout & 1 != 0 {
        for n in [0, 2, 5] {
            fs::write(dir.join(NAMES[n]), contents(n % 3)).unwrap();
            model.files.insert(NAMES[n].to_owned(), contents(n % 3));
        }
    }
    if model.subdir {
        fs::create_dir(dir.join("zqd")).unwrap();
        fs::write(dir.join("zqd/zqa"), "deep").unwrap();
    }
    if model.link {
        std::os::unix::fs::symlink("zqa", dir.join("zql")).unwrap();
        std::os::unix::fs::symlink("gone", dir.join("zqx")).unwrap();
    }
    if model.secret {
        fs::write(dir.join("zqp"), "secret").unwrap();
        fs::set_permissions(dir.join("zqp"), fs::Permissions::from_mode(0)).unwrap();
    }
    let path = dir.to_str().unwrap().to_owned();
    let mut s = mounted(&path);
    for (step, o) in ops.iter().enumerate() {
        let (got, exp) = match o {
            Op::Put(n, c) => {
                (block_on(s.put(NAMES[*n], &contents(*c))).is_ok(), model.write(NAMES[*n], contents(*c)))
            }
            Op::Delete(n) => (block_on(s.delete(NAMES[*n])).is_ok(), model.delete(NAMES[*n])),
            Op::Copy(a, b) => {
                let exp = match model.read(NAMES[*a]) {
                    Some(c) => model.write(NAMES[*b], c),
                    None => false,
                };
                (block_on(s.copy(NAMES[*a], &format!("q:/{}", NAMES[*b]))).is_ok(), exp)
            }
            Op::Remount => {
                s.cd("memory:").unwrap();
                s.unmount("Q").unwrap();
                s.mount("q", &format!("file://{}/../drive", path)).unwrap();
                s.cd("q:").unwrap();
                (true, true)
            }
        };
        cx.step(1);
        if step + 1 < ops.len() && got == exp {
            continue;
        }
        let fail = |m: String| -> CaseResult {
            Err(Failure::new(format!("contents: {} {:?}", layout, &ops[..=step]), m))
        };
        if got != exp {
            return fail(format!("succeeded: {}, expected: {}", got, exp));
        }
        let l = match block_on(s.enumerate("")) {
            Ok(l) => l.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect::<BTreeMap<_, _>>(),
            Err(e) => return fail(format!("cannot list: {}", e)),
        };
        if l != model.listing() {
            return fail(format!("lists {:?}\nnot   {:?}", l, model.listing()));
        }
        for n in NAMES {
            let got = block_on(s.get(n)).ok();
            if got != model.read(n) {
                return fail(format!("{} reads as {:?}", n, got.map(|g| g.escape_ascii().to_string())));
            }
            let sys = s.system_path(n).unwrap();
            if sys != Some(dir.join(n)) {
                return fail(format!("{} is at {:?}", n, sys));
            }
        }
        // The host's view.
        let mut now = snapshot(&sc);
        now.remove("/drive");
        let mut exp: BTreeMap<String, String> = model
            .files
            .iter()
            .map(|(n, c)| {
                (format!("/drive/{}", n.as_bytes().escape_ascii()), format!("file {}", c.escape_ascii()))
            })
            .collect();
        if model.subdir {
            exp.insert("/drive/zqd".to_owned(), "dir".to_owned());
            exp.insert("/drive/zqd/zqa".to_owned(), "file deep".to_owned());
        }
        if model.link {
            exp.insert("/drive/zql".to_owned(), "link \"zqa\"".to_owned());
        }
        if model.dangling {
            exp.insert("/drive/zqx".to_owned(), "link \"gone\"".to_owned());
        }
        if model.secret {
            exp.insert("/drive/zqp".to_owned(), "file PermissionDenied".to_owned());
        }
        if now != exp {
            return fail("the directory differs".to_owned());
        }
        cx.state(&(&l, layout));
    }
    Ok(())
}

const TARGETS: [&str; 7] = ["empty", "missing", "deep", "directory", "link", "file", "slash"];
const LATER: [&str; 6] = ["nothing", "removed", "replaced by a file", "replaced by a directory", "unreadable", "unmounted"];

/// What can be mounted, and what becomes of it.
fn mounting_section() -> Section {
    let r = [TARGETS.len() as u64, LATER.len() as u64];
    Section::new(
        "mounting",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            format!("{}, later {}", TARGETS[v[0]], LATER[v[1]])
        },
        move |i, cx| {
            let v = mixed(&r, i);
            scratch::as_nobody(|| mounting(v[0], v[1], cx))
        },
    )
}

fn mounting(target: usize, later: usize, cx: &mut Cx) -> CaseResult {
    let sc = Scratch::new();
    let root = sc.root().to_owned();
    let real = root.join("real");
    fs::create_dir(&real).unwrap();
    fs::write(real.join("a"), "A").unwrap();
    fs::write(root.join("f"), "F").unwrap();
    std::os::unix::fs::symlink("real", root.join("link")).unwrap();
    let name = ["", "new", "new/x/y", "real", "link", "f", "real/"][target];
    let uri = if target == 0 { "file://".to_owned() } else { format!("file://{}/{}", root.display(), name) };
    let before = snapshot(&sc);
    let mut s = Storage::default();
    s.register_scheme("file", Box::from(DirectoryDriveFactory::default()));
    let ok = s.mount("q", &uri).is_ok();
    let fail = |m: String| -> CaseResult {
        Err(Failure::new(format!("mounting: {}, later {}", TARGETS[target], LATER[later]), m))
    };
    cx.step(1);
    cx.state(&(target, later, ok));
    if target == 0 {
        // It has no directory of its own.
        if ok || s.mounted().len() != 1 || snapshot(&sc) != before {
            return fail("mounts something".to_owned());
        }
        return Ok(());
    }
    if target == 5 {
        // Not a directory: there is nothing to list or to write to.
        let l = ok && block_on(s.enumerate("q:")).is_ok();
        let w = ok && block_on(s.put("q:a", b"new")).is_ok();
        if l || w || snapshot(&sc) != before {
            return fail(format!("a file has listing {}, writes {}", l, w));
        }
        return Ok(());
    }
    let mut exp = before;
    if target == 1 || target == 2 {
        let mut p = String::new();
        for c in name.split('/') {
            p = format!("{}/{}", p, c);
            exp.insert(p.clone(), "dir".to_owned());
        }
    }
    if !ok || snapshot(&sc) != exp {
        return fail(format!("mounted {}", ok));
    }
    let dir = root.join(name).canonicalize().unwrap();
    if block_on(s.put("q:b", b"B")).is_err() || fs::read(dir.join("b")).ok() != Some(b"B".to_vec()) {
        return fail("b is not written".to_owned());
    }
    match later {
        1 | 2 | 3 => fs::remove_dir_all(&dir).unwrap(),
        4 => fs::set_permissions(&dir, fs::Permissions::from_mode(0)).unwrap(),
        _ => (),
    }
    match later {
        2 => fs::write(&dir, "other").unwrap(),
        3 => {
            fs::create_dir(&dir).unwrap();
            fs::write(dir.join("c"), "CC").unwrap();
        }
        5 => s.unmount("q").unwrap(),
        _ => (),
    }
    cx.step(1);
    let exp = snapshot(&sc);
    let listing = block_on(s.enumerate("q:"))
        .map(|l| l.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect::<Vec<_>>());
    let privileged = fs::read_dir(&dir).is_ok();
    let want: Option<Vec<(&str, u64)>> = match later {
        0 if target == 1 || target == 2 => Some(vec![("b", 1)]),
        0 => Some(vec![("a", 1), ("b", 1)]),
        3 => Some(vec![("c", 2)]),
        1 => Some(vec![]),
        4 if privileged => return Ok(()),
        _ => None,
    };
    let good = match (&want, &listing) {
        (Some(w), Ok(l)) => l.iter().map(|(n, z)| (n.as_str(), *z)).collect::<Vec<_>>() == *w,
        (Some(w), Err(_)) => w.is_empty(),
        (None, l) => l.is_err(),
    };
    if !good {
        return fail(format!("lists {:?}", listing.map_err(|e| e.to_string())));
    }
    for n in ["a", "b", "c"] {
        let want = if later == 5 { None } else { fs::read(dir.join(n)).ok() };
        if block_on(s.get(&format!("q:{}", n))).ok() != want {
            return fail(format!("{} is not what the host has", n));
        }
    }
    let gone = later != 5 && fs::remove_file(dir.join("b")).is_ok();
    if gone {
        fs::write(dir.join("b"), "B").unwrap();
    }
    if block_on(s.delete("q:b")).is_ok() != gone {
        return fail("deletion differs".to_owned());
    }
    if later == 4 {
        fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).unwrap();
    }
    let mut exp = exp;
    if gone {
        exp.remove(&format!("/{}/b", dir.strip_prefix(&root).unwrap().display()));
    }
    if later != 4 && snapshot(&sc) != exp {
        return fail("the directory differs".to_owned());
    }
    cx.traces += 1;
    Ok(())
}

// --- Many and large files --------------------------------------------------------------------

fn large_section() -> Section {
    const N: [usize; 8] = [1, 99, 100, 101, 128, 257, 1000, 2000];
    const L: [usize; 6] = [0, 1, 4096, 65_535, 65_536, 3_000_000];
    let r = [N.len() as u64, L.len() as u64];
    Section::new(
        "large",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let (n, l) = (N[v[0]], L[v[1]]);
            scratch::as_nobody(|| {
                let sc = Scratch::new();
                let dir = sc.root().join("drive");
                fs::create_dir(&dir).unwrap();
                let big: Vec<u8> = (0..l).map(|i| (i * 7 / 3) as u8).collect();
                for k in 0..n {
                    fs::write(dir.join(format!("f{}", k)), vec![b'x'; k]).unwrap();
                }
                let mut s = mounted(dir.to_str().unwrap());
                let bad = |what: &str| Err(Failure::new(format!("large: {} {}", what, n), format!("{} files, {} bytes", n, l)));
                // Over a shorter one and over a longer one.
                for f in ["new", "f0", &format!("f{}", n - 1)] {
                    if block_on(s.put(f, &big)).is_err() || fs::read(dir.join(f)).ok().as_ref() != Some(&big) {
                        return bad("put");
                    }
                    if block_on(s.get(f)).ok().as_ref() != Some(&big) {
                        return bad("get");
                    }
                }
                let exp: BTreeMap<String, u64> = fs::read_dir(&dir)
                    .unwrap()
                    .map(|e| e.unwrap())
                    .map(|e| (e.file_name().into_string().unwrap(), e.metadata().unwrap().len()))
                    .collect();
                let got: Option<BTreeMap<String, u64>> = block_on(s.enumerate("q:"))
                    .ok()
                    .map(|d| d.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect());
                cx.step(n as u64);
                cx.traces += 1;
                cx.state(&(n, l));
                if got.as_ref() != Some(&exp) || exp.len() != n + 1 {
                    return bad("list");
                }
                Ok(())
            })
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![containment_section(tier.pick(5, 6)), contents_section(tier.pick(2, 3)), mounting_section(), large_section()]
}
