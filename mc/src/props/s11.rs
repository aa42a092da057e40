//! S11: listings show exactly what is there, on any console.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use async_trait::async_trait;
use endbasic_std::program::Program;
use endbasic_std::storage::{DiskSpace, Drive, DriveFactory, DriveFiles, Metadata, Storage};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;
use time::{Date, Month, OffsetDateTime, Time};

pub fn property() -> Property {
    Property {
        id: "S11",
        rule: "Files: all sets of up to 3 (thorough: 4) of 7 kinds of files with every kind of quota and on every \
               width of console around the limit, in any of the ways to name the drive. Drives: all sets of up to 4 (thorough: 5) of 8 \
               drives. Programs: all files of up to 4 (thorough: 6) of 14 pieces of text loaded, listed, disassembled, saved \
               and run, with two kinds of program storage. Also directories of up to 1000 files and programs of up to 5000 lines or lines of \
               up to 1000 characters, saved over shorter and longer ones. Oracle: the lists themselves.",
        assumptions: &["drives give the information that their hosts have"],
        sections,
    }
}

// --- Files -----------------------------------------------------------------------------------

type Space = Option<(u64, u64)>;

#[derive(Clone, Default)]
struct Contents {
    files: BTreeMap<String, (OffsetDateTime, u64)>,
    quota: Space,
    free: Space,
    fail: bool,
}

struct FixedDrive(Contents);

#[async_trait(?Send)]
impl Drive for FixedDrive {
    async fn delete(&mut self, _: &str) -> io::Result<()> {
        Err(io::Error::other("no"))
    }
    async fn enumerate(&self) -> io::Result<DriveFiles> {
        if self.0.fail {
            return Err(io::Error::other("The disk is gone"));
        }
        let m = self
            .0
            .files
            .iter()
            .map(|(n, f)| (n.clone(), Metadata { date: f.0, length: f.1 }))
            .collect();
        let space = |s: Space| s.map(|s| DiskSpace::new(s.0, s.1));
        Ok(DriveFiles::new(m, space(self.0.quota), space(self.0.free)))
    }
    async fn get(&self, _: &str) -> io::Result<Vec<u8>> {
        Err(io::Error::other("no"))
    }
    async fn put(&mut self, _: &str, _: &[u8]) -> io::Result<()> {
        Err(io::Error::other("no"))
    }
}

struct FixedFactory(Contents);

impl DriveFactory for FixedFactory {
    fn create(&self, _: &str) -> io::Result<Box<dyn Drive>> {
        Ok(Box::from(FixedDrive(self.0.clone())))
    }
}

fn at(y: i32, m: u8, d: u8, h: u8, min: u8, s: u8) -> OffsetDateTime {
    let date = Date::from_calendar_date(y, Month::try_from(m).unwrap(), d).unwrap();
    date.with_time(Time::from_hms(h, min, s).unwrap()).assume_utc()
}

/// Name, date, what is shown of it, and length.
fn kinds() -> Vec<(&'static str, OffsetDateTime, &'static str, u64)> {
    vec![
        ("a.bas", at(1970, 1, 1, 0, 0, 0), "1970-01-01 00:00", 0),
        ("B", at(1999, 12, 31, 23, 59, 59), "1999-12-31 23:59", 1),
        ("LONG NAME.TXT", at(2020, 2, 29, 12, 0, 59), "2020-02-29 12:00", 999_999),
        ("a very long name that does not fit in a narrow console.bas", at(2026, 10, 9, 8, 7, 6), "2026-10-09 08:07", 1_000_000),
        ("ñ.bas", at(2001, 3, 4, 5, 6, 0), "2001-03-04 05:06", 1 << 40),
        ("A.BAS", at(1969, 12, 31, 23, 59, 59), "1969-12-31 23:59", 99_999),
        ("z", at(9999, 12, 31, 1, 1, 1), "9999-12-31 01:01", 10),
    ]
}

const SPACES: [(Space, Space); 5] = [
    (None, None),
    (Some((1000, 5)), None),
    (None, Some((1000, 5))),
    (Some((100_000, 64)), Some((99_999, 0))),
    (Some((0, 0)), Some((0, 0))),
];

const WIDTHS: [usize; 7] = [1, 20, 48, 49, 50, 51, 132];

fn files_section(max: u32) -> Section {
    let ks = kinds();
    let sets: Vec<u32> = (0..1u32 << ks.len()).filter(|s| s.count_ones() <= max).collect();
    let r = [sets.len() as u64, SPACES.len() as u64, WIDTHS.len() as u64, 5];
    let sets2 = sets.clone();
    Section::new(
        "files",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            format!("files {:b}, space {:?}, width {}, way {}", sets2[v[0]], SPACES[v[1]], WIDTHS[v[2]], v[3])
        },
        move |i, cx| {
            let v = mixed(&r, i);
            let mut c = Contents { quota: SPACES[v[1]].0, free: SPACES[v[1]].1, ..Contents::default() };
            let mut rows = BTreeMap::new();
            for (n, k) in ks.iter().enumerate() {
                if sets[v[0]] >> n & 1 == 1 {
                    c.files.insert(k.0.to_owned(), (k.1, k.3));
                    rows.insert(k.0, (k.2, k.3));
                }
            }
            let way = v[3];
            c.fail = way == 4;
            let mut s = Storage::default();
            s.register_scheme("fixed", Box::from(FixedFactory(c.clone())));
            s.mount("Disk", "fixed://").unwrap();
            let s = Rc::new(RefCell::new(s));
            let p = Rc::new(RefCell::new(MemProgram::default()));
            let o = Opts { size: (WIDTHS[v[2]], 24), ..Opts::default() };
            let mut m = Mach::build(o, Some((p, s)), |b| b);
            let code = match way {
                0 => "DIR \"disk:\"",
                1 => "DIR \"DISK:/\"",
                2 => "CD \"disk:\"\nDIR",
                3 => "CD \"disk:/\"\nDIR \"/\"",
                _ => "DIR \"disk:\"",
            };
            let got = (m.feed(code), m.text());
            cx.step(1);
            cx.traces += 1;
            let mut exp = String::new();
            let narrow = WIDTHS[v[2]] < 50;
            let path = "DISK:/";
            exp.push_str(&format!("\n    Directory of {}\n\n", path));
            if !narrow {
                exp.push_str("    Modified              Size    Name\n");
            }
            for (n, (d, l)) in &rows {
                match narrow {
                    true => exp.push_str(&format!("    {}\n", n)),
                    false => exp.push_str(&format!("    {}    {:>6}    {}\n", d, l, n)),
                }
            }
            if !rows.is_empty() {
                exp.push('\n');
            }
            if narrow {
                exp.push_str(&format!("    {} file(s)\n", rows.len()));
            } else {
                let total: u64 = rows.values().map(|r| r.1).sum();
                exp.push_str(&format!("    {} file(s), {} bytes\n", rows.len(), total));
                if let (Some(q), Some(f)) = SPACES[v[1]] {
                    exp.push_str(&format!("    {} of {} bytes free\n", f.0, q.0));
                }
            }
            exp.push('\n');
            let ok = match way {
                4 => matches!(&got.0, Outcome::Err(e) if e.contains("The disk is gone")) && got.1.is_empty(),
                _ => got == (Outcome::Done(None), exp.clone()),
            };
            cx.state(&(v[0], v[1], narrow));
            if ok {
                return Ok(());
            }
            Err(Failure::new(
                format!("files: {:?}", (rows.keys().collect::<Vec<_>>(), SPACES[v[1]], WIDTHS[v[2]], way)),
                format!("{:?}\n{}not\n{}", got.0, got.1, exp),
            ))
        },
    )
}

// --- Many files, of all sizes ----------------------------------------------------------------

const MANY: [usize; 13] = [8, 9, 10, 11, 12, 13, 16, 17, 99, 100, 128, 256, 1000];

fn many_section() -> Section {
    let r = [MANY.len() as u64, 2, 2];
    Section::new(
        "many files",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let (n, wide, memory) = (MANY[v[0]], v[1] == 1, v[2] == 1);
            let mut s = Storage::default();
            let len = |k: usize| if memory { k * k % 70_001 } else { k * k * 1_000_003 };
            let mut files: BTreeMap<String, (OffsetDateTime, u64)> = BTreeMap::new();
            for k in 0..n {
                files.insert(format!("f{}.txt", k * 7), (at(2020, 1, 2, 3, 4, 5), len(k) as u64));
            }
            let c = Contents { files: files.clone(), ..Contents::default() };
            s.register_scheme("fixed", Box::from(FixedFactory(c)));
            s.mount("Disk", if memory { "memory://" } else { "fixed://" }).unwrap();
            if memory {
                for (f, (_, l)) in &files {
                    futures_lite::future::block_on(s.put(&format!("disk:/{}", f), &vec![b'x'; *l as usize])).unwrap();
                }
            }
            let s = Rc::new(RefCell::new(s));
            let p = Rc::new(RefCell::new(MemProgram::default()));
            let o = Opts { size: (if wide { 80 } else { 30 }, 24), ..Opts::default() };
            let mut m = Mach::build(o, Some((p, s)), |b| b);
            let r = m.feed("DIR \"DISK:\"");
            let text = m.text();
            let got: Vec<Vec<&str>> = text
                .lines()
                .filter(|l| l.contains(".txt"))
                .map(|l| l.split(' ').filter(|w| !w.is_empty()).collect())
                .collect();
            let ok = got.len() == n
                && got.iter().zip(&files).all(|(g, (f, (_, l)))| match wide {
                    true => g.len() == 4 && g[2] == l.to_string() && g[3] == f,
                    false => *g == [f.as_str()],
                });
            let total: u64 = files.values().map(|f| f.1).sum();
            let sum = match wide {
                true => format!("    {} file(s), {} bytes\n", n, total),
                false => format!("    {} file(s)\n", n),
            };
            cx.step(n as u64);
            cx.traces += 1;
            cx.state(&(n, wide, memory));
            if r != Outcome::Done(None) || !ok || !text.contains(&sum) {
                return Err(Failure::new(
                    format!("many files: {:?}", (n, wide, memory)),
                    format!("{:?} {} listed, {:?} missing in\n{}", r, got.len(), sum, text.chars().take(2000).collect::<String>()),
                ));
            }
            Ok(())
        },
    )
}

// --- Long programs ---------------------------------------------------------------------------

const LINES: [usize; 8] = [1, 23, 24, 100, 255, 256, 1000, 5000];
const LINE_WIDTHS: [usize; 5] = [1, 80, 255, 256, 1000];

fn long_section() -> Section {
    let r = [LINES.len() as u64, LINE_WIDTHS.len() as u64, 2, 2];
    Section::new(
        "long programs",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let (n, w, own, end) = (LINES[v[0]], LINE_WIDTHS[v[1]], v[2] == 1, v[3] == 1);
            // Few of the longest.
            let n = if w == 1000 { n.min(1000) } else { n };
            let mut text = String::new();
            for k in 0..n {
                let mut l = if k % 10 == 9 { format!("OUT {} '", k) } else { format!("' {} ", k) };
                while l.len() < w {
                    l.push_str(&(l.len() * 31 % 97).to_string());
                }
                text.push_str(&l);
                if k + 1 < n || end {
                    text.push('\n');
                }
            }
            let mut s = Storage::default();
            s.mount("Disk", "memory://").unwrap();
            let s = Rc::new(RefCell::new(s));
            let put = |f: &str, t: &str| futures_lite::future::block_on(s.borrow_mut().put(f, t.as_bytes())).unwrap();
            let get = |f: &str| futures_lite::future::block_on(s.borrow().get(f)).ok();
            put("f.bas", &text);
            // What is there before is longer, shorter or nothing.
            put("disk:/short.bas", "' x");
            put("disk:/longer.bas", &format!("{}\n' and more", text));
            let mut m = match own {
                true => Mach::build_default(Opts::default(), s.clone()),
                false => Mach::build(Opts::default(), Some((Rc::new(RefCell::new(MemProgram::default())), s.clone())), |b| b),
            };
            let key = format!("long programs: {:?}", (n, w, own, end));
            let fail = |what: &str, d: String| -> CaseResult { Err(Failure::new(format!("{} {}", key, what), d)) };
            let r = m.feed("LOAD \"f\"");
            if r != Outcome::Done(None) {
                return fail("LOAD", format!("{:?}", r));
            }
            m.text();
            let r = m.feed("LIST");
            let t = m.text();
            if r != Outcome::Done(None) || t.trim_end_matches('\n') != text.trim_end_matches('\n') {
                return fail("LIST", format!("{:?}, {} bytes instead of {}", r, t.len(), text.len()));
            }
            for f in ["new", "disk:/new", "disk:/short", "disk:/longer", "f"] {
                let r = m.feed(&format!("SAVE \"{}\"", f));
                let g = get(&format!("{}.bas", f));
                cx.step(1);
                if r != Outcome::Done(None) || g.as_deref() != Some(text.as_bytes()) {
                    return fail(&format!("SAVE {}", f), format!("{:?}, {:?} bytes instead of {}", r, g.map(|g| g.len()), text.len()));
                }
            }
            let r = m.feed("RUN");
            let exp: Vec<String> = (0..n).filter(|k| k % 10 == 9).map(|k| format!("{}%", k)).collect();
            let out = m.out();
            if r != Outcome::Done(None) || out != exp {
                return fail("RUN", format!("{:?}, {} lines instead of {}", r, out.len(), exp.len()));
            }
            cx.state(&(n, w, own, end));
            cx.traces += 1;
            Ok(())
        },
    )
}

// --- Drives ----------------------------------------------------------------------------------

/// Names, targets and how both are shown.
const DRIVES: [(&str, &str); 8] = [
    ("a", "memory://"),
    ("Two", "MEMORY://"),
    ("four", "fixed://host/path"),
    ("FIVE5", "fixed://"),
    ("a drive", "Fixed://Case Is Kept"),
    ("memory2", "memory://"),
    ("an awfully long name for a drive", "fixed://a:b://c"),
    ("é", "fixed://é"),
];

fn drives_section(max: u32) -> Section {
    let k = DRIVES.len() as u64;
    let r = [seq_count(k, 0, max), 3, 3];
    Section::new(
        "drives",
        product(&r),
        move |i| format!("{:?}", (seq_decode(k, 0, i / 9), i % 9)),
        move |i, cx| {
            let v = mixed(&r, i);
            let seq = seq_decode(k, 0, v[0] as u64);
            let mut s = Storage::default();
            s.register_scheme("fixed", Box::from(FixedFactory(Contents::default())));
            let s = Rc::new(RefCell::new(s));
            let p = Rc::new(RefCell::new(MemProgram::default()));
            let o = Opts { size: ([20, 49, 80][v[1]], 24), ..Opts::default() };
            let mut m = Mach::build(o, Some((p, s)), |b| b);
            let mut model: BTreeMap<String, &str> = [("MEMORY".to_owned(), "memory://")].into();
            let mut cwd = "MEMORY".to_owned();
            for d in &seq {
                let (n, u) = DRIVES[*d];
                let up = n.to_uppercase();
                let o = m.feed(&format!("MOUNT \"{}\" AS \"{}\"", u, n));
                cx.step(1);
                if (o == Outcome::Done(None)) == model.contains_key(&up) {
                    return Err(Failure::new(format!("drives: {:?}", seq), format!("mounting {}: {:?}", n, o)));
                }
                model.entry(up).or_insert(u);
            }
            match (v[2], seq.last()) {
                (1, Some(l)) => {
                    // Another one becomes the current one.
                    cwd = DRIVES[*l].0.to_uppercase();
                    m.feed(&format!("CD \"{}:\"", DRIVES[*l].0));
                }
                (2, Some(l)) => {
                    m.feed(&format!("UNMOUNT \"{}\"", DRIVES[*l].0));
                    model.remove(&DRIVES[*l].0.to_uppercase());
                }
                _ => (),
            }
            let width = model.keys().map(|n| n.len()).max().unwrap().max(4);
            let mut exp = format!("\n    Name{}    Target\n", " ".repeat(width - 4));
            for (n, u) in &model {
                exp.push_str(&format!("    {}{}    {}\n", n, " ".repeat(width - n.len()), u));
            }
            exp.push_str(&format!("\n    {} drive(s)\n\n", model.len()));
            // Columns of names with letters that take several bytes are not promised.
            let squeeze = |t: &str| t.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
            let got = (m.feed("MOUNT"), m.text());
            cx.step(1);
            cx.state(&(&model, &cwd));
            let ok = match model.contains_key("É") {
                true => squeeze(&got.1) == squeeze(&exp),
                false => got.1 == exp,
            };
            if got.0 != Outcome::Done(None) || !ok {
                return Err(Failure::new(format!("drives: {:?}", seq), format!("{:?}\n{}not\n{}", got.0, got.1, exp)));
            }
            let got = (m.feed("PWD"), m.text());
            let exp = format!("\n    Working directory: {}:/\n    No system location available\n\n", cwd);
            if got != (Outcome::Done(None), exp.clone()) {
                return Err(Failure::new(format!("drives: {:?}", seq), format!("{:?}\n{}not\n{}", got.0, got.1, exp)));
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

// --- Programs --------------------------------------------------------------------------------

/// Pieces of a file, the callables that each one has, and what it shows.
const TEXTS: [(&[u8], usize, Option<&str>); 14] = [
    (b"OUT 1\n", 1, Some("1%")),
    (b"OUT \"two\"\n", 1, Some("two$")),
    (b"\n", 0, None),
    (b"   \n", 0, None),
    (b"' a remark with \xc3\xb1\n", 0, None),
    (b"\tx% = 5: OUT x%\r\n", 1, Some("5%")),
    (b"IF 1 < 2 THEN OUT 3 ELSE OUT 4\n", 2, Some("3%")),
    (b"REM a line that is longer than any narrow console that is used here, and longer than that\n", 0, None),
    (b"OUT 7", 1, Some("7%")),
    (b"\r\n", 0, None),
    (b"PRINT 99\n", 1, None),
    (b"bad bad\n", 0, None),
    (b"' \xff not text\n", 0, None),
    (b"' \x07 bell\n", 0, None),
];

/// How a line looks when it is printed.
fn printed(l: &str) -> String {
    l.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}

fn programs_section(max: u32) -> Section {
    let k = TEXTS.len() as u64;
    let r = [seq_count(k, 0, max), 2];
    Section::new(
        "programs",
        product(&r),
        move |i| format!("{:?}", (seq_decode(k, 0, i / 2), i % 2)),
        move |i, cx| program(&seq_decode(k, 0, i / 2), i % 2 == 1, cx),
    )
}

fn program(seq: &[usize], own: bool, cx: &mut Cx) -> CaseResult {
    let content: Vec<u8> = seq.iter().flat_map(|t| TEXTS[*t].0.to_vec()).collect();
    let shown = String::from_utf8_lossy(&content).into_owned();
    let fail = |what: &str, got: &dyn std::fmt::Debug, exp: &dyn std::fmt::Debug| -> CaseResult {
        Err(Failure::new(
            format!("programs: {} {:?}", what, shown),
            format!("{:?}\n{}: {:?}\nnot {:?}", shown, what, got, exp),
        ))
    };
    let s = Rc::new(RefCell::new(Storage::default()));
    futures_lite::future::block_on(s.borrow_mut().put("f.bas", &content)).unwrap();
    let p = Rc::new(RefCell::new(MemProgram::default()));
    let mut m = match own {
        // The machine's own storage for the program.
        true => Mach::build_default(Opts::default(), s.clone()),
        false => Mach::build(Opts::default(), Some((p.clone() as Rc<RefCell<dyn Program>>, s.clone())), |b| b),
    };
    let none: Vec<String> = vec![];
    // Nothing at the start.
    let got = (m.feed("LIST"), m.text());
    if got != (Outcome::Done(None), String::new()) {
        return fail("LIST at start", &got, &"");
    }
    let r = m.feed("LOAD \"F\"");
    // Names keep their case.
    if !matches!(r, Outcome::Err(_)) {
        return fail("LOAD of another name", &r, &"an error");
    }
    let r = m.feed("LOAD \"f\"");
    let t = m.text();
    cx.step(1);
    let Ok(text) = String::from_utf8(content.clone()) else {
        cx.state(&"not text");
        cx.traces += 1;
        if !matches!(&r, Outcome::Err(e) if e.contains("Invalid file content")) || !t.is_empty() {
            return fail("LOAD", &(r, t), &"an error");
        }
        let got = (m.feed("LIST"), m.text());
        if got != (Outcome::Done(None), String::new()) {
            return fail("LIST after a failed LOAD", &got, &"");
        }
        return Ok(());
    };
    if r != Outcome::Done(None) || !t.is_empty() {
        return fail("LOAD", &(r, t), &"");
    }
    // Twice, to see that nothing depends on having listed it.
    for _ in 0..2 {
        let got = (m.feed("LIST"), m.text());
        let mut exp = String::new();
        for l in text.lines() {
            exp.push_str(&printed(l));
            exp.push('\n');
        }
        cx.step(1);
        if got.0 != Outcome::Done(None) || printed_lines(&got.1) != printed_lines(&exp) {
            return fail("LIST", &got, &exp);
        }
    }
    // What it should do.
    let glued: Vec<usize> = (0..seq.len()).filter(|n| *n + 1 < seq.len() && !TEXTS[seq[*n]].0.ends_with(b"\n")).collect();
    // Pieces joined in one line may mean something else.
    let clear = glued.is_empty();
    let valid = !seq.contains(&11);
    let calls: usize = seq.iter().map(|t| TEXTS[*t].1).sum();
    let outs: Vec<String> = seq.iter().filter_map(|t| TEXTS[*t].2).map(|s| s.to_owned()).collect();
    // Disassembling does not run.
    let got = (m.feed("DISASM"), m.text());
    cx.step(1);
    let out = m.out();
    if out != none {
        return fail("OUT when disassembling", &out, &none);
    }
    match &got.0 {
        Outcome::Done(None) => {
            let body: Vec<&str> = got.1.lines().collect();
            let n = body.len();
            let last = body.last().copied().unwrap_or("x");
            let numbered = body[..n - 1].iter().enumerate().all(|(a, l)| l.starts_with(&format!("{:04x}:", a)) || l.starts_with(&format!("{:04}:", a)) || l.starts_with(&format!("{:04X}:", a)));
            let upcalls = body.iter().filter(|l| l.contains("UPCALL")).count();
            let ends = n >= 2 && body[n - 2].contains("EOF");
            if !last.is_empty() || !numbered || !ends || clear && (upcalls != calls || !valid) {
                return fail("DISASM", &got.1, &format!("{} calls", calls));
            }
        }
        Outcome::Err(e) if clear => {
            // The line of the mistake.
            let line = seq.iter().position(|t| *t == 11).map(|n| n + 1);
            if line.is_none_or(|l| !e.contains(&format!("{}:5: ", l)) && !e.contains(&format!("{}:1: ", l))) || !got.1.is_empty() {
                return fail("DISASM", &got, &line);
            }
        }
        Outcome::Err(_) if got.1.is_empty() => (),
        _ => return fail("DISASM", &got, &"a listing or an error"),
    }
    // Saving gives the same contents back.
    let r = m.feed("SAVE \"g\"");
    let g = futures_lite::future::block_on(s.borrow().get("g.bas"));
    if r != Outcome::Done(None) || g.as_ref().ok() != Some(&content) {
        return fail("SAVE", &(r, g), &content);
    }
    // Without a name, to where it was saved last.
    futures_lite::future::block_on(s.borrow_mut().put("g.bas", b"other")).unwrap();
    let r = m.feed("SAVE");
    let g = futures_lite::future::block_on(s.borrow().get("g.bas"));
    let f = futures_lite::future::block_on(s.borrow().get("f.bas"));
    if r != Outcome::Done(None) || g.as_ref().ok() != Some(&content) || f.as_ref().ok() != Some(&content) {
        return fail("SAVE without a name", &(r, g, f), &content);
    }
    m.text();
    let r = m.feed("RUN");
    let out = m.out();
    cx.step(1);
    if clear {
        let exp = if valid { outs } else { none.clone() };
        if out != exp || valid != matches!(r, Outcome::Done(None)) {
            return fail("RUN", &(r, out), &exp);
        }
    }
    m.text();
    let r = m.feed("NEW");
    let t = m.text();
    let got = (m.feed("LIST"), m.text());
    if r != Outcome::Done(None) || !t.is_empty() || got != (Outcome::Done(None), String::new()) {
        return fail("NEW", &(r, t, got), &"");
    }
    // There is no name any more.
    let r = m.feed("SAVE");
    if !matches!(r, Outcome::Err(_)) {
        return fail("SAVE after NEW", &r, &"an error");
    }
    if own {
        let r = m.feed("EDIT");
        if !matches!(r, Outcome::Err(_)) {
            return fail("EDIT", &r, &"an error");
        }
    }
    cx.state(&(content, own));
    cx.traces += 1;
    Ok(())
}

/// Lines without any control characters.
fn printed_lines(t: &str) -> Vec<String> {
    t.lines().map(printed).collect()
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        files_section(tier.pick(3, 4)),
        drives_section(tier.pick(4, 5)),
        programs_section(tier.pick(4, 6)),
        many_section(),
        long_section(),
    ]
}
