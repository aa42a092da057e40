//! W01: the drive of the web frontend keeps the programs across visits.

use super::w02::Pair;
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::page::{Page, Press, URL, read_text};
use crate::refx::Files;
use std::collections::BTreeMap;
use time::OffsetDateTime;
use web_sys::fake::{self, Order};

pub fn property() -> Property {
    Property {
        id: "W01",
        rule: "The real crate of the web frontend, built natively on a stand-in for the browser: from 8 contents of the local \
               storage, with 3 orders of its keys in turn, all histories of up to 2 (thorough: 3) of 22 commands and reloads of the page; the \
               screen and the stored files are compared with the interpreter on an in-memory drive.  The same with up to 300 files. Then the same with \
               a failure of each single operation on the storage.",
        assumptions: &["the local storage works while the page loads and while the drive is mounted"],
        sections,
    }
}

/// The format in which programs are kept, which must not change for the programs of today to last.
#[derive(serde::Serialize, serde::Deserialize)]
struct Entry {
    version: u16,
    content: Vec<u8>,
    mtime: OffsetDateTime,
}

const PREFIX: &str = "endbasic-program:";

fn entry(content: &str, secs: i64) -> String {
    serde_json::to_string(&Entry {
        version: 1,
        content: content.as_bytes().to_vec(),
        mtime: OffsetDateTime::from_unix_timestamp(secs).unwrap(),
    })
    .unwrap()
}

const EPOCH: i64 = 1_700_000_000;

type Stored = Vec<(String, String)>;

fn contents() -> Vec<(&'static str, Stored)> {
    let f = |name: &str, content: &str, secs: i64| (format!("{}{}", PREFIX, name), entry(content, secs));
    vec![
        ("empty", vec![]),
        ("one", vec![f("A.BAS", "PRINT 1\n", EPOCH - 86_400)]),
        (
            "several",
            vec![
                f("B.BAS", "PRINT \"é\"\n", EPOCH - 1),
                f("A.BAS", "PRINT 1\n", 0),
                f("MY FILE.BAS", "", 951_826_154),
            ],
        ),
        (
            "foreign",
            vec![
                ("other".to_owned(), "x".to_owned()),
                f("A.BAS", "PRINT 1\n", 5),
                ("a.bas".to_owned(), "y".to_owned()),
                (PREFIX.to_owned(), "z".to_owned()),
                (format!("{}NOTES.TXT", PREFIX), "t".to_owned()),
                ("xendbasic-program:C.BAS".to_owned(), "w".to_owned()),
            ],
        ),
        ("old name", vec![f("a.bas", "PRINT 1\n", 77)]),
        (
            "old names",
            vec![
                f("a.bas", "PRINT 1\n", 77),
                f("b.bas", "PRINT 2\n", 78),
                ("zz".to_owned(), "q".to_owned()),
                f("Cc.Bas", "PRINT 3\n", 79),
                f("d.BAS", "PRINT 4\n", 80),
                f("E.BAS", "PRINT 5\n", 81),
            ],
        ),
        ("autoexec", vec![f("AUTOEXEC.BAS", "PRINT \"auto\"\n", 3), f("A.BAS", "PRINT 1\n", 4)]),
        ("autoexec in lower case", vec![f("A.BAS", "PRINT 1\n", 4), f("autoexec.bas", "PRINT \"auto\"\n", 3)]),
    ]
}

/// What is in the drive for what is in the storage: the files whose names end in .BAS.
fn files_of(s: &Stored) -> Result<Files, String> {
    let mut out = BTreeMap::new();
    for (k, v) in s {
        let Some(name) = k.strip_prefix(PREFIX) else { continue };
        if !name.to_ascii_uppercase().ends_with(".BAS") {
            continue;
        }
        let e: Entry = serde_json::from_str(v).map_err(|e| format!("{}: {}", k, e))?;
        if e.version != 1 {
            return Err(format!("{}: version {}", k, e.version));
        }
        out.insert(name.to_ascii_uppercase(), (e.content, e.mtime.unix_timestamp()));
    }
    Ok(out)
}

fn foreign(s: &Stored) -> BTreeMap<String, String> {
    s.iter()
        .filter(|(k, _)| !k.starts_with(PREFIX) || !k.to_ascii_uppercase().ends_with(".BAS"))
        .cloned()
        .collect()
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Cmd(&'static str),
    Edit(&'static str),
    Reload,
    Later,
}

const OPS: [Op; 22] = [
    Op::Cmd("DIR"),
    Op::Cmd("LOAD \"a\""),
    Op::Cmd("LOAD \"B.bas\""),
    Op::Cmd("LIST"),
    Op::Cmd("SAVE"),
    Op::Cmd("SAVE \"a\""),
    Op::Cmd("SAVE \"Other.Bas\""),
    Op::Cmd("KILL \"A.bas\""),
    Op::Cmd("KILL \"other.bas\""),
    Op::Cmd("COPY \"a.bas\", \"b.bas\""),
    Op::Cmd("COPY \"demos:/hello.bas\", \"A.BAS\""),
    Op::Cmd("COPY \"a.bas\", \"b.txt\""),
    Op::Cmd("COPY \"a.bas\", \"b\""),
    Op::Cmd("LOAD \"b.txt\""),
    Op::Cmd("KILL \"b.txt\""),
    Op::Cmd("KILL \"b\""),
    Op::Cmd("NEW"),
    Op::Cmd("RUN"),
    Op::Cmd("MOUNT \"local://\" AS \"two\": DIR \"two:\""),
    Op::Edit("PRINT \"new\"\n"),
    Op::Reload,
    Op::Later,
];

const ORDERS: [Order; 3] = [Order::Insertion, Order::Sorted, Order::Newest];

/// Minutes that UTC is ahead.
const ZONES: [f64; 3] = [0.0, -330.0, 210.0];

const W: usize = 480;
const H: usize = 160;

fn sections(tier: Tier) -> Vec<Section> {
    let mut out = vec![];
    let hi = tier.pick(2, 3);
    let k = OPS.len() as u64;
    let n = seq_count(k, 0, hi);
    let nc = contents().len() as u64;
    let radices = [nc, n];
    let plan = move |idx: u64| -> (usize, usize, Vec<usize>) {
        let v = mixed(&radices, idx);
        let seq = seq_decode(k, 0, v[1] as u64);
        (v[0], (v[0] + v[1] + seq.iter().sum::<usize>()) % 3, seq)
    };
    out.push(Section::new(
        "histories",
        product(&radices),
        move |idx| {
            let (c, o, seq) = plan(idx);
            let seq: Vec<Op> = seq.iter().map(|i| OPS[*i]).collect();
            format!("from {:?} in order {:?}: {:?}", contents()[c].0, ORDERS[o], seq)
        },
        move |idx, cx| {
            let (c, o, seq) = plan(idx);
            history(c, o, ZONES[(idx % 3) as usize], &seq, cx)
        },
    ));

    let cmds: Vec<usize> = (0..OPS.len()).filter(|i| matches!(OPS[*i], Op::Cmd(c) if !c.starts_with("MOUNT"))).collect();
    let radices = [nc, cmds.len() as u64, tier.pick(12, 40)];
    let cmds2 = cmds.clone();
    out.push(Section::new(
        "failures",
        product(&radices),
        move |idx| {
            let v = mixed(&radices, idx);
            format!("from {:?}: {:?} with a failure of operation {}", contents()[v[0]].0, OPS[cmds2[v[1]]], v[2] + 1)
        },
        move |idx, cx| {
            let v = mixed(&radices, idx);
            failures(v[0], cmds[v[1]], v[2] + 1, cx)
        },
    ));

    out.push(Section::new(
        "many files",
        4 * ORDERS.len() as u64,
        |idx| format!("{} files in order {:?}", MANY[idx as usize / 3], ORDERS[idx as usize % 3]),
        |idx, cx| many(MANY[idx as usize / 3], ORDERS[idx as usize % 3], cx),
    ));
    let turn = tier.pick(3, 1);
    let radices = [3, 1 << NAMES.len(), NAMES.len() as u64 / turn];
    out.push(Section::new(
        "old names",
        product(&radices),
        move |idx| {
            let v = mixed(&radices, idx);
            format!("{:?} in order {:?}", pick(v[1], v[2] * turn as usize), ORDERS[v[0]])
        },
        move |idx, cx| {
            let v = mixed(&radices, idx);
            upgrade(ORDERS[v[0]], &pick(v[1], v[2] * turn as usize), cx)
        },
    ));
    out
}

const MANY: [usize; 4] = [40, 101, 129, 300];

/// Many files, and large ones.
fn many(n: usize, order: Order, cx: &mut Cx) -> CaseResult {
    let stored: Stored = (0..n)
        .map(|i| {
            let c = format!("' {}\n", i).repeat(if i == n / 2 { 20_000 } else { 1 + i % 5 });
            (format!("{}F{}.BAS", PREFIX, i * 7919 % 1000), entry(&c, EPOCH - i as i64 * 1000))
        })
        .collect();
    fake::reload(URL, false);
    fake::with(|w| {
        w.storage = stored.clone();
        w.order = order;
    });
    let epoch = (EPOCH as f64) * 1000.0;
    let mut p = visit(epoch, 0.0, &files_of(&stored).unwrap());
    p.same("at the start")?;
    let large = format!("F{}.BAS", n / 2 * 7919 % 1000);
    let cmds = ["DIR".to_owned(), format!("LOAD \"{}\"", large), "SAVE \"large\"".to_owned(), format!("KILL \"{}\"", large), "DIR".to_owned()];
    for c in cmds {
        p.line(&c);
        // The listing has many pages.
        for _ in 0..if c == "DIR" { 1 + n / 8 } else { 0 } {
            p.press(&Press::Char('\n'));
        }
        cx.step(1);
        p.same(&format!("after {}", c))?;
    }
    let now = fake::with(|w| w.storage.clone());
    let got = files_of(&now).map_err(|e| Failure::new("a stored file", e))?;
    if got != *p.r.files.borrow() || got.len() != n {
        return Err(Failure::new("many stored files", format!("{} of {}", got.len(), n)));
    }
    cx.traces += 1;
    cx.state(&(n, got.len()));
    Ok(())
}

const NAMES: [&str; 8] = [
    "endbasic-program:a.bas",
    "endbasic-program:A.BAS",
    "endbasic-program:A.bas",
    "endbasic-program:b.bas",
    "endbasic-program:B.BAS",
    "endbasic-program:zz z.Bas",
    "endbasic-program:NOTES.txt",
    "other.bas",
];

/// A set of names, from another one on.
fn pick(set: usize, from: usize) -> Vec<&'static str> {
    (0..NAMES.len()).map(|i| (i + from) % NAMES.len()).filter(|i| set & (1 << i) != 0).map(|i| NAMES[i]).collect()
}

/// Whatever the names of the files are, none of them is lost or hidden when the page loads.
fn upgrade(order: Order, names: &[&str], cx: &mut Cx) -> CaseResult {
    let stored: Stored =
        names.iter().enumerate().map(|(i, n)| (n.to_string(), entry(&format!("PRINT {}", i), EPOCH))).collect();
    fake::reload(URL, false);
    fake::with(|w| {
        w.storage = stored.clone();
        w.order = order;
    });
    for _ in 0..2 {
        let mut p = Page::open(W, 2 * H);
        p.settle(10_000);
        cx.step(1);
        let now = fake::with(|w| w.storage.clone());
        let values = |s: &Stored| {
            let mut v: Vec<String> = s.iter().map(|(_, v)| v.clone()).collect();
            v.sort();
            v
        };
        if values(&now) != values(&stored) {
            return Err(Failure::new("a file is lost", format!("{:?} instead of {:?}", now, stored)));
        }
        for (k, v) in &stored {
            let ours = k.starts_with(PREFIX) && k.to_ascii_uppercase().ends_with(".BAS");
            let alone = stored.iter().filter(|(o, _)| o.eq_ignore_ascii_case(k)).count() == 1;
            let name = if ours && alone { format!("{}{}", PREFIX, k[PREFIX.len()..].to_ascii_uppercase()) } else { k.clone() };
            if (alone || !ours) && !now.contains(&(name.clone(), v.clone())) {
                return Err(Failure::new("a name", format!("{} is not there: {:?}", name, now)));
            }
        }
        type_line(&mut p, "CLS: DIR");
        let text = read_text(W, 2 * H, &p.shot());
        for (k, _) in now.iter().filter(|(k, _)| k.starts_with(PREFIX) && k.to_ascii_uppercase().ends_with(".BAS")) {
            let name = &k[PREFIX.len()..];
            if !text.iter().any(|l| l.ends_with(&format!("  {}", name))) {
                return Err(Failure::new("DIR", format!("{} is not in {:?}", name, text)));
            }
        }
        drop(p);
        fake::reload(URL, true);
    }
    cx.state(&(order as usize, names.to_vec()));
    cx.traces += 1;
    Ok(())
}

fn visit(epoch: f64, tz: f64, files: &Files) -> Pair {
    Pair::open(W, H, files, epoch, tz)
}

fn history(c: usize, o: usize, tz: f64, seq: &[usize], cx: &mut Cx) -> CaseResult {
    let (_, stored) = contents().swap_remove(c);
    fake::reload(URL, false);
    fake::with(|w| {
        w.storage = stored.clone();
        w.order = ORDERS[o];
    });
    let mut epoch = (EPOCH as f64) * 1000.0 + 999.0;
    let mut files = files_of(&stored).unwrap();
    let mut p = visit(epoch, tz, &files);
    p.same("at the start")?;
    for i in seq {
        let op = OPS[*i];
        match op {
            Op::Cmd(c) => p.line(c),
            Op::Edit(text) => {
                p.line("EDIT");
                for c in text.chars() {
                    p.press(&Press::Char(c));
                }
                p.press(&Press::Escape);
            }
            Op::Later => {
                p.line("SLEEP 61.5");
            }
            Op::Reload => {
                files = p.r.files.borrow().clone();
                epoch += fake::now();
                drop(p);
                fake::reload(URL, true);
                p = visit(epoch, tz, &files);
            }
        }
        cx.step(1);
        p.same(&format!("after {:?}", op))?;
    }
    let now = fake::with(|w| w.storage.clone());
    let got = files_of(&now).map_err(|e| Failure::new("a stored file", e))?;
    let want = p.r.files.borrow().clone();
    if got != want {
        return Err(Failure::new("the stored files", format!("{:?} instead of {:?}", got, want)));
    }
    if foreign(&now) != foreign(&stored) {
        return Err(Failure::new("what others stored", format!("{:?} instead of {:?}", foreign(&now), foreign(&stored))));
    }
    for (k, _) in &now {
        if let Some(n) = k.strip_prefix(PREFIX)
            && n.to_ascii_uppercase().ends_with(".BAS")
            && n != n.to_ascii_uppercase()
        {
            return Err(Failure::new("an old name", k.clone()));
        }
    }
    cx.state(&(c, o, got));
    cx.traces += 1;
    Ok(())
}

/// Runs a program in the page that has all the keys as a person would press them.
fn type_line(p: &mut Page, text: &str) {
    p.type_in(text);
    p.type_in("\n");
    p.settle(10_000);
}

fn failures(c: usize, op: usize, nth: usize, cx: &mut Cx) -> CaseResult {
    let Op::Cmd(cmd) = OPS[op] else { unreachable!() };
    let (_, stored) = contents().swap_remove(c);
    fake::reload(URL, false);
    js_sys::EPOCH_MS.set(EPOCH as f64 * 1000.0);
    js_sys::TZ_MIN.set(0.0);
    fake::with(|w| {
        w.storage = stored.clone();
        w.order = Order::Insertion;
    });
    let mut p = Page::open(W, H);
    p.settle(10_000);
    type_line(&mut p, "LOAD \"a\"");
    type_line(&mut p, "PRINT \"first\"");
    let before = fake::with(|w| {
        w.storage_fault = Some(w.storage_ops + nth);
        w.storage.clone()
    });
    type_line(&mut p, "CLS");
    type_line(&mut p, cmd);
    cx.step(1);
    let (hit, after) = fake::with(|w| {
        w.storage_fault = None;
        (w.storage_fault_hit.take(), w.storage.clone())
    });
    let Some(hit) = hit else {
        cx.trivial += 1;
        return Ok(());
    };
    if p.over {
        return Err(Failure::new("the session ended", cmd.to_owned()));
    }
    let text = read_text(W, H, &p.shot());
    let lines: Vec<&String> = text.iter().filter(|l| !l.is_empty()).collect();
    // A failed operation is never silent, except for the question of whether a file exists.
    let told = lines.iter().any(|l| l.contains("QuotaExceeded") || l.contains("Failed") || l.contains("ERROR"));
    if !told && !(hit == "get" && cmd.starts_with("KILL")) {
        return Err(Failure::new("a silent failure", format!("{} on {}: {:?}", cmd, hit, lines)));
    }
    // The files other than the one that the command changes are as they were.
    let target = match cmd {
        "SAVE" | "SAVE \"a\"" | "KILL \"A.bas\"" | "COPY \"demos:/hello.bas\", \"A.BAS\"" => "A.BAS",
        "SAVE \"Other.Bas\"" | "KILL \"other.bas\"" => "OTHER.BAS",
        "COPY \"a.bas\", \"b.bas\"" => "B.BAS",
        _ => "",
    };
    let keep = |s: &Stored| -> BTreeMap<String, String> {
        s.iter().filter(|(k, _)| *k != format!("{}{}", PREFIX, target)).cloned().collect()
    };
    if keep(&before) != keep(&after) {
        return Err(Failure::new("another file", format!("{} with a failure of {}", cmd, hit)));
    }
    // The file itself is the old one, the new one or (if it was being removed) none.
    let files = files_of(&after).map_err(|e| Failure::new("a stored file", e))?;
    let old = files_of(&before).unwrap();
    if !target.is_empty() && files.get(target) != old.get(target) && !cmd.starts_with("KILL") {
        return Err(Failure::new("the file", format!("{} with a failure of {}: {:?}", cmd, hit, files.get(target))));
    }
    // And the page goes on.
    type_line(&mut p, "CLS");
    type_line(&mut p, "PRINT 6 * 7");
    let text = read_text(W, H, &p.shot());
    if !text.iter().any(|l| l == " 42") {
        return Err(Failure::new("the page does not go on", format!("{} with a failure of {}: {:?}", cmd, hit, text)));
    }
    cx.state(&(c, op, nth));
    cx.traces += 1;
    Ok(())
}
