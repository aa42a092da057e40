//! C06: console, graphics and sound commands do exactly what they are given, or nothing.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::machx::{Mach, Opts, Outcome};
use crate::scr::Ev;
use endbasic_std::console::{Console, Key};
use std::cell::RefCell;
use std::fmt::Write;
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "Arguments: every command of colors, positions and shapes with all tuples of boundary values (19 values for \
               up to two arguments, 8 for four, 5 (thorough: 7) for six), on consoles with and without graphics. Counts: \
               every command with 0 to 8 arguments separated in all ways and all gaps. Polygons: lists of up to 260 \
               coordinates, arrays of every type and of all shapes up to rank 3 and length 5, arrays of every length up to 620, each coordinate out \
               of range. Names of other things where arrays are needed. LOCATE: all positions on and around consoles of 40 sizes. INKEY: all keys and all code \
               points up to 0x3000, and all sequences of up to 4 (thorough: 6) polls. Sizes: all console sizes up to \
               70 and limits. Sound: 20 pitches by 30 durations. Sequences of up to 4 (thorough: 5) of 12 commands, \
               checked against a model of the console's state.",
        assumptions: &[],
        sections,
    }
}

/// A value as written and what it is as an integer.
#[derive(Clone, Copy, Debug)]
enum A {
    Int(i32),
    /// Overflows when converted.
    Over,
    /// Not a number at all.
    Not,
}

const VALUES: [(&str, A); 19] = [
    ("-2147483647", A::Int(-2147483647)),
    ("-65536", A::Int(-65536)),
    ("-32769", A::Int(-32769)),
    ("-32768", A::Int(-32768)),
    ("-1", A::Int(-1)),
    ("0", A::Int(0)),
    ("5", A::Int(5)),
    ("32767", A::Int(32767)),
    ("32768", A::Int(32768)),
    ("65535", A::Int(65535)),
    ("65536", A::Int(65536)),
    ("2147483647", A::Int(2147483647)),
    ("2.4", A::Int(2)),
    ("-0.5", A::Int(-1)),
    ("32767.4", A::Int(32767)),
    ("32767.5", A::Int(32768)),
    ("10000000000.0", A::Over),
    ("\"a\"", A::Not),
    ("TRUE", A::Not),
];

const EIGHT: [usize; 8] = [2, 3, 5, 6, 7, 8, 13, 17];
const SEVEN: [usize; 7] = [3, 4, 5, 6, 7, 8, 2];

#[derive(Clone, Copy)]
struct Command {
    name: &'static str,
    event: &'static str,
    args: usize,
    /// Whether the last one is a radius.
    radius: bool,
}

const fn cmd(name: &'static str, event: &'static str, args: usize, radius: bool) -> Command {
    Command { name, event, args, radius }
}

const SHAPES: [Command; 9] = [
    cmd("GFX_PIXEL", "pixel", 2, false),
    cmd("GFX_FILL", "fill", 2, false),
    cmd("GFX_CIRCLE", "circle", 3, true),
    cmd("GFX_CIRCLEF", "circlef", 3, true),
    cmd("GFX_LINE", "line", 4, false),
    cmd("GFX_RECT", "rect", 4, false),
    cmd("GFX_RECTF", "rectf", 4, false),
    cmd("GFX_TRI", "tri", 6, false),
    cmd("GFX_TRIF", "trif", 6, false),
];

fn expect(c: &Command, args: &[A]) -> Option<String> {
    let mut s = c.event.to_owned();
    for (i, a) in args.iter().enumerate() {
        let A::Int(v) = a else { return None };
        let radius = c.radius && i + 1 == args.len();
        let ok = if radius { (0..=65535).contains(v) } else { (-32768..=32767).contains(v) };
        if !ok {
            return None;
        }
        let _ = write!(s, "{}{}", if i % 2 == 1 { ',' } else { ' ' }, v);
    }
    Some(s)
}

thread_local! {
    static GFX: RefCell<Option<Mach>> = const { RefCell::new(None) };
    static PLAIN: RefCell<Option<Mach>> = const { RefCell::new(None) };
}

fn machine(gfx: bool) -> Mach {
    let m = Mach::scripting(Opts { size: (10, 6), interactive: true, max_out: 0 });
    if gfx {
        m.con.borrow_mut().size_pixels = Some((300, 200));
    }
    m
}

/// Runs on a machine that is kept while it works.
fn with<T>(gfx: bool, f: impl FnOnce(&mut Mach) -> T) -> T {
    let slot = if gfx { &GFX } else { &PLAIN };
    slot.with(|s| {
        let mut m = s.borrow_mut().take().unwrap_or_else(|| machine(gfx));
        m.m.clear();
        m.con.borrow_mut().log.clear();
        m.con.borrow_mut().bad.clear();
        m.env.reset(&[], 100_000);
        let r = f(&mut m);
        *s.borrow_mut() = Some(m);
        r
    })
}

fn draws(m: &Mach) -> Vec<String> {
    let mut v = vec![];
    for e in std::mem::take(&mut m.con.borrow_mut().log) {
        match e {
            Ev::Draw(s) => v.push(s),
            Ev::Color(..) => (),
            e => v.push(format!("{:?}", e)),
        }
    }
    v
}

/// Runs a statement and compares the shapes drawn; None when it has to fail.
fn shape(key: &str, text: &str, gfx: bool, want: Option<String>, cx: &mut Cx) -> CaseResult {
    let (r, got) = with(gfx, |m| {
        let r = m.feed(text);
        (r, draws(m))
    });
    cx.step(1);
    cx.traces += 1;
    cx.state(&(&got, want.is_some()));
    let want = want.filter(|_| gfx);
    let ok = matches!(r, Outcome::Done(None));
    if ok != want.is_some() || got != want.iter().cloned().collect::<Vec<_>>() {
        return Err(Failure::new(
            format!("{}: {}{}", key, text, if gfx { "" } else { " without graphics" }),
            format!("{:?} drawing {:?}, not {:?}", r, got, want),
        ));
    }
    Ok(())
}

fn arguments(tier: Tier) -> Section {
    let mut starts = vec![];
    let mut total = 0u64;
    for c in SHAPES {
        starts.push(total);
        let k = values(c.args, tier).len() as u64;
        total += k.pow(c.args as u32) * 2;
    }
    let find = move |i: u64| -> (Command, bool, Vec<usize>) {
        let n = starts.iter().rposition(|s| *s <= i).unwrap();
        let c = SHAPES[n];
        let v = values(c.args, tier);
        let i = i - starts[n];
        let mut j = i / 2;
        let mut a = vec![];
        for _ in 0..c.args {
            a.push(v[(j % v.len() as u64) as usize]);
            j /= v.len() as u64;
        }
        (c, i % 2 == 0, a)
    };
    let text = |c: &Command, a: &[usize]| {
        format!("{} {}", c.name, a.iter().map(|i| VALUES[*i].0).collect::<Vec<_>>().join(", "))
    };
    let find2 = find.clone();
    Section::new(
        "arguments",
        total,
        move |i| {
            let (c, g, a) = find(i);
            format!("{} {}", text(&c, &a), g)
        },
        move |i, cx| {
            let (c, g, a) = find2(i);
            let vals: Vec<A> = a.iter().map(|i| VALUES[*i].1).collect();
            shape("arguments", &text(&c, &a), g, expect(&c, &vals), cx)
        },
    )
}

fn values(args: usize, tier: Tier) -> Vec<usize> {
    match args {
        0..=2 => (0..VALUES.len()).collect(),
        3 => (0..VALUES.len()).collect(),
        4 => EIGHT.to_vec(),
        _ => SEVEN[..tier.pick(5, 7)].to_vec(),
    }
}

/// Commands and the numbers of arguments they take, of type integer unless noted.
const COUNTS: [(&str, &[usize], &str); 17] = [
    ("GFX_PIXEL", &[2], "1"),
    ("GFX_FILL", &[2], "1"),
    ("GFX_CIRCLE", &[3], "1"),
    ("GFX_CIRCLEF", &[3], "1"),
    ("GFX_LINE", &[4], "1"),
    ("GFX_RECT", &[4], "1"),
    ("GFX_RECTF", &[4], "1"),
    ("GFX_TRI", &[6], "1"),
    ("GFX_TRIF", &[6], "1"),
    ("GFX_POLY", &[0, 2, 4, 6, 8], "1"),
    ("GFX_POLYF", &[0, 2, 4, 6, 8], "1"),
    ("GFX_SYNC", &[0, 1], "TRUE"),
    ("COLOR", &[0, 1, 2], "1"),
    ("LOCATE", &[2], "1"),
    ("CLS", &[0], "1"),
    ("BEEP", &[0], "1"),
    ("SOUND", &[2], "1"),
];

/// Texts of up to 8 places that hold a value or nothing, separated in some way.
fn counts() -> Section {
    let r = [COUNTS.len() as u64, 9, 3, 1 << 8];
    let make = move |i: u64| -> Option<(String, bool)> {
        let d = mixed(&r, i);
        let (name, ok, val) = COUNTS[d[0]];
        let n = d[1];
        if d[3] >> n != 0 {
            return None;
        }
        let gaps = d[3];
        let sep = [",", ";", " AS "][d[2]];
        let places: Vec<&str> = (0..n).map(|j| if gaps >> j & 1 == 1 { "" } else { val }).collect();
        let text = format!("{} {}", name, places.join(sep));
        let fits = if d[2] > 0 && n > 1 {
            false
        } else if gaps == 0 {
            ok.contains(&n)
        } else if n == 1 {
            // No text at all.
            ok.contains(&0)
        } else {
            name == "COLOR" && n == 2
        };
        Some((text, fits))
    };
    Section::new(
        "counts",
        product(&r),
        move |i| format!("{:?}", make(i)),
        move |i, cx| {
            let Some((text, fits)) = make(i) else {
                cx.trivial += 1;
                return Ok(());
            };
            let (r, n) = with(true, |m| {
                let r = m.feed(&text);
                m.con.borrow_mut().show_cursor().unwrap();
                let n = m.con.borrow().log.len();
                (r, n)
            });
            cx.step(1);
            cx.traces += 1;
            cx.state(&(&text, fits));
            if matches!(r, Outcome::Done(None)) != fits || (!fits && n > 1) {
                return Err(Failure::new(
                    format!("counts: {}", text),
                    format!("{:?}, which should {}", r, if fits { "be accepted" } else { "be rejected" }),
                ));
            }
            Ok(())
        },
    )
}

/// Polygons given as lists of coordinates.
fn lists() -> Section {
    let r = [2, 262, 3];
    Section::new(
        "lists",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let (name, ev) = [("GFX_POLY", "poly"), ("GFX_POLYF", "polyf")][d[0]];
            let n = d[1];
            if n == 1 {
                // An expression, which is neither a list nor an array.
                return Ok(());
            }
            let mut v: Vec<i32> = (0..n as i32).map(|x| x * 7 - 50).collect();
            if d[2] > 0 && n > 0 {
                let at = if d[2] == 1 { n - 1 } else { n / 2 };
                v[at] = if d[2] == 1 { 32768 } else { -32769 };
            }
            let text = format!("{} {}", name, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
            let ok = n % 2 == 0 && v.iter().all(|x| (-32768..=32767).contains(x));
            let want = format!("{} {:?}", ev, v.chunks(2).map(|c| (c[0], *c.get(1).unwrap_or(&0))).collect::<Vec<_>>());
            // More arguments than any call can take may be refused.
            if n > 100 && ok {
                let r = with(true, |m| (m.feed(&text), draws(m)));
                cx.step(1);
                return match r {
                    (Outcome::Compile(_) | Outcome::Err(_), d) if d.is_empty() => Ok(()),
                    (Outcome::Done(None), d) if d == vec![want] => Ok(()),
                    (r, d) => Err(Failure::new(format!("lists: {} {}", name, n), format!("{:?} {:?}", r, d))),
                };
            }
            shape("lists", &text, true, ok.then_some(want), cx)
        },
    )
}

/// Polygons given as arrays.
fn arrays() -> Section {
    // Command, type, rank, dimensions, which element is out of range (or none), who owns the array.
    let r = [2, 4, 3, 8, 5, 3, 9, 3];
    Section::new(
        "arrays",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let (name, ev) = [("GFX_POLY", "poly"), ("GFX_POLYF", "polyf")][d[0]];
            let ty = ["INTEGER", "DOUBLE", "STRING", "BOOLEAN"][d[1]];
            let dims: Vec<i32> = [d[3] as i32 + 1, d[4] as i32 + 1, d[5] as i32 + 1][..d[2] + 1].to_vec();
            let unused = match d[2] {
                0 => d[4] > 0 || d[5] > 0,
                1 => d[5] > 0,
                _ => d[3] > 2 || d[4] > 2,
            };
            let size: i32 = dims.iter().product();
            if unused || (d[1] > 0 && (d[6] > 0 || d[7] > 0)) || (d[6] > 0 && (d[6] as i32 > size || d[2] == 2)) {
                cx.trivial += 1;
                return Ok(());
            }
            let shared = d[7] == 1;
            let mut text = format!(
                "DIM {}a({}) AS {}\n",
                if shared { "SHARED " } else { "" },
                dims.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "),
                ty
            );
            let mut points = vec![];
            if d[1] == 0 && d[2] < 2 {
                for j in 0..size {
                    let v = if d[6] as i32 == j + 1 { [40000, -40000][j as usize % 2] } else { j * 3 - 4 };
                    let ix = if d[2] == 0 { j.to_string() } else { format!("{}, {}", j / dims[1], j % dims[1]) };
                    let _ = writeln!(text, "a({}) = {}", ix, v);
                    points.push(v);
                }
            }
            match d[7] {
                1 => {
                    let _ = writeln!(text, "SUB s\n{} a\nEND SUB\ns", name);
                }
                2 => {
                    let _ = writeln!(text, "IF TRUE THEN\n{} A\nEND IF", name);
                }
                _ => {
                    let _ = writeln!(text, "{} a", name);
                }
            }
            let ok = d[1] == 0
                && d[6] == 0
                && match d[2] {
                    0 => dims[0] % 2 == 0,
                    1 => dims[1] == 2,
                    _ => false,
                };
            let want = format!("{} {:?}", ev, points.chunks(2).map(|c| (c[0], *c.get(1).unwrap_or(&0))).collect::<Vec<_>>());
            shape("arrays", &text, true, ok.then_some(want), cx)
        },
    )
}

/// Names of things other than arrays given where an array is needed.
fn not_arrays() -> Section {
    const COMMANDS: [&str; 6] =
        ["GFX_POLY #", "GFX_POLYF #", "OUT LBOUND(#)", "OUT UBOUND(#)", "OUT LBOUND(#, 1)", "OUT UBOUND(#, 1)"];
    const SETUP: [(&str, &str); 12] = [
        ("", "n"),
        ("", "n%"),
        ("", "n#"),
        ("", "n$"),
        ("", "n?"),
        ("n = 5", "n"),
        ("n = \"x\"", "n"),
        ("DIM SHARED n AS BOOLEAN", "n"),
        ("FUNCTION n\nn = 3\nEND FUNCTION", "n"),
        ("SUB n\nEND SUB", "n"),
        ("DIM n(4) AS INTEGER", "n$"),
        ("DIM n(4) AS INTEGER", "n(1)"),
    ];
    const PLACES: [&str; 4] = ["%", "IF TRUE THEN\n%\nEND IF", "SUB s\n%\nEND SUB\ns", "ON ERROR RESUME NEXT\n%"];
    let r = [COMMANDS.len() as u64, SETUP.len() as u64, PLACES.len() as u64];
    let make = move |i: u64| -> String {
        let d = mixed(&r, i);
        let line = PLACES[d[2]].replace('%', &COMMANDS[d[0]].replace('#', SETUP[d[1]].1));
        format!("{}\n{}\n", SETUP[d[1]].0, line)
    };
    Section::new("not arrays", product(&r), make, move |i, cx| {
        let text = make(i);
        let (r, d, next) = with(true, |m| {
            let r = m.feed(&text);
            // Nothing is left behind by the program that was not accepted.
            (r, draws(m), m.feed("OUT n%"))
        });
        cx.step(2);
        cx.traces += 1;
        cx.state(&text);
        if !matches!(r, Outcome::Compile(_)) || !d.is_empty() || !matches!(next, Outcome::Compile(_)) {
            return Err(Failure::new(format!("not arrays: {}", text), format!("{:?} {:?}, and then {:?}", r, d, next)));
        }
        Ok(())
    })
}

/// Polygons of every number of points.
fn long_arrays() -> Section {
    let r = [2, 2, 620];
    Section::new(
        "long arrays",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let (name, ev) = [("GFX_POLY", "poly"), ("GFX_POLYF", "polyf")][d[0]];
            let n = d[2] as i32 + 1;
            let size = if d[1] == 0 { n } else { n * 2 };
            let text = if d[1] == 0 {
                format!("DIM a({}) AS INTEGER\nFOR i = 0 TO {}\na(i) = i * 7 - 2000\nNEXT\n{} a\n", n, n - 1, name)
            } else {
                format!(
                    "DIM a({}, 2) AS INTEGER\nFOR i = 0 TO {}\na(i, 0) = i * 14 - 2000\na(i, 1) = i * 14 - 1993\nNEXT\n{} a\n",
                    n,
                    n - 1,
                    name
                )
            };
            let points: Vec<i32> = (0..size).map(|i| i * 7 - 2000).collect();
            let want = format!("{} {:?}", ev, points.chunks(2).map(|c| (c[0], *c.get(1).unwrap_or(&0))).collect::<Vec<_>>());
            shape("long arrays", &text, true, (size % 2 == 0).then_some(want), cx)
        },
    )
}

/// Every position on and around consoles.
fn locate() -> Section {
    const SIZES: [(usize, usize); 40] = {
        let mut s = [(0, 0); 40];
        let mut i = 0;
        while i < 40 {
            s[i] = (i % 8 + 1, i / 8 + 1);
            i += 1;
        }
        s
    };
    const OFF: [&str; 6] = ["-2147483647", "-32768", "32767", "65535", "65536", "2147483647"];
    let r = [SIZES.len() as u64, 18, 18];
    let arg = |d: usize| -> (String, Option<usize>) {
        match d {
            0..12 => ((d as i32 - 2).to_string(), d.checked_sub(2)),
            _ => (OFF[d - 12].to_owned(), None),
        }
    };
    Section::new(
        "locate",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let size = SIZES[d[0]];
            let ((x, vx), (y, vy)) = (arg(d[1]), arg(d[2]));
            let text = format!("LOCATE {}, {}", x, y);
            let mut m = Mach::scripting(Opts { size, interactive: true, max_out: 0 });
            m.con.borrow_mut().x = size.0 - 1;
            let r = m.feed(&text);
            cx.step(1);
            cx.traces += 1;
            let want = match (vx, vy) {
                (Some(x), Some(y)) if x < size.0 && y < size.1 => Some((x, y)),
                _ => None,
            };
            let c = m.con.borrow();
            cx.state(&(size, c.x, c.y));
            if matches!(r, Outcome::Done(None)) != want.is_some()
                || (c.x, c.y) != want.unwrap_or((size.0 - 1, 0))
                || !c.bad.is_empty()
            {
                return Err(Failure::new(
                    format!("locate: {} on {:?}", text, size),
                    format!("{:?} with the cursor at {:?}, not {:?}; {:?}", r, (c.x, c.y), want, c.bad),
                ));
            }
            Ok(())
        },
    )
}

/// All numbers of colors in all forms.
fn colors() -> Section {
    const FORMS: [&str; 7] = ["COLOR", "COLOR a", "COLOR a, b", "COLOR , b", "COLOR a,", "COLOR ,", "COLOR a, a"];
    const NUMS: [i32; 13] = [-2147483647, -256, -1, 0, 1, 7, 15, 127, 128, 255, 256, 257, 2147483647];
    let r = [FORMS.len() as u64, 300 + NUMS.len() as u64, NUMS.len() as u64];
    Section::new(
        "colors",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let a = if d[1] < 300 { d[1] as i32 - 20 } else { NUMS[d[1] - 300] };
            let b = NUMS[d[2]];
            let text = FORMS[d[0]].replace('a', &a.to_string()).replace('b', &b.to_string());
            let ok = |v: i32| (0..=255).contains(&v);
            let want = match d[0] {
                0 | 5 => Some((None, None)),
                1 | 4 => ok(a).then_some((Some(a as u8), None)),
                2 => (ok(a) && ok(b)).then_some((Some(a as u8), Some(b as u8))),
                3 => ok(b).then_some((None, Some(b as u8))),
                _ => ok(a).then_some((Some(a as u8), Some(a as u8))),
            };
            let (r, got) = with(false, |m| {
                m.con.borrow_mut().set_color(Some(3), Some(4)).unwrap();
                let r = m.feed(&text);
                let c = m.con.borrow().color();
                (r, c)
            });
            cx.step(1);
            cx.traces += 1;
            cx.state(&got);
            if matches!(r, Outcome::Done(None)) != want.is_some() || got != want.unwrap_or((Some(3), Some(4))) {
                return Err(Failure::new(
                    format!("colors: {}", text),
                    format!("{:?} and colors {:?}, not {:?}", r, got, want),
                ));
            }
            Ok(())
        },
    )
}

fn named() -> Vec<(Key, String)> {
    [
        (Key::ArrowDown, "DOWN"),
        (Key::ArrowLeft, "LEFT"),
        (Key::ArrowRight, "RIGHT"),
        (Key::ArrowUp, "UP"),
        (Key::Backspace, "BS"),
        (Key::CarriageReturn, "ENTER"),
        (Key::NewLine, "ENTER"),
        (Key::Delete, "DEL"),
        (Key::End, "END"),
        (Key::EofOrDelete, "EOF"),
        (Key::Escape, "ESC"),
        (Key::Home, "HOME"),
        (Key::PageDown, "PGDOWN"),
        (Key::PageUp, "PGUP"),
        (Key::Tab, "TAB"),
        (Key::Char('a'), "a"),
        (Key::Char('A'), "A"),
        (Key::Char(' '), " "),
        (Key::Char('\u{1f600}'), "\u{1f600}"),
    ]
    .into_iter()
    .map(|(k, n)| (k, n.to_owned()))
    .collect()
}

/// The names of the keys.
fn inkey(tier: Tier) -> Section {
    let n = named().len() as u64;
    let chars = tier.pick(0x3000, 0x110000);
    Section::new(
        "inkey",
        n + chars,
        move |i| format!("key {}", i),
        move |i, cx| {
            let (k, name) = if i < n {
                named()[i as usize].clone()
            } else {
                match char::from_u32((i - n) as u32) {
                    Some(c) if !c.is_control() => (Key::Char(c), c.to_string()),
                    _ => return Ok(()),
                }
            };
            let (r, got) = with(false, |m| {
                m.con.borrow_mut().keys = [k.clone()].into_iter().collect();
                let r = m.feed("OUT INKEY\nOUT INKEY");
                (r, m.out())
            });
            cx.step(1);
            cx.traces += 1;
            cx.state(&got);
            let want = vec![format!("{}$", name), "$".to_owned()];
            if r != Outcome::Done(None) || got != want {
                return Err(Failure::new(format!("inkey: {:?}", k), format!("{:?} {:?}, not {:?}", r, got, want)));
            }
            Ok(())
        },
    )
}

/// All sequences of keys that arrive between polls.
fn polls(tier: Tier) -> Section {
    // What happens before each poll: 0 to 2 keys arrive.
    let max = tier.pick(5, 7);
    Section::new(
        "polls",
        seq_count(4, 1, max),
        move |i| format!("{:?}", seq_decode(4, 1, i)),
        move |i, cx| {
            let seq = seq_decode(4, 1, i);
            let keys = [Key::Char('q'), Key::ArrowUp, Key::Tab];
            let names = ["q$", "UP$", "TAB$"];
            let (mut queue, mut next, mut want, mut got) = (std::collections::VecDeque::new(), 0, vec![], vec![]);
            let e = with(false, |m| {
                m.con.borrow_mut().keys.clear();
                for s in &seq {
                    let new = if *s == 3 { 0 } else { *s };
                    for _ in 0..new {
                        m.con.borrow_mut().keys.push_back(keys[next % 3].clone());
                        queue.push_back(names[next % 3].to_owned());
                        next += 1;
                    }
                    // Polls from a loop or from an expression.
                    let r = if *s == 3 { m.feed("OUT INKEY$ + INKEY$") } else { m.feed("OUT INKEY") };
                    if r != Outcome::Done(None) {
                        return Some(r);
                    }
                    let mut one = || queue.pop_front().unwrap_or("$".to_owned());
                    want.push(if *s == 3 {
                        let (a, b) = (one(), one());
                        format!("{}{}", a.trim_end_matches('$'), b)
                    } else {
                        one()
                    });
                    got.extend(m.out());
                }
                None
            });
            cx.step(seq.len() as u64);
            cx.traces += 1;
            cx.state(&got);
            if e.is_some() || got != want {
                return Err(Failure::new(format!("polls: {:?}", seq), format!("{:?} {:?}, not {:?}", e, got, want)));
            }
            Ok(())
        },
    )
}

/// What is told about the size.
fn sizes() -> Section {
    const PX: [u16; 8] = [1, 2, 255, 256, 32767, 32768, 65534, 65535];
    Section::new(
        "sizes",
        70 * 70 + 64,
        |i| format!("size {}", i),
        |i, cx| {
            let (px, size) = if i < 4900 {
                (None, ((i % 70 + 1) as usize, (i / 70 + 1) as usize))
            } else {
                let j = (i - 4900) as usize;
                (Some((PX[j % 8], PX[j / 8])), (80, 24))
            };
            let mut m = Mach::scripting(Opts { size, interactive: true, max_out: 0 });
            m.con.borrow_mut().size_pixels = px;
            let r = m.feed("OUT SCRCOLS\nOUT SCRROWS");
            let r2 = m.feed("OUT GFX_WIDTH\nOUT GFX_HEIGHT");
            let got = m.out().join(" ");
            cx.step(2);
            cx.traces += 1;
            cx.state(&(size, px));
            let mut want = format!("{}% {}%", size.0, size.1);
            if let Some((w, h)) = px {
                let _ = write!(want, " {}% {}%", w, h);
            }
            if r != Outcome::Done(None) || (r2 == Outcome::Done(None)) != px.is_some() || got != want {
                return Err(Failure::new(
                    format!("sizes: {:?} {:?}", size, px),
                    format!("{:?} {:?} {:?}, not {:?}", r, r2, got, want),
                ));
            }
            Ok(())
        },
    )
}

/// Tones.
fn sound() -> Section {
    const PITCH: [&str; 20] = [
        "-2147483647", "-800", "-1", "0", "1", "2", "20", "440", "800", "65535", "65536", "2147483646", "2147483647",
        "0.4", "0.5", "440.6", "-0.4", "10000000000.0", "\"a\"", "FALSE",
    ];
    const TIME: [&str; 30] = [
        "-1", "-0.000001", "-big", "0", "0.0", "-0.0", "1", "2", "0.25", "0.001", "0.000000001", "0.0000000001",
        "3600.5", "1000000", "2147483647", "1000000000000.0", "10000000000000000.0", "18446744073709551615.0",
        "18446744073709553000.0", "18446744073709549568.0", "1000000000000000000000.0", "big", "inf", "-inf", "nan",
        "\"a\"", "TRUE", "0.5", "1.999999999", "0.1",
    ];
    let r = [PITCH.len() as u64, TIME.len() as u64];
    Section::new(
        "sound",
        product(&r) + 1,
        move |i| format!("sound {}", i),
        move |i, cx| {
            let (text, want) = if i == product(&r) {
                ("BEEP".to_owned(), Some((800, Duration::from_millis(250))))
            } else {
                let d = mixed(&r, i);
                let (p, t) = (PITCH[d[0]], TIME[d[1]]);
                let big = f64::MAX;
                let pv = match p {
                    "\"a\"" | "FALSE" | "10000000000.0" => None,
                    p => Some(p.parse::<f64>().unwrap().round() as i64),
                };
                let tv = match t {
                    "\"a\"" | "TRUE" => None,
                    "big" => Some(big),
                    "-big" => Some(-big),
                    "inf" => Some(f64::INFINITY),
                    "-inf" => Some(f64::NEG_INFINITY),
                    "nan" => Some(f64::NAN),
                    t => Some(t.parse::<f64>().unwrap()),
                };
                let want = match (pv, tv) {
                    (Some(p), Some(t)) if p > 0 => Duration::try_from_secs_f64(t).ok().map(|t| (p, t)),
                    _ => None,
                };
                let mut pre = String::new();
                if t.contains("big") || t.contains("inf") || t.contains("nan") {
                    let _ = writeln!(pre, "DIM big AS DOUBLE
big = {:.1}", big);
                    pre.push_str("DIM inf AS DOUBLE\ninf = big * 10.0\nDIM nan AS DOUBLE\nnan = inf - inf\n");
                }
                (format!("{}SOUND {}, {}", pre, p, t), want)
            };
            let (r, got) = with(false, |m| {
                let r = m.feed(&text);
                (r, draws(m))
            });
            cx.step(1);
            cx.traces += 1;
            cx.state(&(&got, &text));
            let exp: Vec<String> = want
                .iter()
                .map(|(p, d)| {
                    format!(
                        "{:?}",
                        Ev::Other(format!("Tone {{ frequency_hz: {}, duration: {:?}, waveform: Square }}", p, d))
                    )
                })
                .collect();
            if matches!(r, Outcome::Done(None)) != want.is_some() || got != exp {
                return Err(Failure::new(
                    format!("sound: {}", text.lines().last().unwrap_or("")),
                    format!("{:?} {:?}, not {:?}", r, got, exp),
                ));
            }
            Ok(())
        },
    )
}

/// What the console is left like by sequences of commands.
fn histories(tier: Tier) -> Section {
    const OPS: [&str; 14] = [
        "PRINT \"ab\"",
        "PRINT \"cd\";",
        "CLS",
        "LOCATE 3, 1",
        "LOCATE 10, 0",
        "COLOR 5",
        "COLOR , 2",
        "COLOR",
        "COLOR 256",
        "GFX_SYNC FALSE",
        "GFX_SYNC TRUE",
        "GFX_SYNC",
        "GFX_PIXEL 1, 2",
        "GFX_PIXEL 1, 32768",
    ];
    let max = tier.pick(4, 5);
    let k = OPS.len() as u64;
    Section::new(
        "histories",
        seq_count(k, 1, max),
        move |i| format!("{:?}", seq_decode(k, 1, i).iter().map(|o| OPS[*o]).collect::<Vec<_>>()),
        move |i, cx| {
            let seq = seq_decode(k, 1, i);
            let mut m = machine(true);
            let (mut grid, mut x, mut y) = (vec![String::new(); 6], 0usize, 0usize);
            let mut color = (None, None);
            let (mut sync, mut cursor, mut now, mut drawn) = (true, true, 0, 0);
            for (n, o) in seq.iter().enumerate() {
                let put = |grid: &mut Vec<String>, x: &mut usize, y: usize, t: &str| {
                    let row = &mut grid[y];
                    while row.len() < *x + t.len() {
                        row.push(' ');
                    }
                    row.replace_range(*x..*x + t.len(), t);
                    *x += t.len();
                };
                let mut ok = true;
                match o {
                    0 if x + 2 <= 10 && y + 1 < 6 => {
                        put(&mut grid, &mut x, y, "ab");
                        x = 0;
                        y += 1;
                    }
                    1 if x + 2 <= 10 => put(&mut grid, &mut x, y, "cd"),
                    0 | 1 => {
                        cx.trivial += 1;
                        return Ok(());
                    }
                    2 => {
                        grid = vec![String::new(); 6];
                        (x, y) = (0, 0);
                    }
                    3 => (x, y) = (3, 1),
                    5 => color = (Some(5), None),
                    6 => color = (None, Some(2)),
                    7 => color = (None, None),
                    9 => (sync, cursor) = (false, false),
                    10 => (sync, cursor) = (true, true),
                    11 => now += 1,
                    12 => drawn += 1,
                    _ => ok = false,
                }
                let r = m.feed(OPS[*o]);
                cx.step(1);
                let c = m.con.borrow();
                let rows: Vec<String> = grid.iter().map(|r| r.trim_end().to_owned()).collect();
                let s = c.snap();
                let d = c.log.iter().filter(|e| matches!(e, Ev::Draw(_))).count();
                let got = (&s.rows, s.x, s.y, s.colors, c.sync, s.cursor, c.sync_now_count, d);
                let exp = (&rows, x, y, color, sync, cursor, now, drawn);
                cx.state(&format!("{:?}", got));
                if (r == Outcome::Done(None)) != ok || got != exp {
                    return Err(Failure::new(
                        format!("histories: {:?}", seq[..=n].iter().map(|o| OPS[*o]).collect::<Vec<_>>()),
                        format!("{:?} and {:?}, not {:?}", r, got, exp),
                    ));
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        arguments(tier),
        counts(),
        lists(),
        arrays(),
        not_arrays(),
        long_arrays(),
        locate(),
        colors(),
        inkey(tier),
        polls(tier),
        sizes(),
        sound(),
        histories(tier),
    ]
}
