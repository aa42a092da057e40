//! D01: the demos are always there, unchanged, and they work.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::gpiox::PinsModel;
use crate::machx::{Mach, MemProgram, Opts, Outcome};
use crate::scr::Ev;
use endbasic_repl::demos::DemoDriveFactory;
use endbasic_std::console::Key;
use endbasic_std::datetime::DateTime;
use endbasic_std::program::Program;
use endbasic_std::storage::{Storage};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "D01",
        rule: "The drive: all sequences of up to 4 (thorough: 5) of 18 operations on two drives with the demos and \
               one in memory, through the storage and through commands, with everything compared after each. The \
               demos: all of them, played with all sequences of keys and answers up to a bound (tour: up to 6 \
               (thorough: 8) of 4 keys; bounce: up to 3 (thorough: 4) of 13 keys on two sizes; guess: all games of \
               up to 3 attempts; alarm: each moment of two sweeps; gpio: each moment of the button), on consoles of \
               several sizes.",
        assumptions: &["the machine has a text console of at least 80x24 characters, the documented minimum for demos"],
        sections,
    }
}

const NAMES: [&str; 8] = ["ALARM", "BOUNCE", "FIBONACCI", "GPIO", "GUESS", "HELLO", "PALETTE", "TOUR"];

// --- The drive -------------------------------------------------------------------------------

const OPS: [&str; 18] = [
    "put DEMOS:HELLO.BAS",
    "put DEMOS:hello.bas",
    "put DEMOS:NEW.BAS",
    "put D2:GUESS.BAS",
    "delete DEMOS:HELLO.BAS",
    "delete DEMOS:Tour.Bas",
    "delete DEMOS:NEW.BAS",
    "copy DEMOS:hello.bas MEMORY:X.BAS",
    "copy MEMORY:X.BAS DEMOS:HELLO.BAS",
    "copy DEMOS:GUESS.BAS D2:HELLO.BAS",
    "copy DEMOS:TOUR.BAS MEMORY:",
    "SAVE \"DEMOS:HELLO.BAS\"",
    "SAVE",
    "LOAD \"DEMOS:Hello\"",
    "KILL \"DEMOS:FIBONACCI.BAS\"",
    "CD \"DEMOS:\"",
    "remount",
    "edit",
];

fn storage() -> Storage {
    let mut s = Storage::default();
    s.register_scheme("demos", Box::from(DemoDriveFactory::default()));
    s.mount("DEMOS", "demos://").unwrap();
    s.mount("D2", "demos://").unwrap();
    s
}

fn contents(s: &Storage, drive: &str) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let e = |e: std::io::Error| e.to_string();
    let files = block_on(s.enumerate(drive)).map_err(e)?;
    let mut m = BTreeMap::new();
    let mut total = 0;
    for (n, md) in files.dirents() {
        let c = block_on(s.get(&format!("{}{}", drive, n))).map_err(e)?;
        for other in [n.to_lowercase(), n.to_uppercase(), mixed_case(n)] {
            if block_on(s.get(&format!("{}{}", drive, other))).map_err(e)? != c {
                return Err(format!("{} is not {}", other, n));
            }
        }
        for other in near_names(n) {
            if block_on(s.get(&format!("{}{}", drive, other))).is_ok() {
                return Err(format!("{:?} is found as if it were {}", other, n));
            }
        }
        if c.len() as u64 != md.length {
            return Err(format!("{} has {} bytes and not {}", n, c.len(), md.length));
        }
        total += md.length;
        m.insert(n.clone(), c);
    }
    let (Some(q), Some(f)) = (files.disk_quota(), files.disk_free()) else {
        return Err("no sizes".to_owned());
    };
    if (q.bytes, q.files, f.bytes, f.files) != (total, m.len() as u64, 0, 0) {
        return Err(format!("quota {:?}, free {:?}", q, f));
    }
    Ok(m)
}

/// Names that are like the name of a demo and that no demo has.
fn near_names(n: &str) -> Vec<String> {
    let base = n.strip_suffix(".BAS").unwrap();
    let mut names = vec![n.to_lowercase().replace('s', "\u{17f}")];
    for b in [base.to_owned(), base.to_lowercase()] {
        for suffix in ["", ".", ".b", ".BA", ".BASX", ".bas.bas", ".txt", ".BAS ", " .BAS"] {
            names.push(format!("{}{}", b, suffix));
        }
        names.push(format!("{}.BAS", &b[1..]));
        names.push(format!("{}.bas", &b[..b.len() - 1]));
        names.push(format!(" {}.BAS", b));
        names.push(format!("X{}.BAS", b));
    }
    names
}

fn mixed_case(n: &str) -> String {
    n.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn drive_section(max: u32) -> Section {
    let k = OPS.len() as u64;
    let show = move |i: u64| seq_decode(k, 0, i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("; ");
    Section::new("drive", seq_count(k, 0, max), show, move |i, cx| {
        let s = Rc::new(RefCell::new(storage()));
        let p = Rc::new(RefCell::new(MemProgram::default()));
        let fail = |what: String| Err(Failure::new(format!("drive: {}", show(i)), what));
        let fixed = match contents(&s.borrow(), "DEMOS:") {
            Ok(m) => m,
            Err(e) => return fail(e),
        };
        let names: Vec<String> = fixed.keys().cloned().collect();
        if names != NAMES.map(|n| format!("{}.BAS", n)) {
            return fail(format!("{:?}", names));
        }
        block_on(s.borrow_mut().put("MEMORY:X.BAS", b"PRINT 1")).unwrap();
        let mut mem: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        mem.insert("X.BAS".to_owned(), b"PRINT 1".to_vec());
        let mut cwd = "MEMORY:/";
        // The stored program: name, text and whether it has changes.
        let mut prog: (Option<String>, String) = (None, String::new());
        let mut mach: Option<Mach> = None;
        for o in seq_decode(k, 0, i) {
            let op = OPS[o];
            cx.step(1);
            let w: Vec<&str> = op.split(' ').collect();
            let text = fixed["HELLO.BAS"].clone();
            let (ok, got) = match w[0] {
                "put" => (false, block_on(s.borrow_mut().put(w[1], b"other")).is_ok()),
                "delete" => (false, block_on(s.borrow_mut().delete(w[1])).is_ok()),
                "copy" => {
                    let ok = w[2].starts_with("MEMORY");
                    if o == 7 {
                        mem.insert("X.BAS".to_owned(), text);
                    } else if ok {
                        mem.insert("TOUR.BAS".to_owned(), fixed["TOUR.BAS"].clone());
                    }
                    (ok, block_on(s.borrow_mut().copy(w[1], w[2])).is_ok())
                }
                "remount" => {
                    let mut s = s.borrow_mut();
                    if cwd == "DEMOS:/" {
                        s.cd("MEMORY:").unwrap();
                        cwd = "MEMORY:/";
                    }
                    s.unmount("DEMOS").unwrap();
                    if s.mount("DEMOS", "demos://x").is_ok() || s.mount("DEMOS", "demos:///").is_ok() {
                        return fail("a target is accepted".to_owned());
                    }
                    (true, s.mount("DEMOS", "demos://").is_ok())
                }
                "edit" => {
                    p.borrow_mut().text = "X".to_owned();
                    p.borrow_mut().dirty = false;
                    prog.1 = "X".to_owned();
                    (true, true)
                }
                _ => {
                    let m = mach.get_or_insert_with(|| {
                        Mach::build(Opts::default(), Some((p.clone(), s.clone())), |b| b)
                    });
                    let ok = match o {
                        13 => {
                            prog = (Some("DEMOS:Hello.bas".to_owned()), String::from_utf8(text).unwrap());
                            true
                        }
                        15 => {
                            cwd = "DEMOS:/";
                            true
                        }
                        _ => false,
                    };
                    (ok, matches!(m.feed(op), Outcome::Done(_)))
                }
            };
            if ok != got {
                return fail(format!("{} {}", op, if got { "works" } else { "fails" }));
            }
            for d in ["DEMOS:", "D2:/"] {
                match contents(&s.borrow(), d) {
                    Ok(m) if m == fixed => (),
                    r => return fail(format!("after {}: {} has {:?}", op, d, r.map(|m| m.into_keys().collect::<Vec<_>>()))),
                }
            }
            let now = block_on(s.borrow().enumerate("MEMORY:")).unwrap();
            let mut now_mem = BTreeMap::new();
            for n in now.dirents().keys() {
                now_mem.insert(n.clone(), block_on(s.borrow().get(&format!("MEMORY:{}", n))).unwrap());
            }
            if now_mem != mem {
                return fail(format!("after {}: memory has {:?}", op, now_mem.keys()));
            }
            if s.borrow().cwd() != cwd {
                return fail(format!("after {}: in {}", op, s.borrow().cwd()));
            }
            let p = p.borrow();
            if (p.name().map(|n| n.replace(":/", ":")), p.text()) != prog {
                return fail(format!("after {}: program is {:?}", op, p.name()));
            }
            cx.state(&(&mem, cwd, &prog.0));
        }
        cx.traces += 1;
        Ok(())
    })
}

// --- Playing ---------------------------------------------------------------------------------

/// A clock that only moves when programs sleep.
#[derive(Default)]
struct Clock {
    now: RefCell<Duration>,
    sleeps: RefCell<usize>,
    hook: RefCell<Option<Box<dyn FnMut(usize)>>>,
}

#[async_trait::async_trait(?Send)]
impl DateTime for Clock {
    fn monotonic(&self) -> Duration {
        *self.now.borrow()
    }
    async fn sleep(&self, d: Duration) -> Result<(), String> {
        *self.now.borrow_mut() += d;
        *self.sleeps.borrow_mut() += 1;
        if let Some(h) = self.hook.borrow_mut().as_mut() {
            h(*self.sleeps.borrow());
        }
        Ok(())
    }
}

struct Stage {
    m: Mach,
    clock: Rc<Clock>,
}

impl Stage {
    fn new(name: &str, size: (usize, usize), pins: Option<Rc<RefCell<PinsModel>>>) -> Self {
        let clock = Rc::new(Clock::default());
        let c = clock.clone();
        let inter: (Rc<RefCell<dyn Program>>, _) =
            (Rc::new(RefCell::new(MemProgram::default())), Rc::new(RefCell::new(storage())));
        let o = Opts { size, ..Default::default() };
        let mut m = Mach::build(o, Some(inter), |b| {
            let b = b.with_datetime(c);
            match pins {
                Some(p) => b.with_gpio_pins(p),
                None => b,
            }
        });
        m.feed(&format!("LOAD \"DEMOS:/{}.BAS\"", name));
        m.con.borrow_mut().log.clear();
        Stage { m, clock }
    }

    fn player(&mut self, f: impl FnMut(&[Ev], bool) -> Option<Key> + 'static) {
        self.m.con.borrow_mut().player = Some(Box::new(f));
    }

    fn run(&mut self) -> Outcome {
        self.m.feed("RUN")
    }

    /// Checks that the demo ended well and left the console as it was.
    fn finished(&self, o: &Outcome) -> Result<(), String> {
        if *o != Outcome::Done(None) || self.text().contains("Program exited with code") {
            return Err(format!("{:?}: {}", o, self.m.con.borrow().text()));
        }
        self.restored()
    }

    fn restored(&self) -> Result<(), String> {
        let c = self.m.con.borrow();
        if (c.fg, c.bg) != (None, None) || !c.sync || !c.cursor || c.alt_active() || !c.bad.is_empty() {
            return Err(format!(
                "left {:?} {:?} sync {} cursor {} {:?}",
                c.fg, c.bg, c.sync, c.cursor, c.bad
            ));
        }
        Ok(())
    }

    fn text(&self) -> String {
        self.m.con.borrow().text()
    }
}

fn line_keys(s: &str) -> Vec<Key> {
    s.chars().map(Key::Char).chain([Key::NewLine]).collect()
}

fn wrap(key: String, r: Result<(), String>) -> CaseResult {
    r.map_err(|e| Failure::new(key, e))
}

const SIZES: [(usize, usize); 4] = [(80, 24), (80, 25), (132, 43), (200, 60)];

fn simple(max: u32) -> Section {
    // Answers to the question of HELLO.
    const C: [char; 6] = ['a', 'Z', ' ', '"', 'é', ','];
    let answers = seq_count(6, 0, max);
    let n = SIZES.len() as u64 * 2 + answers;
    let name = move |i: u64| -> String { seq_decode(6, 0, i).iter().map(|c| C[*c]).collect() };
    Section::new(
        "simple",
        n,
        move |i| match i {
            0..4 => format!("FIBONACCI on {:?}", SIZES[i as usize]),
            4..8 => format!("PALETTE on {:?}", SIZES[i as usize - 4]),
            _ => format!("HELLO to {:?}", name(i - 8)),
        },
        move |i, cx| {
            cx.step(1);
            cx.state(&i);
            cx.traces += 1;
            let size = if i < 8 { SIZES[i as usize % 4] } else { SIZES[0] };
            let demo = match i {
                0..4 => "FIBONACCI",
                4..8 => "PALETTE",
                _ => "HELLO",
            };
            let mut st = Stage::new(demo, size, None);
            if i >= 8 {
                st.m.con.borrow_mut().keys.extend(line_keys(&name(i - 8)));
            }
            let o = st.run();
            let key = format!("{} {}", demo, i);
            wrap(key.clone(), st.finished(&o))?;
            let t = st.text();
            let ok = match i {
                0..4 => t.contains(" 55\n") && t.contains(" 177 "),
                4..8 => {
                    let c = st.m.con.borrow();
                    let words: Vec<String> = (0..size.1)
                        .flat_map(|y| c.row(y).split_whitespace().map(str::to_owned).collect::<Vec<_>>())
                        .collect();
                    // Every color has its number in its own color, once.
                    let mut seen = vec![0; 256];
                    let mut color = (None, None);
                    for e in &c.log {
                        match e {
                            Ev::Color(f, b) => color = (*f, *b),
                            Ev::Write(s) | Ev::Print(s) => {
                                if let Ok(n) = s.trim().parse::<u8>() {
                                    if color.1 != Some(n) || color.0.is_none_or(|f| f == n) {
                                        return wrap(key, Err(format!("{} in {:?}", n, color)));
                                    }
                                    seen[n as usize] += 1;
                                }
                            }
                            _ => (),
                        }
                    }
                    words == (0..256).map(|n| n.to_string()).collect::<Vec<_>>() && seen == vec![1; 256]
                }
                _ => t.contains(&format!("Hello,{}!\n", name(i - 8).trim_end())),
            };
            if !ok {
                return wrap(key, Err(t));
            }
            Ok(())
        },
    )
}

/// Questions of GUESS are answered with a strategy and the replies must agree with one secret.
fn guess(max_attempts: usize) -> Section {
    // Largest number, attempts, rounds, first guesses.
    let tops = [1i32, 2, 5, 100];
    let radices = vec![tops.len() as u64, max_attempts as u64, 2, 4, 4, 4, 3];
    Section::new(
        "guess",
        product(&radices),
        {
            let r = radices.clone();
            move |i| format!("{:?}", mixed(&r, i))
        },
        move |i, cx| {
            let d = mixed(&radices, i);
            let (top, attempts, rounds) = (tops[d[0]], d[1] + 1, d[2] + 1);
            let first = [d[3], d[4], d[5]];
            if first[attempts.min(3)..].iter().any(|f| *f != 0) {
                cx.trivial += 1;
                return Ok(());
            }
            let mut st = Stage::new("GUESS", SIZES[0], None);
            let mut pending: Vec<Key> = vec![];
            let mut bad_first = d[6] == 1;
            let mut asked = (0usize, 0usize);
            let mut settings = 0;
            let guesses = Rc::new(RefCell::new(vec![vec![]]));
            let g = guesses.clone();
            let invert = d[6] == 2;
            st.player(move |log, waits| {
                if !pending.is_empty() {
                    return Some(pending.remove(0));
                }
                if !waits {
                    return None;
                }
                // Prompts are not shown by this console; rounds are over when they say so.
                let over = log
                    .iter()
                    .filter(|e| matches!(e, Ev::Print(s) if s.contains("Correct") || s.contains("Sorry")))
                    .count();
                let a = if bad_first {
                    bad_first = false;
                    "many".to_owned()
                } else if settings < 2 {
                    settings += 1;
                    [top, attempts as i32][settings - 1].to_string()
                } else if over > asked.0 {
                    asked = (asked.0 + 1, 0);
                    if asked.0 < rounds {
                        g.borrow_mut().push(vec![]);
                        "y".to_owned()
                    } else {
                        "false".to_owned()
                    }
                } else {
                    let n = asked.1;
                    asked.1 += 1;
                    let v = first[n.min(2)] as i32 - invert as i32;
                    g.borrow_mut().last_mut().unwrap().push(v);
                    v.to_string()
                };
                pending = line_keys(&a);
                Some(pending.remove(0))
            });
            let o = st.run();
            cx.step(1);
            let key = format!("guess {:?}", d);
            wrap(key.clone(), st.finished(&o))?;
            let t = st.text();
            let fail = |what: String| wrap(key.clone(), Err(format!("{}: {}", what, t)));
            // Each round.
            let parts: Vec<&str> = t.split("I have a secret number").skip(1).collect();
            let guesses = guesses.borrow();
            if parts.len() != rounds || guesses.len() != rounds {
                return fail(format!("{} rounds", parts.len()));
            }
            let (mut wins, mut losses) = (0, 0);
            for (p, g) in parts.iter().zip(guesses.iter()) {
                let (mut lo, mut hi) = (0i64, top as i64);
                let n = g.len();
                let (low, high) = (p.matches("is too low!").count(), p.matches("is too high!").count());
                let won = p.contains("Correct");
                if low + high + won as usize != n || n > attempts || (!won && n != attempts) {
                    return fail(format!("{} guesses, {} low, {} high, won {}", n, low, high, won));
                }
                for l in p.lines().filter(|l| l.starts_with("Wrong.")) {
                    let v: i64 = l["Wrong.".len()..].split_whitespace().next().and_then(|v| v.parse().ok()).unwrap_or(-99);
                    if !g.contains(&(v as i32)) {
                        return fail(l.to_owned());
                    }
                    match l.contains("low") {
                        true => lo = lo.max(v + 1),
                        false => hi = hi.min(v - 1),
                    }
                }
                let secret = if won {
                    wins += 1;
                    g[n - 1] as i64
                } else {
                    losses += 1;
                    let l = p.lines().find(|l| l.starts_with("Sorry")).unwrap_or("");
                    l.split_whitespace().last().and_then(|v| v.parse().ok()).unwrap_or(-99)
                };
                if secret < lo || secret > hi {
                    return fail(format!("secret {} and not between {} and {}", secret, lo, hi));
                }
            }
            let score: Vec<u32> =
                t.split("Score:").nth(1).unwrap_or("").split_whitespace().filter_map(|w| w.parse().ok()).collect();
            if score != [wins, losses] {
                return fail(format!("score {:?}, wins {}, losses {}", score, wins, losses));
            }
            cx.state(&(d, wins));
            cx.traces += 1;
            Ok(())
        },
    )
}

const TOUR_KEYS: [Option<Key>; 4] = [Some(Key::NewLine), Some(Key::Escape), Some(Key::Char('x')), None];

fn tour(max: u32) -> Section {
    let n = seq_count(4, 0, max);
    Section::new(
        "tour",
        n * 2,
        move |i| format!("{:?} on {:?}", keys_of(&TOUR_KEYS, i % n), SIZES[(i / n) as usize]),
        move |i, cx| {
            let keys = keys_of(&TOUR_KEYS, i % n);
            let mut st = Stage::new("TOUR", SIZES[(i / n) as usize], None);
            let pages = {
                let s = storage();
                let c = String::from_utf8(block_on(s.get("DEMOS:TOUR.BAS")).unwrap()).unwrap();
                c.lines().filter(|l| l.trim() == "wait").count()
            };
            let polls = Rc::new(RefCell::new(0));
            let (p, k) = (polls.clone(), keys.clone());
            st.player(move |_, _| {
                let n = *p.borrow();
                *p.borrow_mut() += 1;
                // Whatever the keys were, ENTER all the way to the end.
                k.get(n).cloned().unwrap_or(Some(Key::NewLine))
            });
            let o = st.run();
            cx.step(keys.len() as u64 + 1);
            let key = format!("tour {:?}", keys);
            wrap(key.clone(), st.finished(&o))?;
            let mut want = (0, 0, 0);
            let mut it = keys.into_iter().chain(std::iter::repeat(Some(Key::NewLine)));
            while want.1 < pages {
                want.0 += 1;
                match it.next().unwrap() {
                    Some(Key::NewLine) => want.1 += 1,
                    Some(Key::Escape) => break,
                    _ => want.2 += 1,
                }
            }
            let shown = st.text().matches("EndBASIC tour: ").count();
            let ms = st.clock.now.borrow().as_micros();
            let ok = *polls.borrow() == want.0
                && shown == (want.1 + 1)
                && ms.abs_diff(want.2 as u128 * 10_000) < 100;
            if !ok {
                return wrap(
                    key,
                    Err(format!("{} polls, {} pages, {} us; expected {:?}", polls.borrow(), shown, ms, want)),
                );
            }
            cx.state(&want);
            cx.traces += 1;
            Ok(())
        },
    )
}

fn keys_of(all: &[Option<Key>], i: u64) -> Vec<Option<Key>> {
    seq_decode(all.len() as u64, 0, i).iter().map(|k| all[*k].clone()).collect()
}

const BOUNCE_KEYS: [Option<char>; 13] = [
    None,
    Some('+'),
    Some('-'),
    Some('f'),
    Some('F'),
    Some('0'),
    Some('1'),
    Some('2'),
    Some('3'),
    Some('4'),
    Some('5'),
    Some('6'),
    Some('x'),
];

fn bounce(max: u32) -> Section {
    let k = BOUNCE_KEYS.len() as u64;
    let n = seq_count(k, 0, max);
    let decode = move |i: u64| seq_decode(k, 0, i % n).iter().map(|x| BOUNCE_KEYS[*x]).collect::<Vec<_>>();
    Section::new(
        "bounce",
        n * 2 + 1,
        move |i| if i == n * 2 { "without graphics".to_owned() } else { format!("{:?} size {}", decode(i), i / n) },
        move |i, cx| {
            let mut st = Stage::new("BOUNCE", (80, 24), None);
            if i == n * 2 {
                let o = st.run();
                let t = st.text();
                let ok = o == Outcome::Done(None)
                    && t.contains("No graphics support in this console\n")
                    && t.contains("Program exited with code 1\n");
                return wrap("bounce without graphics".to_owned(), if ok { st.restored_colors() } else { Err(format!("{:?} {}", o, t)) });
            }
            let size = [(640u16, 384u16), (200, 150)][(i / n) as usize];
            st.m.con.borrow_mut().size_pixels = Some(size);
            let keys = decode(i);
            let mut script = keys.clone().into_iter();
            st.player(move |_, _| match script.next() {
                Some(k) => k.map(Key::Char),
                None => Some(Key::Escape),
            });
            let o = st.run();
            cx.step(keys.len() as u64 + 1);
            let key = format!("bounce {:?} {:?}", size, keys);
            wrap(key.clone(), st.finished(&o))?;
            let c = st.m.con.borrow();
            let (r, x1, y1) = if size.0 < 240 { (6, 8, 24) } else { (10, 120, 12) };
            let (x2, y2) = (size.0 as i32 - 12, size.1 as i32 - 12);
            let mut frames: Vec<Vec<&str>> = vec![];
            for e in &c.log {
                match e {
                    Ev::Clear => frames.push(vec![]),
                    Ev::Draw(s) if !frames.is_empty() => frames.last_mut().unwrap().push(s),
                    _ => (),
                }
            }
            // RUN clears when it starts; the demo does so when it ends.
            let frames: Vec<&Vec<&str>> = frames.iter().filter(|f| !f.is_empty()).collect();
            let fail = |what: String| wrap(key.clone(), Err(what));
            if frames.len() != keys.len() || c.sync_now_count < keys.len() {
                return fail(format!("{} frames", frames.len()));
            }
            let (mut dots, mut mode, mut filled) = (100, 4, true);
            for (k, f) in keys.iter().zip(&frames) {
                match k {
                    Some('+') => dots += 10,
                    Some('-') => dots = 10.max(dots - 10),
                    Some('f' | 'F') => filled = !filled,
                    Some(d @ '0'..='6') => mode = *d as usize - '0' as usize,
                    _ => (),
                }
                let shape = match (mode, filled) {
                    (0, true) => "circlef",
                    (0, false) => "circle",
                    (1, _) => "pixel",
                    (2, _) => "line",
                    (3, true) => "trif",
                    (3, false) => "tri",
                    (4, true) => "rectf",
                    (4, false) => "rect",
                    (_, true) => "polyf",
                    (_, false) => "poly",
                };
                if f.len() != dots + 2
                    || f[0] != format!("rectf {},{} {},{}", x1, y1, x2, y2)
                    || f[1] != format!("rect {},{} {},{}", x1 - 1, y1 - 1, x2 + 1, y2 + 1)
                {
                    return fail(format!("{} shapes and not {}, in {} and {}", f.len(), dots, f[0], f[1]));
                }
                for s in &f[2..] {
                    let (name, rest) = s.split_once(' ').unwrap();
                    let v: Vec<i32> = rest
                        .split(|c: char| !(c.is_ascii_digit() || c == '-'))
                        .filter_map(|w| w.parse().ok())
                        .collect();
                    let corners = match mode {
                        0 => 3,
                        1 => 2,
                        2 | 4 => 4,
                        3 => 6,
                        5 => 10,
                        _ => 12,
                    };
                    // The center is inside of the box, and the shape around it.
                    let center = match mode {
                        0 | 1 => (v[0], v[1]),
                        2 | 4 => ((v[0] + v[2]) / 2, (v[1] + v[3]) / 2),
                        3 => (v[0], v[1]),
                        _ => (v.iter().step_by(2).sum::<i32>() / (corners / 2), v.iter().skip(1).step_by(2).sum::<i32>() / (corners / 2)),
                    };
                    let slack = if mode == 3 { 12 } else { 4 };
                    let ok = name == shape
                        && v.len() == corners as usize
                        && (x1 + r - slack..=x2 - r + slack).contains(&center.0)
                        && (y1 + r - slack..=y2 - r + slack).contains(&center.1)
                        && (mode != 0 || v[2] == r)
                        && (mode != 4 || v[2] - v[0] == 2 * r && v[3] - v[1] == 2 * r);
                    if !ok {
                        return fail(format!("{} and not a {}", s, shape));
                    }
                }
            }
            // One frame each sixtieth of a second.
            let t = st.clock.now.borrow().as_micros() as f64;
            if (t - keys.len() as f64 * 1e6 / 60.0).abs() > 100.0 {
                return fail(format!("took {} us", t));
            }
            cx.state(&(dots, mode, filled, size));
            cx.traces += 1;
            Ok(())
        },
    )
}

impl Stage {
    fn restored_colors(&self) -> Result<(), String> {
        let c = self.m.con.borrow();
        if (c.fg, c.bg) != (None, None) { Err(format!("left {:?} {:?}", c.fg, c.bg)) } else { Ok(()) }
    }
}

/// The siren, stopped after each of the tones of two sweeps.
fn alarm() -> Section {
    Section::new(
        "alarm",
        170,
        |i| format!("a key after {} polls", i),
        |i, cx| {
            let mut st = Stage::new("ALARM", SIZES[0], None);
            let mut n = 0;
            st.player(move |_, _| {
                n += 1;
                (n > i).then_some(Key::Char(' '))
            });
            let o = st.run();
            cx.step(i + 1);
            let key = format!("alarm {}", i);
            wrap(key.clone(), st.finished(&o))?;
            let sweep: Vec<u32> = (0..=40).map(|x| 800 + x * 10).collect();
            let c = st.m.con.borrow();
            let got: Vec<&String> =
                c.log.iter().filter_map(|e| if let Ev::Other(s) = e { Some(s) } else { None }).collect();
            let ok = got.len() as u64 == i + 1
                && got.iter().enumerate().all(|(j, s)| {
                    let f = if j / 41 % 2 == 0 { sweep[j % 41] } else { sweep[40 - j % 41] };
                    s.contains(&format!("frequency_hz: {},", f)) && s.contains("20ms")
                });
            cx.state(&i);
            cx.traces += 1;
            if ok { Ok(()) } else { wrap(key, Err(format!("{:?}", got))) }
        },
    )
}

/// The button, pressed at each moment; and a machine without pins.
fn gpio() -> Section {
    Section::new(
        "gpio",
        22,
        |i| if i == 21 { "without pins".to_owned() } else { format!("pressed after {} sleeps", i) },
        |i, cx| {
            let pins = Rc::new(RefCell::new(PinsModel::default()));
            let mut st = Stage::new("GPIO", SIZES[0], (i < 21).then(|| pins.clone()));
            let p = pins.clone();
            *st.clock.hook.borrow_mut() = Some(Box::new(move |n| {
                if n as u64 == i {
                    p.borrow_mut().pins.get_mut(&8).unwrap().1 = false;
                }
            }));
            if i == 0 {
                pins.borrow_mut().pulled_down = vec![8];
            }
            st.m.con.borrow_mut().keys.push_back(Key::NewLine);
            let o = st.run();
            cx.step(1);
            cx.state(&i);
            cx.traces += 1;
            let key = format!("gpio {}", i);
            if i == 21 {
                let ok = matches!(o, Outcome::Err(_));
                return wrap(key, if ok { st.restored() } else { Err(format!("{:?}", o)) });
            }
            wrap(key.clone(), st.finished(&o))?;
            let mut want = vec!["setup 8 InPullUp".to_owned(), "setup 18 Out".to_owned()];
            want.extend((0..=i).map(|_| "read 8".to_owned()));
            for _ in 0..5 {
                want.push("write 18 true".to_owned());
                want.push("write 18 false".to_owned());
            }
            let log: Vec<String> = pins.borrow().log.iter().filter(|l| *l != "clear all").cloned().collect();
            let ms = st.clock.now.borrow().as_micros();
            if log != want || ms.abs_diff((i * 50_000 + 1_000_000) as u128) > 100 {
                return wrap(key, Err(format!("{:?} in {} us", log, ms)));
            }
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        drive_section(tier.pick(3, 4)),
        simple(tier.pick(4, 5)),
        guess(3),
        tour(tier.pick(5, 7)),
        bounce(tier.pick(2, 3)),
        alarm(),
        gpio(),
    ]
}
