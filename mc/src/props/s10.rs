//! S10: programs see and spend the time of the host.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, product, seq_count, seq_decode};
use crate::machx::{Mach, Opts, Outcome};
use endbasic_std::datetime::DateTime;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

pub fn property() -> Property {
    Property {
        id: "S10",
        rule: "Durations: SLEEP of 2,048 mantissas times 40 exponents and of all boundaries, as literals, integers, \
               expressions, and of booleans and strings. Readings: MONOTONIC of all pairs of 97 clock values. \
               Histories: all sequences of up to 3 (thorough: 4) of 13 statements, with a clock that the sleeps \
               move, in 3 kinds of error handling, with a host whose sleeps take 0 to 2 more turns, and with each \
               of the sleeps failing. The system's clock: all sequences of up to 3 (thorough: 4) of 5 real sleeps.",
        assumptions: &["the host's clock is the only source of time that programs have"],
        sections,
    }
}

/// What the host was asked.
#[derive(Clone, Debug, Eq, PartialEq)]
enum Ev {
    Read,
    Begin(Duration),
    End,
}

#[derive(Default)]
struct Clock {
    now: RefCell<Duration>,
    /// What each reading adds.
    tick: Duration,
    /// Turns that each sleep takes.
    turns: usize,
    /// The sleep that fails, from 0.
    fails: Option<usize>,
    log: RefCell<Vec<Ev>>,
}

struct Turns(usize);

impl Future for Turns {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[async_trait::async_trait(?Send)]
impl DateTime for Clock {
    fn monotonic(&self) -> Duration {
        self.log.borrow_mut().push(Ev::Read);
        let mut n = self.now.borrow_mut();
        let r = *n;
        *n += self.tick;
        r
    }

    async fn sleep(&self, d: Duration) -> Result<(), String> {
        let k = self.log.borrow().iter().filter(|e| matches!(e, Ev::Begin(_))).count();
        self.log.borrow_mut().push(Ev::Begin(d));
        if self.fails == Some(k) {
            return Err("clock broke".to_owned());
        }
        Turns(self.turns).await;
        *self.now.borrow_mut() += d;
        self.log.borrow_mut().push(Ev::End);
        Ok(())
    }
}

fn machine(c: &Rc<Clock>) -> Mach {
    let c = c.clone();
    Mach::build(Opts::default(), None, |b| b.with_datetime(c))
}

// --- Durations -------------------------------------------------------------------------------

/// The whole nanoseconds in a number of seconds, whether there is more, or none if out of range.
fn nanos(d: f64) -> Option<(u128, bool)> {
    let bits = d.to_bits();
    if bits >> 63 == 1 && d != 0.0 || !d.is_finite() {
        return None;
    }
    let e = ((bits >> 52) & 0x7ff) as i32;
    let f = bits & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let m = m as u128 * 1_000_000_000;
    let limit = (u64::MAX as u128 + 1) * 1_000_000_000;
    let (n, more) = if e >= 0 {
        if e > 20 {
            return None;
        }
        (m << e, false)
    } else if -e > 127 {
        (0, m != 0)
    } else {
        (m >> -e, m & ((1u128 << -e) - 1) != 0)
    };
    if n >= limit { None } else { Some((n, more)) }
}

fn check_sleep(key: &str, code: &str, d: f64, cx: &mut Cx) -> CaseResult {
    let clock = Rc::new(Clock::default());
    let mut m = machine(&clock);
    let r = m.feed(&format!("{}: OUT \"after\"", code));
    let fail = |what: String| Err(Failure::new(format!("{}: {}", key, code), what));
    cx.step(1);
    let log = clock.log.borrow().clone();
    let out = m.out();
    match nanos(d) {
        None => {
            if !matches!(r, Outcome::Err(_)) || !log.is_empty() || !out.is_empty() {
                return fail(format!("{:?} {:?}", r, log));
            }
            cx.count("rejected");
        }
        Some((n, more)) => {
            let ok = match log.as_slice() {
                [Ev::Begin(d), Ev::End] => {
                    let d = d.as_nanos();
                    d == n || more && d == n + 1
                }
                _ => false,
            };
            if r != Outcome::Done(None) || !ok || out.len() != 1 {
                return fail(format!("{:?} {:?} and not {} ns", r, log, n));
            }
            cx.count("slept");
        }
    }
    cx.state(&d.to_bits());
    Ok(())
}

fn durations() -> Section {
    let radices = vec![2048, 40];
    Section::new(
        "durations",
        product(&radices),
        |i| format!("{}", duration(i)),
        |i, cx| {
            let d = duration(i);
            check_sleep("durations", &format!("SLEEP VAL(\"{:e}\")", d), d, cx)
        },
    )
}

/// Mantissas spread over [1, 2) with many bits set, and exponents from 2^-32 to 2^7.
fn duration(i: u64) -> f64 {
    let (m, e) = (i / 40, i % 40);
    let m = 1.0 + (m as f64 + if m % 3 == 0 { 0.0 } else { 1.0 / 3.0 }) / 2048.0;
    m * 2f64.powi(e as i32 - 32)
}

fn edges() -> Vec<(String, f64)> {
    let mut v = vec![];
    for d in [
        0.0,
        -0.0,
        5e-324,
        1e-300,
        1e-10,
        4.9e-10,
        5e-10,
        5.1e-10,
        9.99999999e-10,
        1e-9,
        1.5e-9,
        0.001,
        0.02,
        0.1,
        0.999999999,
        0.9999999994,
        0.9999999999,
        1.0,
        1.000000001,
        59.999999999,
        86400.0,
        1e9,
        4294967295.999999999,
        1e12,
        9007199254740993.0,
        1e19,
        18446744073709549568.0,
        18446744073709551616.0,
        1e20,
        1e100,
        1.7e308,
        f64::INFINITY,
    ] {
        v.push((format!("SLEEP VAL(\"{:e}\")", d).replace("inf", "1e999"), d));
        if d != 0.0 {
            v.push((format!("SLEEP -VAL(\"{:e}\")", d).replace("inf", "1e999"), -d));
        }
    }
    for n in [0i32, 1, 2, 59, 3600, 2147483647] {
        v.push((format!("SLEEP {}", n), n as f64));
        v.push((format!("s% = {}: SLEEP s%", n), n as f64));
        v.push((format!("s% = {}: SLEEP -s%", n), -(n as f64)));
        v.push((format!("s# = {}: SLEEP s# / 8", n), n as f64 / 8.0));
    }
    v.push(("SLEEP 1.25 + 1".to_owned(), 2.25));
    v.push(("SLEEP (3 - 1) * 0.5".to_owned(), 1.0));
    v.push(("SLEEP -0.000000001".to_owned(), -1e-9));
    v.push(("SLEEP VAL(\"1e999\") - VAL(\"1e999\")".to_owned(), f64::NAN));
    v.push(("DIM a(3) AS DOUBLE: a(1) = 7.5: SLEEP a(1)".to_owned(), 7.5));
    v
}

fn boundaries() -> Section {
    let n = edges().len() as u64;
    Section::new(
        "boundaries",
        n,
        |i| edges()[i as usize].0.clone(),
        |i, cx| {
            let (code, d) = edges().swap_remove(i as usize);
            check_sleep("boundaries", &code, d, cx)
        },
    )
}

const REJECTED: [&str; 12] = [
    "SLEEP",
    "SLEEP \"1\"",
    "SLEEP TRUE",
    "SLEEP 1, 2",
    "SLEEP 1; 2",
    "SLEEP 1 AS 2",
    "SLEEP ,",
    "a$ = \"2\": SLEEP a$",
    "OUT MONOTONIC()",
    "OUT MONOTONIC(1)",
    "MONOTONIC",
    "s$ = MONOTONIC",
];

fn rejected() -> Section {
    Section::new(
        "rejected",
        REJECTED.len() as u64,
        |i| REJECTED[i as usize].to_owned(),
        |i, cx| {
            let clock = Rc::new(Clock::default());
            let mut m = machine(&clock);
            cx.step(1);
            cx.state(&i);
            let r = m.feed(&format!("SLEEP 1: {}", REJECTED[i as usize]));
            if !matches!(r, Outcome::Compile(_)) || !clock.log.borrow().is_empty() {
                return Err(Failure::new(format!("rejected: {}", REJECTED[i as usize]), format!("{:?}", r)));
            }
            Ok(())
        },
    )
}

// --- Readings --------------------------------------------------------------------------------

fn readings_of() -> Vec<Duration> {
    let mut v = vec![];
    for s in [0u64, 1, 2, 59, 60, 3599, 86_399, 86_400, 1_000_000, 4_294_967_295, 4_294_967_296, 9_007_199_254] {
        for n in [0u32, 1, 2, 999, 1_000, 500_000_000, 999_999_998, 999_999_999] {
            v.push(Duration::new(s, n));
        }
    }
    v.push(Duration::new(123, 456_789_012));
    v
}

fn readings() -> Section {
    let n = readings_of().len() as u64;
    Section::new(
        "readings",
        n * n,
        move |i| format!("{:?} then {:?}", readings_of()[(i / n) as usize], readings_of()[(i % n) as usize]),
        move |i, cx| {
            let v = readings_of();
            let (a, b) = (v[(i / n) as usize], v[(i % n) as usize]);
            let clock = Rc::new(Clock { now: RefCell::new(a), ..Default::default() });
            let mut m = machine(&clock);
            let fail = |what: String| Err(Failure::new(format!("readings: {:?} {:?}", a, b), what));
            let mut got = vec![];
            for t in [a, b] {
                *clock.now.borrow_mut() = t;
                cx.step(1);
                if m.feed("x = MONOTONIC: OUT x") != Outcome::Done(None) {
                    return fail("fails".to_owned());
                }
                let o = m.out();
                let Some(x) = o.first().and_then(|s| s.strip_suffix('#')).and_then(|s| s.trim().parse::<f64>().ok())
                else {
                    return fail(format!("{:?}", o));
                };
                let want = t.as_nanos() as f64 / 1e9;
                if (x - want).abs() > 2.0 * f64::EPSILON * want {
                    return fail(format!("{} and not {}", x, want));
                }
                got.push(x);
            }
            // Doubles have less than nanoseconds far from the origin, but must not go backwards.
            if a <= b && got[0] > got[1] || a == b && got[0] != got[1] {
                return fail(format!("{:?}", got));
            }
            if clock.log.borrow().as_slice() != [Ev::Read, Ev::Read] {
                return fail(format!("{:?}", clock.log.borrow()));
            }
            cx.state(&(a, b));
            Ok(())
        },
    )
}

// --- Histories -------------------------------------------------------------------------------

const STMTS: [&str; 13] = [
    "SLEEP 0.25",
    "SLEEP 2",
    "SLEEP 0",
    "SLEEP -1",
    "SLEEP VAL(\"1e300\")",
    "OUT MONOTONIC",
    "t = MONOTONIC: SLEEP 1.5: OUT MONOTONIC - t",
    "OUT MONOTONIC + MONOTONIC * 0",
    "FOR i = 1 TO 3: SLEEP i * 0.25: NEXT",
    "SLEEP MONOTONIC + 1",
    "nap 0.5",
    "OUT took(0.125)",
    "IF MONOTONIC > 2 THEN SLEEP 8 ELSE OUT \"no\"",
];

const DEFS: &str = "SUB nap(s#): SLEEP s: END SUB\n\
                    FUNCTION took#(s#): took = MONOTONIC: SLEEP s: took = MONOTONIC - took: END FUNCTION\n";

/// What is expected of a program.
struct Model {
    now: u128,
    tick: u128,
    fails: Option<usize>,
    sleeps: usize,
    log: Vec<Ev>,
    out: Vec<f64>,
    text: Vec<&'static str>,
}

impl Model {
    fn read(&mut self) -> f64 {
        self.log.push(Ev::Read);
        let r = self.now as f64 / 1e9;
        self.now += self.tick;
        r
    }

    fn sleep(&mut self, s: f64) -> Result<(), &'static str> {
        let Some((n, _)) = nanos(s) else { return Err("") };
        self.log.push(Ev::Begin(Duration::from_nanos(n as u64)));
        self.sleeps += 1;
        if self.fails == Some(self.sleeps - 1) {
            return Err("clock broke");
        }
        self.now += n;
        self.log.push(Ev::End);
        Ok(())
    }

    /// Runs a statement; on an error, what follows in the line does not matter unless it resumes.
    fn stmt(&mut self, i: usize, resume: bool) -> Result<(), &'static str> {
        let soft = |r: Result<(), &'static str>| if resume { Ok(()) } else { r };
        match i {
            0 => self.sleep(0.25),
            1 => self.sleep(2.0),
            2 => self.sleep(0.0),
            3 | 4 => Err(""),
            5 => {
                let v = self.read();
                self.out(v);
                Ok(())
            }
            6 => {
                let t = self.read();
                soft(self.sleep(1.5))?;
                let v = self.read() - t;
                self.out(v);
                Ok(())
            }
            7 => {
                let a = self.read();
                let v = a + self.read() * 0.0;
                self.out(v);
                Ok(())
            }
            8 => {
                for i in 1..=3 {
                    soft(self.sleep(i as f64 / 4.0))?;
                }
                Ok(())
            }
            9 => {
                let v = self.read() + 1.0;
                self.sleep(v)
            }
            10 => self.sleep(0.5),
            11 => {
                let t = self.read();
                soft(self.sleep(0.125))?;
                let v = self.read() - t;
                self.out(v);
                Ok(())
            }
            _ => {
                if self.read() > 2.0 {
                    self.sleep(8.0)
                } else {
                    self.text.push("no");
                    self.out.push(f64::NAN);
                    Ok(())
                }
            }
        }
    }

    fn out(&mut self, v: f64) {
        self.out.push(v);
    }
}

fn histories(max: u32) -> Section {
    let k = STMTS.len() as u64;
    // Error handling; turns; which sleep fails.
    let ways = vec![3, 3, 4];
    let w = product(&ways);
    let n = seq_count(k, 1, max);
    let text = move |i: u64| {
        let (mode, _, _) = way(i % w);
        let mut s = DEFS.to_owned();
        s += ["", "ON ERROR RESUME NEXT\n", "ON ERROR GOTO @h\n"][mode];
        for j in seq_decode(k, 1, i / w) {
            s += STMTS[j];
            s += "\n";
        }
        s += "OUT \"end\"\nEND 5\n";
        if mode == 2 {
            s += "@h\nOUT ERRMSG\nEND 6\n";
        }
        s
    };
    Section::new(
        "histories",
        n * w,
        move |i| format!("{}-- {:?}", text(i), way(i % w)),
        move |i, cx| {
            let (mode, turns, fails) = way(i % w);
            let seq = seq_decode(k, 1, i / w);
            let tick = Duration::new(0, 1_953_125 << (i % 2));
            let clock = Rc::new(Clock {
                now: RefCell::new(Duration::from_millis(500)),
                tick,
                turns,
                fails,
                ..Default::default()
            });
            let mut model = Model {
                now: 500_000_000,
                tick: tick.as_nanos(),
                fails,
                sleeps: 0,
                log: vec![],
                out: vec![],
                text: vec![],
            };
            if fails.is_some_and(|f| f >= seq.len() + 2) {
                cx.trivial += 1;
                return Ok(());
            }
            let mut want = Ok(());
            let mut line = 0;
            for (l, j) in seq.iter().enumerate() {
                cx.step(1);
                line = l + 3 + (mode != 0) as usize;
                match model.stmt(*j, mode == 1) {
                    Err(_) if mode == 1 => (),
                    r => {
                        want = r;
                        if want.is_err() {
                            break;
                        }
                    }
                }
            }
            let mut m = machine(&clock);
            let r = m.feed(&text(i));
            let fail = |what: String| Err(Failure::new(format!("histories: {}{:?}", text(i), way(i % w)), what));
            if *clock.log.borrow() != model.log {
                return fail(format!("the host sees {:?} and not {:?}", clock.log.borrow(), model.log));
            }
            let mut out = m.out();
            match (want, mode) {
                (Err(msg), 0) => {
                    // In callables, the failing statement is theirs.
                    let inner = seq[line - 3] == 10 || seq[line - 3] == 11;
                    let ok = match &r {
                        Outcome::Err(e) => {
                            e.ends_with(msg) && e.starts_with(&format!("{}:", if inner { seq[line - 3] - 9 } else { line }))
                        }
                        _ => false,
                    };
                    if !ok {
                        return fail(format!("{:?} and not an error at line {}", r, line));
                    }
                    cx.count("unhandled errors");
                }
                (Err(msg), _) => {
                    let e = out.pop().unwrap_or_default();
                    if r != Outcome::Done(Some(6)) || !e.contains(msg) {
                        return fail(format!("{:?} {:?} and not {}", r, e, msg));
                    }
                    cx.count("handled errors");
                }
                _ => {
                    if r != Outcome::Done(Some(5)) || !out.pop().unwrap_or_default().contains("end") {
                        return fail(format!("{:?} {:?}", r, out));
                    }
                    cx.count("completed");
                }
            }
            let same = out.len() == model.out.len()
                && out.iter().zip(&model.out).all(|(a, b)| {
                    if b.is_nan() {
                        return a.contains("no");
                    }
                    let a = a.strip_suffix('#').and_then(|a| a.trim().parse::<f64>().ok());
                    a.is_some_and(|a| (a - b).abs() < 1e-9)
                });
            if !same {
                return fail(format!("outputs {:?} and not {:?}", out, model.out));
            }
            cx.state(&model.now);
            cx.traces += 1;
            Ok(())
        },
    )
}

fn way(i: u64) -> (usize, usize, Option<usize>) {
    let f = (i / 9) as usize;
    ((i % 3) as usize, (i / 3 % 3) as usize, if f == 0 { None } else { Some(f - 1) })
}

/// The sleeps, in microseconds, of the sequences given to the clock that machines have by default.
const NAPS: [u64; 5] = [0, 1, 300, 4_000, 21_000];

/// The clock that machines have by default, which is the system's: sleeps take no less than what they say, and
/// readings move with real time.  Only bounds that hold however busy the system is are checked.
fn host_clock(max: u32) -> Section {
    let k = NAPS.len() as u64;
    Section::new(
        "host-clock",
        seq_count(k, 0, max),
        move |i| format!("{:?} us", seq_decode(k, 0, i).iter().map(|n| NAPS[*n]).collect::<Vec<_>>()),
        move |i, cx| {
            let naps = seq_decode(k, 0, i);
            let mut code = String::from("OUT MONOTONIC");
            for n in &naps {
                code += &format!(": SLEEP {:.6}: OUT MONOTONIC", NAPS[*n] as f64 / 1e6);
            }
            let outer = Instant::now();
            let mut m = Mach::build(Opts::default(), None, |b| b);
            let inner = Instant::now();
            let r = m.feed(&code);
            let total = inner.elapsed().as_secs_f64();
            let limit = outer.elapsed().as_secs_f64();
            let out = m.out();
            let fail = |what: String| Err(Failure::new("host-clock", format!("{}: {}", code, what)));
            let mut times = vec![];
            for o in &out {
                match o.split('=').next_back().unwrap_or("").trim_matches(|c: char| !c.is_ascii_digit()).parse::<f64>() {
                    Ok(t) => times.push(t),
                    Err(_) => return fail(format!("{:?} {:?}", r, out)),
                }
            }
            if r != Outcome::Done(None) || times.len() != naps.len() + 1 {
                return fail(format!("{:?} {:?}", r, out));
            }
            cx.step(naps.len() as u64 + 1);
            for (j, n) in naps.iter().enumerate() {
                let d = times[j + 1] - times[j];
                if d < NAPS[*n] as f64 / 1e6 - 2e-6 {
                    return fail(format!("{:?}: sleep {} took {}", times, j, d));
                }
            }
            let all = times[naps.len()] - times[0];
            if all > total + 2e-6 {
                return fail(format!("{:?}: {} in {} of {}", times, all, total, limit));
            }
            cx.count("naps");
            cx.state(&naps);
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        durations(),
        boundaries(),
        rejected(),
        readings(),
        histories(tier.pick(3, 4)),
        host_clock(tier.pick(3, 4)),
    ]
}
