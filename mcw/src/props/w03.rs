//! W03: a running program leaves the page alive, can be interrupted, and shows what it presents.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product};
use crate::page::{Event, Page, Press, URL, read_text};
use web_sys::fake;

pub fn property() -> Property {
    Property {
        id: "W03",
        rule: "The real crate of the web frontend, built natively on a stand-in for the browser with a logical clock: 21 endless \
               programs, 6 speeds of the computer, with Ctrl+C (and a key before it) at each of the first 12 (thorough: 40) \
               events; programs that present pictures, look at the picture at each frame; programs that compute, sleep and \
               sound, look at how long the page does not answer and when they go on.",
        assumptions: &["a piece of a program between two jumps takes little time"],
        sections,
    }
}

const CTRL_C: Press = Press::Event(67, "c", true, false, false);

/// Endless programs, and for how long they wait at once at most (in milliseconds).
const ENDLESS: [(&str, f64); 21] = [
    ("WHILE TRUE: WEND", 0.0),
    ("DO: LOOP", 0.0),
    ("a = 0: DO: a = a + 1: LOOP UNTIL FALSE", 0.0),
    ("FOR i = 1 TO 2000000000: NEXT", 0.0),
    ("@x: GOTO @x", 0.0),
    ("@y: GOSUB @z: GOTO @y: @z: RETURN", 0.0),
    ("a = 0: DO: WHILE a < 10: a = a + 1: WEND: a = 0: LOOP", 0.0),
    ("ON ERROR RESUME NEXT: @d: a = 1 / 0: GOTO @d", 0.0),
    ("ON ERROR RESUME NEXT: DO: a = 1 / 0: LOOP", 0.0),
    ("DO: PRINT \"x\": LOOP", 0.0),
    ("DO: GFX_PIXEL 1, 1: GFX_SYNC: LOOP", 0.0),
    ("DO: SLEEP 0.01: LOOP", 10.0),
    ("DO: k$ = INKEY: LOOP", 0.0),
    ("DO: SOUND 440, 0.02: LOOP", 20.0),
    ("@h: ON ERROR GOTO @h: COLOR -1", 0.0),
    ("@h: ON ERROR GOTO @h: SLEEP -1", 0.0),
    ("FOR i = 1 TO 2: i = 0: NEXT", 0.0),
    ("SUB w: DO: LOOP: END SUB: w", 0.0),
    ("FUNCTION f: WHILE TRUE: WEND: END FUNCTION: PRINT 1 + f", 0.0),
    ("DO: SELECT CASE 1: CASE 1: END SELECT: LOOP UNTIL FALSE", 0.0),
    ("DO: a = RND(1): IF a > 2 THEN PRINT \"never\": LOOP", 0.0),
];

const STEPS: [f64; 6] = [1.0, 3.0, 90.0, 999.0, 1000.0, 4000.0];

fn open(no_performance: bool) -> Page {
    fake::reload(URL, false);
    fake::with(|w| w.no_performance = no_performance);
    js_sys::EPOCH_MS.set(1_700_000_000_000.0);
    let mut p = Page::open(640, 160);
    p.settle(1000);
    p
}

/// Runs a program at a speed: from the end of its line on.
fn start(p: &mut Page, code: &str, step: f64) {
    p.type_in(code);
    p.settle(1000);
    p.longest = 0.0;
    js_sys::STEP_MS.set(step);
    p.type_in("\n");
}

fn text(p: &Page) -> Vec<String> {
    read_text(640, 160, &p.shot())
}

fn line(p: &mut Page, s: &str) {
    p.type_in(s);
    p.type_in("\n");
}

/// Whether the prompt answers.
fn answers(p: &mut Page) -> CaseResult {
    js_sys::STEP_MS.set(0.0);
    // What is left of earlier keys.
    p.type_in("\n");
    p.settle(1000);
    line(p, "CLS");
    p.settle(1000);
    line(p, "PRINT 6 * 7");
    if !p.settle(1000) {
        return Err(Failure::new("the page does not get to wait", format!("{:?}", text(p))));
    }
    let t = text(p);
    if !t.iter().any(|l| l == " 42") {
        return Err(Failure::new("the prompt does not answer", format!("{:?}", t)));
    }
    let e = fake::errors();
    if !e.is_empty() {
        return Err(Failure::new("an error in the page", format!("{:?}", e)));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut out = vec![];
    let top = tier.pick(12u64, 40);
    let before = tier.pick(4u64, 13);
    let radices = [ENDLESS.len() as u64, STEPS.len() as u64, top, before];
    out.push(Section::new(
        "interruptions",
        product(&radices),
        move |idx| {
            let v = mixed(&radices, idx);
            format!(
                "{} at {} ms per look at the clock, Ctrl+C after {} events{}",
                ENDLESS[v[0]].0,
                STEPS[v[1]],
                v[2],
                if v[3] == 0 { String::new() } else { format!(" and a key after {}", v[3] - 1) }
            )
        },
        move |idx, cx| {
            let v = mixed(&radices, idx);
            if v[3] > v[2] + 1 {
                cx.trivial += 1;
                return Ok(());
            }
            interrupt(v[0], STEPS[v[1]], v[2], v[3].checked_sub(1), cx)
        },
    ));

    let radices = [PICTURES.len() as u64, STEPS.len() as u64 + 1, 2, FRAMES.len() as u64];
    out.push(Section::new(
        "pictures",
        product(&radices),
        move |idx| {
            let v = mixed(&radices, idx);
            format!(
                "{} at {} ms per look at the clock, frames of {} ms",
                PICTURES[v[0]].0,
                STEPS.get(v[1]).unwrap_or(&0.0),
                FRAMES[v[3]]
            )
        },
        move |idx, cx| {
            let v = mixed(&radices, idx);
            pictures(v[0], *STEPS.get(v[1]).unwrap_or(&0.0), v[2] == 1, FRAMES[v[3]], cx)
        },
    ));

    let radices = [TIMED.len() as u64, STEPS.len() as u64 + 1, 2];
    out.push(Section::new(
        "time",
        product(&radices),
        move |idx| {
            let v = mixed(&radices, idx);
            format!("{} at {} ms per look at the clock", TIMED[v[0]].0, *STEPS.get(v[1]).unwrap_or(&0.0))
        },
        move |idx, cx| {
            let v = mixed(&radices, idx);
            timed(v[0], *STEPS.get(v[1]).unwrap_or(&0.0), v[2] == 1, cx)
        },
    ));
    out
}

/// How long the page may go without answering.
fn bound(step: f64) -> f64 {
    1000.0 + 6.0 * step
}

fn interrupt(prog: usize, step: f64, at: usize, key: Option<usize>, cx: &mut Cx) -> CaseResult {
    let (code, wait) = ENDLESS[prog];
    let mut p = open(false);
    start(&mut p, code, step);
    p.poll();
    for i in 0..=at {
        if key == Some(i) {
            p.press(&Press::Char('\n'));
        }
        if i == at {
            break;
        }
        let e = p.enabled();
        let Some(e) = e.first() else {
            return Err(Failure::new("the program stopped", format!("after {} events: {:?}", i, text(&p))));
        };
        p.fire(*e);
        cx.step(1);
    }
    p.press(&CTRL_C);
    let pressed = fake::now();
    // It must stop soon: as soon as the page gets control and the program goes on.
    let mut events = 0;
    p.poll();
    while let Some(e) = p.enabled().first() {
        if events == 20 {
            return Err(Failure::new("not interrupted", format!("{:?}", text(&p))));
        }
        p.fire(*e);
        events += 1;
        cx.step(1);
    }
    let took = fake::now() - pressed;
    if took > bound(step) + wait + 16.0 * events as f64 {
        return Err(Failure::new("interrupted late", format!("{} ms", took)));
    }
    if p.longest > bound(step) + wait {
        return Err(Failure::new("the page did not answer", format!("for {} ms", p.longest)));
    }
    if !text(&p).iter().any(|l| l.contains("BREAK")) {
        return Err(Failure::new("nothing says that it was interrupted", format!("{:?}", text(&p))));
    }
    cx.state(&(prog, step as u64, at, key, p.shot()));
    cx.traces += 1;
    answers(&mut p)
}

/// Programs that present a picture in which each has one more dot, and how many.
const PICTURES: [(&str, i64); 7] = [
    ("GFX_SYNC FALSE: FOR i = 0 TO 5: GFX_PIXEL i, 150: GFX_SYNC: NEXT: GFX_SYNC TRUE", 6),
    ("GFX_SYNC FALSE: i = 0: DO: GFX_PIXEL i, 150: i = i + 1: GFX_SYNC: LOOP UNTIL i = 9: GFX_SYNC TRUE", 9),
    ("GFX_SYNC FALSE: i = 0: WHILE i < 4: GFX_PIXEL i, 150: GFX_SYNC: i = i + 1: WEND: GFX_SYNC TRUE", 4),
    ("GFX_SYNC FALSE: i = 0: @l: GFX_PIXEL i, 150: GFX_SYNC: i = i + 1: IF i < 5 THEN GOTO @l", 5),
    ("GFX_SYNC FALSE: FOR i = 0 TO 3: GFX_PIXEL i, 150: GFX_SYNC: FOR j = 0 TO 4: NEXT: NEXT: GFX_SYNC TRUE", 4),
    ("FOR i = 0 TO 3: GFX_PIXEL i, 150: GFX_SYNC: NEXT", 4),
    ("GFX_SYNC FALSE: FOR i = 0 TO 3: GFX_PIXEL i, 150: GFX_SYNC: SLEEP 0.1: NEXT: GFX_SYNC TRUE", -4),
];

fn dots(p: &Page) -> i64 {
    let px = p.shot();
    (0..20).filter(|x| px[150 * 640 + x] != [0, 0, 0]).count() as i64
}

/// How long frames are by the clock, which may be too coarse to see them.
const FRAMES: [f64; 3] = [16.0, 0.0, 100.0];

fn pictures(prog: usize, step: f64, no_performance: bool, frame: f64, cx: &mut Cx) -> CaseResult {
    let (code, want) = PICTURES[prog];
    let mut p = open(no_performance);
    line(&mut p, "CLS");
    p.settle(1000);
    p.frame_ms = frame;
    start(&mut p, code, step);
    // The pictures that the browser gets to paint: it does so whenever it has control for long.
    let mut seen = vec![];
    p.poll();
    let mut frames = 0;
    for _ in 0..1000 {
        match p.enabled().first() {
            Some(e) => {
                let n = dots(&p);
                if *e != Event::Message && n > 0 && seen.last() != Some(&n) {
                    seen.push(n);
                }
                if *e == Event::Frame && n > 0 {
                    frames += 1;
                }
                p.fire(*e);
                cx.step(1);
            }
            None => break,
        }
    }
    // The page also paints while it waits for a key.
    let n = dots(&p);
    if seen.last() != Some(&n) {
        seen.push(n);
    }
    let all: Vec<i64> = (1..=want.abs()).collect();
    if seen != all {
        return Err(Failure::new("the pictures", format!("{:?} instead of {:?}", seen, all)));
    }
    if want > 0 && frames > 2 * want + 4 {
        return Err(Failure::new("too many frames", format!("{} for {} pictures", frames, want)));
    }
    cx.state(&(prog, step as u64));
    cx.traces += 1;
    answers(&mut p)
}

/// Programs that end, what they must print and the least and most time that they wait on purpose.
const TIMED: [(&str, &str, f64); 21] = [
    ("FOR i = 1 TO 3000: NEXT: PRINT \"done\"", "done", 0.0),
    ("FOR i = 1 TO 300: PRINT i: NEXT: PRINT \"done\"", "done", 0.0),
    ("SLEEP 0: PRINT \"done\"", "done", 0.0),
    ("SLEEP 0.001: PRINT \"done\"", "done", 1.0),
    ("SLEEP 0.5: PRINT \"done\"", "done", 500.0),
    ("SLEEP 3600: PRINT \"done\"", "done", 3_600_000.0),
    ("SLEEP 2147483: PRINT \"done\"", "done", 2_147_483_000.0),
    ("SLEEP 0.2: SLEEP 0.3: PRINT \"done\"", "done", 500.0),
    ("FOR i = 1 TO 5: SLEEP 0.1: NEXT: PRINT \"done\"", "done", 500.0),
    ("t# = MONOTONIC: SLEEP 1.5: IF MONOTONIC - t# >= 1.5 THEN PRINT \"done\"", "done", 1500.0),
    ("t# = MONOTONIC: FOR i = 1 TO 50: NEXT: IF MONOTONIC >= t# THEN PRINT \"done\"", "done", 0.0),
    ("SOUND 440, 0.25: PRINT \"done\"", "done", 250.0),
    ("SOUND 440, 0.25: SOUND 220, 0.75: PRINT \"done\"", "done", 1000.0),
    ("SLEEP 2147483.647: PRINT \"done\"", "done", 2_147_483_647.0),
    ("SLEEP 2147483.75: PRINT \"not done\"", "ERROR", 0.0),
    ("SLEEP 2147484: PRINT \"not done\"", "ERROR", 0.0),
    ("SLEEP 4294967: PRINT \"not done\"", "ERROR", 0.0),
    ("SLEEP 4294967.5: PRINT \"not done\"", "ERROR", 0.0),
    ("SLEEP 2147483647: PRINT \"not done\"", "ERROR", 0.0),
    ("SLEEP 1e18: PRINT \"not done\"", "ERROR", 0.0),
    ("SOUND 440, 3000000: PRINT \"not done\"", "ERROR", 0.0),
];

fn timed(prog: usize, step: f64, no_performance: bool, cx: &mut Cx) -> CaseResult {
    let (code, want, wait) = TIMED[prog];
    let mut p = open(no_performance);
    start(&mut p, code, step);
    let start = fake::now();
    if !p.settle(100_000) {
        return Err(Failure::new("it does not end", format!("{:?}", text(&p))));
    }
    let took = fake::now() - start;
    let said = text(&p).iter().any(|l| l.starts_with(want));
    if !said {
        return Err(Failure::new("it does not get to its end", format!("{:?}", text(&p))));
    }
    if want == "ERROR" && text(&p).iter().any(|l| l.starts_with("not done")) {
        return Err(Failure::new("it goes on", format!("{:?}", text(&p))));
    }
    // The clock may be looked at a few times for each statement, but nothing else takes time
    // (printing waits for frames).
    if step == 0.0 && !code.contains("PRINT i") && took > wait + 500.0 {
        return Err(Failure::new("too late", format!("{} ms instead of {}", took, wait)));
    }
    if took < wait {
        return Err(Failure::new("too early", format!("{} ms instead of {}", took, wait)));
    }
    if p.longest > bound(step) {
        return Err(Failure::new("the page did not answer", format!("for {} ms", p.longest)));
    }
    // The sound is over when the program goes on.
    let audio = fake::with(|w| w.audio.clone());
    let (on, off) = (
        audio.iter().filter(|a| a.starts_with("start")).count(),
        audio.iter().filter(|a| a.starts_with("stop")).count(),
    );
    if on != off {
        return Err(Failure::new("a sound goes on", format!("{:?}", audio)));
    }
    let at = |s: &String| s.rsplit(' ').next().unwrap().parse::<f64>().unwrap();
    for w in audio.chunks(2) {
        if w.len() == 2 && want == "done" {
            let d = at(&w[1]) - at(&w[0]);
            let exp = if w[0].contains(" 220 ") { 750.0 } else { 250.0 };
            if d < exp || !w[0].contains("heard") {
                return Err(Failure::new("a sound", format!("{:?}", w)));
            }
        }
    }
    cx.step(p.polls);
    cx.state(&(prog, step as u64));
    cx.traces += 1;
    answers(&mut p)
}
