//! W02: the web frontend shows and understands what the interpreter on a plain console would.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::page::{Page, Press, read_text};
use crate::refx::{Files, Ref};
use Press::*;
use web_sys::fake;

pub fn property() -> Property {
    Property {
        id: "W02",
        rule: "The real crate of the web frontend, built natively on a stand-in for the browser, against the interpreter \
               on a plain in-memory screen: all sequences of up to 3 (thorough: 4) presses out of 47 keys, combinations, input events \
               and buttons at the prompt and in the editor, and all sequences of up to 2 (thorough: 3) of 37 statements \
               on screens of several sizes; after each, every pixel, the tones and the waits are compared.",
        assumptions: &[
            "paths are compared by what is painted, not by the smoothing that a browser applies",
            "the stand-in behaves like the HTML standard says",
        ],
        sections,
    }
}

const PRESSES: [Press; 47] = [
    Char('a'),
    Char('Z'),
    Char('.'),
    Char('\''),
    Char('"'),
    Char('('),
    Char(' '),
    Char('é'),
    Char('\n'),
    Char('#'),
    Event(8, "Backspace", false, false, false),
    Event(9, "Tab", false, false, false),
    Event(27, "Escape", false, false, false),
    Event(33, "PageUp", false, false, false),
    Event(34, "PageDown", false, false, false),
    Event(35, "End", false, false, false),
    Event(36, "Home", false, false, false),
    Event(37, "ArrowLeft", false, false, false),
    Event(38, "ArrowUp", false, false, false),
    Event(39, "ArrowRight", false, false, false),
    Event(40, "ArrowDown", false, false, false),
    Event(46, "Delete", false, false, false),
    Event(65, "a", true, false, false),
    Event(66, "b", true, false, false),
    Event(67, "c", true, false, false),
    Event(68, "d", true, false, false),
    Event(69, "e", true, false, false),
    Event(70, "f", true, false, false),
    Event(74, "j", true, false, false),
    Event(77, "m", true, false, false),
    Event(78, "n", true, false, false),
    Event(80, "p", true, false, false),
    Event(88, "x", true, false, false),
    Event(88, "x", false, true, false),
    Event(67, "c", false, false, true),
    Event(67, "c", false, true, false),
    Event(16, "Shift", false, false, false),
    Event(112, "F1", false, false, false),
    Event(229, "Process", false, false, false),
    Input(Some("word")),
    Input(Some("é")),
    Input(None),
    Escape,
    Up,
    Down,
    Left,
    Right,
];

/// The page and its reference, side by side.
pub struct Pair {
    pub page: Page,
    pub r: Ref,
    w: usize,
    h: usize,
}

impl Pair {
    pub fn open(w: usize, h: usize, files: &Files, epoch: f64, tz: f64) -> Self {
        js_sys::EPOCH_MS.set(epoch);
        js_sys::TZ_MIN.set(tz);
        let mut page = Page::open(w, h);
        page.frame_ms = 0.0;
        let r = Ref::open(w, h, files, epoch, tz);
        let mut p = Pair { page, r, w, h };
        p.settle();
        p
    }

    pub fn settle(&mut self) {
        self.page.settle(100_000);
        self.r.poll();
    }

    pub fn press(&mut self, p: &Press) {
        self.page.press(p);
        self.r.press(p);
        self.settle();
    }

    pub fn line(&mut self, text: &str) {
        for c in text.chars() {
            self.page.press(&Char(c));
            self.r.press(&Char(c));
        }
        self.press(&Char('\n'));
    }

    /// Compares everything that can be seen and heard.
    pub fn same(&self, when: &str) -> Result<(), Failure> {
        if self.page.over != self.r.over {
            return Err(Failure::new("the session ended", when.to_owned()));
        }
        let errors = fake::errors();
        if !errors.is_empty() {
            return Err(Failure::new("an error in the page", format!("{}: {:?}", when, errors)));
        }
        {
            let (a, b) = (self.page.canvas.borrow(), self.r.canvas.borrow());
            if a.px != b.px {
                let i = (0..a.px.len()).find(|i| a.px[*i] != b.px[*i]).unwrap();
                let n = (0..a.px.len()).filter(|i| a.px[*i] != b.px[*i]).count();
                let ta = read_text(self.w, self.h, &a.px);
                let tb = read_text(self.w, self.h, &b.px);
                let row = (0..ta.len()).find(|r| ta[*r] != tb[*r]);
                let text = match row {
                    Some(r) => format!("row {}: {:?} instead of {:?}", r, ta[r], tb[r]),
                    None => "the same text".to_owned(),
                };
                return Err(Failure::new(
                    "what the page shows",
                    format!(
                        "{}: {} pixels, first ({}, {}) {:?} instead of {:?}; {}",
                        when,
                        n,
                        i % self.w,
                        i / self.w,
                        a.px[i],
                        b.px[i],
                        text
                    ),
                ));
            }
        }
        let waits = fake::with(|w| w.sleeps.clone());
        if waits != *self.r.log.waits.borrow() {
            return Err(Failure::new(
                "the waits",
                format!("{}: {:?} instead of {:?}", when, waits, self.r.log.waits.borrow()),
            ));
        }
        let audio = fake::with(|w| w.audio.clone());
        let strip = |v: &[String]| -> Vec<String> {
            v.iter().map(|s| s.split(" at ").next().unwrap().to_owned()).collect()
        };
        if strip(&audio) != strip(&self.r.log.tones.borrow()) {
            return Err(Failure::new(
                "the tones",
                format!("{}: {:?} instead of {:?}", when, audio, self.r.log.tones.borrow()),
            ));
        }
        Ok(())
    }
}

/// Sizes of the screen: exact, with a margin at the right, at the bottom, and both.
const SIZES: [(usize, usize); 4] = [(320, 96), (333, 96), (320, 103), (170, 95)];

const STATEMENTS: [&str; 37] = [
    "PRINT \"hello\"",
    "PRINT \"0123456789012345678901234567890123456789\"",
    "CLS",
    "COLOR 1, 4",
    "COLOR , 2: CLS",
    "COLOR",
    "LOCATE 2, 1: PRINT \"x\"",
    "LOCATE 19, 3: PRINT \"yz\";",
    "GFX_PIXEL 5, 6",
    "GFX_PIXEL 500, -6",
    "GFX_LINE 1, 2, 60, 40",
    "GFX_LINE -5, 90, 400, 3",
    "GFX_RECT 3, 4, 33, 50",
    "GFX_RECT 300, 80, 350, 120",
    "GFX_RECTF 60, 10, 81, 30",
    "GFX_RECTF 30, 40, 20, 10",
    "GFX_RECTF -8, -9, 4, 5",
    "GFX_CIRCLE 40, 40, 13",
    "GFX_CIRCLE 0, 95, 30",
    "GFX_CIRCLEF 100, 50, 9",
    "GFX_TRI 5, 5, 50, 10, 20, 60",
    "GFX_TRIF 105, 5, 150, 10, 120, 60",
    "DIM p(8) AS INTEGER: p(0) = 9: p(1) = 8: p(2) = 70: p(3) = 20: p(4) = 50: p(5) = 88: p(6) = 3: p(7) = 55: GFX_POLY p",
    "DIM q(6) AS INTEGER: q(0) = 9: q(1) = 8: q(2) = 70: q(3) = 20: q(4) = 50: q(5) = 88: GFX_POLYF q",
    "PRINT GFX_PEEK(5, 6); GFX_PEEK(160, 90); GFX_PEEK(-1, 0); GFX_PEEK(5000, 1)",
    "GFX_FILL 10, 93",
    "PRINT GFX_WIDTH; GFX_HEIGHT",
    "GFX_SYNC FALSE: PRINT \"a\": GFX_SYNC: GFX_SYNC TRUE",
    "GFX_SYNC FALSE",
    "SLEEP 0.25",
    "SLEEP 3000000",
    "BEEP",
    "SOUND 440, 0.1",
    "SOUND 0, 0.1",
    "PRINT INKEY",
    "INPUT \"n\", n",
    "HELP",
];

fn sections(tier: Tier) -> Vec<Section> {
    let mut out = vec![];

    let hi = tier.pick(2, 3);
    let k = PRESSES.len() as u64;
    let n = seq_count(k, 1, hi);
    let plan = move |idx: u64| -> (usize, Vec<usize>) {
        let v = mixed(&[2, n], idx);
        (v[0], seq_decode(k, 1, v[1] as u64))
    };
    out.push(Section::new(
        "presses",
        product(&[2, n]),
        move |idx| {
            let (place, seq) = plan(idx);
            let seq: Vec<&Press> = seq.iter().map(|i| &PRESSES[*i]).collect();
            format!("in the {}: {:?}", ["prompt", "editor"][place], seq)
        },
        move |idx, cx| {
            let (place, seq) = plan(idx);
            fake::reload(crate::page::URL, false);
            let mut p = Pair::open(320, 96, &Files::new(), 0.0, 0.0);
            if place == 1 {
                p.line("EDIT");
            } else {
                for c in "PRI".chars() {
                    p.press(&Char(c));
                }
            }
            p.same("at the start")?;
            for i in seq {
                p.press(&PRESSES[i]);
                cx.step(1);
                p.same(&format!("after {:?}", PRESSES[i]))?;
            }
            // The whole input shows when the line ends.
            for c in ['q', '\n'] {
                p.press(&Char(c));
            }
            p.same("at the end")?;
            cx.state(&(place, p.page.shot()));
            cx.traces += 1;
            Ok(())
        },
    ));

    let hi = tier.pick(2, 3);
    let k = STATEMENTS.len() as u64;
    let n = seq_count(k, 1, hi);
    let sizes = tier.pick(2u64, 1);
    let plan = move |idx: u64| -> (usize, Vec<usize>) {
        let v = mixed(&[sizes, n], idx);
        let seq = seq_decode(k, 1, v[1] as u64);
        // In the thorough tier the sizes go around the sequences.
        let size = if sizes == 1 { (v[1] + seq.iter().sum::<usize>()) % SIZES.len() } else { v[0] * 2 };
        (size, seq)
    };
    out.push(statements("statements", product(&[sizes, n]), plan));

    // Every statement alone and after others that fill the screen, in all sizes.
    let n = SIZES.len() as u64 * k * 3;
    let plan = move |idx: u64| -> (usize, Vec<usize>) {
        let v = mixed(&[SIZES.len() as u64, k, 3], idx);
        let mut seq = vec![];
        for _ in 0..v[2] {
            seq.extend([4, 1, 16, 1]);
        }
        seq.push(v[1]);
        seq.push(1);
        (v[0], seq)
    };
    out.push(statements("after others", n, plan));
    out
}

fn statements(
    name: &str,
    n: u64,
    plan: impl Fn(u64) -> (usize, Vec<usize>) + Clone + Send + Sync + 'static,
) -> Section {
    let plan2 = plan.clone();
    Section::new(
        name,
        n,
        move |idx| {
            let (size, seq) = plan2(idx);
            let seq: Vec<&str> = seq.iter().map(|i| STATEMENTS[*i]).collect();
            format!("on {:?}: {:?}", SIZES[size], seq)
        },
        move |idx, cx| run(plan(idx), cx),
    )
}

fn run((size, seq): (usize, Vec<usize>), cx: &mut Cx) -> CaseResult {
    let (w, h) = SIZES[size];
    fake::reload(crate::page::URL, false);
    let mut p = Pair::open(w, h, &Files::new(), 0.0, 0.0);
    let want = format!("{}x{} pixels, {}x{} chars", w, h, w / 8, h / 16);
    if p.page.size != want {
        return Err(Failure::new("the size of the screen", format!("{:?} instead of {:?}", p.page.size, want)));
    }
    p.same("at the start")?;
    for i in seq {
        p.line(STATEMENTS[i]);
        cx.step(1);
        p.same(&format!("after {}", STATEMENTS[i]))?;
    }
    cx.state(&(size, p.page.shot()));
    cx.traces += 1;
    Ok(())
}

pub fn debug() {
    fake::reload(crate::page::URL, false);
    let mut p = Pair::open(640, 103, &Files::new(), 0.0, 0.0);
    println!("{:?} {:?}", read_text(640, 103, &p.page.shot()), p.page.over);
    for l in ["COLOR , 2: CLS", "PRINT 1", "PRINT 2", "PRINT 3", "PRINT 4"] {
        p.line(l);
        println!("{:?} {:?} {:?}", read_text(640, 103, &p.page.shot()), p.same("x"), p.page.shot()[640 * 102]);
    }
}
