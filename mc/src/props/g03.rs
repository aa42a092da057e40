//! G03: the graphical console shows exactly the text, colors and cursor that a terminal would, pixel by pixel.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::gfxx::{Disp, pack};
use endbasic_std::console::{CharsXY, ClearType, Console, ansi_color_to_rgb};
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16, Font};
use endbasic_std::gfx::lcd::LcdSize;

pub fn property() -> Property {
    Property {
        id: "G03",
        rule: "All sequences of up to 3 (thorough: 4) of 29 console operations (text of every length around the width, \
               moves, erasures, colors, cursor visibility, alternate screen) and of up to 4 (thorough: 6) of the 12 \
               that scroll and wrap, on screens of 6 geometries and three fonts; of up to 2 (thorough: 3) of 8 on three large screens; after each, every pixel is compared with a \
               model that renders cells.",
        assumptions: &["the bitmaps of the fonts are right"],
        sections,
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Write(&'static str),
    Print(&'static str),
    Fit(i32),
    All,
    Line,
    Prev,
    Rest,
    Locate(i32, i32),
    Move(i16),
    Color(Option<u8>, Option<u8>),
    Hide,
    Show,
    Enter,
    Leave,
}
use Op::*;

const OPS: [Op; 29] = [
    Write("a"),
    Write(""),
    Write("é~\tB"),
    Fit(-1),
    Fit(0),
    Fit(1),
    Fit(100),
    Write("a longer text that takes several lines of the screen and scrolls"),
    Print(""),
    Print("xy"),
    Print("abcdef"),
    Print("01234567890123456789"),
    All,
    Line,
    Prev,
    Rest,
    Locate(0, 0),
    Locate(-1, -1),
    Locate(1, -1),
    Locate(-1, 0),
    Move(-1),
    Move(1),
    Color(Some(1), Some(4)),
    Color(None, Some(2)),
    Color(None, None),
    Hide,
    Show,
    Enter,
    Leave,
];

const SCROLL: [Op; 12] = [
    Write("ab"),
    Fit(0),
    Fit(1),
    Print("xyz"),
    Print(""),
    Write("0123456789abcdefghij"),
    Prev,
    Rest,
    Locate(-1, -1),
    Color(Some(1), Some(4)),
    Move(-1),
    Line,
];

struct Model {
    w: usize,
    h: usize,
    font: &'static Font,
    cw: usize,
    ch: usize,
    cols: usize,
    rows: usize,
    img: Vec<u32>,
    x: usize,
    y: usize,
    visible: bool,
    ansi: (Option<u8>, Option<u8>),
    cursor_color: u32,
    saved: Option<(Vec<u32>, usize, usize, (Option<u8>, Option<u8>))>,
}

const PAD: &str = "PQRSTUVWXYZ[]{}";

impl Model {
    fn new(w: usize, h: usize, font: &'static Font) -> Self {
        let (cw, ch) = (font.glyph_size.width, font.glyph_size.height);
        let mut m = Model {
            w,
            h,
            font,
            cw,
            ch,
            cols: w / cw,
            rows: h / ch,
            img: vec![0; w * h],
            x: 0,
            y: 0,
            visible: true,
            ansi: (None, None),
            cursor_color: 0,
            saved: None,
        };
        m.erase(0, 0, w, h);
        m.drawn();
        m
    }

    fn fg(&self) -> u32 {
        pack(ansi_color_to_rgb(self.ansi.0.unwrap_or(7)))
    }

    fn bg(&self) -> u32 {
        pack(ansi_color_to_rgb(self.ansi.1.unwrap_or(0)))
    }

    fn drawn(&mut self) {
        self.cursor_color = self.fg();
    }

    fn erase(&mut self, x: usize, y: usize, w: usize, h: usize) {
        let bg = self.bg();
        for r in self.img.chunks_mut(self.w).skip(y).take(h) {
            r[x..(x + w).min(self.w)].fill(bg);
        }
    }

    fn newline(&mut self) {
        self.x = 0;
        if self.y + 1 < self.rows {
            self.y += 1;
            return;
        }
        let line = self.w * self.ch;
        let text = line * self.rows;
        self.img.copy_within(line..text, 0);
        self.erase(0, (self.rows - 1) * self.ch, self.w, self.h);
    }

    fn text(&mut self, s: &str) {
        for c in s.chars() {
            if self.x == self.cols {
                self.newline();
            }
            let c = match c {
                ' '..='~' => c,
                c if c.is_control() => ' ',
                _ => '?',
            };
            let g = (c as usize - 32) * self.ch * self.font.stride;
            let (fg, bg) = (self.fg(), self.bg());
            for j in 0..self.ch {
                for i in 0..self.cw {
                    let b = self.font.data[g + j * self.font.stride + i / 8] & 0x80 >> (i % 8) != 0;
                    let at = (self.y * self.ch + j) * self.w + self.x * self.cw + i;
                    self.img[at] = if b { fg } else { bg };
                }
            }
            self.x += 1;
        }
    }

    /// What it makes of the operation; None when it is not a valid request.
    fn apply(&mut self, o: Op) -> Option<bool> {
        match o {
            Write(t) => self.text(t),
            Fit(n) => {
                let t = self.fit(n);
                self.text(&t)
            }
            Print(t) => {
                self.text(t);
                self.newline();
            }
            All => {
                self.erase(0, 0, self.w, self.h);
                (self.x, self.y) = (0, 0);
            }
            Line => {
                self.erase(0, self.y * self.ch, self.w, self.ch);
                self.x = 0;
            }
            Prev => {
                if self.x > 0 {
                    self.x -= 1;
                    self.erase(self.x * self.cw, self.y * self.ch, self.cw, self.ch);
                }
            }
            Rest => {
                if self.x == self.cols {
                    return None;
                }
                self.erase(self.x * self.cw, self.y * self.ch, self.w, self.ch)
            }
            Locate(..) => {
                let p = self.place(o);
                (self.x, self.y) = (p.x as usize, p.y as usize);
            }
            Move(n) => {
                let x = self.x as i64 + i64::from(n);
                if x < 0 || x >= self.cols as i64 {
                    return None;
                }
                self.x = x as usize;
            }
            Color(f, b) => {
                self.ansi = (f, b);
                return Some(true);
            }
            Hide => {
                self.visible = false;
                return Some(true);
            }
            Show => {
                if self.visible {
                    return Some(true);
                }
                self.visible = true;
            }
            Enter => {
                if self.saved.is_some() {
                    return Some(false);
                }
                self.saved = Some((self.img.clone(), self.x, self.y, self.ansi));
                self.erase(0, 0, self.w, self.h);
                (self.x, self.y) = (0, 0);
            }
            Leave => match self.saved.take() {
                None => return Some(false),
                Some((i, x, y, a)) => {
                    self.img = i;
                    (self.x, self.y) = (x, y);
                    self.ansi = a;
                }
            },
        }
        self.drawn();
        Some(true)
    }

    /// A text that is as long as the rest of the line and some more.
    fn fit(&self, n: i32) -> String {
        let len = (self.cols as i32 - self.x as i32 + n).max(0) as usize;
        PAD.chars().cycle().take(len).collect()
    }

    fn place(&self, o: Op) -> CharsXY {
        let Locate(x, y) = o else { panic!() };
        let wrap = |v: i32, n: usize| -> u16 {
            let v = if v < 0 { n as i32 + v } else { v };
            v.clamp(0, n as i32 - 1) as u16
        };
        CharsXY::new(wrap(x, self.cols), wrap(y, self.rows))
    }

    fn shows(&self) -> Vec<u32> {
        let mut i = self.img.clone();
        if self.visible && self.x < self.cols {
            for y in 0..self.ch {
                let at = (self.y * self.ch + y) * self.w + self.x * self.cw;
                i[at..at + self.cw].fill(self.cursor_color);
            }
        }
        i
    }
}

fn run(d: &mut Disp, m: &Model, o: Op) -> std::io::Result<()> {
    let c = &mut d.con;
    match o {
        Write(t) => c.write(t),
        Fit(n) => c.write(&m.fit(n)),
        Print(t) => c.print(t),
        All => c.clear(ClearType::All),
        Line => c.clear(ClearType::CurrentLine),
        Prev => c.clear(ClearType::PreviousChar),
        Rest => c.clear(ClearType::UntilNewLine),
        Locate(..) => c.locate(m.place(o)),
        Move(n) => c.move_within_line(n),
        Color(f, b) => c.set_color(f, b),
        Hide => c.hide_cursor(),
        Show => c.show_cursor(),
        Enter => c.enter_alt(),
        Leave => c.leave_alt(),
    }
}

fn differs(m: &Model, got: &[u32], exp: &[u32]) -> Option<String> {
    let i = got.iter().zip(exp).position(|(a, b)| a != b)?;
    let n = got.iter().zip(exp).filter(|(a, b)| a != b).count();
    let (x, y) = (i % m.w, i / m.w);
    Some(format!(
        "{} pixels differ, the first at {},{} (column {} of {}, row {} of {}): {:06x}, not {:06x}; cursor at {},{}",
        n,
        x,
        y,
        x / m.cw,
        m.cols,
        y / m.ch,
        m.rows,
        got[i],
        exp[i],
        m.x,
        m.y
    ))
}

/// A font of 2x2 pixels that tells characters apart by their two lowest bits.
static TINY: Font = Font { name: "tiny", glyph_size: LcdSize { width: 2, height: 2 }, stride: 1, data: &tiny() };

const fn tiny() -> [u8; 190] {
    let mut d = [0; 190];
    let mut i = 1;
    while i < 95 {
        d[i * 2] = ((i as u8) & 3) << 6;
        d[i * 2 + 1] = ((i as u8) >> 2 & 3) << 6;
        i += 1;
    }
    d
}

type Geometry = (&'static str, usize, usize, &'static Font);

/// Exact fits, margins, a single line, a single cell.
const TINIES: [Geometry; 6] = [
    ("6x3", 12, 6, &TINY),
    ("6x3 and margins", 13, 7, &TINY),
    ("9x1", 18, 2, &TINY),
    ("1x3", 2, 6, &TINY),
    ("1x1", 3, 3, &TINY),
    ("4x2", 8, 5, &TINY),
];

const FONTS: [Geometry; 4] = [
    ("5x8 font", 33, 26, &FONT_5X8),
    ("8x16 font", 64, 48, &FONT_VGA8X16),
    ("16x16 font", 64, 40, &FONT_16X16),
    ("16x16 font on 128x128", 128, 128, &FONT_16X16),
];

/// The sizes that consoles have.
const REAL: [Geometry; 3] = [
    ("800x600 with the 8x16 font", 800, 600, &FONT_VGA8X16),
    ("1280x20 with the 5x8 font", 1280, 20, &FONT_5X8),
    ("20x2400 with the 5x8 font", 20, 2400, &FONT_5X8),
];

/// Texts and places that only fit in large consoles.
const FAR: [Op; 8] = [
    Fit(-1),
    Fit(0),
    Fit(1),
    Locate(-1, -1),
    Locate(-1, 0),
    Move(-70),
    Move(300),
    Write("some words and then more of them that take two or three hundred columns of the screen, which is a lot for a \
           single text but not for a console as wide as one that fills a large window or a whole screen, 0123456789, \
           and a few more words for good measure until it is enough, abcdefghijklmnopqrstuvwxyz"),
];

fn history(name: &str, g: &Geometry, ops: &[Op], cx: &mut Cx) -> CaseResult {
    let mut d = Disp::new(g.1, g.2, 3, g.3);
    let mut m = Model::new(g.1, g.2, g.3);
    for (n, o) in ops.iter().enumerate() {
        let fail = |what: String| -> CaseResult {
            Err(Failure::new(
                format!("{}: {} {:?}", name, g.0, &ops[..=n]),
                format!("after {:?}: {}", o, what),
            ))
        };
        // What the operation is depends on where the cursor is.
        let mut next = Model { img: m.img.clone(), saved: m.saved.clone(), ..m };
        let Some(ok) = next.apply(*o) else {
            cx.trivial += 1;
            return Ok(());
        };
        let r = run(&mut d, &m, *o);
        m = next;
        cx.step(1);
        if r.is_ok() != ok {
            return fail(format!("{:?}", r));
        }
        if d.con.color() != m.ansi {
            return fail(format!("colors {:?}, not {:?}", d.con.color(), m.ansi));
        }
        let (got, exp) = (d.shot(), m.shows());
        if let Some(e) = differs(&m, &got, &exp) {
            return fail(e);
        }
        if !d.screen.borrow().bad.is_empty() {
            return fail(format!("{:?}", d.screen.borrow().bad));
        }
        cx.state(&(&got, m.x, m.y, m.saved.is_some()));
    }
    cx.traces += 1;
    Ok(())
}

fn histories(name: &'static str, geo: &'static [Geometry], set: &'static [Op], min: u32, max: u32) -> Section {
    let k = set.len() as u64;
    let r = [geo.len() as u64, seq_count(k, min, max)];
    let ops = move |i: u64| -> Vec<Op> { seq_decode(k, min, i).iter().map(|o| set[*o]).collect() };
    Section::new(
        name,
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{} {:?}", geo[d[0]].0, ops(d[1] as u64))
        },
        move |i, cx| {
            let d = mixed(&r, i);
            history(name, &geo[d[0]], &ops(d[1] as u64), cx)
        },
    )
}

/// All characters in every font.
fn glyphs() -> Section {
    let r = [FONTS.len() as u64, 300];
    Section::new(
        "glyphs",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let Some(c) = char::from_u32(d[1] as u32) else { return Ok(()) };
            let g = &FONTS[d[0]];
            let mut s = Disp::new(g.1, g.2, 3, g.3);
            let mut m = Model::new(g.1, g.2, g.3);
            let t = format!("x{}y", c);
            s.con.write(&t).unwrap();
            m.text(&t);
            m.drawn();
            cx.step(1);
            cx.traces += 1;
            cx.state(&s.shot());
            match differs(&m, &s.shot(), &m.shows()) {
                None => Ok(()),
                Some(e) => Err(Failure::new(format!("glyphs: {:?} in {}", c, g.0), e)),
            }
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        glyphs(),
        histories("histories", &TINIES, &OPS, 1, tier.pick(3, 4)),
        histories("scrolling", &TINIES, &SCROLL, 4, tier.pick(4, 6)),
        histories("sizes", &REAL, &FAR, 1, tier.pick(2, 3)),
        histories("fonts", &FONTS, &OPS, 1, tier.pick(2, 3)),
    ]
}
