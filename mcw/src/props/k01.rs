//! K01: the graphical window of the desktop.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, catch, mixed, product, seq_count, seq_decode};
use async_trait::async_trait;
use endbasic_std::Signal;
use endbasic_std::console::drawing::*;
use endbasic_std::console::graphics::{InputOps, RasterInfo, RasterOps};
use endbasic_std::console::{
    CharsXY, ClearType, Console, ConsoleSpec, GraphicsConsole, Key, PixelsXY, RGB, SizeInPixels, rgb_to_ansi_color,
};
use endbasic_std::gfx::lcd::fonts::{Font, Fonts};
use endbasic_std::sound::{NoopAudioOps, Tone};
use futures_lite::future::block_on;
use sdl2::event::Event;
use sdl2::keyboard::{Keycode, Mod};
use sdl2::{Call, Desktop};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "K01",
        rule: "The real crate of the SDL frontend, with its two threads, on a stand-in for the library of the desktop: all \
               sequences of up to 2 (thorough: 3) of 53 operations on windows of several sizes, fonts and colors (fresh, or with text and colors on the second screen), after each of which what \
               the window shows is compared with the interpreter's console on a plain screen; all sequences of up to \
               2 (thorough: 3) of 66 events before and between operations; events at all points of a session and of \
               its end, which is held at the worst moment; a failure of each single call to the library; tones, \
               also long and after failures; \
               and all specifications of the console out of several parts.",
        assumptions: &["the library of the desktop does what it documents"],
        sections,
    }
}

// --- The reference ---------------------------------------------------------------------------

/// A plain screen.
pub struct Plain {
    w: i32,
    h: i32,
    px: Vec<u32>,
    color: u32,
    font: &'static Font,
    shown: Rc<RefCell<Vec<u32>>>,
}

impl Plain {
    fn at(&self, x: i32, y: i32) -> Option<usize> {
        (x >= 0 && y >= 0 && x < self.w && y < self.h).then(|| (y * self.w + x) as usize)
    }
    fn set(&mut self, x: i32, y: i32) {
        if let Some(i) = self.at(x, y) {
            self.px[i] = self.color;
        }
    }
    fn line(&mut self, a: (i32, i32), b: (i32, i32)) {
        for (x, y) in sdl2::render::line(a, b) {
            self.set(x, y);
        }
    }
}

fn xy(p: PixelsXY) -> (i32, i32) {
    (i32::from(p.x), i32::from(p.y))
}

impl RasterOps for Plain {
    type ID = (i32, i32, Vec<u32>);

    fn get_info(&self) -> RasterInfo {
        let size = SizeInPixels::new(self.w as u16, self.h as u16);
        let glyph: SizeInPixels = self.font.glyph_size.into();
        RasterInfo {
            size_pixels: size,
            size_chars: CharsXY::new(self.w as u16 / glyph.width, self.h as u16 / glyph.height),
            glyph_size: glyph,
        }
    }
    fn set_draw_color(&mut self, c: RGB) {
        self.color = u32::from(c.0) << 16 | u32::from(c.1) << 8 | u32::from(c.2);
    }
    fn clear(&mut self) -> io::Result<()> {
        self.px.fill(self.color);
        Ok(())
    }
    fn present_canvas(&mut self) -> io::Result<()> {
        *self.shown.borrow_mut() = self.px.clone();
        Ok(())
    }
    fn peek_pixel(&self, p: PixelsXY) -> io::Result<Option<u8>> {
        let (x, y) = xy(p);
        Ok(self.at(x, y).and_then(|i| {
            let c = self.px[i];
            rgb_to_ansi_color(((c >> 16) as u8, (c >> 8) as u8, c as u8))
        }))
    }
    fn read_pixels(&mut self, p: PixelsXY, s: SizeInPixels) -> io::Result<Self::ID> {
        let (w, h, (x0, y0)) = (i32::from(s.width), i32::from(s.height), xy(p));
        let px = (0..w * h).map(|i| self.at(x0 + i % w, y0 + i / w).map_or(0, |i| self.px[i])).collect();
        Ok((w, h, px))
    }
    fn put_pixels(&mut self, p: PixelsXY, d: &Self::ID) -> io::Result<()> {
        let (x0, y0) = xy(p);
        for i in 0..d.0 * d.1 {
            if let Some(j) = self.at(x0 + i % d.0, y0 + i / d.0) {
                self.px[j] = d.2[i as usize];
            }
        }
        Ok(())
    }
    fn move_pixels(&mut self, from: PixelsXY, to: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let d = self.read_pixels(from, s)?;
        self.draw_rect_filled(from, s)?;
        self.put_pixels(to, &d)
    }
    fn write_text(&mut self, p: PixelsXY, text: &str) -> io::Result<()> {
        let font = self.font;
        draw_text(self, font, p, text)
    }
    fn draw_circle(&mut self, p: PixelsXY, r: u16) -> io::Result<()> {
        draw_circle(self, p, r)
    }
    fn draw_circle_filled(&mut self, p: PixelsXY, r: u16) -> io::Result<()> {
        draw_circle_filled(self, p, r)
    }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        if a != b {
            self.line(xy(a), xy(b));
        }
        Ok(())
    }
    fn draw_pixel(&mut self, p: PixelsXY) -> io::Result<()> {
        let (x, y) = xy(p);
        self.set(x, y);
        Ok(())
    }
    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        draw_poly(self, p)
    }
    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        draw_poly_filled(self, p)
    }
    fn draw_rect(&mut self, p: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let (x, y) = xy(p);
        let (x2, y2) = (x + i32::from(s.width.max(1)) - 1, y + i32::from(s.height.max(1)) - 1);
        self.line((x, y), (x2, y));
        self.line((x, y2), (x2, y2));
        self.line((x, y), (x, y2));
        self.line((x2, y), (x2, y2));
        Ok(())
    }
    fn draw_rect_filled(&mut self, p: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let (x, y) = xy(p);
        let (x2, y2) = (x + i32::from(s.width.max(1)), y + i32::from(s.height.max(1)));
        for y in y.max(0)..y2.min(self.h) {
            for x in x.max(0)..x2.min(self.w) {
                self.set(x, y);
            }
        }
        Ok(())
    }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        draw_tri(self, a, b, c)
    }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        draw_tri_filled(self, a, b, c)
    }
}

struct NoInput;

#[async_trait(?Send)]
impl InputOps for NoInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        unreachable!()
    }
}

struct Reference {
    console: GraphicsConsole<NoInput, Plain, NoopAudioOps>,
    shown: Rc<RefCell<Vec<u32>>>,
}

fn reference(w: u32, h: u32, font: &'static Font, fg: Option<u8>, bg: Option<u8>) -> Reference {
    let n = (w * h) as usize;
    let shown = Rc::new(RefCell::new(vec![0; n]));
    let plain = Plain { w: w as i32, h: h as i32, px: vec![0; n], color: 0, font, shown: shown.clone() };
    Reference { console: GraphicsConsole::new(NoInput, plain, NoopAudioOps, fg, bg).unwrap(), shown }
}

// --- A session -------------------------------------------------------------------------------

/// The side of the interpreter of a session, while the window is there.
struct Client {
    console: Option<Rc<RefCell<dyn Console>>>,
    desktop: Desktop,
    signals: Option<async_channel::Receiver<Signal>>,
}

impl Client {
    fn con(&self) -> std::cell::RefMut<'_, dyn Console> {
        self.console.as_ref().expect("open").borrow_mut()
    }

    /// Waits until the host has taken all events and has done whatever it does with them.
    fn settle(&self) -> CaseResult {
        if !self.desktop.wait(10_000, |s| s.events.is_empty()) {
            return Err(Failure::new("the window does not answer", "it does not look for events"));
        }
        let n = self.desktop.with(|s| s.polls);
        if !self.desktop.wait(10_000, |s| s.polls >= n + 2) {
            return Err(Failure::new("the window does not answer", "it does not look for events any more"));
        }
        Ok(())
    }

    fn keys(&self) -> Result<Vec<Key>, Failure> {
        let mut keys = vec![];
        while let Some(k) = block_on(self.con().poll_key()).map_err(|e| Failure::new("poll_key", e.to_string()))? {
            keys.push(k);
        }
        Ok(keys)
    }

    fn signals(&self) -> usize {
        let mut n = 0;
        while self.signals.as_ref().unwrap().try_recv().is_ok() {
            n += 1;
        }
        n
    }

    fn push(&self, e: &[Event]) {
        self.desktop.with(|s| s.events.extend(e.iter().cloned()));
    }

    /// Keeps the host just before it looks for events.
    fn hold(&self) -> CaseResult {
        self.desktop.with(|s| s.hold = true);
        if !self.desktop.wait(10_000, |s| s.holding) {
            return Err(Failure::new("the window does not answer", "it does not look for events"));
        }
        Ok(())
    }

    fn close(&mut self) {
        drop(self.console.take());
    }
}

/// Runs a session with the console of a specification.  `f` gets what building the console gave.
fn session(
    spec: &str,
    desktop: &Desktop,
    f: impl FnOnce(&mut Client, io::Result<()>) -> CaseResult + Send,
) -> CaseResult {
    let mut spec = ConsoleSpec::init(spec);
    let (tx, rx) = async_channel::unbounded();
    let (host, factory) = match endbasic_sdl::setup(&mut spec, tx, &Fonts::all()) {
        Ok(x) => x,
        Err(e) => {
            let mut c = Client { console: None, desktop: desktop.clone(), signals: Some(rx) };
            return f(&mut c, Err(e));
        }
    };
    spec.finish().map_err(|e| Failure::new("specification", e.to_string()))?;
    std::thread::scope(|s| {
        let d = desktop.clone();
        let client = s.spawn(move || {
            let mut c = Client { console: None, desktop: d, signals: Some(rx) };
            let r = catch(|| {
                let built = match factory.build() {
                    Ok(console) => {
                        c.console = Some(console);
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
                let r = f(&mut c, built);
                c.desktop.with(|s| s.hold = false);
                r
            });
            let r = match r {
                Ok(r) => {
                    let closed = catch(|| c.close());
                    r.and(closed.map_err(|e| Failure::new("panic at the end", e)))
                }
                Err(e) => {
                    // The end of a console whose window is gone would panic again.
                    std::mem::forget(c.console.take());
                    Err(Failure::new("panic", e))
                }
            };
            c.desktop.with(|s| s.hold = false);
            r
        });
        desktop.install();
        let hosted = catch(|| host.run());
        let r = client.join().expect("the client has no panics");
        match hosted {
            Ok(Ok(())) => r,
            Ok(Err(e)) => Err(Failure::new("the window fails", e.to_string())),
            Err(e) => Err(Failure::new("the window panics", e)),
        }
    })?;
    let alive = desktop.with(|s| s.alive);
    if alive != 0 {
        return Err(Failure::new("the library is still in use", String::new()));
    }
    Ok(())
}

fn named(r: CaseResult, name: String) -> CaseResult {
    r.map_err(|f| Failure::new(name, format!("{}: {}", f.key, f.detail)))
}

// --- Screens ---------------------------------------------------------------------------------

type Op = (&'static str, fn(&mut dyn Console) -> io::Result<String>);

macro_rules! ops {
    ($($c:ident => $e:expr),* $(,)?) => { &[$((stringify!($e), |$c| $e.map(|x| format!("{:?}", x)))),*] };
}

fn p(x: i16, y: i16) -> PixelsXY {
    PixelsXY { x, y }
}

const OPS: &[Op] = ops![
    c => c.print("ab"),
    c => c.print(""),
    c => c.print("a long text that wraps several times, even on wide ones"),
    c => c.write("x"),
    c => c.write("a\u{7}b\nc\td"),
    c => c.write("12345678"),
    c => c.write("é\u{1F600}"),
    c => c.clear(ClearType::All),
    c => c.clear(ClearType::CurrentLine),
    c => c.clear(ClearType::PreviousChar),
    c => { c.move_within_line(-1)?; c.clear(ClearType::UntilNewLine) },
    c => c.set_color(Some(9), Some(2)),
    c => c.set_color(None, Some(4)),
    c => c.set_color(Some(255), None),
    c => c.set_color(None, None),
    c => c.enter_alt(),
    c => c.leave_alt(),
    c => c.hide_cursor(),
    c => c.show_cursor(),
    c => c.locate(CharsXY::new(0, 0)),
    c => { let s = c.size_chars()?; c.locate(CharsXY::new(2.min(s.x - 1), 1.min(s.y - 1))) },
    c => { let s = c.size_chars()?; c.locate(CharsXY::new(s.x - 1, s.y - 1)) },
    c => c.move_within_line(1),
    c => c.move_within_line(-1),
    c => c.bucket_fill(p(3, 3)),
    c => c.bucket_fill(p(-1, 3)),
    c => c.draw_circle(p(20, 20), 10),
    c => c.draw_circle(p(0, 0), 0),
    c => c.draw_circle_filled(p(30, 5), 7),
    c => c.draw_line(p(1, 2), p(30, 20)),
    c => c.draw_line(p(-5, 40), p(300, -7)),
    c => c.draw_line(p(5, 5), p(5, 5)),
    c => c.draw_pixel(p(4, 4)),
    c => c.draw_pixel(p(-1, 0)),
    c => c.draw_poly(&[p(1, 1), p(20, 3), p(10, 30)]),
    c => c.draw_poly_filled(&[p(1, 1), p(20, 3), p(10, 30), p(2, 20)]),
    c => c.draw_rect(p(2, 2), p(20, 15)),
    c => c.draw_rect(p(20, 15), p(-2, -2)),
    c => c.draw_rect(p(7, 7), p(7, 7)),
    c => c.draw_rect_filled(p(3, 4), p(25, 9)),
    c => c.draw_rect_filled(p(30000, 30000), p(-30000, 20)),
    c => c.draw_rect_filled(p(7, 7), p(7, 20)),
    c => c.draw_tri(p(0, 0), p(15, 3), p(5, 20)),
    c => c.draw_tri_filled(p(0, 0), p(15, 3), p(5, 20)),
    c => c.peek_pixel(p(0, 0)),
    c => c.peek_pixel(p(5, 5)),
    c => c.peek_pixel(p(-1, 5)),
    c => c.peek_pixel(p(3000, 5)),
    c => c.sync_now(),
    c => c.set_sync(false),
    c => c.set_sync(true),
    c => Ok::<_, io::Error>((c.size_chars()?, c.size_pixels()?, c.glyph_size()?)),
    c => { for i in 0..12 { c.print(&format!("line {}", i))?; } Ok::<_, io::Error>(()) },
];

/// Sizes, fonts and colors.
const WINDOWS: [(u32, u32, &str, Option<u8>, Option<u8>); 4] = [
    (64, 55, "vga8x16", None, None),
    (61, 48, "vga8x16", Some(3), Some(20)),
    (57, 33, "5x8", Some(255), Some(0)),
    (8, 16, "vga8x16", None, Some(7)),
];

fn spec_of(w: usize) -> String {
    let (w, h, font, fg, bg) = WINDOWS[w];
    let mut s = format!("sdl:resolution={}x{},font={}", w, h, font);
    if let Some(c) = fg {
        s += &format!(",fg_color={}", c);
    }
    if let Some(c) = bg {
        s += &format!(",bg_color={}", c);
    }
    s
}

fn same(client: &Client, r: &Reference) -> CaseResult {
    let shown = client.desktop.with(|s| s.shown.clone());
    let want = r.shown.borrow();
    if shown != *want {
        let w = client.desktop.with(|s| s.size.0) as usize;
        let i = (0..shown.len().min(want.len())).find(|i| shown[*i] != want[*i]).unwrap_or(0);
        return Err(Failure::new(
            "the window",
            format!("{:06x} instead of {:06x} at {}, {}", shown[i], want[i], i % w, i / w),
        ));
    }
    let c = client.con().color();
    if c != r.console.color() {
        return Err(Failure::new("the colors", format!("{:?} instead of {:?}", c, r.console.color())));
    }
    Ok(())
}

/// What comes before: nothing, or colors, text and the other screen.
const BEFORE: [&[usize]; 2] = [&[], &[11, 2, 15, 12]];

fn screens(window: usize, before: usize, seq: &[usize], cx: &mut Cx) -> CaseResult {
    let (w, h, font, fg, bg) = WINDOWS[window];
    let d = Desktop::new(1000, 1000);
    let seq2: Vec<usize> = BEFORE[before].iter().chain(seq).copied().collect();
    session(&spec_of(window), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        let mut r = reference(w, h, Fonts::all().get(font).unwrap(), fg, bg);
        same(client, &r)?;
        for i in &seq2 {
            let got = (OPS[*i].1)(&mut *client.con()).map_err(|e| e.to_string());
            let want = (OPS[*i].1)(&mut r.console).map_err(|e| e.to_string());
            if got != want {
                return Err(Failure::new(OPS[*i].0, format!("{:?} instead of {:?}", got, want)));
            }
            same(client, &r).map_err(|f| Failure::new(OPS[*i].0, format!("{}: {}", f.key, f.detail)))?;
        }
        Ok(())
    })?;
    cx.step(seq.len() as u64);
    cx.traces += 1;
    d.with(|s| cx.state(&(window, before, &s.shown)));
    Ok(())
}

// --- Keys ------------------------------------------------------------------------------------

fn down(k: Option<Keycode>, keymod: Mod) -> Event {
    Event::KeyDown { timestamp: 0, window_id: 1, keycode: k, scancode: None, keymod, repeat: false }
}

fn text(t: &str) -> Event {
    Event::TextInput { timestamp: 0, window_id: 1, text: t.to_owned() }
}

/// All events and the keys that they mean.
fn events() -> Vec<(Event, Vec<Key>)> {
    use Keycode::*;
    let mut v = vec![(Event::Quit { timestamp: 0 }, vec![Key::EofOrDelete])];
    for (k, key) in [
        (A, Key::Home),
        (B, Key::ArrowLeft),
        (C, Key::Interrupt),
        (D, Key::EofOrDelete),
        (E, Key::End),
        (F, Key::ArrowRight),
        (J, Key::NewLine),
        (M, Key::NewLine),
        (N, Key::ArrowDown),
        (P, Key::ArrowUp),
    ] {
        v.push((down(Some(k), Mod::LCTRLMOD), vec![key.clone()]));
        v.push((down(Some(k), Mod::RCTRLMOD | Mod::NUMMOD | Mod::CAPSMOD), vec![key]));
        // The character comes as an event of its own.
        v.push((down(Some(k), Mod::NOMOD), vec![]));
    }
    for (k, key) in [
        (Backspace, Key::Backspace),
        (Delete, Key::Delete),
        (End, Key::End),
        (Escape, Key::Escape),
        (Home, Key::Home),
        (Return, Key::NewLine),
        (Tab, Key::Tab),
        (Down, Key::ArrowDown),
        (Left, Key::ArrowLeft),
        (Right, Key::ArrowRight),
        (Up, Key::ArrowUp),
        (PageDown, Key::PageDown),
        (PageUp, Key::PageUp),
    ] {
        v.push((down(Some(k), Mod::NOMOD), vec![key.clone()]));
        v.push((down(Some(k), Mod::NUMMOD), vec![key]));
    }
    v.push((text("a"), vec![Key::Char('a')]));
    v.push((text("é"), vec![Key::Char('é')]));
    v.push((text("日本"), vec![Key::Char('日'), Key::Char('本')]));
    v.push((text(""), vec![]));
    v.push((down(None, Mod::NOMOD), vec![]));
    v.push((down(Some(LShift), Mod::LSHIFTMOD), vec![]));
    v.push((down(Some(C), Mod::LSHIFTMOD), vec![]));
    v.push((
        Event::KeyUp { timestamp: 0, window_id: 1, keycode: Some(C), scancode: None, keymod: Mod::LCTRLMOD, repeat: false },
        vec![],
    ));
    v.push((Event::MouseMotion { timestamp: 0, window_id: 1, x: 1, y: 1 }, vec![]));
    v
}

fn keys(seq: &[usize], place: usize, cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    let all = events();
    let some: Vec<(Event, Vec<Key>)> = seq.iter().map(|i| all[*i].clone()).collect();
    cx.step(seq.len() as u64);
    session(&spec_of(3), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        let want: Vec<Key> = some.iter().flat_map(|e| e.1.clone()).collect();
        let breaks = want.iter().filter(|k| **k == Key::Interrupt).count();
        let evs: Vec<Event> = some.iter().map(|e| e.0.clone()).collect();
        match place {
            // All at once.
            0 => client.push(&evs),
            // While the program shows things.
            1 => {
                for e in &evs {
                    client.push(std::slice::from_ref(e));
                    client.con().write("x").map_err(|e| Failure::new("write", e.to_string()))?;
                }
            }
            // With the program behind.
            _ => {
                client.hold()?;
                client.push(&evs);
                client.desktop.with(|s| s.hold = false);
            }
        }
        let mut got = vec![];
        if place == 2 && !want.is_empty() {
            // It waits for the keys.
            for _ in 0..want.len() {
                got.push(block_on(client.con().read_key()).map_err(|e| Failure::new("read_key", e.to_string()))?);
            }
        }
        client.settle()?;
        got.extend(client.keys()?);
        if got != want {
            return Err(Failure::new("the keys", format!("{:?} instead of {:?}", got, want)));
        }
        let n = client.signals();
        if n != breaks {
            return Err(Failure::new("the interruptions", format!("{} instead of {}", n, breaks)));
        }
        Ok(())
    })?;
    cx.state(&(seq, place));
    cx.traces += 1;
    Ok(())
}

// --- The end ---------------------------------------------------------------------------------

/// Events that come while a session ends, when they come and what is left of the interpreter then.
fn ending(first: usize, second: usize, moment: usize, cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    let all = events();
    let evs = vec![all[first].0.clone(), all[second].0.clone()];
    cx.step(3);
    session(&spec_of(3), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        client.con().print("x").map_err(|e| Failure::new("print", e.to_string()))?;
        match moment {
            // Just before the end.
            0 => {
                client.push(&evs);
                client.close();
            }
            // The interpreter ends while the host is about to look at the events.
            1 => {
                client.hold()?;
                client.push(&evs);
                client.close();
                client.signals = None;
                client.desktop.with(|s| s.hold = false);
            }
            // The same, and something still waits for interruptions.
            2 => {
                client.hold()?;
                client.push(&evs);
                client.close();
                client.desktop.with(|s| s.hold = false);
            }
            // Nothing waits for interruptions although the console is there.
            3 => {
                client.signals = None;
                client.hold()?;
                client.push(&evs);
                client.desktop.with(|s| s.hold = false);
                client.settle()?;
                client.con().print("y").map_err(|e| Failure::new("print", e.to_string()))?;
                client.close();
            }
            // After the end.
            _ => {
                client.close();
                client.push(&evs);
            }
        }
        Ok(())
    })?;
    cx.state(&(first, second, moment));
    cx.traces += 1;
    Ok(())
}

// --- Failures --------------------------------------------------------------------------------

const CALLS: [Call; 13] = [
    Call::Init,
    Call::EventPump,
    Call::Video,
    Call::Window,
    Call::Surface,
    Call::Canvas,
    Call::WindowSurface,
    Call::Finish,
    Call::Audio,
    Call::Queue,
    Call::Play,
    Call::Read,
    Call::Draw,
];

fn play(c: &mut dyn Console, f: u32, ms: u64) -> io::Result<String> {
    block_on(c.play_tone(Tone::square(f, Duration::from_millis(ms)))).map(|x| format!("{:?}", x))
}

fn failures(call: usize, nth: u64, ops: &[usize], cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    d.with(|s| s.fails.insert(CALLS[call], nth));
    let ops2 = ops.to_vec();
    cx.step(ops.len() as u64);
    let mut hit = false;
    let hit2 = &mut hit;
    session(&spec_of(0), &d, move |client, built| {
        let happened = |c: &Client| c.desktop.with(|s| s.calls.get(&CALLS[call]).copied().unwrap_or(0) >= nth);
        let said = |e: &io::Error| e.to_string().contains("fails");
        match (built, happened(client)) {
            (Ok(()), false) => (),
            (Err(e), true) if said(&e) => {
                *hit2 = true;
                return Ok(());
            }
            (r, h) => {
                return Err(Failure::new("build", format!("{:?}, {}", r.map_err(|e| e.to_string()), h)));
            }
        }
        for i in ops2.iter().chain([&OPS.len(), &7, &0]) {
            let before = happened(client);
            let mut con = client.con();
            let r = if *i == OPS.len() { play(&mut *con, 100, 5) } else { (OPS[*i].1)(&mut *con) };
            drop(con);
            let name = OPS.get(*i).map_or("a tone", |o| o.0);
            let now = happened(client) && !before;
            *hit2 |= now;
            match r {
                Ok(_) if !now => (),
                Err(e) if now && said(&e) => (),
                // What makes no sense is an error in any case.
                Err(_) if *i == 16 || *i == 15 => (),
                r => return Err(Failure::new(name, format!("{:?} ({})", r.map_err(|e| e.to_string()), now))),
            }
        }
        client.settle()
    })?;
    if !hit {
        cx.trivial += 1;
    }
    cx.state(&(call, nth, ops, hit));
    cx.traces += 1;
    Ok(())
}

// --- Tones -----------------------------------------------------------------------------------

const PITCHES: [u32; 7] = [1, 20, 440, 800, 22_050, 44_100, 2_000_000_000];
const LENGTHS_US: [u64; 9] = [0, 10, 12, 1_000, 22_676, 250_000, 1_000_000, 2_500_000, 5_000_001];

fn tone(client: &Client, pitch: u32, us: u64) -> CaseResult {
    client.desktop.with(|s| {
        s.heard.clear();
        s.fresh = true;
        s.gaps = 0;
        s.peak = 0;
    });
    let t = Tone::square(pitch, Duration::from_micros(us));
    block_on(client.con().play_tone(t)).map_err(|e| Failure::new("play_tone", e.to_string()))?;
    let (got, gaps, peak, playing) =
        client.desktop.with(|s| (std::mem::take(&mut s.heard), s.gaps, s.peak, s.playing));
    let count = (us as f64 * 44_100.0 / 1e6).round() as usize;
    if got.len() != count {
        return Err(Failure::new("the tone", format!("{} samples instead of {}", got.len(), count)));
    }
    if gaps > 0 {
        return Err(Failure::new("the tone", format!("it is silent {} times", gaps)));
    }
    if peak > 10_000_000 {
        return Err(Failure::new("the tone", format!("{} samples wait at once", peak)));
    }
    if playing {
        return Err(Failure::new("the tone", "it goes on"));
    }
    let Some(top) = got.first().copied() else { return Ok(()) };
    if top == 0 {
        return Err(Failure::new("the tone", "it is silent"));
    }
    for (i, s) in got.iter().enumerate() {
        // Half a period is 44100 / pitch / 2 samples.
        let phase = (i as f64) / (44_100.0 / f64::from(pitch) / 2.0);
        let near = (phase - phase.round()).abs() < 1e-6;
        let high = (phase.floor() as u64) % 2 == 0;
        if *s != if high { top } else { -top } && !near {
            return Err(Failure::new("the tone", format!("{} at sample {}", s, i)));
        }
    }
    Ok(())
}

fn tones(v: &[usize], cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    let list = [(PITCHES[v[0]], LENGTHS_US[v[1]]), (PITCHES[v[2]], LENGTHS_US[v[3]])];
    cx.step(2);
    session(&spec_of(3), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        for (pitch, us) in list {
            tone(client, pitch, us)?;
        }
        let zero = block_on(client.con().play_tone(Tone::square(0, Duration::from_millis(1))));
        if zero.is_ok() {
            return Err(Failure::new("the tone", "one of no pitch is played"));
        }
        Ok(())
    })?;
    cx.state(&(v[0], v[1], v[2], v[3]));
    cx.traces += 1;
    Ok(())
}

fn long_tone(pitch: u32, us: u64, cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    cx.step(1);
    session(&spec_of(3), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        tone(client, pitch, us)
    })?;
    cx.state(&(pitch, us));
    cx.traces += 1;
    Ok(())
}

/// A tone that fails and the one that comes then.
fn after_failure(call: Call, nth: u64, us: u64, cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    d.with(|s| s.fails.insert(call, nth));
    cx.step(2);
    session(&spec_of(3), &d, move |client, built| {
        built.map_err(|e| Failure::new("build", e.to_string()))?;
        let t = Tone::square(440, Duration::from_micros(us));
        let r = block_on(client.con().play_tone(t)).map_err(|e| e.to_string());
        let happened = client.desktop.with(|s| s.calls.get(&call).copied().unwrap_or(0) >= nth);
        match r {
            Ok(()) if !happened => (),
            Err(e) if happened && e.contains("fails") => (),
            r => return Err(Failure::new("the tone that fails", format!("{:?}, {}", r, happened))),
        }
        if client.desktop.with(|s| s.playing) {
            return Err(Failure::new("the tone that fails", "it goes on"));
        }
        client.desktop.with(|s| s.fails.clear());
        tone(client, 800, 22_676)?;
        client.con().print("x").map_err(|e| Failure::new("print", e.to_string()))
    })?;
    cx.state(&(call, nth, us));
    cx.traces += 1;
    Ok(())
}

/// The interpreter ends without ever using the window.
fn abandoned(early: bool, cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(1000, 1000);
    let mut spec = ConsoleSpec::init("sdl:resolution=64x48");
    let (tx, rx) = async_channel::unbounded();
    let (host, factory) = endbasic_sdl::setup(&mut spec, tx, &Fonts::all())
        .map_err(|e| Failure::new("specification", e.to_string()))?;
    cx.step(1);
    d.install();
    let other = if early {
        drop((rx, factory));
        None
    } else {
        let d = d.clone();
        Some((
            rx,
            std::thread::spawn(move || {
                d.wait(10_000, |s| s.presented > 0);
                drop(factory);
            }),
        ))
    };
    let r = catch(|| host.run());
    if let Some((_, t)) = other {
        t.join().unwrap();
    }
    cx.state(&early);
    cx.traces += 1;
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Failure::new("the window fails without an interpreter", e.to_string())),
        Err(e) => Err(Failure::new("the window panics without an interpreter", e)),
    }
}

// --- Specifications --------------------------------------------------------------------------

/// A resolution and the size and mode that it means.
const RESOLUTIONS: [(&str, Option<(u32, u32, &str)>); 18] = [
    ("", Some((800, 600, "centered"))),
    ("resolution=fs", Some((120, 90, "desktop"))),
    ("resolution=64x48", Some((64, 48, "centered"))),
    ("resolution=100x50fs", Some((100, 50, "full screen"))),
    ("resolution=8x16", Some((8, 16, "centered"))),
    ("resolution=0x16", None),
    ("resolution=8x0", None),
    ("resolution=8x0fs", None),
    ("resolution=-8x16", None),
    ("resolution=8", None),
    ("resolution=8xfs", None),
    ("resolution=x", None),
    ("resolution=", None),
    ("resolution=FS", None),
    ("resolution=8x16x2", None),
    ("resolution=8 x16", None),
    ("resolution=4294967296x16", None),
    ("resolution=3000000000x16", None),
];

const COLORS: [(&str, Option<Option<u8>>); 7] = [
    ("", Some(None)),
    ("=0", Some(Some(0))),
    ("=9", Some(Some(9))),
    ("=255", Some(Some(255))),
    ("=256", None),
    ("=-1", None),
    ("=red", None),
];

const FONTS: [(&str, Option<&str>); 5] =
    [("", Some("vga8x16")), ("font=vga8x16", Some("vga8x16")), ("font=5x8", Some("5x8")), ("font=", None), ("font=arial", None)];

fn specs(v: &[usize], cx: &mut Cx) -> CaseResult {
    let d = Desktop::new(120, 90);
    let color = |k: &str, i: usize| if COLORS[i].0.is_empty() { String::new() } else { format!("{}{}", k, COLORS[i].0) };
    let mut parts =
        vec![RESOLUTIONS[v[0]].0.to_owned(), color("fg_color", v[1]), color("bg_color", v[2]), FONTS[v[3]].0.to_owned()];
    if v[4] == 1 {
        parts.reverse();
    }
    parts.retain(|p| !p.is_empty());
    let spec = format!("sdl:{}", parts.join(","));
    let spec2 = spec.clone();
    let v2 = v.to_vec();
    cx.step(1);
    session(&spec, &d, move |client, built| {
        let (res, fg, bg, font) = (RESOLUTIONS[v2[0]].1, COLORS[v2[1]].1, COLORS[v2[2]].1, FONTS[v2[3]].1);
        let (Some((w, h, mode)), Some(fg), Some(bg), Some(font)) = (res, fg, bg, font) else {
            return match built {
                Err(_) => Ok(()),
                Ok(()) => Err(Failure::new("the specification", format!("{} is accepted", spec2))),
            };
        };
        if let Err(e) = built {
            return Err(Failure::new("the specification", format!("{}: {}", spec2, e)));
        }
        let font = Fonts::all().get(font).unwrap();
        let mut r = reference(w, h, font, fg, bg);
        let (size, m, title) = client.desktop.with(|s| (s.size, s.mode, s.title.clone()));
        if size != (w, h) || m != mode {
            return Err(Failure::new("the window", format!("{:?} {}", size, m)));
        }
        let chars = r.console.size_chars().unwrap();
        if !title.contains(&format!("{}x{} pixels, {}x{} chars", w, h, chars.x, chars.y)) {
            return Err(Failure::new("the title", title));
        }
        if !client.desktop.with(|s| s.text_input) {
            return Err(Failure::new("the keyboard", "no text comes"));
        }
        same(client, &r)?;
        for i in [0, 51, 11, 2, 14, 7] {
            let got = (OPS[i].1)(&mut *client.con()).map_err(|e| e.to_string());
            let want = (OPS[i].1)(&mut r.console).map_err(|e| e.to_string());
            if got != want {
                return Err(Failure::new(OPS[i].0, format!("{:?} instead of {:?}", got, want)));
            }
            same(client, &r)?;
        }
        Ok(())
    })?;
    cx.state(&v);
    cx.traces += 1;
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut out = vec![];

    let k = OPS.len() as u64;
    let n = seq_count(k, 1, tier.pick(2, 3));
    let radices = [WINDOWS.len() as u64, BEFORE.len() as u64, n];
    let show = move |i: u64| {
        let v = mixed(&radices, i);
        let seq = seq_decode(k, 1, v[2] as u64);
        let ops: Vec<&str> = BEFORE[v[1]].iter().chain(&seq).map(|o| OPS[*o].0).collect();
        format!("{}: {}", spec_of(v[0]), ops.join("; "))
    };
    out.push(Section::new("screens", product(&radices), show, move |i, cx| {
        let v = mixed(&radices, i);
        named(screens(v[0], v[1], &seq_decode(k, 1, v[2] as u64), cx), show(i))
    }));

    let k = events().len() as u64;
    let n = seq_count(k, 1, tier.pick(2, 3));
    let radices = [tier.pick(3, 1), n];
    let show = move |i: u64| {
        let v = mixed(&radices, i);
        let evs: Vec<String> =
            seq_decode(k, 1, v[1] as u64).iter().map(|e| format!("{:?}", events()[*e].0)).collect();
        format!("{} (place {})", evs.join(", "), v[0])
    };
    out.push(Section::new("keys", product(&radices), show, move |i, cx| {
        let v = mixed(&radices, i);
        let seq = seq_decode(k, 1, v[1] as u64);
        let place = if radices[0] == 1 { seq.iter().sum::<usize>() % 3 } else { v[0] };
        named(keys(&seq, place, cx), show(i))
    }));

    let radices = [k, k / tier.pick(6, 1), 5];
    let show = move |i: u64| {
        let v = mixed(&radices, i);
        let second = (v[1] * (k / radices[1]) as usize + v[0]) % k as usize;
        format!("{:?} and {:?} at the end ({})", events()[v[0]].0, events()[second].0, v[2])
    };
    out.push(Section::new("ends", product(&radices), show, move |i, cx| {
        let v = mixed(&radices, i);
        let second = (v[1] * (k / radices[1]) as usize + v[0]) % k as usize;
        named(ending(v[0], second, v[2], cx), show(i))
    }));

    let k = OPS.len() as u64;
    let radices = [CALLS.len() as u64, tier.pick(12, 30), seq_count(k, 1, tier.pick(1, 2))];
    let show = move |i: u64| {
        let v = mixed(&radices, i);
        let ops: Vec<&str> = seq_decode(k, 1, v[2] as u64).iter().map(|o| OPS[*o].0).collect();
        format!("call {} of {:?} fails, {}", v[1] + 1, CALLS[v[0]], ops.join("; "))
    };
    out.push(Section::new("failures", product(&radices), show, move |i, cx| {
        let v = mixed(&radices, i);
        named(failures(v[0], v[1] as u64 + 1, &seq_decode(k, 1, v[2] as u64), cx), show(i))
    }));

    let second = tier.pick([2u64, 3], [PITCHES.len() as u64, LENGTHS_US.len() as u64]);
    let radices = [PITCHES.len() as u64, LENGTHS_US.len() as u64, second[0], second[1]];
    let show = move |i: u64| {
        let v = mixed(&radices, i);
        format!("{} Hz for {} us, {} Hz for {} us", PITCHES[v[0]], LENGTHS_US[v[1]], PITCHES[v[2]], LENGTHS_US[v[3]])
    };
    out.push(Section::new("tones", product(&radices), show, move |i, cx| named(tones(&mixed(&radices, i), cx), show(i))));

    let radices = [3, 6, 3];
    let show = move |i: u64| format!("{:?}", mixed(&radices, i));
    out.push(Section::new("tones that fail", product(&radices), show, move |i, cx| {
        let v = mixed(&radices, i);
        let us = [10_000, 2_500_000, 5_000_001][v[2]];
        named(after_failure([Call::Audio, Call::Queue, Call::Play][v[0]], v[1] as u64 + 1, us, cx), show(i))
    }));

    let show = |i: u64| format!("the interpreter ends {}", ["at once", "later"][i as usize]);
    out.push(Section::new("abandoned", 2, show, move |i, cx| named(abandoned(i == 0, cx), show(i))));

    const LONG: [(u32, u64); 3] = [(440, 300_000_000), (1, 60_500_000), (22_050, 299_999_990)];
    let show = move |i: u64| format!("{} Hz for {} us", LONG[i as usize].0, LONG[i as usize].1);
    out.push(Section::new("long tones", LONG.len() as u64, show, move |i, cx| {
        named(long_tone(LONG[i as usize].0, LONG[i as usize].1, cx), show(i))
    }));

    let radices = [RESOLUTIONS.len() as u64, 7, 7, FONTS.len() as u64, 2];
    let show = move |i: u64| format!("{:?}", mixed(&radices, i));
    out.push(Section::new("specifications", product(&radices), show, move |i, cx| {
        named(specs(&mixed(&radices, i), cx), show(i))
    }));
    out
}
