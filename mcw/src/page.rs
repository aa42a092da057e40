//! A page of the stand-in browser that runs the real web frontend.

use endbasic_web::WebTerminal;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::KeyboardEventI;
use web_sys::fake::{self, Canvas};

pub const URL: &str = "https://repl.example.com/";

/// The keys that a person presses.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Press {
    /// A keyboard event: code, key, ctrl, alt, meta.
    Event(u32, &'static str, bool, bool, bool),
    Char(char),
    Input(Option<&'static str>),
    Escape,
    Up,
    Down,
    Left,
    Right,
}

/// The event of a keyboard for the key that produces `c`.
pub fn char_event(c: char) -> KeyboardEventI {
    let (code, key) = match c {
        '\n' => (13, "Enter".to_owned()),
        '\x1b' => (27, "Escape".to_owned()),
        'a'..='z' | 'A'..='Z' => (c.to_ascii_uppercase() as u32, c.to_string()),
        '0'..='9' | ' ' => (c as u32, c.to_string()),
        '.' | '>' => (190, c.to_string()),
        ',' | '<' => (188, c.to_string()),
        '\'' | '"' => (222, c.to_string()),
        ';' | ':' => (186, c.to_string()),
        '=' | '+' => (187, c.to_string()),
        '-' | '_' => (189, c.to_string()),
        '/' | '?' => (191, c.to_string()),
        '[' | '{' => (219, c.to_string()),
        ']' | '}' => (221, c.to_string()),
        '\\' | '|' => (220, c.to_string()),
        '(' => ('9' as u32, c.to_string()),
        ')' => ('0' as u32, c.to_string()),
        '!' => ('1' as u32, c.to_string()),
        '@' => ('2' as u32, c.to_string()),
        '#' => ('3' as u32, c.to_string()),
        '$' => ('4' as u32, c.to_string()),
        '%' => ('5' as u32, c.to_string()),
        '^' => ('6' as u32, c.to_string()),
        '&' => ('7' as u32, c.to_string()),
        '*' => ('8' as u32, c.to_string()),
        _ => (0, c.to_string()),
    };
    KeyboardEventI { code, key, ..KeyboardEventI::default() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    Frame,
    Message,
    Timer,
}

pub struct Page {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    keyboard: Box<dyn Fn(&Press)>,
    pub canvas: Rc<RefCell<Canvas>>,
    pub size: String,
    pub over: bool,
    pub polls: u64,
    /// The longest that the page was not answering, in milliseconds.
    pub longest: f64,
    /// How long a frame takes to come, in milliseconds.
    pub frame_ms: f64,
}

impl Page {
    pub fn open(w: usize, h: usize) -> Self {
        let (element, canvas) = fake::canvas(w, h);
        let t = WebTerminal::new(element, "http://127.0.0.1:1/".to_owned());
        let osk = t.on_screen_keyboard();
        let keyboard = Box::new(move |p: &Press| match p {
            Press::Event(code, key, ctrl, alt, meta) => {
                let e = KeyboardEventI {
                    code: *code,
                    key: (*key).to_owned(),
                    ctrl: *ctrl,
                    alt: *alt,
                    meta: *meta,
                    shift: false,
                };
                osk.inject_keyboard_event(fake::key_event(&e));
            }
            Press::Char(c) => osk.inject_keyboard_event(fake::key_event(&char_event(*c))),
            Press::Input(d) => osk.inject_input_event(fake::input_event(*d)),
            Press::Escape => osk.press_escape(),
            Press::Up => osk.press_arrow_up(),
            Press::Down => osk.press_arrow_down(),
            Press::Left => osk.press_arrow_left(),
            Press::Right => osk.press_arrow_right(),
        });
        let size = t.size_description();
        Page { fut: Box::pin(t.run_repl_loop()), keyboard, canvas, size, over: false, polls: 0, longest: 0.0, frame_ms: 16.0 }
    }

    /// Gives control to the program until it waits for something.
    pub fn poll(&mut self) {
        if self.over {
            return;
        }
        let start = fake::now();
        let mut cx = Context::from_waker(Waker::noop());
        self.polls += 1;
        if let Poll::Ready(()) = self.fut.as_mut().poll(&mut cx) {
            self.over = true;
        }
        self.longest = self.longest.max(fake::now() - start);
    }

    /// What could happen next apart from the keys.
    pub fn enabled(&self) -> Vec<Event> {
        fake::with(|w| {
            let mut out = vec![];
            if !w.frames.is_empty() {
                out.push(Event::Frame);
            }
            if !w.messages.is_empty() {
                out.push(Event::Message);
            }
            if !w.timers.is_empty() {
                out.push(Event::Timer);
            }
            out
        })
    }

    pub fn fire(&mut self, e: Event) {
        match e {
            Event::Frame => fake::fire_frames(self.frame_ms),
            Event::Message => fake::fire_message(),
            Event::Timer => fake::fire_timer(),
        };
        self.poll();
    }

    /// Runs until only a key can make it go on, or `max` events.
    pub fn settle(&mut self, max: usize) -> bool {
        self.poll();
        for _ in 0..max {
            match self.enabled().first() {
                Some(e) => self.fire(*e),
                None => return true,
            }
        }
        self.enabled().is_empty()
    }

    pub fn press(&mut self, p: &Press) {
        (self.keyboard)(p);
    }

    pub fn type_in(&mut self, text: &str) {
        for c in text.chars() {
            self.press(&Press::Char(c));
        }
    }

    pub fn shot(&self) -> Vec<[u8; 3]> {
        self.canvas.borrow().px.clone()
    }
}

/// The text that a screen shows, whatever its colors.
pub fn read_text(w: usize, h: usize, px: &[[u8; 3]]) -> Vec<String> {
    use endbasic_std::gfx::lcd::fonts::FONT_VGA8X16;
    let f = &FONT_VGA8X16;
    let (gw, gh) = (f.glyph_size.width, f.glyph_size.height);
    let mut glyphs: Vec<(char, Vec<u8>)> = vec![];
    for c in ' '..='~' {
        let at = (c as usize - 32) * gh * f.stride;
        glyphs.push((c, f.data[at..at + gh * f.stride].to_vec()));
    }
    let mut out = vec![];
    for row in 0..h / gh {
        let mut line = String::new();
        for col in 0..w / gw {
            let at = |x: usize, y: usize| px[(row * gh + y) * w + col * gw + x];
            let mut found = '\u{fffd}';
            for (c, g) in &glyphs {
                let (mut on, mut off): (Option<[u8; 3]>, Option<[u8; 3]>) = (None, None);
                let mut ok = true;
                'cell: for y in 0..gh {
                    for x in 0..gw {
                        let lit = g[y] & (0x80 >> x) != 0;
                        let slot = if lit { &mut on } else { &mut off };
                        match slot {
                            None => *slot = Some(at(x, y)),
                            Some(v) if *v == at(x, y) => (),
                            _ => {
                                ok = false;
                                break 'cell;
                            }
                        }
                    }
                }
                if ok && on != off {
                    found = *c;
                    break;
                }
            }
            line.push(found);
        }
        out.push(line.trim_end().to_owned());
    }
    out
}
