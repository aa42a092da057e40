//! The state of the browser and what the driver of the stand-in uses.

use crate::{HtmlCanvasElement, InputEvent, InputEventI, KeyboardEvent, KeyboardEventI, MessageEvent};
use crate::{MessageEventI, PortI};
use js_sys::Function;
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{ERRORS, IMPORTED, JsValue};

/// The order in which the keys of the local storage are numbered.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Order {
    #[default]
    Insertion,
    Sorted,
    Newest,
}

#[derive(Default)]
pub struct World {
    pub href: String,
    pub storage: Vec<(String, String)>,
    pub order: Order,
    pub storage_ops: usize,
    pub storage_fault: Option<usize>,
    pub storage_fault_hit: Option<String>,
    pub timers: Vec<(f64, usize, Function)>,
    pub timers_asked: usize,
    pub sleeps: Vec<i32>,
    pub frames: Vec<Function>,
    pub frames_asked: usize,
    pub messages: Vec<Rc<PortI>>,
    pub audio: Vec<String>,
    pub no_performance: bool,
}

impl World {
    pub fn storage_keys(&self) -> Vec<String> {
        let mut keys: Vec<String> = self.storage.iter().map(|(k, _)| k.clone()).collect();
        match self.order {
            Order::Insertion => (),
            Order::Sorted => keys.sort(),
            Order::Newest => keys.reverse(),
        }
        keys
    }
}

thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}

pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

/// A new page, with the local storage that the previous one left if `keep`.
pub fn reload(href: &str, keep: bool) {
    with(|w| {
        let storage = if keep { std::mem::take(&mut w.storage) } else { vec![] };
        *w = World { href: href.to_owned(), storage, order: w.order, ..World::default() };
    });
    js_sys::NOW_MS.set(0.0);
    js_sys::STEP_MS.set(0.0);
    ERRORS.with(|e| e.borrow_mut().clear());
    IMPORTED.with(|e| e.borrow_mut().clear());
}

pub fn errors() -> Vec<String> {
    ERRORS.with(|e| e.borrow().clone())
}

pub fn imported() -> Vec<String> {
    IMPORTED.with(|e| e.borrow().clone())
}

pub fn now() -> f64 {
    js_sys::NOW_MS.get()
}

/// Fires the timer that is due the earliest, moving the time to it.
pub fn fire_timer() -> bool {
    let t = with(|w| {
        let i = (0..w.timers.len()).min_by(|a, b| {
            w.timers[*a].0.total_cmp(&w.timers[*b].0).then(w.timers[*a].1.cmp(&w.timers[*b].1))
        })?;
        Some(w.timers.remove(i))
    });
    match t {
        Some((due, _, f)) => {
            if js_sys::NOW_MS.get() < due {
                js_sys::NOW_MS.set(due);
            }
            f.inner().call(JsValue::Undefined);
            true
        }
        None => false,
    }
}

/// Gets to the next frame: `ms` pass and all requested callbacks run.
pub fn fire_frames(ms: f64) -> bool {
    let fs = with(|w| std::mem::take(&mut w.frames));
    js_sys::NOW_MS.set(js_sys::NOW_MS.get() + ms);
    let any = !fs.is_empty();
    for f in fs {
        f.inner().call(JsValue::Number(js_sys::NOW_MS.get()));
    }
    any
}

/// Delivers the oldest message.
pub fn fire_message() -> bool {
    let m = with(|w| if w.messages.is_empty() { None } else { Some(w.messages.remove(0)) });
    match m {
        Some(port) => {
            if port.closed.get() {
                return true;
            }
            let f = port.handler.borrow().clone();
            if let Some(f) = f {
                f.inner().call(MessageEvent::of(MessageEventI).into());
            }
            true
        }
        None => false,
    }
}

pub fn key_event(k: &KeyboardEventI) -> KeyboardEvent {
    KeyboardEvent::of(k.clone())
}

pub fn input_event(data: Option<&str>) -> InputEvent {
    InputEvent::of(InputEventI { data: data.map(str::to_owned) })
}

pub fn canvas(w: usize, h: usize) -> (HtmlCanvasElement, Rc<RefCell<Canvas>>) {
    let c = Rc::new(RefCell::new(Canvas::new(w, h)));
    (HtmlCanvasElement::of(c.clone()), c)
}

pub fn parse_color(s: &str) -> Option<[u8; 3]> {
    let s = s.trim();
    if let Some(h) = s.strip_prefix('#') {
        if h.len() == 6 {
            let v = u32::from_str_radix(h, 16).ok()?;
            return Some([(v >> 16) as u8, (v >> 8) as u8, v as u8]);
        }
        return None;
    }
    let s = s.strip_prefix("rgb(")?.strip_suffix(')')?;
    let v: Vec<u8> = s.split([',', ' ']).filter(|p| !p.is_empty()).map(|p| p.parse().ok()).collect::<Option<_>>()?;
    if v.len() == 3 { Some([v[0], v[1], v[2]]) } else { None }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Path {
    pub points: Vec<(f64, f64)>,
    pub closed: bool,
    pub circle: Option<(f64, f64, f64)>,
}

#[derive(Clone, Debug)]
pub struct State {
    pub fill: [u8; 3],
    pub stroke: [u8; 3],
    pub composite: String,
}

/// A canvas without an alpha channel.  Paths are painted by a fixed rule instead of with the
/// smoothing of a browser, so only which path is painted, how and with what color matters.
#[derive(Clone, Debug)]
pub struct Canvas {
    pub w: usize,
    pub h: usize,
    pub px: Vec<[u8; 3]>,
    pub state: State,
    pub saved: Vec<State>,
    pub paths: Vec<Path>,
}

impl Canvas {
    pub fn new(w: usize, h: usize) -> Self {
        let state =
            State { fill: [0; 3], stroke: [0; 3], composite: "source-over".to_owned() };
        Self { w, h, px: vec![[0; 3]; w * h], state, saved: vec![], paths: vec![] }
    }

    pub fn blank(&mut self) {
        self.px.fill([0; 3]);
    }

    fn set(&mut self, x: i64, y: i64, c: [u8; 3]) {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            self.px[y as usize * self.w + x as usize] = c;
        }
    }

    pub fn fill_rect(&mut self, x: f64, y: f64, w: f64, h: f64) {
        if self.state.composite == "copy" {
            self.blank();
        }
        let (x1, x2) = (x.min(x + w) as i64, x.max(x + w) as i64);
        let (y1, y2) = (y.min(y + h) as i64, y.max(y + h) as i64);
        let c = self.state.fill;
        for y in y1.max(0)..y2.min(self.h as i64) {
            for x in x1.max(0)..x2.min(self.w as i64) {
                self.set(x, y, c);
            }
        }
    }

    pub fn read(&self, x: i64, y: i64, w: usize, h: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(w * h * 4);
        for yy in y..y + h as i64 {
            for xx in x..x + w as i64 {
                if xx >= 0 && yy >= 0 && (xx as usize) < self.w && (yy as usize) < self.h {
                    let p = self.px[yy as usize * self.w + xx as usize];
                    out.extend([p[0], p[1], p[2], 255]);
                } else {
                    out.extend([0, 0, 0, 0]);
                }
            }
        }
        out
    }

    pub fn write(&mut self, x: i64, y: i64, w: usize, h: usize, data: &[u8]) {
        for yy in 0..h {
            for xx in 0..w {
                let o = (yy * w + xx) * 4;
                self.set(x + xx as i64, y + yy as i64, [data[o], data[o + 1], data[o + 2]]);
            }
        }
    }

    fn outline(p: &Path) -> Vec<(i64, i64)> {
        let mut out = vec![];
        if let Some((cx, cy, r)) = p.circle {
            // The pixels at a distance of the center that rounds to the radius.
            let ri = r as i64;
            for dy in -ri..=ri {
                for dx in -ri..=ri {
                    let d = ((dx * dx + dy * dy) as f64).sqrt();
                    if (d - r).abs() < 0.5 {
                        out.push((cx as i64 + dx, cy as i64 + dy));
                    }
                }
            }
            return out;
        }
        let n = p.points.len();
        let mut segs: Vec<((f64, f64), (f64, f64))> =
            (1..n).map(|i| (p.points[i - 1], p.points[i])).collect();
        if p.closed && n > 1 {
            segs.push((p.points[n - 1], p.points[0]));
        }
        for (a, b) in segs {
            // In both directions the same pixels.
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            let steps = (b.0 - a.0).abs().max((b.1 - a.1).abs()) as i64;
            for i in 0..=steps {
                let t = if steps == 0 { 0.0 } else { i as f64 / steps as f64 };
                out.push((
                    (a.0 + (b.0 - a.0) * t).round() as i64,
                    (a.1 + (b.1 - a.1) * t).round() as i64,
                ));
            }
        }
        out
    }

    pub fn stroke_path(&mut self, p: &Path) {
        let c = self.state.stroke;
        // A path without a length paints nothing.
        if p.circle.is_none() && p.points.iter().all(|q| *q == p.points[0]) {
            return;
        }
        for (x, y) in Self::outline(p) {
            self.set(x, y, c);
        }
    }

    /// Fills the inside and the outline of a path.
    pub fn fill_path(&mut self, p: &Path) {
        let c = self.state.fill;
        if let Some((cx, cy, r)) = p.circle {
            let ri = r as i64;
            for dy in -ri..=ri {
                for dx in -ri..=ri {
                    if ((dx * dx + dy * dy) as f64).sqrt() < r + 0.5 {
                        self.set(cx as i64 + dx, cy as i64 + dy, c);
                    }
                }
            }
            return;
        }
        for (x, y) in Self::outline(&Path { closed: true, ..p.clone() }) {
            self.set(x, y, c);
        }
        let pts = &p.points;
        for y in 0..self.h as i64 {
            for x in 0..self.w as i64 {
                // Nonzero winding number of the center of the pixel.
                let (px, py) = (x as f64 + 0.5, y as f64 + 0.5);
                let mut wn = 0;
                for i in 0..pts.len() {
                    let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
                    let cross = (b.0 - a.0) * (py - a.1) - (px - a.0) * (b.1 - a.1);
                    if a.1 <= py && b.1 > py && cross > 0.0 {
                        wn += 1;
                    } else if a.1 > py && b.1 <= py && cross < 0.0 {
                        wn -= 1;
                    }
                }
                if wn != 0 {
                    self.set(x, y, c);
                }
            }
        }
    }
}
