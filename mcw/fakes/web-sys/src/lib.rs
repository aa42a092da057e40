//! Stand-in for web-sys that runs natively: a small browser whose events the driver fires.

use js_sys::{Array, Function, Object};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use wasm_bindgen::{Clamped, JsCast, JsValue, js_class};

pub mod fake;
use fake::{Canvas, WORLD};

type R<T> = Result<T, JsValue>;

fn fail(what: &str) -> JsValue {
    JsValue::from_str(what)
}

// ---- Window.

pub struct WindowI;
js_class!(Window, WindowI);

pub fn window() -> Option<Window> {
    Some(Window::of(WindowI))
}

impl Window {
    pub fn location(&self) -> Location {
        Location::of(LocationI)
    }

    pub fn performance(&self) -> Option<Performance> {
        if fake::with(|w| w.no_performance) { None } else { Some(Performance::of(PerformanceI)) }
    }

    pub fn local_storage(&self) -> R<Option<Storage>> {
        Ok(Some(Storage::of(StorageI)))
    }

    pub fn request_animation_frame(&self, f: &Function) -> R<i32> {
        let f = f.clone();
        fake::with(|w| {
            w.frames.push(f);
            w.frames_asked += 1;
            Ok(w.frames_asked as i32)
        })
    }

    pub fn set_timeout_with_callback_and_timeout_and_arguments(
        &self,
        f: &Function,
        ms: i32,
        _args: &Array,
    ) -> R<i32> {
        self.set_timeout_with_callback_and_timeout_and_arguments_0(f, ms)
    }

    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(
        &self,
        f: &Function,
        ms: i32,
    ) -> R<i32> {
        let f = f.clone();
        let due = js_sys::NOW_MS.get() + f64::from(ms.max(0));
        fake::with(|w| {
            w.timers_asked += 1;
            w.timers.push((due, w.timers_asked, f));
            w.sleeps.push(ms);
            Ok(w.timers_asked as i32)
        })
    }

    pub fn set_timeout_with_callback(&self, f: &Function) -> R<i32> {
        self.set_timeout_with_callback_and_timeout_and_arguments_0(f, 0)
    }
}

pub struct LocationI;
js_class!(Location, LocationI);

impl Location {
    pub fn href(&self) -> R<String> {
        Ok(fake::with(|w| w.href.clone()))
    }

    pub fn origin(&self) -> R<String> {
        let href = self.href()?;
        let n = href.find("://").map_or(0, |i| i + 3);
        let end = href[n..].find('/').map_or(href.len(), |i| i + n);
        Ok(href[..end].to_owned())
    }

    pub fn search(&self) -> R<String> {
        let href = self.href()?;
        let href = href.split('#').next().unwrap_or("");
        Ok(match href.find('?') {
            Some(i) => href[i..].to_owned(),
            None => String::new(),
        })
    }
}

pub struct PerformanceI;
js_class!(Performance, PerformanceI);

impl Performance {
    pub fn now(&self) -> f64 {
        js_sys::clock()
    }
}

// ---- Local storage.

pub struct StorageI;
js_class!(Storage, StorageI);

impl Storage {
    fn op(&self, name: &str) -> R<()> {
        fake::with(|w| {
            w.storage_ops += 1;
            if w.storage_fault == Some(w.storage_ops) {
                w.storage_fault_hit = Some(name.to_owned());
                Err(fail("QuotaExceededError"))
            } else {
                Ok(())
            }
        })
    }

    pub fn length(&self) -> R<u32> {
        self.op("length")?;
        Ok(fake::with(|w| w.storage.len() as u32))
    }

    pub fn key(&self, i: u32) -> R<Option<String>> {
        self.op("key")?;
        Ok(fake::with(|w| w.storage_keys().get(i as usize).cloned()))
    }

    pub fn get(&self, key: &str) -> R<Option<String>> {
        self.op("get")?;
        Ok(fake::with(|w| w.storage.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())))
    }

    pub fn get_item(&self, key: &str) -> R<Option<String>> {
        self.get(key)
    }

    pub fn set(&self, key: &str, value: &str) -> R<()> {
        self.op("set")?;
        fake::with(|w| match w.storage.iter_mut().find(|(k, _)| k == key) {
            Some((_, v)) => *v = value.to_owned(),
            None => w.storage.push((key.to_owned(), value.to_owned())),
        });
        Ok(())
    }

    pub fn set_item(&self, key: &str, value: &str) -> R<()> {
        self.set(key, value)
    }

    pub fn delete(&self, key: &str) -> R<()> {
        self.op("delete")?;
        fake::with(|w| w.storage.retain(|(k, _)| k != key));
        Ok(())
    }

    pub fn remove_item(&self, key: &str) -> R<()> {
        self.delete(key)
    }

    pub fn clear(&self) -> R<()> {
        self.op("clear")?;
        fake::with(|w| w.storage.clear());
        Ok(())
    }
}

// ---- Message channels.

#[derive(Default)]
pub struct PortI {
    pub handler: RefCell<Option<Function>>,
    pub peer: RefCell<Option<std::rc::Weak<PortI>>>,
    pub closed: Cell<bool>,
}
js_class!(MessagePort, Rc<PortI>);

pub struct ChannelI(Rc<PortI>, Rc<PortI>);
js_class!(MessageChannel, ChannelI);

impl MessageChannel {
    pub fn new() -> R<Self> {
        let (a, b) = (Rc::new(PortI::default()), Rc::new(PortI::default()));
        *a.peer.borrow_mut() = Some(Rc::downgrade(&b));
        *b.peer.borrow_mut() = Some(Rc::downgrade(&a));
        Ok(Self::of(ChannelI(a, b)))
    }

    pub fn port1(&self) -> MessagePort {
        MessagePort::of(self.inner().0.clone())
    }

    pub fn port2(&self) -> MessagePort {
        MessagePort::of(self.inner().1.clone())
    }
}

impl MessagePort {
    pub fn set_onmessage(&self, f: Option<&Function>) {
        *self.inner().handler.borrow_mut() = f.cloned();
    }

    pub fn post_message(&self, _v: &JsValue) -> R<()> {
        let peer = self.inner().peer.borrow().as_ref().and_then(|p| p.upgrade());
        if let Some(peer) = peer
            && !self.inner().closed.get()
        {
            fake::with(|w| w.messages.push(peer));
        }
        Ok(())
    }

    pub fn start(&self) {}

    pub fn close(&self) {
        self.inner().closed.set(true);
    }
}

pub struct MessageEventI;
js_class!(MessageEvent, MessageEventI);

// ---- Canvas.

js_class!(HtmlCanvasElement, Rc<RefCell<Canvas>>);

impl HtmlCanvasElement {
    pub fn width(&self) -> u32 {
        self.inner().borrow().w as u32
    }

    pub fn height(&self) -> u32 {
        self.inner().borrow().h as u32
    }

    pub fn set_width(&self, w: u32) {
        let mut c = self.inner().borrow_mut();
        let h = c.h;
        *c = Canvas::new(w as usize, h);
    }

    pub fn set_height(&self, h: u32) {
        let mut c = self.inner().borrow_mut();
        let w = c.w;
        *c = Canvas::new(w, h as usize);
    }

    pub fn get_context_with_context_options(&self, id: &str, _o: &JsValue) -> R<Option<Object>> {
        self.get_context(id)
    }

    pub fn get_context(&self, id: &str) -> R<Option<Object>> {
        if id != "2d" {
            return Ok(None);
        }
        let c = CanvasRenderingContext2d::of(ContextI(self.clone()));
        Ok(Some(Object::unchecked_from_js(c.into())))
    }
}

#[derive(Default)]
pub struct AttrsI {
    pub alpha: Cell<bool>,
}
js_class!(ContextAttributes2d, AttrsI);

impl Default for ContextAttributes2d {
    fn default() -> Self {
        Self::new()
    }
}

impl ContextAttributes2d {
    pub fn new() -> Self {
        Self::of(AttrsI::default())
    }

    pub fn set_alpha(&self, v: bool) {
        self.inner().alpha.set(v);
    }

    pub fn set_will_read_frequently(&self, _v: bool) {}
}

pub struct ImageDataI {
    pub w: usize,
    pub h: usize,
    pub data: Vec<u8>,
}
js_class!(ImageData, ImageDataI);

impl ImageData {
    pub fn data(&self) -> Clamped<Vec<u8>> {
        Clamped(self.inner().data.clone())
    }

    pub fn width(&self) -> u32 {
        self.inner().w as u32
    }

    pub fn height(&self) -> u32 {
        self.inner().h as u32
    }
}

pub struct ContextI(HtmlCanvasElement);
js_class!(CanvasRenderingContext2d, ContextI);

impl CanvasRenderingContext2d {
    fn c(&self) -> std::cell::RefMut<'_, Canvas> {
        self.inner().0.inner().borrow_mut()
    }

    pub fn canvas(&self) -> Option<HtmlCanvasElement> {
        Some(self.inner().0.clone())
    }

    pub fn set_image_smoothing_enabled(&self, _v: bool) {}

    pub fn set_text_baseline(&self, _v: &str) {}

    pub fn set_line_width(&self, _v: f64) {}

    pub fn set_fill_style_str(&self, s: &str) {
        if let Some(c) = fake::parse_color(s) {
            self.c().state.fill = c;
        }
    }

    pub fn set_stroke_style_str(&self, s: &str) {
        if let Some(c) = fake::parse_color(s) {
            self.c().state.stroke = c;
        }
    }

    pub fn set_fill_style(&self, v: &JsValue) {
        if let Some(s) = v.as_string() {
            self.set_fill_style_str(&s);
        }
    }

    pub fn set_stroke_style(&self, v: &JsValue) {
        if let Some(s) = v.as_string() {
            self.set_stroke_style_str(&s);
        }
    }

    pub fn global_composite_operation(&self) -> R<String> {
        Ok(self.c().state.composite.clone())
    }

    pub fn set_global_composite_operation(&self, v: &str) -> R<()> {
        if ["source-over", "copy"].contains(&v) {
            self.c().state.composite = v.to_owned();
            Ok(())
        } else {
            Err(fail("the stand-in does not know this composite operation"))
        }
    }

    pub fn save(&self) {
        let s = self.c().state.clone();
        self.c().saved.push(s);
    }

    pub fn restore(&self) {
        let s = self.c().saved.pop();
        if let Some(s) = s {
            self.c().state = s;
        }
    }

    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.c().fill_rect(x, y, w, h);
    }

    pub fn clear_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let mut c = self.c();
        let fill = c.state.fill;
        c.state.fill = [0, 0, 0];
        c.fill_rect(x, y, w, h);
        c.state.fill = fill;
    }

    pub fn stroke_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let p = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        self.c().stroke_path(&fake::Path { points: p, closed: true, circle: None });
    }

    pub fn get_image_data(&self, x: f64, y: f64, w: f64, h: f64) -> R<ImageData> {
        if w == 0.0 || h == 0.0 {
            return Err(fail("IndexSizeError"));
        }
        let (w, h) = (w as usize, h as usize);
        let data = self.c().read(x as i64, y as i64, w, h);
        Ok(ImageData::of(ImageDataI { w, h, data }))
    }

    pub fn put_image_data(&self, d: &ImageData, x: f64, y: f64) -> R<()> {
        let d = d.inner();
        self.c().write(x as i64, y as i64, d.w, d.h, &d.data);
        Ok(())
    }

    pub fn draw_image_with_html_canvas_element(
        &self,
        src: &HtmlCanvasElement,
        x: f64,
        y: f64,
    ) -> R<()> {
        let (w, h) = (src.width() as usize, src.height() as usize);
        let data = src.inner().borrow().read(0, 0, w, h);
        let mut c = self.c();
        if c.state.composite == "copy" {
            c.blank();
        }
        c.write(x as i64, y as i64, w, h, &data);
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    pub fn draw_image_with_html_canvas_element_and_sw_and_sh_and_dx_and_dy_and_dw_and_dh(
        &self,
        src: &HtmlCanvasElement,
        sx: f64,
        sy: f64,
        sw: f64,
        sh: f64,
        dx: f64,
        dy: f64,
        dw: f64,
        dh: f64,
    ) -> R<()> {
        if sw != dw || sh != dh {
            return Err(fail("the stand-in does not scale images"));
        }
        if sw == 0.0 || sh == 0.0 {
            return Ok(());
        }
        let (w, h) = (sw as usize, sh as usize);
        let data = src.inner().borrow().read(sx as i64, sy as i64, w, h);
        let mut c = self.c();
        if c.state.composite == "copy" {
            c.blank();
        }
        c.write(dx as i64, dy as i64, w, h, &data);
        Ok(())
    }

    pub fn begin_path(&self) {
        self.c().paths.clear();
    }

    pub fn move_to(&self, x: f64, y: f64) {
        self.c().paths.push(fake::Path { points: vec![(x, y)], closed: false, circle: None });
    }

    pub fn line_to(&self, x: f64, y: f64) {
        let mut c = self.c();
        match c.paths.last_mut() {
            Some(p) if p.circle.is_none() => {
                if p.closed {
                    let first = p.points[0];
                    c.paths.push(fake::Path {
                        points: vec![first, (x, y)],
                        closed: false,
                        circle: None,
                    });
                } else {
                    p.points.push((x, y));
                }
            }
            _ => c.paths.push(fake::Path { points: vec![(x, y)], closed: false, circle: None }),
        }
    }

    pub fn close_path(&self) {
        if let Some(p) = self.c().paths.last_mut() {
            p.closed = true;
        }
    }

    pub fn rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let p = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
        self.c().paths.push(fake::Path { points: p, closed: true, circle: None });
    }

    pub fn arc(&self, x: f64, y: f64, r: f64, from: f64, to: f64) -> R<()> {
        if r < 0.0 {
            return Err(fail("IndexSizeError"));
        }
        if to - from < 2.0 * std::f64::consts::PI - 1e-9 {
            return Err(fail("the stand-in only knows whole circles"));
        }
        self.c().paths.push(fake::Path { points: vec![], closed: true, circle: Some((x, y, r)) });
        Ok(())
    }

    pub fn stroke(&self) {
        let mut c = self.c();
        for p in c.paths.clone() {
            c.stroke_path(&p);
        }
    }

    pub fn fill(&self) {
        let mut c = self.c();
        for p in c.paths.clone() {
            c.fill_path(&p);
        }
    }
}

// ---- Keyboard.

pub struct InputEventI {
    pub data: Option<String>,
}
js_class!(InputEvent, InputEventI);

impl InputEvent {
    pub fn data(&self) -> Option<String> {
        self.inner().data.clone()
    }
}

#[derive(Clone, Default)]
pub struct KeyboardEventI {
    pub code: u32,
    pub key: String,
    pub ctrl: bool,
    pub alt: bool,
    pub meta: bool,
    pub shift: bool,
}
js_class!(KeyboardEvent, KeyboardEventI);

impl KeyboardEvent {
    pub fn key_code(&self) -> u32 {
        self.inner().code
    }

    pub fn key(&self) -> String {
        self.inner().key.clone()
    }

    pub fn ctrl_key(&self) -> bool {
        self.inner().ctrl
    }

    pub fn alt_key(&self) -> bool {
        self.inner().alt
    }

    pub fn meta_key(&self) -> bool {
        self.inner().meta
    }

    pub fn shift_key(&self) -> bool {
        self.inner().shift
    }
}

// ---- Audio.

pub struct AudioContextI;
js_class!(AudioContext, AudioContextI);

impl AudioContext {
    pub fn new() -> R<Self> {
        Ok(Self::of(AudioContextI))
    }

    pub fn create_oscillator(&self) -> R<OscillatorNode> {
        Ok(OscillatorNode::of(Rc::new(OscillatorI::default())))
    }

    pub fn destination(&self) -> AudioDestinationNode {
        AudioDestinationNode::of(())
    }

    pub fn current_time(&self) -> f64 {
        js_sys::NOW_MS.get() / 1000.0
    }
}

js_class!(AudioDestinationNode, ());
js_class!(AudioNode, ());

impl std::convert::AsRef<AudioNode> for AudioDestinationNode {
    fn as_ref(&self) -> &AudioNode {
        AudioNode::unchecked_from_js_ref(AsRef::<JsValue>::as_ref(self))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OscillatorType {
    Sine,
    Square,
    Sawtooth,
    Triangle,
    Custom,
}

#[derive(Default)]
pub struct OscillatorI {
    pub frequency: Cell<f32>,
    pub kind: Cell<Option<OscillatorType>>,
    pub connected: Cell<bool>,
}
js_class!(OscillatorNode, Rc<OscillatorI>);
js_class!(AudioParam, Rc<OscillatorI>);

impl AudioParam {
    pub fn set_value(&self, v: f32) {
        self.inner().frequency.set(v);
    }
}

impl OscillatorNode {
    pub fn frequency(&self) -> AudioParam {
        AudioParam::of(self.inner().clone())
    }

    pub fn set_type(&self, t: OscillatorType) {
        self.inner().kind.set(Some(t));
    }

    pub fn connect_with_audio_node(&self, _n: &JsValue) -> R<AudioNode> {
        self.inner().connected.set(true);
        Ok(AudioNode::of(()))
    }

    pub fn start(&self) -> R<()> {
        let i = self.inner();
        let entry = format!(
            "start {} {:?} {} at {}",
            i.frequency.get(),
            i.kind.get().unwrap_or(OscillatorType::Sine),
            if i.connected.get() { "heard" } else { "unconnected" },
            js_sys::NOW_MS.get()
        );
        fake::with(|w| w.audio.push(entry));
        Ok(())
    }

    pub fn stop(&self) -> R<()> {
        fake::with(|w| w.audio.push(format!("stop at {}", js_sys::NOW_MS.get())));
        Ok(())
    }
}

/// Makes sure that the world exists.
pub fn touch() {
    WORLD.with(|_| ());
}
