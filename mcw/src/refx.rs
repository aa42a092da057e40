//! The same interpreter on a plain in-memory screen, keyboard, drive and clock, as the reference.

use crate::page::Press;
use async_trait::async_trait;
use endbasic_std::console::drawing::draw_text;
use endbasic_std::console::graphics::{InputOps, RasterInfo, RasterOps};
use endbasic_std::console::{Console, GraphicsConsole, Key, PixelsXY, RGB, SizeInPixels, rgb_to_ansi_color};
use endbasic_std::datetime::DateTime;
use endbasic_std::gfx::lcd::fonts::FONT_VGA8X16;
use endbasic_std::sound::{AudioOps, Tone};
use endbasic_std::storage::{Drive, DriveFactory, DriveFiles, Metadata, Storage};
use endbasic_std::{MachineBuilder, Signal};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use time::{OffsetDateTime, UtcOffset};
use web_sys::fake::{Canvas, Path};

pub struct RefRaster {
    pub c: Rc<RefCell<Canvas>>,
}

impl RefRaster {
    fn path(points: &[PixelsXY], closed: bool) -> Path {
        Path {
            points: points.iter().map(|p| (f64::from(p.x), f64::from(p.y))).collect(),
            closed,
            circle: None,
        }
    }

    fn circle(p: PixelsXY, r: u16) -> Path {
        Path { points: vec![], closed: true, circle: Some((f64::from(p.x), f64::from(p.y), f64::from(r))) }
    }

    fn rect(xy: PixelsXY, s: SizeInPixels) -> Path {
        let (x1, y1) = (f64::from(xy.x), f64::from(xy.y));
        let (x2, y2) = (x1 + f64::from(s.width), y1 + f64::from(s.height));
        Path { points: vec![(x1, y1), (x2, y1), (x2, y2), (x1, y2)], closed: true, circle: None }
    }
}

impl RasterOps for RefRaster {
    type ID = (usize, usize, Vec<u8>);

    fn get_info(&self) -> RasterInfo {
        let c = self.c.borrow();
        let size = SizeInPixels::new(c.w as u16, c.h as u16);
        RasterInfo {
            size_pixels: size,
            size_chars: FONT_VGA8X16.chars_in_area(size),
            glyph_size: FONT_VGA8X16.glyph_size.into(),
        }
    }

    fn set_draw_color(&mut self, c: RGB) {
        let mut canvas = self.c.borrow_mut();
        canvas.state.fill = [c.0, c.1, c.2];
        canvas.state.stroke = [c.0, c.1, c.2];
    }

    fn clear(&mut self) -> io::Result<()> {
        let mut c = self.c.borrow_mut();
        let color = c.state.fill;
        c.px.fill(color);
        Ok(())
    }

    fn present_canvas(&mut self) -> io::Result<()> {
        Ok(())
    }

    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        let c = self.c.borrow();
        if xy.x < 0 || xy.y < 0 || xy.x as usize >= c.w || xy.y as usize >= c.h {
            return Ok(None);
        }
        let p = c.px[xy.y as usize * c.w + xy.x as usize];
        Ok(rgb_to_ansi_color((p[0], p[1], p[2])))
    }

    fn read_pixels(&mut self, xy: PixelsXY, s: SizeInPixels) -> io::Result<Self::ID> {
        let (w, h) = (usize::from(s.width), usize::from(s.height));
        Ok((w, h, self.c.borrow().read(i64::from(xy.x), i64::from(xy.y), w, h)))
    }

    fn put_pixels(&mut self, xy: PixelsXY, d: &Self::ID) -> io::Result<()> {
        self.c.borrow_mut().write(i64::from(xy.x), i64::from(xy.y), d.0, d.1, &d.2);
        Ok(())
    }

    fn move_pixels(&mut self, from: PixelsXY, to: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        let d = self.read_pixels(from, s)?;
        self.draw_rect_filled(from, s)?;
        self.put_pixels(to, &d)
    }

    fn write_text(&mut self, xy: PixelsXY, text: &str) -> io::Result<()> {
        draw_text(self, &FONT_VGA8X16, xy, text)
    }

    fn draw_circle(&mut self, p: PixelsXY, r: u16) -> io::Result<()> {
        self.c.borrow_mut().stroke_path(&Self::circle(p, r));
        Ok(())
    }

    fn draw_circle_filled(&mut self, p: PixelsXY, r: u16) -> io::Result<()> {
        self.c.borrow_mut().fill_path(&Self::circle(p, r));
        Ok(())
    }

    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.c.borrow_mut().stroke_path(&Self::path(&[a, b], false));
        Ok(())
    }

    fn draw_pixel(&mut self, p: PixelsXY) -> io::Result<()> {
        let mut c = self.c.borrow_mut();
        if p.x >= 0 && p.y >= 0 && (p.x as usize) < c.w && (p.y as usize) < c.h {
            let i = p.y as usize * c.w + p.x as usize;
            c.px[i] = c.state.fill;
        }
        Ok(())
    }

    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        self.c.borrow_mut().stroke_path(&Self::path(p, true));
        Ok(())
    }

    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        self.c.borrow_mut().fill_path(&Self::path(p, true));
        Ok(())
    }

    fn draw_rect(&mut self, xy: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        self.c.borrow_mut().stroke_path(&Self::rect(xy, s));
        Ok(())
    }

    fn draw_rect_filled(&mut self, xy: PixelsXY, s: SizeInPixels) -> io::Result<()> {
        for y in 0..s.height {
            for x in 0..s.width {
                let (x, y) = (i32::from(xy.x) + i32::from(x), i32::from(xy.y) + i32::from(y));
                let mut c = self.c.borrow_mut();
                if x >= 0 && y >= 0 && (x as usize) < c.w && (y as usize) < c.h {
                    let i = y as usize * c.w + x as usize;
                    c.px[i] = c.state.fill;
                }
            }
        }
        Ok(())
    }

    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.c.borrow_mut().stroke_path(&Self::path(&[a, b, c], true));
        Ok(())
    }

    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.c.borrow_mut().fill_path(&Self::path(&[a, b, c], true));
        Ok(())
    }
}

pub struct RefInput(async_channel::Receiver<Key>);

#[async_trait(?Send)]
impl InputOps for RefInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.try_recv().ok())
    }

    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(self.0.recv().await.unwrap())
    }
}

/// What happens in time: tones and sleeps, in order.
#[derive(Default)]
pub struct Log {
    pub waits: RefCell<Vec<i32>>,
    pub tones: RefCell<Vec<String>>,
    pub now_ms: Cell<f64>,
}

pub struct RefAudio(Rc<Log>);

#[async_trait(?Send)]
impl AudioOps for RefAudio {
    async fn play_tone(&mut self, t: Tone) -> io::Result<()> {
        let now = self.0.now_ms.get();
        let ms = t.duration.as_millis() as f64;
        self.0.tones.borrow_mut().push(format!("start {} {:?} heard at {}", t.frequency_hz, t.waveform, now));
        self.0.tones.borrow_mut().push(format!("stop at {}", now + ms));
        self.0.waits.borrow_mut().push(ms as i32);
        self.0.now_ms.set(now + ms);
        Ok(())
    }
}

pub struct RefTime(Rc<Log>);

#[async_trait(?Send)]
impl DateTime for RefTime {
    fn monotonic(&self) -> Duration {
        Duration::from_secs_f64(self.0.now_ms.get() / 1000.0)
    }

    async fn sleep(&self, d: Duration) -> Result<(), String> {
        if d.as_millis() > i32::MAX as u128 {
            return Err("Cannot sleep for that long".to_owned());
        }
        self.0.waits.borrow_mut().push(d.as_millis() as i32);
        self.0.now_ms.set(self.0.now_ms.get() + d.as_millis() as f64);
        Ok(())
    }
}

/// Files by their names in capitals, with the second of their last change.
pub type Files = BTreeMap<String, (Vec<u8>, i64)>;

pub struct RefDrive {
    files: Rc<RefCell<Files>>,
    log: Rc<Log>,
    epoch: f64,
    tz_min: f64,
}

fn missing() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "File not found")
}

#[async_trait(?Send)]
impl Drive for RefDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        match self.files.borrow_mut().remove(&name.to_ascii_uppercase()) {
            Some(_) => Ok(()),
            None => Err(missing()),
        }
    }

    async fn enumerate(&self) -> io::Result<DriveFiles> {
        let tz = UtcOffset::from_whole_seconds((-self.tz_min * 60.0) as i32).unwrap();
        let mut out = BTreeMap::new();
        for (name, (content, mtime)) in self.files.borrow().iter() {
            let date = OffsetDateTime::from_unix_timestamp(*mtime).unwrap().to_offset(tz);
            out.insert(name.clone(), Metadata { date, length: content.len() as u64 });
        }
        Ok(DriveFiles::new(out, None, None))
    }

    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        self.files.borrow().get(&name.to_ascii_uppercase()).map(|f| f.0.clone()).ok_or_else(missing)
    }

    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        if !name.to_ascii_uppercase().ends_with(".BAS") {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "File name must end in .BAS"));
        }
        let now = ((self.epoch + self.log.now_ms.get()) / 1000.0) as i64;
        self.files.borrow_mut().insert(name.to_ascii_uppercase(), (content.to_vec(), now));
        Ok(())
    }
}

struct RefFactory {
    files: Rc<RefCell<Files>>,
    log: Rc<Log>,
    epoch: f64,
    tz_min: f64,
}

impl DriveFactory for RefFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        if !target.is_empty() {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "Cannot specify a path to mount a web local drive",
            ));
        }
        Ok(Box::new(RefDrive {
            files: self.files.clone(),
            log: self.log.clone(),
            epoch: self.epoch,
            tz_min: self.tz_min,
        }))
    }
}

pub struct Ref {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    keys: async_channel::Sender<Key>,
    signals: async_channel::Sender<Signal>,
    pub canvas: Rc<RefCell<Canvas>>,
    pub log: Rc<Log>,
    pub files: Rc<RefCell<Files>>,
    pub over: bool,
}

impl Ref {
    pub fn open(w: usize, h: usize, files: &Files, epoch: f64, tz_min: f64) -> Self {
        let (ktx, krx) = async_channel::unbounded();
        let (stx, srx) = async_channel::unbounded();
        let canvas = Rc::new(RefCell::new(Canvas::new(w, h)));
        let log = Rc::new(Log::default());
        let files = Rc::new(RefCell::new(files.clone()));
        let fac = RefFactory { files: files.clone(), log: log.clone(), epoch, tz_min };
        let fut =
            Box::pin(session(canvas.clone(), krx, (stx.clone(), srx), log.clone(), fac));
        Ref { fut, keys: ktx, signals: stx, canvas, log, files, over: false }
    }

    pub fn poll(&mut self) {
        if self.over {
            return;
        }
        let mut cx = Context::from_waker(Waker::noop());
        if let Poll::Ready(()) = self.fut.as_mut().poll(&mut cx) {
            self.over = true;
        }
    }

    pub fn key(&mut self, k: Key) {
        if k == Key::Interrupt {
            self.signals.try_send(Signal::Break).unwrap();
        }
        self.keys.try_send(k).unwrap();
    }

    pub fn press(&mut self, p: &Press) {
        for k in keys_of(p) {
            self.key(k);
        }
    }
}

async fn session(
    canvas: Rc<RefCell<Canvas>>,
    krx: async_channel::Receiver<Key>,
    signals: (async_channel::Sender<Signal>, async_channel::Receiver<Signal>),
    log: Rc<Log>,
    fac: RefFactory,
) {
    let console = Rc::new(RefCell::new(
        GraphicsConsole::new(RefInput(krx), RefRaster { c: canvas }, RefAudio(log.clone()), None, None).unwrap(),
    ));
    let mut builder = MachineBuilder::default()
        .with_console(console.clone())
        .with_datetime(Rc::new(RefTime(log)))
        .with_signals_chan(signals);
    let program = Rc::new(RefCell::new(endbasic_repl::editor::Editor::default()));
    let storage = Rc::new(RefCell::new(Storage::default()));
    {
        let mut s = storage.borrow_mut();
        s.register_scheme("demos", Box::new(endbasic_repl::demos::DemoDriveFactory::default()));
        s.mount("demos", "demos://").unwrap();
        s.register_scheme("local", Box::new(fac));
        s.mount("local", "local://").unwrap();
        s.cd("local:").unwrap();
    }
    let service = Rc::new(RefCell::new(endbasic_client::CloudService::new("http://127.0.0.1:1/").unwrap()));
    endbasic_client::add_all(&mut builder, service, console.clone(), storage.clone(), crate::page::URL);
    let mut machine =
        builder.make_interactive().with_program(program.clone()).with_storage(storage.clone()).build();
    endbasic_repl::print_welcome(&mut *console.borrow_mut()).unwrap();
    endbasic_repl::try_load_autoexec(&mut machine, console.clone(), storage).await.unwrap();
    loop {
        let r = endbasic_repl::run_repl_loop(&mut machine, console.clone(), program.clone()).await;
        let mut c = console.borrow_mut();
        match r {
            Ok(code) => c.print(&format!("Interpreter exited with code {}", code)).unwrap(),
            Err(e) => c.print(&format!("FATAL ERROR: {}", e)).unwrap(),
        }
        c.print("Resuming execution because the web interpreter cannot be exited").unwrap();
        c.print("").unwrap();
    }
}

/// What the keys of a browser mean.
pub fn keys_of(p: &Press) -> Vec<Key> {
    let one = match p {
        Press::Char('\n') => Key::CarriageReturn,
        Press::Char('\x1b') | Press::Escape => Key::Escape,
        Press::Char(c) => Key::Char(*c),
        Press::Up => Key::ArrowUp,
        Press::Down => Key::ArrowDown,
        Press::Left => Key::ArrowLeft,
        Press::Right => Key::ArrowRight,
        Press::Input(None) => return vec![],
        Press::Input(Some(t)) => return t.chars().map(Key::Char).collect(),
        Press::Event(code, key, ctrl, alt, meta) => {
            let named = match *key {
                "Backspace" => Some(Key::Backspace),
                "Tab" => Some(Key::Tab),
                "Enter" => Some(Key::CarriageReturn),
                "Escape" => Some(Key::Escape),
                "PageUp" => Some(Key::PageUp),
                "PageDown" => Some(Key::PageDown),
                "End" => Some(Key::End),
                "Home" => Some(Key::Home),
                "ArrowLeft" => Some(Key::ArrowLeft),
                "ArrowUp" => Some(Key::ArrowUp),
                "ArrowRight" => Some(Key::ArrowRight),
                "ArrowDown" => Some(Key::ArrowDown),
                "Delete" => Some(Key::Delete),
                _ => None,
            };
            if let Some(k) = named {
                k
            } else if *ctrl {
                match char::from_u32(*code) {
                    Some('A') => Key::Home,
                    Some('B') => Key::ArrowLeft,
                    Some('C') => Key::Interrupt,
                    Some('D') => Key::EofOrDelete,
                    Some('E') => Key::End,
                    Some('F') => Key::ArrowRight,
                    Some('J') | Some('M') => Key::NewLine,
                    Some('N') => Key::ArrowDown,
                    Some('P') => Key::ArrowUp,
                    _ => Key::Unknown,
                }
            } else {
                let mut cs = key.chars();
                match (cs.next(), cs.next()) {
                    (Some(c), None) if !*alt && !*meta => Key::Char(c),
                    _ => Key::Unknown,
                }
            }
        }
    };
    vec![one]
}

pub fn queue(text: &str) -> VecDeque<Press> {
    text.chars().map(Press::Char).collect()
}
