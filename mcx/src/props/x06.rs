//! X06: the driver of the ST7735S panel shows every pixel of the console and reads its buttons.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, catch, mixed, product, seq_count, seq_decode};
use crate::gfxx;
use async_channel::{Receiver, Sender};
use async_trait::async_trait;
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{
    CharsXY, ClearType, Console, ConsoleFactory, ConsoleSpec, Key, PixelsXY, ansi_color_to_rgb,
};
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, Fonts};
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::spi::{SpiBus, SpiMode};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};

pub fn property() -> Property {
    Property {
        id: "X06",
        rule: "A model of the panel decodes what the driver sends to pins and bus. All 256 colors in every corner; all rectangles \
               over 11 coordinates in and around the panel; all sequences of up to 2 (thorough: 3) of 24 console operations \
               compared with the same console on a display in memory; buses of 9 sizes that take 5 kinds of partial writes; \
               all operations on pins and bus failing in turn, for 5 kinds of failure; all schedules of up to 3 (thorough: 4) of \
               16 steps that press buttons, type and read; all settings of 7 by 7 colors and 6 fonts.",
        assumptions: &[
            "the registers that set voltages, gamma and frame rates are right",
            "the visible area starts at column 1 and row 2 of the memory of the panel, as for the 1.44 inch module",
        ],
        sections,
    }
}

const W: usize = 128;
const H: usize = 128;
const RAM: usize = 162;

const DC: u8 = 25;
const BL: u8 = 24;
const RST: u8 = 27;
const CS: u8 = 8;

const BUTTONS: [(u8, Key); 8] = [
    (6, Key::ArrowUp),
    (19, Key::ArrowDown),
    (5, Key::ArrowLeft),
    (26, Key::ArrowRight),
    (13, Key::NewLine),
    (21, Key::Char('1')),
    (20, Key::Char('2')),
    (16, Key::Char('3')),
];

/// How a failure shows.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// One operation fails.
    Once,
    /// Everything fails from then on.
    Forever,
    /// Only the bus fails from then on.
    Bus,
    /// Only the pins fail from then on.
    Pins,
    /// The bus takes no more bytes.
    Stuck,
}

const FAULTS: [Fault; 5] = [Fault::Once, Fault::Forever, Fault::Bus, Fault::Pins, Fault::Stuck];

/// How much of each write the bus takes.
#[derive(Clone, Copy, Debug)]
enum Take {
    All,
    One,
    Half,
    Alternate,
    AllButOne,
}

const TAKES: [Take; 5] = [Take::All, Take::One, Take::Half, Take::Alternate, Take::AllButOne];

/// The panel, as its pins and its bus see it.
struct Panel {
    modes: HashMap<u8, PinMode>,
    out: HashMap<u8, bool>,
    pressed: [bool; 8],
    failing: [bool; 8],
    /// Times that each button was seen as pressed.
    seen: [u64; 8],
    /// Times that the buttons were looked at.
    looks: u64,
    cmd: u8,
    args: Vec<u8>,
    awake: bool,
    on: bool,
    format: u8,
    columns: (usize, usize),
    rows: (usize, usize),
    at: (usize, usize),
    left: usize,
    ram: Vec<u16>,
    bad: Vec<String>,
    max: usize,
    take: Take,
    writes: u64,
    ops: u64,
    fault: Option<(u64, Fault)>,
    zeros: u64,
    failed: u64,
}

impl Panel {
    fn new() -> Self {
        Panel {
            modes: HashMap::new(),
            out: HashMap::new(),
            pressed: [false; 8],
            failing: [false; 8],
            seen: [0; 8],
            looks: 0,
            cmd: 0,
            args: vec![],
            awake: false,
            on: false,
            format: 0,
            columns: (0, 0),
            rows: (0, 0),
            at: (0, 0),
            left: 0,
            ram: vec![0x1234; RAM * RAM],
            bad: vec![],
            max: 4096,
            take: Take::All,
            writes: 0,
            ops: 0,
            fault: None,
            zeros: 0,
            failed: 0,
        }
    }

    fn oops<T: Into<String>>(&mut self, t: T) {
        if self.bad.len() < 5 {
            self.bad.push(t.into());
        }
    }

    /// Whether the operation that starts now fails.
    fn op(&mut self, bus: bool) -> Option<Fault> {
        self.ops += 1;
        let (at, f) = self.fault?;
        let n = self.ops - 1;
        let fails = match f {
            Fault::Once => n == at,
            Fault::Forever => n >= at,
            Fault::Bus | Fault::Stuck => bus && n >= at,
            Fault::Pins => !bus && n >= at,
        };
        if fails {
            self.failed += 1;
        }
        fails.then_some(f)
    }

    fn finish(&mut self) {
        if self.cmd == 0x2c && self.left > 0 {
            let l = self.left;
            self.oops(format!("{l} bytes of the window were not sent"));
        }
        if self.cmd == 0x2c && self.args.len() == 1 {
            self.oops("half a pixel was sent");
        }
    }

    fn command(&mut self, c: u8) {
        if self.fault.is_none() {
            self.finish();
        }
        self.cmd = c;
        self.args.clear();
        self.left = 0;
        match c {
            0x11 => self.awake = true,
            0x10 => self.awake = false,
            0x29 => self.on = true,
            0x28 => self.on = false,
            0x2c => {
                self.at = (self.columns.0, self.rows.0);
                self.left = (self.columns.1 + 1 - self.columns.0) * (self.rows.1 + 1 - self.rows.0) * 2;
            }
            _ => (),
        }
    }

    fn data(&mut self, b: u8) {
        self.args.push(b);
        match self.cmd {
            0x2a | 0x2b => {
                if self.args.len() == 4 {
                    let a = usize::from(self.args[0]) << 8 | usize::from(self.args[1]);
                    let z = usize::from(self.args[2]) << 8 | usize::from(self.args[3]);
                    let first = if self.cmd == 0x2a { 1 } else { 2 };
                    if a > z || a < first || z >= first + W {
                        self.oops(format!("window from {a} to {z} of register {:x}", self.cmd));
                        return;
                    }
                    if self.cmd == 0x2a {
                        self.columns = (a, z);
                    } else {
                        self.rows = (a, z);
                    }
                }
            }
            0x2c => {
                if self.left == 0 {
                    self.oops("more pixels than the window has");
                    return;
                }
                self.left -= 1;
                if self.args.len() == 2 {
                    let v = u16::from(self.args[0]) << 8 | u16::from(self.args[1]);
                    self.args.clear();
                    self.ram[self.at.1 * RAM + self.at.0] = v;
                    if self.at.0 < self.columns.1 {
                        self.at.0 += 1;
                    } else {
                        self.at.0 = self.columns.0;
                        self.at.1 = if self.at.1 < self.rows.1 { self.at.1 + 1 } else { self.rows.0 };
                    }
                }
            }
            0x3a => self.format = b & 7,
            _ => (),
        }
    }

    fn pixel(&self, x: usize, y: usize) -> u16 {
        self.ram[(y + 2) * RAM + x + 1]
    }

    /// Whether anything can be seen on the panel.
    fn lit(&self) -> bool {
        self.out.get(&BL).copied().unwrap_or(false)
    }
}

struct FakePins(Arc<Mutex<Panel>>);

fn broken() -> io::Error {
    io::Error::other("It is broken")
}

impl Pins for FakePins {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        let mut p = self.0.lock().unwrap();
        if p.op(false).is_some() {
            return Err(broken());
        }
        p.modes.insert(pin.0, mode);
        Ok(())
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.0.lock().unwrap().modes.remove(&pin.0);
        Ok(())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().modes.clear();
        Ok(())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        let mut p = self.0.lock().unwrap();
        p.looks += 1;
        let Some(i) = BUTTONS.iter().position(|b| b.0 == pin.0) else {
            p.oops(format!("read of pin {}", pin.0));
            return Ok(true);
        };
        if !matches!(p.modes.get(&pin.0), Some(PinMode::InPullUp)) {
            p.oops(format!("pin {} was not set up", pin.0));
        }
        if p.failing[i] {
            return Err(broken());
        }
        if p.pressed[i] {
            p.seen[i] += 1;
        }
        Ok(!p.pressed[i])
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        let mut p = self.0.lock().unwrap();
        if p.op(false).is_some() {
            return Err(broken());
        }
        if ![DC, BL, RST, CS].contains(&pin.0) || !matches!(p.modes.get(&pin.0), Some(PinMode::Out)) {
            p.oops(format!("write to pin {}", pin.0));
        }
        p.out.insert(pin.0, v);
        Ok(())
    }
}

struct FakeBus(Arc<Mutex<Panel>>);

impl io::Write for FakeBus {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut p = self.0.lock().unwrap();
        match p.op(true) {
            None => (),
            Some(Fault::Stuck) => {
                p.zeros += 1;
                if p.zeros > 10_000 {
                    drop(p);
                    panic!("keeps on writing to a bus that takes nothing");
                }
                return Ok(0);
            }
            Some(_) => return Err(broken()),
        }
        if buf.len() > p.max {
            let m = p.max;
            p.oops(format!("write of {} bytes to a bus that takes {m}", buf.len()));
        }
        p.writes += 1;
        let n = match p.take {
            Take::All => buf.len(),
            Take::One => 1,
            Take::Half => buf.len().div_ceil(2),
            Take::Alternate => {
                if p.writes % 2 == 0 {
                    buf.len()
                } else {
                    buf.len().min(3)
                }
            }
            Take::AllButOne => (buf.len() - buf.len().min(1)).max(1),
        };
        let n = n.min(buf.len());
        let data = *p.out.get(&DC).unwrap_or(&false);
        for b in &buf[..n] {
            if data {
                p.data(*b);
            } else {
                p.command(*b);
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SpiBus for FakeBus {
    fn max_size(&self) -> usize {
        self.0.lock().unwrap().max
    }
}

struct Keyboard(Receiver<Key>);

#[async_trait(?Send)]
impl InputOps for Keyboard {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.try_recv().ok())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        match self.0.recv().await {
            Ok(k) => Ok(k),
            Err(_) => Err(broken()),
        }
    }
}

type Con = Rc<RefCell<dyn Console>>;

fn build(rt: &Runtime, panel: &Arc<Mutex<Panel>>, spec: &str) -> io::Result<(Con, Sender<Key>)> {
    let (tx, rx) = async_channel::unbounded();
    let (sig, _) = async_channel::unbounded();
    let mut spec = ConsoleSpec::init(spec);
    let bus = panel.clone();
    let f = St7735sConsoleFactory::new(
        FakePins(panel.clone()),
        move |_, _, _, _: SpiMode| Ok(FakeBus(bus.clone())),
        move |_| Ok(Keyboard(rx)),
        &mut spec,
        &Fonts::all(),
        sig,
    )?;
    let c = rt.block_on(async move { Box::new(f).build() })?;
    Ok((c, tx))
}

fn runtime() -> Runtime {
    Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

struct Kit {
    con: Con,
    panel: Arc<Mutex<Panel>>,
    _keys: Sender<Key>,
    _rt: Runtime,
}

impl Kit {
    fn new() -> io::Result<Kit> {
        let rt = runtime();
        let panel = Arc::new(Mutex::new(Panel::new()));
        let (con, keys) = build(&rt, &panel, "st7735s")?;
        Ok(Kit { con, panel, _keys: keys, _rt: rt })
    }

    /// Everything as in a new console.
    fn reset(&self) -> io::Result<()> {
        let mut c = self.con.borrow_mut();
        c.set_sync(true)?;
        let _not_entered = c.leave_alt();
        c.set_color(None, None)?;
        c.clear(ClearType::All)?;
        c.hide_cursor()?;
        c.show_cursor()
    }
}

thread_local! {
    static KIT: RefCell<Option<Kit>> = const { RefCell::new(None) };
}

/// Runs with a console whose panel was already started, as that takes long.
fn with_kit(f: impl FnOnce(&Kit) -> CaseResult) -> CaseResult {
    KIT.with(|k| {
        let kit = match k.borrow_mut().take() {
            Some(k) => k,
            None => Kit::new().map_err(|e| Failure::new("build", format!("the console cannot start: {e}")))?,
        };
        {
            let mut p = kit.panel.lock().unwrap();
            p.bad.clear();
            p.max = 4096;
            p.take = Take::All;
        }
        let r = kit.reset().map_err(|e| Failure::new("reset", e.to_string())).and_then(|_| f(&kit));
        if r.is_ok() {
            *k.borrow_mut() = Some(kit);
        }
        r
    })
}

fn rgb565(c: (u8, u8, u8)) -> u16 {
    u16::from(c.0 >> 3) << 11 | u16::from(c.1 >> 2) << 5 | u16::from(c.2 >> 3)
}

/// The color of the display in memory, as the panel has it.
fn packed565(v: u32) -> u16 {
    rgb565(((v >> 16) as u8, (v >> 8) as u8, v as u8))
}

fn bad(p: &Panel) -> Option<String> {
    if !p.bad.is_empty() {
        return Some(p.bad.join("; "));
    }
    if !p.on || !p.awake || !p.lit() {
        return Some(format!("the panel is off: on {}, awake {}, backlight {}", p.on, p.awake, p.lit()));
    }
    if p.format != 5 {
        return Some(format!("the panel expects pixels of format {}", p.format));
    }
    None
}

/// Compares what the panel shows with the pixels of `img`.
fn compare(key: &str, what: &str, p: &mut Panel, img: &[u32]) -> CaseResult {
    p.finish();
    if let Some(b) = bad(p) {
        return Err(Failure::new(key, format!("{what}: {b}")));
    }
    let mut wrong = 0;
    let mut first = String::new();
    for y in 0..H {
        for x in 0..W {
            let want = packed565(img[y * W + x]);
            let got = p.pixel(x, y);
            if want != got {
                if wrong == 0 {
                    first = format!("pixel {x},{y} is {got:04x} and should be {want:04x}");
                }
                wrong += 1;
            }
        }
    }
    if wrong > 0 {
        return Err(Failure::new(key, format!("{what}: {wrong} pixels are wrong: {first}")));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Write(&'static str),
    Print(&'static str),
    Clear(u8),
    Locate(u16, u16),
    Move(i16),
    Color(Option<u8>, Option<u8>),
    Hide,
    Show,
    Enter,
    Leave,
    Off,
    On,
    Now,
    Pixel(i16, i16),
    Line(i16, i16, i16, i16),
    Rect(i16, i16, i16, i16),
    Rectf(i16, i16, i16, i16),
    Tri,
    Circlef(i16, i16, u16),
    Fill(i16, i16),
}
use Op::*;

const OPS: [Op; 24] = [
    Write("Some text"),
    Print("a text that is longer than a line of the panel, and goes on"),
    Print(""),
    Clear(0),
    Clear(1),
    Clear(2),
    Locate(24, 15),
    Locate(3, 14),
    Move(-1),
    Color(Some(9), Some(4)),
    Color(Some(200), Some(77)),
    Hide,
    Show,
    Enter,
    Leave,
    Off,
    On,
    Now,
    Pixel(127, 127),
    Line(-5, 3, 140, 90),
    Rect(1, 1, 126, 127),
    Rectf(100, -10, 127, 60),
    Circlef(60, 64, 90),
    Fill(64, 64),
];

fn run(c: &mut dyn Console, o: Op) -> io::Result<()> {
    let p = PixelsXY::new;
    match o {
        Write(t) => c.write(t),
        Print(t) => c.print(t),
        Clear(0) => c.clear(ClearType::All),
        Clear(1) => c.clear(ClearType::CurrentLine),
        Clear(2) => c.clear(ClearType::PreviousChar),
        Clear(_) => c.clear(ClearType::UntilNewLine),
        Locate(x, y) => c.locate(CharsXY::new(x, y)),
        Move(n) => c.move_within_line(n),
        Color(f, b) => c.set_color(f, b),
        Hide => c.hide_cursor(),
        Show => c.show_cursor(),
        Enter => c.enter_alt(),
        Leave => c.leave_alt(),
        Off => c.set_sync(false).map(|_| ()),
        On => c.set_sync(true).map(|_| ()),
        Now => c.sync_now(),
        Pixel(x, y) => c.draw_pixel(p(x, y)),
        Line(a, b, x, y) => c.draw_line(p(a, b), p(x, y)),
        Rect(a, b, x, y) => c.draw_rect(p(a, b), p(x, y)),
        Rectf(a, b, x, y) => c.draw_rect_filled(p(a, b), p(x, y)),
        Tri => c.draw_tri(p(0, 0), p(60, 3), p(20, 90)),
        Circlef(x, y, r) => c.draw_circle_filled(p(x, y), r),
        Fill(x, y) => c.bucket_fill(p(x, y)),
    }
}

/// Moves along the line that leave it are not for consoles.
fn fits(ops: &[Op]) -> bool {
    let mut x: i32 = 0;
    for o in ops {
        match o {
            Move(n) if x + i32::from(*n) < 0 => return false,
            Move(n) => x += i32::from(*n),
            Locate(a, _) => x = i32::from(*a),
            Write(_) => x = 9,
            Print(_) | Clear(0) | Clear(1) | Leave | Enter => x = 0,
            Clear(2) => x = (x - 1).max(0),
            _ => (),
        }
    }
    true
}

fn history(ops: &[Op], cx: &mut Cx, setup: impl FnOnce(&mut Panel)) -> CaseResult {
    if !fits(ops) {
        return Ok(());
    }
    with_kit(|kit| {
        setup(&mut kit.panel.lock().unwrap());
        let (mut twin, screen, _) = gfxx::parts(W, H, 2, &FONT_5X8);
        for (n, o) in ops.iter().enumerate() {
            let what = format!("{ops:?} at operation {n}");
            let b = run(&mut twin, *o);
            let a = catch(|| run(&mut *kit.con.borrow_mut(), *o));
            let a = a.map_err(|e| Failure::new("ops:panic", format!("{what}: {e}")))?;
            if a.is_ok() != b.is_ok() {
                return Err(Failure::new("ops:result", format!("{what}: {a:?} and in memory {b:?}")));
            }
            cx.step(1);
            compare("ops:picture", &what, &mut kit.panel.lock().unwrap(), &screen.borrow().px)?;
            let c = kit.con.borrow();
            if c.color() != twin.color()
                || c.size_chars().ok() != twin.size_chars().ok()
                || c.size_pixels().ok() != twin.size_pixels().ok()
                || c.glyph_size().ok() != twin.glyph_size().ok()
                || c.is_interactive() != twin.is_interactive()
            {
                return Err(Failure::new("ops:state", format!("{what}: the console says other colors or sizes")));
            }
            for (x, y) in [(0, 0), (127, 127), (64, 64), (128, 0), (-1, 5), (2, 3)] {
                let q = PixelsXY::new(x, y);
                if c.peek_pixel(q).ok() != twin.peek_pixel(q).ok() {
                    return Err(Failure::new("ops:peek", format!("{what}: the color of {x},{y} is another")));
                }
            }
            cx.state(&(&kit.panel.lock().unwrap().ram, c.color()));
        }
        Ok(())
    })
}

/// Every color of the palette, with what it should be on the panel.
fn color(c: u8, corner: usize, cx: &mut Cx) -> CaseResult {
    with_kit(|kit| {
        let mut con = kit.con.borrow_mut();
        let (x, y) = [(0, 0), (127, 0), (0, 127), (127, 127)][corner];
        let want = rgb565(ansi_color_to_rgb(c));
        let r = con.set_color(Some(c), Some(0)).and_then(|_| con.draw_pixel(PixelsXY::new(x, y)));
        if let Err(e) = r {
            return Err(Failure::new("color", format!("color {c}: {e}")));
        }
        cx.step(1);
        let mut p = kit.panel.lock().unwrap();
        p.finish();
        let got = p.pixel(x as usize, y as usize);
        let b = bad(&p);
        if got != want || b.is_some() {
            return Err(Failure::new("color", format!("color {c} at {x},{y}: {got:04x}, should be {want:04x}; {b:?}")));
        }
        drop(p);
        // The first of the colors that look the same.
        let first = (0..=255u8).find(|o| rgb565(ansi_color_to_rgb(*o)) == want);
        let peek = con.peek_pixel(PixelsXY::new(x, y)).ok().flatten();
        if peek != first {
            return Err(Failure::new("color:peek", format!("color {c} reads as {peek:?} instead of {first:?}")));
        }
        cx.state(&(c, corner));
        Ok(())
    })
}

const EDGES: [i16; 11] = [-32768, -200, -1, 0, 1, 63, 126, 127, 128, 200, 32767];

/// Filled rectangles leave nothing else touched.
fn rects(x1: i16, y1: i16, cx: &mut Cx) -> CaseResult {
    with_kit(|kit| {
        let mut con = kit.con.borrow_mut();
        con.hide_cursor().unwrap();
        for x2 in EDGES {
            for y2 in EDGES {
                cx.tick();
                con.set_color(Some(7), Some(0)).unwrap();
                con.clear(ClearType::All).unwrap();
                con.set_color(Some(2), Some(0)).unwrap();
                let what = format!("rectangle {x1},{y1} to {x2},{y2}");
                let r = catch(|| con.draw_rect_filled(PixelsXY::new(x1, y1), PixelsXY::new(x2, y2)));
                match r {
                    Ok(Ok(())) => (),
                    r => return Err(Failure::new("rects", format!("{what}: {r:?}"))),
                }
                let (fg, bg) = (gfxx::pack(ansi_color_to_rgb(2)), gfxx::pack(ansi_color_to_rgb(0)));
                let mut img = vec![bg; W * H];
                // Up to before the highest corner, or a line if that leaves nothing.
                let end = |a: i16, b: i16| i32::from(a.max(b)) - i32::from(x1 != x2 && y1 != y2);
                let (ex, ey) = (end(x1, x2).min(127), end(y1, y2).min(127));
                for y in i32::from(y1.min(y2)).max(0)..=ey {
                    for x in i32::from(x1.min(x2)).max(0)..=ex {
                        img[y as usize * W + x as usize] = fg;
                    }
                }
                cx.step(1);
                cx.state(&img);
                compare("rects", &what, &mut kit.panel.lock().unwrap(), &img)?;
            }
        }
        Ok(())
    })
}

const SIZES: [usize; 9] = [1, 2, 3, 4, 5, 7, 255, 4096, 65536];

const BUSOPS: [Op; 6] = [
    Write("Some text"),
    Print("a text that is longer than a line of the panel, and goes on"),
    Pixel(127, 127),
    Rectf(100, -10, 127, 60),
    Color(Some(9), Some(4)),
    Clear(0),
];

/// Starts, draws, and ends a console while something fails.
fn faulty(at: u64, f: Fault, ops: &[Op], cx: &mut Cx) -> CaseResult {
    let what = format!("{f:?} at operation {at} of {ops:?}");
    let rt = runtime();
    let panel = Arc::new(Mutex::new(Panel::new()));
    panel.lock().unwrap().fault = Some((at, f));
    let built = catch(|| build(&rt, &panel, "st7735s"))
        .map_err(|e| Failure::new("faults:build", format!("{what}: the start panics: {e}")))?;
    let failed = panel.lock().unwrap().failed > 0;
    let mut reported = built.is_err();
    if let Ok((con, _keys)) = built {
        if failed {
            return Err(Failure::new("faults:build", format!("{what}: the failure of the start is not reported")));
        }
        cx.count("failures after the start");
        for o in ops {
            let before = panel.lock().unwrap().failed;
            let r = catch(|| run(&mut *con.borrow_mut(), *o))
                .map_err(|e| Failure::new("faults:ops", format!("{what}: {o:?} panics: {e}")))?;
            cx.step(1);
            let fails = panel.lock().unwrap().failed > before;
            if fails == r.is_ok() {
                let say = format!("{what}: {o:?}: {r:?}, but failed: {fails}");
                return Err(Failure::new("faults:ops", say));
            }
            reported |= r.is_err();
        }
        catch(|| drop(con)).map_err(|e| Failure::new("faults:end", format!("{what}: the end panics: {e}")))?;
    } else {
        cx.count("failures of the start");
        cx.step(1);
        catch(|| drop(built)).map_err(|e| Failure::new("faults:end", format!("{what}: the end panics: {e}")))?;
    }
    drop(rt);
    let p = panel.lock().unwrap();
    let pins_work = matches!(f, Fault::Bus | Fault::Stuck) || (f == Fault::Once && reported);
    if pins_work && p.lit() {
        return Err(Failure::new("faults:light", format!("{what}: the backlight stays on")));
    }
    cx.state(&(at, format!("{f:?}"), reported));
    Ok(())
}

/// Starts and ends with whatever bus.
fn bus(size: usize, take: Take, ops: &[Op], cx: &mut Cx) -> CaseResult {
    history(ops, cx, |p| {
        p.max = size;
        p.take = take;
    })
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Press(usize),
    Release(usize),
    Fail(usize),
    Type(char),
    Wait(u64),
    Poll,
    Read,
    ReadBriefly,
}
use Step::*;

const STEPS: [Step; 16] = [
    Press(0),
    Press(3),
    Press(4),
    Press(7),
    Release(0),
    Release(3),
    Release(7),
    Fail(0),
    Fail(4),
    Type('a'),
    Type('b'),
    Wait(50),
    Wait(300),
    Poll,
    Read,
    ReadBriefly,
];

fn buttons(steps: &[Step], cx: &mut Cx) -> CaseResult {
    let what = format!("{steps:?}");
    thread_local! {
        static B: RefCell<Option<(Runtime, Arc<Mutex<Panel>>, Con, Sender<Key>)>> = const { RefCell::new(None) };
    }
    let kit = B.with(|b| b.borrow_mut().take());
    let (rt, panel, con, keys) = match kit {
        Some(k) => k,
        None => {
            let rt = runtime();
            let panel = Arc::new(Mutex::new(Panel::new()));
            let (con, keys) =
                build(&rt, &panel, "st7735s").map_err(|e| Failure::new("build", format!("cannot start: {e}")))?;
            (rt, panel, con, keys)
        }
    };
    // Nothing pressed, nothing left to read.
    {
        let mut p = panel.lock().unwrap();
        p.pressed = [false; 8];
        p.failing = [false; 8];
    }
    rt.block_on(async {
        tokio::time::sleep(Duration::from_millis(400)).await;
        while let Ok(Some(_)) = con.borrow_mut().poll_key().await {}
    });
    {
        let mut p = panel.lock().unwrap();
        p.seen = [0; 8];
        p.bad.clear();
    }
    let mut typed = vec![];
    let mut got = vec![];
    let r: CaseResult = rt.block_on(async {
        for s in steps {
            cx.step(1);
            match s {
                Press(b) => panel.lock().unwrap().pressed[*b] = true,
                Release(b) => panel.lock().unwrap().pressed[*b] = false,
                Fail(b) => panel.lock().unwrap().failing[*b] = true,
                Type(c) => {
                    typed.push(Key::Char(*c));
                    keys.send(Key::Char(*c)).await.unwrap();
                }
                Wait(ms) => {
                    let before = panel.lock().unwrap().looks;
                    tokio::time::sleep(Duration::from_millis(*ms)).await;
                    if *ms >= 300 && panel.lock().unwrap().looks - before < 8 {
                        return Err(Failure::new("buttons:rate", format!("{what}: nobody looks at the buttons")));
                    }
                }
                Poll => match con.borrow_mut().poll_key().await {
                    Ok(k) => got.extend(k),
                    Err(e) => return Err(Failure::new("buttons:poll", format!("{what}: {e}"))),
                },
                Read | ReadBriefly => {
                    let wait = Duration::from_millis(if matches!(s, Read) { 300 } else { 1 });
                    match tokio::time::timeout(wait, con.borrow_mut().read_key()).await {
                        Ok(Ok(k)) => got.push(k),
                        Ok(Err(e)) => return Err(Failure::new("buttons:read", format!("{what}: {e}"))),
                        Err(_) => {
                            let p = panel.lock().unwrap();
                            let held = (0..8).any(|i| p.pressed[i] && !p.failing[i]);
                            if held && matches!(s, Read) {
                                return Err(Failure::new("buttons:read", format!("{what}: the read does not end")));
                            }
                        }
                    }
                }
            }
        }
        // Whatever is left arrives too.
        panel.lock().unwrap().pressed = [false; 8];
        tokio::time::sleep(Duration::from_millis(300)).await;
        while let Ok(Some(k)) = con.borrow_mut().poll_key().await {
            got.push(k);
            if got.len() > 1000 {
                return Err(Failure::new("buttons:endless", what.to_owned()));
            }
        }
        Ok(())
    });
    r?;
    let p = panel.lock().unwrap();
    if !p.bad.is_empty() {
        return Err(Failure::new("buttons:pins", format!("{what}: {}", p.bad.join("; "))));
    }
    let from_keyboard: Vec<Key> = got.iter().filter(|k| matches!(k, Key::Char('a' | 'b'))).copied().collect();
    if from_keyboard != typed {
        return Err(Failure::new("buttons:typed", format!("{what}: typed {typed:?}, read {from_keyboard:?}")));
    }
    let mut counts = BTreeMap::new();
    for k in &got {
        if !matches!(k, Key::Char('a' | 'b')) {
            *counts.entry(format!("{k:?}")).or_insert(0u64) += 1;
        }
    }
    let mut want = BTreeMap::new();
    for (i, (_, k)) in BUTTONS.iter().enumerate() {
        if p.seen[i] > 0 {
            want.insert(format!("{k:?}"), p.seen[i]);
        }
    }
    if counts != want {
        return Err(Failure::new("buttons:keys", format!("{what}: pressed {want:?}, read {counts:?}")));
    }
    cx.state(&(want, typed.len()));
    drop(p);
    B.with(|b| *b.borrow_mut() = Some((rt, panel, con, keys)));
    Ok(())
}

/// Each button alone.
fn button(i: usize, cx: &mut Cx) -> CaseResult {
    buttons(&[Press(i), Wait(50), Release(i), Wait(300), Poll, Press(i), Read, Release(i), Poll], cx)
}

const COLORS: [&str; 7] = ["", "0", "7", "255", "256", "-1", "x"];
const FONTS: [&str; 6] = ["", "5x8", "vga8x16", "16x16", "6x8", "VGA8x16"];

fn settings(fg: &str, bg: &str, font: &str, cx: &mut Cx) -> CaseResult {
    let mut spec = "st7735s:".to_owned();
    for (k, v) in [("fg_color", fg), ("bg_color", bg), ("font", font)] {
        if !v.is_empty() {
            spec += &format!("{k}={v},");
        }
    }
    let known: Option<&'static endbasic_std::gfx::lcd::fonts::Font> =
        if font.is_empty() { Some(&FONT_5X8) } else { Fonts::all().get(font).ok() };
    let number = |s: &str| if s.is_empty() { Ok(None) } else { s.parse::<u8>().map(Some).map_err(|_| ()) };
    let want = match (number(fg), number(bg), known) {
        (Ok(f), Ok(b), Some(font)) => Some((f, b, font)),
        _ => None,
    };
    let rt = runtime();
    let panel = Arc::new(Mutex::new(Panel::new()));
    let r = catch(|| build(&rt, &panel, &spec)).map_err(|e| Failure::new("settings", format!("{spec}: panics: {e}")))?;
    cx.step(1);
    let (con, _keys) = match (r, want) {
        (Err(_), None) => {
            if panel.lock().unwrap().ops > 0 {
                return Err(Failure::new("settings", format!("{spec}: the panel is started before it is refused")));
            }
            return Ok(());
        }
        (Ok(c), Some(_)) => c,
        (r, w) => {
            return Err(Failure::new("settings", format!("{spec}: works: {}, should: {}", r.is_ok(), w.is_some())));
        }
    };
    let (f, b, font) = want.unwrap();
    let screen = Rc::new(RefCell::new(gfxx::Screen { w: W, h: H, px: vec![0; W * H], updates: 0, bad: vec![], broken: false }));
    let lcd = endbasic_std::gfx::lcd::BufferedLcd::new(gfxx::MemLcd { screen: screen.clone(), bytes: 2 }, font);
    let mut twin = endbasic_std::console::GraphicsConsole::new(
        gfxx::Keys { keys: Rc::default(), end: Key::Interrupt },
        lcd,
        endbasic_std::sound::NoopAudioOps,
        f,
        b,
    )
    .unwrap();
    for o in [Write("Hey"), Print("you"), Enter, Color(Some(3), None), Write("x"), Leave, Color(None, None), Write("é")] {
        let (x, y) = (run(&mut *con.borrow_mut(), o), run(&mut twin, o));
        cx.step(1);
        if x.is_err() || y.is_err() {
            return Err(Failure::new("settings", format!("{spec}: {o:?}: {x:?}, {y:?}")));
        }
        compare("settings", &format!("{spec} {o:?}"), &mut panel.lock().unwrap(), &screen.borrow().px)?;
    }
    cx.state(&panel.lock().unwrap().ram);
    // At the end it is blank and dark.
    drop(con);
    drop(rt);
    let p = panel.lock().unwrap();
    if p.lit() {
        return Err(Failure::new("settings", format!("{spec}: the backlight stays on at the end")));
    }
    if (0..H).any(|y| (0..W).any(|x| p.pixel(x, y) != 0)) {
        return Err(Failure::new("settings", format!("{spec}: the panel is not blank at the end")));
    }
    Ok(())
}

/// Operations on pins and bus until the console has drawn.
fn steps_of_start(ops: &[Op]) -> (u64, u64) {
    let rt = runtime();
    let panel = Arc::new(Mutex::new(Panel::new()));
    let Ok((con, _keys)) = build(&rt, &panel, "st7735s") else {
        return (100, 100);
    };
    let start = panel.lock().unwrap().ops;
    for o in ops {
        let _ = run(&mut *con.borrow_mut(), *o);
    }
    drop(con);
    let all = panel.lock().unwrap().ops;
    (start, all)
}

fn sections(t: Tier) -> Vec<Section> {
    let deep = t.pick(2, 3);
    let n = OPS.len() as u64;
    let d = seq_count(n, 1, deep);
    let decode = move |i: u64| -> Vec<Op> { seq_decode(n, 1, i).into_iter().map(|k| OPS[k]).collect() };

    const BR: [u64; 3] = [9, 5, 6];
    let bops = |i: u64| {
        let k = mixed(&BR, i);
        (SIZES[k[0]], TAKES[k[1]], vec![BUSOPS[k[2]], BUSOPS[(k[2] + 1) % 6]])
    };

    const FOPS: [Op; 3] = [Print("xy"), Rectf(1, 2, 30, 40), Write("z")];
    let (_, all) = steps_of_start(&FOPS);
    let fr = [all + 2, FAULTS.len() as u64];

    let sdeep = t.pick(3, 4);
    let sn = STEPS.len() as u64;
    let sd = move |i: u64| -> Vec<Step> { seq_decode(sn, 1, i).into_iter().map(|k| STEPS[k]).collect() };

    const SR: [u64; 3] = [7, 7, 6];

    vec![
        Section::new(
            "colors",
            1024,
            |i| format!("color {} in corner {}", i / 4, i % 4),
            |i, cx| color((i / 4) as u8, (i % 4) as usize, cx),
        ),
        Section::new(
            "rects",
            121,
            |i| format!("rectangles from {},{}", EDGES[(i / 11) as usize], EDGES[(i % 11) as usize]),
            |i, cx| rects(EDGES[(i / 11) as usize], EDGES[(i % 11) as usize], cx),
        ),
        Section::new("ops", d, move |i| format!("{:?}", decode(i)), move |i, cx| history(&decode(i), cx, |_| ())),
        Section::new(
            "bus",
            product(&BR),
            move |i| format!("{:?}", bops(i)),
            move |i, cx| {
                let (s, k, o) = bops(i);
                bus(s, k, &o, cx)
            },
        ),
        Section::new(
            "faults",
            product(&fr),
            move |i| {
                let k = mixed(&fr, i);
                format!("{:?} at operation {}", FAULTS[k[1]], k[0])
            },
            move |i, cx| {
                let k = mixed(&fr, i);
                faulty(k[0] as u64, FAULTS[k[1]], &FOPS, cx)
            },
        )
        .threads(64),
        Section::new("button", 8, |i| format!("{:?}", BUTTONS[i as usize]), |i, cx| button(i as usize, cx)),
        Section::new(
            "buttons",
            seq_count(sn, 1, sdeep),
            move |i| format!("{:?}", sd(i)),
            move |i, cx| buttons(&sd(i), cx),
        ),
        Section::new(
            "settings",
            product(&SR),
            |i| {
                let k = mixed(&SR, i);
                format!("fg {:?} bg {:?} font {:?}", COLORS[k[0]], COLORS[k[1]], FONTS[k[2]])
            },
            |i, cx| {
                let k = mixed(&SR, i);
                settings(COLORS[k[0]], COLORS[k[1]], FONTS[k[2]], cx)
            },
        )
        .threads(64),
    ]
}
