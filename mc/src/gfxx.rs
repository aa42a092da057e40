//! The real graphical console on a display in memory.

use async_trait::async_trait;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{Console, GraphicsConsole, Key, RGB};
use endbasic_std::gfx::lcd::fonts::Font;
use endbasic_std::gfx::lcd::{AsByteSlice, BufferedLcd, Lcd, LcdSize, LcdXY};
use endbasic_std::sound::NoopAudioOps;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

/// A pixel of up to three bytes.
#[derive(Clone, Copy)]
pub struct Px([u8; 3], usize);

impl AsByteSlice for Px {
    fn as_slice(&self) -> &[u8] {
        &self.0[..self.1]
    }
}

/// What the display shows.
pub struct Screen {
    pub w: usize,
    pub h: usize,
    /// Packed colors.
    pub px: Vec<u32>,
    /// Updates received.
    pub updates: usize,
    pub bad: Vec<String>,
    /// Fails the updates while it is true.
    pub broken: bool,
}

pub fn pack(c: RGB) -> u32 {
    u32::from(c.0) << 16 | u32::from(c.1) << 8 | u32::from(c.2)
}

/// A display with pixels of 24 or 16 bits.
pub struct MemLcd {
    pub screen: Rc<RefCell<Screen>>,
    pub bytes: usize,
}

impl Lcd for MemLcd {
    type Pixel = Px;

    fn info(&self) -> (LcdSize, usize) {
        let s = self.screen.borrow();
        (LcdSize { width: s.w, height: s.h }, self.bytes)
    }

    fn decode(&self, p: &[u8]) -> RGB {
        match self.bytes {
            3 => (p[0], p[1], p[2]),
            _ => {
                let v = u16::from_be_bytes([p[0], p[1]]);
                (((v >> 11) as u8) << 3, ((v >> 5 & 0x3f) as u8) << 2, ((v & 0x1f) as u8) << 3)
            }
        }
    }

    fn encode(&self, c: RGB) -> Px {
        match self.bytes {
            3 => Px([c.0, c.1, c.2], 3),
            _ => {
                let v = u16::from(c.0 >> 3) << 11 | u16::from(c.1 >> 2) << 5 | u16::from(c.2 >> 3);
                let b = v.to_be_bytes();
                Px([b[0], b[1], 0], 2)
            }
        }
    }

    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        let mut s = self.screen.borrow_mut();
        if s.broken {
            return Err(io::Error::other("The display is broken"));
        }
        s.updates += 1;
        let inside = a.x <= b.x && a.y <= b.y && b.x < s.w && b.y < s.h;
        if !inside || data.len() != (b.x - a.x + 1) * (b.y - a.y + 1) * self.bytes {
            s.bad.push(format!("update of {} bytes from {},{} to {},{}", data.len(), a.x, a.y, b.x, b.y));
            return Ok(());
        }
        let mut p = data.chunks(self.bytes);
        for y in a.y..=b.y {
            for x in a.x..=b.x {
                let c = pack(self.decode(p.next().unwrap()));
                let i = y * s.w + x;
                s.px[i] = c;
            }
        }
        Ok(())
    }
}

/// Keys that were prepared.
pub struct Keys {
    pub keys: Rc<RefCell<VecDeque<Key>>>,
    pub end: Key,
}

#[async_trait(?Send)]
impl InputOps for Keys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.borrow_mut().pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(self.keys.borrow_mut().pop_front().unwrap_or(self.end))
    }
}

pub type Gfx = GraphicsConsole<Keys, BufferedLcd<MemLcd>, NoopAudioOps>;

pub struct Disp {
    pub con: Gfx,
    pub screen: Rc<RefCell<Screen>>,
    pub keys: Rc<RefCell<VecDeque<Key>>>,
}

/// The console and what it shows.
pub fn parts(w: usize, h: usize, bytes: usize, font: &'static Font) -> (Gfx, Rc<RefCell<Screen>>, Rc<RefCell<VecDeque<Key>>>) {
    let screen = Rc::new(RefCell::new(Screen {
        w,
        h,
        px: vec![0x123456; w * h],
        updates: 0,
        bad: vec![],
        broken: false,
    }));
    let keys = Rc::new(RefCell::new(VecDeque::new()));
    let lcd = BufferedLcd::new(MemLcd { screen: screen.clone(), bytes }, font);
    let con =
        GraphicsConsole::new(Keys { keys: keys.clone(), end: Key::Interrupt }, lcd, NoopAudioOps, None, None).unwrap();
    (con, screen, keys)
}

impl Disp {
    pub fn new(w: usize, h: usize, bytes: usize, font: &'static Font) -> Self {
        let (con, screen, keys) = parts(w, h, bytes, font);
        Disp { con, screen, keys }
    }

    /// A canvas without text.
    pub fn canvas(w: usize, h: usize) -> Self {
        let mut d = Self::new(w, h, 3, &DOT);
        d.con.hide_cursor().unwrap();
        d
    }

    pub fn at(&self, x: usize, y: usize) -> u32 {
        let s = self.screen.borrow();
        s.px[y * s.w + x]
    }

    pub fn shot(&self) -> Vec<u32> {
        self.screen.borrow().px.clone()
    }

    /// The pixels of a color.
    pub fn lit(&self, c: u32) -> Vec<bool> {
        self.screen.borrow().px.iter().map(|p| *p == c).collect()
    }

    pub fn blank(&mut self) {
        self.con.clear(endbasic_std::console::ClearType::All).unwrap();
    }
}

/// A font of one pixel, for canvases.
pub static DOT: Font =
    Font { name: "dot", glyph_size: LcdSize { width: 1, height: 1 }, stride: 1, data: &[0x80; 95] };

/// Pictures of small canvases for reports.
pub fn picture(w: usize, lit: &[bool]) -> String {
    lit.chunks(w)
        .map(|r| r.iter().map(|b| if *b { '#' } else { '.' }).collect::<String>())
        .collect::<Vec<_>>()
        .join("\n")
}

