//! A terminal emulator that implements the console interface: it keeps what a person would see.

use async_trait::async_trait;
use endbasic_std::Signal;
use endbasic_std::console::{
    CharsXY, ClearType, Console, Key, PixelsXY, SizeInPixels, remove_control_chars,
};
use endbasic_std::sound::Tone;
use std::collections::VecDeque;
use std::io;

/// What is visible at a point in time.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Snap {
    pub rows: Vec<String>,
    pub x: usize,
    pub y: usize,
    pub cursor: bool,
    pub wraps: usize,
    pub colors: (Option<u8>, Option<u8>),
    pub alt: bool,
    pub scrolled: usize,
}

/// Everything a program sends to the console.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Ev {
    Print(String),
    Write(String),
    Clear,
    Color(Option<u8>, Option<u8>),
    Key(String),
    Draw(String),
    Other(String),
}

pub struct Scr {
    pub w: usize,
    pub h: usize,
    pub grid: Vec<Vec<char>>,
    pub x: usize,
    pub y: usize,
    pub cursor: bool,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    saved: Option<(Vec<Vec<char>>, usize, usize, Option<u8>, Option<u8>)>,
    pub sync: bool,
    /// Impossible requests: moves outside of the screen, unbalanced state changes...
    pub bad: Vec<String>,
    pub wraps: usize,
    pub scrolled: usize,
    pub keys: VecDeque<Key>,
    /// What to return when the keys are exhausted; None for an error.
    pub end_key: Option<Key>,
    pub snaps: Vec<Snap>,
    pub take_snaps: bool,
    pub interactive: bool,
    pub log: Vec<Ev>,
    pub keep_log: bool,
    pub signals_tx: Option<async_channel::Sender<Signal>>,
    pub reads: usize,
    pub key_count: usize,
    /// Scroll lock: rows that fell off the top.
    pub history: Vec<String>,
    pub size_pixels: Option<(u16, u16)>,
    pub sync_now_count: usize,
    /// Interrupts while the n-th tone from now plays.
    pub tone_break: Option<usize>,
    /// Gives the next key when there are none, knowing the log and whether the read waits.
    pub player: Option<Player>,
}

pub type Player = Box<dyn FnMut(&[Ev], bool) -> Option<Key>>;

impl Scr {
    pub fn new(w: usize, h: usize) -> Self {
        Self {
            w,
            h,
            grid: vec![vec![' '; w]; h],
            x: 0,
            y: 0,
            cursor: true,
            fg: None,
            bg: None,
            saved: None,
            sync: true,
            bad: vec![],
            wraps: 0,
            scrolled: 0,
            keys: VecDeque::new(),
            end_key: Some(Key::EofOrDelete),
            snaps: vec![],
            take_snaps: false,
            interactive: true,
            log: vec![],
            keep_log: false,
            signals_tx: None,
            reads: 0,
            key_count: 0,
            history: vec![],
            size_pixels: None,
            sync_now_count: 0,
            tone_break: None,
            player: None,
        }
    }

    pub fn alt_active(&self) -> bool {
        self.saved.is_some()
    }

    pub fn row(&self, y: usize) -> String {
        self.grid[y].iter().collect::<String>().trim_end().to_owned()
    }

    pub fn snap(&self) -> Snap {
        Snap {
            rows: (0..self.h).map(|y| self.row(y)).collect(),
            x: self.x,
            y: self.y,
            cursor: self.cursor,
            wraps: self.wraps,
            colors: (self.fg, self.bg),
            alt: self.saved.is_some(),
            scrolled: self.scrolled,
        }
    }

    fn newline(&mut self) {
        self.x = 0;
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            let gone = self.grid.remove(0);
            if self.keep_log {
                self.history.push(gone.iter().collect::<String>().trim_end().to_owned());
            }
            self.grid.push(vec![' '; self.w]);
            self.scrolled += 1;
        }
    }

    fn put(&mut self, text: &str) {
        for ch in text.chars() {
            if self.x >= self.w {
                self.wraps += 1;
                self.newline();
            }
            if self.w > 0 {
                self.grid[self.y][self.x] = ch;
                self.x += 1;
            }
        }
    }

    fn ev(&mut self, e: Ev) {
        if self.keep_log {
            self.log.push(e);
        }
    }

    async fn next_key(&mut self, waits: bool) -> Option<Key> {
        let mut k = self.keys.pop_front();
        if k.is_none()
            && let Some(p) = &mut self.player
        {
            k = p(&self.log, waits);
        }
        if let Some(k) = &k {
            self.key_count += 1;
            self.ev(Ev::Key(format!("{:?}", k)));
            if *k == Key::Interrupt
                && let Some(tx) = &self.signals_tx
            {
                let _ = tx.send(Signal::Break).await;
            }
        }
        k
    }

    fn draw(&mut self, s: String) -> io::Result<()> {
        if self.size_pixels.is_none() {
            return Err(io::Error::other("No graphics support in this console"));
        }
        self.ev(Ev::Draw(s));
        Ok(())
    }

    /// All text printed, one line per `PRINT`-like operation.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for e in &self.log {
            match e {
                Ev::Print(t) => {
                    s.push_str(t);
                    s.push('\n');
                }
                Ev::Write(t) => s.push_str(t),
                _ => (),
            }
        }
        s
    }
}

#[async_trait(?Send)]
impl Console for Scr {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        self.ev(Ev::Clear);
        match how {
            ClearType::All => {
                for r in &mut self.grid {
                    r.fill(' ');
                }
                self.x = 0;
                self.y = 0;
            }
            ClearType::CurrentLine => {
                self.grid[self.y].fill(' ');
            }
            ClearType::PreviousChar => {
                if self.x > 0 {
                    self.x -= 1;
                    self.grid[self.y][self.x] = ' ';
                }
            }
            ClearType::UntilNewLine => {
                for c in self.grid[self.y].iter_mut().skip(self.x) {
                    *c = ' ';
                }
            }
        }
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (self.fg, self.bg)
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.fg = fg;
        self.bg = bg;
        self.ev(Ev::Color(fg, bg));
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        if self.saved.is_some() {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "Cannot nest alternate screens"));
        }
        self.saved = Some((self.grid.clone(), self.x, self.y, self.fg, self.bg));
        for r in &mut self.grid {
            r.fill(' ');
        }
        self.x = 0;
        self.y = 0;
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.cursor = false;
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        match self.saved.take() {
            Some((g, x, y, fg, bg)) => {
                self.grid = g;
                self.x = x;
                self.y = y;
                self.fg = fg;
                self.bg = bg;
                Ok(())
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "Not in alternate screen")),
        }
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        let (x, y) = (pos.x as usize, pos.y as usize);
        if x >= self.w || y >= self.h {
            self.bad.push(format!("locate({},{}) outside of {}x{}", x, y, self.w, self.h));
            return Ok(());
        }
        self.x = x;
        self.y = y;
        Ok(())
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        let x = self.x as i64 + off as i64;
        if x < 0 || x > self.w as i64 {
            self.bad.push(format!("move_within_line({}) from column {} of {}", off, self.x, self.w));
            return Ok(());
        }
        self.x = x as usize;
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        let text = remove_control_chars(text.to_owned());
        self.put(&text);
        self.newline();
        self.ev(Ev::Print(text));
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.next_key(false).await)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.reads += 1;
        if self.take_snaps {
            let s = self.snap();
            self.snaps.push(s);
        }
        match self.next_key(true).await {
            Some(k) => Ok(k),
            None => match &self.end_key {
                Some(k) => Ok(k.clone()),
                None => Err(io::Error::other("END-OF-SCRIPT")),
            },
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.cursor = true;
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(CharsXY::new(self.w as u16, self.h as u16))
    }
    fn size_pixels(&self) -> io::Result<SizeInPixels> {
        match self.size_pixels {
            Some((w, h)) => Ok(SizeInPixels::new(w, h)),
            None => Err(io::Error::other("No graphics support in this console")),
        }
    }
    fn glyph_size(&self) -> io::Result<SizeInPixels> {
        match self.size_pixels {
            Some(_) => Ok(SizeInPixels::new(8, 16)),
            None => Err(io::Error::other("No graphics support in this console")),
        }
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        let text = remove_control_chars(text.to_owned());
        self.put(&text);
        self.ev(Ev::Write(text));
        Ok(())
    }
    fn bucket_fill(&mut self, xy: PixelsXY) -> io::Result<()> {
        self.draw(format!("fill {},{}", xy.x, xy.y))
    }
    fn draw_circle(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.draw(format!("circle {},{} {}", c.x, c.y, r))
    }
    fn draw_circle_filled(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.draw(format!("circlef {},{} {}", c.x, c.y, r))
    }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.draw(format!("line {},{} {},{}", a.x, a.y, b.x, b.y))
    }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> {
        self.draw(format!("pixel {},{}", a.x, a.y))
    }
    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        self.draw(format!("poly {:?}", p.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()))
    }
    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        self.draw(format!("polyf {:?}", p.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()))
    }
    fn draw_rect(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.draw(format!("rect {},{} {},{}", a.x, a.y, b.x, b.y))
    }
    fn draw_rect_filled(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.draw(format!("rectf {},{} {},{}", a.x, a.y, b.x, b.y))
    }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.draw(format!("tri {},{} {},{} {},{}", a.x, a.y, b.x, b.y, c.x, c.y))
    }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.draw(format!("trif {},{} {},{} {},{}", a.x, a.y, b.x, b.y, c.x, c.y))
    }
    fn peek_pixel(&self, _xy: PixelsXY) -> io::Result<Option<u8>> {
        if self.size_pixels.is_none() {
            return Err(io::Error::other("No graphics support in this console"));
        }
        Ok(Some(7))
    }
    fn sync_now(&mut self) -> io::Result<()> {
        self.sync_now_count += 1;
        Ok(())
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        let p = self.sync;
        self.sync = enabled;
        Ok(p)
    }
    async fn play_tone(&mut self, tone: Tone) -> io::Result<()> {
        self.ev(Ev::Other(format!("{:?}", tone)));
        match self.tone_break {
            Some(0) => {
                self.tone_break = None;
                if let Some(tx) = &self.signals_tx {
                    let _ = tx.send(Signal::Break).await;
                }
            }
            Some(n) => self.tone_break = Some(n - 1),
            None => (),
        }
        Ok(())
    }
}
