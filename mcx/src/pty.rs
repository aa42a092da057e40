//! Runs processes on a terminal of their own.

use std::fs::File;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Pty {
    master: File,
    slave: File,
}

/// What a process did on its terminal.
pub struct Shown {
    pub code: i32,
    pub bytes: Vec<u8>,
    /// Whether the terminal was left as it was.
    pub restored: bool,
    /// Whether the terminal was in raw mode while it run.
    pub raw: bool,
    pub timeout: bool,
}

fn attrs(f: &File) -> io::Result<libc::termios> {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(f.as_raw_fd(), &mut t) != 0 {
            return Err(io::Error::last_os_error());
        }
        Ok(t)
    }
}

fn same(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc == b.c_cc
}

impl Pty {
    pub fn new(w: u16, h: u16) -> io::Result<Self> {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if m < 0 {
                return Err(io::Error::last_os_error());
            }
            let master = File::from_raw_fd(m);
            if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
                return Err(io::Error::last_os_error());
            }
            let mut name = [0 as libc::c_char; 128];
            if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
                return Err(io::Error::last_os_error());
            }
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if s < 0 {
                return Err(io::Error::last_os_error());
            }
            let slave = File::from_raw_fd(s);
            let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
            if libc::ioctl(m, libc::TIOCSWINSZ, &ws) != 0 {
                return Err(io::Error::last_os_error());
            }
            // An ordinary terminal, except for the echo of what nobody is there to read yet.
            let mut t = attrs(&slave)?;
            t.c_lflag &= !(libc::ECHO | libc::ECHOE | libc::ECHOK);
            t.c_lflag |= libc::ICANON | libc::ISIG;
            t.c_cc[libc::VINTR] = 3;
            if libc::tcsetattr(s, libc::TCSANOW, &t) != 0 {
                return Err(io::Error::last_os_error());
            }
            let fl = libc::fcntl(m, libc::F_GETFL);
            libc::fcntl(m, libc::F_SETFL, fl | libc::O_NONBLOCK);
            Ok(Pty { master, slave })
        }
    }

    fn drain(&mut self, v: &mut Vec<u8>) -> bool {
        let mut b = [0; 4096];
        let mut any = false;
        loop {
            match self.master.read(&mut b) {
                Ok(n) if n > 0 => {
                    v.extend_from_slice(&b[..n]);
                    any = true;
                }
                _ => return any,
            }
        }
    }

    /// Runs a process to its end, with each of the pieces of `keys` sent once what precedes it was shown.
    pub fn run(mut self, c: &mut Command, keys: &[(&[u8], &[u8])]) -> io::Result<Shown> {
        let before = attrs(&self.slave)?;
        c.stdin(Stdio::from(self.slave.try_clone()?))
            .stdout(Stdio::from(self.slave.try_clone()?))
            .stderr(Stdio::from(self.slave.try_clone()?));
        unsafe {
            c.pre_exec(|| {
                if libc::setsid() < 0 || libc::ioctl(0, libc::TIOCSCTTY, 0) != 0 {
                    return Err(io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let mut p = c.spawn()?;
        let end = Instant::now() + Duration::from_secs(30);
        let mut s = Shown { code: -1, bytes: vec![], restored: false, raw: false, timeout: false };
        let mut keys = keys.iter();
        let mut next = keys.next();
        let mut from = 0;
        loop {
            self.drain(&mut s.bytes);
            let gone = p.try_wait()?;
            s.raw |= attrs(&self.slave)?.c_lflag & libc::ICANON == 0;
            if let Some((wait, k)) = next
                && s.raw
                && (wait.is_empty() || s.bytes[from..].windows(wait.len()).any(|w| w == *wait))
            {
                from = s.bytes.len();
                self.master.write_all(k)?;
                next = keys.next();
            }
            if let Some(e) = gone {
                self.drain(&mut s.bytes);
                s.code = e.code().unwrap_or(-1);
                s.restored = same(&before, &attrs(&self.slave)?);
                return Ok(s);
            }
            if Instant::now() > end {
                let _ = p.kill();
                let _ = p.wait();
                self.drain(&mut s.bytes);
                s.timeout = true;
                return Ok(s);
            }
            let mut f = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            unsafe {
                libc::poll(&mut f, 1, 1);
            }
        }
    }
}

/// A terminal as most are: what a person sees after some bytes were sent to it.
#[derive(Clone, Debug)]
pub struct Term {
    pub w: usize,
    pub h: usize,
    pub grid: Vec<Vec<char>>,
    pub x: usize,
    pub y: usize,
    pub cursor: bool,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    saved: Option<(Vec<Vec<char>>, usize, usize, Option<u8>, Option<u8>)>,
    /// What is not known.
    pub unknown: Vec<String>,
    pub bells: usize,
}

impl Term {
    pub fn new(w: usize, h: usize) -> Self {
        Term {
            w,
            h,
            grid: vec![vec![' '; w]; h],
            x: 0,
            y: 0,
            cursor: true,
            fg: None,
            bg: None,
            saved: None,
            unknown: vec![],
            bells: 0,
        }
    }

    pub fn alt(&self) -> bool {
        self.saved.is_some()
    }

    pub fn rows(&self) -> Vec<String> {
        self.grid.iter().map(|r| r.iter().collect::<String>().trim_end().to_owned()).collect()
    }

    fn down(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.grid.remove(0);
            self.grid.push(vec![' '; self.w]);
        }
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        let text = String::from_utf8_lossy(bytes).into_owned();
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\r' => self.x = 0,
                '\n' => self.down(),
                '\x08' => self.x = self.x.min(self.w - 1).saturating_sub(1),
                '\x07' => self.bells += 1,
                '\x1b' => {
                    let mut s = String::new();
                    if it.next() != Some('[') {
                        self.unknown.push("escape".to_owned());
                        continue;
                    }
                    let mut last = None;
                    for c in it.by_ref() {
                        if ('@'..='~').contains(&c) {
                            last = Some(c);
                            break;
                        }
                        s.push(c);
                    }
                    self.csi(&s, last.unwrap_or('?'));
                }
                c if c.is_control() => self.unknown.push(format!("{:?}", c)),
                c => {
                    if self.x >= self.w {
                        self.x = 0;
                        self.down();
                    }
                    self.grid[self.y][self.x] = c;
                    self.x += 1;
                }
            }
        }
    }

    fn csi(&mut self, s: &str, last: char) {
        let n: Vec<usize> = s.split(';').map(|p| p.parse().unwrap_or(0)).collect();
        let one = n[0].max(1);
        let x = self.x.min(self.w - 1);
        match (last, s) {
            ('H', _) => {
                self.y = (one - 1).min(self.h - 1);
                self.x = (n.get(1).copied().unwrap_or(1).max(1) - 1).min(self.w - 1);
            }
            ('C', _) => self.x = (x + one).min(self.w - 1),
            ('D', _) => self.x = x.saturating_sub(one),
            ('J', "2") => self.grid.iter_mut().for_each(|r| r.fill(' ')),
            ('K', "" | "0") => self.grid[self.y][x..].fill(' '),
            ('K', "2") => self.grid[self.y].fill(' '),
            ('h', "?25") => self.cursor = true,
            ('l', "?25") => self.cursor = false,
            ('h', "?1049") => {
                if self.saved.is_none() {
                    self.saved = Some((self.grid.clone(), self.x, self.y, self.fg, self.bg));
                    self.grid.iter_mut().for_each(|r| r.fill(' '));
                }
            }
            ('l', "?1049") => {
                if let Some((g, x, y, fg, bg)) = self.saved.take() {
                    self.grid = g;
                    self.x = x;
                    self.y = y;
                    self.fg = fg;
                    self.bg = bg;
                }
            }
            ('m', _) => match n.as_slice() {
                [0] => {
                    self.fg = None;
                    self.bg = None;
                }
                [39] => self.fg = None,
                [49] => self.bg = None,
                [38, 5, c] if *c < 256 => self.fg = Some(*c as u8),
                [48, 5, c] if *c < 256 => self.bg = Some(*c as u8),
                _ => self.unknown.push(format!("m {}", s)),
            },
            _ => self.unknown.push(format!("{} {}", s, last)),
        }
    }
}
