//! A server on the loopback interface that answers as it is told and remembers what it was asked.

use std::collections::VecDeque;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default, Eq, PartialEq)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}

impl Req {
    pub fn header(&self, name: &str) -> Vec<&[u8]> {
        let n = name.to_lowercase();
        self.headers.iter().filter(|(k, _)| *k == n).map(|(_, v)| v.as_slice()).collect()
    }

    /// The decoded segments of the path; None if it is not a plain path.
    pub fn path(&self) -> Option<Vec<String>> {
        if self.target.contains('?') || self.target.contains('#') {
            return None;
        }
        self.target
            .strip_prefix('/')?
            .split('/')
            .map(|s| {
                let d = decode(s)?;
                if s.is_empty() || d == "." || d == ".." { None } else { Some(d) }
            })
            .collect()
    }
}

fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = b.get(i + 1..i + 3)?;
            v.push(u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).ok()
}

#[derive(Clone, Debug)]
pub enum Resp {
    Http(u16, Vec<(String, Vec<u8>)>, Vec<u8>),
    /// Only so many bytes of the body before the connection closes.
    Cut(u16, Vec<u8>, usize),
    /// Closes the connection without an answer.
    Drop,
}

impl Resp {
    pub fn body(status: u16, b: impl Into<Vec<u8>>) -> Self {
        Resp::Http(status, vec![], b.into())
    }
}

#[derive(Default)]
pub struct State {
    pub script: VecDeque<Resp>,
    pub log: Vec<Req>,
}

pub struct Server {
    port: u16,
    pub state: Arc<Mutex<State>>,
}

static NEXT: AtomicU32 = AtomicU32::new(0);

impl Server {
    pub fn start() -> Self {
        let l = TcpListener::bind("0.0.0.0:0").expect("cannot listen on the loopback interface");
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(State::default()));
        let s = state.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                let s = s.clone();
                let Ok(c) = c else { continue };
                // Nobody else has any business here.
                if c.peer_addr().map(|a| a.ip().is_loopback()).unwrap_or(false) {
                    let _ = serve(c, &s);
                }
            }
        });
        Server { port, state }
    }

    /// A new address for the server, so that connections of different cases do not meet.
    pub fn address(&self) -> String {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        format!("http://127.{}.{}.{}:{}/", 1 + (n >> 16) % 254, (n >> 8) & 255, 1 + (n & 255) % 254, self.port)
    }

    pub fn say(&self, r: Resp) {
        self.state.lock().unwrap().script.push_back(r);
    }

    /// What was asked since the last call; forgets the answers that were not used.
    pub fn take(&self) -> Vec<Req> {
        let mut s = self.state.lock().unwrap();
        s.script.clear();
        std::mem::take(&mut s.log)
    }
}

fn serve(c: TcpStream, s: &Arc<Mutex<State>>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut out = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let mut q = Req {
            method: it.next().unwrap_or("").to_owned(),
            target: it.next().unwrap_or("").to_owned(),
            ..Req::default()
        };
        let mut len = 0;
        loop {
            let mut h = vec![];
            if r.read_until(b'\n', &mut h)? == 0 {
                return Ok(());
            }
            while matches!(h.last(), Some(b'\n' | b'\r')) {
                h.pop();
            }
            if h.is_empty() {
                break;
            }
            let p = h.iter().position(|b| *b == b':').unwrap_or(h.len());
            let k = String::from_utf8_lossy(&h[..p]).to_lowercase();
            let mut v = h.get(p + 1..).unwrap_or(&[]).to_vec();
            if v.first() == Some(&b' ') {
                v.remove(0);
            }
            if k == "content-length" {
                len = String::from_utf8_lossy(&v).trim().parse().unwrap_or(0);
            }
            q.headers.push((k, v));
        }
        q.body = vec![0; len];
        r.read_exact(&mut q.body)?;
        let resp = {
            let mut s = s.lock().unwrap();
            s.log.push(q);
            s.script.pop_front().unwrap_or(Resp::body(500, "nothing to say"))
        };
        let (status, headers, body, n, cut) = match resp {
            Resp::Http(s, h, b) => {
                let n = b.len();
                (s, h, b, n, false)
            }
            Resp::Cut(s, b, n) => (s, vec![], b, n, true),
            Resp::Drop => return Ok(()),
        };
        let mut m = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\n", status, body.len()).into_bytes();
        for (k, v) in &headers {
            m.extend_from_slice(k.as_bytes());
            m.extend_from_slice(b": ");
            m.extend_from_slice(v);
            m.extend_from_slice(b"\r\n");
        }
        m.extend_from_slice(b"\r\n");
        m.extend_from_slice(&body[..n]);
        out.write_all(&m)?;
        out.flush()?;
        if cut {
            return Ok(());
        }
    }
}
