//! Line editing at a prompt: every key sequence up to a bound against an ideal line editor.

use crate::engine::*;
use crate::scr::*;
use endbasic_std::console::{Key, LineBuffer, read_line, read_line_secure};
use futures_lite::future::block_on;

#[derive(Clone, Debug)]
struct Cfg {
    width: usize,
    prompt: &'static str,
    previous: &'static str,
    history: Option<&'static [&'static str]>,
    secure: bool,
}

/// The ideal line editor.
struct Model {
    line: Vec<char>,
    pos: usize,
    hist: Option<Vec<Vec<char>>>,
    hpos: usize,
}

enum Out {
    More,
    Submit,
    Eof,
    Intr,
}

impl Model {
    fn new(c: &Cfg) -> Self {
        let line: Vec<char> = c.previous.chars().collect();
        let hist = c.history.map(|h| {
            let mut v: Vec<Vec<char>> = h.iter().map(|s| s.chars().collect()).collect();
            v.push(line.clone());
            v
        });
        let hpos = hist.as_ref().map(|h| h.len() - 1).unwrap_or(0);
        Self { pos: line.len(), line, hist, hpos }
    }

    fn recall(&mut self, to: usize) {
        let h = self.hist.as_mut().unwrap();
        h[self.hpos] = self.line.clone();
        self.hpos = to;
        self.line = h[to].clone();
        self.pos = self.line.len();
    }

    fn key(&mut self, k: &Key) -> Out {
        match k {
            Key::Char(c) => {
                self.line.insert(self.pos, *c);
                self.pos += 1;
            }
            Key::ArrowLeft => self.pos = self.pos.saturating_sub(1),
            Key::ArrowRight => self.pos = (self.pos + 1).min(self.line.len()),
            Key::Home => self.pos = 0,
            Key::End => self.pos = self.line.len(),
            Key::Backspace => {
                if self.pos > 0 {
                    self.pos -= 1;
                    self.line.remove(self.pos);
                }
            }
            Key::Delete => {
                if self.pos < self.line.len() {
                    self.line.remove(self.pos);
                }
            }
            Key::EofOrDelete => {
                if self.line.is_empty() {
                    return Out::Eof;
                }
                if self.pos < self.line.len() {
                    self.line.remove(self.pos);
                }
            }
            Key::ArrowUp => {
                if self.hist.is_some() && self.hpos > 0 {
                    self.recall(self.hpos - 1);
                }
            }
            Key::ArrowDown => {
                if self.hist.as_ref().is_some_and(|h| self.hpos + 1 < h.len()) {
                    self.recall(self.hpos + 1);
                }
            }
            Key::Interrupt => return Out::Intr,
            Key::NewLine | Key::CarriageReturn => return Out::Submit,
            _ => (),
        }
        Out::More
    }
}

fn s(v: &[char]) -> String {
    v.iter().collect()
}

fn check(cfg: &Cfg, keys: &[Key], cx: &mut Cx) -> Result<(), String> {
    let mut scr = Scr::new(cfg.width, 3);
    scr.take_snaps = true;
    scr.end_key = None;
    scr.keys.extend(keys.iter().cloned());
    scr.keys.push_back(Key::NewLine);

    let mut hist: Option<Vec<String>> =
        cfg.history.map(|h| h.iter().map(|s| (*s).to_owned()).collect());
    let old_hist = hist.clone();
    let r = if cfg.secure {
        block_on(read_line_secure(&mut scr, cfg.prompt))
    } else {
        block_on(read_line(&mut scr, cfg.prompt, cfg.previous, hist.as_mut()))
    };

    // Run the model.
    let mut m = Model::new(cfg);
    let mut views: Vec<(String, usize)> = vec![(s(&m.line), m.pos)];
    let mut out = Out::Submit;
    for k in keys.iter().chain([Key::NewLine].iter()) {
        cx.step(1);
        out = m.key(k);
        if !matches!(out, Out::More) {
            break;
        }
        cx.state(&(cfg.width, cfg.prompt, &m.line, m.pos, m.hpos, &m.hist));
        views.push((s(&m.line), m.pos));
    }

    match (&out, &r) {
        (Out::Submit, Ok(got)) => {
            if *got != s(&m.line) {
                return Err(format!("returned {:?} instead of {:?}", got, s(&m.line)));
            }
        }
        (Out::Eof, Err(e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => (),
        (Out::Intr, Err(e)) if e.kind() == std::io::ErrorKind::Interrupted => (),
        _ => return Err(format!("unexpected result {:?}; line is {:?}", r, s(&m.line))),
    }

    if let Some(h) = &hist {
        let want: Vec<String> = match out {
            Out::Submit => {
                let mut v: Vec<String> = m.hist.as_ref().unwrap().iter().map(|l| s(l)).collect();
                v.pop();
                if !m.line.is_empty() {
                    v.push(s(&m.line));
                }
                v
            }
            // Nothing was entered: the history must not have grown.
            _ => {
                let mut v: Vec<String> = m.hist.as_ref().unwrap().iter().map(|l| s(l)).collect();
                v.truncate(old_hist.as_ref().unwrap().len());
                v
            }
        };
        if *h != want {
            return Err(format!("history is {:?} instead of {:?}", h, want));
        }
    }

    if let Some(b) = scr.bad.first() {
        return Err(b.clone());
    }

    // The screen before every key: the prompt followed by a window of the line with the cursor.
    if scr.snaps.len() != views.len() {
        return Err(format!("read {} keys instead of {}", scr.snaps.len(), views.len()));
    }
    let plen = cfg.prompt.chars().count();
    let first_prompt: Vec<char> = {
        if plen < cfg.width {
            cfg.prompt.chars().collect()
        } else {
            // Truncated in some way: find it out from the screen.
            let (line, _) = &views[0];
            let row = &scr.snaps[0].rows[0];
            if line.is_empty() {
                let mut v: Vec<char> = row.chars().collect();
                v.resize(scr.snaps[0].x, ' ');
                v
            } else {
                return Ok(());
            }
        }
    };
    let plen = first_prompt.len();
    let iw = cfg.width.saturating_sub(plen).saturating_sub(1);
    for (i, (snap, (line, pos))) in scr.snaps.iter().zip(&views).enumerate() {
        let at = || format!("before key {}: {:?} line {:?} pos {}", i, snap, line, pos);
        if !snap.cursor {
            return Err(format!("cursor hidden {}", at()));
        }
        if snap.y != 0 || snap.wraps != 0 {
            return Err(format!("text left its line {}", at()));
        }
        if snap.rows[1..].iter().any(|r| !r.is_empty()) {
            return Err(format!("other lines touched {}", at()));
        }
        let chars: Vec<char> =
            if cfg.secure { vec!['*'; line.chars().count()] } else { line.chars().collect() };
        let mut ok = false;
        for view in 0..=*pos {
            if pos - view > iw {
                continue;
            }
            let mut want: Vec<char> = first_prompt.clone();
            want.extend(chars.iter().skip(view).take(iw));
            let want: String = want.into_iter().collect::<String>().trim_end().to_owned();
            if want == snap.rows[0] && snap.x == plen + pos - view {
                ok = true;
                break;
            }
        }
        if !ok {
            return Err(format!("line shown wrong {}", at()));
        }
    }
    cx.traces += 1;
    Ok(())
}

fn keyset(full: bool) -> Vec<Key> {
    if full {
        vec![
            Key::Char('a'),
            Key::Char('é'),
            Key::ArrowLeft,
            Key::ArrowRight,
            Key::Backspace,
            Key::Delete,
            Key::Home,
            Key::End,
            Key::ArrowUp,
            Key::ArrowDown,
            Key::EofOrDelete,
            Key::Interrupt,
            Key::Tab,
            Key::CarriageReturn,
            Key::Escape,
            Key::PageUp,
            Key::PageDown,
            Key::Unknown,
            Key::Char(' '),
            Key::NewLine,
        ]
    } else {
        vec![
            Key::Char('a'),
            Key::Char('é'),
            Key::ArrowLeft,
            Key::ArrowRight,
            Key::Backspace,
            Key::Delete,
            Key::Home,
            Key::End,
            Key::ArrowUp,
            Key::ArrowDown,
        ]
    }
}

const HIST: &[&str] = &["one", "é, longer"];

/// Whether there is room for at least one character of input next to the cursor.  Prompts that do
/// not fit in the line are cut to leave that room.
fn has_room(width: usize, prompt: &str) -> bool {
    let plen = prompt.chars().count();
    width >= 2 && (plen >= width || plen + 2 <= width)
}

fn cfgs(full: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for width in if full { vec![20, 6, 5, 4, 3, 2] } else { vec![6, 20, 4] } {
        for prompt in ["", "> ", "é> ", "Very long pr", "éééééééé"] {
            if !full && (prompt.len() > 10 || prompt.is_empty()) {
                continue;
            }
            for previous in ["", "xyz", "aéb, longer"] {
                for history in [None, Some(&[][..]), Some(HIST)] {
                    if !full && history.is_some_and(|h| h.is_empty()) {
                        continue;
                    }
                    if !has_room(width, prompt) || (!full && width <= prompt.chars().count()) {
                        continue;
                    }
                    v.push(Cfg { width, prompt, previous, history, secure: false });
                }
            }
            if has_room(width, prompt) && (full || width > prompt.chars().count()) {
                v.push(Cfg { width, prompt, previous: "", history: None, secure: true });
            }
        }
    }
    v
}

fn section(name: &str, full: bool, depth: u32) -> Section {
    let cfgs = cfgs(full);
    let keys = keyset(full);
    let k = keys.len() as u64;
    let n = seq_count(k, 0, depth);
    let size = n * cfgs.len() as u64;
    let cfgs = std::sync::Arc::new(cfgs);
    let keys = std::sync::Arc::new(keys);
    let decode = {
        let cfgs = cfgs.clone();
        let keys = keys.clone();
        move |idx: u64| -> (Cfg, Vec<Key>) {
            let c = &cfgs[(idx % cfgs.len() as u64) as usize];
            let seq = seq_decode(k, 0, idx / cfgs.len() as u64);
            (c.clone(), seq.into_iter().map(|i| keys[i].clone()).collect())
        }
    };
    let d2 = decode.clone();
    Section::new(
        name,
        size,
        move |idx| {
            let (c, ks) = decode(idx);
            format!("{:?} keys {:?}", c, ks)
        },
        move |idx, cx| {
            let (c, ks) = d2(idx);
            check(&c, &ks, cx)
                .map_err(|e| Failure::new(format!("readline {:?} {:?}", c, ks), e))
        },
    )
}

/// All operation sequences on the line buffer against a vector of characters.
fn linebuffer(depth: u32) -> Section {
    // Operations: insert(p, c), remove(p), insert_str(p, s), push_str, split_off(p).
    let ops: Vec<(u8, usize)> = {
        let mut v = vec![];
        for p in 0..5 {
            v.push((0, p));
            v.push((1, p));
            v.push((2, p));
            v.push((4, p));
        }
        v.push((3, 0));
        v
    };
    let ops2 = ops.clone();
    let k = ops.len() as u64;
    Section::new(
        "line buffer operations",
        seq_count(k, 0, depth),
        move |idx| {
            let seq = seq_decode(k, 0, idx);
            format!(
                "{:?}",
                seq.iter()
                    .map(|i| {
                        let (o, p) = ops2[*i];
                        format!("{}({})", ["insert", "remove", "insert_str", "push", "split"][o as usize], p)
                    })
                    .collect::<Vec<_>>()
            )
        },
        move |idx, cx| {
            let seq = seq_decode(k, 0, idx);
            let mut lb = LineBuffer::from("zñ");
            let mut m: Vec<char> = "zñ".chars().collect();
            for (n, i) in seq.iter().enumerate() {
                cx.step(1);
                let (o, p) = ops[*i];
                let q = p.min(m.len());
                match o {
                    0 => {
                        let c = ['a', 'é', '好', 'd'][n % 4];
                        lb.insert(p, c);
                        m.insert(q, c);
                    }
                    1 => {
                        lb.remove(p);
                        if p < m.len() {
                            m.remove(p);
                        }
                    }
                    2 => {
                        lb.insert_str(p, "x€");
                        m.splice(q..q, ['x', '€']);
                    }
                    3 => {
                        lb.push_str(&LineBuffer::from("é!"));
                        m.extend(['é', '!']);
                    }
                    _ => {
                        let r = lb.split_off(p).into_inner();
                        let w: String = m.split_off(q).into_iter().collect();
                        if r != w {
                            return Err(Failure::new(
                                format!("linebuffer {:?}", seq),
                                format!("split returned {:?} instead of {:?}", r, w),
                            ));
                        }
                    }
                }
                cx.state(&m);
                let all: String = m.iter().collect();
                let mut ok = lb.len() == m.len()
                    && lb.to_string() == all
                    && lb.is_empty() == m.is_empty()
                    && lb.as_bytes() == all.as_bytes();
                for i in 0..m.len() + 2 {
                    let c = i.min(m.len());
                    ok &= lb.start(i) == m[..c].iter().collect::<String>();
                    ok &= lb.end(i) == m[c..].iter().collect::<String>();
                    for j in 0..m.len() + 2 {
                        let d = j.min(m.len()).max(c);
                        ok &= lb.range(i, j) == m[c..d].iter().collect::<String>();
                    }
                }
                if !ok {
                    return Err(Failure::new(
                        format!("linebuffer {:?}", seq),
                        format!("buffer is {:?} instead of {:?} after {:?}", lb, m, seq),
                    ));
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// Lines and histories that are much longer than the console, and many keys before those that vary.
fn far_section(depth: u32) -> Section {
    const LENS: [usize; 11] = [0, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300];
    const WIDTHS: [usize; 2] = [20, 79];
    let lines: Vec<&'static str> = LENS
        .iter()
        .map(|n| {
            let s: String = (0..*n).map(|i| if i % 11 == 3 { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect();
            &*s.leak()
        })
        .collect();
    let history: Vec<&'static str> =
        (0..300).map(|i| &*format!("line {}{}", i, "x".repeat(if i == 270 { 150 } else { i % 7 })).leak()).collect();
    let history: &'static [&'static str] = history.leak();
    let few: &'static [&'static str] = &history[..12];
    let to: Vec<Vec<Key>> = vec![
        vec![],
        vec![Key::Home],
        vec![Key::ArrowLeft; 30],
        [vec![Key::Home], vec![Key::ArrowRight; 140]].concat(),
        vec![Key::Char('n'); 140],
        vec![Key::Backspace; 110],
        vec![Key::ArrowUp; 11],
        vec![Key::ArrowUp; 31],
        [vec![Key::ArrowUp; 260], vec![Key::ArrowDown; 20]].concat(),
    ];
    let keys = keyset(false);
    let k = keys.len() as u64;
    let r = [lines.len() as u64, WIDTHS.len() as u64, 3, to.len() as u64, seq_count(k, 1, depth)];
    let decode = move |i: u64| {
        let v = crate::engine::mixed(&r, i);
        let history = [None, Some(few), Some(history)][v[2]];
        let c = Cfg { width: WIDTHS[v[1]], prompt: "> ", previous: lines[v[0]], history, secure: false };
        let ks = to[v[3]].iter().cloned().chain(seq_decode(k, 1, v[4] as u64).into_iter().map(|i| keys[i].clone()));
        // The history only matters to the keys that visit it.
        let skip = v[2] != 0 && v[3] < 6 || v[2] == 0 && v[3] >= 6;
        (c, ks.collect::<Vec<Key>>(), v, skip)
    };
    let d2 = decode.clone();
    Section::new(
        "long lines and histories",
        crate::engine::product(&r),
        move |i| format!("{:?}", decode(i).2),
        move |i, cx| {
            let (c, ks, v, skip) = d2(i);
            if skip {
                cx.trivial += 1;
                return Ok(());
            }
            check(&c, &ks, cx).map_err(|e| Failure::new(format!("long {:?} {:?}", v, &ks[ks.len().saturating_sub(4)..]), e))
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        linebuffer(tier.pick(4, 5)),
        section("all keys, all consoles", true, tier.pick(3, 4)),
        section("editing keys, deeper", false, tier.pick(4, 6)),
        far_section(tier.pick(1, 2)),
    ]
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "every key sequence up to the depth over the listed alphabet, for every \
               configuration of console width, prompt, prefilled text, history and echo, and the same after many \
               keys with lines of up to 300 characters and histories of up to 300 lines; the real \
               line editor drives a terminal emulator and is compared with an ideal line editor \
               after every key",
        assumptions: &["the prompt starts at column zero, as the interpreter itself guarantees for its own prompts"],
        sections,
    }
}
