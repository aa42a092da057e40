//! E01: the editor of programs does to the text what the keys say and always shows it as it is.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::scr::{Scr, Snap};
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use futures_lite::future::block_on;
use std::collections::{HashMap, VecDeque};

pub fn property() -> Property {
    Property {
        id: "E01",
        rule: "All sequences of 4 (thorough: 5) of 16 keys on 14 programs on a console of 7x4 and, of one less, on consoles of 9 other sizes; all sequences of 5 (thorough: 6) of 9 \
               keys that move on 3 long programs on consoles of 8 sizes; all sequences of 1 (thorough: 2) keys after up to 290 that go \
               far, on lines of up to 360 characters and programs of 300 lines; all states that can be reached with 12 keys \
               with texts of up to 3 lines of 6 characters (the first 1200, thorough: 30000), with all keys in all of them; names of up to 60 characters on all widths from 12 to 99. After every key the screen, the cursor \
               and the position in the status are compared with a model of the editor, and at the end the text is.",
        assumptions: &["the console has two rows or more"],
        sections,
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
enum K {
    Up,
    Down,
    Left,
    Right,
    Home,
    End,
    PageUp,
    PageDown,
    Back,
    Del,
    Eof,
    Enter,
    Return,
    Tab,
    Char(char),
    Unknown,
    /// Leaves the editor and enters it again.
    Reopen(bool),
}

impl K {
    fn key(&self) -> Key {
        match self {
            K::Up => Key::ArrowUp,
            K::Down => Key::ArrowDown,
            K::Left => Key::ArrowLeft,
            K::Right => Key::ArrowRight,
            K::Home => Key::Home,
            K::End => Key::End,
            K::PageUp => Key::PageUp,
            K::PageDown => Key::PageDown,
            K::Back => Key::Backspace,
            K::Del => Key::Delete,
            K::Eof => Key::EofOrDelete,
            K::Enter => Key::NewLine,
            K::Return => Key::CarriageReturn,
            K::Tab => Key::Tab,
            K::Char(c) => Key::Char(*c),
            K::Unknown => Key::Unknown,
            K::Reopen(false) => Key::Escape,
            K::Reopen(true) => Key::Interrupt,
        }
    }
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
struct Model {
    lines: Vec<Vec<char>>,
    line: usize,
    col: usize,
    want: usize,
    page: usize,
    changed: bool,
}

fn indent(l: &[char]) -> usize {
    l.iter().take_while(|c| **c == ' ').count()
}

impl Model {
    fn new(text: &str, h: usize) -> Self {
        let mut lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
        if lines.is_empty() {
            lines.push(vec![]);
        }
        Model { lines, line: 0, col: 0, want: 0, page: h - 2, changed: false }
    }

    fn vertical(&mut self, line: usize) {
        self.line = line;
        self.col = self.want.min(self.lines[line].len());
    }

    fn press(&mut self, k: &K) {
        let len = self.lines[self.line].len();
        let last = self.lines.len() - 1;
        match k {
            K::Up => self.vertical(self.line.saturating_sub(1)),
            K::Down => self.vertical((self.line + 1).min(last)),
            K::PageUp => self.vertical(self.line.saturating_sub(self.page)),
            K::PageDown => self.vertical((self.line + self.page).min(last)),
            K::Left => {
                if self.col > 0 {
                    self.col -= 1;
                    self.want = self.col;
                }
            }
            K::Right => {
                if self.col < len {
                    self.col += 1;
                    self.want = self.col;
                }
            }
            K::Home => {
                let i = indent(&self.lines[self.line]);
                self.col = if self.col == i { 0 } else { i };
                self.want = self.col;
            }
            K::End => {
                self.col = len;
                self.want = len;
            }
            K::Back => {
                if self.col > 0 {
                    let to = if self.col <= indent(&self.lines[self.line]) {
                        (self.col - 1) / 4 * 4
                    } else {
                        self.col - 1
                    };
                    self.lines[self.line].drain(to..self.col);
                    self.col = to;
                    self.changed = true;
                } else if self.line > 0 {
                    let l = self.lines.remove(self.line);
                    self.line -= 1;
                    self.col = self.lines[self.line].len();
                    self.lines[self.line].extend(l);
                    self.changed = true;
                }
                self.want = self.col;
            }
            K::Del | K::Eof => {
                if self.col < len {
                    self.lines[self.line].remove(self.col);
                    self.changed = true;
                } else if self.line < last {
                    let l = self.lines.remove(self.line + 1);
                    self.lines[self.line].extend(l);
                    self.changed = true;
                }
            }
            K::Enter | K::Return => {
                let l = &mut self.lines[self.line];
                let mut new: Vec<char> = l.iter().copied().take_while(|c| c.is_whitespace()).collect();
                let i = new.len();
                new.extend(l.split_off(self.col));
                self.lines.insert(self.line + 1, new);
                self.line += 1;
                self.col = i;
                self.want = i;
                self.changed = true;
            }
            K::Tab => {
                let to = self.col / 4 * 4 + 4;
                for c in self.col..to {
                    self.lines[self.line].insert(c, ' ');
                }
                self.col = to;
                self.want = to;
                self.changed = true;
            }
            K::Char(c) => {
                self.lines[self.line].insert(self.col, *c);
                self.col += 1;
                self.want = self.col;
                self.changed = true;
            }
            K::Unknown | K::Reopen(_) => (),
        }
    }

    fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.extend(l.iter());
            s.push('\n');
        }
        s
    }

    /// Checks that what is on the screen is part of the text.
    fn seen(&self, s: &Snap, w: usize, h: usize) -> Result<(), (&'static str, String)> {
        if !s.alt {
            return Err(("e01:alt", "not in the alternate screen".to_owned()));
        }
        if !s.cursor {
            return Err(("e01:cursor", "the cursor is hidden".to_owned()));
        }
        if s.y > self.line || s.x > self.col || s.y + 1 >= h || s.x >= w {
            return Err(("e01:cursor", format!("the cursor is at {},{}", s.x, s.y)));
        }
        let (top, left) = (self.line - s.y, self.col - s.x);
        for y in 0..h - 1 {
            let row: String = match self.lines.get(top + y) {
                None => String::new(),
                Some(l) => l.iter().skip(left).take(w).map(|c| if c.is_control() || c.is_whitespace() { ' ' } else { *c }).collect(),
            };
            // All kinds of blanks look the same.
            let shown: String = s.rows[y].chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
            if row.trim_end() != shown.trim_end() {
                return Err((
                    "e01:screen",
                    format!("row {} is {:?} instead of {:?} with {},{} at the corner", y, s.rows[y], row, left, top),
                ));
            }
        }
        if w >= 12 {
            let status = &s.rows[h - 1];
            let (l, c) = (self.line + 1, self.col + 1);
            let short = format!(" {}:{}", l, c);
            let long = format!(" Ln {}, Col {}", l, c);
            if !status.ends_with(&short) && !status.ends_with(&long) {
                return Err(("e01:status", format!("the status is {:?} at line {} and column {}", status, l, c)));
            }
        }
        Ok(())
    }
}

/// Presses keys in the editor and checks it against the model.
fn drive(text: &str, name: Option<&str>, w: usize, h: usize, keys: &[K], from: usize, cx: &mut Cx) -> CaseResult {
    let mut model = Model::new(text, h);
    let mut ed = Editor::default();
    ed.load(name, text);
    let mut scr = Scr::new(w, h);
    scr.take_snaps = true;
    scr.end_key = None;
    for (i, c) in "shell".chars().enumerate() {
        if i < w {
            scr.grid[0][i] = c;
        }
    }
    (scr.fg, scr.bg) = (Some(3), None);
    let before = scr.snap();
    let mut first = 0;
    let fail = |key: &str, n: usize, what: String, m: &Model| {
        Err(Failure::new(
            key,
            format!("{:?} on {}x{} after {:?}: {}\nmodel: {:?}", text, w, h, &keys[..n], what, m),
        ))
    };
    for n in 0..=keys.len() {
        let leaves = n == keys.len() || matches!(keys[n], K::Reopen(_));
        if !leaves {
            continue;
        }
        let mut v: VecDeque<Key> = keys[first..n].iter().map(|k| k.key()).collect();
        v.push_back(if n == keys.len() { Key::Escape } else { keys[n].key() });
        scr.keys = v;
        scr.snaps.clear();
        if let Err(e) = block_on(ed.edit(&mut scr)) {
            return fail("e01:fails", n, e.to_string(), &model);
        }
        let snaps = std::mem::take(&mut scr.snaps);
        if snaps.len() != n - first + 1 || !scr.keys.is_empty() {
            return fail("e01:keys", n, format!("{} keys read of {}", snaps.len(), n - first + 1), &model);
        }
        for (i, s) in snaps.iter().enumerate() {
            if i > 0 {
                model.press(&keys[first + i - 1]);
            }
            if first + i >= from {
                cx.step(1);
                if let Err((k, e)) = model.seen(s, w, h) {
                    return fail(k, first + i, e, &model);
                }
            }
        }
        let mut after = scr.snap();
        (after.wraps, after.scrolled) = (before.wraps, before.scrolled);
        if after != before || !scr.sync || !scr.bad.is_empty() {
            return fail("e01:leave", n, format!("leaves {:?} {:?}", after, scr.bad), &model);
        }
        if ed.text() != model.text() {
            return fail("e01:text", n, format!("text {:?}", ed.text()), &model);
        }
        let mut original = text.lines().collect::<Vec<_>>().join("\n");
        original.push('\n');
        let unlike = model.text() != original;
        if (unlike && !ed.is_dirty()) || (!model.changed && ed.is_dirty()) {
            return fail("e01:dirty", n, format!("is dirty: {}", ed.is_dirty()), &model);
        }
        first = n + 1;
    }
    cx.state(&(&model.lines, model.line, model.col, w, h));
    cx.traces += 1;
    Ok(())
}

const PROGRAMS: [&str; 14] = [
    "",
    "\n",
    "ab",
    "abcdefghijklm\nx\nabcdefghi",
    "    in\n  two\n\nend",
    "        deep",
    "    ",
    "1\n2\n3\n4\n5\n6\n7",
    "ñandú é\nöö",
    "\tx\ty",
    "\u{a0}\u{a0}z\nq",
    "abcdefg\n      \nabcdefgh",
    "a\r\nb",
    "no end of line\nlast",
];

const KEYS: [K; 16] = [
    K::Up,
    K::Down,
    K::Left,
    K::Right,
    K::Home,
    K::End,
    K::Back,
    K::Del,
    K::Enter,
    K::Tab,
    K::Char('a'),
    K::Char(' '),
    K::PageDown,
    K::PageUp,
    K::Char('é'),
    K::Reopen(false),
];

const MOVES: [K; 9] =
    [K::Up, K::Down, K::Left, K::Right, K::Home, K::End, K::PageUp, K::PageDown, K::Reopen(true)];

const DEEP: [K; 12] = [
    K::Up,
    K::Down,
    K::Left,
    K::Right,
    K::Home,
    K::End,
    K::Back,
    K::Del,
    K::Enter,
    K::Tab,
    K::Char('b'),
    K::Char(' '),
];

const OTHER: [K; 6] = [K::Unknown, K::Eof, K::Return, K::PageUp, K::PageDown, K::Reopen(true)];

const SIZES: [(usize, usize); 10] =
    [(7, 4), (1, 2), (1, 5), (2, 3), (4, 2), (5, 6), (12, 3), (20, 5), (38, 4), (80, 24)];

fn long(i: usize) -> String {
    let mut s = String::new();
    for l in 0..30 {
        let n = match i {
            0 => (l * 7) % 23,
            1 => 30 - l,
            _ => {
                if l % 3 == 0 {
                    40
                } else {
                    l % 3
                }
            }
        };
        for c in 0..n {
            s.push(if c < l % 5 { ' ' } else { (b'a' + ((l + c) % 26) as u8) as char });
        }
        s.push('\n');
    }
    s
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut v = vec![];
    for (name, sizes, n) in [
        ("keys", &SIZES[..1], tier.pick(4, 5)),
        ("keys and sizes", &SIZES[1..], tier.pick(3, 4)),
    ] {
        let radices = [PROGRAMS.len() as u64, sizes.len() as u64];
        let k = KEYS.len() as u64;
        let outer = seq_count(k, n - 2, n - 2);
        let keys = move |i: u64| -> Vec<K> {
            seq_decode(k, n - 2, i / product(&radices)).into_iter().map(|x| KEYS[x].clone()).collect()
        };
        v.push(Section::new(
            name,
            product(&radices) * outer,
            move |i| {
                let d = mixed(&radices, i % product(&radices));
                format!("{:?} on {:?}: {:?}*", PROGRAMS[d[0]], sizes[d[1]], keys(i))
            },
            move |i, cx| {
                let d = mixed(&radices, i % product(&radices));
                let (w, h) = sizes[d[1]];
                let mut keys = keys(i);
                let from = keys.len();
                for a in &KEYS {
                    keys.push(a.clone());
                    for b in &KEYS {
                        keys.push(b.clone());
                        drive(PROGRAMS[d[0]], Some("name.bas"), w, h, &keys, if *a == K::Up || *b == K::Up { 0 } else { from }, cx)?;
                        keys.pop();
                    }
                    keys.pop();
                }
                Ok(())
            },
        ));
    }
    {
        const S: [(usize, usize); 8] = [(5, 4), (9, 2), (12, 3), (16, 8), (24, 12), (39, 25), (40, 31), (60, 33)];
        let n = tier.pick(5, 6);
        let radices = [3, S.len() as u64];
        let k = MOVES.len() as u64;
        let outer = seq_count(k, n - 2, n - 2);
        let keys = move |i: u64| -> Vec<K> {
            seq_decode(k, n - 2, i / product(&radices)).into_iter().map(|x| MOVES[x].clone()).collect()
        };
        v.push(Section::new(
            "moves in long programs",
            product(&radices) * outer,
            move |i| {
                let d = mixed(&radices, i % product(&radices));
                format!("program {} on {:?}: {:?}*", d[0], S[d[1]], keys(i))
            },
            move |i, cx| {
                let d = mixed(&radices, i % product(&radices));
                let (w, h) = S[d[1]];
                let text = long(d[0]);
                let mut keys = keys(i);
                let from = keys.len();
                for a in &MOVES {
                    keys.push(a.clone());
                    for b in &MOVES {
                        keys.push(b.clone());
                        drive(&text, None, w, h, &keys, from, cx)?;
                        keys.pop();
                    }
                    keys.pop();
                }
                Ok(())
            },
        ));
    }
    {
        // Far from the beginning.
        const S: [(usize, usize); 5] = [(7, 4), (38, 5), (80, 24), (130, 40), (300, 3)];
        let to: Vec<Vec<K>> = vec![
            vec![K::End],
            vec![K::Right; 290],
            vec![K::Down; 140],
            [vec![K::Down; 270], vec![K::End]].concat(),
            vec![K::PageDown; 150],
            [vec![K::PageDown; 30], vec![K::End], vec![K::PageUp; 3]].concat(),
            [vec![K::End], vec![K::Char('n'); 140]].concat(),
            [vec![K::Down; 40], vec![K::Enter; 120]].concat(),
            [vec![K::End], vec![K::Back; 150]].concat(),
        ];
        let n = tier.pick(1, 2);
        let radices = [2, S.len() as u64, to.len() as u64, seq_count(KEYS.len() as u64, 1, n)];
        let show = move |i: u64| format!("{:?}", mixed(&radices, i));
        v.push(Section::new("far", product(&radices), show, move |i, cx| {
            let d = mixed(&radices, i);
            let (w, h) = S[d[1]];
            let text: String = match d[0] {
                0 => (0..300).map(|l: usize| format!("{}\n", "lorem ipsum ".repeat(26)[..(l * 37 + 301) % 311].trim_start())).collect(),
                _ => (0..3).map(|l: usize| format!("{}\n", "abc defg hijkl".repeat(26)[l..360 - 100 * l].trim_start())).collect(),
            };
            let mut keys = to[d[2]].clone();
            keys.extend(seq_decode(KEYS.len() as u64, 1, d[3] as u64).into_iter().map(|x| KEYS[x].clone()));
            let from = keys.len().saturating_sub(12);
            drive(&text, Some("name.bas"), w, h, &keys, from, cx)
        }));
    }
    {
        // Explicit states: everything that can be done with short texts.
        const S: [(usize, usize); 4] = [(3, 2), (4, 3), (14, 2), (6, 4)];
        let limit = tier.pick(1200, 30_000);
        v.push(Section::new(
            "all states",
            S.len() as u64 * 3,
            |i| format!("{:?} from program {}", S[i as usize / 3], i % 3),
            move |i, cx| {
                let (w, h) = S[i as usize / 3];
                let text = ["", "ab\n\n  c", "    x"][i as usize % 3];
                let fits = |m: &Model| m.lines.len() <= 3 && m.lines.iter().all(|l| l.len() <= 6);
                let mut seen: HashMap<Model, ()> = HashMap::new();
                let start = Model::new(text, h);
                seen.insert(start.clone(), ());
                let mut queue = VecDeque::from([(start, vec![])]);
                let mut expanded = 0;
                while let Some((m, path)) = queue.pop_front() {
                    expanded += 1;
                    if expanded > limit {
                        break;
                    }
                    cx.tick();
                    for (j, k) in DEEP.iter().chain(&OTHER).enumerate() {
                        let mut keys: Vec<K> = path.clone();
                        keys.push(k.clone());
                        drive(text, None, w, h, &keys, keys.len() - 1, cx)?;
                        let mut next = m.clone();
                        next.press(k);
                        if j < DEEP.len() && fits(&next) && !seen.contains_key(&next) {
                            seen.insert(next.clone(), ());
                            queue.push_back((next, keys));
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    v.push(Section::new(
        "names",
        61 * 3,
        |i| format!("name of {} characters, kind {}", i / 3, i % 3),
        |i, cx| {
            let (n, kind) = (i as usize / 3, i as usize % 3);
            let c = ["n", "é", "日"][kind];
            let name = c.repeat(n);
            for w in 12..100 {
                for keys in [vec![], vec![K::Char('x')], vec![K::Enter, K::Char('x'), K::Reopen(false), K::Down]] {
                    drive("abc\n", Some(&name), w, 4, &keys, 0, cx)?;
                }
                // The name and whether there are changes are shown when they fit.
                for dirty in [false, true] {
                    let mut ed = Editor::default();
                    ed.load(Some(&name), "abc\n");
                    let mut scr = Scr::new(w, 4);
                    scr.take_snaps = true;
                    if dirty {
                        scr.keys.push_back(Key::Char('x'));
                    }
                    scr.keys.push_back(Key::Escape);
                    block_on(ed.edit(&mut scr)).map_err(|e| Failure::new("e01:fails", e.to_string()))?;
                    let status = &scr.snaps.last().unwrap().rows[3];
                    let shown = format!("{}{}", name, if dirty { "*" } else { "" });
                    // What surrounds it is constant.
                    let roomy = name.len() + 45 <= w;
                    if roomy && n > 0 && (!status.contains(&format!(" {} ", shown)) || !status.contains("ESC")) {
                        return Err(Failure::new("e01:status", format!("{:?} on {} columns: {:?}", shown, w, status)));
                    }
                    cx.step(1);
                }
            }
            Ok(())
        },
    ));
    v
}
