//! X02: SIGNUP asks until the answers are right, and creates exactly the account that was confirmed.

use super::svc::{DOWN, World};
use super::x01::Rig;
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, seq_count, seq_decode};
use crate::machx::{Opts, Outcome};
use endbasic_std::console::Key;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "X02",
        rule: "All conversations of up to 8 (thorough: 9) answers, each out of the 5 to 8 that matter to the question at hand, \
               wrong ones, interrupts and the end of the input included, with the service working, failing and failing \
               after it created the account; all passwords of 6 to 9 (thorough: 10) letters, digits and symbols and of 3 to 8 (thorough: 9) letters of several bytes, digits and symbols. \
               Compared with a model of the conversation: the questions, the account requested, the result, and that no \
               password is seen.",
        assumptions: &["the first answer to a question is not empty when it is the user name or the address"],
        sections,
    }
}

/// What can be said, besides text.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum A {
    Line(&'static str),
    Stop,
    Eof,
}

use A::*;

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Q {
    User,
    Password,
    Again,
    Email,
    Promo,
    Confirm,
    Over,
}

impl Q {
    fn answers(self) -> &'static [A] {
        match self {
            Q::User => &[Line("thename"), Stop, Eof],
            Q::Password => &[
                Line("Zx9wvutk"),
                Line("Qñ3-%+zjq"),
                Line("Zx9wvut"),
                Line("Zxywvutkk"),
                Line("98765432"),
                Line(""),
                Stop,
                Eof,
            ],
            Q::Again => &[Line("Zx9wvutk"), Line("Qñ3-%+zjq"), Line("zx9wvutk"), Line(""), Stop, Eof],
            Q::Email => &[Line("me@there"), Stop, Eof],
            Q::Promo | Q::Confirm => &[Line(""), Line("y"), Line("No"), Line("tRUE"), Line("yep"), Line("0"), Stop, Eof],
            Q::Over => &[],
        }
    }

    fn prompt(self) -> &'static str {
        match self {
            Q::User => "Username: ",
            Q::Password => "Password: ",
            Q::Again => "Retype password: ",
            Q::Email => "Email address: ",
            Q::Promo => "Receive promotional email (y/N)? ",
            Q::Confirm => "Continue (y/N)? ",
            Q::Over => "",
        }
    }
}

#[derive(Clone, Debug)]
struct Model {
    q: Q,
    asked: Vec<Q>,
    password: &'static str,
    promo: bool,
    account: Option<String>,
    failed: bool,
    broke: bool,
}

fn acceptable(p: &str) -> bool {
    p.chars().count() >= 8
        && p.chars().any(|c| c.is_alphabetic())
        && p.chars().any(|c| c.is_ascii_digit())
}

impl Model {
    fn new() -> Self {
        Model { q: Q::User, asked: vec![Q::User], password: "", promo: false, account: None, failed: false, broke: false }
    }

    fn answer(&mut self, a: A) {
        let s = match a {
            Line(s) => s,
            Stop | Eof => {
                self.failed = true;
                self.broke = a == Stop;
                self.q = Q::Over;
                return;
            }
        };
        let yes = match s.to_lowercase().as_str() {
            "" | "no" => Some(false),
            "y" | "true" => Some(true),
            _ => None,
        };
        self.q = match self.q {
            Q::User => Q::Password,
            Q::Password if acceptable(s) => {
                self.password = s;
                Q::Again
            }
            Q::Password => Q::Password,
            Q::Again if s == self.password => Q::Email,
            Q::Again => Q::Password,
            Q::Email => Q::Promo,
            Q::Promo => match yes {
                Some(b) => {
                    self.promo = b;
                    Q::Confirm
                }
                None => Q::Promo,
            },
            Q::Confirm => match yes {
                Some(true) => {
                    self.account = Some(format!("thename {} me@there {}", self.password, self.promo));
                    Q::Over
                }
                Some(false) => Q::Over,
                None => Q::Confirm,
            },
            Q::Over => unreachable!(),
        };
        if self.q != Q::Over {
            self.asked.push(self.q);
        }
    }
}

/// All the conversations that are over within a number of answers.
fn conversations(max: usize) -> Vec<Vec<A>> {
    fn go(m: &Model, v: &mut Vec<A>, max: usize, out: &mut Vec<Vec<A>>) {
        if m.q == Q::Over {
            out.push(v.clone());
            return;
        }
        if v.len() == max {
            return;
        }
        for a in m.q.answers() {
            let mut n = m.clone();
            n.answer(*a);
            v.push(*a);
            go(&n, v, max, out);
            v.pop();
        }
    }
    let mut out = vec![];
    go(&Model::new(), &mut vec![], max, &mut out);
    out
}

fn keys(v: &[A]) -> Vec<Key> {
    let mut k = vec![];
    for a in v {
        match a {
            Line(s) => {
                k.extend(s.chars().map(Key::Char));
                k.push(Key::NewLine);
            }
            Stop => k.push(Key::Interrupt),
            Eof => k.push(Key::EofOrDelete),
        }
    }
    k
}

fn talk(v: &[A], fail: Option<bool>, cx: &mut Cx) -> CaseResult {
    let mut m = Model::new();
    for a in v {
        m.answer(*a);
        cx.state(&format!("{:?}", m));
    }
    cx.step(v.len() as u64);
    let w = World { fail: fail.map(|applied| (0, applied)), ..World::default() };
    let mut r = Rig::new(Opts { interactive: true, ..Opts::default() }, w);
    {
        let mut c = r.mach.con.borrow_mut();
        c.keys = keys(v).into();
        c.end_key = Some(Key::Interrupt);
    }
    let got = r.mach.feed("SIGNUP");
    let text = r.mach.text();
    let left = r.mach.con.borrow().keys.len();
    let bad = |k: &str| {
        Failure::new(k.to_owned(), format!("{}: {:?} fault {:?}: {:?}, output {:?}", k, v, fail, got, text))
    };
    if left != 0 {
        return Err(bad("answers-left"));
    }
    let w = r.world.borrow();
    let down = fail.is_some() && m.account.is_some();
    let exp: Vec<String> = if fail == Some(false) { vec![] } else { m.account.iter().cloned().collect() };
    if w.signups != exp || w.requests != usize::from(m.account.is_some()) {
        return Err(Failure::new("account", format!("{:?}: {:?} instead of {:?}", v, w.signups, exp)));
    }
    let ok = !m.failed && !down;
    match &got {
        Outcome::Done(None) if ok => (),
        Outcome::Err(e) if down && e.contains(DOWN) => (),
        Outcome::Err(_) if m.failed => (),
        Outcome::Break if m.failed && m.broke => (),
        _ => return Err(bad("result")),
    }
    // Only an account that was created is announced.
    if text.contains("has been created") != (ok && m.account.is_some()) {
        return Err(bad("announced"));
    }
    // The questions, in order.
    let mut at = 0;
    for (i, q) in m.asked.iter().enumerate() {
        match text[at..].find(q.prompt()) {
            None => return Err(bad("question")),
            Some(n) => {
                let skipped = &text[at..at + n];
                if i > 0 && skipped.contains("? ") && !matches!(q, Q::Promo | Q::Confirm) {
                    return Err(bad("order"));
                }
                at += n + q.prompt().len();
            }
        }
    }
    for q in [Q::Again, Q::Promo, Q::Confirm] {
        if text.matches(q.prompt()).count() != m.asked.iter().filter(|x| **x == q).count() {
            return Err(bad("questions"));
        }
    }
    if m.asked.contains(&Q::Confirm) {
        let l: Vec<&str> = text.lines().map(|l| l.trim()).collect();
        let p = if m.promo { "Promotional email: yes" } else { "Promotional email: no" };
        if !l.contains(&"Username: thename") || !l.contains(&"Email address: me@there") || !l.contains(&p) {
            return Err(bad("review"));
        }
    }
    for secret in ["9w", "wv", "ñ", "3-", "zj", "987", "876"] {
        if text.contains(secret) {
            return Err(bad("secret"));
        }
    }
    cx.traces += 1;
    Ok(())
}

const CHARS: [char; 3] = ['w', '7', '_'];

/// Letters of several bytes beside a digit and a sign.
const WIDE: [char; 4] = ['é', '7', '好', '_'];

fn password(p: &str, cx: &mut Cx) -> CaseResult {
    let mut r = Rig::new(Opts { interactive: true, ..Opts::default() }, World::default());
    let text: String = format!("thename\n{}\n{}\nme@there\n\ny\n", p, p);
    {
        let mut c = r.mach.con.borrow_mut();
        c.keys = text.chars().map(|c| if c == '\n' { Key::NewLine } else { Key::Char(c) }).collect();
        c.end_key = Some(Key::Interrupt);
    }
    let got = r.mach.feed("SIGNUP");
    cx.step(1);
    let w = r.world.borrow();
    let exp: Vec<String> = if acceptable(p) { vec![format!("thename {} me@there false", p)] } else { vec![] };
    cx.count(if acceptable(p) { "accepted" } else { "refused" });
    if w.signups != exp || (got == Outcome::Done(None)) != acceptable(p) {
        return Err(Failure::new("password", format!("{}: {:?} instead of {:?}, {:?}", p, w.signups, exp, got)));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let all = Arc::new(conversations(tier.pick(8, 9)));
    let (a1, a2) = (all.clone(), all.clone());
    let hi = tier.pick(9, 10);
    let pw = |i: u64| -> String { seq_decode(3, 6, i).into_iter().map(|k| CHARS[k]).collect() };
    let wide = |i: u64| -> String { seq_decode(4, 3, i).into_iter().map(|k| WIDE[k]).collect() };
    vec![
        Section::new(
            "conversations",
            all.len() as u64,
            move |i| format!("{:?}", a1[i as usize]),
            move |i, cx| {
                for fail in [None, Some(false), Some(true)] {
                    talk(&a2[i as usize], fail, cx)?;
                }
                Ok(())
            },
        ),
        Section::new("passwords", seq_count(3, 6, hi), move |i| pw(i), move |i, cx| password(&pw(i), cx)),
        Section::new("wide passwords", seq_count(4, 3, hi - 1), move |i| wide(i), move |i, cx| password(&wide(i), cx)),
    ]
}
