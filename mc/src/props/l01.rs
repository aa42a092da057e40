//! L01: expressions evaluate to the value the language defines.

use crate::corex::{self, Stop};
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, seq_count, seq_decode};
use crate::lang::*;
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "L01",
        rule: "All sequences of expression tokens up to a bound; all well-formed chains of up to 3-4 \
               operators over operands of every type with every unary prefix and parenthesisation; \
               every operator over every pair of boundary operands in every operand kind (literal, \
               variable, shared variable, array element, function result); every conversion of a \
               boundary value into every kind of place; all spacing and letter-case variants of a \
               family of expressions. Oracle: an independent precedence-climbing parser, type \
               checker and evaluator.",
        assumptions: &["expressions over one line; values delivered to variables and to a command"],
        sections,
    }
}

#[derive(Clone, Debug)]
enum T {
    Opd(E, &'static str),
    Op(Op),
    Minus,
    Not,
    L,
    R,
}

impl T {
    fn text(&self) -> &str {
        match self {
            T::Opd(_, t) => t,
            T::Op(op) => op.text(),
            T::Minus => "-",
            T::Not => "NOT",
            T::L => "(",
            T::R => ")",
        }
    }
}

/// Precedence-climbing parser over tokens with their columns.
struct P<'a> {
    t: &'a [(T, u32)],
    i: usize,
}

impl P<'_> {
    fn expr(&mut self, min: u8) -> Option<E> {
        let mut lhs = self.unary()?;
        loop {
            let (op, col) = match self.t.get(self.i) {
                Some((T::Op(op), c)) => (*op, *c),
                Some((T::Minus, c)) => (Op::Sub, *c),
                _ => return Some(lhs),
            };
            if op.prec() < min {
                return Some(lhs);
            }
            self.i += 1;
            let rhs = self.expr(op.prec() + 1)?;
            lhs = E::Bin(op, col, Box::new(lhs), Box::new(rhs));
        }
    }
    fn unary(&mut self) -> Option<E> {
        match self.t.get(self.i)? {
            (T::Minus, c) => {
                self.i += 1;
                // A unary operator applies to everything that binds tighter than itself.
                let e = self.expr(UNARY_PREC)?;
                Some(E::Un(Uop::Neg, *c, Box::new(e)))
            }
            (T::Not, c) => {
                self.i += 1;
                let e = self.expr(UNARY_PREC)?;
                Some(E::Un(Uop::Not, *c, Box::new(e)))
            }
            (T::L, _) => {
                self.i += 1;
                let e = self.expr(0)?;
                match self.t.get(self.i) {
                    Some((T::R, _)) => {
                        self.i += 1;
                        Some(e)
                    }
                    _ => None,
                }
            }
            (T::Opd(e, _), _) => {
                self.i += 1;
                Some(e.clone())
            }
            _ => None,
        }
    }
}

fn parse(t: &[(T, u32)]) -> Option<E> {
    let mut p = P { t, i: 0 };
    let e = p.expr(0)?;
    if p.i == t.len() { Some(e) } else { None }
}

type Env = HashMap<&'static str, V>;

fn type_of(e: &E, env: &Env) -> Option<Ty> {
    match e {
        E::Lit(v) => Some(v.ty()),
        E::Var(n) => Some(env[n.as_str()].ty()),
        E::Par(e) => type_of(e, env),
        E::Un(op, _, e) => un_ty(*op, type_of(e, env)?),
        E::Bin(op, _, a, b) => bin_ty(*op, type_of(a, env)?, type_of(b, env)?),
        E::Idx(n, _, _) => Some(env[n.as_str()].ty()),
        E::Call(n, _, a) => match n.as_str() {
            "TEN" => Some(Ty::I),
            _ => type_of(&a[0], env),
        },
    }
}

fn eval(e: &E, env: &Env) -> Result<V, Rt> {
    match e {
        E::Lit(v) => Ok(v.clone()),
        E::Var(n) => Ok(env[n.as_str()].clone()),
        E::Par(e) => eval(e, env),
        E::Un(op, t, e) => un_eval(*op, eval(e, env)?, *t),
        E::Bin(op, t, a, b) => {
            let a = eval(a, env)?;
            let b = eval(b, env)?;
            bin_eval(*op, a, b, *t)
        }
        E::Idx(n, _, _) => Ok(env[n.as_str()].clone()),
        E::Call(n, _, a) => match n.as_str() {
            "TEN" => Ok(V::I(10)),
            _ => eval(&a[0], env),
        },
    }
}

#[derive(Debug, PartialEq)]
enum Expected {
    Rejected,
    Value(String),
    Error(u32, String),
}

fn expected(e: Option<&E>, env: &Env) -> Expected {
    let Some(e) = e else { return Expected::Rejected };
    if type_of(e, env).is_none() {
        return Expected::Rejected;
    }
    match eval(e, env) {
        Ok(v) => Expected::Value(v.show()),
        Err(r) => Expected::Error(r.tag, r.msg),
    }
}

/// Runs `setup` followed by an assignment of the expression and compares.
fn compare(
    cx: &mut Cx,
    section: &str,
    setup: &str,
    lhs: &str,
    text: &str,
    exp: &Expected,
) -> CaseResult {
    let src = format!("{}{}{}\n", setup, lhs, text);
    let line = setup.lines().count() + 1;
    let is_out = lhs.starts_with("OUT");
    let got = corex::with_env(|env| {
        let r = corex::run(env, &src, &[], Default::default(), 10);
        match &r.stop {
            Stop::Compile(..) => Expected::Rejected,
            Stop::Eof => {
                let v = if is_out {
                    r.out.last().map(|s| s["0% ".len()..].to_owned())
                } else {
                    r.program_var("r").map(|d| corex::show_datum(&d))
                };
                Expected::Value(v.unwrap_or_else(|| "missing".to_owned()))
            }
            Stop::Err(p, m) if p.line == line => Expected::Error(p.col as u32, m.clone()),
            s => Expected::Value(format!("{:?}", s)),
        }
    });
    cx.step(1);
    cx.traces += 1;
    if matches!(exp, Expected::Rejected) {
        cx.trivial += 1;
    }
    cx.state(&format!("{:?}", exp));
    if &got != exp {
        return Err(Failure::new(
            format!("{}: {}{}", section, lhs, text),
            format!("{}\nexpected {:?}\nactual   {:?}", src, exp, got),
        ));
    }
    Ok(())
}

fn opd(e: E, t: &'static str) -> T {
    T::Opd(e, t)
}

fn vars() -> Env {
    HashMap::from([("i", V::I(7)), ("d", V::D(0.5)), ("s", V::s("ab")), ("b", V::B(true))])
}

const VARS: &str = "i = 7\nd = 0.5\ns = \"ab\"\nb = TRUE\n";

fn all_tokens() -> Vec<T> {
    let mut v = vec![
        opd(lit_i(3), "3"),
        opd(lit_d(2.5), "2.5"),
        opd(lit_s("q"), "\"q\""),
        opd(lit_b(false), "FALSE"),
        opd(var("i"), "i"),
        T::Minus,
        T::Not,
        T::L,
        T::R,
    ];
    for op in OPS {
        if op != Op::Sub {
            v.push(T::Op(op));
        }
    }
    v
}

fn core_tokens() -> Vec<T> {
    vec![
        opd(lit_i(3), "3"),
        opd(var("d"), "d"),
        opd(var("b"), "b"),
        T::Op(Op::Pow),
        T::Minus,
        T::Not,
        T::Op(Op::Mul),
        T::Op(Op::Add),
        T::Op(Op::Shl),
        T::Op(Op::Lt),
        T::Op(Op::And),
        T::L,
        T::R,
    ]
}

fn structure_tokens() -> Vec<T> {
    vec![
        opd(lit_i(3), "3"),
        T::Op(Op::Pow),
        T::Minus,
        T::Not,
        T::Op(Op::Mul),
        T::L,
        T::R,
    ]
}

/// Lays tokens out with single spaces starting at `col`.
fn layout(ts: &[T], col: u32) -> (String, Vec<(T, u32)>) {
    let mut s = String::new();
    let mut out = vec![];
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        out.push((t.clone(), col + s.len() as u32));
        s.push_str(t.text());
    }
    (s, out)
}

fn token_section(name: &'static str, alphabet: Vec<T>, max: u32) -> Section {
    let k = alphabet.len() as u64;
    let table = std::sync::Arc::new(alphabet);
    let t2 = table.clone();
    let pick = |i: u64, t: &[T]| -> Vec<T> {
        seq_decode(t.len() as u64, 1, i).into_iter().map(|i| t[i].clone()).collect()
    };
    Section::new(
        name,
        seq_count(k, 1, max),
        move |i| format!("r = {}", layout(&pick(i, &t2), 1).0),
        move |i, cx| {
            let ts = pick(i, &table);
            let (text, toks) = layout(&ts, 5);
            let env = vars();
            let e = parse(&toks);
            let exp = expected(e.as_ref(), &env);
            compare(cx, name, VARS, "r = ", &text, &exp)
        },
    )
}

// ---- Well-formed chains: [unary] operand (op [unary] operand)* with optional parentheses. ----

fn chain_tokens(
    idx: u64,
    k: u32,
    ops: &[Op],
    opds: &[fn() -> T],
    unaries: u64,
    parens: bool,
) -> Vec<T> {
    let mut i = idx;
    let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r
    };
    // Parenthesised range of operands; 0 means none.
    let ranges: Vec<(u32, u32)> =
        (0..=k).flat_map(|a| (a + 1..=k).map(move |b| (a, b))).filter(|r| *r != (0, k)).collect();
    let paren = if parens {
        match take(ranges.len() as u64 + 1) {
            0 => None,
            n => Some(ranges[n as usize - 1]),
        }
    } else {
        None
    };
    let un = take(if unaries > 1 { 2 * (k as u64 + 1) + 1 } else { 1 });
    let mut out = vec![];
    for j in 0..=k {
        if j > 0 {
            match ops[take(ops.len() as u64) as usize] {
                Op::Sub => out.push(T::Minus),
                op => out.push(T::Op(op)),
            }
        }
        if un > 0 && (un - 1) / 2 == j as u64 {
            out.push(if (un - 1) % 2 == 0 { T::Minus } else { T::Not });
        }
        if paren.is_some_and(|p| p.0 == j) {
            out.push(T::L);
        }
        out.push(opds[take(opds.len() as u64) as usize]());
        if paren.is_some_and(|p| p.1 == j) {
            out.push(T::R);
        }
    }
    out
}

fn chain_section(
    name: &'static str,
    k: u32,
    ops: Vec<Op>,
    opds: Vec<fn() -> T>,
    unary: bool,
    parens: bool,
) -> Section {
    let nranges = ((k + 1) * k / 2 - 1) as u64;
    let mut size = (ops.len() as u64).pow(k) * (opds.len() as u64).pow(k + 1);
    if unary {
        size *= 2 * (k as u64 + 1) + 1;
    }
    if parens {
        size *= nranges + 1;
    }
    let unaries = if unary { 2 } else { 1 };
    let (o2, p2) = (ops.clone(), opds.clone());
    Section::new(
        name,
        size,
        move |i| layout(&chain_tokens(i, k, &o2, &p2, unaries, parens), 1).0,
        move |i, cx| {
            let ts = chain_tokens(i, k, &ops, &opds, unaries, parens);
            let (text, toks) = layout(&ts, 5);
            let env = vars();
            let e = parse(&toks);
            let exp = expected(e.as_ref(), &env);
            compare(cx, name, VARS, "r = ", &text, &exp)
        },
    )
}

// ---- Boundary operands. ----

/// Boundary values with the text of an expression that produces them in a variable.
fn boundary() -> Vec<(V, &'static str)> {
    vec![
        (V::I(i32::MIN), "-2147483647 - 1"),
        (V::I(i32::MIN + 1), "-2147483647"),
        (V::I(-65537), "-65537"),
        (V::I(-33), "-33"),
        (V::I(-2), "-2"),
        (V::I(-1), "-1"),
        (V::I(0), "0"),
        (V::I(1), "1"),
        (V::I(2), "2"),
        (V::I(3), "3"),
        (V::I(31), "31"),
        (V::I(32), "32"),
        (V::I(46340), "46340"),
        (V::I(46341), "46341"),
        (V::I(65535), "65535"),
        (V::I(65536), "65536"),
        (V::I(1073741824), "1073741824"),
        (V::I(i32::MAX - 1), "2147483646"),
        (V::I(i32::MAX), "2147483647"),
        (V::D(f64::NAN), "0.0 / 0.0"),
        (V::D(f64::INFINITY), "1.0 / 0.0"),
        (V::D(f64::NEG_INFINITY), "-1.0 / 0.0"),
        (V::D(-2147483648.5), "-2147483648.5"),
        (V::D(-2147483648.4), "-2147483648.4"),
        (V::D(-2.5), "-2.5"),
        (V::D(-1.5), "-1.5"),
        (V::D(-0.5), "-0.5"),
        (V::D(-0.0), "-0.0"),
        (V::D(0.0), "0.0"),
        (V::D(0.49999999999999994), "0.49999999999999994"),
        (V::D(0.5), "0.5"),
        (V::D(1.0), "1.0"),
        (V::D(1.5), "1.5"),
        (V::D(2.5), "2.5"),
        (V::D(2147483647.4), "2147483647.4"),
        (V::D(2147483647.5), "2147483647.5"),
        (V::D(2f64.powi(1000)), "2.0 ^ 1000"),
        (V::B(false), "FALSE"),
        (V::B(true), "TRUE"),
        (V::s(""), "\"\""),
        (V::s("A"), "\"A\""),
        (V::s("a"), "\"a\""),
        (V::s("ab"), "\"ab\""),
        (V::s("\u{e9}"), "\"\u{e9}\""),
        (V::s("z"), "\"z\""),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rep {
    Lit,
    Local,
    Shared,
    Elem,
    Func,
}
const REPS: [Rep; 5] = [Rep::Lit, Rep::Local, Rep::Shared, Rep::Elem, Rep::Func];

/// Emits the definition of an operand named `n` and returns its expression text.
fn operand(setup: &mut String, n: &str, v: &V, how: &str, rep: Rep) -> (String, E) {
    let t = v.ty();
    match rep {
        Rep::Lit => (format!("({})", how), E::Lit(v.clone())),
        Rep::Local => {
            setup.push_str(&format!("{} = {}\n", n, how));
            (n.to_owned(), E::Lit(v.clone()))
        }
        Rep::Shared => {
            setup.push_str(&format!("DIM SHARED {} AS {}\n{} = {}\n", n, t.name(), n, how));
            (n.to_owned(), E::Lit(v.clone()))
        }
        Rep::Elem => {
            setup.push_str(&format!("DIM {}(2, 2) AS {}\n{}(1, 0) = {}\n", n, t.name(), n, how));
            (format!("{}(1, 0)", n), E::Lit(v.clone()))
        }
        Rep::Func => {
            let f = match t {
                Ty::B => "TB",
                Ty::D => "TD",
                Ty::I => "TI",
                Ty::S => "TS",
            };
            (format!("{}({})", f, how), E::Lit(v.clone()))
        }
    }
}

fn boundary_section(quick: bool) -> Section {
    let n = boundary().len() as u64;
    let reps: Vec<(Rep, Rep)> = if quick {
        vec![
            (Rep::Lit, Rep::Lit),
            (Rep::Local, Rep::Lit),
            (Rep::Local, Rep::Local),
            (Rep::Shared, Rep::Elem),
            (Rep::Func, Rep::Local),
            (Rep::Lit, Rep::Func),
        ]
    } else {
        REPS.iter().flat_map(|a| REPS.iter().map(move |b| (*a, *b))).collect()
    };
    let nr = reps.len() as u64;
    let size = 17 * n * n * nr * 2;
    let mk = move |i: u64| {
        let b = boundary();
        let (i, to_out) = (i / 2, i % 2 == 1);
        let (i, op) = (i / 17, OPS[(i % 17) as usize]);
        let (i, x) = (i / n, &b[(i % n) as usize]);
        let (i, y) = (i / n, &b[(i % n) as usize]);
        let (r1, r2) = reps[i as usize];
        let mut setup = String::new();
        let (t1, e1) = operand(&mut setup, "p", &x.0, x.1, r1);
        let (t2, e2) = operand(&mut setup, "q", &y.0, y.1, r2);
        let lhs = if to_out { "OUT 0; " } else { "r = " };
        let col = 1 + lhs.len() + t1.chars().count() + 1;
        let e = E::Bin(op, col as u32, Box::new(e1), Box::new(e2));
        (setup, lhs, format!("{} {} {}", t1, op.text(), t2), e)
    };
    let mk2 = mk.clone();
    Section::new(
        "boundary",
        size,
        move |i| {
            let (s, l, t, _) = mk(i);
            format!("{}{}{}", s, l, t).replace('\n', ": ")
        },
        move |i, cx| {
            let (setup, lhs, text, e) = mk2(i);
            let exp = expected(Some(&e), &HashMap::new());
            compare(cx, "boundary", &setup, lhs, &text, &exp)
        },
    )
}

fn unary_section() -> Section {
    let n = boundary().len() as u64;
    let size = n * 2 * 5 * 2;
    let mk = move |i: u64| {
        let b = boundary();
        let (i, to_out) = (i / 2, i % 2 == 1);
        let (i, x) = (i / n, &b[(i % n) as usize]);
        let (i, rep) = (i / 5, REPS[(i % 5) as usize]);
        let op = if i == 0 { Uop::Neg } else { Uop::Not };
        let mut setup = String::new();
        let (t1, e1) = operand(&mut setup, "p", &x.0, x.1, rep);
        let lhs = if to_out { "OUT 0; " } else { "r = " };
        let e = E::Un(op, 1 + lhs.len() as u32, Box::new(e1));
        (setup, lhs, format!("{} {}", if op == Uop::Neg { "-" } else { "NOT" }, t1), e)
    };
    Section::new(
        "unary",
        size,
        move |i| {
            let (s, l, t, _) = mk(i);
            format!("{}{}{}", s, l, t).replace('\n', ": ")
        },
        move |i, cx| {
            let (setup, lhs, text, e) = mk(i);
            let exp = expected(Some(&e), &HashMap::new());
            compare(cx, "unary", &setup, lhs, &text, &exp)
        },
    )
}

/// Conversions of values into every kind of place.
fn cast_section() -> Section {
    let n = boundary().len() as u64;
    const TYS: [Ty; 4] = [Ty::B, Ty::D, Ty::I, Ty::S];
    const PLACES: usize = 9;
    let size = n * 4 * 5 * PLACES as u64;
    let mk = move |i: u64| {
        let b = boundary();
        let (i, x) = (i / n, &b[(i % n) as usize]);
        let (i, ty) = (i / 4, TYS[(i % 4) as usize]);
        let (i, rep) = (i / 5, REPS[(i % 5) as usize]);
        let mut setup = String::new();
        let (t, _) = operand(&mut setup, "p", &x.0, x.1, rep);
        let tn = ty.name();
        let sx = ty.suffix();
        let (pre, stmt, post) = match i {
            0 => (format!("DIM r AS {}", tn), format!("r = {}", t), String::new()),
            1 => (format!("DIM SHARED r AS {}", tn), format!("r = {}", t), String::new()),
            2 => (String::new(), format!("r{} = {}", sx, t), String::new()),
            3 => (
                format!("DIM a(3) AS {}", tn),
                format!("a(2) = {}", t),
                format!("DIM r AS {}\nr = a(2)", tn),
            ),
            4 => (
                format!("FUNCTION f{}(v{})\nf = v\nEND FUNCTION\nDIM r AS {}", sx, sx, tn),
                format!("r = f({})", t),
                String::new(),
            ),
            5 => (
                format!("DIM SHARED r AS {}\nSUB u(v AS {})\nr = v\nEND SUB", tn, tn),
                format!("u {}", t),
                String::new(),
            ),
            6 => (
                format!("FUNCTION f{}\nDIM w AS {}\nw = f\nEND FUNCTION", sx, tn),
                format!("r{} = {}", sx, t),
                String::new(),
            ),
            7 => {
                let h = match ty {
                    Ty::B => "TB",
                    Ty::D => "TD",
                    Ty::I => "TI",
                    Ty::S => "TS",
                };
                (String::new(), format!("r = {}({})", h, t), String::new())
            }
            _ => (
                // The result of the function is assigned within it.
                format!("DIM SHARED z AS {}", tn),
                format!("z = {}", t),
                format!("DIM r AS {}\nr = z", tn),
            ),
        };
        if !pre.is_empty() {
            setup = format!("{}\n{}", pre, setup);
        }
        let line = setup.lines().count() + 1;
        let src = format!("{}{}\n{}\n", setup, stmt, post);
        let exp = if !castable(x.0.ty(), ty) {
            Expected::Rejected
        } else {
            match cast(x.0.clone(), ty, 0) {
                Ok(v) => Expected::Value(v.show()),
                Err(r) => Expected::Error(0, r.msg),
            }
        };
        (src, line, exp)
    };
    Section::new(
        "conversions",
        size,
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx| {
            let (src, line, exp) = mk(i);
            let got = corex::with_env(|env| {
                let r = corex::run(env, &src, &[], Default::default(), 10);
                match &r.stop {
                    Stop::Compile(..) => Expected::Rejected,
                    Stop::Eof => Expected::Value(
                        r.program_var("r")
                            .map(|d| corex::show_datum(&d))
                            .unwrap_or_else(|| "missing".to_owned()),
                    ),
                    Stop::Err(p, m) if p.line == line => Expected::Error(0, m.clone()),
                    s => Expected::Value(format!("{:?}", s)),
                }
            });
            cx.step(1);
            cx.traces += 1;
            cx.state(&format!("{:?}", exp));
            if got != exp {
                return Err(Failure::new(
                    format!("conversions: {}", src.replace('\n', ": ")),
                    format!("{}\nexpected {:?}\nactual   {:?}", src, exp, got),
                ));
            }
            Ok(())
        },
    )
}

// ---- Spelling variants. ----

fn word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == '"')
}

fn spelling_section(tier: Tier) -> Section {
    let opds: [fn() -> T; 5] = [
        || opd(lit_i(3), "3"),
        || opd(var("d"), "d"),
        || opd(var("b"), "b"),
        || opd(lit_s("q"), "\"q\""),
        || opd(lit_b(false), "FALSE"),
    ];
    let k = tier.pick(1, 2);
    let nexpr = (OPS.len() as u64).pow(k)
        * (opds.len() as u64).pow(k + 1)
        * (2 * (k as u64 + 1) + 1)
        * ((k as u64 + 1) * k as u64 / 2);
    let styles = 5u64;
    let cases = 3u64;
    Section::new(
        "spelling",
        nexpr * styles * cases,
        move |i| spell(i, k, &OPS, &opds, styles, cases).0,
        move |i, cx| {
            let (text, toks) = spell(i, k, &OPS, &opds, styles, cases);
            let env = vars();
            let e = parse(&toks);
            let exp = expected(e.as_ref(), &env);
            // Tabs make columns a matter of taste.
            if text.contains('\t') && matches!(exp, Expected::Error(..)) {
                cx.trivial += 1;
                return Ok(());
            }
            compare(cx, "spelling", VARS, "r = ", &text, &exp)
        },
    )
}

fn spell(
    i: u64,
    k: u32,
    ops: &[Op],
    opds: &[fn() -> T],
    styles: u64,
    cases: u64,
) -> (String, Vec<(T, u32)>) {
    let (i, style) = (i / styles, i % styles);
    let (i, case) = (i / cases, i % cases);
    let ts = chain_tokens(i, k, ops, opds, 2, true);
    let mut text = String::new();
    let mut toks = vec![];
    for (j, t) in ts.iter().enumerate() {
        let quoted = t.text().starts_with('"');
        let tx: String = match case {
            1 if !quoted => t.text().to_ascii_lowercase(),
            2 if !quoted => t
                .text()
                .chars()
                .enumerate()
                .map(|(n, c)| {
                    if n % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
                })
                .collect(),
            _ => t.text().to_owned(),
        };
        if j > 0 {
            let need = (word(text.chars().last()) && word(tx.chars().next()))
                || (matches!(text.chars().last(), Some('<' | '>'))
                    && matches!(tx.chars().next(), Some('<' | '>' | '=')));
            let sp = match (style, j % 2) {
                (0, _) if !need => "",
                (1, _) => "  ",
                (2, _) => "\t",
                (3, 0) | (4, 1) if !need => "",
                (3, _) | (4, _) => "   ",
                _ => " ",
            };
            text.push_str(sp);
        }
        toks.push((t.clone(), 5 + text.chars().count() as u32));
        text.push_str(&tx);
    }
    (text, toks)
}

fn sections(tier: Tier) -> Vec<Section> {
    let i3: fn() -> T = || opd(lit_i(3), "3");
    let vi: fn() -> T = || opd(var("i"), "i");
    let d: fn() -> T = || opd(lit_d(2.5), "2.5");
    let vd: fn() -> T = || opd(var("d"), "d");
    let s: fn() -> T = || opd(var("s"), "s");
    let b: fn() -> T = || opd(var("b"), "b");
    let ten: fn() -> T = || opd(call("TEN", vec![]), "TEN");
    let rep_ops =
        vec![Op::Pow, Op::Mul, Op::Sub, Op::Shl, Op::Lt, Op::Eq, Op::And];
    let mut v = vec![
        token_section("tokens", all_tokens(), tier.pick(4, 5)),
        token_section("core-tokens", core_tokens(), tier.pick(5, 7)),
        token_section("structure-tokens", structure_tokens(), tier.pick(7, 9)),
        chain_section("chains-2", 2, OPS.to_vec(), vec![i3, vd, s, b], true, true),
        chain_section("chains-3", 3, rep_ops.clone(), vec![vi, d, b], tier == Tier::Thorough, true),
        boundary_section(tier == Tier::Quick),
        unary_section(),
        cast_section(),
        spelling_section(tier),
    ];
    if tier == Tier::Thorough {
        v.push(chain_section("chains-3-all", 3, OPS.to_vec(), vec![ten, vd, b], false, true));
        v.push(chain_section("chains-4", 4, rep_ops, vec![vi, b], false, true));
        v.push(chain_section(
            "chains-5",
            5,
            vec![Op::Pow, Op::Mul, Op::Sub, Op::Shl, Op::Lt, Op::And],
            vec![i3],
            true,
            true,
        ));
    }
    v
}
