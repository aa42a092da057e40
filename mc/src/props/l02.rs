//! L02: control flow follows the structure of the program.

use crate::corex::{self, Stop, with_env};
use crate::engine::{Failure, Property, Section, Tier, mixed, product};
use crate::explore::{Opts, explore, explore_text};
use crate::lang::*;

pub fn property() -> Property {
    Property {
        id: "L02",
        rule: "All programs whose constructs nest along a spine of up to 3 (quick) or 4 (thorough) \
               levels of every control-flow construct in every hole, ending in every kind of jump, \
               in the main program, a SUB and a FUNCTION; all pairs of constructs in sequence and in \
               sibling branches; every sequence of up to 6-7 answers of the conditions. All FOR loops \
               over small and extreme ranges and steps of both types; all SELECT statements over small \
               selectors and lists of guards of numbers, texts and Booleans; values of all types in \
               all places that take one (rejected or accepted). Oracle: a direct interpreter of the flattened syntax \
               tree; the order of condition evaluations is observed too.",
        assumptions: &["runs are cut after 6-7 condition evaluations or 60 outputs"],
        sections,
    }
}

/// Hands out identities for outputs and conditions.
pub struct Ids(i32);

impl Ids {
    pub fn new() -> Self {
        Ids(0)
    }
    pub fn out(&mut self) -> S {
        self.0 += 1;
        S::Out(vec![lit_i(self.0)])
    }
    pub fn cond(&mut self) -> E {
        self.0 += 1;
        call("COND", vec![lit_i(self.0)])
    }
}

/// Where a statement is.
#[derive(Clone, Copy, Default)]
pub struct At {
    pub in_do: bool,
    pub in_for: bool,
    pub in_callable: bool,
    pub depth: usize,
}

pub const LEAVES: usize = 11;

/// The statement at the bottom of the nesting.
pub fn leaf(n: usize, at: At, ids: &mut Ids) -> Option<Block> {
    Some(match n {
        0 => vec![ids.out()],
        1 if at.in_do => vec![ids.out(), S::ExitDo, ids.out()],
        2 if at.in_for => vec![ids.out(), S::ExitFor, ids.out()],
        3 => vec![S::Goto("end".to_owned()), ids.out()],
        4 => vec![S::Goto("top".to_owned())],
        5 => vec![S::Gosub("sub".to_owned()), ids.out()],
        6 => vec![ids.out(), S::End(Some(lit_i(3)))],
        7 if at.in_callable => vec![ids.out(), S::ExitCallable, ids.out()],
        8 => vec![S::Label("in".to_owned()), ids.out()],
        9 if at.in_do => {
            vec![S::If1(ids.cond(), Box::new(S::ExitDo), Some(Box::new(ids.out()))), ids.out()]
        }
        10 if at.in_for => {
            vec![S::If1(ids.cond(), Box::new(ids.out()), Some(Box::new(S::ExitFor))), ids.out()]
        }
        _ => return None,
    })
}

/// A construct with a hole, and the position of the hole in it.
pub const SHAPES: usize = 24;

pub fn shape(n: usize, at: At, ids: &mut Ids, fill: &mut dyn FnMut(At, &mut Ids) -> Option<Block>) -> Option<S> {
    let mut at = at;
    at.depth += 1;
    let it = format!("i{}", at.depth);
    Some(match n {
        0 => {
            let c = ids.cond();
            S::If(vec![(c, fill(at, ids)?)], None)
        }
        1 => {
            let c = ids.cond();
            let b = fill(at, ids)?;
            S::If(vec![(c, b)], Some(vec![ids.out()]))
        }
        2 => {
            let c = ids.cond();
            let o = ids.out();
            S::If(vec![(c, vec![o])], Some(fill(at, ids)?))
        }
        3..=5 => {
            let c1 = ids.cond();
            let b1 = if n == 3 { fill(at, ids)? } else { vec![ids.out()] };
            let c2 = ids.cond();
            let b2 = if n == 4 { fill(at, ids)? } else { vec![ids.out()] };
            let e = if n == 5 { fill(at, ids)? } else { vec![ids.out()] };
            S::If(vec![(c1, b1), (c2, b2)], Some(e))
        }
        6 | 7 => {
            let c1 = ids.cond();
            let b1 = if n == 6 { fill(at, ids)? } else { vec![ids.out()] };
            let c2 = ids.cond();
            let b2 = if n == 7 { fill(at, ids)? } else { vec![] };
            S::If(vec![(c1, b1), (c2, b2)], None)
        }
        8..=10 => {
            let sel = ids.cond();
            let b1 = if n == 8 { fill(at, ids)? } else { vec![ids.out()] };
            let g2 = ids.cond();
            let b2 = if n == 9 { fill(at, ids)? } else { vec![ids.out()] };
            let e = if n == 10 { fill(at, ids)? } else { vec![ids.out()] };
            S::Select(
                sel,
                vec![(vec![Guard::Val(lit_b(true))], b1), (vec![Guard::Val(g2)], b2)],
                Some(e),
            )
        }
        11 => {
            let sel = ids.cond();
            let g = ids.cond();
            S::Select(sel, vec![(vec![Guard::Is(Op::Ne, g)], fill(at, ids)?)], None)
        }
        12 => {
            let c = ids.cond();
            S::While(c, fill(at, ids)?)
        }
        13..=17 => {
            at.in_do = true;
            let c = ids.cond();
            let b = fill(at, ids)?;
            S::Do(
                match n {
                    13 => DoG::Inf,
                    14 => DoG::PreWhile(c),
                    15 => DoG::PreUntil(c),
                    16 => DoG::PostWhile(c),
                    _ => DoG::PostUntil(c),
                },
                b,
            )
        }
        18..=20 => {
            at.in_for = true;
            let (a, z, st) = match n {
                18 => (1, 2, None),
                19 => (2, 0, Some(V::I(-1))),
                _ => (3, 2, None),
            };
            let mut b = vec![S::Out(vec![lit_s("i"), var(&it)])];
            b.extend(fill(at, ids)?);
            S::For(it, lit_i(a), lit_i(z), st, b)
        }
        21 => {
            at.in_do = true;
            let mut b = vec![ids.out()];
            let c = ids.cond();
            b.push(S::If1(c, Box::new(S::ExitDo), None));
            b.extend(fill(at, ids)?);
            S::Do(DoG::Inf, b)
        }
        22 => {
            at.in_for = true;
            let c = ids.cond();
            let mut b = vec![S::If1(c, Box::new(S::ExitFor), None)];
            b.extend(fill(at, ids)?);
            S::For(it, lit_d(0.5), lit_d(1.5), Some(V::D(0.5)), b)
        }
        23 => {
            // Dead guards: nothing here asks the environment.
            let b = fill(at, ids)?;
            S::If(vec![(lit_b(false), vec![ids.out()]), (lit_b(true), b)], Some(vec![ids.out()]))
        }
        _ => return None,
    })
}

fn spine(shapes: &[usize], lf: usize, at: At, ids: &mut Ids, around: bool) -> Option<Block> {
    let Some((first, rest)) = shapes.split_first() else { return leaf(lf, at, ids) };
    let before = around.then(|| ids.out());
    let s = shape(*first, at, ids, &mut |at, ids| spine(rest, lf, at, ids, around))?;
    let mut b: Block = before.into_iter().collect();
    b.push(s);
    b.push(ids.out());
    Some(b)
}

/// Wraps a body into a program.
pub fn wrap(place: usize, body: Block, ids: &mut Ids, uses_in: bool) -> Prog {
    let l = |s: &str| S::Label(s.to_owned());
    let mut p = Prog::default();
    let mut code: Block = vec![];
    for i in 1..=6 {
        code.push(S::Dim(format!("i{}", i), if i % 2 == 0 { Ty::D } else { Ty::I }));
    }
    code.push(ids.out());
    code.push(l("top"));
    code.push(ids.out());
    code.extend(body);
    code.push(ids.out());
    if uses_in {
        let c = ids.cond();
        code.push(S::If1(c, Box::new(S::Goto("in".to_owned())), None));
    }
    code.push(l("end"));
    code.push(ids.out());
    let exit = if place == 0 { S::End(None) } else { S::ExitCallable };
    code.push(exit);
    code.push(l("sub"));
    code.push(ids.out());
    code.push(S::Return);
    match place {
        0 => p.main = code,
        1 => {
            p.callables.push(Callable { name: "p".to_owned(), ret: None, params: vec![], body: code });
            p.main = vec![S::Cmd("p".to_owned(), vec![]), ids.out()];
        }
        _ => {
            p.callables.push(Callable {
                name: "f".to_owned(),
                ret: Some(Ty::I),
                params: vec![("z".to_owned(), Ty::I)],
                body: code,
            });
            p.main = vec![S::Out(vec![call("f", vec![lit_i(1)])]), ids.out()];
            p.callables_last = true;
        }
    }
    p
}

fn spine_prog(v: &[usize], depth: usize) -> Option<Prog> {
    let place = v[0];
    let lf = v[1];
    let shapes = &v[2..2 + depth];
    let mut ids = Ids::new();
    let at = At { in_callable: place != 0, ..Default::default() };
    let body = spine(shapes, lf, at, &mut ids, depth < 3)?;
    Some(wrap(place, body, &mut ids, lf == 8))
}

fn prog_section<F>(name: &'static str, size: u64, o: Opts, f: F) -> Section
where
    F: Fn(u64) -> Option<Prog> + Sync + Send + Copy + 'static,
{
    let show = move |i: u64| match f(i) {
        Some(p) => p.build().text.replace('\n', ": "),
        None => "not a program".to_owned(),
    };
    Section::new(name, size, show, move |i, cx| {
        let Some(p) = f(i) else {
            cx.trivial += 1;
            return Ok(());
        };
        let c = p.build();
        explore(&c, &o, &|| format!("{}: {}", name, c.text.replace('\n', ": ")), cx)
    })
}

fn spine_section(name: &'static str, depth: usize, places: u64, bits: usize) -> Section {
    let mut radices = vec![places, LEAVES as u64];
    radices.extend(std::iter::repeat_n(SHAPES as u64, depth));
    let size = product(&radices);
    let o = Opts { max_bits: bits, ..Default::default() };
    prog_section(name, size, o, move |i| {
        let mut radices = [SHAPES as u64; 8];
        radices[0] = places;
        radices[1] = LEAVES as u64;
        spine_prog(&mixed(&radices[..2 + depth], i), depth)
    })
}

/// Two constructs in sequence (or in both branches of a conditional) within a third one.
fn pair_section(name: &'static str, outer: bool, bits: usize) -> Section {
    let radices: &'static [u64] = if outer {
        &[2, LEAVES as u64, LEAVES as u64, SHAPES as u64, SHAPES as u64, SHAPES as u64]
    } else {
        &[2, LEAVES as u64, LEAVES as u64, SHAPES as u64, SHAPES as u64]
    };
    let o = Opts { max_bits: bits, ..Default::default() };
    prog_section(name, product(radices), o, move |i| {
        let v = mixed(radices, i);
        if v[1] == 8 && v[2] == 8 {
            return None; // Duplicate label.
        }
        let mut ids = Ids::new();
        let at = At::default();
        let mut two = |at: At, ids: &mut Ids| -> Option<Block> {
            let a = shape(v[3], at, ids, &mut |at, ids| leaf(v[1], at, ids))?;
            let o = ids.out();
            let b = shape(v[4], at, ids, &mut |at, ids| leaf(v[2], at, ids))?;
            if v[0] == 0 {
                Some(vec![a, o, b])
            } else {
                let c = ids.cond();
                Some(vec![S::If(vec![(c, vec![a, o])], Some(vec![b]))])
            }
        };
        let body = match v.get(5) {
            None => two(at, &mut ids)?,
            Some(s) => vec![shape(*s, at, &mut ids, &mut two)?],
        };
        Some(wrap(0, body, &mut ids, v[1] == 8 || v[2] == 8))
    })
}

/// The same programs laid out differently.
fn layout_section(depth: usize) -> Section {
    let mut radices = vec![4, 3, LEAVES as u64];
    radices.extend(std::iter::repeat_n(SHAPES as u64, depth));
    let r2 = radices.clone();
    let text = move |i: u64| -> Option<(Compiled, String)> {
        let v = mixed(&r2, i);
        let c = spine_prog(&v[1..], depth)?.build();
        let t = match v[0] {
            0 => c.text.trim_end().replace('\n', ":"),
            1 => c.text.to_lowercase().replace('\n', " ' A comment\n\n"),
            2 => c.text.replace('\n', "\r\n\tREM Another\r\n  "),
            _ => c.text.lines().map(|l| l.trim_start()).collect::<Vec<_>>().join(" : \n: "),
        };
        Some((c, t))
    };
    let t2 = text.clone();
    Section::new(
        "layouts",
        product(&radices),
        move |i| t2(i).map(|x| x.1).unwrap_or_default(),
        move |i, cx| {
            let Some((c, t)) = text(i) else {
                cx.trivial += 1;
                return Ok(());
            };
            let o = Opts { max_bits: 4, ..Default::default() };
            explore_text(&c, &t, &o, &|| format!("layouts: {}", t), cx)
        },
    )
}

/// Single-line conditionals over all simple statements.
fn single_line_section() -> Section {
    const N: u64 = 8;
    prog_section("single-line", N * (N + 1) * 3, Opts::default(), |i| {
        let v = mixed(&[N, N + 1, 3], i);
        let mut ids = Ids::new();
        let mut st = |n: usize| match n {
            0 => ids.out(),
            1 => S::Goto("end".to_owned()),
            2 => S::Gosub("sub".to_owned()),
            3 => S::End(Some(lit_i(7))),
            4 => S::Let("x".to_owned(), lit_i(5)),
            5 => S::ExitDo,
            6 => S::ExitFor,
            _ => S::Goto("top".to_owned()),
        };
        let t = st(v[0]);
        let e = if v[1] == N as usize { None } else { Some(Box::new(st(v[1]))) };
        let c = ids.cond();
        let s = S::If1(c, Box::new(t), e);
        let inner = vec![S::Do(
            DoG::PostWhile(lit_b(false)),
            vec![S::For("i1".to_owned(), lit_i(1), lit_i(2), None, vec![s, ids.out()]), ids.out()],
        )];
        let mut body = vec![S::Dim("x".to_owned(), Ty::I)];
        body.extend(inner);
        body.push(S::Out(vec![var("x")]));
        Some(wrap(v[2], body, &mut ids, false))
    })
}

/// Loops over ranges.
fn for_section(tier: Tier) -> Section {
    let big = i32::MAX;
    let starts: Vec<V> = {
        let mut s: Vec<V> = (-3..=3).map(V::I).collect();
        s.extend([-1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5].map(V::D));
        s.extend([V::I(big - 2), V::I(big - 5), V::I(-big + 3), V::D(1e300)]);
        s
    };
    let steps: Vec<Option<V>> = {
        let mut s: Vec<Option<V>> = vec![None];
        let n = tier.pick(3, 5);
        s.extend((-n..=n).filter(|i| *i != 0).map(|i| Some(V::I(i))));
        s.extend([-1.0, -0.5, -0.25, 0.25, 0.5, 0.75, 1.0, 1e300].map(|d| Some(V::D(d))));
        s.extend([Some(V::I(big)), Some(V::I(-big))]);
        s
    };
    let n = starts.len() as u64;
    let radices = [n, n, steps.len() as u64, 5];
    let size = product(&radices);
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let (a, z, st) = (starts[v[0]].clone(), starts[v[1]].clone(), steps[v[2]].clone());
        let step_double = matches!(st, Some(V::D(_)));
        let expr = |v: &V| match v {
            V::I(i) if *i == i32::MIN => bin(Op::Sub, lit_i(-big), lit_i(1)),
            v => E::Lit(v.clone()),
        };
        let mut body = vec![];
        // Kinds of loop variable: undeclared, declared of each type, shared of each type.
        let mut p = Prog::default();
        let name;
        match v[3] {
            0 => {
                // Takes the type of its first value, or double if the step is.
                name = "x".to_owned();
                if a.ty() == Ty::I && step_double {
                    body.push(S::Raw(String::new()));
                }
            }
            1 => {
                name = "x".to_owned();
                body.push(S::Dim(name.clone(), Ty::I));
            }
            2 => {
                name = "x".to_owned();
                body.push(S::Dim(name.clone(), Ty::D));
            }
            3 => {
                name = "x".to_owned();
                p.shared.push((name.clone(), Ty::I));
            }
            _ => {
                name = "x".to_owned();
                p.shared.push((name.clone(), Ty::D));
            }
        }
        let implicit = v[3] == 0;
        if implicit {
            // The reference needs to know the type; the text does not say it.
            let t = if step_double { Ty::D } else { a.ty() };
            body.push(S::Hidden(name.clone(), t));
        }
        body.push(S::For(
            name.clone(),
            expr(&a),
            expr(&z),
            st,
            vec![S::Out(vec![var(&name)])],
        ));
        body.push(S::Out(vec![lit_s("after"), var(&name)]));
        p.main = body;
        p
    };
    let mk2 = mk.clone();
    Section::new(
        "for-ranges",
        size,
        move |i| mk(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let c = mk2(i).build();
            // The position of an overflow of the loop variable is not part of the property.
            let o = Opts { max_out: 25, lines: false, vars: vec!["x"], ..Default::default() };
            explore(&c, &o, &|| format!("for-ranges: {}", c.text.replace('\n', ": ")), cx)
        },
    )
}

/// Selections over values.
fn select_section(tier: Tier, ty: Ty) -> Section {
    let sels = move || -> Vec<E> {
        match ty {
            Ty::S => {
                let y = || var("y");
                return vec![
                    lit_s(""),
                    lit_s("a"),
                    lit_s("b"),
                    lit_s("B"),
                    lit_s("é"),
                    y(),
                    add(y(), call("TS", vec![lit_s("a")])),
                ];
            }
            Ty::B => {
                let tb = call("TB", vec![lit_b(true)]);
                return vec![lit_b(false), lit_b(true), var("y"), E::Un(Uop::Not, 0, Box::new(var("y"))), tb];
            }
            _ => (),
        }
        vec![
            lit_i(1),
            lit_i(2),
            lit_i(3),
            lit_d(1.5),
            lit_d(2.0),
            var("y"),
            add(var("y"), call("TI", vec![lit_i(1)])),
        ]
    };
    let guards = move || -> Vec<Vec<Guard>> {
        let one = match ty {
            Ty::S => {
                let mut one = vec![
                    Guard::Val(lit_s("b")),
                    Guard::Val(call("TS", vec![lit_s("a")])),
                    Guard::To(lit_s("a"), lit_s("b")),
                    Guard::To(lit_s(""), lit_s("a")),
                    Guard::To(lit_s("b"), lit_s("a")),
                ];
                for op in [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge] {
                    one.push(Guard::Is(op, lit_s("b")));
                    one.push(Guard::Is(op, call("TS", vec![var("y")])));
                }
                one
            }
            Ty::B => {
                let mut one = vec![Guard::Val(lit_b(true)), Guard::Val(call("TB", vec![lit_b(false)]))];
                for op in [Op::Eq, Op::Ne] {
                    one.push(Guard::Is(op, lit_b(true)));
                    one.push(Guard::Is(op, var("y")));
                }
                one
            }
            _ => vec![
            Guard::Val(lit_i(1)),
            Guard::Val(call("TI", vec![lit_i(2)])),
            Guard::Val(lit_d(1.5)),
            Guard::To(lit_i(1), lit_i(2)),
            Guard::To(lit_d(1.5), lit_i(3)),
            Guard::To(lit_i(3), lit_i(1)),
            Guard::Is(Op::Ge, lit_i(2)),
            Guard::Is(Op::Lt, call("TI", vec![lit_i(2)])),
            Guard::Is(Op::Ne, lit_i(3)),
            Guard::Is(Op::Eq, lit_d(2.0)),
            Guard::Is(Op::Gt, lit_i(2)),
            Guard::Is(Op::Le, lit_i(1)),
            ],
        };
        let mut all: Vec<Vec<Guard>> = one.iter().map(|g| vec![g.clone()]).collect();
        for a in &one[..] {
            for b in &one[..] {
                all.push(vec![a.clone(), b.clone()]);
            }
        }
        all
    };
    let g = guards().len() as u64;
    let second = tier.pick(if ty == Ty::S { 10 } else { 24.min(g) }, g);
    let radices = [sels().len() as u64, g, second + 1, 3];
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let sel = sels()[v[0]].clone();
        let gs = guards();
        let y = match ty {
            Ty::S => [lit_s("a"), lit_s("c")],
            Ty::B => [lit_b(true), lit_b(false)],
            _ => [lit_i(2), lit_i(9)],
        };
        let mut cases = vec![(gs[v[1]].clone(), vec![S::Out(vec![lit_s("a")])])];
        if v[2] > 0 {
            // The body changes the variable that is selected on.
            cases.push((
                gs[v[2] - 1].clone(),
                vec![S::Let("y".to_owned(), y[1].clone()), S::Out(vec![lit_s("b")])],
            ));
        }
        let els = match v[3] {
            0 => None,
            1 => Some(vec![S::Out(vec![lit_s("e")])]),
            _ => Some(vec![]),
        };
        Prog {
            main: vec![
                S::Dim("y".to_owned(), ty),
                S::Let("y".to_owned(), y[0].clone()),
                S::Select(sel, cases, els),
                S::Out(vec![var("y")]),
            ],
            ..Default::default()
        }
    };
    let o = Opts { vars: vec!["y"], ..Default::default() };
    let name = match ty {
        Ty::S => "select-texts",
        Ty::B => "select-booleans",
        _ => "select-values",
    };
    Section::new(
        name,
        product(&radices),
        move |i| mk(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let c = mk(i).build();
            explore(&c, &o, &|| format!("{}: {}", name, c.text.replace('\n', ": ")), cx)
        },
    )
}

/// Values of the wrong and of the right types in all places that take one.
fn typed_section() -> Section {
    #[derive(Clone)]
    struct Case {
        text: String,
        /// Line of the value that may be rejected.
        line: usize,
        ok: bool,
    }
    const TYPES: [Ty; 4] = [Ty::B, Ty::D, Ty::I, Ty::S];
    let forms = |t: Ty| -> [&'static str; 5] {
        match t {
            Ty::B => ["TRUE", "vb", "TB(FALSE)", "(NOT vb)", "1 < 2"],
            Ty::D => ["2.5", "vd", "TD(2.5)", "(-vd)", "1.5 + 2"],
            Ty::I => ["2", "vi", "TI(2)", "(-vi)", "1 + 2"],
            Ty::S => ["\"b\"", "vs", "TS(\"b\")", "(vs)", "\"a\" + vs"],
        }
    };
    let num = |t: Ty| matches!(t, Ty::D | Ty::I);
    let any: fn(Ty) -> bool = |t| t == Ty::B;
    let number: fn(Ty) -> bool = |t| matches!(t, Ty::D | Ty::I);
    let places: [(&str, fn(Ty) -> bool); 16] = [
        ("IF {} THEN\nOUT 1\nEND IF", any),
        ("IF {} THEN\nOUT 1\nELSE\nOUT 2\nEND IF", any),
        ("IF FALSE THEN\nOUT 1\nELSEIF {} THEN\nOUT 2\nEND IF", any),
        ("IF FALSE THEN\nOUT 1\nELSEIF TRUE THEN\nOUT 2\nELSEIF {} THEN\nOUT 2\nELSE\nEND IF", any),
        ("IF {} THEN OUT 1", any),
        ("IF {} THEN OUT 1 ELSE OUT 2", any),
        ("WHILE {}\nEND\nWEND", any),
        ("DO WHILE {}\nEND\nLOOP", any),
        ("DO UNTIL {}\nEND\nLOOP", any),
        ("DO\nEND\nLOOP WHILE {}", any),
        ("DO\nEND\nLOOP UNTIL {}", any),
        ("FOR i = {} TO 3\nEND\nNEXT", number),
        ("FOR i = 1 TO {}\nEND\nNEXT", number),
        ("FOR i = 1 TO {} STEP 0.5\nEND\nNEXT", number),
        ("FOR i = {} TO 1 STEP -2\nEND\nNEXT", number),
        ("END {}", number),
    ];
    // Where each place is.
    let wraps = ["{}", "IF TRUE THEN\n{}\nEND IF", "SUB s\n{}\nEND SUB\ns", "FUNCTION f%\n{}\nEND FUNCTION\nOUT f"];
    let mut all: Vec<Case> = vec![];
    let mut push = |text: &str, ok: bool| {
        for (w, wrap) in wraps.iter().enumerate() {
            let pre = match w {
                0 | 1 => "",
                _ => "DIM SHARED vb AS BOOLEAN\nDIM SHARED vd AS DOUBLE\nDIM SHARED vi AS INTEGER\nDIM SHARED vs AS STRING\n",
            };
            let pre = if pre.is_empty() { "vb = TRUE\nvd = 2.5\nvi = 2\nvs = \"b\"\n" } else { pre };
            let (start, inner) = (wrap.find("{}").unwrap(), text.find('\u{1}').unwrap());
            let before = format!("OUT 0\n{}{}{}", pre, &wrap[..start], &text[..inner]);
            let text = format!("OUT 0\n{}{}", pre, wrap.replace("{}", &text.replace('\u{1}', "")));
            all.push(Case { text, line: before.matches('\n').count() + 1, ok });
        }
    };
    for (place, takes) in places {
        for t in TYPES {
            for f in forms(t) {
                push(&place.replace("{}", &format!("\u{1}{}", f)), takes(t));
            }
        }
    }
    // Loop variables of all types and natures.
    for v in 0..6 {
        for start in TYPES {
            for end in TYPES {
                for step in ["", " STEP 1", " STEP -1", " STEP 0.5", " STEP 0", " STEP 0.0", " STEP vi", " STEP \"a\"", " STEP TRUE"] {
                    let decl = match v {
                        0 => "",
                        1 => "DIM i AS BOOLEAN\n",
                        2 => "DIM i AS DOUBLE\n",
                        3 => "DIM i AS INTEGER\n",
                        4 => "DIM i AS STRING\n",
                        _ => "DIM i(3) AS INTEGER\n",
                    };
                    let ok = num(start)
                        && num(end)
                        && matches!(v, 0 | 2 | 3)
                        && !["0", "0.0", "vi", "\"a\"", "TRUE"].iter().any(|s| step == format!(" STEP {}", s));
                    let text = format!("{}FOR \u{1}i = {} TO {}{}\nEND\nNEXT", decl, forms(start)[0], forms(end)[1], step);
                    push(&text, ok);
                }
            }
        }
    }
    // Names that cannot be those of a loop variable.
    for name in ["out", "OUT", "ti", "f2", "s2", "vs", "vb", "i$", "i?"] {
        for step in ["", " STEP 2", " STEP 0.5"] {
            push(&format!("FOR \u{1}{} = 1 TO 2{}\nEND\nNEXT", name, step), false);
        }
    }
    // All guards for all selectors.
    let cmp = |a: Ty, b: Ty, order: bool| match (a, b) {
        (Ty::D | Ty::I, Ty::D | Ty::I) => true,
        (Ty::S, Ty::S) => true,
        (Ty::B, Ty::B) => !order,
        _ => false,
    };
    for sel in TYPES {
        for (fi, f) in forms(sel).iter().enumerate() {
            for g in TYPES {
                for (gi, gf) in forms(g).iter().enumerate() {
                    if fi > 1 && gi > 1 {
                        continue;
                    }
                    let two = [("{}", false), ("IS = {}", false), ("IS <> {}", false), ("IS < {}", true)];
                    let more = [("IS <= {}", true), ("IS > {}", true), ("IS >= {}", true)];
                    for (guard, order) in two.into_iter().chain(more) {
                        let guard = guard.replace("{}", gf);
                        let text = format!("SELECT CASE {}\nCASE \u{1}{}\nOUT 1\nEND SELECT", f, guard);
                        push(&text, cmp(sel, g, order));
                    }
                    for h in TYPES {
                        let text = format!("SELECT CASE {}\nCASE \u{1}{} TO {}\nOUT 1\nEND SELECT", f, gf, forms(h)[1]);
                        push(&text, cmp(sel, g, true) && cmp(sel, h, true));
                    }
                }
            }
        }
    }
    let all = std::sync::Arc::new(all);
    let a2 = all.clone();
    Section::new("typed-places", all.len() as u64, move |i| a2[i as usize].text.replace('\n', ": "), move |i, cx| {
        let c = &all[i as usize];
        cx.step(1);
        cx.traces += 1;
        with_env(|env| {
            let text = format!("SUB s2\nEND SUB\nFUNCTION f2%\nEND FUNCTION\n{}", c.text);
            let r = corex::run(env, &text, &[], Default::default(), 50);
            let good = match &r.stop {
                Stop::Compile(pos, _) => !c.ok && r.out.is_empty() && pos.line == c.line + 4,
                _ => c.ok && r.out.first().map(String::as_str) == Some("0%"),
            };
            if good {
                cx.count(if c.ok { "accepted" } else { "rejected" });
                return Ok(());
            }
            Err(Failure::new(
                format!("typed-places: {}", c.text.replace('\n', ": ")),
                format!(
                    "{:?}: {} expected (line {}) but got {:?} with output {:?}",
                    text,
                    if c.ok { "a run" } else { "a rejection" },
                    c.line + 4,
                    r.stop,
                    r.out
                ),
            ))
        })
    })
}

/// END with every exit code.
fn end_section() -> Section {
    prog_section("exit-codes", 3 * 267, Opts::default(), |i| {
        let v = mixed(&[3, 267], i);
        let code = v[1] as i32 - 5;
        if v[0] == 0 && !(0..128).contains(&code) {
            return None; // Constant codes may be rejected earlier.
        }
        let e = match v[0] {
            0 => lit_i(code),
            1 => var("x"),
            _ => lit_d(code as f64 + 0.25),
        };
        Some(Prog {
            main: vec![
                S::Dim("x".to_owned(), Ty::I),
                S::Let("x".to_owned(), lit_i(code)),
                S::Out(vec![lit_i(1)]),
                S::End(Some(e)),
                S::Out(vec![lit_i(2)]),
            ],
            ..Default::default()
        })
    })
}

/// See the known findings.
const FIXED: &[(&str, &str)] = &[
    ("SUB s : GOSUB @a : OUT 9 : EXIT SUB : @a : OUT 1 : EXIT SUB : END SUB : s : OUT 2", "1%, 2%, ."),
    ("SUB s : GOSUB @a : OUT 9 : EXIT SUB : @a : OUT 1 : END SUB : s : OUT 2", "1%, 2%, ."),
    ("FUNCTION f% : f = 3 : GOSUB @a : OUT 9 : EXIT FUNCTION : @a : OUT 1 : EXIT FUNCTION : END FUNCTION : OUT f", "1%, 3%, ."),
];

fn sections(tier: Tier) -> Vec<Section> {
    let bits = tier.pick(6, 7);
    let mut v = vec![
        spine_section("spine-0", 0, 3, bits),
        spine_section("spine-1", 1, 3, bits),
        spine_section("spine-2", 2, 3, bits),
        spine_section("spine-3", 3, tier.pick(1, 3), bits),
        pair_section("pairs", false, tier.pick(5, 7)),
        layout_section(tier.pick(1, 2)),
        single_line_section(),
        for_section(tier),
        select_section(tier, Ty::I),
        select_section(tier, Ty::S),
        select_section(tier, Ty::B),
        typed_section(),
        end_section(),
        super::fixed::section(FIXED),
    ];
    if tier == Tier::Thorough {
        v.push(spine_section("spine-4", 4, 1, 6));
        v.push(pair_section("pairs-in", true, 5));
    }
    v
}
