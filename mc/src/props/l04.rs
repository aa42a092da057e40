//! L04: error handling transfers control exactly as configured.

use crate::engine::{Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::explore::{Opts, explore};
use crate::lang::*;

pub fn property() -> Property {
    Property {
        id: "L04",
        rule: "All main programs of up to 4 (quick) or 5 (thorough) statements from an alphabet of \
               failing and succeeding statements, handler changes and failing constructs, times every \
               kind of error handler; all callables of up to 2-3 such statements called from all \
               kinds of places under every handler, with handlers in the main program and in \
               callables; failing statements at every depth of nested constructs; failures up to 65536 lines and columns into a program. Oracle: a direct \
               interpreter; outputs, the message and line of the last error, and how the program \
               ends.",
        assumptions: &[
            "failing scalar assignments and failing guards of constructs are outside the property",
        ],
        sections,
    }
}

fn out(n: i32) -> S {
    S::Out(vec![lit_i(n)])
}
fn let_(n: &str, e: E) -> S {
    S::Let(n.to_owned(), e)
}
fn cmd(n: &str) -> S {
    S::Cmd(n.to_owned(), vec![])
}
fn failf() -> E {
    call("FAILF", vec![lit_i(0)])
}
fn lasterr() -> S {
    S::Out(vec![lit_s("E"), call("LASTERR", vec![])])
}

/// Statements that fail in all kinds of ways, with code around the failure.
const FAILING: usize = 9;
fn failing(n: usize, id: i32) -> S {
    match n {
        0 => cmd("FAIL"),
        1 => S::Out(vec![lit_i(id), failf(), lit_i(id)]),
        2 => S::Out(vec![bin(Op::Div, lit_i(1), var("z"))]),
        3 => S::LetIdx("a".to_owned(), vec![lit_i(9)], lit_i(1)),
        4 => S::Out(vec![call("TI", vec![lit_i(id)]), idx("a", vec![lit_i(-1)])]),
        5 => S::LetIdx("a".to_owned(), vec![call("TI", vec![lit_i(1)])], bin(
            Op::Mod,
            lit_i(1),
            var("z"),
        )),
        6 => S::DimArr(format!("b{}", id), Ty::I, vec![var("z")]),
        7 => S::Cmd("quiet".to_owned(), vec![failf()]),
        _ => S::End(Some(lit_d(200.25))),
    }
}

/// Statements of the main program.
const MAIN: usize = 23;
fn main_stmt(n: usize, id: i32) -> Block {
    match n {
        0 => vec![out(id)],
        1 => vec![lasterr()],
        2 => vec![S::OnErrGoto("h".to_owned())],
        3 => vec![S::OnErrNext],
        4 => vec![S::OnErrOff],
        5 => vec![failing(0, id)],
        6 => vec![failing(1, id)],
        7 => vec![failing(2, id)],
        8 => vec![failing(3, id)],
        9 => vec![S::Gosub("s".to_owned())],
        10 => vec![cmd("p")],
        11 => vec![S::Out(vec![lit_i(id), call("f", vec![lit_i(1)]), lit_i(id)])],
        12 => vec![S::If(vec![(lit_b(true), vec![out(id), cmd("FAIL"), out(id + 1)])], Some(vec![out(id + 2)]))],
        13 => vec![S::For("i".to_owned(), lit_i(1), lit_i(2), None, vec![
            S::Out(vec![lit_i(id), var("i")]),
            cmd("FAIL"),
            S::Out(vec![lit_i(id + 1), var("i")]),
        ])],
        14 => vec![S::If1(lit_b(true), Box::new(cmd("FAIL")), Some(Box::new(out(id))))],
        15 => vec![S::Select(lit_i(1), vec![
            (vec![Guard::Val(lit_i(1))], vec![cmd("FAIL"), out(id)]),
            (vec![Guard::Val(lit_i(2))], vec![out(id + 1)]),
        ], None)],
        16 => vec![let_("k", add(var("k"), lit_i(1))), S::Do(DoG::PostWhile(bin(Op::Lt, var("k"), lit_i(2))), vec![
            let_("k", add(var("k"), lit_i(1))),
            cmd("FAIL"),
            out(id),
        ])],
        17 => vec![failing(4, id)],
        18 => vec![failing(5, id)],
        19 => vec![failing(6, id)],
        20 => vec![failing(7, id)],
        // The same statement, failing for different reasons.
        21 => vec![S::For("i".to_owned(), lit_i(8), lit_i(9), None, vec![
            S::LetIdx("a".to_owned(), vec![var("i")], lit_i(1)),
            lasterr(),
        ])],
        _ => vec![cmd("pn")],
    }
}

/// What the handler does after reporting.
const HANDLERS: usize = 8;
fn handler(n: usize) -> Block {
    let report = |s: &str| S::Out(vec![lit_s(s), call("LASTERR", vec![])]);
    match n {
        0 => vec![report("h"), S::End(Some(lit_i(4)))],
        1 => vec![report("h"), S::Goto("back".to_owned())],
        2 => vec![
            report("h"),
            S::OnErrGoto("h".to_owned()),
            let_("n", add(var("n"), lit_i(1))),
            S::If1(bin(Op::Lt, var("n"), lit_i(3)), Box::new(S::Goto("back".to_owned())), None),
        ],
        3 => vec![report("h"), cmd("FAIL"), out(90)],
        4 => vec![report("h"), S::OnErrNext, cmd("FAIL"), lasterr(), S::Goto("back".to_owned())],
        5 => vec![report("h"), S::OnErrGoto("h2".to_owned()), cmd("FAIL"), out(91)],
        6 => vec![report("h"), S::Return],
        _ => vec![report("h"), S::OnErrOff, out(92), cmd("FAIL"), out(93)],
    }
}

fn vars() -> Block {
    let d = |n: &str| S::Dim(n.to_owned(), Ty::I);
    vec![
        d("z"),
        d("i"),
        d("k"),
        d("n"),
        S::DimArr("a".to_owned(), Ty::I, vec![lit_i(3)]),
        S::LetIdx("a".to_owned(), vec![lit_i(1)], lit_i(5)),
    ]
}

fn std_callables() -> Vec<Callable> {
    vec![
        // Shows nothing.
        Callable {
            name: "quiet".to_owned(),
            ret: None,
            params: vec![("u".to_owned(), Ty::I)],
            body: vec![],
        },
        Callable {
            name: "p".to_owned(),
            ret: None,
            params: vec![],
            body: vec![
                S::Dim("i".to_owned(), Ty::S),
                let_("i", lit_s("p")),
                S::Out(vec![var("i")]),
                cmd("FAIL"),
                S::Out(vec![var("i"), lit_s("after")]),
            ],
        },
        Callable {
            name: "f".to_owned(),
            ret: Some(Ty::I),
            params: vec![("x".to_owned(), Ty::I)],
            body: vec![
                let_("f", lit_i(6)),
                S::Out(vec![lit_s("f"), failf()]),
                S::Out(vec![lit_s("f after"), var("x")]),
                let_("f", add(var("f"), var("x"))),
            ],
        },
        // Nested call that fails within an inner function.
        Callable {
            name: "pn".to_owned(),
            ret: None,
            params: vec![],
            body: vec![
                S::Dim("l".to_owned(), Ty::I),
                let_("l", lit_i(8)),
                S::Out(vec![var("l"), call("f", vec![var("l")]), var("l")]),
                S::Out(vec![lit_s("pn"), var("l")]),
            ],
        },
    ]
}

fn finish(mut body: Block, h: usize) -> Block {
    let mut code = vars();
    code.append(&mut body);
    code.extend([
        S::Label("back".to_owned()),
        let_("n", add(var("n"), lit_i(1))),
        S::Out(vec![lit_s("back"), var("n"), var("i"), var("k"), idx("a", vec![lit_i(1)])]),
        lasterr(),
        S::If1(bin(Op::Gt, var("n"), lit_i(4)), Box::new(S::End(None)), None),
        cmd("FAIL"),
        lasterr(),
        S::End(None),
        S::Label("s".to_owned()),
        out(70),
        cmd("FAIL"),
        out(71),
        S::Return,
        S::Label("h".to_owned()),
    ]);
    code.extend(handler(h));
    code.extend([out(80), S::End(Some(lit_i(9))), S::Label("h2".to_owned()), S::Out(vec![
        lit_s("h2"),
        call("LASTERR", vec![]),
    ])]);
    code
}

fn program_section<F>(name: &'static str, size: u64, f: F) -> Section
where
    F: Fn(u64) -> Prog + Sync + Send + Copy + 'static,
{
    Section::new(
        name,
        size,
        move |i| f(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let c = f(i).build();
            let o = Opts { max_out: 80, ..Default::default() };
            explore(&c, &o, &|| format!("{}: {}", name, c.text.replace('\n', ": ")), cx)
        },
    )
}

fn main_section(max: u32, handlers: u64) -> Section {
    let n = seq_count(MAIN as u64, 1, max);
    program_section("main", n * handlers, move |i| {
        let v = mixed(&[handlers, n], i);
        let mut body = vec![];
        for (j, s) in seq_decode(MAIN as u64, 1, v[1] as u64).into_iter().enumerate() {
            body.extend(main_stmt(s, 10 * (j as i32 + 1)));
        }
        Prog { callables: std_callables(), main: finish(body, v[0]), ..Default::default() }
    })
}

/// Statements of a callable.
const CALLEE: usize = 14;
fn callee_stmt(n: usize, id: i32) -> S {
    match n {
        0 => out(id),
        1 => cmd("FAIL"),
        2 => S::OnErrGoto("h".to_owned()),
        3 => S::OnErrGoto("hc".to_owned()),
        4 => S::OnErrNext,
        5 => S::OnErrOff,
        6 => S::ExitCallable,
        7 => cmd("p"),
        8 => S::Out(vec![lit_i(id), call("f", vec![var("l")]), var("l")]),
        9 => S::Gosub("sc".to_owned()),
        10 => lasterr(),
        11 => cmd("q"),
        12 => S::Out(vec![lit_i(id), failf()]),
        _ => S::If(vec![(lit_b(true), vec![out(id), cmd("FAIL"), out(id + 1)])], None),
    }
}

const CALLS: usize = 7;
fn call_stmt(n: usize) -> Block {
    match n {
        0 => vec![cmd("c")],
        1 => vec![S::Out(vec![lit_s("r"), call("g", vec![]), lit_s("s")])],
        2 => vec![S::If(vec![(lit_b(true), vec![cmd("c"), out(60)])], None), out(61)],
        3 => vec![S::For("i".to_owned(), lit_i(1), lit_i(2), None, vec![cmd("c"), S::Out(vec![var("i")])])],
        4 => vec![S::LetIdx("a".to_owned(), vec![lit_i(1)], call("g", vec![]))],
        5 => vec![cmd("d"), out(62)],
        _ => vec![S::Gosub("sg".to_owned()), out(63)],
    }
}

fn callee_section(max: u32, handlers: u64) -> Section {
    let n = seq_count(CALLEE as u64, 1, max);
    let r: [u64; 5] = [handlers, 4, CALLS as u64, 2, n];
    program_section("callables", product(&r), move |i| {
        let v = mixed(&r, i);
        let mut body = vec![S::Dim("l".to_owned(), Ty::I), let_("l", lit_i(44))];
        for (j, s) in seq_decode(CALLEE as u64, 1, v[4] as u64).into_iter().enumerate() {
            body.push(callee_stmt(s, 10 * (j as i32 + 1)));
        }
        body.extend([
            S::Out(vec![lit_s("end of c"), var("l")]),
            S::ExitCallable,
            S::Label("hc".to_owned()),
            S::Out(vec![lit_s("hc"), var("l"), call("LASTERR", vec![])]),
        ]);
        if v[3] == 1 {
            body.push(cmd("FAIL"));
            body.push(out(64));
        }
        body.extend([
            S::ExitCallable,
            S::Label("sc".to_owned()),
            S::Out(vec![lit_s("sc"), var("l")]),
            cmd("FAIL"),
            S::Out(vec![lit_s("sc after"), var("l")]),
            S::Return,
        ]);
        let is_function = matches!(v[2], 1 | 4);
        let mut callables = std_callables();
        // Sets a handler in the main program and returns.
        callables.push(Callable {
            name: "q".to_owned(),
            ret: None,
            params: vec![],
            body: vec![S::OnErrGoto("h".to_owned()), out(65)],
        });
        if is_function {
            body.insert(2, let_("g", lit_i(3)));
            callables.push(Callable { name: "g".to_owned(), ret: Some(Ty::I), params: vec![], body });
        } else {
            callables.push(Callable { name: "c".to_owned(), ret: None, params: vec![], body });
            callables.push(Callable {
                name: "d".to_owned(),
                ret: None,
                params: vec![],
                body: vec![
                    S::Dim("l".to_owned(), Ty::S),
                    let_("l", lit_s("d")),
                    cmd("c"),
                    S::Out(vec![var("l")]),
                ],
            });
        }
        let mut main = match v[1] {
            0 => vec![],
            1 => vec![S::OnErrGoto("h".to_owned())],
            2 => vec![S::OnErrNext],
            _ => vec![S::OnErrGoto("hc".to_owned())],
        };
        main.extend(call_stmt(v[2]));
        main.push(lasterr());
        main.push(out(66));
        main.extend(call_stmt(v[2]));
        if v[2] == 6 {
            main.push(S::Goto("back".to_owned()));
            main.push(S::Label("sg".to_owned()));
            main.push(cmd("c"));
            main.push(S::Return);
        }
        Prog { callables, main: finish(main, v[0]), ..Default::default() }
    })
}

/// A failing statement at every place of nested constructs.
fn nest(kinds: &[usize], at: usize, fail: &S, id: &mut i32) -> Block {
    *id += 1;
    let n = *id;
    let Some((k, rest)) = kinds.split_first() else {
        return vec![out(n), fail.clone(), out(n + 100)];
    };
    let inner = nest(rest, at, fail, id);
    let it = format!("i{}", kinds.len());
    let s = match k {
        0 => S::If(vec![(lit_b(true), inner)], Some(vec![out(n + 200)])),
        1 => S::If(vec![(lit_b(false), vec![out(n + 200)]), (lit_b(true), inner)], None),
        2 => S::If(vec![(lit_b(false), vec![out(n + 200)])], Some(inner)),
        3 => S::Select(lit_i(1), vec![(vec![Guard::Val(lit_i(1))], inner)], Some(vec![out(n + 200)])),
        4 => S::Select(
            lit_i(3),
            vec![(vec![Guard::Val(lit_i(1))], vec![out(n + 200)])],
            Some(inner),
        ),
        5 => S::For(it, lit_i(1), lit_i(2), None, inner),
        6 => {
            let mut b = vec![let_(&it, add(var(&it), lit_i(1)))];
            b.extend(inner);
            S::While(bin(Op::Lt, var(&it), lit_i(2)), b)
        }
        7 => {
            let mut b = vec![let_(&it, add(var(&it), lit_i(1)))];
            b.extend(inner);
            S::Do(DoG::PostUntil(bin(Op::Ge, var(&it), lit_i(2))), b)
        }
        8 => {
            let mut b = inner;
            b.push(S::ExitDo);
            S::Do(DoG::Inf, b)
        }
        _ => {
            // The failing statement is also the last one of the body.
            let mut b = inner;
            b.push(fail.clone());
            S::If(vec![(lit_b(true), b)], Some(vec![out(n + 200)]))
        }
    };
    vec![s, out(n + 300)]
}

fn nested_section(depth: usize) -> Section {
    let mut r = vec![HANDLERS as u64, 3, FAILING as u64];
    r.extend(std::iter::repeat_n(10, depth));
    let size = product(&r);
    let f = move |i: u64| {
        let v = mixed(&r, i);
        let mut main = vec![];
        for k in 1..=depth {
            main.push(S::Dim(format!("i{}", k), Ty::I));
        }
        match v[1] {
            0 => (),
            1 => main.push(S::OnErrGoto("h".to_owned())),
            _ => main.push(S::OnErrNext),
        }
        let mut id = 1;
        main.extend(nest(&v[3..], 0, &failing(v[2], 1), &mut id));
        // The arrays of a failing DIM have different names but the same id.
        Prog { callables: std_callables(), main: finish(main, v[0]), ..Default::default() }
    };
    let g = f.clone();
    Section::new(
        "nested",
        size,
        move |i| g(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let p = f(i);
            let c = p.build();
            // Two declarations of the same array are rejected.
            if c.text.matches("DIM b1(").count() > 1 {
                cx.trivial += 1;
                return Ok(());
            }
            let o = Opts { max_out: 80, ..Default::default() };
            explore(&c, &o, &|| format!("nested: {}", c.text.replace('\n', ": ")), cx)
        },
    )
}

/// See the known findings.
const FIXED: &[(&str, &str)] = &[
    ("ON ERROR RESUME NEXT : x = 5 : x = 10 + 1 / 0 : OUT x", "5%, ."),
    ("ON ERROR RESUME NEXT : d# = 5 : d# = 1 + 1 / 0 : OUT d", "5.0#, ."),
    ("ON ERROR RESUME NEXT : i% = 5 : i% = 10000000000.0 : OUT i", "5%, ."),
];

// --- Failures far into a program -------------------------------------------------------------

const FAR: [usize; 16] = [0, 1, 78, 79, 127, 128, 198, 199, 200, 254, 255, 256, 257, 1000, 65_535, 65_536];

/// The statements that fail, and the place of the error from the start of each.
const FAR_STATEMENTS: [&str; 4] = ["FAIL", "OUT 1 / z", "OUT FAILF(0)", "a(9) = 1"];

fn far_section() -> Section {
    let r = [FAR.len() as u64, FAR.len() as u64, FAR_STATEMENTS.len() as u64, 3];
    Section::new(
        "far",
        crate::engine::product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            use crate::corex::{self, Stop};
            let v = mixed(&r, i);
            let (down, right, st, kind) = (FAR[v[0]], FAR[v[1]], FAR_STATEMENTS[v[2]], v[3]);
            // Gaps of empty lines and blanks, or of statements.
            if kind == 1 && (down > 1000 || right > 1000) {
                cx.trivial += 1;
                return Ok(());
            }
            let run = |down: usize, right: usize| {
                let mut p = "DIM a(2): z = 0: x = 0".to_owned();
                if kind == 2 {
                    p.push_str(": ON ERROR GOTO @h");
                }
                p.push('\n');
                let w = 1 + right.max(if kind == 1 { 7 * right } else { 0 });
                match kind {
                    1 => p.push_str(&"x = x + 1\n".repeat(down)),
                    _ => p.push_str(&"\n".repeat(down)),
                }
                match kind {
                    1 => p.push_str(&"x = 1: ".repeat(right)),
                    _ => p.push_str(&" ".repeat(right)),
                }
                p.push_str(st);
                p.push_str(": OUT 2\n");
                match kind {
                    2 => p.push_str("OUT 3\nEND\n@h\nOUT LASTERR\nEND 7\n"),
                    _ => p.push_str("OUT 3\n"),
                }
                let r = corex::with_env(|env| corex::run(env, &p, &[], Default::default(), 100));
                (r.stop, r.out, w)
            };
            let (base, out0, w0) = run(0, 0);
            let (got, out, w) = run(down, right);
            cx.step(2);
            cx.traces += 1;
            cx.state(&v);
            let ok = match (&base, &got) {
                (Stop::Err(p, m), Stop::Err(q, n)) if kind != 2 => {
                    m == n && q.line == p.line + down && q.col == p.col + w - w0 && out0 == out && p.line == 2
                }
                (Stop::End(7), Stop::End(7)) if kind == 2 => {
                    // The line is in the text.
                    let tail = |o: &[String]| match o {
                        [l] => l.split_once(':').map(|(n, m)| (n.parse::<usize>().unwrap_or(0), m.to_owned())),
                        _ => None,
                    };
                    match (tail(&out0), tail(&out)) {
                        (Some((a, m)), Some((b, n))) => a == 2 && b == a + down && m == n,
                        _ => false,
                    }
                }
                _ => false,
            };
            if ok {
                return Ok(());
            }
            Err(crate::engine::Failure::new(
                format!("far: {:?}", (down, right, st, kind)),
                format!("{:?} {:?} becomes {:?} {:?}", base, out0, got, out),
            ))
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        main_section(tier.pick(3, 4), HANDLERS as u64),
        callee_section(tier.pick(2, 3), tier.pick(4, HANDLERS as u64)),
        nested_section(tier.pick(2, 3)),
        far_section(),
        super::fixed::section(FIXED),
    ]
}
