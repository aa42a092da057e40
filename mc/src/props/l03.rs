//! L03: calls isolate scopes and never disturb the caller.

use super::fixed;
use crate::corex::{self, Stop};
use crate::engine::{
    CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode,
};
use crate::explore::{Opts, explore};
use crate::lang::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "L03",
        rule: "All typed expressions of up to 4 (quick) or 5 (thorough) nodes over local and shared \
               variables, array elements, operators, host functions and eight user-defined functions \
               (with and without parameters, pure, with side effects, without result, recursive), \
               placed in every position an expression can take, in callers of every kind with varying \
               numbers of locals; all small straight-line callables and main programs over the same \
               names with and without shared declarations; recursive callables with all combinations \
               of local state around the recursive call. Oracle: a direct interpreter with one \
               environment per activation.",
        assumptions: &["variables are declared before use on every path"],
        sections,
    }
}

/// The functions available to expressions.
fn library() -> Vec<Callable> {
    let f = |name: &str, ret: Ty, params: &[(&str, Ty)], body: Block| Callable {
        name: name.to_owned(),
        ret: Some(ret),
        params: params.iter().map(|(n, t)| ((*n).to_owned(), *t)).collect(),
        body,
    };
    let set = |n: &str, e: E| S::Let(n.to_owned(), e);
    let dim = |n: &str, t: Ty| S::Dim(n.to_owned(), t);
    vec![
        // Argument-less and pure.
        f("n0", Ty::I, &[], vec![set("n0", lit_i(5))]),
        f("s0", Ty::S, &[], vec![set("s0", lit_s("z"))]),
        // Argument-less with a side effect on a shared variable.
        f("c0", Ty::I, &[], vec![set("gi", add(var("gi"), lit_i(1))), set("c0", var("gi"))]),
        // No result on one path, with an early exit, and locals named like the caller's.
        f(
            "f1",
            Ty::I,
            &[("x", Ty::I)],
            vec![
                dim("li", Ty::I),
                dim("ls", Ty::S),
                set("li", add(var("x"), lit_i(100))),
                set("ls", lit_s("callee")),
                S::If1(bin(Op::Gt, var("x"), lit_i(6)), Box::new(S::ExitCallable), None),
                set("f1", bin(Op::Mod, var("li"), lit_i(7))),
                set("x", lit_i(-1)),
            ],
        ),
        // Two parameters, not symmetric, calls another one.
        f(
            "f2",
            Ty::I,
            &[("x", Ty::I), ("y", Ty::I)],
            vec![set(
                "f2",
                bin(Op::Sub, add(bin(Op::Mul, var("x"), lit_i(2)), call("n0", vec![])), var("y")),
            )],
        ),
        // Converts its parameter and its result.
        f(
            "fd",
            Ty::D,
            &[("x", Ty::D)],
            vec![
                dim("ld", Ty::D),
                set("ld", bin(Op::Mul, var("x"), lit_d(0.5))),
                set("fd", add(var("ld"), lit_i(1))),
                set("x", lit_i(7)),
            ],
        ),
        // Text.
        f(
            "fs",
            Ty::S,
            &[("x", Ty::S), ("y", Ty::I)],
            vec![
                dim("ls", Ty::S),
                set("ls", lit_s("<")),
                S::If1(
                    bin(Op::Gt, var("y"), lit_i(2)),
                    Box::new(set("ls", add(lit_s("["), var("x")))),
                    None,
                ),
                set("x", add(var("x"), lit_s("!"))),
                set("fs", add(var("ls"), var("x"))),
            ],
        ),
        // Recursive.
        f(
            "fr",
            Ty::I,
            &[("n", Ty::I)],
            vec![
                dim("li", Ty::I),
                set("li", var("n")),
                S::If(
                    vec![(
                        bin(Op::Gt, var("n"), lit_i(0)),
                        vec![S::If1(
                            bin(Op::Lt, var("n"), lit_i(6)),
                            Box::new(set(
                                "fr",
                                add(
                                    bin(
                                        Op::Mul,
                                        call("fr", vec![bin(Op::Sub, var("n"), lit_i(1))]),
                                        lit_i(2),
                                    ),
                                    var("li"),
                                ),
                            )),
                            None,
                        )],
                    )],
                    Some(vec![set("fr", lit_i(1))]),
                ),
            ],
        ),
        f(
            "fb",
            Ty::B,
            &[("x", Ty::I), ("y", Ty::S)],
            vec![set(
                "fb",
                bin(
                    Op::And,
                    bin(Op::Lt, var("x"), lit_i(4)),
                    bin(Op::Ne, var("y"), lit_s("q")),
                ),
            )],
        ),
    ]
}

struct Gen {
    memo: HashMap<(Ty, usize), Vec<E>>,
}

impl Gen {
    fn all(&mut self, t: Ty, n: usize) -> Vec<E> {
        if n == 0 {
            return vec![];
        }
        if let Some(v) = self.memo.get(&(t, n)) {
            return v.clone();
        }
        let mut v = vec![];
        if n == 1 {
            match t {
                Ty::I => {
                    v.extend([lit_i(3), var("li"), var("gi"), call("n0", vec![]), call("c0", vec![])])
                }
                Ty::D => v.extend([lit_d(1.5), var("ld")]),
                Ty::S => v.extend([lit_s("q"), var("ls"), var("gs"), call("s0", vec![])]),
                Ty::B => v.extend([var("lb")]),
            }
        } else {
            let mut un = |g: &mut Gen, at: Ty, f: &dyn Fn(E) -> E| {
                for e in g.all(at, n - 1) {
                    v.push(f(e));
                }
            };
            match t {
                Ty::I => {
                    un(self, Ty::I, &|e| call("f1", vec![e]));
                    un(self, Ty::D, &|e| call("f1", vec![e]));
                    un(self, Ty::I, &|e| idx("a", vec![lit_i(1), e]));
                    un(self, Ty::I, &|e| call("TI", vec![e]));
                    un(self, Ty::I, &|e| E::Un(Uop::Neg, 0, Box::new(e)));
                    un(self, Ty::I, &|e| call("fr", vec![e]));
                }
                Ty::D => {
                    un(self, Ty::D, &|e| call("fd", vec![e]));
                    un(self, Ty::I, &|e| call("fd", vec![e]));
                    un(self, Ty::D, &|e| call("TD", vec![e]));
                }
                Ty::S => un(self, Ty::S, &|e| call("TS", vec![e])),
                Ty::B => {
                    un(self, Ty::B, &|e| E::Un(Uop::Not, 0, Box::new(e)));
                    un(self, Ty::B, &|e| call("TB", vec![e]));
                }
            }
            for k in 1..n - 1 {
                let mut two = |g: &mut Gen, at: Ty, bt: Ty, f: &dyn Fn(E, E) -> E| {
                    let bs = g.all(bt, n - 1 - k);
                    for a in g.all(at, k) {
                        for b in &bs {
                            v.push(f(a.clone(), b.clone()));
                        }
                    }
                };
                match t {
                    Ty::I => {
                        two(self, Ty::I, Ty::I, &add);
                        two(self, Ty::I, Ty::I, &|a, b| call("f2", vec![a, b]));
                    }
                    Ty::D => {
                        two(self, Ty::D, Ty::I, &|a, b| bin(Op::Mul, a, b));
                        two(self, Ty::I, Ty::D, &|a, b| bin(Op::Sub, a, b));
                    }
                    Ty::S => {
                        two(self, Ty::S, Ty::S, &add);
                        two(self, Ty::S, Ty::I, &|a, b| call("fs", vec![a, b]));
                        two(self, Ty::S, Ty::D, &|a, b| call("fs", vec![a, b]));
                    }
                    Ty::B => {
                        two(self, Ty::I, Ty::S, &|a, b| call("fb", vec![a, b]));
                        two(self, Ty::I, Ty::I, &|a, b| bin(Op::Lt, a, b));
                        two(self, Ty::S, Ty::S, &|a, b| bin(Op::Eq, a, b));
                        two(self, Ty::B, Ty::B, &|a, b| bin(Op::Xor, a, b));
                    }
                }
            }
        }
        self.memo.insert((t, n), v.clone());
        v
    }
}

const TYS: [Ty; 4] = [Ty::I, Ty::D, Ty::S, Ty::B];

/// All expressions of up to `n` nodes.
fn exprs(n: usize) -> Vec<(Ty, E)> {
    let mut g = Gen { memo: HashMap::new() };
    let mut v = vec![];
    for k in 1..=n {
        for t in TYS {
            v.extend(g.all(t, k).into_iter().map(|e| (t, e)));
        }
    }
    v
}

const POSITIONS: usize = 13;

fn local_of(t: Ty) -> &'static str {
    match t {
        Ty::I => "li",
        Ty::D => "ld",
        Ty::S => "ls",
        Ty::B => "lb",
    }
}

/// Statements that use the expression in a position; None if the type does not fit there.
fn place(pos: usize, t: Ty, e: &E) -> Option<Block> {
    let x = e.clone();
    let o = |s: &str| S::Out(vec![lit_s(s)]);
    Some(match pos {
        0 => vec![S::Out(vec![x])],
        1 => vec![S::Out(vec![var("li"), x, var("li"), var("gi")])],
        2 => vec![S::Let(local_of(t).to_owned(), x)],
        3 if t.num() => vec![S::LetIdx("a".to_owned(), vec![lit_i(0), lit_i(2)], x)],
        4 if t.num() => vec![S::LetIdx("a".to_owned(), vec![lit_i(1), x], lit_i(77))],
        5 if t.num() => vec![S::Cmd("pi".to_owned(), vec![x, lit_i(8), var("li")])],
        5 if t == Ty::S => vec![S::Cmd("ps".to_owned(), vec![var("li"), x])],
        6 if t == Ty::B => vec![
            S::If(vec![(x.clone(), vec![o("t")])], Some(vec![o("f")])),
            S::If1(x, Box::new(o("t1")), Some(Box::new(o("f1")))),
        ],
        6 if t.num() => vec![S::If(
            vec![(bin(Op::Gt, x, lit_i(4)), vec![o("t")])],
            Some(vec![o("f"), S::Out(vec![var("li")])]),
        )],
        7 => vec![S::Select(
            x,
            vec![
                (vec![Guard::Val(var(local_of(t)))], vec![o("same")]),
                (vec![Guard::Is(Op::Ne, E::Lit(t.default()))], vec![o("set")]),
            ],
            Some(vec![o("else")]),
        )],
        8 => vec![S::Select(
            var(local_of(t)),
            vec![(vec![Guard::Val(x)], vec![o("same")])],
            Some(vec![o("else")]),
        )],
        9 if t == Ty::I => vec![S::For(
            "i".to_owned(),
            x,
            add(var("i"), lit_i(0)),
            None,
            vec![S::Out(vec![var("i")]), S::ExitFor],
        )],
        10 if t.num() => vec![S::For(
            "i".to_owned(),
            lit_i(1),
            x,
            None,
            vec![S::Out(vec![var("i")]), S::If1(
                bin(Op::Ge, var("i"), lit_i(2)),
                Box::new(S::ExitFor),
                None,
            )],
        )],
        11 if t == Ty::B => vec![S::Do(DoG::PreWhile(x), vec![o("in"), S::ExitDo])],
        12 => vec![S::Let("r".to_owned(), lit_i(0)), S::Out(vec![call(
            match t {
                Ty::I => "TI",
                Ty::D => "TI",
                Ty::S => "TS",
                Ty::B => "TB",
            },
            vec![x],
        )])],
        _ => return None,
    })
}

const CALLERS: usize = 4;

fn caller_prog(kind: usize, locals: usize, t: Ty, stmts: Block) -> Prog {
    let mut p = Prog {
        shared: vec![("gi".to_owned(), Ty::I), ("gs".to_owned(), Ty::S)],
        callables: library(),
        ..Default::default()
    };
    p.callables.push(Callable {
        name: "pi".to_owned(),
        ret: None,
        params: vec![("u".to_owned(), Ty::I), ("v".to_owned(), Ty::D), ("w".to_owned(), Ty::I)],
        body: vec![
            S::Out(vec![var("u"), var("v"), var("w")]),
            S::Let("w".to_owned(), lit_i(-9)),
            S::Let("u".to_owned(), lit_i(-8)),
        ],
    });
    p.callables.push(Callable {
        name: "ps".to_owned(),
        ret: None,
        params: vec![("u".to_owned(), Ty::D), ("v".to_owned(), Ty::S)],
        body: vec![S::Out(vec![var("u"), var("v")]), S::Let("v".to_owned(), lit_s("changed"))],
    });
    let mut code = vec![];
    // Locals that only take space.
    for i in 0..locals {
        let n = format!("z{}", i);
        code.push(S::Dim(n.clone(), TYS[i % 4]));
    }
    for (n, t) in [("li", Ty::I), ("ld", Ty::D), ("ls", Ty::S), ("lb", Ty::B), ("i", Ty::I), ("r", Ty::I)]
    {
        code.push(S::Dim(n.to_owned(), t));
    }
    code.push(S::DimArr("a".to_owned(), Ty::I, vec![lit_i(2), lit_i(9)]));
    for i in 0..9 {
        code.push(S::LetIdx("a".to_owned(), vec![lit_i(1), lit_i(i)], lit_i((i * 2 + 1) % 9)));
    }
    let set = |n: &str, e: E| S::Let(n.to_owned(), e);
    code.extend([
        set("li", lit_i(2)),
        set("ld", lit_d(2.5)),
        set("ls", lit_s("k")),
        set("lb", lit_b(true)),
        set("gi", lit_i(1)),
        set("gs", lit_s("g")),
    ]);
    code.extend(stmts);
    code.push(S::Out(vec![
        var("li"),
        var("ld"),
        var("ls"),
        var("lb"),
        var("gi"),
        var("gs"),
        idx("a", vec![lit_i(0), lit_i(2)]),
        idx("a", vec![lit_i(1), lit_i(3)]),
    ]));
    let _ = t;
    match kind {
        0 => p.main = code,
        1 => {
            p.callables.push(Callable {
                name: "caller".to_owned(),
                ret: None,
                params: vec![("m".to_owned(), Ty::D), ("n".to_owned(), Ty::S)],
                body: code,
            });
            p.main = vec![
                S::Dim("li".to_owned(), Ty::S),
                S::Let("li".to_owned(), lit_s("main")),
                S::Cmd("caller".to_owned(), vec![lit_i(4), lit_s("n")]),
                S::Out(vec![var("li"), var("gi")]),
            ];
        }
        2 => {
            code.push(S::Let("caller".to_owned(), var("li")));
            p.callables.push(Callable {
                name: "caller".to_owned(),
                ret: Some(Ty::D),
                params: vec![],
                body: code,
            });
            p.main = vec![
                S::Dim("ld".to_owned(), Ty::D),
                S::Let("ld".to_owned(), lit_d(9.25)),
                S::Out(vec![bin(Op::Add, var("ld"), call("caller", vec![])), var("ld")]),
            ];
            p.callables_last = true;
        }
        _ => {
            // Calls itself once before doing the work.
            let mut body = vec![S::If(
                vec![(
                    bin(Op::Gt, var("m"), lit_i(0)),
                    vec![S::Cmd("caller".to_owned(), vec![bin(Op::Sub, var("m"), lit_i(1))])],
                )],
                None,
            )];
            body.extend(code);
            body.push(S::Out(vec![var("m")]));
            p.callables.push(Callable {
                name: "caller".to_owned(),
                ret: None,
                params: vec![("m".to_owned(), Ty::I)],
                body,
            });
            p.main = vec![S::Cmd("caller".to_owned(), vec![lit_i(1)])];
        }
    }
    p
}

fn calls_section(name: &'static str, nodes: usize, locals: &'static [usize]) -> Section {
    let es = Arc::new(exprs(nodes));
    let radices = [POSITIONS as u64, CALLERS as u64, locals.len() as u64, es.len() as u64];
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let (t, e) = &es[v[3]];
        let stmts = place(v[0], *t, e)?;
        Some(caller_prog(v[1], locals[v[2]], *t, stmts))
    };
    let mk2 = mk.clone();
    Section::new(
        name,
        product(&radices),
        move |i| mk2(i).map(|p| p.build().text.replace('\n', ": ")).unwrap_or_default(),
        move |i, cx| {
            let Some(p) = mk(i) else {
                cx.trivial += 1;
                return Ok(());
            };
            let c = p.build();
            let o = Opts { vars: vec!["gi", "gs"], ..Default::default() };
            explore(&c, &o, &|| format!("{}: {}", name, c.text.replace('\n', ": ")), cx)
        },
    )
}

// ---- Names and scopes. ----

const CALLEE_STMTS: usize = 9;
const MAIN_STMTS: usize = 10;

fn scope_stmt(n: usize) -> S {
    let x = || var("x");
    let y = || var("y");
    let set = |n: &str, e: E| S::Let(n.to_owned(), e);
    match n {
        0 => set("x", lit_i(1)),
        1 => set("y", x()),
        2 => S::Out(vec![x()]),
        3 => S::Dim("x".to_owned(), Ty::D),
        4 => set("x", add(x(), lit_d(1.5))),
        5 => set("y", lit_s("t")),
        6 => S::Out(vec![y()]),
        7 => S::Dim("y".to_owned(), Ty::S),
        8 => set("x", bin(Op::Mul, x(), lit_i(3))),
        _ => S::Cmd("p".to_owned(), vec![]),
    }
}

/// Checks the names and types of a scope of straight-line code.  Returns None if the code is not
/// valid, or false if the language does not say what it means.
fn check_scope(code: &[S], shared: &HashMap<String, Ty>, init: &[(&str, Ty)]) -> Option<bool> {
    let mut env: HashMap<String, Ty> = init.iter().map(|(n, t)| ((*n).to_owned(), *t)).collect();
    fn ty(e: &E, env: &HashMap<String, Ty>, shared: &HashMap<String, Ty>) -> Option<Ty> {
        match e {
            E::Lit(v) => Some(v.ty()),
            E::Var(n) => env.get(n).or_else(|| shared.get(n)).copied(),
            E::Bin(op, _, a, b) => bin_ty(*op, ty(a, env, shared)?, ty(b, env, shared)?),
            _ => unreachable!(),
        }
    }
    for s in code {
        match s {
            S::Let(n, e) => {
                if !env.contains_key(n) && !shared.contains_key(n) && mentions(e, n) {
                    // Defines a variable in terms of itself.
                    return Some(false);
                }
                let t = ty(e, &env, shared)?;
                match env.get(n).or_else(|| shared.get(n)) {
                    Some(to) => {
                        if !castable(t, *to) {
                            return None;
                        }
                    }
                    None => {
                        env.insert(n.clone(), t);
                    }
                }
            }
            S::Out(es) => {
                for e in es {
                    ty(e, &env, shared)?;
                }
            }
            S::Dim(n, t) => {
                // A local may shadow a shared variable.
                if env.contains_key(n) {
                    return None;
                }
                env.insert(n.clone(), *t);
            }
            S::Cmd(..) => (),
            _ => unreachable!(),
        }
    }
    Some(true)
}

fn mentions(e: &E, n: &str) -> bool {
    match e {
        E::Var(m) => m == n,
        E::Bin(_, _, a, b) => mentions(a, n) || mentions(b, n),
        _ => false,
    }
}

fn scopes_section(callee_max: u32, main_max: u32) -> Section {
    let nc = seq_count(CALLEE_STMTS as u64, 0, callee_max);
    let nm = seq_count(MAIN_STMTS as u64, 1, main_max);
    let radices = [4, nc, nm];
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let body: Block =
            seq_decode(CALLEE_STMTS as u64, 0, v[1] as u64).into_iter().map(scope_stmt).collect();
        let main: Block =
            seq_decode(MAIN_STMTS as u64, 1, v[2] as u64).into_iter().map(scope_stmt).collect();
        let params = if v[0] == 3 { vec![("x".to_owned(), Ty::D)] } else { vec![] };
        let mut main = main;
        if v[0] == 3 {
            for s in &mut main {
                if let S::Cmd(_, args) = s {
                    args.push(lit_i(4));
                }
            }
        }
        Prog {
            shared: match v[0] {
                1 => vec![("x".to_owned(), Ty::I)],
                2 => vec![("x".to_owned(), Ty::D), ("y".to_owned(), Ty::D)],
                _ => vec![],
            },
            callables: vec![Callable { name: "p".to_owned(), ret: None, params, body }],
            main,
            ..Default::default()
        }
    };
    Section::new(
        "scopes",
        product(&radices),
        move |i| mk(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let p = mk(i);
            let shared: HashMap<String, Ty> = p.shared.iter().cloned().collect();
            let params: Vec<(&str, Ty)> =
                p.callables[0].params.iter().map(|(n, t)| (n.as_str(), *t)).collect();
            let callee = check_scope(&p.callables[0].body, &shared, &params);
            let main = check_scope(&p.main, &shared, &[]);
            if callee == Some(false) || main == Some(false) {
                cx.trivial += 1;
                return Ok(());
            }
            let valid = callee.is_some() && main.is_some();
            let c = p.build();
            let key = || format!("scopes: {}", c.text.replace('\n', ": "));
            if valid {
                let o = Opts { vars: vec!["x", "y"], ..Default::default() };
                return explore(&c, &o, &key, cx);
            }
            cx.trivial += 1;
            expect_rejected(&c.text, &key, cx)
        },
    )
}

fn expect_rejected(text: &str, key: &dyn Fn() -> String, cx: &mut Cx) -> CaseResult {
    cx.step(1);
    corex::with_env(|env| {
        let r = corex::run(env, text, &[], Default::default(), 10);
        match r.stop {
            Stop::Compile(..) => Ok(()),
            s => Err(Failure::new(key(), format!("{}\nexpected a rejection, got {:?}", text, s))),
        }
    })
}

// ---- Recursion with local state. ----

fn recursion_section(depth: i32) -> Section {
    // Which pieces of local state exist, how the call happens, and what happens after it.
    let radices = [2, 2, 2, 2, 5, 4, depth as u64 + 1, 2];
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let set = |n: &str, e: E| S::Let(n.to_owned(), e);
        let n1 = || bin(Op::Sub, var("n"), lit_i(1));
        let mut body = vec![S::Dim("t".to_owned(), Ty::I)];
        if v[0] == 1 {
            body.push(S::Dim("l".to_owned(), Ty::I));
            body.push(set("l", bin(Op::Mul, var("n"), lit_i(10))));
        }
        if v[1] == 1 {
            body.push(S::Dim("s".to_owned(), Ty::S));
            body.push(set("s", add(var("m"), lit_s("x"))));
        }
        if v[2] == 1 {
            body.push(S::DimArr("a".to_owned(), Ty::D, vec![add(var("n"), lit_i(1)), lit_i(2)]));
            body.push(S::LetIdx("a".to_owned(), vec![var("n"), lit_i(1)], var("n")));
        }
        let m = || if v[1] == 1 { var("s") } else { var("m") };
        let rec = || call("r", vec![n1(), m()]);
        let other = || call("q", vec![n1(), m()]);
        let go = match v[4] {
            0 => vec![set("t", rec())],
            1 => vec![set("r", add(rec(), var("n")))],
            2 => vec![set("t", add(rec(), rec()))],
            3 => vec![S::Out(vec![var("n"), rec(), var("n")])],
            _ => vec![set("t", other())],
        };
        body.push(S::If(vec![(bin(Op::Gt, var("n"), lit_i(0)), go)], None));
        if v[3] == 1 {
            body.push(set("g", add(var("g"), lit_i(1))));
        }
        let mut o = vec![var("n"), var("t"), var("m"), var("g")];
        if v[0] == 1 {
            o.push(var("l"));
        }
        if v[1] == 1 {
            o.push(var("s"));
        }
        if v[2] == 1 {
            o.push(idx("a", vec![var("n"), lit_i(1)]));
            o.push(idx("a", vec![lit_i(0), lit_i(0)]));
        }
        body.push(S::Out(o));
        match v[5] {
            0 => (),
            1 => body.push(set("r", add(var("t"), lit_i(1)))),
            2 => body.push(S::If1(
                bin(Op::Eq, bin(Op::Mod, var("n"), lit_i(2)), lit_i(0)),
                Box::new(S::ExitCallable),
                None,
            )),
            _ => {
                body.push(set("n", lit_i(99)));
                body.push(set("r", add(var("n"), var("t"))));
            }
        }
        let params = vec![("n".to_owned(), Ty::I), ("m".to_owned(), Ty::S)];
        let r = Callable { name: "r".to_owned(), ret: Some(Ty::I), params: params.clone(), body };
        let q = Callable {
            name: "q".to_owned(),
            ret: Some(Ty::I),
            params,
            body: vec![
                S::Dim("l".to_owned(), Ty::S),
                set("l", add(var("m"), lit_s("q"))),
                set("q", bin(Op::Mul, call("r", vec![var("n"), var("l")]), lit_i(2))),
                S::Out(vec![var("l"), var("n")]),
            ],
        };
        let start = call("r", vec![lit_i(v[6] as i32), lit_s("")]);
        let main = if v[7] == 0 {
            vec![S::Out(vec![start]), S::Out(vec![var("g")])]
        } else {
            vec![
                S::Dim("n".to_owned(), Ty::S),
                set("n", lit_s("main")),
                S::Dim("t".to_owned(), Ty::D),
                set("t", add(start, lit_d(0.5))),
                S::Out(vec![var("n"), var("t"), var("g")]),
            ]
        };
        Prog {
            shared: vec![("g".to_owned(), Ty::I)],
            // Two functions that call each other need forward declarations.
            callables: vec![r, q],
            main,
            callables_last: true,
            ..Default::default()
        }
    };
    Section::new(
        "recursion",
        product(&radices),
        move |i| mk(i).build().text.replace('\n', ": "),
        move |i, cx| {
            let c = mk(i).build();
            let o = Opts { vars: vec!["g"], max_out: 300, fuel: 20_000, ..Default::default() };
            explore(&c, &o, &|| format!("recursion: {}", c.text.replace('\n', ": ")), cx)
        },
    )
}

// ---- Variables whose assignments are skipped, repeated or come after other uses of registers. ----

const BODY_STMTS: usize = 12;
const LOOPS: usize = 7;
const PLACES: usize = 4;

/// Statement `n` of a body, given the variables that the text has defined so far.  None if the
/// statement is not possible there.
fn body_stmt(n: usize, defined: &mut Vec<&'static str>) -> Option<S> {
    let set = |n: &str, e: E| S::Let(n.to_owned(), e);
    let i = || var("i");
    let def = |d: &mut Vec<&'static str>, n: &'static str| {
        if !d.contains(&n) {
            d.push(n);
        }
    };
    Some(match n {
        0 => {
            def(defined, "x");
            set("x", add(bin(Op::Mul, i(), lit_i(10)), lit_i(7)))
        }
        1 => {
            def(defined, "y");
            set("y", add(bin(Op::Mul, i(), lit_d(1.5)), lit_d(0.25)))
        }
        2 => {
            def(defined, "z");
            set("z", add(call("f", vec![i()]), lit_i(1)))
        }
        3 => {
            def(defined, "w");
            S::If1(bin(Op::Eq, i(), lit_i(0)), Box::new(set("w", lit_i(42))), None)
        }
        4 => {
            let mut v = vec![add(lit_i(100), bin(Op::Mul, i(), lit_i(2)))];
            v.extend(defined.iter().map(|n| var(n)));
            S::Out(v)
        }
        5 => {
            if !defined.contains(&"x") || !defined.contains(&"y") {
                return None;
            }
            set("y", add(var("y"), add(var("x"), lit_i(1))))
        }
        6 => S::Cmd("p".to_owned(), vec![add(i(), lit_i(1))]),
        7 => {
            def(defined, "v");
            def(defined, "u");
            S::If(
                vec![(bin(Op::Gt, i(), lit_i(0)), vec![set("v", bin(Op::Mul, i(), lit_i(5)))])],
                Some(vec![set("u", lit_b(true))]),
            )
        }
        8 => {
            if defined.contains(&"d") {
                return None;
            }
            def(defined, "d");
            S::Dim("d".to_owned(), Ty::D)
        }
        9 => set("s", add(var("s"), lit_s("a"))),
        10 => {
            if !defined.contains(&"d") {
                return None;
            }
            set("d", add(var("d"), add(i(), lit_d(0.5))))
        }
        _ => {
            def(defined, "t");
            set("t", add(add(var("s"), lit_s("-")), var("s")))
        }
    })
}

/// The code of a body under a loop and what it defines.
fn looped(kind: usize, body: &[usize]) -> Option<Block> {
    let set = |n: &str, e: E| S::Let(n.to_owned(), e);
    let mut code = vec![S::Hidden("s".to_owned(), Ty::S)];
    for n in ["x", "z", "w", "v"] {
        code.push(S::Hidden(n.to_owned(), Ty::I));
    }
    for n in ["y", "d"] {
        code.push(S::Hidden(n.to_owned(), Ty::D));
    }
    code.push(S::Hidden("u".to_owned(), Ty::B));
    code.push(S::Hidden("t".to_owned(), Ty::S));
    code.push(set("s", lit_s("")));
    let mut defined = vec!["s"];
    let before_i = kind == 2;
    if !before_i {
        code.push(set("i", lit_i(0)));
    }
    let mut b = vec![];
    for n in body {
        b.push(body_stmt(*n, &mut defined)?);
    }
    let step = set("i", add(var("i"), lit_i(1)));
    let cond = bin(Op::Lt, var("i"), lit_i(3));
    let mut after = vec![];
    match kind {
        0 => {
            b.push(step);
            code.push(S::While(cond, b));
        }
        1 => {
            b.push(step);
            code.push(S::Do(DoG::PostUntil(bin(Op::Ge, var("i"), lit_i(3))), b));
        }
        2 => code.push(S::For("i".to_owned(), lit_i(0), lit_i(2), None, b)),
        3 => {
            code.push(S::Label("again".to_owned()));
            code.extend(b);
            code.push(step);
            code.push(S::If1(cond, Box::new(S::Goto("again".to_owned())), None));
        }
        4 => {
            // A subroutine after the code that calls it and uses what it defines: the variables
            // come in the text before their uses only if the subroutine is jumped over.
            code.push(S::Goto("start".to_owned()));
            code.push(S::Label("sr".to_owned()));
            code.extend(b);
            code.push(step);
            code.push(S::Return);
            code.push(S::Label("start".to_owned()));
            code.push(S::Gosub("sr".to_owned()));
            code.push(S::Out(vec![var("i"), add(lit_i(1), lit_i(2))]));
            code.push(S::Gosub("sr".to_owned()));
        }
        5 => {
            // Not executed at all.  Strings that were never assigned are a known finding.
            if defined.contains(&"t") {
                return None;
            }
            code.push(S::If(vec![(bin(Op::Eq, var("i"), lit_i(1)), b)], None));
        }
        _ => {
            // Skipped by a jump, then executed.
            if defined.contains(&"t") {
                return None;
            }
            code.push(S::Goto("over".to_owned()));
            code.push(S::Label("back".to_owned()));
            code.extend(b);
            code.push(S::Label("over".to_owned()));
            after.push(step);
            after.push(S::If1(cond, Box::new(S::Goto("back".to_owned())), None));
        }
    }
    let mut v = vec![add(var("i"), lit_i(1000))];
    v.extend(defined.iter().map(|n| var(n)));
    code.push(S::Out(v.clone()));
    code.extend(after);
    code.push(S::Out(v));
    Some(code)
}

fn vars_section(max: u32) -> Section {
    let n = seq_count(BODY_STMTS as u64, 1, max);
    let radices = [PLACES as u64, LOOPS as u64, n];
    let mk = move |i: u64| {
        let v = mixed(&radices, i);
        let body = seq_decode(BODY_STMTS as u64, 1, v[2] as u64);
        let code = looped(v[1], &body)?;
        let set = |n: &str, e: E| S::Let(n.to_owned(), e);
        // A function and a subroutine whose own variables are not always assigned.
        let own = |ret: Option<&str>| {
            let mut b = vec![
                S::Hidden("k".to_owned(), Ty::I),
                S::Hidden("h".to_owned(), Ty::D),
                S::If1(bin(Op::Eq, var("n"), lit_i(1)), Box::new(set("k", lit_i(77))), None),
                S::Out(vec![add(lit_i(3), var("n")), var("k")]),
                S::If1(bin(Op::Gt, var("n"), lit_i(1)), Box::new(set("h", lit_d(2.5))), None),
                S::Out(vec![var("k"), var("h")]),
            ];
            if let Some(r) = ret {
                b.push(set(r, add(bin(Op::Mul, var("n"), lit_i(3)), var("k"))));
            }
            b
        };
        let params = vec![("n".to_owned(), Ty::I)];
        let mut p = Prog {
            callables: vec![
                Callable {
                    name: "f".to_owned(),
                    ret: Some(Ty::I),
                    params: params.clone(),
                    body: own(Some("f")),
                },
                Callable { name: "p".to_owned(), ret: None, params, body: own(None) },
            ],
            ..Default::default()
        };
        match v[0] {
            0 => p.main = code,
            1 => {
                p.callables.push(Callable {
                    name: "m".to_owned(),
                    ret: None,
                    params: vec![],
                    body: code,
                });
                let go = || S::Cmd("m".to_owned(), vec![]);
                p.main = vec![go(), S::Out(vec![lit_i(1), lit_i(2), lit_i(3)]), go()];
            }
            2 => {
                let mut code = code;
                code.push(set("m", add(var("a"), var("i"))));
                p.callables.push(Callable {
                    name: "m".to_owned(),
                    ret: Some(Ty::I),
                    params: vec![("a".to_owned(), Ty::I)],
                    body: code,
                });
                let c = |n: i32| call("m", vec![lit_i(n)]);
                p.main = vec![
                    set("q", lit_i(5)),
                    S::Out(vec![var("q"), c(1), add(c(2), add(lit_i(1), c(3))), var("q")]),
                ];
            }
            _ => {
                // Main code whose variables follow a few others.
                let mut main = vec![set("l1", lit_i(11)), set("l2", lit_s("b")), set("l3", lit_d(0.5))];
                main.extend(code);
                main.push(S::Out(vec![var("l1"), var("l2"), var("l3")]));
                p.main = main;
            }
        }
        Some(p)
    };
    Section::new(
        "variables",
        product(&radices),
        move |i| mk(i).map(|p| p.build().text.replace('\n', ": ")).unwrap_or_default(),
        move |i, cx| {
            let Some(p) = mk(i) else {
                cx.trivial += 1;
                return Ok(());
            };
            let c = p.build();
            let o = Opts { max_out: 400, fuel: 20_000, ..Default::default() };
            explore(&c, &o, &|| format!("variables: {}", c.text.replace('\n', ": ")), cx)
        },
    )
}

/// See the known findings.
const FIXED: &[(&str, &str)] = &[
    ("IF FALSE THEN s$ = \"x\" : OUT s$; 3", "$ 3%, ."),
    ("OUT \"a\"; \"b\" : DIM SHARED k(3) AS INTEGER : s$ = s$ + \"c\" : OUT s", "a$ b$, c$, ."),
    ("OUT 41; 17; \"x\" : x = x + 1 : OUT x", "41% 17% x$, 1%, ."),
    ("i = 0 : DO WHILE i < 3 : OUT 7; i : IF i = 0 THEN y = 42 : OUT y : i = i + 1 : LOOP", "7% 0%, 42%, 7% 1%, 42%, 7% 2%, 42%, ."),
    ("DIM SHARED g : FUNCTION rg(x%) : rg = g : END FUNCTION : g = 5 : g = 1 + rg(0) : OUT g", "6%, ."),
];

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        calls_section("calls", tier.pick(4, 5), tier.pick(&[0], &[0, 1, 3])),
        scopes_section(tier.pick(2, 3), tier.pick(4, 4)),
        recursion_section(tier.pick(3, 5)),
        vars_section(tier.pick(3, 4)),
        fixed::section(FIXED),
    ]
}
