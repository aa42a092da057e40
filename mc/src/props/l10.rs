//! L10: running out of a limited resource is an error, never corruption.

use crate::corex::{self, Run, Stop, with_env};
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use endbasic_core::*;

pub fn property() -> Property {
    Property {
        id: "L10",
        rule: "Call depth: all nests of up to 5 (thorough: 6) SUB, FUNCTION, argument and GOSUB calls under every \
               limit from 0 up to the depth and three handler modes; recursion under every limit up to 40. Heap: \
               all programs of up to 3 (thorough: 4) operations under every limit up to what they need, with and \
               without a handler. Registers: every count of locals, shared variables, parameters, arguments, \
               dimensions and pending operands across the 8-bit boundaries, and grids of two of them. Code \
               size: every kind of jump with its distance at every value around 2^16, every kind of constant \
               around 2^16 of them.",
        assumptions: &["the limit on calls counts calls and GOSUBs under way", "memory itself does not run out"],
        sections,
    }
}

fn limits(max_call_stack: usize, heap: u32) -> Limits {
    Limits {
        max_call_stack,
        max_heap_entries: U24::try_from(heap).unwrap(),
    }
}

const UNLIMITED: (usize, u32) = (100_000, 1 << 23);

fn run(text: &str, l: (usize, u32)) -> Run {
    with_env(|env| corex::run(env, text, &[], limits(l.0, l.1), 1_000_000))
}

fn show(s: &Stop) -> String {
    match s {
        Stop::Compile(p, m) => format!("compile {}: {}", p, m),
        Stop::Err(p, m) => format!("error {}: {}", p, m),
        s => format!("{:?}", s),
    }
}

// --- Call depth ------------------------------------------------------------------------------

/// A chain of calls; level `k` is entered with a call of kind `kinds[k]`.
struct Chain {
    text: String,
    /// Line of the call that enters each level.
    call_line: Vec<usize>,
}

fn chain(kinds: &[usize], mode: usize) -> Chain {
    let mut lines: Vec<String> = vec![];
    let mut call_line = vec![0; kinds.len()];
    // A GOSUB stays in the routine it is in, and each routine has its own labels.
    // Routines: 0 is the main program, and another one begins with each call.
    let mut bodies: Vec<Vec<(String, Option<usize>)>> = vec![vec![]];
    let mut subs: Vec<Vec<(String, Option<usize>)>> = vec![vec![]];
    let mut headers = vec![String::new()];
    for (k, kind) in kinds.iter().enumerate() {
        if *kind != 3 {
            bodies.push(vec![]);
            subs.push(vec![]);
            headers.push(match kind {
                0 => format!("SUB s{}(x)", k),
                _ => format!("FUNCTION f{}(x)", k),
            });
        }
    }
    // Where the code of each level goes: the body of a routine or a block of it for a GOSUB.
    let mut cur = 0;
    let mut in_gosub = false;
    for (k, kind) in kinds.iter().enumerate() {
        let call = match kind {
            0 => format!("s{} {}", k, k),
            1 => format!("v{} = f{}({})", k, k, k),
            2 => format!("OUT \"arg\"; f{}({}) + 1", k, k),
            _ => format!("GOSUB @g{}", k),
        };
        let dest = if in_gosub { &mut subs[cur] } else { &mut bodies[cur] };
        dest.push((call, Some(k)));
        dest.push((format!("OUT \"back {}\"", k), None));
        if in_gosub {
            dest.push(("RETURN".to_owned(), None));
        }
        match kind {
            3 => {
                subs[cur].push((format!("@g{}", k), None));
                subs[cur].push((format!("OUT \"in {}\"", k), None));
                in_gosub = true;
            }
            _ => {
                cur += 1;
                in_gosub = false;
                if *kind != 0 {
                    bodies[cur].push((format!("f{} = {}", k, k + 10), None));
                }
                bodies[cur].push((format!("OUT \"in {}\"; x", k), None));
            }
        }
    }
    if in_gosub {
        subs[cur].push(("RETURN".to_owned(), None));
    }
    let mut emit = |s: &str, k: Option<usize>| {
        lines.push(s.to_owned());
        if let Some(k) = k {
            call_line[k] = lines.len();
        }
    };
    let mut r = bodies.len();
    for kind in kinds.iter().rev() {
        if *kind == 3 {
            continue;
        }
        r -= 1;
        emit(&headers[r], None);
        for (s, c) in &bodies[r] {
            emit(s, *c);
        }
        if *kind == 0 {
            emit("EXIT SUB", None);
        } else {
            emit("EXIT FUNCTION", None);
        }
        for (s, c) in &subs[r] {
            emit(s, *c);
        }
        emit(if *kind == 0 { "END SUB" } else { "END FUNCTION" }, None);
    }
    match mode {
        1 => emit("ON ERROR RESUME NEXT", None),
        2 => emit("ON ERROR GOTO @h", None),
        _ => (),
    }
    for (s, c) in &bodies[0] {
        emit(s, *c);
    }
    emit("OUT \"done\"", None);
    emit("END 3", None);
    for (s, c) in &subs[0] {
        emit(s, *c);
    }
    emit("@h", None);
    emit("OUT \"handled\"", None);
    Chain { text: lines.join("\n"), call_line }
}

/// What the chain outputs with a limit of `limit` calls.  Returns the failed level, if any.
fn chain_model(kinds: &[usize], mode: usize, limit: usize) -> (Vec<String>, Option<usize>) {
    let mut out = vec![];
    let n = kinds.len();
    let depth = n.min(limit);
    for (k, kind) in kinds.iter().enumerate().take(depth) {
        out.push(if *kind == 3 { format!("in {}$", k) } else { format!("in {}$ {}%", k, k) });
    }
    let failed = if depth < n { Some(depth) } else { None };
    if failed.is_some() {
        match mode {
            0 => return (out, failed),
            2 => {
                out.push("handled$".to_owned());
                return (out, failed);
            }
            _ => out.push(format!("back {}$", depth)),
        }
    }
    for k in (0..depth).rev() {
        if kinds[k] == 2 {
            out.push(format!("arg$ {}%", k + 11));
        }
        out.push(format!("back {}$", k));
    }
    out.push("done$".to_owned());
    (out, failed)
}

fn depth_section(max: u32) -> Section {
    let r = [seq_count(4, 1, max), 3];
    Section::new(
        "call-depth",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            chain(&seq_decode(4, 1, v[0] as u64), v[1]).text.replace('\n', ": ")
        },
        move |i, cx| {
            let v = mixed(&r, i);
            let kinds = seq_decode(4, 1, v[0] as u64);
            let c = chain(&kinds, v[1]);
            for limit in 0..=kinds.len() + 1 {
                let (out, failed) = chain_model(&kinds, v[1], limit);
                let got = run(&c.text, (limit, UNLIMITED.1));
                cx.step(limit as u64 + 1);
                cx.state(&(&out, failed));
                let ok = match (&got.stop, failed, v[1]) {
                    (Stop::Err(p, _), Some(k), 0) => p.line == c.call_line[k],
                    (Stop::End(3), None, _) | (Stop::End(3), Some(_), 1) => true,
                    (Stop::Eof, Some(_), 2) => true,
                    _ => false,
                };
                if !ok || got.out != out {
                    return Err(Failure::new(
                        format!("call-depth: limit {} {}", limit, c.text.replace('\n', ": ")),
                        format!(
                            "expected {:?} failing at {:?}\ngot      {:?} {}",
                            out,
                            failed.map(|k| c.call_line[k]),
                            got.out,
                            show(&got.stop)
                        ),
                    ));
                }
            }
            Ok(())
        },
    )
}

/// Recursion to an exact depth, several times in the same machine with failures between.
fn recursion_section(max: usize) -> Section {
    let r = [max as u64, max as u64 + 3, 5];
    Section::new(
        "recursion",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let (limit, depth) = (v[0], v[1]);
            // Calls `depth` deep.
            let (defs, call) = match v[2] {
                0 => ("SUB r(n)\nt = t + 1\nIF n > 1 THEN r n - 1\nEND SUB", format!("r {}", depth)),
                1 => (
                    "FUNCTION r(n)\nt = t + 1\nr = 1\nIF n > 1 THEN r = r(n - 1) + 1\nEND FUNCTION",
                    format!("w = r({})", depth),
                ),
                2 => (
                    "FUNCTION r(n)\nt = t + 1\nr = 1\nIF n > 1 THEN r = 1 + 1 * (r(n - 1) + 0)\nEND FUNCTION",
                    format!("OUT 1; \"x\" + \"y\"; r({})", depth),
                ),
                3 => (
                    "GOTO @skip\n@g\nt = t + 1: c = c - 1\nIF c > 0 THEN GOSUB @g\nRETURN\n@skip",
                    format!("c = {}: GOSUB @g", depth),
                ),
                _ => (
                    "SUB r(n)\nt = t + 1\nIF n > 1 THEN GOSUB @l\nEXIT SUB\n@l\nt = t + 1: IF n > 2 THEN r n - 2\nRETURN\nEND SUB",
                    format!("r {}", depth),
                ),
            };
            if depth == 0 {
                cx.trivial += 1;
                return Ok(());
            }
            let head = format!("DIM SHARED t AS INTEGER\nDIM SHARED c AS INTEGER\n{}\n", defs);
            let fits = depth <= limit;
            let exp = if fits { depth } else { limit };
            let fail = |what: &str, got: String| -> CaseResult {
                Err(Failure::new(
                    format!("recursion: limit {} {}{} {}", limit, head, call, what).replace('\n', ": "),
                    format!("expected {} calls\ngot {}", exp, got),
                ))
            };
            with_env(|env| {
                env.reset(&[], 1000);
                let mut vm = Vm::new_with_limits(env.upcalls.clone(), limits(limit, UNLIMITED.1));
                let mut image = Image::default();
                let mut c = Compiler::new(&env.upcalls, &[]).unwrap();
                let mut step = |text: &str| {
                    if let Err(e) = c.compile_more(&mut image, &mut text.as_bytes()) {
                        return (Stop::Compile(e.pos(), e.message_without_pos()), None);
                    }
                    let s = corex::drive(&mut vm, &image, 10_000, &mut 0);
                    (s, corex::vm_var(&vm, &image, "t"))
                };
                step(&head);
                for round in 0..3 {
                    let (s, t) = step(&format!("t = 0: {}", call));
                    cx.step(depth as u64);
                    cx.state(&(limit.min(depth), v[2]));
                    let ok = if fits { s == Stop::Eof } else { matches!(s, Stop::Err(..)) };
                    if !ok || t != Some(ConstantDatum::Integer(exp as i32)) {
                        return fail(&format!("round {}", round), format!("{} {:?}", show(&s), t));
                    }
                    // After a failure, calls as deep as the limit work again.
                    if limit > 0 && v[2] == 0 {
                        let (s, t) = step(&format!("t = 0: r {}", limit));
                        if s != Stop::Eof || t != Some(ConstantDatum::Integer(limit as i32)) {
                            return fail("afterwards", format!("{} {:?}", show(&s), t));
                        }
                    }
                    // Caught errors behave the same.
                    let (s, t) =
                        step(&format!("ON ERROR RESUME NEXT\nt = 0: {}\nON ERROR GOTO 0", call));
                    if s != Stop::Eof || t != Some(ConstantDatum::Integer(exp as i32)) {
                        return fail("resuming", format!("{} {:?}", show(&s), t));
                    }
                }
                Ok(())
            })
        },
    )
}

// --- Heap ------------------------------------------------------------------------------------

const HOPS: [&str; 14] = [
    "a = a + \"x\"",
    "b = a",
    "DIM p#(2, 2) AS INTEGER",
    "DIM q#(3) AS STRING",
    "r(1) = r(0) + \"y\"",
    "r(0) = a + b",
    "n(1) = n(0) + 1",
    "a = fn(a)",
    "sb a, b",
    "i = i + n(1)",
    "IF a + \"k\" = \"uk\" THEN i = i + 1",
    "a = TS(a + b)",
    "a = TS(\"c\")",
    "FOR k# = 1 TO 2: r(k#) = r(k# - 1) + \"z\": NEXT",
];

const HEAD: &str = "a = \"u\": b = \"w\": i = 0: DIM r(3) AS STRING: DIM n(2) AS INTEGER\n\
    FUNCTION fn$(s$)\nfn$ = s$ + \"f\"\nEND FUNCTION\n\
    SUB sb(s$, t$)\nl = s$ + t$: DIM g(2) AS STRING: g(1) = l + \"!\"\nOUT g(1)\nEND SUB";

const SHOW: &str = "OUT a; b; i; r(0); r(1); r(2); n(0); n(1)";

fn heap_text(ops: &[usize]) -> Vec<String> {
    ops.iter().enumerate().map(|(j, o)| HOPS[*o].replace('#', &j.to_string())).collect()
}

/// Runs the pieces one after the other.  Stops at the first failure if `stop`.
fn run_pieces(pieces: &[String], heap: u32, resume: bool) -> (Vec<Vec<String>>, Vec<Stop>) {
    with_env(|env| {
        env.reset(&[], 1000);
        let mut vm = Vm::new_with_limits(env.upcalls.clone(), limits(UNLIMITED.0, heap));
        let mut image = Image::default();
        let mut c = Compiler::new(&env.upcalls, &[]).unwrap();
        let mut outs = vec![];
        let mut stops = vec![];
        for p in pieces {
            let s = match c.compile_more(&mut image, &mut p.as_bytes()) {
                Err(e) => Stop::Compile(e.pos(), e.message_without_pos()),
                Ok(()) => corex::drive(&mut vm, &image, 10_000, &mut 0),
            };
            outs.push(std::mem::take(&mut env.state.borrow_mut().out));
            let failed = s != Stop::Eof;
            stops.push(s);
            if failed && !resume {
                break;
            }
        }
        (outs, stops)
    })
}

fn heap_section(max: u32) -> Section {
    let n = seq_count(HOPS.len() as u64, 1, max);
    Section::new(
        "heap",
        n,
        move |i| heap_text(&seq_decode(HOPS.len() as u64, 1, i)).join(": "),
        move |i, cx| {
            let ops = heap_text(&seq_decode(HOPS.len() as u64, 1, i));
            let whole = |ops: &[String]| format!("{}\n{}\n{}\n", HEAD, ops.join("\n"), SHOW);
            let base = run(&whole(&ops), UNLIMITED);
            if base.stop != Stop::Eof {
                return Err(Failure::new(
                    format!("heap: {}", ops.join(": ")),
                    format!("fails without limits: {}", show(&base.stop)),
                ));
            }
            let head_lines = HEAD.lines().count();
            let mut limit = 0;
            let mut fits_before = false;
            let mut seen_fits = 0;
            loop {
                limit += 1;
                if limit > 300 {
                    return Err(Failure::new(format!("heap: {}", ops.join(": ")), "needs too much"));
                }
                let text = whole(&ops);
                let got = run(&text, (UNLIMITED.0, limit));
                cx.step(ops.len() as u64);
                let fail = |what: String| -> CaseResult {
                    Err(Failure::new(
                        format!("heap: limit {} {}", limit, ops.join(": ")),
                        format!("without limits {:?}\ngot {:?} {}\n{}", base.out, got.out, show(&got.stop), what),
                    ))
                };
                match &got.stop {
                    Stop::Eof => {
                        if got.out != base.out {
                            return fail(String::new());
                        }
                        fits_before = true;
                        seen_fits += 1;
                    }
                    Stop::Err(p, _) => {
                        if fits_before {
                            return fail("but a lower limit sufficed".to_owned());
                        }
                        if !base.out.starts_with(&got.out) {
                            return fail("outputs differ".to_owned());
                        }
                        if p.line > head_lines && p.line <= head_lines + ops.len() {
                            // The statements before it took effect and it did not.  FOR is more
                            // than one statement.
                            let bad = p.line - head_lines - 1;
                            let pieces: Vec<String> = std::iter::once(HEAD.to_owned())
                                .chain(ops[..=bad].iter().cloned())
                                .chain(std::iter::once(SHOW.to_owned()))
                                .collect();
                            let (outs, stops) = run_pieces(&pieces, limit, true);
                            let (outs2, stops2) = run_pieces(
                                &[&pieces[..pieces.len() - 2], &pieces[pieces.len() - 1..]].concat(),
                                UNLIMITED.1,
                                false,
                            );
                            let count = stops.iter().filter(|s| **s != Stop::Eof).count();
                            cx.state(&(&outs, bad));
                            if stops2.iter().any(|s| *s != Stop::Eof)
                                || count != 1
                                || stops[stops.len() - 2] == Stop::Eof
                            {
                                return fail(format!("in pieces {:?} {:?}", stops, stops2));
                            }
                            if !ops[bad].starts_with("FOR") && outs.last() != outs2.last() {
                                return fail(format!("after the failure {:?} {:?}", outs, outs2));
                            }
                        } else if p.line > head_lines + ops.len() {
                            return fail("failed in the final output".to_owned());
                        }
                    }
                    _ => return fail(String::new()),
                }
                // With errors resumed, the result is that of skipping the failed statements.
                if !matches!(got.stop, Stop::Eof) {
                    let mut pieces: Vec<String> = vec![HEAD.to_owned()];
                    pieces.extend(ops.iter().cloned());
                    pieces.push(SHOW.to_owned());
                    let (outs, stops) = run_pieces(&pieces, limit, true);
                    if stops[0] == Stop::Eof && !ops.iter().any(|o| {
                        // More than one statement, or one whose failure leads elsewhere.
                        o.starts_with("FOR") || o.starts_with("sb") || o.starts_with("IF")
                    }) {
                        let kept: Vec<String> = pieces
                            .iter()
                            .zip(&stops)
                            .filter(|(_, s)| **s == Stop::Eof)
                            .map(|(p, _)| p.clone())
                            .collect();
                        let (outs2, stops2) = run_pieces(&kept, UNLIMITED.1, false);
                        let flat = |o: &[Vec<String>]| o.concat();
                        if stops2.iter().any(|s| *s != Stop::Eof) || outs.last() != outs2.last() {
                            return fail(format!("resumed {:?} {:?}\nskipping {:?}", outs, stops, outs2));
                        }
                        let r = run(
                            &format!("{}\nON ERROR RESUME NEXT\n{}\n{}\n", HEAD, ops.join("\n"), SHOW),
                            (UNLIMITED.0, limit),
                        );
                        if r.stop != Stop::Eof || r.out != flat(&outs) {
                            return fail(format!("resumed {:?}\nin pieces {:?}", r.out, outs));
                        }
                    }
                }
                if seen_fits == 3 {
                    return Ok(());
                }
            }
        },
    )
}

// --- Registers -------------------------------------------------------------------------------

fn reg_program(kind: usize, n: usize, k: usize) -> (String, Vec<String>) {
    let mut p = String::new();
    let mut e = vec![];
    let list = |f: &dyn Fn(usize) -> String, n: usize, s: &str| -> String {
        (0..n).map(f).collect::<Vec<_>>().join(s)
    };
    let int = |i: usize| format!("{}%", i);
    match kind {
        // Locals of the main program.
        0 => {
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str(&format!("\nx = 0 + {}\n", list(&|i| format!("v{}", i), n.min(20), " + ")).replace("+ \n", "\n").replace("0 \n", "0\n"));
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.extend((0..n).map(int));
        }
        // Shared variables.
        1 => {
            p.push_str(&list(&|i| format!("DIM SHARED v{} AS INTEGER", i), n, "\n"));
            p.push_str("\nSUB s\n");
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str("\nEND SUB\ns\n");
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.extend((0..n).map(int));
        }
        // Locals of a callable, and a call from it.
        2 => {
            p.push_str("SUB t(a, b)\nq = a * b: OUT q\nEND SUB\nSUB s\n");
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str("\nt 7, 8\n");
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            p.push_str("\nEND SUB\nz = 5: s: OUT z");
            e.push("56%".to_owned());
            e.extend((0..n).map(int));
            e.push("5%".to_owned());
        }
        // Parameters.
        3 => {
            if n > 0 {
                p.push_str(&format!("SUB s({})\n", list(&|i| format!("p{}", i), n, ", ")));
                p.push_str(&list(&|i| format!("OUT p{}", i), n, "\n"));
                p.push_str(&format!("\nEND SUB\nz = 5\ns {}\nOUT z", list(&|i| i.to_string(), n, ", ")));
                e.extend((0..n).map(int));
                e.push("5%".to_owned());
            }
        }
        // Function parameters.
        4 => {
            if n > 0 {
                p.push_str(&format!("FUNCTION f({})\n", list(&|i| format!("p{}", i), n, ", ")));
                p.push_str(&format!("f = {}\n", list(&|i| format!("p{}", i), n.min(100), " + ")));
                p.push_str(&format!("END FUNCTION\nOUT 1 + f({})", list(&|i| i.to_string(), n, ", ")));
                e.push(int(1 + (0..n.min(100)).sum::<usize>()));
            }
        }
        // Arguments of a host command.
        5 => {
            if n > 0 {
                p.push_str(&format!("z = 5\nOUT {}\nOUT z", list(&|i| i.to_string(), n, "; ")));
                e.push((0..n).map(int).collect::<Vec<_>>().join(" "));
                e.push("5%".to_owned());
            }
        }
        // Operands waiting for the right side of their operators.
        6 => {
            p.push_str(&format!("y = 1\nx = {}y{}\nOUT x", "1 + (".repeat(n), ")".repeat(n)));
            e.push(int(n + 1));
        }
        // Dimensions.
        7 => {
            if n > 0 {
                let idx = list(&|_| "0".to_owned(), n, ", ");
                p.push_str(&format!("DIM a({}) AS INTEGER\n", list(&|_| "1".to_owned(), n, ", ")));
                p.push_str(&format!("a({}) = 7\nOUT a({})", idx, idx));
                e.push("7%".to_owned());
            }
        }
        // Arrays.
        8 => {
            p.push_str(&list(&|i| format!("DIM a{}(2) AS INTEGER: a{}(1) = {}", i, i, i), n, "\n"));
            p.push('\n');
            p.push_str(&list(&|i| format!("OUT a{}(1)", i), n, "\n"));
            e.extend((0..n).map(int));
        }
        // Locals, and then an expression with pending operands.
        9 => {
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str(&format!("\nx = {}2{}\nOUT x\n", "1 + (".repeat(k), ")".repeat(k)));
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.push(int(k + 2));
            e.extend((0..n).map(int));
        }
        // Locals, and then arguments.
        10 => {
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str(&format!("\nOUT {}\n", list(&|i| i.to_string(), k + 1, "; ")));
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.push((0..=k).map(int).collect::<Vec<_>>().join(" "));
            e.extend((0..n).map(int));
        }
        // Locals, and then a call with arguments.
        11 => {
            let pl = list(&|i| format!("p{}", i), k + 1, ", ");
            p.push_str(&format!("FUNCTION f({})\nf = p{} + 1\nEND FUNCTION\n", pl, k));
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push_str(&format!("\nx = f({})\nOUT x\n", list(&|i| (i * 3).to_string(), k + 1, ", ")));
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.push(int(k * 3 + 1));
            e.extend((0..n).map(int));
        }
        // Locals, shared variables and nested SELECTs, which reserve registers.
        12 => {
            p.push_str("DIM SHARED g AS INTEGER\n");
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            p.push('\n');
            for i in 0..=k {
                p.push_str(&format!("SELECT CASE {}\nCASE {}\n", i + 1, i + 1));
            }
            p.push_str("g = 4\n");
            for _ in 0..=k {
                p.push_str("END SELECT\n");
            }
            p.push_str("OUT g\n");
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.push("4%".to_owned());
            e.extend((0..n).map(int));
        }
        // Locals, and then subscripts.
        _ => {
            p.push_str(&format!("DIM a({}) AS INTEGER\n", list(&|_| "2".to_owned(), k % 10 + 1, ", ")));
            p.push_str(&list(&|i| format!("v{} = {}", i, i), n, "\n"));
            let idx = list(&|_| "1".to_owned(), k % 10 + 1, ", ");
            p.push_str(&format!("\na({}) = {}\nOUT a({}) + a({})\n", idx, k, idx, idx));
            p.push_str(&list(&|i| format!("OUT v{}", i), n, "\n"));
            e.push(int(k * 2));
            e.extend((0..n).map(int));
        }
    }
    (p, e)
}

fn check_reg(kind: usize, n: usize, k: usize, cx: &mut Cx) -> Result<bool, Failure> {
    let (p, e) = reg_program(kind, n, k);
    let got = run(&p, UNLIMITED);
    cx.step(1);
    cx.state(&(kind, n, k));
    let ok = match got.stop {
        Stop::Eof => got.out == e,
        Stop::Compile(..) => n + k > if kind == 7 { 12 } else { 30 },
        _ => false,
    };
    if !ok {
        return Err(Failure::new(
            format!("registers: {} {} {}", kind, n, k),
            format!("{}\ngot {:?} {}", p, got.out, show(&got.stop)),
        ));
    }
    Ok(got.stop == Stop::Eof)
}

fn registers_section() -> Section {
    // The limit grows one by one; once it is exceeded, it stays so.
    Section::new(
        "registers",
        9,
        |i| format!("kind {}", i),
        |i, cx| {
            let mut fits = true;
            for n in 0..=320 {
                let f = check_reg(i as usize, n, 0, cx)?;
                if f && !fits {
                    return Err(Failure::new(
                        format!("registers: {} {}", i, n),
                        "accepted although something smaller is not",
                    ));
                }
                fits = f;
            }
            Ok(())
        },
    )
}

fn register_grid(lo: u64, hi: u64, step: u64, ks: u64) -> Section {
    let r = [5, (hi - lo) / step, ks];
    let p = move |i: u64| {
        let v = mixed(&r, i);
        (9 + v[0], lo as usize + v[1] * step as usize, v[2])
    };
    Section::new("register-pairs", product(&r), move |i| format!("{:?}", p(i)), move |i, cx| {
        let (kind, n, k) = p(i);
        check_reg(kind, n, k, cx).map(|_| ())
    })
}

// --- Code size -------------------------------------------------------------------------------

/// Programs with `{}` where the padding goes.
const JUMPS: [(&str, &[&str]); 27] = [
    ("OUT 1\nGOTO @e\n{}@e\nOUT 2", &["1%", "2%"]),
    ("{}i = 0\n@s\ni = i + 1: OUT i: IF i < 3 THEN GOTO @s\nOUT 9", &["1%", "2%", "3%", "9%"]),
    ("i = 0\n@s\ni = i + 1: OUT i\n{}IF i < 2 THEN GOTO @s\nOUT 9", &["1%", "2%", "9%"]),
    ("IF FALSE THEN\n{}END IF\nOUT 1", &["1%"]),
    ("IF FALSE THEN\n{}ELSE\nOUT 1\nEND IF\nOUT 2", &["1%", "2%"]),
    ("IF TRUE THEN\nOUT 1\nELSE\n{}END IF\nOUT 2", &["1%", "2%"]),
    ("IF TRUE THEN\nOUT 1\n{}ELSE\nOUT 3\nEND IF\nOUT 2", &["1%", "2%"]),
    ("i = 0\nWHILE i < 2\ni = i + 1: OUT i\n{}WEND\nOUT 9", &["1%", "2%", "9%"]),
    ("{}i = 0\nWHILE i < 2\ni = i + 1: OUT i\nWEND\nOUT 9", &["1%", "2%", "9%"]),
    ("i = 0\nDO WHILE i < 2\ni = i + 1: OUT i\n{}LOOP\nOUT 9", &["1%", "2%", "9%"]),
    ("i = 0\nDO UNTIL i = 2\ni = i + 1: OUT i\n{}LOOP\nOUT 9", &["1%", "2%", "9%"]),
    ("{}i = 0\nDO\ni = i + 1: OUT i\nLOOP WHILE i < 2\nOUT 9", &["1%", "2%", "9%"]),
    ("{}i = 0\nDO\ni = i + 1: OUT i\nLOOP UNTIL i = 2\nOUT 9", &["1%", "2%", "9%"]),
    ("i = 0\nDO\nIF i = 2 THEN EXIT DO\ni = i + 1: OUT i\n{}LOOP\nOUT 9", &["1%", "2%", "9%"]),
    ("FOR i = 1 TO 2\nOUT i\n{}NEXT\nOUT 9", &["1%", "2%", "9%"]),
    ("{}FOR i = 1 TO 2\nOUT i\nNEXT\nOUT 9", &["1%", "2%", "9%"]),
    ("FOR i = 1 TO 5\nIF i = 3 THEN EXIT FOR\nOUT i\n{}NEXT\nOUT 9", &["1%", "2%", "9%"]),
    ("SELECT CASE 2\nCASE 1\n{}CASE 2\nOUT 2\nCASE ELSE\nOUT 3\nEND SELECT\nOUT 9", &["2%", "9%"]),
    ("SELECT CASE 1\nCASE 1\nOUT 1\nCASE 2\n{}END SELECT\nOUT 9", &["1%", "9%"]),
    ("{}SELECT CASE 5\nCASE 1\nOUT 1\nCASE 3 TO 6\nOUT 2\nEND SELECT\nOUT 9", &["2%", "9%"]),
    ("GOSUB @g\nOUT 2\nEND 3\n{}@g\nOUT 1\nRETURN", &["1%", "2%"]),
    ("ON ERROR GOTO @h\nOUT 1\nFAIL\n{}OUT 3\n@h\nOUT 2", &["1%", "2%"]),
    ("SUB s\nOUT 1\n{}END SUB\ns\nOUT 2", &["1%", "2%"]),
    ("DECLARE SUB s\ns\nOUT 2\nSUB s\nOUT 1\n{}END SUB", &["1%", "2%"]),
    ("{}FUNCTION f(x)\nf = x + 1\nEND FUNCTION\nOUT f(f(1))", &["3%"]),
    ("SUB s(x)\nOUT x\nIF x = 1 THEN EXIT SUB\n{}OUT 3\nEND SUB\ns 1\nOUT 2", &["1%", "2%"]),
    ("ON ERROR RESUME NEXT\n{}FAIL\nOUT 1\nFAIL: OUT 2", &["1%", "2%"]),
];

fn jumps_section(lo: u64, hi: u64) -> Section {
    let r = [JUMPS.len() as u64, hi - lo];
    Section::new(
        "jumps",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let (t, e) = JUMPS[v[0]];
            let n = lo as usize + v[1];
            let text = t.replace("{}", &"x = 1\n".repeat(n));
            let got = run(&text, UNLIMITED);
            cx.step(1);
            cx.state(&(v[0], n));
            let ok = match got.stop {
                Stop::Eof | Stop::End(3) => got.out == e,
                // The program is too large only once it does reach the limit.
                Stop::Compile(..) => n > 65_000,
                _ => false,
            };
            if !ok {
                return Err(Failure::new(
                    format!("jumps: {} with {} instructions", t.replace('\n', ": "), n),
                    format!("expected {:?}\ngot {:?} {}", e, got.out, show(&got.stop)),
                ));
            }
            cx.count(if matches!(got.stop, Stop::Compile(..)) { "rejected" } else { "accepted" });
            Ok(())
        },
    )
}

fn constants_section(lo: u64, hi: u64) -> Section {
    let r = [4, hi - lo];
    Section::new(
        "constants",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let v = mixed(&r, i);
            let n = lo as usize + v[1];
            let c = |j: usize| match v[0] {
                0 => format!("{}", 100_000 + j),
                1 => format!("{}.5", j),
                _ => format!("\"s{}\"", j),
            };
            let s = |j: usize| match v[0] {
                0 => format!("{}%", 100_000 + j),
                1 => format!("{}.5#", j),
                _ => format!("s{}$", j),
            };
            let mut p = String::new();
            let mut e = vec![];
            if v[0] == 3 {
                // DATA has its own space.
                for j in 0..n {
                    p.push_str(&format!("DATA {}\n", c(j)));
                }
                p.push_str("OUT \"ok\"\n");
                e.push("ok$".to_owned());
            } else {
                for j in 0..n {
                    p.push_str(&format!("x = {}\n", c(j)));
                    if j + 30 > n || j < 3 {
                        p.push_str("OUT x\n");
                        e.push(s(j));
                    }
                }
                p.push_str(&format!("OUT {}\n", c(5)));
                e.push(s(5));
            }
            let got = run(&p, UNLIMITED);
            cx.step(1);
            cx.state(&(v[0], n));
            let ok = match got.stop {
                Stop::Eof => got.out == e,
                Stop::Compile(..) => n > 60_000,
                _ => false,
            };
            if !ok {
                return Err(Failure::new(
                    format!("constants: {} of kind {}", n, v[0]),
                    format!("got {:?} {}", &got.out[..got.out.len().min(5)], show(&got.stop)),
                ));
            }
            cx.count(if matches!(got.stop, Stop::Compile(..)) { "rejected" } else { "accepted" });
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        depth_section(tier.pick(5, 6)),
        recursion_section(tier.pick(24, 40)),
        heap_section(tier.pick(3, 4)),
        registers_section(),
        match tier {
            Tier::Quick => register_grid(150, 194, 2, 24),
            _ => register_grid(100, 200, 1, 60),
        },
        jumps_section(tier.pick(65_515, 65_480), tier.pick(65_541, 65_560)),
        constants_section(tier.pick(65_530, 65_500), tier.pick(65_541, 65_560)),
    ]
}
