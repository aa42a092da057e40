//! L13: variables that the host shares with programs, and how the host sees those of programs.

use crate::corex::{Stop, drive, show_datum, with_env};
use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang;
use endbasic_core::{
    Compiler, ConstantDatum, ExprType, GetGlobalError, GlobalDef, GlobalDefKind, Image, StopReason, SymbolKey, Vm,
};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "L13",
        rule: "Definitions: all sequences of up to 2 (thorough: 3) variables given by the host out of 3 names (two of \
               them the same name) with 22 types, initial values and array shapes each, in 5 programs that leave, \
               read, change, or change them from a subroutine. Counts: 1 to 80 variables. Histories: all sequences \
               of up to 4 (thorough: 5) of 14 pieces of code and host actions on one machine, asking for every \
               variable in every way after each and at every turn of a loop.",
        assumptions: &["the dimensions of the arrays that the host defines are positive and fit in 16 bits, as documented"],
        sections,
    }
}

#[derive(Clone, Debug)]
enum Kind {
    Scalar(ExprType, Option<ConstantDatum>),
    Array(ExprType, Vec<usize>),
}

fn kinds() -> Vec<Kind> {
    use ConstantDatum as C;
    use ExprType::*;
    let t = |s: &str| C::Text(s.to_owned());
    let mut v = vec![];
    for x in [Boolean, Double, Integer, Text] {
        v.push(Kind::Scalar(x, None));
    }
    for i in [5, -7, 65536, i32::MAX, i32::MIN] {
        v.push(Kind::Scalar(Integer, Some(C::Integer(i))));
    }
    v.push(Kind::Scalar(Boolean, Some(C::Boolean(true))));
    v.push(Kind::Scalar(Double, Some(C::Double(-0.5))));
    v.push(Kind::Scalar(Double, Some(C::Double(1e300))));
    v.push(Kind::Scalar(Text, Some(t(""))));
    v.push(Kind::Scalar(Text, Some(t("é \"x"))));
    // Of another type.
    v.push(Kind::Scalar(Double, Some(C::Integer(1))));
    v.push(Kind::Scalar(Text, Some(C::Boolean(true))));
    v.push(Kind::Array(Integer, vec![3]));
    v.push(Kind::Array(Double, vec![2, 2]));
    v.push(Kind::Array(Text, vec![1]));
    v.push(Kind::Array(Boolean, vec![2, 3, 2]));
    v.push(Kind::Array(Integer, vec![1, 300]));
    v.push(Kind::Array(Text, vec![2, 1, 1, 2]));
    v
}

const NAMES: [&str; 3] = ["alpha", "ALPHA", "b_2"];

fn zero(t: ExprType) -> String {
    match t {
        ExprType::Boolean => "false?".to_owned(),
        ExprType::Double => lang::show_double(0.0),
        ExprType::Integer => "0%".to_owned(),
        ExprType::Text => "$".to_owned(),
    }
}

fn type_of(d: &ConstantDatum) -> ExprType {
    match d {
        ConstantDatum::Boolean(_) => ExprType::Boolean,
        ConstantDatum::Double(_) => ExprType::Double,
        ConstantDatum::Integer(_) => ExprType::Integer,
        ConstantDatum::Text(_) => ExprType::Text,
    }
}

/// A value that is not the default, as source and as shown.
fn other(t: ExprType, n: usize) -> (String, String) {
    match t {
        ExprType::Boolean => ("TRUE".to_owned(), "true?".to_owned()),
        ExprType::Double => (format!("{}.25", n + 1), lang::show_double(n as f64 + 1.25)),
        ExprType::Integer => (format!("{}", n + 11), format!("{}%", n + 11)),
        ExprType::Text => (format!("\"v{}\"", n), format!("v{}$", n)),
    }
}

fn subscripts(dims: &[usize]) -> Vec<Vec<i32>> {
    let mut v = vec![vec![]];
    for d in dims {
        v = v.iter().flat_map(|p: &Vec<i32>| (0..*d as i32).map(|i| [p.clone(), vec![i]].concat())).collect();
    }
    v
}

/// What a variable should hold: dimensions, values that are not the default, and the default.
#[derive(Clone, Debug, Default, Eq, PartialEq, Hash)]
struct Var {
    dims: Vec<usize>,
    vals: BTreeMap<Vec<i32>, String>,
    rest: String,
}

/// Asks for a variable in every way; `global` says where it should be.
fn ask(vm: &Vm, image: &Image, name: &str, var: Option<&Var>, global: bool) -> Result<(), String> {
    let key = SymbolKey::from(name);
    for place in [true, false] {
        let scalar = if place { vm.get_global(image, &key) } else { vm.get_program(image, &key) };
        let array = |s: &[i32]| {
            if place { vm.get_global_array(image, &key, s) } else { vm.get_program_array(image, &key, s) }
        };
        let who = format!("{} {}", if place { "global" } else { "program" }, name);
        let Some(v) = var.filter(|_| place == global) else {
            if !matches!(scalar, Ok(None)) || !matches!(array(&[0]), Ok(None)) {
                return Err(format!("{} is {:?}, {:?}", who, scalar, array(&[0])));
            }
            continue;
        };
        if v.dims.is_empty() {
            let want = v.vals.get(&vec![]).unwrap_or(&v.rest);
            match &scalar {
                Ok(Some(d)) if show_datum(d) == *want => (),
                r => return Err(format!("{} is {:?} and not {}", who, r, want)),
            }
            if !matches!(array(&[]), Err(GetGlobalError::IsScalar(_))) {
                return Err(format!("{} has elements: {:?}", who, array(&[])));
            }
            continue;
        }
        if !matches!(scalar, Err(GetGlobalError::IsArray(_))) {
            return Err(format!("{} is {:?} and not an array", who, scalar));
        }
        for s in subscripts(&v.dims) {
            let want = v.vals.get(&s).unwrap_or(&v.rest);
            match array(&s) {
                Ok(Some(d)) if show_datum(&d) == *want => (),
                r => return Err(format!("{}{:?} is {:?} and not {}", who, s, r, want)),
            }
        }
        // Around the array.
        let mut bad = vec![vec![], vec![0; v.dims.len() + 1], vec![0; v.dims.len() - 1]];
        for d in 0..v.dims.len() {
            for x in [-1, v.dims[d] as i32, i32::MAX, i32::MIN] {
                let mut s = vec![0; v.dims.len()];
                s[d] = x;
                bad.push(s);
            }
        }
        for s in bad {
            if !matches!(array(&s), Err(GetGlobalError::SubscriptOutOfBounds(_))) {
                return Err(format!("{}{:?} is {:?}", who, s, array(&s)));
            }
        }
    }
    Ok(())
}

fn ask_all_cases(vm: &Vm, image: &Image, name: &str, var: Option<&Var>, global: bool) -> Result<(), String> {
    for n in [name.to_owned(), name.to_uppercase(), name.to_lowercase()] {
        ask(vm, image, &n, var, global)?;
    }
    Ok(())
}

const MODES: [&str; 5] = ["left", "read", "changed", "changed by a subroutine", "read by a function"];

fn definitions(max: u32) -> Section {
    let k = kinds().len() as u64;
    let alphabet = NAMES.len() as u64 * k;
    let r = [seq_count(alphabet, 0, max), MODES.len() as u64];
    let decode = move |i: u64| -> (Vec<(&'static str, Kind)>, usize) {
        let v = mixed(&r, i);
        let ks = kinds();
        let d = seq_decode(alphabet, 0, v[0] as u64);
        (d.iter().map(|x| (NAMES[x / k as usize], ks[x % k as usize].clone())).collect(), v[1])
    };
    Section::new(
        "definitions",
        product(&r),
        move |i| {
            let (d, m) = decode(i);
            format!("{:?} {}", d, MODES[m])
        },
        move |i, cx| {
            let (defs, mode) = decode(i);
            let fail = |what: String| -> CaseResult {
                Err(Failure::new(format!("definitions: {:?} {}", defs, MODES[mode]), what))
            };
            cx.step(1);
            let gdefs: Vec<GlobalDef> = defs
                .iter()
                .map(|(n, k)| GlobalDef {
                    name: (*n).to_owned(),
                    kind: match k {
                        Kind::Scalar(t, v) => GlobalDefKind::Scalar { etype: *t, initial_value: v.clone() },
                        Kind::Array(t, d) => GlobalDefKind::Array { subtype: *t, dimensions: d.clone() },
                    },
                })
                .collect();
            let bad_type = defs.iter().any(|(_, k)| match k {
                Kind::Scalar(t, Some(v)) => type_of(v) != *t,
                _ => false,
            });
            let mut upper: Vec<String> = defs.iter().map(|(n, _)| n.to_uppercase()).collect();
            upper.sort();
            upper.dedup();
            let valid = !bad_type && upper.len() == defs.len();
            let mut text = String::new();
            let mut vars = vec![];
            let mut outs = vec![];
            let mut body = String::new();
            for (n, (name, kind)) in defs.iter().enumerate() {
                let (t, dims, initial) = match kind {
                    Kind::Scalar(t, v) => (*t, vec![], v.as_ref().map(show_datum).unwrap_or(zero(*t))),
                    Kind::Array(t, d) => (*t, d.clone(), zero(*t)),
                };
                let mut var = Var { dims: dims.clone(), rest: initial.clone(), ..Default::default() };
                let subs = subscripts(&dims);
                // The first, the last and one in the middle.
                for s in [&subs[0], &subs[subs.len() / 2], &subs[subs.len() - 1]] {
                    let place = if dims.is_empty() {
                        (*name).to_owned()
                    } else {
                        format!("{}({})", name, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
                    };
                    match mode {
                        1 | 4 => {
                            body += &format!("OUT {}\n", place);
                            outs.push(initial.clone());
                        }
                        2 | 3 => {
                            let (src, shown) = other(t, n);
                            body += &format!("{} = {}\n", place, src);
                            var.vals.insert(s.clone(), shown);
                        }
                        _ => (),
                    }
                }
                vars.push((*name, var));
            }
            match mode {
                3 => text += &format!("SUB s\n{}END SUB\ns\n", body),
                4 => text += &format!("FUNCTION f\n{}f = 1\nEND FUNCTION\nx = f\n", body),
                _ => text += &body,
            }
            with_env(|env| {
                env.reset(&[], 1000);
                let mut c = match Compiler::new(&env.upcalls, &gdefs) {
                    Ok(_) if !valid => return fail("accepted".to_owned()),
                    Ok(c) => c,
                    Err(_) if !valid => {
                        cx.count("rejected");
                        return Ok(());
                    }
                    Err(e) => return fail(format!("rejected: {}", e)),
                };
                let mut image = Image::default();
                if let Err(e) = c.compile_more(&mut image, &mut text.as_bytes()) {
                    return fail(format!("{}: {}", text, e));
                }
                let mut vm = Vm::new(env.upcalls.clone());
                let mut y = 0;
                // Running it again from the start gives the same.
                for round in 0..2 {
                    if round == 1 {
                        vm.reset();
                    }
                    let stop = drive(&mut vm, &image, 100, &mut y);
                    let out = std::mem::take(&mut env.state.borrow_mut().out);
                    if stop != Stop::Eof || out != outs {
                        return fail(format!("{}: {:?} {:?} and not {:?}", text, stop, out, outs));
                    }
                    for (name, var) in &vars {
                        cx.step(1);
                        if let Err(e) = ask_all_cases(&vm, &image, name, Some(var), true) {
                            return fail(format!("{}: {}", text, e));
                        }
                    }
                    for name in ["gamma", "", "s", "out", "1"] {
                        if let Err(e) = ask(&vm, &image, name, None, true) {
                            return fail(e);
                        }
                    }
                }
                cx.state(&vars);
                cx.traces += 1;
                Ok(())
            })
        },
    )
}

/// Many variables: all of them keep their values, or there are too many.
fn counts() -> Section {
    let r = [80, 3];
    Section::new(
        "counts",
        product(&r),
        move |i| {
            let v = mixed(&r, i);
            format!("{} variables, kind {}", v[0] + 1, v[1])
        },
        move |i, cx| {
            let v = mixed(&r, i);
            let n = v[0] + 1;
            let defs: Vec<GlobalDef> = (0..n)
                .map(|j| GlobalDef {
                    name: format!("v{}", j),
                    kind: match v[1] {
                        0 => GlobalDefKind::Scalar {
                            etype: ExprType::Integer,
                            initial_value: Some(ConstantDatum::Integer(1000 + j as i32)),
                        },
                        1 => GlobalDefKind::Scalar {
                            etype: ExprType::Text,
                            initial_value: Some(ConstantDatum::Text(format!("t{}", j))),
                        },
                        _ => GlobalDefKind::Array { subtype: ExprType::Integer, dimensions: vec![1 + j % 3] },
                    },
                })
                .collect();
            cx.step(1);
            cx.state(&i);
            let fail = |what: String| -> CaseResult { Err(Failure::new(format!("counts: {:?}", v), what)) };
            with_env(|env| {
                env.reset(&[], 1000);
                let mut c = match Compiler::new(&env.upcalls, &defs) {
                    Ok(c) => c,
                    // At least these many fit.
                    Err(e) if n <= 32 => return fail(format!("rejected: {}", e)),
                    Err(_) => {
                        cx.count("too many");
                        return Ok(());
                    }
                };
                let mut image = Image::default();
                let text: String = (0..n)
                    .map(|j| match v[1] {
                        0 => format!("v{} = v{} + 1\n", j, j),
                        1 => format!("v{} = v{} + \"x\"\n", j, j),
                        _ => format!("v{}({}) = {}\n", j, j % 3, j),
                    })
                    .collect();
                if let Err(e) = c.compile_more(&mut image, &mut text.as_bytes()) {
                    return fail(e.to_string());
                }
                let mut vm = Vm::new(env.upcalls.clone());
                let stop = drive(&mut vm, &image, 100, &mut 0);
                if stop != Stop::Eof {
                    return fail(format!("{:?}", stop));
                }
                for j in 0..n {
                    let mut var = Var::default();
                    let s = match v[1] {
                        0 => format!("{}%", 1001 + j),
                        1 => format!("t{}x$", j),
                        _ => {
                            var.dims = vec![1 + j % 3];
                            var.rest = "0%".to_owned();
                            format!("{}%", j)
                        }
                    };
                    var.vals.insert(if v[1] == 2 { vec![(j % 3) as i32] } else { vec![] }, s);
                    if let Err(e) = ask(&vm, &image, &format!("v{}", j), Some(&var), true) {
                        return fail(e);
                    }
                }
                cx.traces += 1;
                Ok(())
            })
        },
    )
}

const PIECES: [&str; 14] = [
    "i = i + 1",
    "s = s + \"y\"",
    "arr(1, 0) = i",
    "p = i * 2: t$ = s + \"!\"",
    "DIM SHARED g(2) AS DOUBLE: g(1) = i",
    "DIM q(2) AS STRING: q(0) = s",
    "i = i + 1: FAIL: i = 100",
    "i = 99: BAD(",
    "SUB bump: i = i * 3: arr(0, 1) = arr(0, 1) + 1: END SUB: bump",
    "ON ERROR RESUME NEXT: arr(5, 5) = 1: i = i - 1: ON ERROR GOTO 0",
    "s = \"\": END 3: s = \"no\"",
    "DIM SHARED h AS BOOLEAN: h = i > 5",
    "<loop>",
    "<rerun>",
];

#[derive(Clone, Debug, Default, Hash)]
struct World {
    i: i32,
    s: String,
    /// arr(1, 0) and arr(0, 1).
    arr: (i32, i32),
    p: Option<(i32, String)>,
    g: Option<f64bits>,
    q: Option<String>,
    h: Option<bool>,
    bump: bool,
}

#[allow(non_camel_case_types)]
type f64bits = u64;

impl World {
    fn new() -> Self {
        World { i: 5, s: "x".to_owned(), ..Default::default() }
    }

    /// Applies a piece and returns how it ends.
    fn piece(&mut self, p: usize) -> &'static str {
        match p {
            0 => self.i += 1,
            1 => self.s += "y",
            2 => self.arr.0 = self.i,
            3 => self.p = Some((self.i * 2, format!("{}!", self.s))),
            4 => {
                if self.g.is_some() {
                    return "compile";
                }
                self.g = Some((self.i as f64).to_bits());
            }
            5 => {
                if self.q.is_some() {
                    return "compile";
                }
                self.q = Some(self.s.clone());
            }
            6 => {
                self.i += 1;
                return "error";
            }
            7 => return "compile",
            8 => {
                if self.bump {
                    return "compile";
                }
                self.bump = true;
                self.i *= 3;
                self.arr.1 += 1;
            }
            9 => self.i -= 1,
            10 => {
                self.s.clear();
                return "end";
            }
            11 => {
                if self.h.is_some() {
                    return "compile";
                }
                self.h = Some(self.i > 5);
            }
            _ => unreachable!(),
        }
        "eof"
    }

    fn check(&self, vm: &Vm, image: &Image) -> Result<(), String> {
        let scalar = |s: String| Var { rest: s, ..Default::default() };
        ask_all_cases(vm, image, "i", Some(&scalar(format!("{}%", self.i))), true)?;
        ask(vm, image, "s", Some(&scalar(format!("{}$", self.s))), true)?;
        let mut arr = Var { dims: vec![2, 2], rest: "0%".to_owned(), ..Default::default() };
        arr.vals.insert(vec![1, 0], format!("{}%", self.arr.0));
        arr.vals.insert(vec![0, 1], format!("{}%", self.arr.1));
        ask(vm, image, "arr", Some(&arr), true)?;
        ask(vm, image, "P", self.p.as_ref().map(|p| scalar(format!("{}%", p.0))).as_ref(), false)?;
        ask(vm, image, "t", self.p.as_ref().map(|p| scalar(format!("{}$", p.1))).as_ref(), false)?;
        let g = self.g.map(|g| {
            let mut v = Var { dims: vec![2], rest: zero(ExprType::Double), ..Default::default() };
            v.vals.insert(vec![1], lang::show_double(f64::from_bits(g)));
            v
        });
        ask(vm, image, "g", g.as_ref(), true)?;
        let q = self.q.as_ref().map(|q| {
            let mut v = Var { dims: vec![2], rest: "$".to_owned(), ..Default::default() };
            v.vals.insert(vec![0], format!("{}$", q));
            v
        });
        ask(vm, image, "q", q.as_ref(), false)?;
        ask(vm, image, "h", self.h.map(|h| scalar(format!("{}?", h))).as_ref(), true)?;
        ask(vm, image, "nothing", None, true)
    }
}

fn histories(max: u32) -> Section {
    let k = PIECES.len() as u64;
    Section::new(
        "histories",
        seq_count(k, 1, max),
        move |i| seq_decode(k, 1, i).iter().map(|p| PIECES[*p]).collect::<Vec<_>>().join(" / "),
        move |i, cx| {
            let seq = seq_decode(k, 1, i);
            let defs = [
                ("i", Kind::Scalar(ExprType::Integer, Some(ConstantDatum::Integer(5)))),
                ("s", Kind::Scalar(ExprType::Text, Some(ConstantDatum::Text("x".to_owned())))),
                ("arr", Kind::Array(ExprType::Integer, vec![2, 2])),
            ];
            let gdefs: Vec<GlobalDef> = defs
                .iter()
                .map(|(n, k)| GlobalDef {
                    name: (*n).to_owned(),
                    kind: match k {
                        Kind::Scalar(t, v) => GlobalDefKind::Scalar { etype: *t, initial_value: v.clone() },
                        Kind::Array(t, d) => GlobalDefKind::Array { subtype: *t, dimensions: d.clone() },
                    },
                })
                .collect();
            with_env(|env| {
                env.reset(&[], 1000);
                let mut c = Compiler::new(&env.upcalls, &gdefs).unwrap();
                let mut image = Image::default();
                c.compile_more(&mut image, &mut "".as_bytes()).unwrap();
                let mut vm = Vm::new(env.upcalls.clone());
                drive(&mut vm, &image, 100, &mut 0);
                let mut w = World::new();
                // Pieces compiled so far, to run them again; not if some of them stop.
                let mut again: Option<Vec<usize>> = Some(vec![]);
                for (step, p) in seq.iter().enumerate() {
                    cx.step(1);
                    let fail = |what: String| -> CaseResult {
                        let h = seq[..=step].iter().map(|p| PIECES[*p]).collect::<Vec<_>>().join(" / ");
                        Err(Failure::new(format!("histories: {}", h), what))
                    };
                    match *p {
                        12 => {
                            let text = "DO: i = i + 1: LOOP";
                            if let Err(e) = c.compile_more(&mut image, &mut text.as_bytes()) {
                                return fail(e.to_string());
                            }
                            for _ in 0..3 {
                                let stop = match vm.exec(&image) {
                                    StopReason::Yield => None,
                                    StopReason::Exception(p, m) => Some(format!("{}: {}", p, m)),
                                    _ => Some("ends".to_owned()),
                                };
                                if let Some(e) = stop {
                                    return fail(e);
                                }
                                w.i += 1;
                                if let Err(e) = w.check(&vm, &image) {
                                    return fail(e);
                                }
                            }
                            vm.interrupt(&image);
                            again = None;
                        }
                        13 => {
                            let Some(a) = &again else {
                                cx.count("not run again");
                                continue;
                            };
                            vm.reset();
                            w = World::new();
                            for p in a {
                                w.piece(*p);
                            }
                            let stop = drive(&mut vm, &image, 100, &mut 0);
                            if stop != Stop::Eof {
                                return fail(format!("{:?}", stop));
                            }
                        }
                        p => {
                            let r = c.compile_more(&mut image, &mut PIECES[p].as_bytes());
                            let got = match &r {
                                Err(_) => "compile",
                                Ok(()) => match drive(&mut vm, &image, 100, &mut 0) {
                                    Stop::Eof => "eof",
                                    Stop::End(3) => "end",
                                    Stop::Err(..) => "error",
                                    _ => "?",
                                },
                            };
                            let want = w.piece(p);
                            if got != want {
                                return fail(format!("{} and not {}: {:?}", got, want, r.err()));
                            }
                            match want {
                                "eof" => {
                                    if let Some(a) = &mut again {
                                        a.push(p)
                                    }
                                }
                                "compile" => (),
                                _ => again = None,
                            }
                        }
                    }
                    if let Err(e) = w.check(&vm, &image) {
                        return fail(e);
                    }
                    cx.state(&w);
                }
                cx.traces += 1;
                Ok(())
            })
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![definitions(tier.pick(2, 3)), counts(), histories(tier.pick(4, 5))]
}
