//! L12: a host callable runs only with arguments that match what it declares, and gets exactly these.

use crate::corex::{self, HostEnv, Shared, Stop, with_env};
use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::lang::show_double;
use async_trait::async_trait;
use endbasic_core::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "L12",
        rule: "Syntaxes: each of 11 kinds of single argument alone, every pair of them with each of 5 kinds of separator, \
               (thorough: every triple), each of 120 kinds of repeated arguments alone and after each kind of single \
               argument, and all pairs and triples of a set of 12 syntaxes with different numbers of arguments, for \
               commands and for functions. Calls: all argument lists of up to 3 arguments (2 for single arguments) out \
               of up to 19 (literals of each type, variables, undefined variables with and without a type, arrays, \
               elements, expressions, functions, nothing) with every separator, from the main program, from a sub over \
               its own variables and from a sub over shared variables, with synchronous and asynchronous callables; \
               nested calls; and lists of up to 70 arguments.",
        assumptions: &[
            "syntaxes are well formed as their documentation requires: END closes the last argument and no other, alternatives differ in the number of arguments, functions use commas and require what they take",
        ],
        sections,
    }
}

// --- Syntaxes --------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Value(ExprType),
    Ref { array: bool, define: bool },
    Optional(ExprType),
    Any(bool),
}

use ExprType::{Boolean, Double, Integer, Text};

const KINDS: [Kind; 11] = [
    Kind::Value(Integer),
    Kind::Ref { array: false, define: true },
    Kind::Optional(Integer),
    Kind::Any(true),
    Kind::Any(false),
    Kind::Value(Double),
    Kind::Value(Boolean),
    Kind::Value(Text),
    Kind::Ref { array: false, define: false },
    Kind::Ref { array: true, define: false },
    Kind::Optional(Text),
];

const SEPS: [ArgSepSyntax; 5] = [
    ArgSepSyntax::Exactly(ArgSep::Long),
    ArgSepSyntax::OneOf(&[ArgSep::Short, ArgSep::Long]),
    ArgSepSyntax::Exactly(ArgSep::Short),
    ArgSepSyntax::Exactly(ArgSep::As),
    ArgSepSyntax::OneOf(&[ArgSep::As, ArgSep::Short]),
];

const REP_TYPES: [RepeatedTypeSyntax; 6] = [
    RepeatedTypeSyntax::AnyValue,
    RepeatedTypeSyntax::TypedValue(Integer),
    RepeatedTypeSyntax::VariableRef,
    RepeatedTypeSyntax::TypedValue(Text),
    RepeatedTypeSyntax::TypedValue(Double),
    RepeatedTypeSyntax::TypedValue(Boolean),
];

#[derive(Clone, Debug)]
struct Rep {
    t: RepeatedTypeSyntax,
    sep: ArgSepSyntax,
    one: bool,
    missing: bool,
}

#[derive(Clone, Debug, Default)]
struct Syn {
    singular: Vec<(Kind, ArgSepSyntax)>,
    rep: Option<Rep>,
}

impl Syn {
    fn accepts(&self, n: usize) -> bool {
        match &self.rep {
            None => n == self.singular.len(),
            Some(r) => n >= self.singular.len() + usize::from(r.one),
        }
    }
    /// The values of the repeated arguments come without tags.
    fn plain(&self) -> bool {
        self.rep.as_ref().is_some_and(|r| {
            matches!(r.t, RepeatedTypeSyntax::TypedValue(_)) && !r.missing && matches!(r.sep, ArgSepSyntax::Exactly(_))
        })
    }
}

const NREPS: u64 = 6 * 5 * 2 * 2;

fn rep(idx: u64) -> Rep {
    let d = mixed(&[6, 5, 2, 2], idx);
    Rep { t: REP_TYPES[d[0]].clone(), sep: SEPS[d[1]], one: d[2] == 1, missing: d[3] == 1 }
}

// --- Calls -----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Val {
    B(bool),
    D(f64),
    I(i32),
    T(&'static str),
}

impl Val {
    fn show(&self) -> String {
        match self {
            Val::B(b) => format!("{}?", b),
            Val::D(d) => show_double(*d),
            Val::I(i) => format!("{}%", i),
            Val::T(s) => format!("{}$", s),
        }
    }
    fn typ(&self) -> ExprType {
        match self {
            Val::B(_) => Boolean,
            Val::D(_) => Double,
            Val::I(_) => Integer,
            Val::T(_) => Text,
        }
    }
    fn as_type(&self, t: ExprType) -> Option<Val> {
        match (self, t) {
            (Val::I(i), Double) => Some(Val::D(f64::from(*i))),
            (Val::D(d), Integer) => Some(Val::I(d.round() as i32)),
            (v, t) if v.typ() == t => Some(v.clone()),
            _ => None,
        }
    }
}

/// What is given as an argument.
#[derive(Clone, Copy, Debug)]
enum Given {
    Missing,
    Value(&'static str, fn() -> Val),
    Var(&'static str, fn() -> Val),
    /// A variable that does not exist; the number of the argument completes its name.
    Undef(&'static str, fn() -> Val),
    /// Neither a value nor a variable.
    Bad(&'static str),
    Array(&'static str, &'static str),
}

const GIVEN: [Given; 19] = [
    Given::Missing,
    Given::Value("7", || Val::I(7)),
    Given::Var("i", || Val::I(3)),
    Given::Undef("", || Val::I(0)),
    Given::Value("\"x\"", || Val::T("x")),
    Given::Array("a", "[2, 3]% 5%"),
    Given::Value("2.75", || Val::D(2.75)),
    Given::Value("TRUE", || Val::B(true)),
    Given::Var("t", || Val::T("q")),
    Given::Undef("$", || Val::T("")),
    Given::Value("i + 1", || Val::I(4)),
    Given::Var("d#", || Val::D(1.5)),
    Given::Var("b", || Val::B(true)),
    Given::Undef("#", || Val::D(0.0)),
    Given::Bad("i$"),
    Given::Array("e", "[4]#"),
    Given::Value("a(1, 2)", || Val::I(5)),
    Given::Value("TEN", || Val::I(10)),
    Given::Bad("OUT"),
];

struct Arg {
    g: Given,
    text: String,
    col: usize,
    sep: ArgSep,
    sep_col: usize,
}

/// Writes the arguments out, starting at a column.
fn write_args(given: &[usize], seps: &[usize], start: usize) -> (String, Vec<Arg>) {
    let mut text = String::new();
    let mut l = vec![];
    let n = given.len();
    for (k, g) in given.iter().enumerate() {
        let g = GIVEN[*g];
        let t = match g {
            Given::Missing => String::new(),
            Given::Value(t, _) | Given::Var(t, _) | Given::Bad(t) | Given::Array(t, _) => t.to_owned(),
            Given::Undef(t, _) => format!("u{}{}", k, t),
        };
        text.push(' ');
        let col = start + text.len();
        text.push_str(&t);
        let sep = if k + 1 == n { ArgSep::End } else { [ArgSep::Long, ArgSep::Short, ArgSep::As][seps[k]] };
        if sep == ArgSep::As {
            text.push(' ');
        }
        if sep == ArgSep::End && matches!(g, Given::Missing) {
            // The position of the end of the line, whatever the blanks.
            text.truncate(text.trim_end().len());
        }
        let sep_col = start + text.len();
        text.push_str(match sep {
            ArgSep::Long => ",",
            ArgSep::Short => ";",
            ArgSep::As => "AS",
            ArgSep::End => "",
        });
        let col = if matches!(g, Given::Missing) { sep_col } else { col };
        l.push(Arg { g, text: t, col, sep, sep_col });
    }
    (text, l)
}

fn sep_name(s: ArgSep) -> &'static str {
    match s {
        ArgSep::Long => ",",
        ArgSep::Short => ";",
        ArgSep::As => "as",
        ArgSep::End => ".",
    }
}

fn sep_ok(syn: &ArgSepSyntax, s: ArgSep) -> bool {
    match syn {
        ArgSepSyntax::Exactly(e) => *e == s,
        ArgSepSyntax::OneOf(l) => l.contains(&s),
        ArgSepSyntax::End => false,
    }
}

/// What a matching call delivers, and the variables that it can change: name, type.
type Delivery = (Vec<String>, Vec<(String, Val)>);

fn deliver(syn: &Syn, args: &[Arg], key_col: usize) -> Option<Delivery> {
    let ns = syn.singular.len();
    let mut items = vec![];
    let mut refs = vec![];
    let value = |g: &Given, t: Option<ExprType>| -> Option<Val> {
        match g {
            Given::Value(_, v) | Given::Var(_, v) => match t {
                Some(t) => v().as_type(t),
                None => Some(v()),
            },
            _ => None,
        }
    };
    let mut var = |a: &Arg, define: bool| -> Option<String> {
        match a.g {
            Given::Var(_, v) => {
                refs.push((a.text.clone(), v()));
                Some(v().show())
            }
            Given::Undef(_, v) if define => {
                refs.push((a.text.clone(), v()));
                Some(v().show())
            }
            _ => None,
        }
    };
    for (k, a) in args.iter().enumerate() {
        let last = k + 1 == args.len();
        let missing = matches!(a.g, Given::Missing);
        if k < ns {
            let (kind, sep) = &syn.singular[k];
            if last {
                // Only reached when the number of arguments is right.
            } else if !sep_ok(sep, a.sep) {
                return None;
            }
            items.push(match kind {
                Kind::Value(t) => format!("v {}@{}", value(&a.g, Some(*t))?.show(), a.col),
                Kind::Ref { array: true, .. } => match a.g {
                    Given::Array(_, d) => format!("r {}@{}", d, a.col),
                    _ => return None,
                },
                Kind::Ref { array: false, define } => format!("r {}@{}", var(a, *define)?, a.col),
                Kind::Optional(t) => match missing {
                    true => format!("- {}@{}", sep_name(a.sep), a.col),
                    false => format!("{} {}@{}", value(&a.g, Some(*t))?.show(), sep_name(a.sep), a.col),
                },
                Kind::Any(allow) => match missing {
                    true if *allow => format!("- {}@{}", sep_name(a.sep), a.col),
                    true => return None,
                    false => format!("{} {}@{}", value(&a.g, None)?.show(), sep_name(a.sep), a.col),
                },
            });
        } else {
            let r = syn.rep.as_ref()?;
            if !last && !sep_ok(&r.sep, a.sep) {
                return None;
            }
            if missing {
                if !r.missing {
                    return None;
                }
                items.push(format!("- {}@{}", sep_name(a.sep), a.col));
                continue;
            }
            let v = match r.t {
                RepeatedTypeSyntax::AnyValue => value(&a.g, None)?.show(),
                RepeatedTypeSyntax::TypedValue(t) => value(&a.g, Some(t))?.show(),
                RepeatedTypeSyntax::VariableRef => format!("r {}", var(a, true)?),
            };
            match syn.plain() {
                true => items.push(format!("v {}@{}", v, a.col)),
                false => items.push(format!("{} {}@{}", v, sep_name(a.sep), a.col)),
            }
        }
    }
    if args.len() == ns && syn.rep.is_some() && !syn.plain() {
        items.push(format!("- .@{}", key_col));
    }
    Some((items, refs))
}

/// What the host writes to the `k`th variable it can change.
fn new_value(k: usize, t: ExprType) -> Val {
    match t {
        Boolean => Val::B(false),
        Double => Val::D(100.5 + k as f64),
        Integer => Val::I(100 + k as i32),
        Text => Val::T(["w0", "w1", "w2", "w3"][k]),
    }
}

// --- The callable ----------------------------------------------------------------------------

struct Target {
    md: Rc<CallableMetadata>,
    syns: Rc<Vec<Syn>>,
    /// The syntax that the call has to follow.
    current: Rc<Cell<usize>>,
    state: Shared,
}

impl Target {
    fn receive(&self, mut scope: Scope<'_>) -> CallResult<()> {
        let nregs = scope.nargs();
        let found = decode(&self.syns[self.current.get()], &scope, nregs);
        let (items, refs) = found.unwrap_or_else(|| (vec![format!("{} registers?", nregs)], vec![]));
        for (k, reg) in refs.iter().enumerate() {
            let mut r = scope.get_mut_ref(*reg);
            match new_value(k, r.vtype) {
                Val::B(b) => r.set_boolean(b),
                Val::D(d) => r.set_double(d),
                Val::I(i) => r.set_integer(i),
                Val::T(s) => r.set_string(s)?,
            }
        }
        self.state.borrow_mut().out.push(format!("{} {}", self.md.name(), items.join(" | ")));
        match self.md.return_type() {
            None => Ok(()),
            Some(Boolean) => scope.return_boolean(true),
            Some(Double) => scope.return_double(0.25),
            Some(Integer) => scope.return_integer(items.len() as i32 + 40),
            Some(Text) => scope.return_string("ret"),
        }
    }
}

fn show_reg(scope: &Scope<'_>, reg: u8, t: ExprType) -> String {
    match t {
        Boolean => format!("{}?", scope.get_boolean(reg)),
        Double => show_double(scope.get_double(reg)),
        Integer => format!("{}%", scope.get_integer(reg)),
        Text => format!("{}$", scope.get_string(reg)),
    }
}

fn show_ref(scope: &Scope<'_>, reg: u8, array: bool) -> String {
    let r = scope.get_ref(reg);
    if array {
        let v = match r.vtype {
            Integer => format!(" {}%", r.deref_array_integer(&[1, 2]).unwrap_or(-1)),
            _ => String::new(),
        };
        return format!("r {:?}{}{}", r.array_dimensions(), r.vtype.annotation(), v);
    }
    match r.vtype {
        Boolean => format!("r {}?", r.deref_boolean()),
        Double => format!("r {}", show_double(r.deref_double())),
        Integer => format!("r {}%", r.deref_integer()),
        Text => format!("r {}$", r.deref_string()),
    }
}

/// Takes the arguments as the documentation of the registers says.
fn decode(syn: &Syn, scope: &Scope<'_>, nregs: usize) -> Option<(Vec<String>, Vec<u8>)> {
    let mut reg = 0u8;
    let mut items = vec![];
    let mut refs = vec![];
    let left = |reg: u8| nregs > usize::from(reg);
    let tagged = |reg: &mut u8, refs: &mut Vec<u8>| -> Option<(String, ArgSep)> {
        if !left(*reg) {
            return None;
        }
        let pos = scope.get_pos(*reg);
        let tag = scope.get_type(*reg);
        *reg += 1;
        let (s, sep) = match tag {
            VarArgTag::Missing(sep) => ("-".to_owned(), sep),
            VarArgTag::Immediate(sep, t) => {
                if !left(*reg) {
                    return None;
                }
                let s = show_reg(scope, *reg, t);
                if scope.get_pos(*reg) != pos {
                    return None;
                }
                *reg += 1;
                (s, sep)
            }
            VarArgTag::Pointer(sep) => {
                if !left(*reg) {
                    return None;
                }
                let s = show_ref(scope, *reg, false);
                if scope.get_pos(*reg) != pos {
                    return None;
                }
                refs.push(*reg);
                *reg += 1;
                (s, sep)
            }
        };
        Some((format!("{} {}@{}", s, sep_name(sep), pos.col), sep))
    };
    for (kind, _) in &syn.singular {
        if !left(reg) {
            return None;
        }
        match kind {
            Kind::Value(t) => {
                items.push(format!("v {}@{}", show_reg(scope, reg, *t), scope.get_pos(reg).col));
                reg += 1;
            }
            Kind::Ref { array, .. } => {
                items.push(format!("{}@{}", show_ref(scope, reg, *array), scope.get_pos(reg).col));
                if !array {
                    refs.push(reg);
                }
                reg += 1;
            }
            Kind::Optional(_) | Kind::Any(_) => {
                let (s, _) = tagged(&mut reg, &mut refs)?;
                items.push(s);
            }
        }
    }
    if let Some(r) = &syn.rep {
        if syn.plain() {
            let RepeatedTypeSyntax::TypedValue(t) = r.t else { unreachable!() };
            while left(reg) {
                items.push(format!("v {}@{}", show_reg(scope, reg, t), scope.get_pos(reg).col));
                reg += 1;
            }
        } else {
            loop {
                let (s, sep) = tagged(&mut reg, &mut refs)?;
                items.push(s);
                if sep == ArgSep::End {
                    break;
                }
            }
        }
    }
    if left(reg) { None } else { Some((items, refs)) }
}

#[async_trait(?Send)]
impl Callable for Target {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        self.receive(scope)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        futures_lite::future::yield_now().await;
        self.receive(scope)
    }
}

type Static = (&'static [SingularArgSyntax], Option<&'static RepeatedSyntax>);

fn to_static(syn: &Syn) -> Static {
    let singular: Vec<SingularArgSyntax> = syn
        .singular
        .iter()
        .map(|(k, sep)| {
            let name = Cow::Borrowed("v");
            match k {
                Kind::Value(vtype) => {
                    SingularArgSyntax::RequiredValue(RequiredValueSyntax { name, vtype: *vtype }, *sep)
                }
                Kind::Ref { array, define } => SingularArgSyntax::RequiredRef(
                    RequiredRefSyntax { name, require_array: *array, define_undefined: *define },
                    *sep,
                ),
                Kind::Optional(vtype) => {
                    SingularArgSyntax::OptionalValue(OptionalValueSyntax { name, vtype: *vtype }, *sep)
                }
                Kind::Any(allow_missing) => {
                    SingularArgSyntax::AnyValue(AnyValueSyntax { name, allow_missing: *allow_missing }, *sep)
                }
            }
        })
        .collect();
    let rep = syn.rep.as_ref().map(|r| {
        &*Box::leak(Box::new(RepeatedSyntax {
            name: Cow::Borrowed("n"),
            type_syn: r.t.clone(),
            sep: r.sep,
            require_one: r.one,
            allow_missing: r.missing,
        }))
    });
    (Box::leak(singular.into_boxed_slice()), rep)
}

fn make_env(
    syns: Vec<Syn>,
    name: &'static str,
    ret: Option<ExprType>,
    is_async: bool,
) -> (HostEnv, Rc<Cell<usize>>) {
    let statics: Vec<Static> = syns.iter().map(to_static).collect();
    let mut b = CallableMetadataBuilder::new(name)
        .with_async(is_async)
        .with_syntax(Box::leak(statics.into_boxed_slice()))
        .with_category("Host")
        .with_description("Host.");
    if let Some(t) = ret {
        b = b.with_return_type(t);
    }
    let md = b.build();
    with_env(|env| {
        let mut upcalls = env.upcalls.clone();
        let current = Rc::new(Cell::new(0));
        let target = Target { md, syns: Rc::new(syns), current: current.clone(), state: env.state.clone() };
        upcalls.insert(
            SymbolKey::from(name),
            Rc::new(target) as Rc<dyn Callable>,
        );
        (HostEnv { state: env.state.clone(), upcalls }, current)
    })
}

// --- Checks ----------------------------------------------------------------------------------

const SETUP: &str = "i = 3: d = 1.5: t = \"q\": b = TRUE: DIM a(2, 3) AS INTEGER: a(1, 2) = 5: DIM e(4) AS DOUBLE";
const SHARED: &str = "DIM SHARED i AS INTEGER: DIM SHARED d AS DOUBLE: DIM SHARED t AS STRING: DIM SHARED b AS BOOLEAN: \
                      DIM SHARED a(2, 3) AS INTEGER: DIM SHARED e(4) AS DOUBLE";

/// The lines before the call, and those after what follows it.
fn context(c: usize) -> (String, &'static str) {
    match c {
        0 => (format!("{}\n", SETUP), ""),
        1 => (format!("x1 = 1: i = 8: SUB s(p, q$)\nz = 9: {}\n", SETUP), "\nEND SUB\ns 1, \"a\"\nOUT i; x1"),
        2 => (
            format!("{}: DIM SHARED g AS INTEGER\nSUB s(p)\nx = 9: i = 3: d = 1.5: t = \"q\": b = TRUE: a(1, 2) = 5\n", SHARED),
            "\nEND SUB\ns 1",
        ),
        _ => unreachable!(),
    }
}

fn text_of(text: &str) -> String {
    format!("l12: {}", text)
}

#[allow(clippy::too_many_arguments)]
fn judge(
    what: &str,
    text: &str,
    want: Option<Vec<String>>,
    line: usize,
    env: &HostEnv,
    cx: &mut Cx,
) -> CaseResult {
    let r = corex::run(env, text, &[], Limits::default(), 1000);
    cx.step(1);
    let ok = match &want {
        None => {
            cx.count("rejected");
            r.out.is_empty() && matches!(&r.stop, Stop::Compile(p, _) if p.line == line)
        }
        Some(w) => {
            cx.count("accepted");
            r.stop == Stop::Eof && r.out == *w
        }
    };
    match ok {
        true => Ok(()),
        false => Err(Failure::new(
            text_of(&format!("{} for {}", text.lines().nth(line - 1).unwrap_or(""), what)),
            format!("callable {}\nprogram\n{}\nexpected {:?}\nactual   {:?} {:?}", what, text, want, r.stop, r.out),
        )),
    }
}

fn describe(syns: &[Syn]) -> String {
    let statics: Vec<Static> = syns.iter().map(to_static).collect();
    CallableMetadataBuilder::new("CMD")
        .with_syntax(Box::leak(statics.into_boxed_slice()))
        .with_category("Host")
        .with_description("Host.")
        .build()
        .syntax()
}

fn well_formed(given: &[usize]) -> bool {
    // One missing argument is the same as none.
    !(given.len() == 1 && given[0] == 0)
}

/// The sources of all argument lists of up to `max` arguments over the first `n` things to give.
fn for_all_lists(n: u64, max: u32, mut f: impl FnMut(&[usize], &[usize]) -> CaseResult) -> CaseResult {
    for idx in 0..seq_count(n, 0, max) {
        let given = seq_decode(n, 0, idx);
        if !well_formed(&given) {
            continue;
        }
        let ns = given.len().saturating_sub(1) as u32;
        for s in 0..3u64.pow(ns) {
            let mut seps = vec![];
            let mut x = s;
            for _ in 0..ns {
                seps.push((x % 3) as usize);
                x /= 3;
            }
            f(&given, &seps)?;
        }
    }
    Ok(())
}

fn commands(syns: Vec<Syn>, ctx: usize, is_async: bool, n: u64, max: u32, cx: &mut Cx) -> CaseResult {
    let what = describe(&syns);
    let (env, current) = make_env(syns.clone(), "CMD", None, is_async);
    let (before, after) = context(ctx);
    let line = before.matches('\n').count() + 1;
    cx.state(&(what.as_str(), ctx, is_async));
    for_all_lists(n, max, |given, seps| {
        let (text, args) = write_args(given, seps, 4);
        let syn = syns.iter().position(|s| s.accepts(args.len()));
        current.set(syn.unwrap_or(0));
        let d = syn.and_then(|s| deliver(&syns[s], &args, 1));
        let (program, want) = match d {
            None => (format!("{}CMD{}\nOUT 1{}", before, text, after), None),
            Some((items, refs)) => {
                cx.traces += 1;
                // Everything is shown afterwards, including what the call defined.
                let mut vars: Vec<(String, Val)> = vec![
                    ("i".to_owned(), Val::I(3)),
                    ("d#".to_owned(), Val::D(1.5)),
                    ("t".to_owned(), Val::T("q")),
                    ("b".to_owned(), Val::B(true)),
                ];
                for (k, (name, v)) in refs.iter().enumerate() {
                    let nv = new_value(k, v.typ());
                    match vars.iter_mut().find(|x| x.0 == *name) {
                        Some(x) => x.1 = nv,
                        None => vars.push((name.clone(), nv)),
                    }
                }
                vars.push(("a(1, 2)".to_owned(), Val::I(5)));
                let names: Vec<&str> = vars.iter().map(|x| x.0.as_str()).collect();
                let vals: Vec<String> = vars.iter().map(|x| x.1.show()).collect();
                let mut want = vec![
                    match items.is_empty() {
                        true => "CMD ".to_owned(),
                        false => format!("CMD {}", items.join(" | ")),
                    },
                    vals.join(" "),
                ];
                if ctx == 1 {
                    want.push("8% 1%".to_owned());
                }
                (format!("{}CMD{}\nOUT {}{}", before, text, names.join("; "), after), Some(want))
            }
        };
        judge(&what, &program, want, line, &env, cx)
    })
}

fn end(k: Kind) -> (Kind, ArgSepSyntax) {
    (k, ArgSepSyntax::End)
}

/// Syntaxes to combine, with their smallest and largest number of arguments.
fn alternatives() -> Vec<(Syn, usize, usize)> {
    let v = |n: usize, k: Kind| Syn {
        singular: (0..n)
            .map(|i| (k, if i + 1 == n { ArgSepSyntax::End } else { SEPS[0] }))
            .collect(),
        rep: None,
    };
    let r = |n: usize, i: u64, one: bool| Syn {
        singular: (0..n).map(|_| (Kind::Value(Integer), SEPS[1])).collect(),
        rep: Some(Rep { one, ..rep(i) }),
    };
    vec![
        (Syn::default(), 0, 0),
        (v(1, Kind::Value(Integer)), 1, 1),
        (v(1, Kind::Optional(Text)), 1, 1),
        (v(1, Kind::Ref { array: false, define: true }), 1, 1),
        (v(2, Kind::Value(Text)), 2, 2),
        (v(2, Kind::Any(true)), 2, 2),
        (v(2, Kind::Ref { array: true, define: false }), 2, 2),
        (v(3, Kind::Value(Double)), 3, 3),
        (v(3, Kind::Any(false)), 3, 3),
        (r(2, 0, true), 3, usize::MAX),
        (r(1, 1, true), 2, usize::MAX),
        (r(0, 2, true), 1, usize::MAX),
    ]
}

fn alternative_sets() -> Vec<Vec<Syn>> {
    let all = alternatives();
    let mut l = vec![];
    for i in 0..all.len() {
        for j in 0..all.len() {
            if i == j || (all[i].1 <= all[j].2 && all[j].1 <= all[i].2) {
                continue;
            }
            l.push(vec![all[i].0.clone(), all[j].0.clone()]);
            for k in 0..all.len() {
                let apart = |a: usize, b: usize| all[a].1 > all[b].2 || all[b].1 > all[a].2;
                if k != i && k != j && apart(i, k) && apart(j, k) {
                    l.push(vec![all[i].0.clone(), all[j].0.clone(), all[k].0.clone()]);
                }
            }
        }
    }
    l
}

// Functions.

const FKINDS: [Kind; 8] = [
    Kind::Value(Integer),
    Kind::Any(false),
    Kind::Ref { array: false, define: false },
    Kind::Ref { array: true, define: false },
    Kind::Value(Text),
    Kind::Value(Double),
    Kind::Value(Boolean),
    Kind::Any(false),
];

/// All syntaxes of functions with up to two single arguments.
fn function_syns() -> Vec<Syn> {
    let long = ArgSepSyntax::Exactly(ArgSep::Long);
    let one = ArgSepSyntax::OneOf(&[ArgSep::Long]);
    let mut l = vec![];
    for a in FKINDS {
        l.push(Syn { singular: vec![end(a)], rep: None });
        for b in FKINDS {
            for s in [long, one] {
                l.push(Syn { singular: vec![(a, s), end(b)], rep: None });
            }
        }
    }
    for t in REP_TYPES {
        for sep in [long, one] {
            for req in [true, false] {
                let r = Rep { t: t.clone(), sep, one: req, missing: false };
                // Without anything required there is no way to write the call with no arguments.
                l.push(Syn { singular: vec![], rep: Some(r.clone()) });
                for a in FKINDS {
                    l.push(Syn { singular: vec![(a, sep)], rep: Some(r.clone()) });
                }
            }
        }
    }
    l
}

const RETURNS: [(ExprType, &str); 4] = [(Integer, ""), (Double, "0.25#"), (Text, "ret$"), (Boolean, "true?")];

fn functions(syn: Syn, ret: usize, is_async: bool, n: u64, cx: &mut Cx) -> CaseResult {
    let syns = vec![syn.clone()];
    let what = describe(&syns);
    let (env, _) = make_env(syns, "FUN", Some(RETURNS[ret].0), is_async);
    let line = 2;
    cx.state(&(what.as_str(), ret, is_async));
    for idx in 0..seq_count(n, 1, 3) {
        let given = seq_decode(n, 1, idx);
        // A function does not define variables; the syntax has no say in that.
        let seps = vec![0; given.len()];
        let (text, mut args) = write_args(&given, &seps, 9);
        if given == [0] {
            // Nothing between the parentheses is no arguments.
            args.clear();
        }
        let reps_undef = syn.rep.as_ref().is_some_and(|r| r.t == RepeatedTypeSyntax::VariableRef)
            && args.iter().skip(syn.singular.len()).any(|a| matches!(a.g, Given::Undef(..)));
        if reps_undef {
            continue;
        }
        let d = match args.iter().any(|a| matches!(a.g, Given::Missing)) {
            true => None,
            false if !syn.accepts(args.len()) => None,
            false => deliver(&syn, &args, 5),
        };
        let setup = SETUP;
        let (program, want) = match d {
            None => (format!("{}\nr = FUN({})\nOUT 1", setup, text), None),
            Some((items, refs)) => {
                cx.traces += 1;
                let v = match ret {
                    0 => format!("{}%", items.len() + 40),
                    _ => match RETURNS[ret].0 {
                        Double => show_double(0.25),
                        _ => RETURNS[ret].1.to_owned(),
                    },
                };
                let mut vars = vec![
                    ("i".to_owned(), Val::I(3)),
                    ("d#".to_owned(), Val::D(1.5)),
                    ("t".to_owned(), Val::T("q")),
                    ("b".to_owned(), Val::B(true)),
                ];
                for (k, (name, v)) in refs.iter().enumerate() {
                    if let Some(x) = vars.iter_mut().find(|x| x.0 == *name) {
                        x.1 = new_value(k, v.typ());
                    }
                }
                let vals: Vec<String> = vars.iter().map(|x| x.1.show()).collect();
                let want = vec![format!("FUN {}", items.join(" | ")), format!("{} {}", v, vals.join(" "))];
                (format!("{}\nr = FUN({})\nOUT r; i; d#; t; b", setup, text), Some(want))
            }
        };
        judge(&what, &program, want, line, &env, cx)?;
    }
    Ok(())
}

/// Trees of calls: a leaf is a number, a node is a call of one of two functions with one to three arguments.
fn tree(depth: u32, code: &mut u64, out: &mut String, log: &mut Vec<String>, next: &mut i32) -> i32 {
    let c = *code % if depth == 0 { 1 } else { 4 };
    *code /= if depth == 0 { 1 } else { 4 };
    if c == 0 {
        *next += 1;
        out.push_str(&next.to_string());
        return *next;
    }
    out.push_str("FUN(");
    let mut vals = vec![];
    for k in 0..c {
        if k > 0 {
            out.push_str(", ");
        }
        vals.push(tree(depth - 1, code, out, log, next));
    }
    out.push(')');
    log.push(format!("FUN {}", vals.iter().map(|v| format!("v {}%", v)).collect::<Vec<_>>().join(" | ")));
    vals.len() as i32 + 40
}

fn nested(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[2, 2, 4u64.pow(7)], idx);
    let syn = Syn {
        singular: vec![],
        rep: Some(Rep {
            t: RepeatedTypeSyntax::TypedValue(Integer),
            sep: ArgSepSyntax::Exactly(ArgSep::Long),
            one: true,
            missing: false,
        }),
    };
    let (env, _) = make_env(vec![syn], "FUN", Some(Integer), d[0] == 1);
    let mut code = d[2] as u64;
    let (mut s, mut log, mut next) = (String::new(), vec![], 0);
    let v1 = tree(2, &mut code, &mut s, &mut log, &mut next);
    s.push_str(" * 1000 + ");
    let v2 = tree(2, &mut code, &mut s, &mut log, &mut next);
    if code != 0 {
        // The same as the one with a smaller code.
        cx.trivial += 1;
        return Ok(());
    }
    log.push(format!("{}%", v1 * 1000 + v2));
    let program = match d[1] {
        0 => format!("OUT {}", s),
        _ => format!("FUNCTION w(p)\nw = p + {}\nEND FUNCTION\nOUT w(0)", s),
    };
    cx.state(&program);
    cx.traces += 1;
    cx.step(1);
    let r = corex::run(&env, &program, &[], Limits::default(), 100);
    // Positions are checked elsewhere.
    let out: Vec<String> = r
        .out
        .iter()
        .map(|l| l.split(" | ").map(|x| x.split('@').next().unwrap()).collect::<Vec<_>>().join(" | "))
        .collect();
    match r.stop == Stop::Eof && out == log {
        true => Ok(()),
        false => Err(Failure::new(
            text_of(&program),
            format!("program\n{}\nexpected {:?}\nactual   {:?} {:?}", program, log, r.stop, out),
        )),
    }
}

/// Many arguments: all of them arrive, or the call is rejected because there is no room.
fn many(idx: u64, cx: &mut Cx) -> CaseResult {
    let d = mixed(&[NREPS, 2, 6], idx);
    let syn = Syn { singular: vec![], rep: Some(rep(d[0] as u64)) };
    let what = describe(std::slice::from_ref(&syn));
    let (env, _) = make_env(vec![syn.clone()], "CMD", None, d[1] == 1);
    let locals = [0usize, 1, 10, 30, 50, 60][d[2]];
    let (given, r) = {
        let r = syn.rep.as_ref().unwrap();
        let g = match r.t {
            RepeatedTypeSyntax::AnyValue => 10,
            RepeatedTypeSyntax::TypedValue(Integer) => 1,
            RepeatedTypeSyntax::TypedValue(Text) => 4,
            RepeatedTypeSyntax::TypedValue(Double) => 6,
            RepeatedTypeSyntax::TypedValue(Boolean) => 7,
            RepeatedTypeSyntax::VariableRef => 2,
        };
        (g, r)
    };
    let sep = match r.sep {
        ArgSepSyntax::Exactly(s) => s,
        ArgSepSyntax::OneOf(l) => l[0],
        ArgSepSyntax::End => unreachable!(),
    };
    let sep = match sep {
        ArgSep::Long => 0,
        ArgSep::Short => 1,
        _ => 2,
    };
    let mut full = false;
    let mut most = 0;
    for n in 1..70usize {
        let (text, args) = write_args(&vec![given; n], &vec![sep; n], 4);
        let (items, _) = deliver(&syn, &args, 1).unwrap();
        let vars: Vec<String> = (0..locals).map(|k| format!("v{} = {}", k, k)).collect();
        let (pre, post) = match locals {
            0 => ("i = 3\n".to_owned(), ""),
            _ => (format!("SUB s\ni = 3: {}\n", vars.join(": ")), "\nEND SUB\ns"),
        };
        let program = format!("{}CMD{}{}", pre, text, post);
        cx.step(1);
        cx.traces += 1;
        env.state.borrow_mut().out.clear();
        // Each write goes to the same variable: only the first four values are known.
        let r = corex::run(&env, &program, &[], Limits::default(), 1000);
        let ok = match &r.stop {
            Stop::Compile(_, m) => {
                full = true;
                r.out.is_empty() && m.contains("registers")
            }
            Stop::Eof => !full && r.out == [format!("CMD {}", items.join(" | "))],
            _ => false,
        };
        if !full {
            most = n;
        }
        if !ok {
            return Err(Failure::new(
                text_of(&format!("{} arguments, {} variables, {}", n, locals, what)),
                format!("program\n{}\nactual   {:?} {:?}", program, r.stop, r.out),
            ));
        }
    }
    cx.state(&(idx, most));
    // There are 64 registers for variables and arguments.
    let room = (64 - 5usize).saturating_sub(locals) / 2;
    if most < room {
        return Err(Failure::new(
            text_of(&format!("few arguments, {} variables, {}", locals, what)),
            format!("only {} arguments fit with {} variables", most, locals),
        ));
    }
    Ok(())
}

fn sections(tier: Tier) -> Vec<Section> {
    let mut l = vec![];
    let both = [3u64, 2];
    let show = |d: &str, i: u64| format!("{} #{}", d, i);

    let r = [3, 2, 11];
    l.push(Section::new("one", product(&r), move |i| show("one", i), move |i, cx| {
        let d = mixed(&r, i);
        commands(vec![Syn { singular: vec![end(KINDS[d[2]])], rep: None }], d[0], d[1] == 1, 19, 2, cx)
    }));

    let r = [11, 11, 5, 6];
    let n = tier.pick(3, 12);
    let n2 = tier.pick(8, 19);
    l.push(Section::new("two", product(&r), move |i| show("two", i), move |i, cx| {
        let d = mixed(&r, i);
        let c = mixed(&both, d[3] as u64);
        let syn = Syn { singular: vec![(KINDS[d[0]], SEPS[d[2]]), end(KINDS[d[1]])], rep: None };
        commands(vec![syn.clone()], c[0], c[1] == 1, if d[3] == 0 { 19 } else { n2 }, 2, cx)?;
        if d[3] == 0 { commands(vec![syn], c[0], c[1] == 1, n, 3, cx) } else { Ok(()) }
    }));

    if tier == Tier::Thorough {
        let r = [11, 11, 11, 5, 5];
        l.push(Section::new("three", product(&r), move |i| show("three", i), move |i, cx| {
            let d = mixed(&r, i);
            let syn = Syn {
                singular: vec![(KINDS[d[0]], SEPS[d[3]]), (KINDS[d[1]], SEPS[d[4]]), end(KINDS[d[2]])],
                rep: None,
            };
            commands(vec![syn], (i % 3) as usize, i % 2 == 1, 8, 3, cx)
        }));
    }

    let r = [NREPS, 6];
    let n = tier.pick(5, 19);
    l.push(Section::new("repeated", product(&r), move |i| show("repeated", i), move |i, cx| {
        let d = mixed(&r, i);
        let c = mixed(&both, d[1] as u64);
        commands(vec![Syn { singular: vec![], rep: Some(rep(d[0] as u64)) }], c[0], c[1] == 1, if d[1] == 0 { 8 } else { n }, 3, cx)
    }));

    let r = [NREPS, tier.pick(6, 11), tier.pick(3, 5)];
    let n = tier.pick(3, 8);
    let n2 = tier.pick(8, 12);
    l.push(Section::new("mixed", product(&r), move |i| show("mixed", i), move |i, cx| {
        let d = mixed(&r, i);
        let syn = Syn { singular: vec![(KINDS[d[1]], SEPS[d[2]])], rep: Some(rep(d[0] as u64)) };
        commands(vec![syn.clone()], (i % 3) as usize, i % 2 == 1, n, 3, cx)?;
        commands(vec![syn], (i % 3) as usize, i % 2 == 0, n2, 2, cx)
    }));

    let sets = alternative_sets();
    l.push(Section::new("alternatives", sets.len() as u64 * 3, move |i| show("alternatives", i), {
        let n = tier.pick(4, 10);
        move |i, cx| {
            commands(sets[(i / 3) as usize].clone(), (i % 3) as usize, i % 2 == 1, n, 3, cx)
        }
    }));

    let syns = function_syns();
    let r = [4, 2, syns.len() as u64];
    let n = tier.pick(6, 19);
    l.push(Section::new("functions", product(&r), move |i| show("functions", i), move |i, cx| {
        let d = mixed(&r, i);
        functions(syns[d[2]].clone(), d[0], d[1] == 1, n, cx)
    }));

    l.push(Section::new("nested", 4 * 4u64.pow(7), move |i| show("nested", i), nested));
    l.push(Section::new("many", NREPS * 12, move |i| show("many", i), many));
    l
}
