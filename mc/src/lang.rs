//! Reference model of the EndBASIC language: syntax trees, their textual form, their types, and a
//! direct interpreter.  Everything here is written from the language's definition and shares no
//! code with the implementation: there are no registers, no bytecode, and no jump fixups.

use std::collections::HashMap;
use std::fmt::Write;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub enum Ty {
    B,
    D,
    I,
    S,
}

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::B => "BOOLEAN",
            Ty::D => "DOUBLE",
            Ty::I => "INTEGER",
            Ty::S => "STRING",
        }
    }
    pub fn suffix(self) -> char {
        match self {
            Ty::B => '?',
            Ty::D => '#',
            Ty::I => '%',
            Ty::S => '$',
        }
    }
    pub fn num(self) -> bool {
        matches!(self, Ty::D | Ty::I)
    }
    pub fn default(self) -> V {
        match self {
            Ty::B => V::B(false),
            Ty::D => V::D(0.0),
            Ty::I => V::I(0),
            Ty::S => V::S(Arc::from("")),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    B(bool),
    D(f64),
    I(i32),
    S(Arc<str>),
}

impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::B(_) => Ty::B,
            V::D(_) => Ty::D,
            V::I(_) => Ty::I,
            V::S(_) => Ty::S,
        }
    }
    pub fn s(s: &str) -> V {
        V::S(Arc::from(s))
    }
    /// Canonical form used to compare observations.
    pub fn show(&self) -> String {
        match self {
            V::B(b) => format!("{}?", b),
            V::D(d) => show_double(*d),
            V::I(i) => format!("{}%", i),
            V::S(s) => format!("{}$", s),
        }
    }
}

pub fn show_double(d: f64) -> String {
    if d.is_nan() { "nan#".to_owned() } else { format!("{:?}#", d) }
}

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub enum Op {
    Pow,
    Mul,
    Div,
    Mod,
    Add,
    Sub,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
    Xor,
}

pub const OPS: [Op; 17] = [
    Op::Pow,
    Op::Mul,
    Op::Div,
    Op::Mod,
    Op::Add,
    Op::Sub,
    Op::Shl,
    Op::Shr,
    Op::Eq,
    Op::Ne,
    Op::Lt,
    Op::Le,
    Op::Gt,
    Op::Ge,
    Op::And,
    Op::Or,
    Op::Xor,
];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Pow => "^",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "MOD",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Shl => "<<",
            Op::Shr => ">>",
            Op::Eq => "=",
            Op::Ne => "<>",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::And => "AND",
            Op::Or => "OR",
            Op::Xor => "XOR",
        }
    }
    /// Binding strength; larger binds tighter.  Unary operators sit between `^` and `*`.
    pub fn prec(self) -> u8 {
        match self {
            Op::Pow => 7,
            Op::Mul | Op::Div | Op::Mod => 5,
            Op::Add | Op::Sub => 4,
            Op::Shl | Op::Shr => 3,
            Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => 2,
            Op::And | Op::Or | Op::Xor => 1,
        }
    }
}

pub const UNARY_PREC: u8 = 6;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
pub enum Uop {
    Neg,
    Not,
}

/// Expressions.  The number in operators and calls is an opaque tag for the position.
#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    Var(String),
    Un(Uop, u32, Box<E>),
    Bin(Op, u32, Box<E>, Box<E>),
    Call(String, u32, Vec<E>),
    Idx(String, u32, Vec<E>),
    Par(Box<E>),
}

pub fn lit_i(i: i32) -> E {
    E::Lit(V::I(i))
}
pub fn lit_d(d: f64) -> E {
    E::Lit(V::D(d))
}
pub fn lit_s(s: &str) -> E {
    E::Lit(V::s(s))
}
pub fn lit_b(b: bool) -> E {
    E::Lit(V::B(b))
}
pub fn var(n: &str) -> E {
    E::Var(n.to_owned())
}
pub fn bin(op: Op, a: E, b: E) -> E {
    E::Bin(op, 0, Box::new(a), Box::new(b))
}
pub fn add(a: E, b: E) -> E {
    bin(Op::Add, a, b)
}
pub fn call(n: &str, args: Vec<E>) -> E {
    E::Call(n.to_owned(), 0, args)
}
pub fn idx(n: &str, args: Vec<E>) -> E {
    E::Idx(n.to_owned(), 0, args)
}

pub fn lit_text(v: &V) -> String {
    match v {
        V::B(true) => "TRUE".to_owned(),
        V::B(false) => "FALSE".to_owned(),
        V::D(d) => {
            let s = format!("{}", d);
            if s.contains('.') { s } else { format!("{}.0", s) }
        }
        V::I(i) => i.to_string(),
        V::S(s) => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
    }
}

impl E {
    /// Text of the expression with every nested operator in parentheses.
    pub fn text(&self) -> String {
        match self {
            E::Lit(V::I(i)) if *i < 0 => format!("(-{})", (*i as i64).abs()),
            E::Lit(V::D(d)) if *d < 0.0 => format!("(-{})", lit_text(&V::D(-d))),
            E::Lit(v) => lit_text(v),
            E::Var(n) => n.clone(),
            E::Un(Uop::Neg, _, e) => format!("-{}", e.atom()),
            E::Un(Uop::Not, _, e) => format!("NOT {}", e.atom()),
            E::Bin(op, _, a, b) => format!("{} {} {}", a.atom(), op.text(), b.atom()),
            E::Call(n, _, args) if args.is_empty() => n.clone(),
            E::Call(n, _, args) | E::Idx(n, _, args) => {
                format!("{}({})", n, args.iter().map(|a| a.text()).collect::<Vec<_>>().join(", "))
            }
            E::Par(e) => format!("({})", e.text()),
        }
    }
    fn atom(&self) -> String {
        match self {
            E::Un(..) | E::Bin(..) => format!("({})", self.text()),
            _ => self.text(),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Operators.

/// A run-time error: its message and the tag of where it happened.
#[derive(Clone, Debug)]
pub struct Rt {
    pub msg: String,
    pub tag: u32,
}

fn rt<T>(tag: u32, msg: impl Into<String>) -> Result<T, Rt> {
    Err(Rt { msg: msg.into(), tag })
}

/// Type of a unary operation, or None if it is not defined.
pub fn un_ty(op: Uop, t: Ty) -> Option<Ty> {
    match (op, t) {
        (Uop::Neg, Ty::D | Ty::I) => Some(t),
        (Uop::Not, Ty::B | Ty::I) => Some(t),
        _ => None,
    }
}

/// Type of a binary operation, or None if it is not defined.
pub fn bin_ty(op: Op, a: Ty, b: Ty) -> Option<Ty> {
    let num = |int, mix| match (a, b) {
        (Ty::I, Ty::I) => Some(int),
        (Ty::I | Ty::D, Ty::I | Ty::D) => mix,
        _ => None,
    };
    match op {
        Op::Add if a == Ty::S && b == Ty::S => Some(Ty::S),
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Mod | Op::Pow => num(Ty::I, Some(Ty::D)),
        Op::Shl | Op::Shr => num(Ty::I, None),
        Op::And | Op::Or | Op::Xor if a == Ty::B && b == Ty::B => Some(Ty::B),
        Op::And | Op::Or | Op::Xor => num(Ty::I, None),
        Op::Eq | Op::Ne if a == b => Some(Ty::B),
        Op::Lt | Op::Le | Op::Gt | Op::Ge if a == Ty::S && b == Ty::S => Some(Ty::B),
        _ => num(Ty::B, Some(Ty::B)),
    }
}

pub fn un_eval(op: Uop, v: V, tag: u32) -> Result<V, Rt> {
    Ok(match (op, v) {
        (Uop::Neg, V::D(d)) => V::D(-d),
        (Uop::Neg, V::I(i)) => {
            if i == i32::MIN {
                return rt(tag, "Integer overflow");
            }
            V::I(-i)
        }
        (Uop::Not, V::B(b)) => V::B(!b),
        (Uop::Not, V::I(i)) => V::I(-1 - i),
        _ => unreachable!(),
    })
}

fn fit(x: i128, tag: u32, msg: &str) -> Result<V, Rt> {
    if x < i32::MIN as i128 || x > i32::MAX as i128 { rt(tag, msg) } else { Ok(V::I(x as i32)) }
}

pub fn bin_eval(op: Op, a: V, b: V, tag: u32) -> Result<V, Rt> {
    Ok(match (op, a, b) {
        (Op::Add, V::S(a), V::S(b)) => V::s(&format!("{}{}", a, b)),
        (_, V::S(a), V::S(b)) => V::B(ord(op, a.as_bytes().cmp(b.as_bytes()))),
        (op, V::B(a), V::B(b)) => V::B(match op {
            Op::And => a && b,
            Op::Or => a || b,
            Op::Xor | Op::Ne => a != b,
            Op::Eq => a == b,
            _ => unreachable!(),
        }),
        (op, V::I(a), V::I(b)) => {
            let (x, y) = (a as i128, b as i128);
            match op {
                Op::Add => fit(x + y, tag, "Integer overflow")?,
                Op::Sub => fit(x - y, tag, "Integer underflow")?,
                Op::Mul => fit(x * y, tag, "Integer overflow")?,
                Op::Div if y == 0 => return rt(tag, "Division by zero"),
                Op::Div => fit(x / y, tag, "Integer underflow")?,
                Op::Mod if y == 0 => return rt(tag, "Modulo by zero"),
                Op::Mod if x == i32::MIN as i128 && y == -1 => return rt(tag, "Integer underflow"),
                Op::Mod => fit(x % y, tag, "")?,
                Op::Pow if y < 0 => {
                    return rt(tag, format!("Exponent {} cannot be negative", y));
                }
                Op::Pow => {
                    let mut r: i128 = 1;
                    let e = if x.abs() <= 1 { y % 2 + 2 * (y > 0) as i128 } else { y };
                    for _ in 0..e {
                        r *= x;
                        if r.abs() > 1 << 40 {
                            break;
                        }
                    }
                    fit(r, tag, "Integer overflow")?
                }
                Op::Shl | Op::Shr if y < 0 => {
                    return rt(
                        tag,
                        format!("Number of bits to {} ({}) must be positive", op.text(), y),
                    );
                }
                Op::Shl if y >= 32 => V::I(0),
                Op::Shl => V::I(((x << y) as u64 as u32) as i32),
                Op::Shr => V::I((x >> y.min(40)) as i32),
                Op::And => V::I(bits(a, b, |p, q| p && q)),
                Op::Or => V::I(bits(a, b, |p, q| p || q)),
                Op::Xor => V::I(bits(a, b, |p, q| p != q)),
                _ => V::B(ord(op, a.cmp(&b))),
            }
        }
        (op, a, b) => {
            let (a, b) = (as_d(&a), as_d(&b));
            match op {
                Op::Add => V::D(a + b),
                Op::Sub => V::D(a - b),
                Op::Mul => V::D(a * b),
                Op::Div => V::D(a / b),
                Op::Mod => V::D(a % b),
                Op::Pow => V::D(a.powf(b)),
                Op::Eq => V::B(a == b),
                Op::Ne => V::B(a != b),
                Op::Lt => V::B(a < b),
                Op::Le => V::B(a <= b),
                Op::Gt => V::B(a > b),
                Op::Ge => V::B(a >= b),
                _ => unreachable!(),
            }
        }
    })
}

fn bits(a: i32, b: i32, f: fn(bool, bool) -> bool) -> i32 {
    let mut r = 0u32;
    for i in 0..32 {
        if f((a as u32) & (1 << i) != 0, (b as u32) & (1 << i) != 0) {
            r |= 1 << i;
        }
    }
    r as i32
}

fn ord(op: Op, o: std::cmp::Ordering) -> bool {
    match op {
        Op::Eq => o.is_eq(),
        Op::Ne => o.is_ne(),
        Op::Lt => o.is_lt(),
        Op::Le => o.is_le(),
        Op::Gt => o.is_gt(),
        Op::Ge => o.is_ge(),
        _ => unreachable!(),
    }
}

fn as_d(v: &V) -> f64 {
    match v {
        V::D(d) => *d,
        V::I(i) => *i as f64,
        _ => unreachable!(),
    }
}

/// Converts a value to the type of the place that receives it.
pub fn cast(v: V, to: Ty, tag: u32) -> Result<V, Rt> {
    Ok(match (v, to) {
        (V::I(i), Ty::D) => V::D(i as f64),
        (V::D(d), Ty::I) => {
            // Rounds halves away from zero.
            let t = d.trunc();
            let r = if (d - t).abs() >= 0.5 { t + d.signum() } else { t };
            if !(r >= i32::MIN as f64 && r <= i32::MAX as f64) {
                return rt(tag, format!("Cannot cast {} to integer due to overflow", r));
            }
            V::I(r as i32)
        }
        (v, to) => {
            debug_assert_eq!(v.ty(), to);
            v
        }
    })
}

pub fn castable(from: Ty, to: Ty) -> bool {
    from == to || (from.num() && to.num())
}

// ------------------------------------------------------------------------------------------------
// Statements.

pub type Block = Vec<S>;

#[derive(Clone, Debug)]
pub enum Guard {
    Is(Op, E),
    Val(E),
    To(E, E),
}

#[derive(Clone, Debug)]
pub enum DoG {
    Inf,
    PreWhile(E),
    PreUntil(E),
    PostWhile(E),
    PostUntil(E),
}

#[derive(Clone, Debug)]
pub enum S {
    /// Text that declares or does nothing at run time.
    Raw(String),
    /// Declares a variable for the reference; takes no text.
    Hidden(String, Ty),
    Let(String, E),
    LetIdx(String, Vec<E>, E),
    Dim(String, Ty),
    DimArr(String, Ty, Vec<E>),
    Out(Vec<E>),
    Cmd(String, Vec<E>),
    If(Vec<(E, Block)>, Option<Block>),
    /// Single-line conditional.
    If1(E, Box<S>, Option<Box<S>>),
    Select(E, Vec<(Vec<Guard>, Block)>, Option<Block>),
    While(E, Block),
    Do(DoG, Block),
    For(String, E, E, Option<V>, Block),
    ExitDo,
    ExitFor,
    ExitCallable,
    Goto(String),
    Gosub(String),
    Return,
    Label(String),
    OnErrGoto(String),
    OnErrOff,
    OnErrNext,
    End(Option<E>),
}

#[derive(Clone, Debug)]
pub struct Callable {
    pub name: String,
    pub ret: Option<Ty>,
    pub params: Vec<(String, Ty)>,
    pub body: Block,
}

/// A whole program.
#[derive(Clone, Debug, Default)]
pub struct Prog {
    /// Shared scalar variables, declared first.
    pub shared: Vec<(String, Ty)>,
    /// Shared arrays, declared first.
    pub shared_arrs: Vec<(String, Ty, Vec<i32>)>,
    pub callables: Vec<Callable>,
    pub main: Block,
    /// Whether to put the callables after the main code, behind forward declarations.
    pub callables_last: bool,
}

/// Renders a program; every statement that can fail gets its own line, which is recorded.
pub struct Printer {
    pub text: String,
    line: u32,
    indent: usize,
}

impl Printer {
    fn ln(&mut self, s: &str) {
        for _ in 0..self.indent {
            self.text.push(' ');
        }
        self.text.push_str(s);
        self.text.push('\n');
        self.line += 1;
    }
}

fn args_text(args: &[E], sep: &str) -> String {
    args.iter().map(|a| a.text()).collect::<Vec<_>>().join(sep)
}

/// Arguments of a command.  An initial parenthesis would make it look like an array assignment.
fn cmd_args_text(args: &[E], sep: &str) -> String {
    let mut v: Vec<String> = args.iter().map(|a| a.text()).collect();
    if v.first().is_some_and(|a| a.starts_with('(')) {
        v[0] = format!("({})", v[0]);
    }
    v.join(sep)
}

fn guard_text(g: &Guard) -> String {
    match g {
        Guard::Is(op, e) => format!("IS {} {}", op.text(), e.text()),
        Guard::Val(e) => e.text(),
        Guard::To(a, b) => format!("{} TO {}", a.text(), b.text()),
    }
}

/// Text of a statement that fits in a line.
fn simple_text(s: &S, callable_kind: &str) -> String {
    match s {
        S::Raw(t) => t.clone(),
        S::Let(n, e) => format!("{} = {}", n, e.text()),
        S::LetIdx(n, subs, e) => format!("{}({}) = {}", n, args_text(subs, ", "), e.text()),
        S::Dim(n, t) => format!("DIM {} AS {}", n, t.name()),
        S::DimArr(n, t, dims) => format!("DIM {}({}) AS {}", n, args_text(dims, ", "), t.name()),
        S::Out(args) => format!("OUT {}", cmd_args_text(args, "; ")).trim_end().to_owned(),
        S::Cmd(n, args) if args.is_empty() => n.clone(),
        S::Cmd(n, args) => format!("{} {}", n, cmd_args_text(args, ", ")),
        S::If1(c, t, None) => format!("IF {} THEN {}", c.text(), simple_text(t, callable_kind)),
        S::If1(c, t, Some(e)) => format!(
            "IF {} THEN {} ELSE {}",
            c.text(),
            simple_text(t, callable_kind),
            simple_text(e, callable_kind)
        ),
        S::ExitDo => "EXIT DO".to_owned(),
        S::ExitFor => "EXIT FOR".to_owned(),
        S::ExitCallable => format!("EXIT {}", callable_kind),
        S::Goto(l) => format!("GOTO @{}", l),
        S::Gosub(l) => format!("GOSUB @{}", l),
        S::Return => "RETURN".to_owned(),
        S::Label(l) => format!("@{}", l),
        S::OnErrGoto(l) => format!("ON ERROR GOTO @{}", l),
        S::OnErrOff => "ON ERROR GOTO 0".to_owned(),
        S::OnErrNext => "ON ERROR RESUME NEXT".to_owned(),
        S::End(None) => "END".to_owned(),
        S::End(Some(e)) => format!("END {}", e.text()),
        _ => unreachable!("Not a simple statement: {:?}", s),
    }
}

/// A flattened statement.
#[derive(Clone, Debug)]
enum F {
    Simple(S),
    Jump(usize),
    /// Jumps if the expression is false.
    Unless(E, usize),
    /// Jumps if the expression is true.
    When(E, usize),
    /// Evaluates a selector into the given hidden slot.
    Sel(usize, E),
    /// Jumps if the selector does not match.
    SelUnless(usize, Vec<Guard>, usize),
    ForStart(String, E),
    ForTest(String, E, bool, usize),
    ForStep(String, V),
}

#[derive(Clone, Debug)]
struct Node {
    f: F,
    line: u32,
    /// Where to go if this fails under RESUME NEXT; None if the language does not say.
    resume: Option<usize>,
}

#[derive(Clone, Debug, Default)]
struct Code {
    nodes: Vec<Node>,
    labels: HashMap<String, usize>,
    nsel: usize,
}

struct Flat {
    pr: Printer,
    code: Code,
    do_exits: Vec<Vec<usize>>,
    for_exits: Vec<Vec<usize>>,
    kind: &'static str,
}

impl Flat {
    fn push(&mut self, f: F, resume: bool) -> usize {
        let n = self.code.nodes.len();
        self.code.nodes.push(Node { f, line: self.pr.line, resume: resume.then_some(n + 1) });
        n
    }
    fn here(&self) -> usize {
        self.code.nodes.len()
    }
    fn target(&mut self, at: usize, to: usize) {
        match &mut self.code.nodes[at].f {
            F::Jump(t) | F::Unless(_, t) | F::When(_, t) | F::SelUnless(_, _, t)
            | F::ForTest(_, _, _, t) => *t = to,
            _ => unreachable!(),
        }
    }

    fn block(&mut self, b: &Block) {
        for s in b {
            self.stmt(s);
        }
    }

    fn simple(&mut self, s: &S) {
        match s {
            S::If1(c, t, e) => {
                let j = self.push(F::Unless(c.clone(), 0), false);
                self.simple(t);
                let after_then = self.here();
                match e {
                    None => self.target(j, after_then),
                    Some(e) => {
                        let k = self.push(F::Jump(0), true);
                        let els = self.here();
                        self.target(j, els);
                        self.simple(e);
                        let end = self.here();
                        self.target(k, end);
                    }
                }
            }
            S::ExitDo => {
                let j = self.push(F::Jump(0), true);
                self.do_exits.last_mut().expect("EXIT DO outside of DO").push(j);
            }
            S::ExitFor => {
                let j = self.push(F::Jump(0), true);
                self.for_exits.last_mut().expect("EXIT FOR outside of FOR").push(j);
            }
            S::Label(l) => {
                let h = self.here();
                self.code.labels.insert(l.clone(), h);
            }
            S::Raw(_) => {}
            s => {
                self.push(F::Simple(s.clone()), true);
            }
        }
    }

    fn stmt(&mut self, s: &S) {
        match s {
            S::If(branches, els) => {
                let mut ends = vec![];
                for (i, (g, b)) in branches.iter().enumerate() {
                    let j = self.push(F::Unless(g.clone(), 0), false);
                    let kw = if i == 0 { "IF" } else { "ELSEIF" };
                    self.pr.ln(&format!("{} {} THEN", kw, g.text()));
                    self.inner(b);
                    ends.push(self.push(F::Jump(0), true));
                    let h = self.here();
                    self.target(j, h);
                }
                if let Some(b) = els {
                    self.pr.ln("ELSE");
                    self.inner(b);
                }
                self.pr.ln("END IF");
                let h = self.here();
                for e in ends {
                    self.target(e, h);
                }
            }
            S::Select(e, cases, els) => {
                let slot = self.code.nsel;
                self.code.nsel += 1;
                self.push(F::Sel(slot, e.clone()), false);
                self.pr.ln(&format!("SELECT CASE {}", e.text()));
                let mut ends = vec![];
                for (gs, b) in cases {
                    let j = self.push(F::SelUnless(slot, gs.clone(), 0), false);
                    let t = gs.iter().map(guard_text).collect::<Vec<_>>().join(", ");
                    self.pr.ln(&format!("CASE {}", t));
                    self.inner(b);
                    ends.push(self.push(F::Jump(0), true));
                    let h = self.here();
                    self.target(j, h);
                }
                if let Some(b) = els {
                    self.pr.ln("CASE ELSE");
                    self.inner(b);
                }
                self.pr.ln("END SELECT");
                let h = self.here();
                for e in ends {
                    self.target(e, h);
                }
            }
            S::While(e, b) => {
                let top = self.push(F::Unless(e.clone(), 0), false);
                self.pr.ln(&format!("WHILE {}", e.text()));
                self.inner(b);
                self.push(F::Jump(top), true);
                self.pr.ln("WEND");
                let h = self.here();
                self.target(top, h);
            }
            S::Do(g, b) => {
                let top = self.here();
                let mut jexit = None;
                match g {
                    DoG::PreWhile(e) => {
                        jexit = Some(self.push(F::Unless(e.clone(), 0), false));
                        self.pr.ln(&format!("DO WHILE {}", e.text()));
                    }
                    DoG::PreUntil(e) => {
                        jexit = Some(self.push(F::When(e.clone(), 0), false));
                        self.pr.ln(&format!("DO UNTIL {}", e.text()));
                    }
                    _ => self.pr.ln("DO"),
                }
                self.do_exits.push(vec![]);
                self.inner(b);
                match g {
                    DoG::PostWhile(e) => {
                        self.push(F::When(e.clone(), top), false);
                        self.pr.ln(&format!("LOOP WHILE {}", e.text()));
                    }
                    DoG::PostUntil(e) => {
                        self.push(F::Unless(e.clone(), top), false);
                        self.pr.ln(&format!("LOOP UNTIL {}", e.text()));
                    }
                    _ => {
                        self.push(F::Jump(top), true);
                        self.pr.ln("LOOP");
                    }
                }
                let h = self.here();
                if let Some(j) = jexit {
                    self.target(j, h);
                }
                for j in self.do_exits.pop().unwrap() {
                    self.target(j, h);
                }
            }
            S::For(v, a, z, step, b) => {
                self.push(F::ForStart(v.clone(), a.clone()), false);
                let st = step.clone().unwrap_or(V::I(1));
                let down = match st {
                    V::I(i) => i < 0,
                    V::D(d) => d < 0.0,
                    _ => unreachable!(),
                };
                let t = self.push(F::ForTest(v.clone(), z.clone(), down, 0), false);
                let mut h = format!("FOR {} = {} TO {}", v, a.text(), z.text());
                if let Some(s) = step {
                    let txt = lit_text(s);
                    write!(h, " STEP {}", txt).unwrap();
                }
                self.pr.ln(&h);
                self.for_exits.push(vec![]);
                self.inner(b);
                self.push(F::ForStep(v.clone(), st), false);
                self.push(F::Jump(t), true);
                self.pr.ln("NEXT");
                let h = self.here();
                self.target(t, h);
                for j in self.for_exits.pop().unwrap() {
                    self.target(j, h);
                }
            }
            S::Hidden(..) => {
                self.simple(s);
            }
            s => {
                self.simple(s);
                let t = simple_text(s, self.kind);
                self.pr.ln(&t);
            }
        }
    }

    fn inner(&mut self, b: &Block) {
        self.pr.indent += 1;
        self.block(b);
        self.pr.indent -= 1;
    }
}

pub struct Compiled {
    pub text: String,
    main: Code,
    callables: HashMap<String, (Callable, Code)>,
    shared: Vec<(String, Ty)>,
    shared_arrs: Vec<(String, Ty, Vec<i32>)>,
}

impl Prog {
    /// Produces the text of the program and what the reference needs to run it.
    pub fn build(&self) -> Compiled {
        let mut pr = Printer { text: String::new(), line: 1, indent: 0 };
        for (n, t) in &self.shared {
            pr.ln(&format!("DIM SHARED {} AS {}", n, t.name()));
        }
        for (n, t, d) in &self.shared_arrs {
            let d = d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
            pr.ln(&format!("DIM SHARED {}({}) AS {}", n, d, t.name()));
        }
        let mut callables = HashMap::new();
        let sig = |c: &Callable| {
            let kw = if c.ret.is_some() { "FUNCTION" } else { "SUB" };
            let mut h = format!("{} {}", kw, c.name);
            if let Some(t) = c.ret {
                h.push(t.suffix());
            }
            if !c.params.is_empty() {
                let p: Vec<_> = c
                    .params
                    .iter()
                    .enumerate()
                    .map(|(i, (n, t))| {
                        if i % 2 == 0 {
                            format!("{}{}", n, t.suffix())
                        } else {
                            format!("{} AS {}", n, t.name())
                        }
                    })
                    .collect();
                write!(h, "({})", p.join(", ")).unwrap();
            }
            (kw, h)
        };
        let do_callables = |mut pr: Printer, callables: &mut HashMap<String, (Callable, Code)>| {
            for c in &self.callables {
                let (kw, h) = sig(c);
                pr.ln(&h);
                pr.indent += 1;
                let mut fl = Flat {
                    pr,
                    code: Code::default(),
                    do_exits: vec![],
                    for_exits: vec![],
                    kind: kw,
                };
                fl.block(&c.body);
                pr = fl.pr;
                pr.indent -= 1;
                pr.ln(&format!("END {}", kw));
                callables.insert(c.name.clone(), (c.clone(), fl.code));
            }
            pr
        };
        if self.callables_last {
            for c in &self.callables {
                let (_, h) = sig(c);
                pr.ln(&format!("DECLARE {}", h));
            }
        } else {
            pr = do_callables(pr, &mut callables);
        }
        let mut fl =
            Flat { pr, code: Code::default(), do_exits: vec![], for_exits: vec![], kind: "" };
        fl.block(&self.main);
        let main = fl.code;
        let mut pr = fl.pr;
        if self.callables_last {
            pr = do_callables(pr, &mut callables);
        }
        Compiled {
            text: pr.text,
            main,
            callables,
            shared: self.shared.clone(),
            shared_arrs: self.shared_arrs.clone(),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Interpreter.

/// Environment supplied by the test: inputs and failures of the host.
pub trait Host {
    /// Next answer of the host's condition function, or None if the run has to be cut here.
    fn cond(&mut self) -> Option<bool>;
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Eof,
    End(i32),
    /// Uncaught error: line and message.
    Err(u32, String),
    /// The reference ran out of steps.
    Fuel,
    /// The program did something the language does not define.
    Unspecified(&'static str),
}

#[derive(Clone, Debug)]
struct Arr {
    dims: Vec<i32>,
    vals: Vec<V>,
}

#[derive(Clone, Debug, Default)]
struct Frame {
    vars: HashMap<String, V>,
    arrs: HashMap<String, Arr>,
    sels: HashMap<usize, V>,
    gosubs: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Handler {
    None,
    Next,
    /// Jump to a label; true once it has been used.
    Jump(bool),
}

enum Stop {
    Rt(Rt),
    /// Error already dispatched: unwinding to the code that owns the handler.
    ToOwner,
    End(End),
}

impl From<Rt> for Stop {
    fn from(r: Rt) -> Self {
        Stop::Rt(r)
    }
}

pub struct Interp<'a, H: Host> {
    c: &'a Compiled,
    pub host: &'a mut H,
    pub out: Vec<String>,
    shared: HashMap<String, V>,
    shared_arrs: HashMap<String, Arr>,
    frames: Vec<Frame>,
    /// Callables being executed, starting with the main program.
    names: Vec<String>,
    handler: Handler,
    handler_label: String,
    last_error: Option<(u32, String)>,
    pub fuel: u64,
    pub steps: u64,
    pub max_out: usize,
    depth: usize,
    err_line: u32,
}

pub const CUT: &str = "cut";
pub const FAIL_MSG: &str = "Requested failure";

impl<'a, H: Host> Interp<'a, H> {
    pub fn new(c: &'a Compiled, host: &'a mut H) -> Self {
        let mut shared_arrs = HashMap::new();
        for (n, t, d) in &c.shared_arrs {
            let total: i32 = d.iter().product();
            shared_arrs.insert(
                n.clone(),
                Arr { dims: d.clone(), vals: vec![t.default(); total as usize] },
            );
        }
        Self {
            c,
            host,
            out: vec![],
            shared: c.shared.iter().map(|(n, t)| (n.clone(), t.default())).collect(),
            shared_arrs,
            frames: vec![Frame::default()],
            names: vec![],
            handler: Handler::None,
            handler_label: String::new(),
            last_error: None,
            fuel: 2000,
            steps: 0,
            max_out: 60,
            depth: 0,
            err_line: 0,
        }
    }

    /// Value of a variable of the main program or shared.
    pub fn var(&self, n: &str) -> Option<V> {
        self.frames[0].vars.get(n).or_else(|| self.shared.get(n)).cloned()
    }

    /// Elements of an array of the main program or shared.
    pub fn arr(&self, n: &str) -> Option<Vec<V>> {
        self.frames[0].arrs.get(n).or_else(|| self.shared_arrs.get(n)).map(|a| a.vals.clone())
    }

    pub fn run(&mut self) -> End {
        let c = self.c;
        match self.code(&c.main, 0, "") {
            Ok(()) => End::Eof,
            Err(Stop::ToOwner) => unreachable!("handlers are only entered if active"),
            Err(Stop::End(e)) => e,
            Err(Stop::Rt(r)) => End::Err(self.err_line, r.msg),
        }
    }

    /// Name of the callable that contains a label; empty for the main program.
    fn owner(&self, label: &str) -> String {
        for (n, (_, code)) in &self.c.callables {
            if code.labels.contains_key(label) {
                return n.clone();
            }
        }
        String::new()
    }

    fn log(&mut self, s: String) -> Result<(), Stop> {
        self.out.push(s);
        if self.out.len() > self.max_out {
            return Err(Stop::End(End::Fuel));
        }
        Ok(())
    }

    fn frame(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }

    fn code(&mut self, code: &Code, mut pc: usize, fname: &str) -> Result<(), Stop> {
        let level = self.frames.len();
        let depth = self.depth;
        self.names.push(fname.to_owned());
        while pc < code.nodes.len() {
            let node = &code.nodes[pc];
            if self.steps >= self.fuel {
                return Err(Stop::End(End::Fuel));
            }
            self.steps += 1;
            match self.node(code, node, pc, fname) {
                Ok(Some(next)) => pc = next,
                Ok(None) => break,
                Err(Stop::ToOwner) if self.owner(&self.handler_label) == fname => {
                    self.frames.truncate(level);
                    self.depth = depth;
                    self.names.truncate(level);
                    pc = code.labels[&self.handler_label];
                }
                Err(Stop::Rt(r)) => {
                    if r.msg == CUT {
                        return Err(Stop::End(End::Err(node.line, r.msg)));
                    }
                    self.err_line = node.line;
                    self.last_error = Some((node.line, r.msg.clone()));
                    match self.handler {
                        Handler::None | Handler::Jump(true) => {
                            return Err(Stop::End(End::Err(node.line, r.msg)));
                        }
                        Handler::Next => match node.resume {
                            Some(n) => pc = n,
                            None => {
                                return Err(Stop::End(End::Unspecified(
                                    "resuming after the guard of a construct",
                                )));
                            }
                        },
                        Handler::Jump(false) => {
                            let owner = self.owner(&self.handler_label);
                            if !self.names.contains(&owner) {
                                // The handler belongs to code that is not active any more.
                                return Err(Stop::End(End::Err(node.line, r.msg)));
                            }
                            self.handler = Handler::Jump(true);
                            if owner == fname {
                                pc = code.labels[&self.handler_label];
                            } else {
                                return Err(Stop::ToOwner);
                            }
                        }
                    }
                }
                Err(e) => return Err(e),
            }
        }
        if self.names.len() > 1 && !self.frame().gosubs.is_empty() {
            return Err(Stop::End(End::Unspecified("end of a callable within GOSUB")));
        }
        self.names.pop();
        Ok(())
    }

    /// Executes a node; returns where to continue or None to leave the callable.
    fn node(
        &mut self,
        code: &Code,
        node: &Node,
        pc: usize,
        fname: &str,
    ) -> Result<Option<usize>, Stop> {
        let next = Some(pc + 1);
        match &node.f {
            F::Jump(t) => return Ok(Some(*t)),
            F::Unless(e, t) => {
                if !self.truth(e)? {
                    return Ok(Some(*t));
                }
            }
            F::When(e, t) => {
                if self.truth(e)? {
                    return Ok(Some(*t));
                }
            }
            F::Sel(slot, e) => {
                let v = self.eval(e)?;
                self.frame().sels.insert(*slot, v);
            }
            F::SelUnless(slot, gs, t) => {
                let v = self.frame().sels[slot].clone();
                let mut hit = false;
                for g in gs {
                    hit = match g {
                        Guard::Is(op, e) => {
                            let w = self.eval(e)?;
                            is_true(bin_eval(*op, v.clone(), w, 0)?)
                        }
                        Guard::Val(e) => {
                            let w = self.eval(e)?;
                            is_true(bin_eval(Op::Eq, v.clone(), w, 0)?)
                        }
                        Guard::To(a, b) => {
                            let a = self.eval(a)?;
                            let lo = is_true(bin_eval(Op::Ge, v.clone(), a, 0)?);
                            let b = self.eval(b)?;
                            lo & is_true(bin_eval(Op::Le, v.clone(), b, 0)?)
                        }
                    };
                    if hit {
                        break;
                    }
                }
                if !hit {
                    return Ok(Some(*t));
                }
            }
            F::ForStart(v, e) => {
                let x = self.eval(e)?;
                self.assign(v, x)?;
            }
            F::ForTest(v, e, down, t) => {
                let x = self.get(v);
                let y = self.eval(e)?;
                let op = if *down { Op::Ge } else { Op::Le };
                if !is_true(bin_eval(op, x, y, 0)?) {
                    return Ok(Some(*t));
                }
            }
            F::ForStep(v, st) => {
                let x = self.get(v);
                let y = bin_eval(Op::Add, x, st.clone(), 0)?;
                self.assign(v, y)?;
            }
            F::Simple(s) => match s {
                S::Let(n, e) => {
                    let x = self.eval(e)?;
                    self.assign(n, x)?;
                }
                S::LetIdx(n, subs, e) => {
                    let x = self.eval(e)?;
                    let (at, ty) = self.locate(n, subs)?;
                    let x = cast(x, ty, 0)?;
                    self.array(n).vals[at] = x;
                }
                S::Dim(n, t) | S::Hidden(n, t) => {
                    self.frame().vars.insert(n.clone(), t.default());
                }
                S::DimArr(n, t, dims) => {
                    let mut d = vec![];
                    for e in dims {
                        let v = self.eval(e)?;
                        match cast(v, Ty::I, 0)? {
                            V::I(i) => d.push(i),
                            _ => unreachable!(),
                        }
                    }
                    let mut total: usize = 1;
                    for (i, x) in d.iter().enumerate() {
                        if *x <= 0 {
                            rt(0, format!("Dimension {} must be positive", i))?;
                        }
                        total *= *x as usize;
                    }
                    self.frame()
                        .arrs
                        .insert(n.clone(), Arr { dims: d, vals: vec![t.default(); total] });
                }
                S::Out(args) => {
                    let mut l = vec![];
                    for a in args {
                        l.push(self.eval(a)?.show());
                    }
                    self.log(l.join(" "))?;
                }
                S::Cmd(n, _) if n == "FAIL" => {
                    rt(0, FAIL_MSG)?;
                }
                S::Cmd(n, args) => {
                    self.call(n, args)?;
                }
                S::ExitCallable => {
                    if !self.frame().gosubs.is_empty() {
                        return Err(Stop::End(End::Unspecified("EXIT within GOSUB")));
                    }
                    return Ok(None);
                }
                S::Goto(l) => return Ok(Some(code.labels[l])),
                S::Gosub(l) => {
                    if self.depth + self.frame().gosubs.len() > 500 {
                        return Err(Stop::End(End::Unspecified("deep")));
                    }
                    self.frame().gosubs.push(pc + 1);
                    return Ok(Some(code.labels[l]));
                }
                S::Return => match self.frame().gosubs.pop() {
                    Some(t) => return Ok(Some(t)),
                    None if self.frames.len() > 1 => {
                        return Err(Stop::End(End::Unspecified("RETURN within a callable")));
                    }
                    None => {
                        rt(0, "RETURN without GOSUB or FUNCTION call")?;
                    }
                },
                S::OnErrGoto(l) => {
                    self.handler = Handler::Jump(false);
                    self.handler_label = l.clone();
                }
                S::OnErrOff => self.handler = Handler::None,
                S::OnErrNext => self.handler = Handler::Next,
                S::End(code) => {
                    let code = match code {
                        None => 0,
                        Some(e) => match {
                            let v = self.eval(e)?;
                            cast(v, Ty::I, 0)?
                        } {
                            V::I(i) => i,
                            _ => unreachable!(),
                        },
                    };
                    if !(0..128).contains(&code) {
                        rt(0, "Exit code must be in the 0..127 range")?;
                    }
                    return Err(Stop::End(End::End(code)));
                }
                _ => unreachable!("{:?}", s),
            },
        }
        let _ = fname;
        Ok(next)
    }

    fn truth(&mut self, e: &E) -> Result<bool, Stop> {
        Ok(is_true(self.eval(e)?))
    }

    fn get(&mut self, n: &str) -> V {
        if let Some(v) = self.frames.last().unwrap().vars.get(n) {
            return v.clone();
        }
        self.shared.get(n).unwrap_or_else(|| panic!("Unknown variable {}", n)).clone()
    }

    fn assign(&mut self, n: &str, v: V) -> Result<(), Stop> {
        let place = match self.frames.last_mut().unwrap().vars.get_mut(n) {
            Some(p) => p,
            None => match self.shared.get_mut(n) {
                Some(p) => p,
                None => {
                    self.frame().vars.insert(n.to_owned(), v);
                    return Ok(());
                }
            },
        };
        *place = cast(v, place.ty(), 0)?;
        Ok(())
    }

    fn array(&mut self, n: &str) -> &mut Arr {
        if self.frames.last().unwrap().arrs.contains_key(n) {
            return self.frame().arrs.get_mut(n).unwrap();
        }
        self.shared_arrs.get_mut(n).unwrap_or_else(|| panic!("Unknown array {}", n))
    }

    fn locate(&mut self, n: &str, subs: &[E]) -> Result<(usize, Ty), Stop> {
        let mut ix = vec![];
        for s in subs {
            let v = self.eval(s)?;
            match cast(v, Ty::I, 0)? {
                V::I(i) => ix.push(i),
                _ => unreachable!(),
            }
        }
        let a = self.array(n);
        // Last subscript varies fastest; any injective layout does.
        let mut at = 0usize;
        for (i, d) in ix.iter().zip(&a.dims) {
            if *i < 0 {
                rt(0, format!("Subscript {} cannot be negative", i))?;
            }
            if i >= d {
                rt(0, format!("Subscript {} exceeds limit of {}", i, d))?;
            }
            at = at * *d as usize + *i as usize;
        }
        Ok((at, a.vals[0].ty()))
    }

    fn eval(&mut self, e: &E) -> Result<V, Stop> {
        Ok(match e {
            E::Lit(v) => v.clone(),
            E::Var(n) => self.get(n),
            E::Par(e) => self.eval(e)?,
            E::Un(op, tag, e) => {
                let v = self.eval(e)?;
                un_eval(*op, v, *tag)?
            }
            E::Bin(op, tag, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                bin_eval(*op, a, b, *tag)?
            }
            E::Idx(n, _, subs) => {
                let (at, _) = self.locate(n, subs)?;
                self.array(n).vals[at].clone()
            }
            E::Call(n, _, args) => match n.as_str() {
                "COND" => {
                    let a = self.eval(&args[0])?.show();
                    match self.host.cond() {
                        Some(b) => {
                            self.log(format!("c{}={}", a, b))?;
                            V::B(b)
                        }
                        None => return Err(Stop::Rt(Rt { msg: CUT.to_owned(), tag: 0 })),
                    }
                }
                // Identity functions that leave a trace.
                "TI" | "TD" | "TS" | "TB" => {
                    let v = self.eval(&args[0])?;
                    let v = if n == "TI" { cast(v, Ty::I, 0)? } else { v };
                    let v = if n == "TD" { cast(v, Ty::D, 0)? } else { v };
                    self.log(format!("t{}", v.show()))?;
                    v
                }
                "FAILF" => {
                    self.eval(&args[0])?;
                    return Err(Stop::Rt(Rt { msg: FAIL_MSG.to_owned(), tag: 0 }));
                }
                "TEN" => V::I(10),
                "LASTERR" => match &self.last_error {
                    None => V::s(""),
                    Some((l, m)) => V::s(&format!("{}:{}", l, m)),
                },
                n => self.call(n, args)?.expect("functions return values"),
            },
        })
    }

    fn call(&mut self, n: &str, args: &[E]) -> Result<Option<V>, Stop> {
        let c = self.c;
        let (c, code) = c.callables.get(n).unwrap_or_else(|| panic!("Unknown callable {}", n));
        let mut f = Frame::default();
        for (a, (pn, pt)) in args.iter().zip(&c.params) {
            let v = self.eval(a)?;
            let v = cast(v, *pt, 0)?;
            f.vars.insert(pn.clone(), v);
        }
        if let Some(t) = c.ret {
            f.vars.insert(c.name.clone(), t.default());
        }
        if self.depth > 60 {
            return Err(Stop::End(End::Unspecified("deep")));
        }
        self.depth += 1;
        self.frames.push(f);
        self.code(code, 0, n)?;
        let f = self.frames.pop().unwrap();
        self.depth -= 1;
        Ok(c.ret.map(|_| f.vars[&c.name].clone()))
    }
}

fn is_true(v: V) -> bool {
    match v {
        V::B(b) => b,
        _ => unreachable!(),
    }
}
