//! Runs programs on the real compiler and virtual machine with a host of recording callables.

use async_trait::async_trait;
use endbasic_core::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use crate::lang;

/// State shared with the host callables.
#[derive(Default)]
pub struct HostState {
    pub out: Vec<String>,
    pub max_out: usize,
    pub conds: Vec<bool>,
    pub next_cond: usize,
    pub cut: bool,
    /// Called with the number of outputs so far after each one.
    pub on_out: Option<Box<dyn FnMut(usize)>>,
}

pub type Shared = Rc<RefCell<HostState>>;

struct Fun {
    md: Rc<CallableMetadata>,
    state: Shared,
    f: fn(Scope<'_>, &Shared) -> CallResult<()>,
}

#[async_trait(?Send)]
impl Callable for Fun {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        (self.f)(scope, &self.state)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        (self.f)(scope, &self.state)
    }
}

fn log(state: &Shared, s: String) -> CallResult<()> {
    let mut st = state.borrow_mut();
    if st.cut {
        return Err(CallError::Eval(lang::CUT.to_owned()));
    }
    st.out.push(s);
    let n = st.out.len();
    if let Some(f) = &mut st.on_out {
        f(n);
    }
    if st.out.len() > st.max_out {
        st.cut = true;
        return Err(CallError::Eval(lang::CUT.to_owned()));
    }
    Ok(())
}

fn show(scope: &Scope<'_>, reg: u8, t: ExprType) -> String {
    match t {
        ExprType::Boolean => format!("{}?", scope.get_boolean(reg)),
        ExprType::Double => lang::show_double(scope.get_double(reg)),
        ExprType::Integer => format!("{}%", scope.get_integer(reg)),
        ExprType::Text => format!("{}$", scope.get_string(reg)),
    }
}

macro_rules! one_arg {
    ($t:expr) => {
        &[(
            &[SingularArgSyntax::RequiredValue(
                RequiredValueSyntax { name: Cow::Borrowed("v"), vtype: $t },
                ArgSepSyntax::End,
            )],
            None,
        )]
    };
}

fn exec_out(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let mut l = vec![];
    let mut reg = 0u8;
    let n = scope.nargs();
    if n == 0 {
        return log(state, String::new());
    }
    loop {
        let sep = match scope.get_type(reg) {
            VarArgTag::Immediate(sep, t) => {
                reg += 1;
                l.push(show(&scope, reg, t));
                sep
            }
            VarArgTag::Missing(sep) => sep,
            VarArgTag::Pointer(sep) => {
                reg += 1;
                l.push("PTR".to_owned());
                sep
            }
        };
        reg += 1;
        if sep == ArgSep::End {
            break;
        }
    }
    log(state, l.join(" "))
}

fn exec_fail(_: Scope<'_>, _: &Shared) -> CallResult<()> {
    Err(CallError::Eval(lang::FAIL_MSG.to_owned()))
}

fn exec_failf(_: Scope<'_>, _: &Shared) -> CallResult<()> {
    Err(CallError::Eval(lang::FAIL_MSG.to_owned()))
}

fn exec_cond(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let id = scope.get_integer(0);
    let b = {
        let mut st = state.borrow_mut();
        let n = st.next_cond;
        st.next_cond += 1;
        match st.conds.get(n) {
            Some(b) => *b,
            None => {
                st.cut = true;
                return Err(CallError::Eval(lang::CUT.to_owned()));
            }
        }
    };
    log(state, format!("c{}%={}", id, b))?;
    scope.return_boolean(b)
}

fn exec_ti(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let v = scope.get_integer(0);
    log(state, format!("t{}%", v))?;
    scope.return_integer(v)
}
fn exec_td(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let v = scope.get_double(0);
    log(state, format!("t{}", lang::show_double(v)))?;
    scope.return_double(v)
}
fn exec_tb(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let v = scope.get_boolean(0);
    log(state, format!("t{}?", v))?;
    scope.return_boolean(v)
}
fn exec_ts(scope: Scope<'_>, state: &Shared) -> CallResult<()> {
    let v = scope.get_string(0).to_owned();
    log(state, format!("t{}$", v))?;
    scope.return_string(v)
}
fn exec_ten(scope: Scope<'_>, _: &Shared) -> CallResult<()> {
    scope.return_integer(10)
}
fn exec_lasterr(scope: Scope<'_>, _: &Shared) -> CallResult<()> {
    let s = match scope.last_error() {
        None => String::new(),
        Some((p, m)) => format!("{}:{}", p.line, m),
    };
    scope.return_string(s)
}

/// The host callables.
pub struct HostEnv {
    pub state: Shared,
    pub upcalls: HashMap<SymbolKey, Rc<dyn Callable>>,
}

impl HostEnv {
    pub fn new() -> Self {
        let state = Shared::default();
        let mut upcalls: HashMap<SymbolKey, Rc<dyn Callable>> = HashMap::new();
        let mut reg = |b: CallableMetadataBuilder, f: fn(Scope<'_>, &Shared) -> CallResult<()>| {
            let md = b.with_category("Host").with_description("Host.").build();
            let key = SymbolKey::from(md.name());
            upcalls.insert(key, Rc::new(Fun { md, state: state.clone(), f }) as Rc<dyn Callable>);
        };
        use CallableMetadataBuilder as B;
        const OUT: RepeatedSyntax = RepeatedSyntax {
            name: Cow::Borrowed("arg"),
            type_syn: RepeatedTypeSyntax::AnyValue,
            sep: ArgSepSyntax::Exactly(ArgSep::Short),
            require_one: false,
            allow_missing: false,
        };
        reg(B::new("OUT").with_syntax(&[(&[], Some(&OUT))]), exec_out);
        reg(B::new("FAIL").with_syntax(&[(&[], None)]), exec_fail);
        reg(
            B::new("FAILF")
                .with_return_type(ExprType::Integer)
                .with_syntax(one_arg!(ExprType::Integer)),
            exec_failf,
        );
        reg(
            B::new("COND")
                .with_return_type(ExprType::Boolean)
                .with_syntax(one_arg!(ExprType::Integer)),
            exec_cond,
        );
        reg(
            B::new("TI").with_return_type(ExprType::Integer).with_syntax(one_arg!(ExprType::Integer)),
            exec_ti,
        );
        reg(
            B::new("TD").with_return_type(ExprType::Double).with_syntax(one_arg!(ExprType::Double)),
            exec_td,
        );
        reg(
            B::new("TB").with_return_type(ExprType::Boolean).with_syntax(one_arg!(ExprType::Boolean)),
            exec_tb,
        );
        reg(
            B::new("TS").with_return_type(ExprType::Text).with_syntax(one_arg!(ExprType::Text)),
            exec_ts,
        );
        reg(B::new("TEN").with_return_type(ExprType::Integer).with_syntax(&[(&[], None)]), exec_ten);
        reg(
            B::new("LASTERR").with_return_type(ExprType::Text).with_syntax(&[(&[], None)]),
            exec_lasterr,
        );
        for f in [
            endbasic_std::arrays::LboundFunction::new() as Rc<dyn Callable>,
            endbasic_std::arrays::UboundFunction::new(),
        ] {
            upcalls.insert(SymbolKey::from(f.metadata().name()), f);
        }
        Self { state, upcalls }
    }

    pub fn reset(&self, conds: &[bool], max_out: usize) {
        let mut st = self.state.borrow_mut();
        st.out.clear();
        st.conds.clear();
        st.conds.extend_from_slice(conds);
        st.next_cond = 0;
        st.max_out = max_out;
        st.cut = false;
        st.on_out = None;
    }
}

thread_local! {
    static ENV: HostEnv = HostEnv::new();
}

pub fn with_env<T>(f: impl FnOnce(&HostEnv) -> T) -> T {
    ENV.with(|e| f(e))
}

/// How a run ended.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Compile(LineCol, String),
    Eof,
    End(i32),
    Err(LineCol, String),
    /// Too many yields.
    Fuel,
}

/// A run of the real implementation, kept alive to inspect its variables.
pub struct Run {
    pub image: Image,
    pub vm: Vm,
    pub stop: Stop,
    pub out: Vec<String>,
    pub yields: u64,
}

impl Run {
    pub fn program_var(&self, n: &str) -> Option<ConstantDatum> {
        let key = SymbolKey::from(n);
        if let Ok(Some(v)) = self.vm.get_program(&self.image, &key) {
            return Some(v);
        }
        self.vm.get_global(&self.image, &key).ok().flatten()
    }
    pub fn elem(&self, n: &str, subs: &[i32]) -> Option<ConstantDatum> {
        let key = SymbolKey::from(n);
        if let Ok(Some(v)) = self.vm.get_program_array(&self.image, &key, subs) {
            return Some(v);
        }
        self.vm.get_global_array(&self.image, &key, subs).ok().flatten()
    }
}

pub fn show_datum(d: &ConstantDatum) -> String {
    match d {
        ConstantDatum::Boolean(b) => format!("{}?", b),
        ConstantDatum::Double(d) => lang::show_double(*d),
        ConstantDatum::Integer(i) => format!("{}%", i),
        ConstantDatum::Text(s) => format!("{}$", s),
    }
}

/// Executes until the end, up to `max_yields` yields.
pub fn drive(vm: &mut Vm, image: &Image, max_yields: u64, yields: &mut u64) -> Stop {
    loop {
        match vm.exec(image) {
            StopReason::End(c) => return Stop::End(c.to_i32()),
            StopReason::Eof => return Stop::Eof,
            StopReason::Exception(p, m) => return Stop::Err(p, m),
            StopReason::UpcallAsync(h) => {
                if let Err(e) = futures_lite::future::block_on(h.invoke()) {
                    let (p, m) = e.parts();
                    return Stop::Err(p, m);
                }
            }
            StopReason::Yield => {
                *yields += 1;
                if *yields > max_yields {
                    return Stop::Fuel;
                }
            }
        }
    }
}

/// Same as `drive` but stops soon after the host cut the run.
pub fn drive_cut(
    env: &HostEnv,
    vm: &mut Vm,
    image: &Image,
    max_yields: u64,
    yields: &mut u64,
) -> Stop {
    loop {
        let r = vm.exec(image);
        if env.state.borrow().cut {
            return Stop::Fuel;
        }
        match r {
            StopReason::End(c) => return Stop::End(c.to_i32()),
            StopReason::Eof => return Stop::Eof,
            StopReason::Exception(p, m) => return Stop::Err(p, m),
            StopReason::UpcallAsync(h) => {
                if let Err(e) = futures_lite::future::block_on(h.invoke()) {
                    let (p, m) = e.parts();
                    return Stop::Err(p, m);
                }
            }
            StopReason::Yield => {
                *yields += 1;
                if *yields > max_yields {
                    return Stop::Fuel;
                }
            }
        }
    }
}

pub fn vm_var(vm: &Vm, image: &Image, n: &str) -> Option<ConstantDatum> {
    let key = SymbolKey::from(n);
    if let Ok(Some(v)) = vm.get_program(image, &key) {
        return Some(v);
    }
    vm.get_global(image, &key).ok().flatten()
}

pub fn vm_elem(vm: &Vm, image: &Image, n: &str, subs: &[i32]) -> Option<ConstantDatum> {
    let key = SymbolKey::from(n);
    if let Ok(Some(v)) = vm.get_program_array(image, &key, subs) {
        return Some(v);
    }
    vm.get_global_array(image, &key, subs).ok().flatten()
}

/// Compiles and runs `text`.
pub fn run(env: &HostEnv, text: &str, conds: &[bool], limits: Limits, max_out: usize) -> Run {
    env.reset(conds, max_out);
    let mut vm = Vm::new_with_limits(env.upcalls.clone(), limits);
    let mut image = Image::default();
    let mut yields = 0;
    let stop = match Compiler::new(&env.upcalls, &[]) {
        Err(e) => Stop::Compile(e.pos(), e.message_without_pos()),
        Ok(mut c) => match c.compile_more(&mut image, &mut text.as_bytes()) {
            Err(e) => Stop::Compile(e.pos(), e.message_without_pos()),
            Ok(()) => drive(&mut vm, &image, 20_000, &mut yields),
        },
    };
    let out = std::mem::take(&mut env.state.borrow_mut().out);
    Run { image, vm, stop, out, yields }
}
