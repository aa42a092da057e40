//! Runs a program of the reference language on the reference interpreter and on the real
//! implementation for every sequence of answers of the environment, and compares.

use crate::corex::{self, Stop};
use crate::engine::{CaseResult, Cx, Failure};
use crate::lang::{self, Compiled, End, Host, Interp};
use endbasic_core::{Compiler, Image, Limits, Vm};

struct Bits<'a> {
    bits: &'a [bool],
    next: usize,
}

impl Host for Bits<'_> {
    fn cond(&mut self) -> Option<bool> {
        let r = self.bits.get(self.next).copied();
        self.next += 1;
        r
    }
}

#[derive(Clone)]
pub struct Opts {
    pub max_bits: usize,
    pub max_out: usize,
    pub fuel: u64,
    pub limits: Limits,
    /// Variables of the main program or shared to compare at the end.
    pub vars: Vec<&'static str>,
    /// Whether the line reported by uncaught errors is compared.
    pub lines: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Self {
            max_bits: 6,
            max_out: 60,
            fuel: 2000,
            limits: Default::default(),
            vars: vec![],
            lines: true,
        }
    }
}

fn show_end(e: &End, lines: bool) -> String {
    match e {
        End::Eof => "eof".to_owned(),
        End::End(c) => format!("end {}", c),
        End::Err(l, m) if lines => format!("error at line {}: {}", l, m),
        End::Err(_, m) => format!("error: {}", m),
        End::Fuel => "still running".to_owned(),
        End::Unspecified(m) => format!("unspecified: {}", m),
    }
}

fn show_stop(s: &Stop, lines: bool) -> String {
    match s {
        Stop::Eof => "eof".to_owned(),
        Stop::End(c) => format!("end {}", c),
        Stop::Err(p, m) if lines => format!("error at line {}: {}", p.line, m),
        Stop::Err(_, m) => format!("error: {}", m),
        Stop::Compile(p, m) => format!("rejected at {}:{}: {}", p.line, p.col, m),
        Stop::Fuel => "still running".to_owned(),
    }
}

/// One run of the reference.
pub struct Ref {
    pub out: Vec<String>,
    pub end: End,
    pub vars: Vec<(&'static str, Option<String>)>,
    pub steps: u64,
    /// Whether the run ended because it asked for more answers than there are.
    pub cut: bool,
}

pub fn run_ref(c: &Compiled, bits: &[bool], o: &Opts) -> Ref {
    let mut h = Bits { bits, next: 0 };
    let mut i = Interp::new(c, &mut h);
    i.fuel = o.fuel;
    i.max_out = o.max_out;
    let end = i.run();
    let cut = matches!(&end, End::Err(_, m) if m == lang::CUT);
    let vars = o.vars.iter().map(|n| (*n, i.var(n).map(|v| v.show()))).collect();
    Ref { out: std::mem::take(&mut i.out), end, vars, steps: i.steps, cut }
}

/// Explores every sequence of up to `max_bits` answers.
pub fn explore(c: &Compiled, o: &Opts, key: &dyn Fn() -> String, cx: &mut Cx) -> CaseResult {
    explore_text(c, &c.text, o, key, cx)
}

/// Same as `explore` but with a different text, which must mean the same with the same lines.
pub fn explore_text(
    c: &Compiled,
    text: &str,
    o: &Opts,
    key: &dyn Fn() -> String,
    cx: &mut Cx,
) -> CaseResult {
    corex::with_env(|env| {
        let mut image = Image::default();
        let compiled = match Compiler::new(&env.upcalls, &[]) {
            Err(e) => Err(e),
            Ok(mut k) => k.compile_more(&mut image, &mut text.as_bytes()),
        };
        if let Err(e) = compiled {
            return Err(Failure::new(key(), format!("{}\nrejected: {}", text, e)));
        }
        let mut stack: Vec<Vec<bool>> = vec![vec![]];
        while let Some(bits) = stack.pop() {
            let r = run_ref(c, &bits, o);
            if r.cut && bits.len() < o.max_bits {
                for b in [true, false] {
                    let mut x = bits.clone();
                    x.push(b);
                    stack.push(x);
                }
                continue;
            }
            cx.step(r.steps);
            cx.traces += 1;
            if let End::Unspecified(_) = r.end {
                cx.count("unspecified");
                continue;
            }
            cx.state(&(&r.out, show_end(&r.end, false)));
            env.reset(&bits, o.max_out);
            let mut vm = Vm::new_with_limits(env.upcalls.clone(), o.limits.clone());
            let mut yields = 0;
            let stop = corex::drive_cut(env, &mut vm, &image, 100_000, &mut yields);
            let mut out = std::mem::take(&mut env.state.borrow_mut().out);
            let fuel = r.end == End::Fuel;
            if fuel {
                out.truncate(r.out.len());
            }
            let same_end = fuel || r.cut || show_end(&r.end, o.lines) == show_stop(&stop, o.lines);
            let mut diff = String::new();
            if out != r.out || !same_end {
                diff = format!(
                    "expected {:?} then {}\nactual   {:?} then {}",
                    r.out,
                    show_end(&r.end, o.lines),
                    out,
                    show_stop(&stop, o.lines)
                );
            } else if matches!(r.end, End::Eof | End::End(_)) {
                for (n, v) in &r.vars {
                    let Some(v) = v else { continue };
                    let got = corex::vm_var(&vm, &image, n).map(|d| corex::show_datum(&d));
                    if got.as_ref() != Some(v) {
                        diff = format!("variable {}: expected {}, actual {:?}", n, v, got);
                    }
                }
            }
            if !diff.is_empty() {
                return Err(Failure::new(
                    key(),
                    format!("{}\nwith conditions {:?}\n{}", text, bits, diff),
                ));
            }
        }
        Ok(())
    })
}
