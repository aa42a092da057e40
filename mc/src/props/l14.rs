//! L14: blocks match up, or the program is rejected.

use crate::corex::{self, Stop, with_env};
use crate::engine::{Cx, Failure, Property, Section, Tier, seq_count, seq_decode};
use endbasic_core::{Compiler, Image};

pub fn property() -> Property {
    Property {
        id: "L14",
        rule: "All sequences of up to 4 (quick) or 5 (thorough) lines out of 28 that open, divide, close and \
               leave blocks of every kind, longer ones (up to 7 and 9) of smaller sets of lines, and all \
               sequences of up to 3 (4) such lines in every position of programs that nest all kinds of \
               blocks; all sequences of up to 4 to 7 lines that define and use a label, variable and \
               callable of the same name. Oracle: an independent pushdown recogniser of the block structure, which also \
               tells the lines at which the mistake can be reported, and rules for names. Accepted programs without endless \
               loops are run as well.",
        assumptions: &[
            "which of several mistakes is reported is not part of the property",
            "programs with a variable and then a callable of the same name are not judged",
        ],
        sections,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    Stmt,
    If,
    ElseIf,
    Else,
    EndIf,
    OneLineIf,
    OneLineExit,
    Do,
    DoGuard,
    Loop,
    LoopGuard,
    While,
    Wend,
    For,
    Next,
    Select,
    Case,
    CaseElse,
    EndSelect,
    Sub,
    EndSub,
    Func,
    EndFunc,
    ExitDo,
    ExitFor,
    ExitSub,
    ExitFunc,
    End,
}

use L::*;

const ALL: [L; 28] = [
    Stmt, If, ElseIf, Else, EndIf, OneLineIf, OneLineExit, Do, DoGuard, Loop, LoopGuard, While, Wend, For, Next,
    Select, Case, CaseElse, EndSelect, Sub, EndSub, Func, EndFunc, ExitDo, ExitFor, ExitSub, ExitFunc, End,
];

fn text_of(l: L, at: usize) -> String {
    match l {
        Stmt => "OUT 1".to_owned(),
        If => "IF TRUE THEN".to_owned(),
        ElseIf => "ELSEIF TRUE THEN".to_owned(),
        Else => "ELSE".to_owned(),
        EndIf => "END IF".to_owned(),
        OneLineIf => "IF FALSE THEN OUT 2 ELSE OUT 3".to_owned(),
        OneLineExit => "IF TRUE THEN EXIT DO".to_owned(),
        Do => "DO".to_owned(),
        DoGuard => "DO WHILE FALSE".to_owned(),
        Loop => "LOOP".to_owned(),
        LoopGuard => "LOOP UNTIL TRUE".to_owned(),
        While => "WHILE FALSE".to_owned(),
        Wend => "WEND".to_owned(),
        // Loops in one another need variables of their own to end.
        For => format!("FOR i{} = 1 TO 2", at),
        Next => "NEXT".to_owned(),
        Select => "SELECT CASE 1".to_owned(),
        Case => "CASE 1, 5 TO 6, IS > 8".to_owned(),
        CaseElse => "CASE ELSE".to_owned(),
        EndSelect => "END SELECT".to_owned(),
        // The names differ: defining the same one twice is another matter.
        Sub => format!("SUB s{}", at),
        EndSub => "END SUB".to_owned(),
        Func => format!("FUNCTION f{}", at),
        EndFunc => "END FUNCTION".to_owned(),
        ExitDo => "EXIT DO".to_owned(),
        ExitFor => "EXIT FOR".to_owned(),
        ExitSub => "EXIT SUB".to_owned(),
        ExitFunc => "EXIT FUNCTION".to_owned(),
        End => "END 7".to_owned(),
    }
}

/// An open block and the line that opened it.
struct Open {
    what: L,
    line: usize,
    /// Has a guard (loops), had its ELSE (selections).
    flag: bool,
    cases: usize,
}

/// Decides whether the lines form a program, or else gives the lines that can be blamed.
fn recognise(lines: &[L]) -> Result<(), Vec<usize>> {
    let mut stack: Vec<Open> = vec![];
    let mut misplaced: Vec<usize> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let line = i + 1;
        let bad = |stack: &[Open], misplaced: &[usize]| {
            let mut v = misplaced.to_vec();
            v.push(line);
            v.extend(stack.iter().map(|o| o.line));
            Err(v)
        };
        // Only cases follow a SELECT.
        if let Some(Open { what: Select, cases: 0, .. }) = stack.last()
            && !matches!(l, Case | CaseElse | EndSelect)
        {
            return bad(&stack, &misplaced);
        }
        let top = stack.last_mut();
        match l {
            Stmt | End | OneLineIf => (),
            If | Do | DoGuard | While | For | Select => {
                stack.push(Open { what: *l, line, flag: *l == DoGuard, cases: 0 })
            }
            Sub | Func => {
                // These can be in other blocks but not in one another.
                if stack.iter().any(|o| matches!(o.what, Sub | Func)) {
                    misplaced.push(line);
                    if matches!(stack.last().unwrap().what, Sub | Func) {
                        return bad(&stack, &misplaced);
                    }
                }
                stack.push(Open { what: *l, line, flag: false, cases: 0 })
            }
            ElseIf | Else => match top {
                Some(o) if o.what == If && !o.flag => o.flag = *l == Else,
                _ => return bad(&stack, &misplaced),
            },
            Case | CaseElse => match top {
                Some(o) if o.what == Select && !o.flag => {
                    o.flag = *l == CaseElse;
                    o.cases += 1;
                }
                _ => return bad(&stack, &misplaced),
            },
            Loop | LoopGuard => match top {
                Some(o) if matches!(o.what, Do | DoGuard) && !(o.flag && *l == LoopGuard) => {
                    stack.pop();
                }
                _ => return bad(&stack, &misplaced),
            },
            EndIf | Wend | Next | EndSelect | EndSub | EndFunc => {
                let opener = match l {
                    EndIf => If,
                    Wend => While,
                    Next => For,
                    EndSelect => Select,
                    EndSub => Sub,
                    _ => Func,
                };
                match top {
                    Some(o) if o.what == opener => {
                        stack.pop();
                    }
                    _ => return bad(&stack, &misplaced),
                }
            }
            ExitDo | OneLineExit | ExitFor | ExitSub | ExitFunc => {
                let fits = |o: &Open| match l {
                    ExitFor => o.what == For,
                    ExitSub => o.what == Sub,
                    ExitFunc => o.what == Func,
                    _ => matches!(o.what, Do | DoGuard),
                };
                // Blocks around a callable are not those of its code.
                let own = stack.iter().rposition(|o| matches!(o.what, Sub | Func)).unwrap_or(0);
                if !stack[own..].iter().any(fits) {
                    misplaced.push(line);
                }
            }
        }
    }
    for o in &stack {
        misplaced.push(o.line);
    }
    if misplaced.is_empty() { Ok(()) } else { Err(misplaced) }
}

/// Whether no loop of the program can go on forever.
fn ends(lines: &[L]) -> bool {
    !lines.contains(&Loop)
}

fn compile(text: &str) -> Result<(), (usize, String)> {
    with_env(|env| {
        let mut image = Image::default();
        Compiler::new(&env.upcalls, &[])
            .and_then(|mut c| c.compile_more(&mut image, &mut text.as_bytes()))
            .map_err(|e| (e.pos().line, e.message_without_pos()))
    })
}

fn check(section: &str, lines: &[L], cx: &mut Cx) -> Result<(), Failure> {
    cx.step(1);
    let text: String = lines.iter().enumerate().map(|(i, l)| text_of(*l, i) + "\n").collect();
    let want = recognise(lines);
    let fail = |what: String| {
        Err(Failure::new(
            format!("{}: {}", section, text.trim_end().replace('\n', ": ")),
            format!("{:?}: {}", text, what),
        ))
    };
    let got = compile(&text);
    match (&want, got) {
        (Ok(()), Ok(())) => cx.count("accepted"),
        (Err(at), Err((line, _))) if at.contains(&line) => {
            cx.count("rejected");
            return Ok(());
        }
        (Err(at), Err((line, msg))) => {
            return fail(format!("the mistake is at {:?} but {:?} is reported at line {}", at, msg, line));
        }
        (Err(at), Ok(())) => return fail(format!("accepted, but there is a mistake at {:?}", at)),
        (Ok(()), Err((line, msg))) => {
            return fail(format!("rejected at line {} with {:?}, but nothing is wrong", line, msg));
        }
    }
    if ends(lines) {
        cx.traces += 1;
        let stop = with_env(|env| corex::run(env, &text, &[], Default::default(), 50).stop);
        if !matches!(stop, Stop::Eof | Stop::End(7)) {
            return fail(format!("stopped with {:?}", stop));
        }
    }
    Ok(())
}

fn section(name: &'static str, alphabet: &'static [L], lo: u32, hi: u32) -> Section {
    let n = alphabet.len() as u64;
    let mk = move |i: u64| -> Vec<L> { seq_decode(n, lo, i).into_iter().map(|k| alphabet[k]).collect() };
    let mk2 = mk.clone();
    Section::new(
        name,
        seq_count(n, lo, hi),
        move |i| format!("{:?}", mk2(i)),
        move |i, cx| check(name, &mk(i), cx),
    )
}

/// Well-formed programs to disturb.
const BASES: [&[L]; 8] = [
    &[If, Stmt, ElseIf, Do, OneLineExit, ExitDo, Loop, Else, For, ExitFor, Next, EndIf],
    &[Select, Case, If, Stmt, EndIf, CaseElse, While, Wend, EndSelect],
    &[Sub, For, If, ExitSub, EndIf, Next, EndSub, Do, While, ExitDo, Wend, LoopGuard],
    &[Func, Select, Case, ExitFunc, EndSelect, EndFunc, Sub, DoGuard, For, ExitDo, ExitFor, Next, Loop, EndSub],
    &[While, If, Select, CaseElse, If, Else, EndIf, EndSelect, EndIf, Wend, End],
    &[For, For, Do, If, ExitFor, ElseIf, ExitDo, EndIf, LoopGuard, Next, Next],
    &[Do, Do, ExitDo, LoopGuard, DoGuard, Do, LoopGuard, Loop, LoopGuard],
    &[If, If, Else, EndIf, ElseIf, If, EndIf, ElseIf, OneLineIf, Else, Stmt, EndIf],
];

fn disturbed(max: u32) -> Section {
    let n = ALL.len() as u64;
    let k = seq_count(n, 0, max);
    // Where to insert and how many lines to remove there.
    let places: Vec<(usize, usize, usize)> = BASES
        .iter()
        .enumerate()
        .flat_map(|(b, base)| {
            (0..=base.len()).flat_map(move |p| (0..=2usize.min(base.len() - p)).map(move |r| (b, p, r)))
        })
        .collect();
    let mk = move |i: u64| -> Vec<L> {
        let (b, p, r) = places[(i / k) as usize];
        let mut v: Vec<L> = BASES[b][..p].to_vec();
        v.extend(seq_decode(n, 0, i % k).into_iter().map(|k| ALL[k]));
        v.extend_from_slice(&BASES[b][p + r..]);
        v
    };
    let size = BASES.iter().map(|b| 3 * (b.len() as u64 + 1) - 3).sum::<u64>() * k;
    let mk2 = mk.clone();
    Section::new(
        "disturbed",
        size,
        move |i| format!("{:?}", mk2(i)),
        move |i, cx| check("disturbed", &mk(i), cx),
    )
}

const IFS: [L; 9] = [If, ElseIf, Else, EndIf, Do, LoopGuard, Stmt, Select, EndSelect];
const SELECTS: [L; 9] = [Select, Case, CaseElse, EndSelect, If, Else, EndIf, Stmt, End];
const LOOPS: [L; 10] = [Do, DoGuard, Loop, LoopGuard, While, Wend, For, Next, ExitDo, ExitFor];
const CALLS: [L; 9] = [Sub, EndSub, Func, EndFunc, ExitSub, ExitFunc, If, EndIf, ExitDo];

// --- Names -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    DeclareSub,
    DeclareSub1,
    DeclareFunc,
    DefSub,
    DefSub1,
    DefFunc,
    Call,
    Call1,
    Use,
    Assign,
    Dim,
    DimShared,
    DimArray,
    AssignElem,
    Label,
    LabelIn,
    LabelSub,
    Number,
    Goto,
    GotoNumber,
    Gosub,
    OnError,
    GotoIn,
    GotoSub,
}

const NAMES: [N; 24] = [
    N::DeclareSub, N::DeclareSub1, N::DeclareFunc, N::DefSub, N::DefSub1, N::DefFunc, N::Call, N::Call1, N::Use,
    N::Assign, N::Dim, N::DimShared, N::DimArray, N::AssignElem, N::Label, N::LabelIn, N::LabelSub, N::Number,
    N::Goto, N::GotoNumber, N::Gosub, N::OnError, N::GotoIn, N::GotoSub,
];

/// What defines and uses one callable and its variables, and the jumps.
const CALLABLE: [N; 14] = [
    N::DeclareSub, N::DeclareSub1, N::DeclareFunc, N::DefSub, N::DefSub1, N::DefFunc, N::Call, N::Call1, N::Use,
    N::Assign, N::Dim, N::DimShared, N::DimArray, N::AssignElem,
];
const JUMPS: [N; 10] = [
    N::Label, N::LabelIn, N::LabelSub, N::Number, N::Goto, N::GotoNumber, N::Gosub, N::OnError, N::GotoIn,
    N::GotoSub,
];

fn name_line(l: N, at: usize) -> String {
    match l {
        N::DeclareSub => "DECLARE SUB nm".to_owned(),
        N::DeclareSub1 => "DECLARE SUB nm(x)".to_owned(),
        N::DeclareFunc => "DECLARE FUNCTION nm".to_owned(),
        N::DefSub => "SUB Nm: END SUB".to_owned(),
        N::DefSub1 => "SUB nm(x): END SUB".to_owned(),
        N::DefFunc => "FUNCTION nm: nm = 1: END FUNCTION".to_owned(),
        N::Call => "NM".to_owned(),
        N::Call1 => "nm 5".to_owned(),
        N::Use => "OUT nM".to_owned(),
        N::Assign => "nm = 1".to_owned(),
        N::Dim => "DIM nm".to_owned(),
        N::DimShared => "DIM SHARED nm".to_owned(),
        N::DimArray => "DIM nm(2)".to_owned(),
        N::AssignElem => "nm(1) = 2".to_owned(),
        N::Label => "@nm".to_owned(),
        N::LabelIn => "IF TRUE THEN: @Nm: END IF".to_owned(),
        N::LabelSub => format!("SUB s{}: @nm: END SUB", at),
        N::Number => "10 OUT 1".to_owned(),
        N::Goto => "GOTO @NM".to_owned(),
        N::GotoNumber => "GOTO 10".to_owned(),
        N::Gosub => "GOSUB @nm".to_owned(),
        N::OnError => "ON ERROR GOTO @nm".to_owned(),
        N::GotoIn => "DO: GOTO @nm: LOOP".to_owned(),
        N::GotoSub => format!("SUB s{}: GOTO @nm: END SUB", at),
    }
}

/// The lines with mistakes.  Nothing if the rules do not tell.
fn name_mistakes(lines: &[N]) -> Option<Vec<usize>> {
    #[derive(Clone, Copy, PartialEq)]
    enum Sig {
        Sub,
        Sub1,
        Func,
    }
    #[derive(Clone, Copy, PartialEq)]
    enum Var {
        No,
        Scalar,
        Array,
    }
    let mut bad = vec![];
    let (mut sig, mut defined, mut called): (Option<Sig>, bool, Vec<usize>) = (None, false, vec![]);
    let (mut local, mut shared) = (Var::No, false);
    let mut labels = [0, 0];
    let mut jumps: Vec<(usize, usize)> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let line = i + 1;
        let mut ok = true;
        match l {
            N::DeclareSub | N::DeclareSub1 | N::DeclareFunc | N::DefSub | N::DefSub1 | N::DefFunc => {
                let s = match l {
                    N::DeclareSub | N::DefSub => Sig::Sub,
                    N::DeclareSub1 | N::DefSub1 => Sig::Sub1,
                    _ => Sig::Func,
                };
                if bad.is_empty() && local != Var::No {
                    return None; // A callable with the name of a variable.
                }
                let def = matches!(l, N::DefSub | N::DefSub1 | N::DefFunc);
                ok = !shared && sig.is_none_or(|o| o == s) && !(def && defined);
                sig = Some(sig.unwrap_or(s));
                defined |= def;
            }
            N::Call | N::Call1 => {
                ok = sig == Some(if *l == N::Call { Sig::Sub } else { Sig::Sub1 });
                called.push(line);
            }
            N::Use => match local {
                Var::Scalar => (),
                Var::Array => ok = false,
                Var::No if shared => (),
                Var::No => {
                    ok = sig == Some(Sig::Func);
                    called.push(line);
                }
            },
            N::Assign => match local {
                Var::Scalar => (),
                Var::Array => ok = false,
                Var::No if shared => (),
                Var::No => {
                    ok = sig.is_none();
                    local = Var::Scalar;
                }
            },
            N::Dim | N::DimArray => {
                ok = local == Var::No && sig.is_none();
                local = if *l == N::Dim { Var::Scalar } else { Var::Array };
            }
            N::DimShared => {
                ok = !shared && sig.is_none();
                shared = true;
            }
            N::AssignElem => ok = local == Var::Array,
            N::Label | N::LabelIn | N::LabelSub | N::Number => {
                let k = (*l == N::Number) as usize;
                labels[k] += 1;
                ok = labels[k] == 1;
            }
            N::Goto | N::Gosub | N::OnError | N::GotoIn | N::GotoSub => jumps.push((0, line)),
            N::GotoNumber => jumps.push((1, line)),
        }
        if !ok {
            bad.push(line);
        }
    }
    bad.extend(jumps.into_iter().filter(|(k, _)| labels[*k] == 0).map(|j| j.1));
    if !defined {
        bad.extend(called);
    }
    Some(bad)
}

fn names(name: &'static str, alphabet: &'static [N], lo: u32, hi: u32) -> Section {
    let n = alphabet.len() as u64;
    let mk = move |i: u64| -> Vec<N> { seq_decode(n, lo, i).into_iter().map(|k| alphabet[k]).collect() };
    let mk2 = mk.clone();
    Section::new(
        name,
        seq_count(n, lo, hi),
        move |i| format!("{:?}", mk2(i)),
        move |i, cx| {
            let lines = mk(i);
            cx.step(1);
            let Some(bad) = name_mistakes(&lines) else {
                cx.count("not judged");
                return Ok(());
            };
            let text: String = lines.iter().enumerate().map(|(i, l)| name_line(*l, i) + "\n").collect();
            let got = compile(&text);
            let good = match &got {
                Ok(()) => bad.is_empty(),
                Err((line, _)) => bad.contains(line),
            };
            cx.count(if bad.is_empty() { "accepted" } else { "rejected" });
            if good {
                return Ok(());
            }
            Err(Failure::new(
                format!("{}: {}", name, text.trim_end().replace('\n', ": ")),
                format!("{:?}: mistakes at {:?} but compiling gave {:?}", text, bad, got),
            ))
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        section("lines", &ALL, 0, tier.pick(4, 5)),
        section("ifs", &IFS, 5, tier.pick(6, 8)),
        section("selects", &SELECTS, 5, tier.pick(6, 8)),
        section("loops", &LOOPS, 5, tier.pick(6, 7)),
        section("callables", &CALLS, 5, tier.pick(6, 8)),
        disturbed(tier.pick(2, 3)),
        names("names", &NAMES, 0, tier.pick(4, 5)),
        names("callable-names", &CALLABLE, 5, tier.pick(5, 6)),
        names("jump-names", &JUMPS, 5, tier.pick(5, 7)),
    ]
}
