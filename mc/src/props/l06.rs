//! L06: READ consumes the program's DATA in textual order.

use crate::engine::{
    CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode,
};
use crate::lang::{Ty, V, lit_text};
use crate::machx::{Mach, Opts, Outcome};

pub fn property() -> Property {
    Property {
        id: "L06",
        rule: "All programs of up to 4 (quick: 3) data items and up to 4 (quick: 3) READ and RESTORE statements over \
               every item kind and target type; all subsets of 12 places for DATA statements in a \
               program with every block construct, read from the main program, a loop or a callable; \
               all sequences of up to 6 (quick: 4) pieces entered one after another that define, read, \
               restore, fail, are rejected or clear; READ and DATA statements with every pair of good and bad \
               targets and items; lists of 62 to 5000 items. Oracle: a list and an index.",
        assumptions: &[],
        sections,
    }
}

/// The data of a program and the next item to read.
#[derive(Clone, Default)]
struct Data {
    items: Vec<Option<V>>,
    next: usize,
}

fn type_name(t: Ty) -> &'static str {
    match t {
        Ty::B => "BOOLEAN",
        Ty::D => "DOUBLE",
        Ty::I => "INTEGER",
        Ty::S => "STRING",
    }
}

impl Data {
    /// What a READ into a variable of type `t` delivers.
    fn read(&mut self, t: Ty) -> Result<V, String> {
        let Some(item) = self.items.get(self.next) else {
            return Err("Out of data".to_owned());
        };
        self.next += 1;
        let Some(v) = item.clone() else {
            return Ok(t.default());
        };
        match (t, &v) {
            (Ty::D, V::I(i)) => Ok(V::D(*i as f64)),
            (Ty::I, V::D(d)) => {
                // Rounds halves away from zero.
                let r = d.abs().add_half() * d.signum();
                if r < -2147483648.0 || r > 2147483647.0 || d.is_nan() {
                    Err("*".to_owned())
                } else {
                    Ok(V::I(r as i32))
                }
            }
            (t, v) if t == v.ty() => Ok(v.clone()),
            (t, v) => Err(format!(
                "Cannot assign value of type {} to variable of type {}",
                type_name(v.ty()),
                type_name(t)
            )),
        }
    }
}

trait AddHalf {
    fn add_half(self) -> f64;
}
impl AddHalf for f64 {
    fn add_half(self) -> f64 {
        let f = self.trunc();
        if self - f >= 0.5 { f + 1.0 } else { f }
    }
}

const VARS: [(&str, Ty); 4] = [("vi", Ty::I), ("vd", Ty::D), ("vs", Ty::S), ("vb", Ty::B)];

fn text(v: &Option<V>) -> String {
    match v {
        None => String::new(),
        Some(V::I(i)) if *i < 0 => format!("-{}", -(*i as i64)),
        Some(V::D(d)) if *d < 0.0 => format!("-{}", lit_text(&V::D(-d))),
        Some(v) => lit_text(v),
    }
}

fn items() -> Vec<Option<V>> {
    vec![
        Some(V::I(5)),
        Some(V::I(-7)),
        Some(V::D(2.5)),
        Some(V::D(-1.25)),
        Some(V::D(9e9)),
        Some(V::s("a, b")),
        Some(V::B(true)),
        None,
    ]
}

#[derive(Clone)]
enum Op {
    Read(Vec<usize>),
    Restore,
}

fn ops() -> Vec<Op> {
    use Op::*;
    vec![
        Read(vec![0]),
        Read(vec![1]),
        Read(vec![2]),
        Read(vec![3]),
        Read(vec![0, 2]),
        Read(vec![1, 0, 0]),
        Read(vec![2, 3, 1, 0]),
        Restore,
    ]
}

fn fail(section: &str, key: String, exp: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug) -> CaseResult {
    Err(Failure::new(format!("{}: {}", section, key), format!("expected {:?}\nactual   {:?}", exp, got)))
}

/// Appends a READ statement and what it does to the program and the model.
fn do_op(op: &Op, line: usize, d: &mut Data, vals: &mut [V], exp: &mut Vec<String>) -> String {
    match op {
        Op::Restore => {
            d.next = 0;
            "RESTORE".to_owned()
        }
        Op::Read(vs) => {
            let mut s = "READ ".to_owned();
            let mut err = None;
            for (n, v) in vs.iter().enumerate() {
                if n > 0 {
                    s.push_str(", ");
                }
                let col = s.len() + 1;
                s.push_str(VARS[*v].0);
                if err.is_none() {
                    match d.read(VARS[*v].1) {
                        Ok(x) => vals[*v] = x,
                        Err(e) => err = Some(format!("{}:{}: {}", line, col, e)),
                    }
                }
            }
            if let Some(e) = err {
                exp.push(e);
            }
            s
        }
    }
}

/// Compares outputs; an expected line that ends in `*` is a prefix.
fn same(exp: &[String], got: &[String]) -> bool {
    exp.len() == got.len()
        && exp.iter().zip(got).all(|(e, g)| match e.strip_suffix('*') {
            Some(p) => g.starts_with(p),
            None => e == g,
        })
}

fn history_section(max_items: u32, max_ops: u32) -> Section {
    let its = items();
    let os = ops();
    let (ni, no) = (its.len() as u64, os.len() as u64);
    let r = [seq_count(ni, 0, max_items), seq_count(no, 1, max_ops)];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let list: Vec<Option<V>> =
            seq_decode(ni, 0, v[0] as u64).into_iter().map(|n| its[n].clone()).collect();
        let seq: Vec<Op> =
            seq_decode(no, 1, v[1] as u64).into_iter().map(|n| os[n].clone()).collect();
        (list, seq)
    };
    let build = move |i: u64| {
        let (list, seq) = mk(i);
        let mut d = Data { items: list.clone(), next: 0 };
        let mut vals: Vec<V> = VARS.iter().map(|v| v.1.default()).collect();
        let mut exp = vec![];
        let mut p = String::from(
            "DIM vi AS INTEGER: DIM vd AS DOUBLE: DIM vs AS STRING: DIM vb AS BOOLEAN: old$ = \"\"\n\
             ON ERROR RESUME NEXT\n",
        );
        // The first item is alone and after the reads; the others in one statement before.
        if list.len() > 1 {
            let l: Vec<String> = list[..list.len() - 1].iter().map(text).collect();
            p.push_str(&format!("DATA {}\n", l.join(", ")));
        }
        for op in &seq {
            let line = p.lines().count() + 1;
            let before = exp.len();
            p.push_str(&do_op(op, line, &mut d, &mut vals, &mut exp));
            p.push('\n');
            let failed = exp.len() > before;
            p.push_str("IF ERRMSG <> old THEN OUT ERRMSG: old = ERRMSG\n");
            if failed {
                // Shown with the mark of text.
                let e = exp.pop().unwrap();
                exp.push(if e.ends_with('*') { e } else { format!("{}$", e) });
            }
            p.push_str("OUT vi; vd; vs; vb\n");
            exp.push(vals.iter().map(|v| v.show()).collect::<Vec<_>>().join(" "));
        }
        if let Some(l) = list.last() {
            p.push_str(&format!("DATA {}\n", text(l)));
        }
        (p, exp)
    };
    let build2 = build.clone();
    Section::new(
        "histories",
        product(&r),
        move |i| build2(i).0.replace('\n', ": "),
        move |i, cx| {
            let (p, exp) = build(i);
            let mut m = Mach::scripting(Opts::default());
            let r = m.feed(&p);
            let got = m.out();
            cx.step(p.lines().count() as u64);
            cx.traces += 1;
            cx.state(&exp);
            if r != Outcome::Done(None) || !same(&exp, &got) {
                return fail("histories", p.replace('\n', ": "), &exp, &(got, r));
            }
            Ok(())
        },
    )
}

/// A program with a place for a DATA statement in every kind of block.
const SKELETON: [&str; 24] = [
    "@0",
    "DIM SHARED g AS INTEGER",
    "IF FALSE THEN",
    "@1",
    "ELSEIF FALSE THEN",
    "@2",
    "ELSE",
    "@3",
    "END IF",
    "DO WHILE FALSE",
    "@4",
    "LOOP",
    "SELECT CASE 1: CASE 2",
    "@5",
    "CASE ELSE",
    "@6",
    "END SELECT",
    "FOR k = 1 TO 2: FOR j = 3 TO 1",
    "@7",
    "NEXT",
    "@8",
    "NEXT",
    "SUB u",
    "@9",
];
const TAIL: [&str; 6] = ["END SUB", "FUNCTION fu%", "@a", "END FUNCTION", "END", "@b"];

fn place_section(readers: u64) -> Section {
    let slots = "0123456789ab";
    let r = [4096, readers];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let set = v[0];
        let count = set.count_ones();
        let read = match v[1] {
            // In the main program.
            0 => format!("FOR q = 1 TO {}: READ x%: OUT x%: NEXT", count),
            // In a function, through a shared variable, after a partial read and a RESTORE.
            1 => format!(
                "{}RESTORE: FOR q = 1 TO {}: OUT rd(q): NEXT",
                if count > 0 { "READ x%: " } else { "" },
                count
            ),
            // Until the end of the data.
            _ => "ON ERROR GOTO @stop: DO: READ x%: OUT x%: LOOP\n@stop\nOUT ERRMSG".to_owned(),
        };
        let mut p = String::new();
        if v[1] == 1 {
            p.push_str("DIM SHARED sh AS INTEGER\nFUNCTION rd%(n%)\nREAD sh\nrd = sh\nEND FUNCTION\n");
        }
        let mut push = |l: &str| {
            if let Some(c) = l.strip_prefix('@') {
                let n = slots.find(c).unwrap();
                if set >> n & 1 == 1 {
                    p.push_str(&format!("DATA {}\n", n + 100));
                }
            } else {
                p.push_str(l);
                p.push('\n');
            }
        };
        for l in SKELETON {
            push(l);
        }
        for l in &TAIL[..4] {
            push(l);
        }
        p.push_str(&read);
        p.push('\n');
        let line = p.lines().count() - 2;
        let mut push = |l: &str| {
            if let Some(c) = l.strip_prefix('@') {
                let n = slots.find(c).unwrap();
                if set >> n & 1 == 1 {
                    p.push_str(&format!("DATA {}\n", n + 100));
                }
            } else {
                p.push_str(l);
                p.push('\n');
            }
        };
        for l in &TAIL[4..] {
            push(l);
        }
        let mut exp: Vec<String> =
            (0..12).filter(|n| set >> n & 1 == 1).map(|n| format!("{}%", n + 100)).collect();
        if v[1] == 2 {
            exp.push(format!("{}:31: Out of data$", line));
        }
        (p, exp)
    };
    let mk2 = mk.clone();
    Section::new(
        "places",
        product(&r),
        move |i| mk2(i).0.replace('\n', ": "),
        move |i, cx| {
            let (p, exp) = mk(i);
            let mut m = Mach::scripting(Opts::default());
            let r = m.feed(&p);
            let got = m.out();
            cx.step(1);
            cx.traces += 1;
            cx.state(&exp);
            if r != Outcome::Done(Some(0)) || got != exp {
                return fail("places", p.replace('\n', ": "), &exp, &(got, r));
            }
            Ok(())
        },
    )
}

/// Pieces entered one after another.
const PIECES: [&str; 11] = [
    "DATA 1, 2",
    "DATA 3: READ x%: OUT x%: DATA 4",
    "READ x%: OUT x%",
    "READ x%, x%: OUT x%",
    "RESTORE",
    "READ x%: OUT x%: FAIL",
    "DATA 5: READ x%: OUT x%: END 0: READ x%",
    "DATA 6: READ x%: foo bar",
    "DATA 7, x",
    "READ s$: OUT s$",
    "CLEAR",
];

fn piece_section(max: u32) -> Section {
    let n = PIECES.len() as u64;
    let show = move |i: u64| {
        seq_decode(n, 1, i).iter().map(|p| PIECES[*p]).collect::<Vec<_>>().join(" | ")
    };
    Section::new("pieces", seq_count(n, 1, max), show, move |i, cx: &mut Cx| {
        use crate::machx::MemProgram;
        use endbasic_std::storage::Storage;
        use std::cell::RefCell;
        use std::rc::Rc;
        let seq = seq_decode(n, 1, i);
        let mut m = Mach::build(
            Opts::default(),
            Some((
                Rc::new(RefCell::new(MemProgram::default())),
                Rc::new(RefCell::new(Storage::default())),
            )),
            |b| b,
        );
        let mut d = Data::default();
        let mut exp = vec![];
        let mut got = vec![];
        let add = |d: &mut Data, l: &[i32]| d.items.extend(l.iter().map(|i| Some(V::I(*i))));
        for p in &seq {
            // The model of each piece; `e` is where it fails.
            let mut e = None;
            let mut end = None;
            let mut out = |d: &mut Data, n: usize, t: Ty, e: &mut Option<String>| {
                let mut last = None;
                for _ in 0..n {
                    match d.read(t) {
                        Ok(v) => last = Some(v),
                        Err(m) => {
                            *e = Some(m);
                            return;
                        }
                    }
                }
                exp.push(last.unwrap().show());
            };
            match p {
                0 => add(&mut d, &[1, 2]),
                1 => {
                    add(&mut d, &[3, 4]);
                    out(&mut d, 1, Ty::I, &mut e);
                }
                2 => out(&mut d, 1, Ty::I, &mut e),
                3 => out(&mut d, 2, Ty::I, &mut e),
                4 => d.next = 0,
                5 => {
                    out(&mut d, 1, Ty::I, &mut e);
                    e.get_or_insert(crate::lang::FAIL_MSG.to_owned());
                }
                6 => {
                    add(&mut d, &[5]);
                    out(&mut d, 1, Ty::I, &mut e);
                    end = Some(0);
                }
                7 | 8 => e = Some("compile".to_owned()),
                9 => out(&mut d, 1, Ty::S, &mut e),
                _ => d = Data::default(),
            }
            let r = m.feed(PIECES[*p]);
            let o = m.out();
            got.extend(o);
            let ok = match (&r, &e) {
                (Outcome::Compile(_), Some(m)) => m == "compile",
                (Outcome::Err(x), Some(m)) => x.contains(m.as_str()),
                (Outcome::Done(c), None) => *c == end,
                _ => false,
            };
            cx.step(1);
            cx.state(&(d.next, d.items.len()));
            if !ok || exp != got {
                return fail("pieces", show(i), &(exp, e), &(got, r));
            }
        }
        cx.traces += 1;
        Ok(())
    })
}

/// READ statements with every combination of two targets, and DATA statements with every
/// combination of two items, good and bad.
fn misuse_section() -> Section {
    // Targets, and what reading 1 into them leaves in `v`, `s`, `n`.
    const TARGETS: [(&str, bool); 13] = [
        ("x", true),
        ("(x)", true),
        ("fresh", true),
        ("other%", true),
        ("", false),
        ("3", false),
        ("x + 1", false),
        ("-x", false),
        ("a", false),
        ("a(0)", false),
        ("PRINT", false),
        ("MAX(1)", false),
        ("x#", false),
    ];
    const ITEMS: [(&str, bool); 13] = [
        ("1", true),
        ("", true),
        ("2.5", true),
        ("\"s\"", true),
        ("TRUE", true),
        ("-4", true),
        ("- 4.5", true),
        ("x", false),
        ("1 + 2", false),
        ("(1)", false),
        ("+3", false),
        ("-\"s\"", false),
        ("NOT TRUE", false),
    ];
    const SEPS: [(&str, bool); 4] = [(", ", true), ("; ", false), (" AS ", false), (" ", false)];
    let r = [2, 13, 13, 5];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let set = if v[0] == 0 { &TARGETS } else { &ITEMS };
        let (a, b) = (set[v[1]], set[v[2]]);
        // A single one, or two with each separator.
        let (list, mut ok) = match v[3] {
            0 => (a.0.to_owned(), a.1),
            n => (format!("{}{}{}", a.0, SEPS[n - 1].0, b.0), a.1 && b.1 && SEPS[n - 1].1),
        };
        if v[0] == 1 && v[3] == 4 && (a.0.is_empty() && b.1 || b.0.is_empty() && a.1) {
            // The separator is nothing and so is one of the items.
            ok = true;
        }
        if v[0] == 0 && v[3] == 4 && (a.0.is_empty() && b.1 || b.0.is_empty() && a.1) {
            ok = true;
        }
        let skip = v[3] == 4 && (list.trim() == "x -x" || list.contains(" -") || list.contains(" (") || list.ends_with(" +3"))
            || v[3] == 0 && v[2] != 0;
        let src = if v[0] == 0 {
            format!("DATA 1, 1\nx = 7\nDIM a(2)\nOUT x\nREAD {}\n", list)
        } else {
            format!("OUT 7\nDATA {}\nOUT 7", list)
        };
        (src, ok, skip)
    };
    Section::new(
        "misuses",
        product(&r),
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx: &mut Cx| {
            let (src, ok, skip) = mk(i);
            if skip {
                cx.trivial += 1;
                return Ok(());
            }
            let mut m = Mach::scripting(Opts::default());
            let r = m.feed(&src);
            let out = m.out();
            cx.step(1);
            cx.traces += 1;
            cx.state(&(ok, out.len()));
            let good = match &r {
                Outcome::Done(None) => ok && !out.is_empty(),
                Outcome::Compile(_) => !ok && out.is_empty(),
                _ => false,
            };
            if good { Ok(()) } else { fail("misuses", src.replace('\n', ": "), &ok, &(out, r)) }
        },
    )
}

// ---- Long lists. ----

const COUNTS: [usize; 14] = [62, 63, 64, 65, 126, 128, 129, 254, 255, 256, 257, 300, 1000, 5000];

fn long_section() -> Section {
    // How many items, how many in each statement, and where there is a RESTORE.
    let r = [COUNTS.len() as u64, 4, 4];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let n = COUNTS[v[0]];
        let per = [1, 7, 100, n][v[1]];
        let rest = [0, n / 2, n - 1, n][v[2]];
        let mut p = format!(
            "FOR i = 1 TO {rest}\nREAD x\nNEXT\nRESTORE\nbad = 0\nFOR i = 1 TO {n}\nREAD x\nIF x <> i * 3 THEN bad = bad + 1\n\
             NEXT\nOUT bad; x\nON ERROR RESUME NEXT\nREAD x\nOUT ERRMSG <> \"\"; x\nREAD x\nOUT x\nRESTORE\nREAD x\nOUT x\n"
        );
        let items: Vec<String> = (1..=n).map(|i| (i * 3).to_string()).collect();
        for c in items.chunks(per) {
            p.push_str(&format!("DATA {}\n", c.join(", ")));
        }
        (p, n)
    };
    Section::new(
        "long",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let (p, n) = mk(i);
            let mut m = Mach::scripting(Opts::default());
            let r = m.feed(&p);
            let got = m.out();
            let l = format!("{}%", n * 3);
            let exp = [format!("0% {}", l), format!("true? {}", l), l, "3%".to_owned()];
            cx.step(2 * n as u64);
            cx.traces += 1;
            cx.state(&(i, n));
            if r != Outcome::Done(None) || got != exp {
                return fail("long", format!("{:?}", mixed(&[COUNTS.len() as u64, 4, 4], i)), &exp, &(got, r));
            }
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        history_section(tier.pick(3, 4), tier.pick(3, 4)),
        place_section(3),
        piece_section(tier.pick(4, 6)),
        misuse_section(),
        long_section(),
    ]
}
