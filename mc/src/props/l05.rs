//! L05: arrays behave as maps from in-range subscripts to values.

use crate::corex::{self, Stop};
use crate::engine::{
    CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode,
};
use crate::lang::{self, Ty, V, cast, lit_text};
use crate::machx::{Mach, Opts, Outcome};
use std::collections::HashMap;

pub fn property() -> Property {
    Property {
        id: "L05",
        rule: "All shapes of rank 1 to 3 (thorough: 4) with dimensions 1 to 3, of every element type, \
               local and shared: every element stored and read back, every subscript tuple from -1 to \
               the dimension, every bound query; all histories of up to 4 (quick) or 5 (thorough) \
               stores and loads, failing ones included, over three arrays; all dimension values from a \
               set with invalid, fractional and huge ones; LBOUND and UBOUND of every shape with every kind of \
               dimension argument; arrays whose DIM was skipped in every kind of use; 16 shapes of up to 80000 elements \
               or 12 dimensions, filled, checked, overwritten and checked again. Oracle: one map per array.",
        assumptions: &["sizes beyond the memory limit may be rejected or accepted"],
        sections,
    }
}

const TYS: [Ty; 4] = [Ty::B, Ty::D, Ty::I, Ty::S];

fn value(t: Ty, n: i32) -> V {
    match t {
        Ty::B => V::B(n % 2 == 0),
        Ty::D => V::D(n as f64 + 0.5),
        Ty::I => V::I(n * 3 - 7),
        Ty::S => V::s(&format!("s{}", n)),
    }
}

fn text(v: &V) -> String {
    match v {
        V::I(i) if *i < 0 => format!("-{}", -i),
        v => lit_text(v),
    }
}

fn fail(section: &str, src: &str, exp: &dyn std::fmt::Debug, got: &dyn std::fmt::Debug) -> CaseResult {
    Err(Failure::new(
        format!("{}: {}", section, src.replace('\n', ": ")),
        format!("{}\nexpected {:?}\nactual   {:?}", src, exp, got),
    ))
}

/// All subscript tuples with every component between -1 and the dimension.
fn tuples(dims: &[i32]) -> Vec<Vec<i32>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out
            .into_iter()
            .flat_map(|p: Vec<i32>| {
                (-1..=*d).map(move |i| {
                    let mut p = p.clone();
                    p.push(i);
                    p
                })
            })
            .collect();
    }
    out
}

fn subs(ix: &[i32]) -> String {
    ix.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(", ")
}

fn in_range(ix: &[i32], dims: &[i32]) -> bool {
    ix.iter().zip(dims).all(|(i, d)| *i >= 0 && i < d)
}

/// The error of the first bad subscript.
fn subscript_error(ix: &[i32], dims: &[i32]) -> Option<String> {
    for (i, d) in ix.iter().zip(dims) {
        if *i < 0 {
            return Some(format!("Subscript {} cannot be negative", i));
        }
        if i >= d {
            return Some(format!("Subscript {} exceeds limit of {}", i, d));
        }
    }
    None
}

fn shape_section(max_rank: u32, max_dim: u64) -> Section {
    let shapes = seq_count(max_dim, 1, max_rank);
    let r = [4, 3, shapes];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let dims: Vec<i32> =
            seq_decode(max_dim, 1, v[2] as u64).into_iter().map(|d| d as i32 + 1).collect();
        let t = TYS[v[0]];
        let kind = v[1];
        let mut p = String::from("ON ERROR RESUME NEXT\n");
        let mut exp = vec![];
        let decl = format!("a({}) AS {}", subs(&dims), t.name());
        // A neighbour on each side shows whether stores stray.
        p.push_str("DIM lo(2) AS INTEGER\nlo(0) = 11\nlo(1) = 12\n");
        match kind {
            0 => p.push_str(&format!("DIM {}\n", decl)),
            1 => p.push_str(&format!("DIM SHARED {}\n", decl)),
            _ => p = format!(
                "SUB u\nON ERROR RESUME NEXT\nDIM lo(2) AS INTEGER\nlo(0) = 11\nlo(1) = 12\nDIM {}\n",
                decl
            ),
        }
        p.push_str("DIM hi(2) AS INTEGER\nhi(0) = 21\nhi(1) = 22\n");
        let good: Vec<_> = tuples(&dims).into_iter().filter(|x| in_range(x, &dims)).collect();
        let show = |p: &mut String, ix: &Vec<i32>| p.push_str(&format!("OUT a({})\n", subs(ix)));
        // Defaults, then distinct values in order, then read back in reverse order.
        for ix in &good {
            show(&mut p, ix);
            exp.push(t.default().show());
        }
        for (n, ix) in good.iter().enumerate() {
            p.push_str(&format!("a({}) = {}\n", subs(ix), text(&value(t, n as i32))));
        }
        for (n, ix) in good.iter().enumerate().rev() {
            show(&mut p, ix);
            exp.push(value(t, n as i32).show());
        }
        // Bad subscripts do nothing but fail.
        for ix in tuples(&dims) {
            if let Some(e) = subscript_error(&ix, &dims) {
                p.push_str(&format!("a({}) = {}\nOUT LASTERR\n", subs(&ix), text(&value(t, 90))));
                exp.push(format!("{}${}", p.lines().count() - 1, e));
                p.push_str(&format!("OUT a({})\nOUT LASTERR\n", subs(&ix)));
                exp.push(format!("{}${}", p.lines().count() - 1, e));
            }
        }
        for (n, ix) in good.iter().enumerate() {
            show(&mut p, ix);
            exp.push(value(t, n as i32).show());
        }
        // Bounds.
        if dims.len() == 1 {
            p.push_str("OUT LBOUND(a); UBOUND(a)\n");
            exp.push(format!("0% {}%", dims[0] - 1));
        }
        for (n, d) in dims.iter().enumerate() {
            p.push_str(&format!("OUT LBOUND(a, {}); UBOUND(a, {})\n", n + 1, n + 1));
            exp.push(format!("0% {}%", d - 1));
        }
        p.push_str("OUT lo(0); lo(1); hi(0); hi(1)\n");
        exp.push("11% 12% 21% 22%".to_owned());
        if kind == 2 {
            p.push_str("END SUB\nu\nu\n");
            // A second activation starts afresh.
            let again = exp.clone();
            exp.extend(again);
        }
        (p, exp)
    };
    let mk2 = mk.clone();
    Section::new(
        "shapes",
        product(&r),
        move |i| mk2(i).0.replace('\n', ": "),
        move |i, cx| {
            let (src, exp) = mk(i);
            let r = corex::with_env(|env| corex::run(env, &src, &[], Default::default(), 100_000));
            cx.step(src.lines().count() as u64);
            cx.traces += 1;
            cx.state(&exp);
            // LASTERR shows as line:message.
            let got: Vec<String> = r
                .out
                .iter()
                .map(|l| match l.strip_suffix('$').and_then(|l| l.split_once(':')) {
                    Some((n, m)) => format!("{}${}", n, m),
                    None => l.clone(),
                })
                .collect();
            if got != exp || r.stop != Stop::Eof {
                for (n, (g, e)) in got.iter().zip(&exp).enumerate() {
                    if g != e {
                        return fail("shapes", &src, &(n, e), &(n, g));
                    }
                }
                return fail("shapes", &src, &exp.len(), &(got.len(), r.stop));
            }
            Ok(())
        },
    )
}

// ---- Large arrays: many elements, long dimensions, many dimensions. ----

const LARGE: [&[i32]; 16] = [
    &[255],
    &[256],
    &[257],
    &[300, 3],
    &[3, 300],
    &[16, 16],
    &[17, 16],
    &[2, 2, 260],
    &[260, 2, 2],
    &[1, 256, 2],
    &[40, 40, 2],
    &[2; 9],
    &[1; 12],
    &[65_536],
    &[70_000],
    &[2, 2, 20_000],
];

fn large_section() -> Section {
    let r = [LARGE.len() as u64, 2];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let dims = LARGE[v[0]];
        let n: i32 = dims.iter().product();
        let t = ["INTEGER", "DOUBLE"][v[1]];
        // The position in the order of the subscripts, written and read from both sides.
        let names: Vec<String> = (0..dims.len()).map(|k| format!("i{}", k)).collect();
        let value = |neg: bool| {
            let s: Vec<String> = names.iter().zip(dims).map(|(n, d)| format!("* {} + {}", d, n)).collect();
            let e = format!("{}0 {}", "(".repeat(s.len()), s.iter().map(|s| format!("{})", s)).collect::<String>());
            let e = if neg { format!("-7 - {}", e) } else { e };
            if t == "DOUBLE" { format!("0.5 + {}", e) } else { e }
        };
        let each = |body: &str| {
            let mut p = String::new();
            for (n, d) in names.iter().zip(dims) {
                p.push_str(&format!("FOR {} = 0 TO {}\n", n, d - 1));
            }
            p.push_str(body);
            p.push_str(&"NEXT\n".repeat(dims.len()));
            p
        };
        let at = format!("a({})", names.join(", "));
        let mut p = format!("DIM lo(300) AS INTEGER\nDIM a({}) AS {}\nDIM hi(300) AS INTEGER\nbad = 0\n", subs(dims), t);
        p.push_str(&each(&format!("{} = {}\n", at, value(false))));
        p.push_str(&each(&format!("IF {} <> {} THEN bad = bad + 1\n{} = {}\n", at, value(false), at, value(true))));
        p.push_str(&each(&format!("IF {} <> {} THEN bad = bad + 1\n", at, value(true))));
        p.push_str("FOR k = 0 TO 299\nIF lo(k) <> 0 OR hi(k) <> 0 THEN bad = bad + 1\nNEXT\nOUT bad\n");
        for (n, d) in dims.iter().enumerate() {
            p.push_str(&format!("OUT UBOUND(a, {}) - {}\n", n + 1, d - 1));
        }
        (p, n)
    };
    Section::new(
        "large",
        product(&r),
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx| {
            let (src, n) = mk(i);
            let mut m = Mach::scripting(Opts::default());
            let r = m.feed(&src);
            let out = m.out();
            cx.step(3 * n as u64);
            cx.traces += 1;
            cx.state(&src);
            if r != Outcome::Done(None) || out.is_empty() || out.iter().any(|l| l != "0%") {
                return fail("large", &src, &"0% always", &(out, r));
            }
            Ok(())
        },
    )
}

// ---- Histories over several arrays. ----

#[derive(Clone)]
struct Op {
    arr: usize,
    subs: Vec<&'static str>,
    ix: Vec<i32>,
    /// Value to store, or None to load.
    val: Option<(&'static str, V)>,
}

const ARRS: [(&str, &[i32], Ty); 3] =
    [("a", &[2, 3], Ty::I), ("b", &[3], Ty::S), ("c", &[2, 1, 2], Ty::D)];

fn ops() -> Vec<Op> {
    let op = |arr: usize, subs: &[&'static str], ix: &[i32], val: Option<(&'static str, V)>| Op {
        arr,
        subs: subs.to_vec(),
        ix: ix.to_vec(),
        val,
    };
    let st = |s: &'static str, v: V| Some((s, v));
    vec![
        op(0, &["0", "0"], &[0, 0], st("5", V::I(5))),
        op(0, &["1", "0"], &[1, 0], st("6.5", V::I(7))),
        op(0, &["0", "1"], &[0, 1], st("k + 1", V::I(2))),
        op(0, &["k", "2"], &[1, 2], st("k - 9", V::I(-8))),
        op(0, &["2", "0"], &[2, 0], st("9", V::I(9))),
        op(0, &["0", "-1"], &[0, -1], st("9", V::I(9))),
        op(0, &["0.6", "1.4"], &[1, 1], st("3", V::I(3))),
        op(0, &["1", "0"], &[1, 0], None),
        op(0, &["0", "3"], &[0, 3], None),
        op(1, &["0"], &[0], st("\"x\"", V::s("x"))),
        op(1, &["k + 1"], &[2], st("\"y\" + \"z\"", V::s("yz"))),
        op(1, &["3"], &[3], st("\"w\"", V::s("w"))),
        op(1, &["2"], &[2], None),
        op(2, &["1", "0", "1"], &[1, 0, 1], st("2", V::D(2.0))),
        op(2, &["0", "0", "1"], &[0, 0, 1], st("0.25", V::D(0.25))),
        op(2, &["1", "1", "1"], &[1, 1, 1], st("4.0", V::D(4.0))),
        op(2, &["k", "0", "k"], &[1, 0, 1], None),
        op(0, &["a(1, 0) - 6", "a(0, 0)"], &[-99, -99], st("8", V::I(8))),
    ]
}

fn history_section(max: u32) -> Section {
    let os = ops();
    let n = os.len() as u64;
    let count = seq_count(n, 1, max);
    let os2 = os.clone();
    let show = move |i: u64| {
        seq_decode(n, 1, i).iter().map(|o| op_text(&os2[*o])).collect::<Vec<_>>().join(": ")
    };
    let show2 = show.clone();
    Section::new("histories", count * 2, move |i| show(i / 2), move |i, cx| {
        let shared = if i % 2 == 1 { "SHARED " } else { "" };
        let seq = seq_decode(n, 1, i / 2);
        let mut src = String::from("ON ERROR RESUME NEXT\nk = 1\n");
        for (n, d, t) in ARRS {
            src.push_str(&format!("DIM {}{}({}) AS {}\n", shared, n, subs(d), t.name()));
        }
        let mut maps: Vec<HashMap<Vec<i32>, V>> = vec![HashMap::new(); 3];
        let mut exp = vec![];
        let get = |maps: &Vec<HashMap<Vec<i32>, V>>, a: usize, ix: &[i32]| {
            maps[a].get(ix).cloned().unwrap_or_else(|| ARRS[a].2.default())
        };
        for o in &seq {
            let o = &os[*o];
            let mut ix = o.ix.clone();
            if ix[0] == -99 {
                // Subscripts that are themselves elements.
                let n = |v: V| match v {
                    V::I(i) => i,
                    _ => unreachable!(),
                };
                ix = vec![n(get(&maps, 0, &[1, 0])) - 6, n(get(&maps, 0, &[0, 0]))];
            }
            src.push_str(&op_text(o));
            src.push('\n');
            match (&o.val, subscript_error(&ix, ARRS[o.arr].1)) {
                (_, Some(e)) => {
                    src.push_str("OUT LASTERR\n");
                    exp.push(format!("{}:{}$", src.lines().count() - 1, e));
                }
                (Some((_, v)), None) => {
                    maps[o.arr].insert(ix, cast(v.clone(), ARRS[o.arr].2, 0).ok().unwrap());
                }
                (None, None) => exp.push(get(&maps, o.arr, &ix).show()),
            }
        }
        // Everything at the end.
        for (a, (n, d, _)) in ARRS.iter().enumerate() {
            for ix in tuples(d).into_iter().filter(|x| in_range(x, d)) {
                src.push_str(&format!("OUT {}({})\n", n, subs(&ix)));
                exp.push(get(&maps, a, &ix).show());
            }
        }
        cx.step(seq.len() as u64);
        cx.traces += 1;
        cx.state(&exp);
        let r = corex::with_env(|env| {
            let r = corex::run(env, &src, &[], Default::default(), 1000);
            (r.out.clone(), r.stop.clone(), r)
        });
        if r.0 != exp || r.1 != Stop::Eof {
            return fail("histories", &show2(i / 2), &exp, &(r.0, r.1));
        }
        // The host sees the same values.
        for (a, (n, d, _)) in ARRS.iter().enumerate() {
            for ix in tuples(d).into_iter().filter(|x| in_range(x, d)) {
                let got = r.2.elem(n, &ix).map(|d| corex::show_datum(&d));
                let e = get(&maps, a, &ix).show();
                if got.as_ref() != Some(&e) {
                    return fail("histories", &src, &(n, &ix, e), &got);
                }
            }
        }
        Ok(())
    })
}

fn op_text(o: &Op) -> String {
    let a = format!("{}({})", ARRS[o.arr].0, o.subs.join(", "));
    match &o.val {
        Some((t, _)) => format!("{} = {}", a, t),
        None => format!("OUT {}", a),
    }
}

// ---- Declarations. ----

fn decl_section() -> Section {
    const DIMS: [(&str, f64); 17] = [
        ("0", 0.0),
        ("1", 1.0),
        ("2", 2.0),
        ("3", 3.0),
        ("-1", -1.0),
        ("-2147483647", -2147483647.0),
        ("0.4", 0.0),
        ("0.5", 1.0),
        ("2.5", 3.0),
        ("k", 2.0),
        ("TI(3)", 3.0),
        ("46341", 46341.0),
        ("65536", 65536.0),
        ("16777216", 16777216.0),
        ("2147483647", 2147483647.0),
        ("2147483648.0", f64::NAN),
        ("1.0 / 0.0", f64::NAN),
    ];
    let n = DIMS.len() as u64 + 1;
    let r = [2, 4, n, n, n - 1];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let mut dims = vec![];
        for d in [v[2], v[3]] {
            if d > 0 {
                dims.push(DIMS[d - 1]);
            }
        }
        dims.push(DIMS[v[4]]);
        let shared = if v[0] == 1 { "SHARED " } else { "" };
        let l = dims.iter().map(|d| d.0).collect::<Vec<_>>().join(", ");
        let src = format!("k = 2\nDIM {}a({}) AS {}\n", shared, l, TYS[v[1]].name());
        (src, dims, TYS[v[1]])
    };
    Section::new(
        "declarations",
        product(&r),
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx| {
            let (src, dims, t) = mk(i);
            let total: f64 = dims.iter().map(|d| d.1).product();
            let overflow = dims.iter().any(|d| d.1.is_nan());
            let bad = dims.iter().find(|d| d.1 <= 0.0);
            let huge = total > 1e6;
            if !overflow && bad.is_none() && (1e6..1e14).contains(&total) {
                // Would only use memory: what is left does not fit in any address space.
                cx.trivial += 1;
                return Ok(());
            }
            let mut more = src.clone();
            if !overflow && bad.is_none() && !huge {
                for n in 1..=dims.len() {
                    more.push_str(&format!("OUT LBOUND(a, {}); UBOUND(a, {})\n", n, n));
                }
                let last: Vec<String> = dims.iter().map(|d| format!("{}", d.1 as i64 - 1)).collect();
                let l = last.join(", ");
                more.push_str(&format!("OUT a({})\na({}) = {}\nOUT a({})\n", l, l, text(&value(t, 4)), l));
            }
            let r = corex::with_env(|env| corex::run(env, &more, &[], Default::default(), 100));
            cx.step(2);
            cx.traces += 1;
            let out: Vec<String> = r.out.iter().filter(|l| *l != "t3%").cloned().collect();
            cx.state(&(&out, format!("{:?}", r.stop)));
            let ok = match &r.stop {
                Stop::Err(p, m) if p.line == 2 => {
                    if overflow {
                        m.starts_with("Cannot cast") || bad.is_some() || huge
                    } else if bad.is_some() {
                        m.contains("must be positive")
                            || dims.iter().any(|d| d.1 > 1e4)
                                && (m.contains("memory") || m.contains("heap"))
                    } else {
                        huge && (m.contains("memory") || m.contains("heap"))
                    }
                }
                Stop::Eof if huge && bad.is_none() && !overflow => true,
                Stop::Eof if !overflow && bad.is_none() => {
                    let mut exp: Vec<String> =
                        dims.iter().map(|d| format!("0% {}%", d.1 as i64 - 1)).collect();
                    exp.push(t.default().show());
                    exp.push(value(t, 4).show());
                    out == exp
                }
                _ => false,
            };
            if !ok {
                return fail("declarations", &more, &"defaults within the bounds or an error", &(out, r.stop));
            }
            Ok(())
        },
    )
}

/// Uses that do not match the declaration are rejected when compiling.
fn misuse_section() -> Section {
    const DECLS: [(&str, usize, Ty); 6] = [
        ("DIM a(2) AS INTEGER", 1, Ty::I),
        ("DIM a(2, 2) AS INTEGER", 2, Ty::I),
        ("DIM a(2, 2, 2) AS STRING", 3, Ty::S),
        ("DIM SHARED a(2) AS BOOLEAN", 1, Ty::B),
        ("DIM SHARED a(2, 2) AS DOUBLE", 2, Ty::D),
        ("DIM a(2)", 1, Ty::I),
    ];
    const USES: [(&str, usize); 18] = [
        ("OUT a(%)", 1),
        ("OUT a(%, 1)", 2),
        ("OUT a(1, %, 1)", 3),
        ("OUT a(%, 1, 1, 1)", 4),
        ("a(%) = #", 1),
        ("a(1, %) = #", 2),
        ("a(%, 1, 1) = #", 3),
        ("a(1, 1, 1, 1) = #", 4),
        ("OUT a", 0),
        ("a = #", 0),
        ("OUT a()", 0),
        ("a() = #", 0),
        ("OUT a$(%)", 1),
        ("OUT a%(%, 0)", 2),
        ("a#(%) = #", 1),
        ("DIM a(2) AS INTEGER", 0),
        ("DIM a AS INTEGER", 0),
        ("a", 0),
    ];
    const VALS: [(&str, Ty); 4] =
        [("1", Ty::I), ("0.75", Ty::D), ("\"s\"", Ty::S), ("TRUE", Ty::B)];
    let r = [6, 18, 4, 4];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let (d, u, s, x) = (DECLS[v[0]], USES[v[1]], VALS[v[2]], VALS[v[3]]);
        let text = u.0.replace('%', s.0);
        // The suffix of an array name was replaced too.
        let text = if u.0.starts_with("OUT a%(") { text.replacen(&format!("a{}(", s.0), "a%(", 1) } else { text };
        let is_store = u.0.contains(" = ");
        let text = match is_store {
            true => {
                let (l, _) = text.rsplit_once(" = ").unwrap();
                format!("{} = {}", l, x.0)
            }
            false => text,
        };
        let mut ok = u.1 == d.1;
        if u.0.contains('%') && u.0 != "OUT a%(%, 0)" || u.0 == "OUT a%(%, 0)" {
            ok &= s.1.num();
        }
        if is_store {
            ok &= lang::castable(x.1, d.2);
        }
        if u.0.contains("a$(") {
            ok &= d.2 == Ty::S;
        }
        if u.0.contains("a%(") {
            ok &= d.2 == Ty::I;
        }
        if u.0.contains("a#(") {
            ok &= d.2 == Ty::D;
        }
        (format!("{}\n{}\n", d.0, text), ok)
    };
    Section::new(
        "misuses",
        product(&r),
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx: &mut Cx| {
            let (src, ok) = mk(i);
            if src.starts_with("DIM SHARED") && src.contains("\nDIM") {
                // A local variable may hide a shared one.
                cx.trivial += 1;
                return Ok(());
            }
            let r = corex::with_env(|env| corex::run(env, &src, &[], Default::default(), 100));
            cx.step(1);
            let good = match r.stop {
                Stop::Compile(..) => !ok,
                Stop::Eof => ok,
                _ => false,
            };
            if !good {
                return fail("misuses", &src, &ok, &r.stop);
            }
            Ok(())
        },
    )
}

/// The standard bounds functions with every kind of argument.
fn bounds_section() -> Section {
    let shapes = seq_count(3, 1, 3);
    /// Dimension arguments and the dimension they mean, or none if they are rejected.
    const DIMS: [(&str, Option<i32>); 12] = [
        ("", Some(-99)),
        ("-2147483647", Some(-2147483647)),
        ("-1", Some(-1)),
        ("0", Some(0)),
        ("1", Some(1)),
        ("2", Some(2)),
        ("3", Some(3)),
        ("4", Some(4)),
        ("1.5", Some(2)),
        ("0.4", Some(0)),
        ("2147483647", Some(2147483647)),
        ("\"1\"", None),
    ];
    // How the array is declared, and what is passed in its place.
    let r = [shapes, 4, 3, DIMS.len() as u64, 2];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let dims: Vec<i32> = seq_decode(3, 1, v[0] as u64).into_iter().map(|d| d as i32 + 1).collect();
        let f = ["LBOUND", "UBOUND"][v[4]];
        let (d, t) = (DIMS[v[3]], TYS[(v[0] + v[3]) % 4]);
        let suffix = match t {
            Ty::B => "?",
            Ty::D => "#",
            Ty::I => "%",
            Ty::S => "$",
        };
        let name = ["a".to_owned(), format!("A{}", suffix), "zz".to_owned()][v[2]].clone();
        let arg = if d.0.is_empty() { String::new() } else { format!(", {}", d.0) };
        let call = format!("OUT {}({}{}); UBOUND(n); {}({}{})", f, name, arg, f, name, arg);
        let decl = |sh: &str| format!("DIM {}a({}) AS {}", sh, subs(&dims), t.name());
        let src = match v[1] {
            0 => format!("DIM n(9)\n{}\n{}\n", decl(""), call),
            1 => format!("DIM n(9)\n{}\n{}\n", decl("SHARED "), call),
            2 => format!("{}\nSUB u\nDIM n(9)\n{}\nEND SUB\nu\n", decl("SHARED "), call),
            // The DIM is not executed.
            _ => format!("DIM n(9)\nIF FALSE THEN\n{}\nEND IF\n{}\n", decl("SHARED "), call),
        };
        let exp = match d.1 {
            _ if v[2] == 2 => Err("zz"),
            None => Err("not a number"),
            _ if v[1] == 3 => Err("not initialized"),
            Some(-99) if dims.len() == 1 => Ok(dims[0]),
            Some(-99) => Err("Requires a dimension"),
            Some(n) if n <= 0 => Err("must be positive"),
            Some(n) => dims.get(n as usize - 1).copied().ok_or("has only"),
        };
        let exp = exp.map(|d| {
            let b = if v[4] == 0 { 0 } else { d - 1 };
            format!("{}% 8% {}%", b, b)
        });
        (src, exp, v[2] == 2 || d.1.is_none())
    };
    Section::new(
        "bounds",
        product(&r),
        move |i| mk(i).0.replace('\n', ": "),
        move |i, cx| {
            let (src, exp, compiling) = mk(i);
            let mut m = Mach::scripting(Opts::default());
            let got = m.feed(&src);
            let out = m.out();
            cx.step(1);
            cx.traces += 1;
            cx.state(&exp);
            let ok = match (&exp, &got) {
                (Ok(e), Outcome::Done(None)) => out.len() == 1 && out[0] == *e,
                (Err(e), Outcome::Err(g)) => !compiling && g.contains(e) && out.is_empty(),
                (Err(e), Outcome::Compile(g)) => compiling && g.contains(e) && out.is_empty(),
                _ => false,
            };
            if ok { Ok(()) } else { fail("bounds", &src, &exp, &(out, got)) }
        },
    )
}

/// Arrays whose DIM was not executed have no elements, in any statement that uses them.
fn unset_section() -> Section {
    const USES: [&str; 6] =
        ["OUT a(%)", "a(%) = #", "x = a(%)", "OUT LBOUND(a)", "OUT UBOUND(a, 1)", "b = a(%) = #"];
    const WAYS: [(&str, &str); 4] = [
        ("IF FALSE THEN\nDIM @\nEND IF", ""),
        ("GOTO @after\nDIM @\n@after", ""),
        ("FOR k = 1 TO 0\nDIM @\nNEXT", ""),
        ("SUB u\nIF FALSE THEN\nDIM @\nEND IF", "END SUB\nu"),
    ];
    let r = [WAYS.len() as u64, USES.len() as u64, 4, 3, 2];
    let mk = move |i: u64| {
        let v = mixed(&r, i);
        let t = TYS[v[2]];
        let (dims, ix) = [("3", "0"), ("2, 2", "1, 1"), ("1, 2, 3", "0, 0, 0")][v[3]];
        let sh = if v[4] == 1 && v[0] != 3 { "SHARED " } else { "" };
        let decl = format!("{}a({}) AS {}", sh, dims, t.name());
        let use_ = USES[v[1]].replace('%', ix).replace('#', &text(&value(t, 2)));
        format!(
            "{}\nON ERROR RESUME NEXT\n{}\nOUT ERRMSG\nOUT 5\n{}\n",
            WAYS[v[0]].0.replacen("DIM @", &format!("DIM {}", decl), 1),
            use_,
            WAYS[v[0]].1,
        )
    };
    Section::new(
        "unset",
        product(&r),
        move |i| mk(i).replace('\n', ": "),
        move |i, cx| {
            let src = mk(i);
            let mut m = Mach::scripting(Opts::default());
            let got = m.feed(&src);
            let out = m.out();
            cx.step(2);
            cx.traces += 1;
            cx.state(&out);
            if got != Outcome::Done(None)
                || out.len() != 2
                || !out[0].contains("not initialized")
                || out[1] != "5%"
            {
                return fail("unset", &src, &"an error", &(out, got));
            }
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        shape_section(tier.pick(3, 4), 3),
        large_section(),
        history_section(tier.pick(4, 5)),
        decl_section(),
        misuse_section(),
        bounds_section(),
        unset_section(),
    ]
}
