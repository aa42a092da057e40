//! G01: GPIO commands reach exactly the pin they name with exactly what they were given.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::gpiox::PinsModel;
use crate::machx::{Mach, Opts, Outcome};
use endbasic_std::gpio::{MockPins, Pin};
use std::cell::RefCell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "G01",
        rule: "Pins: every pin number from -3 to 520 and around every power of two, as integer and as double, given \
               to every command. Modes: all variants of case of all modes and all strings at one edit from one. \
               Histories: all sequences of up to 4 (thorough: 5) of 17 operations on pins that work, that fail and \
               that do not exist, compared with a map of pins; and the same through the pins for testing.",
        assumptions: &[],
        sections,
    }
}

fn machine(p: &Rc<RefCell<PinsModel>>) -> Mach {
    let p = p.clone();
    Mach::build(Opts::default(), None, move |b| b.with_gpio_pins(p))
}

fn pin_numbers() -> Vec<i64> {
    let mut v: Vec<i64> = (-3..=520).collect();
    for b in 10..=31 {
        for d in [-2, -1, 0, 1, 2, 5] {
            v.push((1i64 << b) + d);
            v.push(-(1i64 << b) + d);
        }
    }
    v.retain(|x| *x > i32::MIN as i64 && *x <= i32::MAX as i64);
    v.sort();
    v.dedup();
    v
}

/// Commands on a pin, with what the chip is asked.
const FORMS: [(&str, &str); 8] = [
    ("GPIO_SETUP {}, \"IN\"", "setup {} In"),
    ("GPIO_SETUP {}, \"in-pull-up\"", "setup {} InPullUp"),
    ("GPIO_SETUP {}, \"In-Pull-Down\"", "setup {} InPullDown"),
    ("GPIO_SETUP {}, \"OUT\"", "setup {} Out"),
    ("GPIO_CLEAR {}", "clear {}"),
    ("OUT GPIO_READ({})", "read {}"),
    ("GPIO_WRITE {}, TRUE", "write {} true"),
    ("GPIO_WRITE {}, FALSE", "write {} false"),
];

fn pins() -> Section {
    let nums = pin_numbers();
    let r = [nums.len() as u64, 3];
    let desc = nums.clone();
    Section::new(
        "pins",
        product(&r),
        move |i| format!("pin {} way {}", desc[mixed(&r, i)[0]], mixed(&r, i)[1]),
        move |i, cx| {
            let d = mixed(&r, i);
            let n = nums[d[0]];
            let (arg, n) = match d[1] {
                0 => (format!("{}", n), n),
                1 => (format!("{}.25", n), n),
                _ => {
                    // As the sum of other numbers.
                    (format!("{} + 1", n - 1), n)
                }
            };
            if d[1] == 2 && n - 1 <= i32::MIN as i64 {
                cx.trivial += 1;
                return Ok(());
            }
            let p = Rc::new(RefCell::new(PinsModel::default()));
            let mut m = machine(&p);
            for (c, e) in FORMS {
                cx.step(1);
                let c = c.replace("{}", &arg);
                let fail = |what: String| -> CaseResult { Err(Failure::new(format!("pins: {}", c), what)) };
                p.borrow_mut().log.clear();
                p.borrow_mut().pins.clear();
                let mode = match c.contains("WRITE") {
                    true => "Out",
                    false => "In",
                };
                // Every pin but this one reads as high.
                for q in 0..=255u8 {
                    let v = (mode.to_owned(), i64::from(q) != n);
                    p.borrow_mut().pins.insert(q, v);
                }
                let o = m.feed(&c);
                let log = std::mem::take(&mut p.borrow_mut().log);
                let out = m.out();
                if (0..=255).contains(&n) {
                    if o != Outcome::Done(None) || log != [e.replace("{}", &n.to_string())] {
                        return fail(format!("{:?} and the chip is asked {:?}", o, log));
                    }
                    if c.contains("READ") && out != ["false?"] {
                        return fail(format!("reads {:?}", out));
                    }
                } else if !matches!(o, Outcome::Err(_)) || !log.is_empty() {
                    return fail(format!("{:?} and the chip is asked {:?}", o, log));
                }
                cx.state(&(&c, &log));
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

const MODES: [(&str, &str); 4] =
    [("IN", "In"), ("OUT", "Out"), ("IN-PULL-UP", "InPullUp"), ("IN-PULL-DOWN", "InPullDown")];

/// Strings with all variants of case of a mode and all strings at one edit.
fn mode_strings() -> Vec<(String, Option<&'static str>)> {
    let mut v = vec![];
    for (m, e) in MODES {
        let chars: Vec<char> = m.chars().collect();
        let letters: Vec<usize> = (0..chars.len()).filter(|i| chars[*i].is_alphabetic()).collect();
        for mask in 0..1u32 << letters.len() {
            let mut c = chars.clone();
            for (b, l) in letters.iter().enumerate() {
                if mask & 1 << b != 0 {
                    c[*l] = c[*l].to_ascii_lowercase();
                }
            }
            v.push((c.into_iter().collect(), Some(e)));
        }
        for p in 0..=chars.len() {
            let ok = |s: String| {
                let r = MODES.iter().find(|x| x.0 == s.to_ascii_uppercase()).map(|x| x.1);
                (s, r)
            };
            if p < chars.len() {
                let mut c = chars.clone();
                c.remove(p);
                v.push(ok(c.into_iter().collect()));
            }
            for x in ['I', 'N', '-', '_', ' ', 'P', 'ı', 'é'] {
                let mut c = chars.clone();
                c.insert(p, x);
                v.push(ok(c.iter().collect()));
                if p < chars.len() {
                    let mut c = chars.clone();
                    c[p] = x;
                    v.push(ok(c.iter().collect()));
                }
            }
        }
    }
    v.push((String::new(), None));
    v
}

fn modes() -> Section {
    let s = mode_strings();
    let desc = s.clone();
    Section::new(
        "modes",
        s.len() as u64,
        move |i| format!("{:?}", desc[i as usize].0),
        move |i, cx| {
            let (t, e) = &s[i as usize];
            let p = Rc::new(RefCell::new(PinsModel::default()));
            let mut m = machine(&p);
            let o = m.feed(&format!("GPIO_SETUP 7, \"{}\"", t));
            let log = p.borrow().log.clone();
            cx.step(1);
            cx.state(&(t, &log));
            cx.traces += 1;
            let ok = match e {
                Some(e) => o == Outcome::Done(None) && log == [format!("setup 7 {}", e)],
                None => matches!(o, Outcome::Err(_)) && log.is_empty(),
            };
            match ok {
                true => Ok(()),
                false => Err(Failure::new(
                    format!("modes: {:?}", t),
                    format!("expected {:?}, got {:?} and the chip is asked {:?}", e, o, log),
                )),
            }
        },
    )
}

const OPS: [&str; 17] = [
    "GPIO_SETUP 3, \"IN\"",
    "GPIO_SETUP 3, \"IN-PULL-UP\"",
    "GPIO_SETUP 3, \"out\"",
    "GPIO_SETUP 255, \"in-pull-down\"",
    "GPIO_SETUP 255, \"OUT\"",
    "GPIO_SETUP 3, \"ON\"",
    "GPIO_SETUP 9, \"IN\"",
    "GPIO_WRITE 3, TRUE",
    "GPIO_WRITE 3, FALSE",
    "GPIO_WRITE 255, GPIO_READ(3)",
    "GPIO_WRITE 259, TRUE",
    "OUT GPIO_READ(3)",
    "OUT GPIO_READ(255)",
    "OUT GPIO_READ(-1)",
    "GPIO_CLEAR",
    "GPIO_CLEAR 3",
    "GPIO_CLEAR 9",
];

/// The operations on the chip of a command, of which the later ones need the former to succeed.
fn model(op: &str, p: &mut PinsModel) -> Result<Option<String>, ()> {
    use endbasic_std::gpio::{PinMode, Pins};
    let e = |_| ();
    match op {
        "GPIO_SETUP 3, \"IN\"" => p.setup(Pin(3), PinMode::In).map_err(e)?,
        "GPIO_SETUP 3, \"IN-PULL-UP\"" => p.setup(Pin(3), PinMode::InPullUp).map_err(e)?,
        "GPIO_SETUP 3, \"out\"" => p.setup(Pin(3), PinMode::Out).map_err(e)?,
        "GPIO_SETUP 255, \"in-pull-down\"" => p.setup(Pin(255), PinMode::InPullDown).map_err(e)?,
        "GPIO_SETUP 255, \"OUT\"" => p.setup(Pin(255), PinMode::Out).map_err(e)?,
        "GPIO_SETUP 9, \"IN\"" => p.setup(Pin(9), PinMode::In).map_err(e)?,
        "GPIO_WRITE 3, TRUE" => p.write(Pin(3), true).map_err(e)?,
        "GPIO_WRITE 3, FALSE" => p.write(Pin(3), false).map_err(e)?,
        "GPIO_WRITE 255, GPIO_READ(3)" => {
            let v = p.read(Pin(3)).map_err(e)?;
            p.write(Pin(255), v).map_err(e)?
        }
        "OUT GPIO_READ(3)" => return p.read(Pin(3)).map(|v| Some(format!("{}?", v))).map_err(e),
        "OUT GPIO_READ(255)" => return p.read(Pin(255)).map(|v| Some(format!("{}?", v))).map_err(e),
        "GPIO_CLEAR" => p.clear_all().map_err(e)?,
        "GPIO_CLEAR 3" => p.clear(Pin(3)).map_err(e)?,
        "GPIO_CLEAR 9" => p.clear(Pin(9)).map_err(e)?,
        _ => return Err(()),
    }
    Ok(None)
}

fn histories(max: u32) -> Section {
    let k = OPS.len() as u64;
    let r = [2, seq_count(k, 1, max)];
    Section::new(
        "histories",
        product(&r),
        move |i| format!("{:?}", seq_decode(k, 1, mixed(&r, i)[1] as u64).iter().map(|o| OPS[*o]).collect::<Vec<_>>()),
        move |i, cx| {
            let d = mixed(&r, i);
            let seq = seq_decode(k, 1, d[1] as u64);
            let new = || PinsModel { broken: vec![9], clear_all_fails: d[0] == 1, ..PinsModel::default() };
            let p = Rc::new(RefCell::new(new()));
            let mut q = new();
            let mut m = machine(&p);
            for o in &seq {
                cx.step(1);
                let op = OPS[*o];
                let fail = |what: String| -> CaseResult {
                    let h: Vec<&str> = seq.iter().map(|o| OPS[*o]).collect();
                    Err(Failure::new(format!("histories: {}", h.join(": ")), format!("after {}: {}", op, what)))
                };
                let got = m.feed(op);
                let out = m.out();
                let exp = model(op, &mut q);
                let ok = match &exp {
                    Ok(v) => got == Outcome::Done(None) && out == v.iter().cloned().collect::<Vec<_>>(),
                    Err(()) => matches!(got, Outcome::Err(_)) && out.is_empty(),
                };
                if !ok {
                    return fail(format!("{:?} {:?}, expected {:?}", got, out, exp));
                }
                if p.borrow().log != q.log {
                    return fail(format!("chip asked {:?}\nexpected   {:?}", p.borrow().log, q.log));
                }
                cx.state(&(format!("{:?}", q.pins), op));
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// Operations on the pins for testing, with the number in the trace.
const MOCK: [(&str, Option<i32>); 8] = [
    ("GPIO_SETUP 3, \"IN\"", Some(301)),
    ("GPIO_SETUP 255, \"IN-PULL-DOWN\"", Some(25502)),
    ("GPIO_SETUP 0, \"IN-PULL-UP\"", Some(3)),
    ("GPIO_SETUP 10, \"OUT\"", Some(1004)),
    ("GPIO_CLEAR 3", Some(305)),
    ("GPIO_WRITE 4, TRUE", Some(421)),
    ("GPIO_WRITE 4, FALSE", Some(420)),
    ("GPIO_CLEAR 256", None),
];

fn mock(max: u32) -> Section {
    let k = MOCK.len() as u64 + 3;
    Section::new(
        "testing",
        seq_count(k, 1, max),
        move |i| format!("{:?}", seq_decode(k, 1, i)),
        move |i, cx| {
            let seq = seq_decode(k, 1, i);
            let p = Rc::new(RefCell::new(MockPins::default()));
            let mut m = Mach::build(Opts::default(), None, move |b| b.with_gpio_pins(p));
            let mut trace = vec![];
            let mut reads: std::collections::VecDeque<bool> = Default::default();
            for o in &seq {
                cx.step(1);
                let fail = |what: String| -> CaseResult { Err(Failure::new(format!("testing: {:?}", seq), what)) };
                let (op, ok, out) = match MOCK.get(*o) {
                    Some((op, Some(t))) => {
                        trace.push(*t);
                        (*op, true, vec![])
                    }
                    Some((op, None)) => (*op, false, vec![]),
                    None if *o < MOCK.len() + 2 => {
                        let v = *o == MOCK.len();
                        reads.push_back(v);
                        (if v { "GPIO_MOCK_INJECT 7, TRUE" } else { "GPIO_MOCK_INJECT 7, FALSE" }, true, vec![])
                    }
                    None => match reads.pop_front() {
                        Some(v) => {
                            trace.push(if v { 711 } else { 710 });
                            ("OUT GPIO_READ(7)", true, vec![format!("{}?", v)])
                        }
                        None => ("OUT GPIO_READ(7)", false, vec![]),
                    },
                };
                let got = m.feed(op);
                let o = m.out();
                if (got == Outcome::Done(None)) != ok || o != out {
                    return fail(format!("{}: {:?} {:?}", op, got, o));
                }
                m.feed("OUT GPIO_MOCK_TRACE");
                let t = m.out();
                let e = format!("{}$", trace.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "));
                if t != [e.clone()] {
                    return fail(format!("after {}: trace {:?}, expected {:?}", op, t, e));
                }
                cx.state(&(&trace, &reads));
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![pins(), modes(), histories(tier.pick(3, 5)), mock(tier.pick(3, 5))]
}
