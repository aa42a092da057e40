//! Y01: the pins of a Raspberry Pi do what the GPIO commands ask.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use endbasic_rpi::{RppalPins, spi_bus_open};
use endbasic_std::spi::SpiMode;
use endbasic_std::testutils::{CapturedOut, MockConsole};
use endbasic_std::{Machine, MachineBuilder};
use futures_lite::future::block_on;
use rppal::{Board, Fault, Use, board};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "Y01",
        rule: "The real crate of the Raspberry Pi on a stand-in for the library of the hardware: all sequences of up to \
               3 (thorough: 4) of 34 steps (the GPIO commands on pins that exist and that do not, the clearing of the machine, changes of \
               what is connected, pins that another program takes and gives back, a chip and pins that fail and \
               work again), with every line of the board compared after each step, and when the interpreter ends. The \
               other bus: all buses and devices, all modes, clocks and failures.",
        assumptions: &["the library of the hardware does what it documents"],
        sections,
    }
}

#[derive(Clone, Copy)]
enum Step {
    Setup(u8, &'static str),
    Clear(u8),
    Read(u8),
    Write(u8, bool),
    GpioClear,
    ClearAll,
    External(u8, Option<bool>),
    Taken(u8),
    NoChip(Fault),
    NoPins(Fault),
}
use Step::*;

const STEPS: [Step; 34] = [
    Setup(2, "IN"),
    Setup(2, "in-pull-down"),
    Setup(2, "In-Pull-Up"),
    Setup(2, "OUT"),
    Clear(2),
    Read(2),
    Write(2, true),
    Write(2, false),
    Setup(7, "IN"),
    Setup(7, "IN-PULL-UP"),
    Setup(7, "out"),
    Clear(7),
    Read(7),
    Write(7, true),
    Write(7, false),
    Setup(53, "IN-PULL-UP"),
    Read(53),
    Setup(54, "OUT"),
    Write(54, true),
    Clear(54),
    Setup(255, "IN"),
    Read(255),
    GpioClear,
    ClearAll,
    External(2, Some(true)),
    External(2, Some(false)),
    External(2, None),
    External(7, Some(true)),
    Taken(2),
    Taken(7),
    NoChip(Fault::Denied),
    NoChip(Fault::Unknown),
    NoPins(Fault::Io),
    NoPins(Fault::Used),
];

impl Step {
    fn show(&self) -> String {
        match self {
            Setup(p, m) => format!("GPIO_SETUP {}, \"{}\"", p, m),
            Clear(p) => format!("GPIO_CLEAR {}", p),
            Read(p) => format!("PRINT GPIO_READ({})", p),
            Write(p, v) => format!("GPIO_WRITE {}, {}", p, if *v { "TRUE" } else { "FALSE" }),
            GpioClear => "GPIO_CLEAR".to_owned(),
            ClearAll => "[the machine is cleared]".to_owned(),
            External(p, Some(v)) => format!("[pin {} is connected to {}]", p, if *v { "high" } else { "low" }),
            External(p, None) => format!("[pin {} is disconnected]", p),
            Taken(p) => format!("[another program takes or gives back pin {}]", p),
            NoChip(f) => format!("[the chip starts or ceases to fail: {:?}]", f),
            NoPins(f) => format!("[the pins start or cease to fail: {:?}]", f),
        }
    }
}

fn show(i: u64) -> String {
    seq_decode(STEPS.len() as u64, 1, i).iter().map(|s| STEPS[*s].show()).collect::<Vec<_>>().join("; ")
}

fn sections(tier: Tier) -> Vec<Section> {
    let k = STEPS.len() as u64;
    let modes = [0u64, 1, 2, 3];
    let radices = [256, 5, modes.len() as u64, 4, 3];
    vec![
        Section::new("pins", seq_count(k, 1, tier.pick(3, 4)), show, pins),
        Section::new(
            "bus",
            product(&radices),
            move |i| format!("{:?}", mixed(&radices, i)),
            move |i, cx| bus(&mixed(&radices, i), cx),
        ),
    ]
}

fn run(m: &mut Machine, code: &str) -> Result<(), String> {
    m.compile(&mut code.as_bytes()).map_err(|e| format!("compilation: {}", e))?;
    match block_on(m.exec()) {
        Ok(None) => Ok(()),
        Ok(Some(c)) => Err(format!("exited with {:?}", c)),
        Err(e) => Err(e.to_string()),
    }
}

fn pins(i: u64, cx: &mut Cx) -> CaseResult {
    board(|b| *b = Board::default());
    let console = Rc::new(RefCell::new(MockConsole::default()));
    let mut m = MachineBuilder::default()
        .with_console(console.clone())
        .with_gpio_pins(Rc::from(RefCell::from(RppalPins::default())))
        .build();
    let fail = |what: String| Err(Failure::new(show(i), what));

    // What the lines of the program must be.
    let mut lines: BTreeMap<u8, Use> = BTreeMap::new();
    let mut last: BTreeMap<u8, bool> = BTreeMap::new();
    let mut others: Vec<u8> = vec![];
    let mut opened = false;
    let mut no_chip: Option<Fault> = None;
    let mut no_pins: Option<Fault> = None;
    for s in seq_decode(STEPS.len() as u64, 1, i) {
        let step = STEPS[s];
        cx.step(1);
        // What the hardware sees.
        match step {
            External(p, v) => {
                board(|b| match v {
                    Some(v) => {
                        b.external.insert(p, v);
                    }
                    None => {
                        b.external.remove(&p);
                    }
                });
                continue;
            }
            Taken(p) => {
                if others.contains(&p) {
                    others.retain(|o| *o != p);
                    board(|b| b.taken.retain(|o| *o != p));
                } else if !lines.contains_key(&p) {
                    others.push(p);
                    board(|b| b.taken.push(p));
                }
                continue;
            }
            NoChip(f) => {
                no_chip = if no_chip.is_some() { None } else { Some(f) };
                board(|b| b.new_fails = no_chip.iter().flat_map(|f| (0..100).map(|n| (n, *f))).collect());
                continue;
            }
            NoPins(f) => {
                no_pins = if no_pins.is_some() { None } else { Some(f) };
                board(|b| b.get_fails = no_pins.iter().flat_map(|f| (0..100).map(|n| (n, *f))).collect());
                continue;
            }
            _ => (),
        }

        let n = console.borrow().captured_out().len();
        let got = match step {
            ClearAll => {
                m.clear();
                Ok(())
            }
            _ => run(&mut m, &step.show()),
        };
        let out: Vec<CapturedOut> = console.borrow().captured_out()[n..]
            .iter()
            .filter(|o| matches!(o, CapturedOut::Print(_)))
            .cloned()
            .collect();
        let mut printed = vec![];
        // What an error has to mention.
        let want: Result<(), String> = match step {
            Setup(p, mode) => {
                let e = if !opened && let Some(f) = no_chip {
                    Some(if f == Fault::Denied { "/dev/gpiomem: permission denied".to_owned() } else { "model".to_owned() })
                } else {
                    opened = true;
                    if p >= 54 {
                        Some(format!("Unknown pin number {}", p))
                    } else if let Some(f) = no_pins {
                        Some(if f == Fault::Io { "broken".to_owned() } else { "in use".to_owned() })
                    } else if others.contains(&p) {
                        Some("in use".to_owned())
                    } else {
                        None
                    }
                };
                match e {
                    Some(e) => {
                        // A pin that cannot be set up again may stay as it was or be cleared.
                        if board(|b| !b.lines.contains_key(&p)) {
                            lines.remove(&p);
                        }
                        Err(e)
                    }
                    None => {
                        let u = match mode.to_uppercase().as_str() {
                            "IN" => Use::Floating,
                            "IN-PULL-DOWN" => Use::PullDown,
                            "IN-PULL-UP" => Use::PullUp,
                            _ => Use::Drives(*last.get(&p).unwrap_or(&false)),
                        };
                        lines.insert(p, u);
                        Ok(())
                    }
                }
            }
            Clear(p) => {
                lines.remove(&p);
                Ok(())
            }
            GpioClear | ClearAll => {
                lines.clear();
                Ok(())
            }
            Read(p) => match lines.get(&p) {
                None | Some(Use::Drives(_)) => Err("Pin not configured for read; use GPIO_SETUP first".to_owned()),
                Some(_) => {
                    let v = board(|b| b.level(p));
                    printed.push(CapturedOut::Print(if v { "TRUE" } else { "FALSE" }.to_owned()));
                    Ok(())
                }
            },
            Write(p, v) => match lines.get_mut(&p) {
                Some(Use::Drives(d)) => {
                    *d = v;
                    last.insert(p, v);
                    Ok(())
                }
                _ => Err("Pin not configured for write; use GPIO_SETUP first".to_owned()),
            },
            _ => unreachable!(),
        };
        let at = format!("at {}", step.show());
        match (&got, &want) {
            (Ok(()), Ok(())) => (),
            (Err(g), Err(w)) if g.contains(w.as_str()) => (),
            _ => return fail(format!("{}: {:?} instead of {:?}", at, got, want)),
        }
        if out != printed {
            return fail(format!("{}: {:?} instead of {:?}", at, out, printed));
        }
        let real = board(|b| b.lines.clone());
        if real != lines {
            return fail(format!("{}: the board has {:?} instead of {:?}", at, real, lines));
        }
        let mut taken: Vec<u8> = board(|b| b.taken.clone());
        taken.sort();
        let mut exp: Vec<u8> = lines.keys().chain(&others).copied().collect();
        exp.sort();
        if taken != exp {
            return fail(format!("{}: the pins in use are {:?} instead of {:?}", at, taken, exp));
        }
        let w = board(|b| b.writes.iter().copied().collect::<BTreeMap<u8, bool>>());
        if w != last {
            return fail(format!("{}: what was written last is {:?} instead of {:?}", at, w, last));
        }
        cx.state(&(real, taken, opened));
    }
    drop(m);
    let (lines, taken) = board(|b| (b.lines.clone(), b.taken.clone()));
    if !lines.is_empty() || taken != others {
        return fail(format!("after the end: the board has {:?} and {:?} are in use", lines, taken));
    }
    cx.traces += 1;
    Ok(())
}

fn bus(v: &[usize], cx: &mut Cx) -> CaseResult {
    board(|b| {
        *b = Board::default();
        b.spi_fails = [None, Some(Fault::Io), Some(Fault::Unknown)][v[4]];
    });
    let (bus, slave) = (v[0] as u8, [0u8, 1, 2, 128, 255][v[1]]);
    let clock = [0, 1, 9_000_000, u32::MAX][v[3]];
    let mode = match v[2] {
        0 => SpiMode::Mode0,
        1 => SpiMode::Mode1,
        2 => SpiMode::Mode2,
        _ => SpiMode::Mode3,
    };
    let got = spi_bus_open(bus, slave, clock, mode);
    cx.step(1);
    let opened = board(|b| b.spi_opened.clone());
    let fail = |what: String| Err(Failure::new(format!("bus {}, device {}, clock {}, mode {}", bus, slave, clock, v[2]), what));
    let buffer = std::path::Path::new("/sys/module/spidev/parameters/bufsiz").exists();
    let works = bus == 0 && slave == 0 && v[4] == 0;
    if opened != if works { vec![(0, 0, clock, v[2] as u8)] } else { vec![] } {
        return fail(format!("it opened {:?}", opened));
    }
    if got.is_ok() != (works && buffer) {
        return fail(format!("{:?}", got.map(|_| "it works").map_err(|e| e.to_string())));
    }
    if let Err(e) = &got {
        let e = e.to_string();
        let want = match (bus, slave, v[4]) {
            (1.., _, _) => "bus 0".to_owned(),
            (_, 1.., _) => "slave 0".to_owned(),
            (_, _, 1) => "broken".to_owned(),
            (_, _, 2) => clock.to_string(),
            _ => "/sys/module/spidev/parameters/bufsiz".to_owned(),
        };
        if !e.contains(&want) {
            return fail(format!("{:?} does not mention {:?}", e, want));
        }
    }
    drop(got);
    if board(|b| b.spi_open) != 0 {
        return fail("it stays open".to_owned());
    }
    cx.state(&(bus, slave, clock, v[2], v[4]));
    cx.traces += 1;
    Ok(())
}
