//! G04: with video syncing disabled the display changes only when asked, and then shows everything drawn.

use crate::engine::{CaseResult, Failure, Property, Section, Tier, mixed, product, seq_count, seq_decode};
use crate::gfxx::Disp;
use endbasic_std::console::{CharsXY, ClearType, Console, PixelsXY};
use endbasic_std::gfx::lcd::LcdSize;
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, Font};

pub fn property() -> Property {
    Property {
        id: "G04",
        rule: "All sequences of up to 4 (thorough: 5) of 27 operations (text, scrolling, erasures, cursor, alternate \
               screen, every kind of shape, syncing on, off and now), and of up to 6 (thorough: 8) of 9 of them, on \
               displays of two pixel formats; the display is compared after each operation with a twin that always \
               syncs, or with what it showed when it was last synced, and the colors read back with those of the twin.",
        assumptions: &["the twin draws correctly (G02, G03)"],
        sections,
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    On,
    Off,
    Now,
    Write(&'static str),
    Print(&'static str),
    Clear(u8),
    Locate(u16, u16),
    Move(i16),
    Color(u8, u8),
    Hide,
    Show,
    Enter,
    Leave,
    Pixel(i16, i16),
    Line,
    Rect,
    Rectf,
    Tri,
    Trif,
    Poly,
    Polyf,
    Circle,
    Circlef,
    Fill,
}
use Op::*;

const OPS: [Op; 27] = [
    On,
    Off,
    Now,
    Write("ab"),
    Print("c"),
    Print("a text that wraps and scrolls the screen up"),
    Clear(0),
    Clear(1),
    Clear(2),
    Clear(3),
    Locate(1, 2),
    Move(1),
    Color(1, 4),
    Hide,
    Show,
    Enter,
    Leave,
    Pixel(9, 7),
    Line,
    Rect,
    Rectf,
    Tri,
    Trif,
    Polyf,
    Circle,
    Circlef,
    Fill,
];

const CORE: [Op; 9] = [On, Off, Now, Write("ab"), Print("c"), Pixel(9, 7), Rectf, Hide, Poly];

fn run(d: &mut Disp, o: Op) -> std::io::Result<()> {
    let p = PixelsXY::new;
    let c = &mut d.con;
    match o {
        On => c.set_sync(true).map(|_| ()),
        Off => c.set_sync(false).map(|_| ()),
        Now => c.sync_now(),
        Write(t) => c.write(t),
        Print(t) => c.print(t),
        Clear(0) => c.clear(ClearType::All),
        Clear(1) => c.clear(ClearType::CurrentLine),
        Clear(2) => c.clear(ClearType::PreviousChar),
        Clear(_) => c.clear(ClearType::UntilNewLine),
        Locate(x, y) => c.locate(CharsXY::new(x, y)),
        Move(n) => c.move_within_line(n),
        Color(f, b) => c.set_color(Some(f), Some(b)),
        Hide => c.hide_cursor(),
        Show => c.show_cursor(),
        Enter => c.enter_alt(),
        Leave => c.leave_alt(),
        Pixel(x, y) => c.draw_pixel(p(x, y)),
        Line => c.draw_line(p(-3, 2), p(8, 4)),
        Rect => c.draw_rect(p(2, 1), p(30, 5)),
        Rectf => c.draw_rect_filled(p(10, 3), p(14, 9)),
        Tri => c.draw_tri(p(0, 0), p(6, 3), p(2, 9)),
        Trif => c.draw_tri_filled(p(12, 0), p(17, 3), p(11, 9)),
        Poly => c.draw_poly(&[p(0, 0), p(5, 1), p(6, 7), p(2, 5)]),
        Polyf => c.draw_poly_filled(&[p(4, 4), p(9, 1), p(12, 7), p(2, 5)]),
        Circle => c.draw_circle(p(8, 5), 4),
        Circlef => c.draw_circle_filled(p(3, 3), 2),
        Fill => c.bucket_fill(p(15, 8)),
    }
}

static DOTS: Font = Font { name: "tiny", glyph_size: LcdSize { width: 2, height: 2 }, stride: 1, data: &dots() };

const fn dots() -> [u8; 190] {
    let mut d = [0; 190];
    let mut i = 1;
    while i < 95 {
        d[i * 2] = ((i as u8) & 3) << 6;
        d[i * 2 + 1] = ((i as u8) >> 2 & 3) << 6;
        i += 1;
    }
    d
}

type Device = (&'static str, usize, usize, usize, &'static Font);

const DEVICES: [Device; 3] =
    [("24 bits", 19, 11, 3, &DOTS), ("16 bits", 16, 10, 2, &DOTS), ("5x8 font", 26, 25, 2, &FONT_5X8)];

fn history(name: &str, g: &Device, ops: &[Op], cx: &mut crate::engine::Cx) -> CaseResult {
    let mut d = Disp::new(g.1, g.2, g.3, g.4);
    let mut twin = Disp::new(g.1, g.2, g.3, g.4);
    let mut on = true;
    let mut shown = twin.shot();
    let mut x = 0;
    for (n, o) in ops.iter().enumerate() {
        let fail = |what: String| -> CaseResult {
            Err(Failure::new(
                format!("{}: {} {:?}", name, g.0, &ops[..=n]),
                format!("after {:?}: {}", o, what),
            ))
        };
        // Where the cursor may be moved to and erased from is of no interest here.
        match o {
            Move(_) if x + 1 >= g.1 / g.4.glyph_size.width => {
                cx.trivial += 1;
                return Ok(());
            }
            Clear(3) if x >= g.1 / g.4.glyph_size.width => {
                cx.trivial += 1;
                return Ok(());
            }
            _ => (),
        }
        x = column(*o, x, g.1 / g.4.glyph_size.width);
        let r = run(&mut d, *o);
        cx.step(1);
        let e = match o {
            On | Off | Now => Ok(()),
            _ => run(&mut twin, *o),
        };
        if r.is_ok() != e.is_ok() {
            return fail(format!("{:?}, not {:?}", r, e));
        }
        match o {
            On => on = true,
            Off => on = false,
            _ => (),
        }
        if on || matches!(o, Now) {
            shown = twin.shot();
        }
        let got = d.shot();
        if got != shown {
            let i = got.iter().zip(&shown).position(|(a, b)| a != b).unwrap();
            return fail(format!(
                "the display shows {:06x} at {},{}, not {:06x}",
                got[i],
                i % g.1,
                i / g.1,
                shown[i]
            ));
        }
        if !d.screen.borrow().bad.is_empty() {
            return fail(format!("{:?}", d.screen.borrow().bad));
        }
        if n + 1 == ops.len() {
            for y in -1..=g.2 as i16 {
                for x in -1..=g.1 as i16 {
                    let (a, b) =
                        (d.con.peek_pixel(PixelsXY::new(x, y)).unwrap(), twin.con.peek_pixel(PixelsXY::new(x, y)).unwrap());
                    if a != b {
                        return fail(format!("color {:?} read back at {},{}, not {:?}", a, x, y, b));
                    }
                }
            }
        }
        cx.state(&(&got, on));
    }
    cx.traces += 1;
    Ok(())
}

/// A bound of the column of the cursor, that wraps differently only to smaller ones.
fn column(o: Op, x: usize, cols: usize) -> usize {
    match o {
        Write(t) => match x + t.chars().count() {
            n if n <= cols => n,
            _ => cols,
        },
        Print(_) | Clear(0) | Clear(1) | Enter => 0,
        Clear(2) => x,
        Locate(x, _) => x as usize,
        Move(n) => (x as i64 + i64::from(n)) as usize,
        Leave => cols,
        _ => x,
    }
}

fn histories(name: &'static str, devices: &'static [Device], set: &'static [Op], min: u32, max: u32) -> Section {
    let k = set.len() as u64;
    let r = [devices.len() as u64, seq_count(k, min, max)];
    let ops = move |i: u64| -> Vec<Op> { seq_decode(k, min, i).iter().map(|o| set[*o]).collect() };
    Section::new(
        name,
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{} {:?}", devices[d[0]].0, ops(d[1] as u64))
        },
        move |i, cx| {
            let d = mixed(&r, i);
            history(name, &devices[d[0]], &ops(d[1] as u64), cx)
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    vec![
        histories("histories", &DEVICES[..1], &OPS, 1, tier.pick(4, 5)),
        histories("devices", &DEVICES, &OPS, 1, tier.pick(3, 4)),
        histories("syncing", &DEVICES[..2], &CORE, 4, tier.pick(6, 7)),
    ]
}
