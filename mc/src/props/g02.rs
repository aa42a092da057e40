//! G02: graphics commands draw the shapes they document, clipped to the screen.

use crate::engine::{CaseResult, Cx, Failure, Property, Section, Tier, mixed, product};
use crate::gfxx::{Disp, picture};
use endbasic_std::console::{Console, PixelsXY, ansi_color_to_rgb};
use crate::gfxx::pack;

pub fn property() -> Property {
    Property {
        id: "G02",
        rule: "Lines and rectangles: all pairs of points on and around a small screen and at the limits of \
               coordinates. Triangles: all triples of points of a grid; polygons: all four (thorough: five) points of \
               a smaller grid and lists of up to three points. Circles: all radii up to 140 (thorough: 300) around \
               centers on and off the screen, and huge ones. Fills: all pictures of 4x4 pixels of two colors and \
               3x3 of three (thorough: 4x3 of three) from every point, and all pairs of the 256 colors. On a screen of 240x170 pixels: lines from 56 \
               points to the border, all sets of three of 30 points, stars, combs and spirals of up to 42 (162) points, \
               and fills of winding areas. What the display shows is compared with \
               the geometry of each shape.",
        assumptions: &[],
        sections,
    }
}

const W: i32 = 12;
const H: i32 = 9;

fn p(x: i32, y: i32) -> PixelsXY {
    PixelsXY::new(x as i16, y as i16)
}

fn fg() -> u32 {
    pack(ansi_color_to_rgb(11))
}

thread_local! {
    static CANVAS: std::cell::RefCell<Disp> = std::cell::RefCell::new({
        let mut d = Disp::canvas(W as usize, H as usize);
        d.con.set_color(Some(11), Some(0)).unwrap();
        d
    });
    static BIG: std::cell::RefCell<Disp> = std::cell::RefCell::new({
        let mut d = Disp::canvas(101, 81);
        d.con.set_color(Some(11), Some(0)).unwrap();
        d
    });
    static VAST: std::cell::RefCell<Disp> = std::cell::RefCell::new({
        let mut d = Disp::canvas(LARGE.0 as usize, LARGE.1 as usize);
        d.con.set_color(Some(11), Some(0)).unwrap();
        d
    });
}

/// Draws on an empty small screen.
fn small(f: impl FnOnce(&mut Disp)) -> Vec<bool> {
    CANVAS.with(|c| {
        let mut c = match c.try_borrow_mut() {
            Ok(c) => c,
            Err(_) => panic!("left over from a crash"),
        };
        c.blank();
        f(&mut c);
        c.lit(fg())
    })
}

/// The size of a screen.
#[derive(Clone, Copy, Eq, PartialEq)]
struct Dim(i32, i32);

const SMALL: Dim = Dim(W, H);
const LARGE: Dim = Dim(240, 170);

impl Dim {
    fn has(self, x: i64, y: i64) -> bool {
        (0..i64::from(self.0)).contains(&x) && (0..i64::from(self.1)).contains(&y)
    }

    fn get(self, l: &[bool], x: i64, y: i64) -> bool {
        self.has(x, y) && l[(y * i64::from(self.0) + x) as usize]
    }

    /// Draws on an empty screen of this size.
    fn draw(self, f: impl FnOnce(&mut Disp)) -> Vec<bool> {
        if self == SMALL {
            return small(f);
        }
        VAST.with(|c| {
            let mut c = match c.try_borrow_mut() {
                Ok(c) => c,
                Err(_) => panic!("left over from a crash"),
            };
            c.blank();
            f(&mut c);
            c.lit(fg())
        })
    }
}

/// Checks a line by its definition: the closest pixel to the ideal line for each step along its longest axis.
fn check_line(dim: Dim, l: &[bool], a: (i32, i32), b: (i32, i32)) -> Result<(), String> {
    let (ax, ay, bx, by) = (i64::from(a.0), i64::from(a.1), i64::from(b.0), i64::from(b.1));
    let (dx, dy) = (bx - ax, by - ay);
    let steep = dy.abs() > dx.abs();
    let diagonal = dy.abs() == dx.abs();
    let n = dx.abs().max(dy.abs());
    // For each position along the long axis on the screen, the pixels across.
    let mut total = 0;
    let (longs, wides) = if steep { (i64::from(dim.1), i64::from(dim.0)) } else { (i64::from(dim.0), i64::from(dim.1)) };
    for m in 0..longs {
        let (m0, m1, c0, dc) =
            if steep { (ay.min(by), ay.max(by), if ay < by { ax } else { bx }, if ay < by { dx } else { -dx }) }
            else { (ax.min(bx), ax.max(bx), if ax < bx { ay } else { by }, if ax < bx { dy } else { -dy }) };
        let lit: Vec<i64> = (0..wides)
            .filter(|c| if steep { dim.get(l, *c, m) } else { dim.get(l, m, *c) })
            .collect();
        total += lit.len();
        if m < m0 || m > m1 {
            if !lit.is_empty() {
                return Err(format!("pixels beyond the ends at {}", m));
            }
            continue;
        }
        if lit.len() > 1 {
            return Err(format!("more than one pixel across at {}", m));
        }
        // Twice the distance across times n, from the ideal position.
        let dist = |c: i64| 2 * ((c - c0) * n - dc * (m - m0)).abs();
        match lit.first() {
            Some(c) => {
                if dist(*c) > n {
                    return Err(format!("pixel {} at {} is off the line", c, m));
                }
            }
            None => {
                if n == 0 && !(if steep { dim.has(c0, m) } else { dim.has(m, c0) }) {
                    continue;
                }
                if (0..wides).any(|c| dist(c) < n || n == 0 && c == c0) {
                    return Err(format!("no pixel at {}", m));
                }
            }
        }
    }
    let _ = diagonal;
    if total != l.iter().filter(|b| **b).count() {
        return Err("pixels off the line".to_owned());
    }
    for e in [a, b] {
        let (x, y) = (i64::from(e.0), i64::from(e.1));
        if dim.has(x, y) && !dim.get(l, x, y) {
            return Err(format!("no pixel at the end {},{}", x, y));
        }
    }
    Ok(())
}

/// Coordinates on, around and far from the screen.
fn xs() -> Vec<i32> {
    let mut v: Vec<i32> = (-4..W + 4).collect();
    v.extend([-32768, -32767, -300, 300, 32766, 32767]);
    v
}

fn ys() -> Vec<i32> {
    let mut v: Vec<i32> = (-3..H + 3).collect();
    v.extend([-32768, -200, 200, 32767]);
    v
}

fn verdict(dim: Dim, what: String, l: &[bool], r: Result<(), String>) -> CaseResult {
    match r {
        Ok(()) => Ok(()),
        Err(e) if dim == SMALL => Err(Failure::new(what, format!("{}\n{}", e, picture(W as usize, l)))),
        Err(e) => Err(Failure::new(what, e)),
    }
}

fn lines() -> Section {
    let (x, y) = (xs(), ys());
    let r = [x.len() as u64, y.len() as u64, x.len() as u64];
    let d2 = (x.clone(), y.clone());
    Section::new(
        "lines",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("GFX_LINE {}, {}, {}, *", d2.0[d[0]], d2.1[d[1]], d2.0[d[2]])
        },
        move |i, cx| {
            let d = mixed(&r, i);
            for y2 in &y {
                let (a, b) = ((x[d[0]], y[d[1]]), (x[d[2]], *y2));
                cx.step(1);
                let l = small(|c| c.con.draw_line(p(a.0, a.1), p(b.0, b.1)).unwrap());
                cx.state(&l);
                verdict(SMALL, format!("GFX_LINE {}, {}, {}, {}", a.0, a.1, b.0, b.1), &l, check_line(SMALL, &l, a, b))?;
                if a == b {
                    let l2 = small(|c| c.con.draw_pixel(p(a.0, a.1)).unwrap());
                    let n = usize::from(SMALL.has(i64::from(a.0), i64::from(a.1)));
                    if l2 != l || l.iter().filter(|b| **b).count() != n {
                        return verdict(SMALL, format!("GFX_PIXEL {}, {}", a.0, a.1), &l2, Err("wrong pixels".to_owned()));
                    }
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// A rectangle reaches from its lowest corner to just before its highest one, and is a line if it has no area.
fn rects() -> Section {
    let (x, y) = (xs(), ys());
    let r = [x.len() as u64, y.len() as u64, x.len() as u64];
    let d2 = (x.clone(), y.clone());
    Section::new(
        "rectangles",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("GFX_RECT {}, {}, {}, *", d2.0[d[0]], d2.1[d[1]], d2.0[d[2]])
        },
        move |i, cx| {
            let d = mixed(&r, i);
            for y2 in &y {
                let (a, b) = ((x[d[0]], y[d[1]]), (x[d[2]], *y2));
                cx.step(2);
                let line = a.0 == b.0 || a.1 == b.1;
                let (x1, x2) = (a.0.min(b.0), a.0.max(b.0) - 1);
                let (y1, y2) = (a.1.min(b.1), a.1.max(b.1) - 1);
                for filled in [false, true] {
                    let l = small(|c| {
                        if filled {
                            c.con.draw_rect_filled(p(a.0, a.1), p(b.0, b.1)).unwrap()
                        } else {
                            c.con.draw_rect(p(a.0, a.1), p(b.0, b.1)).unwrap()
                        }
                    });
                    let what =
                        format!("GFX_RECT{} {}, {}, {}, {}", if filled { "F" } else { "" }, a.0, a.1, b.0, b.1);
                    cx.state(&l);
                    if line {
                        verdict(SMALL, what, &l, check_line(SMALL, &l, a, b))?;
                        continue;
                    }
                    let exp: Vec<bool> = (0..H)
                        .flat_map(|y| {
                            (0..W).map(move |x| {
                                let inside = (x1..=x2).contains(&x) && (y1..=y2).contains(&y);
                                inside && (filled || x == x1 || x == x2 || y == y1 || y == y2)
                            })
                        })
                        .collect();
                    if l != exp {
                        return verdict(SMALL, what, &l, Err(format!("expected\n{}\ngot", picture(W as usize, &exp))));
                    }
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// The intervals of a row inside of a closed path, as pairs of fractions.
fn spans(y: i64, pts: &[(i64, i64)]) -> Vec<f64> {
    let mut v = vec![];
    for i in 0..pts.len() {
        let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
        if a.1 == b.1 || y < a.1.min(b.1) || y >= a.1.max(b.1) {
            continue;
        }
        v.push(a.0 as f64 + (y - a.1) as f64 * (b.0 - a.0) as f64 / (b.1 - a.1) as f64);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn union_of_lines(dim: Dim, pts: &[(i32, i32)]) -> Vec<bool> {
    dim.draw(|c| {
        for i in 0..pts.len() {
            let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
            c.con.draw_line(p(a.0, a.1), p(b.0, b.1)).unwrap();
        }
    })
}

fn check_filled(dim: Dim, l: &[bool], outline: &[bool], pts: &[(i32, i32)]) -> Result<(), String> {
    let q: Vec<(i64, i64)> = pts.iter().map(|p| (i64::from(p.0), i64::from(p.1))).collect();
    for y in 0..i64::from(dim.1) {
        let s = spans(y, &q);
        for x in 0..i64::from(dim.0) {
            let xf = x as f64;
            let o = dim.get(outline, x, y);
            let lit = dim.get(l, x, y);
            let inside = s.chunks(2).any(|p| p[0] + 1e-9 < xf && xf < p[1] - 1e-9);
            // The two ends of each span may be rounded.
            let near = s.chunks(2).any(|p| p[0] - 1.0 < xf && xf < p[1] + 1.0);
            if (o || inside) && !lit {
                return Err(format!("pixel {},{} should be drawn", x, y));
            }
            if lit && !o && !near {
                return Err(format!("pixel {},{} is outside", x, y));
            }
        }
    }
    Ok(())
}

fn shape(dim: Dim, pts: &[(i32, i32)], poly: bool, cx: &mut Cx) -> CaseResult {
    let v: Vec<PixelsXY> = pts.iter().map(|q| p(q.0, q.1)).collect();
    let what = |f: &str| format!("GFX_{}{} {:?}", if poly { "POLY" } else { "TRI" }, f, pts);
    cx.step(2);
    let flat = pts.len() == 3 && {
        let (a, b, c) = (pts[0], pts[1], pts[2]);
        let m = |x: i32, y: i32| i64::from(x) * i64::from(y);
        m(b.0 - a.0, c.1 - a.1) == m(b.1 - a.1, c.0 - a.0)
    } || pts.iter().all(|q| *q == pts[0]);
    let exp = union_of_lines(dim, pts);
    let l = dim.draw(|c| {
        if poly {
            c.con.draw_poly(&v).unwrap()
        } else {
            c.con.draw_tri(v[0], v[1], v[2]).unwrap()
        }
    });
    cx.state(&l);
    // Shapes without an area may not be drawn.
    if l != exp && !(flat && pts.len() > 2 && l.iter().all(|b| !b)) {
        return verdict(dim, what(""), &l, Err(if dim == SMALL {
            format!("expected\n{}\ngot", picture(W as usize, &exp))
        } else {
            "not the outline".to_owned()
        }));
    }
    let f = dim.draw(|c| {
        if poly {
            c.con.draw_poly_filled(&v).unwrap()
        } else {
            c.con.draw_tri_filled(v[0], v[1], v[2]).unwrap()
        }
    });
    cx.state(&f);
    if flat && pts.len() > 2 && f.iter().all(|b| !b) {
        return Ok(());
    }
    verdict(dim, what("F"), &f, check_filled(dim, &f, &exp, pts))
}

fn points(name: &'static str, n: usize, gx: Vec<i32>, gy: Vec<i32>, poly: bool) -> Section {
    let k = (gx.len() * gy.len()) as u64;
    let r = vec![k; n];
    let dec = move |i: u64, r: &[u64]| -> Vec<(i32, i32)> {
        mixed(r, i).iter().map(|q| (gx[*q % gx.len()], gy[*q / gx.len()])).collect()
    };
    let (dec2, r2) = (dec.clone(), r.clone());
    Section::new(
        name,
        product(&r),
        move |i| format!("{:?}", dec2(i, &r2)),
        move |i, cx| {
            cx.traces += 1;
            shape(SMALL, &dec(i, &r), poly, cx)
        },
    )
}

/// Thin triangles across all coordinates.
fn slivers() -> Section {
    let ends: Vec<(i32, i32)> =
        vec![(-32768, -32768), (32767, 32767), (-32768, 32767), (32767, -32768), (5, 4), (32767, 5), (6, -32768)];
    let near: Vec<(i32, i32)> = (-3..=3).flat_map(|x| [-40, -1, 0, 1, 3].map(|y| (x, y))).collect();
    let r = [ends.len() as u64, ends.len() as u64, near.len() as u64];
    let dec = move |i: u64| {
        let d = mixed(&r, i);
        let (a, b, n) = (ends[d[0]], ends[d[1]], near[d[2]]);
        let clamp = |v: i32| v.clamp(-32768, 32767);
        vec![a, b, (clamp(b.0 + n.0), clamp(b.1 + n.1))]
    };
    let dec2 = dec.clone();
    Section::new(
        "slivers",
        product(&r),
        move |i| format!("{:?}", dec2(i)),
        move |i, cx| {
            cx.traces += 1;
            shape(SMALL, &dec(i), i % 2 == 0, cx)
        },
    )
}

fn circles(max: i32) -> Section {
    // The corners, the border, the middle and around.
    let centers: Vec<(i32, i32)> =
        [-30, -1, 0, 50, 100, 130].iter().flat_map(|x| [-20, 0, 40, 80, 99].map(|y| (*x, y))).collect();
    let r = [centers.len() as u64, max as u64 + 1];
    let desc = centers.clone();
    Section::new(
        "circles",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("GFX_CIRCLE {:?} {}", desc[d[0]], d[1])
        },
        move |i, cx| {
            let d = mixed(&r, i);
            let ((x0, y0), rad) = (centers[d[0]], d[1] as i32);
            let fail = |f: &str, what: String| -> CaseResult {
                Err(Failure::new(format!("GFX_CIRCLE{} {}, {}, {}", f, x0, y0, rad), what))
            };
            let draw = |filled: bool| {
                BIG.with(|c| {
                    let mut c = c.borrow_mut();
                    c.blank();
                    if filled {
                        c.con.draw_circle_filled(p(x0, y0), rad as u16).unwrap();
                    } else {
                        c.con.draw_circle(p(x0, y0), rad as u16).unwrap();
                    }
                    c.lit(fg())
                })
            };
            let (w, h) = (101, 81);
            let (o, f) = (draw(false), draw(true));
            cx.step(2);
            cx.state(&o);
            cx.state(&f);
            cx.traces += 1;
            let at = |l: &[bool], x: i32, y: i32| {
                (0..w).contains(&x) && (0..h).contains(&y) && l[(y * w + x) as usize]
            };
            for y in 0..h {
                let mut seen = false;
                for x in 0..w {
                    let (dx, dy) = (x - x0, y - y0);
                    let dist = f64::from(dx * dx + dy * dy).sqrt();
                    let (a, b) = (at(&o, x, y), at(&f, x, y));
                    if rad <= 1 {
                        let e = rad == 1 && dx == 0 && dy == 0;
                        if a != e || b != e {
                            return fail("", format!("pixel {},{}", dx, dy));
                        }
                        continue;
                    }
                    let edge = f64::from(rad) - 1.0;
                    if a && (dist - edge).abs() > 1.0 {
                        return fail("", format!("pixel {},{} is at {} from the center", dx, dy, dist));
                    }
                    if a && !b {
                        return fail("F", format!("pixel {},{} of the border is not drawn", dx, dy));
                    }
                    if dist <= edge - 1.0 && !b {
                        return fail("F", format!("pixel {},{} inside is not drawn", dx, dy));
                    }
                    if dist > edge + 1.0 && b {
                        return fail("F", format!("pixel {},{} outside is drawn", dx, dy));
                    }
                    // The same after turning and mirroring, where that is on the screen.
                    for (sx, sy) in [(-dx, dy), (dx, -dy), (-dx, -dy), (dy, dx), (-dy, dx), (dy, -dx), (-dy, -dx)] {
                        let (tx, ty) = (x0 + sx, y0 + sy);
                        if !(0..w).contains(&tx) || !(0..h).contains(&ty) {
                            continue;
                        }
                        if at(&o, tx, ty) != a || at(&f, tx, ty) != b {
                            return fail("", format!("{},{} and {},{} differ", dx, dy, sx, sy));
                        }
                    }
                    seen |= a;
                }
                // A closed border: each row that the circle crosses has pixels of it.
                let dy = y - y0;
                if rad > 1 && dy.abs() < rad && !seen {
                    let half = f64::from((rad - 1) * (rad - 1) - dy * dy).sqrt();
                    let visible = [f64::from(x0) - half, f64::from(x0) + half]
                        .iter()
                        .any(|e| *e >= 2.0 && *e <= f64::from(w) - 3.0);
                    if visible {
                        return fail("", format!("no pixel in row {}", dy));
                    }
                }
            }
            // The border keeps the inside apart: no way out by steps to the sides.
            if rad > 2 && (rad..w - rad).contains(&x0) && (rad..h - rad).contains(&y0) {
                let mut todo = vec![(x0, y0)];
                let mut reached = vec![false; (w * h) as usize];
                while let Some((x, y)) = todo.pop() {
                    if !(0..w).contains(&x) || !(0..h).contains(&y) {
                        return fail("", "the border has a hole".to_owned());
                    }
                    let i = (y * w + x) as usize;
                    if reached[i] || o[i] {
                        continue;
                    }
                    reached[i] = true;
                    todo.extend([(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)]);
                }
                for i in 0..reached.len() {
                    if f[i] != (reached[i] || o[i]) {
                        return fail("F", "not the border and its inside".to_owned());
                    }
                }
            }
            Ok(())
        },
    )
}

/// Circles at the limits of coordinates leave the screen as the geometry says.
fn huge_circles() -> Section {
    let cs = [-32768, -32700, -16384, -1, 0, 6, 300, 16383, 32700, 32767];
    let rs = [2, 3, 100, 301, 1000, 16382, 16383, 16384, 32767, 32768, 65535];
    let r = [cs.len() as u64, cs.len() as u64, rs.len() as u64];
    Section::new(
        "huge circles",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("GFX_CIRCLE {}, {}, {}", cs[d[0]], cs[d[1]], rs[d[2]])
        },
        move |i, cx| {
            let d = mixed(&r, i);
            let (x0, y0, rad) = (cs[d[0]], cs[d[1]], rs[d[2]]);
            for filled in [false, true] {
                if filled && rad > 1000 && rad < 16384 {
                    continue;
                }
                let what = format!("GFX_CIRCLE{} {}, {}, {}", if filled { "F" } else { "" }, x0, y0, rad);
                let mut res = Ok(());
                let l = small(|c| {
                    res = if filled {
                        c.con.draw_circle_filled(p(x0, y0), rad as u16)
                    } else {
                        c.con.draw_circle(p(x0, y0), rad as u16)
                    }
                });
                cx.step(1);
                cx.state(&(&l, res.is_ok()));
                if let Err(e) = res {
                    if rad <= 1000 || l.iter().any(|b| *b) {
                        return verdict(SMALL, what, &l, Err(e.to_string()));
                    }
                    continue;
                }
                for y in 0..H {
                    for x in 0..W {
                        let (dx, dy) = (i64::from(x - x0), i64::from(y - y0));
                        let dist = ((dx * dx + dy * dy) as f64).sqrt();
                        let edge = f64::from(rad) - 1.0;
                        let lit = SMALL.get(&l, i64::from(x), i64::from(y));
                        let ok = match filled {
                            false => !lit || (dist - edge).abs() <= 1.0,
                            true => lit && dist <= edge + 1.0 || !lit && dist > edge - 1.0,
                        };
                        if !ok {
                            return verdict(SMALL, what, &l, Err(format!("pixel {},{} at {}", x, y, dist)));
                        }
                    }
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

const COLORS: [u8; 3] = [0, 9, 12];

fn fills(name: &'static str, w: usize, h: usize, k: u64) -> Section {
    let n = w * h;
    let r = [k.pow(n as u32)];
    let dec = move |i: u64| -> Vec<usize> { mixed(&vec![k; n], i) };
    Section::new(
        name,
        product(&r),
        move |i| format!("{}x{} {:?}", w, h, dec(i)),
        move |i, cx| {
            let pic = dec(i);
            // The picture takes the whole screen.
            let mut d = Disp::canvas(w, h);
            for from in 0..n {
                for (j, c) in pic.iter().enumerate() {
                    d.con.set_color(Some(COLORS[*c]), Some(0)).unwrap();
                    d.con.draw_pixel(p((j % w) as i32, (j / w) as i32)).unwrap();
                }
                let color = 11u8;
                d.con.set_color(Some(color), Some(0)).unwrap();
                d.con.bucket_fill(p((from % w) as i32, (from / w) as i32)).unwrap();
                cx.step(1);
                let mut exp = pic.clone();
                let mut todo = vec![from];
                while let Some(q) = todo.pop() {
                    if exp[q] != pic[from] {
                        continue;
                    }
                    exp[q] = 99;
                    if q % w > 0 {
                        todo.push(q - 1);
                    }
                    if q % w + 1 < w {
                        todo.push(q + 1);
                    }
                    if q >= w {
                        todo.push(q - w);
                    }
                    if q + w < n {
                        todo.push(q + w);
                    }
                }
                let exp: Vec<u32> = exp
                    .iter()
                    .map(|c| pack(ansi_color_to_rgb(if *c == 99 { color } else { COLORS[*c] })))
                    .collect();
                let got = d.shot();
                cx.state(&got);
                if got != exp {
                    return Err(Failure::new(
                        format!("fill {} of {}x{} {:?}", from, w, h, pic),
                        format!("expected {:x?}\ngot      {:x?}", exp, got),
                    ));
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// Fills of every color over every color, on displays that tell them all apart and on those that do not.
fn fill_colors() -> Section {
    let r = [2, 256, 256];
    Section::new(
        "fill colors",
        product(&r),
        move |i| format!("{:?}", mixed(&r, i)),
        move |i, cx| {
            let d = mixed(&r, i);
            let (under, over) = (d[1] as u8, d[2] as u8);
            let mut s = Disp::new(3, 3, if d[0] == 0 { 3 } else { 2 }, &crate::gfxx::DOT);
            s.con.hide_cursor().unwrap();
            s.con.set_color(Some(under), Some(0)).unwrap();
            for (x, y) in [(0, 0), (1, 0), (1, 1), (2, 2)] {
                s.con.draw_pixel(p(x, y)).unwrap();
            }
            let before = s.shot();
            s.con.set_color(Some(over), Some(0)).unwrap();
            s.con.bucket_fill(p(0, 0)).unwrap();
            cx.step(1);
            let after = s.shot();
            cx.state(&after);
            cx.traces += 1;
            // What the color looks like on this display.
            s.con.draw_pixel(p(2, 0)).unwrap();
            let c = s.at(2, 0);
            let mut exp = before.clone();
            for q in [0, 1, 4] {
                exp[q] = c;
            }
            if before[0] == before[8] && before[0] == before[2] {
                // The figure looks like the background, all of which is filled.
                exp = vec![c; 9];
            }
            match after == exp {
                true => Ok(()),
                false => Err(Failure::new(
                    format!("fill colors: {} over {} on {} bytes", over, under, 3 - d[0]),
                    format!("expected {:x?}\ngot      {:x?}", exp, after),
                )),
            }
        },
    )
}

/// Fills that start off the screen do nothing, and a picture can be taken pixel by pixel.
fn peeks() -> Section {
    let (x, y) = (xs(), ys());
    let r = [x.len() as u64, y.len() as u64];
    let desc = (x.clone(), y.clone());
    Section::new(
        "pixels",
        product(&r),
        move |i| {
            let d = mixed(&r, i);
            format!("{},{}", desc.0[d[0]], desc.1[d[1]])
        },
        move |i, cx| {
            let d = mixed(&r, i);
            let (x, y) = (x[d[0]], y[d[1]]);
            let inside = SMALL.has(i64::from(x), i64::from(y));
            cx.step(3);
            cx.traces += 1;
            let mut peeked = (None, None);
            let l = small(|c| {
                peeked.0 = c.con.peek_pixel(p(x, y)).unwrap();
                c.con.draw_pixel(p(x, y)).unwrap();
                peeked.1 = c.con.peek_pixel(p(x, y)).unwrap();
            });
            let fail = |what: String| -> CaseResult { Err(Failure::new(format!("pixels: {},{}", x, y), what)) };
            let exp = if inside { (Some(0), Some(11)) } else { (None, None) };
            if peeked != exp {
                return fail(format!("sees {:?}, not {:?}", peeked, exp));
            }
            let f = small(|c| c.con.bucket_fill(p(x, y)).unwrap());
            if f.iter().any(|b| *b != inside) {
                return fail(format!("fill\n{}", picture(W as usize, &f)));
            }
            cx.state(&(l, f, peeked));
            Ok(())
        },
    )
}

/// Lines between points all over a screen of common size.
fn long_lines() -> Section {
    let gx: Vec<i32> = vec![0, 1, 2, 100, 119, 200, 237, 239];
    let gy: Vec<i32> = vec![0, 1, 60, 84, 85, 168, 169];
    let (w, h) = (LARGE.0, LARGE.1);
    let starts: Vec<(i32, i32)> = gx.iter().flat_map(|x| gy.iter().map(|y| (*x, *y))).collect();
    let desc = starts.clone();
    Section::new(
        "long lines",
        starts.len() as u64,
        move |i| format!("from {:?}", desc[i as usize]),
        move |i, cx| {
            let a = starts[i as usize];
            let border = (0..w).step_by(3).flat_map(|x| [(x, 0), (x, h - 1)]);
            let border = border.chain((0..h).step_by(3).flat_map(|y| [(0, y), (w - 1, y)]));
            for b in border.chain(starts.iter().copied()) {
                let l = LARGE.draw(|c| c.con.draw_line(p(a.0, a.1), p(b.0, b.1)).unwrap());
                cx.step(1);
                cx.state(&l);
                let what = format!("GFX_LINE {}, {}, {}, {}", a.0, a.1, b.0, b.1);
                verdict(LARGE, what, &l, check_line(LARGE, &l, a, b))?;
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

/// Polygons with many points: stars, combs and spirals.
fn many_points(max: u64) -> Section {
    const KINDS: [&str; 4] = ["star", "comb", "teeth both ways", "spiral"];
    let dec = move |i: u64| -> (&'static str, Vec<(i32, i32)>) {
        let (kind, n) = ((i % 4) as usize, (i / 4) as i32 + 3);
        let mut v = vec![];
        match kind {
            0 => {
                // Steps that share no divisor with the number of points make one closed path.
                for j in 0..n {
                    let a = f64::from(j * (n / 2)) * std::f64::consts::TAU / f64::from(n);
                    v.push(((118.5 + 100.0 * a.cos()) as i32, (84.5 + 80.0 * a.sin()) as i32));
                }
            }
            1 => {
                for j in 0..n {
                    v.push((3 + j * (230 / n), if j % 2 == 0 { 10 } else { 140 + j % 5 }));
                }
                v.push((236, 165));
                v.push((1, 165));
            }
            2 => {
                for j in 0..n {
                    v.push((10 + j % 2 * 90 + j, 2 + j * (160 / n)));
                }
                for j in (0..n).rev() {
                    v.push((230 - j % 3 * 40, 2 + j * (160 / n)));
                }
            }
            _ => {
                for j in 0..n {
                    let a = f64::from(j) * 0.7;
                    let r = 5.0 + 75.0 * f64::from(j) / f64::from(n);
                    v.push(((120.0 + r * a.cos()) as i32, (84.0 + r * a.sin()) as i32));
                }
            }
        }
        (KINDS[kind], v)
    };
    Section::new(
        "many points",
        4 * max,
        move |i| format!("{:?}", dec(i)),
        move |i, cx| {
            cx.traces += 1;
            shape(LARGE, &dec(i).1, true, cx)
        },
    )
}

/// Triangles all over a screen of common size.
fn large_triangles() -> Section {
    let pts: Vec<(i32, i32)> =
        [-60, 0, 77, 180, 239, 300].iter().flat_map(|x| [-40, 1, 90, 169, 230].map(|y| (*x, y))).collect();
    let k = pts.len() as u64;
    let dec = move |i: u64| -> Vec<(i32, i32)> { mixed(&[k, k, k], i).iter().map(|q| pts[*q]).collect() };
    let dec2 = dec.clone();
    // Each set of points once, in one of its orders.
    let size = k * k * k;
    Section::new(
        "large triangles",
        size,
        move |i| format!("{:?}", dec2(i)),
        move |i, cx| {
            let t = dec(i);
            if !(t[0] < t[1] && t[1] < t[2]) {
                return Ok(());
            }
            cx.traces += 1;
            shape(LARGE, &[t[(i % 3) as usize], t[((i + 1) % 3) as usize], t[((i + 2) % 3) as usize]], i % 2 == 0, cx)
        },
    )
}

/// Fills of large areas with long and winding borders.
fn large_fills() -> Section {
    const KINDS: [&str; 7] = ["empty", "comb", "meander", "spiral", "chessboard", "dots", "diagonals"];
    const FROM: [(i32, i32); 6] = [(0, 0), (1, 1), (120, 85), (239, 169), (121, 0), (0, 168)];
    let (w, h) = (LARGE.0, LARGE.1);
    let lit = move |kind: usize, gap: i32, x: i32, y: i32| -> bool {
        match kind {
            0 => false,
            1 => x % gap == gap - 1 && y > 0,
            2 => x % gap == gap - 1 && (if x / gap % 2 == 0 { y > 0 } else { y < h - 1 }),
            3 => {
                // Rings, each with a door to the next at alternate sides.
                let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
                d % gap == gap - 1 && !(d / gap % 2 == 0 && x == w / 2 && y < h / 2)
                    && !(d / gap % 2 == 1 && x == w / 2 && y > h / 2)
            }
            4 => (x / gap + y / gap) % 2 == 0,
            5 => x % gap == 0 && y % gap == 0,
            _ => (x + y) % gap == 0,
        }
    };
    let gaps = [2, 3, 5, 9];
    Section::new(
        "large fills",
        7 * gaps.len() as u64,
        move |i| format!("{} {}", KINDS[(i % 7) as usize], gaps[(i / 7) as usize]),
        move |i, cx| {
            let (kind, gap) = ((i % 7) as usize, gaps[(i / 7) as usize]);
            let pic: Vec<bool> = (0..w * h).map(|q| lit(kind, gap, q % w, q / w)).collect();
            for from in FROM {
                let before = LARGE.draw(|c| {
                    for (q, on) in pic.iter().enumerate() {
                        if *on {
                            c.con.draw_pixel(p(q as i32 % w, q as i32 / w)).unwrap();
                        }
                    }
                });
                if before != pic {
                    return Err(Failure::new("GFX_PIXEL", "the picture is not what was drawn"));
                }
                // What is filled, in the color of the pixels.
                let at = |x: i32, y: i32| (y * w + x) as usize;
                let start = pic[at(from.0, from.1)];
                let mut exp = pic.clone();
                let mut seen = vec![false; pic.len()];
                let mut todo = vec![from];
                while let Some((x, y)) = todo.pop() {
                    if !LARGE.has(i64::from(x), i64::from(y)) || seen[at(x, y)] || pic[at(x, y)] != start {
                        continue;
                    }
                    seen[at(x, y)] = true;
                    exp[at(x, y)] = true;
                    todo.extend([(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)]);
                }
                let got = LARGE.draw(|c| {
                    for (q, on) in pic.iter().enumerate() {
                        if *on {
                            c.con.draw_pixel(p(q as i32 % w, q as i32 / w)).unwrap();
                        }
                    }
                    c.con.bucket_fill(p(from.0, from.1)).unwrap();
                });
                cx.step(1);
                cx.state(&got);
                if got != exp {
                    let wrong = got.iter().zip(&exp).filter(|(a, b)| a != b).count();
                    let first = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(0) as i32;
                    return Err(Failure::new(
                        format!("GFX_FILL {:?} of {} {}", from, KINDS[kind], gap),
                        format!("{} pixels differ, the first at {},{}", wrong, first % w, first / w),
                    ));
                }
            }
            cx.traces += 1;
            Ok(())
        },
    )
}

fn sections(tier: Tier) -> Vec<Section> {
    let far = |v: &[i32]| v.to_vec();
    let mut v = vec![
        lines(),
        rects(),
        peeks(),
        points("triangles", 3, (0..7).map(|x| 2 * x - 1).collect(), (0..6).map(|y| 2 * y - 1).collect(), false),
        points("far triangles", 3, far(&[-32768, 3, 32767]), far(&[-400, 4, 500]), false),
        points("wide triangles", 3, far(&[-700, 5, 900]), far(&[-32768, 4, 32767]), false),
        points("two points", 2, far(&[-1, 0, 3, 12]), far(&[0, 4, 9]), true),
        points("three points", 3, far(&[-1, 2, 7, 12]), far(&[0, 4, 9]), true),
        points("polygons", 4, far(&[-2, 3, 7, 13]), far(&[-1, 2, 6, 9]), true),
        points("far polygons", 4, far(&[-32768, 4, 32767]), far(&[-300, 6]), true),
        slivers(),
        long_lines(),
        large_triangles(),
        many_points(tier.pick(40, 160)),
        large_fills(),
        circles(tier.pick(140, 300)),
        huge_circles(),
        fills("fills", 4, 4, 2),
        fill_colors(),
    ];
    if tier == Tier::Thorough {
        v.push(points("five points", 5, far(&[-2, 4, 8, 13]), far(&[-1, 4, 9]), true));
        v.push(fills("three colors", 4, 3, 3));
    } else {
        v.push(fills("three colors", 3, 3, 3));
    }
    v
}
