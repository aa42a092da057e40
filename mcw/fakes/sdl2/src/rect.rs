#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Point {
    pub x: i32,
    pub y: i32,
}

impl Point {
    pub fn new(x: i32, y: i32) -> Point {
        Point { x, y }
    }
    pub fn x(self) -> i32 {
        self.x
    }
    pub fn y(self) -> i32 {
        self.y
    }
}

impl From<(i32, i32)> for Point {
    fn from(p: (i32, i32)) -> Self {
        Point::new(p.0, p.1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rect {
    pub x: i32,
    pub y: i32,
    pub w: i32,
    pub h: i32,
}

impl Rect {
    /// Sizes are at least 1.
    pub fn new(x: i32, y: i32, width: u32, height: u32) -> Rect {
        let clamp = |n: u32| n.clamp(1, i32::MAX as u32 / 2) as i32;
        Rect { x, y, w: clamp(width), h: clamp(height) }
    }
    pub fn x(&self) -> i32 {
        self.x
    }
    pub fn y(&self) -> i32 {
        self.y
    }
    pub fn width(&self) -> u32 {
        self.w as u32
    }
    pub fn height(&self) -> u32 {
        self.h as u32
    }
}

impl From<(i32, i32, u32, u32)> for Rect {
    fn from(r: (i32, i32, u32, u32)) -> Self {
        Rect::new(r.0, r.1, r.2, r.3)
    }
}
