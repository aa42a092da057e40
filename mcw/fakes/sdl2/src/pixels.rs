#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Color {
    pub r: u8,
    pub g: u8,
    pub b: u8,
    pub a: u8,
}

impl Color {
    #[allow(non_snake_case)]
    pub const fn RGB(r: u8, g: u8, b: u8) -> Color {
        Color { r, g, b, a: 255 }
    }
    #[allow(non_snake_case)]
    pub const fn RGBA(r: u8, g: u8, b: u8, a: u8) -> Color {
        Color { r, g, b, a }
    }
    pub(crate) fn word(self) -> u32 {
        u32::from(self.r) << 16 | u32::from(self.g) << 8 | u32::from(self.b)
    }
}

impl From<(u8, u8, u8)> for Color {
    fn from(c: (u8, u8, u8)) -> Self {
        Color::RGB(c.0, c.1, c.2)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PixelFormatEnum {
    RGB24,
    RGB888,
    RGB565,
}

impl PixelFormatEnum {
    pub fn byte_size_per_pixel(self) -> usize {
        match self {
            PixelFormatEnum::RGB24 => 3,
            PixelFormatEnum::RGB888 => 4,
            PixelFormatEnum::RGB565 => 2,
        }
    }
    pub(crate) fn bytes(self, c: u32) -> Vec<u8> {
        match self {
            PixelFormatEnum::RGB24 => vec![(c >> 16) as u8, (c >> 8) as u8, c as u8],
            PixelFormatEnum::RGB888 => c.to_le_bytes().to_vec(),
            PixelFormatEnum::RGB565 => unimplemented!(),
        }
    }
    pub(crate) fn color(self, b: &[u8]) -> u32 {
        match self {
            PixelFormatEnum::RGB24 => u32::from(b[0]) << 16 | u32::from(b[1]) << 8 | u32::from(b[2]),
            PixelFormatEnum::RGB888 => u32::from_le_bytes([b[0], b[1], b[2], 0]),
            PixelFormatEnum::RGB565 => unimplemented!(),
        }
    }
}
