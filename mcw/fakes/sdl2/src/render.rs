use crate::pixels::{Color, PixelFormatEnum};
use crate::rect::{Point, Rect};
use crate::surface::{Surface, SurfaceContext, SurfaceRef};
use crate::{Call, call};
use std::fmt;
use std::marker::PhantomData;

pub struct Canvas<'s> {
    pub(crate) surface: Surface<'s>,
    pub(crate) color: Color,
}

pub type SurfaceCanvas<'s> = Canvas<'s>;

#[derive(Debug)]
pub enum TextureValueError {
    WidthOverflows(u32),
    HeightOverflows(u32),
    WidthMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum),
    SdlError(String),
}

#[derive(Debug)]
pub enum UpdateTextureError {
    PitchOverflows(usize),
    PitchMustBeMultipleOfTwoForFormat(usize, PixelFormatEnum),
    XMustBeMultipleOfTwoForFormat(i32, PixelFormatEnum),
    YMustBeMultipleOfTwoForFormat(i32, PixelFormatEnum),
    WidthMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum),
    HeightMustBeMultipleOfTwoForFormat(u32, PixelFormatEnum),
    SdlError(String),
}

impl fmt::Display for TextureValueError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for TextureValueError {}

impl fmt::Display for UpdateTextureError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for UpdateTextureError {}

pub struct TextureCreator<T>(PhantomData<T>, PixelFormatEnum);

pub struct Texture {
    format: PixelFormatEnum,
    w: usize,
    h: usize,
    pixels: Vec<u32>,
}

impl<T> TextureCreator<T> {
    pub fn create_texture_static<F: Into<Option<PixelFormatEnum>>>(
        &self,
        format: F,
        width: u32,
        height: u32,
    ) -> Result<Texture, TextureValueError> {
        call(Call::Draw, |_| ()).map_err(TextureValueError::SdlError)?;
        let (w, h) = (width as usize, height as usize);
        Ok(Texture { format: format.into().unwrap_or(self.1), w, h, pixels: vec![0; w * h] })
    }
}

impl Texture {
    pub fn update<R: Into<Option<Rect>>>(
        &mut self,
        rect: R,
        data: &[u8],
        pitch: usize,
    ) -> Result<(), UpdateTextureError> {
        assert!(rect.into().is_none());
        let bpp = self.format.byte_size_per_pixel();
        for y in 0..self.h {
            for x in 0..self.w {
                let i = y * pitch + x * bpp;
                self.pixels[y * self.w + x] = self.format.color(&data[i..i + bpp]);
            }
        }
        Ok(())
    }
}

/// The pixels of a line.
pub fn line(a: (i32, i32), b: (i32, i32)) -> Vec<(i32, i32)> {
    let (dx, dy) = (i64::from(b.0) - i64::from(a.0), i64::from(b.1) - i64::from(a.1));
    let n = dx.abs().max(dy.abs());
    (0..=n)
        .map(|i| {
            let at = |d: i64| if n == 0 { 0 } else { (2 * d * i + n).div_euclid(2 * n) };
            (a.0 + at(dx) as i32, a.1 + at(dy) as i32)
        })
        .collect()
}

impl<'s> Canvas<'s> {
    pub fn texture_creator(&self) -> TextureCreator<SurfaceContext<'s>> {
        TextureCreator(PhantomData, self.surface.format)
    }
    pub fn set_draw_color<C: Into<Color>>(&mut self, color: C) {
        self.color = color.into();
    }
    pub fn draw_color(&self) -> Color {
        self.color
    }
    pub fn clear(&mut self) {
        let c = self.color.word();
        self.surface.pixels.fill(c);
    }
    pub fn present(&mut self) {}
    pub fn surface(&self) -> &SurfaceRef {
        &self.surface
    }
    pub fn surface_mut(&mut self) -> &mut SurfaceRef {
        &mut self.surface
    }
    pub fn read_pixels<R: Into<Option<Rect>>>(&self, rect: R, format: PixelFormatEnum) -> Result<Vec<u8>, String> {
        call(Call::Read, |_| ())?;
        let s: &SurfaceRef = &self.surface;
        let r = rect.into().unwrap_or(Rect::new(0, 0, s.w, s.h));
        let mut out = vec![0; r.w as usize * r.h as usize * format.byte_size_per_pixel()];
        let mut any = false;
        let bpp = format.byte_size_per_pixel();
        for y in 0..r.h {
            for x in 0..r.w {
                if let Some(c) = s.get(r.x + x, r.y + y) {
                    any = true;
                    let i = (y as usize * r.w as usize + x as usize) * bpp;
                    out[i..i + bpp].copy_from_slice(&format.bytes(c));
                }
            }
        }
        if any { Ok(out) } else { Err("Can't read outside the current viewport".to_owned()) }
    }
    pub fn copy<R1: Into<Option<Rect>>, R2: Into<Option<Rect>>>(
        &mut self,
        texture: &Texture,
        src: R1,
        dst: R2,
    ) -> Result<(), String> {
        assert!(src.into().is_none());
        let d = dst.into().expect("a place");
        assert_eq!((d.w as usize, d.h as usize), (texture.w, texture.h), "scaled");
        call(Call::Draw, |_| ())?;
        for y in 0..texture.h {
            for x in 0..texture.w {
                self.surface.set(d.x + x as i32, d.y + y as i32, texture.pixels[y * texture.w + x]);
            }
        }
        Ok(())
    }
    pub fn draw_point<P: Into<Point>>(&mut self, p: P) -> Result<(), String> {
        call(Call::Draw, |_| ())?;
        let (p, c) = (p.into(), self.color.word());
        self.surface.set(p.x, p.y, c);
        Ok(())
    }
    pub fn draw_line<P1: Into<Point>, P2: Into<Point>>(&mut self, a: P1, b: P2) -> Result<(), String> {
        call(Call::Draw, |_| ())?;
        let (a, b, c) = (a.into(), b.into(), self.color.word());
        for (x, y) in line((a.x, a.y), (b.x, b.y)) {
            self.surface.set(x, y, c);
        }
        Ok(())
    }
    pub fn draw_rect(&mut self, r: Rect) -> Result<(), String> {
        call(Call::Draw, |_| ())?;
        let (x2, y2) = (r.x + r.w - 1, r.y + r.h - 1);
        let c = self.color.word();
        for (a, b) in [((r.x, r.y), (x2, r.y)), ((x2, r.y), (x2, y2)), ((r.x, y2), (x2, y2)), ((r.x, r.y), (r.x, y2))] {
            for (x, y) in line(a, b) {
                self.surface.set(x, y, c);
            }
        }
        Ok(())
    }
    pub fn fill_rect<R: Into<Option<Rect>>>(&mut self, rect: R) -> Result<(), String> {
        let c = self.color;
        self.surface.fill_rect(rect, c)
    }
}
