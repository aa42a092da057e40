use crate::pixels::{Color, PixelFormatEnum};
use crate::rect::Rect;
use crate::render::Canvas;
use crate::{Call, call};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub struct SurfaceContext<'a>(PhantomData<&'a ()>);

pub struct SurfaceRef {
    pub(crate) w: u32,
    pub(crate) h: u32,
    pub(crate) format: PixelFormatEnum,
    pub(crate) pixels: Vec<u32>,
}

pub struct Surface<'a>(SurfaceRef, PhantomData<&'a ()>);

impl Deref for Surface<'_> {
    type Target = SurfaceRef;
    fn deref(&self) -> &SurfaceRef {
        &self.0
    }
}

impl DerefMut for Surface<'_> {
    fn deref_mut(&mut self) -> &mut SurfaceRef {
        &mut self.0
    }
}

impl AsRef<SurfaceRef> for Surface<'_> {
    fn as_ref(&self) -> &SurfaceRef {
        &self.0
    }
}

impl<'a> Surface<'a> {
    pub fn new(w: u32, h: u32, format: PixelFormatEnum) -> Result<Surface<'static>, String> {
        call(Call::Surface, |_| ())?;
        Ok(Surface(SurfaceRef { w, h, format, pixels: vec![0; (w * h) as usize] }, PhantomData))
    }
    pub fn into_canvas(self) -> Result<Canvas<'a>, String> {
        call(Call::Canvas, |_| ())?;
        Ok(Canvas { surface: self, color: Color::RGB(0, 0, 0) })
    }
}

impl SurfaceRef {
    pub fn width(&self) -> u32 {
        self.w
    }
    pub fn height(&self) -> u32 {
        self.h
    }
    pub fn rect(&self) -> Rect {
        Rect::new(0, 0, self.w, self.h)
    }
    pub(crate) fn get(&self, x: i32, y: i32) -> Option<u32> {
        (x >= 0 && y >= 0 && (x as u32) < self.w && (y as u32) < self.h)
            .then(|| self.pixels[y as usize * self.w as usize + x as usize])
    }
    pub(crate) fn set(&mut self, x: i32, y: i32, c: u32) {
        if self.get(x, y).is_some() {
            self.pixels[y as usize * self.w as usize + x as usize] = c;
        }
    }
    pub fn fill_rect<R: Into<Option<Rect>>>(&mut self, rect: R, color: Color) -> Result<(), String> {
        call(Call::Draw, |_| ())?;
        let r = rect.into().unwrap_or(self.rect());
        let c = color.word();
        for y in r.y.max(0)..(r.y.saturating_add(r.h)).min(self.h as i32) {
            for x in r.x.max(0)..(r.x.saturating_add(r.w)).min(self.w as i32) {
                self.set(x, y, c);
            }
        }
        Ok(())
    }
    pub fn blit<R1: Into<Option<Rect>>, R2: Into<Option<Rect>>>(
        &self,
        src: R1,
        dst: &mut SurfaceRef,
        at: R2,
    ) -> Result<Option<Rect>, String> {
        call(Call::Draw, |_| ())?;
        let s = src.into().unwrap_or(self.rect());
        let d = at.into().unwrap_or(Rect::new(0, 0, 1, 1));
        for y in 0..s.h {
            for x in 0..s.w {
                if let Some(c) = self.get(s.x + x, s.y + y) {
                    dst.set(d.x + x, d.y + y, c);
                }
            }
        }
        Ok(None)
    }
}
