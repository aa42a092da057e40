use crate::event::EventPump;
use crate::pixels::PixelFormatEnum;
use crate::surface::SurfaceRef;
use crate::{Call, call, desktop};
use std::ffi::NulError;
use std::fmt;
use std::ops::{Deref, DerefMut};

pub struct VideoSubsystem(pub(crate) ());

pub struct TextInputUtil(());

impl TextInputUtil {
    pub fn start(&self) {
        desktop().with(|s| s.text_input = true);
    }
    pub fn stop(&self) {
        desktop().with(|s| s.text_input = false);
    }
}

#[derive(Debug)]
pub enum WindowBuildError {
    HeightOverflows(u32),
    WidthOverflows(u32),
    InvalidTitle(NulError),
    SdlError(String),
}

impl fmt::Display for WindowBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            WindowBuildError::HeightOverflows(h) => write!(f, "Window height ({}) is too high.", h),
            WindowBuildError::WidthOverflows(w) => write!(f, "Window width ({}) is too high.", w),
            WindowBuildError::InvalidTitle(_) => write!(f, "Invalid window title"),
            WindowBuildError::SdlError(e) => write!(f, "SDL error: {}", e),
        }
    }
}

impl std::error::Error for WindowBuildError {}

pub struct WindowBuilder {
    title: String,
    w: u32,
    h: u32,
    mode: &'static str,
}

impl VideoSubsystem {
    pub fn text_input(&self) -> TextInputUtil {
        TextInputUtil(())
    }
    pub fn window(&self, title: &str, width: u32, height: u32) -> WindowBuilder {
        WindowBuilder { title: title.to_owned(), w: width, h: height, mode: "window" }
    }
}

impl WindowBuilder {
    pub fn fullscreen_desktop(&mut self) -> &mut Self {
        self.mode = "desktop";
        self
    }
    pub fn fullscreen(&mut self) -> &mut Self {
        self.mode = "full screen";
        self
    }
    pub fn position_centered(&mut self) -> &mut Self {
        self.mode = "centered";
        self
    }
    pub fn build(&self) -> Result<Window, WindowBuildError> {
        if self.w >= 1 << 31 {
            return Err(WindowBuildError::WidthOverflows(self.w));
        }
        if self.h >= 1 << 31 {
            return Err(WindowBuildError::HeightOverflows(self.h));
        }
        call(Call::Window, |s| {
            s.size = if self.mode == "desktop" { s.desktop } else { (self.w, self.h) };
            s.shown = vec![0; (s.size.0 * s.size.1) as usize];
            s.title = self.title.clone();
            s.mode = self.mode;
            Window { w: s.size.0, h: s.size.1 }
        })
        .map_err(WindowBuildError::SdlError)
    }
}

pub struct Window {
    w: u32,
    h: u32,
}

pub struct WindowSurfaceRef<'a>(SurfaceRef, &'a EventPump);

impl Deref for WindowSurfaceRef<'_> {
    type Target = SurfaceRef;
    fn deref(&self) -> &SurfaceRef {
        &self.0
    }
}

impl DerefMut for WindowSurfaceRef<'_> {
    fn deref_mut(&mut self) -> &mut SurfaceRef {
        &mut self.0
    }
}

impl Window {
    pub fn raise(&mut self) {}
    pub fn show(&mut self) {}
    pub fn drawable_size(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    pub fn size(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    pub fn set_title(&mut self, title: &str) -> Result<(), NulError> {
        desktop().with(|s| s.title = title.to_owned());
        Ok(())
    }
    pub fn window_pixel_format(&self) -> PixelFormatEnum {
        PixelFormatEnum::RGB888
    }
    pub fn surface<'a>(&'a self, e: &'a EventPump) -> Result<WindowSurfaceRef<'a>, String> {
        let pixels = call(Call::WindowSurface, |s| s.shown.clone())?;
        let r = SurfaceRef { w: self.w, h: self.h, format: PixelFormatEnum::RGB888, pixels };
        Ok(WindowSurfaceRef(r, e))
    }
}

impl WindowSurfaceRef<'_> {
    pub fn finish(self) -> Result<(), String> {
        call(Call::Finish, |s| {
            s.shown = self.0.pixels;
            s.presented += 1;
        })
    }
    pub fn update_window(&self) -> Result<(), String> {
        call(Call::Finish, |s| {
            s.shown = self.0.pixels.clone();
            s.presented += 1;
        })
    }
}
