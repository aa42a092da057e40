//! A stand-in for the library `sdl2`, on a desktop in memory.
//!
//! A desktop is shared between the thread that hosts a window and the one that looks at it, and decides when the
//! events arrive.

use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex};

pub mod audio;
pub mod event;
pub mod keyboard;
pub mod pixels;
pub mod rect;
pub mod render;
pub mod surface;
pub mod video;

pub use event::EventPump;

/// The calls that may fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Call {
    Init,
    EventPump,
    Video,
    Window,
    Surface,
    Canvas,
    WindowSurface,
    Finish,
    Audio,
    Queue,
    Play,
    Read,
    Draw,
}

#[derive(Default)]
pub struct State {
    /// What the window shows.
    pub shown: Vec<u32>,
    pub size: (u32, u32),
    /// The size of the whole screen.
    pub desktop: (u32, u32),
    pub title: String,
    pub mode: &'static str,
    pub presented: u64,
    pub events: VecDeque<event::Event>,
    /// How many times the host has looked for events.
    pub polls: u64,
    pub hold: bool,
    pub holding: bool,
    /// The samples that were heard.
    pub heard: Vec<i16>,
    /// No sample of the current tone has come yet.
    pub fresh: bool,
    /// How many times there were no samples to play in the middle of a tone.
    pub gaps: u64,
    /// The most samples that were waiting.
    pub peak: usize,
    /// There are samples to be heard still.
    pub playing: bool,
    pub fails: BTreeMap<Call, u64>,
    pub calls: BTreeMap<Call, u64>,
    pub alive: u32,
    pub text_input: bool,
}

#[derive(Clone, Default)]
pub struct Desktop(pub Arc<(Mutex<State>, Condvar)>);

thread_local! {
    static DESKTOP: RefCell<Option<Desktop>> = const { RefCell::new(None) };
}

impl Desktop {
    pub fn new(width: u32, height: u32) -> Self {
        let d = Self::default();
        d.with(|s| s.desktop = (width, height));
        d
    }

    /// Makes this the desktop of the thread.
    pub fn install(&self) {
        DESKTOP.with(|d| *d.borrow_mut() = Some(self.clone()));
    }

    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        let r = f(&mut self.0.0.lock().unwrap_or_else(|e| e.into_inner()));
        self.0.1.notify_all();
        r
    }

    /// Waits until something is true of the desktop; whether it was within some time.
    pub fn wait(&self, ms: u64, mut f: impl FnMut(&mut State) -> bool) -> bool {
        let end = std::time::Instant::now() + std::time::Duration::from_millis(ms);
        let mut s = self.0.0.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            if f(&mut s) {
                return true;
            }
            let now = std::time::Instant::now();
            if now >= end {
                return false;
            }
            s = self.0.1.wait_timeout(s, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
}

pub(crate) fn desktop() -> Desktop {
    DESKTOP.with(|d| d.borrow().clone()).expect("there is a desktop")
}

/// Makes a call that may fail.
pub(crate) fn call<T>(c: Call, f: impl FnOnce(&mut State) -> T) -> Result<T, String> {
    desktop().with(|s| {
        let n = s.calls.entry(c).or_default();
        *n += 1;
        if s.fails.get(&c) == Some(n) {
            return Err(format!("the call {:?} fails", c));
        }
        Ok(f(s))
    })
}

/// The library.
pub struct Sdl(());

impl Drop for Sdl {
    fn drop(&mut self) {
        desktop().with(|s| s.alive -= 1);
    }
}

pub fn init() -> Result<Sdl, String> {
    call(Call::Init, |s| {
        assert_eq!(s.alive, 0, "the library is in use");
        s.alive += 1;
        Sdl(())
    })
}

impl Sdl {
    pub fn event_pump(&self) -> Result<EventPump, String> {
        call(Call::EventPump, |_| EventPump(()))
    }
    pub fn video(&self) -> Result<video::VideoSubsystem, String> {
        call(Call::Video, |_| video::VideoSubsystem(()))
    }
    pub fn audio(&self) -> Result<audio::AudioSubsystem, String> {
        call(Call::Audio, |_| audio::AudioSubsystem(()))
    }
}
