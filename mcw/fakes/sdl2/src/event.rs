use crate::desktop;
use crate::keyboard::{Keycode, Mod, Scancode};

pub struct EventPump(pub(crate) ());

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Quit { timestamp: u32 },
    KeyDown {
        timestamp: u32,
        window_id: u32,
        keycode: Option<Keycode>,
        scancode: Option<Scancode>,
        keymod: Mod,
        repeat: bool,
    },
    KeyUp {
        timestamp: u32,
        window_id: u32,
        keycode: Option<Keycode>,
        scancode: Option<Scancode>,
        keymod: Mod,
        repeat: bool,
    },
    TextEditing { timestamp: u32, window_id: u32, text: String, start: i32, length: i32 },
    TextInput { timestamp: u32, window_id: u32, text: String },
    MouseMotion { timestamp: u32, window_id: u32, x: i32, y: i32 },
    MouseWheel { timestamp: u32, window_id: u32, x: i32, y: i32 },
    Unknown { timestamp: u32, type_: u32 },
}

impl EventPump {
    pub fn poll_event(&mut self) -> Option<Event> {
        let d = desktop();
        let held = d.with(|s| {
            s.polls += 1;
            s.holding = s.hold;
            s.hold
        });
        if held {
            d.wait(20_000, |s| !s.hold);
        }
        let e = d.with(|s| {
            s.holding = false;
            s.events.pop_front()
        });
        if e.is_none() {
            std::thread::yield_now();
        }
        e
    }
    pub fn pump_events(&mut self) {}
}
