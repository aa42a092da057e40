//! GPIO pins that keep what they were told.

use endbasic_std::gpio::{Pin, PinMode, Pins};
use std::any::Any;
use std::collections::BTreeMap;
use std::io;

#[derive(Default)]
pub struct PinsModel {
    /// Everything that was asked.
    pub log: Vec<String>,
    /// Modes and levels of the pins that were set up.
    pub pins: BTreeMap<u8, (String, bool)>,
    /// Pins that fail.
    pub broken: Vec<u8>,
    pub clear_all_fails: bool,
    /// Pins that something outside holds low.
    pub pulled_down: Vec<u8>,
}

impl PinsModel {
    fn check(&self, pin: Pin) -> io::Result<()> {
        match self.broken.contains(&pin.0) {
            true => Err(io::Error::other(format!("Pin {} is broken", pin.0))),
            false => Ok(()),
        }
    }
}

impl Pins for PinsModel {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        self.log.push(format!("setup {} {:?}", pin.0, mode));
        self.check(pin)?;
        self.pins.insert(pin.0, (format!("{:?}", mode), mode == PinMode::InPullUp && !self.pulled_down.contains(&pin.0)));
        Ok(())
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.log.push(format!("clear {}", pin.0));
        self.check(pin)?;
        self.pins.remove(&pin.0);
        Ok(())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.log.push("clear all".to_owned());
        if self.clear_all_fails {
            return Err(io::Error::other("Cannot clear"));
        }
        self.pins.clear();
        Ok(())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        self.log.push(format!("read {}", pin.0));
        self.check(pin)?;
        match self.pins.get(&pin.0) {
            Some((m, v)) if m != "Out" => Ok(*v),
            _ => Err(io::Error::other(format!("Pin {} is not an input", pin.0))),
        }
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        self.log.push(format!("write {} {}", pin.0, v));
        self.check(pin)?;
        match self.pins.get_mut(&pin.0) {
            Some((m, l)) if m == "Out" => {
                *l = v;
                Ok(())
            }
            _ => Err(io::Error::other(format!("Pin {} is not an output", pin.0))),
        }
    }
}
