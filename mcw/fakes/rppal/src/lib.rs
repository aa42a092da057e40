//! A stand-in for the Raspberry Pi library `rppal`, on a board in memory (one per thread).

use std::cell::RefCell;
use std::collections::BTreeMap;

/// What a line of the board does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Use {
    Floating,
    PullDown,
    PullUp,
    Drives(bool),
}

#[derive(Clone, Debug, Default)]
pub struct Board {
    /// Lines not as they are at power on.
    pub lines: BTreeMap<u8, Use>,
    /// What is connected to a line drives it.
    pub external: BTreeMap<u8, bool>,
    /// Lines that someone has.
    pub taken: Vec<u8>,
    /// What the next calls to `Gpio::new` and `Gpio::get` fail with (by number of call).
    pub new_fails: BTreeMap<usize, Fault>,
    pub get_fails: BTreeMap<usize, Fault>,
    pub news: usize,
    pub gets: usize,
    /// Levels that outputs were given, in order.
    pub writes: Vec<(u8, bool)>,
    /// What was opened and sent on the other bus.
    pub spi_opened: Vec<(u8, u8, u32, u8)>,
    pub spi_fails: Option<Fault>,
    pub spi_open: usize,
    pub spi_sent: Vec<u8>,
    /// How many bytes of each transfer go through.
    pub spi_limit: Option<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Unknown,
    Used,
    Denied,
    Io,
}

thread_local! {
    pub static BOARD: RefCell<Board> = RefCell::new(Board::default());
}

pub fn board<T>(f: impl FnOnce(&mut Board) -> T) -> T {
    BOARD.with(|b| f(&mut b.borrow_mut()))
}

impl Board {
    /// The level of a line.
    pub fn level(&self, n: u8) -> bool {
        match self.lines.get(&n) {
            Some(Use::Drives(v)) => *v,
            u => match self.external.get(&n) {
                Some(v) => *v,
                None => u == Some(&Use::PullUp),
            },
        }
    }
}

pub mod gpio {
    use super::{Fault, Use, board};
    use std::fmt;

    pub type Result<T> = std::result::Result<T, Error>;

    #[derive(Debug)]
    pub enum Error {
        UnknownModel,
        PinUsed(u8),
        PinNotAvailable(u8),
        PermissionDenied(String),
        Io(std::io::Error),
        ThreadPanic,
    }

    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Error::UnknownModel => write!(f, "Unknown Raspberry Pi model"),
                Error::PinUsed(p) => write!(f, "Pin {} is already in use", p),
                Error::PinNotAvailable(p) => write!(f, "Pin {} is not available", p),
                Error::PermissionDenied(p) => write!(f, "Permission denied: {}", p),
                Error::Io(e) => write!(f, "I/O error: {}", e),
                Error::ThreadPanic => write!(f, "Thread panicked"),
            }
        }
    }

    impl std::error::Error for Error {}

    fn error(f: Fault, pin: u8) -> Error {
        match f {
            Fault::Unknown => Error::UnknownModel,
            Fault::Used => Error::PinUsed(pin),
            Fault::Denied => Error::PermissionDenied("/dev/gpiomem".to_owned()),
            Fault::Io => Error::Io(std::io::Error::other("the bus is broken")),
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(u8)]
    pub enum Level {
        Low = 0,
        High = 1,
    }

    impl From<bool> for Level {
        fn from(v: bool) -> Self {
            if v { Level::High } else { Level::Low }
        }
    }

    impl fmt::Display for Level {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", if *self == Level::High { "High" } else { "Low" })
        }
    }

    impl std::ops::Not for Level {
        type Output = Level;
        fn not(self) -> Level {
            if self == Level::High { Level::Low } else { Level::High }
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Bias {
        Off,
        PullDown,
        PullUp,
    }

    #[derive(Clone, Debug)]
    pub struct Gpio(());

    /// The lines of the board.
    pub const LINES: u8 = 54;

    impl Gpio {
        pub fn new() -> Result<Gpio> {
            board(|b| {
                b.news += 1;
                match b.new_fails.get(&b.news) {
                    Some(f) => Err(error(*f, 0)),
                    None => Ok(Gpio(())),
                }
            })
        }

        pub fn get(&self, pin: u8) -> Result<Pin> {
            if pin >= LINES {
                return Err(Error::PinNotAvailable(pin));
            }
            board(|b| {
                b.gets += 1;
                if let Some(f) = b.get_fails.get(&b.gets) {
                    return Err(error(*f, pin));
                }
                if b.taken.contains(&pin) {
                    return Err(Error::PinUsed(pin));
                }
                b.taken.push(pin);
                Ok(Pin { pin })
            })
        }
    }

    #[derive(Debug)]
    pub struct Pin {
        pin: u8,
    }

    impl Drop for Pin {
        fn drop(&mut self) {
            board(|b| b.taken.retain(|p| *p != self.pin));
        }
    }

    impl Pin {
        pub fn pin(&self) -> u8 {
            self.pin
        }
        pub fn read(&self) -> Level {
            board(|b| b.level(self.pin)).into()
        }
        pub fn into_input(self) -> InputPin {
            InputPin::new(self, Use::Floating)
        }
        pub fn into_input_pulldown(self) -> InputPin {
            InputPin::new(self, Use::PullDown)
        }
        pub fn into_input_pullup(self) -> InputPin {
            InputPin::new(self, Use::PullUp)
        }
        pub fn into_output(self) -> OutputPin {
            // It keeps what was last written to the line.
            let last = board(|b| b.writes.iter().rev().find(|w| w.0 == self.pin).is_some_and(|w| w.1));
            OutputPin::new(self, last)
        }
        pub fn into_output_low(self) -> OutputPin {
            let mut p = OutputPin::new(self, false);
            p.set_low();
            p
        }
        pub fn into_output_high(self) -> OutputPin {
            let mut p = OutputPin::new(self, true);
            p.set_high();
            p
        }
    }

    macro_rules! common {
        ($t:ident) => {
            impl Drop for $t {
                fn drop(&mut self) {
                    if self.reset {
                        board(|b| b.lines.remove(&self.pin.pin));
                    }
                }
            }

            impl $t {
                pub fn pin(&self) -> u8 {
                    self.pin.pin
                }
                pub fn reset_on_drop(&self) -> bool {
                    self.reset
                }
                pub fn set_reset_on_drop(&mut self, reset: bool) {
                    self.reset = reset;
                }
            }
        };
    }

    #[derive(Debug)]
    pub struct InputPin {
        pin: Pin,
        reset: bool,
    }

    common!(InputPin);

    impl InputPin {
        fn new(pin: Pin, u: Use) -> Self {
            board(|b| b.lines.insert(pin.pin, u));
            Self { pin, reset: true }
        }
        pub fn read(&self) -> Level {
            self.pin.read()
        }
        pub fn is_low(&self) -> bool {
            self.read() == Level::Low
        }
        pub fn is_high(&self) -> bool {
            self.read() == Level::High
        }
        pub fn set_bias(&mut self, bias: Bias) {
            let u = match bias {
                Bias::Off => Use::Floating,
                Bias::PullDown => Use::PullDown,
                Bias::PullUp => Use::PullUp,
            };
            board(|b| b.lines.insert(self.pin.pin, u));
        }
    }

    #[derive(Debug)]
    pub struct OutputPin {
        pin: Pin,
        reset: bool,
    }

    common!(OutputPin);

    impl OutputPin {
        fn new(pin: Pin, level: bool) -> Self {
            board(|b| b.lines.insert(pin.pin, Use::Drives(level)));
            Self { pin, reset: true }
        }
        pub fn write(&mut self, level: Level) {
            let v = level == Level::High;
            board(|b| {
                b.lines.insert(self.pin.pin, Use::Drives(v));
                b.writes.push((self.pin.pin, v));
            });
        }
        pub fn set_low(&mut self) {
            self.write(Level::Low);
        }
        pub fn set_high(&mut self) {
            self.write(Level::High);
        }
        pub fn is_set_low(&self) -> bool {
            self.pin.read() == Level::Low
        }
        pub fn is_set_high(&self) -> bool {
            self.pin.read() == Level::High
        }
        pub fn toggle(&mut self) {
            let v = self.is_set_low();
            self.write(v.into());
        }
    }
}

pub mod spi {
    use super::{Fault, board};
    use std::fmt;

    pub type Result<T> = std::result::Result<T, Error>;

    #[derive(Debug)]
    pub enum Error {
        Io(std::io::Error),
        BitOrderNotSupported,
        BitsPerWordNotSupported(u8),
        ClockSpeedNotSupported(u32),
        ModeNotSupported,
        PolarityNotSupported,
    }

    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Error::Io(e) => write!(f, "I/O error: {}", e),
                Error::ClockSpeedNotSupported(c) => write!(f, "Clock speed not supported: {}", c),
                _ => write!(f, "Not supported"),
            }
        }
    }

    impl std::error::Error for Error {}

    macro_rules! numbered {
        ($t:ident, $($v:ident = $n:literal),*) => {
            #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
            pub enum $t {
                $($v = $n),*
            }
        };
    }

    numbered!(Bus, Spi0 = 0, Spi1 = 1, Spi2 = 2, Spi3 = 3, Spi4 = 4, Spi5 = 5, Spi6 = 6);
    numbered!(
        SlaveSelect,
        Ss0 = 0, Ss1 = 1, Ss2 = 2, Ss3 = 3, Ss4 = 4, Ss5 = 5, Ss6 = 6, Ss7 = 7, Ss8 = 8,
        Ss9 = 9, Ss10 = 10, Ss11 = 11, Ss12 = 12, Ss13 = 13, Ss14 = 14, Ss15 = 15
    );
    numbered!(Mode, Mode0 = 0, Mode1 = 1, Mode2 = 2, Mode3 = 3);

    #[derive(Debug)]
    pub struct Spi(());

    impl Drop for Spi {
        fn drop(&mut self) {
            board(|b| b.spi_open -= 1);
        }
    }

    impl Spi {
        pub fn new(bus: Bus, slave: SlaveSelect, clock: u32, mode: Mode) -> Result<Spi> {
            board(|b| {
                if let Some(f) = b.spi_fails {
                    return Err(match f {
                        Fault::Io | Fault::Denied => Error::Io(std::io::Error::other("the bus is broken")),
                        _ => Error::ClockSpeedNotSupported(clock),
                    });
                }
                b.spi_opened.push((bus as u8, slave as u8, clock, mode as u8));
                b.spi_open += 1;
                Ok(Spi(()))
            })
        }

        pub fn write(&mut self, buffer: &[u8]) -> Result<usize> {
            board(|b| {
                if b.spi_fails.is_some() {
                    return Err(Error::Io(std::io::Error::other("the bus is broken")));
                }
                let n = buffer.len().min(b.spi_limit.unwrap_or(buffer.len()));
                b.spi_sent.extend(&buffer[..n]);
                Ok(n)
            })
        }
    }
}
