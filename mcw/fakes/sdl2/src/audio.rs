use crate::{Call, call, desktop};
use std::marker::PhantomData;

pub struct AudioSubsystem(pub(crate) ());

#[derive(Clone, Debug, Default)]
pub struct AudioSpecDesired {
    pub freq: Option<i32>,
    pub channels: Option<u8>,
    pub samples: Option<u16>,
}

pub struct AudioQueue<T> {
    queued: std::cell::RefCell<std::collections::VecDeque<i16>>,
    paused: bool,
    p: PhantomData<T>,
}

impl AudioSubsystem {
    pub fn open_queue<'a, T, D: Into<Option<&'a str>>>(
        &self,
        _device: D,
        spec: &AudioSpecDesired,
    ) -> Result<AudioQueue<T>, String> {
        assert_eq!((Some(44_100), Some(1)), (spec.freq, spec.channels), "samples would not last what they should");
        call(Call::Queue, |_| AudioQueue {
            queued: Default::default(),
            // Devices are open without playing.
            paused: true,
            p: PhantomData,
        })
    }
}

impl AudioQueue<i16> {
    pub fn clear(&self) {
        self.queued.borrow_mut().clear();
        self.show();
    }
    pub fn queue_audio(&mut self, data: &[i16]) -> Result<(), String> {
        call(Call::Play, |_| ())?;
        let empty = self.queued.borrow().is_empty();
        self.queued.borrow_mut().extend(data.iter().copied());
        let n = self.queued.borrow().len();
        desktop().with(|s| {
            if !s.fresh && empty && !self.paused {
                s.gaps += 1;
            }
            s.fresh = false;
            s.peak = s.peak.max(n);
        });
        self.show();
        Ok(())
    }
    pub fn resume(&mut self) {
        self.paused = false;
        self.show();
    }
    pub fn pause(&mut self) {
        self.paused = true;
        self.show();
    }
    /// The bytes that are left; each look at them lets some be played.
    pub fn size(&self) -> u32 {
        let n = self.queued.borrow().len();
        if !self.paused {
            let played = n.min(n / 4 + 1500);
            desktop().with(|s| s.heard.extend(self.queued.borrow_mut().drain(..played)));
            self.show();
        }
        n as u32 * 2
    }
    fn show(&self) {
        let left = !self.queued.borrow().is_empty();
        desktop().with(|s| s.playing = left && !self.paused);
    }
}
