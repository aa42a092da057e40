//! The real machine with the standard library on a terminal emulator.

use crate::corex::HostEnv;
use crate::scr::Scr;
use endbasic_core::SymbolKey;
use endbasic_std::program::{BREAK_MSG, Program};
use endbasic_std::storage::Storage;
use endbasic_std::{Error, Machine, MachineBuilder, Signal, Yielder};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::rc::Rc;

/// How a piece of code ended.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Outcome {
    Compile(String),
    Err(String),
    Done(Option<i32>),
    Break,
}

#[derive(Clone, Copy, Default)]
pub struct Opts {
    /// Size of the console; (80, 24) when zero.
    pub size: (usize, usize),
    pub interactive: bool,
    /// Capacity of the log of OUT.
    pub max_out: usize,
}

pub struct Mach {
    pub m: Machine,
    pub con: Rc<RefCell<Scr>>,
    pub env: Rc<HostEnv>,
    pub tx: async_channel::Sender<Signal>,
}

thread_local! {
    static ENV: Rc<HostEnv> = Rc::new(HostEnv::new());
}

/// Adds the callables of the host to a builder.
pub fn with_host(mut b: MachineBuilder, env: &HostEnv) -> MachineBuilder {
    for (k, c) in &env.upcalls {
        if *k != SymbolKey::from("LBOUND") && *k != SymbolKey::from("UBOUND") {
            b.add_callable(c.clone());
        }
    }
    b
}

impl Mach {
    pub fn scripting(o: Opts) -> Self {
        Self::build(o, None, |b| b)
    }

    pub fn build(
        o: Opts,
        inter: Option<(Rc<RefCell<dyn Program>>, Rc<RefCell<Storage>>)>,
        f: impl FnOnce(MachineBuilder) -> MachineBuilder,
    ) -> Self {
        let (w, h) = if o.size.0 == 0 { (80, 24) } else { o.size };
        let mut scr = Scr::new(w, h);
        scr.keep_log = true;
        scr.interactive = o.interactive;
        let (tx, rx) = async_channel::unbounded();
        scr.signals_tx = Some(tx.clone());
        let con = Rc::new(RefCell::new(scr));
        let env = ENV.with(|e| e.clone());
        env.reset(&[], if o.max_out == 0 { 100_000 } else { o.max_out });
        let b = MachineBuilder::default()
            .with_console(con.clone())
            .with_signals_chan((tx.clone(), rx));
        let b = f(with_host(b, &env));
        let m = match inter {
            None => b.build(),
            Some((p, s)) => b.make_interactive().with_program(p).with_storage(s).build(),
        };
        Mach { m, con, env, tx }
    }

    /// An interactive machine with its default storage for the program.
    pub fn build_default(o: Opts, storage: Rc<RefCell<Storage>>) -> Self {
        let (w, h) = if o.size.0 == 0 { (80, 24) } else { o.size };
        let mut scr = Scr::new(w, h);
        scr.keep_log = true;
        scr.interactive = o.interactive;
        let (tx, rx) = async_channel::unbounded();
        scr.signals_tx = Some(tx.clone());
        let con = Rc::new(RefCell::new(scr));
        let env = ENV.with(|e| e.clone());
        env.reset(&[], if o.max_out == 0 { 100_000 } else { o.max_out });
        let b = MachineBuilder::default()
            .with_console(con.clone())
            .with_signals_chan((tx.clone(), rx));
        let m = with_host(b, &env).make_interactive().with_storage(storage).build();
        Mach { m, con, env, tx }
    }

    /// Compiles and executes a piece of code.
    pub fn feed(&mut self, text: &str) -> Outcome {
        if let Err(e) = self.m.compile(&mut text.as_bytes()) {
            return Outcome::Compile(e.to_string());
        }
        self.exec()
    }

    pub fn exec(&mut self) -> Outcome {
        match block_on(self.m.exec()) {
            Ok(c) => Outcome::Done(c),
            Err(Error::Break) => Outcome::Break,
            Err(e) => Outcome::Err(e.to_string()),
        }
    }

    /// What OUT got since the last call.
    pub fn out(&self) -> Vec<String> {
        std::mem::take(&mut self.env.state.borrow_mut().out)
    }

    /// What was printed since the last call.
    pub fn text(&self) -> String {
        let mut c = self.con.borrow_mut();
        let t = c.text();
        c.log.clear();
        t
    }
}

pub const BREAK: &str = BREAK_MSG;

/// A yielder that does something on each turn.
pub struct HookYielder(pub Box<dyn FnMut()>);

#[async_trait::async_trait(?Send)]
impl Yielder for HookYielder {
    async fn yield_now(&mut self) {
        (self.0)()
    }
}

/// A stored program that can be replaced.
#[derive(Default)]
pub struct MemProgram {
    pub name: Option<String>,
    pub text: String,
    pub dirty: bool,
    /// What the next edit leaves as the text.
    pub edits: std::collections::VecDeque<String>,
    /// What was loaded or saved.
    pub log: Vec<String>,
}

#[async_trait::async_trait(?Send)]
impl Program for MemProgram {
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    async fn edit(&mut self, _: &mut dyn endbasic_std::console::Console) -> std::io::Result<()> {
        if let Some(t) = self.edits.pop_front() {
            self.text = t;
            self.dirty = true;
        }
        Ok(())
    }
    fn load(&mut self, name: Option<&str>, text: &str) {
        self.name = name.map(str::to_owned);
        self.text = text.to_owned();
        self.dirty = false;
    }
    fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    fn set_name(&mut self, name: &str) {
        self.name = Some(name.to_owned());
        self.dirty = false;
    }
    fn text(&self) -> String {
        self.text.clone()
    }
}
