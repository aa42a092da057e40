//! Programs that once showed, or still show, a defect.

use crate::corex::{self, Stop};
use crate::engine::{Failure, Section};

/// A section of programs with their expected outputs followed by how they end.
pub fn section(cases: &'static [(&'static str, &'static str)]) -> Section {
    Section::new(
        "pinned",
        cases.len() as u64,
        |i| cases[i as usize].0.to_owned(),
        |i, cx| {
            let (src, exp) = cases[i as usize];
            cx.step(1);
            cx.traces += 1;
            let text = src.replace(" : ", "\n");
            let r = corex::with_env(|env| corex::run(env, &text, &[], Default::default(), 100));
            let mut out = r.out;
            out.push(match r.stop {
                Stop::Eof => ".".to_owned(),
                Stop::Err(_, m) | Stop::Compile(_, m) => m,
                s => format!("{:?}", s),
            });
            let out = out.join(", ");
            match out == exp {
                true => Ok(()),
                false => Err(Failure::new(
                    format!("pinned: {}", src),
                    format!("{}\nexpected {}\nactual   {}", src, exp, out),
                )),
            }
        },
    )
}
