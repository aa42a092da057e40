#![allow(dead_code)]
#[path = "../../mc/src/corex.rs"]
mod corex;
#[path = "../../mc/src/engine.rs"]
mod engine;
mod http;
#[path = "../../mc/src/gfxx.rs"]
mod gfxx;
#[path = "../../mc/src/lang.rs"]
mod lang;
#[path = "../../mc/src/machx.rs"]
mod machx;
mod props;
mod pty;
#[path = "../../mc/src/scr.rs"]
mod scr;
#[path = "../../mc/src/scratch.rs"]
mod scratch;

fn main() {
    engine::main(props::all());
}
