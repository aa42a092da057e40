#![allow(dead_code)]
#[path = "../../mc/src/engine.rs"]
mod engine;
mod page;
mod props;
mod refx;

fn main() {
    engine::main(props::all());
}
