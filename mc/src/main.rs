#![allow(dead_code)]
mod corex;
mod engine;
mod explore;
mod gfxx;
mod gpiox;
mod lang;
mod machx;
mod props;
mod scratch;
mod scr;

fn main() {
    engine::main(props::all());
}
