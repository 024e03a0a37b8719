#![allow(dead_code)]
#[path = "../../codec/src/types.rs"]
mod basetypes;
mod big;
#[path = "../../codec/src/c01.rs"]
mod c01;
#[path = "../../codec/src/c02.rs"]
mod c02;
#[path = "../../codec/src/c03.rs"]
mod c03;
#[path = "../../codec/src/c04.rs"]
mod c04;
#[path = "../../codec/src/c05.rs"]
mod c05;
mod c07;
mod types;

fn main() {
    vh_engine::main(&[c07::prop()])
}
