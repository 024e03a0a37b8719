mod c08;
mod c09;
mod c10;
mod c17;
mod c19;
mod c20;
mod stub;
#[path = "../../codec/src/types.rs"]
#[allow(dead_code)]
mod types;
#[path = "../../server/src/world.rs"]
#[allow(dead_code)]
mod world;

fn main() {
    c20::sim();
    vh_engine::main(&[c08::prop(), c09::prop(), c10::prop(), c17::prop(), c19::prop(), c20::prop()])
}
