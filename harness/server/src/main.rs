mod c13;
mod c14;
mod c15;
mod c16;
mod world;

fn main() {
    vh_engine::main(&[c13::prop(), c14::prop(), c15::prop(), c16::prop()])
}
