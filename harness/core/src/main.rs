mod c11;
mod c12;

fn main() {
    vh_engine::main(&[c11::prop(), c12::prop()])
}
