mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c18;
mod spec;
mod types;

fn main() {
    vh_engine::main(&[
        c01::prop(),
        c02::prop(),
        c03::prop(),
        c04::prop(),
        c05::prop(),
        c06::prop(),
        c18::prop(),
    ])
}
