mod c12;
mod c13;
mod c14;
mod c15;
mod util;

fn main() {
    vp_engine::main(&[c12::property(), c13::property(), c14::property(), c15::property()])
}
