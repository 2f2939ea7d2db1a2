mod c01;
mod c02;
mod c03;
mod c04;
mod util;

fn main() {
    vp_engine::main(&[c01::property(), c02::property(), c03::property(), c04::property()])
}
