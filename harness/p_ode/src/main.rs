mod c23;
mod c24;
mod c25;
mod c26;
mod util;

fn main() {
    vp_engine::main(&[c23::property(), c24::property(), c25::property(), c26::property()])
}
