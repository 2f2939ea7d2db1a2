mod c27;
mod c28;
mod c29;
mod c30;
mod util;

fn main() {
    vp_engine::main(&[c27::property(), c28::property(), c29::property(), c30::property()])
}
