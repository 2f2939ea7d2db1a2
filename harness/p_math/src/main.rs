mod c05;
mod c06;
mod vpref;

fn main() {
    vp_engine::main(&[c05::property(), c06::property()])
}
