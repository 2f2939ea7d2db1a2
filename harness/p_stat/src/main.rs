mod c16;
mod c17;

fn main() {
    vp_engine::main(&[c16::property(), c17::property()])
}
