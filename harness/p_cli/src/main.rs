mod c38;

fn main() {
    vp_engine::main(&[c38::property()])
}
