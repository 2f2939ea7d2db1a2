mod c07;
mod c08;
mod c09;
mod c11;

fn main() {
    vp_engine::main(&[c07::property(), c08::property(), c09::property(), c11::property()])
}
