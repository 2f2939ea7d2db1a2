mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod util;

fn main() {
    vp_engine::main(&[
        c18::property(),
        c19::property(),
        c20::property(),
        c21::property(),
        c22::property(),
    ])
}
