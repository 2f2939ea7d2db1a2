mod c10;
mod c31;
mod c32;
mod c33;
mod c34;
mod c35;
mod c36;
mod c37;
#[path = "../../p_ode/src/util.rs"]
#[allow(dead_code)]
mod ode;
#[path = "../../p_pde/src/util.rs"]
#[allow(dead_code)]
mod pde;
mod util;

fn main() {
    vp_engine::main(&[c10::property(), c31::property(), c32::property(), c33::property(), c34::property(), c35::property(), c36::property(), c37::property()])
}
