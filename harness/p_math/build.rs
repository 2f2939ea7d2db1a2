fn main() {
    println!("cargo:rerun-if-changed=ref.cpp");
    cc::Build::new().cpp(true).file("ref.cpp").opt_level(1).warnings(false).compile("vp_ref");
}
