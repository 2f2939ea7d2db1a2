mod gen_;
mod run;
mod shrink;
pub use gen_::*;
pub use run::*;
