pub mod bvs;
pub mod capture;
pub mod classes;
pub mod dom;
pub mod engine;
pub mod eqs;
pub mod learn;
pub mod minim;
pub mod refeg;
pub mod sched;
pub mod systems;
pub mod term;
pub mod wl;
pub use engine::*;
pub use term::*;
