pub mod alloc;
pub mod bigf;
pub mod dd;
pub mod gen;
pub mod input;
pub mod oracle;
pub mod plans;
pub mod rng;
pub mod run;
pub mod snap;
