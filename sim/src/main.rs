//! Deterministic simulation of meerkatdb's store. See ../../DESIGN.md.
#![recursion_limit = "512"]
#![allow(invalid_runtime_symbol_definitions)]
mod alloc;
mod client;
mod decode;
mod disk;
mod driver;
mod hook;
mod oracle;
mod plan;
mod rng;
mod run;
mod scenarios;
mod shrink;
mod sim;

#[global_allocator]
static ARENA: alloc::Arena = alloc::Arena;

fn main() {
    driver::main()
}
