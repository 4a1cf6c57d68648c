//! Deterministic simulation of justjson with fault injection. See DESIGN.md.

use jjbase::{alloc, clock, cold, ctx, ensure, ev, gen, model, sched, stack};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod props;
mod runner;
mod sut;

#[global_allocator]
static HEAP: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    std::process::exit(runner::main());
}
