//! The simulator: choices, heap, stack, clock, scheduler, generators and the
//! reference model. Nothing in here knows justjson.
#![feature(alloc_error_hook)]

pub mod alloc;
pub mod clock;
pub mod cold;
pub mod ctx;
pub mod gen;
pub mod model;
pub mod sched;
pub mod stack;
