#![allow(dead_code)]
//! Choices shared by the checks that run servers on the virtual network.
use crate::engine::pick;
use simrt::{choose, exec};
use simrt::net::Chunking;

pub fn policy() -> exec::Policy {
    exec::next_yields(choose(3) == 2);
    pick(&[exec::Policy::Fifo, exec::Policy::Random, exec::Policy::Lifo])
}
pub fn chunking() -> Chunking {
    pick(&[Chunking::Whole, Chunking::Single, Chunking::Random, Chunking::Random])
}
