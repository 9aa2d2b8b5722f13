//! Deterministic single-threaded simulation runtime: a seeded scheduler, a virtual clock and a
//! virtual network.  Everything that is not determined by the code under test is drawn from one
//! recorded sequence of choices (`choice`), so a case can be replayed and shrunk.
pub mod choice;
pub mod exec;
pub mod net;
pub mod time;
pub use choice::{choose, chance};
pub use exec::{settle, spawn, JoinHandle, SimSpawner};
