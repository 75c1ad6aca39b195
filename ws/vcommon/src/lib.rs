//! What the harnesses share: generator, executor, reporting. Knows nothing of didcomm.
pub mod exec;
pub mod gen;
pub mod jsonutil;
pub mod report;
pub mod rng;
pub use exec::{guard, run, suspend, Abnormal, Flag};
pub use report::{cut, Config, Obs, Runner};
pub use rng::{fnv, Rng};
