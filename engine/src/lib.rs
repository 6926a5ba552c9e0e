//! Workload engine shared by the harnesses: choice tapes, PRNG, coverage feedback, watchdog,
//! shrinking and reporting.  Nothing in here knows about the code under test.
pub mod cov;
pub mod dict;
pub mod mem;
pub mod run;
pub mod src;
pub mod util;

pub use run::{main_with, Fail, Obs, Prop};
pub use src::Src;
