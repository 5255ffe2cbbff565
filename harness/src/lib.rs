//! Property-based testing harness for dynamixel2-rs.
pub mod cmd;
pub mod diff;
pub mod refm;
pub mod sim;

#[cfg(feature = "gen")]
pub mod gen;
#[cfg(feature = "gen")]
pub mod props;
#[cfg(feature = "gen")]
pub mod runner;
