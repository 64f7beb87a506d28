//! Common machinery of the checks.
pub mod capture;
pub mod cfg;
pub mod dye;
pub mod iocase;
pub mod json;
pub mod num;
pub mod outmodel;
pub mod probe;
pub mod refsim;
pub mod run;
pub mod scratch;
pub mod sim;
pub use cfg::*;
pub use num::*;
pub use run::*;
pub use scratch::*;
pub use sim::*;
