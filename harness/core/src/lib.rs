//! Shared machinery of the model-checking harness: transparent toy algebra,
//! scripted coins, bounded enumerators, reference R1CS model, reporting.
pub mod circuit;
pub mod uniq;
pub mod enumerate;
pub mod report;
pub mod rng;
pub mod toy;

pub use circuit::*;
pub use uniq::*;
pub use enumerate::*;
pub use report::*;
pub use rng::*;
pub mod layered;
pub mod shape;
pub mod zk;
pub use layered::*;
pub use shape::*;
pub use zk::*;
