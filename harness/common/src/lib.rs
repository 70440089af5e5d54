//! Shared machinery of the checks: reference model of formulas, exhaustive enumeration, execution
//! of cases (threads, panic capture, watchdog, crash isolation), findings and evidence.
pub mod engine;
pub mod enumerate;
pub mod model;
pub use engine::*;
pub use enumerate::*;
pub use model::*;
