//! Reference models, written from the CESR / KERI definitions and not from the code under test.
pub mod cesr;
pub mod curves;
pub mod thold;
