//! Bounded-exhaustive exploration of the instrumenter: every program of a family, every set of hooks, every
//! answer of the analysis, against an interpretation of the original program.
pub mod behaviour;
pub mod conformance;
pub mod driver;
pub mod families;
pub mod gen;
pub mod model;
pub mod pieces;
pub mod run;
pub mod structure;
