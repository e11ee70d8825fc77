//! Conformance drivers: replay cases generated by TLC in the real code and
//! record what the real code does. Public API of numopt only.
pub mod jet;
pub mod prog;
pub mod run;
pub mod expr;
pub mod text;
pub mod model;
pub mod side;
pub mod views;
pub mod viol;
pub mod sparse;
pub mod lp;
pub mod solve;
pub mod cmd;
pub mod solfile;
pub mod opt;
