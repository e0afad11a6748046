//! Only here so that cargo builds linesweeper and its dependencies.
pub use linesweeper as _;
