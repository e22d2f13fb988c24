pub mod eval;
pub mod fit;
pub mod knots;
pub mod merge;
pub mod ops;
pub mod hist;
pub mod meta;
pub mod sub;
