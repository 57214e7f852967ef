pub mod backends;
pub mod merkle;
pub mod proof;
pub mod traits;
mod utils;
