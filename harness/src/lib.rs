//! The deployed contract under test: driver, simulated chain, reference model, generated histories, properties.
pub mod direct;
pub mod driver;
pub mod forms;
pub mod hist;
pub mod image;
pub mod props;
pub mod schema;
pub mod sim;
pub use vcommon::meta;
