/// Module for EPW ground temperatures
pub mod ground_temperature;
/// Module for scanning a file
pub(crate) mod scanner;
/// The EPW File itself.
pub mod weather;
/// A line within the EPW file
pub mod weather_line;
