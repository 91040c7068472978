pub mod progress_bar;
pub use progress_bar::ProgressBar;
