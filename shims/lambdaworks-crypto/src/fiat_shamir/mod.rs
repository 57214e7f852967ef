pub mod default_transcript;
pub mod test_transcript;
pub mod transcript;
