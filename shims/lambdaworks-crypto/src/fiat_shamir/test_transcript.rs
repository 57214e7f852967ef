use super::transcript::Transcript;

pub struct TestTranscript;

impl Transcript for TestTranscript {
    fn append(&mut self, _new_data: &[u8]) {}
    fn challenge(&mut self) -> [u8; 32] {
        [1; 32]
    }
}

impl TestTranscript {
    pub fn new() -> Self {
        Self {}
    }
}
impl Default for TestTranscript {
    fn default() -> Self {
        Self::new()
    }
}
