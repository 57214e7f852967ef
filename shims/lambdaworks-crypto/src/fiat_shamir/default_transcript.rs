use super::transcript::Transcript;
use crate::probe::{self, Event};
use sha3::{Digest, Keccak256};

pub struct DefaultTranscript {
    hasher: Keccak256,
}

impl Transcript for DefaultTranscript {
    fn append(&mut self, new_data: &[u8]) {
        probe::record(|| Event::Append(new_data.to_vec()));
        self.hasher.update(&mut new_data.to_owned());
    }

    fn challenge(&mut self) -> [u8; 32] {
        let mut result_hash = [0_u8; 32];
        result_hash.copy_from_slice(&self.hasher.finalize_reset());
        result_hash.reverse();
        self.hasher.update(result_hash);
        probe::record(|| Event::Challenge(result_hash));
        result_hash
    }
}

impl DefaultTranscript {
    pub fn new() -> Self {
        probe::record(|| Event::New);
        Self {
            hasher: Keccak256::new(),
        }
    }
}

impl Default for DefaultTranscript {
    fn default() -> Self {
        Self::new()
    }
}
