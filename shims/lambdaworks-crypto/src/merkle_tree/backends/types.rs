use crate::merkle_tree::traits::IsMerkleTreeBackend;
use lambdaworks_math::field::{element::FieldElement, traits::IsField};
use lambdaworks_math::traits::ByteConversion;
use sha3::{Digest, Keccak256};
use std::marker::PhantomData;

#[derive(Clone, Debug)]
pub struct Keccak256Tree<F>(PhantomData<F>);
#[derive(Clone, Debug)]
pub struct BatchKeccak256Tree<F>(PhantomData<F>);

fn parent(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
    let mut h = Keccak256::new();
    h.update(l);
    h.update(r);
    h.finalize().into()
}

impl<F> IsMerkleTreeBackend for Keccak256Tree<F>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
{
    type Node = [u8; 32];
    type Data = FieldElement<F>;
    fn hash_data(input: &FieldElement<F>) -> [u8; 32] {
        let mut h = Keccak256::new();
        h.update(input.to_bytes_be());
        h.finalize().into()
    }
    fn hash_new_parent(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
        parent(l, r)
    }
}

impl<F> IsMerkleTreeBackend for BatchKeccak256Tree<F>
where
    F: IsField,
    FieldElement<F>: ByteConversion,
{
    type Node = [u8; 32];
    type Data = Vec<FieldElement<F>>;
    fn hash_data(input: &Vec<FieldElement<F>>) -> [u8; 32] {
        let mut h = Keccak256::new();
        for e in input.iter() {
            h.update(e.to_bytes_be());
        }
        h.finalize().into()
    }
    fn hash_new_parent(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
        parent(l, r)
    }
}
