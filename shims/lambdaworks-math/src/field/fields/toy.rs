//! Small prime fields used by the model-based harness (not part of lambdaworks).
//! The modulus is below 46341 so that the TLA+ side can evaluate every product
//! in TLC's 32-bit integers.
use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsFFTField, IsField, IsPrimeField};
use crate::traits::ByteConversion;

#[derive(Debug, Clone, Copy, Hash, PartialOrd, Ord, PartialEq, Eq)]
pub struct Toy<const P: u64, const ADICITY: u64, const ROOT: u64>;

pub type Toy193 = Toy<193, 6, 125>;
pub type Toy257 = Toy<257, 8, 3>;
pub type Toy12289 = Toy<12289, 12, 1331>;
pub type Toy40961 = Toy<40961, 13, 243>;

impl<const P: u64, const A: u64, const W: u64> IsFFTField for Toy<P, A, W> {
    const TWO_ADICITY: u64 = A;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = W;
}

impl<const P: u64, const A: u64, const W: u64> IsField for Toy<P, A, W> {
    type BaseType = u64;
    fn add(a: &u64, b: &u64) -> u64 {
        (a + b) % P
    }
    fn sub(a: &u64, b: &u64) -> u64 {
        (a + P - b) % P
    }
    fn neg(a: &u64) -> u64 {
        (P - a) % P
    }
    fn mul(a: &u64, b: &u64) -> u64 {
        a * b % P
    }
    fn div(a: &u64, b: &u64) -> u64 {
        Self::mul(a, &Self::inv(b))
    }
    fn inv(a: &u64) -> u64 {
        assert_ne!(*a, 0, "Cannot invert zero element");
        Self::pow(a, P - 2)
    }
    fn eq(a: &u64, b: &u64) -> bool {
        a == b
    }
    fn zero() -> u64 {
        0
    }
    fn one() -> u64 {
        1
    }
    fn from_u64(x: u64) -> u64 {
        x % P
    }
    fn from_base_type(x: u64) -> u64 {
        x % P
    }
}

impl<const P: u64, const A: u64, const W: u64> IsPrimeField for Toy<P, A, W> {
    type RepresentativeType = u64;
    fn representative(x: &u64) -> u64 {
        *x
    }
    fn field_bit_size() -> usize {
        ((P - 1).ilog2() + 1) as usize
    }
    fn from_hex(hex_string: &str) -> Result<u64, CreationError> {
        let s = hex_string.strip_prefix("0x").unwrap_or(hex_string);
        u64::from_str_radix(s, 16)
            .map(|v| v % P)
            .map_err(|_| CreationError::InvalidHexString)
    }
}

/// 8 bytes, big endian; longer inputs (the 32-byte challenges) are read as the
/// integer they denote, whose value fits the last 8 bytes for every field here.
impl<const P: u64, const A: u64, const W: u64> ByteConversion for FieldElement<Toy<P, A, W>> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.value().to_be_bytes().to_vec()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.value().to_le_bytes().to_vec()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        if bytes.len() < 8 {
            return Err(ByteConversionError::FromBEBytesError);
        }
        let mut acc = 0u64;
        for b in bytes {
            acc = ((acc << 8) + *b as u64) % P;
        }
        Ok(Self::from(acc))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let v: Vec<u8> = bytes.iter().rev().copied().collect();
        Self::from_bytes_be(&v)
    }
}
