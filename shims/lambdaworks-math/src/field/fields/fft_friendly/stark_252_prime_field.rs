use crate::field::{
    fields::montgomery_backed_prime_fields::{IsModulus, MontgomeryBackendPrimeField},
    traits::IsFFTField,
};
use crate::unsigned_integer::element::U256;

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 =
        U256::from_hex_unchecked("800000000000011000000000000000000000000000000000000000000000001");
}

pub type Stark252PrimeField = MontgomeryBackendPrimeField<MontgomeryConfigStark252PrimeField, 4>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    // 3^((p-1)/2^192) = 0x5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 = U256::from_hex_unchecked(
        "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94",
    );
    fn field_name() -> &'static str {
        "stark256"
    }
}

use crate::field::element::FieldElement;
impl FieldElement<Stark252PrimeField> {
    /// Little-endian byte representation of the canonical value.
    pub fn to_bytes_le(&self) -> [u8; 32] {
        let limbs = self.representative().limbs;
        let mut bytes = [0; 32];
        for i in (0..4).rev() {
            let b = limbs[i].to_le_bytes();
            bytes[(3 - i) * 8..(3 - i) * 8 + 8].copy_from_slice(&b);
        }
        bytes
    }
    /// Big-endian byte representation of the canonical value.
    pub fn to_bytes_be(&self) -> [u8; 32] {
        let limbs = self.representative().limbs;
        let mut bytes = [0; 32];
        for i in 0..4 {
            bytes[i * 8..i * 8 + 8].copy_from_slice(&limbs[i].to_be_bytes());
        }
        bytes
    }
    pub fn to_bits_le(&self) -> [bool; 256] {
        let r = self.representative();
        let mut b = [false; 256];
        for (i, x) in b.iter_mut().enumerate() {
            *x = r.bit(i);
        }
        b
    }
}
