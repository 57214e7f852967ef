use super::{element::FieldElement, errors::FieldError};
use crate::errors::CreationError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

pub trait IsField: Debug + Clone {
    type BaseType: Clone + Debug + Hash;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }
    fn pow<T>(a: &Self::BaseType, exponent: T) -> Self::BaseType
    where
        T: IsUnsignedInteger,
    {
        let mut r = Self::one();
        let limbs = exponent.le_limbs();
        let mut started = false;
        for l in limbs.iter().rev() {
            for b in (0..64).rev() {
                if started {
                    r = Self::square(&r);
                }
                if (l >> b) & 1 == 1 {
                    r = Self::mul(&r, a);
                    started = true;
                }
            }
        }
        r
    }
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType;
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
    fn zero() -> Self::BaseType {
        Self::from_u64(0)
    }
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger;

    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError>;
    fn field_bit_size() -> usize;
}

pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn field_name() -> &'static str {
        ""
    }

    /// Returns a primitive root of unity of order 2^`order`.
    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError> {
        let two_adic_primitive_root_of_unity =
            FieldElement::new(Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY);
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FieldError::RootOfUnityError(order));
        }
        let log_power = Self::TWO_ADICITY - order;
        let root = (0..log_power).fold(two_adic_primitive_root_of_unity, |acc, _| acc.square());
        Ok(root)
    }
}
