use super::traits::{IsField, IsPrimeField};
use crate::errors::CreationError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy)]
pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> FieldElement<F> {
    pub fn new(value: F::BaseType) -> Self {
        Self {
            value: F::from_base_type(value),
        }
    }
    pub const fn const_from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub const fn from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn to_raw(self) -> F::BaseType {
        self.value
    }
    pub fn inv(&self) -> Self {
        Self {
            value: F::inv(&self.value),
        }
    }
    pub fn square(&self) -> Self {
        Self {
            value: F::square(&self.value),
        }
    }
    pub fn double(&self) -> Self {
        Self {
            value: F::add(&self.value, &self.value),
        }
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self {
            value: F::pow(&self.value, exponent),
        }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
    /// Montgomery batch inversion.
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod_prefix: Vec<Self> = Vec::with_capacity(count);
        prod_prefix.push(numbers[0].clone());
        for i in 1..count {
            prod_prefix.push(&prod_prefix[i - 1] * &numbers[i]);
        }
        let mut bi_inv = prod_prefix[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod_prefix[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }
}

impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(&self.value)
    }
    pub fn from_hex(hex_string: &str) -> Result<Self, CreationError> {
        Ok(Self {
            value: F::from_hex(hex_string)?,
        })
    }
    pub fn from_hex_unchecked(hex_string: &str) -> Self {
        Self {
            value: F::from_hex(hex_string).unwrap(),
        }
    }
    pub fn to_hex(&self) -> String {
        format!("{}", self.representative())
    }
    pub fn is_even(&self) -> bool {
        self.representative() & F::RepresentativeType::from(1u16) == F::RepresentativeType::from(0u16)
    }
}

impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsField> Hash for FieldElement<F> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.value.hash(state)
    }
}
impl<F: IsPrimeField> Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}
impl<F: IsField> Debug for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "FieldElement {{ value: {:?} }}", self.value)
    }
}

impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self {
            value: F::from_u64(value),
        }
    }
}
impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self {
            value: F::from_base_type(value.clone()),
        }
    }
}

macro_rules! ops {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement {
                    value: F::$f(&self.value, &rhs.value),
                }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement {
                    value: F::$f(&self.value, &rhs.value),
                }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement {
                    value: F::$f(&self.value, &rhs.value),
                }
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            fn $f(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement {
                    value: F::$f(&self.value, &rhs.value),
                }
            }
        }
        impl<F: IsField> $tra<FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: FieldElement<F>) {
                self.value = F::$f(&self.value, &rhs.value);
            }
        }
        impl<F: IsField> $tra<&FieldElement<F>> for FieldElement<F> {
            fn $fa(&mut self, rhs: &FieldElement<F>) {
                self.value = F::$f(&self.value, &rhs.value);
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign);
ops!(Sub, sub, SubAssign, sub_assign);
ops!(Mul, mul, MulAssign, mul_assign);
ops!(Div, div, DivAssign, div_assign);

impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        FieldElement {
            value: F::neg(&self.value),
        }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        -&self
    }
}
impl<F: IsField> Sum<FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: IsField> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> Product<FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
impl<'a, F: IsField> Product<&'a FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
