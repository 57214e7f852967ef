use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type U384PrimeField<M> = MontgomeryBackendPrimeField<M, 6>;
pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;
pub type U64PrimeField<M> = MontgomeryBackendPrimeField<M, 1>;

/// The modulus must be odd and prime.
pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryBackendPrimeField<M, const NUM_LIMBS: usize> {
    phantom: PhantomData<M>,
}

impl<M, const N: usize> MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>>,
{
    pub const MU: u64 = {
        // -p^{-1} mod 2^64
        let p = M::MODULUS.limbs[N - 1];
        let mut y: u64 = 1;
        let mut i = 0;
        while i < 6 {
            y = y.wrapping_mul(2u64.wrapping_sub(p.wrapping_mul(y)));
            i += 1;
        }
        y.wrapping_neg()
    };
    pub const R2: UnsignedInteger<N> = {
        // 2^(128 N) mod p, by doubling
        let p = M::MODULUS;
        let mut x = UnsignedInteger::<N>::from_u64(1);
        let mut i = 0;
        while i < 128 * N {
            let (s, o) = UnsignedInteger::add(&x, &x);
            x = s;
            if o || UnsignedInteger::const_le(&p, &x) {
                x = UnsignedInteger::sub(&x, &p).0;
            }
            i += 1;
        }
        x
    };

    #[inline]
    const fn cios(a: &UnsignedInteger<N>, b: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let p = &M::MODULUS.limbs;
        let mut t = [0u64; N]; // big endian
        let mut t_hi: u64 = 0;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let bi = b.limbs[i] as u128;
            let mut c: u128 = 0;
            let mut j = N;
            while j > 0 {
                j -= 1;
                c += t[j] as u128 + a.limbs[j] as u128 * bi;
                t[j] = c as u64;
                c >>= 64;
            }
            let s = t_hi as u128 + c;
            t_hi = s as u64;
            let t_hi2 = (s >> 64) as u64;
            let m = t[N - 1].wrapping_mul(Self::MU) as u128;
            let mut c: u128 = (t[N - 1] as u128 + m * p[N - 1] as u128) >> 64;
            let mut j = N - 1;
            while j > 0 {
                j -= 1;
                c += t[j] as u128 + m * p[j] as u128;
                t[j + 1] = c as u64;
                c >>= 64;
            }
            let s = t_hi as u128 + c;
            t[0] = s as u64;
            t_hi = t_hi2 + (s >> 64) as u64;
        }
        let r = UnsignedInteger { limbs: t };
        if t_hi > 0 || UnsignedInteger::const_le(&M::MODULUS, &r) {
            UnsignedInteger::sub(&r, &M::MODULUS).0
        } else {
            r
        }
    }
    const ONE_RAW: UnsignedInteger<N> = Self::cios(&UnsignedInteger::from_u64(1), &Self::R2);
}

impl<M, const N: usize> IsField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type BaseType = UnsignedInteger<N>;

    #[inline]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (s, o) = UnsignedInteger::add(a, b);
        if o || UnsignedInteger::const_le(&M::MODULUS, &s) {
            UnsignedInteger::sub(&s, &M::MODULUS).0
        } else {
            s
        }
    }
    #[inline]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::cios(a, b)
    }
    #[inline]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (d, o) = UnsignedInteger::sub(a, b);
        if o {
            UnsignedInteger::add(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        if *a == UnsignedInteger::default() {
            *a
        } else {
            UnsignedInteger::sub(&M::MODULUS, a).0
        }
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        if *a == UnsignedInteger::default() {
            panic!("Division by zero error.")
        }
        let e = UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(2)).0;
        Self::pow(a, e)
    }
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    fn zero() -> Self::BaseType {
        UnsignedInteger::from_u64(0)
    }
    fn one() -> Self::BaseType {
        Self::ONE_RAW
    }
    fn from_u64(x: u64) -> Self::BaseType {
        Self::cios(&UnsignedInteger::from_u64(x), &Self::R2)
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        Self::cios(&x, &Self::R2)
    }
}

impl<M, const N: usize> IsPrimeField for MontgomeryBackendPrimeField<M, N>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    type RepresentativeType = UnsignedInteger<N>;

    fn representative(x: &Self::BaseType) -> Self::RepresentativeType {
        Self::cios(x, &UnsignedInteger::from_u64(1))
    }
    fn field_bit_size() -> usize {
        UnsignedInteger::sub(&M::MODULUS, &UnsignedInteger::from_u64(1))
            .0
            .bits_le()
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError> {
        let integer = UnsignedInteger::<N>::from_hex(hex_string)?;
        Ok(Self::cios(&integer, &Self::R2))
    }
}

impl<M, const N: usize> FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    pub const fn from_hex_const(hex: &str) -> Self {
        Self::from_raw(MontgomeryBackendPrimeField::<M, N>::cios(
            &UnsignedInteger::<N>::from_hex_unchecked(hex),
            &MontgomeryBackendPrimeField::<M, N>::R2,
        ))
    }
}

impl<M, const N: usize> ByteConversion for FieldElement<MontgomeryBackendPrimeField<M, N>>
where
    M: IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        self.representative().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.representative().to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let value = UnsignedInteger::from_bytes_be(bytes)?;
        Ok(Self::new(value))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let value = UnsignedInteger::from_bytes_le(bytes)?;
        Ok(Self::new(value))
    }
}
