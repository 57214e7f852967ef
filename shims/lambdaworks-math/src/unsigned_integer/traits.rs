use std::fmt::{Debug, Display};
use std::ops::{Add, BitAnd, Shr, ShrAssign};

pub trait IsUnsignedInteger:
    Shr<usize, Output = Self>
    + ShrAssign<usize>
    + BitAnd<Output = Self>
    + Eq
    + Ord
    + From<u16>
    + Copy
    + Display
    + Debug
    + Add<Self, Output = Self>
{
    /// Little-endian 64-bit limbs.
    fn le_limbs(&self) -> Vec<u64>;
}

macro_rules! prim {
    ($($t:ty),*) => {$(
        impl IsUnsignedInteger for $t {
            fn le_limbs(&self) -> Vec<u64> {
                let v = *self as u128;
                vec![v as u64, (v >> 64) as u64]
            }
        }
    )*};
}
prim!(u16, u32, u64, u128, usize);
