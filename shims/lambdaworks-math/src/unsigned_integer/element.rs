use super::traits::IsUnsignedInteger;
use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::ops::*;

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;
pub type U64 = UnsignedInteger<1>;

/// Big-endian limbs: `limbs[0]` is the most significant one (as in lambdaworks).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self { limbs: [0; N] }
    }
}

impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.limbs.cmp(&other.limbs)
    }
}
impl<const N: usize> Debug for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}
impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}
impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }
}
impl<const N: usize> From<u64> for UnsignedInteger<N> {
    fn from(value: u64) -> Self {
        Self::from_u64(value)
    }
}
impl<const N: usize> From<usize> for UnsignedInteger<N> {
    fn from(value: usize) -> Self {
        Self::from_u64(value as u64)
    }
}
impl<const N: usize> From<u32> for UnsignedInteger<N> {
    fn from(value: u32) -> Self {
        Self::from_u64(value as u64)
    }
}
impl<const N: usize> From<u16> for UnsignedInteger<N> {
    fn from(value: u16) -> Self {
        Self::from_u64(value as u64)
    }
}
impl<const N: usize> From<u8> for UnsignedInteger<N> {
    fn from(value: u8) -> Self {
        Self::from_u64(value as u64)
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(hex_str: &str) -> Self {
        Self::from_hex(hex_str).unwrap()
    }
}
// lambdaworks keeps the low bits when narrowing.
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(v: UnsignedInteger<N>) -> u16 {
        v.limbs[N - 1] as u16
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u32 {
    fn from(v: UnsignedInteger<N>) -> u32 {
        v.limbs[N - 1] as u32
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u64 {
    fn from(v: UnsignedInteger<N>) -> u64 {
        v.limbs[N - 1]
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for usize {
    fn from(v: UnsignedInteger<N>) -> usize {
        v.limbs[N - 1] as usize
    }
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }
    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }
    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        limbs[N - 2] = (value >> 64) as u64;
        Self { limbs }
    }
    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let mut string = value;
        if value.len() > 2 && &value[..2] == "0x" {
            string = &value[2..];
        }
        if string.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !string.bytes().all(|c| c.is_ascii_hexdigit()) || string.len() > N * 16 {
            return Err(CreationError::InvalidHexString);
        }
        Ok(Self::from_hex_unchecked(string))
    }
    pub const fn from_hex_unchecked(value: &str) -> Self {
        let mut limbs = [0u64; N];
        let bytes = value.as_bytes();
        let start = if bytes.len() > 2 && bytes[0] == b'0' && bytes[1] == b'x' {
            2
        } else {
            0
        };
        let mut k = 0;
        let mut i = bytes.len();
        while i > start {
            i -= 1;
            let c = bytes[i];
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex string."),
            };
            let limb = k / 16;
            if limb < N {
                limbs[N - 1 - limb] |= (d as u64) << ((k % 16) * 4);
            }
            k += 1;
        }
        Self { limbs }
    }
    pub fn to_hex(&self) -> String {
        let s: String = self.limbs.iter().map(|l| format!("{:016x}", l)).collect();
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.into()
        }
    }
    pub const fn const_ne(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] {
                return true;
            }
            i += 1;
        }
        false
    }
    pub const fn const_le(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] < b.limbs[i] {
                return true;
            } else if a.limbs[i] > b.limbs[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut r = [0u64; N];
        let mut c = 0u128;
        let mut i = N;
        while i > 0 {
            i -= 1;
            c += a.limbs[i] as u128 + b.limbs[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        (Self { limbs: r }, c > 0)
    }
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut r = [0u64; N];
        let mut borrow = 0u64;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (x, b1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (y, b2) = x.overflowing_sub(borrow);
            r[i] = y;
            borrow = (b1 | b2) as u64;
        }
        (Self { limbs: r }, borrow > 0)
    }
    /// (hi, lo)
    pub fn mul(a: &Self, b: &Self) -> (Self, Self) {
        let mut t = vec![0u64; 2 * N]; // little endian
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N {
                let cur =
                    t[i + j] as u128 + (a.limbs[N - 1 - i] as u128) * (b.limbs[N - 1 - j] as u128) + c;
                t[i + j] = cur as u64;
                c = cur >> 64;
            }
            t[i + N] = c as u64;
        }
        let (mut hi, mut lo) = ([0u64; N], [0u64; N]);
        for i in 0..N {
            lo[N - 1 - i] = t[i];
            hi[N - 1 - i] = t[i + N];
        }
        (Self { limbs: hi }, Self { limbs: lo })
    }
    pub const fn const_shl(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let a = times / 64;
        let b = times % 64;
        let mut i = 0;
        while i + a < N {
            limbs[i] = self.limbs[i + a] << b;
            if b > 0 && i + a + 1 < N {
                limbs[i] |= self.limbs[i + a + 1] >> (64 - b);
            }
            i += 1;
        }
        Self { limbs }
    }
    pub const fn const_shr(self, times: usize) -> Self {
        let mut limbs = [0u64; N];
        let a = times / 64;
        let b = times % 64;
        let mut i = a;
        while i < N {
            limbs[i] = self.limbs[i - a] >> b;
            if b > 0 && i > a {
                limbs[i] |= self.limbs[i - a - 1] << (64 - b);
            }
            i += 1;
        }
        Self { limbs }
    }
    pub fn bits_le(&self) -> usize {
        for (i, l) in self.limbs.iter().enumerate() {
            if *l != 0 {
                return (N - i) * 64 - l.leading_zeros() as usize;
            }
        }
        0
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.limbs[N - 1 - i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn div_rem(self, rhs: &Self) -> (Self, Self) {
        assert!(*rhs != Self::default(), "attempt to divide by zero");
        let (mut q, mut r) = (Self::default(), Self::default());
        for i in (0..N * 64).rev() {
            r = r.const_shl(1);
            if self.bit(i) {
                r.limbs[N - 1] |= 1;
            }
            if r >= *rhs {
                r = Self::sub(&r, rhs).0;
                q.limbs[N - 1 - i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const N: usize> $tr<&UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, &o)
            }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(&self, o)
            }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $f(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> {
                $tr::$f(self, &o)
            }
        }
    };
}
binop!(Add, add, |a, b| {
    let (r, o) = UnsignedInteger::add(a, b);
    debug_assert!(!o, "UnsignedInteger addition overflow.");
    r
});
binop!(Sub, sub, |a, b| {
    let (r, o) = UnsignedInteger::sub(a, b);
    debug_assert!(!o, "UnsignedInteger subtraction overflow.");
    r
});
binop!(Mul, mul, |a, b| {
    let (hi, lo) = UnsignedInteger::mul(a, b);
    debug_assert!(hi == UnsignedInteger::default(), "UnsignedInteger multiplication overflow.");
    lo
});
binop!(BitAnd, bitand, |a, b| {
    let mut r = *a;
    for i in 0..N {
        r.limbs[i] &= b.limbs[i];
    }
    r
});
binop!(BitOr, bitor, |a, b| {
    let mut r = *a;
    for i in 0..N {
        r.limbs[i] |= b.limbs[i];
    }
    r
});
binop!(BitXor, bitxor, |a, b| {
    let mut r = *a;
    for i in 0..N {
        r.limbs[i] ^= b.limbs[i];
    }
    r
});
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> {
        self.const_shl(times)
    }
}
impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> {
        self.const_shl(times)
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> {
        self.const_shr(times)
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> {
        self.const_shr(times)
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, times: usize) {
        *self = self.const_shr(times)
    }
}
impl<const N: usize> ShlAssign<usize> for UnsignedInteger<N> {
    fn shl_assign(&mut self, times: usize) {
        *self = self.const_shl(times)
    }
}
impl<const N: usize> BitOrAssign for UnsignedInteger<N> {
    fn bitor_assign(&mut self, o: Self) {
        *self = *self | o
    }
}
impl<const N: usize> BitXorAssign for UnsignedInteger<N> {
    fn bitxor_assign(&mut self, o: Self) {
        *self = *self ^ o
    }
}
impl<const N: usize> BitAndAssign for UnsignedInteger<N> {
    fn bitand_assign(&mut self, o: Self) {
        *self = *self & o
    }
}

impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {
    fn le_limbs(&self) -> Vec<u64> {
        self.limbs.iter().rev().copied().collect()
    }
}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs
            .iter()
            .rev()
            .flat_map(|l| l.to_le_bytes())
            .collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes
            .get(0..N * 8)
            .ok_or(ByteConversionError::FromBEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes
            .get(0..N * 8)
            .ok_or(ByteConversionError::FromLEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).rev().enumerate() {
            limbs[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}
