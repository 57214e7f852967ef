use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// `[offset * root^i : 0 <= i < count]` with `root` a primitive 2^n-th root of unity.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    let mut out = Vec::with_capacity(count);
    let mut cur = offset.clone();
    for _ in 0..count {
        out.push(cur.clone());
        cur = cur * &root;
    }
    Ok(out)
}

pub fn get_powers_of_primitive_root<F: IsFFTField>(
    n: u64,
    count: usize,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    get_powers_of_primitive_root_coset(n, count, &FieldElement::one())
}
