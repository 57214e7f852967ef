use super::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

fn ntt<F: IsFFTField>(a: &mut [FieldElement<F>], root: &FieldElement<F>) {
    let n = a.len();
    if n <= 1 {
        return;
    }
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - bits);
        if i < j {
            a.swap(i, j);
        }
    }
    let mut tw = Vec::with_capacity(n / 2);
    let mut c = FieldElement::<F>::one();
    for _ in 0..n / 2 {
        tw.push(c.clone());
        c = c * root;
    }
    let mut len = 2;
    while len <= n {
        let stride = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let u = a[s + k].clone();
                let v = &a[s + k + len / 2] * &tw[k * stride];
                a[s + k] = &u + &v;
                a[s + k + len / 2] = u - v;
            }
        }
        len <<= 1;
    }
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = std::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        if !len.is_power_of_two() {
            return Err(FFTError::InputError(len));
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        let root = F::get_primitive_root_of_unity(len.trailing_zeros() as u64)?;
        ntt(&mut coeffs, &root);
        Ok(coeffs)
    }
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let n = fft_evals.len();
        if !n.is_power_of_two() {
            return Err(FFTError::InputError(n));
        }
        let mut a = fft_evals.to_vec();
        let root = F::get_primitive_root_of_unity(n.trailing_zeros() as u64)?.inv();
        ntt(&mut a, &root);
        let ninv = FieldElement::<F>::from(n as u64).inv();
        for x in a.iter_mut() {
            *x = &*x * &ninv;
        }
        Ok(Polynomial::new(&a))
    }
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let scaled = Self::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}
