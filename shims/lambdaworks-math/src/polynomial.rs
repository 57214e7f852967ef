use crate::field::element::FieldElement;
use crate::field::traits::IsField;
use std::fmt::Debug;
use std::ops::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

#[derive(Debug, PartialEq, Eq)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    /// Trailing zero coefficients are removed.
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let mut n = coefficients.len();
        while n > 0 && coefficients[n - 1] == FieldElement::zero() {
            n -= 1;
        }
        Polynomial {
            coefficients: coefficients[..n].to_vec(),
        }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut coefficients = vec![FieldElement::zero(); degree];
        coefficients.push(coefficient);
        Self::new(&coefficients)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn interpolate(
        xs: &[FieldElement<F>],
        ys: &[FieldElement<F>],
    ) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        let mut r = Self::zero();
        for (i, y) in ys.iter().enumerate() {
            let mut t = Self::new(&[y.clone()]);
            for (j, x) in xs.iter().enumerate() {
                if i != j {
                    if xs[i] == *x {
                        return Err(InterpolateError::NonUniqueXs);
                    }
                    let d = (&xs[i] - x).inv();
                    t = t * Self::new(&[-(x * &d), d.clone()]);
                }
            }
            r = r + t;
        }
        Ok(r)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, coeff| coeff + acc * x)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        if self.coefficients.is_empty() {
            0
        } else {
            self.coefficients.len() - 1
        }
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or_default()
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients.len()
    }
    pub fn is_zero(&self) -> bool {
        self.coefficients.is_empty()
    }
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut p = FieldElement::<F>::one();
        let mut c = Vec::with_capacity(self.coefficients.len());
        for x in &self.coefficients {
            c.push(x * &p);
            p = p * factor;
        }
        Self::new(&c)
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        let c: Vec<_> = self.coefficients.iter().map(|x| x * factor).collect();
        Self::new(&c)
    }
    pub fn pad_with_zero_coefficients_to_length(pa: &mut Self, n: usize) {
        if pa.coefficients.len() < n {
            pa.coefficients.resize(n, FieldElement::zero());
        }
    }
    /// Both polynomials padded with zeros to the same length.
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let mut pa = pa.clone();
        let mut pb = pb.clone();
        let n = pa.coefficients.len().max(pb.coefficients.len());
        Self::pad_with_zero_coefficients_to_length(&mut pa, n);
        Self::pad_with_zero_coefficients_to_length(&mut pb, n);
        (pa, pb)
    }
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            std::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut r = self.clone();
        r.ruffini_division_inplace(b);
        Self::new(&r.coefficients)
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        let dividend = Self::new(&dividend.coefficients);
        let mut n = Self::new(&self.coefficients);
        if dividend.is_zero() {
            panic!("Division by zero polynomial");
        }
        if n.coeff_len() < dividend.coeff_len() {
            return (Self::zero(), n);
        }
        let mut q = vec![FieldElement::zero(); n.coeff_len()];
        let den = dividend.leading_coefficient().inv();
        while !n.is_zero() && n.coeff_len() >= dividend.coeff_len() {
            let c = n.leading_coefficient() * &den;
            let sh = n.coeff_len() - dividend.coeff_len();
            q[sh] = c.clone();
            let mut co = n.coefficients.clone();
            for (k, d) in dividend.coefficients.iter().enumerate() {
                co[sh + k] = &co[sh + k] - d * &c;
            }
            n = Self::new(&co);
        }
        (Self::new(&q), n)
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.is_zero() || factor.is_zero() {
            return Self::zero();
        }
        let mut c = vec![FieldElement::zero(); self.coeff_len() + factor.coeff_len() - 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] = &c[i + j] + a * b;
            }
        }
        Self::new(&c)
    }
    /// p(x) = even(x^2) + x * odd(x^2)
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let even: Vec<_> = self.coefficients.iter().step_by(2).cloned().collect();
        let odd: Vec<_> = self
            .coefficients
            .iter()
            .skip(1)
            .step_by(2)
            .cloned()
            .collect();
        (Self::new(&even), Self::new(&odd))
    }
    fn addp(&self, o: &Self) -> Self {
        let (mut a, b) = Self::pad_with_zero_coefficients(self, o);
        for (x, y) in a.coefficients.iter_mut().zip(&b.coefficients) {
            *x = &*x + y;
        }
        Self::new(&a.coefficients)
    }
    fn negp(&self) -> Self {
        let c: Vec<_> = self.coefficients.iter().map(|x| -x).collect();
        Self::new(&c)
    }
    fn subp(&self, o: &Self) -> Self {
        self.addp(&o.negp())
    }
}

pub fn compose<F: IsField>(
    poly_1: &Polynomial<FieldElement<F>>,
    poly_2: &Polynomial<FieldElement<F>>,
) -> Polynomial<FieldElement<F>> {
    let mut r = Polynomial::zero();
    for c in poly_1.coefficients.iter().rev() {
        r = r.mul_with_ref(poly_2).addp(&Polynomial::new(&[c.clone()]));
    }
    r
}

macro_rules! pops {
    ($tr:ident, $f:ident, $g:ident) => {
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, o: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
                self.$g(o)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, o: Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
                self.$g(&o)
            }
        }
        impl<F: IsField> $tr<&Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, o: &Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
                self.$g(o)
            }
        }
        impl<F: IsField> $tr<Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, o: Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
                self.$g(&o)
            }
        }
    };
}
pops!(Add, add, addp);
pops!(Sub, sub, subp);
pops!(Mul, mul, mul_with_ref);

impl<F: IsField> Div<Polynomial<FieldElement<F>>> for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn div(self, o: Polynomial<FieldElement<F>>) -> Polynomial<FieldElement<F>> {
        self.div_with_ref(&o)
    }
}
impl<F: IsField> Neg for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        self.negp()
    }
}
impl<F: IsField> Neg for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        self.negp()
    }
}
impl<F: IsField> std::iter::Sum for Polynomial<FieldElement<F>> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}

// polynomial (+,-,*) scalar, in every reference combination
macro_rules! sops {
    ($([$p:ty, $e:ty]),*) => {$(
        impl<F: IsField> Add<$e> for $p {
            type Output = Polynomial<FieldElement<F>>;
            fn add(self, o: $e) -> Self::Output {
                self.addp(&Polynomial::new(&[o.clone()]))
            }
        }
        impl<F: IsField> Sub<$e> for $p {
            type Output = Polynomial<FieldElement<F>>;
            fn sub(self, o: $e) -> Self::Output {
                self.subp(&Polynomial::new(&[o.clone()]))
            }
        }
        impl<F: IsField> Mul<$e> for $p {
            type Output = Polynomial<FieldElement<F>>;
            fn mul(self, o: $e) -> Self::Output {
                self.scale_coeffs(&o.clone())
            }
        }
        impl<F: IsField> Add<$p> for $e {
            type Output = Polynomial<FieldElement<F>>;
            fn add(self, o: $p) -> Self::Output {
                o.addp(&Polynomial::new(&[self.clone()]))
            }
        }
        impl<F: IsField> Sub<$p> for $e {
            type Output = Polynomial<FieldElement<F>>;
            fn sub(self, o: $p) -> Self::Output {
                Polynomial::new(&[self.clone()]).subp(&o)
            }
        }
        impl<F: IsField> Mul<$p> for $e {
            type Output = Polynomial<FieldElement<F>>;
            fn mul(self, o: $p) -> Self::Output {
                o.scale_coeffs(&self.clone())
            }
        }
    )*};
}
sops!(
    [Polynomial<FieldElement<F>>, FieldElement<F>],
    [Polynomial<FieldElement<F>>, &FieldElement<F>],
    [&Polynomial<FieldElement<F>>, FieldElement<F>],
    [&Polynomial<FieldElement<F>>, &FieldElement<F>]
);
