use crate::field::errors::FieldError;
use thiserror::Error;
#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum FFTError {
    #[error("Could not calculate root of unity: {0}")]
    RootOfUnityError(u64),
    #[error("Input length is {0}, which is not a power of two")]
    InputError(usize),
    #[error("Order should be less than or equal to 63, but is {0}")]
    OrderError(u64),
    #[error("The domain is too large")]
    DomainSizeError(usize),
}
impl From<FieldError> for FFTError {
    fn from(error: FieldError) -> Self {
        match error {
            FieldError::DivisionByZero => panic!("Can't divide by zero during FFT"),
            FieldError::RootOfUnityError(order) => FFTError::RootOfUnityError(order),
        }
    }
}
