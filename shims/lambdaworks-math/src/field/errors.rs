use thiserror::Error;
#[derive(Debug, Error, Clone, PartialEq, Eq)]
pub enum FieldError {
    #[error("Division by zero")]
    DivisionByZero,
    #[error("Could not calculate {0} root of unity")]
    RootOfUnityError(u64),
}
