use thiserror::Error;

#[derive(Debug, Error, PartialEq, Eq, Clone, Copy)]
pub enum ByteConversionError {
    #[error("from_be_bytes failed")]
    FromBEBytesError,
    #[error("from_le_bytes failed")]
    FromLEBytesError,
    #[error("Invalid value")]
    InvalidValue,
}

#[derive(Debug, Error, PartialEq, Eq, Clone, Copy)]
pub enum CreationError {
    #[error("Invalid hex string")]
    InvalidHexString,
    #[error("Empty string")]
    EmptyString,
}

#[derive(Debug, Error, PartialEq, Eq, Clone, Copy)]
pub enum DeserializationError {
    #[error("Invalid amount of bytes")]
    InvalidAmountOfBytes,
    #[error("Error when creating a field from bytes")]
    FieldFromBytesError,
    #[error("Pointer size error")]
    PointerSizeError,
    #[error("Invalid value")]
    InvalidValue,
}

impl From<ByteConversionError> for DeserializationError {
    fn from(error: ByteConversionError) -> Self {
        match error {
            ByteConversionError::FromBEBytesError => DeserializationError::FieldFromBytesError,
            ByteConversionError::FromLEBytesError => DeserializationError::FieldFromBytesError,
            ByteConversionError::InvalidValue => DeserializationError::InvalidValue,
        }
    }
}
