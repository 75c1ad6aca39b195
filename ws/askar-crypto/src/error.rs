use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorKind {
    Custom,
    Encryption,
    ExceededBuffer,
    Invalid,
    InvalidKeyData,
    InvalidNonce,
    MissingSecretKey,
    Unexpected,
    Usage,
    Unsupported,
}

#[derive(Debug)]
pub struct Error {
    pub kind: ErrorKind,
    pub message: &'static str,
}

impl Error {
    pub fn new(kind: ErrorKind, message: &'static str) -> Self {
        Error { kind, message }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.message)
    }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

pub(crate) fn err<T>(kind: ErrorKind, message: &'static str) -> Result<T> {
    Err(Error::new(kind, message))
}
