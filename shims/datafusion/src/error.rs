use std::error::Error;
use std::fmt::{Display, Formatter};

use arrow::error::ArrowError;

pub type Result<T, E = DataFusionError> = std::result::Result<T, E>;
pub type GenericError = Box<dyn Error + Send + Sync>;

#[derive(Debug)]
pub enum DataFusionError {
    ArrowError(ArrowError),
    IoError(std::io::Error),
    SQL(String),
    NotImplemented(String),
    Internal(String),
    Plan(String),
    SchemaError(String),
    Execution(String),
    ResourcesExhausted(String),
    External(GenericError),
    Context(String, Box<DataFusionError>),
}

impl Display for DataFusionError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::ArrowError(e) => write!(f, "Arrow error: {e}"),
            Self::IoError(e) => write!(f, "IO error: {e}"),
            Self::SQL(e) => write!(f, "SQL error: {e}"),
            Self::NotImplemented(e) => write!(f, "This feature is not implemented: {e}"),
            Self::Internal(e) => write!(f, "Internal error: {e}"),
            Self::Plan(e) => write!(f, "Error during planning: {e}"),
            Self::SchemaError(e) => write!(f, "Schema error: {e}"),
            Self::Execution(e) => write!(f, "Execution error: {e}"),
            Self::ResourcesExhausted(e) => write!(f, "Resources exhausted: {e}"),
            Self::External(e) => write!(f, "External error: {e}"),
            Self::Context(m, e) => write!(f, "{m}\ncaused by\n{e}"),
        }
    }
}

impl Error for DataFusionError {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        match self {
            Self::ArrowError(e) => Some(e),
            Self::IoError(e) => Some(e),
            Self::External(e) => Some(e.as_ref()),
            Self::Context(_, e) => Some(e.as_ref()),
            _ => None,
        }
    }
}

impl From<ArrowError> for DataFusionError {
    fn from(e: ArrowError) -> Self {
        Self::ArrowError(e)
    }
}
impl From<std::io::Error> for DataFusionError {
    fn from(e: std::io::Error) -> Self {
        Self::IoError(e)
    }
}
impl From<GenericError> for DataFusionError {
    fn from(e: GenericError) -> Self {
        Self::External(e)
    }
}
impl From<DataFusionError> for ArrowError {
    fn from(e: DataFusionError) -> Self {
        match e {
            DataFusionError::ArrowError(e) => e,
            DataFusionError::External(e) => ArrowError::ExternalError(e),
            other => ArrowError::ExternalError(Box::new(other)),
        }
    }
}
impl From<DataFusionError> for std::io::Error {
    fn from(e: DataFusionError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}
impl DataFusionError {
    pub fn context(self, description: impl Into<String>) -> Self {
        Self::Context(description.into(), Box::new(self))
    }
}
