use std::fmt;
use std::str::FromStr;
use std::sync::Arc;

use crate::error::{DataFusionError, Result};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FileCompressionType(u8);
#[allow(non_upper_case_globals)]
impl FileCompressionType {
    pub const GZIP: Self = Self(0);
    pub const BZIP2: Self = Self(1);
    pub const XZ: Self = Self(2);
    pub const ZSTD: Self = Self(3);
    pub const UNCOMPRESSED: Self = Self(4);
}
impl FromStr for FileCompressionType {
    type Err = DataFusionError;
    fn from_str(s: &str) -> Result<Self> {
        match s.to_uppercase().as_str() {
            "GZIP" | "GZ" => Ok(Self::GZIP),
            "BZIP2" | "BZ2" => Ok(Self::BZIP2),
            "XZ" => Ok(Self::XZ),
            "ZST" | "ZSTD" => Ok(Self::ZSTD),
            "" | "UNCOMPRESSED" => Ok(Self::UNCOMPRESSED),
            _ => Err(DataFusionError::NotImplemented(format!("Unknown FileCompressionType: {s}"))),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
#[allow(clippy::upper_case_acronyms)]
pub enum FileType {
    ARROW,
    AVRO,
    PARQUET,
    CSV,
    JSON,
}
impl FromStr for FileType {
    type Err = DataFusionError;
    fn from_str(s: &str) -> Result<Self> {
        match s.to_uppercase().as_str() {
            "ARROW" => Ok(Self::ARROW),
            "AVRO" => Ok(Self::AVRO),
            "PARQUET" => Ok(Self::PARQUET),
            "CSV" => Ok(Self::CSV),
            "JSON" | "NDJSON" => Ok(Self::JSON),
            _ => Err(DataFusionError::NotImplemented(format!("Unknown FileType: {s}"))),
        }
    }
}
impl fmt::Display for FileType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
pub trait FileFormat: Send + Sync + fmt::Debug {}
#[derive(Debug, Default)]
pub struct AvroFormat;
#[derive(Debug, Default)]
pub struct ParquetFormat;
#[derive(Debug, Default)]
pub struct CsvFormat;
#[derive(Debug, Default)]
pub struct JsonFormat;
impl FileFormat for AvroFormat {}
impl FileFormat for ParquetFormat {}
impl FileFormat for CsvFormat {}
impl FileFormat for JsonFormat {}
impl CsvFormat {
    pub fn with_has_header(self, _: bool) -> Self {
        self
    }
    pub fn with_delimiter(self, _: u8) -> Self {
        self
    }
    pub fn with_file_compression_type(self, _: FileCompressionType) -> Self {
        self
    }
}
impl JsonFormat {
    pub fn with_file_compression_type(self, _: FileCompressionType) -> Self {
        self
    }
}
#[derive(Debug, Clone)]
pub struct ListingOptions {
    pub format: Arc<dyn FileFormat>,
    pub target_partitions: usize,
}
impl ListingOptions {
    pub fn new(format: Arc<dyn FileFormat>) -> Self {
        Self { format, target_partitions: 1 }
    }
    pub fn with_target_partitions(mut self, n: usize) -> Self {
        self.target_partitions = n;
        self
    }
}
