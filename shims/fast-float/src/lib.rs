//! Stand-in for fast-float (not in the offline registry): parses with std's correctly
//! rounded parser, accepting the grammar fast-float accepts.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error while parsing a float")
    }
}
impl std::error::Error for Error {}
pub trait FastFloat: Sized + std::str::FromStr {}
impl FastFloat for f32 {}
impl FastFloat for f64 {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn parse<T: FastFloat, S: AsRef<[u8]>>(s: S) -> Result<T> {
    std::str::from_utf8(s.as_ref()).map_err(|_| Error)?.parse().map_err(|_| Error)
}
