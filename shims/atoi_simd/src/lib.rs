//! Stand-in for atoi_simd 0.16 (not in the offline registry): the same parsing functions
//! without SIMD.  `parse`: the whole slice is one decimal integer (optional '-' for signed
//! types); `parse_pos`: digits only; `parse_until_invalid`: the longest such prefix.
use std::fmt;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AtoiSimdError<'a> {
    Empty,
    Size(usize, &'a [u8]),
    Overflow(u64, &'a [u8]),
    Invalid64(u64, usize, &'a [u8]),
}
impl fmt::Display for AtoiSimdError<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for AtoiSimdError<'_> {}
pub trait Parse: Sized {
    const MIN: i128;
    const MAX: i128;
    fn of(v: i128) -> Self;
}
macro_rules! imp { ($($t:ty),*) => { $(impl Parse for $t {
    const MIN: i128 = <$t>::MIN as i128;
    const MAX: i128 = <$t>::MAX as i128;
    fn of(v: i128) -> Self { v as $t }
})* } }
imp!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

fn prefix<T: Parse>(s: &[u8], neg_ok: bool) -> Result<(T, usize), AtoiSimdError<'_>> {
    if s.is_empty() {
        return Err(AtoiSimdError::Empty);
    }
    let neg = neg_ok && s[0] == b'-' && T::MIN < 0;
    let start = neg as usize;
    let mut i = start;
    let mut v: i128 = 0;
    while i < s.len() && s[i].is_ascii_digit() {
        v = v * 10 + (s[i] - b'0') as i128;
        if v > 1 << 70 {
            return Err(AtoiSimdError::Overflow(u64::MAX, s));
        }
        i += 1;
    }
    if i == start {
        return Err(AtoiSimdError::Invalid64(0, i, s));
    }
    if neg {
        v = -v;
    }
    if v < T::MIN || v > T::MAX {
        return Err(AtoiSimdError::Overflow(u64::MAX, s));
    }
    Ok((T::of(v), i))
}
pub fn parse<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError<'_>> {
    let (v, n) = prefix(s, true)?;
    if n == s.len() { Ok(v) } else { Err(AtoiSimdError::Invalid64(0, n, s)) }
}
pub fn parse_pos<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError<'_>> {
    let (v, n) = prefix(s, false)?;
    if n == s.len() { Ok(v) } else { Err(AtoiSimdError::Invalid64(0, n, s)) }
}
pub fn parse_until_invalid<T: Parse>(s: &[u8]) -> Result<(T, usize), AtoiSimdError<'_>> {
    prefix(s, true)
}
pub fn parse_until_invalid_pos<T: Parse>(s: &[u8]) -> Result<(T, usize), AtoiSimdError<'_>> {
    prefix(s, false)
}
