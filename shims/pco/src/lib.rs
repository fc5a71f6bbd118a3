//! Stand-in for pco (not in the offline registry): a lossless framing of number vectors that
//! rejects damaged input; nothing is compressed.
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod errors {
    #[derive(Debug, Clone)]
    pub struct PcoError(pub String);
    impl std::fmt::Display for PcoError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for PcoError {}
    pub type PcoResult<T> = Result<T, PcoError>;
}
pub mod data_types {
    pub trait Number: Copy {
        const TAG: u8;
        fn bits(self) -> u64;
        fn of(b: u64) -> Self;
    }
    macro_rules! n { ($t:ty, $g:expr, $b:expr, $o:expr) => { impl Number for $t { const TAG: u8 = $g; fn bits(self) -> u64 { let f: fn($t) -> u64 = $b; f(self) } fn of(x: u64) -> Self { let f: fn(u64) -> $t = $o; f(x) } } } }
    n!(f64, 1, f64::to_bits, f64::from_bits);
    n!(i64, 2, |v| v as u64, |v| v as i64);
    n!(u64, 3, |v| v, |v| v);
}
pub mod standalone {
    use crate::data_types::Number;
    use crate::errors::{PcoError, PcoResult};
    fn sum(b: &[u8]) -> u32 {
        b.iter().fold(0x811c9dc5, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193))
    }
    pub fn simpler_compress<T: Number>(nums: &[T], _level: usize) -> PcoResult<Vec<u8>> {
        let mut out = b"pco!".to_vec();
        out.push(T::TAG);
        out.extend_from_slice(&(nums.len() as u32).to_le_bytes());
        for n in nums {
            out.extend_from_slice(&n.bits().to_le_bytes());
        }
        let s = sum(&out);
        out.extend_from_slice(&s.to_le_bytes());
        Ok(out)
    }
    pub fn simple_decompress<T: Number>(src: &[u8]) -> PcoResult<Vec<T>> {
        let bad = |m: &str| PcoError(format!("corruption: {m}"));
        if src.len() < 13 || &src[..4] != b"pco!" || src[4] != T::TAG {
            return Err(bad("header"));
        }
        let n = u32::from_le_bytes(src[5..9].try_into().unwrap()) as usize;
        let end = n.checked_mul(8).and_then(|x| x.checked_add(9)).ok_or_else(|| bad("length"))?;
        if src.len() < end + 4 || sum(&src[..end]).to_le_bytes() != src[end..end + 4] {
            return Err(bad("body"));
        }
        Ok(src[9..end].chunks_exact(8).map(|c| T::of(u64::from_le_bytes(c.try_into().unwrap()))).collect())
    }
}
