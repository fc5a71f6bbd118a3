//! Stand-in for integer-encoding: LEB128 varints, zigzag for signed integers.
pub trait VarInt: Sized + Copy {
    fn decode_var(src: &[u8]) -> Option<(Self, usize)>;
    fn encode_var(self, dst: &mut [u8]) -> usize;
    fn required_space(self) -> usize;
    fn encode_var_vec(self) -> Vec<u8> {
        let mut v = vec![0; self.required_space()];
        self.encode_var(&mut v);
        v
    }
}
impl VarInt for u64 {
    fn required_space(self) -> usize {
        ((64 - (self | 1).leading_zeros() as usize) + 6) / 7
    }
    fn decode_var(src: &[u8]) -> Option<(Self, usize)> {
        let mut v = 0u64;
        let mut shift = 0;
        for (i, b) in src.iter().enumerate() {
            if shift > 63 {
                return None;
            }
            v |= ((b & 0x7f) as u64) << shift;
            if b & 0x80 == 0 {
                return Some((v, i + 1));
            }
            shift += 7;
        }
        None
    }
    fn encode_var(self, dst: &mut [u8]) -> usize {
        assert!(dst.len() >= self.required_space());
        let (mut n, mut i) = (self, 0);
        while n >= 0x80 {
            dst[i] = 0x80 | (n as u8);
            i += 1;
            n >>= 7;
        }
        dst[i] = n as u8;
        i + 1
    }
}
macro_rules! u { ($($t:ty),*) => { $(impl VarInt for $t {
    fn required_space(self) -> usize { (self as u64).required_space() }
    fn decode_var(src: &[u8]) -> Option<(Self, usize)> { u64::decode_var(src).map(|(v, n)| (v as $t, n)) }
    fn encode_var(self, dst: &mut [u8]) -> usize { (self as u64).encode_var(dst) }
})* } }
u!(usize, u32, u16, u8);
macro_rules! i { ($($t:ty),*) => { $(impl VarInt for $t {
    fn required_space(self) -> usize { zig(self as i64).required_space() }
    fn decode_var(src: &[u8]) -> Option<(Self, usize)> { u64::decode_var(src).map(|(v, n)| (((v >> 1) as i64 ^ -((v & 1) as i64)) as $t, n)) }
    fn encode_var(self, dst: &mut [u8]) -> usize { zig(self as i64).encode_var(dst) }
})* } }
fn zig(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
i!(i64, isize, i32, i16, i8);
