//! Stand-in for bzip2 (a C library): the write-side encoder and decoder over flate2's gzip.
#[derive(Copy, Clone, Debug)]
pub struct Compression(u32);
impl Compression {
    pub fn new(l: u32) -> Self {
        Self(l)
    }
    pub fn fast() -> Self {
        Self(1)
    }
    pub fn best() -> Self {
        Self(9)
    }
}
impl Default for Compression {
    fn default() -> Self {
        Self(6)
    }
}
pub mod write {
    use std::io::{self, Write};
    pub struct BzEncoder<W: Write>(flate2::write::GzEncoder<W>);
    impl<W: Write> BzEncoder<W> {
        pub fn new(w: W, c: super::Compression) -> Self {
            Self(flate2::write::GzEncoder::new(w, flate2::Compression::new(c.0.min(9))))
        }
        pub fn finish(self) -> io::Result<W> {
            self.0.finish()
        }
    }
    impl<W: Write> Write for BzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.flush()
        }
    }
    pub struct BzDecoder<W: Write>(flate2::write::GzDecoder<W>);
    impl<W: Write> BzDecoder<W> {
        pub fn new(w: W) -> Self {
            Self(flate2::write::GzDecoder::new(w))
        }
        pub fn finish(self) -> io::Result<W> {
            self.0.finish()
        }
    }
    impl<W: Write> Write for BzDecoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.flush()
        }
    }
}
