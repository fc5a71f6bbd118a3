//! Stand-in for openssl (needs a C build of OpenSSL): a key pair is text
//! ("-----BEGIN STANDIN PRIVATE <id> <passphrase>" / "-----BEGIN STANDIN PUBLIC <id>"), and
//! what the public key of an id encrypts only the private key of that id decrypts.
pub mod error {
    #[derive(Debug, Clone)]
    pub struct ErrorStack(pub String);
    impl std::fmt::Display for ErrorStack {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ErrorStack {}
}
pub mod rsa {
    use super::error::ErrorStack;
    use std::marker::PhantomData;
    pub struct Public;
    pub struct Private;
    #[derive(Clone, Copy, Debug)]
    pub struct Padding;
    impl Padding {
        pub const PKCS1: Padding = Padding;
    }
    pub struct Rsa<T>(u64, PhantomData<T>);
    const SIZE: usize = 256;
    fn err<T>(m: &str) -> Result<T, ErrorStack> {
        Err(ErrorStack(m.to_string()))
    }
    fn words(pem: &[u8]) -> Vec<&str> {
        std::str::from_utf8(pem).unwrap_or("").split_whitespace().collect()
    }
    fn pad(id: u64, i: usize) -> u8 {
        (id.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 % 64) >> 11) as u8
    }
    impl<T> Rsa<T> {
        pub fn size(&self) -> u32 {
            SIZE as u32
        }
        pub fn public_encrypt(&self, from: &[u8], to: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> {
            if from.len() > SIZE - 11 || to.len() < SIZE {
                return err("data too large for key size");
            }
            let mut m = vec![0u8; SIZE];
            m[0..8].copy_from_slice(&self.0.to_le_bytes());
            m[8] = from.len() as u8;
            m[11..11 + from.len()].copy_from_slice(from);
            for (i, b) in m.iter().enumerate() {
                to[i] = b ^ pad(self.0, i);
            }
            Ok(SIZE)
        }
    }
    impl Rsa<Public> {
        pub fn public_key_from_pem(pem: &[u8]) -> Result<Self, ErrorStack> {
            match words(pem).as_slice() {
                ["-----BEGIN", "STANDIN", "PUBLIC", id] if id.parse::<u64>().is_ok() => Ok(Rsa(id.parse().unwrap(), PhantomData)),
                _ => err("no start line"),
            }
        }
    }
    impl Rsa<Private> {
        pub fn private_key_from_pem_passphrase(pem: &[u8], passphrase: &[u8]) -> Result<Self, ErrorStack> {
            match words(pem).as_slice() {
                ["-----BEGIN", "STANDIN", "PRIVATE", id, pass] if id.parse::<u64>().is_ok() => {
                    if pass.as_bytes() != passphrase {
                        return err("bad decrypt");
                    }
                    Ok(Rsa(id.parse().unwrap(), PhantomData))
                }
                _ => err("no start line"),
            }
        }
        pub fn private_decrypt(&self, from: &[u8], to: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> {
            if from.len() != SIZE || to.len() < SIZE {
                return err("bad length");
            }
            let m: Vec<u8> = from.iter().enumerate().map(|(i, b)| b ^ pad(self.0, i)).collect();
            if m[0..8] != self.0.to_le_bytes() {
                return err("padding check failed");
            }
            let n = m[8] as usize;
            to[..n].copy_from_slice(&m[11..11 + n]);
            Ok(n)
        }
    }
}
