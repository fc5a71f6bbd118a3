//! Stand-in for bcrypt (not in the offline registry): the same API and the same observable
//! contract (salted, verify accepts exactly the hashed password, malformed hashes are
//! errors), without the cryptography.
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::{BuildHasher, Hasher};

pub const DEFAULT_COST: u32 = 12;

#[derive(Debug)]
pub enum BcryptError {
    InvalidHash(String),
    InvalidPrefix(String),
}
impl fmt::Display for BcryptError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            BcryptError::InvalidHash(h) => write!(f, "Invalid hash: {h}"),
            BcryptError::InvalidPrefix(h) => write!(f, "Invalid Prefix: {h}"),
        }
    }
}
impl std::error::Error for BcryptError {}

fn digest(password: &[u8], salt: u64) -> String {
    let mut out = String::new();
    for lane in 0..3u64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ salt.rotate_left(lane as u32 * 7) ^ lane;
        for &b in password {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h ^= password.len() as u64;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        out.push_str(&format!("{h:016x}"));
    }
    out
}

pub fn hash<P: AsRef<[u8]>>(password: P, cost: u32) -> Result<String, BcryptError> {
    let salt = RandomState::new().build_hasher().finish();
    Ok(format!("$2b${cost:02}${salt:016x}{}", digest(password.as_ref(), salt)))
}

pub fn verify<P: AsRef<[u8]>>(password: P, hash: &str) -> Result<bool, BcryptError> {
    let bad = || BcryptError::InvalidHash(hash.to_string());
    let parts: Vec<&str> = hash.split('$').collect();
    if parts.len() != 4 || !parts[0].is_empty() {
        return Err(bad());
    }
    if parts[1] != "2b" {
        return Err(BcryptError::InvalidPrefix(parts[1].to_string()));
    }
    if parts[3].len() != 64 || !parts[3].is_ascii() {
        return Err(bad());
    }
    let salt = u64::from_str_radix(&parts[3][..16], 16).map_err(|_| bad())?;
    Ok(digest(password.as_ref(), salt) == parts[3][16..])
}
