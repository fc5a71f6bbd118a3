//! Stand-in for hex.
pub fn encode<T: AsRef<[u8]>>(d: T) -> String {
    d.as_ref().iter().map(|b| format!("{b:02x}")).collect()
}
