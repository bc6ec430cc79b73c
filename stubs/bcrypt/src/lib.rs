//! Stand-in for the crate that cannot be fetched here: an injective "hash".
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)]
pub enum BcryptError { InvalidHash(String) }
impl std::fmt::Display for BcryptError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bcrypt") } }
impl std::error::Error for BcryptError {}
pub fn hash<P: AsRef<[u8]>>(p: P, _cost: u32) -> Result<String, BcryptError> { Ok(format!("$2b${}", String::from_utf8_lossy(p.as_ref()))) }
pub fn verify<P: AsRef<[u8]>>(p: P, h: &str) -> Result<bool, BcryptError> {
    let h = h.strip_prefix("$2b$").ok_or_else(|| BcryptError::InvalidHash(h.to_string()))?;
    Ok(h.as_bytes() == p.as_ref())
}
