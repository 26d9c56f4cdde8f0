//! Model of pbkdf2: an uninterpreted function of (PRF, password, salt, rounds).
use digest::{FixedOutput, KeyInit, Update};
pub fn pbkdf2<PRF>(password: &[u8], salt: &[u8], rounds: u32, res: &mut [u8])
where PRF: KeyInit + Update + FixedOutput + Clone + Sync {
    let t = core::any::type_name::<PRF>();
    let mut name = String::from("pbkdf2");
    for part in t.split(|c| c == '<' || c == '>') {
        if part.is_empty() { continue; }
        name.push('-');
        name.push_str(&part.rsplit("::").next().unwrap_or("").to_ascii_lowercase());
    }
    let mut m = Vec::with_capacity(12 + password.len() + salt.len());
    m.extend_from_slice(&rounds.to_le_bytes());
    m.extend_from_slice(&(password.len() as u32).to_le_bytes());
    m.extend_from_slice(password);
    m.extend_from_slice(&(salt.len() as u32).to_le_bytes());
    m.extend_from_slice(salt);
    sx::uf(&name, &m, res)
}
