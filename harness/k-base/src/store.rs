//! An in-memory, fault-injecting string storage that survives "process restarts".
use std::collections::HashMap;
use std::sync::Arc;
use parking_lot::Mutex;

#[derive(Default, Debug)]
pub struct Backing {
  pub map: HashMap<String, String>,
  pub fail_set: bool,
  pub fail_get: bool,
  pub fail_delete: bool,
  pub sets: u64,
  pub deletes: u64,
}

#[derive(Clone, Default, Debug)]
pub struct Mem(pub Arc<Mutex<Backing>>);

impl bd_key_value::Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    let mut b = self.0.lock();
    b.sets += 1;
    if b.fail_set {
      anyhow::bail!("injected set failure");
    }
    b.map.insert(key.to_string(), value.to_string());
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    let b = self.0.lock();
    if b.fail_get {
      anyhow::bail!("injected get failure");
    }
    Ok(b.map.get(key).cloned())
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    let mut b = self.0.lock();
    b.deletes += 1;
    if b.fail_delete {
      anyhow::bail!("injected delete failure");
    }
    b.map.remove(key);
    Ok(())
  }
}

impl Mem {
  pub fn store(&self) -> Arc<bd_key_value::Store> {
    Arc::new(bd_key_value::Store::new(Box::new(self.clone())))
  }
}

/// How strings are laid down in storage: little-endian u64 length, then the bytes, in base64.
pub fn encode_string(s: &str) -> Vec<u8> {
  let mut v = (s.len() as u64).to_le_bytes().to_vec();
  v.extend_from_slice(s.as_bytes());
  v
}

pub fn b64(bytes: &[u8]) -> String {
  const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut out = String::new();
  for c in bytes.chunks(3) {
    let n = (u32::from(c[0]) << 16)
      | (u32::from(*c.get(1).unwrap_or(&0)) << 8)
      | u32::from(*c.get(2).unwrap_or(&0));
    out.push(A[(n >> 18) as usize & 63] as char);
    out.push(A[(n >> 12) as usize & 63] as char);
    out.push(if c.len() > 1 { A[(n >> 6) as usize & 63] as char } else { '=' });
    out.push(if c.len() > 2 { A[n as usize & 63] as char } else { '=' });
  }
  out
}

/// Strict standard base64 (padded, canonical); None when malformed.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
  let b = s.as_bytes();
  if b.len() % 4 != 0 {
    return None;
  }
  let mut out = vec![];
  let val = |c: u8| -> Option<u32> {
    Some(match c {
      b'A' ..= b'Z' => u32::from(c - b'A'),
      b'a' ..= b'z' => u32::from(c - b'a') + 26,
      b'0' ..= b'9' => u32::from(c - b'0') + 52,
      b'+' => 62,
      b'/' => 63,
      _ => return None,
    })
  };
  let n = b.len() / 4;
  for (i, c) in b.chunks(4).enumerate() {
    let last = i + 1 == n;
    let pad = if last && c[3] == b'=' {
      if c[2] == b'=' { 2 } else { 1 }
    } else {
      0
    };
    let mut v = 0u32;
    for (j, &ch) in c.iter().enumerate() {
      v = (v << 6) | if j >= 4 - pad { 0 } else { val(ch)? };
    }
    let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
    // Bits that do not make up a whole byte must be zero.
    if bytes[3 - pad ..].iter().any(|&x| x != 0) {
      return None;
    }
    out.extend_from_slice(&bytes[.. 3 - pad]);
  }
  Some(out)
}
