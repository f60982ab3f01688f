//! Raw Snappy blocks: a full decoder, and an encoder that finds plain repetitions.

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(&'static str);
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "snappy: {}", self.0)
  }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod raw {
  use super::{Error, Result};

  #[derive(Default, Debug, Clone)]
  pub struct Encoder(());
  impl Encoder {
    pub fn new() -> Self {
      Self(())
    }
    pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
      let mut out = vec![];
      let mut n = u32::try_from(input.len()).map_err(|_| Error("too big"))?;
      while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
      }
      out.push(n as u8);
      let literal = |out: &mut Vec<u8>, bytes: &[u8]| {
        for c in bytes.chunks(60) {
          out.push((c.len() as u8 - 1) << 2);
          out.extend_from_slice(c);
        }
      };
      let (mut from, mut i) = (0, 0);
      while i < input.len() {
        // A run of one byte, as copies at offset 1.
        let run = input[i ..].iter().take_while(|b| **b == input[i]).count();
        if run > 8 {
          literal(&mut out, &input[from ..= i]);
          let mut left = run - 1;
          while left > 0 {
            let n = left.min(64);
            out.push(((n as u8 - 1) << 2) | 2);
            out.extend_from_slice(&[1, 0]);
            left -= n;
          }
          i += run;
          from = i;
        } else {
          i += run;
        }
      }
      literal(&mut out, &input[from ..]);
      Ok(out)
    }
  }

  #[derive(Default, Debug, Clone)]
  pub struct Decoder(());
  impl Decoder {
    pub fn new() -> Self {
      Self(())
    }
    pub fn decompress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>> {
      if input.is_empty() {
        return Err(Error("empty input"));
      }
      let (mut want, mut i) = (0u64, 0);
      loop {
        let b = *input.get(i).ok_or(Error("header"))?;
        if i > 4 {
          return Err(Error("header"));
        }
        want |= u64::from(b & 0x7f) << (7 * i);
        i += 1;
        if b & 0x80 == 0 {
          break;
        }
      }
      if want > u64::from(u32::MAX) {
        return Err(Error("too big"));
      }
      let want = want as usize;
      // The real decoder allocates what is claimed at once; a stand-in need not.
      let mut out: Vec<u8> = Vec::with_capacity(want.min(1 << 16));
      let byte = |i: usize| input.get(i).copied().map(usize::from).ok_or(Error("truncated"));
      while i < input.len() {
        let tag = byte(i)?;
        i += 1;
        let (len, offset) = match tag & 3 {
          0 => {
            let mut len = tag >> 2;
            if len >= 60 {
              let n = len - 59;
              len = 0;
              for k in 0 .. n {
                len |= byte(i + k)? << (8 * k);
              }
              i += n;
            }
            let len = len + 1;
            let bytes = input.get(i .. i + len).ok_or(Error("literal"))?;
            if out.len() + len > want {
              return Err(Error("literal"));
            }
            out.extend_from_slice(bytes);
            i += len;
            continue;
          },
          1 => {
            let r = (4 + (tag >> 2 & 7), (tag >> 5) << 8 | byte(i)?);
            i += 1;
            r
          },
          2 => {
            let r = (1 + (tag >> 2), byte(i)? | byte(i + 1)? << 8);
            i += 2;
            r
          },
          _ => {
            let r = (1 + (tag >> 2), byte(i)? | byte(i + 1)? << 8 | byte(i + 2)? << 16 | byte(i + 3)? << 24);
            i += 4;
            r
          },
        };
        if offset == 0 || offset > out.len() || out.len() + len > want {
          return Err(Error("copy"));
        }
        for _ in 0 .. len {
          out.push(out[out.len() - offset]);
        }
      }
      if out.len() == want {
        Ok(out)
      } else {
        Err(Error("length"))
      }
    }
  }
}
