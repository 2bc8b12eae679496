//! embedded bytes decode back to the original bytes (real encoder, independent decoder)
use vx_harness::*;
mod internal {
  pub use bumpalo::{Bump, collections::String as BumpString};
}
mod base64 {
  include!("/repo/parser/src/base64.rs");
}

fn decode(s: &str) -> Result<Vec<u8>, String> {
  let b = s.as_bytes();
  if b.len() % 4 != 0 {
    return Err("length not a multiple of 4".into());
  }
  let val = |c: u8| -> Result<u32, String> {
    Ok(match c {
      b'A'..=b'Z' => (c - b'A') as u32,
      b'a'..=b'z' => (c - b'a') as u32 + 26,
      b'0'..=b'9' => (c - b'0') as u32 + 52,
      b'+' => 62,
      b'/' => 63,
      _ => return Err(format!("bad character {}", c as char)),
    })
  };
  let mut out = vec![];
  for (i, ch) in b.chunks(4).enumerate() {
    let last = i == b.len() / 4 - 1;
    let pad = if ch[2] == b'=' && ch[3] == b'=' { 2 } else if ch[3] == b'=' { 1 } else { 0 };
    if pad > 0 && !last {
      return Err("padding before the end".into());
    }
    let mut n = 0u32;
    for (k, c) in ch.iter().enumerate() {
      n = n << 6 | if k >= 4 - pad { 0 } else { val(*c)? };
    }
    let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
    out.extend_from_slice(&bytes[..3 - pad]);
    if bytes[3 - pad..].iter().any(|x| *x != 0) {
      return Err("non-zero padding bits".into());
    }
  }
  Ok(out)
}

fn main() {
  run("base64", |r| {
    let check = |r: &mut R, class: &str, bytes: &[u8]| {
      r.check("base64-roundtrip", class, format!("{bytes:?}"), || {
        let bump = internal::Bump::new();
        let e = base64::encode_in(bytes, &bump);
        if e.len() != bytes.len().div_ceil(3) * 4 {
          return Err(format!("length {} for {} bytes", e.len(), bytes.len()));
        }
        let d = decode(&e)?;
        if d == bytes { Ok(()) } else { Err(format!("{e} decodes to {d:?}")) }
      });
    };
    check(r, "len 0", &[]);
    for a in 0..=255u8 {
      check(r, "len 1 (all)", &[a]);
    }
    for a in 0..=255u8 {
      for b in 0..=255u8 {
        check(r, "len 2 (all)", &[a, b]);
      }
    }
    let n = r.tier(40000, 1500000);
    for _ in 0..n {
      let len = 3 + if r.rng.chance(1, 200) { r.rng.below(9000) } else { r.rng.below(40) };
      let v: Vec<u8> = (0..len).map(|_| r.rng.next() as u8).collect();
      check(r, "random", &v);
    }
  })
}
