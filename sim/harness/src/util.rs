//! Stateless hashing for every random decision, hex/hash helpers, tiny RLP helpers.
use candid::Nat;
use num_bigint::BigUint;

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn h2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b.wrapping_add(0x1234_5678_9abc_def1)))
}
pub fn h3(a: u64, b: u64, c: u64) -> u64 {
    h2(h2(a, b), c)
}
pub fn hs(seed: u64, s: &str, n: u64) -> u64 {
    let mut x = seed;
    for b in s.as_bytes() {
        x = mix(x ^ *b as u64);
    }
    h2(x, n)
}

/// A small sequential generator, used only to build plans.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    ic_sha3::Keccak256::hash(b)
}
pub fn hex0x(b: &[u8]) -> String {
    format!("0x{}", hex::encode(b))
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    hex::decode(s.strip_prefix("0x").unwrap_or(s)).ok()
}
/// EIP-55 form of an address.
pub fn checksum(a: &[u8; 20]) -> String {
    let lower = hex::encode(a);
    let h = hex::encode(keccak(lower.as_bytes()));
    let mut out = String::from("0x");
    for (c, d) in lower.chars().zip(h.chars()) {
        if c.is_ascii_alphabetic() && d.to_digit(16).unwrap() >= 8 {
            out.push(c.to_ascii_uppercase());
        } else {
            out.push(c);
        }
    }
    out
}
pub fn parse_addr(s: &str) -> Option<[u8; 20]> {
    if !s.starts_with("0x") {
        return None;
    }
    let b = hex::decode(&s[2..]).ok()?;
    <[u8; 20]>::try_from(b.as_slice()).ok()
}
pub fn word(a: &[u8; 20]) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(a);
    w
}
pub fn be32(n: &BigUint) -> [u8; 32] {
    let b = n.to_bytes_be();
    let mut w = [0u8; 32];
    let b = if n.bits() == 0 { vec![] } else { b };
    w[32 - b.len()..].copy_from_slice(&b);
    w
}
pub fn big(n: u128) -> BigUint {
    BigUint::from(n)
}
pub fn nat(n: &BigUint) -> Nat {
    Nat::from(n.clone())
}
pub fn nat64(n: &Nat) -> u64 {
    use num_traits::ToPrimitive;
    n.0.to_u64().unwrap_or(u64::MAX)
}
pub fn bigs(s: &str) -> BigUint {
    s.parse::<BigUint>().unwrap_or_default()
}
/// Bit-length-varied amounts, up to `bits` bits.
pub fn wild(seed: u64, bits: u64) -> BigUint {
    // One value in five has the full length.
    let n = if h2(seed, 78) % 5 == 0 { bits } else { 1 + h2(seed, 77) % bits };
    let mut v = BigUint::from(1u8);
    for i in 1..n {
        v = v * 2u8 + BigUint::from((h2(seed, i) & 1) as u8);
    }
    v
}
