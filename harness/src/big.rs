//! Exact decimal arithmetic on literals, independent of the standard library's parsing.
use std::cmp::Ordering;

/// A natural number, little-endian base 2^32, without leading zero limbs.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Nat(Vec<u32>);

impl Nat {
    pub fn small(n: u128) -> Nat {
        let mut v: Vec<u32> = (0..4).map(|i| (n >> (32 * i)) as u32).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut carry = u64::from(a);
        for l in &mut self.0 {
            let t = u64::from(*l) * u64::from(m) + carry;
            *l = t as u32;
            carry = t >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn digits(ds: &[u8]) -> Nat {
        let mut n = Nat::default();
        for c in ds.chunks(9) {
            let mut v = 0u32;
            for d in c {
                v = v * 10 + u32::from(*d - b'0');
            }
            n.mul_add(10u32.pow(c.len() as u32), v);
        }
        n
    }
    pub fn pow_mul(&mut self, base: u32, exp: usize) {
        for _ in 0..exp {
            self.mul_add(base, 0);
        }
    }
    pub fn mul_pow10(&mut self, mut exp: usize) {
        while exp >= 9 {
            self.mul_add(1_000_000_000, 0);
            exp -= 9;
        }
        self.pow_mul(10, exp);
    }
    pub fn shl(&mut self, n: usize) {
        if self.is_zero() {
            return;
        }
        let mut v = vec![0u32; n / 32];
        v.extend(&self.0);
        self.0 = v;
        self.mul_add(1 << (n % 32), 0);
    }
    pub fn decimal(&self) -> String {
        let mut n = self.0.clone();
        let mut parts = Vec::new();
        while !n.is_empty() {
            let mut r = 0u64;
            for l in n.iter_mut().rev() {
                let t = r << 32 | u64::from(*l);
                *l = (t / 1_000_000_000) as u32;
                r = t % 1_000_000_000;
            }
            while n.last() == Some(&0) {
                n.pop();
            }
            parts.push(r as u32);
        }
        let mut s = parts.last().map_or("0".into(), |p| p.to_string());
        for p in parts.iter().rev().skip(1) {
            s.push_str(&format!("{p:09}"));
        }
        s
    }
}
impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// A JSON number literal taken apart: sign, significant digits (no leading zeros; value is
/// digits * 10^exp), and whether it is written as a plain integer.
pub struct Lit {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i64,
    pub plain: bool,
}

/// Takes apart a literal that the grammar accepts.
pub fn literal(src: &[u8]) -> Lit {
    let (neg, rest) = match src.split_first() {
        Some((b'-', r)) => (true, r),
        _ => (false, src),
    };
    let cut = rest.iter().position(|b| *b == b'e' || *b == b'E');
    let (mant, e) = cut.map_or((rest, None), |i| (&rest[..i], Some(&rest[i + 1..])));
    let (int, frac) = mant.iter().position(|b| *b == b'.').map_or((mant, None), |i| (&mant[..i], Some(&mant[i + 1..])));
    let mut exp = 0i64;
    if let Some(e) = e {
        let (eneg, ds) = match e.split_first() {
            Some((b'-', d)) => (true, d),
            Some((b'+', d)) => (false, d),
            _ => (false, e),
        };
        for d in ds {
            exp = (exp * 10 + i64::from(*d - b'0')).min(1 << 40);
        }
        if eneg {
            exp = -exp;
        }
    }
    let mut digits: Vec<u8> = int.to_vec();
    if let Some(f) = frac {
        digits.extend(f);
        exp -= f.len() as i64;
    }
    let lead = digits.iter().take_while(|d| **d == b'0').count();
    digits.drain(..lead);
    while digits.last() == Some(&b'0') && !digits.is_empty() {
        digits.pop();
        exp += 1;
    }
    if digits.is_empty() {
        exp = 0;
    }
    Lit { neg, digits, exp, plain: e.is_none() && frac.is_none() }
}

/// The exact integer if the literal is plain and its magnitude fits u128.
pub fn integer(l: &Lit) -> Option<(bool, u128)> {
    if !l.plain {
        return None;
    }
    let mut n = 0u128;
    for d in &l.digits {
        n = n.checked_mul(10)?.checked_add(u128::from(*d - b'0'))?;
    }
    for _ in 0..l.exp {
        n = n.checked_mul(10)?;
    }
    Some((l.neg, n))
}

/// The literal's magnitude compared with m * 2^q.
fn cmp_binary(l: &Lit, m: u128, q: i32) -> Ordering {
    let mut ds = l.digits.clone();
    let mut exp = l.exp;
    // Midpoints have fewer than 800 significant digits; a non-zero tail only matters as such.
    if ds.len() > 900 {
        exp += (ds.len() - 901) as i64;
        ds.truncate(900);
        ds.push(b'1');
    }
    let mut a = Nat::digits(&ds);
    let mut b = Nat::small(m);
    if a.is_zero() || b.is_zero() {
        return (!a.is_zero()).cmp(&!b.is_zero());
    }
    if exp >= 0 {
        a.mul_pow10(exp as usize);
    } else {
        b.mul_pow10(-exp as usize);
    }
    if q >= 0 {
        b.shl(q as usize);
    } else {
        a.shl(-q as usize);
    }
    a.cmp(&b)
}

/// Format of a binary floating point type.
#[derive(Clone, Copy)]
pub struct Fmt {
    /// significand bits including the hidden one
    pub p: u32,
    /// exponent of the last significand bit of the subnormals
    pub emin: i32,
    /// biased exponent of infinity
    pub inf: u64,
}
pub const F32: Fmt = Fmt { p: 24, emin: -149, inf: 255 };
pub const F64: Fmt = Fmt { p: 53, emin: -1074, inf: 2047 };

/// Whether `bits` (sign cleared) is the round-to-nearest-even value of the literal's magnitude.
pub fn rounds_to(l: &Lit, bits: u64, f: Fmt) -> bool {
    let biased = bits >> (f.p - 1);
    let frac = bits & ((1 << (f.p - 1)) - 1);
    if biased > f.inf || (biased == f.inf && frac != 0) {
        return false;
    }
    // Decimal position of the leading digit decides the extremes without arithmetic.
    let top = l.exp.saturating_add(l.digits.len() as i64);
    if l.digits.is_empty() || top < -400 {
        return bits == 0;
    }
    if top > 400 {
        return biased == f.inf;
    }
    let (m, q) = if biased == f.inf {
        (1u128 << (f.p - 1), f.emin + f.inf as i32 - 1)
    } else if biased == 0 {
        (u128::from(frac), f.emin)
    } else {
        (u128::from(frac | 1 << (f.p - 1)), f.emin + biased as i32 - 1)
    };
    let even = m % 2 == 0;
    if biased != f.inf {
        // At most half a step above.
        let c = cmp_binary(l, 2 * m + 1, q - 1);
        if c == Ordering::Greater || (c == Ordering::Equal && !even) {
            return false;
        }
    }
    if m == 0 {
        return true;
    }
    // At most half a step below; the step below a power of two is half as large, except where
    // the subnormals begin.
    let (lo, lq) = if frac == 0 && biased > 1 { (4 * m - 1, q - 2) } else { (2 * m - 1, q - 1) };
    let c = cmp_binary(l, lo, lq);
    !(c == Ordering::Less || (c == Ordering::Equal && !even))
}

/// Decimal text of m * 2^q, as an integer or with an exponent.
pub fn exact(m: u128, q: i32) -> (String, i32) {
    let mut n = Nat::small(m);
    if q >= 0 {
        n.shl(q as usize);
        (n.decimal(), 0)
    } else {
        n.pow_mul(5, -q as usize);
        (n.decimal(), q)
    }
}
