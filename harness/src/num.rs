//! Exact reading of decimal literals (arbitrary precision), independent of std's float parser.

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Big(Vec<u32>); // little endian
impl Big {
    pub fn from_u64(x: u64) -> Self {
        let mut b = Big(vec![x as u32, (x >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in self.0.iter_mut() {
            c += *d as u64 * m as u64;
            *d = c as u32;
            c >>= 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn shl(&mut self, n: usize) {
        let (w, b) = (n / 32, n % 32);
        if self.0.is_empty() {
            return;
        }
        if b > 0 {
            let mut c = 0u32;
            for d in self.0.iter_mut() {
                let x = *d;
                *d = (x << b) | c;
                c = x >> (32 - b);
            }
            if c > 0 {
                self.0.push(c);
            }
        }
        let mut v = vec![0; w];
        v.append(&mut self.0);
        self.0 = v;
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
/// The literal as digits / 10^k.
fn decimal(lit: &str) -> (Big, usize) {
    let mut b = Big(vec![]);
    let mut k = 0;
    let mut frac = false;
    for c in lit.bytes() {
        if c == b'.' {
            frac = true;
        } else {
            b.mul_add(10, (c - b'0') as u32);
            k += frac as usize;
        }
    }
    b.trim();
    (b, k)
}
/// Compares the literal with m * 2^e.
fn cmp_dyadic(d: &Big, pow: &Big, m: u64, e: i32) -> std::cmp::Ordering {
    // d / 10^k ? m * 2^e
    let mut l = d.clone();
    let mut r = pow.clone();
    let (lo, hi) = ((m & 0xffff_ffff) as u32, (m >> 32) as u32);
    assert!(hi == 0);
    r.mul_add(lo, 0);
    r.trim();
    if e >= 0 {
        r.shl(e as usize)
    } else {
        l.shl((-e) as usize)
    }
    l.cmp(&r)
}
fn parts(bits: u32) -> (u64, i32) {
    let e = (bits >> 23) & 0xff;
    let m = (bits & 0x7f_ffff) as u64;
    if e == 0 {
        (m, -149)
    } else {
        (m | 0x80_0000, e as i32 - 150)
    }
}
/// Nearest finite f32 (ties to even), or `None` if the value rounds beyond the finite range.
pub fn nearest_f32(lit: &str) -> Option<f32> {
    use std::cmp::Ordering::*;
    let (d, k) = decimal(lit);
    let mut pow = Big::from_u64(1);
    for _ in 0..k {
        pow.mul_add(10, 0);
    }
    // Largest finite value whose value is <= the literal, by bisection on the (ordered) bits.
    let (mut lo, mut hi) = (0u32, 0x7f80_0000u32); // lo <= literal < hi (hi may be infinity)
    while hi - lo > 1 {
        let mid = lo + (hi - lo) / 2;
        let (m, e) = parts(mid);
        if cmp_dyadic(&d, &pow, m, e) == Less {
            hi = mid
        } else {
            lo = mid
        }
    }
    // Halfway between lo and lo+1: (2m+1) * 2^(e-1).
    let (m, e) = parts(lo);
    let up = match cmp_dyadic(&d, &pow, 2 * m + 1, e - 1) {
        Less => false,
        Greater => true,
        Equal => lo & 1 == 1,
    };
    let bits = lo + up as u32;
    if bits >= 0x7f80_0000 {
        None
    } else {
        Some(f32::from_bits(bits))
    }
}
pub fn exact_u64(lit: &str) -> Option<u64> {
    let mut v: u64 = 0;
    for c in lit.bytes() {
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}
#[cfg(test)]
mod tests {
    #[test]
    fn agrees_with_std() {
        let mut r = crate::rng::Rng::new(7);
        for i in 0..20000 {
            let mut s = String::new();
            for _ in 0..r.range(1, 12) {
                s.push((b'0' + r.below(10) as u8) as char)
            }
            if i % 2 == 0 {
                s.push('.');
                for _ in 0..r.range(1, 50) {
                    s.push((b'0' + r.below(10) as u8) as char)
                }
            }
            assert_eq!(super::nearest_f32(&s).unwrap(), s.parse::<f32>().unwrap(), "{}", s);
        }
        assert!(super::nearest_f32(&"9".repeat(39)).is_none());
    }
}
