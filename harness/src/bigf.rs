//! Reference arithmetic: integers of any size, and floats with a 640-bit mantissa.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    /// little-endian, no leading zeros; zero is empty and not negative
    pub m: Vec<u32>,
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn cmp_m(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
    let mut v = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        c += a[i] as u64 + b.get(i).copied().unwrap_or(0) as u64;
        v.push(c as u32);
        c >>= 32;
    }
    v.push(c as u32);
    trim(&mut v);
    v
}
/// a >= b
fn sub_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - b.get(i).copied().unwrap_or(0) as i64 - borrow;
        borrow = (d < 0) as i64;
        if d < 0 {
            d += 1 << 32;
        }
        v.push(d as u32);
    }
    assert!(borrow == 0);
    trim(&mut v);
    v
}
fn mul_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            c += *x as u64 * *y as u64 + v[i + j] as u64;
            v[i + j] = c as u32;
            c >>= 32;
        }
        v[i + b.len()] = c as u32;
    }
    trim(&mut v);
    v
}
fn bits_m(a: &[u32]) -> i64 {
    match a.last() {
        None => 0,
        Some(t) => 32 * a.len() as i64 - t.leading_zeros() as i64,
    }
}
fn shl_m(a: &[u32], n: usize) -> Vec<u32> {
    let mut v = vec![0u32; n / 32];
    let k = n % 32;
    let mut c = 0u64;
    for x in a {
        c |= (*x as u64) << k;
        v.push(c as u32);
        c >>= 32;
    }
    v.push(c as u32);
    trim(&mut v);
    v
}
fn shr_m(a: &[u32], n: usize) -> Vec<u32> {
    let w = n / 32;
    if w >= a.len() {
        return vec![];
    }
    let k = n % 32;
    let mut v: Vec<u32> = (w..a.len()).map(|i| ((a[i] as u64 | (a.get(i + 1).copied().unwrap_or(0) as u64) << 32) >> k) as u32).collect();
    trim(&mut v);
    v
}
/// floor(a / b), schoolbook by bits of the divisor's top word: simple shift and subtract on words
fn div_m(a: &[u32], b: &[u32]) -> Vec<u32> {
    assert!(!b.is_empty());
    if cmp_m(a, b) == Ordering::Less {
        return vec![];
    }
    // normalise so that the top bit of b is set, then Knuth's algorithm D
    let s = b.last().unwrap().leading_zeros() as usize;
    let b = shl_m(b, s);
    let mut a = shl_m(a, s);
    a.push(0);
    let n = b.len();
    if n == 1 {
        let mut q = vec![0; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let cur = r << 32 | a[i] as u64;
            q[i] = (cur / b[0] as u64) as u32;
            r = cur % b[0] as u64;
        }
        trim(&mut q);
        return q;
    }
    let m = a.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = (a[j + n] as u64) << 32 | a[j + n - 1] as u64;
        let mut qh = (num / b[n - 1] as u64).min(u32::MAX as u64);
        loop {
            // subtract qh * b; on underflow lower qh and add back
            let mut c = 0u64;
            let mut bor = 0i64;
            for i in 0..=n {
                c += if i < n { qh * b[i] as u64 } else { 0 };
                let d = a[i + j] as i64 - (c & 0xffff_ffff) as i64 - bor;
                a[i + j] = d as u32;
                bor = (d < 0) as i64;
                c >>= 32;
            }
            if bor == 0 {
                break;
            }
            // add back
            let mut c = 0u64;
            for i in 0..=n {
                c += a[i + j] as u64 + if i < n { qh_part(qh, &b, i) } else { qh_part(qh, &b, n) };
                a[i + j] = c as u32;
                c >>= 32;
            }
            qh -= 1;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    q
}
/// word i of qh * b
fn qh_part(qh: u64, b: &[u32], i: usize) -> u64 {
    let mut c = 0u64;
    for k in 0..i.min(b.len()) {
        c = (c + qh * b[k] as u64) >> 32;
    }
    if i < b.len() {
        c += qh * b[i] as u64;
    }
    c & 0xffff_ffff
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: vec![] }
    }
    pub fn from(v: i128) -> Big {
        let mut u = v.unsigned_abs();
        let mut m = vec![];
        while u > 0 {
            m.push(u as u32);
            u >>= 32;
        }
        Big { neg: v < 0, m }
    }
    fn mk(neg: bool, m: Vec<u32>) -> Big {
        Big { neg: neg && !m.is_empty(), m }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn sign(&self) -> i32 {
        if self.m.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Big {
        Big::mk(!self.neg, self.m.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::mk(self.neg, add_m(&self.m, &o.m));
        }
        match cmp_m(&self.m, &o.m) {
            Ordering::Less => Big::mk(o.neg, sub_m(&o.m, &self.m)),
            _ => Big::mk(self.neg, sub_m(&self.m, &o.m)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mul_m(&self.m, &o.m))
    }
    pub fn bits(&self) -> i64 {
        bits_m(&self.m)
    }
    pub fn shl(&self, n: usize) -> Big {
        Big::mk(self.neg, shl_m(&self.m, n))
    }
    pub fn hex(&self) -> String {
        let mut s = String::from(if self.neg { "-0x" } else { "0x" });
        if self.m.is_empty() {
            s.push('0');
        }
        for (i, w) in self.m.iter().rev().enumerate() {
            s += &if i == 0 { format!("{w:x}") } else { format!("_{w:08x}") };
        }
        s
    }
}

pub const PREC: i64 = 640;
/// m * 2^e, truncated to PREC bits after every operation
#[derive(Clone, Debug)]
pub struct Bf {
    pub m: Big,
    pub e: i64,
}
impl Bf {
    fn norm(mut m: Big, mut e: i64) -> Bf {
        let b = m.bits();
        if b > PREC {
            m = Big::mk(m.neg, shr_m(&m.m, (b - PREC) as usize));
            e += b - PREC;
        }
        if m.is_zero() {
            e = 0;
        }
        Bf { m, e }
    }
    pub fn int(m: &Big) -> Bf {
        Bf::norm(m.clone(), 0)
    }
    pub fn zero() -> Bf {
        Bf { m: Big::zero(), e: 0 }
    }
    pub fn from(v: f64) -> Bf {
        assert!(v.is_finite());
        let b = v.to_bits();
        let ex = (b >> 52 & 0x7ff) as i64;
        let fr = (b & ((1 << 52) - 1)) as i128;
        let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | 1 << 52, ex - 1075) };
        Bf::norm(Big::from(if v < 0.0 { -m } else { m }), e)
    }
    pub fn pow2(e: i64) -> Bf {
        Bf { m: Big::from(1), e }
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }
    pub fn sign(&self) -> i32 {
        self.m.sign()
    }
    pub fn neg(&self) -> Bf {
        Bf { m: self.m.neg(), e: self.e }
    }
    pub fn abs(&self) -> Bf {
        Bf { m: Big::mk(false, self.m.m.clone()), e: self.e }
    }
    /// exponent of the leading bit + 1: |self| in [2^(top-1), 2^top)
    pub fn top(&self) -> i64 {
        self.e + self.m.bits()
    }
    pub fn scale(&self, k: i64) -> Bf {
        if self.is_zero() {
            Bf::zero()
        } else {
            Bf { m: self.m.clone(), e: self.e + k }
        }
    }
    pub fn add(&self, o: &Bf) -> Bf {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let (a, b) = if self.top() >= o.top() { (self, o) } else { (o, self) };
        if a.top() - b.top() > 2 * PREC {
            return a.clone();
        }
        let e = a.e.min(b.e);
        Bf::norm(a.m.shl((a.e - e) as usize).add(&b.m.shl((b.e - e) as usize)), e)
    }
    pub fn sub(&self, o: &Bf) -> Bf {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Bf) -> Bf {
        Bf::norm(self.m.mul(&o.m), self.e + o.e)
    }
    pub fn div(&self, o: &Bf) -> Bf {
        assert!(!o.is_zero());
        let sh = (PREC + o.m.bits() - self.m.bits()).max(0) + 2;
        let q = div_m(&shl_m(&self.m.m, sh as usize), &o.m.m);
        Bf::norm(Big::mk(self.m.neg != o.m.neg, q), self.e - o.e - sh)
    }
    pub fn sqrt(&self) -> Bf {
        assert!(self.sign() >= 0);
        if self.is_zero() {
            return Bf::zero();
        }
        // an even exponent and twice the bits
        let mut sh = (2 * PREC - self.m.bits()).max(0);
        if (self.e - sh) & 1 != 0 {
            sh += 1;
        }
        let n = shl_m(&self.m.m, sh as usize);
        // integer square root by Newton from above
        let mut x = shl_m(&[1], ((bits_m(&n) + 1) / 2 + 1) as usize);
        loop {
            let y = shr_m(&add_m(&x, &div_m(&n, &x)), 1);
            if cmp_m(&y, &x) != Ordering::Less {
                break;
            }
            x = y;
        }
        Bf::norm(Big::mk(false, x), (self.e - sh) / 2)
    }
    pub fn cmp(&self, o: &Bf) -> Ordering {
        self.sub(o).sign().cmp(&0)
    }
    /// rounded towards zero; infinite out of range
    pub fn f(&self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let b = self.m.bits();
        let sh = (b - 60).max(0);
        let t = shr_m(&self.m.m, sh as usize);
        let v = t.iter().rev().fold(0f64, |s, w| s * 4294967296.0 + *w as f64);
        let mut e = self.e + sh;
        let mut v = if self.m.neg { -v } else { v };
        while e > 0 && v.is_finite() {
            let s = e.min(1000);
            v *= 2f64.powi(s as i32);
            e -= s;
        }
        while e < 0 && v != 0.0 {
            let s = (-e).min(1000);
            v *= 2f64.powi(-s as i32);
            e += s;
        }
        v
    }
    /// |self - v*2^k| in units of 2^-53 of |self|, for a float v with an extra exponent k
    pub fn rel_err(&self, v: f64, k: i64) -> f64 {
        if !v.is_finite() {
            return f64::INFINITY;
        }
        let d = self.sub(&Bf::from(v).scale(k)).abs();
        if d.is_zero() {
            return 0.0;
        }
        if self.is_zero() {
            return f64::INFINITY;
        }
        d.div(&self.abs()).scale(53).f()
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::rng::Rng;
    fn rnd(r: &Rng, words: usize) -> Big {
        let m: Vec<u32> = (0..r.us(0, words)).map(|_| match r.below(4) { 0 => 0, 1 => u32::MAX, _ => r.next() as u32 }).collect();
        let mut m = m;
        trim(&mut m);
        Big::mk(r.chance(1, 2), m)
    }
    #[test]
    fn division_and_root() {
        let r = Rng::new(3, "big", 0);
        for _ in 0..200_000 {
            let (a, b) = (rnd(&r, 9), rnd(&r, 6));
            if b.is_zero() {
                continue;
            }
            let q = Big::mk(false, div_m(&a.m, &b.m));
            let bb = Big::mk(false, b.m.clone());
            let aa = Big::mk(false, a.m.clone());
            let rest = aa.sub(&q.mul(&bb));
            assert!(rest.sign() >= 0 && rest.sub(&bb).sign() < 0, "{} / {}", a.hex(), b.hex());
            assert_eq!(a.add(&b).sub(&b), a);
            assert_eq!(a.sub(&b).add(&b), a);
        }
        for _ in 0..2_000 {
            let a = Bf::int(&rnd(&r, 9)).abs();
            let s = a.sqrt();
            if !a.is_zero() {
                let d = s.mul(&s).sub(&a).abs();
                assert!(d.is_zero() || d.top() - a.top() < -PREC + 8);
            }
            let f = r.f() * 1e9 - 5e8;
            assert_eq!(Bf::from(f).f(), f);
            let g = r.f() * 1e9 + 1.0;
            let q = Bf::from(f).div(&Bf::from(g)).f();
            assert!((q - f / g).abs() <= (f / g).abs() * 2.3e-16);
            let h = (Bf::from(f).mul(&Bf::from(g)).f() - f * g).abs();
            assert!(h <= (f * g).abs() * 2.3e-16);
        }
    }
}
