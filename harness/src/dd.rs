//! Double-double arithmetic (about 106 bits), enough to evaluate the residuals of a
//! Voronoi vertex whose coordinates are f64 and whose sites are i32-range integers.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, f64::mul_add(a, b, -p))
}

impl DD {
    pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
    #[inline]
    pub fn new(a: f64) -> DD {
        DD { hi: a, lo: 0.0 }
    }
    #[inline]
    pub fn int(a: i64) -> DD {
        let hi = a as f64;
        let lo = (a as i128 - hi as i128) as f64;
        let (h, l) = quick_two_sum(hi, lo);
        DD { hi: h, lo: l }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 {
            return DD::ZERO;
        }
        let x = DD::new(self.hi.sqrt());
        // one Newton step in dd from the f64 root
        let e = self - x * x;
        let x = x + DD::new(e.f() / (2.0 * x.hi));
        let e = self - x * x;
        x + DD::new(e.f() / (2.0 * x.hi))
    }
    #[inline]
    pub fn abs(self) -> DD {
        if self.hi < 0.0 {
            -self
        } else {
            self
        }
    }
}
impl Add for DD {
    type Output = DD;
    #[inline]
    fn add(self, o: DD) -> DD {
        let (s1, s2) = two_sum(self.hi, o.hi);
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (h, l) = quick_two_sum(s1, s2 + t2);
        DD { hi: h, lo: l }
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline]
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline]
    fn mul(self, o: DD) -> DD {
        let (p1, p2) = two_prod(self.hi, o.hi);
        let (h, l) = quick_two_sum(p1, p2 + self.hi * o.lo + self.lo * o.hi);
        DD { hi: h, lo: l }
    }
}
impl Div for DD {
    type Output = DD;
    #[inline]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        let r = self - o * DD::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::new(q2);
        let q3 = r.hi / o.hi;
        let (h, l) = quick_two_sum(q1, q2);
        DD { hi: h, lo: l } + DD::new(q3)
    }
}
