//! The arithmetic below the predicates: integers of any size, floats with a wide exponent, floats
//! with an error bound, sums of square roots. Reference: bigf.rs.
use crate::bigf::*;
use crate::run::*;
#[cfg(boostvoronoi_monitor)]
use boostvoronoi_core::monitor as M;
use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
use boostvoronoi_ext::extended_int::ExtendedInt;
use boostvoronoi_ext::robust_fpt::{RobustDif, RobustFpt};
use crate::rng::Rng;
type Xf = ExtendedExponentFpt<f64>;

fn num_work(_t: Tier, quick: u64) -> Vec<Work> {
    let f = _t.n(1, 20);
    vec![work("short", 6, quick * f), work("long", 24, quick * f / 3), work("deep", 60, quick * f / 20)]
}

// ------------------------------------------------------------------ integers
/// an integer as both sides see it
struct Pair {
    x: ExtendedInt,
    r: Big,
    how: String,
}
/// numbers around word boundaries as well as any others
fn small(r: &Rng) -> i64 {
    let s = match r.below(9) {
        0 => 0,
        1 => r.range(-3, 3),
        2 => r.range(i32::MIN as i64, i32::MAX as i64),
        3 => (1i64 << r.range(0, 62)) + r.range(-2, 2),
        4 => *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, u32::MAX as i64, u32::MAX as i64 + 1, -(u32::MAX as i64) - 1, i32::MIN as i64, i32::MAX as i64]),
        5 => (r.next() >> 32 << 32) as i64,
        6 => (r.next() as u32) as i64,
        7 => (u32::MAX as i64) << r.range(0, 31),
        _ => r.next() as i64,
    };
    if r.chance(1, 2) {
        s.wrapping_neg()
    } else {
        s
    }
}
fn ext(v: &Big) -> ExtendedInt {
    // most significant word first
    let mut x = ExtendedInt::from(0i32);
    let sep = ExtendedInt::from(1i64 << 32);
    for w in v.m.iter().rev() {
        x = &x * &sep + ExtendedInt::from(*w as i64);
    }
    if v.neg {
        -x
    } else {
        x
    }
}
fn c24(c: &mut Case) {
    let r = c.rng.clone();
    let n = c.work.size;
    let mut v: Vec<Pair> = vec![];
    let mut longest = 0;
    for _ in 0..3 {
        let s = small(&r);
        v.push(Pair { x: ExtendedInt::from(s), r: Big::from(s as i128), how: format!("{s}") });
    }
    for step in 0..n {
        let (i, j) = (r.us(0, v.len() - 1), r.us(0, v.len() - 1));
        let (a, b) = (&v[i], &v[j]);
        let op = r.below(12);
        let p = match op {
            0 | 1 => {
                let s = small(&r);
                match r.below(3) {
                    0 => Pair { x: ExtendedInt::from(s as i32), r: Big::from(s as i32 as i128), how: format!("{}i32", s as i32) },
                    1 if s >= 0 => Pair { x: ExtendedInt::from(s as u64), r: Big::from(s as i128), how: format!("{s}u64") },
                    _ => Pair { x: ExtendedInt::from(s), r: Big::from(s as i128), how: format!("{s}") },
                }
            }
            2 => Pair { x: -a.x.clone(), r: a.r.neg(), how: format!("-#{i}") },
            3 | 4 => Pair {
                x: match r.below(3) {
                    0 => &a.x + &b.x,
                    1 => a.x.clone() + &b.x,
                    _ => a.x.clone() + b.x.clone(),
                },
                r: a.r.add(&b.r),
                how: format!("#{i} + #{j}"),
            },
            5 | 6 => Pair {
                x: match r.below(3) {
                    0 => &a.x - &b.x,
                    1 => a.x.clone() - &b.x,
                    _ => a.x.clone() - b.x.clone(),
                },
                r: a.r.sub(&b.r),
                how: format!("#{i} - #{j}"),
            },
            7 | 8 => {
                if a.r.m.len() + b.r.m.len() > 70 {
                    continue;
                }
                Pair {
                    x: match r.below(3) {
                        0 => &a.x * &b.x,
                        1 => a.x.clone() * &b.x,
                        _ => a.x.clone() * b.x.clone(),
                    },
                    r: a.r.mul(&b.r),
                    how: format!("#{i} * #{j}"),
                }
            }
            9 => {
                let s = small(&r) as i32;
                if a.r.m.len() > 70 {
                    continue;
                }
                Pair { x: a.x.clone() * s, r: a.r.mul(&Big::from(s as i128)), how: format!("#{i} * {s}i32") }
            }
            10 => {
                // next to a multiple of a power of 2^32: what cancels there cancels whole words
                let k = r.us(1, 9);
                let s = r.range(-2, 2);
                let q = Big::from(1).shl(32 * k).add(&Big::from(s as i128));
                Pair { x: ext(&q), r: q, how: format!("2^{} + {s}", 32 * k) }
            }
            _ => {
                // almost the same number: the difference to it is short
                let d = Big::from(small(&r) as i128);
                let q = a.r.add(&d);
                Pair { x: &a.x + &ext(&d), r: q, how: format!("#{i} + {}", d.hex()) }
            }
        };
        c.rep.count("operations", 1);
        longest = longest.max(p.r.m.len());
        // sign
        if p.x.is_pos() != (p.r.sign() > 0) || p.x.is_neg() != (p.r.sign() < 0) || p.x.is_zero() != p.r.is_zero() {
            c.bad(format!("step {step}: {} = {} has the wrong sign", how(&v, &p.how), p.r.hex()));
            return;
        }
        if num_traits::Zero::is_zero(&p.x) != p.r.is_zero() {
            c.bad(format!("step {step}: {} = {}: the trait Zero does not agree", how(&v, &p.how), p.r.hex()));
            return;
        }
        // to a float
        let (m, e) = p.x.p();
        let re = Bf::int(&p.r).rel_err(m, e as i64);
        if !(re <= 2.01) || (p.r.bits() <= 53 && re != 0.0) {
            c.bad(format!("step {step}: {} = {} converts to {m:e} * 2^{e}", how(&v, &p.how), p.r.hex()));
            return;
        }
        c.rep.max("largest_rounding_in_half_ulp", re);
        if p.r.bits() < 1000 && Bf::int(&p.r).rel_err(p.x.d(), 0) > 2.01 {
            c.bad(format!("step {step}: {} = {} as a float: {:e}", how(&v, &p.how), p.r.hex(), p.x.d()));
            return;
        }
        // every word: the difference to the same number built from its words is nothing
        let z = &p.x - &ext(&p.r);
        let y = &p.x - &ext(&p.r.sub(&Big::from(1)));
        if !z.is_zero() || y.d() != 1.0 || !y.is_pos() {
            c.bad(format!("step {step}: {} should be {}, differs by {}", how(&v, &p.how), p.r.hex(), z.d()));
            return;
        }
        v.push(p);
    }
    c.rep.max("longest_in_words", longest as f64);
    c.rep.nontrivial = longest > 2;
    c.rep.key = c.idx ^ (c.work.size as u64) << 40;
    c.rep.sample = format!("{} numbers, the last: {}", v.len(), clip(&v.last().unwrap().r.hex(), 120));
}
/// the operation, with its operands written out
fn how(v: &[Pair], h: &str) -> String {
    let mut s = h.to_string();
    for (i, p) in v.iter().enumerate().rev() {
        s = s.replace(&format!("#{i}"), &p.r.hex());
    }
    clip(&s, 600)
}
const NASSUME: &[&str] = &["reference arithmetic of the harness (bigf.rs), itself tested against identities"];
pub const C24: Plan = Plan {
    id: "C24",
    rule: "random programs of 6 to 60 operations (+, -, *, negation, conversions, cancellations at word boundaries) on integers of up to 70 words; each step is compared with reference integers: sign, float value, every word; non-trivial: a number of more than two words occurs; distinct by program",
    assumptions: NASSUME,
    work: |t| num_work(t, 500_000),
    run: c24,
    need: &[("operations", 500_000)],
};

// ------------------------------------------------------------------ wide exponent
fn fl(r: &Rng) -> f64 {
    let m = match r.below(4) {
        0 => r.range(-9, 9) as f64,
        1 => r.next() as i64 as f64,
        2 => 1.0 + r.range(-2, 2) as f64 * f64::EPSILON,
        _ => r.f() * 2.0 - 1.0,
    };
    let e = match r.below(3) {
        0 => 0,
        1 => r.range(-60, 60),
        _ => r.range(-900, 900),
    };
    m * 2f64.powi(e as i32)
}
fn c25(c: &mut Case) {
    let r = c.rng.clone();
    let mut v: Vec<(Xf, Bf, String)> = vec![];
    let same = |x: &Xf, b: &Bf, tol: f64| b.rel_err(x.val(), x.exp() as i64) <= tol;
    for _ in 0..3 {
        let f = fl(&r);
        v.push((Xf::from(f), Bf::from(f), format!("{f:e}")));
    }
    for step in 0..c.work.size {
        let i = r.us(0, v.len() - 1);
        let j = if r.chance(1, 10) { i } else { r.us(0, v.len() - 1) };
        let ((a, ra, sa), (b, rb, sb)) = (&v[i], &v[j]);
        // the exact value of the operation on the operands as they are: they carry no error
        let zero = a.is_zero() || b.is_zero();
        let assign = r.chance(1, 2);
        let sc = |op: &str| clip(&format!("({sa}) {op} ({sb})"), 500);
        let asg = |f: &dyn Fn(&mut Xf)| {
            let mut t = *a;
            f(&mut t);
            t
        };
        let op = r.below(13);
        let (x, q, s) = match op {
            0 => {
                let f = fl(&r);
                (Xf::from(f), Bf::from(f), format!("{f:e}"))
            }
            1 => {
                let (f, e) = (fl(&r), r.range(-5000, 5000));
                (Xf::new(f, e as i32), Bf::from(f).scale(e), format!("{f:e}*2^{e}"))
            }
            2 | 3 => (if assign { asg(&|t| *t += *b) } else { *a + *b }, ra.add(rb), sc(if assign { "+=" } else { "+" })),
            4 | 5 => (if assign { asg(&|t| *t -= *b) } else { *a - *b }, ra.sub(rb), sc(if assign { "-=" } else { "-" })),
            6 | 7 => (if assign { asg(&|t| *t *= *b) } else { *a * *b }, ra.mul(rb), sc(if assign { "*=" } else { "*" })),
            8 | 9 => {
                if b.is_zero() {
                    continue;
                }
                (if assign { asg(&|t| *t /= *b) } else { *a / *b }, ra.div(rb), sc(if assign { "/=" } else { "/" }))
            }
            10 => {
                let f = fl(&r);
                let f = if f == 0.0 { 3.0 } else { f };
                if assign {
                    (*a * f, ra.mul(&Bf::from(f)), clip(&format!("({sa}) * {f:e}"), 500))
                } else {
                    (*a / f, ra.div(&Bf::from(f)), clip(&format!("({sa}) / {f:e}"), 500))
                }
            }
            11 => (-*a, ra.neg(), clip(&format!("-({sa})"), 500)),
            _ => {
                if a.is_neg() {
                    continue;
                }
                (a.sqrt(), ra.sqrt(), clip(&format!("sqrt({sa})"), 500))
            }
        };
        c.rep.count("operations", 1);
        c.rep.count("operations_with_zero", zero as u64);
        if x.is_pos() != (q.sign() > 0) || x.is_neg() != (q.sign() < 0) || x.is_zero() != q.is_zero() {
            c.bad(format!("step {step}: {s} has the wrong sign: {:e} * 2^{}", x.val(), x.exp()));
            return;
        }
        if !same(&x, &q, 2.0) {
            c.bad(format!("step {step}: {s} = {:e} * 2^{}, off by {:e} half ulp", x.val(), x.exp(), q.rel_err(x.val(), x.exp() as i64)));
            return;
        }
        c.rep.max("largest_rounding_in_half_ulp", q.rel_err(x.val(), x.exp() as i64));
        let t = q.top();
        if t > -1000 && t < 1000 && Bf::from(x.val()).scale(x.exp() as i64).f() != x.d() {
            c.bad(format!("step {step}: {s} = {:e} * 2^{} as a float: {:e}", x.val(), x.exp(), x.d()));
            return;
        }
        if x.exp().abs() > 1 << 24 {
            break;
        }
        c.rep.max("largest_exponent", (x.exp() as f64).abs());
        // go on from what the number really is
        let q = Bf::from(x.val()).scale(x.exp() as i64);
        v.push((x, q, if s.len() > 200 { format!("{:e}*2^{}", x.val(), x.exp()) } else { s }));
    }
    c.rep.nontrivial = v.len() > 4;
    c.rep.key = c.idx ^ (c.work.size as u64) << 40;
    c.rep.sample = clip(&v.last().unwrap().2, 300);
}
pub const C25: Plan = Plan {
    id: "C25",
    rule: "random programs of 6 to 60 operations (+, -, *, /, their assigning forms, sqrt, negation, conversions) on numbers of any exponent, zero included; every result is compared with the exact result of the operation: sign, and one unit in the last place; non-trivial: at least two operations; distinct by program",
    assumptions: NASSUME,
    work: |t| num_work(t, 400_000),
    run: c25,
    need: &[("operations", 300_000), ("operations_with_zero", 5_000)],
};

// ------------------------------------------------------------------ error bounds
/// |true - stored| in units of 2^-53 of the stored value against the stored bound
fn bound_ok(x: &RobustFpt, q: &Bf) -> (bool, f64) {
    if !x.fpv().is_finite() {
        return (false, f64::INFINITY);
    }
    let d = q.sub(&Bf::from(x.fpv())).abs();
    if d.is_zero() {
        return (true, 0.0);
    }
    if x.fpv() == 0.0 {
        // a zero that is none: no finite bound can say so
        return (x.re() == f64::INFINITY || x.re() > 1e15, 0.0);
    }
    let e = d.div(&Bf::from(x.fpv()).abs()).scale(53).f();
    // bounds are first order: beyond 2^-20 they are only asked to be large
    if x.re() > (1u64 << 32) as f64 {
        return (true, 0.0);
    }
    (e <= x.re() * 1.001, e / x.re().max(1e-300))
}
fn rf(r: &Rng) -> f64 {
    match r.below(5) {
        0 => r.range(-5, 5) as f64,
        1 => r.range(-(1 << 53), 1 << 53) as f64,
        2 => r.range(-(1 << 32), 1 << 32) as f64,
        3 => r.range(-1000, 1000) as f64 / 7.0,
        _ => (r.f() - 0.5) * 2f64.powi(r.range(-100, 100) as i32),
    }
}
fn c26(c: &mut Case) {
    let r = c.rng.clone();
    let mut v: Vec<(RobustFpt, Bf)> = vec![];
    let mut d: Vec<(RobustDif, Bf)> = vec![(RobustDif::default(), Bf::zero())];
    for _ in 0..3 {
        let f = rf(&r);
        v.push((RobustFpt::from(f), Bf::from(f)));
    }
    let mut log = vec![];
    for step in 0..c.work.size {
        let i = r.us(0, v.len() - 1);
        let j = r.us(0, v.len() - 1);
        let ((a, ra), (b, rb)) = (&v[i], &v[j]);
        let assign = r.chance(1, 2);
        let asg = |f: &dyn Fn(&mut RobustFpt)| {
            let mut t = *a;
            f(&mut t);
            t
        };
        let op = r.below(if d.is_empty() { 9 } else { 20 });
        let k = r.us(0, d.len() - 1);
        let (e, re) = &d[k];
        let dasg = |f: &dyn Fn(&mut RobustDif)| {
            let mut t = *e;
            f(&mut t);
            t
        };
        let mut newd = None;
        let mut newv = None;
        let name: String;
        match op {
            0 => {
                let f = rf(&r);
                if r.chance(1, 3) {
                    newv = Some((RobustFpt::from(f), Bf::from(f)));
                    name = format!("from {f:e}");
                } else if r.chance(1, 3) {
                    // value and bound
                    let mut t = *b;
                    t.assign_from(a);
                    if t.fpv().to_bits() != a.fpv().to_bits() || t.re().to_bits() != a.re().to_bits() {
                        return c.bad(format!("step {step}: {b:?} assigned from {a:?} is {t:?}"));
                    }
                    newv = Some((t, ra.clone()));
                    name = format!("assign_from {a:?}");
                } else {
                    // a value as far from the true one as its bound allows, or less
                    let re = *r.pick(&[1i64, 2, 5, 13, 40, 100, 5000]);
                    let off = *r.pick(&[re, -re, re, -re, 0]);
                    newv = Some((RobustFpt::new(f, re as f64), Bf::from(f).add(&Bf::from(f).mul(&Bf::from(off as f64)).scale(-53))));
                    name = format!("new {f:e} {re}");
                }
            }
            1 | 2 => {
                newv = Some((if assign { asg(&|t| *t += *b) } else { *a + *b }, ra.add(rb)));
                name = format!("+ assign={assign} {a:?} {b:?}");
            }
            3 | 4 => {
                newv = Some((if assign { asg(&|t| *t -= *b) } else { *a - *b }, ra.sub(rb)));
                name = format!("- assign={assign} {a:?} {b:?}");
            }
            5 => {
                newv = Some((if assign { asg(&|t| *t *= *b) } else { *a * *b }, ra.mul(rb)));
                name = format!("* assign={assign} {a:?} {b:?}");
            }
            6 => {
                if b.fpv() == 0.0 || rb.is_zero() || b.re() > 1e9 {
                    continue;
                }
                newv = Some((if assign { asg(&|t| *t /= *b) } else { *a / *b }, ra.div(rb)));
                name = format!("/ assign={assign} {a:?} {b:?}");
            }
            7 => {
                if a.fpv() < 0.0 || ra.sign() < 0 || a.re() > 1e9 {
                    continue;
                }
                newv = Some((a.sqrt(), ra.sqrt()));
                name = format!("sqrt {a:?}");
            }
            8 => {
                let f = rf(&r);
                if f == 0.0 || r.chance(1, 2) {
                    newv = Some((*a * f, ra.mul(&Bf::from(f))));
                    name = format!("*f64 {a:?} {f:e}");
                } else {
                    newv = Some((*a / f, ra.div(&Bf::from(f))));
                    name = format!("/f64 {a:?} {f:e}");
                }
            }
            // sums kept in two parts
            9 => {
                newd = Some((dasg(&|t| *t += *a), re.add(ra)));
                name = format!("dif += {e:?} {a:?}");
            }
            10 => {
                newd = Some((if assign { dasg(&|t| *t -= *a) } else { *e - *a }, re.sub(ra)));
                name = format!("dif - assign={assign} {e:?} {a:?}");
            }
            11 => {
                newd = Some((if assign { dasg(&|t| *t *= *a) } else { *e * *a }, re.mul(ra)));
                name = format!("dif * assign={assign} {e:?} {a:?}");
            }
            12 => {
                if a.fpv() == 0.0 || ra.is_zero() || a.re() > 1e9 {
                    continue;
                }
                newd = Some((dasg(&|t| *t /= *a), re.div(ra)));
                name = format!("dif / {e:?} {a:?}");
            }
            13 => {
                let (g, rg) = &d[r.us(0, d.len() - 1)];
                newd = Some((if assign { dasg(&|t| *t += *g) } else { *e + *g }, re.add(rg)));
                name = format!("dif + dif assign={assign} {e:?} {g:?}");
            }
            14 => {
                let (g, rg) = &d[r.us(0, d.len() - 1)];
                newd = Some((if assign { dasg(&|t| *t -= *g) } else { *e - *g }, re.sub(rg)));
                name = format!("dif - dif assign={assign} {e:?} {g:?}");
            }
            15 => {
                let f = rf(&r);
                newd = Some((if assign { dasg(&|t| *t *= f) } else { *e * f }, re.mul(&Bf::from(f))));
                name = format!("dif * f64 assign={assign} {e:?} {f:e}");
            }
            16 => {
                newd = Some((-*e, re.neg()));
                name = format!("- dif {e:?}");
            }
            17 => {
                let f = rf(&r);
                newd = Some(if assign { (RobustDif::from(f), Bf::from(f)) } else { (RobustDif::from(*a), ra.clone()) });
                name = format!("dif from assign={assign} {f:e} {a:?}");
            }
            18 => {
                let (g, rg) = &d[r.us(0, d.len() - 1)];
                newd = Some((if assign { dasg(&|t| *t *= *g) } else { *e * *g }, re.mul(rg)));
                name = format!("dif * dif assign={assign} {e:?} {g:?}");
            }
            _ => {
                newv = Some((e.dif(), re.clone()));
                name = format!("dif() {e:?}");
            }
        }
        log.push(name);
        c.rep.count("operations", 1);
        let big = |f: f64| !f.is_finite() || f.abs() > 1e200 || (f != 0.0 && f.abs() < 1e-200);
        if let Some((x, q)) = newd {
            if big(x.positive().fpv()) || big(x.negative().fpv()) {
                continue;
            }
            let y = x.dif();
            let (ok, _) = bound_ok(&y, &q);
            if !ok {
                c.bad(format!("step {step}: {} gives {y:?}, the true value is {:e}", log.last().unwrap(), q.f()));
                return;
            }
            c.rep.count("two_part_sums", 1);
            // a part that has lost all its digits says nothing about what follows
            if x.positive().re() < 1e9 && x.negative().re() < 1e9 {
                d.push((x, q));
            }
        }
        if let Some((x, q)) = newv {
            if big(x.fpv()) {
                continue;
            }
            if x.fpv() == 0.0 {
                c.rep.count("zeros", 1);
            }
            let (ok, part) = bound_ok(&x, &q);
            c.rep.max("largest_part_of_the_bound_used", part);
            if !ok {
                c.bad(format!("step {step}: {} gives {x:?}, the true value is {:e}, a relative error of {:e} eps", log.last().unwrap(), q.f(), q.rel_err(x.fpv(), 0) / 2.0));
                return;
            }
            if x.is_pos() != (x.fpv() > 0.0) || x.is_neg() != (x.fpv() < 0.0) || x.is_zero() != (x.fpv() == 0.0) {
                c.bad(format!("{x:?}: sign tests disagree with the value"));
                return;
            }
            if x.re() < (1u64 << 30) as f64 {
                v.push((x, q));
                c.rep.count("bounded_results", 1);
                if x.re() > 64.0 {
                    c.rep.count("results_beyond_64_eps", 1);
                }
            }
        }
    }
    c.rep.nontrivial = log.len() > 4;
    c.rep.key = c.idx ^ (c.work.size as u64) << 40;
    c.rep.sample = clip(&format!("{log:?}"), 300);
}
pub const C26: Plan = Plan {
    id: "C26",
    rule: "random programs of 6 to 60 operations on floats with an error bound and on two-part sums, with cancellations; the true value is carried along with 640 bits and must lie within the bound of every result; non-trivial: at least five operations; distinct by program",
    assumptions: &["reference arithmetic of the harness (bigf.rs), itself tested against identities", "bounds are in units of 2^-53, the rounding error of one operation, and of first order: they are not judged beyond 2^32 units, where the library always falls back to exact arithmetic"],
    work: |t| num_work(t, 400_000),
    run: c26,
    need: &[("bounded_results", 200_000), ("two_part_sums", 100_000), ("results_beyond_64_eps", 500)],
};

// ------------------------------------------------------------------ sums of square roots
fn coef(r: &Rng, bits: i64) -> Big {
    let b = r.range(0, bits);
    let mut v = Big::zero();
    for _ in 0..(b + 31) / 32 {
        v = v.shl(32).add(&Big::from(r.next() as u32 as i128));
    }
    let extra = v.bits() - b;
    let v = if extra > 0 { Big { neg: false, m: { let mut m = v.m.clone(); let w = (extra / 32) as usize; m.drain(..w.min(m.len())); while m.last() == Some(&0) { m.pop(); } m } } } else { v };
    let v = match r.below(8) {
        0 => Big::zero(),
        1 => Big::from(r.range(1, 9) as i128),
        2 => Big::from(1).shl(b as usize),
        _ => v,
    };
    if r.chance(1, 2) {
        v.neg()
    } else {
        v
    }
}
#[cfg(boostvoronoi_monitor)]
fn c27(c: &mut Case) {
    let r = c.rng.clone();
    let bits = *r.pick(&[8i64, 33, 66, 100, 130]);
    for _ in 0..c.work.size {
        let k = r.us(1, 6);
        let n = k.min(4);
        let mut a: Vec<Big> = (0..n).map(|_| coef(&r, bits)).collect();
        let mut b: Vec<Big> = (0..n).map(|_| { let t = coef(&r, bits); if t.neg { t.neg() } else { t } }).collect();
        // near and perfect cancellation
        if n >= 2 && r.chance(2, 3) {
            let m = r.below(4);
            let small = |r: &Rng| Big::from(r.range(-3, 3) as i128);
            match m {
                0 => {
                    a[1] = a[0].neg();
                    b[1] = b[0].add(&Big::from(r.range(0, 2) as i128));
                }
                1 => {
                    // A0 sqrt(B0) = -A1 sqrt(B1) up to a little
                    let t = Big::from(r.range(1, 50) as i128);
                    b[1] = b[0].mul(&t).mul(&t);
                    a[0] = a[1].mul(&t).neg().add(&small(&r));
                }
                2 => {
                    let q = b[0].clone();
                    for x in b.iter_mut() {
                        *x = q.clone();
                    }
                    let mut s = Big::zero();
                    for x in &a[1..] {
                        s = s.sub(x);
                    }
                    a[0] = s.add(&small(&r));
                }
                _ => {
                    // perfect squares
                    for i in 0..n {
                        let q = Big::from(r.range(0, 1 << 30) as i128);
                        b[i] = q.mul(&q);
                    }
                    if n > 2 {
                        let i = r.us(1, n - 1);
                        b[i] = b[i].add(&Big::from(r.range(0, 1) as i128));
                    }
                }
            }
        }
        let rt = |v: &Big| Bf::int(v).sqrt();
        let term = |i: usize| Bf::int(&a[i]).mul(&rt(&b[i]));
        let (q, what, lim) = match k {
            1 => (term(0), "eval1", 4.0),
            2 => (term(0).add(&term(1)), "eval2", 7.0),
            3 => (term(0).add(&term(1)).add(&term(2)), "eval3", 16.0),
            4 => (term(0).add(&term(1)).add(&term(2)).add(&term(3)), "eval4", 25.0),
            5 => {
                b[2] = Big::from(1);
                b[3] = b[0].mul(&b[1]);
                let t3 = Bf::int(&a[3]).mul(&rt(&b[0])).mul(&rt(&b[1]));
                (Bf::int(&a[0]).mul(&rt(&b[0])).add(&Bf::int(&a[1]).mul(&rt(&b[1]))).add(&Bf::int(&a[2])).add(&t3), "pss3", 32.0)
            }
            _ => {
                // B0, B1 are squared lengths of two vectors and B2 their scalar product
                let vb = bits / 3 + 1;
                let (x0, y0) = (coef(&r, vb), coef(&r, vb));
                let (mut x1, mut y1) = (coef(&r, vb), coef(&r, vb));
                if r.chance(1, 3) {
                    x1 = x0.neg().add(&Big::from(r.range(-1, 1) as i128));
                    y1 = y0.neg();
                }
                b[0] = x0.mul(&x0).add(&y0.mul(&y0));
                b[1] = x1.mul(&x1).add(&y1.mul(&y1));
                b[2] = x0.mul(&x1).add(&y0.mul(&y1));
                let t = coef(&r, vb);
                b[3] = t.mul(&t);
                let p2 = Bf::int(&b[0].mul(&b[1])).sqrt().add(&Bf::int(&b[2]));
                let p2 = if p2.top() < -200 { Bf::zero() } else { p2.abs() };
                (Bf::int(&a[3]).add(&Bf::int(&a[0]).mul(&rt(&b[0]))).add(&Bf::int(&a[1]).mul(&rt(&b[1]))).add(&Bf::int(&a[2]).mul(&Bf::int(&b[3]).mul(&p2).sqrt())), "pss4", 64.0)
            }
        };
        let (ea, eb): (Vec<ExtendedInt>, Vec<ExtendedInt>) = (a.iter().map(ext).collect(), b.iter().map(ext).collect());
        let text = || format!("{what} A={:?} B={:?}", a.iter().map(|x| x.hex()).collect::<Vec<_>>(), b.iter().map(|x| x.hex()).collect::<Vec<_>>());
        let x = match guarded(|| match k {
            5 => M::eval_pss3(&ea, &eb),
            6 => M::eval_pss4(&ea, &eb),
            _ => M::eval(&ea, &eb),
        }) {
            Ok(x) => x,
            Err(m) => {
                c.bad(format!("{} panicked: {m}", text()));
                return;
            }
        };
        c.rep.count(&format!("{what}_evaluations"), 1);
        let biggest = (0..n).map(|i| if a[i].is_zero() || b[i].is_zero() { -9999 } else { Bf::int(&a[i]).top() + Bf::int(&b[i]).top() / 2 }).max().unwrap();
        // a sum that vanishes in 640 bits is zero
        let q = if q.top() < biggest - 560 { Bf::zero() } else { q };
        if !q.is_zero() && biggest - q.top() > 50 {
            c.rep.count("cancellations_beyond_50_bits", 1);
        }
        if q.is_zero() {
            c.rep.count("exact_zeros", 1);
        }
        if x.is_pos() != (q.sign() > 0) || x.is_neg() != (q.sign() < 0) {
            c.bad(format!("{}: sign of {:e} * 2^{}, the true value is {:e} * 2^{}", text(), x.val(), x.exp(), q.scale(-q.top()).f(), q.top()));
            return;
        }
        let e = q.rel_err(x.val(), x.exp() as i64) / 2.0;
        c.rep.max(&format!("largest_error_of_{what}_in_eps"), e);
        if !(e <= lim) {
            c.bad(format!("{}: {:e} * 2^{} is off by {e:e} eps", text(), x.val(), x.exp()));
            return;
        }
        c.rep.sample = clip(&text(), 300);
    }
    c.rep.nontrivial = true;
    c.rep.key = c.idx ^ (c.work.size as u64) << 40;
}
#[cfg(boostvoronoi_monitor)]
pub const C27: Plan = Plan {
    id: "C27",
    rule: "sums of one to four A*sqrt(B) and the two point-segment-segment forms with coefficients of up to 130 bits, many made to cancel, compared with 640-bit values: sign and the documented relative error; every case is a batch of 6 to 60 sums; distinct by batch",
    assumptions: NASSUME,
    work: |t| num_work(t, 25_000),
    run: c27,
    need: &[("cancellations_beyond_50_bits", 500), ("exact_zeros", 500), ("eval4_evaluations", 5_000), ("pss4_evaluations", 5_000)],
};
