//! The sweep as it happens: what the events are and in which order they are handled, from the
//! record that the monitor hook of the library keeps (core/src/monitor.rs).
use crate::bigf::*;
use crate::input::*;
use crate::plans::geom::*;
use crate::run::*;
use crate::snap::*;
use boostvoronoi_core::monitor as M;
use M::{CircleRecord, Event, SiteRecord};

/// The true circle of three sites: Newton's method in 640 bits from where the sweep says it is.
pub struct True {
    pub x: Bf,
    pub y: Bf,
    pub low: Bf,
}
fn bi(v: i64) -> Bf {
    Bf::int(&Big::from(v as i128))
}
enum Con {
    /// on the circle
    Point(Bf, Bf),
    /// a * x + b * y + c = s * r with unit (a, b)
    Line(Bf, Bf, Bf, i32),
    /// a * x + b * y + c = 0
    Perp(Bf, Bf, Bf),
}
pub fn true_circle(s: &[SiteRecord; 3], c: &CircleRecord) -> Option<True> {
    let (mut x, mut y) = (Bf::from(c.x), Bf::from(c.y));
    let mut r = Bf::from(c.lower_x).sub(&x);
    let mut con = vec![];
    for t in s.iter() {
        if !t.segment {
            // a point that ends one of the segments: the circle touches the segment there
            let seg = s.iter().find(|g| g.segment && (g.p0 == t.p0 || g.p1 == t.p0));
            con.push(match seg {
                Some(g) => {
                    let (a, b) = (g.p1[0] - g.p0[0], g.p1[1] - g.p0[1]);
                    let cc = -(a as i128 * t.p0[0] as i128 + b as i128 * t.p0[1] as i128);
                    Con::Perp(bi(a), bi(b), Bf::int(&Big::from(cc)))
                }
                None => Con::Point(bi(t.p0[0]), bi(t.p0[1])),
            });
        } else {
            let (a, b) = (t.p0[1] - t.p1[1], t.p1[0] - t.p0[0]);
            let cc = t.p0[0] as i128 * t.p1[1] as i128 - t.p1[0] as i128 * t.p0[1] as i128;
            let len = Bf::int(&Big::from(a as i128 * a as i128 + b as i128 * b as i128)).sqrt();
            let (a, b, cc) = (bi(a).div(&len), bi(b).div(&len), Bf::int(&Big::from(cc)).div(&len));
            let d = a.mul(&x).add(&b.mul(&y)).add(&cc);
            let sg = if d.sign() >= 0 { 1 } else { -1 };
            con.push(Con::Line(a, b, cc, sg));
        }
    }
    for it in 0..60 {
        // rows of the linear system: J * (dx, dy, dr) = -f
        let mut m: Vec<[Bf; 4]> = vec![];
        for k in &con {
            m.push(match k {
                Con::Point(px, py) => {
                    let (u, v) = (x.sub(px), y.sub(py));
                    let f = u.mul(&u).add(&v.mul(&v)).sub(&r.mul(&r));
                    [u.scale(1), v.scale(1), r.scale(1).neg(), f.neg()]
                }
                Con::Line(a, b, cc, sg) => {
                    let d = a.mul(&x).add(&b.mul(&y)).add(cc);
                    let sr = if *sg > 0 { r.clone() } else { r.neg() };
                    [a.clone(), b.clone(), Bf::from(-*sg as f64), d.sub(&sr).neg()]
                }
                Con::Perp(a, b, cc) => [a.clone(), b.clone(), Bf::zero(), a.mul(&x).add(&b.mul(&y)).add(cc).neg()],
            });
        }
        // Cramer
        let det = |i: usize, j: usize, k: usize| {
            let t = |p: usize, q: usize| m[1][p].mul(&m[2][q]).sub(&m[1][q].mul(&m[2][p]));
            m[0][i].mul(&t(j, k)).sub(&m[0][j].mul(&t(i, k))).add(&m[0][k].mul(&t(i, j)))
        };
        let d = det(0, 1, 2);
        if d.is_zero() {
            return None;
        }
        let dx = det(3, 1, 2).div(&d);
        let dy = det(0, 3, 2).div(&d);
        let dr = det(0, 1, 3).div(&d);
        x = x.add(&dx);
        y = y.add(&dy);
        r = r.add(&dr);
        let size = x.abs().add(&y.abs()).add(&r.abs()).add(&Bf::from(1.0)).top();
        let small = |v: &Bf| v.is_zero() || v.top() < size - 250;
        if it > 0 && small(&dx) && small(&dy) && small(&dr) {
            let low = x.add(&r);
            let z = |v: Bf| if small(&v) { Bf::zero() } else { v };
            return Some(True { x: z(x), y: z(y), low: z(low) });
        }
    }
    None
}

/// units of 2^-53 that a coordinate of an event may be off: the predicates keep a value whose
/// bound is 64 units and compute it exactly otherwise
const K_EV: f64 = 160.0;
/// the sweep's resolution: a site and a circle event within 64 steps of each other are simultaneous
const RES: u64 = 64;

/// floats counted from zero
fn rank(v: f64) -> i128 {
    let b = v.to_bits();
    if b >> 63 == 1 {
        -((b & !(1 << 63)) as i128)
    } else {
        b as i128
    }
}

/// Checks the record against the discipline of the event queue; returns what is wrong.
fn discipline(log: &[Event], sites: usize, rep: &mut Report) -> Vec<String> {
    use std::collections::{BTreeMap, BTreeSet};
    let mut out = vec![];
    let mut live: BTreeMap<usize, CircleRecord> = BTreeMap::new();
    // by (lower_x, y), as ranks
    let mut order: BTreeSet<(i128, i128, usize)> = BTreeSet::new();
    let key = |k: &CircleRecord, id: usize| (rank(k.lower_x), rank(k.y), id);
    let mut planned: Option<CircleRecord> = None;
    let mut next_id = 0;
    let mut last_site: Option<SiteRecord> = None;
    let site_x: Vec<i64> = {
        let mut v = vec![];
        for e in log {
            if let Event::Site(s) = e {
                v.push(s.p0[0]);
            }
        }
        v
    };
    let mut seen_sites = 0;
    let mut at = f64::NEG_INFINITY;
    for e in log {
        match e {
            Event::Planned(_, k) => planned = *k,
            Event::Queued(id) => {
                let Some(mut k) = planned.take() else {
                    out.push(format!("circle event {id} was queued without having been planned"));
                    continue;
                };
                if *id < next_id {
                    out.push(format!("circle event id {id} was given twice"));
                }
                next_id = id + 1;
                k.id = *id;
                live.insert(*id, k);
                order.insert(key(&k, *id));
                rep.count("events_queued", 1);
            }
            Event::Cancelled(id) => {
                // (an event that is over may be cancelled again)
                if let Some(k) = live.remove(id) {
                    order.remove(&key(&k, *id));
                    rep.count("events_cancelled", 1);
                }
            }
            Event::Circle(k) => {
                rep.count("circle_events_handled", 1);
                match live.remove(&k.id) {
                    None => out.push(format!("circle event {k:?} was handled though it was cancelled, handled before or never queued")),
                    Some(p) => {
                        if p != *k {
                            out.push(format!("circle event {p:?} changed to {k:?}"));
                        }
                        let kk = key(&p, k.id);
                        let first = *order.iter().next().unwrap();
                        order.remove(&kk);
                        if (first.0, first.1) < (kk.0, kk.1) {
                            out.push(format!("circle event {k:?} was handled before {:?}", live[&first.2]));
                        }
                    }
                }
                if let Some(x) = site_x.get(seen_sites) {
                    let late = rank(k.lower_x) - rank(*x as f64);
                    if late > RES as i128 {
                        out.push(format!("circle event {k:?} was handled before the site at x = {x}"));
                    }
                    rep.count("choices_between_site_and_circle", 1);
                    rep.count("near_ties_of_site_and_circle", (late.abs() <= RES as i128) as u64);
                }
                if k.lower_x < at {
                    rep.max("largest_step_back_in_ulps", (rank(at) - rank(k.lower_x)).min(1 << 52) as f64);
                }
                at = at.max(k.lower_x);
            }
            Event::Site(s) => {
                rep.count("site_events_handled", 1);
                seen_sites += 1;
                if let Some(l) = last_site {
                    if s.sorted_index != l.sorted_index + 1 {
                        out.push(format!("site {} was handled after site {}", s.sorted_index, l.sorted_index));
                    }
                }
                let batch = last_site.is_some_and(|l| l.segment && s.segment && l.p0 == s.p0);
                last_site = Some(*s);
                let x = s.p0[0] as f64;
                if let Some(first) = order.iter().next() {
                    let k = &live[&first.2];
                    // (segments from one point are handled in one go)
                    if !batch && rank(k.lower_x) - rank(x) < -(RES as i128) {
                        out.push(format!("the site {s:?} was handled before {k:?}"));
                    }
                }
                if x < at {
                    rep.max("largest_step_back_in_ulps", (rank(at) - rank(x)).min(1 << 52) as f64);
                }
                at = at.max(x);
            }
        }
        if out.len() > 3 {
            return out;
        }
    }
    if let Some(k) = live.values().next() {
        out.push(format!("{k:?} was neither handled nor cancelled"));
    }
    if let Some(s) = last_site {
        if s.sorted_index + 1 != sites {
            out.push(format!("the last site handled is {} of {sites}", s.sorted_index));
        }
    }
    out
}

fn c13(c: &mut Case) {
    let inp = c.input();
    if inp.n() <= 80 && !inp.valid() {
        assert!(c.over.is_some(), "invalid input generated");
        return;
    }
    M::start();
    let b = build_or_report(c, inp);
    let log = M::take();
    let Some((_, snap)) = b else { return };
    let plans: Vec<(&[SiteRecord; 3], &CircleRecord)> = log.iter().filter_map(|e| if let Event::Planned(s, Some(k)) = e { Some((s, k)) } else { None }).collect();
    for (s, _) in &plans {
        c.rep.count(["circles_of_three_points", "circles_of_two_points_and_a_segment", "circles_of_a_point_and_two_segments", "circles_of_three_segments"][s.iter().filter(|s| s.segment).count()], 1);
    }
    let r = c.rng.clone();
    let n = if c.tier == Tier::Quick { 10 } else { 40 };
    for i in 0..n.min(plans.len()) {
        let (s, k) = if plans.len() <= n { plans[i] } else { *r.pick(&plans) };
        match true_circle(s, k) {
            None => c.rep.count("circles_without_reference", 1),
            Some(t) => {
                c.rep.count("circles_compared", 1);
                for (name, tv, v) in [("x", &t.x, k.x), ("y", &t.y, k.y), ("lower_x", &t.low, k.lower_x)] {
                    let q = tv.rel_err(v, 0);
                    c.rep.max(&format!("largest_error_of_{name}"), q);
                    if q > K_EV {
                        c.bad(format!("circle event of {s:?}: {name} is {v:e}, the circle has {:e} ({q:.1} units of rounding)", tv.f()));
                    }
                }
            }
        }
    }
    for m in discipline(&log, snap.cells.len(), &mut c.rep) {
        c.bad(m);
    }
    c.rep.nontrivial = log.iter().any(|e| matches!(e, Event::Circle(_)));
}
pub const C13: Plan = Plan {
    id: "C13",
    rule: "generated input of one of 36 families, the sweep recorded; non-trivial: a circle event was handled; distinct by input",
    assumptions: &["inputs satisfy the documented contract", "the sweep is recorded by the hook in core/src/monitor.rs"],
    work: |t| geom_work(t, 0.5),
    run: c13,
    need: &[("circles_compared", 100_000), ("circle_events_handled", 100_000), ("circles_of_three_segments", 1000)],
};
