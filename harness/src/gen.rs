//! Workload generators. Every family yields inputs that satisfy the documented contract
//! (checked exactly with `Input::valid`, or valid by construction for the big ones).
use crate::input::*;
use crate::rng::Rng;

pub const IMIN: i64 = i32::MIN as i64;
pub const IMAX: i64 = i32::MAX as i64;

/// log-uniform coordinate range
pub fn log_range(r: &Rng, lo: i64, hi: i64) -> i64 {
    let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
    ((a + (b - a) * r.f()).exp() as i64).clamp(lo, hi)
}

pub struct Family {
    pub name: &'static str,
    pub segs: bool,
    pub f: fn(&Rng, usize) -> Input,
}

pub const FAMILIES: &[Family] = &[
    Family { name: "p_uniform", segs: false, f: p_uniform },
    Family { name: "p_tinygrid", segs: false, f: p_tinygrid },
    Family { name: "p_lattice", segs: false, f: p_lattice },
    Family { name: "p_circle", segs: false, f: p_circle },
    Family { name: "p_collinear", segs: false, f: p_collinear },
    Family { name: "p_cluster", segs: false, f: p_cluster },
    Family { name: "p_nearcirc", segs: false, f: p_nearcirc },
    Family { name: "p_curve", segs: false, f: p_curve },
    Family { name: "p_twolines", segs: false, f: p_twolines },
    Family { name: "p_extreme", segs: false, f: p_extreme },
    Family { name: "s_grid", segs: true, f: s_grid },
    Family { name: "s_random", segs: true, f: s_random },
    Family { name: "s_polygon", segs: true, f: s_polygon },
    Family { name: "s_star", segs: true, f: s_star },
    Family { name: "s_comb", segs: true, f: s_comb },
    Family { name: "s_polyline", segs: true, f: s_polyline },
    Family { name: "s_graph", segs: true, f: s_graph },
    Family { name: "s_neartouch", segs: true, f: s_neartouch },
    Family { name: "s_tiny", segs: true, f: s_tiny },
    Family { name: "s_axis", segs: true, f: s_axis },
    Family { name: "s_mixed", segs: true, f: s_mixed },
    Family { name: "s_zero", segs: true, f: s_zero },
    Family { name: "s_big", segs: true, f: s_big },
    Family { name: "s_dense", segs: true, f: s_dense },
    Family { name: "s_extreme", segs: true, f: s_extreme },
    Family { name: "s_tangent", segs: true, f: s_tangent },
    Family { name: "z_points", segs: false, f: z_points },
    Family { name: "z_segs", segs: true, f: z_segs },
    Family { name: "m_many", segs: true, f: m_many },
    Family { name: "c_files", segs: true, f: c_files },
    Family { name: "x_union", segs: true, f: x_union },
    Family { name: "l_points", segs: false, f: l_points },
    Family { name: "l_lattice", segs: false, f: l_lattice },
    Family { name: "l_grid", segs: true, f: l_grid },
    Family { name: "l_poly", segs: true, f: l_poly },
    Family { name: "l_mixed", segs: true, f: l_mixed },
];
pub fn family(name: &str) -> &'static Family {
    FAMILIES.iter().find(|f| f.name == name).unwrap_or_else(|| panic!("no family {name}"))
}

/// A symmetry, a scaling up to the whole range or a move into a corner: none changes validity.
pub fn vary(r: &Rng, inp: Input) -> Input {
    let big = inp.max_abs();
    if big > IMAX {
        return inp;
    }
    let k = r.below(16);
    let inp = if k >= 6 {
        let s = r.below(8);
        inp.map(&|p| {
            let p = if s & 1 != 0 { [p[1], p[0]] } else { p };
            [if s & 2 != 0 { -p[0] } else { p[0] }, if s & 4 != 0 { -p[1] } else { p[1] }]
        })
    } else {
        inp
    };
    // The sweep takes two events for one when they are within 64 ulp of each other in x. Moving an
    // input with gaps of 1 far from the origin must not push its events that close together.
    // (the circles of nearly parallel segments are as large as the square of the input)
    let mut room = (1i64 << 38) / (2 * big).max(1);
    if !inp.segs.is_empty() && big > 0 && big < 1 << 14 {
        room = room.min((1i64 << 42) / (big * big));
    }
    let room = room.min(IMAX) - big;
    match k {
        3 | 14 => {
            let f = IMAX / big.max(1);
            inp.map(&|p| [p[0] * f, p[1] * f])
        }
        4 | 15 if room > 0 => {
            let o = [if r.chance(1, 2) { room } else { -room }, if r.chance(1, 2) { room } else { -room }];
            inp.map(&|p| [p[0] + o[0], p[1] + o[1]])
        }
        5 if room > 0 => {
            let o = r.pt(room);
            inp.map(&|p| [p[0] + o[0], p[1] + o[1]])
        }
        _ => inp,
    }
}

// ---------------------------------------------------------------- slivers along x = 0
// (never moved or turned: only around x = 0 can the sweep tell such close events apart)
fn z_points(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 4, IMAX);
    let w = log_range(r, 1, 3000).min(m);
    let k = r.us(2, n.max(2));
    Input { points: (0..k).map(|_| [r.range(-w, w), r.range(-m, m)]).collect(), segs: vec![] }
}
fn z_segs(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 4, 1 << 20);
    let w = log_range(r, 1, 100).min(m);
    let k = r.us(1, n.max(1));
    let p = || [r.range(-w, w), r.range(-m, m)];
    let mut inp = Input::default();
    for _ in 0..4 * k {
        if inp.segs.len() >= k {
            break;
        }
        let a = p();
        let b = if r.chance(1, 5) { [a[0], r.range(-m, m)] } else { p() };
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    for _ in 0..r.us(0, k) {
        let q = p();
        try_add_pt(&mut inp, q);
    }
    inp
}

// ---------------------------------------------------------------- points
fn p_uniform(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 2, IMAX);
    let k = r.us(1, n.max(1));
    Input { points: (0..k).map(|_| r.pt(m)).collect(), segs: vec![] }
}
fn p_tinygrid(r: &Rng, n: usize) -> Input {
    let m = r.range(0, 4);
    let k = r.us(1, n.max(1));
    let s = if r.chance(1, 2) { 1 } else { log_range(r, 1, 100_000_000) };
    Input { points: (0..k).map(|_| { let p = r.pt(m); [p[0] * s, p[1] * s] }).collect(), segs: vec![] }
}
fn p_lattice(r: &Rng, n: usize) -> Input {
    let w = r.us(1, (n as f64).sqrt() as usize + 1);
    let h = r.us(1, (n / w).max(1));
    let (sx, sy) = (log_range(r, 1, 10_000_000), if r.chance(1, 2) { 0 } else { log_range(r, 1, 10_000_000) });
    let sy = if sy == 0 { sx } else { sy };
    let o = r.pt(if r.chance(1, 2) { 1 } else { 1_000_000_000 });
    let keep = r.range(5, 10) as u64;
    let hex = r.chance(1, 3);
    let mut points = vec![];
    for i in 0..w as i64 {
        for j in 0..h as i64 {
            if r.chance(keep, 10) {
                let sh = if hex && j % 2 == 1 { sx / 2 } else { 0 };
                let p = [o[0] + i * sx + sh, o[1] + j * sy];
                if p[0].abs() <= IMAX && p[1].abs() <= IMAX {
                    points.push(p);
                }
            }
        }
    }
    if points.is_empty() {
        points.push(o);
    }
    r.shuffle(&mut points);
    Input { points, segs: vec![] }
}
pub fn circle_points(rad: i64) -> Vec<P> {
    let mut v = vec![];
    for x in 0..=rad {
        let y2 = rad * rad - x * x;
        let y = (y2 as f64).sqrt().round() as i64;
        if y * y == y2 {
            v.extend_from_slice(&[[x, y], [-x, y], [x, -y], [-x, -y]]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn p_circle(r: &Rng, n: usize) -> Input {
    let rad = *r.pick(&[5i64, 25, 65, 85, 325, 425, 1105, 5525]);
    let mut pts = circle_points(rad);
    r.shuffle(&mut pts);
    let k = r.us(3, n.max(3)).min(pts.len());
    pts.truncate(k);
    let s = log_range(r, 1, IMAX / rad / 2);
    let o = r.pt(if r.chance(1, 2) { 1 } else { IMAX / 2 });
    let mut points: Vec<P> = pts.iter().map(|p| [o[0] + p[0] * s, o[1] + p[1] * s]).collect();
    if r.chance(1, 3) {
        points.push(o);
    }
    // a second, concentric or shifted circle
    if r.chance(1, 3) {
        let o2 = if r.chance(1, 2) { o } else { [o[0] + r.range(-2, 2) * s, o[1] + r.range(-2, 2) * s] };
        let mut q = circle_points(*r.pick(&[5i64, 25, 65]));
        r.shuffle(&mut q);
        q.truncate(k);
        for p in q {
            let z = [o2[0] + p[0] * s.min(1 << 20), o2[1] + p[1] * s.min(1 << 20)];
            if z[0].abs() <= IMAX && z[1].abs() <= IMAX {
                points.push(z);
            }
        }
    }
    Input { points, segs: vec![] }
}
fn p_collinear(r: &Rng, n: usize) -> Input {
    let d = match r.below(5) {
        0 => [1, 0],
        1 => [0, 1],
        2 => [1, 1],
        3 => [1, -1],
        _ => [r.range(-50, 50), r.range(-50, 50)],
    };
    let m = log_range(r, 1, IMAX / 60);
    let o = r.pt(*r.pick(&[0i64, 10, 100_000_000]));
    let k = r.us(1, n.max(1));
    let mut points: Vec<P> = (0..k).map(|_| { let t = r.range(-m, m); [o[0] + d[0] * t, o[1] + d[1] * t] }).collect();
    if r.chance(1, 3) {
        points.push(r.pt(m));
    }
    Input { points, segs: vec![] }
}
fn p_cluster(r: &Rng, n: usize) -> Input {
    let k = r.us(2, n.max(2));
    let c = r.us(1, 4);
    let cs: Vec<P> = (0..c).map(|_| r.pt(IMAX - 2000)).collect();
    let w = log_range(r, 1, 2000);
    Input { points: (0..k).map(|_| { let o = *r.pick(&cs); let p = r.pt(w); [o[0] + p[0], o[1] + p[1]] }).collect(), segs: vec![] }
}
fn p_nearcirc(r: &Rng, n: usize) -> Input {
    let mut inp = p_circle(r, n);
    for p in inp.points.iter_mut() {
        if r.chance(1, 3) {
            p[0] = (p[0] + r.range(-1, 1)).clamp(IMIN, IMAX);
            p[1] = (p[1] + r.range(-1, 1)).clamp(IMIN, IMAX);
        }
    }
    inp
}
fn p_curve(r: &Rng, n: usize) -> Input {
    let k = r.us(2, n.max(2)) as i64;
    let kind = r.below(3);
    let m = log_range(r, 1, 40_000);
    let points = (0..k)
        .map(|i| match kind {
            0 => [i * m, i * i],
            1 => [(i * i).min(IMAX), i * m],
            _ => {
                let t = i as f64 * 0.37;
                [(t.cos() * t * m as f64) as i64, (t.sin() * t * m as f64) as i64]
            }
        })
        .collect();
    Input { points, segs: vec![] }
}
fn p_twolines(r: &Rng, n: usize) -> Input {
    let k = r.us(2, n.max(2));
    let gap = log_range(r, 1, 1_000_000_000);
    let m = log_range(r, 1, 1_000_000_000);
    let vert = r.chance(1, 2);
    let points = (0..k)
        .map(|_| {
            let (t, s) = (r.range(-m, m), if r.chance(1, 2) { gap } else { -gap });
            if vert { [s, t] } else { [t, s] }
        })
        .collect();
    Input { points, segs: vec![] }
}
fn p_extreme(r: &Rng, n: usize) -> Input {
    let k = r.us(1, n.max(1));
    let ext = [IMIN, IMIN + 1, -1, 0, 1, IMAX - 1, IMAX];
    Input { points: (0..k).map(|_| [if r.chance(4, 5) { *r.pick(&ext) } else { r.range(IMIN, IMAX) }, if r.chance(4, 5) { *r.pick(&ext) } else { r.range(IMIN, IMAX) }]).collect(), segs: vec![] }
}

// ---------------------------------------------------------------- segments
/// adds `s` if it keeps `inp` valid
pub fn try_add(inp: &mut Input, s: S) -> bool {
    let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
    if a == b {
        return false;
    }
    for t in &inp.segs {
        if t[0] == t[2] && t[1] == t[3] {
            let p = [t[0], t[1]];
            if p != a && p != b && on_segment(a, b, p) {
                return false;
            }
        } else if bad_pair(t, &s) {
            return false;
        }
    }
    for p in &inp.points {
        if *p != a && *p != b && on_segment(a, b, *p) {
            return false;
        }
    }
    inp.segs.push(s);
    true
}
pub fn try_add_pt(inp: &mut Input, p: P) -> bool {
    for t in &inp.segs {
        let (a, b) = ([t[0], t[1]], [t[2], t[3]]);
        if p != a && p != b && on_segment(a, b, p) {
            return false;
        }
    }
    inp.points.push(p);
    true
}
fn s_grid(r: &Rng, n: usize) -> Input {
    let w = r.range(1, ((n as f64 / 2.0).sqrt() as i64).max(1) + 1);
    let h = r.range(1, (n as i64 / (2 * w)).max(1) + 1);
    let keep = r.range(2, 10) as u64;
    let diag = r.chance(1, 2);
    // affine image of the grid graph: stays valid
    let (a, b, c, d) = match r.below(4) {
        0 => (1, 0, 0, 1),
        1 => (1, 1, 0, 1),
        2 => (3, -1, 2, 5),
        _ => (r.range(1, 9), r.range(-9, 9), 0, r.range(1, 9)),
    };
    let s = log_range(r, 1, 10_000_000.min((IMAX - 100_000_000) / (9 * (w + h + 2))));
    let o = r.pt(if r.chance(1, 2) { 1 } else { 100_000_000 });
    let m = |x: i64, y: i64| -> P { [o[0] + s * (a * x + b * y), o[1] + s * (c * x + d * y)] };
    let mut segs = vec![];
    for i in 0..=w {
        for j in 0..=h {
            let mut put = |r: &Rng, p: P, q: P| {
                if r.chance(keep, 10) {
                    segs.push(if r.chance(1, 2) { [p[0], p[1], q[0], q[1]] } else { [q[0], q[1], p[0], p[1]] });
                }
            };
            if i < w {
                put(r, m(i, j), m(i + 1, j));
            }
            if j < h {
                put(r, m(i, j), m(i, j + 1));
            }
            if diag && i < w && j < h {
                if r.chance(1, 2) {
                    put(r, m(i, j), m(i + 1, j + 1));
                } else {
                    put(r, m(i + 1, j), m(i, j + 1));
                }
            }
        }
    }
    if segs.is_empty() {
        let (p, q) = (m(0, 0), m(1, 0));
        segs.push([p[0], p[1], q[0], q[1]]);
    }
    r.shuffle(&mut segs);
    Input { points: vec![], segs }
}
fn s_random(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 4, IMAX / 2);
    let k = r.us(1, n.max(1));
    let len = if r.chance(1, 2) { m } else { (m / (k as i64)).max(2) };
    let mut inp = Input::default();
    let mut tries = 0;
    while inp.segs.len() < k && tries < 8 * k {
        tries += 1;
        let a = r.pt(m);
        let b = [a[0] + r.range(-len, len), a[1] + r.range(-len, len)];
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    inp
}
fn s_polygon(r: &Rng, n: usize) -> Input {
    let rings = r.us(1, 3);
    let k = r.us(3, (n / rings).max(3));
    let big = log_range(r, 50, 1_000_000_000);
    let o = r.pt(if r.chance(1, 2) { 1 } else { 100_000_000 });
    let mut inp = Input::default();
    for ring in 0..rings {
        let rad = big as f64 / (1 << ring) as f64;
        let mut pts: Vec<P> = (0..k)
            .map(|i| {
                let t = (i as f64 + 0.8 * r.f()) / k as f64 * std::f64::consts::TAU;
                let q = rad * (0.55 + 0.45 * r.f());
                [o[0] + (q * t.cos()) as i64, o[1] + (q * t.sin()) as i64]
            })
            .collect();
        pts.dedup();
        let rev = r.chance(1, 2);
        for i in 0..pts.len() {
            let (p, q) = (pts[i], pts[(i + 1) % pts.len()]);
            let s = if rev { [q[0], q[1], p[0], p[1]] } else { [p[0], p[1], q[0], q[1]] };
            try_add(&mut inp, s);
        }
    }
    if r.chance(1, 3) {
        let mut v = std::mem::take(&mut inp.segs);
        r.shuffle(&mut v);
        inp.segs = v;
    }
    inp
}
fn s_star(r: &Rng, n: usize) -> Input {
    let o = r.pt(*r.pick(&[0i64, 7, 10_000_000]));
    let m = log_range(r, 3, 1_000_000_000);
    let k = r.us(2, n.max(2));
    let mut inp = Input::default();
    for _ in 0..2 * k {
        if inp.segs.len() >= k {
            break;
        }
        let d = if m < 100 || r.chance(1, 3) { [r.range(-3, 3) * (m / 3), r.range(-3, 3) * (m / 3)] } else { r.pt(m) };
        let q = [o[0] + d[0], o[1] + d[1]];
        let s = if r.chance(1, 2) { [o[0], o[1], q[0], q[1]] } else { [q[0], q[1], o[0], o[1]] };
        try_add(&mut inp, s);
    }
    inp
}
/// Points and segments that all touch one circle: its center is a vertex of many sites at once,
/// and where a segment begins or ends at the contact, exactly on the border of its strip.
fn s_tangent(r: &Rng, n: usize) -> Input {
    let rad = *r.pick(&[5i64, 10, 25, 50, 65, 85, 325]);
    let mut pts = circle_points(rad);
    r.shuffle(&mut pts);
    let k = r.us(2, n.max(2)).min(pts.len());
    pts.truncate(k);
    let o = match r.below(6) {
        0 | 1 => [0, 0],
        2 => r.pt(3 * rad),
        3 => [r.range(-3 * rad, 3 * rad), 0],
        4 => [0, r.range(-3 * rad, 3 * rad)],
        _ => r.pt(1000 * rad),
    };
    let mut inp = Input::default();
    for p in pts {
        let g = {
            let (mut a, mut b) = (p[0].abs(), p[1].abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            a
        };
        let (dx, dy) = (-p[1] / g, p[0] / g);
        // how far the segment runs along the tangent, either way
        let reach = |r: &Rng| if r.chance(1, 2) { 0 } else { r.range(1, 2 * g.max(1)) };
        let (a, b) = (reach(r), reach(r));
        let (mut u, mut v) = ([o[0] + p[0] - a * dx, o[1] + p[1] - a * dy], [o[0] + p[0] + b * dx, o[1] + p[1] + b * dy]);
        if r.chance(1, 2) {
            (u, v) = (v, u);
        }
        if u == v {
            try_add_pt(&mut inp, u);
        } else {
            try_add(&mut inp, [u[0], u[1], v[0], v[1]]);
        }
    }
    if r.chance(1, 4) {
        try_add_pt(&mut inp, o);
    }
    let most = IMAX / inp.max_abs().max(1);
    let f = if r.chance(2, 3) { r.range((most / 2).max(1), most.max(1)) } else { log_range(r, 1, most.max(1)) };
    inp.map(&|p| [p[0] * f, p[1] * f])
}
fn s_comb(r: &Rng, n: usize) -> Input {
    let k = r.us(2, n.max(2));
    let d = match r.below(4) {
        0 => [1, 0],
        1 => [0, 1],
        2 => [1, 1],
        _ => [r.range(-30, 30), r.range(1, 30)],
    };
    let nrm = [-d[1], d[0]];
    let gap = log_range(r, 1, 100_000);
    let len = log_range(r, 1, 1_000_000);
    let equal = r.chance(1, 2);
    let mut inp = Input::default();
    for i in 0..k as i64 {
        let (t0, t1) = if equal { (0, len) } else { (r.range(-len, len), r.range(-len, len)) };
        if t0 == t1 {
            continue;
        }
        let off = i * gap;
        let a = [nrm[0] * off + d[0] * t0, nrm[1] * off + d[1] * t0];
        let b = [nrm[0] * off + d[0] * t1, nrm[1] * off + d[1] * t1];
        let s = if r.chance(1, 2) { [a[0], a[1], b[0], b[1]] } else { [b[0], b[1], a[0], a[1]] };
        if s.iter().all(|c| c.abs() <= IMAX) {
            inp.segs.push(s);
        }
        // collinear continuation
        if r.chance(1, 3) {
            let t2 = t0.max(t1) + if r.chance(1, 2) { 0 } else { r.range(1, len) };
            let t3 = t2 + r.range(1, len);
            let c = [nrm[0] * off + d[0] * t2, nrm[1] * off + d[1] * t2];
            let e = [nrm[0] * off + d[0] * t3, nrm[1] * off + d[1] * t3];
            let s = [c[0], c[1], e[0], e[1]];
            if s.iter().all(|c| c.abs() <= IMAX) {
                try_add(&mut inp, s);
            }
        }
    }
    if inp.segs.is_empty() {
        inp.segs.push([0, 0, d[0], d[1]]);
    }
    inp
}
fn s_polyline(r: &Rng, n: usize) -> Input {
    let k = r.us(1, n.max(1));
    let m = log_range(r, 2, 10_000_000);
    let wob = log_range(r, 1, m);
    let vert = r.chance(1, 2);
    let mut inp = Input::default();
    let mut x = r.range(-m, m);
    let mut y = r.range(-wob, wob);
    for _ in 0..k {
        let nx = x + r.range(1, m);
        let ny = match r.below(4) {
            0 => y,
            1 => y + r.range(-1, 1),
            _ => r.range(-wob, wob),
        };
        if nx > IMAX {
            break;
        }
        let s = if vert { [y, x, ny, nx] } else { [x, y, nx, ny] };
        inp.segs.push(if r.chance(1, 2) { s } else { [s[2], s[3], s[0], s[1]] });
        x = nx;
        y = ny;
        if r.chance(1, 8) {
            x += r.range(1, m);
            y = r.range(-wob, wob);
        }
    }
    inp
}
fn s_graph(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 3, 1_000_000_000);
    let nv = r.us(2, (n / 2).max(2) + 1);
    let vs: Vec<P> = (0..nv).map(|_| r.pt(m)).collect();
    let mut inp = Input::default();
    // candidate vertices must not be covered either: keep them as points while adding
    inp.points = vs.clone();
    let want = r.us(1, n.max(1));
    for _ in 0..4 * want {
        if inp.segs.len() >= want {
            break;
        }
        let (a, b) = (*r.pick(&vs), *r.pick(&vs));
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    if r.chance(2, 3) || inp.segs.is_empty() {
        if !inp.segs.is_empty() {
            inp.points.clear();
        }
    }
    inp
}
fn s_neartouch(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 10, 500_000_000);
    let k = r.us(2, n.max(2));
    let mut inp = Input::default();
    for i in 0..6 * k {
        if inp.segs.len() >= k {
            break;
        }
        if i == 0 || r.chance(1, 4) || inp.segs.is_empty() {
            let (a, b) = (r.pt(m), r.pt(m));
            try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
            continue;
        }
        // start one unit away from a point of an existing segment
        let t = *r.pick(&inp.segs);
        let f = r.f();
        let q = [t[0] + ((t[2] - t[0]) as f64 * f) as i64 + r.range(-1, 1), t[1] + ((t[3] - t[1]) as f64 * f) as i64 + r.range(-1, 1)];
        let e = if r.chance(1, 2) {
            r.pt(m)
        } else {
            // almost parallel to it
            [q[0] + (t[2] - t[0]) / 2 + r.range(-2, 2), q[1] + (t[3] - t[1]) / 2 + r.range(-2, 2)]
        };
        try_add(&mut inp, [q[0], q[1], e[0], e[1]]);
    }
    inp
}
fn s_tiny(r: &Rng, n: usize) -> Input {
    let m = r.range(1, 6);
    let k = r.us(1, n.max(1));
    let s = if r.chance(1, 2) { 1 } else { log_range(r, 1, 100_000_000) };
    let o = r.pt(if r.chance(1, 2) { 0 } else { 1_000_000_000 });
    let mut inp = Input::default();
    for _ in 0..4 * k {
        if inp.segs.len() >= k {
            break;
        }
        let (a, b) = (r.pt(m), r.pt(m));
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    for _ in 0..r.us(0, 3) {
        let p = r.pt(m);
        try_add_pt(&mut inp, p);
    }
    inp.map(&|p| [o[0] + p[0] * s, o[1] + p[1] * s])
}
fn s_axis(r: &Rng, n: usize) -> Input {
    let m = log_range(r, 2, 1_000_000_000);
    let q = r.range(1, m.min(20));
    let k = r.us(1, n.max(1));
    let mut inp = Input::default();
    for _ in 0..4 * k {
        if inp.segs.len() >= k {
            break;
        }
        let snap = |v: i64| v / (m / q).max(1) * (m / q).max(1);
        let a = r.pt(m);
        let a = [snap(a[0]), snap(a[1])];
        let t = snap(r.range(-m, m));
        let b = if r.chance(1, 2) { [t, a[1]] } else { [a[0], t] };
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    if inp.segs.is_empty() {
        inp.segs.push([0, 0, 0, 1]);
    }
    inp
}
const SEGF: &[fn(&Rng, usize) -> Input] = &[s_grid, s_random, s_polygon, s_star, s_comb, s_polyline, s_graph, s_neartouch, s_tiny, s_axis];
fn s_mixed(r: &Rng, n: usize) -> Input {
    let f = *r.pick(SEGF);
    let mut inp = f(r, (n / 2).max(2));
    let m = inp.max_abs().max(2);
    for _ in 0..r.us(1, (n / 2).max(2)) {
        let p = match r.below(4) {
            0 if !inp.segs.is_empty() => {
                let s = *r.pick(&inp.segs);
                if r.chance(1, 2) { [s[0], s[1]] } else { [s[2], s[3]] }
            }
            1 if !inp.segs.is_empty() => {
                let s = *r.pick(&inp.segs);
                let f = r.f() * 1.4 - 0.2;
                [s[0] + ((s[2] - s[0]) as f64 * f) as i64 + r.range(-1, 1), s[1] + ((s[3] - s[1]) as f64 * f) as i64 + r.range(-1, 1)]
            }
            _ => r.pt(m),
        };
        let p = [p[0].clamp(-IMAX, IMAX), p[1].clamp(-IMAX, IMAX)];
        try_add_pt(&mut inp, p);
    }
    inp
}
fn s_zero(r: &Rng, n: usize) -> Input {
    let mut inp = s_mixed(r, n);
    let m = inp.max_abs().max(2);
    for _ in 0..r.us(1, 4) {
        let p = if r.chance(1, 2) && !inp.segs.is_empty() {
            let s = *r.pick(&inp.segs);
            [s[0], s[1]]
        } else {
            r.pt(m)
        };
        if try_add_pt(&mut inp, p) {
            inp.points.pop();
            let at = r.us(0, inp.segs.len());
            inp.segs.insert(at, [p[0], p[1], p[0], p[1]]);
        }
    }
    inp
}
/// long segments across the whole i32 range
fn s_big(r: &Rng, n: usize) -> Input {
    let k = r.us(1, n.max(1));
    let mut inp = Input::default();
    for _ in 0..6 * k {
        if inp.segs.len() >= k {
            break;
        }
        let a = [r.range(IMIN, IMAX), r.range(IMIN, IMAX)];
        let b = [r.range(IMIN, IMAX), r.range(IMIN, IMAX)];
        let ext = [IMIN, IMAX, 0];
        let a = if r.chance(1, 3) { [*r.pick(&ext), a[1]] } else { a };
        let b = if r.chance(1, 3) { [b[0], *r.pick(&ext)] } else { b };
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    inp
}

/// points packed around the ends and along a few segments
fn s_dense(r: &Rng, n: usize) -> Input {
    let mut inp = match r.below(3) {
        0 => s_random(r, 3),
        1 => s_big(r, 3),
        _ => s_axis(r, 3),
    };
    // gaps the sweep can tell from none next to the circles of this input, see vary
    let g = (inp.max_abs() >> 17).max(1);
    let w = log_range(r, 1, (1_000_000 / g).max(4));
    for _ in 0..2 * n {
        if inp.points.len() >= n || inp.segs.is_empty() {
            break;
        }
        let s = *r.pick(&inp.segs);
        let f = match r.below(4) {
            0 => 0.0,
            1 => 1.0,
            _ => r.f(),
        };
        let q = [s[0] + ((s[2] - s[0]) as f64 * f) as i64 + g * r.range(-w, w), s[1] + ((s[3] - s[1]) as f64 * f) as i64 + g * r.range(-w, w)];
        try_add_pt(&mut inp, [q[0].clamp(IMIN, IMAX), q[1].clamp(IMIN, IMAX)]);
    }
    inp
}
/// segments between corners, borders and the centre of a range, and points next to them
fn s_extreme(r: &Rng, n: usize) -> Input {
    // a gap of 1 next to a circle of radius 2^23 differs from no gap by 64 ulp in where the circle
    // ends, which is a tie to the sweep: stay well above that
    let bits = r.range(2, 12) as u32;
    let (lo, hi) = (-(1i64 << bits), (1i64 << bits) - 1);
    let ext = [lo, lo + 1, -1, 0, 1, hi - 1, hi];
    let mut inp = Input::default();
    let k = r.us(1, n.max(1));
    let p = |r: &Rng| [if r.chance(3, 4) { *r.pick(&ext) } else { r.range(lo, hi) }, if r.chance(3, 4) { *r.pick(&ext) } else { r.range(lo, hi) }];
    for _ in 0..6 * k {
        if inp.segs.len() >= k {
            break;
        }
        let (a, b) = (p(r), p(r));
        try_add(&mut inp, [a[0], a[1], b[0], b[1]]);
    }
    for _ in 0..r.us(0, 3) {
        let q = p(r);
        try_add_pt(&mut inp, q);
    }
    inp
}
// ---------------------------------------------------------------- large, valid by construction
fn l_points(r: &Rng, n: usize) -> Input {
    let m = *r.pick(&[300i64, 30_000, 1_000_000, IMAX]);
    Input { points: (0..n).map(|_| r.pt(m)).collect(), segs: vec![] }
}
fn l_lattice(r: &Rng, n: usize) -> Input {
    let w = (n as f64).sqrt() as i64 + 1;
    let s = log_range(r, 1, IMAX / w / 2);
    let mut points: Vec<P> = (0..n as i64).map(|i| [i % w * s, i / w * s]).collect();
    r.shuffle(&mut points);
    Input { points, segs: vec![] }
}
fn l_grid(r: &Rng, n: usize) -> Input {
    let w = ((n / 2) as f64).sqrt() as i64 + 1;
    let s = log_range(r, 1, IMAX / w / 2);
    let mut segs = vec![];
    for i in 0..w {
        for j in 0..w {
            for d in [[1, 0], [0, 1]] {
                if segs.len() < n && r.chance(9, 10) {
                    segs.push([i * s, j * s, (i + d[0]) * s, (j + d[1]) * s]);
                }
            }
        }
    }
    r.shuffle(&mut segs);
    Input { points: vec![], segs }
}
fn l_poly(r: &Rng, n: usize) -> Input {
    // an upright one has all of it in the beach line at once, which the library searches step by step
    let n = n.min(10_000);
    let step = IMAX / n.max(1) as i64;
    let h = log_range(r, 1, 1_000_000_000);
    let mut segs = vec![];
    let (mut x, mut y) = (-IMAX / 2, 0);
    for _ in 0..n {
        let (nx, ny) = (x + r.range(1, step.max(1)), r.range(-h, h));
        segs.push([x, y, nx, ny]);
        (x, y) = (nx, ny);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut segs);
    }
    Input { points: vec![], segs }
}
/// one short segment or some points in each square of a grid
fn l_mixed(r: &Rng, n: usize) -> Input {
    let w = (n as f64).sqrt() as i64 + 1;
    let s = (IMAX / w).min(log_range(r, 20, 1_000_000));
    let mut inp = Input::default();
    for i in 0..w {
        for j in 0..w {
            if inp.n() >= n {
                break;
            }
            let q = |r: &Rng| [(i - w / 2) * s + r.range(1, s - 2), (j - w / 2) * s + r.range(1, s - 2)];
            let (a, b) = (q(r), q(r));
            if a != b && r.chance(2, 3) {
                inp.segs.push([a[0], a[1], b[0], b[1]]);
            } else {
                inp.points.push(a);
            }
        }
    }
    inp
}

/// many of one kind at one place: counts around the powers of two
fn m_many(r: &Rng, n: usize) -> Input {
    let mut k = 4;
    while k * 2 <= n && r.chance(5, 6) {
        k *= 2;
    }
    let k = (k as i64 + r.range(-1, 2)).max(2);
    let mut inp = Input::default();
    let g = *r.pick(&[1i64, 1, 2, 5, 100, 10_000]);
    // directions that do not cover one another
    let gcd = |a: i64, b: i64| {
        let (mut a, mut b) = (a.abs(), b.abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let dirs = |half: bool, m: i64| {
        let mut v: Vec<P> = (-m..=m).flat_map(|x| (-m..=m).map(move |y| [x, y])).filter(|d| gcd(d[0], d[1]) == 1 && (!half || d[0] > 0)).collect();
        r.shuffle(&mut v);
        v.truncate(k as usize);
        v
    };
    let m = ((k as f64).sqrt() * 1.5) as i64 + 3;
    match r.below(9) {
        // a column of points
        0 => inp.points = (0..k).map(|i| [0, i * g]).collect(),
        // of segments
        1 => {
            let gap = r.range(0, 1);
            inp.segs = (0..k).map(|i| [0, i * 2 * g, 0, (i * 2 + 1) * g + g * (1 - gap)]).collect();
        }
        // segments from one place
        2 => {
            let l = r.range(1, 4) * g;
            inp.segs = dirs(r.chance(1, 2), m).iter().map(|d| [0, 0, d[0] * l, d[1] * l]).collect();
        }
        // the same place again and again
        3 => {
            inp.points = vec![[3 * g, 4 * g]; k as usize];
            inp.segs = vec![[-g, 0, g, r.range(-3, 3)]];
        }
        // a circle
        4 => {
            let rad = *r.pick(&[325i64, 1105, 5525, 32045]);
            inp.points = circle_points(rad);
            r.shuffle(&mut inp.points);
            inp.points.truncate(k as usize);
        }
        // a pile of segments
        5 => inp.segs = (0..k).map(|i| [-r.range(1, 50) * g, i * 2 * g, r.range(1, 50) * g, (i * 2 + r.range(0, 1)) * g]).collect(),
        // points along a segment
        6 => {
            inp.segs.push([0, 0, 2 * k * g, 0]);
            let up = r.chance(1, 2);
            inp.points = (0..k).map(|i| [(2 * i + 1) * g, if up || i % 2 == 0 { g } else { -g }]).collect();
        }
        // a chain of segments, straight or not
        7 => {
            let w = r.range(0, 2);
            inp.segs = (0..k).map(|i| [i * 2 * g, (i % 2) * w * g, (i + 1) * 2 * g, ((i + 1) % 2) * w * g]).collect();
        }
        // points seen from one place
        _ => inp.points = dirs(false, m).iter().map(|d| [d[0] * g, d[1] * g]).collect(),
    }
    // turned as it is, with something beside it
    let t = r.below(8);
    let mut inp = inp.map(&|p| {
        let p = if t & 1 != 0 { [p[1], p[0]] } else { p };
        [if t & 2 != 0 { -p[0] } else { p[0] }, if t & 4 != 0 { -p[1] } else { p[1] }]
    });
    for s in &mut inp.segs {
        if r.chance(1, 2) {
            *s = [s[2], s[3], s[0], s[1]];
        }
    }
    let far = inp.max_abs();
    for _ in 0..r.us(0, 3) {
        let p = r.pt(far + 5 * g);
        inp.points.push([p[0] + 2 * far + 10 * g, p[1]]);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut inp.points);
        r.shuffle(&mut inp.segs);
    }
    inp
}

/// the inputs that come with the repository's examples (those that keep the contract)
fn corpus() -> &'static Vec<Input> {
    static C: std::sync::OnceLock<Vec<Input>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        for l in include_str!("corpus.txt").lines() {
            let x: Vec<i64> = l.split_whitespace().map(|w| w.parse().unwrap()).collect();
            let n = 2 + 2 * x[0] as usize;
            let all = Input { points: x[2..n].chunks(2).map(|c| [c[0], c[1]]).collect(), segs: x[n..].chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() };
            assert!(all.segs.len() == x[1] as usize);
            if all.valid() {
                v.push(all);
                continue;
            }
            let mut i = Input::default();
            all.segs.iter().for_each(|s| _ = try_add(&mut i, *s));
            all.points.iter().for_each(|p| _ = try_add_pt(&mut i, *p));
            v.push(i);
        }
        v
    })
}
/// one of them, whole, in part, with ends moved, with more around
fn c_files(r: &Rng, n: usize) -> Input {
    let all = corpus();
    let mut inp = loop {
        let i = r.pick(all);
        if i.n() <= 4 * n {
            break i.clone();
        }
    };
    let m = inp.max_abs();
    if r.chance(1, 3) {
        let k = r.range(2, 9);
        inp.segs.retain(|_| r.below(10) < k as u64);
        inp.points.retain(|_| r.below(10) < k as u64);
    }
    // gaps of one in a large input are outside of what the sweep resolves
    if m < 1 << 17 {
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let ends: Vec<P> = inp.points.iter().copied().chain(inp.segs.iter().flat_map(|s| [[s[0], s[1]], [s[2], s[3]]])).collect();
                if ends.is_empty() {
                    break;
                }
                let e = *r.pick(&ends);
                let by = r.pt(log_range(r, 1, (m / 4).max(1)));
                let to = if r.chance(1, 6) { *r.pick(&ends) } else { [e[0] + by[0], e[1] + by[1]] };
                let next = inp.map(&|p| if p == e { to } else { p });
                if next.valid() {
                    inp = next;
                }
            }
        }
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 6) {
                let (p, q) = (r.pt(m + 2), r.pt(m + 2));
                if r.chance(1, 2) {
                    try_add_pt(&mut inp, p);
                } else {
                    try_add(&mut inp, [p[0], p[1], q[0], q[1]]);
                }
            }
        }
    }
    inp
}
/// two small inputs of other families, one beside, around or inside the other
fn x_union(r: &Rng, n: usize) -> Input {
    const F: &[&str] = &["p_tinygrid", "p_lattice", "p_circle", "p_collinear", "p_twolines", "s_grid", "s_polygon", "s_star", "s_comb", "s_polyline", "s_graph", "s_tiny", "s_axis", "c_files", "m_many"];
    let one = || {
        for _ in 0..8 {
            let i = (family(r.pick(F)).f)(r, (n / 2).max(3));
            if i.max_abs() < 1 << 16 {
                return i;
            }
        }
        Input::new(&[[0, 0], [3, 4]], &[])
    };
    let (mut a, b) = (one(), one());
    let (ma, mb) = (a.max_abs().max(1), b.max_abs().max(1));
    let f = if r.chance(1, 2) { (ma / mb).clamp(1, 64) } else { 1 };
    let o = match r.below(4) {
        0 => [0, 0],
        1 => [ma + mb * f + r.range(-2, 2), r.range(-2, 2)],
        2 => r.pt(ma + 1),
        // an end of one on an end of the other
        _ => {
            let ends = |i: &Input| i.points.iter().copied().chain(i.segs.iter().flat_map(|s| [[s[0], s[1]], [s[2], s[3]]])).collect::<Vec<P>>();
            let (ea, eb) = (ends(&a), ends(&b));
            if ea.is_empty() || eb.is_empty() {
                [0, 0]
            } else {
                let (p, q) = (*r.pick(&ea), *r.pick(&eb));
                [p[0] - q[0] * f, p[1] - q[1] * f]
            }
        }
    };
    let b = b.map(&|p| [p[0] * f + o[0], p[1] * f + o[1]]);
    for s in &b.segs {
        if s[0] == s[2] && s[1] == s[3] {
            if try_add_pt(&mut a, [s[0], s[1]]) {
                a.points.pop();
                a.segs.push(*s);
            }
        } else {
            try_add(&mut a, *s);
        }
    }
    b.points.iter().for_each(|p| _ = try_add_pt(&mut a, *p));
    a
}

// ---------------------------------------------------------------- all small inputs
/// the workloads that list every input of a kind: side of the grid, most segments, most points;
/// `_big` ones are stretched over the whole range
const ENUMS: &[(&str, i64, usize, usize)] = &[("e_points", 4, 0, 16), ("e_segs", 3, 3, 0), ("e_mixed", 3, 2, 2), ("e_pairs", 4, 2, 1), ("e_triples", 4, 3, 0), ("e_spread", 6, 0, 4), ("e_far", 5, 2, 0)];
/// ids of grid points (below 100) and of segments (100 a + b) of every valid input of the kind
fn enum_list(name: &str) -> &'static Vec<Vec<u16>> {
    static C: [std::sync::OnceLock<Vec<Vec<u16>>>; ENUMS.len()] = [const { std::sync::OnceLock::new() }; ENUMS.len()];
    let k = ENUMS.iter().position(|e| e.0 == name.trim_end_matches("_big")).unwrap_or_else(|| panic!("no workload {name}"));
    C[k].get_or_init(|| {
        let (_, g, ms, mp) = ENUMS[k];
        let n = (g * g) as u16;
        let at = |i: u16| [i as i64 / g, i as i64 % g];
        let mut out = Vec::new();
        let segs: Vec<(u16, u16)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
        let of = |s: &(u16, u16)| [at(s.0)[0], at(s.0)[1], at(s.1)[0], at(s.1)[1]];
        // sets of segments
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..ms {
            let to = sets.len();
            for i in from..to {
                let start = sets[i].last().map_or(0, |l| l + 1);
                for j in start..segs.len() {
                    if sets[i].iter().all(|&l| !bad_pair(&of(&segs[l]), &of(&segs[j]))) {
                        let mut s = sets[i].clone();
                        s.push(j);
                        sets.push(s);
                    }
                }
            }
            from = to;
        }
        for s in &sets {
            // points that may stand beside them
            let free: Vec<u16> = (0..n).filter(|&p| s.iter().all(|&j| !on_segment(at(segs[j].0), at(segs[j].1), at(p)))).collect();
            let base: Vec<u16> = s.iter().map(|&j| 100 * (segs[j].0 + 1) + segs[j].1).collect();
            let mut ps: Vec<Vec<u16>> = vec![vec![]];
            let mut lo = 0;
            for _ in 0..mp {
                let hi = ps.len();
                for i in lo..hi {
                    let last = ps[i].last().copied();
                    for &q in free.iter().filter(|&&q| last.map_or(true, |l| q > l)) {
                        let mut v = ps[i].clone();
                        v.push(q);
                        ps.push(v);
                    }
                }
                lo = hi;
            }
            for v in ps {
                if !v.is_empty() || !base.is_empty() {
                    out.push(base.iter().copied().chain(v).collect());
                }
            }
        }
        out
    })
}
pub fn enum_len(name: &str) -> u64 {
    enum_list(name).len() as u64
}
pub fn enumerated(name: &str, idx: u64) -> Input {
    let g = ENUMS.iter().find(|e| e.0 == name.trim_end_matches("_big")).unwrap().1;
    let at = |i: u16| [i as i64 / g, i as i64 % g];
    let mut inp = Input::default();
    for &e in &enum_list(name)[idx as usize] {
        if e < 100 {
            inp.points.push(at(e));
        } else {
            let (a, b) = (at(e / 100 - 1), at(e % 100));
            inp.segs.push([a[0], a[1], b[0], b[1]]);
        }
    }
    if name.ends_with("_big") {
        // an odd factor, over the whole range
        let f = ((IMAX - IMIN) / (g - 1)) | 1;
        let f = if f * (g - 1) > IMAX - IMIN { f - 2 } else { f };
        inp = inp.map(&|p| [p[0] * f + IMIN, p[1] * f + IMIN]);
    }
    inp
}

/// inputs that break every rule of the contract: crossing, overlapping, covering each other
pub fn hostile(r: &Rng, size: usize) -> Input {
    let mut inp = Input::default();
    let n = r.us(1, size.max(1));
    let m = *r.pick(&[1i64, 2, 3, 5, 10, 30, 100, 1000, 1 << 15, 1 << 23, (1 << 31) - 1]);
    let pt = |r: &Rng| -> P {
        if m == (1 << 31) - 1 && r.chance(1, 6) {
            [*r.pick(&[-(1i64 << 31), (1 << 31) - 1, 0, -1]), *r.pick(&[-(1i64 << 31), (1 << 31) - 1, 0, 1])]
        } else {
            r.pt(m)
        }
    };
    let seg = |a: P, b: P| [a[0], a[1], b[0], b[1]];
    let c = pt(r);
    for _ in 0..n {
        let k = r.below(12);
        let prev = if inp.segs.is_empty() { None } else { Some(*r.pick(&inp.segs)) };
        match (k, prev) {
            (0 | 1, _) => inp.points.push(pt(r)),
            // through one point, or nearly
            (2, _) => {
                let a = pt(r);
                let b = [(2 * c[0] - a[0]).clamp(-m, m), (2 * c[1] - a[1]).clamp(-m, m)];
                inp.segs.push(seg(a, b));
            }
            // a point inside a segment
            (3, Some(s)) => {
                let t = r.f();
                inp.points.push([s[0] + ((s[2] - s[0]) as f64 * t) as i64, s[1] + ((s[3] - s[1]) as f64 * t) as i64]);
            }
            // an overlapping segment, collinear or nearly
            (4, Some(s)) => {
                let (t, u) = (r.f() * 1.5 - 0.25, r.f() * 1.5 - 0.25);
                let at = |t: f64| [(s[0] + ((s[2] - s[0]) as f64 * t) as i64).clamp(-m, m), (s[1] + ((s[3] - s[1]) as f64 * t) as i64).clamp(-m, m)];
                inp.segs.push(seg(at(t), at(u)));
            }
            // from an endpoint, or from the inside of a segment
            (5, Some(s)) => inp.segs.push(seg([s[0], s[1]], pt(r))),
            (6, Some(s)) => inp.segs.push(seg([(s[0] + s[2]) / 2, (s[1] + s[3]) / 2], pt(r))),
            // one step beside another
            (7, Some(s)) => inp.segs.push([s[0], (s[1] + 1).min(m), s[2], (s[3] - 1).max(-m)]),
            (8, Some(s)) => inp.segs.push([s[2], s[3], s[0], s[1]]),
            (9, _) => {
                let a = pt(r);
                inp.segs.push([a[0], -m, a[0], a[1]]);
            }
            (10, _) => {
                let a = pt(r);
                inp.segs.push([-m, a[1], a[0], a[1]]);
            }
            _ => {
                let (a, b) = (pt(r), pt(r));
                inp.segs.push(seg(a, b));
            }
        }
    }
    r.shuffle(&mut inp.segs);
    inp
}
