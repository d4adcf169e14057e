//! What stands around the diagram: hostile input, the builder's interface, conversions, the file
//! reader, the drawing aids, memory.
use crate::alloc;
use crate::gen;
use crate::input::*;
use crate::plans::geom::*;
use crate::rng::{hash, Rng};
use crate::run::*;
use crate::snap::*;
use boostvoronoi::prelude::*;
use boostvoronoi::{read_boost_input_buffer, read_boost_input_file, to_segments_offset, Aabb2, SimpleAffine, VoronoiVisualUtils};
use std::io::{BufReader, Read};

// ------------------------------------------------------------------ C10 hostile input
fn c10(c: &mut Case) {
    let r = c.rng.clone();
    let wide = c.work.name == "hostile64";
    let inp = match &c.over {
        Some(i) => i.clone(),
        None if wide => {
            let m = (1i64 << r.us(32, 62)) - 1;
            let f = r.us(1, 1 << 20) as i64;
            // one step and one stretched
            let i = gen::hostile(&r, c.work.size);
            let (dx, dy) = (r.range(-m, m), r.range(-m, m));
            let g = m / i.max_abs().max(1) / 4;
            let g = if r.chance(1, 2) { g.max(1) } else { f.min(g.max(1)) };
            i.map(&|p| [(p[0] * g).saturating_add(dx / 4), (p[1] * g).saturating_add(dy / 4)])
        }
        None => gen::hostile(&r, c.work.size),
    };
    let inp = c.use_input(inp);
    let ill = inp.n() <= 400 && !inp.valid();
    let d = guarded(|| if wide { build_t::<i64, f64>(&inp) } else { build(&inp) });
    c.rep.nontrivial = ill || wide;
    if ill {
        c.rep.count("inputs_that_break_the_contract", 1);
    }
    let d = match d {
        Err(m) => return c.bad(format!("the build panicked: {m}")),
        Ok(Err(e)) => {
            c.rep.count("errors", 1);
            if ill && !wide {
                c.rep.count(&format!("errors_{}", format!("{e:?}").split(['(', ' ']).next().unwrap_or("")), 1);
            }
            return;
        }
        Ok(Ok(d)) => d,
    };
    c.rep.count("diagrams", 1);
    // what came out can be looked at
    let o = guarded(|| {
        let s = snap(&d);
        let (ne, nv, nc) = (s.edges.len(), s.verts.len(), s.cells.len());
        if s.cells.iter().any(|k| inp.resolve(k.src, k.cat).is_none()) {
            return Some("a cell names an input element that does not exist".to_string());
        }
        // every accessor answers, with whatever there is
        for i in (0..ne.min(300)).map(ei) {
            let _ = (d.edge_get_twin(i), d.edge_get_next(i), d.edge_get_cell(i), d.edge_get_vertex0(i), d.edge_get_vertex1(i), d.edge_is_finite(i), d.edge_rot_next(i), d.edge_rot_prev(Some(i)), d.edge_as_line(i));
            let _ = d.edge_rot_next_iterator(Some(i)).take(ne + 1).count() + d.edge_rot_prev_iterator(Some(i)).take(ne + 1).count();
        }
        for i in (0..nc.min(300)).map(ci) {
            let _ = d.cell_edge_iterator(i).take(ne + 1).count();
        }
        for i in (0..nv.min(300)).map(vi) {
            let _ = (d.vertex_get_incident_edge(Some(i)), d.vertex_is_site_point(i));
        }
        let _ = d.vertices_get_aabb::<i32>();
        None
    });
    match o {
        Err(m) => c.bad(format!("looking at the diagram panicked: {m}")),
        Ok(Some(m)) => c.bad(m),
        Ok(None) => {}
    }
}
pub const C10: Plan = Plan {
    id: "C10",
    rule: "generated input of 1 to 2000 elements that cross, overlap, cover and touch each other, coordinates from one-digit numbers to the ends of the 32-bit range, and 64-bit coordinates beyond; non-trivial: the input breaks the contract; distinct by input",
    assumptions: &["the release profile: the library's debug assertions stop on what such inputs lead to, by intention"],
    work: |t| {
        let f = t.n(1, 10);
        vec![
            work("hostile", 3, 150_000 * f),
            work("hostile", 6, 300_000 * f),
            work("hostile", 20, 100_000 * f),
            work("hostile", 100, 6_000 * f),
            work("hostile", 2000, 60 * f),
            work("hostile64", 3, 30_000 * f),
            work("hostile64", 15, 30_000 * f),
        ]
    },
    run: c10,
    need: &[("inputs_that_break_the_contract", 200_000), ("errors", 10_000), ("diagrams", 200_000)],
};

// ------------------------------------------------------------------ C20 discretized arcs
fn c20(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let r = c.rng.clone();
    let mut n = 0;
    for e in 0..s.edges.len() {
        let ed = &s.edges[e];
        let (Some(t), Some(v0), Some(v1), Some(cell)) = (ed.twin, ed.v0, s.v1(e), ed.cell) else { continue };
        if ed.linear {
            continue;
        }
        let (Some(a), Some(b)) = (inp.resolve(s.cells[cell].src, s.cells[cell].cat), s.edges[t].cell.and_then(|k| inp.resolve(s.cells[k].src, s.cells[k].cat))) else { continue };
        let (p, q0, q1) = match (a, b) {
            (Site::Pt(p), Site::Seg(x, y)) | (Site::Seg(x, y), Site::Pt(p)) => (p, x, y),
            _ => continue,
        };
        let (q0, q1) = if r.chance(1, 2) { (q0, q1) } else { (q1, q0) };
        n += 1;
        if n > 40 {
            break;
        }
        let (w0, w1) = ([s.verts[v0].x, s.verts[v0].y], [s.verts[v1].x, s.verts[v1].y]);
        arc::<f64>(c, &r, p, q0, q1, w0, w1, f64::EPSILON);
        if r.chance(1, 2) {
            arc::<f32>(c, &r, p, q0, q1, w0, w1, f32::EPSILON as f64);
        }
        if !c.rep.viols.is_empty() {
            return;
        }
    }
    c.rep.nontrivial = c.rep.counts.contains_key("arcs_judged");
}
fn arc<F: OutputType>(c: &mut Case, r: &Rng, p: P, q0: P, q1: P, w0: [f64; 2], w1: [f64; 2], eps: f64) {
    let f = |x: f64| F::from(x).unwrap();
    let g = |x: F| x.to_f64().unwrap();
    // where it is drawn
    let mut aff = SimpleAffine::<F>::default();
    match r.below(3) {
        0 => {}
        1 => {
            let (lo, hi) = ([p[0].min(q0[0]).min(q1[0]), p[1].min(q0[1]).min(q1[1])], [p[0].max(q0[0]).max(q1[0]), p[1].max(q0[1]).max(q1[1])]);
            let mut src = Aabb2::<F>::default();
            src.update_vertex(f(lo[0] as f64), f(lo[1] as f64));
            src.update_vertex(f(hi[0] as f64), f(hi[1] as f64));
            let mut dst = Aabb2::<F>::default();
            dst.update_vertex(f(r.range(-500, 500) as f64), f(r.range(-500, 500) as f64));
            dst.update_vertex(f(r.range(600, 2000) as f64), f(r.range(600, 2000) as f64));
            aff = SimpleAffine::new::<i32>(&src, &dst).expect("both boxes are set");
        }
        _ => {
            aff.to_offset = [f(r.range(-1000, 1000) as f64), f(r.range(-1000, 1000) as f64)];
            aff.zoom(f(0.01 + r.f() * 10.0));
        }
    }
    let it = |v: P| Point::<i32> { x: v[0] as i32, y: v[1] as i32 };
    let (pt, line) = (it(p), Line::<i32> { start: it(q0), end: it(q1) });
    let (d0, d1) = (aff.transform(f(w0[0]), f(w0[1])), aff.transform(f(w1[0]), f(w1[1])));
    let ab = |v: [F; 2]| [g(v[0]), g(v[1])];
    let (pp, s0, s1) = (ab(aff.transform_p(&pt)), ab(aff.transform_p(&line.start)), ab(aff.transform_p(&line.end)));
    // frame of the segment: u along, v across
    let (dx, dy) = (s1[0] - s0[0], s1[1] - s0[1]);
    let len = dx.hypot(dy);
    let frame = |q: [f64; 2]| {
        let (x, y) = (q[0] - s0[0], q[1] - s0[1]);
        [(x * dx + y * dy) / len, (dx * y - dy * x) / len]
    };
    let fp = frame(pp);
    let (x0, h) = (fp[0], fp[1]);
    let (a, b) = (frame(ab(d0)), frame(ab(d1)));
    let reach = (a[0] - x0).abs().max((b[0] - x0).abs());
    // what rounding may do: coordinates are right to eps of their size (before and after the
    // transformation), and the parabola answers to its focus with the square of the slope
    let src = [p[0], p[1], q0[0], q0[1], q1[0], q1[1]].iter().map(|v| v.unsigned_abs() as f64).fold(0.0, f64::max).max(w0[0].abs()).max(w0[1].abs()).max(w1[0].abs()).max(w1[1].abs());
    let size = [pp[0], pp[1], s0[0], s0[1], s1[0], s1[1]].iter().chain(ab(d0).iter()).chain(ab(d1).iter()).map(|v| v.abs()).fold(0.0, f64::max);
    let size = size.max(src * g(aff.scale[0]).abs()).max(len);
    let slope = 1.0 + (reach / h).powi(2);
    let tol = 64.0 * eps * size * slope;
    let bow = (b[0] - a[0]).powi(2) / (8.0 * h.abs());
    let max_dist = match r.below(4) {
        0 => bow * 2.0f64.powf(r.f() * 4.0),
        1 => bow * 2.0f64.powf(-r.f() * 4.0),
        2 => bow * 2.0f64.powf(-r.f() * 16.0),
        _ => size * 2.0f64.powf(-r.f() * 12.0),
    };
    if !(tol < max_dist * 0.01 && h != 0.0 && bow / max_dist < 1e6) {
        c.rep.count("arcs_skipped_as_ill_conditioned", 1);
        return;
    }
    let mut out = vec![d0, d1];
    let got = guarded(|| VoronoiVisualUtils::discretize(&pt, &line, f(max_dist), &aff, &mut out));
    let what = format!("point {p:?} segment {q0:?} {q1:?} from {w0:?} to {w1:?} scale {:?} max_dist {max_dist}", aff.scale);
    if let Err(m) = got {
        return c.bad(format!("discretize panicked: {m}; {what}"));
    }
    c.rep.count("arcs_judged", 1);
    c.rep.count("points_on_arcs", out.len() as u64);
    c.rep.max("most_points_on_an_arc", out.len() as f64);
    if d0[0] == d1[0] && d0[1] == d1[1] {
        if out.len() != 2 {
            c.bad(format!("an arc without extent has {} points; {what}", out.len()));
        }
        return;
    }
    if out.len() < 2 || out[0] != d0 || out[out.len() - 1] != d1 {
        return c.bad(format!("the ends of the arc {d0:?} {d1:?} became {:?} {:?} ({} points); {what}", out[0], out[out.len() - 1], out.len()));
    }
    let q: Vec<[f64; 2]> = out.iter().map(|v| frame(ab(*v))).collect();
    let dir = (b[0] - a[0]).signum();
    for (i, v) in q.iter().enumerate() {
        let x = ab(out[i]);
        let (to_p, to_s) = ((x[0] - pp[0]).hypot(x[1] - pp[1]), v[1].abs());
        if i > 0 && i + 1 < q.len() {
            c.rep.max("largest_deviation_in_tolerances", (to_p - to_s).abs() / tol);
            if !((to_p - to_s).abs() <= tol) || v[1] * h < 0.0 {
                return c.bad(format!("point {i} of {} {x:?} is {to_p} from the point and {to_s} from the segment; {what}", q.len()));
            }
        }
        if i > 0 && !((v[0] - q[i - 1][0]) * dir >= -tol) {
            return c.bad(format!("points {} and {i} of {} are not in the order of the arc: {q:?} (along, across), {out:?}, tolerance {tol}; {what}", i - 1, q.len()));
        }
    }
    // how far the arc is from the chord over [a, b]
    let par = |x: f64| ((x - x0).powi(2) + h * h) / (2.0 * h);
    let gap = |a: f64, b: f64| {
        let w = (b - a).abs();
        if w == 0.0 {
            return 0.0;
        }
        w * w / (8.0 * h.abs()) * w / w.hypot(par(b) - par(a))
    };
    let slack = if eps > 1e-10 { 1e-3 } else { 1e-6 };
    for w in q.windows(2) {
        let e = gap(w[0][0], w[1][0]);
        if e > max_dist * (1.0 + slack) + 2.0 * tol {
            return c.bad(format!("between {w:?} (along, across) the arc is {e} from the chord; {what}"));
        }
    }
    // an arc is only divided where that is needed: a point has a reason in one of its sides
    if q.len() > 2 {
        let (lo, hi) = (a[0].min(b[0]) - tol, a[0].max(b[0]) + tol);
        for w in q.windows(2) {
            let (x, y) = (w[0][0].min(w[1][0]), w[0][0].max(w[1][0]));
            let d = y - x;
            let mid = slack * d + tol;
            let left = x - d >= lo - mid && gap(x - d, y) > max_dist * (1.0 - 4.0 * slack) - 4.0 * tol;
            let right = y + d <= hi + mid && gap(x, y + d) > max_dist * (1.0 - 4.0 * slack) - 4.0 * tol;
            if !left && !right && d > 16.0 * tol {
                return c.bad(format!("the arc was divided at {w:?} (along, across) without need, {} points; {what}", q.len()));
            }
        }
    }
    // the projection that the drawing rests on
    let t = g(VoronoiVisualUtils::point_projection(&aff, &d0, &line));
    if !((t * len - a[0]).abs() <= tol) {
        c.bad(format!("point_projection is {t}, expected {}; {what}", a[0] / len));
    }
}
pub const C20: Plan = Plan {
    id: "C20",
    rule: "curved edges of diagrams of 32 families of input, drawn at several scales in f64 and f32 with tolerances from the height of the arc to a 2^16th of it; non-trivial: an arc was judged; distinct by input",
    assumptions: &["max_dist is well above the rounding of the output coordinates (100 times)", "scale is the same in both directions"],
    work: |t| {
        let f = t.n(8, 100);
        let mut v = vec![];
        for fam in FAMS.iter().filter(|f| !f.starts_with("p_") && **f != "z_points") {
            v.push(work(fam, 5, 1000 * f));
            v.push(work(fam, 14, 1000 * f));
            v.push(work(fam, 60, 100 * f));
        }
        v
    },
    run: c20,
    need: &[("arcs_judged", 50_000), ("points_on_arcs", 400_000)],
};

// ------------------------------------------------------------------ C21 boxes and transformations
fn c21(c: &mut Case) {
    let r = c.rng.clone();
    c.rep.key = hash(&format!("{}/{}/{}", c.work.name, c.seed, c.idx));
    c.rep.nontrivial = true;
    match c.work.name {
        "box" => boxes::<f64>(c, &r, 0.0),
        "box32" => boxes::<f32>(c, &r, f32::EPSILON as f64),
        "affine" => affine::<f64>(c, &r, f64::EPSILON),
        "affine32" => affine::<f32>(c, &r, f32::EPSILON as f64),
        _ => offsets(c, &r),
    }
}
fn boxes<F: OutputType>(c: &mut Case, r: &Rng, eps: f64) {
    let f = |x: f64| F::from(x).unwrap();
    let m = *r.pick(&[3i64, 100, 1 << 20, (1 << 31) - 1]);
    let mut b = Aabb2::<F>::default();
    let mut all: Vec<[f64; 2]> = vec![];
    let mut hist = String::new();
    let p32 = |p: P| Point::<i32> { x: p[0] as i32, y: p[1] as i32 };
    if b.get_low().is_some() || b.get_high().is_some() || b.contains_point(&p32([0, 0])).is_some() || b.contains_line(&Line::<i32>::new(p32([0, 0]), p32([1, 1]))).is_some() {
        c.bad("an empty box has an extent");
    }
    b.grow_percent::<i32>(10);
    if b.get_low().is_some() {
        c.bad("an empty box grew");
    }
    // one start of three
    let start = r.below(3);
    if start == 1 {
        let (p, q) = (r.pt(m), r.pt(m));
        b = Aabb2::new(&p32(p), &p32(q));
        all.extend([p, q].map(|p| [p[0] as f64, p[1] as f64]));
        hist += &format!("new {p:?} {q:?};");
    } else if start == 2 {
        let (p, q) = (r.pt(m), r.pt(m));
        b = Aabb2::new_from_i32::<i32>(p[0] as i32, p[1] as i32, q[0] as i32, q[1] as i32);
        all.extend([p, q].map(|p| [p[0] as f64, p[1] as f64]));
        hist += &format!("new_from_i32 {p:?} {q:?};");
    }
    for _ in 0..r.us(0, 8) {
        let (p, q) = (r.pt(m), r.pt(m));
        hist += &format!("{p:?}{q:?};");
        let mut pf = [p[0] as f64, p[1] as f64];
        match r.below(6) {
            0 => b.update_point(&p32(p)),
            1 => b.update_coordinate::<i64>(p[0] as i32, p[1] as i32),
            2 => b.update_vertex(f(pf[0]), f(pf[1])),
            3 => {
                // of any size (and a power of two times a small number, that f32 can tell)
                let q = p.map(|v| (v % (1 << 20)) << r.us(0, 40));
                b.update_i64(q[0], q[1]);
                pf = [q[0] as f64, q[1] as f64];
                hist += &format!("i64 {q:?};");
            }
            4 => b.update_f64(pf[0], pf[1]),
            _ => {
                b.update_line(&Line::<i64> { start: Point { x: p[0], y: p[1] }, end: Point { x: q[0], y: q[1] } });
                all.push([q[0] as f64, q[1] as f64]);
            }
        }
        all.push(pf);
        c.rep.count("box_updates", 1);
        let lim = |k: usize, g: fn(f64, f64) -> f64| f(all.iter().map(|p| p[k]).reduce(g).unwrap());
        let (lo, hi) = ([lim(0, f64::min), lim(1, f64::min)], [lim(0, f64::max), lim(1, f64::max)]);
        if b.get_low() != Some(lo) || b.get_high() != Some(hi) {
            return c.bad(format!("after {hist} the box is {:?} {:?}, expected {lo:?} {hi:?}", b.get_low(), b.get_high()));
        }
    }
    if all.is_empty() {
        return;
    }
    for _ in 0..6 {
        let ask = |r: &Rng| {
            let k = *r.pick(&all);
            let near = [k[0] as i64 + r.range(-1, 1), r.pick(&all)[1] as i64 + r.range(-1, 1)];
            let p = if r.chance(1, 2) { near } else { r.pt(m) };
            [p[0].clamp(-(1 << 31), (1 << 31) - 1), p[1].clamp(-(1 << 31), (1 << 31) - 1)]
        };
        let (lo, hi) = (b.get_low().unwrap(), b.get_high().unwrap());
        let inside = |p: P| (0..2).all(|k| f(p[k] as f64) >= lo[k] && f(p[k] as f64) <= hi[k]);
        let (p, q) = (ask(r), ask(r));
        c.rep.count("containments_asked", 2);
        if b.contains_point(&p32(p)) != Some(inside(p)) {
            c.bad(format!("box {lo:?} {hi:?} contains {p:?}: {:?}", b.contains_point(&p32(p))));
        }
        if b.contains_line(&Line::<i32>::new(p32(p), p32(q))) != Some(inside(p) && inside(q)) {
            c.bad(format!("box {lo:?} {hi:?} contains line {p:?} {q:?}: {:?}", b.contains_line(&Line::<i32>::new(p32(p), p32(q)))));
        }
    }
    let pc = r.range(0, 300) as i32;
    let (lo, hi) = (b.get_low().unwrap(), b.get_high().unwrap());
    let g = |x: F| x.to_f64().unwrap();
    let d = (g(hi[0]) - g(lo[0])).max(g(hi[1]) - g(lo[1])) * pc as f64 / 100.0;
    b.grow_percent::<i32>(pc);
    let (l2, h2) = (b.get_low().unwrap(), b.get_high().unwrap());
    let scale = [lo[0], lo[1], hi[0], hi[1]].iter().map(|v| g(*v).abs()).fold(d, f64::max);
    let tol = d * 1e-6 + 8.0 * (eps + f64::EPSILON) * scale;
    for k in 0..2 {
        if !((g(h2[k]) - g(hi[k]) - d).abs() <= tol && (g(lo[k]) - g(l2[k]) - d).abs() <= tol) {
            c.bad(format!("box {lo:?} {hi:?} grown by {pc} % is {l2:?} {h2:?}"));
            break;
        }
    }
    c.rep.count("boxes_grown", 1);
}
fn affine<F: OutputType>(c: &mut Case, r: &Rng, eps: f64) {
    let f = |x: f64| F::from(x).unwrap();
    let g = |x: F| x.to_f64().unwrap();
    let bx = |lo: [f64; 2], hi: [f64; 2]| {
        let mut b = Aabb2::<F>::default();
        b.update_vertex(f(lo[0]), f(lo[1]));
        b.update_vertex(f(hi[0]), f(hi[1]));
        b
    };
    let m = *r.pick(&[20i64, 1000, 1 << 20, 1 << 30]);
    let (p, q) = (r.pt(m), r.pt(m));
    let fl = |p: P| [p[0] as f64, p[1] as f64];
    let (slo, shi) = (fl([p[0].min(q[0]), p[1].min(q[1])]), fl([p[0].max(q[0]), p[1].max(q[1])]));
    let dm = *r.pick(&[30i64, 800, 4000, 1 << 16]);
    let (u, v) = (r.pt(dm), r.pt(dm));
    let (dlo, dhi) = (fl([u[0].min(v[0]), u[1].min(v[1])]), fl([u[0].max(v[0]), u[1].max(v[1])]));
    let (s, d) = (bx(slo, shi), bx(dlo, dhi));
    for (a, b) in [(&Aabb2::<F>::default(), &d), (&s, &Aabb2::default())] {
        if SimpleAffine::new::<i32>(a, b).is_ok() {
            c.bad("a transformation from or to an empty box");
        }
    }
    let what = format!("source {slo:?} {shi:?} dest {dlo:?} {dhi:?}");
    let Ok(mut a) = SimpleAffine::new::<i32>(&s, &d) else { return c.bad(format!("no transformation: {what}")) };
    if a.scale[0] != a.scale[1] || !(g(a.scale[0]) > 0.0) {
        return c.bad(format!("scale {:?}: {what}", a.scale));
    }
    let sc0 = g(a.scale[0]);
    // by the documentation: the larger side of the source fills the smaller side of the destination
    let side = (shi[0] - slo[0]).max(10.0).max((shi[1] - slo[1]).max(10.0));
    let fill = (dhi[0] - dlo[0]).max(10.0).min((dhi[1] - dlo[1]).max(10.0));
    let want = fill / side;
    // corners of the boxes are rounded
    let rounding = slo.iter().chain(&shi).map(|v| v.abs()).fold(0.0, f64::max) / side + dlo.iter().chain(&dhi).map(|v| v.abs()).fold(0.0, f64::max) / fill;
    if !((sc0 - want).abs() <= 8.0 * eps * want * (1.0 + rounding)) {
        c.bad(format!("scale {sc0}, expected {want}: {what}"));
    }
    if r.chance(1, 3) {
        let z = 0.1 + 5.0 * r.f();
        a.zoom(f(z));
        if !((g(a.scale[0]) - sc0 * z).abs() <= 8.0 * eps * sc0 * z) || a.scale[0] != a.scale[1] {
            c.bad(format!("scale {sc0} zoomed by {z} is {:?}", a.scale));
        }
    }
    let cen = [(slo[0] + shi[0]) / 2.0, (slo[1] + shi[1]) / 2.0];
    let mut off = [(dlo[0] + dhi[0]) / 2.0, (dlo[1] + dhi[1]) / 2.0];
    // a user sets the scale of an axis, or moves the destination
    let own = r.chance(1, 4);
    if own {
        let z = 0.3 + 2.0 * r.f();
        a.scale = [a.scale[0] * f(z), a.scale[1] * f(if r.chance(1, 2) { -0.7 / z } else { 1.0 })];
        let by = f(0.1 + 3.0 * r.f());
        let (was, before) = (a.transform(f(cen[0] + 1.0), f(cen[1] + 1.0)), a.scale);
        a.zoom(by);
        if a.scale != [before[0] * by, before[1] * by] || a.to_offset[0] != f(off[0]) || a.to_offset[1] != f(off[1]) {
            c.bad(format!("scale {before:?} zoomed by {by:?} is {:?}, {was:?} before", a.scale));
        }
        off = [off[0] + r.range(-dm, dm) as f64, off[1] + r.range(-dm, dm) as f64];
        a.to_offset = [f(off[0]), f(off[1])];
        c.rep.count("scales_set", 1);
    }
    let scs = [g(a.scale[0]), g(a.scale[1])];
    let (sc, scmin) = (scs[0].abs().max(scs[1].abs()), scs[0].abs().min(scs[1].abs()));
    for _ in 0..8 {
        // integer points in and around the source box
        let i = [r.range(p[0].min(q[0]), p[0].max(q[0])), r.range(p[1].min(q[1]), p[1].max(q[1]))];
        let x = fl(i);
        let t = a.transform(f(x[0]), f(x[1]));
        let pt = Point::<i32> { x: i[0] as i32, y: i[1] as i32 };
        let same = [
            a.transform_i([i[0] as i32, i[1] as i32]),
            a.transform_i(i),
            a.transform_f([f(x[0]), f(x[1])]),
            a.transform_p(&pt),
            [a.transform_x(f(x[0])), a.transform_y(f(x[1]))],
            [a.transform_fx(f(x[0])), a.transform_fy(f(x[1]))],
            [a.transform_ix(i[0]), a.transform_iy(i[1] as i32)],
        ];
        if same.iter().any(|o| *o != t) {
            return c.bad(format!("forms of transform disagree for {i:?}: {same:?}, transform {t:?}; {what}"));
        }
        let big = x[0].abs().max(x[1].abs()).max(cen[0].abs()).max(cen[1].abs()) * sc;
        let tol = 16.0 * eps * (big + off[0].abs().max(off[1].abs()));
        for k in 0..2 {
            let w = (x[k] - cen[k]) * scs[k] + off[k];
            if !((g(t[k]) - w).abs() <= tol) {
                return c.bad(format!("{i:?} goes to {t:?}, expected {w} as coordinate {k}; {what}"));
            }
            if !own && sc == sc0 && (g(t[k]) < dlo[k].min(off[k] - 5.0) - tol - 1e-6 * sc || g(t[k]) > dhi[k].max(off[k] + 5.0) + tol + 1e-6 * sc) {
                return c.bad(format!("{i:?} of the source goes to {t:?}, outside the destination; {what}"));
            }
        }
        c.rep.count("points_transformed", 1);
        // and back
        if tol / scmin < 0.2 {
            let back = a.reverse_transform::<i32>(t[0], t[1]);
            if back.as_ref().ok() != Some(&[i[0] as i32, i[1] as i32]) || a.reverse_transform::<i64>(t[0], t[1]).ok() != Some(i) {
                return c.bad(format!("{i:?} goes to {t:?} and back to {back:?}; {what}"));
            }
            c.rep.count("points_brought_back", 1);
        }
        // what is no i32 is an error
        let far = f(off[0] + (1u64 << 40) as f64 * sc * if r.chance(1, 2) { 1.0 } else { -1.0 });
        match guarded(|| (a.reverse_transform_x::<i32>(far).is_ok(), a.reverse_transform_y::<i32>(F::nan()).is_ok(), a.reverse_transform::<i32>(far, t[1]).is_ok(), a.reverse_transform::<i32>(t[0], F::infinity()).is_ok())) {
            Ok((false, false, false, false)) => c.rep.count("errors_seen", 4),
            o => return c.bad(format!("coordinates beyond 32 bits brought back: {o:?}; {what}")),
        }
    }
}
fn offsets(c: &mut Case, r: &Rng) {
    let m = *r.pick(&[10i64, 1000, 1 << 20, 1 << 28]);
    let seg: Vec<[i64; 4]> = (0..r.us(0, 6)).map(|_| [r.range(-m, m), r.range(-m, m), r.range(-m, m), r.range(-m, m)]).collect();
    let sc = |r: &Rng| if r.chance(1, 2) { *r.pick(&[1.0, -1.0, 2.0, 0.5, 0.25, -0.75]) } else { (r.f() - 0.5) * 6.0 };
    let (sx, sy) = (sc(r), sc(r));
    let (dx, dy) = (r.range(-m, m), r.range(-m, m));
    let want: Vec<[i64; 4]> = seg.iter().map(|s| [(s[0] as f64 * sx).trunc() as i64 + dx, (s[1] as f64 * sy).trunc() as i64 + dy, (s[2] as f64 * sx).trunc() as i64 + dx, (s[3] as f64 * sy).trunc() as i64 + dy]).collect();
    let s32: Vec<[i32; 4]> = seg.iter().map(|s| s.map(|v| v as i32)).collect();
    let a: Vec<[i64; 4]> = to_segments_offset::<i64, i64>(&seg, sx, sy, dx, dy).iter().map(|l| (*l).into()).collect();
    let b: Vec<[i64; 4]> = to_segments_offset::<i32, i32>(&s32, sx, sy, dx, dy).iter().map(|l| <[i32; 4]>::from(*l).map(|v| v as i64)).collect();
    let d: Vec<[i64; 4]> = to_segments_offset::<i32, i64>(&s32, sx, sy, dx, dy).iter().map(|l| (*l).into()).collect();
    if a != want || b != want || d != want {
        c.bad(format!("to_segments_offset({seg:?}, {sx}, {sy}, {dx}, {dy}) is {a:?} {b:?} {d:?}"));
    }
    c.rep.count("segments_offset", seg.len() as u64);
}
pub const C21: Plan = Plan {
    id: "C21",
    rule: "random histories of box updates, boxes and points transformed there and back, lists of segments scaled and moved; every case is non-trivial; distinct by seed and number",
    assumptions: &["a point is brought back exactly where a fifth of a unit of the source is above rounding"],
    work: |t| {
        let n = 60_000 * t.n(1, 15);
        vec![work("box", 0, n), work("box32", 0, n), work("affine", 0, n), work("affine32", 0, n), work("offset", 0, n / 2)]
    },
    run: c21,
    need: &[("box_updates", 200_000), ("containments_asked", 400_000), ("points_transformed", 400_000), ("points_brought_back", 100_000), ("scales_set", 10_000), ("segments_offset", 50_000)],
};

// ------------------------------------------------------------------ C22 the file reader
#[derive(Debug, PartialEq, Clone)]
enum Ln {
    N,
    P(P),
    S(S),
}
fn int(t: &str) -> Option<i64> {
    let d = t.strip_prefix(['+', '-']).unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let v: i128 = d.trim_start_matches('0').get(..25).map_or_else(|| d.trim_start_matches('0').parse().unwrap_or(0), |_| i128::MAX);
    let v = if t.starts_with('-') { -v } else { v };
    (v >= i32::MIN as i128 && v <= i32::MAX as i128).then_some(v as i64)
}
/// what a text lists, up to the first line that does not fit
fn listed(t: &str) -> (Vec<P>, Vec<S>) {
    let (mut ps, mut ss) = (vec![], vec![]);
    let mut lines: Vec<&str> = t.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let last = lines.len().wrapping_sub(usize::from(!t.ends_with('\n')));
    let mut it = lines.into_iter().enumerate().map(|(i, l)| {
        // a line ends in LF or CR LF
        let l = if i == last { l } else { l.strip_suffix('\r').unwrap_or(l) };
        let w: Vec<&str> = l.split(' ').collect();
        match w[..] {
            [n] => n.strip_prefix('+').unwrap_or(n).parse::<u64>().ok().filter(|_| n.bytes().all(|b| b.is_ascii_digit() || b == b'+')).map(|n| (Ln::N, n)),
            [x, y] => Some((Ln::P([int(x)?, int(y)?]), 0)),
            [a, b, c, d] => Some((Ln::S([int(a)?, int(b)?, int(c)?, int(d)?]), 0)),
            _ => None,
        }
    });
    let Some(Some((Ln::N, n))) = it.next() else { return (ps, ss) };
    while (ps.len() as u64) < n {
        let Some(Some((Ln::P(p), _))) = it.next() else { return (ps, ss) };
        ps.push(p);
    }
    let Some(Some((Ln::N, n))) = it.next() else { return (ps, ss) };
    while (ss.len() as u64) < n {
        let Some(Some((Ln::S(s), _))) = it.next() else { return (ps, ss) };
        ss.push(s);
    }
    (ps, ss)
}
/// hands out a text in small pieces, with interruptions, and may fail at some place
struct Drip {
    data: Vec<u8>,
    at: usize,
    rng: Rng,
    fail_at: Option<usize>,
    failures: u64,
}
impl Read for Drip {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 5) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.at >= f {
                self.failures += 1;
                if self.failures > 1000 {
                    panic!("the reader goes on after 1000 read errors");
                }
                return Err(std::io::Error::other("broken"));
            }
            end = f;
        }
        let n = b.len().min(end - self.at).min(self.rng.us(1, 9));
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
type Lists = (Vec<P>, Vec<S>);
fn lists<I: InputType>(r: (Vec<Point<I>>, Vec<Line<I>>)) -> Lists {
    let g = |v: I| v.to_i64().unwrap();
    (r.0.iter().map(|p| [g(p.x), g(p.y)]).collect(), r.1.iter().map(|l| [g(l.start.x), g(l.start.y), g(l.end.x), g(l.end.y)]).collect())
}
fn c22(c: &mut Case) {
    let r = c.rng.clone();
    c.rep.key = hash(&format!("{}/{}/{}", c.work.name, c.seed, c.idx));
    let m = *r.pick(&[9i64, 1000, (1 << 31) - 1]);
    let co = |r: &Rng| if r.chance(1, 30) { *r.pick(&[i32::MIN as i64, i32::MAX as i64, 0]) } else { r.range(-m, m) };
    let k = match c.work.name {
        "long" => 70_000,
        _ if r.chance(1, 50) => 3000,
        _ => 12,
    };
    let ps: Vec<P> = (0..r.us(0, k)).map(|_| [co(&r), co(&r)]).collect();
    let ss: Vec<S> = (0..r.us(0, k)).map(|_| [co(&r), co(&r), co(&r), co(&r)]).collect();
    let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let num = |r: &Rng, v: i64| match r.below(20) {
        0 if v >= 0 => format!("+{v}"),
        1 if v >= 0 => format!("00{v}"),
        _ => v.to_string(),
    };
    let mut lines = vec![ps.len().to_string()];
    lines.extend(ps.iter().map(|p| p.map(|v| num(&r, v)).join(" ")));
    lines.push(ss.len().to_string());
    lines.extend(ss.iter().map(|p| p.map(|v| num(&r, v)).join(" ")));
    let mut text = lines.join(nl).into_bytes();
    if r.chance(2, 3) {
        text.extend(nl.bytes());
    }
    let mut want = Some((ps, ss));
    let mut fail_at = None;
    match c.work.name {
        "text" | "file" | "long" => {}
        "announced" => {
            // more is announced than there is
            let huge = *r.pick(&["18446744073709551615", "9223372036854775807", "1000000000000", "4294967296", "1000000000", "3000000"]);
            let at = if r.chance(1, 2) { 0 } else { lines.len() - 1 - want.as_ref().unwrap().1.len() };
            lines[at] = huge.to_string();
            let t = lines.join(nl);
            want = Some(listed(&t));
            text = t.into_bytes();
        }
        "mangled" => {
            for _ in 0..r.us(1, 3) {
                let i = r.us(0, lines.len() - 1);
                match r.below(9) {
                    0 => {
                        lines.remove(i);
                        lines.push(String::new());
                    }
                    1 => lines[i] += " ",
                    2 => lines[i] = lines[i].replace(' ', "  "),
                    3 => lines[i] = r.pick(&["", "#", "1.5 2", "1 2 3", "99999999999 1", "-2147483649 0 0 0", "0x1 0", "1\t2", "18446744073709551616", "-3", "٣ ٤", "1 2 3 4 5"]).to_string(),
                    4 => lines.insert(i, r.range(0, 20).to_string()),
                    5 => lines.insert(i, format!("{} {}", co(&r), co(&r))),
                    6 => lines.insert(i, format!("{} {} {} {}", co(&r), co(&r), co(&r), co(&r))),
                    7 => lines.truncate(i.max(1)),
                    _ => lines[i] = format!("{}{}", lines[i], r.pick(&["0", "a", "-", " 1", "\r"])),
                }
            }
            let t = lines.join(nl);
            want = Some(listed(&t));
            text = t.into_bytes();
        }
        "bytes" => {
            for _ in 0..r.us(1, 20) {
                if text.is_empty() {
                    break;
                }
                let i = r.us(0, text.len() - 1);
                text[i] = if r.chance(1, 2) { r.next() as u8 } else { *r.pick(b"0123456789 -+\n\r") };
            }
            want = std::str::from_utf8(&text).ok().map(listed);
        }
        _ => fail_at = Some(r.us(0, text.len())),
    }
    c.rep.sample = format!("{}#{} {:?}", c.work.name, c.idx, clip(&String::from_utf8_lossy(&text), 300));
    let show = format!("{:?}", clip(&String::from_utf8_lossy(&text), 500));
    if c.work.name == "file" {
        let dir = std::env::temp_dir().join(format!("bvmon-{}-{}", std::process::id(), c.idx));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let p = dir.join("input.txt");
        std::fs::write(&p, &text).expect("scratch file");
        let a = guarded(|| read_boost_input_file::<i32>(&p).map(lists));
        let b = guarded(|| read_boost_input_file::<i64>(&p).map(lists));
        let none = guarded(|| (read_boost_input_file::<i32>(&dir).is_ok(), read_boost_input_file::<i32>(&dir.join("no")).is_ok()));
        std::fs::remove_dir_all(&dir).expect("scratch directory");
        for o in [a, b] {
            match (o, &want) {
                (Ok(Ok(o)), Some(w)) if o == *w => c.rep.count("texts_read", 1),
                (o, _) => return c.bad(format!("reading the file {show} yields {}", clip(&format!("{o:?}"), 400))),
            }
        }
        if none != Ok((false, false)) {
            c.bad(format!("reading a directory and a missing file: {none:?}"));
        }
        c.rep.nontrivial = true;
        return;
    }
    for wide in [false, true] {
        let mut d = Drip { data: text.clone(), at: 0, rng: Rng::new(c.seed, "drip", c.idx), fail_at, failures: 0 };
        let (o, used) = alloc::peak(|| guarded(|| {
            let b = BufReader::with_capacity(r.us(1, 64), &mut d);
            if wide {
                read_boost_input_buffer::<i64, _>(b).map(lists)
            } else {
                read_boost_input_buffer::<i32, _>(b).map(lists)
            }
        }));
        let failed = d.failures;
        // a line of 2 bytes is a list of 1 number; vectors double
        let allowed = 100_000 + 400 * text.len() as i64;
        c.rep.max("memory_per_cent_of_allowed", used as f64 * 100.0 / allowed as f64);
        if used > allowed {
            return c.bad(format!("reading {} bytes takes {used} bytes of memory: {show}", text.len()));
        }
        match (o, &want) {
            (Err(m), _) => return c.bad(format!("the reader panicked or did not end: {m}; text {show}, read error at {fail_at:?}")),
            // a broken source is an error, unless everything has been read by then
            (Ok(Err(_)), _) if failed > 0 => c.rep.count("read_errors_reported", 1),
            (Ok(Err(e)), Some(_)) => return c.bad(format!("the reader failed: {e:?}; text {show}")),
            // bytes that are no text
            (Ok(_), None) => c.rep.count("broken_texts", 1),
            (Ok(Ok(o)), Some(w)) => {
                if o != *w {
                    return c.bad(format!("reading {show} (read error at {fail_at:?}) yields {}, expected {}", clip(&format!("{o:?}"), 400), clip(&format!("{w:?}"), 400)));
                }
                c.rep.count(if matches!(c.work.name, "text" | "long") { "texts_read" } else { "texts_read_to_where_they_break" }, 1);
            }
        }
    }
    c.rep.nontrivial = true;
}
pub const C22: Plan = Plan {
    id: "C22",
    rule: "texts of up to 140,000 elements in the format, with lines dropped, added or changed, with bytes changed, in files and from sources that give a few bytes at a time, are interrupted or break; every case is non-trivial; distinct by seed and number",
    assumptions: &["coordinates are 32-bit numbers in decimal digits, separated by one space"],
    work: |t| {
        let n = 150_000 * t.n(1, 15);
        vec![work("text", 0, n), work("file", 0, n / 10), work("mangled", 0, n * 2), work("announced", 0, n / 2), work("bytes", 0, n), work("broken", 0, n), work("long", 0, t.n(6, 40))]
    },
    run: c22,
    need: &[("texts_read", 10_000), ("texts_read_to_where_they_break", 20_000), ("read_errors_reported", 2000), ("broken_texts", 1000)],
};
