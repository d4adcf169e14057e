//! Conversions of geometry, the builder's interface, memory and effort.
use crate::alloc;
use crate::input::*;
use crate::plans::geom::*;
use crate::plans::api::{api_work, differ, must, valid, FLOOR};
use crate::rng::Rng;
use crate::run::*;
use crate::snap::*;
use boostvoronoi::prelude::*;
use boostvoronoi::SyncDiagram;
#[cfg(boostvoronoi_monitor)]
use boostvoronoi_core::monitor as M;

// ------------------------------------------------------------------ C23 conversions
macro_rules! same {
    ($c:expr, $what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        $c.rep.count("conversions", 1);
        if g != w {
            return $c.bad(format!("{}: {:?}, expected {:?}", $what, g, w));
        }
    }};
}
fn pt<T: InputType>(p: Point<T>) -> [T; 2] {
    [p.x, p.y]
}
fn ln<T: InputType>(l: Line<T>) -> [T; 4] {
    [l.start.x, l.start.y, l.end.x, l.end.y]
}
macro_rules! conversions {
    ($name:ident, $t:ty) => {
        fn $name(c: &mut Case, inp: &Input) {
            type T = $t;
            let n = |v: i64| v as T;
            for p in &inp.points {
                let a = [n(p[0]), n(p[1])];
                let [x, y] = a;
                let q = Point::<T> { x, y };
                same!(c, "Point::new", pt(Point::<T>::new(x, y)), a);
                same!(c, "Point from [T; 2]", pt(Point::<T>::from(a)), a);
                same!(c, "Point from &[T; 2]", pt(Point::<T>::from(&a)), a);
                same!(c, "Point from &Point", pt(Point::<T>::from(&q)), a);
                same!(c, "Point from geo::Coord", pt(Point::<T>::from(geo::Coord { x, y })), a);
                same!(c, "Point from &geo::Coord", pt(Point::<T>::from(&geo::Coord { x, y })), a);
                same!(c, "Point from geo::Point", pt(Point::<T>::from(geo::Point::new(x, y))), a);
                same!(c, "Point from &geo::Point", pt(Point::<T>::from(&geo::Point::new(x, y))), a);
                same!(c, "Point from cgmath::Point2", pt(Point::<T>::from(cgmath::Point2 { x, y })), a);
                same!(c, "Point from &cgmath::Point2", pt(Point::<T>::from(&cgmath::Point2 { x, y })), a);
                same!(c, "Point from mint::Point2", pt(Point::<T>::from(mint::Point2 { x, y })), a);
                same!(c, "Point from &mint::Point2", pt(Point::<T>::from(&mint::Point2 { x, y })), a);
                same!(c, "Point from nalgebra::Point2", pt(Point::<T>::from(nalgebra::Point2::new(x, y))), a);
                same!(c, "Point from &nalgebra::Point2", pt(Point::<T>::from(&nalgebra::Point2::new(x, y))), a);
                same!(c, "[f64; 2] from Point", <[f64; 2]>::from(q), [x as f64, y as f64]);
                same!(c, "as_f64", q.as_f64(), [x as f64, y as f64]);
                same!(c, "geo::Coord from Point", geo::Coord::<T>::from(q), geo::Coord { x, y });
                same!(c, "geo::Coord from &Point", geo::Coord::<T>::from(&q), geo::Coord { x, y });
                same!(c, "geo::Point from Point", geo::Point::<T>::from(q), geo::Point::new(x, y));
                same!(c, "cgmath::Point2 from Point", cgmath::Point2::<T>::from(q), cgmath::Point2 { x, y });
                same!(c, "mint::Point2 from Point", mint::Point2::<T>::from(q), mint::Point2 { x, y });
                same!(c, "nalgebra::Point2 from Point", nalgebra::Point2::<T>::from(q), nalgebra::Point2::new(x, y));
                same!(c, "cast to i64", pt(q.cast::<i64>()), *p);
                same!(c, "cast to i32", pt(q.cast::<i32>()), [p[0] as i32, p[1] as i32]);
                same!(c, "equality of points", (q == Point::<T> { x, y }, q == Point::<T> { x: y, y: x }, q == Point::<T> { x, y: !y }), (true, x == y, false));
            }
            for s in &inp.segs {
                let a = [n(s[0]), n(s[1]), n(s[2]), n(s[3])];
                let (p, q) = ([a[0], a[1]], [a[2], a[3]]);
                let l = Line::<T> { start: Point { x: p[0], y: p[1] }, end: Point { x: q[0], y: q[1] } };
                let co = |v: [T; 2]| geo::Coord { x: v[0], y: v[1] };
                let cg = |v: [T; 2]| cgmath::Point2 { x: v[0], y: v[1] };
                let mi = |v: [T; 2]| mint::Point2 { x: v[0], y: v[1] };
                let na = |v: [T; 2]| nalgebra::Point2::new(v[0], v[1]);
                let gl = geo::Line::new(co(p), co(q));
                same!(c, "Line::new", ln(Line::<T>::new(l.start, l.end)), a);
                same!(c, "Line from [T; 4]", ln(Line::<T>::from(a)), a);
                same!(c, "Line from &[T; 4]", ln(Line::<T>::from(&a)), a);
                same!(c, "Line from &Line", ln(Line::<T>::from(&l)), a);
                same!(c, "Line from [Point; 2]", ln(Line::<T>::from([l.start, l.end])), a);
                same!(c, "Line from &[Point; 2]", ln(Line::<T>::from(&[l.start, l.end])), a);
                same!(c, "Line from [[T; 2]; 2]", ln(Line::<T>::from([p, q])), a);
                same!(c, "Line from &[[T; 2]; 2]", ln(Line::<T>::from(&[p, q])), a);
                same!(c, "Line from [geo::Coord; 2]", ln(Line::<T>::from([co(p), co(q)])), a);
                same!(c, "Line from &[geo::Coord; 2]", ln(Line::<T>::from(&[co(p), co(q)])), a);
                same!(c, "Line from [geo::Point; 2]", ln(Line::<T>::from([geo::Point(co(p)), geo::Point(co(q))])), a);
                same!(c, "Line from [cgmath::Point2; 2]", ln(Line::<T>::from([cg(p), cg(q)])), a);
                same!(c, "Line from [mint::Point2; 2]", ln(Line::<T>::from([mi(p), mi(q)])), a);
                same!(c, "Line from [nalgebra::Point2; 2]", ln(Line::<T>::from([na(p), na(q)])), a);
                same!(c, "Line from geo::Line", ln(Line::<T>::from(gl)), a);
                same!(c, "Line from &geo::Line", ln(Line::<T>::from(&gl)), a);
                same!(c, "[T; 4] from Line", <[T; 4]>::from(l), a);
                same!(c, "[T; 4] from &Line", <[T; 4]>::from(&l), a);
                same!(c, "geo::Line from Line", geo::Line::<T>::from(l), gl);
                same!(c, "[mint::Point2; 2] from Line", <[mint::Point2<T>; 2]>::from(l), [mi(p), mi(q)]);
                same!(c, "cast to i64", ln(l.cast::<i64>()), *s);
                same!(c, "cast to i32", ln(l.cast::<i32>()), s.map(|v| v as i32));
            }
            // a diagram is the same whatever it is built from
            let a: Vec<[T; 2]> = inp.points.iter().map(|p| p.map(n)).collect();
            let b: Vec<[T; 4]> = inp.segs.iter().map(|p| p.map(n)).collect();
            let (p0, p1) = (|s: &[T; 4]| [s[0], s[1]], |s: &[T; 4]| [s[2], s[3]]);
            let co = |v: [T; 2]| geo::Coord { x: v[0], y: v[1] };
            let cg = |v: [T; 2]| cgmath::Point2 { x: v[0], y: v[1] };
            let mi = |v: [T; 2]| mint::Point2 { x: v[0], y: v[1] };
            let na = |v: [T; 2]| nalgebra::Point2::new(v[0], v[1]);
            let bu = Builder::<T, f64>::default;
            let Some(want) = must(c, "the build", || bu().with_vertices(a.iter())?.with_segments(b.iter())?.build()) else { return };
            let want = snap(&want);
            let ge: Vec<geo::Line<T>> = b.iter().map(|s| geo::Line::new(co(p0(s)), co(p1(s)))).collect();
            let v1: Vec<geo::Coord<T>> = a.iter().map(|p| co(*p)).collect();
            let v2: Vec<cgmath::Point2<T>> = a.iter().map(|p| cg(*p)).collect();
            let v3: Vec<mint::Point2<T>> = a.iter().map(|p| mi(*p)).collect();
            let v4: Vec<nalgebra::Point2<T>> = a.iter().map(|p| na(*p)).collect();
            let s2: Vec<[cgmath::Point2<T>; 2]> = b.iter().map(|s| [cg(p0(s)), cg(p1(s))]).collect();
            let s3: Vec<[mint::Point2<T>; 2]> = b.iter().map(|s| [mi(p0(s)), mi(p1(s))]).collect();
            let s4: Vec<[nalgebra::Point2<T>; 2]> = b.iter().map(|s| [na(p0(s)), na(p1(s))]).collect();
            let all = guarded(|| {
                [
                    ("owned arrays", bu().with_vertices(a.clone()).and_then(|x| x.with_segments(b.clone())?.build())),
                    ("geo", bu().with_vertices(v1.iter()).and_then(|x| x.with_segments(ge.iter())?.build())),
                    ("cgmath", bu().with_vertices(v2.iter()).and_then(|x| x.with_segments(s2.iter())?.build())),
                    ("mint", bu().with_vertices(v3.iter()).and_then(|x| x.with_segments(s3.iter())?.build())),
                    ("nalgebra", bu().with_vertices(v4.iter()).and_then(|x| x.with_segments(s4.iter())?.build())),
                ]
                .map(|(w, d)| (w, d.map(|d| snap(&d))))
            });
            let all = match all {
                Ok(a) => a,
                Err(m) => return c.bad(format!("a build panicked: {m}")),
            };
            for (w, d) in all {
                c.rep.count("builds_compared", 1);
                match d {
                    Err(e) => return c.bad(format!("the build from {w} failed: {e:?}")),
                    Ok(d) => {
                        if let Some(m) = differ(&want, &d) {
                            return c.bad(format!("the diagram built from {w} differs from the one built from arrays: {m}"));
                        }
                    }
                }
            }
        }
    };
}
conversions!(conv32, i32);
conversions!(conv64, i64);
fn glam32(c: &mut Case, inp: &Input) {
    let v = |a: i64, b: i64| glam::IVec2::new(a as i32, b as i32);
    for p in &inp.points {
        let g = v(p[0], p[1]);
        let q = Point::<i32> { x: g.x, y: g.y };
        same!(c, "Point from glam::IVec2", pt(Point::<i32>::from(g)), [g.x, g.y]);
        same!(c, "Point from &glam::IVec2", pt(Point::<i32>::from(&g)), [g.x, g.y]);
        same!(c, "glam::IVec2 from Point", glam::IVec2::from(q), g);
    }
    for s in &inp.segs {
        let g = [v(s[0], s[1]), v(s[2], s[3])];
        let l = Line::<i32>::from(s.map(|v| v as i32));
        same!(c, "Line from [glam::IVec2; 2]", ln(Line::<i32>::from(g)), s.map(|v| v as i32));
        same!(c, "[glam::IVec2; 2] from Line", <[glam::IVec2; 2]>::from(l), g);
    }
    let vs: Vec<_> = inp.points.iter().map(|p| v(p[0], p[1])).collect();
    let ss: Vec<_> = inp.segs.iter().map(|s| [v(s[0], s[1]), v(s[2], s[3])]).collect();
    let (Some(a), Some(b)) = (
        must(c, "the build", || build(inp)),
        must(c, "the build from glam", || Builder::<i32, f64>::default().with_vertices(vs.iter())?.with_segments(ss.iter())?.build()),
    ) else {
        return;
    };
    if let Some(m) = differ(&snap(&a), &snap(&b)) {
        return c.bad(format!("the diagram built from glam differs from the one built from arrays: {m}"));
    }
    // vertices
    macro_rules! vertices {
        ($d:expr, $f:ty, $g:ty) => {
            for v in $d.vertices() {
                let v = v.get();
                let (x, y) = (v.x(), v.y());
                same!(c, "[F; 2] from &Vertex", <[$f; 2]>::from(&v), [x, y]);
                same!(c, "geo::Coord from &Vertex", geo::Coord::<$f>::from(&v), geo::Coord { x, y });
                same!(c, "geo::Coord from Vertex", geo::Coord::<$f>::from(v), geo::Coord { x, y });
                same!(c, "geo::Point from &Vertex", geo::Point::<$f>::from(&v), geo::Point::new(x, y));
                same!(c, "geo::Point from Vertex", geo::Point::<$f>::from(v), geo::Point::new(x, y));
                same!(c, "cgmath::Point2 from &Vertex", cgmath::Point2::<$f>::from(&v), cgmath::Point2 { x, y });
                same!(c, "cgmath::Point2 from Vertex", cgmath::Point2::<$f>::from(v), cgmath::Point2 { x, y });
                same!(c, "mint::Point2 from &Vertex", mint::Point2::<$f>::from(&v), mint::Point2 { x, y });
                same!(c, "mint::Point2 from Vertex", mint::Point2::<$f>::from(v), mint::Point2 { x, y });
                same!(c, "nalgebra::Point2 from &Vertex", nalgebra::Point2::<$f>::from(&v), nalgebra::Point2::new(x, y));
                same!(c, "nalgebra::Point2 from Vertex", nalgebra::Point2::<$f>::from(v), nalgebra::Point2::new(x, y));
                same!(c, "glam from &Vertex", <$g>::from(&v), <$g>::new(x, y));
                same!(c, "glam from Vertex", <$g>::from(v), <$g>::new(x, y));
            }
        };
    }
    vertices!(a, f64, glam::DVec2);
    let Some(f) = must(c, "the build", || build_t::<i32, f32>(inp)) else { return };
    vertices!(f, f32, glam::Vec2);
}
/// try_cast: what fits is kept (fractions are cut off), what does not is an error
fn try_casts(c: &mut Case, inp: &Input) {
    use boostvoronoi::try_cast;
    let r = c.rng.clone();
    for p in inp.points.iter().copied().chain(inp.segs.iter().flat_map(|s| [[s[0], s[1]], [s[2], s[3]]])) {
        // around the ends of the types, too
        let end = [1i64 << 31, -(1i64 << 31), 1 << 52, -(1 << 52), 0, 1 << 24][r.us(0, 5)];
        for v in [p[0], p[1], end + r.range(-3, 3), p[0].saturating_mul(1 << r.us(0, 20))] {
            same!(c, "try_cast i64 to i32", try_cast::<i64, i32>(v).ok(), i32::try_from(v).ok());
            same!(c, "try_cast i64 to f64", try_cast::<i64, f64>(v).ok(), Some(v as f64));
            if v.abs() < 1 << 50 {
                let q = r.range(-3, 3);
                let f = v as f64 + q as f64 / 4.0;
                let t = (4 * v + q) / 4;
                same!(c, "try_cast f64 to i64", try_cast::<f64, i64>(f).ok(), Some(t));
                same!(c, "try_cast f64 to i32", try_cast::<f64, i32>(f).ok(), i32::try_from(t).ok());
                same!(c, "try_cast f64 to f32", try_cast::<f64, f32>(f).ok(), Some(f as f32));
            }
            if v.abs() < 1 << 24 {
                same!(c, "try_cast f32 to i32", try_cast::<f32, i32>(v as f32).ok(), Some(v as i32));
            }
        }
    }
    for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e19] {
        same!(c, "try_cast f64 to i64 of what does not fit", try_cast::<f64, i64>(f).is_err(), true);
        same!(c, "try_cast f64 to i32 of what does not fit", try_cast::<f64, i32>(f).is_err(), true);
        same!(c, "try_cast f32 to i32 of what does not fit", try_cast::<f32, i32>(f as f32).is_err(), true);
    }
}
fn c23(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    try_casts(c, &inp);
    // a vertex equal to -0.0 or 0.0 is no matter here
    conv32(c, &inp);
    conv64(c, &inp);
    glam32(c, &inp);
    c.rep.nontrivial = inp.n() > 1;
}
pub const C23: Plan = Plan {
    id: "C23",
    rule: "generated input of one of 36 families, every element in every type of geometry, every vertex of the diagram in every type; non-trivial: more than one element; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 1.0).into_iter().filter(|w| w.size < 20_000).collect(),
    run: c23,
    need: &[("conversions", 1_000_000), ("builds_compared", 20_000)],
};

// ------------------------------------------------------------------ C28 the builder's interface
fn c28(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let r = c.rng.clone();
    let p: Vec<[i32; 2]> = inp.points.iter().map(|p| p.map(|v| v as i32)).collect();
    let s: Vec<[i32; 4]> = inp.segs.iter().map(|p| p.map(|v| v as i32)).collect();
    let Some(want) = must(c, "the build", || build(&inp)) else { return };
    let want = snap(&want);
    // given in pieces, some of them empty, as references, values or from a filter
    let piece = |r: &Rng, n: usize| {
        let mut cut: Vec<usize> = (0..r.us(0, 4)).map(|_| r.us(0, n)).collect();
        cut.extend([0, n]);
        cut.sort();
        cut
    };
    let (cp, cs) = (piece(&r, p.len()), piece(&r, s.len()));
    let way = r.below(3);
    let two = must(c, "a build in pieces", || {
        let mut b = Builder::<i32, f64>::default();
        // another one, fed at the same time
        let mut o = Builder::<i32, f64>::default();
        for w in cp.windows(2) {
            let part = &p[w[0]..w[1]];
            b = match way {
                0 => b.with_vertices(part.iter())?,
                1 => b.with_vertices(part.to_vec())?,
                _ => b.with_vertices(part.iter().filter(|_| true).map(|p| Point::<i32>::from(*p)))?,
            };
            o = o.with_vertices(part.iter())?;
        }
        for w in cs.windows(2) {
            let part = &s[w[0]..w[1]];
            b = match way {
                0 => b.with_segments(part.iter())?,
                1 => b.with_segments(part.to_vec())?,
                _ => b.with_segments(part.iter().filter(|_| true).map(|p| Line::<i32>::from(*p)))?,
            };
            o = o.with_segments(part.iter())?;
        }
        Ok((b.build()?, o.build()?))
    });
    let Some((x, y)) = two else { return };
    c.rep.count("builds_in_pieces", 2);
    for d in [&x, &y] {
        if let Some(m) = differ(&want, &snap(d)) {
            return c.bad(format!("the diagram of the input given in pieces (points cut at {cp:?}, segments at {cs:?}, way {way}) differs: {m}"));
        }
    }
    // points do not come after segments, even if there are none
    let k = if r.chance(1, 3) { 0 } else { r.us(0, s.len()) };
    let m = r.us(0, p.len());
    let late = guarded(|| {
        Builder::<i32, f64>::default().with_vertices(p[..m].iter()).and_then(|b| b.with_segments(s[..k].iter())).map(|b| match b.with_vertices(p[m..].iter()) {
            Ok(_) => "accepted".to_string(),
            Err(BvError::VerticesGoesFirst(_)) => String::new(),
            Err(e) => format!("{e:?}"),
        })
    });
    match late {
        Ok(Ok(t)) if t.is_empty() => c.rep.count("late_points_refused", 1),
        o => return c.bad(format!("{} points after {k} segments: {o:?}, expected the error VerticesGoesFirst", p.len() - m)),
    }
    // one element
    let Some(none) = must(c, "the build of nothing", || Builder::<i32, f64>::default().build()) else { return };
    if !(none.cells().is_empty() && none.edges().is_empty() && none.vertices().is_empty()) {
        return c.bad("the diagram of nothing is not empty");
    }
    if let Some(q) = p.first() {
        let Some(d) = must(c, "the build of one point", || Builder::<i32, f64>::default().with_vertices([*q].iter())?.build()) else { return };
        let d = snap(&d);
        if d.cells.len() != 1 || !d.edges.is_empty() || !d.verts.is_empty() || d.cells[0].src != 0 || d.cells[0].inc.is_some() {
            return c.bad(format!("the diagram of one point has {} cells, {} edges, {} vertices", d.cells.len(), d.edges.len(), d.verts.len()));
        }
        c.rep.count("single_elements", 1);
    }
    if let Some(q) = s.first() {
        let Some(d) = must(c, "the build of one segment", || Builder::<i32, f64>::default().with_segments([*q].iter())?.build()) else { return };
        let d = snap(&d);
        let flat = q[..2] == q[2..];
        let (nc, ne) = if flat { (1, 0) } else { (3, 4) };
        if d.cells.len() != nc || d.edges.len() != ne || !d.verts.is_empty() || d.cells.iter().any(|k| k.src != 0) {
            return c.bad(format!("the diagram of the segment {q:?} has {} cells, {} edges, {} vertices", d.cells.len(), d.edges.len(), d.verts.len()));
        }
        c.rep.count("single_elements", 1);
    }
    c.rep.nontrivial = inp.n() > 1;
}
pub const C28: Plan = Plan {
    id: "C28",
    rule: "generated input of one of 36 families, given in one to six pieces per kind, some empty, to two builders in turn; points after segments; single elements; non-trivial: more than one element; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 8.0),
    run: c28,
    need: &[("builds_in_pieces", 20_000), ("late_points_refused", 10_000), ("single_elements", 10_000)],
};

// ------------------------------------------------------------------ C29 memory
fn c29(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let (p, s): (Vec<[i32; 2]>, Vec<[i32; 4]>) = (inp.points.iter().map(|p| p.map(|v| v as i32)).collect(), inp.segs.iter().map(|p| p.map(|v| v as i32)).collect());
    let half = c.rng.chance(1, 3);
    let mut before = alloc::live();
    // no value leaves but numbers
    let run = |before: i64| {
        guarded(|| {
            alloc::peak(|| {
                let b = Builder::<i32, f64>::default().with_vertices(p.iter()).and_then(|b| b.with_segments(s.iter())).ok()?;
                if half {
                    // a builder that is never used
                    drop(b);
                    return Some((0, 0, 0));
                }
                let d = b.build().ok()?;
                let held = alloc::live() - before;
                let parts = d.cells().len() + d.edges().len() + d.vertices().len();
                let d = SyncDiagram::from(d);
                let sync = alloc::live() - before;
                drop(d);
                Some((held, parts as i64, sync))
            })
        })
    };
    let mut o = run(before);
    if alloc::live() != before {
        // what is set up once and kept is not counted
        before = alloc::live();
        o = run(before);
    }
    let after = alloc::live();
    let (ok, peak) = match o {
        Ok(v) => v,
        Err(m) => return c.bad(format!("the build panicked: {m}")),
    };
    let Some((held, parts, sync)) = ok else { return c.bad("the build of a valid input failed") };
    c.rep.count("builds_and_drops", 1);
    if after != before {
        return c.bad(format!("{} bytes are still allocated after builder and diagram are gone", after - before));
    }
    let n = (p.len() + 3 * s.len()) as i64;
    if half {
        return;
    }
    let per = peak as f64 / n.max(16) as f64;
    c.rep.max("most_bytes_per_site_in_use", per);
    c.rep.max("most_bytes_per_part_held", held as f64 / parts.max(64) as f64);
    c.rep.max("most_bytes_per_part_held_sync", sync as f64 / parts.max(64) as f64);
    if per > PER_SITE {
        c.bad(format!("{peak} bytes in use while {n} sites are handled"));
    }
    if held as f64 > PER_PART * parts.max(64) as f64 || sync as f64 > PER_PART * parts.max(64) as f64 {
        c.bad(format!("a diagram of {parts} cells, edges and vertices holds {held} bytes, {sync} in its thread-safe form"));
    }
    effort(c, &inp);
    failed(c);
    c.rep.nontrivial = n > 3;
}
/// a build that ends with an error keeps nothing either
fn failed(c: &mut Case) {
    if !c.rng.chance(1, 2) {
        return;
    }
    let inp = crate::gen::hostile(&c.rng, *c.rng.pick(&[4usize, 8, 16, 40]));
    let (p, s): (Vec<[i32; 2]>, Vec<[i32; 4]>) = (inp.points.iter().map(|p| p.map(|v| v as i32)).collect(), inp.segs.iter().map(|p| p.map(|v| v as i32)).collect());
    let run = || {
        let before = alloc::live();
        // (one that ends with a panic is C10's)
        let o = guarded(|| Builder::<i32, f64>::default().with_vertices(p.iter()).and_then(|b| b.with_segments(s.iter())).and_then(|b| b.build()).is_ok());
        let known = matches!(o, Ok(_));
        (known, matches!(o, Ok(false)), alloc::live() - before)
    };
    let (known, err, mut left) = run();
    if !known {
        return;
    }
    if left != 0 {
        left = run().2;
    }
    c.rep.count(if err { "failed_builds_and_drops" } else { "hostile_builds_and_drops" }, 1);
    if left != 0 {
        c.bad(format!("{left} bytes are still allocated after a build that ended with {} ({})", if err { "an error" } else { "a diagram" }, crate::run::clip(&inp.text(), 1000)));
    }
}
#[cfg(not(boostvoronoi_monitor))]
fn effort(_: &mut Case, _: &Input) {}
/// what the sweep does is bounded by the number of sites
#[cfg(boostvoronoi_monitor)]
fn effort(c: &mut Case, inp: &Input) {
    M::start();
    let d = guarded(|| build(inp));
    let ev = M::take();
    let Ok(Ok(d)) = d else { return c.bad("the build of a valid input failed") };
    let (mut sites, mut circles, mut planned, mut queued, mut cancelled) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for e in &ev {
        match e {
            M::Event::Site(_) => sites += 1,
            M::Event::Planned(..) => planned += 1,
            M::Event::Queued(_) => queued += 1,
            M::Event::Cancelled(_) => cancelled += 1,
            M::Event::Circle(_) => circles += 1,
        }
    }
    drop(ev);
    let n = sites.max(d.cells().len() as u64);
    c.rep.count("site_events", sites);
    c.rep.count("circle_events", circles);
    // every site ends one arc at most in two, every circle event ends an arc; each looks at the
    // two triples it makes new
    let arcs = 2 * n;
    c.rep.max("planned_per_event", planned as f64 / (n + circles).max(1) as f64);
    c.rep.max("circles_per_site", circles as f64 / n.max(1) as f64);
    if sites > n || circles > arcs || planned > 2 * (n + circles) || queued > planned || cancelled > queued {
        return c.bad(format!("{n} cells took {sites} site events, {circles} circle events, {planned} plans, {queued} queued, {cancelled} cancelled"));
    }
}
const PER_SITE: f64 = 4000.0;
const PER_PART: f64 = 350.0;
pub const C29: Plan = Plan {
    id: "C29",
    rule: "generated input of one of 36 families, built, converted and dropped under an allocator that counts, and built under a monitor of the sweep that counts events; one of three builders is dropped unused; every second time an input that breaks the contract is built as well and the build, if it ends without a panic, must leave nothing; non-trivial: a diagram of more than three sites; distinct by input",
    assumptions: FLOOR,
    work: |t| {
        let mut v = api_work(t, 3.0);
        for fam in LARGE {
            v.push(work(fam, 40_000, t.n(1, 6)));
        }
        v
    },
    run: c29,
    need: &[
        ("builds_and_drops", 20_000),
        ("failed_builds_and_drops", 100),
        #[cfg(boostvoronoi_monitor)]
        ("site_events", 200_000),
        #[cfg(boostvoronoi_monitor)]
        ("circle_events", 200_000),
    ],
};

// ------------------------------------------------------------------ C30 configurations
/// A program of /verif/configs, built with one selection of features, profile and compiler.
struct Server {
    name: String,
    child: std::process::Child,
    to: std::process::ChildStdin,
    from: std::sync::mpsc::Receiver<String>,
}
impl Server {
    fn start(path: &std::path::Path) -> Server {
        use std::process::{Command, Stdio};
        // (descriptor 3 is the worker's own)
        let mut child = Command::new("/bin/sh").args(["-c", "exec \"$0\" 3>&-"]).arg(path).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("a configuration starts");
        let err = std::io::BufReader::new(child.stderr.take().unwrap());
        let (tx, from) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in std::io::BufRead::lines(err) {
                let Ok(l) = l else { return };
                if let Some(a) = l.strip_prefix("@@ ") {
                    if tx.send(a.to_string()).is_err() {
                        return;
                    }
                }
            }
        });
        let name = path.file_name().unwrap().to_string_lossy().to_string();
        Server { to: child.stdin.take().unwrap(), name, child, from }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static SERVERS: std::cell::RefCell<std::collections::BTreeMap<String, Server>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
}
fn configurations() -> Vec<std::path::PathBuf> {
    let dir = std::path::PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into())).join("configs");
    let mut v: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect()).unwrap_or_default();
    v.sort();
    v
}
fn c30(c: &mut Case) {
    use std::io::Write;
    let Some(inp) = valid(c) else { return };
    let t0 = std::time::Instant::now();
    let here = match guarded(|| build(&inp).map(|d| (snap(&d).digest_of_sites(&inp), d.vertices().len()))) {
        Ok(Ok((d, v))) => {
            c.rep.nontrivial = v > 0;
            format!("{d:016x}")
        }
        Ok(Err(e)) => format!("{e:?}").replace('\n', " "),
        Err(_) => "panic".to_string(),
    };
    // far more than a build that prints every step needs, on a busy machine too
    let limit = std::time::Duration::from_secs(60) + t0.elapsed() * 2000;
    let nums = |v: &mut dyn Iterator<Item = String>| v.collect::<Vec<_>>().join(" ");
    let line = format!("{};{}\n", nums(&mut inp.points.iter().map(|p| format!("{},{}", p[0], p[1]))), nums(&mut inp.segs.iter().map(|s| format!("{},{},{},{}", s[0], s[1], s[2], s[3]))));
    for path in configurations() {
        let name = path.file_name().unwrap().to_string_lossy().to_string();
        // what prints every step, or is not optimised, gets the smaller inputs
        if inp.n() > 150 && (name.contains("console") || name.contains("dev")) || inp.n() > 25 && c.idx % 8 != 0 && name.contains("console") {
            continue;
        }
        let answer = SERVERS.with(|s| {
            let mut s = s.borrow_mut();
            let sv = s.entry(name.clone()).or_insert_with(|| Server::start(&path));
            let sent = sv.to.write_all(line.as_bytes()).and_then(|_| sv.to.flush());
            let a = if sent.is_ok() { sv.from.recv_timeout(limit).map_err(|e| e == std::sync::mpsc::RecvTimeoutError::Timeout) } else { Err(false) };
            if a.is_err() {
                drop(s.remove(&name));
            }
            a
        });
        match answer {
            Ok(a) => {
                c.rep.count("builds_compared", 1);
                c.rep.count(&format!("builds_in_{name}"), 1);
                // (a panic of the checked build is C09's)
                if a != here && here != "panic" {
                    c.bad(format!("the configuration {name} answers {}, the checked build {here}", clip(&a, 300)));
                }
            }
            Err(true) => c.bad(format!("the configuration {name} has not come to an end after {} s", limit.as_secs())),
            Err(false) => c.bad(format!("the configuration {name} ended without an answer")),
        }
    }
}
pub const C30: Plan = Plan {
    id: "C30",
    rule: "generated input of one of 36 families, or one of all small inputs, built in programs that select other features of the library, other profiles and another compiler; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| {
        let n = |x: u64| x * t.n(1, 12);
        let mut v = vec![work("findings", 0, FINDINGS.len() as u64), work("fixed", 0, FIXED.len() as u64)];
        for fam in FAMS {
            v.push(work(fam, 5, n(80)));
            v.push(work(fam, 20, n(40)));
            v.push(work(fam, 120, n(4)));
        }
        v.push(work("m_many", 40, n(30)));
        for fam in LARGE {
            v.push(work(fam, 1500, n(1)));
        }
        v.push(work("e_segs", 0, crate::gen::enum_len("e_segs")));
        if t == Tier::Thorough {
            v.push(work("e_mixed", 0, crate::gen::enum_len("e_mixed")));
        }
        v
    },
    run: c30,
    need: &[("builds_compared", 20_000)],
};
