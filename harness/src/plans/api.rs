//! What users do with a finished diagram, and with the builder.
use crate::gen;
use crate::input::*;
use crate::plans::geom::*;
use crate::rng::Rng;
use crate::run::*;
use crate::snap::*;
use boostvoronoi::prelude::*;
use boostvoronoi::SyncDiagram;
use std::collections::BTreeSet;

pub const FLOOR: &[&str] = &["inputs satisfy the documented contract: segments meet only at endpoints, no point inside a segment, 32-bit coordinates"];

/// workloads of moderate size: `k` scales the number of cases
pub fn api_work(t: Tier, k: f64) -> Vec<Work> {
    let f = t.n(1, 12) as f64 * k;
    let n = |x: f64| (x * f).ceil() as u64;
    let mut v = vec![];
    for fam in FAMS {
        v.push(work(fam, 5, n(300.0)));
        v.push(work(fam, 20, n(300.0)));
        v.push(work(fam, 120, n(20.0)));
    }
    v.push(work("m_many", 40, n(200.0)));
    v.push(work("m_many", 300, n(10.0)));
    for fam in LARGE {
        v.push(work(fam, 2000, n(1.0)));
    }
    // numbers of sites, vertices and half-edges that do not fit 16 bits
    v.push(work("l_points", 40_000, 1));
    v.push(work("l_mixed", 22_000, 1));
    // every small input
    let mut all = |e: &'static str| v.push(work(e, 0, gen::enum_len(e)));
    all("e_segs");
    all("e_mixed");
    if k >= 5.0 || t == Tier::Thorough {
        all("e_segs_big");
        all("e_mixed_big");
        all("e_points");
        all("e_pairs");
    }
    v
}
pub fn valid(c: &mut Case) -> Option<Input> {
    let inp = c.input();
    if inp.n() <= 80 && !inp.valid() {
        assert!(c.over.is_some(), "invalid input generated");
        return None;
    }
    Some(inp)
}
/// library code that must neither panic nor fail
pub fn must<T>(c: &mut Case, what: &str, f: impl FnOnce() -> Result<T, BvError>) -> Option<T> {
    match guarded(f) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            c.bad(format!("{what} failed: {e:?}"));
            None
        }
        Err(m) => {
            c.bad(format!("{what} panicked: {m}"));
            None
        }
    }
}
/// where two diagrams differ
pub fn differ(a: &Snap, b: &Snap) -> Option<String> {
    if a.cells.len() != b.cells.len() || a.verts.len() != b.verts.len() || a.edges.len() != b.edges.len() {
        return Some(format!("{}/{}/{} cells/vertices/edges against {}/{}/{}", a.cells.len(), a.verts.len(), a.edges.len(), b.cells.len(), b.verts.len(), b.edges.len()));
    }
    for (x, y) in a.cells.iter().zip(&b.cells) {
        if x != y {
            return Some(format!("{x:?} against {y:?}"));
        }
    }
    for (x, y) in a.verts.iter().zip(&b.verts) {
        if x != y || x.x.to_bits() != y.x.to_bits() || x.y.to_bits() != y.y.to_bits() {
            return Some(format!("{x:?} against {y:?}"));
        }
    }
    for (x, y) in a.edges.iter().zip(&b.edges) {
        if x != y {
            return Some(format!("{x:?} against {y:?}"));
        }
    }
    None
}

// ------------------------------------------------------------------ C11 determinism
/// digests of the first n cases of a workload, one per line: what another process computes
pub fn digests(fam: &str, size: usize, seed: u64, from: u64, n: u64) -> Vec<String> {
    (from..from + n)
        .map(|i| {
            let r = Rng::new(seed, &format!("digest/{fam}/{size}"), i);
            let inp = (gen::family(fam).f)(&r, size);
            match guarded(|| build(&inp).map(|d| snap(&d).digest())) {
                Ok(Ok(d)) => format!("{d:016x}"),
                Ok(Err(e)) => format!("{e:?}"),
                Err(_) => "panic".to_string(),
            }
        })
        .collect()
}
fn c11(c: &mut Case) {
    if c.work.name == "process" {
        // the same inputs in another process, compiled without run-time checks
        let fams: Vec<&str> = FAMS.iter().chain(LARGE).copied().collect();
        let fam = fams[(c.idx % fams.len() as u64) as usize];
        let (size, n) = if fam.starts_with("l_") { (1500, 2) } else { (*c.rng.pick(&[5usize, 20, 100]), 40) };
        let (seed, from) = (c.seed, c.idx / fams.len() as u64 * 40);
        let here = digests(fam, size, seed, from, n);
        c.rep.key = crate::rng::hash(&format!("{fam}/{size}/{from}"));
        c.rep.sample = format!("{fam}/{size}: cases {from}.. in another process, release build");
        let exe = std::path::PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into())).join("release/bvmon");
        let o = std::process::Command::new(&exe).args(["digests", fam, &size.to_string(), &seed.to_string(), &from.to_string(), &n.to_string()]).output().expect("the release build of the harness runs");
        let there: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
        c.rep.nontrivial = true;
        c.rep.count("diagrams_compared_across_processes", n);
        if there.len() != here.len() {
            c.bad(format!("{fam}/{size}: the other process ended early: {:?}", o.status));
        }
        for (i, (a, b)) in here.iter().zip(&there).enumerate() {
            // (a panic of a run-time check is C09's)
            if a != b && a != "panic" {
                let inp = (gen::family(fam).f)(&Rng::new(seed, &format!("digest/{fam}/{size}"), from + i as u64), size);
                c.bad(format!("another process (release build) yields another diagram for {fam}/{size}: {}", clip(&inp.text(), 1500)));
            }
        }
        return;
    }
    let Some(inp) = valid(c) else { return };
    let Some(a) = must(c, "the build", || build(&inp).map(|d| snap(&d))) else { return };
    c.rep.nontrivial = !a.verts.is_empty();
    for _ in 0..2 {
        let Some(b) = must(c, "the build", || build(&inp).map(|d| snap(&d))) else { return };
        if let Some(m) = differ(&a, &b) {
            c.bad(format!("building twice: {m}"));
        }
        c.rep.count("repeated_builds", 1);
    }
    if c.idx % 8 == 0 {
        let b = std::thread::scope(|s| {
            let h: Vec<_> = (0..3).map(|_| s.spawn(|| build(&inp).map(|d| snap(&d)).ok())).collect();
            h.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        });
        for b in b {
            match b {
                Ok(Some(b)) => {
                    if let Some(m) = differ(&a, &b) {
                        c.bad(format!("building in another thread: {m}"));
                    }
                }
                _ => c.bad("building in another thread failed"),
            }
            c.rep.count("builds_in_other_threads", 1);
        }
    }
}
pub const C11: Plan = Plan {
    id: "C11",
    rule: "generated input of one of 36 families, built three times, in three other threads at once, and in another process compiled without run-time checks; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| {
        let mut w = api_work(t, 3.0);
        w.push(work("process", 0, 170 * t.n(1, 10)));
        w
    },
    run: c11,
    need: &[("repeated_builds", 10_000), ("builds_in_other_threads", 1000), ("diagrams_compared_across_processes", 3000)],
};

// ------------------------------------------------------------------ C12 order and duplicates
/// what a cell stands for, as geometry
fn named(inp: &Input, s: &Snap) -> Vec<Option<Site>> {
    s.cells.iter().map(|c| inp.resolve(c.src, c.cat)).collect()
}
fn c12(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(a) = must(c, "the build", || build(&inp).map(|d| snap(&d))) else { return };
    let r = c.rng.clone();
    for round in 0..2 {
        let mut j = inp.clone();
        r.shuffle(&mut j.points);
        r.shuffle(&mut j.segs);
        for s in j.segs.iter_mut() {
            if r.chance(1, 2) {
                *s = [s[2], s[3], s[0], s[1]];
            }
        }
        if round == 1 {
            // repeat things; add endpoints as points; drop points that are endpoints anyway
            let ends: BTreeSet<P> = j.segs.iter().flat_map(|s| [[s[0], s[1]], [s[2], s[3]]]).collect();
            j.points.retain(|p| !ends.contains(p) || r.chance(1, 2));
            for _ in 0..r.us(0, 4) {
                if !j.points.is_empty() {
                    let p = *r.pick(&j.points);
                    j.points.push(p);
                }
                if !j.segs.is_empty() {
                    let s = *r.pick(&j.segs);
                    if s[0] == s[2] && s[1] == s[3] || r.chance(1, 3) {
                        j.segs.push([s[0], s[1], s[0], s[1]]);
                    }
                    j.points.push([s[2], s[3]]);
                    // a segment given again, either way round, is one segment
                    if r.chance(1, 3) {
                        j.segs.push(if r.chance(1, 2) { s } else { [s[2], s[3], s[0], s[1]] });
                        c.rep.count("repeated_segments", 1);
                    }
                    c.rep.count("repeated_elements", 1);
                }
            }
            r.shuffle(&mut j.points);
            r.shuffle(&mut j.segs);
        }
        let Some(b) = must(c, "the build of the same input in another order", || build(&j).map(|d| snap(&d))) else { return };
        c.rep.count("reordered_builds", 1);
        let (na, nb) = (named(&inp, &a), named(&j, &b));
        if na != nb {
            let i = na.iter().zip(&nb).position(|(x, y)| x != y);
            c.bad(format!("another order of the same input: {} cells against {}, cell {i:?} is {:?} against {:?}", na.len(), nb.len(), i.map(|i| na[i]), i.map(|i| nb[i])));
            return;
        }
        // all but the source of the cells is the same
        let mut bb = b.clone();
        for (x, y) in bb.cells.iter_mut().zip(&a.cells) {
            let inc = x.inc;
            *x = y.clone();
            x.inc = inc;
        }
        if let Some(m) = differ(&a, &bb) {
            c.bad(format!("another order of the same input yields another diagram: {m}"));
        }
    }
    c.rep.nontrivial = inp.n() > 1 && !a.verts.is_empty();
}
pub const C12: Plan = Plan {
    id: "C12",
    rule: "generated input of one of 36 families, shuffled with segments turned around at random, then with elements repeated; non-trivial: more than one element and a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 8.0),
    run: c12,
    need: &[("reordered_builds", 30_000), ("repeated_elements", 10_000), ("repeated_segments", 1000)],
};

// ------------------------------------------------------------------ C14 number types
fn c14(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(a) = must(c, "the build", || build_t::<i32, f64>(&inp).map(|d| snap(&d))) else { return };
    let Some(b) = must(c, "the build from i64", || build_t::<i64, f64>(&inp).map(|d| snap(&d))) else { return };
    if let Some(m) = differ(&a, &b) {
        c.bad(format!("i64 coordinates yield another diagram than i32: {m}"));
    }
    let Some(f) = must(c, "the build with f32 output", || build_t::<i32, f32>(&inp).map(|d| snap(&d))) else { return };
    let Some(g) = must(c, "the build from i64 with f32 output", || build_t::<i64, f32>(&inp).map(|d| snap(&d))) else { return };
    if let Some(m) = differ(&f, &g) {
        c.bad(format!("i64 coordinates yield another f32 diagram than i32: {m}"));
    }
    c.rep.nontrivial = !a.verts.is_empty();
    c.rep.count("vertices", a.verts.len() as u64);
    // the f32 diagram is the f64 diagram, rounded; vertices that round to the same place are one
    let strip = |s: &Snap| s.cells.iter().map(|c| (c.id, c.src, c.cat)).collect::<Vec<_>>();
    if strip(&a) != strip(&f) {
        c.bad("the cells of the f32 diagram differ from those of the f64 diagram");
    }
    let mut o = vec![];
    let mut st = crate::oracle::Stats::default();
    crate::oracle::check_links(&f, &mut o, &mut st);
    for m in o {
        c.bad(format!("f32 output: {m}"));
    }
    let at = |v: &VertS| ((v.x as f32 + 0.0).to_bits(), (v.y as f32 + 0.0).to_bits());
    let fine: BTreeSet<(u32, u32)> = a.verts.iter().map(at).collect();
    let coarse: BTreeSet<(u32, u32)> = f.verts.iter().map(at).collect();
    // vertices merged in f64 may round either way: a step of f32 is left to them
    let step = |b: u32| [b.wrapping_sub(1), b, b.wrapping_add(1)];
    let near = |s: &BTreeSet<(u32, u32)>, p: &(u32, u32)| step(p.0).iter().any(|x| step(p.1).iter().any(|y| s.contains(&(*x, *y))));
    for p in &coarse {
        if !near(&fine, p) {
            c.bad(format!("f32 vertex ({}, {}) has no counterpart in the f64 diagram", f32::from_bits(p.0), f32::from_bits(p.1)));
        }
    }
    for p in &fine {
        if !near(&coarse, p) {
            c.bad(format!("vertex ({}, {}) of the f64 diagram is missing from the f32 diagram", f32::from_bits(p.0), f32::from_bits(p.1)));
        }
    }
    c.rep.count("vertices_merged_by_rounding", (a.verts.len() - f.verts.len().min(a.verts.len())) as u64);
}
pub const C14: Plan = Plan {
    id: "C14",
    rule: "generated input of one of 36 families built from i32 and i64 to f32 and f64; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 8.0),
    run: c14,
    need: &[("vertices", 100_000), ("vertices_merged_by_rounding", 100)],
};

// ------------------------------------------------------------------ C15, C17: the sync diagram, serde
/// colours everywhere, so that they are part of what is compared
fn paint(c: &mut Case, d: &Diagram<f64>) {
    for i in 0..d.edges().len() {
        let _ = d.edge_set_color(ei(i), c.rng.next() as u32 >> c.rng.below(32));
    }
    for i in 0..d.vertices().len() {
        let _ = d.vertex_set_color(vi(i), c.rng.next() as u32 >> c.rng.below(32));
    }
}
fn same<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, i: usize, a: Option<T>, b: Option<T>) {
    if a != b {
        c.bad(format!("{what}({i}): {a:?} in the diagram, {b:?} in its thread-safe form"));
    }
}
fn c15(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(d) = must(c, "the build", || build(&inp)) else { return };
    paint(c, &d);
    let a = snap(&d);
    let Some(d2) = must(c, "the build", || build(&inp)) else { return };
    for (i, e) in a.edges.iter().enumerate() {
        let _ = d2.edge_set_color(ei(i), e.color);
    }
    for (i, v) in a.verts.iter().enumerate() {
        let _ = d2.vertex_set_color(vi(i), v.color);
    }
    let s = SyncDiagram::from(d2);
    let b = snap_sync(&s);
    if let Some(m) = differ(&a, &b) {
        c.bad(format!("the thread-safe form differs: {m}"));
        return;
    }
    let ne = a.edges.len();
    if c.idx % 4 == 0 {
        // read by several threads at once
        fn shareable<T: Send + Sync>(_: &T) {}
        shareable(&s);
        let others = std::thread::scope(|t| {
            let h: Vec<_> = (0..3).map(|_| t.spawn(|| differ(&a, &snap_sync(&s)))).collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a panic".to_string()))).collect::<Vec<_>>()
        });
        for m in others.into_iter().flatten() {
            c.bad(format!("read by another thread the thread-safe form differs: {m}"));
        }
        c.rep.count("reads_by_other_threads", 3);
    }
    for i in (0..ne).chain([ne, ne + 5, usize::MAX]) {
        let e = ei(i);
        same(c, "edge_rot_next", i, d.edge_rot_next(e).ok(), s.edge_rot_next(e).ok());
        same(c, "edge_rot_prev", i, d.edge_rot_prev(Some(e)), s.edge_rot_prev(e).ok());
        same(c, "edge_get_next", i, d.edge_get_next(e).ok(), s.edge_get_next(e).ok());
        same(c, "edge_get_twin", i, d.edge_get_twin(e).ok(), s.edge_get_twin(e).ok());
        same(c, "edge_get_prev", i, d.get_edge(e).ok().and_then(|e| e.get().prev().ok()), s.edge_get_prev(e).ok());
        same(c, "edge_get_vertex0", i, d.edge_get_vertex0(e).ok(), s.edge_get_vertex0(e).ok());
        same(c, "edge_get_vertex1", i, d.edge_get_vertex1(e).ok(), s.edge_get_vertex1(e).ok());
        same(c, "edge_is_finite", i, d.edge_is_finite(e).ok(), s.edge_is_finite(e).ok());
        same(c, "edge_is_infinite", i, d.edge_is_infinite(e).ok(), s.edge_is_infinite(e).ok());
        same(c, "edge_get", i, d.get_edge(e).ok().map(|e| format!("{:?}", e.get())), s.edge_get(e).ok().map(|e| format!("{e:?}")));
        if i < ne {
            let (x, y): (Vec<_>, Vec<_>) = (d.edge_rot_next_iterator(Some(e)).take(ne + 1).collect(), s.edge_rot_next_iterator(e).take(ne + 1).collect());
            same(c, "edge_rot_next_iterator", i, Some(x), Some(y));
        }
        c.rep.count("answers_compared", 11);
        if !c.rep.viols.is_empty() {
            return;
        }
    }
    for i in (0..a.verts.len()).chain([a.verts.len(), usize::MAX]) {
        same(c, "vertex_get", i, d.vertex_get(vi(i)).ok().map(|v| format!("{:?}", v.get())), s.vertex_get(vi(i)).ok().map(|v| format!("{v:?}")));
    }
    for i in (0..a.cells.len()).chain([a.cells.len(), usize::MAX]) {
        same(c, "cell_get", i, d.get_cell(ci(i)).ok().map(|v| format!("{:?}", v.get())), s.cell_get(ci(i)).ok().map(|v| format!("{v:?}")));
    }
    // taken apart and put together again
    let mut t = SyncDiagram::new(s.cells().clone(), s.vertices().clone(), s.edges().clone());
    if let Some(m) = differ(&a, &snap_sync(&t)) {
        c.bad(format!("SyncDiagram::new of its parts differs: {m}"));
    }
    // a change to one edge or vertex is a change to that one
    let mut want = a.clone();
    for _ in 0..4 {
        if ne > 0 {
            let (i, col) = (c.rng.us(0, ne - 1), c.rng.next() as u32 >> 5);
            let _ = t.edge_get_mut(ei(i)).map(|e| e.set_color(col));
            want.edges[i].color = col;
        }
        if !a.verts.is_empty() {
            let (i, col) = (c.rng.us(0, a.verts.len() - 1), c.rng.next() as u32 >> 5);
            let _ = t.vertex_get_mut(vi(i)).map(|e| e.set_color(col));
            want.verts[i].color = col;
        }
    }
    if let Some(m) = differ(&want, &snap_sync(&t)) {
        c.bad(format!("after setting colours through edge_get_mut, vertex_get_mut: {m}"));
    }
    if t.edge_get_mut(ei(ne)).is_ok() || t.vertex_get_mut(vi(a.verts.len())).is_ok() {
        c.bad("edge_get_mut or vertex_get_mut of an id out of range succeeded");
    }
    c.rep.nontrivial = !a.verts.is_empty();
}
pub const C15: Plan = Plan {
    id: "C15",
    rule: "generated input of one of 36 families, coloured at random, converted, read by three threads at once; every id and three beyond the range asked; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 3.0),
    run: c15,
    need: &[("answers_compared", 500_000), ("reads_by_other_threads", 5000)],
};

fn c17(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(d) = must(c, "the build", || build(&inp)) else { return };
    paint(c, &d);
    let a = snap(&d);
    let s = SyncDiagram::from(d);
    c.rep.nontrivial = !a.verts.is_empty();
    let back: Vec<(&str, Result<SyncDiagram<f64>, String>)> = vec![
        ("binary", bincode::serialize(&s).map_err(|e| e.to_string()).and_then(|v| bincode::deserialize(&v).map_err(|e| e.to_string()))),
        ("tree", serde_json::to_value(&s).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string()))),
        ("text", ron::to_string(&s).map_err(|e| e.to_string()).and_then(|v| ron::from_str(&v).map_err(|e| e.to_string()))),
    ];
    for (how, r) in back {
        match r {
            Err(e) => c.bad(format!("{how}: {e}")),
            Ok(t) => {
                c.rep.count("diagrams_read_back", 1);
                if let Some(m) = differ(&a, &snap_sync(&t)) {
                    c.bad(format!("{how}: the diagram read back differs: {m}"));
                }
                // the reserved bits, too
                if format!("{:?}", s.edges()) != format!("{:?}", t.edges()) || format!("{:?}", s.cells()) != format!("{:?}", t.cells()) || format!("{:?}", s.vertices()) != format!("{:?}", t.vertices()) {
                    c.bad(format!("{how}: the diagram read back differs"));
                }
            }
        }
    }
    let Some(d32) = must(c, "the build with f32 output", || build_t::<i32, f32>(&inp)) else { return };
    let a = snap(&d32);
    let s = SyncDiagram::from(d32);
    match bincode::serialize(&s).map_err(|e| e.to_string()).and_then(|v| bincode::deserialize::<SyncDiagram<f32>>(&v).map_err(|e| e.to_string())) {
        Err(e) => c.bad(format!("binary, f32: {e}")),
        Ok(t) => {
            if let Some(m) = differ(&a, &snap_sync(&t)) {
                c.bad(format!("binary, f32: the diagram read back differs: {m}"));
            }
        }
    }
    // the input types
    let lines: Vec<Line<i64>> = inp.segs.iter().map(|s| Line::from(*s)).collect();
    let points: Vec<Point<i64>> = inp.points.iter().map(|s| Point::from(*s)).collect();
    let l2: Result<Vec<Line<i64>>, _> = serde_json::to_string(&lines).and_then(|t| serde_json::from_str(&t));
    let p2: Result<Vec<Point<i64>>, _> = serde_json::to_string(&points).and_then(|t| serde_json::from_str(&t));
    if l2.ok().as_ref() != Some(&lines) || p2.ok().as_ref() != Some(&points) {
        c.bad("points or lines read back differ");
    }
}
pub const C17: Plan = Plan {
    id: "C17",
    rule: "generated input of one of 36 families, coloured at random, written and read back as binary, tree and text; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: &["the formats themselves (bincode, serde_json, ron) keep floats bit for bit"],
    work: |t| api_work(t, 3.0),
    run: c17,
    need: &[("diagrams_read_back", 10_000)],
};

// ------------------------------------------------------------------ C16 navigation
fn c16(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(d) = must(c, "the build", || build(&inp)) else { return };
    let s = snap(&d);
    let (ne, nv, nc) = (s.edges.len(), s.verts.len(), s.cells.len());
    macro_rules! eq {
        ($what:expr, $i:expr, $got:expr, $want:expr) => {{
            match guarded(|| $got) {
                Err(m) => c.bad(format!("{}({}) panicked: {m}", $what, $i)),
                Ok(g) => {
                    let w = $want;
                    if g != w {
                        c.bad(format!("{}({}) is {:?}, by the half-edges it is {:?}", $what, $i, g, w));
                    }
                }
            }
        }};
    }
    if (d.num_cells(), d.num_vertices(), d.num_edges()) != (nc, nv, ne) {
        c.bad("num_cells, num_vertices or num_edges differ from the lists");
    }
    let beyond = |n: usize| [n, n + 1, n + 64, u32::MAX as usize, usize::MAX];
    for i in (0..ne).chain(beyond(ne)) {
        let e = ei(i);
        let r = s.edges.get(i);
        let v1 = r.and_then(|r| r.twin).and_then(|t| s.edges.get(t)).map(|t| t.v0);
        eq!("get_edge", i, d.get_edge(e).ok().map(|e| e.get().id().0), r.map(|r| r.id));
        eq!("edge_get_twin", i, d.edge_get_twin(e).ok().map(|e| e.0), r.and_then(|r| r.twin));
        eq!("edge_get_next", i, d.edge_get_next(e).ok().map(|e| e.0), r.and_then(|r| r.next));
        eq!("edge_get_cell", i, d.edge_get_cell(e).ok().map(|e| e.0), r.and_then(|r| r.cell));
        eq!("edge_get_vertex0", i, d.edge_get_vertex0(e).ok().map(|v| v.map(|v| v.0)), r.map(|r| r.v0));
        eq!("edge_get_vertex1", i, d.edge_get_vertex1(e).ok().map(|v| v.map(|v| v.0)), v1);
        let fin = r.map(|r| r.v0.is_some() && v1.unwrap().is_some());
        eq!("edge_is_finite", i, d.edge_is_finite(e).ok(), fin);
        eq!("edge_is_infinite", i, d.edge_is_infinite(e).ok(), fin.map(|f| !f));
        eq!("edge_rot_next", i, d.edge_rot_next(e).ok().map(|e| e.0), r.and_then(|r| r.prev).and_then(|p| s.edges[p].twin));
        eq!("edge_rot_prev", i, d.edge_rot_prev(Some(e)).map(|e| e.0), r.and_then(|r| r.twin).and_then(|t| s.edges[t].next));
        eq!("edge_get_color", i, d.edge_get_color(e).ok(), r.map(|r| r.color));
        let line = if fin == Some(true) {
            let (a, b) = (&s.verts[r.unwrap().v0.unwrap()], &s.verts[v1.unwrap().unwrap()]);
            Some([a.x, a.y, b.x, b.y])
        } else {
            None
        };
        eq!("edge_as_line", i, d.edge_as_line(e).ok(), line);
        if let Some(r) = r {
            let x = d.edges()[i].get();
            if x.is_curved() == r.linear || x.is_secondary() == r.primary {
                c.bad(format!("edge {i}: is_curved or is_secondary contradicts is_linear or is_primary"));
            }
            if i < 400 {
                // around the start of the edge, as far as it closes
                let walk = |f: &dyn Fn(usize) -> Option<usize>| {
                    let mut v = vec![i];
                    while let Some(n) = f(*v.last().unwrap()) {
                        if n == i || v.len() > ne {
                            break;
                        }
                        v.push(n);
                    }
                    v
                };
                let next = walk(&|e| s.edges[e].prev.and_then(|p| s.edges[p].twin));
                let prev = walk(&|e| s.edges[e].twin.and_then(|t| s.edges[t].next));
                eq!("edge_rot_next_iterator", i, d.edge_rot_next_iterator(Some(e)).take(ne + 2).map(|e| e.0).collect::<Vec<_>>(), next.clone());
                eq!("edge_rot_prev_iterator", i, d.edge_rot_prev_iterator(Some(e)).take(ne + 2).map(|e| e.0).collect::<Vec<_>>(), prev.clone());
                if r.v0.is_some() {
                    let out: BTreeSet<usize> = next.iter().copied().collect();
                    if out.len() != next.len() || out != prev.iter().copied().collect() || next.iter().any(|e| s.edges[*e].v0 != r.v0) {
                        c.bad(format!("edge {i}: around its vertex {:?} one way, {:?} the other", next, prev));
                    }
                }
            }
        }
        c.rep.count("answers_compared", 14);
        if !c.rep.viols.is_empty() {
            return;
        }
    }
    for i in (0..nc).chain(beyond(nc)) {
        let r = s.cells.get(i);
        eq!("get_cell", i, d.get_cell(ci(i)).ok().map(|e| e.get().id().0), r.map(|r| r.id));
        let mut want = vec![];
        if let Some(mut e) = r.and_then(|r| r.inc) {
            let e0 = e;
            loop {
                want.push(e);
                match s.edges[e].next {
                    Some(n) if n != e0 && want.len() <= ne => e = n,
                    _ => break,
                }
            }
        }
        eq!("cell_edge_iterator", i, d.cell_edge_iterator(ci(i)).take(ne + 2).map(|e| e.0).collect::<Vec<_>>(), want.clone());
        if r.is_some() {
            let own: BTreeSet<usize> = if i < 300 { (0..ne).filter(|e| s.edges[*e].cell == Some(i)).collect() } else { want.iter().copied().collect() };
            if own != want.iter().copied().collect() {
                c.bad(format!("cell {i}: its iterator yields {want:?}, the edges that name it are {own:?}"));
            }
            let x = d.cells()[i].get();
            if x.is_degenerate() != x.get_incident_edge().is_none() || x.source_index_2() != (x.source_index(), x.source_category()) {
                c.bad(format!("cell {i}: is_degenerate or source_index_2 contradict the cell"));
            }
        }
        c.rep.count("answers_compared", 2);
    }
    for i in (0..nv).chain(beyond(nv)) {
        let r = s.verts.get(i);
        eq!("vertex_get", i, d.vertex_get(vi(i)).ok().map(|e| e.get().get_id().0), r.map(|r| r.id));
        eq!("vertex_get_incident_edge", i, d.vertex_get_incident_edge(Some(vi(i))).map(|e| e.0), r.and_then(|r| r.inc));
        eq!("vertex_is_site_point", i, d.vertex_is_site_point(vi(i)).ok(), r.map(|r| r.site));
        eq!("vertex_get_color", i, d.vertex_get_color(Some(vi(i))), r.map(|r| r.color));
        c.rep.count("answers_compared", 4);
    }
    eq!("edge_rot_next_iterator", "none", d.edge_rot_next_iterator(None).count(), 0);
    eq!("edge_rot_prev_iterator", "none", d.edge_rot_prev_iterator(None).count(), 0);
    eq!("edge_rot_prev", "none", d.edge_rot_prev(None), None);
    eq!("vertex_get_incident_edge", "none", d.vertex_get_incident_edge(None), None);
    eq!("vertex_get_color", "none", d.vertex_get_color(None), None);
    let a = d.vertices_get_aabb::<i32>();
    let (lo, hi) = (|f: fn(&VertS) -> f64| s.verts.iter().map(f).fold(f64::INFINITY, f64::min), |f: fn(&VertS) -> f64| s.verts.iter().map(f).fold(f64::NEG_INFINITY, f64::max));
    let (wl, wh) = if nv == 0 { (None, None) } else { (Some([lo(|v| v.x), lo(|v| v.y)]), Some([hi(|v| v.x), hi(|v| v.y)])) };
    eq!("vertices_get_aabb low", "", a.get_low(), wl);
    eq!("vertices_get_aabb high", "", a.get_high(), wh);
    #[allow(deprecated)]
    {
        eq!("cell_iter", "", d.cell_iter().map(|x| x.get().id().0).collect::<Vec<_>>(), s.cells.iter().map(|x| x.id).collect::<Vec<_>>());
        eq!("edge_iter", "", d.edge_iter().map(|x| x.get().id().0).collect::<Vec<_>>(), (0..ne).collect::<Vec<_>>());
        eq!("vertex_iter", "", d.vertex_iter().map(|x| x.get().get_id().0).collect::<Vec<_>>(), (0..nv).collect::<Vec<_>>());
    }
    let mut d = d;
    if c.rng.chance(1, 4) {
        d.reserve_(c.rng.us(0, 1000));
        if snap(&d) != s {
            c.bad("reserve_ changed the diagram");
        }
    }
    d.clear();
    if d.num_cells() + d.num_edges() + d.num_vertices() != 0 {
        c.bad("something is left after clear()");
    }
    c.rep.nontrivial = nv > 0;
}
pub const C16: Plan = Plan {
    id: "C16",
    rule: "generated input of one of 36 families; every accessor asked for every id and five beyond the range; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: FLOOR,
    work: |t| api_work(t, 5.0),
    run: c16,
    need: &[("answers_compared", 1_000_000)],
};

// ------------------------------------------------------------------ C18 colours
fn c18(c: &mut Case) {
    let Some(inp) = valid(c) else { return };
    let Some(d) = must(c, "the build", || build(&inp)) else { return };
    let r = c.rng.clone();
    let mut want = snap(&d);
    let (ne, nv) = (want.edges.len(), want.verts.len());
    if want.edges.iter().any(|e| e.color != 0) || want.verts.iter().any(|v| v.color != 0) {
        c.bad("a new diagram has colours");
    }
    // a history of colour operations; 27 bits are the user's
    const M: u32 = u32::MAX >> 5;
    let col = || if r.chance(1, 2) { 1u32 << r.below(32) } else { r.next() as u32 >> r.below(32) };
    let painted = r.chance(1, 3);
    if ne > 0 && painted {
        for _ in 0..r.us(1, 60) {
            let (k, e) = (col(), r.us(0, ne - 1));
            c.rep.count("colour_operations", 1);
            match r.below(6) {
                0 => {
                    let _ = d.edge_set_color(ei(e), k);
                    want.edges[e].color = k & M;
                }
                1 => {
                    let _ = d.edge_or_color(ei(e), k);
                    want.edges[e].color |= k & M;
                }
                2 => {
                    let x = d.get_edge(ei(e)).unwrap();
                    let mut y = x.get();
                    if r.chance(1, 2) {
                        let _ = y.set_color(k);
                        want.edges[e].color = k & M;
                    } else {
                        let _ = y.or_color(k);
                        want.edges[e].color |= k & M;
                    }
                    x.set(y);
                }
                3 if nv > 0 => {
                    let v = r.us(0, nv - 1);
                    let _ = d.vertex_set_color(vi(v), k);
                    want.verts[v].color = k & M;
                }
                4 if nv > 0 => {
                    let v = r.us(0, nv - 1);
                    d.vertex_or_color(vi(v), k);
                    want.verts[v].color |= k & M;
                }
                5 if nv > 0 => {
                    let v = r.us(0, nv - 1);
                    let x = d.vertex_get(vi(v)).unwrap();
                    let mut y = x.get();
                    if r.chance(1, 2) {
                        let _ = y.set_color(k);
                        want.verts[v].color = k & M;
                    } else {
                        let _ = y.or_color(k);
                        want.verts[v].color |= k & M;
                    }
                    x.set(y);
                }
                _ => {}
            }
        }
        if let Some(m) = differ(&want, &snap(&d)) {
            c.bad(format!("after colour operations: {m}"));
            return;
        }
    }
    // out of range: an error, and nothing changes
    for i in [ne, ne + 7, usize::MAX] {
        let x = guarded(|| (d.edge_set_color(ei(i), 1).is_ok(), d.edge_or_color(ei(i), 1).is_ok()));
        if x != Ok((false, false)) {
            c.bad(format!("setting the colour of edge {i} of {ne}: {x:?}"));
        }
    }
    for i in [nv, usize::MAX] {
        let x = guarded(|| {
            d.vertex_or_color(vi(i), 1);
            d.vertex_set_color(vi(i), 1).is_ok()
        });
        if x != Ok(false) {
            c.bad(format!("setting the colour of vertex {i} of {nv}: {x:?}"));
        }
    }
    // the exterior
    let ext = match r.below(8) {
        0 => 0,
        1 => 1 << 26,
        2 => col() & M,
        _ => 1 << r.below(27),
    };
    let clean = ext != 0 && !want.edges.iter().any(|e| e.color & ext != 0);
    if let Err(m) = guarded(|| d.color_exterior_edges(ext)) {
        c.bad(format!("color_exterior_edges({ext:#x}) panicked: {m}"));
        return;
    }
    let got = snap(&d);
    // all but the colours stays
    let mut g = got.clone();
    for (x, y) in g.edges.iter_mut().zip(&want.edges) {
        x.color = y.color;
    }
    for (x, y) in g.verts.iter_mut().zip(&want.verts) {
        x.color = y.color;
    }
    if let Some(m) = differ(&want, &g) {
        c.bad(format!("color_exterior_edges changed more than colours: {m}"));
    }
    for (i, (x, y)) in got.edges.iter().zip(&want.edges).enumerate() {
        if x.color != y.color && x.color != y.color | ext {
            c.bad(format!("color_exterior_edges({ext:#x}): edge {i} had colour {:#x}, has {:#x}", y.color, x.color));
        }
    }
    if ext == 0 || !clean {
        c.rep.count("exterior_without_reference", 1);
        return;
    }
    // reference: vertices reached from infinity along primary edges, not through input points
    let twin = |e: usize| want.edges[e].twin.unwrap();
    let mut reached = vec![false; nv];
    let mut marked = vec![false; ne];
    let mut todo: Vec<usize> = vec![];
    for e in 0..ne {
        if want.edges[e].v0.is_none() || want.edges[twin(e)].v0.is_none() {
            marked[e] = true;
            if want.edges[e].primary && want.edges[e].v0.is_none() {
                todo.extend(want.edges[twin(e)].v0);
            }
        }
    }
    let mut around: Vec<Vec<usize>> = vec![vec![]; nv];
    for e in 0..ne {
        if let Some(v) = want.edges[e].v0 {
            around[v].push(e);
        }
    }
    while let Some(v) = todo.pop() {
        if reached[v] || want.verts[v].site {
            continue;
        }
        reached[v] = true;
        for &e in &around[v] {
            marked[e] = true;
            marked[twin(e)] = true;
            if want.edges[e].primary {
                todo.extend(want.edges[twin(e)].v0);
            }
        }
    }
    for e in 0..ne {
        let x = got.edges[e].color & ext == ext;
        if x != marked[e] {
            c.bad(format!("color_exterior_edges: edge {e} is {}, by reachability from infinity it is {}", if x { "exterior" } else { "not exterior" }, if marked[e] { "exterior" } else { "not" }));
            return;
        }
    }
    for v in 0..nv {
        let w = if reached[v] { ext } else { want.verts[v].color };
        if got.verts[v].color != w {
            c.bad(format!("color_exterior_edges: vertex {v} has colour {:#x} instead of {w:#x}", got.verts[v].color));
            return;
        }
    }
    let inside = marked.iter().filter(|m| !**m).count();
    c.rep.count("exterior_edges", (ne - inside) as u64);
    c.rep.count("interior_edges", inside as u64);
    c.rep.nontrivial = inside > 0;
}
pub const C18: Plan = Plan {
    id: "C18",
    rule: "generated input of one of 36 families; a history of colour operations, then the exterior; non-trivial: some edges are interior; distinct by input",
    assumptions: FLOOR,
    work: |t| {
        let mut w = api_work(t, 8.0);
        for f in LARGE {
            w.push(work(f, if *f == "l_poly" { 10_000 } else { 60_000 }, 1));
        }
        w
    },
    run: c18,
    need: &[("colour_operations", 50_000), ("exterior_edges", 100_000), ("interior_edges", 20_000)],
};
