//! The diagram itself: what every valid input must yield.
use crate::input::*;
use crate::oracle::*;
use crate::run::*;
use crate::snap::*;

pub const FAMS: &[&str] = &[
    "p_uniform", "p_tinygrid", "p_lattice", "p_circle", "p_collinear", "p_cluster", "p_nearcirc", "p_curve", "p_twolines", "p_extreme", "s_grid",
    "s_random", "s_polygon", "s_star", "s_tangent", "s_comb", "s_polyline", "s_graph", "s_neartouch", "s_tiny", "s_axis", "s_mixed", "s_zero", "s_big", "s_dense", "s_extreme", "z_points", "z_segs", "c_files", "x_union",
];
pub const LARGE: &[&str] = &["l_points", "l_lattice", "l_grid", "l_poly", "l_mixed"];

/// Inputs that are known to break (known_findings.txt): a gap next to a circle so large that
/// its events are closer together than the sweep's event resolution of 64 steps of a double.
pub const FINDINGS: &[(&[P], &[S])] = &[
    (&[], &[[1, 2147483647, 1, 0], [2147483646, 1513020005, 2147483646, -1]]),
    (&[], &[[1799805054, 1141762459, 1799805054, 1141762462], [1799733844, 1141762460, 1799733844, 1141762461]]),
    (&[], &[[1, 16777215, 16777215, 16777214], [-1, 0, 16777214, 16777214]]),
    (&[], &[[16777214, 16777215, 16777215, 0], [16777215, -1, 0, 16777214]]),
    // example/input_data/polygon/issue_43_1.txt
    (&[], &[[0, 10000000, 700000, 1], [700000, 1, 700000, 9000000], [700000, 9000000, 9100000, 9000000], [9100000, 9000000, 9100000, 0], [9100000, 0, 10000000, 10000000], [10000000, 10000000, 0, 10000000]]),
    (&[], &[[700000, 1, 700000, 9000000], [9100000, 9000000, 9100000, 0]]),
];

/// Inputs that broke something once and were repaired.
pub const FIXED: &[(&[P], &[S])] = &[
    (&[[15, 26], [6, 20]], &[[21, 47, 24, 32]]),
    (&[[0, 0], [1, -4]], &[[-18, -13, 18, 2]]),
    (&[[-1, 0], [-2147483647, -2147483648], [-2147483648, 2147483646], [-2147483648, -2147483648]], &[]),
    (&[], &[[0, 0, 1, -6624415], [0, 0, -1, 6625105], [-1, 12661646, -1, 6625105]]),
    (&[[-1, -1], [-1, 1]], &[[0, -157, 0, 511]]),
    (&[], &[[511, 510, 511, -188], [1, 511, -1, 1]]),
    (&[], &[[0, 511, 0, -1], [-512, 1, -1, -1]]),
    (&[], &[[1171354716, 1561806288, 390451572, 2147483646], [1171354716, -1561806288, 390451572, -2147483646], [1561806288, -1171354716, 2147483646, -390451572]]),
    (&[[391574908, 293681181], [0, -489468635]], &[[685256089, -97893727, 293681181, -391574908]]),
    // from the examples of the repository (gaps of one in large inputs)
    (&[], &[[35058881, -35000000, 35058881, -25732145], [35058881, -25732145, 35058882, -19586070]]),
    (&[], &[[35058881, -35000000, 31058881, -35000000], [31058881, -35000000, 25058881, -35000001]]),
    (&[], &[[1403829871, 74, 1403829871, 275], [1403829871, 275, 1403829741, 275], [1403829741, 275, 1403829744, 73]]),
];

/// `k` scales the number of cases
pub fn geom_work(t: Tier, k: f64) -> Vec<Work> {
    let f = t.n(1, 12) as f64 * k;
    let n = |x: f64| (x * f).ceil() as u64;
    let mut v = vec![work("findings", 0, FINDINGS.len() as u64), work("fixed", 0, FIXED.len() as u64)];
    for fam in FAMS {
        v.push(work(fam, 5, n(3000.0)));
        v.push(work(fam, 14, n(6000.0)));
        v.push(work(fam, 60, n(600.0)));
        v.push(work(fam, 300, n(24.0)));
    }
    v.push(work("m_many", 40, n(1500.0)));
    v.push(work("m_many", 300, n(150.0)));
    v.push(work("m_many", 1030, n(16.0)));
    for fam in LARGE {
        v.push(work(fam, 1000, n(6.0)));
        v.push(work(fam, 10_000, n(1.0)));
    }
    // more than 16 bits
    v.push(work("l_points", 66_000, 1));
    v.push(work("l_mixed", 66_000, 1));
    // every small input
    let all = |v: &mut Vec<Work>, e: &'static str| v.push(work(e, 0, crate::gen::enum_len(e)));
    for e in ["e_points", "e_points_big", "e_segs", "e_segs_big", "e_mixed", "e_mixed_big", "e_pairs", "e_pairs_big"] {
        all(&mut v, e);
    }
    if t == Tier::Thorough {
        for fam in LARGE {
            v.push(work(fam, 100_000, 2));
        }
        for e in ["e_triples", "e_triples_big", "e_spread", "e_spread_big", "e_far", "e_far_big"] {
            all(&mut v, e);
        }
    }
    v
}

/// Builds the input of the case in one of the ways the API offers; every failure to
/// build a valid input is a violation of whatever is to hold for all of them.
pub fn built(c: &mut Case) -> Option<(Input, Snap)> {
    let inp = c.input();
    if inp.n() <= 80 && !inp.valid() {
        // the generators promise validity; a shrunken input may lack it
        assert!(c.over.is_some(), "invalid input generated");
        return None;
    }
    build_or_report(c, inp)
}
pub fn build_or_report(c: &mut Case, inp: Input) -> Option<(Input, Snap)> {
    let wide = c.rng.chance(1, 4);
    let r = guarded(|| if wide { build_t::<i64, f64>(&inp).map(|d| snap(&d)) } else { build(&inp).map(|d| snap(&d)) });
    match r {
        Err(m) => {
            c.bad(format!("the build of a valid input panicked: {m}"));
            None
        }
        Ok(Err(e)) => {
            c.bad(format!("the build of a valid input failed: {e:?}"));
            None
        }
        Ok(Ok(s)) => {
            c.rep.count("diagrams", 1);
            c.rep.count("cells", s.cells.len() as u64);
            c.rep.count("vertices", s.verts.len() as u64);
            c.rep.count("half_edges", s.edges.len() as u64);
            Some((inp, s))
        }
    }
}
fn take(c: &mut Case, o: Vec<Viol_>) {
    for m in o {
        c.bad(m);
    }
}
type Viol_ = crate::oracle::Viol;

const ASSUME: &[&str] = &[
    "inputs satisfy the documented contract: segments meet only at endpoints, no point inside a segment, coordinates within the 32-bit range",
    "the library runs as built from /repo's working tree with debug assertions and overflow checks on",
];

fn c01(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let ctx = Ctx::new(&inp, &s);
    let (mut o, mut st) = (vec![], Stats::default());
    check_equidistant(&ctx, K_ULP, &mut o, &mut st);
    c.rep.nontrivial = st.verts > 0;
    c.rep.count("vertex_site_pairs_compared", st.pairs);
    c.rep.max("largest_deviation_in_ulp_steps", st.max_ulp);
    take(c, o);
}
pub const C01: Plan = Plan {
    id: "C01",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families (sizes 5 to 10000 elements), symmetry/scale/translation applied; non-trivial: the diagram has at least one vertex; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c01,
    need: &[("vertices", 10_000)],
};

fn c02(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let ctx = Ctx::new(&inp, &s).bounded(30_000_000);
    let (mut o, mut st) = (vec![], Stats::default());
    check_empty(&ctx, K_ULP, &mut o, &mut st);
    c.rep.nontrivial = st.verts > 0 && ctx.sites.len() > 3;
    c.rep.count("vertex_site_distances", st.pairs);
    c.rep.count("near_ties", st.ties);
    c.rep.max("largest_intrusion_in_ulp_steps", st.max_ulp);
    c.rep.max("largest_part_of_tie_slack", st.max_event);
    take(c, o);
}
pub const C02: Plan = Plan {
    id: "C02",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families; non-trivial: at least one vertex and more than three sites; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c02,
    need: &[("vertices", 10_000)],
};

fn c03(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let mut o = vec![];
    check_cells(&inp, &s, &mut o);
    c.rep.nontrivial = s.cells.len() > 1;
    for cell in &s.cells {
        c.rep.count(["single_point_cells", "segment_start_cells", "segment_end_cells", "segment_cells"][cell.cat as usize], 1);
    }
    take(c, o);
}
pub const C03: Plan = Plan {
    id: "C03",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families, with repeated points and zero-length segments; non-trivial: at least two cells; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c03,
    need: &[("segment_cells", 5_000), ("single_point_cells", 5_000), ("segment_start_cells", 1000), ("segment_end_cells", 1000)],
};

fn c04(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let n = inp.sites().len();
    let (mut o, mut st) = (vec![], Stats::default());
    check_links(&s, &mut o, &mut st);
    let _ = n;
    c.rep.nontrivial = s.edges.len() > 2;
    c.rep.count("infinite_half_edges", st.rays);
    c.rep.count("degenerate_cells", st.degenerate_cells);
    take(c, o);
}
pub const C04: Plan = Plan {
    id: "C04",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families; non-trivial: more than one edge; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c04,
    need: &[("half_edges", 50_000)],
};

fn c05(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let n = inp.sites().len();
    let (mut o, mut st) = (vec![], Stats::default());
    check_planar(&s, n, &mut o, &mut st);
    c.rep.nontrivial = !s.verts.is_empty();
    c.rep.count("vertices_of_degree_above_3", st.hi_degree);
    take(c, o);
}
pub const C05: Plan = Plan {
    id: "C05",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families, with many cocircular and collinear ones; non-trivial: the diagram has a vertex; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c05,
    need: &[("vertices", 10_000), ("vertices_of_degree_above_3", 1000)],
};

fn c06(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let ctx = Ctx::new(&inp, &s).bounded(10_000_000);
    let (mut o, mut st) = (vec![], Stats::default());
    check_edges(&ctx, &mut o, &mut st);
    c.rep.nontrivial = st.edges > 0;
    c.rep.count("edges_sampled", st.edges);
    c.rep.count("parabolic_arcs", st.arcs);
    c.rep.count("infinite_edges", st.rays);
    c.rep.count("sample_points", st.queries);
    take(c, o);
}
pub const C06: Plan = Plan {
    id: "C06",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families; 5 to 11 sample points on every edge (line, ray, segment, parabola); non-trivial: at least one edge; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 0.5),
    run: c06,
    need: &[("edges_sampled", 20_000), ("parabolic_arcs", 2000), ("infinite_edges", 2000)],
};

fn c07(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let ctx = Ctx::new(&inp, &s);
    let (mut o, mut st) = (vec![], Stats::default());
    check_flags(&ctx, &mut o, &mut st);
    c.rep.nontrivial = inp.segs.iter().any(|s| s[0] != s[2] || s[1] != s[3]) && !s.edges.is_empty();
    c.rep.count("curved_half_edges", st.arcs);
    c.rep.count("secondary_half_edges", s.edges.iter().filter(|e| !e.primary).count() as u64);
    take(c, o);
}
pub const C07: Plan = Plan {
    id: "C07",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families; non-trivial: at least one proper segment and one edge; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c07,
    need: &[("curved_half_edges", 5000), ("secondary_half_edges", 5000)],
};

fn c08(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let ctx = Ctx::new(&inp, &s);
    let (mut o, mut st) = (vec![], Stats::default());
    let r = c.rng.clone();
    let nq = if c.work.name == "findings" { 4000 } else { (400_000 / (ctx.sites.len() + 1)).clamp(6, 40) };
    check_walk(&ctx, &r, nq, &mut o, &mut st);
    c.rep.nontrivial = st.walk_steps > 0;
    c.rep.count("queries", st.queries);
    c.rep.count("steps_walked", st.walk_steps);
    take(c, o);
}
pub const C08: Plan = Plan {
    id: "C08",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families, 6 to 40 query points each (around, near vertices, near sites); non-trivial: some query walked at least one step; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 0.6),
    run: c08,
    need: &[("queries", 50_000), ("steps_walked", 20_000)],
};

fn c09(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    // the number of sites bounds the size of a planar subdivision
    let n = inp.sites().len();
    if s.edges.len() > 6 * n + 6 || s.verts.len() > 2 * n + 2 {
        c.bad(format!("{} half-edges and {} vertices for {n} sites", s.edges.len(), s.verts.len()));
    }
    c.rep.nontrivial = n > 1;
    c.rep.max("largest_input", n as f64);
}
pub const C09: Plan = Plan {
    id: "C09",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families up to 200000 elements; non-trivial: at least two sites; distinct by input",
    assumptions: ASSUME,
    work: |t| {
        let mut w = geom_work(t, 3.0);
        for f in LARGE {
            // (the beach line is a list: a polygonal chain can make it as long as the input)
            w.push(work(f, if *f == "l_poly" { 20_000 } else { 60_000 }, 1));
        }
        w.push(work("l_points", 200_000, 1));
        w.push(work("l_mixed", 200_000, 1));
        if t == Tier::Thorough {
            for f in LARGE {
                w.push(work(f, if *f == "l_poly" { 50_000 } else { 500_000 }, 1));
            }
        }
        w
    },
    run: c09,
    need: &[("diagrams", 50_000)],
};

fn c19(c: &mut Case) {
    let Some((inp, s)) = built(c) else { return };
    let pts: std::collections::HashSet<P> = inp.sites().keys().filter_map(|s| if let Site::Pt(p) = s { Some(*p) } else { None }).collect();
    let mut on = 0;
    for (i, v) in s.verts.iter().enumerate() {
        let at = v.x == v.x.trunc() && v.y == v.y.trunc() && pts.contains(&[v.x as i64, v.y as i64]);
        on += at as u64;
        if at != v.site {
            c.bad(format!("vertex {i} at ({:e}, {:e}): is_site_point={} but it {} an input point", v.x, v.y, v.site, if at { "coincides with" } else { "is not at" }));
        }
    }
    c.rep.nontrivial = on > 0 && on < s.verts.len() as u64;
    c.rep.count("vertices_on_sites", on);
}
pub const C19: Plan = Plan {
    id: "C19",
    rule: "every input on small grids (e_ workloads: all sets of points of a 4x4 grid, all sets of up to 3 segments of a 3x3 grid, ...) and generated input of one of 36 families; non-trivial: some vertices coincide with an input point and some do not; distinct by input",
    assumptions: ASSUME,
    work: |t| geom_work(t, 1.0),
    run: c19,
    need: &[("vertices_on_sites", 5000)],
};
