//! The monitors: independent oracles over one finished build. None of them uses any
//! arithmetic of the library; distances are evaluated in double-double.
use crate::dd::DD;
use crate::input::*;
use crate::rng::Rng;
use crate::snap::*;

pub type Viol = String;
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub verts: u64,
    pub edges: u64,
    pub pairs: u64,
    pub max_ulp: f64,
    /// largest part of the tie slack used
    pub max_event: f64,
    /// times a site was closer to a vertex by more than rounding
    pub ties: u64,
    pub arcs: u64,
    pub rays: u64,
    pub queries: u64,
    pub walk_steps: u64,
    pub degenerate_cells: u64,
    pub hi_degree: u64,
}

pub struct Ctx<'a> {
    pub inp: &'a Input,
    pub s: &'a Snap,
    /// all distinct sites of the input, sorted
    pub sites: Vec<Site>,
    /// site of each cell, by what the cell claims about itself
    pub cell_site: Vec<Option<Site>>,
    /// look at every stride-th vertex or edge only (1 except for large inputs)
    pub stride: usize,
    /// largest coordinate
    pub span: f64,
}
impl<'a> Ctx<'a> {
    pub fn new(inp: &'a Input, s: &'a Snap) -> Ctx<'a> {
        Ctx { inp, s, sites: inp.sites().into_keys().collect(), cell_site: s.cells.iter().map(|c| inp.resolve(c.src, c.cat)).collect(), stride: 1, span: inp.max_abs() as f64 }
    }
    /// bound the work of the checks that compare with all sites
    pub fn bounded(mut self, work: usize) -> Ctx<'a> {
        self.stride = (self.s.edges.len() * self.sites.len() / work.max(1)).max(1);
        self
    }
}

// ------------------------------------------------------------------ cells <-> sites
pub fn check_cells(inp: &Input, s: &Snap, out: &mut Vec<Viol>) {
    let sites = inp.sites();
    if s.cells.len() != sites.len() {
        out.push(format!("{} cells for {} distinct sites", s.cells.len(), sites.len()));
    }
    let mut seen = std::collections::BTreeMap::new();
    for (i, c) in s.cells.iter().enumerate() {
        if c.id != i {
            out.push(format!("cell at {i} has id {}", c.id));
        }
        match inp.resolve(c.src, c.cat) {
            None => out.push(format!("cell {i} names no input site: source_index {} category {}", c.src, c.cat)),
            Some(st) => {
                if let Some(o) = seen.insert(st, i) {
                    out.push(format!("cells {o} and {i} name the same site {st:?}"));
                }
                if !sites[&st].contains(&(c.src, c.cat)) {
                    out.push(format!("cell {i}: ({},{}) not a source of {st:?}", c.src, c.cat));
                }
            }
        }
        let want = (c.cat != 3, c.cat == 3, c.cat == 1, c.cat == 2);
        if (c.pt, c.seg, c.start, c.end) != want {
            out.push(format!("cell {i} category {} but contains_point={} segment={} start={} end={}", c.cat, c.pt, c.seg, c.start, c.end));
        }
    }
    for st in sites.keys() {
        if !seen.contains_key(st) {
            out.push(format!("no cell for site {st:?}"));
        }
    }
}

// ------------------------------------------------------------------ half-edge structure
/// every link leads to something that exists; false if some does not
fn check_refs(s: &Snap, out: &mut Vec<Viol>) -> bool {
    let (nc, nv, ne) = (s.cells.len(), s.verts.len(), s.edges.len());
    let n0 = out.len();
    for (i, e) in s.edges.iter().enumerate() {
        for (n, r, lim) in [("cell", e.cell, nc), ("twin", e.twin, ne), ("next", e.next, ne), ("prev", e.prev, ne)] {
            if !r.is_some_and(|x| x < lim) {
                out.push(format!("edge {i}: {n} is {r:?}"));
            }
        }
        if e.v0.is_some_and(|v| v >= nv) {
            out.push(format!("edge {i}: vertex0 is {:?}", e.v0));
        }
        if out.len() > 8 {
            break;
        }
    }
    for (i, c) in s.cells.iter().enumerate() {
        if c.inc.is_some_and(|e| e >= ne) {
            out.push(format!("cell {i}: incident edge is {:?}", c.inc));
        }
    }
    for (i, v) in s.verts.iter().enumerate() {
        if !v.inc.is_some_and(|e| e < ne) {
            out.push(format!("vertex {i}: incident edge is {:?}", v.inc));
        }
    }
    out.len() == n0
}
/// ids, twins, next/prev and the cycles around cells and vertices
pub fn check_links(s: &Snap, out: &mut Vec<Viol>, st: &mut Stats) {
    let (nc, nv, ne) = (s.cells.len(), s.verts.len(), s.edges.len());
    macro_rules! bad { ($($t:tt)*) => {{ if out.len() < 8 { out.push(format!($($t)*)); } }} }
    for (i, v) in s.verts.iter().enumerate() {
        if v.id != i {
            bad!("vertex at {i} has id {}", v.id);
        }
    }
    for (i, e) in s.edges.iter().enumerate() {
        if e.id != i {
            bad!("edge at {i} has id {}", e.id);
        }
    }
    for (i, c) in s.cells.iter().enumerate() {
        if c.id != i {
            bad!("cell at {i} has id {}", c.id);
        }
    }
    if !check_refs(s, out) {
        return;
    }
    let mut per_cell = vec![0usize; nc];
    let mut per_vert = vec![0usize; nv];
    for (i, e) in s.edges.iter().enumerate() {
        let (t, n, p) = (e.twin.unwrap(), e.next.unwrap(), e.prev.unwrap());
        per_cell[e.cell.unwrap()] += 1;
        if let Some(v) = e.v0 {
            per_vert[v] += 1;
        } else {
            st.rays += 1;
        }
        let te = &s.edges[t];
        if t == i || te.twin != Some(i) {
            bad!("edge {i}: twin {t} whose twin is {:?}", te.twin);
        }
        if te.cell == e.cell {
            bad!("edge {i} and its twin both bound cell {:?}", e.cell);
        }
        if te.linear != e.linear || te.primary != e.primary {
            bad!("edge {i}: flags differ from those of its twin");
        }
        if s.edges[n].prev != Some(i) {
            bad!("edge {i}: next {n} whose prev is {:?}", s.edges[n].prev);
        }
        if s.edges[p].next != Some(i) {
            bad!("edge {i}: prev {p} whose next is {:?}", s.edges[p].next);
        }
        if s.edges[n].cell != e.cell {
            bad!("edge {i}: next {n} bounds another cell");
        }
        if s.edges[n].v0 != te.v0 {
            bad!("edge {i}: ends at {:?} but next starts at {:?}", te.v0, s.edges[n].v0);
        }
        st.edges += 1;
    }
    // one cycle per cell, holding all its edges
    for (i, c) in s.cells.iter().enumerate() {
        match c.inc {
            None => {
                st.degenerate_cells += 1;
                if per_cell[i] != 0 {
                    bad!("cell {i} is degenerate but {} edges name it", per_cell[i]);
                }
            }
            Some(e0) => {
                if s.edges[e0].cell != Some(i) {
                    bad!("cell {i}: incident edge {e0} bounds {:?}", s.edges[e0].cell);
                    continue;
                }
                let (mut e, mut k) = (e0, 0usize);
                loop {
                    k += 1;
                    e = s.edges[e].next.unwrap();
                    if e == e0 || k > ne {
                        break;
                    }
                }
                if k != per_cell[i] {
                    bad!("cell {i}: cycle of {k} edges, {} edges name it", per_cell[i]);
                }
            }
        }
    }
    for (i, v) in s.verts.iter().enumerate() {
        let e0 = v.inc.unwrap();
        let (mut e, mut k) = (e0, 0usize);
        loop {
            if s.edges[e].v0 != Some(i) {
                bad!("vertex {i}: rotation reaches edge {e} of vertex {:?}", s.edges[e].v0);
                break;
            }
            k += 1;
            e = s.edges[s.edges[e].prev.unwrap()].twin.unwrap();
            if e == e0 || k > ne {
                break;
            }
        }
        if k != per_vert[i] {
            bad!("vertex {i}: rotation of {k} edges, {} edges start there", per_vert[i]);
        }
        st.verts += 1;
    }
}
/// Euler's formula with the vertex at infinity, degrees, no edge of length zero
pub fn check_planar(s: &Snap, nsites: usize, out: &mut Vec<Viol>, st: &mut Stats) {
    let (nv, ne) = (s.verts.len(), s.edges.len());
    macro_rules! bad { ($($t:tt)*) => {{ if out.len() < 8 { out.push(format!($($t)*)); } }} }
    if !check_refs(s, out) {
        return;
    }
    let mut per_vert = vec![0usize; nv];
    let (mut inf, mut both) = (0usize, 0usize);
    for (i, e) in s.edges.iter().enumerate() {
        let v1 = s.edges[e.twin.unwrap()].v0;
        match e.v0 {
            Some(v) => per_vert[v] += 1,
            None => inf += 1,
        }
        if e.v0.is_none() && v1.is_none() {
            both += 1;
        }
        if let (Some(a), Some(b)) = (e.v0, v1) {
            if a == b {
                bad!("edge {i}: both ends at vertex {a}");
            } else if s.verts[a].x == s.verts[b].x && s.verts[a].y == s.verts[b].y {
                bad!("edge {i} has length zero: vertices {a} and {b} are both at ({:e}, {:e})", s.verts[a].x, s.verts[a].y);
            }
        }
    }
    for (i, k) in per_vert.iter().enumerate() {
        if *k < 3 {
            bad!("vertex {i} has degree {k}");
        }
        if *k > 3 {
            st.hi_degree += 1;
        }
    }
    if ne % 2 != 0 {
        bad!("odd number of half-edges {ne}");
    }
    if both > 0 && nv > 0 {
        bad!("{both} half-edges without any vertex in a diagram of {nv} vertices");
    }
    // a cell reaches infinity once, or twice between two parallel lines
    let mut per_cell_inf = vec![0usize; s.cells.len()];
    for e in &s.edges {
        if e.v0.is_none() {
            per_cell_inf[e.cell.unwrap()] += 1;
        }
    }
    let lim = if nv == 0 { 2 } else { 1 };
    for (i, k) in per_cell_inf.iter().enumerate() {
        if *k > lim {
            bad!("cell {i}: {k} edges come from infinity");
        }
    }
    let faces = s.cells.iter().filter(|c| c.inc.is_some()).count();
    if nsites >= 2 {
        let lhs = nv as i64 + (inf > 0) as i64 - (ne / 2) as i64 + faces as i64;
        if lhs != 2 {
            bad!("Euler: V {nv} + inf {} - E {} + F {faces} = {lhs}", (inf > 0) as i64, ne / 2);
        }
        if inf == 0 {
            bad!("no edge reaches infinity");
        }
    } else if ne != 0 || nv != 0 {
        bad!("{ne} edges and {nv} vertices for {nsites} site(s)");
    }
}
pub fn check_topology(s: &Snap, nsites: usize, out: &mut Vec<Viol>, st: &mut Stats) {
    check_links(s, out, st);
    check_planar(s, nsites, out, st);
}

// ------------------------------------------------------------------ geometry helpers
pub fn ulp(x: f64) -> f64 {
    let a = x.abs();
    if a < f64::MIN_POSITIVE {
        return f64::MIN_POSITIVE * f64::EPSILON;
    }
    f64::from_bits(a.to_bits() + 1) - a
}
/// plain f64 distance to the closed site and the nearest point
pub fn nearest(st: &Site, x: f64, y: f64) -> (f64, [f64; 2]) {
    match st {
        Site::Pt(p) => {
            let (px, py) = (p[0] as f64, p[1] as f64);
            ((x - px).hypot(y - py), [px, py])
        }
        Site::Seg(a, b) => {
            let (ax, ay) = (a[0] as f64, a[1] as f64);
            let (dx, dy) = ((b[0] - a[0]) as f64, (b[1] - a[1]) as f64);
            let t = ((x - ax) * dx + (y - ay) * dy) / (dx * dx + dy * dy);
            let t = t.clamp(0.0, 1.0);
            let q = [ax + t * dx, ay + t * dy];
            if t == 1.0 {
                let q = [b[0] as f64, b[1] as f64];
                return ((x - q[0]).hypot(y - q[1]), q);
            }
            if t == 0.0 {
                return ((x - ax).hypot(y - ay), q);
            }
            (((x - ax) * dy - (y - ay) * dx).abs() / dx.hypot(dy), q)
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct DistDD {
    pub d: DD,
    /// unit gradient
    pub gx: DD,
    pub gy: DD,
}
/// double-double distance from (x, y) to the closed site
pub fn dist_dd(st: &Site, x: DD, y: DD) -> DistDD {
    let pd = |p: &P| {
        let (dx, dy) = (x - DD::int(p[0]), y - DD::int(p[1]));
        let d = (dx * dx + dy * dy).sqrt();
        if d.hi == 0.0 {
            return DistDD { d, gx: DD::ZERO, gy: DD::ZERO };
        }
        DistDD { d, gx: dx / d, gy: dy / d }
    };
    match st {
        Site::Pt(p) => pd(p),
        Site::Seg(a, b) => {
            let (ux, uy) = (DD::int(b[0] - a[0]), DD::int(b[1] - a[1]));
            let (vx, vy) = (x - DD::int(a[0]), y - DD::int(a[1]));
            let dot = vx * ux + vy * uy;
            if dot.hi < 0.0 {
                return pd(a);
            }
            let l2 = ux * ux + uy * uy;
            if (dot - l2).hi > 0.0 {
                return pd(b);
            }
            let c = ux * vy - uy * vx;
            let l = l2.sqrt();
            let (nx, ny) = (-uy / l, ux / l);
            if c.hi < 0.0 {
                DistDD { d: -c / l, gx: -nx, gy: -ny }
            } else {
                DistDD { d: c / l, gx: nx, gy: ny }
            }
        }
    }
}
/// distance to the supporting line of a segment (the circle events use it)
pub fn line_dd(st: &Site, x: DD, y: DD) -> DistDD {
    match st {
        Site::Pt(_) => dist_dd(st, x, y),
        Site::Seg(a, b) => {
            let (ux, uy) = (DD::int(b[0] - a[0]), DD::int(b[1] - a[1]));
            let (vx, vy) = (x - DD::int(a[0]), y - DD::int(a[1]));
            let c = ux * vy - uy * vx;
            let l = (ux * ux + uy * uy).sqrt();
            let (nx, ny) = (-uy / l, ux / l);
            if c.hi < 0.0 {
                DistDD { d: -c / l, gx: -nx, gy: -ny }
            } else {
                DistDD { d: c / l, gx: nx, gy: ny }
            }
        }
    }
}

pub fn vertex_cells(s: &Snap, v: usize) -> Vec<usize> {
    let mut o = vec![];
    if let Some(e0) = s.verts[v].inc {
        let mut e = e0;
        for _ in 0..s.edges.len() + 1 {
            if let Some(c) = s.edges[e].cell {
                o.push(c);
            }
            let Some(p) = s.edges[e].prev else { break };
            let Some(t) = s.edges[p].twin else { break };
            e = t;
            if e == e0 {
                break;
            }
        }
    }
    o
}

/// tolerance, in units in the last place of each coordinate, that a vertex may be off
pub const K_ULP: f64 = 512.0;
/// circle events closer than this, in ulp of x + radius, may be handled in either order
pub const K_EVENT: f64 = 256.0;

/// Every vertex is equidistant to the sites of all its cells.
pub fn check_equidistant(c: &Ctx, k_ulp: f64, out: &mut Vec<Viol>, st: &mut Stats) {
    for (i, v) in c.s.verts.iter().enumerate() {
        if !v.x.is_finite() || !v.y.is_finite() {
            out.push(format!("vertex {i} is at ({}, {})", v.x, v.y));
            continue;
        }
        st.verts += 1;
        let (x, y) = (DD::new(v.x), DD::new(v.y));
        let sites: Vec<Site> = vertex_cells(c.s, i).iter().filter_map(|k| c.cell_site[*k]).collect();
        let ds: Vec<DistDD> = sites.iter().map(|s| dist_dd(s, x, y)).collect();
        let (ux, uy) = (ulp(v.x), ulp(v.y));
        for a in 0..ds.len() {
            for b in 0..a {
                st.pairs += 1;
                let r = (ds[a].d - ds[b].d).abs().f();
                let g = (ds[a].gx - ds[b].gx).abs().f() * ux + (ds[a].gy - ds[b].gy).abs().f() * uy;
                // the gradient of a vanishing distance is not defined: allow the full step
                let g = if ds[a].d.hi < k_ulp * (ux + uy) || ds[b].d.hi < k_ulp * (ux + uy) { 2.0 * (ux + uy) } else { g };
                // second-order change of the gradient over the tolerated step
                let dmin = ds[a].d.hi.min(ds[b].d.hi).max(f64::MIN_POSITIVE);
                let step = k_ulp * (ux + uy);
                // and the rounding of the reference distances themselves
                let floor = step * step / dmin + (ds[a].d.hi + c.span) * 1e-29;
                let q = (r - floor).max(0.0) / g.max(f64::MIN_POSITIVE);
                if q > st.max_ulp {
                    st.max_ulp = q;
                }
                if q > k_ulp {
                    out.push(format!("vertex {i} ({:e}, {:e}): distances {:e} to {:?} and {:e} to {:?} differ by {:e} ({:.1} ulp-steps)", v.x, v.y, ds[a].d.hi, sites[a], ds[b].d.hi, sites[b], r, q));
                    if out.len() > 4 {
                        return;
                    }
                }
            }
        }
    }
}

/// How much closer another site may be to a vertex than the vertex's own sites.
/// The sweep handles a site and a circle event in either order when they are within 64 ulp of
/// each other in x. Where the circle touches the sweep line, 64 ulp in x are the square root of
/// that, times the radius, along the line: that is how far off the loser of such a tie can be.
/// This slack is only granted to a vertex whose circle does end next to a site.
pub fn tie_slack(c: &Ctx, x: f64, y: f64, r: f64) -> f64 {
    let u = ulp(x.abs() + y.abs() + r);
    let lin = K_EVENT * u;
    let root = 8.0 * (K_EVENT * u * 2.0 * r).sqrt();
    let lower = x + r;
    let near = 4.0 * root.max(lin);
    let tie = c.sites.iter().any(|s| match s {
        Site::Pt(p) => (p[0] as f64 - lower).abs() <= near,
        _ => false,
    });
    if tie {
        lin.max(root)
    } else {
        lin
    }
}

/// No site is closer to a vertex than the sites of its cells.
pub fn check_empty(c: &Ctx, k_ulp: f64, out: &mut Vec<Viol>, st: &mut Stats) {
    for (i, v) in c.s.verts.iter().enumerate().step_by(c.stride) {
        if !v.x.is_finite() || !v.y.is_finite() {
            out.push(format!("vertex {i} is at ({}, {})", v.x, v.y));
            continue;
        }
        st.verts += 1;
        let own: Vec<Site> = vertex_cells(c.s, i).iter().filter_map(|k| c.cell_site[*k]).collect();
        if own.is_empty() {
            continue;
        }
        let (x, y) = (DD::new(v.x), DD::new(v.y));
        let ds: Vec<DistDD> = own.iter().map(|s| dist_dd(s, x, y)).collect();
        let (ux, uy) = (ulp(v.x), ulp(v.y));
        let dref = ds[0].d.hi;
        for s in &c.sites {
            st.pairs += 1;
            let (d, _) = nearest(s, v.x, v.y);
            if d > dref * (1.0 + 1e-12) + k_ulp * 4.0 * (ux + uy) || own.contains(s) {
                continue;
            }
            let t = dist_dd(s, x, y);
            for (j, o) in ds.iter().enumerate() {
                let r = (o.d - t.d).f();
                if r <= 0.0 {
                    continue;
                }
                let step = k_ulp * (ux + uy);
                let g = (o.gx - t.gx).abs().f() * ux + (o.gy - t.gy).abs().f() * uy;
                let g = if o.d.hi < step || t.d.hi < step { 2.0 * (ux + uy) } else { g };
                let dmin = o.d.hi.min(t.d.hi).max(f64::MIN_POSITIVE);
                let floor = step * step / dmin + (o.d.hi + c.span) * 1e-29;
                let q = (r - floor).max(0.0) / g.max(f64::MIN_POSITIVE);
                if q <= k_ulp {
                    if q > st.max_ulp {
                        st.max_ulp = q;
                    }
                    continue;
                }
                let slack = tie_slack(c, v.x, v.y, o.d.hi);
                st.ties += 1;
                if r / slack > st.max_event {
                    st.max_event = r / slack;
                }
                if r > slack {
                    out.push(format!("vertex {i} ({:e}, {:e}): site {s:?} at {:e} is closer than its own {:?} at {:e} by {:e} ({q:.1} ulp-steps, {:.1} of the tie slack)", v.x, v.y, t.d.hi, own[j], o.d.hi, r, r / slack));
                    if out.len() > 4 {
                        return;
                    }
                }
            }
        }
    }
}

/// what the two sites of an edge say about its flags: (linear, primary)
pub fn edge_kind(a: &Site, b: &Site) -> (bool, bool) {
    match (a, b) {
        (Site::Pt(_), Site::Pt(_)) | (Site::Seg(..), Site::Seg(..)) => (true, true),
        (Site::Pt(p), s) | (s, Site::Pt(p)) => {
            if s.has_endpoint(p) {
                (true, false)
            } else {
                (false, true)
            }
        }
    }
}
pub fn check_flags(c: &Ctx, out: &mut Vec<Viol>, st: &mut Stats) {
    for (i, e) in c.s.edges.iter().enumerate() {
        let (Some(a), Some(t)) = (e.cell.and_then(|x| c.cell_site[x]), e.twin) else { continue };
        let Some(b) = c.s.edges[t].cell.and_then(|x| c.cell_site[x]) else { continue };
        st.edges += 1;
        if (e.linear, e.primary) != edge_kind(&a, &b) {
            out.push(format!("edge {i} between {a:?} and {b:?}: linear={} primary={}", e.linear, e.primary));
        }
        if !e.linear {
            st.arcs += 1;
        }
    }
}

/// sample points of an edge, (x, y, direction of travel x, y)
pub fn edge_samples(c: &Ctx, e: usize, scale: f64) -> Result<Vec<[f64; 4]>, String> {
    let ed = &c.s.edges[e];
    let a = ed.cell.and_then(|x| c.cell_site[x]).ok_or("no site")?;
    let tw = ed.twin.ok_or("no twin")?;
    let b = c.s.edges[tw].cell.and_then(|x| c.cell_site[x]).ok_or("no site")?;
    let v = |k: Option<usize>| k.map(|k| [c.s.verts[k].x, c.s.verts[k].y]);
    let (v0, v1) = (v(ed.v0), v(c.s.edges[tw].v0));
    let mut o = vec![];
    match (v0, v1) {
        (Some(p), Some(q)) => {
            let (lin, _) = edge_kind(&a, &b);
            if lin {
                for t in [0.5, 0.25, 0.75, 0.03, 0.97] {
                    o.push([p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t, q[0] - p[0], q[1] - p[1]]);
                }
            } else {
                let (f, sg, s2) = match (a, b) {
                    (Site::Pt(f), Site::Seg(s, t)) | (Site::Seg(s, t), Site::Pt(f)) => (f, s, t),
                    _ => unreachable!(),
                };
                // frame: origin at the focus, u along the segment, n from the line to the focus
                let (dx, dy) = ((s2[0] - sg[0]) as f64, (s2[1] - sg[1]) as f64);
                let l = dx.hypot(dy);
                let (ux, uy) = (dx / l, dy / l);
                let h = cross(sg, s2, f) as f64 / l; // signed distance focus above the line
                if h == 0.0 {
                    return Err("curved edge between a segment and a point of its line".into());
                }
                let (nx, ny) = (-uy, ux);
                let tp = |p: [f64; 2]| (p[0] - f[0] as f64) * ux + (p[1] - f[1] as f64) * uy;
                let (t0, t1) = (tp(p), tp(q));
                for t in [0.5, 0.25, 0.75, 0.03, 0.97] {
                    let t = t0 + (t1 - t0) * t;
                    // height over the line: (t^2 + h^2) / 2h ; relative to the focus: minus h
                    let yy = (t * t - h * h) / (2.0 * h);
                    // tangent du=1, dn = t/h
                    let sgn = (t1 - t0).signum();
                    let (tu, tn) = (sgn, sgn * t / h);
                    o.push([f[0] as f64 + ux * t + nx * yy, f[1] as f64 + uy * t + ny * yy, ux * tu + nx * tn, uy * tu + ny * tn]);
                }
            }
        }
        _ => {
            // direction in which A is on the left: rot(-90) of (towards A from B)
            let (wx, wy) = match (a, b) {
                (Site::Pt(p), Site::Pt(q)) => ((p[0] - q[0]) as f64, (p[1] - q[1]) as f64),
                (Site::Pt(p), Site::Seg(s, t)) | (Site::Seg(s, t), Site::Pt(p)) => {
                    let sign = if a.is_seg() { 1.0 } else { -1.0 };
                    let other = if p == s {
                        t
                    } else if p == t {
                        s
                    } else {
                        return Err(format!("unbounded edge between {a:?} and {b:?}"));
                    };
                    (sign * (other[0] - p[0]) as f64, sign * (other[1] - p[1]) as f64)
                }
                _ => return Err(format!("unbounded edge between {a:?} and {b:?}")),
            };
            let l = wx.hypot(wy);
            let (dx, dy) = (wy / l, -wx / l);
            let base;
            let signs: &[f64];
            match (v0, v1) {
                (Some(p), None) => {
                    base = p;
                    signs = &[1.0];
                }
                (None, Some(p)) => {
                    base = p;
                    signs = &[-1.0];
                }
                _ => {
                    base = match (a, b) {
                        (Site::Pt(p), Site::Pt(q)) => [(p[0] as f64 + q[0] as f64) / 2.0, (p[1] as f64 + q[1] as f64) / 2.0],
                        (Site::Pt(p), _) | (_, Site::Pt(p)) => [p[0] as f64, p[1] as f64],
                        _ => unreachable!(),
                    };
                    signs = &[1.0, -1.0];
                    o.push([base[0], base[1], dx, dy]);
                }
            }
            for sg in signs {
                for t in [0.01, 0.3, 1.0, 10.0, 1e4] {
                    o.push([base[0] + sg * dx * t * scale, base[1] + sg * dy * t * scale, dx, dy]);
                }
            }
        }
    }
    Ok(o)
}

/// Every point of every edge is nearest to the edge's two sites and to nothing closer, with
/// the edge's own cell on its left.
pub fn check_edges(c: &Ctx, out: &mut Vec<Viol>, st: &mut Stats) {
    let scale = (c.inp.max_abs() as f64).max(1.0);
    // twins are adjacent in the list, but nothing here relies on it
    let step = if c.stride == 1 { 1 } else { 2 * c.stride + 1 };
    for e in (0..c.s.edges.len()).step_by(step) {
        let ed = &c.s.edges[e];
        let Some(tw) = ed.twin else { continue };
        if tw < e && step == 1 {
            continue;
        }
        let (Some(a), Some(b)) = (ed.cell.and_then(|x| c.cell_site[x]), c.s.edges[tw].cell.and_then(|x| c.cell_site[x])) else { continue };
        let sm = match edge_samples(c, e, scale) {
            Ok(x) => x,
            Err(m) => {
                out.push(format!("edge {e}: {m}"));
                continue;
            }
        };
        st.edges += 1;
        if !ed.linear {
            st.arcs += 1;
        }
        let v = |k: Option<usize>| k.map(|k| [c.s.verts[k].x, c.s.verts[k].y]);
        let (v0, v1) = (v(ed.v0), v(c.s.edges[tw].v0));
        if v0.is_none() || v1.is_none() {
            st.rays += 1;
        }
        // absolute slack: the ends may be off by K ulp each, the sample by its own rounding
        let verr = [v0, v1].iter().flatten().map(|p| K_ULP * (ulp(p[0]) + ulp(p[1]))).fold(0.0, f64::max);
        // an end that lost a tie may be nearer to another site; so is then the edge
        let off = [v0, v1].iter().flatten().map(|p| {
            let r = nearest(&a, p[0], p[1]).0;
            let m = c.sites.iter().map(|s| nearest(s, p[0], p[1]).0).fold(f64::MAX, f64::min);
            (r - m).max(0.0).min(tie_slack(c, p[0], p[1], r))
        }).fold(0.0, f64::max);
        for p in sm {
            let (x, y) = (p[0], p[1]);
            let (da, qa) = nearest(&a, x, y);
            let (db, qb) = nearest(&b, x, y);
            let m = x.abs().max(y.abs()).max(scale).max(da);
            let tol = 2.0 * verr + m * 1e-14 + 2.0 * K_EVENT * ulp(m);
            let mut other = f64::MAX;
            st.queries += 1;
            if (da - db).abs() > tol {
                out.push(format!("edge {e} of {a:?}|{b:?} passes ({x:e}, {y:e}) at distances {da:e} and {db:e}"));
            }
            for s in &c.sites {
                let (d, _) = nearest(s, x, y);
                if *s != a && *s != b {
                    other = other.min(d);
                }
                if d < da.min(db) - tol - 2.0 * off {
                    out.push(format!("edge {e} of {a:?}|{b:?} passes ({x:e}, {y:e}) at distance {da:e}, but {s:?} is at {d:e}"));
                    break;
                }
            }
            // orientation
            let l = p[2].hypot(p[3]);
            if l > 8.0 * verr && l > 0.0 {
                let (dx, dy) = (p[2] / l, p[3] / l);
                let side = |q: [f64; 2]| dx * (q[1] - y) - dy * (q[0] - x);
                let (sa, sb) = (side(qa), side(qb));
                let gap = (qa[0] - qb[0]).hypot(qa[1] - qb[1]);
                // two vertices that lost a tie may be in the wrong order along the edge, but then the
                // edge is not the border of these two cells alone
                let clear = other > da.max(db) + tol;
                if gap > 4.0 * tol && clear && sa - sb < -tol - 1e-6 * gap {
                    out.push(format!("edge {e}: its cell {a:?} lies to the right of ({x:e},{y:e})->({dx:e},{dy:e})"));
                }
            }
            if out.len() > 4 {
                return;
            }
        }
    }
}

/// Walking from any cell to a neighbour that is closer ends at the nearest site.
pub fn check_walk(c: &Ctx, r: &Rng, nq: usize, out: &mut Vec<Viol>, st: &mut Stats) {
    let nc = c.s.cells.len();
    if nc == 0 || c.cell_site.iter().any(|x| x.is_none()) {
        return;
    }
    let mut adj: Vec<Vec<usize>> = vec![vec![]; nc];
    for e in &c.s.edges {
        if let (Some(a), Some(t)) = (e.cell, e.twin) {
            if let Some(b) = c.s.edges[t].cell {
                adj[a].push(b);
            }
        }
    }
    let (mut lo, mut hi) = ([f64::MAX; 2], [f64::MIN; 2]);
    for s in &c.sites {
        let ps = match s {
            Site::Pt(p) => [*p, *p],
            Site::Seg(a, b) => [*a, *b],
        };
        for p in ps {
            for k in 0..2 {
                lo[k] = lo[k].min(p[k] as f64);
                hi[k] = hi[k].max(p[k] as f64);
            }
        }
    }
    let w = (hi[0] - lo[0]).max(hi[1] - lo[1]).max(1.0);
    let scale = (c.inp.max_abs() as f64).max(1.0);
    for _ in 0..nq {
        let q = match r.below(6) {
            0 => [lo[0] + (r.f() * 3.0 - 1.0) * w, lo[1] + (r.f() * 3.0 - 1.0) * w],
            1 | 2 => [lo[0] + r.f() * w, lo[1] + r.f() * w],
            3 if !c.s.verts.is_empty() => {
                let v = &c.s.verts[r.below(c.s.verts.len() as u64) as usize];
                let k = w * 10f64.powf(-6.0 * r.f());
                [v.x + (r.f() - 0.5) * k, v.y + (r.f() - 0.5) * k]
            }
            _ => {
                let s = r.pick(&c.sites);
                let p = match s {
                    Site::Pt(p) => [p[0] as f64, p[1] as f64],
                    Site::Seg(a, b) => {
                        let f = r.f();
                        [a[0] as f64 + f * (b[0] - a[0]) as f64, a[1] as f64 + f * (b[1] - a[1]) as f64]
                    }
                };
                let k = w * 10f64.powf(-8.0 * r.f());
                [p[0] + (r.f() - 0.5) * k, p[1] + (r.f() - 0.5) * k]
            }
        };
        let best = c.sites.iter().map(|s| nearest(s, q[0], q[1]).0).fold(f64::MAX, f64::min);
        let tol = (q[0].abs() + q[1].abs() + scale) * 1e-14;
        // cells without edges cannot be walked from, and need not be reached
        let mut cur = r.below(nc as u64) as usize;
        if adj[cur].is_empty() && nc > 1 {
            let Some(x) = (0..nc).map(|i| (i + cur) % nc).find(|i| !adj[*i].is_empty()) else {
                out.push("no cell has an edge".into());
                return;
            };
            cur = x;
        }
        let mut d = nearest(&c.cell_site[cur].unwrap(), q[0], q[1]).0;
        st.queries += 1;
        // ties within rounding are explored too
        let mut seen = std::collections::HashSet::new();
        seen.insert(cur);
        let mut front = vec![cur];
        while let Some(x) = front.pop() {
            for y in &adj[x] {
                let dy = nearest(&c.cell_site[*y].unwrap(), q[0], q[1]).0;
                if dy < d - tol {
                    d = dy;
                    front.clear();
                    seen.clear();
                    seen.insert(*y);
                    front.push(*y);
                    st.walk_steps += 1;
                    break;
                } else if dy <= d + tol && seen.insert(*y) {
                    front.push(*y);
                }
            }
        }
        if d > best + 4.0 * tol {
            out.push(format!("query ({:e}, {:e}): walk from cell {cur} ends at distance {d:e}, the nearest site is at {best:e}", q[0], q[1]));
            if out.len() > 4 {
                return;
            }
        }
    }
}
